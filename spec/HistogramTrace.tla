---------------------------- MODULE HistogramTrace ----------------------------
(***************************************************************************)
(* C13: recorded histograms.  Events: histogram (model, links, bins), the  *)
(* samples (end-to-end lengths l that the library's sampler gives for the  *)
(* same random numbers), ret (bin centres x and densities y).              *)
(* A length within rounding of an edge may be counted on either side: the  *)
(* state holds a lower and an upper count per bin.                         *)
(***************************************************************************)
EXTENDS Histogram, Chain, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES at, h, lo, hi, failed
vars == <<at, h, lo, hi, failed>>
Ev == Trace[at]
NextAt == IF at = Len(Trace) \/ Trace[at + 1].s = 1 THEN 0 ELSE at + 1
Bad(n, ok) == IF ok THEN {} ELSE {n}
Report(f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", at, f>>)
Fin(v) == v[1] # 9 /\ v[1] # 8
\* the largest length per link: contour length, the straight zigzag of fixed angles, or as given
Max(e) == CASE e.mod = "fjc" -> R1
            [] e.mod = "frc" -> LET co == Cos(RMul(Half, e.theta)) si == Sin(RMul(Half, e.theta)) IN
                                IF e.n % 2 = 0 THEN co ELSE Sqrt(RAdd(Sq(co), Sq(RDiv(si, RInt(e.n)))))
            [] OTHER -> e.gmax
Near(g, x) == Within(g, x, Dec(1, 11), R0)
Init == at \in Starts /\ h = <<>> /\ lo = <<>> /\ hi = <<>> /\ failed = {}
Begin == /\ at > 0 /\ Ev.tag = "histogram"
         /\ h' = TLCEval([bins |-> Ev.bins, max |-> Max(Ev), n |-> Ev.n, samples |-> Ev.samples, mod |-> Ev.mod])
         /\ lo' = TLCEval(Empty(h')) /\ hi' = TLCEval(Empty(h')) /\ failed' = {} /\ at' = NextAt
Sample ==
   /\ at > 0 /\ Ev.tag = "sample"
   /\ IF ~Fin(Ev.l) THEN failed' = {"length is not a number"} /\ UNCHANGED <<lo, hi>>
      ELSE LET g == RDiv(Ev.l, RInt(h.n))
               i == Bin(h, g)
               \* the bins across an edge that is at g, up to rounding
               S == IF i = 0 THEN IF Near(g, h.max) THEN {h.bins} ELSE {}
                    ELSE (IF i > 1 /\ Near(g, Edge(h, i - 1)) THEN {i - 1} ELSE {}) \cup (IF Near(g, Edge(h, i)) THEN {i + 1} ELSE {})
               edge == S # {}
           IN  /\ lo' = TLCEval(Put(lo, IF edge THEN 0 ELSE i))
               /\ hi' = TLCEval([samples |-> hi.samples + 1, count |-> [j \in 1..h.bins |-> hi.count[j] + (IF j = i \/ j \in S THEN 1 ELSE 0)]])
               /\ failed' = Bad("length beyond the maximum", h.mod \in {"efjc", "efrc"} \/ Le(g, RMul(h.max, RAdd(R1, Dec(1, 11)))))
   /\ UNCHANGED h /\ Report(failed') /\ at' = NextAt
\* samples beyond the stated maximum of an extensible chain are refused
Refused == h.mod \in {"efjc", "efrc"} /\ Trace[at].x = <<>>
RECURSIVE AnyBeyond(_)
AnyBeyond(k) == IF Trace[k].tag # "sample" THEN FALSE ELSE IF Gt(RDiv(Trace[k].l, RInt(h.n)), RMul(h.max, RSub(R1, Dec(1, 11)))) THEN TRUE ELSE AnyBeyond(k - 1)
Ret ==
   /\ at > 0 /\ Ev.tag = "ret"
   /\ failed' = (IF Refused /\ AnyBeyond(at - 1) THEN {}
                 ELSE IF Len(Ev.x) # h.bins \/ Len(Ev.y) # h.bins THEN {"no result"}
                 ELSE UNION { Bad("bin centre", Fin(Ev.x[i]) /\ Within(Ev.x[i], Center(h, i), Dec(1, 12), R0))
                              \cup Bad("density", /\ Fin(Ev.y[i])
                                                  /\ Ge(Ev.y[i], RMul(Density(h, lo.count[i], lo.samples), RSub(R1, Dec(1, 12))))
                                                  /\ Le(Ev.y[i], RMul(Density(h, hi.count[i], hi.samples), RAdd(R1, Dec(1, 12))))) : i \in 1..h.bins })
   /\ UNCHANGED <<h, lo, hi>> /\ Report(failed') /\ at' = NextAt
\* the exact share of a freely jointed chain of n links in bin i: Simpson's rule on the radial density of Chain.tla
Radial(n, g) == IF g[1] = 0 \/ Ge(g, R1) THEN R0 ELSE RMul(RMul(R4, Pi), RMul(Sq(g), FjcP(n, g)))
Share(m, n, i) ==
   LET k == 2 * (1 + 256 \div m.bins)
       x(j) == RMul(m.max, RDiv(RInt(k * (i - 1) + j), RInt(k * m.bins)))
   IN  RMul(RDiv(m.max, RInt(3 * k * m.bins)), RSum([j \in 1..k + 1 |-> RMul(RInt(IF j \in {1, k + 1} THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2), Radial(n, x(j - 1)))]))
\* the count of a bin is binomial: seven standard deviations, and a few samples for bins that are hardly ever met
Binomial(n, p, y) == Le(RAbs(RSub(y, RMul(RInt(n), p))), RAdd(RInt(8), RMul(R7, Sqrt(RAbs(RMul(RInt(n), p))))))
\* many samples of chains that cannot exceed the maximum: the density integrates to one
Mass ==
   /\ at > 0 /\ Ev.tag = "mass"
   /\ LET m == TLCEval([bins |-> Ev.bins, max |-> Max(Ev)])
          w == RDiv(m.max, RInt(m.bins))
      IN  failed' = IF Len(Ev.x) # Ev.bins \/ Len(Ev.y) # Ev.bins THEN {"no result"}
                    ELSE IF \E i \in 1..Ev.bins : ~Fin(Ev.x[i]) \/ ~Fin(Ev.y[i]) THEN {"density is not a number"}
                    ELSE Bad("samples are lost", Near(RMul(RSum(Ev.y), w), R1))
                         \cup Bad("counts", \A i \in 1..Ev.bins : Ev.y[i][1] >= 0)
                         \cup (IF Ev.mod # "fjc" \/ Ev.n < 4 THEN {} ELSE Bad("distribution of the chain",
                                 \A i \in 1..Ev.bins : Binomial(Ev.samples, Share(m, Ev.n, i), RMul(RInt(Ev.samples), RMul(w, Ev.y[i])))))
                         \cup UNION { Bad("bin centre", Within(Ev.x[i], RMul(w, Frac(2 * i - 1, 2)), Dec(1, 12), R0)) : i \in 1..Ev.bins }
   /\ UNCHANGED <<h, lo, hi>> /\ Report(failed') /\ at' = NextAt
Next == Mass \/ Begin \/ Sample \/ Ret
Spec == Init /\ [][Next]_vars
=============================================================================
