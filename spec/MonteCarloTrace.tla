---------------------------- MODULE MonteCarloTrace ----------------------------
(***************************************************************************)
(* C12: sessions of random configurations of one chain.  Events: chain     *)
(* (model, links, angle, stiffness), config (the positions p along the     *)
(* chain and the end-to-end length l, both from the same random numbers;   *)
(* odd = 1 when these start with extreme draws), end.                      *)
(* Every configuration is a behaviour of MonteCarlo.tla.  The state keeps  *)
(* sums over all links of the session, by which directions, azimuths and   *)
(* lengths are distributed as specified (six standard deviations).         *)
(***************************************************************************)
EXTENDS MonteCarlo, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES at, c, acc, whole, failed
vars == <<at, c, acc, whole, failed>>
Ev == Trace[at]
NextAt == IF at = Len(Trace) \/ Trace[at + 1].s = 1 THEN 0 ELSE at + 1
Bad(n, ok) == IF ok THEN {} ELSE {n}
Report(f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", at, f>>)
Fin(v) == v[1] # 9 /\ v[1] # 8
\* ---- statistics: name, mean, variance ---------------------------------------
S(n, m, v) == [n |-> n, m |-> m, v |-> v]
Directions == << S("x", R0, Frac(1, 3)), S("y", R0, Frac(1, 3)), S("z", R0, Frac(1, 3)),
                 S("xx", Frac(1, 3), Frac(4, 45)), S("yy", Frac(1, 3), Frac(4, 45)), S("zz", Frac(1, 3), Frac(4, 45)),
                 S("xy", R0, Frac(1, 15)), S("yz", R0, Frac(1, 15)), S("zx", R0, Frac(1, 15)),
                 S("zzzz", Frac(1, 5), Frac(16, 225)), S("successive links", R0, Frac(1, 3)) >>
Azimuths == << S("first y", R0, Half), S("first z", R0, Half), S("first yy", Half, Frac(1, 8)),
               S("cos torsion", R0, Half), S("sin torsion", R0, Half), S("cos^2 torsion", Half, Frac(1, 8)), S("cos sin torsion", R0, Frac(1, 8)) >>
Lengths(ch) == << S("length", R0, Inv(ch.kappa)), S("length squared", Inv(ch.kappa), RMul(R2, Sq(Inv(ch.kappa)))) >>
Stats(ch) == (IF Fixed(ch) THEN Azimuths ELSE Directions) \o (IF Extensible(ch) THEN Lengths(ch) ELSE <<>>)
Empty(ch) == [i \in 1..Len(Stats(ch)) |-> [n |-> 0, sum |-> R0]]
Perp(u, d) == LET w == VSub(u, VScale(Dot(u, d), d)) IN VScale(Inv(NormV(w)), w)
\* values of the statistics for the link l that follows state s (direction dd before s.d), in the order of Stats
Values(s, dd, e, len) ==
   (IF Fixed(c)
    THEN LET p == Perp(e, s.d)  q == IF s.links = 0 THEN p ELSE Perp(dd, s.d)
             co == Dot(p, q)  si == Dot(s.d, Cross(q, p))
         IN  <<p[2], p[3], Sq(p[2]), co, si, Sq(co), RMul(co, si)>>
    ELSE <<e[1], e[2], e[3], Sq(e[1]), Sq(e[2]), Sq(e[3]), RMul(e[1], e[2]), RMul(e[2], e[3]), RMul(e[3], e[1]), Sq(Sq(e[3])), Dot(e, s.d)>>)
   \o (IF Extensible(c) THEN <<RSub(len, R1), Sq(RSub(len, R1))>> ELSE <<>>)
Applies(i, s) == IF Fixed(c) THEN IF i <= 3 THEN s.links = 0 ELSE IF i <= 7 THEN s.links > 0 ELSE TRUE
                 ELSE i # 11 \/ s.links > 0
Count(a, s, dd, l, len) ==
   LET v == Values(s, dd, VScale(Inv(len), l), len)
   IN  TLCEval([i \in 1..Len(v) |-> IF Applies(i, s) THEN [n |-> a[i].n + 1, sum |-> RAdd(a[i].sum, v[i])] ELSE a[i]])
\* statistics of whole configurations of m links: links further apart are independent, too
Mean2(ch) == IF Extensible(ch) THEN RAdd(R1, Inv(ch.kappa)) ELSE R1
Mean4(ch) == IF Extensible(ch) THEN RSum(<<R1, RMul(R6, Inv(ch.kappa)), RMul(R3, Sq(Inv(ch.kappa)))>>) ELSE R1
Whole(ch) ==
   LET n == RInt(ch.n)  m == RInt(ch.n - 1) IN
   IF Fixed(ch)
   THEN << S("torsions along the chain", RDiv(m, R2), RSub(RDiv(Sq(m), R2), RMul(Frac(3, 8), m))) >>
   ELSE << S("end-to-end length squared", RMul(n, Mean2(ch)),
             RAdd(RMul(n, RSub(Mean4(ch), Sq(Mean2(ch)))), RMul(Frac(2, 3), RMul(RMul(n, m), Sq(Mean2(ch)))))) >>
\* its value for one configuration: r the last position, the sums of the statistics before (a) and after (b)
WholeValue(ch, r, a, b) == IF Fixed(ch) THEN Sq(RSub(b[4].sum, a[4].sum)) ELSE Dot(r, r)
WholeCount(ch, w, r, a, b) == [w EXCEPT !.n = @ + 1, !.sum = RAdd(@, WholeValue(ch, r, a, b))]
Nothing == [n |-> 0, sum |-> R0]
\* ---- one configuration ------------------------------------------------------
Tol == Dec(1, 9)
RECURSIVE Walk(_, _, _, _, _)
Walk(p, s, dd, a, bad) ==
   IF s.links = Len(p) THEN [acc |-> a, bad |-> bad]
   ELSE LET l == VSub(p[s.links + 1], s.r)
            b == Bad("link length", UnitLength(c, l, Tol)) \cup Bad("bond angle", Angle(c, s.d, l, RMul(R2, Tol)))
        IN  Walk(p, TLCEval([Link(s, l) EXCEPT !.r = p[s.links + 1]]), s.d, IF b = {} /\ Dot(l, l)[1] # 0 THEN Count(a, s, dd, l, NormV(l)) ELSE a, bad \cup b)
Init == at \in Starts /\ c = <<>> /\ acc = <<>> /\ whole = Nothing /\ failed = {}
Begin == /\ at > 0 /\ Ev.tag = "chain"
         /\ c' = [mod |-> Ev.mod, n |-> Ev.n, theta |-> Ev.theta, cos |-> TLCEval(Cos(Ev.theta)), kappa |-> Ev.kappa]
         /\ acc' = TLCEval(Empty(c')) /\ whole' = Nothing /\ failed' = {} /\ at' = NextAt
Config ==
   /\ at > 0 /\ Ev.tag = "config"
   /\ IF Len(Ev.p) # c.n THEN failed' = {"number of links"} /\ UNCHANGED <<acc, whole>>
      ELSE IF \E i \in 1..c.n, j \in 1..3 : ~Fin(Ev.p[i][j]) THEN failed' = {"position is not a number"} /\ UNCHANGED <<acc, whole>>
      ELSE LET w == Walk(Ev.p, Origin, Origin.d, acc, {}) IN
             /\ acc' = IF Ev.odd = 1 THEN acc ELSE w.acc
             /\ whole' = IF Ev.odd = 1 \/ w.bad # {} THEN whole ELSE TLCEval(WholeCount(c, whole, Ev.p[c.n], acc, w.acc))
             /\ failed' = w.bad \cup Bad("end-to-end length", Fin(Ev.l) /\ Within(Ev.l, NormV(Ev.p[c.n]), Dec(1, 12), Dec(1, 14)))
   /\ UNCHANGED c /\ Report(failed') /\ at' = NextAt
End ==
   /\ at > 0 /\ Ev.tag = "end"
   /\ LET st == Stats(c)
          Close(x, t, k) == Le(RAbs(RSub(RDiv(x.sum, RInt(x.n)), t.m)), RMul(k, Sqrt(RDiv(t.v, RInt(x.n)))))
      IN
      failed' = (IF whole.n < 40 \/ c.n = 1 THEN {} ELSE Bad("distribution of " \o Whole(c)[1].n, Close(whole, Whole(c)[1], R8))) \cup UNION { IF acc[i].n < 100 THEN {}
                        ELSE Bad("distribution of " \o st[i].n,
                                 Close(acc[i], st[i], R6)) : i \in 1..Len(st) }
   /\ UNCHANGED <<c, acc, whole>> /\ Report(failed') /\ at' = NextAt
Next == Begin \/ Config \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
