-------------------------- MODULE DistributionTrace --------------------------
(***************************************************************************)
(* C07: the equilibrium distribution of an object over its whole support:  *)
(* g the (nondimensional) lengths, the midpoints of cells of width w, p    *)
(* the vector distribution, q the radial one, h the relative Helmholtz     *)
(* free energy of the chain at every fifth length; pd, qd the densities    *)
(* there in units of length.                                               *)
(***************************************************************************)
EXTENDS Reference, TraceRun
SumSeq(s) == LET f(k) == s[k] IN Sum(f, 1, Len(s))
Noise(c, a, g) ==       \* rounding of -ln p
   IF c.fam = "swfjc" THEN RMul(N(a), RMul(R4, PhiErr(TC(c), a, ZERO)))
   ELSE IF c.fam = "fjc" /\ ~c.leg THEN RMul(R4, PsiErrM(c, a, g))
   ELSE RMul(N(a), Dec(1, 10))
\* the exact density is not constructed from the library's quadrature, and has kinks for few links
NormTol(c, a) == IF c.fam = "fjc" /\ ~c.leg THEN Dec(1, 4) ELSE IF c.fam = "swfjc" THEN Dec(1, 6) ELSE Dec(1, 8)
JudgeDistribution(first, prev, ev) ==
   LET c == RowOf(ev.mod)  a == ev.a  n == Len(ev.g)
       bad == \E k \in 1..n : ~Fin(ev.p[k]) \/ ~Fin(ev.q[k])
       badh == \E k \in 1..Len(ev.h) : ~Fin(ev.h[k]) \/ ~Fin(ev.pd[k]) \/ ~Fin(ev.qd[k])
       tiny == P10(-200)
       idx(j) == 5 * (j - 1) + 3      \* index of the length at which h[j] was evaluated
       \* reference for ratios: the most likely of those lengths
       top == CHOOSE j \in 1..Len(ev.h) : \A k \in 1..Len(ev.h) : Le(ev.p[idx(k)], ev.p[idx(j)])
   IN  IF bad \/ badh THEN {"nonfinite distribution"}
       ELSE Bad("non-negative", \A k \in 1..n : ev.p[k][1] >= 0 /\ ev.q[k][1] >= 0)
            \cup Bad("radial distribution", \A k \in 1..n :
                     Within(ev.q[k], RMul(RMul(RMul(R4, Pi), Sq(ev.g[k])), ev.p[k]), Dec(1, 10), tiny))
            \cup Bad("density of end-to-end vectors", \A j \in 1..Len(ev.h) :
                     Within(ev.pd[j], RDiv(ev.p[idx(j)], PowInt(NL(a), 3)), RAdd(RMul(Dec(1, 9), RAdd(R1, RMul(Dec(1, 3), N(a)))), Noise(c, a, ev.g[idx(j)])), tiny))
            \cup Bad("density of end-to-end lengths", \A j \in 1..Len(ev.h) :
                     Within(ev.qd[j], RDiv(ev.q[idx(j)], NL(a)), RAdd(RMul(Dec(1, 9), RAdd(R1, RMul(Dec(1, 3), N(a)))), Noise(c, a, ev.g[idx(j)])), tiny))
            \cup Bad("normalised", Within(RMul(ev.w, SumSeq(ev.q)), R1, NormTol(c, a), R0))
            \cup Bad("Boltzmann factor", \A j \in 1..Len(ev.h) :
                     (Gt(ev.p[idx(j)], tiny) /\ Lt(Noise(c, a, ev.g[idx(j)]), Dec(1, 2))) =>
                     LET d == RSub(ev.h[j], ev.h[top])
                     IN  Within(RDiv(ev.p[idx(j)], ev.p[idx(top)]), Exp(RNeg(d)),
                                RAdd(RAdd(Dec(1, 8), RMul(Dec(1, 10), RAbs(d))), RAdd(Noise(c, a, ev.g[idx(j)]), Noise(c, a, ev.g[idx(top)]))), R0))
=============================================================================
