---------------------------- MODULE LoadingTrace ----------------------------
(***************************************************************************)
(* C04: loading paths.  The state is the controlled variable of a model    *)
(* (force, length or distance of the potential) and the results there;     *)
(* a step moves the controlled variable and reports the midpoint too.      *)
(* The energy changes by the work done.  Where the energy is convex the    *)
(* work is bounded by the values at the ends of the step (exactly); it is  *)
(* estimated by Simpson's rule elsewhere.                                  *)
(***************************************************************************)
EXTENDS Forms, TraceRun
CONVEX(c) == (IsT(c) /\ ~c.leg) \/ (IsM(c) /\ c.leg /\ c.fam \notin {"wlc"}) \/ (c.fam = "ideal")
Ctl(c) == IF IsT(c) THEN ETA ELSE IF IsM(c) THEN GAM ELSE "nondimensional_potential_distance"
X(c, ev) == ev.a[Ctl(c)]
\* the energy whose slope with respect to the controlled variable is the reported conjugate
Energies(c) == IF IsT(c) THEN {GFE} ELSE IF c.var = "weak_potential" THEN {GFE} ELSE {HFE}
Conj(c, ev) == IF IsT(c) THEN RNeg(ev.r[GAM])
               ELSE IF c.var = "weak_potential" THEN RNeg(RMul(RMul(N(ev.a), ev.a.nondimensional_potential_stiffness), ev.r[GAM]))
               ELSE ev.r[ETA]
ENoise(c, ev) ==    \* rounding of the energy
   RAdd(RMul(Dec(1, 12), Scale(ev.a, ev.r)),
   IF IsT(c) THEN (IF c.fam = "wlc" THEN RMul(Dec(1, 13), RAdd(R10, X(c, ev))) ELSE PhiErr(c, ev.a, X(c, ev)))
   ELSE IF IsM(c) /\ c.leg /\ c.fam # "wlc" THEN RAdd(PhiErr(TC(c), ev.a, ev.r[ETA]), RMul(ev.r[ETA], GamErr(TC(c), ev.a, ev.r[ETA])))
   ELSE IF IsM(c) THEN (IF c.fam = "wlc" THEN RDiv(Dec(1, 8), N(ev.a)) ELSE RDiv(PsiErrM(c, ev.a, X(c, ev)), N(ev.a)))
   ELSE R0)
CNoise(c, ev) ==    \* rounding of the conjugate
   IF IsT(c) THEN (IF c.fam = "wlc" THEN WlcGamErr(ev.a, X(c, ev)) ELSE GamErr(c, ev.a, X(c, ev)))
   ELSE IF IsM(c) /\ ~c.leg THEN EtaErrM(c, ev.a, X(c, ev))
   ELSE R0
TolC(c, ev, n) == IF ~IsC(c) THEN R0
                  ELSE LET xs == Expect(c, ev.a, ev.r)  j == {x \in 1..Len(xs) : xs[x].n = n}
                       IN  IF j = {} THEN R0 ELSE xs[CHOOSE x \in j : TRUE].t
Sandwich(c, p, ev) ==
   LET dx == RSub(X(c, ev), X(c, p))
       u == Conj(c, p)  v == Conj(c, ev)
       lo == RMin(RMul(u, dx), RMul(v, dx))  hi == RMax(RMul(u, dx), RMul(v, dx))
       inv == IF IsM(c) /\ c.leg THEN RMul(RMul(R4, InvTol), RMul(X(c, ev), RAbs(RSub(v, u)))) ELSE R0
       tol == RAdd(RAdd(RAdd(ENoise(c, p), ENoise(c, ev)), RMul(RAbs(dx), RAdd(CNoise(c, p), CNoise(c, ev)))), inv)
       mono == IF IsT(c) THEN Le(RMul(RSub(v, u), dx), RMul(RAbs(dx), RAdd(CNoise(c, p), CNoise(c, ev))))
               ELSE Le(RNeg(RMul(RAbs(dx), RAdd(RMul(RAbs(u), Dec(1, 5)), CNoise(c, p)))), RMul(RSub(v, u), dx))
   IN  Bad("monotone response", mono)
       \cup UNION { LET d == RSub(ev.r[FE(q)], p.r[FE(q)])
                    IN  Bad("work " \o q, Le(RSub(lo, tol), d) /\ Le(d, RAdd(hi, tol))) : q \in {z \in Energies(c) : Has(ev.r, FE(z))} }
Simpson(c, p, mid, ev) ==
   LET dx == RSub(X(c, ev), X(c, p))
       u == Conj(c, p)  m == Conj(c, mid)  v == Conj(c, ev)
       w == RMul(RDiv(dx, R6), RAdd(RAdd(u, RMul(R4, m)), v))
       \* the response of the exact chain is only piecewise smooth
       pieces == IF c.fam = "fjc" /\ ~c.leg /\ ~IsT(c) THEN RMul(RDiv(Sq(dx), R10), RAdd(R1, RAdd(RAbs(u), RAbs(v)))) ELSE R0
       \* the second difference alone vanishes at an inflection
       rem == RMul(RAbs(dx), RAdd(pieces, RMax(RAbs(RAdd(RSub(u, RMul(R2, m)), v)), RDiv(RAbs(RSub(v, u)), R8))))
       n == IF IsC(c) /\ c.var # "weak_potential" THEN ETA ELSE GAM
       sc == IF c.var = "weak_potential" THEN RMul(N(ev.a), ev.a.nondimensional_potential_stiffness) ELSE R1
       tol == RAdd(RAdd(rem, RMul(RAbs(dx), RAdd(RAdd(CNoise(c, p), CNoise(c, ev)), RMul(sc, RMax(TolC(c, p, n), TolC(c, ev, n)))))),
                   RAdd(RAdd(ENoise(c, p), ENoise(c, ev)), RAdd(TolC(c, p, FE(HFE)), TolC(c, p, FE(GFE)))))
   IN  UNION { LET d == RSub(ev.r[FE(q)], p.r[FE(q)])
               IN  Bad("work " \o q, Le(RAbs(RSub(d, w)), tol)) : q \in {z \in Energies(c) : Has(ev.r, FE(z))} }
\* the strong-potential correction of few links jumps at the knots of their piecewise density
Knot(c, p, ev) == /\ c.var = "strong_potential" /\ p.a.number_of_links <= 8
                  /\ \E k \in 0..4 : LET x == Frac(p.a.number_of_links - 2 * k, p.a.number_of_links)
                                     IN  Le(RMul(RSub(X(c, p), x), RSub(X(c, ev), x)), R0)
Close(first, ev) == UNION { Bad("closed path changes " \o n, ev.r[n] = first.r[n]) : n \in DOMAIN ev.r }
JudgeLoading(first, prev, ev) ==
   LET nf == NonFinite(ev.r)  c == RowOf(ev.mod)
   IN  IF nf # {} THEN nf
       ELSE EnergyForms(c, ev.a, ev.r, Energies(c)) \cup ResponseForms(c, ev.a, ev.r) \cup
            IF ev.s = 1 \/ NonFinite(prev.r) # {} THEN {}
            ELSE (IF ev.tag = "close" /\ NonFinite(first.r) = {} THEN Close(first, ev) ELSE {})
            \cup (IF c.ens = "T" /\ c.leg THEN {}
                  ELSE IF CONVEX(c) THEN Sandwich(c, prev, ev)
                  ELSE IF ev.tag \in {"step", "close"} /\ ~Knot(c, Trace[at - 1], ev) /\ ~Knot(c, prev, ev) /\ NonFinite(Trace[at - 1].r) = {} THEN Simpson(c, Trace[at - 1], prev, ev) ELSE {})
=============================================================================
