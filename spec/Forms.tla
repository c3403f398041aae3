-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* The forms in which a model reports one quantity (total, per link,       *)
(* dimensional, nondimensional), and the rounding of each.  A property     *)
(* that is stated for a quantity holds in all of its forms: the relations  *)
(* of the other modules are judged in one of them, and these operators     *)
(* carry them over to the others.                                          *)
(***************************************************************************)
EXTENDS Reference
\* rounding at the reference state, which relative quantities inherit
RelNoise(c, a) ==
   IF c.fam = "swfjc" THEN RMul(R4, PhiErr(c, a, ZERO))
   ELSE IF c.var = "exact" /\ IsT(c) /\ c.fam # "wlc" THEN RMul(R2, PhiErr(c, a, ZERO))
   ELSE IF c.fam = "wlc" /\ IsT(c) THEN RMul(R2, RAdd(RMul(Two(-52), P10(6)), IF c.leg THEN RMul(ZERO, WlcGamErr(a, ZERO)) ELSE R0))
   ELSE IF c.fam = "fjc" /\ c.var = "exact" /\ IsM(c) THEN RMul(R4, RDiv(PsiErrM(c, a, ZERO), N(a)))
   \* a soft potential leaves little of the reference state at its tiny distance
   ELSE IF IsC(c) THEN RMul(RMul(RInt(64), Eps), RDiv(RAdd(R1, RMul(Sq(N(a)), a.nondimensional_potential_stiffness)),
                                                      RMul(RMul(Sq(N(a)), a.nondimensional_potential_stiffness), ZERO)))
   ELSE R0
\* an inversion to a tolerance can stop one step apart for arguments that differ by rounding
Inverted(c) == c.leg /\ IsM(c) /\ c.fam \notin {"ideal", "wlc"}
InvNoise(a, r) == RDiv(RMul(InvTol, a.nondimensional_end_to_end_length_per_link), LangevinP(RMax(r[ETA], Dec(1, 2))))
InvEnergy(a, r) == RMul(RMul(InvTol, a.nondimensional_end_to_end_length_per_link), InvNoise(a, r))
TolOf(xs, n) == LET j == {x \in 1..Len(xs) : xs[x].n = n} IN IF j = {} THEN R0 ELSE xs[CHOOSE x \in j : TRUE].t
UnitNoise(c, a, r) ==
   LET xs == IF IsC(c) THEN Expect(c, a, r) ELSE <<>>
   IN  [fe    |-> IF Inverted(c) THEN InvEnergy(a, r) ELSE RMax(TolOf(xs, FE(HFE)), TolOf(xs, FE(GFE))),
        rel   |-> RelNoise(c, a),
        len   |-> IF IsT(c) /\ c.fam # "wlc" THEN GamErr(c, a, a.nondimensional_force)
                  ELSE IF IsT(c) THEN WlcGamErr(a, a.nondimensional_force)
                  ELSE TolOf(xs, GAM),
        force |-> IF c.fam = "swfjc" /\ IsM(c) THEN RAdd(RMul(Dec(1, 5), r[ETA]), RMul(R4, GamErr(TC(c), a, r[ETA]))) ELSE IF Inverted(c) THEN InvNoise(a, r)
                  ELSE IF IsM(c) /\ c.fam \in {"fjc", "wlc"} THEN RMul(R4, EtaErrM(c, a, a.nondimensional_end_to_end_length_per_link))
                  ELSE TolOf(xs, ETA),
        dist  |-> IF c.fam = "swfjc" /\ IsM(c) THEN RMul(N(a), RAdd(Dec(1, 8), PhiErr(TC(c), a, r[ETA]))) ELSE IF Inverted(c) THEN RMul(N(a), InvEnergy(a, r)) ELSE R0]
Strong(c) == c.var = "strong_potential"      \* its reference state is outside its domain (DESIGN.md, F7)
EnergyForms(c, a, r, qs) ==
   LET n == UnitNoise(c, a, r)
   IN  UNION { UnitsFE(a, r, q, n.fe) : q \in qs }
       \cup (IF Strong(c) THEN {} ELSE UNION { UnitsFE(a, r, RelQ(q), RAdd(n.fe, n.rel)) : q \in qs })
ResponseForms(c, a, r) == LET n == UnitNoise(c, a, r) IN UnitsLen(a, r, n.len) \cup UnitsForce(a, r, n.force)
AllForms(c, a, r) == EnergyForms(c, a, r, Quantities) \cup ResponseForms(c, a, r)
=============================================================================
