-------------------------------- MODULE Damage --------------------------------
(***************************************************************************)
(* The damaging network: a chain breaks, irreversibly, when its extension  *)
(* exceeds gc at any time of the history of the deformation, which starts  *)
(* from the (swollen) state of rest.  The extension of a chain is a convex *)
(* function of the stretch of an incompressible uniaxial deformation, so   *)
(* for stretches of at least one it was largest at rest or at the largest  *)
(* stretch: the state is the largest stretch so far (DamageModel.tla).     *)
(***************************************************************************)
EXTENDS Hyperelastic
\* squared extension, at the stretch s, of the chain that is at (z, r) when the stretch is lam
Then(s, lam, z2, r2) == RAdd(RMul(z2, Sq(RDiv(s, lam))), RDiv(RMul(r2, lam), s))
\* cells uniform up to the critical extension; swelling ratio jj (volumetric)
DamageGrid(gc) == [i \in 1..Cells |-> RDiv(RMul(gc, RInt(i)), RInt(Cells))]
Dry(jj, g2) == RDiv(g2, Exp(RMul(Frac(2, 3), Ln(jj))))       \* squared extension before swelling
\* [stress, total: values; dstress, dtotal: what is undecided at the boundary of the intact region]
Damaged(method, gc, n, k, jj, lam, max) ==
   LET g == TLCEval(DamageGrid(gc))  g2 == TLCEval(Square(g))  c2 == TLCEval(Sq(gc))
       dz == g[1]
       norm == TLCEval(RSum([i \in 1..Cells |-> RMul(g2[i], Weight(method, n, k, g2[i]))]))
       \* 1: intact, 0: broken, 2: within rounding of the boundary
       side(x) == IF Le(RAbs(RSub(x, c2)), RMul(Dec(1, 11), c2)) THEN 2 ELSE IF Lt(x, c2) THEN 1 ELSE 0
       state(i, j) == LET a == side(Then(max, lam, g2[i], g2[j]))
                          b == side(Then(R1, lam, g2[i], g2[j]))
                      IN  IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 1
       none == <<R0, R0, R0, R0>>
       cell(i, j) == LET st == state(i, j) IN
          IF st = 0 THEN none
          ELSE LET s == TLCEval(Sqrt(RAdd(g2[i], g2[j])))
                   w == TLCEval(RMul(g[j], Weight(method, n, k, Dry(jj, Rest("uniaxial", lam, g2[i], g2[j])))))
                   f == TLCEval(RMul(RMul(w, Coupling(g2[i], g2[j])), RDiv(EtaOf(k, s), s)))
               IN  IF st = 1 THEN <<f, w, R0, R0>> ELSE <<R0, R0, RAbs(f), w>>
       row(i) == LET c == TLCEval([j \in 1..Cells |-> cell(i, j)])
                 IN  [m \in 1..4 |-> RSum([j \in 1..Cells |-> c[j][m]])]
       rows == TLCEval([i \in 1..Cells |-> row(i)])
       tot(m) == RSum([i \in 1..Cells |-> rows[i][m]])
       us == RDiv(RMul(RInt(n), dz), RMul(RMul(R2, Sq(jj)), norm))      \* 2 pi N dz^2 / J^3 over 4 pi dz / J
       ut == RDiv(dz, RMul(jj, norm))
   IN  [stress |-> RMul(us, tot(1)), total |-> RMul(ut, tot(2)), dstress |-> RMul(us, tot(3)), dtotal |-> RMul(ut, tot(4))]
=============================================================================
