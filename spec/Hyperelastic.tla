----------------------------- MODULE Hyperelastic -----------------------------
(***************************************************************************)
(* The Buche-Silberstein network: chains of N links of stiffness kap whose *)
(* end-to-end vectors per link are distributed as P(gam) at rest and move  *)
(* with the deformation.  The stress is the average of N eta(gam) times    *)
(* the orientation of the chain, over cylindrical cells (z along the axis, *)
(* r across).  Cell (i, j) of Grid.                                        *)
(*                                                                         *)
(* The distribution at rest is exp(-N psi) with psi the free energy per    *)
(* link of the reduced EFJC (method 2), or a Gaussian (method 3).          *)
(***************************************************************************)
EXTENDS Chain
\* ---- one link of the reduced EFJC in the isometric (Legendre) ensemble -------------------
ExtP(k, e) == RAdd(LangevinP(e), Inv(k))
ExtG(k, e) == RAdd(Langevin(e), RDiv(e, k))
RECURSIVE InvExt(_, _, _)
InvExt(k, g, e) ==
   LET d == TLCEval(RDiv(RSub(g, ExtG(k, e)), ExtP(k, e)))
       x == TLCEval(RAdd(e, d))
   IN  IF Le(RAbs(d), RMul(Dec(1, 8), e)) THEN x ELSE InvExt(k, g, x)
\* an upper bound of the force, close to it: 1 - 1/eta + eta/kap = gam, or the rigid chain for small gam
EtaGuess(k, g) ==
   LET q == RSub(g, R1)
       a == RMul(RMul(Half, k), RAdd(q, Sqrt(RAdd(Sq(q), RDiv(R4, k)))))
   IN  IF Lt(g, Dec(7, 1)) THEN RMin(a, RDiv(RMul(g, RSub(R3, Sq(g))), RSub(R1, Sq(g)))) ELSE a
EtaOf(k, g) == InvExt(k, g, TLCEval(EtaGuess(k, g)))
\* free energy per link, up to a constant
LinkPsi(k, g) == LET e == TLCEval(EtaOf(k, g)) IN RSub(RSub(RMul(e, g), LnSinhc(e)), RDiv(Sq(e), RMul(R2, k)))
\* ---- the distribution at rest, up to normalisation ----------------------------------------
Gauss(n, k) == RMul(RMul(Frac(3, 2), RInt(n)), RDiv(RMul(k, RAdd(k, R1)), RAdd(Sq(k), RAdd(RMul(R6, k), R3))))
Weight(method, n, k, g2) ==      \* of a chain whose extension at rest is the square root of g2
   IF method = 2 THEN Exp(RNeg(RMul(RInt(n), RSub(LinkPsi(k, Sqrt(g2)), LinkPsi(k, ZERO)))))
   ELSE Exp(RNeg(RMul(Gauss(n, k), g2)))
\* ---- deformations: square of the extension at rest of the chain that is now at (z, r) ------
Rest(kind, lam, z2, r2) ==
   IF kind = "uniaxial" THEN RAdd(RDiv(z2, Sq(lam)), RMul(lam, r2))
   ELSE RAdd(RMul(z2, PowInt(lam, 4)), RDiv(r2, Sq(lam)))
\* of the stress that is reported: along the axis, or in the plane of an equibiaxial deformation
Orient(kind) == IF kind = "uniaxial" THEN R1 ELSE RNeg(R1)
Coupling(z2, r2) == RSub(RMul(R2, z2), r2)
\* ---- the virgin network: cells uniform in w = tanh(z) -------------------------------------
Cells == 256
W == [i \in 1..Cells |-> Frac(i, Cells + 1)]
Grid == [i \in 1..Cells |-> RMul(Half, Ln(RDiv(RAdd(R1, W[i]), RSub(R1, W[i]))))]
Jac == [i \in 1..Cells |-> Inv(RSub(R1, Sq(W[i])))]           \* dz = Jac dw
Square(s) == [i \in DOMAIN s |-> Sq(s[i])]
DW == Frac(1, Cells + 1)
Flatten(f(_, _), n) == RSum([q \in 1..(n * n) |-> f(((q - 1) \div n) + 1, ((q - 1) % n) + 1)])
Norm3(method, n, k) ==      \* integral of the weight over all vectors
   LET g == TLCEval(Grid)  jc == TLCEval(Jac)
   IN  RMul(RMul(RMul(R4, Pi), DW), RSum([i \in 1..Cells |-> RMul(RMul(Sq(g[i]), jc[i]), Weight(method, n, k, Sq(g[i])))]))
\* [v |-> stress, t |-> sum of the magnitudes of its terms]
StressOf(kind, method, n, k, lam) ==
   LET g == TLCEval(Grid)  jc == TLCEval(Jac)  g2 == TLCEval(Square(g))
       term(i, j) ==      \* cells (i, j) and (j, i), which share their extension
          LET s2 == RAdd(g2[i], g2[j])
              s == TLCEval(Sqrt(s2))
              c == RMul(RDiv(EtaOf(k, s), s), RMul(jc[i], jc[j]))
              one(p, q) == RMul(RMul(g[q], Coupling(g2[p], g2[q])), Weight(method, n, k, Rest(kind, lam, g2[p], g2[q])))
          IN  RMul(c, IF i = j THEN one(i, i) ELSE RAdd(one(i, j), one(j, i)))
       
       row(i) == RSum([j \in 1..i |-> term(i, j)])
       total == RSum([i \in 1..Cells |-> row(i)])
   IN  RMul(Orient(kind), RDiv(RMul(RMul(RMul(R2, Pi), RMul(RInt(n), Sq(DW))), total), Norm3(method, n, k)))
=============================================================================
