-------------------------- MODULE HyperelasticTrace --------------------------
(***************************************************************************)
(* C15: the stress of the hyperelastic network.  Events: cell (one cell of *)
(* the sum, through the C interface), mirror (the two loading modes of one *)
(* object), stress (the whole sum).                                        *)
(***************************************************************************)
EXTENDS Hyperelastic, TraceRun
Fin(x) == x[1] \in {-1, 0, 1}
Bad(name, ok) == IF ok THEN {} ELSE {name}
JudgeHyperelastic(first, prev, ev) ==
   LET a == ev.a IN
   CASE ev.tag = "cell" ->
          IF ~Fin(ev.v) THEN {"nonfinite cell"}
          ELSE LET z2 == Sq(ev.z)  r2 == Sq(ev.r)  k == a.k
                   g2 == Rest(ev.kind, a.lam, z2, r2)
                   w == IF a.method = 2 THEN Weight(2, a.n, k, g2) ELSE Exp(RNeg(RMul(ev.factor, g2)))
                   v == RMul(Orient(ev.kind), RDiv(RMul(ev.e, w), ev.norm))
               \* rounding of the exponent
               IN  Bad("cell", Le(RAbs(RSub(ev.v, v)), RAdd(P10(-300), RMul(RMul(RMul(Dec(1, 9), RInt(a.n)), RAdd(R1, RMul(k, g2))), RAbs(v)))))
     [] ev.tag = "mirror" ->
          \* the equibiaxial deformation by lam is the uniaxial one by 1/lam^2
          IF ~Fin(ev.equi) \/ ~Fin(ev.uni) \/ ~Fin(ev.again) THEN {"nonfinite stress"}
          ELSE Bad("equibiaxial and uniaxial stress", Le(RAbs(RAdd(ev.equi, ev.uni)), RAdd(RMul(Dec(1, 8), RAbs(ev.uni)), Dec(1, 9))))
               \cup Bad("stress depends on the calls before", Le(RAbs(RSub(ev.again, ev.equi)), RAdd(RMul(Dec(1, 10), RAbs(ev.equi)), Dec(1, 12))))
     [] ev.tag \in {"stress", "probe:network-overflow"} ->
          IF ~Fin(ev.v) THEN {"nonfinite stress"}
          ELSE LET v == TLCEval(StressOf(ev.kind, a.method, a.n, a.k, a.lam))
               IN  Bad("stress", Le(RAbs(RSub(ev.v, v)), RAdd(RMul(Dec(1, 7), RAbs(v)), Dec(1, 8))))
=============================================================================
