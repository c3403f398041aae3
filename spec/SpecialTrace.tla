----------------------------- MODULE SpecialTrace -----------------------------
(***************************************************************************)
(* C11: the special functions of polymers::math against their definitions  *)
(* in Elem.tla (series, continued fractions, inverse relations), at an     *)
(* argument x (value v) and at its mirror image -x (value w).              *)
(* The allowed errors are: rounding, amplified by the conditioning of      *)
(* exp(x^2) for the error functions; the stated tolerance (1e-6) of the    *)
(* inverse Langevin function, and 1e-7 for Lambert's W at large arguments. *)
(***************************************************************************)
EXTENDS Elem, TraceRun
Fin(v) == v[1] # 9 /\ v[1] # 8
Bad(n, ok) == IF ok THEN {} ELSE {n}
Eps == Two(-52)
Gauss(x) == RMul(RMul(R4, Eps), RAdd(RInt(16), Sq(x)))     \* rounding of exp(x^2) and of a few operations
Is(f, x, v) ==
   CASE f = "inverse_langevin" ->
           IF Le(RAbs(x), Dec(10001, 7)) THEN Within(Langevin(v), x, Dec(1, 6), R0)
           ELSE Within(Langevin(v), x, Dec(1, 8), R0)
     [] f = "lambert_w" ->   \* the principal branch
           Ge(v, RInt(-1)) /\ Within(RMul(v, Exp(v)), x, IF Gt(x, RInt(1000)) THEN Dec(1, 7) ELSE RMul(Dec(1, 13), RAdd(R1, RAbs(v))), R0)
     [] f = "bessel_i0" -> Within(v, BesselI(0, x), Dec(1, 14), R0)
     [] f = "bessel_i1" -> Within(v, IF x[1] = 0 THEN R0 ELSE BesselI(1, x), Dec(1, 14), R0)
     [] f = "erf"       -> Within(v, Erf(x), R0, RMul(RInt(20), Eps))
     [] f = "erfc"      -> Within(v, Erfc(x), Gauss(x), P10(-300))
     [] f = "erfcx"     -> Within(v, Erfcx(x), Gauss(x), R0)
     [] OTHER -> FALSE
\* the scaled complementary error function exceeds the largest double below about -26.6
Huge(f, x, v) == f = "erfcx" /\ Lt(x, Frac(-266, 10)) /\ (v = <<9, 1>> \/ (Fin(v) /\ Ge(v, P10(300))))
Holds(f, x, v) == IF Huge(f, x, v) THEN {} ELSE Bad(IF Fin(v) THEN f ELSE "nonfinite " \o f, Fin(v) /\ Is(f, x, v))
JudgeSpecial(first, prev, ev) ==
   Holds(ev.tag, ev.x, ev.v) \cup (IF "w" \in DOMAIN ev /\ ev.x[1] # 0 THEN Holds(ev.tag, RNeg(ev.x), ev.w) ELSE {})
=============================================================================
