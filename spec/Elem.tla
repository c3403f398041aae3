-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary and special functions over Real, from their series, products *)
(* and functional equations.  Relative accuracy is better than 1e-24       *)
(* wherever the specification uses them (ElemSelfTest.tla checks           *)
(* identities between independent definitions).                            *)
(***************************************************************************)
EXTENDS Fun

\* finite sums --------------------------------------------------------------
Sum(f(_), lo, hi) == RSum([k \in 1..(hi - lo + 1) |-> f(lo + k - 1)])

\* logarithm, exponential and square root (Fun.tla) ----------------------------
Ln(x) == RLn(x)
Exp(x) == RExp(x)
Sqrt(x) == RSqrt(x)
Pow(x, y) == IF x[1] = 0 THEN R0 ELSE Exp(RMul(y, Ln(x)))

\* hyperbolic functions (arguments at least ~1e-12 in magnitude, or zero) -----
Sinh(x) == LET e == Exp(x) IN RMul(Half, RSub(e, Inv(e)))
Cosh(x) == LET e == Exp(x) IN RMul(Half, RAdd(e, Inv(e)))
Tanh(x) == IF Gt(x, RInt(60)) THEN R1
           ELSE LET e == Exp(RMul(R2, x)) IN RDiv(RSub(e, R1), RAdd(e, R1))
Coth(x) == IF Gt(x, RInt(60)) THEN R1
           ELSE LET e == Exp(RMul(R2, x)) IN RDiv(RAdd(e, R1), RSub(e, R1))
Langevin(x) == IF x[1] = 0 THEN R0 ELSE RSub(Coth(x), Inv(x))
\* d Langevin / dx = 1/x^2 - 1/sinh(x)^2
LangevinP(x) == IF x[1] = 0 THEN Frac(1, 3) ELSE RSub(Inv(Sq(x)), Inv(Sq(Sinh(x))))
\* ln(sinh(x)/x)
LnSinhc(x) == IF x[1] = 0 THEN R0
              ELSE LET a == RAbs(x)
                   IN  IF Gt(a, RInt(60)) THEN RSub(a, Ln(RMul(R2, a)))
                       ELSE Ln(RDiv(Sinh(a), a))

\* pi, by Machin's formula ----------------------------------------------------
RECURSIVE AtanSer(_, _, _, _)
AtanSer(z2, k, zk, acc) ==
   IF zk[1] = 0 \/ zk[2] + Len(zk) < -11 THEN acc
   ELSE AtanSer(z2, k + 1, RNeg(RMul(zk, z2)), RAdd(acc, RDiv(zk, RInt(2 * k + 1))))
AtanS(z) == AtanSer(Sq(z), 0, z, R0)
Pi == RMul(R4, RSub(RMul(R4, AtanS(Frac(1, 5))), AtanS(Frac(1, 239))))
SqrtPi == Sqrt(Pi)

\* trigonometric functions ----------------------------------------------------
RECURSIVE CosSer(_, _, _)
CosSer(z2, k, n) ==        \* 1 - z2/(k(k+1)) (1 - z2/((k+2)(k+3)) ...)
   IF k > n THEN R1
   ELSE RSub(R1, RDiv(RMul(z2, CosSer(z2, k + 2, n)), RInt(k * (k + 1))))
\* reduce to |r| <= pi, then by 2^6 with the double-angle formula
RECURSIVE DoubleCos(_, _)
DoubleCos(c, n) == IF n = 0 THEN c ELSE DoubleCos(RSub(RMul(R2, Sq(c)), R1), n - 1)
CosRed(x) == LET k == RFloor(RAdd(RDiv(x, RMul(R2, Pi)), Half))
             IN  RSub(x, RMul(RInt(k), RMul(R2, Pi)))
Cos(x) == LET r == RMul(CosRed(x), Two(-3)) IN DoubleCos(CosSer(Sq(r), 1, 40), 3)
Sin(x) == Cos(RSub(x, RMul(Half, Pi)))

\* error function -------------------------------------------------------------
RECURSIVE ErfSer(_, _, _, _)
ErfSer(x2, t, n, acc) ==   \* SUM 2^n x^(2n+1)/(2n+1)!!
   IF t[1] = 0 \/ RCmp(t, RMul(acc, Two(-150))) < 0 THEN acc
   ELSE LET t1 == RDiv(RMul(t, RMul(R2, x2)), RInt(2 * n + 3))
        IN  ErfSer(x2, t1, n + 1, RAdd(acc, t1))
ErfPos(x) == RMul(RDiv(RMul(R2, Exp(RNeg(Sq(x)))), SqrtPi), ErfSer(Sq(x), x, 0, x))
RECURSIVE ErfcCF(_, _, _)
ErfcCF(x, k, n) == IF k > n THEN x ELSE RAdd(x, RDiv(Frac(k, 2), ErfcCF(x, k + 1, n)))
\* scaled complementary error function exp(x^2) erfc(x)
Erfcx(x) == IF Ge(x, R3)
            THEN LET n == IF Gt(x, RInt(30)) THEN 30 ELSE IF Gt(x, R10) THEN 80 ELSE 400
                 IN  Inv(RMul(SqrtPi, ErfcCF(x, 1, n)))
            ELSE IF Ge(x, R0) THEN RMul(Exp(Sq(x)), RSub(R1, ErfPos(x)))
            ELSE IF Ge(x, RInt(-3)) THEN RMul(Exp(Sq(x)), RAdd(R1, ErfPos(RNeg(x))))
            ELSE RSub(RMul(R2, Exp(Sq(x))),
                      Inv(RMul(SqrtPi, ErfcCF(RNeg(x), 1, 400))))
Erfc(x) == IF Gt(x, RInt(100)) THEN R0 ELSE IF Lt(x, RInt(-100)) THEN R2
           ELSE RMul(Erfcx(x), Exp(RNeg(Sq(x))))
Erf(x) == IF x[1] = 0 THEN R0
          ELSE IF x[1] < 0 THEN RNeg(IF Lt(x, RInt(-3)) THEN RSub(R1, Erfc(RNeg(x))) ELSE ErfPos(RNeg(x)))
          ELSE IF Gt(x, R3) THEN RSub(R1, Erfc(x)) ELSE ErfPos(x)

\* modified Bessel functions of order 0 and 1 -----------------------------------
RECURSIVE BesselSer(_, _, _, _, _)
BesselSer(q, nu, k, t, acc) ==   \* t = q^k / (k! (k+nu)!)
   IF t[1] = 0 \/ RCmp(t, RMul(acc, Two(-150))) < 0 THEN acc
   ELSE LET t1 == RDiv(RDiv(RMul(t, q), RInt(k + 1)), RInt(k + 1 + nu))
        IN  BesselSer(q, nu, k + 1, t1, RAdd(acc, t1))
RECURSIVE BesselAsy(_, _, _, _, _)
BesselAsy(x8, mu, k, t, acc) ==  \* SUM (-1)^k prod (mu-(2j-1)^2) / (k! (8x)^k)
   IF k > 60 \/ t[1] = 0 \/ RCmp(RAbs(t), Two(-150)) < 0 THEN acc
   ELSE LET t1 == RNeg(RDiv(RMul(t, RInt(mu - (2 * k - 1) * (2 * k - 1))), RMul(RInt(k), x8)))
        IN  BesselAsy(x8, mu, k + 1, t1, RAdd(acc, t1))
\* exp(-|x|) I_nu(|x|), nu in {0, 1}
BesselScaledPos(nu, x) ==
   IF Lt(x, RInt(60))
   THEN RMul(Exp(RNeg(x)),
             RMul(IF nu = 0 THEN R1 ELSE RMul(Half, x),
                  BesselSer(RMul(Frac(1, 4), Sq(x)), nu, 0, R1, R1)))
   ELSE RDiv(BesselAsy(RMul(R8, x), 4 * nu, 1, R1, R1), Sqrt(RMul(RMul(R2, Pi), x)))
BesselI(nu, x) == LET a == RAbs(x)
                      v == RMul(Exp(a), BesselScaledPos(nu, a))
                  IN  IF x[1] < 0 /\ nu = 1 THEN RNeg(v) ELSE v
\* ln I_0(x)  and  I_1(x)/I_0(x)
LnBesselI0(x) == RAdd(RAbs(x), Ln(BesselScaledPos(0, RAbs(x))))
BesselRatio(x) == LET a == RAbs(x)
                      v == RDiv(BesselScaledPos(1, a), BesselScaledPos(0, a))
                  IN  IF x[1] < 0 THEN RNeg(v) ELSE v

\* comparisons with tolerance ----------------------------------------------------
\* |x - y| <= rel * |y| + abs
Within(x, y, rel, abs) == Le(RAbs(RSub(x, y)), RAdd(RMul(rel, RAbs(y)), abs))
=============================================================================
