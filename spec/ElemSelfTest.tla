---- MODULE ElemSelfTest ----
EXTENDS Elem, TLC
P == INSTANCE RealPure
VARIABLE i
Init == i \in 0..7
Next == i < 4000 /\ i' = i + 8
\* pseudo-random reals of widely varying magnitude
H(n, k) == (((n * 7919 + k * 104729) % 32749) + (((n * 31 + k * 17) % 1009) * 13)) % 32768
RR(n, k) == LET z == P!Norm(IF H(n, k) % 3 = 0 THEN -1 ELSE 1, (H(n, k+1) % 9) - 7, [j \in 1..(1 + (H(n, k+2) % 10)) |-> IF H(n, k+3) % 5 = 0 /\ j % 3 = 0 THEN (IF j % 2 = 0 THEN 0 ELSE 32767) ELSE H(n, k + 10 + j)]) IN z
a == RR(i, 0)
b == RR(i, 100)
OverrideMatches ==
  /\ RAdd(a, b) = P!PAdd(a, b)
  /\ RSub(a, b) = P!PAdd(a, P!PNeg(b))
  /\ RMul(a, b) = P!PMul(a, b)
  /\ (b[1] # 0 => RDiv(a, b) = P!PDiv(a, b))
  /\ RCmp(a, b) = P!PCmp(a, b)
  /\ RCmp(a, a) = 0
  /\ RAdd(a, RNeg(a)) = R0
  /\ RNeg(a) = P!PNeg(a)
  /\ RInt((((i % 1500) * 1234567) % 2000003) - 1000000) = P!PInt((((i % 1500) * 1234567) % 2000003) - 1000000)
  /\ (a[2] + Len(a) - 2 <= 1 => RFloor(a) = P!PFloor(a))
T30 == P10(-30)
Near(x, y) == Within(x, y, T30, R0)
\* argument grid over many magnitudes
X == RMul(Frac(1 + ((i * 37) % 1000), 97), Two((i % 9) - 4))
Small == RMul(Frac(1 + ((i * 37) % 1000), 1000), Two(-(i % 20)))
U == Frac(1 + ((i * 53) % 997), 1000)
FailedIdentities ==
  {}
  \cup (IF Near(RExp(X), SerExp(X)) /\ Near(RExp(RNeg(X)), SerExp(RNeg(X))) /\ Near(RExp(Small), SerExp(Small)) THEN {} ELSE {21})
  \cup (IF Near(RLn(X), SerLn(X)) /\ Near(RLn(Small), SerLn(Small)) /\ Within(RLn(RAdd(R1, RMul(U, Small))), SerLn(RAdd(R1, RMul(U, Small))), T30, R0) THEN {} ELSE {22})
  \cup (IF Near(RSqrt(X), SerSqrt(X)) /\ Near(RSqrt(RAbs(a)), SerSqrt(RAbs(a))) THEN {} ELSE {23})
  \cup (IF RLn(R1)[1] = 0 /\ RSqrt(R0)[1] = 0 /\ RExp(R0) = R1 /\ RExp(RInt(-20001))[1] = 0 THEN {} ELSE {24})
  \cup (IF LET q == [k \in 1..(i % 7) |-> RMul(X, RInt(k * k - 11))] IN Within(RSum(q), SeqSum(q, 1, Len(q)), T30, RMul(X, P10(-28))) THEN {} ELSE {25})
  \cup (IF (Near(Exp(Ln(X)), X)) THEN {} ELSE {1})
  \cup (IF (Near(Ln(Exp(X)), X)) THEN {} ELSE {2})
  \cup (IF (Near(RMul(Exp(X), Exp(RNeg(X))), R1)) THEN {} ELSE {3})
  \cup (IF (Near(Sq(Sqrt(X)), X)) THEN {} ELSE {4})
  \cup (IF (Near(Ln(RMul(X, U)), RAdd(Ln(X), Ln(U)))) THEN {} ELSE {5})
  \cup (IF (Near(RAdd(Sq(Sin(U)), Sq(Cos(U))), R1)) THEN {} ELSE {6})
  \cup (IF (Near(Sin(RMul(R2, U)), RMul(R2, RMul(Sin(U), Cos(U))))) THEN {} ELSE {7})
  \cup (IF (Near(Sin(RMul(Pi, Frac(1, 6))), Half)) THEN {} ELSE {8})
  \cup (IF (Near(RAdd(AtanS(Frac(1, 2)), AtanS(Frac(1, 3))), RMul(Pi, Frac(1, 4)))) THEN {} ELSE {9})
  \cup (IF (Within(RAdd(Erf(Small), Erfc(Small)), R1, T30, R0)) THEN {} ELSE {10})
  \cup (IF ((i % 50 = 0 => LET z == RAdd(R3, RMul(R3, U)) IN Within(Inv(RMul(SqrtPi, ErfcCF(z, 1, 400))), RMul(Exp(Sq(z)), RSub(R1, ErfPos(z))), P10(-20), R0))) THEN {} ELSE {11})
  \cup (IF ((i % 50 = 0 => LET z == RInt(50 + (i % 20)) IN
        /\ Near(RMul(Exp(RNeg(z)), BesselSer(RMul(Frac(1, 4), Sq(z)), 0, 0, R1, R1)), RDiv(BesselAsy(RMul(R8, z), 0, 1, R1, R1), Sqrt(RMul(RMul(R2, Pi), z))))
        /\ Near(RMul(RMul(Half, z), RMul(Exp(RNeg(z)), BesselSer(RMul(Frac(1, 4), Sq(z)), 1, 0, R1, R1))), RDiv(BesselAsy(RMul(R8, z), 4, 1, R1, R1), Sqrt(RMul(RMul(R2, Pi), z)))))) THEN {} ELSE {12})
  \cup (IF (Within(Langevin(X), RDiv(RSub(RMul(X, Cosh(X)), Sinh(X)), RMul(X, Sinh(X))), P10(-24), R0)) THEN {} ELSE {13})
  \cup (IF (Near(RSub(Sq(Cosh(U)), Sq(Sinh(U))), R1)) THEN {} ELSE {14})
FailedKnown ==
  {}
  \cup (IF (Within(Pi, RDiv(RAdd(RMul(RAdd(RMul(RInt(314159265), P10(9)), RInt(358979323)), P10(9)), RInt(846264338)), P10(26)), P10(-26), R0)) THEN {} ELSE {100})
  \cup (IF (Within(Exp(R1), RDiv(RAdd(RMul(RAdd(RMul(RInt(271828182), P10(9)), RInt(845904523)), P10(9)), RInt(536028747)), P10(26)), P10(-26), R0)) THEN {} ELSE {101})
  \cup (IF (Within(Erf(R1), Dec2(842700792, 949714869, 18), P10(-17), R0)) THEN {} ELSE {102})
  \cup (IF (Within(Erfcx(R10), Dec2(561409927, 438225950, 19), P10(-13), R0)) THEN {} ELSE {103})
  \cup (IF (Within(BesselI(0, R1), Dec2(126606587, 775200834, 17), P10(-15), R0)) THEN {} ELSE {104})
  \cup (IF (Within(BesselI(1, R1), Dec2(565159103, 992485027, 18), P10(-15), R0)) THEN {} ELSE {105})
  \cup (IF (Within(Ln(R10), Dec2(230258509, 299404568, 17), P10(-16), R0)) THEN {} ELSE {106})
Identities == FailedIdentities = {}
KnownValues == FailedKnown = {}
ALIASrec == [i |-> i, a |-> a, fi |-> FailedIdentities, fk |-> FailedKnown]
====
