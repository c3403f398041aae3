-------------------------------- MODULE Fun ---------------------------------
(***************************************************************************)
(* Logarithm, exponential and square root over Real.  Their meaning is     *)
(* that of the series SerLn, SerExp and SerSqrt (relative error below      *)
(* 1e-30).  TLC evaluates RLn, RExp and RSqrt through a Java module        *)
(* override (java/Fun.java) for speed; ElemSelfTest.tla checks that the    *)
(* override agrees with the series.                                        *)
(***************************************************************************)
EXTENDS Real

x \oplus y  == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
Lt(x, y) == RCmp(x, y) < 0
Le(x, y) == RCmp(x, y) <= 0
Gt(x, y) == RCmp(x, y) > 0
Ge(x, y) == RCmp(x, y) >= 0
Eq(x, y) == RCmp(x, y) = 0
RAbs(x)  == IF x[1] < 0 THEN RNeg(x) ELSE x
RMax(x, y) == IF Lt(x, y) THEN y ELSE x
RMin(x, y) == IF Lt(x, y) THEN x ELSE y

R0 == RInt(0)   R1 == RInt(1)   R2 == RInt(2)   R3 == RInt(3)   R4 == RInt(4)
R5 == RInt(5)   R6 == RInt(6)   R7 == RInt(7)   R8 == RInt(8)   R10 == RInt(10)
Half == RDiv(RInt(1), RInt(2))
Frac(p, q) == RDiv(RInt(p), RInt(q))
Inv(x) == RDiv(R1, x)
Sq(x)  == RMul(x, x)

RECURSIVE PowInt(_, _)
PowInt(x, n) ==      \* integer power
   IF n = 0 THEN R1
   ELSE IF n < 0 THEN Inv(PowInt(x, -n))
   ELSE IF n % 2 = 0 THEN PowInt(Sq(x), n \div 2)
   ELSE RMul(x, PowInt(x, n - 1))
P10(n) == PowInt(R10, n)
Dec(n, k) == RDiv(RInt(n), P10(k))                 \* n * 10^-k
Dec2(hi, lo, k) == RDiv(RAdd(RMul(RInt(hi), P10(9)), RInt(lo)), P10(k))

\* 2^k for an integer k
Two(k) == <<1, k \div 15, 2^(k % 15)>>

\* logarithm and exponential ------------------------------------------------
RECURSIVE AtanhSer(_, _, _, _)
AtanhSer(z2, k, zk, acc) ==      \* zk = z^(2k+1)
   IF zk[1] = 0 \/ zk[2] + Len(zk) < -11 THEN acc
   ELSE AtanhSer(z2, k + 1, RMul(zk, z2), RAdd(acc, RDiv(zk, RInt(2 * k + 1))))
AtanhS(z) == AtanhSer(Sq(z), 0, z, R0)             \* |z| well below 1
Ln2 == RMul(R2, AtanhS(Frac(1, 3)))
LnTab == [j \in 1..33 |-> RMul(R2, AtanhS(Frac(j - 1, 63 + j)))]   \* ln((31+j)/32)

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
\* binary exponent: 2^Expo(x) <= |x| < 2^(Expo(x)+1)
Expo(x) == 15 * (x[2] + Len(x) - 3) + BitsOf(x[Len(x)]) - 1

SerLn(x) == LET e == Expo(x)
             m == RMul(x, Two(-e))
             j == RFloor(RMul(m, RInt(32))) - 31
             c == Frac(31 + j, 32)
             z == RDiv(RSub(m, c), RAdd(m, c))
         IN  RAdd(RMul(RInt(e), Ln2), RAdd(LnTab[j], RMul(R2, AtanhS(z))))

RECURSIVE ExpSer(_, _, _), SqTimes(_, _)
ExpSer(r, k, n) == IF k > n THEN R1
                   ELSE RAdd(R1, RDiv(RMul(r, ExpSer(r, k + 1, n)), RInt(k)))
SqTimes(x, n) == IF n = 0 THEN x ELSE SqTimes(Sq(x), n - 1)
SerExp(x) == IF x[1] = 0 THEN R1
          ELSE IF Lt(x, RInt(-20000)) THEN R0
          ELSE LET k == RFloor(RAdd(RDiv(x, Ln2), Half))
                   r == RMul(RSub(x, RMul(RInt(k), Ln2)), Two(-8))
               IN  RMul(Two(k), SqTimes(ExpSer(r, 1, 13), 8))

RECURSIVE SqrtNewton(_, _, _)
SqrtNewton(m, y, n) == IF n = 0 THEN y ELSE SqrtNewton(m, RMul(Two(-1), RAdd(y, RDiv(m, y))), n - 1)
\* x = m 4^k with 1 <= m < 4
SerSqrt(x) == IF x[1] = 0 THEN R0
           ELSE LET k == Expo(x) \div 2
                    m == RMul(x, Two(-2 * k))
                IN  RMul(Two(k), SqrtNewton(m, RAdd(Frac(13, 20), RMul(Frac(9, 25), m)), 6))
RLn(x) == SerLn(x)         \* x > 0
RExp(x) == SerExp(x)       \* 0 below -20000
RSqrt(x) == SerSqrt(x)     \* x >= 0

\* sum of a sequence
RECURSIVE SeqSum(_, _, _)
SeqSum(s, i, j) == IF j < i THEN R0 ELSE IF i = j THEN s[i]
                   ELSE LET m == (i + j) \div 2 IN RAdd(SeqSum(s, i, m), SeqSum(s, m + 1, j))
RSum(s) == SeqSum(s, 1, Len(s))
=============================================================================
