------------------------------ MODULE RealPure ------------------------------
(* The definitions of the Real operators, in plain TLA+.  See Real.tla.    *)
EXTENDS Integers, Sequences

LOCAL B    == 32768
LOCAL KMAX == 10

LOCAL Zero == <<0, 0>>

\* limb sequence helpers (little endian) ------------------------------------
RECURSIVE StripHi(_), StripLo(_)
StripHi(m) == IF m = <<>> THEN m
              ELSE IF m[Len(m)] = 0 THEN StripHi(SubSeq(m, 1, Len(m) - 1)) ELSE m
\* number of low zero limbs of a non-empty sequence whose last limb is non-zero
StripLo(m) == IF m[1] # 0 THEN 0 ELSE 1 + StripLo(Tail(m))

Zeros(n) == [i \in 1..n |-> 0]
At(m, i) == IF i \in 1..Len(m) THEN m[i] ELSE 0

\* compare magnitudes of limb sequences without high zeros
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF At(a, i) > At(b, i) THEN 1
                    ELSE IF At(a, i) < At(b, i) THEN -1 ELSE CmpFrom(a, b, i - 1)
CmpMag(a, b) == CmpFrom(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))

RECURSIVE AddFrom(_, _, _, _, _), SubFrom(_, _, _, _, _)
AddFrom(a, b, i, c, n) ==
   IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
   ELSE LET t == At(a, i) + At(b, i) + c
        IN  <<t % B>> \o AddFrom(a, b, i + 1, t \div B, n)
AddMag(a, b) == AddFrom(a, b, 1, 0, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
SubFrom(a, b, i, c, n) ==
   IF i > n THEN <<>>
   ELSE LET t == At(a, i) - At(b, i) - c
        IN  IF t < 0 THEN <<t + B>> \o SubFrom(a, b, i + 1, 1, n)
                     ELSE <<t>> \o SubFrom(a, b, i + 1, 0, n)
SubMag(a, b) == StripHi(SubFrom(a, b, 1, 0, Len(a)))      \* a >= b

RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, d, i, c) ==
   IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
   ELSE LET t == a[i] * d + c IN <<t % B>> \o ScaleFrom(a, d, i + 1, t \div B)
MulMag1(a, d) == IF d = 0 THEN <<>> ELSE ScaleFrom(a, d, 1, 0)

RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) ==
   IF i > Len(b) THEN <<>>
   ELSE AddMag(MulMag1(a, b[i]), <<0>> \o MulFrom(a, b, i + 1))
MulMag(a, b) == StripHi(MulFrom(a, b, 1))

\* canonical number from sign, exponent and limbs ---------------------------
Norm(s, e, m0) ==
   LET m == StripHi(m0)
   IN  IF m = <<>> \/ s = 0 THEN Zero
       ELSE LET k  == Len(m)
                d  == IF k > KMAX THEN k - KMAX ELSE 0
                m1 == SubSeq(m, d + 1, k)
                z  == StripLo(m1)
            IN  <<s, e + d + z>> \o SubSeq(m1, z + 1, Len(m1))

Mant(x) == SubSeq(x, 3, Len(x))

PNeg(x) == [x EXCEPT ![1] = -x[1]]

RECURSIVE IntLimbs(_)
IntLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o IntLimbs(n \div B)
PInt(n) == IF n = 0 THEN Zero
           ELSE IF n > 0 THEN Norm(1, 0, IntLimbs(n)) ELSE Norm(-1, 0, IntLimbs(-n))

\* Addition.  When the operands are further apart than any digit of the
\* result could see, the smaller one is dropped (this is part of the meaning).
PAdd(x, y) ==
   IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
   ELSE LET topx == x[2] + Len(x) - 2
            topy == y[2] + Len(y) - 2
        IN  IF topx - topy > KMAX + 2 THEN x
            ELSE IF topy - topx > KMAX + 2 THEN y
            ELSE LET e == IF x[2] < y[2] THEN x[2] ELSE y[2]
                     a == Zeros(x[2] - e) \o Mant(x)
                     b == Zeros(y[2] - e) \o Mant(y)
                 IN  IF x[1] = y[1] THEN Norm(x[1], e, AddMag(a, b))
                     ELSE LET c == CmpMag(a, b)
                          IN  IF c = 0 THEN Zero
                              ELSE IF c > 0 THEN Norm(x[1], e, SubMag(a, b))
                              ELSE Norm(y[1], e, SubMag(b, a))

PMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN Zero
              ELSE Norm(x[1] * y[1], x[2] + y[2], MulMag(Mant(x), Mant(y)))

\* Long division in base B: the largest digit d with d * v <= r.
RECURSIVE Digit(_, _, _, _)
Digit(r, v, lo, hi) ==           \* invariant: lo*v <= r, hi*v > r
   IF hi - lo = 1 THEN lo
   ELSE LET mid == (lo + hi) \div 2
        IN  IF CmpMag(StripHi(MulMag1(v, mid)), r) <= 0 THEN Digit(r, v, mid, hi)
                                                        ELSE Digit(r, v, lo, mid)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(u, i, r, v) ==           \* digits of u from i down to 1, remainder r
   IF i = 0 THEN <<>>
   ELSE LET r1 == StripHi(<<u[i]>> \o r)
            d  == Digit(r1, v, 0, B)
        IN  DivFrom(u, i - 1, SubMag(r1, StripHi(MulMag1(v, d))), v) \o <<d>>
PDiv(x, y) == IF x[1] = 0 THEN Zero
              ELSE LET v == Mant(y)
                       sh == KMAX + 1 + Len(v) - (Len(x) - 2)
                       u == Zeros(sh) \o Mant(x)
                   IN  Norm(x[1] * y[1], x[2] - sh - y[2], DivFrom(u, Len(u), <<>>, v))

PCmp(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
              ELSE IF x[1] = 0 THEN 0
              ELSE LET topx == x[2] + Len(x) - 2
                       topy == y[2] + Len(y) - 2
                   IN  IF topx > topy THEN x[1] ELSE IF topx < topy THEN -x[1]
                       ELSE LET e == IF x[2] < y[2] THEN x[2] ELSE y[2]
                            IN  x[1] * CmpMag(Zeros(x[2] - e) \o Mant(x),
                                              Zeros(y[2] - e) \o Mant(y))

RECURSIVE IntOf(_, _)
IntOf(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + B * IntOf(m, i + 1)
\* floor, for |x| < 2^30
PFloor(x) ==
   IF x[1] = 0 THEN 0
   ELSE LET m == Mant(x)
            ip == IF x[2] >= 0 THEN IntOf(Zeros(x[2]) \o m, 1)
                  ELSE IntOf(SubSeq(m, 1 - x[2], Len(m)), 1)
            exact == x[2] >= 0
        IN  IF x[1] > 0 THEN ip ELSE IF exact THEN -ip ELSE -ip - 1
=============================================================================
