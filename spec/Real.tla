-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Arbitrary-exponent, fixed-precision real arithmetic for TLC.            *)
(*                                                                         *)
(* A number is a tuple <<s, e, l_1, ..., l_k>> with 0 <= k <= KMAX limbs   *)
(* in base B = 2^15 and denotes   s * (SUM l_i B^(i-1)) * B^e.             *)
(* Canonical form: zero is <<0, 0>>; otherwise s \in {-1, 1}, the first    *)
(* and the last limb are non-zero.  Results of an operation are truncated  *)
(* towards zero to the KMAX leading limbs, so every operation is exact to  *)
(* a relative error below 2^-135.  Every IEEE double is represented        *)
(* exactly, so no information is lost between the recorded trace of the    *)
(* implementation and the specification.                                   *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  TLC evaluates  *)
(* them through a Java module override (java/Real.java) for speed;         *)
(* RealSelfTest.tla checks, in TLC, that the override agrees with them.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL INSTANCE RealPure

RAdd(x, y)  == PAdd(x, y)
RSub(x, y)  == PAdd(x, PNeg(y))
RMul(x, y)  == PMul(x, y)
RDiv(x, y)  == PDiv(x, y)
RNeg(x)     == PNeg(x)
RCmp(x, y)  == PCmp(x, y)      \* -1, 0, 1
RInt(n)     == PInt(n)         \* TLA+ integer -> real
RFloor(x)   == PFloor(x)       \* real -> TLA+ integer (|x| < 2^30)
=============================================================================
