----------------------------- MODULE Convolution -----------------------------
(***************************************************************************)
(* The freely jointed chain, link by link.  If q_n(r) is the density of    *)
(* the end-to-end length of n unit links, h_n = q_n / r (extended to an    *)
(* odd function) satisfies                                                 *)
(*      h_(n+1)(r) = 1/2 * integral of h_n over [r-1, r+1],                *)
(* because the next link points in every direction with equal probability. *)
(* The state is the number of links and h_n, as polynomials in t on each   *)
(* interval [k, k+1], r = k + t, -n <= k < n.                              *)
(* TLC adds links one by one and checks, for each chain, the norm, the     *)
(* mean square length, and that the closed form of Chain.tla (FjcP, used   *)
(* to validate the implementation) is this density; and that the force is  *)
(* that of the closed form.                                                *)
(***************************************************************************)
EXTENDS Chain
CONSTANT MaxLinks
VARIABLES n, h
vars == <<n, h>>
\* polynomials: sequences of coefficients of t^0, t^1, ...
PAt(p, t) == LET f(i) == RMul(p[i], PowInt(t, i - 1)) IN Sum(f, 1, Len(p))
PAt1(p) == LET f(i) == p[i] IN Sum(f, 1, Len(p))
PInteg(p) == TLCEval([i \in 1..(Len(p) + 1) |-> IF i = 1 THEN R0 ELSE RDiv(p[i - 1], RInt(i - 1))])
Get(p, i) == IF i > Len(p) THEN R0 ELSE p[i]
Piece(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<R0>>
Next1(f, k) ==
   LET a == PInteg(Piece(f, k - 1))  b == PInteg(Piece(f, k))  c == PInteg(Piece(f, k + 1))
       m == IF Len(a) > Len(c) THEN Len(a) ELSE Len(c)
       l == IF m > Len(b) THEN m ELSE Len(b)
       konst == RAdd(PAt1(a), PAt1(b))
   IN  TLCEval([i \in 1..l |-> RMul(Half, RAdd(IF i = 1 THEN konst ELSE R0, RSub(Get(c, i), Get(a, i))))])
Init == /\ n = 2
        /\ h = [k \in -2..1 |-> IF k < 0 THEN <<RNeg(Half)>> ELSE <<Half>>]
AddLink == /\ n < MaxLinks
           /\ n' = n + 1
           /\ h' = TLCEval([k \in -(n + 1)..n |-> Next1(h, k)])
Next == AddLink
Spec == Init /\ [][Next]_vars
\* ---- properties ----------------------------------------------------------
\* integral of r^p h(r) over r > 0
Moment(p) ==
   LET part(k) == LET q == h[k]
                      \* (k+t)^p expanded by repeated multiplication
                      mul(s) == [i \in 1..(Len(s) + 1) |-> RAdd(RMul(RInt(k), Get(s, i)), IF i = 1 THEN R0 ELSE s[i - 1])]
                      r1 == TLCEval(mul(q))  r2 == TLCEval(mul(r1))  r3 == TLCEval(mul(r2))
                  IN  PAt1(PInteg(IF p = 1 THEN r1 ELSE r3))
   IN  Sum(part, 0, n - 1)
Odd == \A k \in 0..(n - 1) : Within(PAt(h[k], Frac(1, 4)), RNeg(PAt(h[-k - 1], Frac(3, 4))), Dec(1, 20), P10(-30))
Norm == Within(Moment(1), R1, Dec(1, 20), R0)
MeanSquare == Within(Moment(3), RInt(n), Dec(1, 20), R0)
NonNegative == \A k \in 0..(n - 1), t \in {Frac(1, 3), Frac(7, 8)} : Ge(RAdd(PAt(h[k], t), P10(-30)), R0)
Density(k, t) == LET r == RAdd(RInt(k), t) IN RMul(RDiv(PowInt(RInt(n), 3), RMul(R4, RMul(Pi, r))), PAt(h[k], t))
ClosedForm == \A k \in 0..(n - 1), t \in {Frac(1, 5), Half, Frac(4, 5)} :
                 Within(FjcP(n, RDiv(RAdd(RInt(k), t), RInt(n))), Density(k, t), Dec(1, 15), P10(-25))
=============================================================================
