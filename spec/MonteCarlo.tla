------------------------------ MODULE MonteCarlo ------------------------------
(***************************************************************************)
(* Random chain configurations, link by link.  A chain is                  *)
(* [mod, n, theta, cos, kappa]; the state of a configuration under construction *)
(* is its end r, its last link d (initially the unit vector along x, to    *)
(* which the first fixed angle refers), and the number of links.           *)
(*   AddLink appends a link; which links are possible depends on the model *)
(*   only: of unit length or of any length, in any direction or at the     *)
(*   fixed angle theta to the link before.                                 *)
(* All directions (all azimuths about the link before) are equally likely, *)
(* and independent of the links before; lengths are normally distributed   *)
(* with mean 1 and variance 1/kappa.                                       *)
(***************************************************************************)
EXTENDS Elem
V3(x, y, z) == <<x, y, z>>
VSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2]), RSub(u[3], v[3])>>
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2]), RAdd(u[3], v[3])>>
VScale(a, u) == <<RMul(a, u[1]), RMul(a, u[2]), RMul(a, u[3])>>
Dot(u, v) == RAdd(RMul(u[1], v[1]), RAdd(RMul(u[2], v[2]), RMul(u[3], v[3])))
Cross(u, v) == <<RSub(RMul(u[2], v[3]), RMul(u[3], v[2])), RSub(RMul(u[3], v[1]), RMul(u[1], v[3])), RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
NormV(u) == IF Dot(u, u)[1] = 0 THEN R0 ELSE Sqrt(Dot(u, u))
Fixed(c) == c.mod \in {"frc", "efrc"}          \* fixed bond angle
Extensible(c) == c.mod \in {"efjc", "efrc"}
Origin == [r |-> <<R0, R0, R0>>, d |-> <<R1, R0, R0>>, links |-> 0]
\* a link l (vector) is possible after the direction d
UnitLength(c, l, tol) == Extensible(c) \/ Within(Dot(l, l), R1, tol, R0)
Angle(c, d, l, tol) == ~Fixed(c) \/ Within(Dot(d, l), RMul(c.cos, NormV(l)), R0, RMul(tol, RAdd(R1, NormV(l))))
Link(s, l) == [r |-> VAdd(s.r, l), d |-> IF Dot(l, l)[1] = 0 THEN s.d ELSE VScale(Inv(NormV(l)), l), links |-> s.links + 1]
=============================================================================
