---------------------------- MODULE QuadratureModel ----------------------------
(***************************************************************************)
(* The rules of Quadrature.tla on monomials, with the nodes taken in every *)
(* order.  TLC checks what the rules are for: the result does not depend   *)
(* on the order, is exact for linear integrands and volumes, and has the   *)
(* midpoint rule's second-order error, exactly, for quadratic ones.        *)
(***************************************************************************)
EXTENDS Quadrature, FiniteSets, TLC
Boxes == { <<R0, R1>>, <<RInt(-1), R2>>, <<R2, Half>> }
Rules == { [q |-> Midpoint1(b[1], b[2], n), a |-> b[1], b |-> b[2], c |-> R0, d |-> R1, n |-> n] : b \in Boxes, n \in 1..8 }
         \cup { [q |-> Midpoint2(b[1], b[2], c[1], c[2], n), a |-> b[1], b |-> b[2], c |-> c[1], d |-> c[2], n |-> n] : b \in Boxes, c \in Boxes, n \in 1..3 }
Powers == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>}
VARIABLES r, p, s
vars == <<r, p, s>>
Value(k) == RMul(PowInt(NodeX(r.q, k), p[1]), PowInt(NodeY(r.q, k), p[2]))
Init == r \in Rules /\ p \in Powers /\ (r.q.dim = 1 => p[2] = 0) /\ s = Begin(r.q)
Evaluate == \E k \in s.left : s' = TLCEval(Take(s, k, Value(k))) /\ UNCHANGED <<r, p>>
Spec == Init /\ [][Evaluate]_vars
Antider(x, m) == RDiv(PowInt(x, m + 1), RInt(m + 1))
Exact == RMul(RSub(Antider(r.b, p[1]), Antider(r.a, p[1])), IF r.q.dim = 1 THEN R1 ELSE RSub(Antider(r.d, p[2]), Antider(r.c, p[2])))
\* the midpoint rule for x^2 misses h^2/12 times the volume
Missing == IF p[1] = 2 THEN RMul(RDiv(Sq(r.q.dx), RInt(12)), RMul(RSub(r.b, r.a), IF r.q.dim = 1 THEN R1 ELSE RSub(r.d, r.c))) ELSE R0
Correct == Finished(s) => Within(RAdd(Result(r.q, s), Missing), Exact, Dec(1, 25), Dec(1, 25))
EachOnce == Cardinality(s.left) <= r.q.nx * r.q.ny
Inside == \A k \in Nodes(r.q) : LET x == NodeX(r.q, k) IN Lt(RMul(RSub(x, r.a), RSub(x, r.b)), R0)
=============================================================================
