------------------------------ MODULE Quadrature ------------------------------
(***************************************************************************)
(* The quadrature rules of the library, as a state machine over the nodes  *)
(* that are still to be evaluated.  A rule q is                            *)
(*   [dim, nx, ny, x0, dx, y0, dy, gx, gy, w, grid]                        *)
(* with nodes either at the midpoints x0 + (i - 1/2) dx or at the points   *)
(* gx[i] of a given grid, in each dimension, and one weight w per node.    *)
(* Each evaluation takes one node that is left, in any order; the result   *)
(* is the sum of the values times the weight when no node is left.         *)
(***************************************************************************)
EXTENDS Elem
Midpoint1(x0, x1, n) == LET dx == RDiv(RSub(x1, x0), RInt(n)) IN
   [dim |-> 1, nx |-> n, ny |-> 1, x0 |-> x0, dx |-> dx, y0 |-> R0, dy |-> R1, gx |-> <<>>, gy |-> <<>>, w |-> dx, grid |-> FALSE]
Midpoint2(x0, x1, y0, y1, n) == LET dx == RDiv(RSub(x1, x0), RInt(n)) dy == RDiv(RSub(y1, y0), RInt(n)) IN
   [dim |-> 2, nx |-> n, ny |-> n, x0 |-> x0, dx |-> dx, y0 |-> y0, dy |-> dy, gx |-> <<>>, gy |-> <<>>, w |-> RMul(dx, dy), grid |-> FALSE]
Grid1(g, w) == [dim |-> 1, nx |-> Len(g), ny |-> 1, x0 |-> R0, dx |-> R1, y0 |-> R0, dy |-> R1, gx |-> g, gy |-> <<R0>>, w |-> w, grid |-> TRUE]
Grid2(gx, gy, w) == [dim |-> 2, nx |-> Len(gx), ny |-> Len(gy), x0 |-> R0, dx |-> R1, y0 |-> R0, dy |-> R1, gx |-> gx, gy |-> gy, w |-> w, grid |-> TRUE]
Nodes(q) == (1..q.nx) \X (1..q.ny)
Mid(a, d, i) == RAdd(a, RMul(RSub(RInt(i), Half), d))
NodeX(q, k) == IF q.grid THEN q.gx[k[1]] ELSE Mid(q.x0, q.dx, k[1])
NodeY(q, k) == IF q.dim = 1 THEN R0 ELSE IF q.grid THEN q.gy[k[2]] ELSE Mid(q.y0, q.dy, k[2])
\* machine: nodes left, sum of values, sum of magnitudes
Begin(q) == [left |-> Nodes(q), sum |-> R0, mag |-> R0]
Take(s, k, v) == [left |-> s.left \ {k}, sum |-> RAdd(s.sum, v), mag |-> RAdd(s.mag, RAbs(v))]
Finished(s) == s.left = {}
Result(q, s) == RMul(s.sum, q.w)
=============================================================================
