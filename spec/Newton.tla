-------------------------------- MODULE Newton --------------------------------
(***************************************************************************)
(* Inversion of a function by (damped) Newton iteration, as the state      *)
(* machine that the library's routines implement:                          *)
(*   the iteration starts from the guess; while the target has not been    *)
(*   matched to the relative tolerance and iterations are left, f and its  *)
(*   derivative are evaluated at the iterate and the iterate moves by      *)
(*   (y - f(x)) / f'(x) / power.  The result is the last iterate.          *)
(* A call is [y, x0, tol, max, power].                                     *)
(***************************************************************************)
EXTENDS Elem
Start(c) == [x |-> c.x0, iters |-> 0, close |-> FALSE]
Running(c, s) == ~s.close /\ s.iters < c.max
NextX(c, s, fx, fpx) == RAdd(s.x, RDiv(RDiv(RSub(c.y, fx), fpx), RInt(c.power)))
\* relative residual within the tolerance (never, for a zero target, unless the residual is 0/0: then iteration ends)
Close(c, fx) == IF c.y[1] = 0 THEN Eq(fx, c.y) ELSE Le(RAbs(RSub(c.y, fx)), RMul(c.tol, RAbs(c.y)))
Iterate(c, s, fx, fpx, x1) == [x |-> x1, iters |-> s.iters + 1, close |-> Close(c, fx)]
=============================================================================
