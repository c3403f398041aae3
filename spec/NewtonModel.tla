------------------------------ MODULE NewtonModel ------------------------------
(***************************************************************************)
(* The iteration of Newton.tla on whole families of functions, targets,    *)
(* guesses, tolerances, iteration limits and powers; TLC checks that it    *)
(* does what it is for.                                                    *)
(***************************************************************************)
EXTENDS Newton, FiniteSets, TLC
Families == {"line", "cubic", "exp", "langevin"}
F(n, x) == CASE n = "line" -> RAdd(RMul(R3, x), R1)
             [] n = "cubic" -> RAdd(x, PowInt(x, 3))
             [] n = "exp" -> RSub(Exp(x), R1)
             [] n = "langevin" -> RAdd(Langevin(x), RDiv(x, RInt(50)))
FP(n, x) == CASE n = "line" -> R3
              [] n = "cubic" -> RAdd(R1, RMul(R3, Sq(x)))
              [] n = "exp" -> Exp(x)
              [] n = "langevin" -> RAdd(LangevinP(x), Frac(1, 50))
Calls == { [y |-> y, x0 |-> g, tol |-> t, max |-> m, power |-> p] :
             y \in {Frac(1, 2), Frac(9, 10), R2}, g \in {Frac(1, 100), Frac(1, 2), R3}, t \in {Dec(1, 2), Dec(1, 6)}, m \in {0, 1, 3, 100}, p \in {1, 4} }
VARIABLES fam, c, s, before       \* before: the iterate before the last step
vars == <<fam, c, s, before>>
Init == fam \in Families /\ c \in Calls /\ s = Start(c) /\ before = Start(c)
Step == /\ Running(c, s)
        /\ LET fx == F(fam, s.x)  fpx == FP(fam, s.x)
           IN  s' = TLCEval(Iterate(c, s, fx, fpx, NextX(c, s, fx, fpx)))
        /\ before' = s /\ UNCHANGED <<fam, c>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
\* ---- properties -----------------------------------------------------------
Done == ~Running(c, s)
Res(x) == RSub(F(fam, x), c.y)
Noise == Dec(1, 30)
Bounded == s.iters <= c.max
Untouched == (c.max = 0) => s.x = c.x0
\* an early stop means that the step before the last met the target, and that it is the first that did
Qualified == (Done /\ s.iters < c.max) => Le(RAbs(Res(before.x)), RMul(c.tol, RAbs(c.y)))
FirstOne == (Running(c, s) /\ s.iters > 0) => Gt(RAbs(Res(before.x)), RMul(c.tol, RAbs(c.y)))
\* increasing convex functions: from the second iterate on the undamped iterates approach the root from above
Above == (fam \in {"line", "cubic", "exp"} /\ c.power = 1 /\ s.iters >= 1) => Ge(RAdd(Res(s.x), Noise), R0)
\* concave: from a guess below the root, from below
Below == (fam = "langevin" /\ Lt(Res(c.x0), R0)) => Le(Res(s.x), Noise)
\* whenever the sign of the residual is settled it never grows, so the result matches the target at least as well as asked for
Shrinking == (s.iters >= 1 /\ Ge(RMul(Res(s.x), Res(before.x)), R0)) => Le(RAbs(Res(s.x)), RAdd(RAbs(Res(before.x)), Noise))
\* a hundred iterations are enough, and then the result is as accurate as stated
Found == (Done /\ c.max = 100 /\ (fam = "langevin" => Lt(Res(c.x0), R0))) =>
            /\ s.iters < c.max
            /\ Le(RAbs(Res(s.x)), RAdd(RMul(c.tol, RAbs(c.y)), Noise))
\* damping by p reduces the residual of a straight line by the factor 1 - 1/p
Damped == (fam = "line" /\ s.iters >= 1) => Within(Res(s.x), RMul(RSub(R1, Frac(1, c.power)), Res(before.x)), Dec(1, 20), Noise)
Terminates == <>Done
=============================================================================
