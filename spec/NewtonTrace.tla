------------------------------ MODULE NewtonTrace ------------------------------
(***************************************************************************)
(* C09: recorded calls of inverse_newton_raphson(_powered) are behaviours  *)
(* of Newton.tla.  Events: call (parameters), f and fp (an evaluation of   *)
(* the supplied function or derivative at x, returning v), ret (the result *)
(* x; v is the function there).  The state holds the machine s and what    *)
(* has been evaluated at its iterate.                                      *)
(***************************************************************************)
EXTENDS Newton, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES at, c, s, fx, fpx, prevres, failed
vars == <<at, c, s, fx, fpx, prevres, failed>>
Ev == Trace[at]
None == <<9, 0>>
NextAt == IF at = Len(Trace) \/ Trace[at + 1].s = 1 THEN 0 ELSE at + 1
Bad(n, ok) == IF ok THEN {} ELSE {n}
Report(f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", at, f>>)
Fin(v) == v[1] # 9 /\ v[1] # 8
Init == at \in Starts /\ c = <<>> /\ s = <<>> /\ fx = None /\ fpx = None /\ prevres = R0 /\ failed = {}
Call == /\ at > 0 /\ Ev.tag = "call"
        /\ c' = Ev.c @@ [conv |-> Ev.conv] /\ s' = Start(Ev.c) /\ fx' = None /\ fpx' = None /\ prevres' = R0
        /\ failed' = {} /\ at' = NextAt
\* rounding of one update
Slack(x1) == RAdd(RMul(Dec(1, 13), RAbs(RSub(x1, s.x))), RMul(Two(-50), RAdd(RAbs(s.x), RAbs(x1))))
Borderline == LET d == RAbs(RSub(c.y, fx)) t == RMul(c.tol, RAbs(c.y)) IN Within(d, t, Dec(1, 9), P10(-300))
Updated(x1) == Within(x1, NextX(c, s, fx, fpx), R0, Slack(NextX(c, s, fx, fpx)))
\* the update from the present iterate, after which the machine is at x1
Moved(x1) == TLCEval(Iterate(c, s, fx, fpx, x1))
CanMove == fx # None /\ fpx # None
\* an evaluation at a new point is the next iterate, at which the iteration must still be running
Eval(kind) ==
   /\ at > 0 /\ Ev.tag = kind
   /\ LET new == Ev.x # s.x
          m   == IF new /\ CanMove THEN Moved(Ev.x) ELSE s
      IN  /\ failed' = (IF ~new THEN Bad("evaluation although no iteration is left", Running(c, s))
                        ELSE IF ~CanMove THEN {"evaluation elsewhere than at the iterate"}
                        ELSE Bad("iterate is not the Newton step", Updated(Ev.x))
                             \cup Bad("iteration continued after it should have stopped", Running(c, m) \/ (Borderline /\ m.iters < c.max)))
          /\ s' = [m EXCEPT !.close = IF new THEN FALSE ELSE @]
          /\ fx'  = IF kind = "f" THEN Ev.v ELSE IF new THEN None ELSE fx
          /\ fpx' = IF kind = "fp" THEN Ev.v ELSE IF new THEN None ELSE fpx
          /\ prevres' = IF new /\ CanMove THEN RAbs(RSub(c.y, fx)) ELSE prevres
   /\ UNCHANGED c /\ Report(failed')
   /\ at' = IF failed' = {} THEN NextAt ELSE 0
Ret ==
   /\ at > 0 /\ Ev.tag = "ret"
   /\ LET m == IF CanMove THEN Moved(Ev.x) ELSE s
          last == IF CanMove THEN RAbs(RSub(c.y, fx)) ELSE prevres IN
      failed' = IF ~Fin(Ev.x) THEN {"result is not a number"}
                ELSE (IF CanMove THEN Bad("result is not the Newton step", Updated(Ev.x))
                                 ELSE Bad("result is not the guess", c.max = 0 /\ Ev.x = c.x0))
                     \cup Bad("stopped early", ~Running(c, m) \/ (CanMove /\ Borderline))
                     \* what it is for: the functions of this class are inverted to the tolerance
                     \cup (IF c.conv = 1 /\ (c.max > 200 \/ (c.max >= 100 /\ Ge(c.tol, Dec(1, 6))))
                           THEN Bad("result does not match the target to the tolerance", Within(Ev.v, c.y, RMul(c.tol, RAdd(R1, Dec(1, 6))), RMul(Two(-46), RAbs(c.y))))
                           ELSE {})
   /\ UNCHANGED <<c, s, fx, fpx, prevres>> /\ Report(failed') /\ at' = NextAt
Next == Call \/ Eval("f") \/ Eval("fp") \/ Ret
Spec == Init /\ [][Next]_vars
=============================================================================
