------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Reads a trace recorded from the real code (one JSON object per line,    *)
(* numbers in the exact representation of Real.tla) and steps through it.  *)
(* A line with s = 1 starts a session; sessions are independent of each    *)
(* other and explored in parallel.  CONSTANT Judge maps the session so far *)
(* (the start event, the previous event) and the next event to the set of  *)
(* names of the relations that the step violates.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Judge(_, _, _)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES start, at, failed
vars == <<start, at, failed>>
Ends(n) == n = Len(Trace) \/ Trace[n + 1].s = 1
Report(n, f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", n, f>>)
Init == start \in Starts /\ at = 0 /\ failed = {}
First == /\ at = 0
         /\ failed' = Judge(Trace[start], Trace[start], Trace[start])
         /\ Report(start, failed')
         /\ at' = start /\ UNCHANGED start
Step  == /\ at > 0 /\ ~Ends(at)
         /\ failed' = Judge(Trace[start], Trace[at], Trace[at + 1])
         /\ Report(at + 1, failed')
         /\ at' = at + 1 /\ UNCHANGED start
Next == First \/ Step
Spec == Init /\ [][Next]_vars
=============================================================================
