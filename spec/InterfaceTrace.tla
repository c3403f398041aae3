--------------------------- MODULE InterfaceTrace ---------------------------
(* C17: each C entry point is the function that it exports.                 *)
EXTENDS Api, TraceRun
JudgeInterface(first, prev, ev) ==
   {"entry point " \o n : n \in {x \in DOMAIN ev.x : ~Has(ev.r, x) \/ ev.x[x] # ev.r[x]}}
   \cup {"missing entry point " \o n : n \in DOMAIN ev.r \ DOMAIN ev.x}
=============================================================================
