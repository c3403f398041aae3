----------------------------- MODULE UnitsTrace -----------------------------
(* C01: the dimensional, nondimensional, total and per-link functions of a  *)
(* model are one quantity in different units, whatever the parameters.      *)
EXTENDS Forms, TraceRun
Relative(f) == f \in {x \o RelQ(q) \o y : x \in {"units ", "units " \o ND}, y \in {"", PL}, q \in Quantities}
JudgeUnits(first, prev, ev) ==
   LET a == ev.a  r == ev.r  nf == NonFinite(r)
       c == RowOf(ev.mod)
   IN  IF nf # {} THEN nf
       ELSE LET u == ArgPairs(a) \cup Units(a, r, UnitNoise(c, a, r))
            \* the reference state of this approximation is outside its domain (DESIGN.md, F7); probes look at it
            IN  IF c.var = "strong_potential" /\ ev.tag = "api" THEN {x \in u : ~Relative(x)} ELSE u
=============================================================================
