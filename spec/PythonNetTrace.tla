--------------------------- MODULE PythonNetTrace ---------------------------
(***************************************************************************)
(* C18: the network models through the Python interface.  The history of   *)
(* a damaging network (rest, stretches) and the two loading modes of a     *)
(* hyperelastic one return in Python what they return in Rust; the results *)
(* in Rust are those of DamageTrace.tla and HyperelasticTrace.tla.         *)
(***************************************************************************)
EXTENDS Elem, TraceRun
Fin(x) == x[1] \in {-1, 0, 1}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Same(name, p, v) == Bad(name, IF Fin(v) THEN Fin(p) /\ Within(p, v, Dec(1, 8), Dec(1, 10)) ELSE p = v)
JudgePythonNet(first, prev, ev) ==
   CASE ev.tag = "mirror" -> Same("uniaxial tension", ev.puni, ev.uni) \cup Same("equibiaxial tension", ev.pequi, ev.equi)
     [] ev.tag = "stretch" -> Same("stress", ev.pstress, ev.stress) \cup Same("probability of intact chains", ev.ptotal, ev.total)
     [] OTHER -> {}
=============================================================================
