----------------------------- MODULE DamageTrace -----------------------------
(***************************************************************************)
(* C16: histories of one damaging network.  State: the largest stretch of  *)
(* the history (max), and what the network has returned so far (seen).     *)
(* Events: network (the object), rest (a new history begins), stretch (a   *)
(* step of the history).                                                   *)
(***************************************************************************)
EXTENDS Damage, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES start, at, max, seen
vars == <<start, at, max, seen>>
Report(n, f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", n, f>>)
Fin(x) == x[1] \in {-1, 0, 1}
Bad(name, ok) == IF ok THEN {} ELSE {name}
\* one value of the network against another that must be the same
Tol(x) == RAdd(RMul(Dec(1, 9), RAbs(x)), Dec(1, 9))
Near(x, y) == Le(RAbs(RSub(x, y)), Tol(y))
JudgeStretch(net, ev, m) ==
   IF ~Fin(ev.stress) \/ ~Fin(ev.total) THEN {"nonfinite stress or probability"}
   ELSE UNION {
      Bad("probability of intact chains is negative", ev.total[1] >= 0),
      Bad("result depends on more than the stretch and the largest stretch",
          \A q \in 1..Len(seen) : (seen[q].lam = ev.lam /\ seen[q].max = m) => (Near(ev.stress, seen[q].stress) /\ Near(ev.total, seen[q].total))),
      Bad("chains heal", \A q \in 1..Len(seen) : (seen[q].lam = ev.lam /\ Le(seen[q].max, m)) => Le(ev.total, RAdd(seen[q].total, Dec(1, 10)))),
      Bad("largest stretch matters below it", \A q \in 1..Len(seen) : (seen[q].lam = ev.lam /\ Le(m, seen[q].max)) => Le(seen[q].total, RAdd(ev.total, Dec(1, 10)))),
      IF ev.full = 0 THEN {}
      ELSE LET d == TLCEval(Damaged(net.method, net.gc, net.n, net.k, net.j, ev.lam, m))
               t(x, e) == RAdd(RAdd(RMul(Dec(1, 7), RAbs(x)), Dec(1, 8)), e)
           IN  Bad("stress", Le(RAbs(RSub(ev.stress, d.stress)), t(d.stress, d.dstress)))
               \cup Bad("probability of intact chains", Le(RAbs(RSub(ev.total, d.total)), t(d.total, d.dtotal))) }
Init == start \in Starts /\ at = start /\ max = R1 /\ seen = <<>>
More == at < Len(Trace) /\ Trace[at + 1].s = 0
NewHistory == /\ More /\ Trace[at + 1].tag = "rest"
              /\ at' = at + 1 /\ max' = R1 /\ UNCHANGED <<start, seen>>
Pull == /\ More /\ Trace[at + 1].tag = "stretch"
        /\ LET ev == Trace[at + 1]
               m == RMax(max, ev.lam)
               f == JudgeStretch(Trace[start], ev, m)
           IN  /\ Report(at + 1, f)
               /\ max' = m
               /\ seen' = Append(seen, [lam |-> ev.lam, max |-> m, stress |-> ev.stress, total |-> ev.total])
        /\ at' = at + 1 /\ UNCHANGED start
Next == NewHistory \/ Pull
Spec == Init /\ [][Next]_vars
=============================================================================
