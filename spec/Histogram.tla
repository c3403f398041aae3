------------------------------ MODULE Histogram ------------------------------
(***************************************************************************)
(* The estimator of a radial distribution from samples.  A histogram is    *)
(* [bins, max]; bin i is [ (i-1) max/bins, i max/bins ).                   *)
(* State: the number of samples and the counts.  Sample(g) counts g in the *)
(* bin that contains it (samples from max on are in no bin).  The result   *)
(* is the bin centres and the count over samples times bin width.          *)
(***************************************************************************)
EXTENDS Elem
Width(h) == RDiv(h.max, RInt(h.bins))
Edge(h, i) == RDiv(RMul(h.max, RInt(i)), RInt(h.bins))
Center(h, i) == RDiv(RMul(h.max, RAdd(RInt(i - 1), Half)), RInt(h.bins))
Empty(h) == [samples |-> 0, count |-> [i \in 1..h.bins |-> 0]]
In(h, i, g) == Le(Edge(h, i - 1), g) /\ Lt(g, Edge(h, i))
\* the bin that contains g, 0 if none
Bin(h, g) == IF Lt(g, R0) \/ Ge(g, h.max) THEN 0
             ELSE LET i == RFloor(RDiv(g, Width(h))) + 1 IN
                  IF i >= 1 /\ i <= h.bins /\ In(h, i, g) THEN i
                  ELSE IF i > 1 /\ In(h, i - 1, g) THEN i - 1 ELSE i + 1
Put(s, i) == [samples |-> s.samples + 1, count |-> IF i = 0 THEN s.count ELSE [s.count EXCEPT ![i] = @ + 1]]
Density(h, n, samples) == RDiv(RInt(n), RMul(RInt(samples), Width(h)))
=============================================================================
