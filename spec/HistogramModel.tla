----------------------------- MODULE HistogramModel -----------------------------
(***************************************************************************)
(* Every history of up to MaxSamples samples on a grid that includes all   *)
(* edges, for every number of bins.                                        *)
(***************************************************************************)
EXTENDS Histogram, TLC
CONSTANTS MaxSamples, MaxBins
Maxima == {R1, Frac(7, 5)}
Grid == {Frac(k, 12) : k \in 0..14}
VARIABLES h, s, log
vars == <<h, s, log>>
Init == /\ h \in {[bins |-> b, max |-> m] : b \in 1..MaxBins, m \in Maxima}
        /\ s = Empty(h) /\ log = <<>>
Sample == \E g \in Grid : /\ s.samples < MaxSamples
                          /\ s' = TLCEval(Put(s, Bin(h, g))) /\ log' = Append(log, g) /\ UNCHANGED h
Spec == Init /\ [][Sample]_vars
Total(t) == LET f(i) == RInt(t.count[i]) IN Sum(f, 1, h.bins)
\* every sample below the maximum is in exactly one bin, and counted there
Partition == \A g \in Grid : IF Lt(g, h.max) THEN \E i \in 1..h.bins : In(h, i, g) /\ Bin(h, g) = i /\ \A j \in 1..h.bins : In(h, j, g) => j = i
                             ELSE Bin(h, g) = 0
InRange == {i \in 1..Len(log) : Lt(log[i], h.max)}
Card(S) == LET RECURSIVE C(_) C(T) == IF T = {} THEN 0 ELSE 1 + C(T \ {CHOOSE x \in T : TRUE}) IN C(S)
Accounted == Total(s) = RInt(Card(InRange))
Counts == \A i \in 1..h.bins : s.count[i] = Card({k \in 1..Len(log) : In(h, i, log[k])})
\* the density integrates to the share of the samples that are in range
Norm == s.samples = 0 \/
        Within(LET f(i) == RMul(Density(h, s.count[i], s.samples), Width(h)) IN Sum(f, 1, h.bins), Frac(Card(InRange), s.samples), Dec(1, 25), Dec(1, 25))
\* the first edge above the sample (how the library searches) is the upper edge of its bin
FirstEdge == \A g \in Grid : Lt(g, h.max) => \A i \in 1..h.bins : (Bin(h, g) = i) <=> (Lt(g, Edge(h, i)) /\ \A j \in 1..(i - 1) : ~Lt(g, Edge(h, j)))
=============================================================================
