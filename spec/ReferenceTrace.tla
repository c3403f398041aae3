--------------------------- MODULE ReferenceTrace ---------------------------
(* C05: every result is the value that statistical mechanics assigns to it. *)
EXTENDS Forms, TraceRun
(* Known findings: results that are what the formula of the library gives  *)
(* in its arithmetic and on its grid, but not what the model gives.        *)
(* The same integrals on a grid of Fine points: *)
Fine == 2048
FineNode(i) == Frac(2 * i - 1, 2 * Fine)
FineWlc(a, e) ==
   LET pre == TLCEval(WlcPre(a.nondimensional_persistance_length))
       n == a.number_of_links
       t == TLCEval([i \in 1..Fine |-> Exp(RNeg(WlcPsi0(pre, FineNode(i))))])
       z(x) == RSum([i \in 1..Fine |-> LET g == FineNode(i)  u == RMul(RMul(RInt(n), x), g)
                                        IN  RMul(RMul(RMul(RSub(Exp(u), Exp(RNeg(u))), g), RDiv(Half, RMul(RInt(n), x))), t[i])])
       f(x) == Ln(z(x))
   IN  RDiv(Deriv(f, e), RInt(n))
FineMod(a, d) ==
   LET n == a.number_of_links
       k == RMul(RMul(RInt(n), RInt(n)), a.nondimensional_potential_stiffness)
       t == TLCEval([i \in 1..Fine |-> RMul(FjcP(n, FineNode(i)), FineNode(i))])
       z(x) == RSum([i \in 1..Fine |-> LET g == FineNode(i)
                                        IN  RMul(t[i], RSub(Exp(RMul(RNeg(Half), RMul(k, Sq(RSub(x, g))))), Exp(RMul(RNeg(Half), RMul(k, Sq(RAdd(x, g)))))))])
       f(x) == RSub(Ln(x), Ln(z(x)))
   IN  RDiv(Deriv(f, d), RInt(n))
Accuracy(tag, a, r) ==
   CASE tag = "probe:rounding-noise" /\ Has(r, PEQ) ->
           LET p == FjcP(a.number_of_links, a[GAM]) IN Bad("accuracy", Le(RAbs(RSub(r[PEQ], p)), RMul(Dec(1, 6), p)))
     [] tag = "probe:wlc-grid" -> LET g == FineWlc(a, a[ETA]) IN Bad("accuracy", Le(RAbs(RSub(r[GAM], g)), Dec(1, 4)))
     [] tag = "probe:potential-grid" -> LET e == FineMod(a, a.nondimensional_potential_distance)
                                        IN  Bad("accuracy", Le(RAbs(RSub(r[ETA], e)), Dec(1, 2)))
     [] OTHER -> {}
RelativeNames == {x \o RelQ(q) \o y : x \in {"", ND}, q \in Quantities, y \in {"", PL}}
\* at and beyond full extension nothing has any weight (and the free energy, which is infinite or undefined, is not looked at);
\* for two links the density is finite at full extension itself
Beyond(a, r) ==
   UNION { Bad("weight beyond full extension " \o n,
               IF ~Has(r, n) THEN TRUE ELSE /\ Fin(r[n])
                  /\ \/ r[n][1] = 0
                     \/ a.number_of_links = 2 /\ Le(a[GAM], RAdd(R1, Dec(1, 12)))
                     \/ Lt(RAbs(RSub(a[GAM], R1)), Dec(1, 12)) /\ (n \notin {PEQ, "nondimensional_equilibrium_radial_distribution"} \/ Le(RAbs(r[n]), Dec(1, 9))))
         : n \in {PEQ, "equilibrium_distribution", "nondimensional_equilibrium_radial_distribution", "equilibrium_radial_distribution"} }
JudgeReference(first, prev, ev) ==
   IF ev.tag = "beyond" THEN Beyond(ev.a, ev.r) ELSE
   LET c == RowOf(ev.mod)
       \* for many links the alternating sum of the exact chain is rounding noise of either sign at small extension, above all
       \* at the reference state (see the known findings), and its logarithm need not exist
       Noise(x) == LET n == ev.a.number_of_links
                   IN  Ge(RMul(RMul(RMul(RInt(128), Eps), RInt(n)), ShellAbs(n, x, n - 2)), RAbs(ShellSum(n, x, n - 2)))
       bad == NonFinite(ev.r)
       exact == bad # {} /\ c.fam = "fjc" /\ IsM(c) /\ ~c.leg
       nf == IF ~exact THEN bad ELSE IF Noise(ev.a[GAM]) THEN {}
             ELSE IF Noise(ZERO) THEN bad \ {"nonfinite " \o y : y \in RelativeNames} ELSE bad
       r == [n \in {m \in DOMAIN ev.r : Fin(ev.r[m])} |-> ev.r[n]]
   IN IF nf # {} THEN nf ELSE RefCheck(c, ev.a, r)
      \cup (IF ev.tag = "api" THEN AllForms(c, ev.a, r) ELSE {})
      \cup Accuracy(ev.tag, ev.a, ev.r)
=============================================================================
