--------------------------- MODULE LegendreTrace ---------------------------
(***************************************************************************)
(* C03: the ensembles of a model are Legendre transforms of each other.    *)
(* One event is a cycle: a force (a), the isotensional results there (t),  *)
(* the Legendre-transformed Helmholtz energies (l), the isometric results  *)
(* at the extension of t (m), and the isotensional results at the force of *)
(* m (b).                                                                  *)
(***************************************************************************)
EXTENDS Forms, TraceRun
At(ev, g) == [ev.a EXCEPT !.nondimensional_force = g]
Names(q, rel) == << ND \o rel \o q \o PL, ND \o rel \o q, rel \o q \o PL, rel \o q >>
Forms(a) == << R1, N(a), kT(a), RMul(N(a), kT(a)) >>
Transform(c, a, t, l, rel) ==     \* Helmholtz = Gibbs + force * extension, in every form
   LET e == a.nondimensional_force  g == t[GAM]
       \* rounding of the absolute value, of the extension, and of the reference state
       tol == RAdd(RMul(Dec(1, 11), Scale(a, t)),
                   IF c.fam = "wlc" THEN RAdd(RMul(Dec(1, 10), RAdd(R1, e)), IF rel = "" THEN R0 ELSE RMul(ZERO, WlcGamErr(a, ZERO)))
                   ELSE RAdd(RMul(e, GamErr(c, a, e)), IF rel = "" THEN R0 ELSE RMul(R4, PhiErr(c, a, ZERO))))
       h == Names(HFE, rel)  f == Names(GFE, rel)
   IN  UNION { IF ~(Has(l, h[i]) /\ Has(t, f[i])) THEN {}
               ELSE Bad("transform " \o h[i], Within(l[h[i]], RAdd(t[f[i]], RMul(Forms(a)[i], RMul(e, g))), R0, RMul(tol, Forms(a)[i]))) : i \in 1..4 }
Inverse(c, a, t, m, b) ==
   LET e == a.nondimensional_force  g == t[GAM]  f == m[ETA]
       tight == Bad("inverse extension", Within(b[GAM], g, InvTol, RAdd(GamErr(c, a, e), Dec(1, 12))))
       near == Bad("inverse force", Within(f, e, Dec(5, 2), Dec(1, 4)))
   IN  tight \cup near
Isometric(c, a, t, m, b) ==      \* the isometric energy at that extension is the transform of the isotensional one
   LET f == m[ETA]  g == t[GAM]
       tol == RAdd(RMul(Dec(1, 11), Scale(a, t)), RAdd(RMul(R4, PhiErr(c, a, ZERO)),
              RAdd(RMul(f, RAdd(RMul(InvTol, RAbs(RSub(b[GAM], g))), GamErr(c, a, f))), RMul(Dec(1, 10), f))))
       n == FE(RelQ(HFE))
       w == FE(HFE)
       cm == RowOf("ideal/thermodynamics/isometric")
   IN  Bad("isometric " \o n, Within(m[n], RAdd(b[FE(RelQ(GFE))], RMul(f, g)), R0, tol))
       \cup Bad("isometric " \o w, Within(RSub(m[w], Offset([c EXCEPT !.ens = "M", !.leg = TRUE], a)),
                                          RSub(RAdd(b[FE(GFE)], RMul(f, g)), Offset(c, a)), R0, tol))
JudgeLegendre(first, prev, ev) ==
   LET c == RowOf(ev.mod)  a == ev.a
       nf == NonFinite(ev.t) \cup (IF Has(ev, "l") THEN NonFinite(ev.l) ELSE {}) \cup (IF Has(ev, "m") THEN NonFinite(ev.m) ELSE {})
             \cup (IF Has(ev, "b") THEN NonFinite(ev.b) ELSE {})
   IN  IF nf # {} THEN nf
       ELSE (IF Has(ev, "l") THEN Transform(c, a, ev.t, ev.l, "") \cup Transform(c, a, ev.t, ev.l, "relative_") ELSE {})
            \cup AllForms(c, a, ev.t)
            \cup (IF Has(ev, "m") /\ ev.ml # "" THEN AllForms(RowOf(ev.ml), (GAM :> ev.t[GAM]) @@ a, ev.m) ELSE {})
            \cup (IF Has(ev, "b") THEN Inverse(c, a, ev.t, ev.m, ev.b) \cup Isometric(c, a, ev.t, ev.m, ev.b) ELSE {})
=============================================================================
