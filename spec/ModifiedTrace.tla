---------------------------- MODULE ModifiedTrace ----------------------------
(***************************************************************************)
(* C08: the modified canonical ensemble of the freely jointed chain along  *)
(* sweeps of the stiffness of the potential.                               *)
(*   stiffen: the distance d is fixed, the stiffness doubles; the results  *)
(*            approach those of the isometric ensemble at d                *)
(*   soften:  the force N omega d is fixed, the stiffness halves; the      *)
(*            results approach those of the isotensional ensemble          *)
(* r: modified canonical, y: the asymptotic module, z: the limit ensemble. *)
(***************************************************************************)
EXTENDS Forms, TraceRun
Nom(a) == RMul(N(a), a.nondimensional_potential_stiffness)
Mean(ev) ==    \* the force is that of the potential at the mean length; the energies differ by that of the potential
   LET a == ev.a  r == ev.r  d == a.nondimensional_potential_distance
       pot == RMul(RMul(Half, Nom(a)), Sq(d))
   IN  Bad("force is that of the potential", Within(r[ETA], RMul(Nom(a), RSub(d, r[GAM])), Dec(1, 9), RMul(Dec(1, 10), RMul(Nom(a), RAdd(R1, d)))))
       \cup Bad("energies differ by that of the potential", Within(r[FE(HFE)], RAdd(r[FE(GFE)], pot), R0, RAdd(RMul(Dec(1, 11), Scale(a, r)), RMul(Dec(1, 10), pot))))
\* distance to the limit: must keep shrinking at the stated order
Gap(ev, s, q) == RAbs(RSub(ev.r[q], s[q]))
Shrinks(name, p, q, ratio, floor) == Bad(name, Le(q, RMax(floor, RMul(ratio, p))))
\* isometric energies are per volume, modified canonical ones per harmonic well (the same units follow from Offset)
Level(ev, s, q, cs) == RSub(RSub(ev.r[q], Offset(RowOf(ev.mod), ev.a)), RSub(s[q], Offset(cs, ev.a)))
IsoM == RowOf("fjc/thermodynamics/isometric")
Stiffen(f, p, ev) ==
   LET om == RMul(N(ev.a), Nom(ev.a))       \* N^2 omega, the sharpness of the potential
       fl == RDiv(RMul(RInt(2), RAdd(R1, RAbs(ev.z[ETA]))), om)
       wl(x) == \* width of the harmonic well: (3/2) ln(2 pi / (N^2 omega)) / N
                RDiv(RMul(Frac(3, 2), Ln(RDiv(RMul(R2, Pi), RMul(N(x.a), Nom(x.a))))), N(x.a))
       g(x) == RAbs(RAdd(Level(x, x.z, FE(HFE), IsoM), wl(x)))
       last == Le(RMul(RInt(15), Nom(f.a)), Nom(ev.a))   \* sixteen times the stiffness of the first event
  IN  (IF ~last THEN {} ELSE
         Shrinks("force converges to the isometric force", Gap(f, f.z, ETA), Gap(ev, ev.z, ETA), Half, fl)
         \cup Shrinks("force converges to the strong-potential force", Gap(f, f.y, ETA), Gap(ev, ev.y, ETA), Frac(1, 4), RMul(RInt(4), fl))
         \cup Shrinks("energy converges to the isometric energy", g(f), g(ev), Half, RDiv(RMul(RInt(2), Sq(RAdd(R1, RAbs(ev.z[ETA])))), om)))
       \cup Shrinks("force approaches the isometric force", Gap(p, p.z, ETA), Gap(ev, ev.z, ETA), Dec(93, 2), RMul(RInt(4), fl))
       \cup Shrinks("force approaches the strong-potential force", Gap(p, p.y, ETA), Gap(ev, ev.y, ETA), Dec(80, 2), RMul(RInt(4), fl))
       \cup Shrinks("energy approaches the isometric energy", g(p), g(ev), Dec(93, 2), RDiv(RMul(RInt(2), Sq(RAdd(R1, RAbs(ev.z[ETA])))), om))
Soften(f, p, ev) ==
   LET n == N(ev.a)  k == Nom(ev.a)
       fl == RMul(k, Dec(1, 2))
       last == Le(Nom(ev.a), RDiv(Nom(f.a), RInt(15)))
  IN  (IF ~last THEN {} ELSE
         Shrinks("extension converges to the isotensional extension", Gap(f, f.z, GAM), Gap(ev, ev.z, GAM), Dec(12, 2), RMul(k, Dec(1, 2)))
          \cup Shrinks("extension converges to the weak-potential extension", Gap(f, f.y, GAM), Gap(ev, ev.y, GAM), Dec(15, 2), RMul(k, Dec(1, 2))))
       \cup Shrinks("extension approaches the isotensional extension", Gap(p, p.z, GAM), Gap(ev, ev.z, GAM), Dec(66, 2), fl)
        \cup Shrinks("extension approaches the weak-potential extension", Gap(p, p.y, GAM), Gap(ev, ev.y, GAM), Dec(66, 2), RMul(k, Dec(1, 2)))
       \cup Bad("isotensional force", Within(ev.y[ETA], RMul(k, ev.a.nondimensional_potential_distance), Dec(1, 12), R0))
JudgeModified(first, prev, ev) ==
   LET nf == NonFinite(ev.r) \cup NonFinite(ev.z) \cup NonFinite(ev.y)
   IN  IF nf # {} THEN nf
       ELSE Mean(ev) \cup AllForms(RowOf(ev.mod), ev.a, ev.r) \cup AllForms(RowOf(ev.my), ev.a, ev.y)
            \cup (IF ev.s = 1 \/ NonFinite(prev.r) # {} \/ NonFinite(prev.y) # {} \/ NonFinite(prev.z) # {} THEN {}
                          ELSE IF ev.tag = "stiffen" THEN Stiffen(first, prev, ev) ELSE Soften(first, prev, ev))
=============================================================================
