---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* C02: sessions with one model.  The state is the parameter state of the  *)
(* model together with the free energies that the library reports for it;  *)
(* the actions are                                                         *)
(*   create  a model with some parameters, and a first controlled state    *)
(*   pull    change the controlled variable (force, length, potential)     *)
(*   reheat  change temperature, hinge mass and link length, at the same   *)
(*           nondimensional state                                          *)
(*   grow    change the number of links                                    *)
(*   rest    go to the reference state of the relative free energies       *)
(* Absolute and relative free energies must move together as stated.       *)
(***************************************************************************)
EXTENDS Forms, TraceRun
Params == {"hinge_mass", "link_length", "temperature", "number_of_links", "nondimensional_link_stiffness",
           "nondimensional_link_energy", "nondimensional_persistance_length", "nondimensional_potential_stiffness"}
Same(a, b, ns) == \A n \in ns : (n \in DOMAIN a) => a[n] = b[n]
\* the step is one of the actions above
Legal(p, ev) ==
   LET a == p.a  b == ev.a
   IN  CASE ev.tag = "pull"   -> Same(a, b, Params \ {"nondimensional_potential_stiffness"})
         [] ev.tag = "reheat" -> Same(a, b, {"number_of_links", "nondimensional_force", "nondimensional_end_to_end_length_per_link",
                                             "nondimensional_potential_distance", "nondimensional_potential_stiffness",
                                             "nondimensional_link_stiffness", "nondimensional_persistance_length"})
         [] ev.tag = "grow"   -> Same(a, b, Params \ {"number_of_links"})
         [] ev.tag = "rest"   -> Same(a, b, Params)
\* at the reference state the noise of the absolute free energy is that of the relative one
Noise(c, ev) == RAdd(RMul(Dec(1, 11), Scale(ev.a, ev.r)), RAdd(RelNoise(c, ev.a), IF Inverted(c) THEN InvEnergy(ev.a, ev.r) ELSE R0))
\* reported pair of absolute and relative free energy, per link, in units of kT
Pairs(c, r) == {q \in Quantities : Has(r, FE(q)) /\ Has(r, FE(RelQ(q))) /\ c.var # "strong_potential"}
Gap(r, q) == RSub(r[FE(q)], r[FE(RelQ(q))])
SessionCheck(c, p, ev) ==
   LET a == ev.a  r == ev.r  b == p.a  o == p.r
       tol == RAdd(Noise(c, ev), Noise(c, p))
       near(x, y, t) == Le(RAbs(RSub(x, y)), t)
       \* the Legendre-transformed FJC borrows the Gibbs free energy of the exact isometric ensemble
       off(x, q) == IF q = GFE THEN OffsetG(c, x) ELSE Offset(c, x)
       pull == IF IsC(c) /\ a.nondimensional_potential_stiffness # b.nondimensional_potential_stiffness THEN {}
               ELSE UNION { Bad("pull moves relative and absolute " \o q \o " apart", near(Gap(r, q), Gap(o, q), tol)) : q \in Pairs(c, r) }
       reheat == UNION { Bad("reheat changes relative " \o q, near(r[FE(RelQ(q))], o[FE(RelQ(q))], tol))
                         \cup Bad("reheat shifts absolute " \o q \o " by other than the momentum term",
                                  near(RSub(r[FE(q)], o[FE(q)]), RSub(off(a, q), off(b, q)), tol)) : q \in Pairs(c, r) }
       rest == UNION { Bad("relative " \o q \o " is not zero at the reference state", near(r[FE(RelQ(q))], R0, tol)) : q \in Pairs(c, r) }
       grow == IF ~(IsT(c) \/ (IsM(c) /\ c.leg)) \/ c.fam = "wlc" THEN {}
               ELSE UNION { IF q = GFE /\ IsM(c) THEN {}
                            ELSE Bad("grow changes relative " \o q \o " per link", near(r[FE(RelQ(q))], o[FE(RelQ(q))], tol))
                                 \cup Bad("grow shifts absolute " \o q \o " per link by other than the momentum term",
                                     near(RSub(r[FE(q)], o[FE(q)]), RSub(off(a, q), off(b, q)), tol)) : q \in Pairs(c, r) }
   IN  CASE ev.tag = "pull" -> pull [] ev.tag = "reheat" -> reheat [] ev.tag = "grow" -> grow
         [] ev.tag = "rest" -> pull \cup rest [] OTHER -> {}
JudgeSession(first, prev, ev) ==
   LET nf == NonFinite(ev.r)  c == RowOf(ev.mod)
       forms == IF nf # {} THEN {} ELSE EnergyForms(c, ev.a, ev.r, Quantities)
   IN  IF nf # {} THEN nf
       ELSE forms \cup IF ev.s = 1 \/ NonFinite(prev.r) # {} THEN {}
       ELSE IF ~Assert(Legal(prev, ev), <<"illegal step recorded", ev.tag>>) THEN {}
       ELSE SessionCheck(c, prev, ev)
=============================================================================
