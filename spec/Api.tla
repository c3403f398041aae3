-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The relations that the results of the single-chain functions satisfy,   *)
(* for one parameter state of one model.  Every operator below returns the *)
(* set of names of the relations that an observed record of results        *)
(* violates (the empty set if it conforms).                                *)
(***************************************************************************)
EXTENDS Chain, FiniteSets

Fin(x)  == x[1] \in {-1, 0, 1}
Bad(name, ok) == IF ok THEN {} ELSE {name}
Has(r, n) == n \in DOMAIN r
ND == "nondimensional_"
PL == "_per_link"
kT(a) == RMul(KB, a.temperature)
N(a) == RInt(a.number_of_links)
NL(a) == RMul(N(a), a.link_length)

\* results that are not finite numbers
NonFinite(r) == {"nonfinite " \o n : n \in {m \in DOMAIN r : ~Fin(r[m])}}

Quantities == {"gibbs_free_energy", "helmholtz_free_energy"}
RelQ(q) == "relative_" \o q

\* magnitude of the terms that make up the free energies of an event (per link, units of kT)
Scale(a, r) ==
   LET f == IF Has(r, "nondimensional_force") THEN r["nondimensional_force"]
            ELSE IF Has(a, "nondimensional_force") THEN a.nondimensional_force ELSE R0
       g == IF Has(a, "nondimensional_end_to_end_length_per_link") THEN a.nondimensional_end_to_end_length_per_link
            ELSE IF Has(r, "nondimensional_end_to_end_length_per_link") THEN r["nondimensional_end_to_end_length_per_link"]
            ELSE R1
       s(n) == IF Has(r, n) THEN RAbs(r[n]) ELSE R0
   IN  RAdd(RAdd(R10, RMul(RAbs(f), RAdd(R1, RAbs(g)))),
            RAdd(s("nondimensional_gibbs_free_energy_per_link"), s("nondimensional_helmholtz_free_energy_per_link")))

\* ---- arguments: the dimensional state of the event is the nondimensional one ------------
ArgPairs(a) ==
   LET l == a.link_length
       p(d, n, x) == IF Has(a, d) /\ Has(a, n) THEN Bad("argument " \o d, Within(x, a[n], Dec(1, 13), R0)) ELSE {}
   IN  UNION { p("force", "nondimensional_force", RDiv(RMul(a["force"], l), kT(a))),
               p("end_to_end_length", "nondimensional_end_to_end_length_per_link", RDiv(a["end_to_end_length"], NL(a))),
               p("link_stiffness", "nondimensional_link_stiffness", RDiv(RMul(a["link_stiffness"], Sq(l)), kT(a))),
               p("link_energy", "nondimensional_link_energy", RDiv(a["link_energy"], kT(a))),
               p("persistance_length", "nondimensional_persistance_length", RDiv(a["persistance_length"], NL(a))),
               p("potential_distance", "nondimensional_potential_distance", RDiv(a["potential_distance"], NL(a))),
               p("potential_stiffness", "nondimensional_potential_stiffness", RDiv(RMul(a["potential_stiffness"], Sq(l)), kT(a))) }

\* ---- units: total, per link, dimensional and nondimensional forms are one quantity --------
UnitTol == Dec(1, 9)
UnitsFE(a, r, q, noise) ==       \* four forms of one free energy
   LET base == ND \o q \o PL
       sc == RAdd(RMul(Dec(1, 11), Scale(a, r)), noise)
       cmp(n, u) == IF Has(r, n) THEN Bad("units " \o n, Within(r[n], RMul(r[base], u), UnitTol, RMul(sc, u))) ELSE {}
   IN  IF ~Has(r, base) THEN {}
       ELSE UNION { cmp(ND \o q, N(a)), cmp(q \o PL, kT(a)), cmp(q, RMul(N(a), kT(a))) }
UnitsLen(a, r, noise) ==
   LET base == "nondimensional_end_to_end_length_per_link"
       sc == RAdd(Dec(1, 12), noise)
       cmp(n, u) == IF Has(r, n) THEN Bad("units " \o n, Within(r[n], RMul(r[base], u), UnitTol, RMul(sc, u))) ELSE {}
   IN  IF ~Has(r, base) THEN {}
       ELSE UNION { cmp("nondimensional_end_to_end_length", N(a)), cmp("end_to_end_length_per_link", a.link_length),
                    cmp("end_to_end_length", NL(a)) }
UnitsForce(a, r, noise) ==
   IF Has(r, "force") /\ Has(r, "nondimensional_force")
   THEN Bad("units force", LET u == RDiv(kT(a), a.link_length)
                           IN  Within(r["force"], RMul(r["nondimensional_force"], u), UnitTol, RMul(RAdd(Dec(1, 12), noise), u)))
   ELSE {}
UnitsDist(a, r, noise) ==
   IF ~Has(r, "nondimensional_equilibrium_distribution") THEN {}
   ELSE LET p == r["nondimensional_equilibrium_distribution"]
            q == r["nondimensional_equilibrium_radial_distribution"]
            g == a.nondimensional_end_to_end_length_per_link
            \* the exponent of the distribution amplifies the rounding of its argument
            t == RMul(RAdd(Dec(1, 9), noise), RAdd(R1, RMul(Dec(1, 3), N(a))))
            tiny == P10(-290)
        IN  UNION {
              Bad("units equilibrium_distribution", Within(r["equilibrium_distribution"], RDiv(p, PowInt(NL(a), 3)), t, tiny)),
              Bad("units equilibrium_radial_distribution", Within(r["equilibrium_radial_distribution"], RDiv(q, NL(a)), t, tiny)),
              Bad("units nondimensional_equilibrium_radial_distribution",
                  Within(q, RMul(RMul(RMul(R4, Pi), Sq(g)), p), Dec(1, 11), tiny)) }
\* noise: rounding of the free energies, relative free energies, lengths, forces and distributions beyond that of their size
Units(a, r, noise) ==
   UNION { UnitsFE(a, r, q, noise.fe) : q \in Quantities } \cup UNION { UnitsFE(a, r, RelQ(q), RAdd(noise.fe, noise.rel)) : q \in Quantities }
   \cup UnitsLen(a, r, noise.len) \cup UnitsForce(a, r, noise.force) \cup UnitsDist(a, r, noise.dist)
=============================================================================
