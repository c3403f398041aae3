----------------------------- MODULE ObjectTrace -----------------------------
(***************************************************************************)
(* C14: histories of objects.  The state is the store of live objects      *)
(* (model and parameters of each) and the last results of each.            *)
(*   create(id)  adds an object; its fields are the parameters given       *)
(*   call(id)    evaluates every method of an object at a controlled state *)
(*               and temperature: the results are those of the library's   *)
(*               free functions for the parameters in the store            *)
(*   again(id)   repeats the last call of an object: the results are the   *)
(*               same numbers, whatever happened to other objects          *)
(***************************************************************************)
EXTENDS Forms, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES at, store, failed
vars == <<at, store, failed>>
Primary == {"number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "persistance_length", "well_width",
            "normalization_nondimensional_equilibrium_distribution"}
\* the arguments of a call are those of the object in the store, at the temperature of the call
Consistent(o, a) ==
   /\ \A n \in Primary : (n \in DOMAIN o.a /\ n \in DOMAIN a) => o.a[n] = a[n]
   /\ ArgPairs(a) = {}
\* allowed rounding between a method and the free function of the same name
Unit(a, n) ==
   CASE n \in {ND \o x \o q \o PL : x \in {"", "relative_"}, q \in Quantities} -> R1
     [] n \in {ND \o x \o q : x \in {"", "relative_"}, q \in Quantities} -> N(a)
     [] n \in {x \o q \o PL : x \in {"", "relative_"}, q \in Quantities} -> kT(a)
     [] n \in {x \o q : x \in {"", "relative_"}, q \in Quantities} -> RMul(N(a), kT(a))
     [] OTHER -> R0
LenUnit(a, n) == CASE n = GAM -> R1 [] n = "nondimensional_end_to_end_length" -> N(a)
                   [] n = "end_to_end_length_per_link" -> a.link_length [] n = "end_to_end_length" -> NL(a) [] OTHER -> R0
ForceUnit(a, n) == CASE n = ETA -> R1 [] n = "force" -> RDiv(kT(a), a.link_length) [] OTHER -> R0
Relative(n) == n \in {x \o "relative_" \o q \o y : x \in {"", ND}, q \in Quantities, y \in {"", PL}}
Dist(n) == n \in {x \o "equilibrium_" \o y : x \in {"", ND}, y \in {"distribution", "radial_distribution"}}
Tol(c, a, r, nz, n) ==
   IF Unit(a, n)[1] # 0 THEN RMul(Unit(a, n), RAdd(RAdd(RMul(Dec(1, 11), Scale(a, r)), nz.fe), IF Relative(n) THEN nz.rel ELSE R0))
   ELSE IF LenUnit(a, n)[1] # 0 THEN RMul(LenUnit(a, n), RAdd(Dec(1, 12), nz.len))
   ELSE IF ForceUnit(a, n)[1] # 0 THEN RMul(ForceUnit(a, n), RAdd(Dec(1, 12), nz.force))
   ELSE P10(-290)
Rel(c, a, nz, n) == IF Dist(n) THEN RMul(RAdd(Dec(1, 9), nz.dist), RAdd(R1, RMul(Dec(1, 3), N(a)))) ELSE Dec(1, 9)
Faithful(c, a, r, m) ==
   LET nz == UnitNoise(c, a, r)
   IN  UNION { IF ~Has(r, n) \/ (c.var = "strong_potential" /\ Relative(n)) THEN {}
               ELSE IF ~Fin(r[n]) \/ ~Fin(m[n]) THEN Bad("method " \o n, r[n] = m[n])
               ELSE Bad("method " \o n, Within(m[n], r[n], Rel(c, a, nz, n), Tol(c, a, r, nz, n))) : n \in DOMAIN m }
\* a binding (C18) offers every function
Missing(ev) == IF "missing" \in DOMAIN ev THEN {"missing method " \o ev.missing[k] : k \in 1..Len(ev.missing)} ELSE {}
Fields(a, f) == UNION { Bad("field " \o n, IF n = "number_of_links" THEN f[n] = RInt(a[n])
                                           ELSE IF n \in {"nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_persistance_length"}
                                                THEN Fin(f[n]) /\ Within(f[n], a[n], Dec(1, 12), R0)
                                           ELSE f[n] = a[n]) : n \in DOMAIN f \cap DOMAIN a }
Ev == Trace[at]
NextAt == IF at = Len(Trace) \/ Trace[at + 1].s = 1 THEN 0 ELSE at + 1
Report(f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", at, f>>)
Init == at \in Starts /\ store = <<>> /\ failed = {}
Create ==
   /\ at > 0 /\ Ev.tag = "create"
   /\ failed' = Fields(Ev.a, Ev.f)
   /\ store' = Append(store, [mod |-> Ev.mod, a |-> Ev.a, last |-> <<>>])
   /\ Report(failed') /\ at' = NextAt
Call ==
   /\ at > 0 /\ Ev.tag = "call"
   /\ LET o == store[Ev.id] IN
        /\ Assert(o.mod = Ev.mod /\ Consistent(o, Ev.a), "illegal step recorded")
        /\ failed' = Faithful(RowOf(Ev.mod), Ev.a, Ev.r, Ev.m) \cup Missing(Ev)
   /\ store' = [store EXCEPT ![Ev.id].last = Ev.m]
   /\ Report(failed') /\ at' = NextAt
Again ==
   /\ at > 0 /\ Ev.tag = "again"
   /\ LET o == store[Ev.id] IN
        failed' = UNION { Bad("repeated call changes " \o n, Ev.m[n] = o.last[n]) : n \in DOMAIN Ev.m }
   /\ UNCHANGED store /\ Report(failed') /\ at' = NextAt
\* every structure of a hierarchy carries the parameters that the hierarchy was given
Level ==
   /\ at > 0 /\ Ev.tag = "level"
   /\ failed' = Fields(Ev.a, Ev.f)
   /\ UNCHANGED store /\ Report(failed') /\ at' = NextAt
\* physical constants that a binding (C19) offers
Constants ==
   /\ at > 0 /\ Ev.tag = "constants"
   /\ failed' = Bad("Boltzmann constant", Fin(Ev.boltzmann) /\ Within(Ev.boltzmann, KB, P10(-15), R0)) \cup Bad("Planck constant", Fin(Ev.planck) /\ Within(Ev.planck, HP, P10(-15), R0))
   /\ UNCHANGED store /\ Report(failed') /\ at' = NextAt
Next == Constants \/ Create \/ Call \/ Again \/ Level
Spec == Init /\ [][Next]_vars
=============================================================================
