------------------------------ MODULE DamageModel ------------------------------
(***************************************************************************)
(* Chains that break one by one over every history of stretches, against   *)
(* the two numbers that the network keeps.  A chain at (z, r) at rest has  *)
(* the squared extension z^2 s^2 + r^2 / s at the stretch s = p / q; in    *)
(* integers, with z2 = z^2 and r2 = r^2, it exceeds c2 when                *)
(* z2 p^3 + r2 q^3 > c2 p q^2.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size, MaxSteps
Stretches == {<<4, 4>>, <<5, 4>>, <<6, 4>>, <<7, 4>>, <<9, 4>>, <<14, 4>>}      \* at least one
Chains == (0..Size) \X (0..Size)          \* (z2, r2)
C2 == Size \div 2
Leq(s, t) == s[1] <= t[1]
Exceeds(c, s) == c[1] * s[1] * s[1] * s[1] + c[2] * s[2] * s[2] * s[2] > C2 * s[1] * s[2] * s[2]
Rest == <<4, 4>>
VARIABLES lam, max, broken, steps
vars == <<lam, max, broken, steps>>
BrokenAt(s) == {c \in Chains : Exceeds(c, s)}
Init == lam = Rest /\ max = Rest /\ broken = BrokenAt(Rest) /\ steps = 0
Stretch(s) == /\ steps < MaxSteps /\ steps' = steps + 1
              /\ lam' = s /\ max' = (IF Leq(max, s) THEN s ELSE max)
              /\ broken' = broken \cup BrokenAt(s)
Next == \E s \in Stretches : Stretch(s)
Spec == Init /\ [][Next]_vars
\* what Damage.tla keeps instead of the set
Sufficient == broken = {c \in Chains : Exceeds(c, Rest) \/ Exceeds(c, max)}
MaxIsLargest == Leq(lam, max)
Irreversible == [][broken \subseteq broken']_vars
\* on the way through s the chain passes all stretches between; the ends decide (convexity)
Convex == \A s \in Stretches, t \in Stretches : Leq(s, t) => BrokenAt(s) \subseteq (BrokenAt(Rest) \cup BrokenAt(t))
ASSUME Convex
\* the largest stretch alone would heal chains: some exceed only at rest, some only when stretched
Needed == /\ \E c \in Chains, s \in Stretches : Exceeds(c, Rest) /\ ~Exceeds(c, s)
          /\ \E c \in Chains, s \in Stretches : ~Exceeds(c, Rest) /\ Exceeds(c, s)
ASSUME Needed
=============================================================================
