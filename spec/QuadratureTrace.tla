---------------------------- MODULE QuadratureTrace ----------------------------
(***************************************************************************)
(* C10: recorded calls of the integration routines are behaviours of       *)
(* Quadrature.tla.  Events: call (routine and region), eval (the integrand *)
(* evaluated at p, returning v), ret (the result).                         *)
(***************************************************************************)
EXTENDS Quadrature, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {n \in 1..Len(Trace) : Trace[n].s = 1}
VARIABLES at, q, s, failed
vars == <<at, q, s, failed>>
Ev == Trace[at]
NextAt == IF at = Len(Trace) \/ Trace[at + 1].s = 1 THEN 0 ELSE at + 1
Bad(n, ok) == IF ok THEN {} ELSE {n}
Report(f) == IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", at, f>>)
Fin(v) == v[1] # 9 /\ v[1] # 8
RuleOf(e) ==
   CASE e.kind = "1d" -> Midpoint1(e.box[1], e.box[2], e.n)
     [] e.kind \in {"2d", "2d_symmetric"} -> Midpoint2(e.box[1], e.box[2], e.box[3], e.box[4], e.n)
     [] e.kind = "1d_grid" -> Grid1(e.gx, e.da)
     [] OTHER -> Grid2(e.gx, e.gy, e.da)
\* the index of the node nearest to a coordinate, and whether it is that node up to rounding
Idx(a, d, n, x) == LET i == RFloor(RDiv(RSub(x, a), d)) + 1 IN IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
IdxG(g, x) == IF \E i \in 1..Len(g) : g[i] = x THEN CHOOSE i \in 1..Len(g) : g[i] = x ELSE 1
Key(r, p) == IF r.grid THEN <<IdxG(r.gx, p[1]), IF r.dim = 1 THEN 1 ELSE IdxG(r.gy, p[2])>>
             ELSE <<Idx(r.x0, r.dx, r.nx, p[1]), IF r.dim = 1 THEN 1 ELSE Idx(r.y0, r.dy, r.ny, p[2])>>
Near(x, y, size) == Within(x, y, Two(-49), RMul(Two(-49), RAbs(size)))
IsNode(r, k, p) == /\ Near(p[1], NodeX(r, k), RAdd(RAbs(r.x0), RMul(RInt(r.nx), RAbs(r.dx))))
                   /\ (r.dim = 1 \/ Near(p[2], NodeY(r, k), RAdd(RAbs(r.y0), RMul(RInt(r.ny), RAbs(r.dy)))))
Init == at \in Starts /\ q = <<>> /\ s = <<>> /\ failed = {}
Call == /\ at > 0 /\ Ev.tag = "call"
        /\ q' = TLCEval(RuleOf(Ev)) /\ s' = TLCEval(Begin(q')) /\ failed' = {} /\ at' = NextAt
Eval == /\ at > 0 /\ Ev.tag = "eval"
        /\ LET k == Key(q, Ev.p) IN
             /\ failed' = (IF ~IsNode(q, k, Ev.p) THEN {"integrand evaluated elsewhere than at a node"}
                           ELSE Bad("node evaluated twice", k \in s.left))
             /\ s' = TLCEval(Take(s, k, Ev.v))
        /\ UNCHANGED q /\ Report(failed') /\ at' = IF failed' = {} THEN NextAt ELSE 0
Ret == /\ at > 0 /\ Ev.tag = "ret"
       /\ failed' = (IF ~Fin(Ev.v) THEN {"result is not a number"}
                     ELSE IF ~Finished(s) THEN {"nodes left out"}
                     ELSE Bad("result", Within(Ev.v, Result(q, s), Two(-48), RMul(RMul(RMul(RInt(q.nx * q.ny + 8), Two(-51)), s.mag), RAbs(q.w)))))
       /\ UNCHANGED <<q, s>> /\ Report(failed') /\ at' = NextAt
\* many points: what the evaluations sum up to, and the rule applied to a polynomial, in closed form
SumX(n, a, d) == RMul(RInt(n), RAdd(a, RMul(d, Frac(n, 2))))
SumXX(n, a, d) ==    \* a^2 n + 2 a d sum(i - 1/2) + d^2 sum((i - 1/2)^2)
   LET m == RInt(n) IN
   RAdd(RAdd(RMul(m, Sq(a)), RMul(RMul(a, d), Sq(m))), RMul(Sq(d), RDiv(RMul(m, RSub(RMul(R4, Sq(m)), R1)), RInt(12))))
Bulk == /\ at > 0 /\ Ev.tag = "bulk"
        /\ LET n == Ev.n  two == Ev.kind # "1d"
               dx == RDiv(RSub(Ev.box[2], Ev.box[1]), RInt(n))  dy == RDiv(RSub(Ev.box[4], Ev.box[3]), RInt(n))
               m == IF two THEN RInt(n) ELSE R1
               sx == RMul(m, SumX(n, Ev.box[1], dx))  sxx == RMul(m, SumXX(n, Ev.box[1], dx))
               sy == IF two THEN RMul(m, SumX(n, Ev.box[3], dy)) ELSE R0
               sxy == IF two THEN RMul(SumX(n, Ev.box[1], dx), SumX(n, Ev.box[3], dy)) ELSE R0
               c == Ev.c
               total == RAdd(RAdd(RMul(c[1], RMul(m, RInt(n))), RAdd(RMul(c[2], sx), RMul(c[3], sxx))),
                             IF two THEN RAdd(RMul(c[4], sy), RMul(c[5], sxy)) ELSE R0)
               big == RMul(RMul(m, RInt(n)), RAdd(R1, RMul(R4, RAdd(RAdd(Sq(Ev.box[1]), Sq(Ev.box[2])), RAdd(Sq(Ev.box[3]), Sq(Ev.box[4]))))))
               ok(x, y) == Within(x, y, R0, RMul(Dec(1, 9), big))
               w == IF two THEN RMul(dx, dy) ELSE dx
               near(x, y) == Within(x, y, R0, RMul(Dec(1, 9), RAdd(R1, RAbs(y))))
           IN  failed' = Bad("number of evaluations", Ev.sums[1] = RMul(m, RInt(n)))
                  \cup Bad("nodes", ok(Ev.sums[2], sx) /\ ok(Ev.sums[3], sxx) /\ ok(Ev.sums[4], sy) /\ ok(Ev.sums[5], sxy))
                  \cup Bad("extreme nodes", near(Ev.ends[1], RAdd(Ev.box[1], RMul(Half, dx))) /\ near(Ev.ends[2], RSub(Ev.box[2], RMul(Half, dx)))
                                            /\ (two => near(Ev.ends[3], RAdd(Ev.box[3], RMul(Half, dy))) /\ near(Ev.ends[4], RSub(Ev.box[4], RMul(Half, dy)))))
                  \cup (IF ~Fin(Ev.v) THEN {"result is not a number"}
                        ELSE Bad("result", Within(Ev.v, RMul(w, total), R0, RMul(RMul(Dec(1, 9), RAbs(w)), RMul(big, R8)))))
        /\ UNCHANGED <<q, s>> /\ Report(failed') /\ at' = NextAt
\* one value that is not a number is not lost
Hole == /\ at > 0 /\ Ev.tag = "hole"
        /\ failed' = Bad("a value that is not a number is dropped", Ev.v[1] = 9)
        /\ UNCHANGED <<q, s>> /\ Report(failed') /\ at' = NextAt
Next == Call \/ Eval \/ Ret \/ Bulk \/ Hole
Spec == Init /\ [][Next]_vars
=============================================================================
