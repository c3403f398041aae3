------------------------------ MODULE Reference ------------------------------
(***************************************************************************)
(* The values that the functions of a model must return: for the model c   *)
(* of the catalog, the arguments a and the observed results r, a sequence  *)
(* of expectations [n, v, t]: result n is v to within t.                   *)
(*                                                                         *)
(* Where a result is obtained by inverting a function numerically (the     *)
(* force of a Legendre-transformed isometric model), the expectation is    *)
(* that the observed force reproduces the applied length.                  *)
(***************************************************************************)
EXTENDS Api

FE(q) == ND \o q \o PL
GAM == "nondimensional_end_to_end_length_per_link"
ETA == "nondimensional_force"
GFE == "gibbs_free_energy"
HFE == "helmholtz_free_energy"
PEQ == "nondimensional_equilibrium_distribution"
Exp_(n, v, t) == [n |-> n, v |-> v, t |-> t]
Ufjc == {"lennard_jones", "log_squared", "morse"}
IsT(c) == c.ens = "T"   IsM(c) == c.ens = "M"   IsC(c) == c.ens = "C"

\* number of rigid links whose momentum contributes, per link of the chain
LinkShare(c, a) == IF IsT(c) \/ c.fam = "ideal" \/ c.var = "weak_potential" THEN R1
                   ELSE RSub(R1, Inv(N(a)))
\* absolute minus configurational free energy per link (units of kT)
Offset(c, a) ==
   RAdd(RNeg(RMul(LinkShare(c, a), RAdd(IF c.fam = "wlc" THEN LnMomWLC(a) ELSE LnMom(a), LnConst(c, a)))),
        IF c.fam = "fjc" /\ IsM(c) /\ ~c.leg THEN RDiv(RMul(R3, Ln(NL(a))), N(a)) ELSE R0)
\* the Gibbs free energy of fjc/isometric/legendre is that of the exact isometric ensemble
OffsetG(c, a) == IF c.fam = "fjc" /\ IsM(c) THEN RAdd(RNeg(RMul(LinkShare(c, a), LnMom(a))), RDiv(RMul(R3, Ln(NL(a))), N(a)))
                 ELSE Offset(c, a)

E9 == Dec(1, 9)
TolFE(a, r, extra) == RAdd(RMul(Dec(1, 11), Scale(a, r)), extra)

\* ---- isotensional ----------------------------------------------------------------
WlcSplit == RInt(100)     \* the library integrates below this force and uses Laplace's method above it
WlcG(a, tab, e) == RNeg(RDiv(RAdd(Ln(RMul(R4, Pi)), Ln(WlcZ(a.number_of_links, tab, e))), N(a)))
\* rounding of the isotensional extension of the WLC: numerator and denominator are differences of
\* exponentials, divided by the square of the force
WlcGamErr(a, e) == RMul(Eps, RAdd(RMul(RInt(2048), RAdd(R1, Inv(RMul(N(a), e)))),
                   RDiv(RMul(RInt(64), RAdd(R1, Inv(a.nondimensional_persistance_length))), RMul(N(a), Sq(e)))))
WlcGam(a, tab, e) == LET n == a.number_of_links
                         f(x) == Ln(WlcZ(n, tab, x)) IN RDiv(Deriv(f, e), N(a))
\* Laplace's method: the extension at which the isometric force is e, by Newton's method on 1/sqrt(force)
RECURSIVE WlcRoot(_, _, _, _)
WlcEta(n, pre, g) == LET f(x) == WlcPsi0(pre, x) IN RDiv(Deriv(f, g), RInt(n))
WlcRoot(n, pre, e, g) ==
   LET y(x) == LET v == WlcEta(n, pre, x) IN Inv(Sqrt(v))
       h == RMul(RSub(R1, g), Two(-30))
       s == TLCEval(RDiv(RSub(Inv(Sqrt(e)), y(g)), RDiv(RSub(y(RAdd(g, h)), y(RSub(g, h))), RMul(R2, h))))
       nx == IF Ge(RAdd(g, s), R1) THEN RMul(Half, RAdd(R1, g)) ELSE RAdd(g, s)
   IN  IF Lt(RAbs(s), RMul(RSub(R1, g), Dec(1, 9))) THEN nx ELSE WlcRoot(n, pre, e, TLCEval(nx))
WlcLaplace(a, e) ==
   LET n == a.number_of_links
       pre == WlcPre(a.nondimensional_persistance_length)
       g == TLCEval(WlcRoot(n, pre, e, Dec(99, 2)))
       h == RMul(RSub(R1, g), Two(-30))
       cv == RDiv(RSub(WlcEta(n, pre, RAdd(g, h)), WlcEta(n, pre, RSub(g, h))), RMul(R2, h))
   IN  RNeg(RDiv(RAdd(RAdd(Ln(RMul(R4, Pi)), RMul(Half, Ln(RDiv(RMul(R2, Pi), RMul(N(a), cv))))),
                      RAdd(Ln(RMul(Half, RDiv(RMul(N(a), g), e))),
                           RSub(RMul(N(a), RMul(e, g)), WlcPsi0(pre, g)))), N(a)))
ExpectT(c, a, r) ==
   LET e == a.nondimensional_force
       wlc == c.fam = "wlc"
       tab == IF wlc THEN WlcTab(a) ELSE <<>>
       big == wlc /\ Gt(e, WlcSplit)
       phi == TLCEval(IF big THEN WlcLaplace(a, e) ELSE IF wlc THEN WlcG(a, tab, e) ELSE Phi(c, a, e))
       ph0 == TLCEval(IF wlc THEN WlcG(a, tab, ZERO) ELSE Phi(c, a, ZERO))
       gam == TLCEval(IF wlc THEN WlcGam(a, tab, e) ELSE Gam(c, a, e))
       pe  == IF big THEN RDiv(Dec(1, 4), N(a)) ELSE IF wlc THEN R0 ELSE PhiErr(c, a, e)
       p0  == IF wlc THEN RMul(Two(-52), P10(6)) ELSE PhiErr(c, a, ZERO)
       ge  == IF wlc THEN WlcGamErr(a, e) ELSE GamErr(c, a, e)
       ge0 == IF wlc THEN WlcGamErr(a, ZERO) ELSE GamErr(c, a, ZERO)
       legendre == RMul(e, gam)
   IN  << Exp_(GAM, gam, RAdd(RMul(E9, gam), ge)) >>
       \o
           << Exp_(FE(GFE), RAdd(phi, Offset(c, a)), TolFE(a, r, pe)),
              Exp_(FE(RelQ(GFE)), RSub(phi, ph0), TolFE(a, r, RAdd(pe, p0))),
              Exp_(FE(HFE), RAdd(RAdd(phi, legendre), Offset(c, a)), TolFE(a, r, RAdd(pe, RMul(e, ge)))),
              Exp_(FE(RelQ(HFE)), RSub(RAdd(phi, legendre), ph0), TolFE(a, r, RAdd(RAdd(pe, RMul(e, ge)), RAdd(p0, RMul(ZERO, ge0))))) >>

\* ---- isometric -----------------------------------------------------------------------
\* -ln of the density of the nondimensional end-to-end vector (whole chain), its slope, and rounding
PsiM(c, a, g) == CASE c.fam = "ideal" -> RMul(RMul(Frac(3, 2), N(a)), Sq(g))
                   [] c.fam = "fjc"   -> RNeg(Ln(FjcP(a.number_of_links, g)))
                   [] c.fam = "wlc"   -> WlcPsi0(WlcPre(a.nondimensional_persistance_length), g)
PsiErrM(c, a, g) == CASE c.fam = "fjc" -> RMul(RMul(RInt(64), Eps), RMul(N(a), FjcCond(a.number_of_links, g)))
                      [] c.fam = "wlc" -> Dec(1, 9)      \* accuracy of the library's Bessel function
                      [] OTHER -> R0
EtaM(c, a, g) == LET f(x) == PsiM(c, a, x) IN RDiv(Deriv(f, g), N(a))
ShellRatio(n, g) == IF n = 2 THEN R0 ELSE RDiv(ShellSum(n, g, n - 3), ShellSum(n, g, n - 2))
ShellCond(n, g, p) == LET s == RAbs(ShellSum(n, g, p)) IN IF s[1] = 0 THEN P10(30) ELSE RDiv(ShellAbs(n, g, p), s)
EtaErrM(c, a, g) ==
   CASE c.fam = "fjc" ->
          LET n == a.number_of_links
          IN  IF n = 2 THEN Dec(1, 12)
              \* the force of three links jumps where the third link can close the triangle
              ELSE IF n = 3 /\ Lt(RAbs(RSub(g, Frac(1, 3))), Dec(1, 9)) THEN R2
              ELSE RMul(RMul(RInt(64), Eps),
                        RAdd(Inv(g),     \* 1/gamma is cancelled by the ratio of the sums
                        RMul(RDiv(ShellAbs(n, g, n - 3), RAbs(ShellSum(n, g, n - 2))),
                             RAdd(R1, RMul(RAbs(ShellRatio(n, g)), RDiv(FjcCond(n, g), RMax(R1, RAbs(ShellRatio(n, g)))))))))
     [] c.fam = "wlc" -> RDiv(Dec(1, 9), N(a))
     [] OTHER -> R0
ExpectM(c, a, r) ==
   LET g == a.nondimensional_end_to_end_length_per_link
       psi == TLCEval(RDiv(PsiM(c, a, g), N(a)))
       \* the reference state of long chains is rounding noise, in the library and beyond 100 links here too
       lost == c.fam = "fjc" /\ Gt(RMul(ShellAbs(a.number_of_links, ZERO, a.number_of_links - 2), Dec(1, 14)), RAbs(ShellSum(a.number_of_links, ZERO, a.number_of_links - 2)))
       ps0 == TLCEval(IF c.fam = "ideal" \/ lost THEN R0 ELSE RDiv(PsiM(c, a, ZERO), N(a)))
       pe == RDiv(PsiErrM(c, a, g), N(a))
       p0 == IF lost THEN P10(30) ELSE RDiv(PsiErrM(c, a, ZERO), N(a))
       eta == TLCEval(EtaM(c, a, g))     ee == EtaErrM(c, a, g)
       gibbs == RSub(psi, RMul(eta, g))
       gb0 == IF lost THEN R0 ELSE IF c.fam = "fjc" THEN RSub(ps0, RMul(EtaM(c, a, ZERO), ZERO)) ELSE ps0   \* eta * ZERO vanishes, but for N = 2
       dist == Exp(RNeg(RMul(psi, N(a))))
   IN  << Exp_(ETA, eta, RAdd(RMul(E9, RAbs(eta)), ee)),
          Exp_(FE(HFE), RAdd(psi, Offset(c, a)), TolFE(a, r, pe)),
          Exp_(FE(RelQ(HFE)), RSub(psi, ps0), TolFE(a, r, RAdd(pe, p0))),
          Exp_(FE(GFE), RAdd(gibbs, OffsetG(c, a)), TolFE(a, r, RAdd(pe, RMul(g, ee)))),
          Exp_(FE(RelQ(GFE)), RSub(gibbs, gb0), TolFE(a, r, RAdd(RAdd(pe, RMul(g, ee)), RAdd(p0, RDiv(Dec(1, 5), N(a)))))),
          IF ~Has(r, PEQ) THEN Exp_(PEQ, R0, R0) ELSE
          Exp_(PEQ, CASE c.fam = "ideal" -> RMul(dist, Pow(RDiv(RMul(Frac(3, 2), N(a)), Pi), Frac(3, 2)))
                      [] c.fam = "fjc" -> dist
                      [] c.fam = "wlc" -> RDiv(dist, a.normalization_nondimensional_equilibrium_distribution),
               RAdd(P10(-300), RMul(RMul(dist, RAdd(RMul(E9, RAdd(R1, RMul(Dec(1, 2), N(a)))), PsiErrM(c, a, g))),
                    IF c.fam = "ideal" THEN Pow(N(a), Frac(3, 2)) ELSE IF c.fam = "wlc" THEN Inv(a.normalization_nondimensional_equilibrium_distribution) ELSE R1))) >>

\* Legendre-transformed isotensional model: the force is the inverse of gamma(eta)
TC(c) == [c EXCEPT !.ens = "T", !.leg = FALSE]
InvTol == Dec(3, 6)
ExpectML(c, a, r) ==
   LET g == a.nondimensional_end_to_end_length_per_link
       e == r[ETA]
       gam == TLCEval(Gam(TC(c), a, e))
       ge == GamErr(TC(c), a, e)
       dg == RAbs(RSub(gam, g))
       phi == TLCEval(Phi(TC(c), a, e))
       ph0 == TLCEval(Phi(TC(c), a, ZERO))
       psi == RAdd(phi, RMul(e, g))
       pe == RAdd(PhiErr(TC(c), a, e), RMul(e, dg))
       p0 == PhiErr(TC(c), a, ZERO)
       p0s == IF c.fam = "swfjc" THEN RMul(R4, p0) ELSE p0
       tl == RMul(psi, N(a))
   IN  << [n |-> "inverse", v |-> gam, t |-> RAdd(RMul(InvTol, g), ge), o |-> g],
          Exp_(FE(HFE), RAdd(psi, Offset(c, a)), TolFE(a, r, pe)),
          Exp_(FE(RelQ(HFE)), RSub(psi, ph0), TolFE(a, r, RAdd(pe, p0s))) >>
       \o (IF Has(r, PEQ)
           THEN << Exp_(PEQ, RDiv(Exp(RNeg(tl)), a.normalization_nondimensional_equilibrium_distribution),
                        RAdd(P10(-300), RMul(RDiv(Exp(RNeg(tl)), a.normalization_nondimensional_equilibrium_distribution),
                             RMul(N(a), RAdd(E9, RMul(R2, pe)))))) >> ELSE <<>>)

\* ---- modified canonical ------------------------------------------------------------------
\* Z(d): the chain's density against the harmonic potential, on the library's grid
ModZ(n, om, tab, d) ==
   LET k == RMul(RMul(RInt(n), RInt(n)), om)
       t(i) == LET g == Node(ZERO, R1, i)
               IN  RMul(RMul(RMul(RMul(R4, Pi), Sq(g)), tab[i]),
                        RDiv(RSub(Exp(RMul(RNeg(Half), RMul(k, Sq(RSub(d, g))))), Exp(RMul(RNeg(Half), RMul(k, Sq(RAdd(d, g)))))),
                             RMul(RMul(R2, k), RMul(d, g))))
   IN  RMul(RDiv(RSub(R1, ZERO), RInt(POINTS)), Sum(t, 1, POINTS))
FjcTab(n) == [i \in 1..POINTS |-> FjcP(n, Node(ZERO, R1, i))]
Fjc2 == [path |-> "", fam |-> "fjc", var |-> "exact", ens |-> "M", leg |-> FALSE]
\* strong potential: first correction in the compliance of the potential (whole chain)
StrongF(n, om, d) ==
   LET psi(x) == RNeg(Ln(FjcP(n, x)))
       h == RMul(d, Two(-30))
       lo == psi(RSub(d, h))  mi == psi(d)  hi == psi(RAdd(d, h))
       p1 == RDiv(RSub(hi, lo), RMul(R2, h))
       p2 == RDiv(RSub(RAdd(hi, lo), RMul(R2, mi)), Sq(h))
       k == RMul(RMul(RInt(n), RInt(n)), om)
   IN  RAdd(RSub(mi, RMul(Frac(3, 2), Ln(RDiv(RMul(R2, Pi), k)))),
            RDiv(RSub(p2, Sq(p1)), RMul(R2, k)))
ExpectC(c, a, r) ==
   LET n == a.number_of_links
       om == a.nondimensional_potential_stiffness
       d == a.nondimensional_potential_distance
       wk == LET e == RMul(RMul(N(a), om), d)
                 l == Langevin(e)
                 G(x) == RAdd(RNeg(LnSinhc(x)), RMul(RMul(Half, RMul(om, N(a))), Sq(Langevin(x))))
                 re == RMul(RMul(RInt(64), Eps), RAdd(R1, Inv(e)))          \* rounding of the Langevin function
             IN  << Exp_(ETA, e, RMul(E9, e)),
                    Exp_(GAM, RMul(l, RSub(R1, RMul(RMul(N(a), om), LangevinP(e)))),
                         RAdd(RMul(RAdd(E9, RMul(RMul(RMul(RInt(64), Eps), RMul(N(a), om)), RAdd(R1, Inv(Sq(e))))), RAdd(l, re)), re)),
                    Exp_(FE(GFE), RAdd(G(e), Offset(c, a)), TolFE(a, r, RMul(RMul(re, RMul(om, N(a))), RAdd(l, re)))),
                    Exp_(FE(RelQ(GFE)), RSub(G(e), G(RMul(RMul(N(a), om), ZERO))),
                         TolFE(a, r, RAdd(RMul(RMul(re, RMul(om, N(a))), RAdd(l, re)), 
                               \* the Langevin function at the reference state is rounded to about Eps / eta
                               RMul(RMul(om, N(a)), Sq(RMul(RMul(RInt(8), Eps), Inv(RMul(RMul(N(a), om), ZERO)))))))) >>
       st == LET F(x) == StrongF(n, om, x)
                 cnd == RMul(RMul(RInt(64), Eps), FjcCond(n, d))
                 k == RMul(RMul(N(a), N(a)), om)
                 \* curvature terms: magnitude of what cancels in them
                 mg == RAdd(R1, RDiv(RAdd(Inv(Sq(d)), Sq(RMul(N(a), RAdd(R1, RAbs(ShellRatio(n, d)))))), k))
                 mf == RAdd(R1, RDiv(RAdd(PowInt(d, -3), PowInt(RMul(N(a), RAdd(R1, RAbs(ShellRatio(n, d)))), 3)), k))
             IN  << Exp_(ETA, RDiv(Deriv(F, d), N(a)), RAdd(RMul(Dec(1, 6), RAbs(r[ETA])), RMul(R8, RMul(cnd, mf)))),
                    Exp_(FE(HFE), RAdd(RDiv(F(d), N(a)), Offset(c, a)), TolFE(a, r, RMul(cnd, mg))) >>
       ex == LET tab == TLCEval(FjcTab(n))
                 L(x) == RNeg(Ln(ModZ(n, om, tab, x)))
                 psi == TLCEval(RDiv(L(d), N(a)))
                 eta == TLCEval(RDiv(Deriv(L, d), N(a)))
                 k == RMul(RMul(N(a), N(a)), om)
                 cnd == RMul(RMul(RInt(64), Eps), RAdd(FjcCond(n, Frac(1, 128)), Inv(RMin(R1, RMul(k, d)))))
                 pot == RMul(Half, RMul(RMul(N(a), om), Sq(d)))
                 ps0 == RDiv(L(ZERO), N(a))
                 c0 == RMul(RMul(RInt(64), Eps), RDiv(RAdd(R1, k), RMul(k, ZERO)))
                 et == RAdd(RMul(E9, RAbs(eta)), RMul(cnd, RAdd(R1, RMul(RMul(N(a), om), RAdd(R1, Inv(RMul(k, d)))))))
             IN  << Exp_(ETA, eta, et),
                    Exp_(GAM, RSub(d, RDiv(eta, RMul(om, N(a)))), RAdd(Dec(1, 11), RDiv(et, RMul(om, N(a))))),
                    Exp_(FE(HFE), RAdd(psi, Offset(c, a)), TolFE(a, r, cnd)),
                    Exp_(FE(RelQ(HFE)), RSub(psi, ps0), TolFE(a, r, RAdd(cnd, c0))),
                    Exp_(FE(GFE), RAdd(RSub(psi, pot), Offset(c, a)), TolFE(a, r, RAdd(cnd, RMul(E9, pot)))),
                    Exp_(FE(RelQ(GFE)), RSub(RSub(psi, ps0), pot), TolFE(a, r, RAdd(RAdd(cnd, c0), RMul(E9, pot)))) >>
   IN  IF c.var = "weak_potential" THEN wk ELSE IF c.var = "strong_potential" THEN st ELSE ex

Expect(c, a, r) ==
   IF IsT(c) THEN ExpectT(c, a, r)
   ELSE IF IsC(c) THEN ExpectC(c, a, r)
   ELSE IF c.leg /\ c.fam \notin {"wlc"} THEN
        (LET x == ExpectML(c, a, r)
         IN  IF c.fam # "fjc" THEN x
             ELSE x \o SelectSeq(ExpectM(c, a, r), LAMBDA y : y.n \in {FE(GFE), FE(RelQ(GFE))}))
   ELSE ExpectM(c, a, r)

Observed(a, r, x) == IF "o" \in DOMAIN x THEN x.o ELSE r[x.n]
RefCheck(c, a, r) ==
   LET xs == Expect(c, a, r)
       bad(x) == ("o" \in DOMAIN x \/ Has(r, x.n)) /\ ~Le(RAbs(RSub(Observed(a, r, x), x.v)), x.t)
   IN  {"reference " \o xs[i].n : i \in {j \in 1..Len(xs) : bad(xs[j])}}
=============================================================================
