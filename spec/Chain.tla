------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* What the single-chain models mean: the statistical mechanics of each    *)
(* chain, independent of how the library evaluates it.                     *)
(*                                                                         *)
(* A model is given by one thermodynamic potential; every other quantity   *)
(* of the model is that potential's derivative or Legendre transform:      *)
(*    isotensional:  Phi(eta)   = beta * Gibbs free energy per link        *)
(*                   gamma      = - dPhi/deta                              *)
(*                   Psi        = Phi + eta * gamma                        *)
(*    isometric:     Psi(gamma) = beta * Helmholtz free energy (whole      *)
(*                   chain), eta = (1/N) dPsi/dgamma                       *)
(* eta = f l / kT,  gamma = xi / (N l),  kappa = k l^2 / kT.               *)
(***************************************************************************)
EXTENDS Elem, Catalog, TLC

KB == Dec2(8, 314462618, 9)                   \* zg nm^2 / ns^2 / K, per mole
HP == RDiv(RAdd(RMul(RInt(63507799), P10(9)), RInt(235029610)), P10(18))
ZERO == P10(-6)                               \* the reference state of relative quantities
POINTS == 64                                  \* points of the library's quadrature rule
Eps == Two(-52)

\* midpoints of the library's rule on [lo, hi], and the sum of a tabulated integrand
Node(lo, hi, i) == RAdd(lo, RMul(RDiv(RSub(hi, lo), RInt(POINTS)), Frac(2 * i - 1, 2)))
MidSum(f(_), lo, hi) == LET w == RDiv(RSub(hi, lo), RInt(POINTS))
                            g(i) == f(Node(lo, hi, i))
                        IN  RMul(w, Sum(g, 1, POINTS))

\* derivative of a smooth function, to better than 1e-20 relative to f's curvature
Deriv(f(_), x) == LET h == RMul(x, Two(-40))
                  IN  RDiv(RSub(f(RAdd(x, h)), f(RSub(x, h))), RMul(R2, h))

\* ---- the momentum contribution of one link ---------------------------------
LnMom(a) == Ln(RDiv(RMul(RMul(RMul(R8, Sq(Pi)), RMul(a.hinge_mass, Sq(a.link_length))),
                         RMul(KB, a.temperature)), Sq(HP)))
\* WLC: bending restricts the rotation of a link
LnMomWLC(a) == LET e == Exp(RNeg(Inv(a.nondimensional_persistance_length)))
               IN  RAdd(LnMom(a), Ln(RMul(Half, Sqrt(RSub(R1, Sq(e))))))

\* ---- link potentials: stretch lambda(eta), energy beta u(lambda) -------------
kap(a) == a.nondimensional_link_stiffness
MorseA(a) == Sqrt(RDiv(kap(a), RMul(R2, a.nondimensional_link_energy)))
EtaMaxMorse(a) == Sqrt(RDiv(RMul(a.nondimensional_link_energy, kap(a)), R8))
RECURSIVE SolveLJ(_, _, _), SolveLS(_, _, _)
SolveLJ(x, y, n) ==       \* x^-7 - x^-13 = y
   LET g == RSub(PowInt(x, -7), PowInt(x, -13))
       d == RSub(RMul(RInt(13), PowInt(x, -14)), RMul(RInt(7), PowInt(x, -8)))
       s == RDiv(RSub(y, g), d)
   IN  IF n = 0 \/ Lt(RAbs(s), Two(-110)) THEN x ELSE SolveLJ(RAdd(x, s), y, n - 1)
SolveLS(u, y, n) ==       \* u exp(-u) = y
   LET e == Exp(RNeg(u))
       s == RDiv(RSub(y, RMul(u, e)), RMul(RSub(R1, u), e))
   IN  IF n = 0 \/ Lt(RAbs(s), Two(-110)) THEN u ELSE SolveLS(RAdd(u, s), y, n - 1)
Stretch(fam, a, eta) ==
   CASE fam = "lennard_jones" -> SolveLJ(R1, RDiv(RMul(R6, eta), kap(a)), 80)
     [] fam = "log_squared"   -> Exp(SolveLS(R0, RDiv(eta, kap(a)), 80))
     [] fam = "morse"         ->
           RAdd(R1, RDiv(Ln(RDiv(R2, RAdd(R1, Sqrt(RSub(R1, RDiv(eta, EtaMaxMorse(a))))))), MorseA(a)))
LinkEnergy(fam, a, lam) ==
   CASE fam = "lennard_jones" ->
           LET q == PowInt(lam, -6) IN RMul(RDiv(kap(a), RInt(72)), RSub(Sq(q), RMul(R2, q)))
     [] fam = "log_squared"   -> RMul(RMul(Half, kap(a)), Sq(Ln(lam)))
     [] fam = "morse"         ->
           RMul(a.nondimensional_link_energy, Sq(RSub(R1, Exp(RNeg(RMul(MorseA(a), RSub(lam, R1)))))))
\* the largest stretch that the potential sustains
StretchMax(fam, a) ==
   CASE fam = "lennard_jones" -> Exp(RDiv(Ln(Frac(13, 7)), R6))
     [] fam = "log_squared"   -> Exp(R1)
     [] fam = "morse"         -> RAdd(R1, RDiv(Ln2, MorseA(a)))
\* curvature-correction coefficient c of the asymptotic approximation
AsyC(fam, a) ==
   CASE fam = "lennard_jones" -> Frac(2, 23)
     [] fam = "log_squared"   -> Frac(2, 5)
     [] fam = "morse"         -> Inv(RAdd(R1, RMul(Frac(3, 2), MorseA(a))))

\* ---- exact EFJC ---------------------------------------------------------------
EfjcFraction(k, e) ==
   LET s == Sqrt(RMul(R2, k))
       up == RMul(RMul(RAdd(RDiv(e, k), R1), Exp(e)), Erf(RDiv(RAdd(e, k), s)))
       dn == RMul(RMul(RSub(RDiv(e, k), R1), Exp(RNeg(e))), Erf(RDiv(RSub(e, k), s)))
   IN  RDiv(RSub(up, dn),
            RMul(RMul(R4, Sinh(e)), RAdd(R1, RDiv(RMul(e, Coth(e)), k))))

\* ---- square-well FJC -------------------------------------------------------------
WellW(a) == RAdd(R1, RDiv(a.well_width, a.link_length))
SwD(w, e) == LET we == RMul(w, e)
             IN  RAdd(RSub(RSub(RMul(we, Cosh(we)), Sinh(we)), RMul(e, Cosh(e))), Sinh(e))

\* ---- worm-like chain (Becker, Rosa and Everaers 2010), whole chain -----------------
WlcA == Dec(14054, 3)     WlcB == Dec(473, 3)
\* everything that depends on the persistence length only
WlcPre(xi) ==
   LET small == Lt(xi, Frac(1, 8))
       x2 == RSub(xi, Dec(111, 3))
       q  == RDiv(Dec(38, 2), Pow(xi, Dec(95, 2)))
       c  == RSub(R1, Pow(RAdd(R1, PowInt(q, -5)), RNeg(Frac(1, 5))))
       d  == IF small THEN R1
             ELSE RSub(R1, Inv(RAdd(RDiv(Dec(177, 3), x2), RMul(Dec(64, 1), Pow(x2, Dec(783, 3))))))
       lne == IF small
              THEN RAdd(RMul(Frac(3, 2), Ln(RDiv(Frac(3, 4), RMul(Pi, xi)))), Ln(RSub(R1, RMul(Frac(5, 4), xi))))
              ELSE RAdd(RAdd(Ln(Dec(11204, 2)), RMul(R2, Ln(xi))),
                        RSub(RDiv(Dec(246, 3), xi), RMul(WlcA, xi)))
   IN  TLCEval([xi |-> xi, c |-> c, d |-> d, lne |-> lne])
WlcC == << <<Frac(-3, 4), Frac(23, 64), Frac(-7, 64)>>, <<Frac(-1, 2), Frac(17, 16), Frac(-9, 16)>> >>
\* -ln of the equilibrium density of the nondimensional end-to-end vector (not normalised)
WlcPsi0(pre, g) ==
   LET g2 == Sq(g)
       om == RSub(R1, g2)
       f  == RDiv(RSub(R1, RMul(pre.c, g2)), om)
       h  == RDiv(g, RSub(R1, RMul(Sq(WlcB), g2)))
       ar == RMul(RMul(RMul(pre.d, pre.xi), RMul(WlcA, RAdd(R1, WlcB))), h)
       t(i, j) == RMul(RMul(WlcC[i][j], PowInt(pre.xi, i - 2)), PowInt(g2, j))
       s  == RAdd(RAdd(RAdd(t(1, 1), t(1, 2)), t(1, 3)), RAdd(RAdd(t(2, 1), t(2, 2)), t(2, 3)))
   IN  RNeg(RAdd(RAdd(pre.lne, RMul(Frac(5, 2), Ln(f))),
                 RAdd(RSub(RDiv(s, om), RMul(RMul(ar, WlcB), g)), LnBesselI0(ar))))

\* ---- the exact freely-jointed chain: N-fold convolution of a spherical shell --------
RECURSIVE FactFrom(_, _), Binom(_, _)
FactFrom(n, acc) == IF n < 2 THEN acc ELSE FactFrom(n - 1, RMul(acc, RInt(n)))
Fact(n) == FactFrom(n, R1)
Binom(n, k) == IF k = 0 THEN R1 ELSE RDiv(RMul(Binom(n, k - 1), RInt(n - k + 1)), RInt(k))
RCeil(x) == -RFloor(RNeg(x))
\* SUM (-1)^s C(N,s) ((1-g)/2 - s/N)^p  over the s with positive base
ShellTerm(N, g, p, s) ==
   LET v == RMul(Binom(N, s), PowInt(RSub(RMul(Half, RSub(R1, g)), Frac(s, N)), p))
   IN  IF s % 2 = 0 THEN v ELSE RNeg(v)
ShellTop(N, g) == RCeil(RMul(RInt(N), RMul(Half, RSub(R1, g)))) - 1
ShellSum(N, g, p) == LET t(s) == ShellTerm(N, g, p, s) IN Sum(t, 0, ShellTop(N, g))
ShellAbs(N, g, p) == LET t(s) == RAbs(ShellTerm(N, g, p, s)) IN Sum(t, 0, ShellTop(N, g))
\* density of the nondimensional end-to-end vector
FjcP(N, g) == RMul(RDiv(RDiv(PowInt(RInt(N), N), Fact(N - 2)), RMul(R8, RMul(Pi, g))), ShellSum(N, g, N - 2))
\* how much rounding the alternating sum can amplify, relative to the density
FjcCond(N, g) == RDiv(ShellAbs(N, g, N - 2), RAbs(ShellSum(N, g, N - 2)))

\* ---- the isotensional potential ------------------------------------------------------
LnCothTerm(e, ck) == Ln(RAdd(R1, RDiv(RMul(e, Coth(e)), ck)))
UfjcExact(fam, a, e) ==
   LET f(lam) == RMul(RMul(RDiv(RMul(R2, lam), e), Sinh(RMul(e, lam))), Exp(RNeg(LinkEnergy(fam, a, lam))))
   IN  RNeg(Ln(MidSum(f, ZERO, StretchMax(fam, a))))
\* WLC: Laplace transform of the isometric ensemble, on the library's grid
WlcTab(a) == LET pre == WlcPre(a.nondimensional_persistance_length)
             IN  TLCEval([i \in 1..POINTS |-> Exp(RNeg(WlcPsi0(pre, Node(ZERO, R1, i))))])
WlcZ(N, tab, e) == LET t(i) == LET g == Node(ZERO, R1, i)
                               IN  RMul(RMul(tab[i], RDiv(RMul(RInt(N), g), e)), Sinh(RMul(RMul(RInt(N), e), g)))
                   IN  RMul(RDiv(RSub(R1, ZERO), RInt(POINTS)), Sum(t, 1, POINTS))

Phi(c, a, e) ==
   CASE c.fam = "ideal" -> RNeg(RDiv(Sq(e), R6))
     [] c.fam = "fjc"   -> RNeg(LnSinhc(e))
     [] c.fam = "swfjc" -> RNeg(Ln(RDiv(SwD(WellW(a), e), PowInt(e, 3))))
     [] c.fam = "efjc"  ->
          LET k == kap(a)
              red == RNeg(RAdd(LnSinhc(e), RDiv(Sq(e), RMul(R2, k))))
          IN  (CASE c.var = "reduced"     -> red
                [] c.var = "alternative" -> RSub(red, RDiv(RMul(e, Coth(e)), k))
                [] c.var = "asymptotic"  -> RSub(red, LnCothTerm(e, k))
                [] c.var = "exact"       -> RSub(RSub(red, LnCothTerm(e, k)), Ln(RAdd(Half, EfjcFraction(k, e)))))
     [] c.fam \in {"lennard_jones", "log_squared", "morse"} ->
          IF c.var = "exact" THEN UfjcExact(c.fam, a, e)
          ELSE LET lam == Stretch(c.fam, a, e)
                   rdu == RSub(RSub(LinkEnergy(c.fam, a, lam), RMul(e, RSub(lam, R1))), LnSinhc(e))
               IN  IF c.var = "reduced" THEN rdu
                   ELSE RSub(rdu, LnCothTerm(e, RMul(AsyC(c.fam, a), kap(a))))
\* gamma(eta), and the dimensional constant of the configuration integral of one link
Gam(c, a, e) == LET f(x) == Phi(c, a, x) IN RNeg(Deriv(f, e))
LnConst(c, a) == IF c.fam = "efjc" \/ (c.fam \in {"lennard_jones", "log_squared", "morse"} /\ c.var # "exact")
                 THEN RMul(Half, Ln(RDiv(RMul(RMul(R2, Pi), Sq(a.link_length)), kap(a))))
                 ELSE R0
\* rounding that an evaluation in double precision of gamma(eta), Phi(eta) may suffer
GamErr(c, a, e) ==
   IF c.fam = "swfjc"
   THEN LET w == RMul(WellW(a), e)
            r == RDiv(RMul(w, RMul(Cosh(w), RAdd(R1, w))), SwD(WellW(a), e))
        IN  RMul(RMul(RInt(64), Eps), RMul(r, RAdd(RDiv(R4, e), R4)))
   ELSE IF c.fam \in {"lennard_jones", "log_squared", "morse"} /\ c.var = "exact"
   THEN RMul(RMul(RInt(32), Eps), RAdd(R4, RDiv(R4, Sq(e))))
   ELSE RMul(RMul(RInt(128), Eps), RAdd(R4, RDiv(R4, e)))
PhiErr(c, a, e) ==
   IF c.fam = "swfjc"
   THEN LET w == RMul(WellW(a), e)
        IN  RMul(RMul(RInt(64), Eps), RAdd(RDiv(RMul(w, RMul(Cosh(w), RAdd(R1, w))), SwD(WellW(a), e)), R10))
   ELSE RAdd(RMul(RMul(RInt(512), Eps), RAdd(RAdd(RInt(20), e), RAbs(Phi(c, a, e)))),
             IF c.fam \in {"lennard_jones", "log_squared", "morse"} /\ c.var = "exact"
             THEN RMul(RMul(R8, Eps), Inv(e))
             \* the two error functions cancel for small forces
             ELSE IF c.fam = "efjc" /\ c.var = "exact" THEN RMul(RMul(R8, Eps), Inv(e)) ELSE R0)
=============================================================================
