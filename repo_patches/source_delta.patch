From b70c01bc1995115e337f98d2e22440aa5419698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 01/15] fix: EFJC isotensional extension is the derivative of
 its Gibbs free energy

The full (non-asymptotic) extension omitted the error function in the first
term of the derivative and divided by 1 + fraction instead of the 1/2 + fraction
that the Gibbs free energy contains; visible for soft links (kappa < ~50).
---
 .../efjc/thermodynamics/isotensional/legendre/mod.rs            | 2 +-
 .../single_chain/efjc/thermodynamics/isotensional/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
index dbf87c5..f0e0262 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_ma
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction))
+    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction))
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the applied nondimensional force, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
index 80cbc73..96c1a13 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness:
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction)
+    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction)
 }
 
 /// The Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, hinge mass, and link stiffness.
-- 
2.43.0


From 2a1b8e77f027a8ba1732895f07cef175b2402a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 02/15] fix: FJC isometric sums no longer overflow for chains
 of 27 or more links

The factorials and powers in Treloar's formula were computed in u128, which
overflows for number_of_links >= 27 (a panic, or garbage in release builds),
although number_of_links is a u8.
---
 .../single_chain/fjc/thermodynamics/mod.rs    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index 6b1cb99..abe79b2 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -54,22 +54,24 @@ impl FJC
     }
 }
 
+fn binomial_coefficient(n: usize, s: usize) -> f64
+{
+    (0..s).fold(1.0, |product, i| product*((n - i) as f64)/((i + 1) as f64))
+}
+
 fn treloar_sums(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64, orders: &[i32]) -> Vec<f64>
 {
     let number_of_links_f64 = *number_of_links as f64;
-    let n = *number_of_links as u128;
+    let n = *number_of_links as usize;
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
-    let k = (number_of_links_f64*m).ceil() as u128;
-    orders.iter().map(|order| (0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
+    let k = (number_of_links_f64*m).ceil() as usize;
+    orders.iter().map(|order| (0..=k-1).map(|s| (-1.0_f64).powf(s as f64)*binomial_coefficient(n, s)*(m - (s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
 }
-
 fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
     let number_of_links_f64 = *number_of_links as f64;
-    let n = *number_of_links as u128;
-    let p: i32 = (number_of_links - 2).into();
-    let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
-    let k = (number_of_links_f64*m).ceil() as u128;
-    0.125/PI/nondimensional_end_to_end_length_per_link*(n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
+    let n = *number_of_links as usize;
+    let prefactor = (1..=n-2).fold(number_of_links_f64.powi(2), |product, i| product*number_of_links_f64/(i as f64));
+    0.125/PI/nondimensional_end_to_end_length_per_link*prefactor*treloar_sums(number_of_links, nondimensional_end_to_end_length_per_link, &[0])[0]
 }
\ No newline at end of file
-- 
2.43.0


From 6a8124ff2012e38729133efb88e4241a1018dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 03/15] fix: modified Bessel functions of negative argument

I_0 and I_1 were evaluated with the small-argument polynomial for every negative
argument; the WLC isometric functions use negative arguments, and were wrong for
stiff chains near full extension.  Use that I_0 is even and I_1 odd.
---
 src/math/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 0b66ce9..0537f96 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -96,11 +96,11 @@ pub fn bessel_i(nu: &u8, x: &f64) -> f64
 {
     if nu == &0
     {
-        bessel_i0(x)
+        bessel_i0(&x.abs())
     }
     else if nu == &1
     {
-        bessel_i1(x)
+        bessel_i1(&x.abs()).copysign(*x)
     }
     else
     {
-- 
2.43.0


From 9a097e6c4e93c286b98a9299012121ca61ef2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 04/15] fix: WLC Gibbs free energy under large forces

The Laplace approximation used above a nondimensional force of 100 divided by a
finite-difference second derivative of the force (noise) with the wrong
constants; the Gibbs free energy jumped (even upwards) at that force.  Use the
curvature N d(eta)/d(gamma) of the exponent, and 4 pi sqrt(2 pi/...).
---
 .../single_chain/wlc/thermodynamics/isotensional/mod.rs        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
index 023ca74..d4af7ea 100644
--- a/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
@@ -126,7 +126,6 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
 {
     let f = &|nondimensional_end_to_end_length_per_link: &f64| isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, nondimensional_end_to_end_length_per_link);
     let fp = &|nondimensional_end_to_end_length_per_link: &f64| (isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, &(nondimensional_end_to_end_length_per_link + 1e-8)) - isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, &(nondimensional_end_to_end_length_per_link - 1e-8)))/2e-8;
-    let fpp = &|x: &f64| (fp(&(x + 1e-8)) - fp(&(x - 1e-8)))/2e-8;
     let gamma_hat = inverse_newton_raphson_powered(nondimensional_force, f, fp, &0.9999, &1e-5, &100, 2);
     if !(0.0..=1.0).contains(&gamma_hat)
     {
@@ -135,7 +134,7 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
     let scale = (*number_of_links as f64)*nondimensional_force*gamma_hat - isometric_nondimensional_helmholtz_free_energy(number_of_links, link_length, hinge_mass, nondimensional_persistance_length, &gamma_hat, temperature);
     let log_integral = if nondimensional_force > &100.0
     {
-        -((8.0*PI.powi(2)/fpp(&gamma_hat)).sqrt()).ln() - (0.5*(*number_of_links as f64)*gamma_hat/nondimensional_force).ln()
+        -((32.0*PI.powi(3)/(*number_of_links as f64)/fp(&gamma_hat)).sqrt()).ln() - (0.5*(*number_of_links as f64)*gamma_hat/nondimensional_force).ln()
     }
     else
     {
-- 
2.43.0


From 0d9ec9b980fb31bb4918d6124b90a522dc8e12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 05/15] fix: error function of large negative arguments

erfc(x) divided the saturated erfcx(x) by exp(x^2), which gave 0 (or NaN) instead
of 2 for x < -26.6, so that erf(x) = +1.  The EFJC isotensional functions take
such arguments for link stiffnesses above ~1400 and were wrong there.
---
 src/math/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 0537f96..072640b 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -250,7 +250,14 @@ pub fn erf(x: &f64) -> f64
 
 pub fn erfc(x: &f64) -> f64
 {
-    erfcx(x)/(x.powi(2)).exp()
+    if x < &-6.1
+    {
+        2.0
+    }
+    else
+    {
+        erfcx(x)/(x.powi(2)).exp()
+    }
 }
 
 pub fn erfcx(x: &f64) -> f64
-- 
2.43.0


From fe13163563fcec91b0ee65da392ec79da32eb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 06/15] fix: Lambert W function near its branch point

---
 src/math/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 072640b..b9bc767 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -84,7 +84,14 @@ pub fn integrate_2d_symmetric_grid(f: &dyn Fn(&f64, &f64) -> f64, grid: &[f64],
 pub fn lambert_w(x: &f64) -> f64
 {
     let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(4_u8);
-    let mut w = 0.75*(x + 1.0).ln();
+    let mut w = if x < &-0.35
+    {
+        (2.0*(1.0 + std::f64::consts::E*x).max(f64::EPSILON)).sqrt() - 1.0
+    }
+    else
+    {
+        0.75*(x + 1.0).ln()
+    };
     for _ in 0..amount_of_iterations
     {
         w -= (w*w.exp() - x)/(w.exp()*(w + 1.0) - (w + 2.0)*(w*w.exp() - x)/(2.0 * w + 2.0));
-- 
2.43.0


From f889ab7d087f6b42adb3eb05f0d04700b52e9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 07/15] fix: inverse Langevin function of negative arguments

---
 src/math/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index b9bc767..e4a1e68 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -34,10 +34,14 @@ pub fn inverse_newton_raphson(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn Fn(&f64
 
 pub fn inverse_langevin(y: &f64) -> f64
 {
-    if y <= &1e-3
+    if y.abs() <= 1e-3
     {
         3.0*y
     }
+    else if y < &0.0
+    {
+        -inverse_langevin(&-y)
+    }
     else
     {
         inverse_newton_raphson(y, &|x: &f64| 1.0/x.tanh() - 1.0/x, &|x: &f64| 1.0/x.powi(2) - 1.0/x.sinh().powi(2), &((2.14234*y.powi(3) - 4.22785*y.powi(2) + 3.0*y)/(1.0 - y)/(0.71716*y.powi(3) - 0.41103*y.powi(2) - 0.39165*y + 1.0)), &1e-6, &100)
-- 
2.43.0


From e742e9db7abeff51d22298fbd1e163bc8f02ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 08/15] fix: damped Newton inversion returned NaN when an
 iterate is the exact root

---
 src/math/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index e4a1e68..00c435b 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -2,14 +2,12 @@ pub fn inverse_newton_raphson_powered(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn
 {
     let mut x = *guess;
     let mut f_adj: f64;
-    let mut y_minus_f: f64;
     let mut iters = 0;
     let mut residual_rel = 1.0;
     while residual_rel > rel_tol && &iters < max_iters
     {
         f_adj = f(&x) - y;
-        y_minus_f = -f_adj.powi(power);
-        x += y_minus_f/f_adj.powi(power - 1)/fp(&x)/(power as f64);
+        x -= f_adj/fp(&x)/(power as f64);
         iters += 1;
         residual_rel = (f_adj/y).abs();
     }
-- 
2.43.0


From 9fc89deec37700764aeb428cc4438154bc7c70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 09/15] fix: freely rotating chains of few links reach beyond
 the assumed maximum length

---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index edf1dad..23959fa 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -57,7 +57,8 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
 {
     let mut rng = rand::thread_rng();
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
-    let gamma_max = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let gamma_max_even = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let gamma_max = (gamma_max_even.powi(2) + ((NUMBER_OF_LINKS % 2) as f64)*((theta/2.0).sin()/number_of_links_f64).powi(2)).sqrt();
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
@@ -66,6 +67,10 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     let mut gamma: f64 = 0.0;
     (0..number_of_samples).for_each(|_|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(theta, &mut rng)/number_of_links_f64;
+        if gamma >= gamma_max && gamma < gamma_max*(1.0 + 1e-12)
+        {
+            gamma = gamma_max*(1.0 - 1e-12);
+        }
         for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
         {
             if gamma > gamma_max
-- 
2.43.0


From 2728bb9266eaf60e46c47fbfe28a7a02ee437157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 10/15] fix: EFJC isometric force was NaN at and near full
 extension of the contour length

---
 .../isometric/asymptotic/alternative/legendre/mod.rs          | 4 ++--
 .../efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs  | 4 ++--
 .../isometric/asymptotic/reduced/legendre/mod.rs              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
index d9a3cb8..cf3aa78 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness.sqrt())
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(nondimensional_link_stiffness.sqrt())
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + (nondimensional_force + 1.0/nondimensional_force.tanh() - nondimensional_force/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (1.0 + 2.0*(nondimensional_force/nondimensional_force.tanh() - 1.0)/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
index 364f853..138be7a 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness.sqrt())
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(nondimensional_link_stiffness.sqrt())
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)), &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (nondimensional_link_stiffness*nondimensional_force.powi(2)/nondimensional_force.sinh().powi(4) - (2.0*nondimensional_link_stiffness + 1.0)*(nondimensional_link_stiffness - nondimensional_force.powi(2))/nondimensional_force.sinh().powi(2) + 2.0*nondimensional_link_stiffness*nondimensional_force/nondimensional_force.tanh()*(nondimensional_link_stiffness/nondimensional_force.sinh().powi(2) + 1.0) + (nondimensional_link_stiffness - 1.0)*nondimensional_link_stiffness + nondimensional_force.powi(2))/(nondimensional_link_stiffness + nondimensional_force/nondimensional_force.tanh()).powi(2)/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
index a10fb29..14211b5 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness.sqrt())
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(nondimensional_link_stiffness.sqrt())
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + 1.0/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
-- 
2.43.0


From fcd9f6ea29f58352204272584d1939f636b7a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 11/15] fix: damage model ignored swelling in the free energy
 of method 2

---
 src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 89682db..1a21557 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -91,7 +91,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                 element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                     element_ij / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
@@ -101,7 +101,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             total_probability = grid.iter().flat_map(|z_i|
                 grid.iter().map(|r_j|
                     r_j / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
-- 
2.43.0


From 4850f0518a36930203d2c9fa85cbbee127c7cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 12/15] fix: damage model let chains that were broken at rest
 heal at moderate stretches

The intact condition must hold over the whole history, which includes the
state of rest; chains beyond the critical extension at rest counted as
intact once a stretch shortened them.
---
 .../hyperelastic_damage/buche_silberstein/mod.rs          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 1a21557..0123aa1 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -95,6 +95,8 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization;
@@ -105,6 +107,8 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization * 4.0 * PI * ((grid[1] - grid[0]) / swelling_ratio).powi(2);
@@ -115,6 +119,8 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization;
@@ -123,6 +129,8 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
                     r_j / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
+                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        <= *nondimensional_critical_extension
                     ) as u8 as f64)
                 )
             ).sum::<f64>() / normalization * 4.0 * PI * ((grid[1] - grid[0]) / swelling_ratio).powi(2);
-- 
2.43.0


From 6aeb0b614f2bf08b44153d400f38c5262c29c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 13/15] fix: FJC distribution beyond full extension is zero
 instead of a wrapped sum

---
 src/physics/single_chain/fjc/thermodynamics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index abe79b2..8d46154 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -66,7 +66,7 @@ fn treloar_sums(number_of_links: &u8, nondimensional_end_to_end_length_per_link:
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as usize;
-    orders.iter().map(|order| (0..=k-1).map(|s| (-1.0_f64).powf(s as f64)*binomial_coefficient(n, s)*(m - (s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
+    orders.iter().map(|order| (0..k).map(|s| (-1.0_f64).powf(s as f64)*binomial_coefficient(n, s)*(m - (s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
 }
 fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
-- 
2.43.0


From 0c86378c3ace1f849448ec9bb0f60cfe2633b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 14/15] fix: FJC isometric force of long chains was NaN near
 full extension

---
 src/physics/single_chain/fjc/thermodynamics/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index 8d46154..c170550 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -59,6 +59,7 @@ fn binomial_coefficient(n: usize, s: usize) -> f64
     (0..s).fold(1.0, |product, i| product*((n - i) as f64)/((i + 1) as f64))
 }
 
+// The sums relative to the power m^(n - 2) of their leading base, which underflows for long chains near full extension.
 fn treloar_sums(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64, orders: &[i32]) -> Vec<f64>
 {
     let number_of_links_f64 = *number_of_links as f64;
@@ -66,12 +67,13 @@ fn treloar_sums(number_of_links: &u8, nondimensional_end_to_end_length_per_link:
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as usize;
-    orders.iter().map(|order| (0..k).map(|s| (-1.0_f64).powf(s as f64)*binomial_coefficient(n, s)*(m - (s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()
+    orders.iter().map(|order| (0..k).map(|s| (-1.0_f64).powf(s as f64)*binomial_coefficient(n, s)*(1.0 - (s as f64)/number_of_links_f64/m).powi(p - order)/m.powi(*order)).sum()).collect()
 }
 fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
     let number_of_links_f64 = *number_of_links as f64;
     let n = *number_of_links as usize;
-    let prefactor = (1..=n-2).fold(number_of_links_f64.powi(2), |product, i| product*number_of_links_f64/(i as f64));
+    let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
+    let prefactor = (1..=n-2).fold(number_of_links_f64.powi(2), |product, i| product*number_of_links_f64*m/(i as f64));
     0.125/PI/nondimensional_end_to_end_length_per_link*prefactor*treloar_sums(number_of_links, nondimensional_end_to_end_length_per_link, &[0])[0]
 }
\ No newline at end of file
-- 
2.43.0


From 5436791622db073b7fe8f2c0f093b15632eb764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 15/15] fix: FJC isometric free energies were infinite where
 the distribution underflows

---
 .../fjc/thermodynamics/isometric/legendre/mod.rs       |  4 ++--
 .../single_chain/fjc/thermodynamics/isometric/mod.rs   |  7 ++++---
 src/physics/single_chain/fjc/thermodynamics/mod.rs     | 10 ++++++++++
 .../asymptotic/strong_potential/mod.rs                 |  4 ++--
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/fjc/thermodynamics/isometric/legendre/mod.rs
index 4b96e60..3b25211 100644
--- a/src/physics/single_chain/fjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/isometric/legendre/mod.rs
@@ -9,7 +9,7 @@ mod test;
 use super::
 {
     treloar_sums,
-    treloar_sum_0_with_prefactor
+    ln_treloar_sum_0_with_prefactor
 };
 use std::f64::consts::PI;
 use crate::math::
@@ -161,7 +161,7 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
 {
     let sums = treloar_sums(number_of_links, nondimensional_end_to_end_length_per_link, &[0, 1]);
     let number_of_links_f64 = *number_of_links as f64;
-    -(nondimensional_end_to_end_length_per_link*number_of_links_f64)*(1.0/nondimensional_end_to_end_length_per_link + (0.5*number_of_links_f64 - 1.0)*sums[1]/sums[0])/number_of_links_f64 - (treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)/(number_of_links_f64*link_length).powi(3)).ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
+    -(nondimensional_end_to_end_length_per_link*number_of_links_f64)*(1.0/nondimensional_end_to_end_length_per_link + (0.5*number_of_links_f64 - 1.0)*sums[1]/sums[0])/number_of_links_f64 - ln_treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link) + 3.0*(number_of_links_f64*link_length).ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
 }
 
 /// The nondimensional Gibbs free energy per link as a function of the applied nondimensional end-to-end length per link and temperature, parameterized by the number of links, link length, and hinge mass.
diff --git a/src/physics/single_chain/fjc/thermodynamics/isometric/mod.rs b/src/physics/single_chain/fjc/thermodynamics/isometric/mod.rs
index 29185cb..2006720 100644
--- a/src/physics/single_chain/fjc/thermodynamics/isometric/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/isometric/mod.rs
@@ -15,7 +15,8 @@ pub mod monte_carlo;
 use super::
 {
     treloar_sums,
-    treloar_sum_0_with_prefactor
+    treloar_sum_0_with_prefactor,
+    ln_treloar_sum_0_with_prefactor
 };
 use std::f64::consts::PI;
 use crate::physics::
@@ -82,7 +83,7 @@ pub fn relative_helmholtz_free_energy_per_link(number_of_links: &u8, link_length
 /// The nondimensional Helmholtz free energy as a function of the nondimensional end-to-end length per link and temperature, parameterized by the number of links, link length, and hinge mass.
 pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, nondimensional_end_to_end_length_per_link: &f64, temperature: &f64) -> f64
 {
-    -(equilibrium_distribution(number_of_links, link_length, &(nondimensional_end_to_end_length_per_link*(*number_of_links as f64)*link_length))).ln() - ((*number_of_links as f64) - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
+    3.0*((*number_of_links as f64)*link_length).ln() - ln_treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link) - ((*number_of_links as f64) - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
 }
 
 /// The nondimensional Helmholtz free energy per link as a function of the nondimensional end-to-end length per link and temperature, parameterized by the number of links, link length, and hinge mass.
@@ -94,7 +95,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(number_of_links: &u8, link_
 /// The nondimensional relative Helmholtz free energy as a function of the nondimensional end-to-end length per link, parameterized by the number of links.
 pub fn nondimensional_relative_helmholtz_free_energy(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
-    (nondimensional_equilibrium_distribution(number_of_links, &ZERO)/nondimensional_equilibrium_distribution(number_of_links, nondimensional_end_to_end_length_per_link)).ln()
+    ln_treloar_sum_0_with_prefactor(number_of_links, &ZERO) - ln_treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)
 }
 
 /// The nondimensional relative Helmholtz free energy per link as a function of the nondimensional end-to-end length per link, parameterized by the number of links.
diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index c170550..8bf8d65 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -76,4 +76,14 @@ fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let prefactor = (1..=n-2).fold(number_of_links_f64.powi(2), |product, i| product*number_of_links_f64*m/(i as f64));
     0.125/PI/nondimensional_end_to_end_length_per_link*prefactor*treloar_sums(number_of_links, nondimensional_end_to_end_length_per_link, &[0])[0]
+}
+
+// The logarithm, which is finite where the sum itself underflows.
+fn ln_treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_length_per_link: &f64) -> f64
+{
+    let number_of_links_f64 = *number_of_links as f64;
+    let n = *number_of_links as usize;
+    let m = (-*nondimensional_end_to_end_length_per_link*0.5 + 0.5).max(0.0);
+    let ln_prefactor = (1..=n-2).fold(number_of_links_f64.powi(2).ln(), |sum, i| sum + (number_of_links_f64*m/(i as f64)).ln());
+    (0.125/PI/nondimensional_end_to_end_length_per_link).ln() + ln_prefactor + treloar_sums(number_of_links, nondimensional_end_to_end_length_per_link, &[0])[0].ln()
 }
\ No newline at end of file
diff --git a/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs b/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs
index dc575a3..c776b57 100644
--- a/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs
@@ -9,7 +9,7 @@ mod test;
 use super::super::super::
 {
     treloar_sums,
-    treloar_sum_0_with_prefactor
+    ln_treloar_sum_0_with_prefactor
 };
 use std::f64::consts::PI;
 use crate::physics::
@@ -77,7 +77,7 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
     let number_of_links_f64 = *number_of_links as f64;
     let number_of_links_squared = number_of_links_f64.powi(2);
     let contour_length = number_of_links_f64*link_length;
-    -(treloar_sum_0_with_prefactor(number_of_links, nondimensional_potential_distance)/contour_length.powi(3)).ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() - 1.5*(2.0*PI/nondimensional_potential_stiffness/number_of_links_squared).ln() - 3.0*(contour_length).ln() + 0.5/nondimensional_potential_stiffness/number_of_links_squared*((0.5*number_of_links_f64 - 1.0)*((0.5*number_of_links_f64 - 1.0)*(sums[1]/sums[0]).powi(2) - (0.5*number_of_links_f64 - 1.5)*sums[2]/sums[0]) - nondimensional_potential_distance.powi(-2) - ((0.5*number_of_links_f64 - 1.0)*sums[1]/sums[0] + nondimensional_potential_distance.powi(-1)).powi(2))
+    3.0*contour_length.ln() - ln_treloar_sum_0_with_prefactor(number_of_links, nondimensional_potential_distance) - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() - 1.5*(2.0*PI/nondimensional_potential_stiffness/number_of_links_squared).ln() - 3.0*(contour_length).ln() + 0.5/nondimensional_potential_stiffness/number_of_links_squared*((0.5*number_of_links_f64 - 1.0)*((0.5*number_of_links_f64 - 1.0)*(sums[1]/sums[0]).powi(2) - (0.5*number_of_links_f64 - 1.5)*sums[2]/sums[0]) - nondimensional_potential_distance.powi(-2) - ((0.5*number_of_links_f64 - 1.0)*sums[1]/sums[0] + nondimensional_potential_distance.powi(-1)).powi(2))
 }
 
 /// The nondimensional Helmholtz free energy per link as a function of the applied nondimensional potential distance, nondimensional potential stiffness, and temperature, parameterized by the number of links, link length, and hinge mass.
-- 
2.43.0

