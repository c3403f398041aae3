//! The numerical routines of polymers::math.
use crate::hints;
use crate::util::*;
use polymers::math::*;

/// Arguments of each special function: its whole domain, both signs, extremes, and both sides of the seams.
fn point(r: &mut Rng, f: &str, i: usize) -> f64 {
    let near = |r: &mut Rng, s: f64| match r.below(5) { 0 => s, 1 => f64::from_bits(s.to_bits() + 1), 2 => f64::from_bits(s.to_bits() - 1), 3 => s * (1.0 + r.lu(1e-12, 1e-3)), _ => s * (1.0 - r.lu(1e-12, 1e-3)) };
    let sign = if r.chance(0.5) { -1.0 } else { 1.0 };
    match f {
        "inverse_langevin" => sign * match i % 6 { 0 => r.lu(1e-9, 1e-3), 1 => near(r, 1e-3), 2 => 1.0 - r.lu(1e-9, 1e-1), _ => r.u(0.0, 1.0) },
        "lambert_w" => match i % 6 { 0 => r.lu(1e-12, 1e-3), 1 => -r.lu(1e-12, 1e-1), 2 => -r.u(0.0, 0.367), 3 => -(-1.0f64).exp() * (1.0 - r.lu(1e-6, 1e-1)), 4 => r.lu(1.0, 1e6), _ => r.lu(1e-3, 1e300) },
        "bessel_i0" | "bessel_i1" => sign * match i % 8 { 0 => r.lu(1e-9, 1e-1), 1 => near(r, 7.75), 2 => near(r, 500.0), 3 => r.u(500.0, 705.0), 4 => r.u(7.75, 20.0), 5 => r.u(7.75, 500.0), 6 => if i % 16 == 6 { 0.0 } else { r.u(0.0, 1.0) }, _ => r.u(0.0, 7.75) },
        _ => match i % 12 {
            0 => sign * r.lu(1e-12, 1e-2), 1 => near(r, 50.0), 2 => near(r, 5e7), 3 => -near(r, 6.1), 4 => if i % 24 == 4 { 0.0 } else { r.lu(50.0, 1e9) },
            5 => r.u(-6.1, 0.0), 6 => r.u(-26.6, -6.1), 7 => r.u(5.0, 50.0),
            // seams of the table: 400/(4+x) whole
            8 => { let k = 8 + r.below(92); let x = near(r, 400.0 / k as f64) - 4.0; if r.chance(0.3) && x < 6.0 { -x } else { x } }
            9 => -r.u(26.7, 1000.0), _ => r.u(0.0, 6.0),
        },
    }
}
pub fn special_value(f: &str, x: f64) -> V {
    guard(|| match f {
        "inverse_langevin" => inverse_langevin(&x), "lambert_w" => lambert_w(&x), "bessel_i0" => bessel_i(&0, &x), "bessel_i1" => bessel_i(&1, &x),
        "erf" => erf(&x), "erfc" => erfc(&x), "erfcx" => erfcx(&x), _ => panic!(),
    })
}
/// Each event has the function at x and at -x.
fn emit(out: &mut Out, f: &str, x: f64) {
    let o = Obj::new().i("s", 1).s("tag", f).r("x", x).v("v", special_value(f, x));
    let o = if f == "lambert_w" { o } else { o.v("w", special_value(f, -x)) };
    out.line(&o.end());
}
pub fn special(o: &Opts) {
    let mut r = o.rng();
    let mut out = o.out();
    for i in 0..o.u("count", 100) as usize {
        for f in ["inverse_langevin", "lambert_w", "bessel_i0", "bessel_i1", "erf", "erfc", "erfcx"] {
            let x = point(&mut r, f, i);
            let (lo, hi) = match f { "inverse_langevin" => (-1.0 + 1e-9, 1.0 - 1e-9), "lambert_w" => (-0.36787, 1e300), "bessel_i0" | "bessel_i1" => (-705.0, 705.0), _ => (-26.6, 1e9) };
            let x = hints::or(&mut r, "", x, lo, hi);
            emit(&mut out, f, x);
        }
        // every piece of the table of the scaled complementary error function
        if i % 50 == 0 {
            for k in 7..100 {
                let x = 400.0 / (k as f64 + r.f()) - 4.0;
                if x < 50.0 { emit(&mut out, "erfcx", x); }
                let x = if x < 6.0 && r.chance(0.5) { -x } else { x };
                if x < 20.0 { emit(&mut out, if r.chance(0.5) { "erf" } else { "erfc" }, x); }
            }
        }
    }
}

/// Calls of the Newton inversions with recorded functions: every evaluation that the library makes, and its result.
pub fn newton(o: &Opts) {
    use std::cell::RefCell;
    let mut r = o.rng();
    let mut out = o.out();
    for i in 0..o.u("count", 50) as usize {
        let powered = r.chance(0.6);
        let power = if powered { r.pick(&[1, 2, 2, 3, 4, 4]) } else { 1 };
        let a = r.lu(0.1, 10.0);
        let b = r.lu(0.1, 10.0);
        let fam = i % 6;
        // any units, rising or falling, any side of zero
        let s = if r.chance(0.4) { r.lu(1e-9, 1e9) } else { 1.0 } * if r.chance(0.2) { -1.0 } else { 1.0 };
        let f = |x: f64| -> f64 { s * match fam { 0 => a * x + b * x * x * x, 1 => 1.0 / x.tanh() - 1.0 / x + x / (20.0 * a), 2 => x.exp_m1(), 3 => a * x.sinh(), 4 => a * x, _ => x * (1.0 + a * x.atan()) } };
        let fp = |x: f64| -> f64 { s * match fam { 0 => a + 3.0 * b * x * x, 1 => 1.0 / x.powi(2) - 1.0 / x.sinh().powi(2) + 0.05 / a, 2 => x.exp(), 3 => a * x.cosh(), 4 => a, _ => 1.0 + a * x.atan() + a * x / (1.0 + x * x) } };
        let root = r.lu(0.05, 4.0);
        let root = hints::or(&mut r, "", root, 0.05, 4.0);
        let root = if fam != 1 && r.chance(0.25) { r.lu(1e-8, 0.05) } else { root };
        let root = if fam != 2 && fam != 5 && r.chance(0.2) { -root } else { root };
        let y = f(root);
        // guesses from which the iteration converges: concave functions from below
        let guess = if fam == 1 { root * r.u(0.1, 1.0) } else { root * r.lu(0.3, 3.0) };
        let guess = if r.chance(0.08) { root } else { guess };
        let conv = fam < 5;
        let tol = r.lu(1e-12, 3e-2).max(1e-11);
        let max: u8 = r.pick(&[0, 1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 100, 100, 127, 128, 200, 255, 255]);
        let max = hints::or_int(&mut r, "", max as usize, 0, 255) as u8;
        let tol = hints::or(&mut r, "", tol, 1e-11, 3e-2);
        let log = RefCell::new(Vec::new());
        let limit = |k: &str, x: f64, v: f64| { let mut l = log.borrow_mut(); if l.len() > 2000 { panic!() } l.push((k.to_string(), x, v)); v };
        let lf = |x: &f64| limit("f", *x, f(*x));
        let lp = |x: &f64| limit("fp", *x, fp(*x));
        let res = guard(|| if powered { inverse_newton_raphson_powered(&y, &lf, &lp, &guess, &tol, &max, power) } else { inverse_newton_raphson(&y, &lf, &lp, &guess, &tol, &max) });
        out.line(&Obj::new().i("s", 1).s("tag", "call").i("conv", conv as i64).raw("c", &Obj::new().r("y", y).r("x0", guess).r("tol", tol).i("max", max as i64).i("power", power as i64).end()).end());
        for (k, x, v) in log.borrow().iter() { out.line(&Obj::new().i("s", 0).s("tag", k).r("x", *x).r("v", *v).end()); }
        let e = match res { V::N(x) => f(x), _ => f64::NAN };
        out.line(&Obj::new().i("s", 0).s("tag", "ret").v("x", res).r("v", e).end());
    }
}

/// Integrations on many points (summaries of the evaluations), and integrands that are not numbers at one node.
fn bulk(r: &mut Rng, out: &mut Out, i: usize) {
    use std::cell::RefCell;
    let kind = ["1d", "2d", "1d", "2d_symmetric"][i % 4];
    let two = kind.starts_with("2d");
    let n = if two { 20 + r.below(330) } else { r.pick(&[1000usize, 4096, 50_000, 65_537, 70_000, 100_000, 131_072, 200_001]) };
    let ends = |r: &mut Rng| { let a = r.u(-3.0, 3.0); (a, a + r.lu(0.1, 10.0)) };
    let (x0, x1) = ends(r);
    let (y0, y1) = if kind == "2d" { ends(r) } else { (x0, x1) };
    let c: Vec<f64> = (0..5).map(|_| r.u(-2.0, 2.0)).collect();
    // sums over all evaluations: number, x, x squared, y, xy; extremes
    let t = RefCell::new([0.0f64; 5]);
    let e = RefCell::new([f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY]);
    let see = |x: f64, y: f64| {
        for (p, q) in t.borrow_mut().iter_mut().zip([1.0, x, x * x, y, x * y]) { *p += q; }
        let mut e = e.borrow_mut();
        *e = [e[0].min(x), e[1].max(x), e[2].min(y), e[3].max(y)];
    };
    let f1 = |x: &f64| { see(*x, 0.0); c[0] + c[1] * x + c[2] * x * x };
    let f2 = |x: &f64, y: &f64| { see(*x, *y); c[0] + c[1] * x + c[2] * x * x + c[3] * y + c[4] * x * y };
    let v = guard(|| match kind {
        "1d" => integrate_1d(&f1, &x0, &x1, &(n as u128)),
        "2d" => integrate_2d(&f2, &x0, &x1, &y0, &y1, n as u128),
        _ => integrate_2d_symmetric(&f2, &x0, &x1, n as u128),
    });
    out.line(&Obj::new().i("s", 1).s("tag", "bulk").s("kind", kind).i("n", n as i64).rs("box", &[x0, x1, y0, y1]).rs("c", &c).rs("sums", &*t.borrow()).rs("ends", &*e.borrow()).v("v", v).end());
}
fn hole(r: &mut Rng, out: &mut Out, i: usize) {
    use std::cell::Cell;
    let kind = ["1d", "2d", "1d_grid", "2d_symmetric", "2d_grid", "2d_symmetric_grid"][i % 6];
    let n = 1 + r.below(9);
    let g: Vec<f64> = (0..n).map(|k| k as f64 + 0.3).collect();
    let (left, bad) = (Cell::new(r.below(n * if kind.starts_with("1d") { 1 } else { n })), r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
    let val = || { let k = left.get(); left.set(k.wrapping_sub(1)); if k == 0 { bad } else { 1.0 } };
    let (f1, f2) = (|_: &f64| val(), |_: &f64, _: &f64| val());
    let v = guard(|| match kind {
        "1d" => integrate_1d(&f1, &0.5, &2.5, &(n as u128)), "1d_grid" => integrate_1d_grid(&f1, &g, &0.5),
        "2d" => integrate_2d(&f2, &0.5, &2.5, &-1.0, &1.0, n as u128), "2d_symmetric" => integrate_2d_symmetric(&f2, &0.5, &2.5, n as u128),
        "2d_grid" => integrate_2d_grid(&f2, &g, &g, &0.5), _ => integrate_2d_symmetric_grid(&f2, &g, &0.5),
    });
    out.line(&Obj::new().i("s", 1).s("tag", "hole").s("kind", kind).r("bad", bad).v("v", v).end());
}
/// Calls of the integration routines with recorded integrands.
pub fn quad(o: &Opts) {
    use std::cell::RefCell;
    let mut r = o.rng();
    let mut out = o.out();
    for i in 0..o.u("count", 20) as usize {
        if i % 10 == 0 { bulk(&mut r, &mut out, i / 10); hole(&mut r, &mut out, i / 10); }
        let kind = ["1d", "1d", "1d_grid", "2d", "2d_symmetric", "2d_grid", "2d_symmetric_grid"][i % 7];
        let two = kind.starts_with("2d");
        let n: usize = if two { if r.chance(0.1) { 8 + r.below(16) } else { 1 + r.below(7) } } else { r.pick(&[1, 2, 3, 4, 7, 10, 16, 33, 64, 65, 100, 128, 150, 256, 300]) };
        let n = hints::or_int(&mut r, "", n, 1, if two { 40 } else { 600 });
        let box1 = |r: &mut Rng| {
            let a = match r.below(6) { 0 => 0.0, 1 => r.u(-300.0, 300.0), _ => r.u(-3.0, 3.0) };
            let b = a + (if r.chance(0.1) { r.lu(1e-6, 1e3) } else { r.lu(0.01, 10.0) }) * if r.chance(0.15) { -1.0 } else { 1.0 };
            (hints::or(r, "", a, -10.0, 10.0), hints::or(r, "", b, -10.0, 10.0))
        };
        let (x0, x1) = box1(&mut r);
        let (y0, y1) = if kind == "2d_symmetric" { (x0, x1) } else { box1(&mut r) };
        let c: Vec<f64> = (0..6).map(|_| r.u(-2.0, 2.0)).collect();
        let f1 = |x: f64| c[0] + c[1] * x + c[2] * x * x + c[3] * (1.7 * x).sin();
        let f2 = |x: f64, y: f64| f1(x) + c[4] * x * y + c[5] * y * y * y;
        let grid = |a: f64, b: f64, m: usize| (0..m).map(|k| a + (b - a) * (k as f64 + 0.3) / m as f64).collect::<Vec<f64>>();
        let m = if two { let m = 1 + r.below(9); hints::or_int(&mut r, "", m, 1, 40) } else { n };
        let gx = grid(x0, x1, n);
        let gy = if kind == "2d_symmetric_grid" { gx.clone() } else { grid(y0, y1, m) };
        let da = r.lu(1e-3, 10.0);
        let log = RefCell::new(Vec::new());
        let lf1 = |x: &f64| { let v = f1(*x); log.borrow_mut().push(vec![*x, v]); v };
        let lf2 = |x: &f64, y: &f64| { let v = f2(*x, *y); log.borrow_mut().push(vec![*x, *y, v]); v };
        let res = guard(|| match kind {
            "1d" => integrate_1d(&lf1, &x0, &x1, &(n as u128)),
            "1d_grid" => integrate_1d_grid(&lf1, &gx, &da),
            "2d" => integrate_2d(&lf2, &x0, &x1, &y0, &y1, n as u128),
            "2d_symmetric" => integrate_2d_symmetric(&lf2, &x0, &x1, n as u128),
            "2d_grid" => integrate_2d_grid(&lf2, &gx, &gy, &da),
            _ => integrate_2d_symmetric_grid(&lf2, &gx, &da),
        });
        let ob = Obj::new().i("s", 1).s("tag", "call").s("kind", kind).i("n", n as i64);
        let ob = if kind.ends_with("grid") { ob.rs("gx", &gx).rs("gy", if two { &gy } else { &[] }).r("da", da) } else { ob.rs("box", &[x0, x1, y0, y1][..if two { 4 } else { 2 }]) };
        out.line(&ob.end());
        for e in log.borrow().iter() { let (p, v) = (&e[..e.len() - 1], e[e.len() - 1]); out.line(&Obj::new().i("s", 0).s("tag", "eval").rs("p", p).r("v", v).end()); }
        out.line(&Obj::new().i("s", 0).s("tag", "ret").v("v", res).end());
    }
}
