//! The constitutive models: elastic and damaging networks.
use crate::hints;
use crate::util::*;
use polymers::constitutive::{hyperelastic, hyperelastic_damage};
const G: usize = 256;
const C: &str = "constitutive";
extern "C" {
    fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(e: *const [[f64; G]; G], factor: f64, grid: *const [f64; G], norm: f64, method: u8, k: f64, n: u8, lam: f64) -> f64;
    fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(e: *const [[f64; G]; G], factor: f64, grid: *const [f64; G], norm: f64, method: u8, k: f64, n: u8, lam: f64) -> f64;
}
fn par(method: u8, k: f64, n: u8, lam: f64) -> String {
    Obj::new().i("method", method as i64).r("k", k).i("n", n as i64).r("lam", lam).end()
}
/// Stiffness for which the free energy of chains at the far end of the grid does not overflow (see the known findings).
fn stiffness(r: &mut Rng, method: u8, gmax: f64) -> f64 {
    let top = if method == 3 { 1e4 } else { (600.0 / (gmax - 0.8).max(0.05)).min(1e4) };
    let k = r.lu(2.0, top);
    hints::or(r, C, k, 2.0, top)
}
fn stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 27).spawn(f).unwrap().join().unwrap()
}
pub fn hyper(o: &Opts) {
    let (mut r, mut out) = (o.rng(), o.out());
    let (cells, mirrors, full) = (o.u("cells", 60), o.u("mirrors", 24), o.u("full", 6));
    stack(move || {
        for i in 0..cells {
            let method = 2 + (r.next() % 2) as u8;
            let kind = if i % 2 == 0 { "uniaxial" } else { "equibiaxial" };
            let (n, lam) = (1 + r.below(60), if r.chance(0.2) { 1.0 } else { r.lu(0.15, 8.0) });
            let (n, lam) = (hints::or_int(&mut r, C, n, 1, 60) as u8, hints::or(&mut r, C, lam, 0.15, 8.0));
            let (z, x) = (r.lu(1e-3, 2.0), r.lu(1e-3, 2.0));
            let (z, x) = (hints::or(&mut r, C, z, 1e-3, 2.0), hints::or(&mut r, C, x, 1e-3, 2.0));
            let at = |z: f64, x: f64| if kind == "uniaxial" { ((z / lam).powi(2) + lam * x * x).sqrt() } else { ((z * lam * lam).powi(2) + (x / lam).powi(2)).sqrt() };
            let g = at(z.max(x), z.max(x));
            let k = stiffness(&mut r, method, g);
            let (e, norm, factor) = (r.u(-3.0, 3.0), r.lu(0.1, 10.0), r.lu(0.1, 20.0));
            let (p, q) = (r.below(G), r.below(G));
            if p == q { continue }
            let mut element = Box::new([[0.0; G]; G]);
            element[p][q] = e;
            let mut grid = [z; G];
            grid[q] = x;
            let v = guard(|| unsafe {
                if kind == "uniaxial" { constitutive_hyperelastic_buche_silberstein_uniaxial_tension(&*element, factor, &grid, norm, method, k, n, lam) }
                else { constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(&*element, factor, &grid, norm, method, k, n, lam) }
            });
            out.line(&Obj::new().i("s", 1).s("tag", "cell").s("kind", kind).raw("a", &par(method, k, n, lam)).r("z", z).r("r", x).r("e", e).r("norm", norm).r("factor", factor).v("v", v).end());
        }
        let mut links = 0;
        for i in 0..full {
            let method = if i % 3 == 2 { 2 } else { 3 };
            let lam = if r.chance(0.15) { 1.0 } else if method == 3 { r.lu(0.25, 7.0) } else { r.lu(0.5, 3.0) };
            let (k, n) = (if method == 2 { r.lu(3.0, 90.0) } else { r.lu(3.0, 1e3) }, 2 + r.below(30));
            let (k, n, lam) = (hints::or(&mut r, C, k, 3.0, if method == 2 { 90.0 } else { 1e3 }), hints::or_int(&mut r, C, n, 2, 60) as u8, hints::or(&mut r, C, lam, if method == 3 { 0.25 } else { 0.5 }, if method == 3 { 7.0 } else { 3.0 }));
            // different networks that have the number of links in common
            let n = if i % 2 == 1 { links } else { n };
            links = n;
            let kind = if r.chance(0.5) { "uniaxial" } else { "equibiaxial" };
            let v = guard(|| { let m = hyperelastic::BucheSilberstein::init(method, k, n); if kind == "uniaxial" { m.uniaxial_tension(&lam) } else { m.equibiaxial_tension(&lam) } });
            out.line(&Obj::new().i("s", 1).s("tag", "stress").s("kind", kind).raw("a", &par(method, k, n, lam)).v("v", v).end());
        }
        // a known finding: chains at the far end of the grid overflow
        for (method, k, n, lam) in [(2u8, 1000.0, 8u8, 1.2), (2, 500.0, 20, 1.1)] {
            let v = guard(|| hyperelastic::BucheSilberstein::init(method, k, n).uniaxial_tension(&lam));
            out.line(&Obj::new().i("s", 1).s("tag", "probe:network-overflow").s("kind", "uniaxial").raw("a", &par(method, k, n, lam)).v("v", v).end());
        }
        let mut m: Vec<(u8, f64, u8, Box<hyperelastic::BucheSilberstein>)> = vec![];
        for i in 0..mirrors {
            if i % 6 == 0 {
                m = (0..2).map(|j| { let method = 2 + j as u8; let (k, n) = (stiffness(&mut r, method, 8.0), 2 + r.below(40) as u8); (method, k, n, Box::new(hyperelastic::BucheSilberstein::init(method, k, n))) }).collect();
            }
            let (method, k, n, b) = &m[r.below(2)];
            let (lo, hi) = if *method == 3 { (0.5, 2.5) } else { (0.8, 1.5) };
            let lam = r.lu(lo, hi);
            let lam = hints::or(&mut r, C, lam, lo, hi);
            let equi = guard(|| b.equibiaxial_tension(&lam));
            let uni = guard(|| b.uniaxial_tension(&(1.0 / (lam * lam))));
            let again = guard(|| b.equibiaxial_tension(&lam));
            out.line(&Obj::new().i("s", 1).s("tag", "mirror").raw("a", &par(*method, *k, *n, lam)).v("equi", equi).v("uni", uni).v("again", again).end());
        }
    });
}
const L: usize = 10;
const LONG: usize = 140;
pub fn damage(o: &Opts) {
    let (mut r, mut out) = (o.rng(), o.out());
    let (count, full) = (o.u("count", 8), o.u("full", 1));
    stack(move || {
        for i in 0..count {
            let method = if i % 4 == 3 { 2 } else { 3 };
            let gc = r.u(0.3, 1.15);
            // all stretches small, or large
            let whisper = i % 5 == 2;
            let top = if whisper { 1.0 + r.lu(1e-3, 0.05) } else if method == 3 && r.chance(0.2) { r.u(3.0, 6.0) } else { r.u(1.3, 3.0) };
            let gc = hints::or(&mut r, C, gc, 0.3, 1.15);
            let k = stiffness(&mut r, method, gc * (1.0f64 + top).sqrt());
            let n = 2 + r.below(24);
            let n = hints::or_int(&mut r, C, n, 2, 60) as u8;
            let j = if r.chance(0.4) { 1.0 } else if r.chance(0.3) { r.u(0.4, 1.0) } else { r.u(1.0, 3.0) };
            let j = hints::or(&mut r, C, j, 0.4, 3.0);
            let b = Box::new(hyperelastic_damage::BucheSilberstein::init(method, gc, k, n, j));
            out.line(&Obj::new().i("s", 1).s("tag", "network").i("method", method as i64).r("gc", gc).r("k", k).i("n", n as i64).r("j", j).end());
            // few distinct stretches, so that histories meet in the same states; some differ little
            let mut pool: Vec<f64> = (0..4).map(|q| if q == 0 { 1.0 } else { let x = r.u(1.0, top); hints::or(&mut r, C, x, 1.0, top) }).collect();
            if r.chance(0.6) { pool[2] = (pool[1] * (1.0 + r.lu(1e-6, 0.03))).min(top); }
            let mut left = full;
            // a long history
            if i % 5 == 0 && method == 3 {
                let mut s = [1.0; LONG];
                for x in s.iter_mut().skip(1) { *x = r.pick(&pool); }
                let res = guard_any(|| b.uniaxial_tension::<LONG>(&s));
                out.line(&Obj::new().i("s", 0).s("tag", "rest").end());
                for q in 0..LONG {
                    let (st, pr) = res.map(|x| (V::N(x[q][0]), V::N(x[q][1]))).unwrap_or((V::Panic, V::Panic));
                    out.line(&Obj::new().i("s", 0).s("tag", "stretch").r("lam", s[q]).v("stress", st).v("total", pr).i("full", 0).end());
                }
            }
            for h in 0..if method == 2 { 1 } else { 4 } {
                let mut s = [1.0; L];
                for x in s.iter_mut() { *x = if h == 3 && r.chance(0.3) { r.u(1.0, top) } else { r.pick(&pool) }; }
                if h == 0 && method == 3 { s[..4].copy_from_slice(&pool); s[..4].sort_by(f64::total_cmp); }
                let (mut st, mut pr) = (vec![V::Panic; L], vec![V::Panic; L]);
                if let Some(x) = guard_any(|| b.uniaxial_tension::<L>(&s)) { for q in 0..L { st[q] = V::N(x[q][0]); pr[q] = V::N(x[q][1]); } }
                out.line(&Obj::new().i("s", 0).s("tag", "rest").end());
                let mut max = 1.0f64;
                for q in 0..L {
                    let back = s[q] < max;
                    max = max.max(s[q]);
                    let f = if left > 0 && (max > 1.0 || whisper) && (r.chance(0.4) || (back && r.chance(0.5))) { left -= 1; 1 } else { 0 };
                    out.line(&Obj::new().i("s", 0).s("tag", "stretch").r("lam", s[q]).v("stress", st[q]).v("total", pr[q]).i("full", f).end());
                }
            }
        }
    });
}
