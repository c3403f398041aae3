//! Monte Carlo sampling, with the randomness of the library under control (vendor/rand: rngs::script).
use crate::hints;
use crate::util::*;
use polymers::physics::single_chain::{efjc, efrc, fjc, frc};
use rand::rngs::script;
use rand_distr::Normal;

struct Chain { model: &'static str, theta: f64, kappa: f64 }
fn normal(c: &Chain) -> Normal<f64> { Normal::new(1.0, 1.0 / c.kappa.sqrt()).unwrap() }
fn conf<const N: usize>(c: &Chain) -> Vec<[f64; 3]> {
    let mut g = rand::thread_rng();
    match c.model {
        "fjc" => fjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&mut g).to_vec(),
        "efjc" => efjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(normal(c), &mut g).to_vec(),
        "frc" => frc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&c.theta, &mut g).to_vec(),
        _ => efrc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&c.theta, normal(c), &mut g).to_vec(),
    }
}
fn length<const N: usize>(c: &Chain) -> f64 {
    let mut g = rand::thread_rng();
    match c.model {
        "fjc" => fjc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(&mut g),
        "efjc" => efjc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(normal(c), &mut g),
        "frc" => frc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(&c.theta, &mut g),
        _ => efrc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(&c.theta, normal(c), &mut g),
    }
}
fn hist<const B: usize, const N: usize>(c: &Chain, gmax: f64, samples: usize) -> (Vec<f64>, Vec<f64>) {
    let (x, y) = match c.model {
        "fjc" => fjc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(samples),
        "efjc" => efjc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&gmax, &c.kappa, samples),
        "frc" => frc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&c.theta, samples),
        _ => efrc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&gmax, &c.kappa, &c.theta, samples),
    };
    (x.to_vec(), y.to_vec())
}
type Conf = fn(&Chain) -> Vec<[f64; 3]>;
type Len = fn(&Chain) -> f64;
type Hist = fn(&Chain, f64, usize) -> (Vec<f64>, Vec<f64>);
const SIZES: &[(usize, Conf, Len, &[(usize, Hist)])] = &[
    (1, conf::<1>, length::<1>, &[(1, hist::<1, 1>), (7, hist::<7, 1>), (40, hist::<40, 1>)]),
    (2, conf::<2>, length::<2>, &[(1, hist::<1, 2>), (7, hist::<7, 2>), (40, hist::<40, 2>)]),
    (3, conf::<3>, length::<3>, &[(1, hist::<1, 3>), (7, hist::<7, 3>), (40, hist::<40, 3>)]),
    (5, conf::<5>, length::<5>, &[(1, hist::<1, 5>), (7, hist::<7, 5>), (40, hist::<40, 5>)]),
    (8, conf::<8>, length::<8>, &[(2, hist::<2, 8>), (10, hist::<10, 8>), (64, hist::<64, 8>)]),
    (13, conf::<13>, length::<13>, &[(2, hist::<2, 13>), (10, hist::<10, 13>), (64, hist::<64, 13>)]),
    (21, conf::<21>, length::<21>, &[(3, hist::<3, 21>), (16, hist::<16, 21>), (100, hist::<100, 21>)]),
    (34, conf::<34>, length::<34>, &[(4, hist::<4, 34>), (25, hist::<25, 34>), (128, hist::<128, 34>)]),
    (70, conf::<70>, length::<70>, &[(5, hist::<5, 70>), (33, hist::<33, 70>), (150, hist::<150, 70>)]),
    (130, conf::<130>, length::<130>, &[(6, hist::<6, 130>), (50, hist::<50, 130>), (260, hist::<260, 130>)]),
];
fn chain(r: &mut Rng, i: usize) -> Chain { 
    let model = ["fjc", "efjc", "frc", "efrc"][i % 4];
    let (theta, kappa) = (r.u(0.1, 2.6), r.lu(60.0, 1e5));
    Chain { model, theta: hints::or(r, model, theta, 0.1, 2.6), kappa: hints::or(r, model, kappa, 60.0, 1e5) }
}
fn head(c: &Chain, n: usize, tag: &str) -> Obj { Obj::new().i("s", 1).s("tag", tag).s("mod", c.model).i("n", n as i64).r("theta", c.theta).r("kappa", c.kappa) }

/// Sessions of configurations of one chain.
pub fn conform(o: &Opts) {
    let mut r = o.rng();
    let mut out = o.out();
    for i in 0..o.u("count", 8) as usize {
        let c = chain(&mut r, i);
        let (n, conf, len, _) = SIZES[if i / 4 % 2 == 0 { 3 + r.below(3) } else { r.below(SIZES.len()) }];
        out.line(&head(&c, n, "chain").end());
        for _ in 0..o.u("configs", 400).min(6000 / n as u64) {
            let seed = r.next();
            // some histories of random numbers start with extreme draws; those of fixed angles only approach
            // the auxiliary vectors that are parallel to the link, for which there is no direction to turn to
            let extreme = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 62];
            let words: Vec<u64> = if !r.chance(0.06) { vec![] }
                else if !c.model.ends_with("frc") { (0..r.below(6)).map(|_| r.pick(&extreme)).collect() }
                else {
                    let e = r.lu(1e-4, 0.1) * 2f64.powi(64);
                    let turn = if r.chance(0.5) { r.pick(&extreme) } else { r.next() };
                    let lead = if c.model == "efrc" && r.chance(0.5) { vec![r.next()] } else { vec![] };
                    if r.chance(0.5) { lead.into_iter().chain([turn, r.next(), (e * r.u(0.1, 1.0)) as u64, (e * r.u(0.1, 1.0)) as u64]).collect() }
                    else {
                        let l = lead.len();
                        (0..r.below(4) + 1).flat_map(|_| [r.next(), r.next(), (e * r.u(0.1, 1.0)) as u64, (e * r.u(0.1, 1.0)) as u64, (e * r.u(0.1, 1.0)) as u64].into_iter().skip(1 - l).collect::<Vec<_>>()).collect()
                    }
                };
            let odd = if words.is_empty() { 0 } else { 1 };
            script::start(seed, &words);
            let p = guard_any(|| conf(&c));
            script::start(seed, &words);
            let l = guard(|| len(&c));
            script::stop();
            let p = p.unwrap_or(vec![]);
            let p = format!("[{}]", p.iter().map(|x| reals(x)).collect::<Vec<_>>().join(","));
            out.line(&Obj::new().i("s", 0).s("tag", "config").s("mod", c.model).i("odd", odd).raw("p", &p).v("l", l).end());
        }
        out.line(&Obj::new().i("s", 0).s("tag", "end").s("mod", c.model).end());
    }
}

/// Histograms of many samples: none is lost.
fn mass(r: &mut Rng, out: &mut Out, i: usize) {
    let c = chain(r, i / 2);
    let (n, _, _, hs) = SIZES[3 + r.below(3)];
    let (b, h) = hs[r.below(hs.len())];
    // many samples in few bins, and in many
    let (b, h) = if i < 8 && i % 2 == 0 { hs[0] } else { (b, h) };
    let samples = if i < 8 { r.pick(&[140_000usize, 300_000]) } else { r.pick(&[20_000usize, 70_000, 140_000, 300_000]) };
    let samples = hints::or_int(r, c.model, samples, 1000, 300_000);
    let gmax = 1.0 + 12.0 / c.kappa.sqrt();
    script::start(r.next(), &[]);
    let (x, y) = guard_any(|| h(&c, gmax, samples)).unwrap_or((vec![], vec![]));
    script::stop();
    out.line(&head(&c, n, "mass").i("bins", b as i64).i("samples", samples as i64).r("gmax", gmax).rs("x", &x).rs("y", &y).end());
}
/// Histograms, with the lengths that the same random numbers give.
pub fn histogram(o: &Opts) {
    let mut r = o.rng();
    let mut out = o.out();
    for i in 0..o.u("count", 24) as usize {
        if i % 10 == 0 { mass(&mut r, &mut out, i / 10); }
        let c = chain(&mut r, i);
        let (n, _, len, hs) = SIZES[r.below(SIZES.len())];
        let (b, h) = hs[r.below(hs.len())];
        let samples = r.pick(&[1usize, 2, 3, 10, 50, 99, 100, 101, 128, 150, 300]);
        let samples = hints::or_int(&mut r, c.model, samples, 1, 1500);
        let gmax = r.u(1.0, 1.3) * (1.0 + 8.0 / c.kappa.sqrt());
        let gmax = hints::or(&mut r, c.model, gmax, 1.0 + 8.0 / c.kappa.sqrt(), 1e3);
        let seed = r.next();
        script::start(seed, &[]);
        let ls: Vec<V> = (0..samples).map(|_| guard(|| len(&c))).collect();
        script::start(seed, &[]);
        let res = guard_any(|| h(&c, gmax, samples));
        script::stop();
        out.line(&head(&c, n, "histogram").i("bins", b as i64).i("samples", samples as i64).r("gmax", gmax).end());
        for l in ls { out.line(&Obj::new().i("s", 0).s("tag", "sample").s("mod", c.model).v("l", l).end()); }
        let (x, y) = res.unwrap_or((vec![], vec![]));
        out.line(&Obj::new().i("s", 0).s("tag", "ret").s("mod", c.model).rs("x", &x).rs("y", &y).end());
    }
}
