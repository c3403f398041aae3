//! The single-chain models: one event per model and parameter state, with the results of every function.
use crate::env::Env;
use crate::hints;
use crate::registry::{LEVELS, MODULES};
use crate::util::*;
use crate::Module;

pub const KB: f64 = 8.314462618;

/// The largest nondimensional force that the link potential sustains.
pub fn emax(p: &str, e: &Env) -> f64 {
    let k = e.nondimensional_link_stiffness;
    if p.contains("log_squared") { k / 1f64.exp() }
    else if p.contains("morse") { (k * e.nondimensional_link_energy / 8.0).sqrt() }
    else if p.contains("lennard_jones") { let l: f64 = (13f64 / 7.0).powf(1.0 / 6.0); k / 6.0 * (l.powi(-7) - l.powi(-13)) }
    else { f64::INFINITY }
}
/// (the matrix functions of the worm-like chain overflow for many links under larger forces)
fn top_force(p: &str) -> f64 { if p.starts_with("wlc") { 300.0 } else { 600.0 } }
/// Chooses the controlled variables (force, end-to-end length, potential), leaving the parameters of the model.
pub fn control(r: &mut Rng, p: &str, e: &mut Env) {
    let ext = p.starts_with("efjc") || p.starts_with("ufjc");
    let emax = emax(p, e);
    let top = top_force(p).min(0.99 * emax);
    e.nondimensional_force = match r.below(6) {
        0 => r.lu(1e-3, 0.1), 1 => r.lu(0.1, 1.0), 2 | 3 => r.u(1.0, 10f64.min(top)), 4 => r.u(10f64.min(0.5 * top), 50f64.min(top)), _ => r.u(0.2 * top, top),
    };
    if p.starts_with("ideal") && r.chance(0.3) { e.nondimensional_force = r.lu(1e-6, 1e4); }
    e.nondimensional_end_to_end_length_per_link = match r.below(6) {
        0 => r.lu(2e-3, 0.05), 1 => r.u(0.05, 0.3), 2 | 3 => r.u(0.3, 0.9), 4 => r.u(0.9, 0.99),
        _ => if p.starts_with("ideal") { r.u(1.0, 3.0) } else { r.u(0.1, 0.97) },
    };
    if ext {
        // an extension in the range that corresponds to the range of forces above
        let k = e.nondimensional_link_stiffness;
        let t = if p.starts_with("efjc") { 600f64 } else { 600f64.min(0.95 * emax) };
        let x = match r.below(5) { 0 => r.lu(6e-3, 0.1), 1 => r.lu(0.1, 1.0), 2 => r.lu(1.0, 20f64.min(t)), _ => r.lu(1.0, t) };
        e.nondimensional_end_to_end_length_per_link = (if x < 1e-2 { x / 3.0 } else { 1.0 / x.tanh() - 1.0 / x }) + x / k;
        // at and next to full extension of the links
        if p.starts_with("efjc") && p.contains("isometric") && r.chance(0.15) {
            let g = match r.below(4) { 0 => 1.0, 1 => 1.0 + r.lu(1e-16, 1e-2), _ => 1.0 - r.lu(1e-16, 1e-2) };
            // (the free energies overflow for forces above 710)
            if k.sqrt() + k * (g - 1.0) < 600.0 { e.nondimensional_end_to_end_length_per_link = g; }
        }
    }
    e.nondimensional_potential_distance = if r.chance(0.2) { r.lu(1e-3, 0.1) } else { r.u(0.05, 0.95) };
    e.nondimensional_potential_stiffness = if r.chance(0.2) { r.lu(1e-8, 1e-2) } else { r.lu(1e-2, 1e2) };
    if p.contains("weak_potential") {
        let x = r.u(50.0, 300.0) / e.number_of_links as f64 / e.nondimensional_potential_distance;
        e.nondimensional_potential_stiffness = e.nondimensional_potential_stiffness.min(x);
    }
    // (an expansion in the compliance of the potential)
    if p.contains("strong_potential") { let n = e.number_of_links as f64; e.nondimensional_potential_stiffness = e.nondimensional_potential_stiffness.max(0.1 / n / n); }
    if p.starts_with("swfjc") {
        e.nondimensional_end_to_end_length_per_link *= 1.0 + e.well_width / e.link_length;
        e.nondimensional_force = e.nondimensional_force.max(0.02).min(600.0 / (1.0 + e.well_width / e.link_length));
    }
    dimensional(e);
    hints::apply(r, p, e, hints::CONTROLS);
}
pub fn exact_chain(p: &str) -> bool { p == "fjc/thermodynamics/isometric/legendre" || p == "fjc/thermodynamics/isometric" || p.starts_with("fjc/thermodynamics/modified_canonical") }
/// Whether a state is in the domain from which `sample` draws.
pub fn valid(p: &str, e: &Env) -> bool {
    let within = |x: f64, a: f64, b: f64| x >= a && x <= b;
    let n = e.number_of_links as f64;
    let (k, eta, g) = (e.nondimensional_link_stiffness, e.nondimensional_force, e.nondimensional_end_to_end_length_per_link);
    let units = within(e.link_length, 1e-10, 1e10) && within(e.hinge_mass, 1e-30, 1e10) && within(e.temperature, 1e-3, 1e6);
    let w = e.well_width / e.link_length;
    let emax = emax(p, e);
    let links = if exact_chain(p) { within(n, 2.0, 40.0) } else { within(n, 1.0, 255.0) };
    // (the two formulas on either side of this force differ slightly)
    if p.starts_with("wlc") && (eta - 100.0).abs() < 1e-6 { return false }
    let force = if p.starts_with("ideal") { within(eta, 1e-6, 1e4) } else if p.starts_with("swfjc") { within(eta, 0.02, 300f64.min(600.0 / (1.0 + w))) } else { within(eta, 1e-3, top_force(p).min(0.99 * emax)) };
    let length = if p.starts_with("ideal") { within(g, 2e-3, 3.0) } else if p.starts_with("swfjc") { within(g, 2e-3, 0.985 * (1.0 + w)) }
        else if p.starts_with("efjc") || p.starts_with("ufjc") {
            let t = if p.starts_with("efjc") { 600f64 } else { 600f64.min(0.95 * emax) };
            within(g, 2e-3 + 6e-3 / k, 1.0 / t.tanh() - 1.0 / t + t / k)
        } else { within(g, 2e-3, 0.99) };
    let stiffness = if p.starts_with("efjc/thermodynamics/isotensional/asymptotic") { within(k, 40.0, 1e6) } else if p.starts_with("efjc/thermodynamics/isotensional") { within(k, 2.0, 1e6) } else if p.starts_with("efjc") { within(k, 40.0, 1e6) }
        else if p.starts_with("ufjc") { (if p.contains("asymptotic") { within(k, 40.0, 1e6) } else { within(k, 30.0, 1e3) }) && within(e.nondimensional_link_energy / k, 0.02, 1.0) } else { true };
    let other = if p.starts_with("wlc") { let z = e.nondimensional_persistance_length; within(z, 0.02, 0.124) || within(z, 0.126, 3.0) }
        else if p.starts_with("swfjc") { within(w, if n > 180.0 { 0.1 } else { 0.05 }, 2.0) } else { true };
    let (o, d) = (e.nondimensional_potential_stiffness, e.nondimensional_potential_distance);
    let potential = within(d, 1e-3, 0.95) && within(o, 1e-8, 1e2) && (!p.contains("weak_potential") || o <= 300.0 / n / d) && (!p.contains("strong_potential") || o >= 0.1 / n / n);
    units && links && force && length && stiffness && other && potential
}
/// Another state that shares most of its arguments with the given one.
pub fn variation(r: &mut Rng, p: &str, i: usize, e: &Env) -> Env {
    let s = sample(r, p, i);
    let mut x = e.clone();
    if r.chance(0.4) {
        // one of the parameters changes, and the dimensional ones are kept
        match r.below(5) {
            0 | 1 => x.number_of_links = s.number_of_links,
            2 => x.temperature *= r.lu(0.3, 3.0),
            3 => x.link_length *= r.lu(0.3, 3.0),
            _ => { x.hinge_mass = s.hinge_mass; x.temperature *= r.lu(0.3, 3.0) }
        }
        let (n, l, kt) = (x.number_of_links as f64, x.link_length, KB * x.temperature);
        x.nondimensional_link_stiffness = x.link_stiffness * l * l / kt;
        x.nondimensional_potential_stiffness = x.potential_stiffness * l * l / kt;
        x.nondimensional_link_energy = x.link_energy / kt;
        x.nondimensional_persistance_length = x.persistance_length / n / l;
        control(r, p, &mut x);
        if r.chance(0.5) {
            x.nondimensional_force = e.force * l / kt;
            x.nondimensional_end_to_end_length_per_link = e.end_to_end_length / n / l;
            x.nondimensional_potential_distance = e.potential_distance / n / l;
        }
        let (k, u, z, o, f, y, d) = (x.link_stiffness, x.link_energy, x.persistance_length, x.potential_stiffness, x.force, x.end_to_end_length, x.potential_distance);
        dimensional(&mut x);
        if !valid(p, &x) { return s }
        // (the same to the last bit)
        let keep = |a: &mut f64, b: f64| if (*a / b - 1.0).abs() < 1e-14 { *a = b };
        keep(&mut x.link_stiffness, k); keep(&mut x.link_energy, u); keep(&mut x.persistance_length, z); keep(&mut x.potential_stiffness, o);
        keep(&mut x.force, f); keep(&mut x.end_to_end_length, y); keep(&mut x.potential_distance, d);
        return x
    }
    match r.below(6) {
        0 => x.number_of_links = s.number_of_links,
        1 => { x.temperature = s.temperature; if r.chance(0.5) { x.hinge_mass = s.hinge_mass } }
        2 => { x.well_width *= s.link_length / x.link_length; x.link_length = s.link_length; }
        3 => { x.nondimensional_link_stiffness = s.nondimensional_link_stiffness; x.nondimensional_link_energy = s.nondimensional_link_energy;
               x.nondimensional_persistance_length = s.nondimensional_persistance_length; x.well_width = s.well_width * x.link_length / s.link_length;
               x.nondimensional_potential_stiffness = s.nondimensional_potential_stiffness; }
        4 => if p.starts_with("ufjc") { x.nondimensional_link_energy = x.nondimensional_link_stiffness * r.lu(0.02, 1.0) }
             else { x.nondimensional_potential_distance = s.nondimensional_potential_distance; x.hinge_mass = s.hinge_mass },
        _ => { x.nondimensional_force = s.nondimensional_force; x.nondimensional_end_to_end_length_per_link = s.nondimensional_end_to_end_length_per_link; x.nondimensional_potential_distance = s.nondimensional_potential_distance; }
    }
    dimensional(&mut x);
    if valid(p, &x) { x } else { s }
}
/// Units of length, mass and energy: of order one, or anything.
fn scales(r: &mut Rng, e: &mut Env) {
    if r.chance(0.25) {
        e.link_length = r.lu(1e-10, 1e10); e.hinge_mass = r.lu(1e-30, 1e10); e.temperature = r.lu(1e-3, 1e6);
    } else {
        e.link_length = if r.chance(0.2) { 1.0 } else { r.lu(0.1, 10.0) };
        e.hinge_mass = if r.chance(0.2) { 1.0 } else { r.lu(0.01, 100.0) };
        e.temperature = if r.chance(0.2) { 300.0 } else { r.lu(2.0, 2000.0) };
    }
}
/// Chooses a parameter state in the domain of the model.
pub fn sample(r: &mut Rng, p: &str, i: usize) -> Env {
    let mut e = Env::default();
    e.number_of_links = if exact_chain(p) {
        r.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 18, 20, 22, 24, 25, 26, 27, 30, 34, 35, 40])
    } else {
        r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 20, 25, 26, 27, 32, 40, 50, 64, 85, 100, 127, 128, 129, 200, 254, 255])
    };
    scales(r, &mut e);
    let k = match i % 4 { 0 => r.lu(40.0, 100.0), 1 => r.lu(100.0, 1000.0), 2 => r.lu(1e3, 1e4), _ => r.lu(1e4, 1e6) };
    e.nondimensional_link_stiffness = if p == "efjc/thermodynamics/isotensional" || p == "efjc/thermodynamics/isotensional/legendre" { if i % 4 == 0 { r.lu(2.0, 40.0) } else { k } } else if p.starts_with("efjc") && r.chance(0.1) { r.lu(0.5, 40.0) } else { k };
    if p.starts_with("ufjc") {
        if !p.contains("asymptotic") { e.nondimensional_link_stiffness = r.lu(30.0, 1000.0); }
        e.nondimensional_link_energy = e.nondimensional_link_stiffness * r.lu(0.02, 1.0);
    }
    e.nondimensional_persistance_length = if i % 3 == 0 { r.lu(0.02, 0.124) } else { r.lu(0.126, 3.0) };
    // (the normalisation of the square-well chain underflows for many links and narrow wells, see the known findings)
    let w = if i % 2 == 0 { r.lu(if e.number_of_links > 180 { 0.1 } else { 0.05 }, 0.5) } else { r.u(0.3, 2.0) };
    e.well_width = w * e.link_length;
    e.normalization_nondimensional_equilibrium_distribution = r.lu(0.1, 10.0);
    control(r, p, &mut e);
    hints::apply(r, p, &mut e, hints::PARAMETERS);
    hints::apply(r, p, &mut e, hints::UNITS);
    e
}
/// The dimensional parameters that correspond to the nondimensional ones.
pub fn dimensional(e: &mut Env) {
    let n = e.number_of_links as f64;
    let kt = KB * e.temperature;
    e.force = e.nondimensional_force * kt / e.link_length;
    e.end_to_end_length = e.nondimensional_end_to_end_length_per_link * n * e.link_length;
    e.link_stiffness = e.nondimensional_link_stiffness * kt / e.link_length / e.link_length;
    e.link_energy = e.nondimensional_link_energy * kt;
    e.persistance_length = e.nondimensional_persistance_length * n * e.link_length;
    e.potential_distance = e.nondimensional_potential_distance * n * e.link_length;
    e.potential_stiffness = e.nondimensional_potential_stiffness * kt / e.link_length / e.link_length;
}
pub fn all_args(m: &Module) -> Vec<&'static str> {
    let mut a: Vec<&'static str> = m.init_args.to_vec();
    for f in m.funs { for x in f.args { if !a.contains(x) { a.push(x) } } }
    for x in ["hinge_mass", "link_length", "number_of_links", "temperature"] { if !a.contains(&x) { a.push(x) } }
    a
}
pub fn args_json(e: &Env, names: &[&str]) -> String {
    let mut o = Obj::new();
    for n in names { o = if *n == "number_of_links" { o.i(n, e.number_of_links as i64) } else { o.r(n, e.get(n)) }; }
    o.end()
}
/// One event: which results are included is given by `what`, a subset of "r" (free functions),
/// "m" (methods of a directly initialised structure), "d" (methods reached through the whole model), "x" (C entry points), "f" (fields).
pub fn event(m: &Module, e: &Env, what: &str, tag: &str, start: bool) -> String {
    let mut o = Obj::new().i("s", start as i64).s("tag", tag).s("mod", m.path).raw("a", &args_json(e, &all_args(m)));
    if what.contains('r') {
        let mut q = Obj::new();
        for f in m.funs { q = q.v(f.name, guard(|| (f.free)(e))); }
        o = o.raw("r", &q.end());
    }
    for (c, mk) in [('m', m.leaf), ('d', m.deep)] {
        if what.contains(c) {
            let mut q = Obj::new();
            let obj = guard_any(|| mk(e));
            for (n, _) in m.methods {
                q = q.v(n, match &obj { None => V::Panic, Some(b) => guard(|| b(n, e).unwrap()) });
            }
            o = o.raw(&c.to_string(), &q.end());
            if what.contains('f') {
                let mut q = Obj::new();
                for n in m.fields {
                    q = q.v(n, match &obj { None => V::Panic, Some(b) => guard(|| b(&format!("field:{}", n), e).unwrap()) });
                }
                o = o.raw(&format!("f{}", c), &q.end());
            }
        }
    }
    if what.contains('x') {
        let mut q = Obj::new();
        for f in m.funs { if let Some(x) = f.ext { q = q.v(f.name, guard(|| x(e))); } }
        o = o.raw("x", &q.end());
    }
    o.end()
}
/// A session with one model: the steps after the first change the controlled variables (pull), the temperature,
/// mass and length at the same nondimensional state (reheat), the number of links (grow), or go to the reference state (rest).
pub fn session(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 8) as usize;
    let what = o.s("what", "r");
    let re = o.s("mods", "");
    let mut out = o.out();
    for m in MODULES {
        if !re.is_empty() && !re.split(',').any(|x| m.path.starts_with(x)) { continue }
        for i in 0..count {
            let mut e = sample(&mut r, m.path, i);
            out.line(&event(m, &e, &what, "create", true));
            let mut acts = vec!["pull", "reheat", "grow"];
            for k in (1..3).rev() { let j = r.below(k + 1); acts.swap(k, j); }
            acts.push("rest");
            for act in acts {
                match act {
                    "pull" => control(&mut r, m.path, &mut e),
                    "reheat" => {
                        let w = e.well_width / e.link_length;
                        scales(&mut r, &mut e);
                        e.well_width = w * e.link_length;
                        dimensional(&mut e);
                        hints::apply(&mut r, m.path, &mut e, &["temperature", "hinge_mass", "link_length", "kt", "force", "end_to_end_length", "link_energy", "persistance_length"]);
                    }
                    "grow" => {
                        let n = e.number_of_links;
                        while e.number_of_links == n { e.number_of_links = sample(&mut r, m.path, i).number_of_links; }
                        if m.path.contains("weak_potential") {
                            let x = 300.0 / e.number_of_links as f64 / e.nondimensional_potential_distance;
                            if e.nondimensional_potential_stiffness > x { e.number_of_links = n; }
                        }
                    }
                    _ => { e.nondimensional_force = 1e-6; e.nondimensional_end_to_end_length_per_link = 1e-6; e.nondimensional_potential_distance = 1e-6; }
                }
                dimensional(&mut e);
                out.line(&event(m, &e, &what, act, false));
            }
        }
    }
}
pub fn run(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 20) as usize;
    let what = o.s("what", "r");
    let re = o.s("mods", "");
    let not = o.s("not", "");
    let mut out = o.out();
    for m in MODULES {
        if !re.is_empty() && !re.split(',').any(|x| m.path.starts_with(x)) { continue }
        if !not.is_empty() && not.split(',').any(|x| m.path.contains(x)) { continue }
        let mut last: Vec<Env> = Vec::new();
        for i in 0..count {
            // new states, variations of one of the last states, and states that were visited before
            let e = if last.is_empty() || r.chance(0.6) { sample(&mut r, m.path, i) } else { let x = last[r.below(last.len())].clone(); if r.chance(0.15) { x } else { variation(&mut r, m.path, i, &x) } };
            out.line(&event(m, &e, &what, "api", out.n % 16 == 0));
            if last.len() == 3 { last.remove(0); }
            last.push(e);
        }
    }
    if what.contains('l') {
        for (path, f) in LEVELS {
            for i in 0..count.min(6) {
                let e = sample(&mut r, if path.starts_with("fjc") { "fjc/thermodynamics/isometric" } else { path }, i);
                let mut q = Obj::new();
                let names = ["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy", "well_width", "persistance_length"];
                match guard_any(|| f(&e)) {
                    Some(v) => for (n, x) in v { q = q.r(n, x) },
                    None => q = q.v("hinge_mass", V::Panic),
                }
                let mut e2 = e.clone();
                if path.starts_with("wlc") { e2.nondimensional_persistance_length = e2.persistance_length / (e2.number_of_links as f64) / e2.link_length; }
                out.line(&Obj::new().i("s", (out.n % 16 == 0) as i64).s("tag", "level").s("mod", path).raw("a", &args_json(&e2, &names)).raw("f", &q.end()).end());
            }
        }
    }
}

/// Fixed inputs, one per line: NAME MODULE name=value ...
pub fn probes(o: &Opts) -> Vec<(String, &'static Module, Env)> {
    let mut v = Vec::new();
    if !o.kv.contains_key("file") { return v }
    for l in std::fs::read_to_string(o.s("file", "")).unwrap_or_default().lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 2 || w[0].starts_with('#') { continue }
        let m = MODULES.iter().find(|m| m.path == w[1]).expect("module");
        let mut e = Env { number_of_links: 8, link_length: 1.0, hinge_mass: 1.0, temperature: 300.0, normalization_nondimensional_equilibrium_distribution: 1.0, ..Default::default() };
        for a in &w[2..] { let (k, v) = a.split_once('=').unwrap(); e.set(k, v.parse().unwrap()); }
        dimensional(&mut e);
        v.push((format!("probe:{}", w[0]), m, e));
    }
    v
}
pub fn probe(o: &Opts) {
    let mut out = o.out();
    for (tag, m, e) in probes(o) { out.line(&event(m, &e, "r", &tag, true)); }
}

fn module(p: &str) -> Option<&'static Module> { MODULES.iter().find(|m| m.path == p) }
fn results(m: &Module, e: &Env) -> Vec<(&'static str, V)> { m.funs.iter().map(|f| (f.name, guard(|| (f.free)(e)))).collect() }
fn obj(q: &[(&'static str, V)]) -> String { let mut o = Obj::new(); for (n, v) in q { o = o.v(n, *v) } o.end() }
fn value(q: &[(&'static str, V)], n: &str) -> Option<f64> { q.iter().find(|x| x.0 == n).and_then(|x| if let V::N(y) = x.1 { Some(y) } else { None }) }

/// Cycles force -> extension -> force through a model's isotensional, Legendre-transformed and isometric modules.
pub fn legendre(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 20) as usize;
    let re = o.s("mods", "");
    let mut out = o.out();
    for t in MODULES {
        if !t.path.contains("isotensional") || t.path.ends_with("legendre") { continue }
        if !re.is_empty() && !re.split(',').any(|x| t.path.starts_with(x)) { continue }
        let l = module(&format!("{}/legendre", t.path));
        let mp = t.path.replace("isotensional", "isometric");
        let m = if t.path.starts_with("ideal") { module(&mp) } else if t.path.starts_with("wlc") { None } else { module(&format!("{}/legendre", mp)) };
        for i in 0..count {
            let mut e = sample(&mut r, m.unwrap_or(t).path, i);
            if !t.path.starts_with("ideal") { while e.nondimensional_force > 1e3 { control(&mut r, t.path, &mut e) } }
            if t.path.starts_with("swfjc") { e.nondimensional_force = e.nondimensional_force.min(50.0); dimensional(&mut e); }
            let qt = results(t, &e);
            let mut b = Obj::new().i("s", (out.n % 16 == 0) as i64).s("tag", "legendre").s("mod", t.path).s("ml", m.map(|x| x.path).unwrap_or("")).raw("a", &args_json(&e, &all_args(t))).raw("t", &obj(&qt));
            if let Some(l) = l { b = b.raw("l", &obj(&results(l, &e))); }
            if let (Some(m), Some(g)) = (m, value(&qt, "nondimensional_end_to_end_length_per_link")) {
                let mut e2 = e.clone();
                e2.nondimensional_end_to_end_length_per_link = g;
                dimensional(&mut e2);
                let qm = results(m, &e2);
                b = b.raw("m", &obj(&qm));
                if let Some(f) = value(&qm, "nondimensional_force") {
                    e2.nondimensional_force = f;
                    dimensional(&mut e2);
                    b = b.raw("b", &obj(&results(t, &e2)));
                }
            }
            out.line(&b.end());
        }
    }
}

fn controlled(p: &str) -> &'static str {
    if p.contains("modified_canonical") { "nondimensional_potential_distance" } else if p.contains("isotensional") { "nondimensional_force" } else { "nondimensional_end_to_end_length_per_link" }
}
/// Loading paths: from a state through steps up and down, each with a midpoint, and back to the first state.
pub fn load(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 20) as usize;
    let re = o.s("mods", "");
    let mut out = o.out();
    for m in MODULES {
        if !re.is_empty() && !re.split(',').any(|x| m.path.starts_with(x)) { continue }
        if m.path.starts_with("swfjc") && false { continue }
        for i in 0..count {
            let mut e = sample(&mut r, m.path, i);
            let c = controlled(m.path);
            let wlc = m.path.starts_with("wlc/thermodynamics/isotensional");
            if wlc { while e.nondimensional_force > 95.0 { control(&mut r, m.path, &mut e) } }
            if m.path.contains("weak_potential") { e.nondimensional_potential_stiffness *= 0.5; dimensional(&mut e); }
            // (stiffer potentials are not resolved by the library's grid, see the known findings)
            if m.path == "fjc/thermodynamics/modified_canonical" {
                let n = e.number_of_links as f64;
                e.nondimensional_potential_stiffness = e.nondimensional_potential_stiffness.min(600.0 / n / n); dimensional(&mut e);
            }
            let x0 = e.get(c);
            let hi = if wlc { 99.0 } else if c == "nondimensional_force" { (x0 * 3.0).min(0.95 * emax(m.path, &e)).min(600.0 / (1.0 + e.well_width / e.link_length)) }
                     else if m.path.starts_with("efjc") || m.path.starts_with("ufjc") { x0 * (1.0 + 1e-3) }
                     else if m.path.starts_with("swfjc") { 0.985 * (1.0 + e.well_width / e.link_length) }
                     else if m.path.starts_with("ideal") || m.path.contains("weak_potential") { x0 * 2.0 } else { 0.985f64.max(x0) };
            let lo = x0 * 0.3;
            out.line(&event(m, &e, "r", "begin", true));
            let mut x = x0;
            for k in 0..4 {
                let y = if k == 3 { x0 } else {
                    let h = match r.below(3) { 0 => 1e-3, 1 => r.lu(1e-3, 1e-2), _ => r.lu(1e-2, 0.5) };
                    let up = x * (1.0 + h);
                    if (r.chance(0.6) && up < hi) || x / (1.0 + h) < lo { if up < hi { up } else { x * (1.0 - 1e-3) } } else { x / (1.0 + h) }
                };
                e.set(c, 0.5 * (x + y)); dimensional(&mut e);
                out.line(&event(m, &e, "r", "mid", false));
                e.set(c, y); dimensional(&mut e);
                out.line(&event(m, &e, "r", if k == 3 { "close" } else { "step" }, false));
                x = y;
            }
        }
    }
}

/// Histories of objects: constructions of models (the structure itself, or the whole hierarchy it is part of),
/// interleaved with calls of all their methods, some of them repeated.
pub fn objects(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 2) as usize;
    let re = o.s("mods", "");
    let mut out = o.out();
    let mods: Vec<&'static Module> = MODULES.iter().filter(|m| re.is_empty() || re.split(',').any(|x| m.path.starts_with(x))).collect();
    for i in 0..count * mods.len() {
        // three live objects: two of one module, one of another
        let m0 = mods[i % mods.len()];
        let ms = [m0, m0, mods[r.below(mods.len())]];
        let mut live: Vec<(crate::Obj, Env, &'static Module)> = Vec::new();
        let mut last: Vec<Option<Env>> = vec![None; 3];
        let mut k = 0;
        while k < 10 {
            k += 1;
            let n = live.len();
            if n < 3 && (n == 0 || k % 3 == 0) {
                let m = ms[n];
                let mut e = if n == 1 && r.chance(0.6) { variation(&mut r, m.path, i, &live[0].1) } else { sample(&mut r, m.path, i + n) };
                // the whole hierarchy is constructed: its other members limit the number of links
                if m.path.starts_with("fjc") { e.number_of_links = e.number_of_links.min(40); dimensional(&mut e); }
                let deep = r.chance(0.5);
                let b = guard_any(|| if deep { (m.deep)(&e) } else { (m.leaf)(&e) });
                let mut q = Obj::new();
                for f in m.fields { q = q.v(f, match &b { None => V::Panic, Some(b) => guard(|| b(&format!("field:{}", f), &e).unwrap()) }); }
                // the object's normalisation, from one evaluation
                let mut names: Vec<&str> = all_args(m); names.retain(|x| !x.starts_with("nondimensional_end") && *x != "end_to_end_length");
                if let Some(b) = &b { normalise(m, b, &mut e); }
                out.line(&Obj::new().i("s", (n == 0) as i64).s("tag", "create").s("mod", m.path).i("id", n as i64 + 1).i("deep", deep as i64).raw("a", &args_json(&e, &names)).raw("f", &q.end()).end());
                match b { Some(b) => live.push((b, e, m)), None => break }
                continue;
            }
            let j = r.below(n);
            let (b, e0, m) = &live[j];
            let again = last[j].is_some() && r.chance(0.3);
            let e = if again { last[j].clone().unwrap() } else {
                let mut e = e0.clone();
                // another temperature, with the dimensional parameters of the object
                e.temperature *= r.u(0.8, 1.25);
                let kt = KB * e.temperature;
                e.nondimensional_link_stiffness = e.link_stiffness * e.link_length * e.link_length / kt;
                e.nondimensional_link_energy = e.link_energy / kt;
                control(&mut r, m.path, &mut e);
                e.link_stiffness = e0.link_stiffness; e.link_energy = e0.link_energy; e.persistance_length = e0.persistance_length;
                e
            };
            last[j] = Some(e.clone());
            let mut q = Obj::new();
            for (f, _) in m.methods { q = q.v(f, guard(|| b(f, &e).unwrap())); }
            out.line(&Obj::new().i("s", 0).s("tag", if again { "again" } else { "call" }).s("mod", m.path).i("id", j as i64 + 1).raw("a", &args_json(&e, &all_args(m)))
                .raw("r", &obj(&results(m, &e))).raw("m", &q.end()).end());
        }
    }
}
/// Sets the normalisation of the equilibrium distribution to that of an object.
pub fn normalise(m: &Module, b: &crate::Obj, e: &mut Env) {
    if !m.funs.iter().any(|f| f.name == "nondimensional_equilibrium_distribution" && f.args.contains(&"normalization_nondimensional_equilibrium_distribution")) { return }
    let f = m.funs.iter().find(|f| f.name == "nondimensional_equilibrium_distribution").unwrap();
    let mut x = e.clone();
    x.normalization_nondimensional_equilibrium_distribution = 1.0;
    // where the distribution is neither small nor large
    let top = if m.path.starts_with("swfjc") { 1.0 + e.well_width / e.link_length } else { 1.0 };
    let mut best = (0.0, 1.0);
    for k in 1..40 {
        x.nondimensional_end_to_end_length_per_link = top * k as f64 / 41.0;
        dimensional(&mut x);
        if let V::N(p) = guard(|| (f.free)(&x)) { if p.is_finite() && p > best.0 { if let V::N(q) = guard(|| b(f.name, &x).unwrap()) { best = (p, p / q); } } }
    }
    e.normalization_nondimensional_equilibrium_distribution = best.1;
}

/// Equilibrium distributions of interleaved objects over their support.
pub fn dist(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 6) as usize;
    let mut out = o.out();
    for (tag, m, e) in probes(o) {
        let b = guard_any(|| (m.leaf)(&e));
        out.line(&distribution(m, &b, &e, &tag));
    }
    if o.kv.contains_key("file") { return }
    for m in MODULES {
        if !m.methods.iter().any(|f| f.0 == "nondimensional_equilibrium_distribution") { continue }
        for i in 0..count {
            let mut es = vec![sample(&mut r, m.path, i)];
            let e = if r.chance(0.5) { variation(&mut r, m.path, i, &es[0]) } else { sample(&mut r, m.path, i + 1) };
            es.push(e);
            let mut bs = Vec::new();
            for e in es.iter_mut() {
                if m.path.starts_with("fjc") { e.number_of_links = e.number_of_links.min(40) }
                if m.path.starts_with("swfjc") {
                    // the normalisation must not overflow (known finding)
                    let w = 1.0 + e.well_width / e.link_length;
                    let x = ((w * w * w - 1.0) / 3.0).ln().abs();
                    e.number_of_links = e.number_of_links.min((600.0 / x).min(255.0) as u8);
                }
                let deep = r.chance(0.5);
                bs.push(guard_any(|| if deep { (m.deep)(e) } else { (m.leaf)(e) }));
            }
            // evaluated after both have been constructed, the first one first
            for (b, e) in bs.iter().zip(es.iter()) { out.line(&distribution(m, b, e, "distribution")); }
        }
    }
}
fn distribution(m: &Module, b: &Option<crate::Obj>, e: &Env, tag: &str) -> String {
    let n = e.number_of_links as f64;
    let exact = m.path == "fjc/thermodynamics/isometric";
    let (lo, hi, points) = if m.path.starts_with("ideal") { (0.0, 6.0 / n.sqrt(), 60) }
        else if m.path.starts_with("swfjc") { (1e-6, 1.0 + e.well_width / e.link_length, 64) }
        else if exact { (0.0, 1.0, 240) } else { (1e-6, 1.0, 64) };
    let w = (hi - lo) / points as f64;
    let mut x = e.clone();
    let (mut gs, mut ps, mut qs, mut hs, mut pd, mut qd) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    for k in 0..points {
        x.nondimensional_end_to_end_length_per_link = lo + (k as f64 + 0.5) * w;
        dimensional(&mut x);
        let f = |n: &str| match b { None => V::Panic, Some(b) => guard(|| b(n, &x).unwrap_or(f64::NAN)) };
        gs.push(val(V::N(x.nondimensional_end_to_end_length_per_link)));
        ps.push(val(f("nondimensional_equilibrium_distribution")));
        qs.push(val(f("nondimensional_equilibrium_radial_distribution")));
        if k % 5 == 2 {
            hs.push(val(f("nondimensional_relative_helmholtz_free_energy")));
            pd.push(val(f("equilibrium_distribution")));
            qd.push(val(f("equilibrium_radial_distribution")));
        }
    }
    let names: Vec<&str> = all_args(m).into_iter().filter(|x| !x.starts_with("nondimensional_end") && *x != "end_to_end_length" && !x.starts_with("normal")).collect();
    let arr = |v: &Vec<String>| format!("[{}]", v.join(","));
    Obj::new().i("s", 1).s("tag", tag).s("mod", m.path).raw("a", &args_json(e, &names)).r("w", w)
        .raw("g", &arr(&gs)).raw("p", &arr(&ps)).raw("q", &arr(&qs)).raw("h", &arr(&hs)).raw("pd", &arr(&pd)).raw("qd", &arr(&qd)).end()
}

/// The exact freely jointed chain: every number of links, at random lengths and around the seams of its piecewise polynomial.
pub fn shell(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 6) as usize;
    let mut out = o.out();
    let m = module("fjc/thermodynamics/isometric").unwrap();
    for n in 2..=o.u("links", 56) as u8 {
        for i in 0..count {
            let mut e = sample(&mut r, m.path, i);
            e.number_of_links = n;
            let nf = n as f64;
            let s = r.below(n as usize / 2 + 1) as f64;
            let seam = (nf - 2.0 * s) / nf;
            let d = r.pick(&[0.0, 1e-12, -1e-12, 1e-7, -1e-7, 1e-3, -1e-3]);
            let g = match i % 3 { 0 => seam + d, 1 => r.u(0.02, 0.999), _ => 1.0 - r.lu(1e-4, 0.3) };
            if g > 2e-3 && g < 0.9999 { e.nondimensional_end_to_end_length_per_link = g; }
            dimensional(&mut e);
            out.line(&event(m, &e, "r", "shell", out.n % 16 == 0));
        }
    }
    // full extension and beyond
    for n in [2u8, 3, 4, 5, 8, 13, 25, 26, 40, 100, 255] {
        for g in [1.0, 1.0 + 1e-15, 1.0 + r.lu(1e-9, 1e-2), 1.0 + r.lu(1e-2, 10.0)] {
            let mut e = sample(&mut r, m.path, 0);
            e.number_of_links = n;
            e.nondimensional_end_to_end_length_per_link = g;
            dimensional(&mut e);
            out.line(&event(m, &e, "r", "beyond", out.n % 16 == 0));
        }
    }
    // longer chains (small extensions of which are noise, see the known findings)
    for n in o.u("links", 56) as u8 + 1..=255 {
        for i in 0..(count + 8) / 12 {
            let mut e = sample(&mut r, m.path, i);
            e.number_of_links = n;
            let nf = n as f64;
            let s = r.below(n as usize / 4 + 1) as f64;
            let d = r.pick(&[0.0, 1e-12, -1e-12, 1e-5, -1e-5]);
            let g = match i % 3 { 0 => (nf - 2.0 * s) / nf + d, 1 => r.u(0.3, 0.999), _ => 1.0 - r.lu(1e-4, 0.4) };
            if g > 0.3 && g < 0.9999 { e.nondimensional_end_to_end_length_per_link = g; } else { e.nondimensional_end_to_end_length_per_link = r.u(0.4, 0.99); }
            dimensional(&mut e);
            out.line(&event(m, &e, "r", "shell", out.n % 16 == 0));
        }
    }
}

/// Sweeps of the potential stiffness: towards the isometric ensemble (stiff) and towards the isotensional one (soft).
pub fn modified(o: &Opts) {
    let mut r = o.rng();
    let count = o.u("count", 20) as usize;
    let mut out = o.out();
    let p = "fjc/thermodynamics/modified_canonical";
    let c = module(p).unwrap();
    let st = module(&format!("{}/asymptotic/strong_potential", p)).unwrap();
    let wk = module(&format!("{}/asymptotic/weak_potential", p)).unwrap();
    let im = module("fjc/thermodynamics/isometric").unwrap();
    let it = module("fjc/thermodynamics/isotensional").unwrap();
    for i in 0..count {
        let mut e = sample(&mut r, p, i);
        e.number_of_links = r.pick(&[5, 6, 7, 8, 9, 10, 12, 14, 16, 20]);
        let n = e.number_of_links as f64;
        let stiff = i % 2 == 0;
        let mut d = r.u(0.15, 0.85);
        let f0 = r.lu(0.3, 8.0);
        let mut om = if stiff { r.u(40.0, 60.0) / n / n } else { r.u(0.5, 1.0) / n };
        let f = f0.min((900.0 * om / 16.0).sqrt());
        for k in 0..5 {
            if !stiff { d = f / n / om; }
            e.nondimensional_potential_stiffness = om;
            e.nondimensional_potential_distance = d;
            e.nondimensional_end_to_end_length_per_link = d;
            e.nondimensional_force = n * om * d;
            dimensional(&mut e);
            let b = Obj::new().i("s", (k == 0) as i64).s("tag", if stiff { "stiffen" } else { "soften" }).s("mod", p).s("my", if stiff { st.path } else { wk.path }).raw("a", &args_json(&e, &all_args(c))).raw("r", &obj(&results(c, &e)));
            let b = if stiff { b.raw("y", &obj(&results(st, &e))).raw("z", &obj(&results(im, &e))) } else { b.raw("y", &obj(&results(wk, &e))).raw("z", &obj(&results(it, &e))) };
            out.line(&b.end());
            om *= if stiff { 2.0 } else { 0.5 };
        }
    }
}
