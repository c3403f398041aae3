//! Hints for the generators: numbers that occur in the library's source (file HINTS: lines "SOURCE-FILE NUMBER").
//! They only direct sampling, to where the code might change its behaviour; they are not judged.
use crate::api::{dimensional, valid};
use crate::env::Env;
use crate::util::*;
use std::sync::OnceLock;

fn all() -> &'static Vec<(String, f64)> {
    static H: OnceLock<Vec<(String, f64)>> = OnceLock::new();
    H.get_or_init(|| {
        let f = std::env::var("HINTS").unwrap_or_default();
        std::fs::read_to_string(f).unwrap_or_default().lines().filter_map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some((a.to_string(), b.parse().ok()?))
        }).collect()
    })
}
/// Those from the sources that a module is related to.
pub fn of(p: &str) -> Vec<f64> {
    let fam = p.split('/').next().unwrap_or("");
    all().iter().filter(|(f, _)| {
        let d = f.trim_end_matches(".rs").trim_end_matches("/mod").trim_end_matches("mod");
        let d = d.strip_prefix("physics/single_chain").map(|x| x.trim_start_matches('/')).unwrap_or(if d.starts_with("constitutive") { d } else { "" });
        d.is_empty() || d.starts_with(&format!("{}/", fam)) || d == fam || p.starts_with(d)
    }).map(|x| x.1).collect()
}
/// A value at, near, or between hints.
pub fn value(r: &mut Rng, h: &[f64]) -> f64 {
    let v = r.pick(h);
    match r.below(8) {
        0 | 1 => v,
        2 => v * (1.0 + r.lu(1e-9, 1e-2)),
        3 => v * (1.0 - r.lu(1e-9, 1e-2)),
        4 => v * (1.0 + r.lu(1e-3, 0.3)),
        5 => v * (1.0 - r.lu(1e-3, 0.3)),
        _ => { let w = r.pick(h); r.u(v.min(w), v.max(w)) }
    }
}
/// Replaces some of the values that a generator chose by hints, within the given domain.
pub fn or(r: &mut Rng, p: &str, x: f64, lo: f64, hi: f64) -> f64 {
    let h = of(p);
    if h.is_empty() || !r.chance(0.3) { return x }
    for _ in 0..12 {
        let v = value(r, &h) * if lo < 0.0 && r.chance(0.4) { -1.0 } else { 1.0 };
        if v >= lo && v <= hi { return v }
    }
    x
}
pub fn or_int(r: &mut Rng, p: &str, x: usize, lo: usize, hi: usize) -> usize {
    let v = or(r, p, x as f64, lo as f64, hi as f64).round() + if of(p).is_empty() { 0.0 } else { r.pick(&[-1.0, 0.0, 0.0, 1.0]) };
    if v >= lo as f64 && v <= hi as f64 { v as usize } else { x }
}
fn set(r: &mut Rng, e: &mut Env, n: &str, v: f64) {
    let kt = KB * e.temperature;
    match n {
        "number_of_links" => e.number_of_links = (v.round().min(300.0) + r.pick(&[-1.0, 0.0, 0.0, 1.0])).clamp(1.0, 255.0) as u8,
        // lengths, forces and energies: by the choice of units
        "end_to_end_length" | "persistance_length" | "potential_distance" | "well_width" | "link_length" => {
            let x = v / if n == "link_length" { e.link_length } else { e.get(n) };
            if x > 0.0 && x.is_finite() { e.link_length *= x; e.well_width *= x; }
        }
        "link_energy" => { let x = v / e.link_energy; if x > 0.0 && x.is_finite() { e.temperature *= x; } }
        "force" => { let x = v / e.force; if x > 0.0 && x.is_finite() { if r.chance(0.5) { e.temperature *= x; } else { e.link_length /= x; e.well_width /= x; } } }
        "link_stiffness" | "potential_stiffness" => { let x = v / e.get(n); if x > 0.0 && x.is_finite() { if r.chance(0.5) { e.temperature *= x; } else { e.link_length /= x.sqrt(); e.well_width /= x.sqrt(); } } }
        "relative_well_width" => e.well_width = v * e.link_length,
        "kt" => e.temperature *= v / kt,
        _ => e.set(n, v),
    }
}
const KB: f64 = crate::api::KB;
/// Moves some arguments of a state to hints, if that stays in the domain of the model.
pub fn apply(r: &mut Rng, p: &str, e: &mut Env, names: &[&str]) {
    let h = of(p);
    if h.is_empty() || !r.chance(0.6) { return }
    for _ in 0..if r.chance(0.35) { 2 } else { 1 } {
        for _ in 0..12 {
            let mut x = e.clone();
            let v = value(r, &h);
            let n = r.pick(names);
            set(r, &mut x, n, v);
            dimensional(&mut x);
            if valid(p, &x) { *e = x; break }
        }
    }
}
pub const PARAMETERS: &[&str] = &["number_of_links", "number_of_links", "temperature", "hinge_mass", "link_length", "nondimensional_link_stiffness", "nondimensional_link_energy",
    "nondimensional_persistance_length", "relative_well_width", "well_width", "link_stiffness", "link_energy", "persistance_length", "kt"];
pub const CONTROLS: &[&str] = &["nondimensional_force", "nondimensional_force", "nondimensional_end_to_end_length_per_link", "nondimensional_end_to_end_length_per_link", "nondimensional_potential_distance", "nondimensional_potential_stiffness"];
pub const UNITS: &[&str] = &["force", "end_to_end_length", "potential_distance", "potential_stiffness"];
