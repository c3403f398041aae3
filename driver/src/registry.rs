// Generated by gen_registry.py from the public signatures of the library.
#![allow(clippy::all)]
use crate::env::Env;
use crate::{Fun, Module};
use polymers::physics::single_chain as sc;

fn call_efjc_thermodynamics_isometric_asymptotic_alternative_legendre(o: &sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isometric_asymptotic_legendre(o: &sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isometric_asymptotic_reduced_legendre(o: &sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional(o: &sc::efjc::thermodynamics::isotensional::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_asymptotic(o: &sc::efjc::thermodynamics::isotensional::asymptotic::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_asymptotic_alternative(o: &sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre(o: &sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_asymptotic_legendre(o: &sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_asymptotic_reduced(o: &sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre(o: &sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_efjc_thermodynamics_isotensional_legendre(o: &sc::efjc::thermodynamics::isotensional::legendre::EFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_isometric(o: &sc::fjc::thermodynamics::isometric::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_distribution" => o.equilibrium_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_distribution" => o.nondimensional_equilibrium_distribution(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_radial_distribution" => o.equilibrium_radial_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_radial_distribution" => o.nondimensional_equilibrium_radial_distribution(&e.nondimensional_end_to_end_length_per_link),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_isometric_legendre(o: &sc::fjc::thermodynamics::isometric::legendre::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_distribution" => o.equilibrium_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_distribution" => o.nondimensional_equilibrium_distribution(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_radial_distribution" => o.equilibrium_radial_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_radial_distribution" => o.nondimensional_equilibrium_radial_distribution(&e.nondimensional_end_to_end_length_per_link),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.end_to_end_length, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_isotensional(o: &sc::fjc::thermodynamics::isotensional::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_isotensional_legendre(o: &sc::fjc::thermodynamics::isotensional::legendre::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_modified_canonical(o: &sc::fjc::thermodynamics::modified_canonical::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "force" => o.force(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential(o: &sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential(o: &sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "force" => o.force(&e.potential_distance, &e.potential_stiffness),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.potential_distance, &e.potential_stiffness, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_ideal_thermodynamics_isometric(o: &sc::ideal::thermodynamics::isometric::Ideal, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_distribution" => o.equilibrium_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_distribution" => o.nondimensional_equilibrium_distribution(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_radial_distribution" => o.equilibrium_radial_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_radial_distribution" => o.nondimensional_equilibrium_radial_distribution(&e.nondimensional_end_to_end_length_per_link),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_ideal_thermodynamics_isotensional(o: &sc::ideal::thermodynamics::isotensional::Ideal, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        _ => return None,
    })
}
fn call_swfjc_thermodynamics_isometric_legendre(o: &sc::swfjc::thermodynamics::isometric::legendre::SWFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_distribution" => o.equilibrium_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_distribution" => o.nondimensional_equilibrium_distribution(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_radial_distribution" => o.equilibrium_radial_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_radial_distribution" => o.nondimensional_equilibrium_radial_distribution(&e.nondimensional_end_to_end_length_per_link),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:well_width" => o.well_width as f64,
        _ => return None,
    })
}
fn call_swfjc_thermodynamics_isotensional(o: &sc::swfjc::thermodynamics::isotensional::SWFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:well_width" => o.well_width as f64,
        _ => return None,
    })
}
fn call_swfjc_thermodynamics_isotensional_legendre(o: &sc::swfjc::thermodynamics::isotensional::legendre::SWFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:well_width" => o.well_width as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre(o: &sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre(o: &sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isotensional(o: &sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic(o: &sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre(o: &sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced(o: &sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre(o: &sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_lennard_jones_thermodynamics_isotensional_legendre(o: &sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre(o: &sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre(o: &sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isotensional(o: &sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isotensional_asymptotic(o: &sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre(o: &sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced(o: &sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre(o: &sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_log_squared_thermodynamics_isotensional_legendre(o: &sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isometric_asymptotic_legendre(o: &sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre(o: &sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isotensional(o: &sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isotensional_asymptotic(o: &sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre(o: &sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced(o: &sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force, &e.temperature),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force, &e.temperature),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre(o: &sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_ufjc_morse_thermodynamics_isotensional_legendre(o: &sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:link_stiffness" => o.link_stiffness as f64,
        "field:link_energy" => o.link_energy as f64,
        _ => return None,
    })
}
fn call_wlc_thermodynamics_isometric(o: &sc::wlc::thermodynamics::isometric::WLC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "force" => o.force(&e.end_to_end_length, &e.temperature),
        "nondimensional_force" => o.nondimensional_force(&e.nondimensional_end_to_end_length_per_link),
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_distribution" => o.equilibrium_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_distribution" => o.nondimensional_equilibrium_distribution(&e.nondimensional_end_to_end_length_per_link),
        "equilibrium_radial_distribution" => o.equilibrium_radial_distribution(&e.end_to_end_length),
        "nondimensional_equilibrium_radial_distribution" => o.nondimensional_equilibrium_radial_distribution(&e.nondimensional_end_to_end_length_per_link),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:persistance_length" => o.persistance_length as f64,
        _ => return None,
    })
}
fn call_wlc_thermodynamics_isometric_legendre(o: &sc::wlc::thermodynamics::isometric::legendre::WLC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "gibbs_free_energy" => o.gibbs_free_energy(&e.end_to_end_length, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.end_to_end_length, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.end_to_end_length, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_end_to_end_length_per_link),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:persistance_length" => o.persistance_length as f64,
        _ => return None,
    })
}
fn call_wlc_thermodynamics_isotensional(o: &sc::wlc::thermodynamics::isotensional::WLC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "end_to_end_length" => o.end_to_end_length(&e.force, &e.temperature),
        "end_to_end_length_per_link" => o.end_to_end_length_per_link(&e.force, &e.temperature),
        "nondimensional_end_to_end_length" => o.nondimensional_end_to_end_length(&e.nondimensional_force),
        "nondimensional_end_to_end_length_per_link" => o.nondimensional_end_to_end_length_per_link(&e.nondimensional_force),
        "gibbs_free_energy" => o.gibbs_free_energy(&e.force, &e.temperature),
        "gibbs_free_energy_per_link" => o.gibbs_free_energy_per_link(&e.force, &e.temperature),
        "relative_gibbs_free_energy" => o.relative_gibbs_free_energy(&e.force, &e.temperature),
        "relative_gibbs_free_energy_per_link" => o.relative_gibbs_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_gibbs_free_energy" => o.nondimensional_gibbs_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_gibbs_free_energy_per_link" => o.nondimensional_gibbs_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_gibbs_free_energy" => o.nondimensional_relative_gibbs_free_energy(&e.nondimensional_force),
        "nondimensional_relative_gibbs_free_energy_per_link" => o.nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:persistance_length" => o.persistance_length as f64,
        _ => return None,
    })
}
fn call_wlc_thermodynamics_isotensional_legendre(o: &sc::wlc::thermodynamics::isotensional::legendre::WLC, n: &str, e: &Env) -> Option<f64> {
    Some(match n {
        "helmholtz_free_energy" => o.helmholtz_free_energy(&e.force, &e.temperature),
        "helmholtz_free_energy_per_link" => o.helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "relative_helmholtz_free_energy" => o.relative_helmholtz_free_energy(&e.force, &e.temperature),
        "relative_helmholtz_free_energy_per_link" => o.relative_helmholtz_free_energy_per_link(&e.force, &e.temperature),
        "nondimensional_helmholtz_free_energy" => o.nondimensional_helmholtz_free_energy(&e.nondimensional_force, &e.temperature),
        "nondimensional_helmholtz_free_energy_per_link" => o.nondimensional_helmholtz_free_energy_per_link(&e.nondimensional_force, &e.temperature),
        "nondimensional_relative_helmholtz_free_energy" => o.nondimensional_relative_helmholtz_free_energy(&e.nondimensional_force),
        "nondimensional_relative_helmholtz_free_energy_per_link" => o.nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force),
        "field:hinge_mass" => o.hinge_mass as f64,
        "field:link_length" => o.link_length as f64,
        "field:number_of_links" => o.number_of_links as f64,
        "field:persistance_length" => o.persistance_length as f64,
        _ => return None,
    })
}
pub static MODULES: &[Module] = &[
    Module { path: "efjc/thermodynamics/isometric/asymptotic/alternative/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isometric_asymptotic_alternative_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isometric_asymptotic_alternative_legendre(&o.thermodynamics.isometric.asymptotic.alternative.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "efjc/thermodynamics/isometric/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isometric_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isometric_asymptotic_legendre(&o.thermodynamics.isometric.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "efjc/thermodynamics/isometric/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isometric_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isometric_asymptotic_reduced_legendre(&o.thermodynamics.isometric.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::ex::physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/asymptotic", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic(&o.thermodynamics.isotensional.asymptotic, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/asymptotic/alternative", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_alternative(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_alternative(&o.thermodynamics.isotensional.asymptotic.alternative, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre(&o.thermodynamics.isotensional.asymptotic.alternative.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_legendre(&o.thermodynamics.isotensional.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/asymptotic/reduced", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_reduced(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_reduced(&o.thermodynamics.isotensional.asymptotic.reduced, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre(&o.thermodynamics.isotensional.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "efjc/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::efjc::thermodynamics::isotensional::legendre::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_efjc_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::efjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "fjc/thermodynamics/isometric", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_distribution", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_radial_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_radial_distribution", &["nondimensional_end_to_end_length_per_link"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::isometric::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isometric(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isometric(&o.thermodynamics.isometric, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::force(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_force(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_force(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_force(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_distribution", args: &["number_of_links", "link_length", "end_to_end_length"], free: |e| sc::fjc::thermodynamics::isometric::equilibrium_distribution(&e.number_of_links, &e.link_length, &e.end_to_end_length), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_equilibrium_distribution(e.number_of_links, e.link_length, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_distribution", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_distribution(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_radial_distribution", args: &["number_of_links", "link_length", "end_to_end_length"], free: |e| sc::fjc::thermodynamics::isometric::equilibrium_radial_distribution(&e.number_of_links, &e.link_length, &e.end_to_end_length), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_equilibrium_radial_distribution(e.number_of_links, e.link_length, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_radial_distribution", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::ex::physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "fjc/thermodynamics/isometric/legendre", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_distribution", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_radial_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_radial_distribution", &["nondimensional_end_to_end_length_per_link"]), ("gibbs_free_energy", &["end_to_end_length", "temperature"]), ("gibbs_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_gibbs_free_energy", &["end_to_end_length", "temperature"]), ("relative_gibbs_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::isometric::legendre::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isometric_legendre(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isometric_legendre(&o.thermodynamics.isometric.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::force(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_force(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_force(&e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_force(e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_distribution", args: &["number_of_links", "link_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], free: |e| sc::fjc::thermodynamics::isometric::legendre::equilibrium_distribution(&e.number_of_links, &e.link_length, &e.normalization_nondimensional_equilibrium_distribution, &e.end_to_end_length), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_distribution(e.number_of_links, e.link_length, e.normalization_nondimensional_equilibrium_distribution, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_distribution", args: &["number_of_links", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&e.number_of_links, &e.normalization_nondimensional_equilibrium_distribution, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution(e.number_of_links, e.normalization_nondimensional_equilibrium_distribution, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_radial_distribution", args: &["number_of_links", "link_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], free: |e| sc::fjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&e.number_of_links, &e.link_length, &e.normalization_nondimensional_equilibrium_distribution, &e.end_to_end_length), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution(e.number_of_links, e.link_length, e.normalization_nondimensional_equilibrium_distribution, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_radial_distribution", args: &["number_of_links", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&e.number_of_links, &e.normalization_nondimensional_equilibrium_distribution, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution(e.number_of_links, e.normalization_nondimensional_equilibrium_distribution, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::fjc::thermodynamics::isometric::legendre::ex::physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "fjc/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::isotensional::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_force"], free: |e| sc::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_force), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_force"], free: |e| sc::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.nondimensional_force), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_force"], free: |e| sc::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_force), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_force"], free: |e| sc::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force), ext: Some(|e| sc::fjc::thermodynamics::isotensional::ex::physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_force)) },
      ] },
    Module { path: "fjc/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::isotensional::legendre::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_force", "temperature"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_force"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_force), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_force"], free: |e| sc::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_force), ext: Some(|e| sc::fjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_force)) },
      ] },
    Module { path: "fjc/thermodynamics/modified_canonical", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("end_to_end_length", &["potential_distance", "potential_stiffness", "temperature"]), ("end_to_end_length_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("force", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_force", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("helmholtz_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("helmholtz_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_helmholtz_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("gibbs_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("gibbs_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_gibbs_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_gibbs_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::modified_canonical::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_modified_canonical(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_modified_canonical(&o.thermodynamics.modified_canonical, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::end_to_end_length(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::end_to_end_length_per_link(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length_per_link(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length_per_link(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length_per_link(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "force", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::force(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_force(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_force(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_force(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy_per_link(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy_per_link(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy_per_link(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
      ] },
    Module { path: "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("force", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_force", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("helmholtz_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("helmholtz_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_helmholtz_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential(&o.thermodynamics.modified_canonical.asymptotic.strong_potential, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::force(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_force(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_force(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_force(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy_per_link(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
      ] },
    Module { path: "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("end_to_end_length", &["potential_distance", "potential_stiffness", "temperature"]), ("end_to_end_length_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("force", &["potential_distance", "potential_stiffness"]), ("nondimensional_force", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("gibbs_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("gibbs_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_gibbs_free_energy", &["potential_distance", "potential_stiffness", "temperature"]), ("relative_gibbs_free_energy_per_link", &["potential_distance", "potential_stiffness", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_potential_distance", "nondimensional_potential_stiffness"])],
      leaf: |e| { let o = sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential(&o, n, e)) },
      deep: |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential(&o.thermodynamics.modified_canonical.asymptotic.weak_potential, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length_per_link(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length_per_link(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length_per_link(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length_per_link(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "force", args: &["potential_distance", "potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::force(&e.potential_distance, &e.potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_force(e.potential_distance, e.potential_stiffness)) },
        Fun { name: "nondimensional_force", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_force(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_force(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "potential_distance", "potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.potential_distance, &e.potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.potential_distance, e.potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_potential_distance", "nondimensional_potential_stiffness", "temperature"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness, &e.temperature), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["number_of_links", "nondimensional_potential_distance", "nondimensional_potential_stiffness"], free: |e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy_per_link(&e.number_of_links, &e.nondimensional_potential_distance, &e.nondimensional_potential_stiffness), ext: Some(|e| sc::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::ex::physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy_per_link(e.number_of_links, e.nondimensional_potential_distance, e.nondimensional_potential_stiffness)) },
      ] },
    Module { path: "ideal/thermodynamics/isometric", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_distribution", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_radial_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_radial_distribution", &["nondimensional_end_to_end_length_per_link"])],
      leaf: |e| { let o = sc::ideal::thermodynamics::isometric::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_ideal_thermodynamics_isometric(&o, n, e)) },
      deep: |e| { let o = sc::ideal::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_ideal_thermodynamics_isometric(&o.thermodynamics.isometric, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::force(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_force(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_end_to_end_length_per_link"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_force(&e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_force(e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "end_to_end_length", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "end_to_end_length", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_end_to_end_length_per_link"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_distribution", args: &["number_of_links", "link_length", "end_to_end_length"], free: |e| sc::ideal::thermodynamics::isometric::equilibrium_distribution(&e.number_of_links, &e.link_length, &e.end_to_end_length), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_equilibrium_distribution(e.number_of_links, e.link_length, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_distribution", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_equilibrium_distribution(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_distribution(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_radial_distribution", args: &["number_of_links", "link_length", "end_to_end_length"], free: |e| sc::ideal::thermodynamics::isometric::equilibrium_radial_distribution(&e.number_of_links, &e.link_length, &e.end_to_end_length), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_equilibrium_radial_distribution(e.number_of_links, e.link_length, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_radial_distribution", args: &["number_of_links", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ideal::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&e.number_of_links, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ideal::thermodynamics::isometric::ex::physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(e.number_of_links, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ideal/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass"], fields: &["hinge_mass", "link_length", "number_of_links"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::ideal::thermodynamics::isotensional::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_ideal_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::ideal::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); Box::new(move |n, e| call_ideal_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_force"], free: |e| sc::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_force), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_force"], free: |e| sc::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.nondimensional_force), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_force", "temperature"], free: |e| sc::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_force"], free: |e| sc::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_force), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_force"], free: |e| sc::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_force), ext: Some(|e| sc::ideal::thermodynamics::isotensional::ex::physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_force)) },
      ] },
    Module { path: "swfjc/thermodynamics/isometric/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "well_width"], fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_distribution", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_radial_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_radial_distribution", &["nondimensional_end_to_end_length_per_link"])],
      leaf: |e| { let o = sc::swfjc::thermodynamics::isometric::legendre::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); Box::new(move |n, e| call_swfjc_thermodynamics_isometric_legendre(&o, n, e)) },
      deep: |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); Box::new(move |n, e| call_swfjc_thermodynamics_isometric_legendre(&o.thermodynamics.isometric.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "well_width", "end_to_end_length", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::force(&e.number_of_links, &e.link_length, &e.well_width, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_force(e.number_of_links, e.link_length, e.well_width, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["link_length", "well_width", "nondimensional_end_to_end_length_per_link"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_force(&e.link_length, &e.well_width, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_force(e.link_length, e.well_width, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "end_to_end_length", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "end_to_end_length", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "well_width", "end_to_end_length", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.well_width, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.well_width, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "well_width", "end_to_end_length", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.well_width, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.well_width, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "well_width", "nondimensional_end_to_end_length_per_link"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.well_width, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.well_width, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["link_length", "well_width", "nondimensional_end_to_end_length_per_link"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.link_length, &e.well_width, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.link_length, e.well_width, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_distribution", args: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::equilibrium_distribution(&e.number_of_links, &e.link_length, &e.well_width, &e.normalization_nondimensional_equilibrium_distribution, &e.end_to_end_length), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_distribution(e.number_of_links, e.link_length, e.well_width, e.normalization_nondimensional_equilibrium_distribution, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_distribution", args: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&e.number_of_links, &e.link_length, &e.well_width, &e.normalization_nondimensional_equilibrium_distribution, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution(e.number_of_links, e.link_length, e.well_width, e.normalization_nondimensional_equilibrium_distribution, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_radial_distribution", args: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&e.number_of_links, &e.link_length, &e.well_width, &e.normalization_nondimensional_equilibrium_distribution, &e.end_to_end_length), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution(e.number_of_links, e.link_length, e.well_width, e.normalization_nondimensional_equilibrium_distribution, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_radial_distribution", args: &["number_of_links", "link_length", "well_width", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], free: |e| sc::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&e.number_of_links, &e.link_length, &e.well_width, &e.normalization_nondimensional_equilibrium_distribution, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::swfjc::thermodynamics::isometric::legendre::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution(e.number_of_links, e.link_length, e.well_width, e.normalization_nondimensional_equilibrium_distribution, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "swfjc/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass", "well_width"], fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::swfjc::thermodynamics::isotensional::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); Box::new(move |n, e| call_swfjc_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); Box::new(move |n, e| call_swfjc_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.well_width, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.well_width, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "link_length", "well_width", "nondimensional_force"], free: |e| sc::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.link_length, &e.well_width, &e.nondimensional_force), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.link_length, e.well_width, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["link_length", "well_width", "nondimensional_force"], free: |e| sc::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.link_length, &e.well_width, &e.nondimensional_force), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.link_length, e.well_width, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.well_width, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.well_width, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.well_width, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.well_width, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.well_width, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "link_length", "well_width", "nondimensional_force"], free: |e| sc::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.well_width, &e.nondimensional_force), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.well_width, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["link_length", "well_width", "nondimensional_force"], free: |e| sc::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.link_length, &e.well_width, &e.nondimensional_force), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::ex::physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.link_length, e.well_width, e.nondimensional_force)) },
      ] },
    Module { path: "swfjc/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "well_width"], fields: &["hinge_mass", "link_length", "number_of_links", "well_width"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); Box::new(move |n, e| call_swfjc_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); Box::new(move |n, e| call_swfjc_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.well_width, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.well_width, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "well_width", "force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.well_width, &e.force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.well_width, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.well_width, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.well_width, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "well_width", "nondimensional_force", "temperature"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.well_width, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.well_width, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "well_width", "nondimensional_force"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.well_width, &e.nondimensional_force), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.well_width, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["link_length", "well_width", "nondimensional_force"], free: |e| sc::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.link_length, &e.well_width, &e.nondimensional_force), ext: Some(|e| sc::swfjc::thermodynamics::isotensional::legendre::ex::physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.link_length, e.well_width, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre(&o.thermodynamics.isometric.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre(&o.thermodynamics.isometric.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic(&o.thermodynamics.isotensional.asymptotic, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre(&o.thermodynamics.isotensional.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced(&o.thermodynamics.isotensional.asymptotic.reduced, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre(&o.thermodynamics.isotensional.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/lennard_jones/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_lennard_jones_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::lennard_jones::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre(&o.thermodynamics.isometric.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre(&o.thermodynamics.isometric.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "end_to_end_length", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isotensional/asymptotic", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic(&o.thermodynamics.isotensional.asymptotic, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre(&o.thermodynamics.isotensional.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced(&o.thermodynamics.isotensional.asymptotic.reduced, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre(&o.thermodynamics.isotensional.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/log_squared/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); Box::new(move |n, e| call_ufjc_log_squared_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_force", "temperature"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_force"], free: |e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_force), ext: Some(|e| sc::ufjc::log_squared::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isometric/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isometric_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isometric_asymptotic_legendre(&o.thermodynamics.isometric.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre(&o.thermodynamics.isometric.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::force(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_force(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "end_to_end_length", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_end_to_end_length_per_link"], free: |e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isotensional/asymptotic", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic(&o.thermodynamics.isotensional.asymptotic, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre(&o.thermodynamics.isotensional.asymptotic.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force", "temperature"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force", "temperature"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced(&o.thermodynamics.isotensional.asymptotic.reduced, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre(&o.thermodynamics.isotensional.asymptotic.reduced.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
      ] },
    Module { path: "ufjc/morse/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy"], fields: &["hinge_mass", "link_length", "number_of_links", "link_stiffness", "link_energy"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"])],
      leaf: |e| { let o = sc::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); Box::new(move |n, e| call_ufjc_morse_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["link_length", "link_stiffness", "link_energy", "force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.link_length, &e.link_stiffness, &e.link_energy, &e.force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.link_length, e.link_stiffness, e.link_energy, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["link_length", "hinge_mass", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force", "temperature"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.link_length, &e.hinge_mass, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.link_length, e.hinge_mass, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["nondimensional_link_stiffness", "nondimensional_link_energy", "nondimensional_force"], free: |e| sc::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.nondimensional_link_stiffness, &e.nondimensional_link_energy, &e.nondimensional_force), ext: Some(|e| sc::ufjc::morse::thermodynamics::isotensional::legendre::ex::physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.nondimensional_link_stiffness, e.nondimensional_link_energy, e.nondimensional_force)) },
      ] },
    Module { path: "wlc/thermodynamics/isometric", init_args: &["number_of_links", "link_length", "hinge_mass", "persistance_length"], fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], methods: &[("force", &["end_to_end_length", "temperature"]), ("nondimensional_force", &["nondimensional_end_to_end_length_per_link"]), ("helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy", &["end_to_end_length", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_distribution", &["nondimensional_end_to_end_length_per_link"]), ("equilibrium_radial_distribution", &["end_to_end_length"]), ("nondimensional_equilibrium_radial_distribution", &["nondimensional_end_to_end_length_per_link"])],
      leaf: |e| { let o = sc::wlc::thermodynamics::isometric::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isometric(&o, n, e)) },
      deep: |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isometric(&o.thermodynamics.isometric, n, e)) },
      funs: &[
        Fun { name: "force", args: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::force(&e.number_of_links, &e.link_length, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_force(e.number_of_links, e.link_length, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_force", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_force(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_force(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_distribution", args: &["number_of_links", "link_length", "persistance_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], free: |e| sc::wlc::thermodynamics::isometric::equilibrium_distribution(&e.number_of_links, &e.link_length, &e.persistance_length, &e.normalization_nondimensional_equilibrium_distribution, &e.end_to_end_length), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_equilibrium_distribution(e.number_of_links, e.link_length, e.persistance_length, e.normalization_nondimensional_equilibrium_distribution, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_distribution", args: &["nondimensional_persistance_length", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&e.nondimensional_persistance_length, &e.normalization_nondimensional_equilibrium_distribution, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_distribution(e.nondimensional_persistance_length, e.normalization_nondimensional_equilibrium_distribution, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "equilibrium_radial_distribution", args: &["number_of_links", "link_length", "persistance_length", "normalization_nondimensional_equilibrium_distribution", "end_to_end_length"], free: |e| sc::wlc::thermodynamics::isometric::equilibrium_radial_distribution(&e.number_of_links, &e.link_length, &e.persistance_length, &e.normalization_nondimensional_equilibrium_distribution, &e.end_to_end_length), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_equilibrium_radial_distribution(e.number_of_links, e.link_length, e.persistance_length, e.normalization_nondimensional_equilibrium_distribution, e.end_to_end_length)) },
        Fun { name: "nondimensional_equilibrium_radial_distribution", args: &["nondimensional_persistance_length", "normalization_nondimensional_equilibrium_distribution", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&e.nondimensional_persistance_length, &e.normalization_nondimensional_equilibrium_distribution, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::ex::physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(e.nondimensional_persistance_length, e.normalization_nondimensional_equilibrium_distribution, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "wlc/thermodynamics/isometric/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "persistance_length"], fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], methods: &[("gibbs_free_energy", &["end_to_end_length", "temperature"]), ("gibbs_free_energy_per_link", &["end_to_end_length", "temperature"]), ("relative_gibbs_free_energy", &["end_to_end_length", "temperature"]), ("relative_gibbs_free_energy_per_link", &["end_to_end_length", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_end_to_end_length_per_link", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_end_to_end_length_per_link"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_end_to_end_length_per_link"])],
      leaf: |e| { let o = sc::wlc::thermodynamics::isometric::legendre::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isometric_legendre(&o, n, e)) },
      deep: |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isometric_legendre(&o.thermodynamics.isometric.legendre, n, e)) },
      funs: &[
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::legendre::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "persistance_length", "end_to_end_length", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.persistance_length, &e.end_to_end_length, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.persistance_length, e.end_to_end_length, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link", "temperature"], free: |e| sc::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_end_to_end_length_per_link"], free: |e| sc::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_end_to_end_length_per_link), ext: Some(|e| sc::wlc::thermodynamics::isometric::legendre::ex::physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_end_to_end_length_per_link)) },
      ] },
    Module { path: "wlc/thermodynamics/isotensional", init_args: &["number_of_links", "link_length", "hinge_mass", "persistance_length"], fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], methods: &[("end_to_end_length", &["force", "temperature"]), ("end_to_end_length_per_link", &["force", "temperature"]), ("nondimensional_end_to_end_length", &["nondimensional_force"]), ("nondimensional_end_to_end_length_per_link", &["nondimensional_force"]), ("gibbs_free_energy", &["force", "temperature"]), ("gibbs_free_energy_per_link", &["force", "temperature"]), ("relative_gibbs_free_energy", &["force", "temperature"]), ("relative_gibbs_free_energy_per_link", &["force", "temperature"]), ("nondimensional_gibbs_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_gibbs_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_gibbs_free_energy", &["nondimensional_force"]), ("nondimensional_relative_gibbs_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::wlc::thermodynamics::isotensional::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isotensional(&o, n, e)) },
      deep: |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isotensional(&o.thermodynamics.isotensional, n, e)) },
      funs: &[
        Fun { name: "end_to_end_length", args: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::end_to_end_length(&e.number_of_links, &e.link_length, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length(e.number_of_links, e.link_length, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "end_to_end_length_per_link", args: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::end_to_end_length_per_link(&e.number_of_links, &e.link_length, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length_per_link(e.number_of_links, e.link_length, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_end_to_end_length", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], free: |e| sc::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_force), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_force)) },
        Fun { name: "nondimensional_end_to_end_length_per_link", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], free: |e| sc::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_force), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_force)) },
        Fun { name: "gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy", args: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::relative_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy(e.number_of_links, e.link_length, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "relative_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_gibbs_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], free: |e| sc::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_force), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_gibbs_free_energy_per_link", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], free: |e| sc::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_force), ext: Some(|e| sc::wlc::thermodynamics::isotensional::ex::physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_force)) },
      ] },
    Module { path: "wlc/thermodynamics/isotensional/legendre", init_args: &["number_of_links", "link_length", "hinge_mass", "persistance_length"], fields: &["hinge_mass", "link_length", "number_of_links", "persistance_length"], methods: &[("helmholtz_free_energy", &["force", "temperature"]), ("helmholtz_free_energy_per_link", &["force", "temperature"]), ("relative_helmholtz_free_energy", &["force", "temperature"]), ("relative_helmholtz_free_energy_per_link", &["force", "temperature"]), ("nondimensional_helmholtz_free_energy", &["nondimensional_force", "temperature"]), ("nondimensional_helmholtz_free_energy_per_link", &["nondimensional_force", "temperature"]), ("nondimensional_relative_helmholtz_free_energy", &["nondimensional_force"]), ("nondimensional_relative_helmholtz_free_energy_per_link", &["nondimensional_force"])],
      leaf: |e| { let o = sc::wlc::thermodynamics::isotensional::legendre::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isotensional_legendre(&o, n, e)) },
      deep: |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); Box::new(move |n, e| call_wlc_thermodynamics_isotensional_legendre(&o.thermodynamics.isotensional.legendre, n, e)) },
      funs: &[
        Fun { name: "helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy", args: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(e.number_of_links, e.link_length, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "relative_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "persistance_length", "force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.persistance_length, &e.force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.persistance_length, e.force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_helmholtz_free_energy_per_link", args: &["number_of_links", "link_length", "hinge_mass", "nondimensional_persistance_length", "nondimensional_force", "temperature"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&e.number_of_links, &e.link_length, &e.hinge_mass, &e.nondimensional_persistance_length, &e.nondimensional_force, &e.temperature), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(e.number_of_links, e.link_length, e.hinge_mass, e.nondimensional_persistance_length, e.nondimensional_force, e.temperature)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_force), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_force)) },
        Fun { name: "nondimensional_relative_helmholtz_free_energy_per_link", args: &["number_of_links", "nondimensional_persistance_length", "nondimensional_force"], free: |e| sc::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&e.number_of_links, &e.nondimensional_persistance_length, &e.nondimensional_force), ext: Some(|e| sc::wlc::thermodynamics::isotensional::legendre::ex::physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(e.number_of_links, e.nondimensional_persistance_length, e.nondimensional_force)) },
      ] },
];
pub static LEVELS: &[(&str, fn(&Env) -> Vec<(&'static str, f64)>)] = &[
    ("efjc", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64), ("link_stiffness", o.link_stiffness as f64)] }),
    ("efjc/thermodynamics", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64), ("link_stiffness", o.thermodynamics.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric/asymptotic", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric/asymptotic/alternative", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.alternative.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.alternative.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.alternative.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.alternative.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric/asymptotic/alternative/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.alternative.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.alternative.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.alternative.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.alternative.legendre.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric/asymptotic/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric/asymptotic/reduced", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isometric/asymptotic/reduced/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/asymptotic", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/asymptotic/alternative", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.alternative.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.alternative.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.alternative.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.alternative.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.alternative.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.alternative.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.alternative.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.alternative.legendre.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/asymptotic/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/asymptotic/reduced", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64)] }),
    ("efjc/thermodynamics/isotensional/legendre", |e| { let o = sc::efjc::EFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.legendre.link_stiffness as f64)] }),
    ("fjc", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64)] }),
    ("fjc/thermodynamics", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64)] }),
    ("fjc/thermodynamics/isometric", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64)] }),
    ("fjc/thermodynamics/isometric/legendre", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.isometric.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.legendre.number_of_links as f64)] }),
    ("fjc/thermodynamics/isotensional", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64)] }),
    ("fjc/thermodynamics/isotensional/legendre", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64)] }),
    ("fjc/thermodynamics/modified_canonical", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.modified_canonical.hinge_mass as f64), ("link_length", o.thermodynamics.modified_canonical.link_length as f64), ("number_of_links", o.thermodynamics.modified_canonical.number_of_links as f64)] }),
    ("fjc/thermodynamics/modified_canonical/asymptotic", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.modified_canonical.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.modified_canonical.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.modified_canonical.asymptotic.number_of_links as f64)] }),
    ("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.modified_canonical.asymptotic.strong_potential.hinge_mass as f64), ("link_length", o.thermodynamics.modified_canonical.asymptotic.strong_potential.link_length as f64), ("number_of_links", o.thermodynamics.modified_canonical.asymptotic.strong_potential.number_of_links as f64)] }),
    ("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential", |e| { let o = sc::fjc::FJC::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.modified_canonical.asymptotic.weak_potential.hinge_mass as f64), ("link_length", o.thermodynamics.modified_canonical.asymptotic.weak_potential.link_length as f64), ("number_of_links", o.thermodynamics.modified_canonical.asymptotic.weak_potential.number_of_links as f64)] }),
    ("ideal", |e| { let o = sc::ideal::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64)] }),
    ("ideal/thermodynamics", |e| { let o = sc::ideal::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64)] }),
    ("ideal/thermodynamics/isometric", |e| { let o = sc::ideal::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64)] }),
    ("ideal/thermodynamics/isotensional", |e| { let o = sc::ideal::Ideal::init(e.number_of_links, e.link_length, e.hinge_mass); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64)] }),
    ("swfjc", |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64), ("well_width", o.well_width as f64)] }),
    ("swfjc/thermodynamics", |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64), ("well_width", o.thermodynamics.well_width as f64)] }),
    ("swfjc/thermodynamics/isometric", |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64), ("well_width", o.thermodynamics.isometric.well_width as f64)] }),
    ("swfjc/thermodynamics/isometric/legendre", |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); vec![("hinge_mass", o.thermodynamics.isometric.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.legendre.number_of_links as f64), ("well_width", o.thermodynamics.isometric.legendre.well_width as f64)] }),
    ("swfjc/thermodynamics/isotensional", |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64), ("well_width", o.thermodynamics.isotensional.well_width as f64)] }),
    ("swfjc/thermodynamics/isotensional/legendre", |e| { let o = sc::swfjc::SWFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.well_width); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64), ("well_width", o.thermodynamics.isotensional.legendre.well_width as f64)] }),
    ("ufjc/lennard_jones", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64), ("link_stiffness", o.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64), ("link_stiffness", o.thermodynamics.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isometric", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isometric/asymptotic", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isotensional", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64)] }),
    ("ufjc/lennard_jones/thermodynamics/isotensional/legendre", |e| { let o = sc::ufjc::lennard_jones::LENNARDJONESFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.legendre.link_stiffness as f64)] }),
    ("ufjc/log_squared", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64), ("link_stiffness", o.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64), ("link_stiffness", o.thermodynamics.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isometric", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isometric/asymptotic", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isotensional", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isotensional/asymptotic", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64)] }),
    ("ufjc/log_squared/thermodynamics/isotensional/legendre", |e| { let o = sc::ufjc::log_squared::LOGSQUAREDFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.legendre.link_stiffness as f64)] }),
    ("ufjc/morse", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64), ("link_stiffness", o.link_stiffness as f64), ("link_energy", o.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64), ("link_stiffness", o.thermodynamics.link_stiffness as f64), ("link_energy", o.thermodynamics.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isometric", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.link_stiffness as f64), ("link_energy", o.thermodynamics.isometric.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isometric/asymptotic", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.link_stiffness as f64), ("link_energy", o.thermodynamics.isometric.asymptotic.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isometric/asymptotic/legendre", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64), ("link_energy", o.thermodynamics.isometric.asymptotic.legendre.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isometric/asymptotic/reduced", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64), ("link_energy", o.thermodynamics.isometric.asymptotic.reduced.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64), ("link_energy", o.thermodynamics.isometric.asymptotic.reduced.legendre.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isotensional", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.link_stiffness as f64), ("link_energy", o.thermodynamics.isotensional.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isotensional/asymptotic", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.link_stiffness as f64), ("link_energy", o.thermodynamics.isotensional.asymptotic.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64), ("link_energy", o.thermodynamics.isotensional.asymptotic.legendre.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64), ("link_energy", o.thermodynamics.isotensional.asymptotic.reduced.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64), ("link_energy", o.thermodynamics.isotensional.asymptotic.reduced.legendre.link_energy as f64)] }),
    ("ufjc/morse/thermodynamics/isotensional/legendre", |e| { let o = sc::ufjc::morse::MORSEFJC::init(e.number_of_links, e.link_length, e.hinge_mass, e.link_stiffness, e.link_energy); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64), ("link_stiffness", o.thermodynamics.isotensional.legendre.link_stiffness as f64), ("link_energy", o.thermodynamics.isotensional.legendre.link_energy as f64)] }),
    ("wlc", |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); vec![("hinge_mass", o.hinge_mass as f64), ("link_length", o.link_length as f64), ("number_of_links", o.number_of_links as f64), ("persistance_length", o.persistance_length as f64)] }),
    ("wlc/thermodynamics", |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); vec![("hinge_mass", o.thermodynamics.hinge_mass as f64), ("link_length", o.thermodynamics.link_length as f64), ("number_of_links", o.thermodynamics.number_of_links as f64), ("persistance_length", o.thermodynamics.persistance_length as f64)] }),
    ("wlc/thermodynamics/isometric", |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); vec![("hinge_mass", o.thermodynamics.isometric.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.link_length as f64), ("number_of_links", o.thermodynamics.isometric.number_of_links as f64), ("persistance_length", o.thermodynamics.isometric.persistance_length as f64)] }),
    ("wlc/thermodynamics/isometric/legendre", |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); vec![("hinge_mass", o.thermodynamics.isometric.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isometric.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isometric.legendre.number_of_links as f64), ("persistance_length", o.thermodynamics.isometric.legendre.persistance_length as f64)] }),
    ("wlc/thermodynamics/isotensional", |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); vec![("hinge_mass", o.thermodynamics.isotensional.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.number_of_links as f64), ("persistance_length", o.thermodynamics.isotensional.persistance_length as f64)] }),
    ("wlc/thermodynamics/isotensional/legendre", |e| { let o = sc::wlc::WLC::init(e.number_of_links, e.link_length, e.hinge_mass, e.persistance_length); vec![("hinge_mass", o.thermodynamics.isotensional.legendre.hinge_mass as f64), ("link_length", o.thermodynamics.isotensional.legendre.link_length as f64), ("number_of_links", o.thermodynamics.isotensional.legendre.number_of_links as f64), ("persistance_length", o.thermodynamics.isotensional.legendre.persistance_length as f64)] }),
];
