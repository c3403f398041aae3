//! Runs the real library and records what it does, for validation against the TLA+ specification.
//! Every f64 is written exactly, in the representation of spec/Real.tla.
#![allow(clippy::all)]
mod api;
mod env;
mod hints;
mod math;
mod mc;
mod net;
mod registry;
mod util;

pub struct Fun {
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub free: fn(&env::Env) -> f64,
    pub ext: Option<fn(&env::Env) -> f64>,
}
pub type Obj = Box<dyn Fn(&str, &env::Env) -> Option<f64>>;
pub struct Module {
    pub path: &'static str,
    pub init_args: &'static [&'static str],
    pub fields: &'static [&'static str],
    pub methods: &'static [(&'static str, &'static [&'static str])],
    pub leaf: fn(&env::Env) -> Obj,
    pub deep: fn(&env::Env) -> Obj,
    pub funs: &'static [Fun],
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let o = util::Opts::parse(&args);
    util::watchdog();
    match o.cmd.as_str() {
        "session" => api::session(&o),
        "probe" => api::probe(&o),
        "legendre" => api::legendre(&o),
        "objects" => api::objects(&o),
        "dist" => api::dist(&o),
        "shell" => api::shell(&o),
        "modified" => api::modified(&o),
        "load" => api::load(&o),
        "special" => math::special(&o),
        "hyper" => net::hyper(&o),
        "damage" => net::damage(&o),
        "mc" => mc::conform(&o),
        "hist" => mc::histogram(&o),
        "newton" => math::newton(&o),
        "quad" => math::quad(&o),
        "api" => api::run(&o),
        // eval MODULE FUNCTION name=value ...   (dimensional arguments follow from the nondimensional ones unless given)
        "eval" => {
            let m = registry::MODULES.iter().find(|m| m.path == args[2]).expect("module");
            let mut e = env::Env::default();
            for pass in 0..2 {
                for a in &args[4..] { let (k, v) = a.split_once('=').unwrap(); e.set(k, v.parse().unwrap()); }
                if pass == 0 { api::dimensional(&mut e); }
            }
            for f in m.funs { if args[3] == "all" || f.name == args[3] { println!("{} {:?}", f.name, util::guard(|| (f.free)(&e))); } }
        }
        "list" => registry::MODULES.iter().for_each(|m| println!("{}", m.path)),
        c => { eprintln!("unknown command {}", c); std::process::exit(2) }
    }
}
