use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Opts { pub cmd: String, pub kv: HashMap<String, String> }
impl Opts {
    pub fn parse(a: &[String]) -> Self {
        let mut kv = HashMap::new();
        let mut i = 2;
        while i + 1 < a.len() { kv.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone()); i += 2; }
        Opts { cmd: a.get(1).cloned().unwrap_or_default(), kv }
    }
    pub fn s(&self, k: &str, d: &str) -> String { self.kv.get(k).cloned().unwrap_or(d.to_string()) }
    pub fn u(&self, k: &str, d: u64) -> u64 { self.kv.get(k).map(|x| x.parse().unwrap()).unwrap_or(d) }
    pub fn rng(&self) -> Rng { Rng(self.u("seed", 1).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn out(&self) -> Out { Out::new(&self.s("out", "/dev/stdout")) }
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn u(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn lu(&mut self, a: f64, b: f64) -> f64 { (self.u(a.ln(), b.ln())).exp() }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
}

/// A value computed by the code under test: a number, or a panic.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V { N(f64), Panic }
pub fn guard<F: FnOnce() -> f64>(f: F) -> V {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => V::N(x), Err(_) => V::Panic }
}
pub fn guard_any<T, F: FnOnce() -> T>(f: F) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

/// The exact value of a double as a canonical Real of the specification.
pub fn real(x: f64) -> String {
    if x.is_nan() { return "[9,0]".into() }
    if x.is_infinite() { return if x > 0.0 { "[9,1]".into() } else { "[9,-1]".into() } }
    if x == 0.0 { return "[0,0]".into() }
    let b = x.to_bits();
    let s = if b >> 63 == 1 { -1 } else { 1 };
    let ex = ((b >> 52) & 0x7ff) as i64;
    let fr = b & ((1u64 << 52) - 1);
    let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | (1u64 << 52), ex - 1075) };
    let q = e.div_euclid(15);
    let r = e.rem_euclid(15);
    let mut m = (m as u128) << r;
    let mut q = q;
    while m & 0x7fff == 0 { m >>= 15; q += 1; }
    let mut o = format!("[{},{}", s, q);
    while m > 0 { write!(o, ",{}", m & 0x7fff).unwrap(); m >>= 15; }
    o.push(']');
    o
}
pub fn val(v: V) -> String { match v { V::N(x) => real(x), V::Panic => "[8,0]".into() } }
pub fn reals(v: &[f64]) -> String { format!("[{}]", v.iter().map(|x| real(*x)).collect::<Vec<_>>().join(",")) }

pub struct Out { w: std::io::BufWriter<std::fs::File>, pub n: usize }
impl Out {
    pub fn new(p: &str) -> Self { Out { w: std::io::BufWriter::new(std::fs::File::create(p).unwrap()), n: 0 } }
    pub fn line(&mut self, s: &str) { use std::io::Write; tick(); self.w.write_all(s.as_bytes()).unwrap(); self.w.write_all(b"\n").unwrap(); self.n += 1; }
}
/// A JSON object under construction.
#[derive(Default)]
pub struct Obj(Vec<String>);
impl Obj {
    pub fn new() -> Self { Obj(Vec::new()) }
    pub fn raw(mut self, k: &str, v: &str) -> Self { self.0.push(format!("\"{}\":{}", k, v)); self }
    pub fn s(self, k: &str, v: &str) -> Self { let q = format!("\"{}\"", v); self.raw(k, &q) }
    pub fn i(self, k: &str, v: i64) -> Self { let q = v.to_string(); self.raw(k, &q) }
    pub fn r(self, k: &str, v: f64) -> Self { let q = real(v); self.raw(k, &q) }
    pub fn v(self, k: &str, v: V) -> Self { let q = val(v); self.raw(k, &q) }
    pub fn rs(self, k: &str, v: &[f64]) -> Self { let q = reals(v); self.raw(k, &q) }
    pub fn end(self) -> String { format!("{{{}}}", self.0.join(",")) }
}

static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn tick() { TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
/// Ends the process with status 3 if no event is completed for 40 s: the code under test does not return.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(std::sync::atomic::Ordering::Relaxed);
            last = if t == last.0 { (t, last.1 + 1) } else { (t, 0) };
            if last.1 >= 40 { eprintln!("no event completed for 40 s after event {}", t); std::process::exit(3) }
        }
    });
}
