//! Shared helpers: seeded randomness, ndjson emission and the fixed-point projection.
use serde_json::Value;
use std::{
    cell::RefCell,
    fs::File,
    io::{BufWriter, Write},
};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform integer in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    /// dyadic number k/den with k uniform in lo*den..=hi*den
    pub fn dyadic(&mut self, lo: f64, hi: f64, den: f64) -> f64 {
        self.int((lo * den) as i64, (hi * den) as i64) as f64 / den
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

thread_local! {
    static OUT: RefCell<Option<BufWriter<File>>> = RefCell::new(None);
    static LINES: RefCell<usize> = RefCell::new(0);
}

pub fn open_out(path: &str) {
    OUT.with(|o| *o.borrow_mut() = Some(BufWriter::new(File::create(path).expect("cannot create trace file"))));
    LINES.with(|l| *l.borrow_mut() = 0);
}
pub fn emit(v: Value) {
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        let w = o.as_mut().expect("no trace file open");
        serde_json::to_writer(&mut *w, &v).unwrap();
        w.write_all(b"\n").unwrap();
    });
    LINES.with(|l| *l.borrow_mut() += 1);
}
pub fn close_out() {
    OUT.with(|o| {
        if let Some(mut w) = o.borrow_mut().take() {
            w.flush().unwrap();
        }
    });
}

/// Value logged for anything that does not fit the projection (NaN, infinity, too large).
pub const BAD: i64 = 2_000_000_000;

/// Projects x to an integer multiple of 1/scale; non-finite or too large values become +-BAD.
pub fn q(x: f64, scale: f64) -> i64 {
    let y = (x * scale).round();
    if !y.is_finite() {
        return if y == f64::NEG_INFINITY { -BAD } else { BAD };
    }
    if y.abs() >= BAD as f64 {
        return if y < 0.0 { -BAD } else { BAD };
    }
    y as i64
}
/// fixed-point scale used by the specification's Fx module
pub const ONE: f64 = 32768.0;
pub fn fx(x: f64) -> i64 {
    q(x, ONE)
}
pub fn fxv<'a>(v: impl IntoIterator<Item = &'a f64>) -> Vec<i64> {
    v.into_iter().map(|x| fx(*x)).collect()
}

pub fn fnv(h: &mut u64, x: f64) {
    for b in x.to_bits().to_le_bytes() {
        *h ^= b as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}
pub fn digest<'a>(v: impl IntoIterator<Item = &'a f64>) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        // +0 and -0 describe the same number
        fnv(&mut h, if *x == 0.0 { 0.0 } else { *x });
    }
    format!("{h:016x}")
}

/// Arguments and seed of a harness program.
pub fn start() -> (Vec<String>, u64) {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // panics of the code under test are observed, not printed
    std::panic::set_hook(Box::new(|_| {}));
    open_out(a.get(2).map(String::as_str).unwrap_or("/dev/null"));
    (a, seed)
}
pub fn unknown(x: &str) {
    eprintln!("unknown command {x}");
    std::process::exit(2);
}
