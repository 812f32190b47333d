//! Meshes and unit conversions.
use crate::util::*;
use corries::prelude::*;
use ndarray::Array1;
use serde_json::{json, Value};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};

// --- exact sums of a few products of floats: pairs (hi, lo) -----------------------
#[derive(Clone, Copy)]
struct Dd(f64, f64);
fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let t = s - a;
    Dd(s, (a - (s - t)) + (b - t))
}
impl Dd {
    fn add(self, x: f64) -> Dd {
        let s = two_sum(self.0, x);
        two_sum(s.0, s.1 + self.1)
    }
    fn prod(a: f64, b: f64) -> Dd {
        let p = a * b;
        Dd(p, a.mul_add(b, -p))
    }
    fn plus(self, o: Dd) -> Dd {
        self.add(o.0).add(o.1)
    }
    fn val(self) -> f64 {
        self.0 + self.1
    }
}
/// residual r in thousandths of EPSILON * unit, rounded away from zero
fn eps(r: f64, unit: f64) -> i64 {
    let x = r / unit / f64::EPSILON * 1000.0;
    if !x.is_finite() || x.abs() >= BAD as f64 {
        return BAD;
    }
    let y = x.abs().ceil() as i64;
    if x < 0.0 {
        -y
    } else {
        y
    }
}
fn rel(x: f64, expected: f64) -> i64 {
    eps(x - expected, expected.abs())
}
/// how far a * b is from one
fn recip(a: f64, b: f64) -> i64 {
    eps(Dd::prod(a, b).add(-1.0).val(), 1.0)
}
fn int(x: f64) -> i64 {
    if x.fract() == 0.0 && x.abs() < BAD as f64 {
        x as i64
    } else {
        BAD
    }
}

struct Case {
    xi_in: f64,
    xi_out: f64,
    /// the numbers of the exact domains: edge a * 2^e, width b * 2^e
    exact: Option<(i64, i64, i32)>,
}
fn draw(rng: &mut Rng, n: i64) -> Case {
    if rng.chance(1, 2) {
        let e = match rng.below(5) {
            0 => 0,
            1 => rng.int(-10, 10) as i32,
            2 => rng.int(-60, 60) as i32,
            3 => rng.int(-450, 450) as i32,
            _ => -1,
        };
        let b = match rng.below(4) {
            0 => 1,
            1 => rng.int(1, 9),
            2 => rng.int(1, 1000),
            _ => rng.int(1, 400_000),
        };
        let a = match rng.below(12) {
            0 => rng.int(-20, 20),
            1 => rng.int(-500_000_000, 500_000_000),
            2 => -b * rng.int(-3, n + 3),
            3 => -b * rng.int(-3, n + 3) + rng.int(-1, 1),
            4 => 0,
            5 | 6 => rng.int(-60_000_000, 60_000_000),
            7 => b * 3 + rng.int(0, 1000),
            8 => -b * (n + 3) - rng.int(0, 1000),
            9 => -b * rng.int(-3, n + 3) + rng.int(-b / 3, b / 3),
            _ => b * rng.int(-2 * n, 2 * n) + rng.int(0, b),
        };
        let p = 2f64.powi(e);
        return Case { xi_in: a as f64 * p, xi_out: (a + n * b) as f64 * p, exact: Some((a, b, e)) };
    }
    let m = |rng: &mut Rng| {
        let s = if rng.chance(1, 2) { -1.0 } else { 1.0 };
        s * match rng.below(5) {
            0 => rng.unit(),
            1 => rng.int(1, 100) as f64 / 10.0,
            2 => 10f64.powi(rng.int(-12, 12) as i32),
            3 => rng.unit() * 10f64.powi(rng.int(-100, 100) as i32),
            _ => rng.int(1, 1000) as f64,
        }
    };
    loop {
        let a = m(rng);
        let b = match rng.below(5) {
            0 => m(rng),
            1 => a + m(rng),
            2 => a + a.abs() * 10f64.powi(rng.int(-9, 9) as i32) * (1.0 + rng.unit()),
            3 => -a,
            _ => a + a.abs() * (1.0 + rng.unit()) * n as f64 * 10f64.powi(-13),
        };
        let big = a.abs().max(b.abs());
        if a < b && (b - a) / n as f64 > 1.0e-13 * big && a.abs() > 1.0e-100 && b.abs() > 1.0e-100 && big < 1.0e140 {
            return Case { xi_in: a, xi_out: b, exact: None };
        }
    }
}

fn ones(v: &[&Array1<f64>]) -> bool {
    v.iter().all(|a| a.iter().all(|x| *x == 1.0))
}
fn one<const S: usize>(rng: &mut Rng, id: usize) {
    let n = S as i64 - 4;
    let k = draw(rng, n);
    let c = MeshConfig { mode: MeshMode::Cartesian, xi_in: k.xi_in, xi_out: k.xi_out };
    let r = catch_unwind(AssertUnwindSafe(|| Mesh::<S>::new(&c)));
    let mut o = json!({"ev": "mesh", "id": id, "s": S, "exact": k.exact.is_some(), "a": k.exact.map(|x| x.0).unwrap_or(0), "b": k.exact.map(|x| x.1).unwrap_or(0),
        "dom": format!("{:e}..{:e}", k.xi_in, k.xi_out)});
    let big = k.xi_in.abs().max(k.xi_out.abs());
    // everything below is divided by a power of two, which loses nothing
    let sc = 2f64.powi(-(big.log2().floor() as i32));
    let (a, b, u) = (k.xi_in * sc, k.xi_out * sc, big * sc);
    // some face or centre may come out as zero
    let span = b - a;
    o["near"] = json!((-4..=2 * n + 4).any(|i| (a + span * i as f64 / (2 * n) as f64).abs() < 16.0 * u * f64::EPSILON));
    let m = match r {
        Err(_) => {
            o["res"] = json!("panic");
            return emit(o);
        },
        Ok(Err(_)) => {
            o["res"] = json!("err");
            return emit(o);
        },
        Ok(Ok(m)) => m,
    };
    o["res"] = json!("ok");
    o["same"] = json!(m == Mesh::<S>::new(&c).unwrap());
    o["n"] = json!([m.n_all, m.n_comp, m.n_gc, m.imin, m.imax, m.ixi_in, m.ixi_out, m.xi_west.len(), m.xi_cent.len(), m.xi_east.len()]);
    o["kind"] = json!(m.is_linear && !m.is_logarithmic && m.mode == MeshMode::Cartesian && m.deta == 1.0 && m.dphi == 1.0);
    o["ends"] = json!([m.xi_in == k.xi_in, m.xi_out == k.xi_out]);
    let flat = [&m.cexe, &m.cpxp, &m.minus_cexe, &m.minus_cpxp].iter().all(|a| a.iter().all(|x| *x == 0.0));
    o["metric"] = json!([
        ones(&[&m.h_xi_cent, &m.h_xi_west, &m.h_xi_east, &m.h_eta_cent, &m.h_eta_west, &m.h_eta_east, &m.h_phi_cent, &m.h_phi_west, &m.h_phi_east]),
        ones(&[&m.sqrt_g]),
        ones(&[&m.area_west, &m.area_east, &m.d_area_xi_deta_dphi_west, &m.d_area_xi_deta_dphi_east]),
        flat
    ]);
    if let Some((_, _, e)) = k.exact {
        // in halves of 2^e
        let p = 2f64.powi(1 - e);
        let v = |a: &Array1<f64>| a.iter().map(|x| int(x * p)).collect::<Vec<_>>();
        o["pos"] = json!([v(&m.xi_west), v(&m.xi_cent), v(&m.xi_east)]);
        o["wid"] = json!([v(&m.line_xi), v(&m.volume), v(&m.cell_width), v(&Array1::from_elem(S, m.dxi))]);
    } else {
        let (w, x, y) = (m.xi_west.mapv(|x| x * sc), m.xi_cent.mapv(|x| x * sc), m.xi_east.mapv(|x| x * sc));
        // n * face against (n - j) * xi_in + j * xi_out, with j cells between the inner edge and the face
        let place = |f: f64, j2: i64| eps(Dd::prod(2.0 * n as f64, f).plus(Dd::prod(-(2 * n - j2) as f64, a)).plus(Dd::prod(-j2 as f64, b)).val() / (2 * n) as f64, u);
        let at = |v: &Array1<f64>, off: i64| (0..S).map(|i| place(v[i], 2 * (i as i64 - 2) + off)).collect::<Vec<_>>();
        o["place"] = json!([at(&w, 0), at(&x, 1), at(&y, 2)]);
        o["joint"] = json!((0..S - 1).map(|i| eps(y[i] - w[i + 1], u)).collect::<Vec<_>>());
        o["mid"] = json!((0..S).map(|i| eps(two_sum(2.0 * x[i], -w[i]).add(-y[i]).val(), u)).collect::<Vec<_>>());
        // signs of consecutive differences: west, centre, east, west, ...
        let up = |a: f64, b: f64| if a < b { 1 } else if a == b { 0 } else { -1 };
        o["order"] = json!([
            (0..S).map(|i| up(w[i], x[i])).collect::<Vec<_>>(),
            (0..S).map(|i| up(x[i], y[i])).collect::<Vec<_>>(),
            (0..S - 1).map(|i| up(w[i], w[i + 1])).collect::<Vec<_>>(),
            (0..S - 1).map(|i| up(y[i], y[i + 1])).collect::<Vec<_>>()
        ]);
        o["first"] = json!([m.xi_west[2] == k.xi_in, eps(Dd::prod(n as f64, m.dxi * sc).add(-b).add(a).val(), u)]);
        // widths against the positions

        let against = |v: &Array1<f64>| (0..S).map(|i| eps(two_sum(y[i], -w[i]).add(-v[i] * sc).val(), u)).collect::<Vec<_>>();
        o["span"] = json!([against(&m.cell_width), against(&m.line_xi), against(&m.volume)]);
    }
    let iv = |a: &Array1<f64>, b: &Array1<f64>| (0..S).map(|i| recip(a[i], b[i])).collect::<Vec<_>>();
    o["inv"] = json!([
        iv(&m.xi_west, &m.xi_west_inv),
        iv(&m.xi_cent, &m.xi_cent_inv),
        iv(&m.xi_east, &m.xi_east_inv),
        iv(&m.line_xi, &m.line_xi_inv),
        iv(&m.cell_width, &m.cell_width_inv),
        iv(&m.volume, &m.deta_dphi_d_volume)
    ]);
    // the scale keeps the squares away from overflow and underflow
    o["area"] = json!((0..S).map(|i| { let c = m.cell_width[i]; rel(m.area_cell[i] / c / c, 1.0) }).collect::<Vec<_>>());
    emit(o);
}
macro_rules! meshes {
    ($rng:expr, $id:expr, $pick:expr, $($s:literal)*) => {{
        const N: usize = [$($s),*].len();
        let mut at = $pick % N;
        $( if at == 0 { one::<$s>($rng, $id); } at = at.wrapping_sub(1); )*
        let _ = at;
    }}
}
pub fn meshes(count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 180_000 + id as u64);
        let p = rng.below(1 << 20);
        let p = if rng.chance(1, 8) { 25 + p % 7 } else { p % 25 };
        meshes!(&mut rng, id, p, 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 23 24 25 27 31 32 33 36 54 64 100 101 104 250 1004);
    }
}

// --- units --------------------------------------------------------------------------
fn key(x: f64) -> i64 {
    let b = x.to_bits() as i64;
    if b < 0 {
        i64::MIN - b
    } else {
        b
    }
}
/// number of floats between two numbers, at most BAD; both NaN counts as none
fn apart(a: f64, b: f64) -> i64 {
    if a.is_nan() || b.is_nan() {
        return if a.is_nan() && b.is_nan() { 0 } else { BAD };
    }
    ((key(a) as i128 - key(b) as i128).abs()).min(BAD as i128) as i64
}
fn value(rng: &mut Rng) -> f64 {
    let s = if rng.chance(1, 2) { -1.0 } else { 1.0 };
    s * match rng.below(12) {
        0 => 0.0,
        1 => rng.int(1, 1000) as f64,
        2 => rng.unit(),
        3 => 10f64.powi(rng.int(-300, 300) as i32),
        4 => rng.unit() * 10f64.powi(rng.int(-300, 300) as i32),
        5 => *rng.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-310, 1.0, f64::EPSILON, 1e308, f64::INFINITY, f64::NAN]),
        6 => 1.0 + rng.below(9) as f64 * f64::EPSILON,
        7 => f64::from_bits(rng.next() >> 1),
        8 => 2f64.powi(rng.int(-1000, 1000) as i32),
        9 => rng.int(1, 1 << 52) as f64,
        10 => rng.unit() * 10f64.powi(rng.int(-20, 20) as i32),
        _ => rng.int(1, 100_000) as f64 / 1000.0,
    }
}
fn class(x: f64) -> &'static str {
    if x.is_nan() {
        "nan"
    } else if x.is_infinite() {
        "inf"
    } else if x == 0.0 {
        "zero"
    } else if x.abs() < 1e-290 || x.abs() > 1e290 {
        "far"
    } else {
        "fin"
    }
}
fn convert(u: &Units, q: &str, to: &str, x: f64) -> f64 {
    match (q, to) {
        ("length", "SI") => u.convert_length_to_si(x),
        ("length", _) => u.convert_length_to_cgs(x),
        ("mass", "SI") => u.convert_mass_to_si(x),
        ("mass", _) => u.convert_mass_to_cgs(x),
        (_, "SI") => u.convert_time_to_si(x),
        (_, _) => u.convert_time_to_cgs(x),
    }
}
/// distance from x * 10^r for r = -3, -2, 0, 2, 3, each rounded once
fn tens(x: f64, y: f64) -> Value {
    json!({"m3": apart(y, x / 1e3), "m2": apart(y, x / 1e2), "z": apart(y, x), "p2": apart(y, x * 1e2), "p3": apart(y, x * 1e3)})
}
pub fn units(input: &str, repeat: usize, seed: u64) {
    let mode = |m: &str| if m == "SI" { UnitsMode::SI } else { UnitsMode::CGS };
    let text = fs::read_to_string(input).expect("input");
    for (id, l) in text.lines().cycle().take(repeat * text.lines().count()).enumerate() {
        let v: Value = serde_json::from_str(l).expect("json");
        let mut rng = Rng::new(seed, 190_000 + id as u64);
        // one object per system, used over and over
        let shared = [Units::new(UnitsMode::SI), Units::new(UnitsMode::CGS)];
        let (x0, z0) = (value(&mut rng), value(&mut rng));
        let mut x = x0;
        let mut steps = vec![];
        for st in v.as_array().unwrap() {
            let f = |k: &str| st[k].as_str().unwrap();
            let (m, q, to) = (f("mode"), f("q"), f("to"));
            let sh = &shared[(m == "CGS") as usize];
            let fresh = if m == "SI" && rng.chance(1, 2) { Units::default() } else { Units::new(mode(m)) };
            let y = convert(sh, q, to, x);
            // other conversions in between make no difference
            let _ = convert(sh, "length", to, z0) + convert(sh, "mass", if to == "SI" { "CGS" } else { "SI" }, z0);
            let again = [convert(sh, q, to, x), convert(&fresh, q, to, x), convert(&fresh.clone(), q, to, x)];
            let neg = convert(sh, q, to, -x);
            steps.push(json!({"mode": m, "q": q, "to": to, "x": class(x), "y": class(y), "d": tens(x, y), "again": again.iter().map(|a| apart(*a, y)).max(), "neg": apart(neg, -y)}));
            x = y;
        }
        emit(json!({"ev": "unit", "id": id, "x0": format!("{x0:e}"), "c0": class(x0), "steps": steps, "back": apart(x, x0)}));
    }
}
