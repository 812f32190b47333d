//! The same problem in other units, and displaced: pairs of real runs recorded step by step.
use crate::driver::random_prim;
use crate::util::*;
use corries::prelude::*;
use corries::timestep::TimeStep;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// State and time after a step.
#[derive(Clone)]
struct Shot {
    prim: Array2<f64>,
    cons: Array2<f64>,
    c: Array1<f64>,
    lam: Array2<f64>,
    t: f64,
    dt: f64,
}
thread_local! {
    static TAPE: RefCell<Vec<Shot>> = RefCell::new(vec![]);
    static INIT: RefCell<(Array2<f64>, Array1<f64>)> = RefCell::new((Array2::zeros((1, 1)), Array1::zeros(1)));
}
struct Tap<T>(T);
fn note<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>, t: &TimeStep) {
    let v = &u.cent;
    let s = Shot { prim: v.prim.clone(), cons: v.cons.clone(), c: v.c_sound.clone(), lam: v.eigen_vals.clone(), t: t.t, dt: t.dt };
    TAPE.with(|x| x.borrow_mut().push(s));
}
impl<P: Physics<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize> TimeSolver<P, E, S> for Tap<T> {
    fn new(config: &CorriesConfig) -> color_eyre::Result<Self> {
        Ok(Tap(T::new(config)?))
    }
    fn next_solution<N: NumFlux<E, S>>(&mut self, time: &mut TimeStep, u: &mut State<P, E, S>, rhs: &mut Rhs<N, E, S>, mesh: &Mesh<S>) -> color_eyre::Result<()> {
        if TAPE.with(|x| x.borrow().is_empty()) {
            note(u, time);
        }
        let r = self.0.next_solution(time, u, rhs, mesh);
        if r.is_ok() {
            note(u, time);
        }
        r
    }
}
fn init<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> color_eyre::Result<()> {
    INIT.with(|x| {
        let x = x.borrow();
        u.cent.prim.assign(&x.0);
        if !P::IS_ADIABATIC {
            u.cent.c_sound.assign(&x.1);
        }
    });
    Ok(())
}
struct Out {
    res: &'static str,
    shots: Vec<Shot>,
    xi: Vec<f64>,
    w: f64,
}
fn go<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(c: &CorriesConfig, prim: &Array2<f64>, cs: &Array1<f64>) -> Out {
    INIT.with(|x| *x.borrow_mut() = (prim.clone(), cs.clone()));
    TAPE.with(|x| x.borrow_mut().clear());
    type T<P, const E: usize, const S: usize> = Tap<RungeKuttaFehlberg<P, E, S>>;
    let mut geo = (vec![], 0.0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut k = c.init_corries::<P, N, T<P, E, S>, E, S>(init::<P, N, T<P, E, S>, E, S>)?;
        geo = (k.2.xi_cent.to_vec(), k.2.dxi);
        k.run_corries()
    }));
    let res = match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    Out { res, shots: TAPE.with(|x| std::mem::take(&mut *x.borrow_mut())), xi: geo.0, w: geo.1 }
}
fn sized<const S: usize>(c: &CorriesConfig, adia: bool, hll: bool, prim: &Array2<f64>, cs: &Array1<f64>) -> Out {
    match (adia, hll) {
        (true, true) => go::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>(c, prim, cs),
        (true, false) => go::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>(c, prim, cs),
        (false, true) => go::<Euler1DIsot<S>, Hll<2, S>, 2, S>(c, prim, cs),
        (false, false) => go::<Euler1DIsot<S>, Kt<2, S>, 2, S>(c, prim, cs),
    }
}
fn start(s: usize, c: &CorriesConfig, adia: bool, hll: bool, prim: &Array2<f64>, cs: &Array1<f64>) -> Out {
    match s {
        8 => sized::<8>(c, adia, hll, prim, cs),
        13 => sized::<13>(c, adia, hll, prim, cs),
        40 => sized::<40>(c, adia, hll, prim, cs),
        96 => sized::<96>(c, adia, hll, prim, cs),
        131 => sized::<131>(c, adia, hll, prim, cs),
        _ => sized::<270>(c, adia, hll, prim, cs),
    }
}

const ANY: i64 = 8888;
const NONE: i64 = 9999;
/// x = m * 2^e with 1 <= |m| < 2
fn split(x: f64) -> (f64, i64) {
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i64;
    (f64::from_bits(b & !(0x7ff << 52) | 1023 << 52), e - 1023)
}
/// The k with b = 2^k a for all pairs; ANY if nothing but zeros, NONE if there is no such k.
fn shift<'a>(a: impl IntoIterator<Item = &'a f64>, b: impl IntoIterator<Item = &'a f64>) -> i64 {
    let mut k = ANY;
    for (x, y) in a.into_iter().zip(b) {
        if (*x == 0.0 && *y == 0.0) || (x.is_nan() && y.is_nan()) || (x.is_infinite() && x == y) {
            continue;
        }
        // below the normal numbers nothing can be said
        if !x.is_normal() || !y.is_normal() {
            if x.is_subnormal() || y.is_subnormal() {
                continue;
            }
            return NONE;
        }
        let ((m, e), (n, f)) = (split(*x), split(*y));
        if m != n || (k != ANY && k != f - e) {
            return NONE;
        }
        k = f - e;
    }
    k
}
fn two(k: i64) -> f64 {
    2f64.powi(k as i32)
}
/// a random mode of the time integration that is known by its name
fn problem(rng: &mut Rng, e: usize, s: usize, w: BoundaryMode, x: BoundaryMode, hll: bool, dom: (f64, f64)) -> (CorriesConfig, RKFMode, bool) {
    let flux = if hll { NumFluxConfig::Hll } else { crate::fv::kt(rng) };
    let mut c = crate::fv::base_config(flux, dom, *rng.pick(&[1.4, 1.6666666666666667, 1.1]), w, x);
    let (mode, asc) = crate::runs::set_scheme(&mut c, rng);
    let cell = (dom.1 - dom.0) / (s as f64 - 4.0);
    let _ = e;
    c.output_counter_max = rng.int(1, 4) as usize;
    let n = &mut c.numerics_config;
    n.t0 = *rng.pick(&[0.0, 0.0, 1.5]);
    n.t_end = n.t0 + cell * (0.3 + 4.0 * rng.unit());
    n.dt_min = *rng.pick(&[1.0e-12, 1.0e-200, 1.0e-5]) * cell;
    n.dt_max = *rng.pick(&[1.0e300, 1.0e300, 0.05]) * cell;
    n.dt_cfl_param = *rng.pick(&[0.4, 0.4, 0.9, 0.1]);
    n.iter_max = rng.int(2, 40) as usize;
    (c, mode, asc)
}
fn field(o: &[Shot], i: usize, f: impl Fn(&Shot) -> Vec<f64>) -> Vec<f64> {
    o.get(i).map(f).unwrap_or_default()
}
fn scale_case(id: usize, rng: &mut Rng) -> Value {
    let (adia, hll) = (rng.chance(1, 2), rng.chance(1, 3));
    let e = if adia { 3 } else { 2 };
    let s = *rng.pick(&[8usize, 8, 13, 13, 40, 40, 40, 96]);
    let dom = crate::fv::domain(rng, s);
    let (w, x) = (crate::fv::boundary(rng, e), crate::fv::boundary(rng, e));
    let (c, mode, asc) = problem(rng, e, s, w, x, hll, dom);
    let amp = *rng.pick(&[0.05, 0.3, 0.3, 0.7, 0.99, 1e-6]);
    let mut prim = random_prim(rng, e, s, amp);
    if rng.chance(1, 3) {
        prim.row_mut(0).mapv_inplace(|x| x * 0.01 + 1e-7);
    }
    if rng.chance(1, 6) {
        prim.row_mut(1).fill(0.0);
    }
    if rng.chance(1, 6) {
        prim.row_mut(1).mapv_inplace(|x| x + if x > 0.0 { 4.0 } else { -4.0 });
    }
    let cs = Array1::from_elem(s, 0.5 + rng.unit());
    // exponents of density, velocity and length
    let small = |rng: &mut Rng, m: i64| if rng.chance(1, 4) { 0 } else { rng.int(-m, m) };
    let d = if rng.chance(1, 6) { rng.int(-260, 260) } else { small(rng, 100) };
    // tolerances are one number for quantities of different dimension: no other velocities with step control
    let v = if asc { 0 } else { small(rng, 50) };
    let a = small(rng, 100);
    let mut c2 = c.clone();
    let mut p2 = prim.clone();
    p2.row_mut(0).mapv_inplace(|x| x * two(d));
    p2.row_mut(1).mapv_inplace(|x| x * two(v));
    if adia {
        p2.row_mut(2).mapv_inplace(|x| x * two(d) * two(2 * v));
    }
    let cs2 = &cs * two(v);
    c2.mesh_config.xi_in *= two(a);
    c2.mesh_config.xi_out *= two(a);
    let n = &mut c2.numerics_config;
    let t = two(a - v);
    n.t0 *= t;
    n.t_end *= t;
    n.dt_min *= t;
    n.dt_max *= t;
    let TimeIntegrationConfig::Rkf(r) = &mut n.time_integration_config;
    r.asc_absolute_tolerance *= two(d);
    let (o1, o2) = (start(s, &c, adia, hll, &prim, &cs), start(s, &c2, adia, hll, &p2, &cs2));
    let n = o1.shots.len().max(o2.shots.len());
    let every = 1 + n / 12;
    let mut steps = vec![];
    for i in (0..n).filter(|i| i % every == 0 || i + 1 == n || *i < 3) {
        let f = |g: &dyn Fn(&Shot) -> Vec<f64>| shift(&field(&o1.shots, i, g), &field(&o2.shots, i, g));
        let row = |k: usize, cons: bool| f(&move |x: &Shot| if cons { x.cons.row(k).to_vec() } else { x.prim.row(k).to_vec() });
        let mut q = json!({"rho": row(0, false), "v": row(1, false), "m": row(1, true), "d": row(0, true),
            "c": f(&|x| x.c.to_vec()), "lam": f(&|x| x.lam.iter().copied().collect()), "t": f(&|x| vec![x.t]), "dt": f(&|x| vec![x.dt])});
        if adia {
            q["p"] = json!(row(2, false));
            q["E"] = json!(row(2, true));
        }
        steps.push(q);
    }
    json!({"ev": "scale", "id": id, "ph": if adia { "adia" } else { "isot" }, "fl": if hll { "hll" } else { "kt" }, "s": s, "mode": format!("{mode:?}"), "asc": asc,
        "d": d, "v": v, "a": a, "res": [o1.res, o2.res], "n": [o1.shots.len(), o2.shots.len()],
        "xi": shift(&o1.xi, &o2.xi), "w": shift(&[o1.w], &[o2.w]), "steps": steps})
}
fn cell_digests(x: &Shot, s: usize) -> Vec<u32> {
    (0..s)
        .map(|i| {
            let mut h = 0xcbf29ce484222325u64;
            let z = |x: &f64| if *x == 0.0 { 0.0 } else { *x };
            x.prim.column(i).iter().chain(x.cons.column(i)).chain(x.lam.column(i)).chain(&[x.c[i]]).for_each(|y| fnv(&mut h, z(y)));
            (h >> 33) as u32
        })
        .collect()
}
fn shift_case(id: usize, rng: &mut Rng) -> Value {
    let (adia, hll) = (rng.chance(1, 2), rng.chance(1, 3));
    let e = if adia { 3 } else { 2 };
    let pick = |rng: &mut Rng| *rng.pick(&[96usize, 96, 131, 131, 270]);
    let (s1, s2) = (pick(rng), pick(rng));
    // faces and centres are representable, and none of them is at zero
    let dx = two(rng.int(-8, 6));
    let lo = |rng: &mut Rng, s: usize| {
        let k = if rng.chance(1, 2) { rng.int(3, 4000) } else { -(rng.int(3, 4000) + s as i64) };
        k as f64 * dx
    };
    let (l1, l2) = (lo(rng, s1), lo(rng, s2));
    let d1 = (l1, l1 + dx * (s1 as f64 - 4.0));
    let d2 = (l2, l2 + dx * (s2 as f64 - 4.0));
    let bc = |rng: &mut Rng| match rng.below(2) {
        0 => BoundaryMode::NoGradients,
        _ => BoundaryMode::Custom((0..e).rev().map(|j| (j, CustomBoundaryMode::NoGradients)).collect()),
    };
    let (w, x) = (bc(rng), bc(rng));
    let (mut c, mode, asc) = problem(rng, e, s1, w, x, hll, d1);
    // times are measured in cells
    let st = crate::driver::stages(mode);
    let width = rng.int(1, 14) as usize;
    let room = (s1.min(s2) - 4 - width) / 2;
    let reach = 2 * st;
    let steps = (1 + rng.below((room - 6) / reach)).min(25);
    c.numerics_config.iter_max = steps;
    let m = reach * steps + 2;
    let mut c2 = c.clone();
    c2.mesh_config.xi_in = d2.0;
    c2.mesh_config.xi_out = d2.1;
    let place = |rng: &mut Rng, s: usize| 2 + m + rng.below(s - 4 - width - 2 * m + 1);
    let (p1, p2) = (place(rng, s1), place(rng, s2));
    let amp = *rng.pick(&[0.05, 0.3, 0.6, 0.9]);
    let v0 = rng.dyadic(-2.0, 2.0, 8.0);
    let cell = |rng: &mut Rng, f: f64| {
        let mut v = vec![1.0 + f * amp * (rng.unit() - 0.5), v0 + f * amp * (rng.unit() - 0.5) * 2.0];
        if e > 2 {
            v.push(1.0 + f * amp * (rng.unit() - 0.5));
        }
        v
    };
    let left = cell(rng, 1.0);
    let right = if rng.chance(1, 2) { left.clone() } else { cell(rng, 1.0) };
    let body: Vec<_> = (0..width).map(|_| cell(rng, 1.0)).collect();
    let build = |s: usize, p: usize| {
        Array2::from_shape_fn((e, s), |(j, i)| if i < p { left[j] } else if i < p + width { body[i - p][j] } else { right[j] })
    };
    let cs = 0.5 + rng.unit();
    let (o1, o2) = (
        start(s1, &c, adia, hll, &build(s1, p1), &Array1::from_elem(s1, cs)),
        start(s2, &c2, adia, hll, &build(s2, p2), &Array1::from_elem(s2, cs)),
    );
    let n = o1.shots.len().max(o2.shots.len());
    let mut list = vec![];
    for i in (0..n).filter(|i| *i < 2 || i + 1 == n || rng.chance(1, 3)) {
        let g = |o: &Out, s: usize| o.shots.get(i).map(|x| cell_digests(x, s)).unwrap_or_default();
        let h = |o: &Out| o.shots.get(i).map(|x| digest(&[x.t, x.dt])).unwrap_or_default();
        list.push(json!({"a": g(&o1, s1), "b": g(&o2, s2), "ta": h(&o1), "tb": h(&o2)}));
    }
    json!({"ev": "shift", "id": id, "ph": if adia { "adia" } else { "isot" }, "fl": if hll { "hll" } else { "kt" }, "s": [s1, s2], "mode": format!("{mode:?}"), "asc": asc,
        "at": [p1, p2], "width": width, "margin": m, "res": [o1.res, o2.res], "n": [o1.shots.len(), o2.shots.len()], "steps": list})
}
pub fn run(cmd: &str, count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 300_000 + id as u64 + if cmd == "sym-scale" { 0 } else { 50_000 });
        emit(if cmd == "sym-scale" { scale_case(id, &mut rng) } else { shift_case(id, &mut rng) });
    }
}
