//! Whole runs of real physics and fluxes: recorded states, evaluations, and pairs of related runs.
use crate::fv::*;
use crate::scripted::*;
use crate::util::*;
use corries::prelude::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

type T<P, const E: usize, const S: usize> = RecT<RungeKuttaFehlberg<P, E, S>>;

pub struct Sim {
    pub init: Option<Place>,
    pub steps: Vec<StepRec>,
    pub err: String,
    pub res: &'static str,
    pub calls: usize,
}
/// One run with recording, ended by the iteration limit at the latest.
pub fn simulate<P, N, const E: usize, const S: usize>(config: &CorriesConfig, prim: &Array2<f64>, c: &Array1<f64>, full: bool) -> Sim
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    simulate_with::<P, N, E, S>(config, prim, c, full, false)
}
pub fn simulate_rec<P, N, const E: usize, const S: usize>(config: &CorriesConfig, prim: &Array2<f64>, c: &Array1<f64>) -> Sim
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    simulate_with::<P, N, E, S>(config, prim, c, false, true)
}
fn simulate_with<P, N, const E: usize, const S: usize>(config: &CorriesConfig, prim: &Array2<f64>, c: &Array1<f64>, full: bool, evals: bool) -> Sim
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    reset_world();
    set_cfl_param(config.numerics_config.dt_cfl_param);
    world(|w| {
        w.init = Some(prim.clone());
        w.init_c = Some(c.clone());
        w.record_full = full;
        w.record_evals = evals;
        w.max_evals = 2000;
        w.max_steps = 500;
    });
    let mut init = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut k = config.init_corries::<P, RecFlux<N>, T<P, E, S>, E, S>(scr_init::<P, RecFlux<N>, T<P, E, S>, E, S>)?;
        init = Some(Place::of(&k.0.cent));
        k.run_corries()
    }));
    let (res, err) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{e:?}")),
        Err(_) => ("panic", String::new()),
    };
    if std::env::var("HDEBUG").is_ok() {
        eprintln!("{res} {err}");
    }
    Sim { init, steps: world(|w| std::mem::take(&mut w.steps)), err, res, calls: world(|w| w.init_calls) }
}

pub const MODES: [RKFMode; 9] = crate::driver::MODES;
pub fn set_scheme(c: &mut CorriesConfig, rng: &mut Rng) -> (RKFMode, bool) {
    let asc = rng.chance(1, 3);
    let mode = if asc { *rng.pick(&crate::driver::EMBEDDED) } else { *rng.pick(&MODES) };
    c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: mode,
        asc,
        asc_relative_tolerance: *rng.pick(&[0.01, 0.001, 0.1]),
        asc_absolute_tolerance: *rng.pick(&[0.001, 0.1]),
        asc_timestep_friction: *rng.pick(&[0.08, 0.5, 0.01]),
    });
    (mode, asc)
}
pub struct Sc {
    pub a: f64,
    pub v: f64,
}
impl Sc {
    pub fn pick(rng: &mut Rng) -> Self {
        Sc {
            a: 2f64.powi(if rng.chance(1, 2) { 0 } else { rng.int(-40, 40) as i32 }),
            v: 2f64.powi(if rng.chance(1, 2) { 0 } else { rng.int(-20, 20) as i32 }),
        }
    }
    pub fn p(&self, e: usize) -> Vec<f64> {
        [self.a, self.v, self.a * self.v * self.v][..e].to_vec()
    }
    pub fn u(&self, e: usize) -> Vec<f64> {
        [self.a, self.a * self.v, self.a * self.v * self.v][..e].to_vec()
    }
    pub fn apply(&self, prim: &mut Array2<f64>, c: &mut Array1<f64>) {
        let s = self.p(prim.nrows());
        for (j, mut r) in prim.outer_iter_mut().enumerate() {
            r *= s[j];
        }
        *c *= self.v;
    }
}
fn adia(e: usize) -> &'static str {
    if e == 3 {
        "adia"
    } else {
        "isot"
    }
}
/// projection of one state with everything needed to judge it on its own
#[allow(clippy::too_many_arguments)]
fn state_json<const E: usize, const S: usize>(p: &Place, cons0: &Array2<f64>, c0: &Array1<f64>, sc: &Sc, config: &CorriesConfig, mesh: &Mesh<S>) -> Value {
    let (psc, usc) = (sc.p(E), sc.u(E));
    let gz: Vec<Vec<i64>> = (0..E).map(|j| [0, 1, S - 2, S - 1].iter().map(|i| fx(p.prim[[j, *i]] / psc[j] * 1e10)).collect()).collect();
    let mx = mesh.xi_cent.iter().fold(0.0f64, |x, y| x.max(y.abs())) / 4.0;
    json!({"phys": adia(E), "gam": fx(config.physics_config.adiabatic_index),
        "cons0": scaled(cons0, &usc), "prim": scaled(&p.prim, &psc), "cons": scaled(&p.cons, &usc),
        "c": scaled1(&p.c, sc.v), "c0": scaled1(c0, sc.v), "eig": scaled(&p.eig, &[sc.v; 3]),
        "bcw": mode_names(&config.boundary_condition_west, E), "bce": mode_names(&config.boundary_condition_east, E),
        "gz": gz, "xc": scaled1(&mesh.xi_cent, mx)})
}
fn merge(a: Value, b: Value) -> Value {
    let mut m = a.as_object().unwrap().clone();
    m.extend(b.as_object().unwrap().clone());
    Value::Object(m)
}
/// states whose magnitude leaves the range of the fixed-point representation are not projected
fn in_range(p: &Place, sc: &Sc) -> bool {
    let e = p.prim.nrows();
    let (psc, usc) = (sc.p(e), sc.u(e));
    (0..e).all(|j| p.prim.row(j).iter().all(|x| (x / psc[j]).abs() < 60.0) && p.cons.row(j).iter().all(|x| (x / usc[j]).abs() < 800.0))
        && p.c.iter().all(|x| (x / sc.v).abs() < 60.0)
        && (0..p.prim.ncols()).all(|i| p.prim[[0, i]] / sc.a > 1.0 / 64.0 && (e < 3 || p.prim[[2, i]] / psc[2] > 1.0 / 64.0))
        && (0..p.prim.ncols()).all(|i| p.cons[[0, i]] / sc.a > 1.0 / 64.0)
}

fn cfl_of<P: Physics<E, S> + 'static, const E: usize, const S: usize>(p: &Place, config: &CorriesConfig, mesh: &Mesh<S>) -> f64 {
    let mut u = State::<P, E, S>::new(&config.physics_config);
    u.cent.prim.assign(&p.prim);
    u.cent.cons.assign(&p.cons);
    u.cent.c_sound.assign(&p.c);
    u.cent.eigen_vals.assign(&p.eig);
    let k = config.numerics_config.dt_cfl_param;
    catch_unwind(AssertUnwindSafe(|| u.calc_dt_cfl(k, mesh).unwrap_or(f64::NAN))).unwrap_or(f64::NAN) / (k * mesh.dxi)
}

fn generic<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    recorded::<P, N, E, S>(id, rng, flux, false)
}
fn generic_fine<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    recorded::<P, N, E, S>(id, rng, flux, true)
}
fn recorded<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig, fine: bool)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0, 1.9375]);
    let (bw, be) = (boundary(rng, E), boundary(rng, E));
    let mut m = domain(rng, S);
    while !no_sign_change(m, S) {
        m = domain(rng, S);
    }
    let mut config = base_config(flux, m, gamma, bw, be);
    set_scheme(&mut config, rng);
    config.numerics_config.t_end = 1.0e100;
    config.numerics_config.dt_cfl_param = *rng.pick(&[0.4, 0.25, 0.1, 0.7]);
    config.numerics_config.iter_max = 1 + rng.below(12);
    let sc = Sc::pick(rng);
    let mut prim = state(rng, E, S);
    let mut c = Array1::from_shape_fn(S, |_| 0.5);
    if rng.chance(1, 2) {
        c.iter_mut().for_each(|x| *x = *rng.pick(&[0.5, 0.75]));
    }
    sc.apply(&mut prim, &mut c);
    let mesh = Mesh::<S>::new(&config.mesh_config).expect("mesh");
    let sim = simulate::<P, N, E, S>(&config, &prim, &c, true);
    let (name, theta) = match flux {
        NumFluxConfig::Kt { limiter_mode } => lim_name(limiter_mode),
        _ => ("none", 0.0),
    };
    let psc = sc.p(E);
    let emit_state = |place: &Place, cons0: &Array2<f64>, wh: &str, extra: Value| {
        if !in_range(place, &sc) {
            return;
        }
        let cflr = cfl_of::<P, E, S>(place, &config, &mesh) * sc.v;
        if fine {
            crate::hp::cfl(id, sc.v, cflr / sc.v, &place.prim, &place.c);
            return;
        }
        let s = state_json::<E, S>(place, cons0, &c, &sc, &config, &mesh);
        let b = json!({"ev": "st", "id": id, "wh": wh, "cflr": fx(cflr), "ok": true});
        emit(merge(merge(s, b), extra));
    };
    match &sim.init {
        Some(p) => emit_state(p, &to_cons(&prim, gamma), "init", json!({"prim0": scaled(&prim, &psc), "calls": sim.calls})),
        None if fine => {},
        None => emit(json!({"ev": "st", "id": id, "wh": "noinit", "res": sim.res})),
    }
    for s in &sim.steps {
        let pick = rng.below(s.full.len().max(1));
        for (k, f) in s.full.iter().enumerate() {
            let small = in_range(&f.cent, &sc) && (name == "none" || in_range_faces(f, &sc));
            if k == pick && small && !fine {
                let st = state_json::<E, S>(&f.cent, &f.cent.cons, &c, &sc, &config, &mesh);
                let usc = sc.u(E);
                let mut rate = f.rate.clone();
                rate *= mesh.dxi;
                let rsc: Vec<f64> = usc.iter().map(|x| x * sc.v).collect();
                emit(merge(st, json!({"ev": "fv", "id": id, "flux": if name == "none" {"hll"} else {"kt"}, "lim": name, "theta": fx(theta),
                    "ok": f.ok, "rate": scaled(&rate, &rsc), "fw": scaled(&f.west.cons, &usc), "fe": scaled(&f.east.cons, &usc),
                    "pw": scaled(&f.west.prim, &psc), "pe": scaled(&f.east.prim, &psc), "cw": scaled1(&f.west.c, sc.v), "ce": scaled1(&f.east.c, sc.v)})));
            }
        }
        if let (true, Some(p)) = (s.ok, &s.after) {
            emit_state(p, &p.cons, "step", json!({}));
        }
    }
}
fn in_range_faces(f: &FullEval, sc: &Sc) -> bool {
    let s = f.cent.prim.ncols();
    let cut = |p: &Place| Place {
        prim: p.prim.slice(ndarray::s![.., 1..s - 1]).to_owned(),
        cons: p.cons.slice(ndarray::s![.., 1..s - 1]).to_owned(),
        c: p.c.slice(ndarray::s![1..s - 1]).to_owned(),
        eig: p.eig.clone(),
    };
    in_range(&cut(&f.west), sc) && in_range(&cut(&f.east), sc)
}

macro_rules! dispatch {
    ($f:ident, $rng:expr, $s:expr, $($a:expr),*) => {{
        let k = kt($rng);
        match $rng.below(6) {
            0 => $f::<Euler1DAdiabatic<$s>, Hll<3, $s>, 3, $s>($($a,)* $rng, NumFluxConfig::Hll),
            1 => $f::<Euler1DIsot<$s>, Hll<2, $s>, 2, $s>($($a,)* $rng, NumFluxConfig::Hll),
            2 | 3 => $f::<Euler1DAdiabatic<$s>, Kt<3, $s>, 3, $s>($($a,)* $rng, k),
            _ => $f::<Euler1DIsot<$s>, Kt<2, $s>, 2, $s>($($a,)* $rng, k),
        }
    }};
}
macro_rules! command {
    // the last size is a rare large one
    ($name:ident, $f:ident, $stream:expr, $($s:expr),*; $l:expr) => {
        pub fn $name(count: usize, seed: u64) {
            let n = [$($s),*].len();
            for id in 0..count {
                let mut rng = Rng::new(seed, $stream + id as u64);
                if rng.chance(1, 40) {
                    dispatch!($f, &mut rng, $l, id);
                    continue;
                }
                let pick = rng.below(n);
                let mut k = 0;
                $(
                    if k == pick { dispatch!($f, &mut rng, $s, id) }
                    k += 1;
                )*
                let _ = k;
            }
        }
    };
}
command!(states, generic, 50_000, 6, 9, 14; 75);
command!(fine_cases, generic_fine, 55_000, 6, 9; 30);

/// largest deviation of two arrays of conserved variables, in units of machine epsilon times the natural size of
/// the variables
fn dev(a: &Array2<f64>, b: &Array2<f64>, size: &[f64]) -> i64 {
    let mut d: f64 = 0.0;
    for ((j, i), x) in a.indexed_iter() {
        let y = (x - b[[j, i]]).abs() / (f64::EPSILON * size[j]);
        if !y.is_finite() {
            return BAD;
        }
        d = d.max(y);
    }
    q(d, 1.0)
}
/// natural sizes of density, momentum and energy: momentum is measured against density times signal speed
fn sizes_of(prim: &Array2<f64>, cons: &Array2<f64>, c: &Array1<f64>) -> Vec<f64> {
    let e = prim.nrows();
    let mx = |it: &mut dyn Iterator<Item = f64>| it.fold(0.0f64, |x, y| x.max(y.abs()));
    let rho = mx(&mut prim.row(0).iter().cloned());
    let v = mx(&mut prim.row(1).iter().zip(c.iter()).map(|(v, c)| v.abs() + c));
    let mut s = vec![rho, rho * v];
    if e > 2 {
        s.push(mx(&mut cons.row(2).iter().cloned()));
    }
    s
}
fn dts(s: &Sim) -> Vec<bool> {
    s.steps.iter().map(|x| x.ok).collect()
}

/// C09
fn uniform<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let any = 1.0 + 1e-3 + rng.unit() * 0.9;
    let gamma = *rng.pick(&[1.4, 1.1, 5.0 / 3.0, 1.99, any]);
    let bc = |rng: &mut Rng| match rng.below(3) {
        0 => BoundaryMode::NoGradients,
        1 => BoundaryMode::Custom((0..E).map(|j| (j, CustomBoundaryMode::NoGradients)).collect()),
        _ => BoundaryMode::Custom((0..E).map(|j| (j, CustomBoundaryMode::Extrapolate)).collect()),
    };
    let (bw, be) = (bc(rng), bc(rng));
    let extra = [&bw, &be].iter().any(|b| matches!(b, BoundaryMode::Custom(v) if matches!(v[0].1, CustomBoundaryMode::Extrapolate)));
    let mut config = base_config(flux, domain(rng, S), gamma, bw, be);
    let (mode, asc) = set_scheme(&mut config, rng);
    config.numerics_config.t_end = 1.0e300;
    config.numerics_config.dt_cfl_param = *rng.pick(&[0.4, 0.25, 0.1]);
    config.numerics_config.iter_max = 1 + rng.below(20);
    let rho = 10f64.powf(rng.unit() * 16.0 - 8.0);
    let c = 10f64.powf(rng.unit() * 8.0 - 4.0);
    // Mach numbers from rest to strongly supersonic
    let mach = *rng.pick(&[0.0, 1e-9, 0.1, 0.99, 1.0, 1.3, 5.0, 40.0, 2.0e3, 1.0e5]) * if rng.chance(1, 2) { -1.0 } else { 1.0 };
    let v = mach * c;
    let p = c * c * rho / gamma;
    let dxi = (config.mesh_config.xi_out - config.mesh_config.xi_in) / (S as f64 - 4.0);
    if extra && asc {
        // without an error to control the width would leave the stable range
        config.numerics_config.dt_max = 0.4 * dxi / (v.abs() + c);
    }
    let prim = Array2::from_shape_fn((E, S), |(j, _)| [rho, v, p][j]);
    let cs = Array1::from_elem(S, c);
    let u0 = to_cons(&prim, gamma);
    let size = sizes_of(&prim, &u0, &cs);
    let psize = [size[0], v.abs() + c, if E > 2 { size[2] } else { 1.0 }];
    let sim = simulate::<P, N, E, S>(&config, &prim, &cs, true);
    let mut devs = vec![];
    if let Some(p) = &sim.init {
        devs.push(dev(&p.cons, &u0, &size).max(dev(&p.prim, &prim, &psize)));
    }
    for s in &sim.steps {
        let p = s.after.as_ref().unwrap();
        devs.push(dev(&p.cons, &u0, &size).max(dev(&p.prim, &prim, &psize)));
    }
    let lim = match flux { NumFluxConfig::Kt { limiter_mode } => lim_name(limiter_mode).0, _ => "none" };
    emit(json!({"ev": "uni", "id": id, "phys": adia(E), "lim": lim, "mode": format!("{mode:?}"), "asc": asc, "stages": crate::driver::stages(mode),
        "mach": (mach * 100.0) as i64, "extra": extra, "dev": devs, "oks": dts(&sim), "n": config.numerics_config.iter_max, "limit": sim.err.contains("iter") , "err": sim.err.chars().take(120).collect::<String>()}));
}
command!(uniform_runs, uniform, 60_000, 6, 11, 24; 270);

/// every cell but the outermost `skip` ones is finite with positive density and pressure
pub fn admissible(p: &Place, skip: usize) -> bool {
    let s = p.prim.ncols();
    (skip..s - skip).all(|i| {
        (0..p.prim.nrows()).all(|j| p.prim[[j, i]].is_finite() && p.cons[[j, i]].is_finite())
            && p.prim[[0, i]] > 0.0
            && (p.prim.nrows() < 3 || p.prim[[2, i]] > 0.0)
    })
}

/// C10
fn mirrored<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0]);
    let nok = |b: &BoundaryMode| matches!(b, BoundaryMode::Custom(v) if v.iter().any(|x| matches!(x.1, CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler)
        // the outflow conditions look at the sign of their variable, which is a direction only for the velocity
        || x.0 != 1 && matches!(x.1, CustomBoundaryMode::OutflowNoGradients | CustomBoundaryMode::OutFlowExtrapolate)));
    let pickbc = |rng: &mut Rng| loop {
        let b = boundary(rng, E);
        if !nok(&b) {
            return b;
        }
    };
    let (bw, be) = (pickbc(rng), pickbc(rng));
    let mut config = base_config(flux, domain(rng, S), gamma, bw.clone(), be.clone());
    let (mode, asc) = set_scheme(&mut config, rng);
    config.numerics_config.t_end = 1.0e300;
    config.numerics_config.dt_cfl_param = *rng.pick(&[0.4, 0.2, 0.1]);
    config.numerics_config.iter_max = 1 + rng.below(6);
    let sc = Sc::pick(rng);
    let mut prim = state(rng, E, S);
    if asc {
        // an error estimate at rounding level would make the widths arbitrary
        for i in 0..S {
            prim[[0, i]] *= 1.0 + 0.25 * rng.unit();
            prim[[1, i]] += 0.25 * rng.unit();
        }
    }
    // outflow conditions switch at zero velocity
    for i in 0..S {
        if prim[[1, i]].abs() < 1e-3 {
            prim[[1, i]] = 1.0 / 64.0;
        }
    }
    let mut c = Array1::from_elem(S, 0.5);
    if rng.chance(1, 2) {
        c.iter_mut().for_each(|x| *x = *rng.pick(&[0.5, 0.75]));
    }
    sc.apply(&mut prim, &mut c);
    let flip = |a: &Array2<f64>| Array2::from_shape_fn((E, S), |(j, i)| if j == 1 { -a[[j, S - 1 - i]] } else { a[[j, S - 1 - i]] });
    let a = simulate::<P, N, E, S>(&config, &prim, &c, true);
    let mut mc = config.clone();
    mc.boundary_condition_west = be;
    mc.boundary_condition_east = bw;
    let rc = Array1::from_shape_fn(S, |i| c[S - 1 - i]);
    let b = simulate::<P, N, E, S>(&mc, &flip(&prim), &rc, true);
    let kt = matches!(flux, NumFluxConfig::Kt { .. });
    // outflow conditions switch with the sign of the velocity: the branch taken at zero is arbitrary
    let outflow = [&config.boundary_condition_west, &config.boundary_condition_east]
        .iter()
        .any(|b| mode_names(b, E)[1].to_lowercase().starts_with("outflow"));
    let clear = |p: &Place| !outflow || [2, S - 3].iter().all(|i| p.prim[[1, *i]].abs() > 1e-6 * p.c[*i]);
    let sound = |p: &Place, skip: usize| {
        let far = |j: usize| {
            let top = p.prim.row(j).iter().fold(0.0f64, |x, y| x.max(*y));
            (skip..S - skip).all(|i| p.prim[[j, i]] > 1e-6 * top)
        };
        admissible(p, skip) && far(0) && (E < 3 || far(2))
    };
    let adm = |s: &Sim| -> Vec<bool> {
        s.steps.iter().map(|x| x.full.iter().all(|f| sound(&f.cent, 0) && clear(&f.cent) && (!kt || sound(&f.west, 1) && sound(&f.east, 1)))
            && (!x.ok || sound(x.after.as_ref().unwrap(), 0) && clear(x.after.as_ref().unwrap()))).collect()
    };
    let mut dv = vec![];
    let mut dt = vec![];
    for (x, y) in a.steps.iter().zip(b.steps.iter()) {
        let (p, r) = (x.after.as_ref().unwrap(), y.after.as_ref().unwrap());
        if !(x.ok && y.ok) {
            break;
        }
        let size = sizes_of(&p.prim, &p.cons, &p.c);
        // a small error estimate carries more relative noise
        let unit = if asc { 1000.0 } else { 1.0 };
        let size: Vec<f64> = size.iter().map(|x| x * unit).collect();
        dv.push(dev(&flip(&p.cons), &r.cons, &size));
        dt.push(q((x.dt - y.dt).abs() / (f64::EPSILON * x.dt * unit), 1.0));
    }
    let lim = match flux { NumFluxConfig::Kt { limiter_mode } => lim_name(limiter_mode).0, _ => "none" };
    emit(json!({"ev": "mir", "id": id, "phys": adia(E), "lim": lim, "mode": format!("{mode:?}"), "asc": asc, "stages": crate::driver::stages(mode),
        "inits": a.init.is_some() && b.init.is_some(), "oka": dts(&a), "okb": dts(&b), "adma": adm(&a), "admb": adm(&b), "dv": dv, "dt": dt,
        "bcw": mode_names(&config.boundary_condition_west, E), "bce": mode_names(&config.boundary_condition_east, E)}));
}
command!(mirror_runs, mirrored, 70_000, 6, 9, 15; 270);

/// C08: totals of a run whose ends are uniform and equal
fn totals<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0]);
    let mut config = base_config(flux, domain(rng, S), gamma, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    let (mode, asc) = set_scheme(&mut config, rng);
    config.numerics_config.t_end = 1.0e300;
    config.numerics_config.dt_cfl_param = *rng.pick(&[0.4, 0.2, 0.1]);
    config.numerics_config.iter_max = 1 + rng.below(10);
    let sc = Sc::pick(rng);
    let mut prim = state(rng, E, S);
    let back: Vec<f64> = (0..E).map(|j| prim[[j, 0]]).collect();
    let half = 1 + rng.below(4);
    let mid = S / 2 + rng.below(3) - 1;
    let (lo, hi) = (mid - half, mid + half);
    for j in 0..E {
        for i in 0..S {
            if i < lo || i > hi {
                prim[[j, i]] = back[j];
            }
        }
    }
    let mut c = Array1::from_elem(S, 0.5);
    sc.apply(&mut prim, &mut c);
    let sim = simulate::<P, N, E, S>(&config, &prim, &c, true);
    let mut res = vec![];
    if let Some(p0) = &sim.init {
        let sum = |a: &Array2<f64>, j: usize| a.row(j).slice(ndarray::s![2..S - 2]).sum();
        for s in sim.steps.iter().filter(|s| s.ok) {
            let p = s.after.as_ref().unwrap();
            let size = sizes_of(&p.prim, &p.cons, &p.c);
            let size0 = sizes_of(&p0.prim, &p0.cons, &p0.c);
            res.push((0..E).map(|j| q((sum(&p.cons, j) - sum(&p0.cons, j)).abs() / (f64::EPSILON * size[j].max(size0[j]) * S as f64), 1.0)).max().unwrap());
        }
    }
    let lim = match flux { NumFluxConfig::Kt { limiter_mode } => lim_name(limiter_mode).0, _ => "none" };
    emit(json!({"ev": "tot", "id": id, "n": S, "flux": if lim == "none" {"hll"} else {"kt"}, "phys": adia(E), "lim": lim, "mode": format!("{mode:?}"),
        "asc": asc, "stages": crate::driver::stages(mode), "lo": lo + 1, "hi": hi + 1, "res": res}));
}
command!(total_runs, totals, 80_000, 40, 64, 101; 270);

/// C08, C24: evaluations of two states which differ in a few cells
fn pair<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0]);
    let (bw, be) = (boundary(rng, E), boundary(rng, E));
    let mut m = domain(rng, S);
    while !no_sign_change(m, S) {
        m = domain(rng, S);
    }
    let config = base_config(flux, m, gamma, bw.clone(), be.clone());
    let mesh = Mesh::<S>::new(&config.mesh_config).expect("mesh");
    let sc = Sc::pick(rng);
    let mut prim = state(rng, E, S);
    let other = state(rng, E, S);
    let mut c = Array1::from_elem(S, 0.5);
    let mut prim2 = prim.clone();
    let mut cells: Vec<usize> = vec![];
    for _ in 0..rng.below(4) {
        let i = if rng.chance(1, 2) { rng.below(S) } else { 4 + rng.below(S - 8) };
        if !cells.contains(&i) {
            cells.push(i);
        }
        // one variable, or all
        let one = rng.below(E + 1);
        for j in 0..E {
            if one == E || one == j {
                prim2[[j, i]] = if rng.chance(1, 4) { prim[[j, i]] * (1.0 + f64::EPSILON * 4.0) } else { other[[j, i]] };
            }
        }
    }
    sc.apply(&mut prim, &mut c);
    sc.apply(&mut prim2, &mut Array1::zeros(S));
    let eval = |rhs: &mut Rhs<N, E, S>, u: &mut State<P, E, S>, p: &Array2<f64>| -> Option<Array2<f64>> {
        u.cent.prim.assign(p);
        u.cent.cons.assign(&to_cons(p, gamma));
        u.cent.c_sound.assign(&c);
        u.init_west_east();
        catch_unwind(AssertUnwindSafe(|| rhs.update(u, &mesh).ok().map(|_| rhs.full_rhs.clone()))).unwrap_or(None)
    };
    let fresh = || (Rhs::<N, E, S>::new(&config, &mesh).expect("rhs"), State::<P, E, S>::new(&config.physics_config));
    let (mut r1, mut u1) = fresh();
    let a = eval(&mut r1, &mut u1, &prim);
    let flux_size = |u: &State<P, E, S>| -> Vec<f64> {
        let (mut a, mut pr, mut m) = (0.0f64, 0.0f64, vec![0.0f64; E]);
        let mut add = |p: &Place, skip: usize| {
            for i in skip..S - skip {
                a = a.max(p.prim[[1, i]].abs()).max(p.c[i]);
                pr = pr.max(if E > 2 { p.prim[[2, i]].abs() } else { p.c[i] * p.c[i] * p.prim[[0, i]].abs() });
                for j in 0..E {
                    m[j] = m[j].max(p.cons[[j, i]].abs());
                }
            }
        };
        add(&Place::of(&u.cent), 0);
        if matches!(flux, NumFluxConfig::Kt { .. }) {
            add(&Place::of(&u.west), 1);
            add(&Place::of(&u.east), 1);
        }
        (0..E).map(|j| 2.0 * a * m[j] + if j == 1 { pr } else if j == 2 { a * pr } else { 0.0 }).collect()
    };
    let f1 = flux_size(&u1);
    let faces = matches!(flux, NumFluxConfig::Kt { .. });
    let adm = admissible(&Place::of(&u1.cent), 0) && (!faces || admissible(&Place::of(&u1.west), 1) && admissible(&Place::of(&u1.east), 1));
    let (mut r2, mut u2) = fresh();
    let b = eval(&mut r2, &mut u2, &prim2);
    let f2 = flux_size(&u2);
    // the same state again: on the used object, on the object used for something else, and twice without restoring
    let again = eval(&mut r1, &mut u1, &prim);
    let reused = eval(&mut r2, &mut u2, &prim);
    let idem = catch_unwind(AssertUnwindSafe(|| r2.update(&mut u2, &mesh).ok().map(|_| r2.full_rhs.clone()))).unwrap_or(None);
    let same = |x: &Option<Array2<f64>>, y: &Option<Array2<f64>>| match (x, y) {
        (Some(x), Some(y)) => digest(x.iter()) == digest(y.iter()),
        (None, None) => true,
        _ => false,
    };
    let mut changed = vec![];
    let mut ghosts = vec![];
    let mut resid = vec![];
    if let (Some(x), Some(y)) = (&a, &b) {
        for i in 0..S {
            if (0..E).any(|j| x[[j, i]] != y[[j, i]]) {
                changed.push(i + 1);
            }
            if (i < 2 || i > S - 3) && (0..E).any(|j| x[[j, i]] != 0.0 || y[[j, i]] != 0.0) {
                ghosts.push(i + 1);
            }
        }
        for j in 0..E {
            let f = f1[j] + f2[j];
            let sum = |z: &Array2<f64>| (0..S).map(|i| z[[j, i]]).sum::<f64>() * mesh.dxi;
            resid.push(q((sum(x) - sum(y)).abs() / (f64::EPSILON * f * S as f64), 1.0));
        }
    }
    // the second call without restoring starts from conserved variables which have been through the primitive ones
    let near = match (&reused, &idem) {
        (Some(x), Some(y)) => (0..E).map(|j| (0..S).map(|i| q((x[[j, i]] - y[[j, i]]).abs() * mesh.dxi / (f64::EPSILON * f1[j]), 1.0)).max().unwrap()).max().unwrap(),
        (None, None) => 0,
        _ => BAD,
    };
    let lim = match flux { NumFluxConfig::Kt { limiter_mode } => lim_name(limiter_mode).0, _ => "none" };
    emit(json!({"ev": "pair", "id": id, "n": S, "flux": if lim == "none" {"hll"} else {"kt"}, "lim": lim, "cells": cells.iter().map(|x| x + 1).collect::<Vec<_>>(),
        "oka": a.is_some(), "okb": b.is_some(), "changed": changed, "ghosts": ghosts, "resid": resid, "again": same(&a, &again), "reused": same(&a, &reused),
        "near": near, "adm": adm, "bcw": mode_names(&bw, E), "bce": mode_names(&be, E)}));
}
command!(pairs, pair, 90_000, 10, 13, 16; 270);
