//! Evaluations of the real right-hand side, reconstruction and boundary conditions, projected to fixed point.
use crate::hp::*;
use crate::util::*;
use corries::prelude::*;
use corries::variables::Variables;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CUSTOM: [CustomBoundaryMode; 8] = [
    CustomBoundaryMode::Extrapolate,
    CustomBoundaryMode::ExtrapolateDensityKepler,
    CustomBoundaryMode::ExtrapolateEtaVelocityKepler,
    CustomBoundaryMode::NearZero,
    CustomBoundaryMode::NoGradients,
    CustomBoundaryMode::OutflowNoGradients,
    CustomBoundaryMode::OutFlowExtrapolate,
    CustomBoundaryMode::Reflecting,
];
pub type Modes = Vec<(usize, CustomBoundaryMode)>;

pub fn limiters(rng: &mut Rng) -> LimiterMode {
    match rng.below(6) {
        0 => LimiterMode::NoLimiter,
        1 => LimiterMode::MinMod,
        2 => LimiterMode::Superbee,
        3 | 4 => LimiterMode::Monocent(*rng.pick(&[1.0625, 1.25, 1.5, 1.75, 2.0])),
        _ => LimiterMode::VanLeer,
    }
}
pub fn lim_name(l: LimiterMode) -> (&'static str, f64) {
    match l {
        LimiterMode::NoLimiter => ("NoLimiter", 0.0),
        LimiterMode::MinMod => ("MinMod", 0.0),
        LimiterMode::Superbee => ("Superbee", 0.0),
        LimiterMode::Monocent(p) => ("Monocent", p),
        LimiterMode::VanLeer => ("VanLeer", 0.0),
    }
}
/// effective mode of every variable: a later entry for the same variable overrides an earlier one
pub fn mode_names(m: &BoundaryMode, e: usize) -> Vec<String> {
    (0..e)
        .map(|j| match m {
            BoundaryMode::NoGradients => "NoGradients".to_string(),
            BoundaryMode::Custom(v) => {
                v.iter().rev().find(|x| x.0 == j).map(|x| format!("{:?}", x.1)).unwrap_or_else(|| "none".into())
            },
        })
        .collect()
}
pub fn base_config(flux: NumFluxConfig, mesh: (f64, f64), gamma: f64, w: BoundaryMode, e: BoundaryMode) -> CorriesConfig {
    CorriesConfig {
        print_banner: false,
        mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: mesh.0, xi_out: mesh.1 },
        physics_config: PhysicsConfig { adiabatic_index: gamma, units_mode: UnitsMode::SI },
        boundary_condition_west: w,
        boundary_condition_east: e,
        numerics_config: NumericsConfig {
            numflux_config: flux,
            time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig {
                rkf_mode: RKFMode::RK1,
                asc: false,
                asc_relative_tolerance: 0.001,
                asc_absolute_tolerance: 0.001,
                asc_timestep_friction: 0.08,
            }),
            iter_max: 1_000_000,
            t0: 0.0,
            t_end: 1.0,
            dt_min: 1.0e-300,
            dt_max: 1.0e300,
            dt_cfl_param: 0.4,
        },
        output_counter_max: 1,
        writer_config: vec![],
    }
}
/// Domains without a face or centre at coordinate zero.
pub fn domain(rng: &mut Rng, s: usize) -> (f64, f64) {
    loop {
        let lo = match rng.below(6) {
            0 => 1.0,
            1 => rng.dyadic(-40.0, 40.0, 16.0),
            2 => 1000.0 * rng.unit(),
            3 => -2.5,
            4 => 0.3,
            _ => 8.0,
        };
        let width = match rng.below(4) {
            0 => 1.0,
            1 => rng.dyadic(0.0625, 20.0, 16.0),
            2 => 0.01 + rng.unit(),
            _ => 500.0 * rng.unit() + 1.0,
        };
        let hi = lo + width;
        let dx = width / (s as f64 - 4.0);
        let near = (0..=2 * s + 2).any(|k| (lo + dx * (k as f64 * 0.5 - 2.0)).abs() < 0.05 * dx);
        if !near {
            return (lo, hi);
        }
    }
}
/// Admissible primitive variables (dyadic, order one).
pub fn state(rng: &mut Rng, e: usize, s: usize) -> Array2<f64> {
    let mut a = Array2::zeros((e, s));
    let v0 = match rng.below(5) {
        0 => 0.0,
        1 => 5.0,
        2 => -5.0,
        _ => rng.dyadic(-2.0, 2.0, 64.0),
    };
    let kind = rng.below(6);
    let jump = rng.below(s);
    let (l, r) = (cell(rng, v0), cell(rng, v0));
    let sl = (rng.dyadic(-0.125, 0.125, 256.0), rng.dyadic(-0.25, 0.25, 256.0), rng.dyadic(-0.125, 0.125, 256.0));
    let noise = *rng.pick(&[0.0, 0.0, 0.0625]);
    for i in 0..s {
        let mut c = match kind {
            0 => cell(rng, v0),
            1 => if i < jump { l } else { r },
            2 => l,
            3 => {
                let x = i as f64 - s as f64 * 0.5;
                (2.0 + sl.0 * x, v0 + sl.1 * x, 2.0 + sl.2 * x)
            },
            4 => if i == jump { r } else { l },
            _ => {
                let x = (i as f64 * *rng.pick(&[0.4, 0.9])).sin();
                (1.5 + 0.5 * x, v0 + x, 1.5 - 0.5 * x)
            },
        };
        if noise > 0.0 && kind != 2 {
            c.0 += noise * rng.unit();
            c.1 += noise * (rng.unit() - 0.5);
        }
        a[[0, i]] = c.0;
        a[[1, i]] = c.1;
        if e > 2 {
            a[[2, i]] = c.2;
        }
    }
    a
}
fn cell(rng: &mut Rng, v0: f64) -> (f64, f64, f64) {
    (
        *rng.pick(&[0.125, 0.25, 0.5, 1.0, 1.0, 2.0, 3.5, 6.0]),
        v0 + rng.dyadic(-1.5, 1.5, 128.0),
        *rng.pick(&[0.125, 0.25, 0.5, 1.0, 1.0, 2.0, 4.0]),
    )
}
pub fn to_cons(p: &Array2<f64>, gamma: f64) -> Array2<f64> {
    let mut u = p.clone();
    for i in 0..p.ncols() {
        u[[1, i]] = p[[0, i]] * p[[1, i]];
        if p.nrows() > 2 {
            u[[2, i]] = p[[2, i]] / (gamma - 1.0) + 0.5 * p[[0, i]] * p[[1, i]] * p[[1, i]];
        }
    }
    u
}
pub fn boundary(rng: &mut Rng, e: usize) -> BoundaryMode {
    let safe = |rng: &mut Rng| match rng.below(6) {
        0 => BoundaryMode::NoGradients,
        1 => BoundaryMode::Custom((0..e).map(|j| (j, CustomBoundaryMode::Extrapolate)).collect()),
        k => BoundaryMode::Custom(
            (0..e)
                .rev()
                .map(|j| {
                    (j, match (j, k) {
                        (1, 2) => CustomBoundaryMode::Reflecting,
                        (1, 3) => CustomBoundaryMode::OutflowNoGradients,
                        (1, 4) => CustomBoundaryMode::OutFlowExtrapolate,
                        (1, _) => CustomBoundaryMode::NearZero,
                        (0, 2) => CustomBoundaryMode::ExtrapolateDensityKepler,
                        _ => CustomBoundaryMode::NoGradients,
                    })
                })
                .collect(),
        ),
    };
    if rng.chance(2, 3) {
        return safe(rng);
    }
    let mut v: Modes = vec![];
    for j in 0..e {
        if rng.chance(5, 6) {
            v.push((j, *rng.pick(&CUSTOM)));
        }
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    BoundaryMode::Custom(v)
}
pub fn no_sign_change(m: (f64, f64), s: usize) -> bool {
    let dx = (m.1 - m.0) / (s as f64 - 4.0);
    (m.0 - 2.0 * dx > 0.0) == (m.1 + 2.0 * dx > 0.0)
}
fn kepler(m: &BoundaryMode) -> bool {
    matches!(m, BoundaryMode::Custom(v) if v.iter().any(|x| matches!(x.1, CustomBoundaryMode::ExtrapolateDensityKepler | CustomBoundaryMode::ExtrapolateEtaVelocityKepler)))
}
pub fn scaled(a: &Array2<f64>, sc: &[f64]) -> Value {
    json!(a.outer_iter().enumerate().map(|(j, r)| r.iter().map(|x| fx(*x / sc[j])).collect::<Vec<_>>()).collect::<Vec<_>>())
}
pub fn scaled1(a: &Array1<f64>, sc: f64) -> Vec<i64> {
    a.iter().map(|x| fx(*x / sc)).collect()
}

/// Domains on which positions are known to many more digits than cells are wide.
fn near_domain(rng: &mut Rng, s: usize) -> (f64, f64) {
    loop {
        let m = domain(rng, s);
        if m.0.abs().max(m.1.abs()) <= 64.0 * (m.1 - m.0) {
            return m;
        }
    }
}
fn eval_case<P, N, const E: usize, const S: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig, fine: bool)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0, 1.0 + 1.0 / 16.0, 1.9375]);
    let (bw, be) = (boundary(rng, E), boundary(rng, E));
    let pick = if fine { near_domain } else { domain };
    let mut m = pick(rng, S);
    while (kepler(&bw) || kepler(&be)) && !no_sign_change(m, S) {
        m = pick(rng, S);
    }
    let config = base_config(flux, m, gamma, bw.clone(), be.clone());
    let mesh = Mesh::<S>::new(&config.mesh_config).expect("mesh");
    let mut u = State::<P, E, S>::new(&config.physics_config);
    let mut rhs = Rhs::<N, E, S>::new(&config, &mesh).expect("rhs");
    // scales of density and velocity
    let a = 2f64.powi(if rng.chance(1, 2) { 0 } else { rng.int(-60, 60) as i32 });
    let v = 2f64.powi(if rng.chance(1, 2) { 0 } else { rng.int(-30, 30) as i32 });
    let psc: Vec<f64> = [a, v, a * v * v][..E].to_vec();
    let usc: Vec<f64> = [a, a * v, a * v * v][..E].to_vec();
    let mut prim = state(rng, E, S);
    if fine && rng.chance(1, 4) {
        // nearly flat profiles
        let tiny = 2f64.powi(-(rng.int(16, 34) as i32));
        for j in 0..E {
            let b = prim[[j, S / 2]];
            for i in 0..S {
                prim[[j, i]] = b * (1.0 + tiny * rng.int(-4, 4) as f64);
            }
        }
    }
    if fine && E > 2 && rng.chance(1, 5) {
        // cold gas
        let cold = 2f64.powi(-(rng.int(6, 34) as i32));
        prim.row_mut(2).mapv_inplace(|p| p * cold);
    }
    let c0: Vec<f64> = (0..S).map(|_| *rng.pick(&[0.5, 0.5, 0.75])).collect();
    let c0: Vec<f64> = if rng.chance(1, 2) { vec![c0[0]; S] } else { c0 };
    for j in 0..E {
        for i in 0..S {
            prim[[j, i]] *= psc[j];
        }
    }
    let cons0 = to_cons(&prim, gamma);
    u.cent.prim.assign(&prim);
    u.cent.cons.assign(&cons0);
    for i in 0..S {
        u.cent.c_sound[i] = c0[i] * v;
    }
    u.init_west_east();
    // a right-hand side object is used more than once
    if rng.chance(1, 3) {
        let mut w = State::<P, E, S>::new(&config.physics_config);
        w.cent.cons.assign(&to_cons(&state(rng, E, S), gamma));
        w.cent.c_sound.fill(v);
        w.init_west_east();
        let _ = catch_unwind(AssertUnwindSafe(|| rhs.update(&mut w, &mesh).is_ok()));
    }
    let ok = catch_unwind(AssertUnwindSafe(|| rhs.update(&mut u, &mesh).is_ok())).unwrap_or(false);
    let (lim, theta) = match flux {
        NumFluxConfig::Kt { limiter_mode } => lim_name(limiter_mode),
        _ => ("none", 0.0),
    };
    let mut rate = rhs.full_rhs.clone();
    rate *= mesh.dxi;
    if fine {
        let faces = lim != "none";
        Case {
            cent: View { prim: &u.cent.prim, cons: &u.cent.cons, c: &u.cent.c_sound, eig: &u.cent.eigen_vals },
            west: faces.then(|| View { prim: &u.west.prim, cons: &u.west.cons, c: &u.west.c_sound, eig: &u.west.eigen_vals }),
            east: faces.then(|| View { prim: &u.east.prim, cons: &u.east.cons, c: &u.east.c_sound, eig: &u.east.eigen_vals }),
            rate: ok.then_some(&rate),
            a,
            v,
            gamma,
            lim,
            theta,
            bcw: mode_names(&bw, E),
            bce: mode_names(&be, E),
            xc: &mesh.xi_cent,
        }
        .emit(id, 2 + rng.below(S - 4));
        return;
    }
    let rsc: Vec<f64> = usc.iter().map(|x| x * v).collect();
    let gz: Vec<Vec<i64>> = (0..E).map(|j| [0, 1, S - 2, S - 1].iter().map(|i| fx(u.cent.prim[[j, *i]] / psc[j] * 1e10)).collect()).collect();
    let mx = mesh.xi_cent.iter().fold(0.0f64, |x, y| x.max(y.abs())) / 4.0;
    emit(json!({"ev": "fv", "id": id, "phys": if E == 3 {"adia"} else {"isot"}, "flux": if lim == "none" {"hll"} else {"kt"},
        "lim": lim, "theta": fx(theta), "gam": fx(gamma), "ok": ok,
        "cons0": scaled(&cons0, &usc), "prim": scaled(&u.cent.prim, &psc), "cons": scaled(&u.cent.cons, &usc),
        "c": scaled1(&u.cent.c_sound, v), "c0": c0.iter().map(|x| fx(*x)).collect::<Vec<_>>(),
        "eig": scaled(&u.cent.eigen_vals, &vec![v; E]), "rate": scaled(&rate, &rsc),
        "fw": scaled(&u.west.cons, &usc), "fe": scaled(&u.east.cons, &usc),
        "pw": scaled(&u.west.prim, &psc), "pe": scaled(&u.east.prim, &psc),
        "cw": scaled1(&u.west.c_sound, v), "ce": scaled1(&u.east.c_sound, v),
        "bcw": mode_names(&bw, E), "bce": mode_names(&be, E), "gz": gz, "xc": scaled1(&mesh.xi_cent, mx)}));
}

pub fn kt(rng: &mut Rng) -> NumFluxConfig {
    NumFluxConfig::Kt { limiter_mode: limiters(rng) }
}
macro_rules! sizes {
    ($f:ident, $n:expr, $id:expr, $rng:expr) => {
        match $n % 4 {
            0 => $f::<6>($id, $rng),
            1 => $f::<7>($id, $rng),
            2 => $f::<9>($id, $rng),
            _ => $f::<12>($id, $rng),
        }
    };
}
fn eval_any<const S: usize>(id: usize, rng: &mut Rng) {
    eval_some::<S>(id, rng, false)
}
fn fine_any<const S: usize>(id: usize, rng: &mut Rng) {
    eval_some::<S>(id, rng, true)
}
fn eval_some<const S: usize>(id: usize, rng: &mut Rng, fine: bool) {
    let k = kt(rng);
    match rng.below(6) {
        0 => eval_case::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>(id, rng, NumFluxConfig::Hll, fine),
        1 => eval_case::<Euler1DIsot<S>, Hll<2, S>, 2, S>(id, rng, NumFluxConfig::Hll, fine),
        2 | 3 => eval_case::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>(id, rng, k, fine),
        _ => eval_case::<Euler1DIsot<S>, Kt<2, S>, 2, S>(id, rng, k, fine),
    }
}
pub fn eval(count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 20_000 + id as u64);
        if rng.chance(1, 60) {
            eval_any::<90>(id, &mut rng);
            continue;
        }
        let n = rng.below(4);
        sizes!(eval_any, n, id, &mut rng);
    }
}

pub fn fine_cases(count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 25_000 + id as u64);
        if rng.chance(1, 60) {
            fine_any::<90>(id, &mut rng);
            continue;
        }
        let n = rng.below(4);
        sizes!(fine_any, n, id, &mut rng);
    }
}

/// Reconstruction of tiny or large variations around a base value.
fn lim_any<const S: usize>(id: usize, rng: &mut Rng) {
    const E: usize = 3;
    let m = domain(rng, S);
    let lim = limiters(rng);
    let flux = NumFluxConfig::Kt { limiter_mode: lim };
    let config = base_config(flux, m, 1.4, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    let mesh = Mesh::<S>::new(&config.mesh_config).expect("mesh");
    let mut u = State::<Euler1DAdiabatic<S>, E, S>::new(&config.physics_config);
    let mut n = Kt::<E, S>::new(&flux, &mesh).expect("kt");
    let kind = rng.below(5);
    let (step, off) = (rng.int(-3000, 3000), rng.int(-2000, 2000));
    let ks: Vec<i64> = (0..S as i64)
        .map(|i| match kind {
            0 => off + step * i,
            1 => rng.int(-30000, 30000),
            2 => rng.int(-3, 3),
            3 => i * i * step.signum() * 100 + off,
            _ => (i % 2) * step + off,
        })
        .collect();
    // only the momentum may be based on zero
    let based = rng.chance(1, 2);
    let tiny = if based { 2f64.powi(-(rng.int(18, 34) as i32)) } else { 2f64.powi(rng.int(-400, 20) as i32) };
    let j = if based { rng.below(3) } else { 1 };
    let base = if based { [1.0, 0.5, 4.0][j] } else { 0.0 };
    for i in 0..S {
        u.cent.cons[[0, i]] = 1.0;
        u.cent.cons[[1, i]] = 0.5;
        u.cent.cons[[2, i]] = 4.0;
        u.cent.cons[[j, i]] = base + tiny * ks[i] as f64;
    }
    u.cent.c_sound.fill(1.0);
    u.init_west_east();
    let mut d = Array2::zeros((E, S));
    let _ = catch_unwind(AssertUnwindSafe(|| n.calc_dflux_dxi(&mut d, &mut u, &mesh).is_ok()));
    let pr = |a: &Array2<f64>| -> Vec<i64> { (0..S).map(|i| q(a[[j, i]] - base, 256.0 / tiny)).collect() };
    let (name, theta) = lim_name(lim);
    emit(json!({"ev": "lim", "id": id, "lim": name, "theta": fx(theta), "linear": kind == 0, "u": pr(&u.cent.cons), "w": pr(&u.west.cons),
        "x": pr(&u.east.cons), "var": j, "based": based}));
}
pub fn lim(count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 30_000 + id as u64);
        let n = rng.below(4);
        sizes!(lim_any, n, id, &mut rng);
    }
}

/// Single applications of one boundary condition object.
fn bc_any<const S: usize>(id: usize, rng: &mut Rng) {
    if rng.chance(1, 2) {
        bc_case::<2, S>(id, rng)
    } else {
        bc_case::<3, S>(id, rng)
    }
}
fn bc_case<const E: usize, const S: usize>(id: usize, rng: &mut Rng) {
    let mut m = domain(rng, S);
    while !no_sign_change(m, S) {
        m = domain(rng, S);
    }
    let mut v: Modes = vec![];
    for j in 0..E {
        if rng.chance(4, 5) {
            v.push((j, *rng.pick(&CUSTOM)));
        }
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    let mode = if rng.chance(1, 8) { BoundaryMode::NoGradients } else { BoundaryMode::Custom(v) };
    let west = rng.chance(1, 2);
    let config = base_config(NumFluxConfig::Hll, m, 1.4, if west { mode.clone() } else { BoundaryMode::NoGradients }, if west { BoundaryMode::NoGradients } else { mode.clone() });
    let mesh = Mesh::<S>::new(&config.mesh_config).expect("mesh");
    let mut vars = Variables::<E, S>::new(&config.physics_config);
    let sc = 2f64.powi(if rng.chance(1, 2) { 0 } else { rng.int(-200, 200) as i32 });
    let mut fill = |a: &mut Array2<f64>| a.iter_mut().for_each(|x| *x = sc * rng.dyadic(-8.0, 8.0, 4096.0));
    fill(&mut vars.prim);
    fill(&mut vars.cons);
    fill(&mut vars.eigen_vals);
    fill(&mut vars.flux);
    vars.c_sound.fill(sc);
    let zero = rng.chance(1, 6);
    if zero {
        let i = if west { 2 } else { S - 3 };
        vars.prim[[rng.below(E), i]] = *rng.pick(&[0.0, -0.0]);
    }
    let before = vars.clone();
    let mut rhs = Rhs::<Hll<E, S>, E, S>::new(&config, &mesh).expect("rhs");
    let panicked = catch_unwind(AssertUnwindSafe(|| {
        let b = if west { &mut rhs.boundary_west } else { &mut rhs.boundary_east };
        for _ in 0..1 + id % 2 {
            b.apply(&mut vars, &mesh);
        }
    }))
    .is_err();
    let mut changed: Vec<Value> = vec![];
    let mut cmp = |n: &str, a: &Array2<f64>, b: &Array2<f64>| {
        for j in 0..E {
            for i in 0..S {
                if a[[j, i]].to_bits() != b[[j, i]].to_bits() {
                    changed.push(json!([n, j + 1, i + 1]));
                }
            }
        }
    };
    cmp("prim", &before.prim, &vars.prim);
    cmp("cons", &before.cons, &vars.cons);
    cmp("eig", &before.eigen_vals, &vars.eigen_vals);
    cmp("flux", &before.flux, &vars.flux);
    if before.c_sound != vars.c_sound || before.gamma != vars.gamma || panicked {
        changed.push(json!(["other", 1, 1]));
    }
    let idx = |g: usize| if west { 2 - g } else { S - 3 + g };
    let gz: Vec<Vec<i64>> = (0..E).map(|j| (1..=2).map(|g| fx(vars.prim[[j, idx(g)]] / sc * 1e10)).collect()).collect();
    let mx = mesh.xi_cent.iter().fold(0.0f64, |x, y| x.max(y.abs())) / 4.0;
    emit(json!({"ev": "bc", "id": id, "side": if west {"west"} else {"east"}, "modes": mode_names(&mode, E),
        "prim": scaled(&vars.prim, &vec![sc; E]), "gz": gz, "xc": scaled1(&mesh.xi_cent, mx), "changed": changed}));
}
pub fn bc(count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 40_000 + id as u64);
        let n = rng.below(4);
        sizes!(bc_any, n, id, &mut rng);
    }
}
