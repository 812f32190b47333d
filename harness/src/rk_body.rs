// Included once for every mesh size (see rk.rs).
use crate::driver::{stages, EMBEDDED, MODES};
use crate::fv::*;
use crate::runs::*;
use crate::scripted::*;
use crate::util::*;
use corries::prelude::*;
use ndarray::Array2;
use serde_json::{json, Value};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

type T<P, const E: usize> = RecT<RungeKuttaFehlberg<P, E, S>>;

/// the width of a trial follows from its second stage, which is displaced by the first rate alone
fn a21(m: RKFMode) -> f64 {
    match m {
        RKFMode::RKF45 => 0.25,
        RKFMode::Heun2 | RKFMode::SSPRK3 => 1.0,
        RKFMode::SSPRK5 => 0.36717,
        _ => 0.5,
    }
}
fn c_last(m: RKFMode) -> f64 {
    match m {
        RKFMode::RKF45 | RKFMode::SSPRK3 => 0.5,
        RKFMode::SSPRK5 => 0.84639,
        _ => 1.0,
    }
}
/// last weight of the scheme and last difference of the embedded pair
fn last(m: RKFMode) -> (f64, f64) {
    match m {
        RKFMode::RK3 => (1.0 / 6.0, 1.0 / 6.0),
        RKFMode::Heun2 => (0.5, 0.5),
        RKFMode::RKF12 => (1.0 / 512.0, 1.0 / 512.0),
        RKFMode::RKF45 => (2.0 / 55.0, 2.0 / 55.0),
        RKFMode::SSPRK3 => (2.0 / 3.0, 2.0 / 3.0),
        _ => (0.30424, 0.08731),
    }
}
fn scheme(mode: RKFMode, asc: bool, rtol: f64, atol: f64, f: f64) -> TimeIntegrationConfig {
    TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: mode,
        asc,
        asc_relative_tolerance: rtol,
        asc_absolute_tolerance: atol,
        asc_timestep_friction: f,
    })
}
fn same_bits(a: &Array2<f64>, b: &Array2<f64>) -> bool {
    a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits() || (*x == 0.0 && *y == 0.0))
}
fn inner(a: &Array2<f64>) -> Array2<f64> {
    a.slice(ndarray::s![.., 2..S - 2]).to_owned()
}

pub struct Ctl {
    pub mode: RKFMode,
    pub asc: bool,
    /// rtol = 2^-a
    pub a: i32,
    pub atol: f64,
    pub dt_min: f64,
    pub dt_max: f64,
    pub t_lim: f64,
}
/// projects one recorded step; None if it does not fit the representation
fn step_json(s: &StepRec, c: &Ctl, scr: bool, bc: (&BoundaryMode, &BoundaryMode)) -> Option<Value> {
    let n = stages(c.mode);
    let emb = c.asc && EMBEDDED.contains(&c.mode);
    let e = s.cons_before.nrows();
    let passes = s.evals.len() / n;
    let u0 = &s.cons_before;
    let mx = |a: &Array2<f64>| a.iter().fold(0.0f64, |m, x| if x.is_finite() { m.max(x.abs()) } else { f64::INFINITY });
    let finite = s.evals.iter().all(|v| mx(&v.cons).is_finite() && mx(&v.rate).is_finite()) && mx(&s.cons_after).is_finite();
    if !finite || passes == 0 {
        return None;
    }
    // widths of the passes
    let mut w = vec![];
    for p in 0..passes {
        let own = (p + 1 == passes && s.ok) || n == 1;
        w.push(if own {
            s.dt
        } else {
            let (k, u) = (&s.evals[p * n].rate, &s.evals[p * n + 1].cons);
            // the component with the best relative resolution
            let mut best = (0.0, f64::NAN);
            for ((j, i), r) in k.indexed_iter() {
                if (2..S - 2).contains(&i) && *r != 0.0 {
                    let d = u0[[j, i]] - u[[j, i]];
                    let q = d.abs() / (u0[[j, i]].abs() + d.abs());
                    if q > best.0 {
                        best = (q, d / r / a21(c.mode));
                    }
                }
            }
            if best.0 < 1e-9 || !best.1.is_finite() {
                return None;
            }
            best.1
        });
    }
    let mut vs: Vec<Vec<Array2<f64>>> = vec![];
    let mut ds: Vec<Vec<Array2<f64>>> = vec![];
    let mut big: Vec<f64> = vec![];
    for p in 0..passes {
        let v: Vec<_> = (0..n).map(|q| &s.evals[p * n + q].cons - u0).collect();
        let d: Vec<_> = (0..n).map(|q| &s.evals[p * n + q].rate * w[p]).collect();
        big.push(v.iter().chain(d.iter()).map(|a| mx(&inner(a))).fold(0.0, f64::max));
        vs.push(v);
        ds.push(d);
    }
    let v1 = inner(&s.cons_after) - &inner(u0);
    let u_max = mx(u0);
    let lg = |x: f64| if x > 0.0 { x.log2().ceil() as i32 } else { -1000 };
    // absolute scale 2^al, scale of pass p 2^(al + k[p])
    let al = 24 - lg(u_max.max(c.atol).max(big.iter().cloned().fold(0.0, f64::max)).max(mx(&v1)));
    // every float operation of a stage leaves rounding errors of the size of u
    let noise_lim = 48 - lg(u_max.max(1e-300)) - al;
    let k: Vec<i32> = big.iter().map(|b| (24 - lg(*b) - al).min(noise_lim).clamp(0, 60)).collect();
    let at = |a: &Array2<f64>, s: i32| -> Vec<Vec<i64>> { a.outer_iter().map(|r| r.iter().map(|x| q(*x, 2f64.powi(s))).collect()).collect() };
    let v_j: Vec<Vec<_>> = vs.iter().zip(&k).map(|(v, k)| v.iter().map(|a| at(a, al + k)).collect()).collect();
    let d_j: Vec<Vec<_>> = ds.iter().zip(&k).map(|(d, k)| d.iter().map(|a| at(a, al + k)).collect()).collect();
    let same: Vec<bool> = (0..passes).map(|p| same_bits(&inner(&s.evals[p * n].cons), &inner(&s.evals[0].cons))).collect();
    let r20 = 1048576.0;
    let ratio: Vec<i64> = (1..passes).map(|p| q(w[p] / w[p - 1], r20)).collect();
    let noise: Vec<i64> = k.iter().map(|k| q(u_max * 8.0 * f64::EPSILON, 2f64.powi(al + k)) + 1).collect();
    Some(json!({"ev": "rk", "mode": format!("{:?}", c.mode), "emb": emb, "src": if scr {"scr"} else {"real"}, "ok": s.ok, "evals": s.evals.len(),
        "rows": e, "v": v_j, "d": d_j, "v1": at(&v1, al + k[passes - 1]), "u0": at(u0, al), "k": k, "a": c.a, "atol": q(c.atol, 2f64.powi(al)),
        "noise": noise, "same": same, "ratio": ratio, "fin": q(s.dt / w[passes - 1], r20), "finp": if passes > 1 { q(s.dt / w[passes - 2], r20) } else { 0 },
        "pos": s.dt > 0.0 && s.dt.is_finite(), "lemax": s.dt <= c.dt_max * (1.0 + 1e-14), "lesched": s.t0 + s.dt <= c.t_lim * (1.0 + 1e-14),
        "adv": s.t1 - s.t0 == s.dt || s.t1 == s.t0 + s.dt, "below": s.dt < c.dt_min, "wmin": w[..if s.ok && emb { passes - 1 } else { passes }].iter().skip(1).all(|x| *x >= c.dt_min * (1.0 - 1e-9)),
        "dtmin": s.err.contains("dipped below dt_min during step control"), "kept": s.t1 == s.t0 && same_bits(&s.cons_before, &s.cons_after),
        "bw": mode_names(bc.0, e), "be": mode_names(bc.1, e)}))
}

fn scripted_config(ctl: &Ctl, friction: f64, bw: BoundaryMode, be: BoundaryMode) -> CorriesConfig {
    let mut c = base_config(NumFluxConfig::Hll, (1.0, 2.0), 1.4, bw, be);
    c.numerics_config.time_integration_config = scheme(ctl.mode, ctl.asc, 2f64.powi(-ctl.a), ctl.atol, friction);
    c.numerics_config.dt_min = ctl.dt_min;
    c.numerics_config.dt_max = ctl.dt_max;
    c.numerics_config.t_end = 1e100;
    c
}
fn linear_bc(rng: &mut Rng) -> BoundaryMode {
    match rng.below(4) {
        0 => BoundaryMode::NoGradients,
        _ => BoundaryMode::Custom(
            (0..SE).map(|j| (j, *rng.pick(&[CustomBoundaryMode::NoGradients, CustomBoundaryMode::Extrapolate, CustomBoundaryMode::Reflecting]))).collect(),
        ),
    }
}
fn run_steps(c: &CorriesConfig, steps: usize, gaps: &[f64]) -> (bool, Vec<StepRec>) {
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        let mut k = c.init_corries::<Scr<S>, ScrFlux, T<Scr<S>, SE>, SE, S>(scr_init::<Scr<S>, ScrFlux, T<Scr<S>, SE>, SE, S>)?;
        for i in 0..steps {
            k.1.timestep.t_next_output = k.1.timestep.t + gaps[i % gaps.len()];
            k.1.next_solution(&mut k.0, &k.2)?;
        }
        Ok(())
    }));
    (r.is_ok(), world(|w| std::mem::take(&mut w.steps)))
}

/// coefficients recovered one by one: in interior cell p only stage p has a rate
pub fn tableau(count: usize, seed: u64) {
    for id in 0..count {
        let mut rng = Rng::new(seed, 70_000 + id as u64);
        let mode = MODES[id % MODES.len()];
        let asc = rng.chance(1, 2);
        let n = stages(mode);
        let wide = 2f64.powi(rng.int(-20, 10) as i32);
        let amp = 2f64.powi(rng.int(-20, 20) as i32) * if rng.chance(1, 2) { -1.0 } else { 1.0 };
        // tolerances so wide that every first trial is accepted
        let ctl = Ctl { mode, asc, a: -60, atol: 2f64.powi(30), dt_min: 1e-200, dt_max: wide, t_lim: 1e100 };
        let cells = S - 4;
        let (mut a, mut b) = (vec![vec![0i64; n]; n], vec![0i64; n]);
        let (mut ah, mut bh) = (vec![vec![json!([]); n]; n], vec![json!([]); n]);
        let mut evals = vec![];
        for first in (0..n).step_by(cells) {
            reset_world();
            world(|w| {
                w.init = Some(Array2::zeros((SE, S)));
                w.default_cfl = 1e50;
                w.record_evals = true;
                w.rate = Some(Box::new(move |_, e, _| {
                    let q = (e - 1) % n;
                    Array2::from_shape_fn((SE, S), |(j, i)| if j == 1 && i >= 2 && i < S - 2 && first + i - 2 == q { amp } else { 0.0 })
                }));
            });
            let cfg = scripted_config(&ctl, 0.08, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
            let (_, steps) = run_steps(&cfg, 1, &[1e90]);
            let s = &steps[0];
            evals.push(if s.ok { s.evals.len() } else { 0 });
            if s.evals.len() < n {
                continue;
            }
            let base = s.evals.len() - n;
            for p in first..(first + cells).min(n) {
                for q0 in 0..n {
                    let x = -s.evals[base + q0].cons[[1, 2 + p - first]] / amp / s.dt;
                    a[q0][p] = q(x, 1e8);
                    ah[q0][p] = crate::hp::hp(x);
                }
                let x = -s.cons_after[[1, 2 + p - first]] / amp / s.dt;
                b[p] = q(x, 1e8);
                bh[p] = crate::hp::hp(x);
            }
        }
        emit(json!({"ev": "tab", "id": id, "mode": format!("{mode:?}"), "emb": asc && EMBEDDED.contains(&mode), "a": a, "b": b, "ah": ah, "bh": bh, "evals": evals}));
    }
}

/// random rates in every stage, no step control
pub fn stages_run(count: usize, seed: u64) {
    for id in (0..count).filter(|i| mine(*i)) {
        let mut rng = Rng::new(seed, 80_000 + id as u64);
        let mode = *rng.pick(&MODES);
        let asc = !EMBEDDED.contains(&mode) && rng.chance(1, 3);
        let amp = 2f64.powi(rng.int(-12, 12) as i32);
        let ctl = Ctl { mode, asc, a: 0, atol: 1.0, dt_min: 1e-200, dt_max: 2f64.powi(rng.int(-8, 2) as i32) / amp * rng.dyadic(0.5, 1.0, 64.0), t_lim: 1e100 };
        let (bw, be) = (linear_bc(&mut rng), linear_bc(&mut rng));
        let cfg = scripted_config(&ctl, 0.08, bw.clone(), be.clone());
        let n = stages(mode);
        let k: Vec<Array2<f64>> = (0..3 * n).map(|_| Array2::from_shape_fn((SE, S), |_| rng.dyadic(-2.0, 2.0, 1024.0) * amp)).collect();
        reset_world();
        world(|w| {
            w.init = Some(Array2::from_shape_fn((SE, S), |_| rng.dyadic(-2.0, 2.0, 1024.0)));
            w.default_cfl = 1e50;
            w.record_evals = true;
            w.rate = Some(Box::new(move |st, e, _| k[((st - 1) * n + (e - 1)) % (3 * n)].clone()));
        });
        let (fine, steps) = run_steps(&cfg, 3, &[1e90]);
        emit(json!({"ev": "run", "id": id, "panic": !fine, "steps": steps.len()}));
        for s in &steps {
            if let Some(v) = step_json(s, &ctl, true, (&bw, &be)) {
                emit(v);
            }
        }
    }
}

/// step control with scripted errors; input lines come from the specification
pub fn control(input: &str, seed: u64) {
    for (id, line) in std::fs::read_to_string(input).expect("input").lines().enumerate().filter(|(i, _)| mine(*i)) {
        let v: Value = serde_json::from_str(line).expect("json");
        let mut rng = Rng::new(seed, 90_000 + id as u64);
        let mode = *rng.pick(&EMBEDDED);
        let n = stages(mode);
        let a = rng.int(2, 12) as i32;
        let rtol = 2f64.powi(-a);
        let atol = 2f64.powi(rng.int(-5, 2) as i32);
        let w0 = 2f64.powi(rng.int(-12, -2) as i32);
        let mins = v["min"].as_i64().unwrap_or(0);
        let dt_min = if mins == 0 { 1e-30 } else { w0 / mins as f64 };
        let dt_max = if v["max"].as_bool().unwrap_or(false) { w0 * *rng.pick(&[1.0, 1.5, 3.0]) } else { 1e50 };
        let gap = match v["gap"].as_i64().unwrap_or(0) {
            0 => 1e60,
            g => w0 * g as f64 / 4.0,
        };
        let ctl = Ctl { mode, asc: true, a, atol, dt_min, dt_max, t_lim: 1e300 };
        let (bw, be) = (linear_bc(&mut rng), linear_bc(&mut rng));
        let friction = *rng.pick(&[0.08, 0.01, 0.5, 1.0]);
        let cfg = scripted_config(&ctl, friction, bw.clone(), be.clone());
        let script: Vec<Vec<f64>> = v["errs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|st| {
                st.as_array()
                    .unwrap()
                    .iter()
                    .map(|x| match x.as_str().unwrap() {
                        "zero" => 0.0,
                        "small" => *rng.pick(&[1e-6, 1e-3, 0.1]),
                        "mid" => *rng.pick(&[0.2, 0.5, 0.6]),
                        "edgeb" => 0.9,
                        "edgea" => 1.12,
                        "big" => *rng.pick(&[1.5, 3.0, 10.0]),
                        _ => *rng.pick(&[100.0, 1e4]),
                    })
                    .collect()
            })
            .collect();
        let nsteps = script.len();
        let init = Array2::from_shape_fn((SE, S), |_| rng.dyadic(-2.0, 2.0, 1024.0));
        let base: Vec<f64> = (0..S).map(|_| rng.dyadic(-1.0, 1.0, 64.0)).collect();
        let spread: Vec<f64> = (0..S).map(|_| if rng.chance(1, 2) { 0.0 } else { rng.dyadic(-0.5, 0.5, 64.0) }).collect();
        let hot = 2 + rng.below(S - 4);
        let row = if rng.chance(1, 3) { 0 } else { 1 };
        let sign = if rng.chance(1, 2) { 1.0 } else { -1.0 };
        let (bl, dl) = last(mode);
        let w = Cell::new(0.0);
        let clock = Cell::new(0.0);
        reset_world();
        world(|wd| {
            wd.init = Some(init);
            wd.default_cfl = w0;
            wd.record_evals = true;
            wd.max_evals = 600;
            wd.rate = Some(Box::new(move |st, e, u| {
                let (q0, tr) = ((e - 1) % n, (e - 1) / n);
                let mut k = Array2::from_shape_fn((SE, S), |(j, i)| if j == 0 { -1.0 } else { base[i] });
                if q0 == 0 {
                    clock.set(u[[0, hot]]);
                }
                if q0 == n - 1 {
                    w.set((u[[0, hot]] - clock.get()) / c_last(mode));
                    let x = script[(st - 1).min(script.len() - 1)].get(tr).cloned().unwrap_or(0.0);
                    for i in 2..S - 2 {
                        let f = if i == hot { 1.0 } else { spread[i] };
                        // row 0 is close to its value at the beginning plus the width
                        let u0 = if row == 0 { clock.get() + w.get() } else { u[[1, i]] };
                        let mut p = 0.0;
                        for _ in 0..if x < 2.0 { 30 } else { 1 } {
                            p = x * f * sign * rtol * ((u0 - w.get() * bl * p).abs() + atol) / (dl * w.get());
                        }
                        k[[row, i]] += p;
                    }
                }
                k
            }));
        });
        let (fine, steps) = run_steps(&cfg, nsteps, &[gap]);
        emit(json!({"ev": "run", "id": id, "panic": !fine, "steps": steps.len()}));
        for s in &steps {
            let c = Ctl { t_lim: s.t0 + gap, ..ctl };
            if let Some(v) = step_json(s, &c, true, (&bw, &be)) {
                emit(v);
            }
        }
    }
}

/// every scheme with real physics and fluxes
fn real_case<P, N, const E: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0]);
    let (bw, be) = (boundary(rng, E), boundary(rng, E));
    let mut m = domain(rng, S);
    while !no_sign_change(m, S) {
        m = domain(rng, S);
    }
    let mut config = base_config(flux, m, gamma, bw.clone(), be.clone());
    let asc = rng.chance(1, 2);
    let mode = if asc { *rng.pick(&EMBEDDED) } else { *rng.pick(&MODES) };
    let a = rng.int(3, 20) as i32;
    let atol = 2f64.powi(-(rng.int(0, 10) as i32));
    config.numerics_config.time_integration_config = scheme(mode, asc, 2f64.powi(-a), atol, *rng.pick(&[0.08, 0.5, 0.01]));
    config.numerics_config.t_end = 1.0e100;
    config.numerics_config.dt_cfl_param = *rng.pick(&[0.4, 0.25, 0.1]);
    config.numerics_config.iter_max = 1 + rng.below(8);
    let dx = (config.mesh_config.xi_out - config.mesh_config.xi_in) / (S as f64 - 4.0);
    if rng.chance(1, 4) {
        config.numerics_config.dt_max = dx * *rng.pick(&[0.01, 0.03, 0.1]);
    }
    if rng.chance(1, 4) {
        config.numerics_config.dt_min = dx * *rng.pick(&[0.0001, 0.003]);
    }
    let prim = state(rng, E, S);
    let c = ndarray::Array1::from_elem(S, 0.75);
    let sim = simulate_rec::<P, N, E, S>(&config, &prim, &c);
    let ctl = Ctl { mode, asc, a, atol, dt_min: config.numerics_config.dt_min, dt_max: config.numerics_config.dt_max, t_lim: 1e100 };
    emit(json!({"ev": "run", "id": id, "panic": sim.res == "panic", "steps": sim.steps.len()}));
    for s in &sim.steps {
        if s.ok && !admissible_cons(&s.cons_before) {
            continue;
        }
        if let Some(v) = step_json(s, &ctl, false, (&bw, &be)) {
            emit(v);
        }
        if s.ok && asc {
            if let Some(t) = twin::<P, N, E>(&config, mode, s, &c) {
                emit(json!({"ev": "twin", "same": t, "mode": format!("{mode:?}")}));
            }
        }
    }
}
fn admissible_cons(u: &Array2<f64>) -> bool {
    u.row(0).iter().all(|x| *x > 0.0)
}
/// the same step taken directly with the width that was finally chosen
fn twin<P, N, const E: usize>(config: &CorriesConfig, mode: RKFMode, s: &StepRec, c: &ndarray::Array1<f64>) -> Option<bool>
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let mut cfg = config.clone();
    cfg.numerics_config.time_integration_config = scheme(mode, false, 0.1, 0.1, 0.1);
    cfg.numerics_config.dt_max = s.dt;
    cfg.numerics_config.dt_min = 1e-300;
    cfg.numerics_config.iter_max = 100;
    // the limit by the signal speeds must not interfere
    cfg.numerics_config.dt_cfl_param = 1e6;
    reset_world();
    set_cfl_param(1e6);
    world(|w| {
        w.init = Some(s.prim_after.clone());
        w.init_c = Some(c.clone());
    });
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<(f64, Array2<f64>)> {
        let mut k = cfg.init_corries::<P, RecFlux<N>, T<P, E>, E, S>(scr_init::<P, RecFlux<N>, T<P, E>, E, S>)?;
        k.0.cent.cons.assign(&s.cons_before);
        k.1.timestep.t_next_output = 1e100;
        k.1.next_solution(&mut k.0, &k.2)?;
        Ok((k.1.timestep.dt, k.0.cent.cons.clone()))
    }));
    match r {
        Ok(Ok((dt, u))) if dt == s.dt => Some(same_bits(&u, &s.cons_after)),
        Ok(Ok(_)) => None,
        _ => Some(false),
    }
}
pub fn real(count: usize, seed: u64) {
    for id in (0..count).filter(|i| mine(*i)) {
        let rng = &mut Rng::new(seed, 100_000 + id as u64);
        let k = kt(rng);
        match rng.below(4) {
            0 => real_case::<Euler1DAdiabatic<S>, Hll<3, S>, 3>(id, rng, NumFluxConfig::Hll),
            1 => real_case::<Euler1DIsot<S>, Hll<2, S>, 2>(id, rng, NumFluxConfig::Hll),
            2 => real_case::<Euler1DAdiabatic<S>, Kt<3, S>, 3>(id, rng, k),
            _ => real_case::<Euler1DIsot<S>, Kt<2, S>, 2>(id, rng, k),
        }
    }
}
