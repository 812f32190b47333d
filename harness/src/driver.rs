//! Runs of the real run loop, projected onto the events of the Driver specification.
use crate::scripted::*;
use crate::util::*;
use corries::prelude::*;
use ndarray::Array2;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct RunPlan {
    pub id: usize,
    pub n: usize,
    /// time per specification unit
    pub unit: f64,
    pub t0: f64,
    pub t_end: f64,
    pub d_units: i64,
    pub dt_min: f64,
    pub dt_max: f64,
    pub iter_max: usize,
    pub asc: bool,
    pub rtol: f64,
    pub mode: RKFMode,
    pub cfl_param: f64,
    pub tol: i64,
    /// whether a step may legitimately fail for reasons that are not scripted
    pub mayfail: bool,
    pub flux: NumFluxConfig,
    pub bc: (BoundaryMode, BoundaryMode),
    pub gamma: f64,
    /// length of the domain
    pub len: f64,
}

fn run_events<P, N, const E: usize, const S: usize>(plan: &RunPlan, dir: &str)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let folder = format!("{dir}/run{}", plan.id);
    let mut names = vec![DataName::T, DataName::Iter, DataName::DtKind];
    for j in 0..E {
        names.push(DataName::Cons(j));
    }
    let config = CorriesConfig {
        print_banner: false,
        mesh_config: MeshConfig { mode: MeshMode::Cartesian, xi_in: 8.0 * plan.len, xi_out: 9.0 * plan.len },
        physics_config: PhysicsConfig { adiabatic_index: plan.gamma, units_mode: UnitsMode::SI },
        boundary_condition_west: plan.bc.0.clone(),
        boundary_condition_east: plan.bc.1.clone(),
        numerics_config: NumericsConfig {
            numflux_config: plan.flux,
            time_integration_config: TimeIntegrationConfig::Rkf(RkfConfig {
                rkf_mode: plan.mode,
                asc: plan.asc,
                asc_relative_tolerance: plan.rtol,
                asc_absolute_tolerance: 0.001,
                asc_timestep_friction: 0.08,
            }),
            iter_max: plan.iter_max,
            t0: plan.t0,
            t_end: plan.t_end,
            dt_min: plan.dt_min,
            dt_max: plan.dt_max,
            dt_cfl_param: plan.cfl_param,
        },
        output_counter_max: plan.n,
        writer_config: vec![
            OutputConfig {
                stream_mode: StreamMode::File,
                formatting_mode: FormattingMode::CSV,
                string_conversion_mode: ToStringConversionMode::Scalar,
                folder_name: folder.clone(),
                should_clear_out_folder: false,
                file_name: "log".into(),
                precision: 17,
                should_print_ghostcells: false,
                should_print_metadata: false,
                data_names: vec![DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind],
            },
            OutputConfig {
                stream_mode: StreamMode::File,
                formatting_mode: FormattingMode::CSV,
                string_conversion_mode: ToStringConversionMode::Vector,
                folder_name: folder.clone(),
                should_clear_out_folder: false,
                file_name: "vec".into(),
                precision: 17,
                should_print_ghostcells: true,
                should_print_metadata: false,
                data_names: names,
            },
        ],
    };
    let tu = |t: f64| q(t - plan.t0, 1.0 / plan.unit);
    let du = |x: f64| q(x, 1.0 / plan.unit);
    set_cfl_param(plan.cfl_param);
    world(|w| {
        w.count_rows_of = Some(format!("{folder}/log.csv"));
        w.watch = Some(folder.clone());
    });
    let mut st0 = String::new();
    let res = catch_unwind(AssertUnwindSafe(|| {
        type Tt<P, const E: usize, const S: usize> = RecT<RungeKuttaFehlberg<P, E, S>>;
        let mut c = config
            .init_corries::<P, RecFlux<N>, Tt<P, E, S>, E, S>(scr_init::<P, RecFlux<N>, Tt<P, E, S>, E, S>)?;
        st0 = digest(c.0.cent.cons.t().iter());
        c.run_corries()
    }));
    let (res, err) = match res {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{e:?}")),
        Err(_) => ("panic", String::new()),
    };
    if std::env::var("HDEBUG").is_ok() { eprintln!("{res} {err}"); }
    // what was written
    let scalar = read_csv(&format!("{folder}/log.csv"));
    let mut vecs = vec![];
    let mut files: Vec<String> = fingerprint(&folder).into_iter().map(|f| f.0).filter(|f| f.starts_with("vec_")).collect();
    files.sort();
    for f in &files {
        let rows = read_csv(&format!("{folder}/{f}"));
        let vals: Vec<f64> = rows.iter().flat_map(|r| r[3.min(r.len())..].iter().map(|x| x.parse().unwrap_or(f64::NAN))).collect();
        let first = rows.first().cloned().unwrap_or_default();
        let get = |i: usize| first.get(i).cloned().unwrap_or_default();
        vecs.push((tu(get(0).parse().unwrap_or(f64::NAN)), get(1).parse::<i64>().unwrap_or(-1), get(2), digest(vals.iter())));
    }
    let now = fingerprint(&folder);
    let kept = world(|w| {
        w.steps.iter().all(|s| {
            s.seen.iter().all(|(name, len, h)| {
                now.iter().any(|(n2, l2, _)| n2 == name && l2 >= len)
                    && std::fs::read(format!("{folder}/{name}")).map(|b| hash_bytes(&b[..*len]) == *h).unwrap_or(false)
            })
        })
    });
    // emit
    emit(json!({"ev": "cfg", "id": plan.id, "n": plan.n, "d": plan.d_units, "dtmin": du(plan.dt_min), "dtmax": du(plan.dt_max),
        "itermax": plan.iter_max.min(2_000_000_000), "asc": plan.asc, "tol": plan.tol, "st0": st0,
        "mode": format!("{:?}", plan.mode)}));
    let steps = world(|w| std::mem::take(&mut w.steps));
    let mut emitted = 0;
    // distance from the k-th scheduled time, beyond the minimum width in the first place, in units of rounding
    let grain = plan.t_end.abs().max(plan.t0.abs()) * f64::EPSILON;
    let sched = |k: f64| plan.t0 + k * (plan.t_end - plan.t0) / plan.n as f64;
    let nearest = |t: f64| ((t - plan.t0) / (plan.t_end - plan.t0) * plan.n as f64).round().min(plan.n as f64);
    let snap = |j: usize| -> Value {
        let r = &scalar[j];
        let get = |i: usize| r.get(i).cloned().unwrap_or_default();
        let off = get(1).parse().unwrap_or(f64::NAN) - sched(j as f64);
        json!({"ev": "snap", "iter": get(0).parse::<i64>().unwrap_or(-1), "t": tu(get(1).parse().unwrap_or(f64::NAN)),
            "early": q(-off - plan.dt_min, 1.0 / grain), "late": q(off, 1.0 / grain), "kind": get(3), "st": vecs.get(j).map(|v| v.3.clone()).unwrap_or_default()})
    };
    for s in &steps {
        // the first line of the file is its header
        while emitted + 1 < s.rows_before && emitted < scalar.len() {
            emit(snap(emitted));
            emitted += 1;
        }
        let (fault, tok) = match s.fault {
            Fault::None => ("none", 0),
            Fault::Cfl(i) => ("cfl", i),
            Fault::Flux(_, i) => ("flux", i),
            Fault::Rate(_) => ("rate", 0),
            Fault::Val(i) => ("val", i),
        };
        let fault_hit = match s.fault {
            Fault::Flux(k, _) | Fault::Rate(k) => s.n_evals >= k,
            // a refused width comes before validation
            Fault::Val(_) => s.cfl >= plan.dt_min,
            _ => true,
        };
        let (fault, tok) = if fault_hit { (fault, tok) } else { ("none", 0) };
        let sum = s.t0 + s.dt;
        let sumok = s.t1 == sum || ((s.t1 - sum) / (sum.abs() * f64::EPSILON)).abs() <= 4.0;
        emit(json!({"ev": "step", "ok": s.ok, "cfl": if s.cfl.is_nan() {-BAD} else {du(s.cfl)}, "dt": du(s.dt), "t": tu(s.t1),
            "near": [q(s.dt / s.cfl - 1.0, 1.0 / f64::EPSILON), q(s.dt / plan.dt_max - 1.0, 1.0 / f64::EPSILON), q(s.t1 - sched(nearest(s.t1)), 1.0 / grain)],
            "k": nearest(s.t1) as i64, "iter": s.iter, "pos": s.dt > 0.0 && s.dt.is_finite(), "sumok": sumok, "st": digest(s.cons_after.t().iter()),
            "fault": fault, "tok": tok, "mayfail": plan.mayfail, "nev": s.n_evals}));
    }
    while emitted < scalar.len() {
        emit(snap(emitted));
        emitted += 1;
    }
    let tok = err.find("scripted-fault-").map(|p| err[p + 15..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<i64>().unwrap_or(-1)).unwrap_or(0);
    emit(json!({"ev": "end", "res": res, "tok": tok, "kept": kept,
        "vec": vecs.iter().map(|v| json!({"t": v.0, "iter": v.1, "kind": v.2, "st": v.3})).collect::<Vec<_>>(),
        "runaway": world(|w| w.runaway)}));
    let _ = std::fs::remove_dir_all(&folder);
}

/// rows of a csv file without its header
pub fn read_csv(path: &str) -> Vec<Vec<String>> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .skip(1)
        .map(|l| l.split(',').map(|s| s.trim().to_string()).collect())
        .collect()
}

pub const MODES: [RKFMode; 9] = [
    RKFMode::RK1, RKFMode::RK2, RKFMode::RK3, RKFMode::RK4, RKFMode::Heun2, RKFMode::RKF12, RKFMode::RKF45,
    RKFMode::SSPRK3, RKFMode::SSPRK5,
];
pub const EMBEDDED: [RKFMode; 6] =
    [RKFMode::RK3, RKFMode::Heun2, RKFMode::RKF12, RKFMode::RKF45, RKFMode::SSPRK3, RKFMode::SSPRK5];
pub fn stages(m: RKFMode) -> usize {
    match m {
        RKFMode::RK1 => 1,
        RKFMode::RK2 | RKFMode::Heun2 => 2,
        RKFMode::RK3 | RKFMode::RKF12 | RKFMode::SSPRK3 => 3,
        RKFMode::RK4 => 4,
        RKFMode::SSPRK5 => 5,
        RKFMode::RKF45 => 6,
    }
}
fn ng() -> BoundaryMode {
    BoundaryMode::NoGradients
}

/// Replays behaviours generated by TLC (one JSON object per line: cfg, script).
pub fn replay(input: &str, seed: u64, dir: &str) {
    const S: usize = 6;
    let text = std::fs::read_to_string(input).expect("no scripts");
    for (i, line) in text.lines().enumerate() {
        let v: Value = serde_json::from_str(line).expect("bad script");
        let c = &v["cfg"];
        let g = |k: &str| c[k].as_i64().unwrap();
        let mut rng = Rng::new(seed, 100 + i as u64);
        let asc = c["asc"].as_bool().unwrap();
        let mode = if asc { *rng.pick(&EMBEDDED) } else { *rng.pick(&MODES) };
        let st = stages(mode);
        let tick = *rng.pick(&[1.0 / 64.0, 0.5, 0.25, 4.0]);
        // adaptive widths are not multiples of a tick: the time since the start must stay accurate
        let t0 = tick * rng.int(0, 40) as f64;
        let (n, d) = (g("n"), g("d"));
        reset_world();
        let script: Vec<StepScript> = v["script"]
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(j, s)| StepScript {
                cfl: s["cfl"].as_i64().unwrap() as f64 * tick,
                fault: match s["fault"].as_str().unwrap() {
                    "cfl" => Fault::Cfl(j + 1),
                    "flux1" => Fault::Flux(1, j + 1),
                    "fluxn" => Fault::Flux(st, j + 1),
                    "rate" => Fault::Rate(1 + rng.below(st)),
                    "val" => Fault::Val(j + 1),
                    _ => Fault::None,
                },
            })
            .collect();
        let amp = *rng.pick(&[0.0, 0.001, 0.01, 0.1, 1.0]);
        let seed2 = rng.next();
        world(|w| {
            w.script = script;
            w.default_cfl = tick;
            w.max_steps = 400;
            w.init = Some(Array2::from_shape_fn((SE, S), |(j, i)| 1.0 + j as f64 + i as f64 * 0.25));
            w.rate = Some(Box::new(move |step, e, u| {
                let mut r = Rng::new(seed2, (step * 1000 + e) as u64);
                let mut a = Array2::zeros((SE, S));
                for j in 0..SE {
                    for i in 2..S - 2 {
                        a[[j, i]] = amp / tick * (r.unit() - 0.5) * u[[j, i]].abs().min(4.0);
                    }
                }
                a
            }));
        });
        let plan = RunPlan {
            id: i,
            n: n as usize,
            unit: tick / 1000.0,
            t0,
            t_end: t0 + (n * d) as f64 * tick,
            d_units: d * 1000,
            dt_min: g("dtmin") as f64 * tick,
            dt_max: g("dtmax") as f64 * tick,
            iter_max: g("itermax") as usize,
            asc,
            rtol: 0.01,
            mode,
            cfl_param: 0.5,
            tol: if asc { 2 } else { 0 },
            mayfail: asc,
            flux: NumFluxConfig::Hll,
            bc: (ng(), ng()),
            gamma: 1.4,
            len: 1.0,
        };
        run_events::<Scr<S>, ScrFlux, SE, S>(&plan, dir);
    }
}

/// Random smooth-ish admissible state.
pub fn random_prim(rng: &mut Rng, e: usize, s: usize, amp: f64) -> Array2<f64> {
    let mut a = Array2::zeros((e, s));
    let v0 = rng.dyadic(-2.0, 2.0, 8.0);
    let jump = rng.below(s);
    let k = rng.int(1, 3) as f64;
    for i in 0..s {
        let x = i as f64 / s as f64;
        let wave = (k * 6.283185307 * x).sin() * amp;
        let j = if i < jump { 0.0 } else { amp };
        a[[0, i]] = 1.0 + 0.5 * wave + j;
        a[[1, i]] = v0 + wave - j;
        if e > 2 {
            a[[2, i]] = 1.0 - 0.5 * wave + j;
        }
    }
    a
}

fn real_case<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(
    i: usize,
    rng: &mut Rng,
    flux: NumFluxConfig,
    dir: &str,
) {
    let asc = rng.chance(1, 3);
    let mode = if asc { *rng.pick(&EMBEDDED) } else { *rng.pick(&MODES) };
    let long = rng.chance(1, 25);
    let n = if long { 1 + rng.below(3) } else { *rng.pick(&[1usize, 2, 3, 5, 7, 10, 11, 49, 60, 101]) };
    let n = if rng.chance(1, 60) { 1003 } else { n };
    // counts that single precision or 24 bits cannot hold; such runs are cut off by the iteration limit
    let huge = !long && rng.chance(1, 30);
    let n = if huge { *rng.pick(&[16_777_217usize, 20_000_003]) } else { n };
    let len = 2f64.powi(if rng.chance(1, 2) { 0 } else { rng.int(-60, 60) as i32 });
    let t0 = len * *rng.pick(&[0.0, 0.0, 0.1, 0.3, 1.7, 12.3, 500.0]);
    let span = len * *rng.pick(&[0.1, 0.3, 0.7, 1.1, 0.05]) * (1.0 + rng.unit());
    let t_end = t0 + span;
    let dint = (t_end - t0) / n as f64;
    reset_world();
    let amp = *rng.pick(&[0.0, 0.05, 0.3]);
    let init = random_prim(rng, E, S, amp);
    let mut script = vec![];
    let faulty = rng.chance(1, 4);
    if faulty {
        let at = rng.int(1, 25) as usize;
        for j in 1..=at {
            script.push(StepScript {
                cfl: 0.0,
                fault: if j < at {
                    Fault::None
                } else if rng.chance(1, 2) {
                    Fault::Flux(1 + rng.below(stages(mode)), at)
                } else {
                    Fault::Rate(1 + rng.below(stages(mode)))
                },
            });
        }
    }
    world(|w| {
        w.init = Some(init);
        w.script = script;
        w.max_steps = 6000;
        w.init_c_sound = 0.75;
    });
    let most = if long { 2000 } else { 30 };
    let dt_max = if long { dint * (0.0005 + 0.005 * rng.unit()) } else { *rng.pick(&[1.0e10 * len, dint * 0.37, dint * 0.1, dint * 2.5]) };
    let dt_max = if n > 1000 && !huge { dt_max.max(dint) } else { dt_max };
    let d_units = if huge { 100 } else { 1_000_000 };
    let plan = RunPlan {
        id: i,
        n,
        unit: dint / d_units as f64,
        t0,
        t_end,
        d_units,
        dt_min: *rng.pick(&[1.0e-12 * len, dint * 0.001, dint * 0.05]),
        dt_max,
        iter_max: if huge || rng.chance(1, 4) {
            rng.int(1, most) as usize
        } else {
            // limits that no run reaches, among them some whose lower digits are small
            *rng.pick(&[usize::MAX - 2, usize::MAX - 2, 1 << 16, (1 << 31) + 1, (1 << 32) + 2, (1 << 53) + 2, (1 << 63) + 3, 100_000])
        },
        asc,
        rtol: *rng.pick(&[1.0e-3, 1.0e-2, 1.0e-4]),
        mode,
        cfl_param: *rng.pick(&[0.4, 0.2, 0.7, 0.95]),
        tol: 3,
        mayfail: true,
        flux,
        bc: (ng(), ng()),
        gamma: 1.4,
        len,
    };
    run_events::<P, N, E, S>(&plan, dir);
}

pub fn real(count: usize, seed: u64, dir: &str) {
    for i in 0..count {
        let mut rng = Rng::new(seed, 7000 + i as u64);
        let lim = *rng.pick(&[LimiterMode::VanLeer, LimiterMode::MinMod, LimiterMode::Superbee, LimiterMode::Monocent(1.5)]);
        let kt = NumFluxConfig::Kt { limiter_mode: lim };
        match rng.below(20) {
            0 => real_any::<70>(i, &mut rng, kt, dir),
            1 => real_any::<6>(i, &mut rng, kt, dir),
            _ => real_any::<14>(i, &mut rng, kt, dir),
        }
    }
}
fn real_any<const S: usize>(i: usize, rng: &mut Rng, kt: NumFluxConfig, dir: &str) {
    match rng.below(4) {
        0 => real_case::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>(i, rng, NumFluxConfig::Hll, dir),
        1 => real_case::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>(i, rng, kt, dir),
        2 => real_case::<Euler1DIsot<S>, Hll<2, S>, 2, S>(i, rng, NumFluxConfig::Hll, dir),
        _ => real_case::<Euler1DIsot<S>, Kt<2, S>, 2, S>(i, rng, kt, dir),
    }
}
