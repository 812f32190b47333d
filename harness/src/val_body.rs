// Included once for every mesh size (see val.rs).
use crate::driver::EMBEDDED;
use crate::fv::*;
use crate::runs::*;
use crate::scripted::*;
use crate::util::*;
use corries::prelude::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

type T<P, const E: usize> = RecT<RungeKuttaFehlberg<P, E, S>>;

fn bc_mode(s: &str) -> CustomBoundaryMode {
    *CUSTOM.iter().find(|m| format!("{m:?}") == s).unwrap()
}
fn class(x: f64) -> i64 {
    if !x.is_finite() {
        2
    } else if x > 0.0 {
        1
    } else if x == 0.0 {
        0
    } else {
        -1
    }
}
/// one class per cell: the worst of density, pressure and the finiteness of everything
pub fn classes(p: &Place) -> Vec<i64> {
    let e = p.prim.nrows();
    (0..p.prim.ncols())
        .map(|i| {
            let fin = (0..e).all(|j| p.prim[[j, i]].is_finite() && p.cons[[j, i]].is_finite() && p.eig[[j, i]].is_finite()) && p.c[i].is_finite();
            if !fin {
                return 2;
            }
            let mut v = vec![class(p.prim[[0, i]]), class(p.cons[[0, i]])];
            if e == 3 {
                v.push(class(p.prim[[2, i]]));
            }
            *v.iter().min().unwrap()
        })
        .collect()
}

fn replay_one<P: Physics<E, S> + 'static, const E: usize>(id: usize, v: &Value, rng: &mut Rng) {
    let st = |k: &str| v[k].as_str().unwrap();
    // array index of the chosen interior cell: beside an end, next to it, or anywhere
    let cell = match v["cell"].as_u64().unwrap() {
        1 => 2,
        2 => 3,
        5 => S - 4,
        6 => S - 3,
        _ => 2 + rng.below(S - 4),
    };
    let adia = E == 3;
    let gamma = *rng.pick(&[1.4, 1.5, 5.0 / 3.0]);
    let n = S - 4;
    let admissible = [[8, 0, 8], [8, 4, 9], [1, 3, 5], [4, -2, 9], [2, 2, 5], [16, 8, 12], [1, 0, 1]];
    let wild = rng.chance(1, 2);
    let pick = |rng: &mut Rng| if wild { *rng.pick(&admissible) } else { *rng.pick(&admissible[..2]) };
    let u0: Vec<[i64; 3]> = (0..n).map(|_| pick(rng)).collect();
    let mut u1: Vec<[i64; 3]> = (0..n).map(|_| pick(rng)).collect();
    let t: Vec<i64> = v["t"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    u1[cell - 2] = [t[0], t[1], t[2]];
    let nf = match st("kind") {
        "nan" => Some(f64::NAN),
        "inf" => Some(f64::INFINITY),
        "minf" => Some(f64::NEG_INFINITY),
        _ => None,
    };
    let var = (v["var"].as_u64().unwrap() as usize - 1).min(E - 1);
    // momentum and energy in units that keep the triple's meaning for every scale
    let lam = 2f64.powi(v["lam"].as_i64().unwrap() as i32);
    let mode = *MODES.iter().find(|m| format!("{m:?}") == st("mode")).unwrap();
    let asc = v["asc"].as_bool().unwrap();
    let bcs = |key: &str, on: &str| {
        let on = (v[on].as_u64().unwrap() as usize - 1).min(E - 1);
        let m: Vec<_> = (0..E).map(|j| (j, if j == on { bc_mode(st(key)) } else { CustomBoundaryMode::NoGradients })).collect();
        BoundaryMode::Custom(m)
    };
    let (bw, be) = (bcs("bw", "onw"), bcs("be", "one"));
    let mut c = base_config(NumFluxConfig::Hll, (1.0, 2.0), gamma, bw.clone(), be.clone());
    c.numerics_config.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: mode,
        asc,
        asc_relative_tolerance: 0.1,
        asc_absolute_tolerance: 0.1,
        asc_timestep_friction: 0.08,
    });
    c.numerics_config.dt_max = 2f64.powi(rng.int(-6, 2) as i32);
    c.numerics_config.t_end = 1e100;
    c.numerics_config.dt_cfl_param = 1e30;
    let dt = c.numerics_config.dt_max;
    let warm = v["warm"].as_bool().unwrap();
    let (a0, a1) = (u0.clone(), u1.clone());
    let rate = Array2::from_shape_fn((E, S), |(j, i)| {
        if i < 2 || i >= S - 2 {
            return 0.0;
        }
        let k = (a0[i - 2][j] - a1[i - 2][j]) as f64 * lam / dt;
        match nf {
            Some(x) if i == cell && j == var => x,
            _ => k,
        }
    });
    reset_world();
    set_cfl_param(c.numerics_config.dt_cfl_param);
    let mut prim = Array2::from_elem((E, S), lam);
    for i in 2..S - 2 {
        let [r, m, e] = u0[i - 2];
        prim[[0, i]] = r as f64 * lam;
        prim[[1, i]] = m as f64 / r as f64;
        if E == 3 {
            prim[[2, i]] = (gamma - 1.0) * (e as f64 - 0.5 * (m * m) as f64 / r as f64) * lam;
        }
    }
    world(|w| {
        w.init = Some(prim);
        w.init_c = Some(Array1::from_elem(S, 0.75));
        w.max_evals = 500;
        w.rate = Some(Box::new(move |s, _, u| if warm && s == 1 { Array2::zeros(u.raw_dim()) } else { rate.clone() }));
    });
    let mut seen = vec![];
    let mut msg = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        let mut k = c.init_corries::<P, ScrFlux, T<P, E>, E, S>(scr_init::<P, ScrFlux, T<P, E>, E, S>)?;
        k.1.timestep.t_next_output = 1e100;
        // the conserved variables of the interior are the intended ones to the bit
        for i in 2..S - 2 {
            for j in 0..E {
                k.0.cent.cons[[j, i]] = u0[i - 2][j] as f64 * lam;
            }
        }
        if warm {
            // with an inadmissible beginning this step is refused already
            k.1.next_solution(&mut k.0, &k.2)?;
            for i in 2..S - 2 {
                for j in 0..E {
                    k.0.cent.cons[[j, i]] = u0[i - 2][j] as f64 * lam;
                }
            }
        } else {
            world(|w| w.step = 1);
        }
        let r = k.1.next_solution(&mut k.0, &k.2);
        seen = classes(&Place::of(&k.0.cent));
        r
    }));
    let res = match &r {
        Ok(Ok(())) => "ok",
        Ok(Err(e)) => {
            msg = format!("{e:?}");
            "err"
        },
        Err(_) => "panic",
    };
    let names = |m: &BoundaryMode| {
        let mut x = mode_names(m, E);
        x.resize(3, "NoGradients".into());
        x
    };
    emit(json!({"ev": "val", "id": id, "adia": adia, "mode": st("mode"), "asc": asc && EMBEDDED.contains(&mode), "u0": u0, "u1": u1,
        "nonfinite": nf.is_some(), "bw": names(&bw), "be": names(&be), "res": res, "seen": seen, "lam": v["lam"],
        "warm": warm, "msg": msg.chars().take(80).collect::<String>()}));
}
pub fn replay(input: &str, seed: u64) {
    for (id, line) in std::fs::read_to_string(input).expect("input").lines().enumerate().filter(|(i, _)| mine(*i)) {
        let v: Value = serde_json::from_str(line).expect("json");
        let mut rng = Rng::new(seed, 110_000 + id as u64);
        if v["adia"].as_bool().unwrap() {
            replay_one::<Euler1DAdiabatic<S>, 3>(id, &v, &mut rng);
        } else {
            replay_one::<Euler1DIsot<S>, 2>(id, &v, &mut rng);
        }
    }
}

/// real fluxes close to vacuum and beyond the stable step width
fn hard<P, N, const E: usize>(id: usize, rng: &mut Rng, flux: NumFluxConfig)
where
    P: Physics<E, S> + 'static,
    N: NumFlux<E, S>,
{
    let gamma = *rng.pick(&[1.4, 1.25, 5.0 / 3.0]);
    let (bw, be) = (boundary(rng, E), boundary(rng, E));
    let mut m = domain(rng, S);
    while !no_sign_change(m, S) {
        m = domain(rng, S);
    }
    let mut config = base_config(flux, m, gamma, bw, be);
    set_scheme(&mut config, rng);
    config.numerics_config.t_end = 1.0e100;
    config.numerics_config.dt_cfl_param = *rng.pick(&[0.4, 0.9, 1.5, 3.0]);
    config.numerics_config.iter_max = 1 + rng.below(15);
    let prim = match rng.below(3) {
        0 => state(rng, E, S),
        1 => {
            // receding flows
            let (v, d) = (*rng.pick(&[1.0, 3.0, 10.0, 100.0]), *rng.pick(&[1.0, 1e-3, 1e-8]));
            Array2::from_shape_fn((E, S), |(j, i)| [d, if i < S / 2 { -v } else { v }, *[1.0, 1e-6].get(id % 2).unwrap()][j])
        },
        _ => {
            let (a, b) = (10f64.powf(rng.unit() * 12.0 - 6.0), 10f64.powf(rng.unit() * 12.0 - 6.0));
            Array2::from_shape_fn((E, S), |(j, i)| if i < S / 2 { [1.0, 0.0, 1.0][j] } else { [a, 0.1, b][j] })
        },
    };
    let c = Array1::from_elem(S, 0.75);
    let sim = simulate::<P, N, E, S>(&config, &prim, &c, true);
    let n = sim.steps.len();
    for (k, s) in sim.steps.iter().enumerate() {
        let last = k + 1 == n;
        let after = s.after.as_ref().map(classes).unwrap_or_default();
        let mut mid: Vec<i64> = vec![];
        for f in &s.full {
            mid.extend(classes(&f.cent));
            if !matches!(flux, NumFluxConfig::Hll) {
                mid.extend(&classes(&f.west)[1..S - 1]);
                mid.extend(&classes(&f.east)[1..S - 1]);
            }
            mid.push(if f.rate.iter().all(|x| x.is_finite()) { 1 } else { 2 });
        }
        let msg = &s.err;
        let res = if last && sim.res == "panic" { "panic" } else if s.ok { "ok" } else { "err" };
        let other = ["dipped below dt_min", "iter_max", "dt_cfl turned non-finite"].iter().any(|x| msg.contains(x));
        emit(json!({"ev": "vst", "id": id, "adia": E == 3, "res": res, "validation": !s.ok && !other, "seen": after, "mid": mid,
            "msg": msg.chars().take(80).collect::<String>()}));
    }
}
pub fn vacuum(count: usize, seed: u64) {
    for id in (0..count).filter(|i| mine(*i)) {
        let rng = &mut Rng::new(seed, 120_000 + id as u64);
        let k = kt(rng);
        match rng.below(4) {
            0 => hard::<Euler1DAdiabatic<S>, Hll<3, S>, 3>(id, rng, NumFluxConfig::Hll),
            1 => hard::<Euler1DIsot<S>, Hll<2, S>, 2>(id, rng, NumFluxConfig::Hll),
            2 => hard::<Euler1DAdiabatic<S>, Kt<3, S>, 3>(id, rng, k),
            _ => hard::<Euler1DIsot<S>, Kt<2, S>, 2>(id, rng, k),
        }
    }
}
