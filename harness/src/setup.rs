//! Setting up simulations: good and bad configurations, initial conditions.
use crate::util::*;
use corries::prelude::*;
use ndarray::Array2;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

#[derive(Default)]
struct Seen {
    calls: usize,
    fail: bool,
    mesh: String,
    prim: Option<Array2<f64>>,
}
thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
}
const MARK: f64 = 0.0078125;
fn mesh_digest<const S: usize>(m: &Mesh<S>) -> String {
    digest(m.xi_west.iter().chain(m.xi_cent.iter()).chain(m.xi_east.iter()).chain([m.dxi].iter()))
}
fn init<P: Physics<E, S> + 'static, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    s: &mut Solver<P, N, T, E, S>,
    m: &Mesh<S>,
) -> color_eyre::Result<()> {
    SEEN.with(|x| {
        let mut x = x.borrow_mut();
        x.calls += 1;
        x.mesh = mesh_digest(m);
        s.timestep.dt = MARK;
        for i in 0..S {
            for j in 0..E {
                u.cent.prim[[j, i]] = 1.0 + (i * (j + 1)) as f64 / 16.0;
            }
        }
        u.cent.c_sound.fill(1.5);
        x.prim = Some(u.cent.prim.clone());
        if x.fail {
            color_eyre::eyre::bail!("marker-of-the-initial-condition");
        }
        Ok(())
    })
}

fn num(v: &Value) -> f64 {
    match v["c"].as_i64().unwrap() {
        2 => f64::NAN,
        1 => f64::INFINITY,
        -1 => f64::NEG_INFINITY,
        _ => {
            let mut x = v["b"].as_i64().unwrap() as f64 / 8.0;
            let u = v["u"].as_i64().unwrap();
            for _ in 0..u.abs() {
                x = if u > 0 { up(x) } else { -up(-x) };
            }
            x
        },
    }
}
fn up(x: f64) -> f64 {
    if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
fn name(s: &str) -> DataName {
    match s {
        "t" => DataName::T,
        "dt" => DataName::Dt,
        "iter" => DataName::Iter,
        "dt_kind" => DataName::DtKind,
        "xi_west" => DataName::XiWest,
        "xi_cent" => DataName::XiCent,
        "xi_east" => DataName::XiEast,
        "c_sound" => DataName::CSound,
        "prim_0" => DataName::Prim(0),
        "prim_1" => DataName::Prim(1),
        "cons_0" => DataName::Cons(0),
        "cons_1" => DataName::Cons(1),
        x => panic!("column {x}"),
    }
}
fn config(k: &Value, rng: &mut Rng) -> CorriesConfig {
    let s = |x: &str| k[x].as_str().unwrap().to_string();
    let flux = if s("flux") == "Hll" {
        NumFluxConfig::Hll
    } else {
        NumFluxConfig::Kt {
            limiter_mode: match s("lim").as_str() {
                "NoLimiter" => LimiterMode::NoLimiter,
                "MinMod" => LimiterMode::MinMod,
                "Superbee" => LimiterMode::Superbee,
                "VanLeer" => LimiterMode::VanLeer,
                _ => LimiterMode::Monocent(num(&k["p"])),
            },
        }
    };
    let bc = |rng: &mut Rng| {
        if rng.chance(1, 2) {
            BoundaryMode::NoGradients
        } else {
            BoundaryMode::Custom(vec![(0, CustomBoundaryMode::Extrapolate), (1, CustomBoundaryMode::Reflecting)])
        }
    };
    let (w, e) = (bc(rng), bc(rng));
    let mut c = crate::fv::base_config(flux, (num(&k["xi_in"]), num(&k["xi_out"])), num(&k["gamma"]), w, e);
    c.print_banner = rng.chance(1, 4);
    c.physics_config.units_mode = if rng.chance(1, 2) { UnitsMode::SI } else { UnitsMode::CGS };
    c.output_counter_max = 1 + rng.below(3);
    let n = &mut c.numerics_config;
    n.time_integration_config = TimeIntegrationConfig::Rkf(RkfConfig {
        rkf_mode: *rng.pick(&crate::driver::MODES),
        asc: rng.chance(1, 2),
        asc_relative_tolerance: num(&k["rtol"]),
        asc_absolute_tolerance: num(&k["atol"]),
        asc_timestep_friction: num(&k["fric"]),
    });
    n.iter_max = match k["iter"].as_u64().unwrap() {
        2 => usize::MAX - 2,
        x => x as usize,
    };
    n.t0 = num(&k["t0"]);
    n.t_end = num(&k["t_end"]);
    n.dt_min = num(&k["dt_min"]);
    n.dt_max = num(&k["dt_max"]);
    n.dt_cfl_param = num(&k["cfl"]);
    c.writer_config = k["streams"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| OutputConfig {
            stream_mode: if s["file"].as_bool().unwrap() { StreamMode::File } else { StreamMode::Stdout },
            formatting_mode: if rng.chance(1, 2) { FormattingMode::CSV } else { FormattingMode::TSV },
            string_conversion_mode: if s["vec"].as_bool().unwrap() { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar },
            folder_name: s["folder"].as_str().unwrap().into(),
            should_clear_out_folder: s["clear"].as_bool().unwrap(),
            file_name: s["name"].as_str().unwrap().into(),
            precision: rng.below(9),
            should_print_ghostcells: rng.chance(1, 2),
            should_print_metadata: rng.chance(1, 2),
            data_names: s["cols"].as_array().unwrap().iter().map(|x| name(x.as_str().unwrap())).collect(),
        })
        .collect();
    c
}

/// a face or centre of the mesh lies exactly at coordinate zero
fn zero_face(k: &Value, s: i64) -> bool {
    let (a, b) = (&k["xi_in"], &k["xi_out"]);
    if a["c"] != 0 || b["c"] != 0 || a["u"] != 0 && a["b"] == b["b"] {
        return false;
    }
    let (n, x, w) = (s - 4, a["b"].as_i64().unwrap(), b["b"].as_i64().unwrap() - a["b"].as_i64().unwrap());
    (-4..=2 * n + 4).any(|i| 2 * n * x + i * w == 0)
}

struct Out {
    res: &'static str,
    src: &'static str,
    samemesh: bool,
    marker: bool,
    kept: bool,
    faces: bool,
    msg: String,
}
fn build<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(c: &CorriesConfig) -> Out {
    let mut o = Out { res: "ok", src: "", samemesh: false, marker: false, kept: false, faces: false, msg: String::new() };
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        let k = c.init_corries::<P, N, RungeKuttaFehlberg<P, E, S>, E, S>(init::<P, N, RungeKuttaFehlberg<P, E, S>, E, S>)?;
        SEEN.with(|x| {
            let x = x.borrow();
            o.samemesh = x.mesh == mesh_digest(&k.2);
            let u = &k.0;
            o.faces = [&u.west, &u.east].iter().all(|f| f.prim == u.cent.prim && f.cons == u.cent.cons && f.c_sound == u.cent.c_sound);
            o.marker = k.1.timestep.dt == MARK;
            o.kept = x.prim.as_ref().map(|p| (2..S - 2).all(|i| (0..E).all(|j| (p[[j, i]] - k.0.cent.prim[[j, i]]).abs() <= 1e-13 * p[[j, i]].abs()))).unwrap_or(false);
        });
        Ok(())
    }));
    match r {
        Ok(Ok(())) => {},
        Ok(Err(e)) => {
            o.res = "err";
            o.msg = format!("{e:#}").chars().take(200).collect();
            o.src = if format!("{e:?}").contains("marker-of-the-initial-condition") { "init" } else { "other" };
        },
        Err(_) => o.res = "panic",
    }
    o
}
fn sized<const S: usize>(c: &CorriesConfig, adia: bool, hll: bool) -> Out {
    match (adia, hll) {
        (true, true) => build::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>(c),
        (true, false) => build::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>(c),
        (false, true) => build::<Euler1DIsot<S>, Hll<2, S>, 2, S>(c),
        (false, false) => build::<Euler1DIsot<S>, Kt<2, S>, 2, S>(c),
    }
}

pub fn replay(input: &str, seed: u64, dir: &str) {
    for (id, l) in fs::read_to_string(input).expect("input").lines().enumerate() {
        let v: Value = serde_json::from_str(l).expect("json");
        let mut rng = Rng::new(seed, 160_000 + id as u64);
        let k = &v["k"];
        let root = Path::new(dir).join(format!("case{id}"));
        fs::create_dir_all(&root).unwrap();
        std::env::set_current_dir(&root).unwrap();
        if rng.chance(3, 4) {
            fs::create_dir_all("out/sub").unwrap();
            fs::write("out/old.txt", "old").unwrap();
            fs::write("out/data1_0.csv", "old\n".repeat(50)).unwrap();
            fs::write("out/sub/deep.txt", "old").unwrap();
        }
        fs::write("foreign.txt", "old").unwrap();
        let before = crate::wr::tree(&root);
        let c = config(k, &mut rng);
        SEEN.with(|x| *x.borrow_mut() = Seen { fail: v["fails"].as_bool().unwrap(), ..Default::default() });
        let (adia, hll) = (rng.chance(1, 2), k["type"] == "Hll");
        let s = if rng.chance(1, 12) { 150 } else { *rng.pick(&[6usize, 9, 12]) };
        let o = match s {
            6 => sized::<6>(&c, adia, hll),
            9 => sized::<9>(&c, adia, hll),
            12 => sized::<12>(&c, adia, hll),
            _ => sized::<150>(&c, adia, hll),
        };
        let after = crate::wr::tree(&root);
        let mut line = json!({"ev": "cfg", "id": id, "k": k, "fails": v["fails"], "s": s, "res": o.res, "src": o.src, "calls": SEEN.with(|x| x.borrow().calls),
            "samemesh": o.samemesh, "marker": o.marker, "kept": o.kept, "faces": o.faces, "same": before == after, "msg": o.msg});
        if zero_face(k, s as i64) {
            line["zeroface"] = json!(true);
        }
        emit(line);
        std::env::set_current_dir(dir).unwrap();
        assert!(root.starts_with(dir) && root != Path::new(dir));
        fs::remove_dir_all(&root).ok();
    }
}

/// the ready-made initial conditions
fn ready<P: Physics<E, S> + 'static, const E: usize, const S: usize>(which: &str, ph: &str, rng: &mut Rng) {
    type T<P, const E: usize, const S: usize> = RungeKuttaFehlberg<P, E, S>;
    let mesh = crate::fv::domain(rng, S);
    let c = crate::fv::base_config(NumFluxConfig::Hll, mesh, 1.4, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    let f: corries::initfuncs::InitFn<P, Hll<E, S>, T<P, E, S>, E, S> = match which {
        "noh" => corries::initfuncs::init_noh::<P, Hll<E, S>, T<P, E, S>, E, S>,
        _ => corries::initfuncs::init_sod::<P, Hll<E, S>, T<P, E, S>, E, S>,
    };
    let mut prim = vec![];
    let mut c_sound = vec![];
    let mut exact = true;
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        let k = c.init_corries::<P, Hll<E, S>, T<P, E, S>, E, S>(f)?;
        let close = |x: f64| (x * 1e5 - (x * 1e5).round()).abs() < 1e-9;
        exact = k.0.cent.prim.iter().all(|x| close(*x));
        prim = (0..E).map(|j| k.0.cent.prim.row(j).iter().map(|x| q(*x, 1e5)).collect::<Vec<_>>()).collect();
        c_sound = k.0.cent.c_sound.iter().map(|x| q(*x, 1e5)).collect();
        Ok(())
    }));
    let res = match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    emit(json!({"ev": "ic", "which": which, "ph": ph, "s": S, "res": res, "prim": prim, "c": c_sound, "exact": exact}));
}
macro_rules! sizes {
    ($rng:expr, $($s:literal)*) => { $(
        ready::<Euler1DAdiabatic<$s>, 3, $s>("noh", "adia", $rng);
        ready::<Euler1DAdiabatic<$s>, 3, $s>("sod", "adia", $rng);
        ready::<Euler1DIsot<$s>, 2, $s>("noh", "isot", $rng);
        ready::<Euler1DIsot<$s>, 2, $s>("sod", "isot", $rng);
    )* }
}
pub fn conditions(seed: u64) {
    let mut rng = Rng::new(seed, 170_000);
    sizes!(&mut rng, 6 7 8 9 10 11 12 13 14 15 16 17 19 21 25 32 33 50 51 64 65 99 100 101 127 128 129 204 255 256 257 500 501 1004);
    ready::<crate::scripted::Scr<9>, 2, 9>("noh", "other", &mut rng);
    ready::<crate::scripted::Scr<9>, 2, 9>("sod", "other", &mut rng);
}
