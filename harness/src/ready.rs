//! The ready-made configurations: what they carry, whether they are accepted, and the runs they configure.
use crate::util::*;
use corries::prelude::*;
use serde_json::{json, Value};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

fn txt<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}
fn cols(v: &[DataName]) -> Vec<String> {
    v.iter().map(crate::wr::col).collect()
}
fn mesh(c: &MeshConfig) -> Value {
    json!({"mode": txt(c.mode), "xi_in": txt(c.xi_in), "xi_out": txt(c.xi_out)})
}
fn physics(c: &PhysicsConfig) -> Value {
    json!({"gamma": txt(c.adiabatic_index), "units": txt(&c.units_mode)})
}
fn flux(c: &NumFluxConfig) -> Value {
    match c {
        NumFluxConfig::Hll => json!({"flux": "Hll", "lim": ""}),
        NumFluxConfig::Kt { limiter_mode } => json!({"flux": "Kt", "lim": txt(limiter_mode)}),
    }
}
fn scheme(c: &RkfConfig) -> Value {
    json!({"scheme": txt(c.rkf_mode), "asc": c.asc, "rtol": txt(c.asc_relative_tolerance), "atol": txt(c.asc_absolute_tolerance),
        "fric": txt(c.asc_timestep_friction)})
}
fn time(c: &TimeIntegrationConfig) -> Value {
    match c {
        TimeIntegrationConfig::Rkf(r) => scheme(r),
    }
}
fn numerics(c: &NumericsConfig) -> Value {
    json!({"flux": flux(&c.numflux_config), "time": time(&c.time_integration_config), "iter": txt(c.iter_max), "t0": txt(c.t0), "t_end": txt(c.t_end),
        "dt_min": txt(c.dt_min), "dt_max": if c.dt_max == f64::MAX { "MAX".to_string() } else { txt(c.dt_max) }, "cfl": txt(c.dt_cfl_param)})
}
fn output(c: &OutputConfig) -> Value {
    json!({"file": c.stream_mode == StreamMode::File, "vec": c.string_conversion_mode == ToStringConversionMode::Vector,
        "tsv": c.formatting_mode == FormattingMode::TSV, "folder": c.folder_name, "name": c.file_name, "clear": c.should_clear_out_folder,
        "prec": c.precision, "ghost": c.should_print_ghostcells, "meta": c.should_print_metadata, "cols": cols(&c.data_names)})
}
fn corries(c: &CorriesConfig) -> Value {
    json!({"banner": c.print_banner, "mesh": mesh(&c.mesh_config), "physics": physics(&c.physics_config), "west": txt(&c.boundary_condition_west),
        "east": txt(&c.boundary_condition_east), "numerics": numerics(&c.numerics_config), "outputs": c.output_counter_max,
        "streams": c.writer_config.iter().map(output).collect::<Vec<_>>()})
}
fn parts(args: Value, which: &str, got: Value) {
    emit(json!({"ev": "part", "which": which, "args": args, "got": got}));
}

const NAMES: [DataName; 14] = [
    DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::T, DataName::Iter, DataName::Dt, DataName::DtKind, DataName::CSound,
    DataName::Prim(0), DataName::Prim(1), DataName::Prim(2), DataName::Cons(0), DataName::Cons(1), DataName::Cons(2),
];

/// end times: [c, b, u] as in the specification's SetupRules, with their value
fn times(rng: &mut Rng) -> (Value, f64) {
    let n = |b: i64, u: i64| json!({"c": 0, "b": b, "u": u});
    match rng.below(8) {
        0 => (n(0, 0), 0.0),
        1 => (n(0, 1), f64::from_bits(1)),
        2 => (n(-8, 0), -1.0),
        3 => (json!({"c": 2, "b": 0, "u": 0}), f64::NAN),
        4 => (n(8_000_000, 0), 1_000_000.0),
        5 => (n(0, 0), -0.0),
        _ => {
            let b = rng.int(1, 800);
            (n(b, 0), b as f64 / 8.0)
        },
    }
}

/// one configuration of a whole run: its settings, and whether it is accepted
fn whole<P: Physics<E, S> + 'static, N: NumFlux<E, S> + 'static, const E: usize, const S: usize>(kind: &str, rng: &mut Rng) {
    let (num, t) = times(rng);
    let folder = *rng.pick(&["out", "out", "out/deep", "a b", ""]);
    let name = *rng.pick(&["noh", "x.y", "0", "prim", ""]);
    let mut c = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        c = Some(CorriesConfig::default_riemann_test::<N, E, S>(t, folder, name));
        c.as_ref().unwrap().init_corries::<P, N, RungeKuttaFehlberg<P, E, S>, E, S>(|u, _, _| {
            u.cent.prim.fill(1.0);
            Ok(())
        })
        .is_ok()
    }));
    let res = match r {
        Ok(true) => "ok",
        Ok(false) => "err",
        Err(_) => "panic",
    };
    if let Ok(n) = catch_unwind(|| NumericsConfig::default_riemann_test::<N, E, S>(t)) {
        parts(json!({"flux": kind, "t_end": txt(t)}), "numerics", numerics(&n));
    }
    emit(json!({"ev": "whole", "args": {"flux": kind, "t_end": txt(t), "t": num, "folder": folder, "name": name, "e": E}, "s": S,
        "got": c.as_ref().map(corries), "res": res}));
}

/// small numbers in the text of an output file: rows and columns without the header
fn table(text: &str, sep: char) -> (Vec<String>, Vec<Vec<f64>>) {
    let mut ls = text.lines().filter(|l| !l.trim().is_empty());
    let head = ls.next().map(|l| l.split(sep).map(|x| x.trim().to_string()).collect()).unwrap_or_default();
    (head, ls.map(|l| l.split(sep).map(|x| x.trim().parse().unwrap_or(f64::NAN)).collect()).collect())
}

/// a run as the ready-made configuration has it, from a ready-made initial condition
fn run<P: Physics<E, S> + 'static, N: NumFlux<E, S> + 'static, const E: usize, const S: usize>(kind: &str, which: &str, ph: &str, rng: &mut Rng) {
    let b = rng.int(1, 20);
    let t = b as f64 / 64.0;
    let (folder, name) = (*rng.pick(&["out", "out/deep"]), *rng.pick(&["noh", "sod", "x.y"]));
    let mut fin = (f64::NAN, 0usize);
    let c = CorriesConfig::default_riemann_test::<N, E, S>(t, folder, name);
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        type T<P, const E: usize, const S: usize> = RungeKuttaFehlberg<P, E, S>;
        let f: corries::initfuncs::InitFn<P, N, T<P, E, S>, E, S> = match which {
            "noh" => corries::initfuncs::init_noh::<P, N, T<P, E, S>, E, S>,
            _ => corries::initfuncs::init_sod::<P, N, T<P, E, S>, E, S>,
        };
        let mut k = c.init_corries::<P, N, T<P, E, S>, E, S>(f)?;
        k.run_corries()?;
        fin = (k.1.timestep.t, k.1.timestep.iter);
        Ok(())
    }));
    let res = match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    let mut files: Vec<Value> = vec![];
    let mut es: Vec<_> = fs::read_dir(folder).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    es.sort();
    for f in es {
        let text = fs::read_to_string(Path::new(folder).join(&f)).unwrap_or_default();
        if f.ends_with("json") {
            files.push(json!({"n": f, "head": [], "rows": 0, "t": []}));
            continue;
        }
        let (head, rows) = table(&text, ',');
        let mut ts: Vec<i64> = rows.iter().map(|r| r.first().map(|x| q(*x, 1e6)).unwrap_or(BAD)).collect();
        ts.dedup();
        files.push(json!({"n": f, "head": head, "rows": rows.len(), "t": ts}));
    }
    emit(json!({"ev": "run", "args": {"flux": kind, "name": name, "e": E}, "s": S, "init": which, "ph": ph, "tend": q(t, 1e6), "res": res,
        "at": q(fin.0, 1e6), "exact": (fin.0 - t).abs() <= 1e-12, "files": files}));
}

macro_rules! wholes {
    ($kind:expr, $rng:expr, $($s:literal)*) => { $(
        match $kind {
            0 => whole::<Euler1DAdiabatic<$s>, Hll<3, $s>, 3, $s>("Hll", $rng),
            1 => whole::<Euler1DAdiabatic<$s>, Kt<3, $s>, 3, $s>("Kt", $rng),
            2 => whole::<Euler1DIsot<$s>, Hll<2, $s>, 2, $s>("Hll", $rng),
            _ => whole::<Euler1DIsot<$s>, Kt<2, $s>, 2, $s>("Kt", $rng),
        }
    )* }
}
macro_rules! runs {
    ($rng:expr, $($s:literal)*) => { $(
        run::<Euler1DAdiabatic<$s>, Hll<3, $s>, 3, $s>("Hll", "noh", "adia", $rng);
        run::<Euler1DAdiabatic<$s>, Kt<3, $s>, 3, $s>("Kt", "noh", "adia", $rng);
        run::<Euler1DAdiabatic<$s>, Hll<3, $s>, 3, $s>("Hll", "sod", "adia", $rng);
        run::<Euler1DAdiabatic<$s>, Kt<3, $s>, 3, $s>("Kt", "sod", "adia", $rng);
        run::<Euler1DIsot<$s>, Hll<2, $s>, 2, $s>("Hll", "noh", "isot", $rng);
        run::<Euler1DIsot<$s>, Kt<2, $s>, 2, $s>("Kt", "noh", "isot", $rng);
    )* }
}

pub fn all(n: usize, seed: u64, dir: &str) {
    let mut rng = Rng::new(seed, 190_000);
    let root = Path::new(dir).join("ready");
    let enter = || {
        fs::create_dir_all(&root).unwrap();
        std::env::set_current_dir(&root).unwrap();
    };
    let leave = || {
        std::env::set_current_dir(dir).unwrap();
        assert!(root.starts_with(dir) && root != Path::new(dir));
        fs::remove_dir_all(&root).ok();
    };
    parts(json!({}), "mesh", mesh(&MeshConfig::default_riemann_test()));
    parts(json!({}), "physics", physics(&PhysicsConfig::default()));
    parts(json!({}), "scheme", scheme(&RkfConfig::default()));
    parts(json!({}), "time", time(&TimeIntegrationConfig::default_rkf()));
    parts(json!({}), "flux", flux(&NumFluxConfig::default()));
    parts(json!({}), "stdout", output(&OutputConfig::default_stdout()));
    parts(
        json!({}),
        "words",
        json!({"limiter": txt(LimiterMode::default()), "scheme": txt(RKFMode::default()), "side": txt(BoundaryMode::default()),
            "custom": txt(CustomBoundaryMode::default()), "units": txt(UnitsMode::default()), "stream": txt(StreamMode::default()),
            "shape": txt(ToStringConversionMode::default()), "format": txt(FormattingMode::default()), "place": txt(Direction::default())}),
    );
    for _ in 0..n {
        let v: Vec<DataName> = (0..rng.below(6)).map(|_| *rng.pick(&NAMES)).collect();
        let (folder, name) = (*rng.pick(&["out", "a/b", "x y", ""]), *rng.pick(&["noh", "a.b", "_0", ""]));
        parts(json!({"cols": cols(&v)}), "stdout-names", output(&OutputConfig::default_stdout_with_names(v.clone())));
        parts(json!({"cols": cols(&v), "folder": folder, "name": name}), "file-names", output(&OutputConfig::default_file_with_names(folder, name, v.clone())));
        let e = rng.below(13);
        parts(json!({"e": e, "folder": folder, "name": name}), "file", output(&OutputConfig::default_file(folder, name, e)));
        enter();
        let kind = rng.below(4);
        match rng.below(4) {
            0 => wholes!(kind, &mut rng, 7),
            1 => wholes!(kind, &mut rng, 11),
            2 => wholes!(kind, &mut rng, 100),
            _ => wholes!(kind, &mut rng, 257),
        }
        leave();
    }
    // short runs
    enter();
    runs!(&mut rng, 7 9 14 31 50);
    leave();
}
