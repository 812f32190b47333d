//! The same simulations again: repeated, reordered, at the same time, on other numbers of threads, with other streams.
use crate::driver::random_prim;
use crate::util::*;
use corries::prelude::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static TAPE: RefCell<Vec<f64>> = RefCell::new(vec![]);
    static INIT: RefCell<(Array2<f64>, Array1<f64>)> = RefCell::new((Array2::zeros((1, 1)), Array1::zeros(1)));
}
/// Time solver that notes a digest of the state after every step.
struct DigT<T>(T);
fn note<P: Physics<E, S>, const E: usize, const S: usize>(u: &State<P, E, S>, t: &TimeStep, ok: bool) {
    let v = &u.cent;
    let d = digest(v.cons.iter().chain(v.prim.iter()).chain(v.c_sound.iter()).chain(v.eigen_vals.iter()));
    let h = f64::from_bits(u64::from_str_radix(&d, 16).unwrap());
    TAPE.with(|x| x.borrow_mut().extend([h, t.t, t.dt, t.iter as f64, ok as u8 as f64]));
}
impl<P: Physics<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize> TimeSolver<P, E, S> for DigT<T> {
    fn new(config: &CorriesConfig) -> color_eyre::Result<Self> {
        Ok(DigT(T::new(config)?))
    }
    fn next_solution<N: NumFlux<E, S>>(&mut self, time: &mut TimeStep, u: &mut State<P, E, S>, rhs: &mut Rhs<N, E, S>, mesh: &Mesh<S>) -> color_eyre::Result<()> {
        let r = self.0.next_solution(time, u, rhs, mesh);
        note(u, time, r.is_ok());
        r
    }
}
fn init<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> color_eyre::Result<()> {
    INIT.with(|x| {
        let x = x.borrow();
        u.cent.prim.assign(&x.0);
        if !P::IS_ADIABATIC {
            u.cent.c_sound.assign(&x.1);
        }
    });
    Ok(())
}
use corries::timestep::TimeStep;

struct Out {
    res: &'static str,
    steps: usize,
    digest: String,
    msg: String,
}
fn go<P: Physics<E, S> + 'static, N: NumFlux<E, S>, const E: usize, const S: usize>(c: &CorriesConfig, prim: &Array2<f64>, cs: &Array1<f64>) -> Out {
    INIT.with(|x| *x.borrow_mut() = (prim.clone(), cs.clone()));
    TAPE.with(|x| x.borrow_mut().clear());
    type T<P, const E: usize, const S: usize> = DigT<RungeKuttaFehlberg<P, E, S>>;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut k = c.init_corries::<P, N, T<P, E, S>, E, S>(init::<P, N, T<P, E, S>, E, S>)?;
        let r = k.run_corries();
        note(&k.0, &k.1.timestep, r.is_ok());
        r
    }));
    let tape = TAPE.with(|x| std::mem::take(&mut *x.borrow_mut()));
    let (res, msg) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{e:#}").chars().take(100).collect()),
        Err(_) => ("panic", String::new()),
    };
    // bits, not values: signed zeros and NaN count
    let mut h = 0xcbf29ce484222325u64;
    tape.iter().for_each(|x| fnv(&mut h, *x));
    Out { res, steps: tape.len() / 5, digest: format!("{h:016x}"), msg }
}
fn sized<const S: usize>(c: &CorriesConfig, adia: bool, hll: bool, prim: &Array2<f64>, cs: &Array1<f64>) -> Out {
    match (adia, hll) {
        (true, true) => go::<Euler1DAdiabatic<S>, Hll<3, S>, 3, S>(c, prim, cs),
        (true, false) => go::<Euler1DAdiabatic<S>, Kt<3, S>, 3, S>(c, prim, cs),
        (false, true) => go::<Euler1DIsot<S>, Hll<2, S>, 2, S>(c, prim, cs),
        (false, false) => go::<Euler1DIsot<S>, Kt<2, S>, 2, S>(c, prim, cs),
    }
}
fn stream(file: bool, vec: bool, dir: &str, id: usize) -> OutputConfig {
    OutputConfig {
        stream_mode: if file { StreamMode::File } else { StreamMode::Stdout },
        formatting_mode: if vec { FormattingMode::CSV } else { FormattingMode::TSV },
        string_conversion_mode: if vec { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar },
        folder_name: if file { dir.into() } else { String::new() },
        should_clear_out_folder: false,
        file_name: if file { format!("d{id}") } else { String::new() },
        precision: 5 + id % 10,
        should_print_ghostcells: id % 2 == 0,
        should_print_metadata: file,
        data_names: if vec { vec![DataName::T, DataName::XiCent, DataName::Prim(0), DataName::Prim(1), DataName::Cons(1), DataName::CSound] } else { vec![DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind] },
    }
}
/// One simulation; everything but the streams follows from seed and id.
fn case(seed: u64, id: usize, var: &str, streams: usize, dir: &str) -> Vec<Value> {
    let mut rng = Rng::new(seed, 200_000 + id as u64);
    let (adia, hll) = (rng.chance(1, 2), rng.chance(1, 3));
    let e = if adia { 3 } else { 2 };
    let s = *rng.pick(&[8usize, 12, 33, 64, 64, 200, 200, 1004]);
    let flux = if hll { NumFluxConfig::Hll } else { crate::fv::kt(&mut rng) };
    let dom = crate::fv::domain(&mut rng, s);
    let (w, x) = (crate::fv::boundary(&mut rng, e), crate::fv::boundary(&mut rng, e));
    let mut c = crate::fv::base_config(flux, dom, *rng.pick(&[1.4, 1.6666666666666667, 1.1]), w, x);
    crate::runs::set_scheme(&mut c, &mut rng);
    c.output_counter_max = rng.int(1, 4) as usize;
    let n = &mut c.numerics_config;
    n.t0 = *rng.pick(&[0.0, 0.0, 1.5]);
    n.t_end = n.t0 + (dom.1 - dom.0) / (s as f64 - 4.0) * (0.2 + 2.0 * rng.unit());
    n.iter_max = if rng.chance(1, 8) { rng.int(1, 6) as usize } else { 60 };
    let amp = *rng.pick(&[0.05, 0.3, 0.3, 0.7, 0.99]);
    let mut prim = random_prim(&mut rng, e, s, amp);
    let mut cs = Array1::from_elem(s, 0.5 + rng.unit());
    // the same flow in other units: thin and dense gases, slow and fast ones
    if rng.chance(1, 2) {
        let d = 10f64.powi(*rng.pick(&[-24, -18, -15, -9, -3, 6, 15, 20]));
        let v = if rng.chance(1, 2) { 1.0 } else { 10f64.powi(*rng.pick(&[-12, -6, -3, 3, 5, 8])) };
        prim.row_mut(0).mapv_inplace(|x| x * d);
        prim.row_mut(1).mapv_inplace(|x| x * v);
        if adia {
            prim.row_mut(2).mapv_inplace(|x| x * d * v * v);
        }
        cs.mapv_inplace(|x| x * v);
        let n = &mut c.numerics_config;
        n.t_end = n.t0 + (n.t_end - n.t0) / v;
        n.dt_min /= v;
        n.dt_max /= v;
    }
    let sub = format!("{dir}/{var}-{id}");
    c.writer_config = match streams {
        0 => vec![],
        1 => vec![stream(true, true, &sub, id)],
        2 => vec![stream(false, false, &sub, id), stream(true, true, &sub, id), stream(false, true, &sub, id)],
        _ => vec![stream(true, false, &sub, id + 1), stream(true, true, &sub, id), stream(false, false, &sub, id)],
    };
    c.print_banner = streams == 2;
    let o = match s {
        8 => sized::<8>(&c, adia, hll, &prim, &cs),
        12 => sized::<12>(&c, adia, hll, &prim, &cs),
        33 => sized::<33>(&c, adia, hll, &prim, &cs),
        64 => sized::<64>(&c, adia, hll, &prim, &cs),
        200 => sized::<200>(&c, adia, hll, &prim, &cs),
        _ => sized::<1004>(&c, adia, hll, &prim, &cs),
    };
    let val = cfg!(feature = "validation");
    let mut v = vec![json!({"ev": "rep", "key": format!("s{seed}-{id}"), "var": var, "val": val, "streams": streams, "threads": rayon::current_num_threads(), "res": o.res, "steps": o.steps, "h": o.digest, "msg": o.msg})];
    if streams > 0 {
        let mut names: Vec<_> = std::fs::read_dir(&sub).map(|d| d.flatten().map(|x| x.file_name().into_string().unwrap()).collect()).unwrap_or_default();
        names.sort();
        let mut h = 0xcbf29ce484222325u64;
        for f in names.iter().filter(|f| f.starts_with(&format!("d{id}_")) && !f.contains("meta")) {
            h = h.wrapping_mul(31) ^ crate::scripted::hash_bytes(f.as_bytes());
            h = h.wrapping_mul(31) ^ crate::scripted::hash_bytes(&std::fs::read(format!("{sub}/{f}")).unwrap_or_default());
        }
        v.push(json!({"ev": "rep", "key": format!("f{seed}-{id}"), "var": var, "val": val, "streams": streams, "threads": rayon::current_num_threads(), "res": o.res, "steps": names.len(), "h": format!("{h:016x}"), "msg": ""}));
        assert!(sub.starts_with(dir) && sub.len() > dir.len() + 1);
        std::fs::remove_dir_all(&sub).ok();
    }
    // the number of files depends on which streams there are
    if let Some(x) = v.get_mut(1) {
        x["steps"] = json!(0);
    }
    v
}
fn shuffle(v: &mut [usize], rng: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}
pub fn run(count: usize, part: &str, seed: u64, dir: &str) {
    let mut rng = Rng::new(seed, 210_000 + part.len() as u64);
    let mut ids: Vec<usize> = (0..count).collect();
    let out = |v: Vec<Value>| v.into_iter().for_each(emit);
    match part {
        "alone" => ids.iter().for_each(|i| out(case(seed, *i, "alone", 1, dir))),
        "again" => {
            shuffle(&mut ids, &mut rng);
            for i in ids {
                // other simulations before, between and after
                if rng.chance(1, 3) {
                    case(seed + 7777, rng.below(1000), "other", rng.below(4), dir);
                }
                out(case(seed, i, "again", rng.below(4), dir));
                out(case(seed, i, "again", rng.below(4), dir));
            }
        },
        "pool" => {
            for k in [1usize, 3, 8] {
                let p = rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap();
                let st = rng.below(4);
                shuffle(&mut ids, &mut rng);
                let r: Vec<Value> = p.install(|| ids.iter().flat_map(|i| case(seed, *i, "pool", (st + i) % 4, dir)).collect());
                out(r);
            }
        },
        "par" => {
            let hs: Vec<_> = (0..6usize)
                .map(|t| {
                    let (dir, mut r) = (dir.to_string(), Rng::new(seed, 220_000 + t as u64));
                    let mut mine: Vec<usize> = ids.iter().copied().filter(|i| i % 6 == t || (i + 1) % 6 == t).collect();
                    shuffle(&mut mine, &mut r);
                    std::thread::spawn(move || mine.iter().flat_map(|i| case(seed, *i, &format!("par{t}"), r.below(4), &dir)).collect::<Vec<_>>())
                })
                .collect();
            for h in hs {
                out(h.join().unwrap_or_else(|_| panic!("a simulation's thread died")));
            }
        },
        x => {
            eprintln!("unknown part {x}");
            std::process::exit(2);
        },
    }
}
