//! Scripted environment: implementations of the crate's public traits which let a script (generated by TLC or by
//! the seeded generator) decide CFL widths, stage rates and faults, and which record what the real solver does.
use color_eyre::{eyre::bail, Result};
use corries::{prelude::*, timestep::TimeStep, variables::Variables};
use ndarray::{Array1, Array2, ArrayView1};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the CFL computation fails
    Cfl(usize),
    /// the numerical flux fails at this evaluation of the step
    Flux(usize, usize),
    /// the numerical flux produces NaN at this evaluation of the step
    Rate(usize),
    /// the physics' own validation refuses the new state
    Val(usize),
}

#[derive(Clone, Debug)]
pub struct StepScript {
    pub cfl: f64,
    pub fault: Fault,
}

/// Everything the state holds at one kind of place.
#[derive(Clone, Debug)]
pub struct Place {
    pub prim: Array2<f64>,
    pub cons: Array2<f64>,
    pub c: Array1<f64>,
    pub eig: Array2<f64>,
}
impl Place {
    pub fn of<const E: usize, const S: usize>(v: &Variables<E, S>) -> Self {
        Place { prim: v.prim.clone(), cons: v.cons.clone(), c: v.c_sound.clone(), eig: v.eigen_vals.clone() }
    }
}
/// One evaluation of the numerical flux with all it read and wrote.
#[derive(Clone, Debug)]
pub struct FullEval {
    pub cent: Place,
    pub west: Place,
    pub east: Place,
    pub rate: Array2<f64>,
    pub ok: bool,
}

/// What one numerical flux evaluation saw and returned.
#[derive(Clone, Debug)]
pub struct Eval {
    pub cons: Array2<f64>,
    pub rate: Array2<f64>,
}

#[derive(Default)]
pub struct World {
    pub script: Vec<StepScript>,
    /// index of the current step, starting at 1; 0 before the first step
    pub step: usize,
    /// evaluations done in the current step
    pub evals: usize,
    pub record_evals: bool,
    pub recorded: Vec<Eval>,
    /// rates by (step, evaluation): called by the scripted flux
    pub rate: Option<Box<dyn Fn(usize, usize, &Array2<f64>) -> Array2<f64>>>,
    pub max_evals: usize,
    pub max_steps: usize,
    pub runaway: bool,
    /// events recorded by the wrapping time solver
    pub steps: Vec<StepRec>,
    /// path of the scalar stream whose rows are counted at the start of every step
    pub count_rows_of: Option<String>,
    /// folder whose files are fingerprinted at the start of every step
    pub watch: Option<String>,
    pub init: Option<Array2<f64>>,
    pub init_c_sound: f64,
    pub init_calls: usize,
    pub init_fail: bool,
    pub default_cfl: f64,
    pub record_full: bool,
    pub full: Vec<FullEval>,
    pub init_c: Option<Array1<f64>>,
}

#[derive(Clone, Debug)]
pub struct StepRec {
    pub after: Option<Place>,
    pub full: Vec<FullEval>,
    pub rows_before: usize,
    /// (file name, length, digest of its bytes) of every file in the watched folder when the step began
    pub seen: Vec<(String, usize, u64)>,
    pub err: String,
    pub cfl: f64,
    pub fault: Fault,
    pub ok: bool,
    pub t0: f64,
    pub t1: f64,
    pub dt: f64,
    pub iter: usize,
    pub cons_before: Array2<f64>,
    pub cons_after: Array2<f64>,
    pub prim_after: Array2<f64>,
    pub evals: Vec<Eval>,
    pub n_evals: usize,
    /// digest over every array of the state after the step
    pub digest: String,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub fn reset_world() {
    W.with(|w| {
        *w.borrow_mut() = World { max_evals: 4000, max_steps: 5000, default_cfl: 1.0, init_c_sound: 1.0, ..World::default() }
    });
}
fn current() -> StepScript {
    world(|w| {
        let i = w.step;
        if i >= 1 && i <= w.script.len() {
            w.script[i - 1].clone()
        } else {
            StepScript { cfl: w.default_cfl, fault: Fault::None }
        }
    })
}

/// Physics whose primitive and conserved variables coincide and whose CFL width comes from the script.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Scr<const S: usize>;
pub const SE: usize = 2;
impl<const S: usize> Physics<SE, S> for Scr<S> {
    const NUM_EQ: usize = SE;
    const IS_ADIABATIC: bool = false;
    const JRHO: usize = 0;
    const JXI: usize = 1;
    const JETA: usize = usize::MAX;
    const JPRESSURE: usize = usize::MAX;
    fn new() -> Self {
        Self
    }
    fn name() -> String {
        "Scripted".into()
    }
    fn update_prim(vars: &mut Variables<SE, S>) {
        let c = vars.cons.clone();
        vars.prim.assign(&c);
    }
    fn update_cons(vars: &mut Variables<SE, S>) {
        let p = vars.prim.clone();
        vars.cons.assign(&p);
    }
    fn update_flux(_: &mut Variables<SE, S>) {}
    fn calc_dt_cfl(_: &ArrayView1<f64>, _: f64, _: &Mesh<S>) -> Result<f64> {
        let s = current();
        if let Fault::Cfl(id) = s.fault {
            bail!("scripted-fault-{id}-");
        }
        Ok(s.cfl)
    }
    fn validate(_: &Variables<SE, S>) -> Result<()> {
        if let Fault::Val(id) = current().fault {
            bail!("scripted-fault-{id}-");
        }
        Ok(())
    }
}

/// Numerical flux that takes its rates from the script.
pub struct ScrFlux;
impl<const E: usize, const S: usize> NumFlux<E, S> for ScrFlux {
    fn new(_: &NumFluxConfig, _: &Mesh<S>) -> Result<Self> {
        Ok(ScrFlux)
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        _: &Mesh<S>,
    ) -> Result<()> {
        let s = current();
        let (e, step) = world(|w| {
            w.evals += 1;
            (w.evals, w.step)
        });
        if world(|w| e > w.max_evals && { w.runaway = true; true }) {
            bail!("scripted-runaway");
        }
        if let Fault::Flux(k, id) = s.fault {
            if k == e {
                bail!("scripted-fault-{id}-");
            }
        }
        dflux_dxi.fill(0.0);
        let f = world(|w| w.rate.take());
        if let Some(f) = f {
            dflux_dxi.assign(&f(step, e, &u.cent.cons));
            world(|w| w.rate = Some(f));
        }
        if let Fault::Rate(k) = s.fault {
            if k == e {
                dflux_dxi[[1, S / 2]] = f64::NAN;
            }
        }
        world(|w| {
            if w.record_evals {
                w.recorded.push(Eval { cons: u.cent.cons.clone(), rate: dflux_dxi.clone() });
            }
        });
        Ok(())
    }
}

/// Records around a real numerical flux.
pub struct RecFlux<N>(N);
impl<N: NumFlux<E, S>, const E: usize, const S: usize> NumFlux<E, S> for RecFlux<N> {
    fn new(c: &NumFluxConfig, m: &Mesh<S>) -> Result<Self> {
        Ok(RecFlux(N::new(c, m)?))
    }
    fn calc_dflux_dxi<P: Physics<E, S>>(
        &mut self,
        dflux_dxi: &mut Array2<f64>,
        u: &mut State<P, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let e = world(|w| {
            w.evals += 1;
            w.evals
        });
        if world(|w| e > w.max_evals && { w.runaway = true; true }) {
            bail!("scripted-runaway");
        }
        let cons = u.cent.cons.clone();
        if let Fault::Flux(k, id) = current().fault {
            if k == e {
                bail!("scripted-fault-{id}-");
            }
        }
        let cent = if world(|w| w.record_full) { Some(Place::of(&u.cent)) } else { None };
        let r = self.0.calc_dflux_dxi(dflux_dxi, u, mesh);
        if let Some(cent) = cent {
            let f = FullEval { cent, west: Place::of(&u.west), east: Place::of(&u.east), rate: dflux_dxi.clone(), ok: r.is_ok() };
            world(|w| w.full.push(f));
        }
        r?;
        if let Fault::Rate(k) = current().fault {
            if k == e {
                dflux_dxi[[1, S / 2]] = f64::NAN;
            }
        }
        world(|w| {
            if w.record_evals {
                w.recorded.push(Eval { cons, rate: dflux_dxi.clone() });
            }
        });
        Ok(())
    }
}

/// Time solver that records every step of the wrapped one.
pub struct RecT<T> {
    inner: T,
}
impl<P: Physics<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize> TimeSolver<P, E, S> for RecT<T> {
    fn new(config: &CorriesConfig) -> Result<Self> {
        Ok(RecT { inner: T::new(config)? })
    }
    fn next_solution<N: NumFlux<E, S>>(
        &mut self,
        time: &mut TimeStep,
        u: &mut State<P, E, S>,
        rhs: &mut Rhs<N, E, S>,
        mesh: &Mesh<S>,
    ) -> Result<()> {
        let (step, over) = world(|w| {
            w.step += 1;
            w.evals = 0;
            w.recorded.clear();
            w.full.clear();
            (w.step, w.step > w.max_steps)
        });
        if over {
            world(|w| w.runaway = true);
            bail!("scripted-runaway");
        }
        let _ = step;
        let rows_before = world(|w| w.count_rows_of.clone())
            .map(|p| std::fs::read(p).map(|b| b.iter().filter(|c| **c == b'\n').count()).unwrap_or(0))
            .unwrap_or(0);
        // nothing is written during a step, so files are looked at again only when the number of rows has changed
        let changed = world(|w| w.steps.last().map(|s| s.rows_before != rows_before).unwrap_or(true));
        let seen = if changed { world(|w| w.watch.clone()).map(|d| fingerprint(&d)).unwrap_or_default() } else { vec![] };
        let s = current();
        let t0 = time.t;
        let cfl = u.calc_dt_cfl(cfl_param(), mesh).unwrap_or(f64::NAN);
        let cons_before = u.cent.cons.clone();
        let r = self.inner.next_solution(time, u, rhs, mesh);
        let rec = StepRec {
            after: if world(|w| w.record_full) { Some(Place::of(&u.cent)) } else { None },
            full: world(|w| std::mem::take(&mut w.full)),
            rows_before,
            seen,
            err: r.as_ref().err().map(|e| format!("{e:?}")).unwrap_or_default(),
            cfl,
            fault: s.fault,
            ok: r.is_ok(),
            t0,
            t1: time.t,
            dt: time.dt,
            iter: time.iter,
            cons_before,
            cons_after: u.cent.cons.clone(),
            prim_after: u.cent.prim.clone(),
            evals: world(|w| std::mem::take(&mut w.recorded)),
            n_evals: world(|w| w.evals),
            digest: crate::util::digest(
                u.cent.cons.iter().chain(u.cent.prim.iter()).chain(u.cent.c_sound.iter()).chain(u.cent.eigen_vals.iter()),
            ),
        };
        world(|w| w.steps.push(rec));
        r
    }
}

thread_local! {
    static CFLP: RefCell<f64> = RefCell::new(0.4);
}
pub fn set_cfl_param(x: f64) {
    CFLP.with(|c| *c.borrow_mut() = x);
}
pub fn cfl_param() -> f64 {
    CFLP.with(|c| *c.borrow())
}

/// Initial condition for the scripted physics: takes the world's `init` array (or ones).
pub fn scr_init<P: Physics<E, S>, N: NumFlux<E, S>, T: TimeSolver<P, E, S>, const E: usize, const S: usize>(
    u: &mut State<P, E, S>,
    _: &mut Solver<P, N, T, E, S>,
    _: &Mesh<S>,
) -> Result<()> {
    world(|w| w.init_calls += 1);
    if world(|w| w.init_fail) {
        bail!("scripted-fault-init-");
    }
    match world(|w| w.init.clone()) {
        Some(a) => u.cent.prim.assign(&a),
        None => u.cent.prim.fill(1.0),
    }
    if !P::IS_ADIABATIC {
        match world(|w| w.init_c.clone()) {
            Some(c) => u.cent.c_sound.assign(&c),
            None => u.cent.c_sound.fill(world(|w| w.init_c_sound)),
        }
    }
    Ok(())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
/// name, length and digest of every regular file in the folder
pub fn fingerprint(dir: &str) -> Vec<(String, usize, u64)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if let Ok(b) = std::fs::read(e.path()) {
                v.push((e.file_name().to_string_lossy().to_string(), b.len(), hash_bytes(&b)));
            }
        }
    }
    v.sort();
    v
}
