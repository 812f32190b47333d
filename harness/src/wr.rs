//! Output streams: files, folders and the terminal, before and after runs.
use crate::scripted::*;
use crate::util::*;
use corries::prelude::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub struct Stream {
    kind: String, // scalar, vector, stdout-scalar, stdout-vector
    tsv: bool,
    folder: Vec<String>,
    given: String,
    name: String,
    clear: bool,
    meta: bool,
    prec: usize,
    ghost: bool,
    cols: Vec<DataName>,
}
impl Stream {
    fn file(&self) -> bool {
        !self.kind.starts_with("stdout")
    }
    fn vec(&self) -> bool {
        self.kind.ends_with("vector")
    }
    fn config(&self) -> OutputConfig {
        OutputConfig {
            stream_mode: if self.file() { StreamMode::File } else { StreamMode::Stdout },
            formatting_mode: if self.tsv { FormattingMode::TSV } else { FormattingMode::CSV },
            string_conversion_mode: if self.vec() { ToStringConversionMode::Vector } else { ToStringConversionMode::Scalar },
            folder_name: self.given.clone(),
            should_clear_out_folder: self.clear,
            file_name: self.name.clone(),
            precision: self.prec,
            should_print_ghostcells: self.ghost,
            should_print_metadata: self.meta,
            data_names: self.cols.clone(),
        }
    }
    fn json(&self) -> Value {
        json!({"file": self.file(), "vec": self.vec(), "tsv": self.tsv, "folder": self.folder, "name": self.name, "clear": self.clear,
            "meta": self.meta, "prec": self.prec, "ghost": self.ghost, "cols": self.cols.iter().map(col).collect::<Vec<_>>()})
    }
}
pub fn col(n: &DataName) -> String {
    match n {
        DataName::XiCent => "xi_cent".into(),
        DataName::XiWest => "xi_west".into(),
        DataName::XiEast => "xi_east".into(),
        DataName::Prim(j) => format!("prim_{j}"),
        DataName::Cons(j) => format!("cons_{j}"),
        DataName::CSound => "c_sound".into(),
        DataName::T => "t".into(),
        DataName::Iter => "iter".into(),
        DataName::Dt => "dt".into(),
        DataName::DtKind => "dt_kind".into(),
    }
}

/// decimal digits of a value, and whether anything follows them
fn number(x: f64) -> Value {
    if x.is_nan() {
        return json!({"k": "txt", "s": "NaN"});
    }
    if x.is_infinite() {
        return json!({"k": "txt", "s": if x > 0.0 { "inf" } else { "-inf" }});
    }
    const N: usize = 33;
    let long = format!("{:.800e}", x.abs());
    let (m, e) = long.split_once('e').unwrap();
    let digits: Vec<u8> = m.bytes().filter(|b| b.is_ascii_digit()).map(|b| b - b'0').collect();
    json!({"k": "num", "neg": x < 0.0, "d": &digits[..N], "e": e.parse::<i64>().unwrap(), "more": digits[N..].iter().any(|d| *d != 0)})
}
fn text(s: impl ToString) -> Value {
    json!({"k": "txt", "s": s.to_string()})
}
fn token(s: &str) -> Value {
    let b = s.strip_prefix('-').unwrap_or(s);
    if let Some((m, e)) = b.split_once('e') {
        let mut it = m.splitn(2, '.');
        let (a, f) = (it.next().unwrap(), it.next().unwrap_or(""));
        let dig = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
        if a.len() == 1 && dig(a) && dig(f) {
            if let Ok(e) = e.parse::<i64>() {
                let d: Vec<u8> = a.bytes().chain(f.bytes()).map(|c| c - b'0').collect();
                return json!({"n": true, "s": "", "neg": s.starts_with('-'), "d": d, "e": e});
            }
        }
    }
    json!({"n": false, "s": s, "neg": false, "d": [], "e": 0})
}
fn line(raw: &str, keep_raw: bool) -> Value {
    let (h, body) = match raw.strip_prefix('#') {
        Some(b) => (true, b),
        None => (false, raw),
    };
    let t: Vec<Value> = if body.contains(',') { body.split(',').map(|x| token(x.trim())).collect() } else { body.split_whitespace().map(token).collect() };
    let sep = if t.len() < 2 { "" } else if body.contains(',') { "," } else { " " };
    json!({"h": h, "sep": sep, "t": t, "raw": if keep_raw { raw } else { "" }})
}

struct Snap {
    mesh: [Vec<f64>; 3],
    prim: Array2<f64>,
    cons: Array2<f64>,
    c: Vec<f64>,
    t: f64,
    dt: f64,
    iter: usize,
    kind: String,
}
impl Snap {
    fn json(&self, cols: &[DataName]) -> Value {
        let v = |x: &[f64]| x.iter().map(|y| number(*y)).collect::<Vec<_>>();
        let mut m = serde_json::Map::new();
        for c in cols {
            let val = match c {
                DataName::XiWest => v(&self.mesh[0]),
                DataName::XiCent => v(&self.mesh[1]),
                DataName::XiEast => v(&self.mesh[2]),
                DataName::Prim(j) => v(&self.prim.row(*j).to_vec()),
                DataName::Cons(j) => v(&self.cons.row(*j).to_vec()),
                DataName::CSound => v(&self.c),
                DataName::T => vec![number(self.t)],
                DataName::Dt => vec![number(self.dt)],
                DataName::Iter => vec![text(self.iter)],
                DataName::DtKind => vec![text(&self.kind)],
            };
            m.insert(col(c), Value::Array(val));
        }
        Value::Object(m)
    }
}

fn value(rng: &mut Rng) -> f64 {
    let s = if rng.chance(1, 2) { -1.0 } else { 1.0 };
    s * match rng.below(12) {
        0 => 10f64.powi(rng.int(-300, 300) as i32) * (1.0 + rng.unit() * 8.9),
        1 => f64::from_bits(rng.next() >> 12),
        2 => 0.0,
        3 => 10f64.powi(rng.int(-9, 9) as i32) * (1.0 - f64::EPSILON * rng.int(0, 4) as f64),
        4 => rng.int(0, 99) as f64 + 0.5,
        5 => rng.int(0, 100000) as f64 / 64.0,
        6 => 9.999999999 * 10f64.powi(rng.int(-3, 3) as i32),
        7 => rng.int(1, 9) as f64 + if rng.chance(1, 2) { 0.25 } else { 0.125 },
        8 if rng.chance(1, 6) => f64::MAX,
        9 if rng.chance(1, 6) => f64::NAN,
        10 if rng.chance(1, 6) => f64::INFINITY,
        _ => rng.unit() * 4.0,
    }
}

pub fn tree(root: &Path) -> Vec<(Vec<String>, char, u64)> {
    fn walk(p: &Path, pre: &[String], out: &mut Vec<(Vec<String>, char, u64)>) {
        let mut es: Vec<_> = fs::read_dir(p).map(|d| d.flatten().collect()).unwrap_or_default();
        es.sort_by_key(|e: &fs::DirEntry| e.file_name());
        for e in es {
            let mut q = pre.to_vec();
            q.push(e.file_name().to_string_lossy().to_string());
            let m = fs::symlink_metadata(e.path()).unwrap();
            if m.file_type().is_symlink() {
                let t = fs::read_link(e.path()).map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
                out.push((q, 'l', hash_bytes(t.as_bytes())));
            } else if m.is_dir() {
                out.push((q.clone(), 'd', 0));
                walk(&e.path(), &q, out);
            } else {
                out.push((q, 'f', hash_bytes(&fs::read(e.path()).unwrap_or_default())));
            }
        }
    }
    let mut v = vec![];
    walk(root, &[], &mut v);
    v
}
fn tree_json(t: &[(Vec<String>, char, u64)]) -> Value {
    Value::Array(t.iter().map(|(p, k, h)| json!({"p": p, "k": k.to_string(), "h": format!("{h:016x}")})).collect())
}

struct Outcome {
    snaps: Vec<Snap>,
    res: String,
    config: Option<CorriesConfig>,
}

fn base(streams: &[Stream], n: usize, banner: bool) -> CorriesConfig {
    let mut c = crate::fv::base_config(NumFluxConfig::Hll, (1.0, 2.0), 1.4, BoundaryMode::NoGradients, BoundaryMode::NoGradients);
    c.output_counter_max = n;
    c.print_banner = banner;
    c.writer_config = streams.iter().map(|s| s.config()).collect();
    c
}

/// arbitrary numbers written through the writer itself
fn direct<const S: usize>(streams: &[Stream], n: usize, banner: bool, rng: &mut Rng) -> Outcome {
    type T<const S: usize> = RungeKuttaFehlberg<Euler1DAdiabatic<S>, 3, S>;
    reset_world();
    let mut c = base(streams, n, banner);
    let scale = *rng.pick(&[1.0, 1e-5, 1e7, 3.0]);
    c.mesh_config.xi_in = scale * (1.0 + rng.unit());
    c.mesh_config.xi_out = c.mesh_config.xi_in * (1.5 + rng.unit());
    let mut snaps = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        let mut k = c.init_corries::<Euler1DAdiabatic<S>, Hll<3, S>, T<S>, 3, S>(scr_init::<Euler1DAdiabatic<S>, Hll<3, S>, T<S>, 3, S>)?;
        for i in 0..=n {
            k.0.cent.prim.mapv_inplace(|_| value(rng));
            k.0.cent.cons.mapv_inplace(|_| value(rng));
            k.0.cent.c_sound.mapv_inplace(|_| value(rng));
            k.1.timestep.t = value(rng);
            k.1.timestep.dt = value(rng);
            k.1.timestep.iter = *rng.pick(&[0, i, 17, 123_456_789, usize::MAX / 2]);
            k.1.timestep.dt_kind = [corries::DtKind::Init, corries::DtKind::Cfl, corries::DtKind::ErrorDump][rng.below(3)];
            k.3.update_data(&k.0.cent, &k.1.timestep, &k.2)?;
            let ts = &k.1.timestep;
            snaps.push(Snap {
                mesh: [k.2.xi_west.to_vec(), k.2.xi_cent.to_vec(), k.2.xi_east.to_vec()],
                prim: k.0.cent.prim.clone(),
                cons: k.0.cent.cons.clone(),
                c: k.0.cent.c_sound.to_vec(),
                t: ts.t,
                dt: ts.dt,
                iter: ts.iter,
                kind: ts.dt_kind.to_string(),
            });
            k.3.write_output()?;
        }
        Ok(())
    }));
    Outcome { snaps, res: outcome(&r), config: Some(c) }
}
fn outcome(r: &std::thread::Result<color_eyre::Result<()>>) -> String {
    match r {
        Ok(Ok(())) => "ok".into(),
        Ok(Err(e)) if format!("{e:?}").contains("scripted-fault") => "fault".into(),
        Ok(Err(_)) => "err".into(),
        Err(_) => "panic".into(),
    }
}

const RS: usize = 9;
/// a complete run whose every step ends on an output; step `fail` fails
fn whole(streams: &[Stream], n: usize, banner: bool, fail: usize, rng: &mut Rng) -> Outcome {
    type T = RecT<RungeKuttaFehlberg<Scr<RS>, SE, RS>>;
    reset_world();
    set_cfl_param(0.4);
    let mut c = base(streams, n, banner);
    c.numerics_config.t0 = *rng.pick(&[0.0, 0.0, 1.5]);
    c.numerics_config.t_end = c.numerics_config.t0 + *rng.pick(&[1.0, 0.3, 1e-3, 700.0]);
    if n > 1100 {
        c.numerics_config.t_end = c.numerics_config.t0 + 700.0;
    }
    c.numerics_config.dt_min = 1e-9;
    c.numerics_config.dt_max = 1e50;
    let rates: Vec<Array2<f64>> = (0..3).map(|_| Array2::from_shape_fn((SE, RS), |_| rng.unit() - 0.5)).collect();
    let init = Array2::from_shape_fn((SE, RS), |_| rng.unit() * 3.0 - 1.0);
    let cs = Array1::from_shape_fn(RS, |_| rng.unit() + 0.1);
    world(|w| {
        w.default_cfl = 1e40;
        w.init = Some(init);
        w.init_c = Some(cs);
        w.record_full = true;
        w.rate = Some(Box::new(move |s, _, _| rates[s % 3].clone()));
        if fail > 0 {
            w.script = (1..fail).map(|_| StepScript { cfl: 1e40, fault: Fault::None }).collect();
            let f = if rng.chance(1, 2) { Fault::Flux(1, 1) } else { Fault::Cfl(1) };
            w.script.push(StepScript { cfl: 1e40, fault: f });
        }
    });
    let mut snaps = vec![];
    let mut mesh = [vec![], vec![], vec![]];
    let mut first = None;
    let r = catch_unwind(AssertUnwindSafe(|| -> color_eyre::Result<()> {
        let mut k = c.init_corries::<Scr<RS>, ScrFlux, T, SE, RS>(scr_init::<Scr<RS>, ScrFlux, T, SE, RS>)?;
        mesh = [k.2.xi_west.to_vec(), k.2.xi_cent.to_vec(), k.2.xi_east.to_vec()];
        first = Some((Place::of(&k.0.cent), k.1.timestep.t));
        k.run_corries()
    }));
    if let Some((p, t)) = first {
        let m = mesh.clone();
        let snap = |p: &Place, t, dt, iter, kind: &str| Snap { mesh: m.clone(), prim: p.prim.clone(), cons: p.cons.clone(), c: p.c.to_vec(), t, dt, iter, kind: kind.into() };
        snaps.push(snap(&p, t, 0.0, 0, "init"));
        for s in world(|w| std::mem::take(&mut w.steps)) {
            snaps.push(snap(s.after.as_ref().unwrap(), s.t1, s.dt, s.iter, if s.ok { "cfl" } else { "err" }));
        }
    }
    Outcome { snaps, res: outcome(&r), config: Some(c) }
}

const SCALARS: [DataName; 4] = [DataName::Iter, DataName::T, DataName::Dt, DataName::DtKind];
fn columns(vec: bool, e: usize, rng: &mut Rng) -> Vec<DataName> {
    let mut all = SCALARS.to_vec();
    if vec {
        all.extend([DataName::XiCent, DataName::XiWest, DataName::XiEast, DataName::CSound]);
        for j in 0..e {
            all.extend([DataName::Prim(j), DataName::Cons(j)]);
        }
    }
    let most = if rng.chance(1, 12) { 16 } else { 5 };
    let n = 1 + rng.below(most);
    // repetitions are allowed
    (0..n).map(|_| *rng.pick(&all)).collect()
}
const NAMES: [&str; 6] = ["data", "a.b", "x_1", "weird name", "ünï", "-dash"];

/// fills in what the script leaves open
fn finish(kind: &str, folder: Vec<String>, clear: bool, meta: bool, i: usize, e: usize, shared: bool, root: &Path, rng: &mut Rng) -> Stream {
    let vec = kind.ends_with("vector");
    let mut given = folder.join("/");
    match rng.below(8) {
        0 => given.push('/'),
        1 => given = format!("./{given}"),
        2 => given = root.join(&given).to_string_lossy().to_string(),
        3 => given = given.replace('/', "//"),
        _ => {},
    }
    let name = if shared { "same".to_string() } else { format!("{}{i}", rng.pick(&NAMES)) };
    let file = !kind.starts_with("stdout");
    Stream {
        kind: kind.into(),
        tsv: if shared && i < 2 { i % 2 == 0 } else { rng.chance(1, 2) },
        folder: if file { folder } else { vec![] },
        given: if file || rng.chance(1, 2) { given } else { String::new() },
        name: if file || rng.chance(1, 2) { name } else { String::new() },
        clear,
        meta,
        prec: *rng.pick(&[0, 1, 3, 5, 7, 12, 16, 19, 30]),
        ghost: rng.chance(1, 2),
        cols: columns(vec, e, rng),
    }
}

/// some streams have the columns of another one
fn share(streams: &mut [Stream], rng: &mut Rng) {
    if rng.chance(1, 2) {
        for i in 1..streams.len() {
            let j = rng.below(i);
            if streams[j].vec() == streams[i].vec() {
                streams[i].cols = streams[j].cols.clone();
            }
        }
    }
}

/// what this run may write: file paths of a stream, as harness bookkeeping for reading them back
fn read_file(p: &Path) -> Vec<Value> {
    let s = String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).to_string();
    let mut ls: Vec<&str> = s.split('\n').collect();
    // every line ends with a newline
    if ls.last() == Some(&"") {
        ls.pop();
    } else {
        ls.push("<no newline at the end>");
    }
    ls.iter().map(|l| line(l, false)).collect()
}

pub struct Case {
    streams: Vec<Stream>,
    n: usize,
    fail: usize,
    banner: bool,
    mode: usize, // 0 whole run, 1.. direct with some size
}

fn run_case(id: usize, c: &Case, root: &Path, rng: &mut Rng) -> Value {
    std::env::set_current_dir(root).unwrap();
    let before = tree(root);
    println!("@@case {id}");
    let o = match c.mode {
        0 => whole(&c.streams, c.n, c.banner, c.fail, rng),
        1 => direct::<6>(&c.streams, c.n, c.banner, rng),
        2 => direct::<9>(&c.streams, c.n, c.banner, rng),
        3 => direct::<12>(&c.streams, c.n, c.banner, rng),
        _ => direct::<90>(&c.streams, c.n, c.banner, rng),
    };
    println!("\n@@end {id}");
    std::io::stdout().flush().unwrap();
    let after = tree(root);
    let s = [RS, 6, 9, 12, 90][c.mode.min(4)];
    let config = o.config.as_ref().unwrap();
    // both sides go through the same reader, which rounds numbers
    let reread: Value = serde_json::from_str(&serde_json::to_string(config).unwrap()).unwrap();
    let mut all: Vec<DataName> = vec![];
    for st in &c.streams {
        for x in &st.cols {
            if !all.contains(x) {
                all.push(*x);
            }
        }
    }
    // everything that is there afterwards in the folders of the streams and was not there before, or changed
    let old: BTreeMap<_, _> = before.iter().map(|(p, k, h)| (p.clone(), (*k, *h))).collect();
    let mine = |p: &Vec<String>| c.streams.iter().any(|st| st.file() && p.len() == st.folder.len() + 1 && p.starts_with(&st.folder) && p.last().unwrap().starts_with(&st.name));
    let mut files = vec![];
    for (p, k, h) in &after {
        if *k == 'f' && (old.get(p) != Some(&(*k, *h)) || mine(p)) {
            let path: PathBuf = p.iter().fold(root.to_path_buf(), |a, x| a.join(x));
            if p.last().unwrap().ends_with("_metadata.json") {
                let same = serde_json::from_slice::<Value>(&fs::read(&path).unwrap_or_default()).map(|v| v == reread).unwrap_or(false);
                files.push(json!({"p": p, "meta": true, "same": same, "lines": []}));
            } else {
                files.push(json!({"p": p, "meta": false, "same": false, "lines": read_file(&path)}));
            }
        }
    }
    let meta: Vec<String> = serde_json::to_string_pretty(config).unwrap().lines().map(String::from).collect();
    json!({"ev": "wr", "id": id, "res": o.res, "fail": c.fail, "n": c.n, "s": s, "banner": c.banner, "direct": c.mode > 0,
        "streams": c.streams.iter().map(|s| s.json()).collect::<Vec<_>>(), "snaps": o.snaps.iter().map(|s| s.json(&all)).collect::<Vec<_>>(),
        "files": files, "before": tree_json(&before), "after": tree_json(&after), "meta": meta, "out": [], "obst": []})
}

/// foreign things in the folders, and remains of earlier runs
fn litter(root: &Path, entry: &str) {
    // "a/b/" a folder, "a/f" a file, "a/l@target" a symlink
    if let Some(d) = entry.strip_suffix('/') {
        fs::create_dir_all(root.join(d)).unwrap();
    } else if let Some((l, t)) = entry.split_once('@') {
        fs::create_dir_all(root.join(l).parent().unwrap()).unwrap();
        std::os::unix::fs::symlink(t, root.join(l)).ok();
    } else {
        fs::create_dir_all(root.join(entry).parent().unwrap()).unwrap();
        fs::write(root.join(entry), format!("foreign {entry}\n").repeat(1 + entry.len() % 3)).unwrap();
    }
}
fn stale(root: &Path, c: &Case, rng: &mut Rng) {
    for s in c.streams.iter().filter(|s| s.file()) {
        if !rng.chance(1, 2) {
            continue;
        }
        let dir: PathBuf = s.folder.iter().fold(root.to_path_buf(), |a, x| a.join(x));
        if fs::create_dir_all(&dir).is_err() {
            continue;
        }
        let end = if s.tsv { "tsv" } else { "csv" };
        let long = "stale,stale,stale,stale,stale,stale,stale,stale,stale\n".repeat(200);
        let mut put = |f: String| {
            fs::write(dir.join(f), &long).ok();
        };
        if s.vec() {
            for i in 0..13 {
                put(format!("{}_{i}.{end}", s.name));
                put(format!("{}_{i:02}.{end}", s.name));
            }
            put(format!("{}__metadata.json", s.name));
        } else {
            put(format!("{}.{end}", s.name));
            put(format!("{}_metadata.json", s.name));
        }
    }
}

/// puts something where the run wants to write: a folder, a device that is full, a file that may not be written;
/// gives its path
fn obstruct(root: &Path, c: &Case, o: &Value) -> Vec<String> {
    let s = &c.streams[o["i"].as_u64().unwrap() as usize - 1];
    let k = o["k"].as_i64().unwrap();
    if !s.file() {
        return vec![];
    }
    let end = if s.tsv { "tsv" } else { "csv" };
    let w = c.n.to_string().len();
    let name = match (k, s.vec()) {
        (-1, true) => format!("{}__metadata.json", s.name),
        (-1, false) => format!("{}_metadata.json", s.name),
        (_, true) => format!("{}_{k:0w$}.{end}", s.name),
        (_, false) => format!("{}.{end}", s.name),
    };
    let dir: PathBuf = s.folder.iter().fold(root.to_path_buf(), |a, x| a.join(x));
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(&name);
    fs::remove_file(&path).ok();
    match o["how"].as_str().unwrap() {
        "dir" => fs::create_dir(&path).unwrap(),
        "full" => std::os::unix::fs::symlink("/dev/full", &path).unwrap(),
        _ => {
            fs::write(&path, "old").unwrap();
            fs::set_permissions(&path, std::os::unix::fs::PermissionsExt::from_mode(0o444)).unwrap();
        },
    }
    let mut p = s.folder.clone();
    p.push(name);
    p
}

struct Pending(Vec<Value>);
impl Pending {
    fn finish(self, dir: &str) {
        std::io::stdout().flush().unwrap();
        let all = String::from_utf8_lossy(&fs::read(Path::new(dir).join("stdout")).unwrap_or_default()).to_string();
        let mut out: BTreeMap<u64, Vec<String>> = BTreeMap::new();
        let mut cur: Option<u64> = None;
        for l in all.lines() {
            if let Some(x) = l.strip_prefix("@@case ") {
                cur = x.parse().ok();
                out.insert(cur.unwrap(), vec![]);
            } else if l.starts_with("@@end ") {
                // the marker is preceded by one newline of the harness
                let v = out.get_mut(&cur.unwrap()).unwrap();
                if v.last().map(|s| s.is_empty()).unwrap_or(false) {
                    v.pop();
                } else {
                    v.push("<no newline at the end>".into());
                }
                cur = None;
            } else if let Some(c) = cur {
                out.get_mut(&c).unwrap().push(l.into());
            }
        }
        for mut v in self.0 {
            if let Some(id) = v["id"].as_u64() {
                if let Some(ls) = out.get(&id) {
                    v["out"] = Value::Array(ls.iter().map(|l| line(l, true)).collect());
                }
            }
            emit(v);
        }
    }
}

fn fresh(dir: &str, id: usize) -> PathBuf {
    let root = Path::new(dir).join(format!("case{id}"));
    fs::create_dir_all(&root).unwrap();
    root
}
fn leave(dir: &str, root: &Path) {
    std::env::set_current_dir(dir).unwrap();
    assert!(root.starts_with(dir) && root != Path::new(dir));
    fs::remove_dir_all(root).ok();
}

/// folder situations from the specification
pub fn replay(input: &str, seed: u64, dir: &str) {
    let mut pend = Pending(vec![]);
    for (id, l) in fs::read_to_string(input).expect("input").lines().enumerate() {
        let v: Value = serde_json::from_str(l).expect("json");
        let mut rng = Rng::new(seed, 130_000 + id as u64);
        let root = fresh(dir, id);
        let streams = v["streams"].as_array().unwrap();
        let obst = &v["obst"][0];
        let mode = if v["fail"].as_u64().unwrap() > 0 || !obst.is_null() { 0 } else { rng.below(3) };
        let e = if mode == 0 { SE } else { 3 };
        let strs = |x: &Value| x.as_array().unwrap().iter().map(|y| y.as_str().unwrap().to_string()).collect::<Vec<_>>();
        let mut c = Case {
            streams: streams
                .iter()
                .enumerate()
                .map(|(i, s)| finish(s["kind"].as_str().unwrap(), strs(&s["folder"]), s["clear"].as_bool().unwrap(), s["meta"].as_bool().unwrap(), i, e, false, &root, &mut rng))
                .collect(),
            n: v["n"].as_u64().unwrap() as usize,
            fail: v["fail"].as_u64().unwrap() as usize,
            banner: rng.chance(1, 4),
            mode,
        };
        share(&mut c.streams, &mut rng);
        for x in strs(&v["pre"]) {
            litter(&root, &x);
        }
        if v["stale"].as_bool().unwrap() {
            stale(&root, &c, &mut rng);
        }
        let path = if obst.is_null() { vec![] } else { obstruct(&root, &c, obst) };
        let mut line = run_case(id, &c, &root, &mut rng);
        line["obst"] = json!(path);
        pend.0.push(line);
        leave(dir, &root);
    }
    pend.finish(dir);
}

/// random streams, several runs into the same folders
pub fn random(count: usize, seed: u64, dir: &str, runs_only: bool) {
    let mut pend = Pending(vec![]);
    let kinds = ["scalar", "vector", "stdout-scalar", "stdout-vector"];
    for g in 0..count {
        let mut rng = Rng::new(seed, 140_000 + g as u64);
        let root = fresh(dir, g);
        let runs = 1 + rng.below(3);
        for r in 0..runs {
            let mode = if runs_only { 0 } else if rng.chance(1, 30) { 4 } else { rng.below(4) };
            let e = if mode == 0 { SE } else { 3 };
            let shared = rng.chance(1, 5);
            let ns = if shared { 2 } else { 1 + rng.below(4) };
            let n = *rng.pick(&[1, 1, 2, 3, 4, 9, 10, 11]);
            let flood = rng.chance(1, 4);
            let sticky = rng.chance(1, 2);
            // a run of very many outputs: cut short, or with one small stream
            let many = mode == 0 && rng.chance(1, 8);
            let n = if many { *rng.pick(&[99, 100, 101, 999, 1000, 1001, 9999, 10_000, 99_999, 100_000, 999_999, 1_000_000, 1_000_000_000]) } else { n };
            let all_of_them = many && n < 1500 && rng.chance(1, 2);
            let ns = if all_of_them { 1 } else if !many && !shared && n < 4 && rng.chance(1, 12) { *rng.pick(&[8, 9, 17]) } else { ns };
            let mut streams: Vec<Stream> = (0..ns)
                .map(|i| {
                    let kind = if shared { kinds[rng.below(2)] } else if flood { kinds[2 + rng.below(2)] } else { kinds[rng.below(4)] };
                    let folder = rng.pick(&[vec!["out"], vec!["out", "in"], vec!["deep", "er", "est"], vec!["o u t"]]).iter().map(|x| x.to_string()).collect();
                    let mut s = finish(kind, folder, rng.chance(1, 3), rng.chance(1, 2), i, e, shared, &root, &mut rng);
                    if sticky && s.file() && !shared {
                        s.name = format!("same{i}");
                    }
                    s
                })
                .collect();
            if all_of_them {
                streams[0].cols.truncate(1);
            }
            share(&mut streams, &mut rng);
            let fail = if many && !all_of_them { 1 + rng.below(3) } else if mode == 0 && rng.chance(1, if runs_only { 2 } else { 3 }) { 1 + rng.below(n) } else { 0 };
            let c = Case { streams, n, fail, banner: rng.chance(1, 5), mode };
            if rng.chance(1, 3) {
                stale(&root, &c, &mut rng);
            }
            pend.0.push(run_case(g * 10 + r, &c, &root, &mut rng));
        }
        leave(dir, &root);
    }
    pend.finish(dir);
}

/// the same simulation with different selections and orders of streams
pub fn independent(count: usize, seed: u64, dir: &str) {
    let kinds = ["scalar", "vector", "stdout-scalar", "stdout-vector"];
    for g in 0..count {
        let mut rng = Rng::new(seed, 150_000 + g as u64);
        let n = 1 + rng.below(6);
        let fail = if rng.chance(1, 3) { 1 + rng.below(n) } else { 0 };
        let mut all: Vec<Stream> = (0..5)
            .map(|i| {
                let mut s = finish(kinds[rng.below(4)], vec![["out", "other"][rng.below(2)].to_string()], false, rng.chance(1, 4), i, SE, false, Path::new("/nonexistent"), &mut rng);
                s.given = s.folder.join("/");
                s
            })
            .collect();
        share(&mut all, &mut rng);
        let sim = rng.next();
        let mut seen = vec![];
        for r in 0..4 {
            let root = fresh(dir, r);
            std::env::set_current_dir(&root).unwrap();
            // all of them, then subsets in other orders
            let mut sel: Vec<usize> = (0..5).filter(|i| r == 0 || rng.chance(1, 2) || *i == (g + r) % 5).collect();
            for i in (1..sel.len()).rev() {
                sel.swap(i, rng.below(i + 1));
            }
            let streams: Vec<Stream> = sel.iter().map(|i| all[*i].clone()).collect();
            let o = whole(&streams, n, false, fail, &mut Rng::new(sim, 0));
            let t = tree(&root);
            for i in &sel {
                let s = &all[*i];
                if s.file() {
                    // the name is unique up to its end, so these are the stream's files
                    let mut h = vec![];
                    for (p, k, x) in &t {
                        let f = p.last().unwrap();
                        if *k == 'f' && p.starts_with(&s.folder) && f.starts_with(&s.name) && !f.ends_with("_metadata.json") {
                            h.extend(f.as_bytes());
                            h.extend(x.to_le_bytes());
                        }
                    }
                    seen.push(json!({"k": i + 1, "h": format!("{:016x}", hash_bytes(&h)), "some": !h.is_empty()}));
                }
            }
            seen.push(json!({"k": 0, "h": o.res, "some": true}));
            leave(dir, &root);
        }
        emit(json!({"ev": "ind", "id": g, "seen": seen}));
    }
}
