//! The command line program as a state machine over the files it leaves: P02, P04, P05.
use crate::c_state::writer;
use crate::sys::*;
use crate::util::*;
use posidonius::output::{n_bytes_per_particle_in_historic_snapshot, restore_snapshot};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// Contents of a folder.
#[derive(Clone, Default, PartialEq)]
pub struct Dir(pub BTreeMap<String, Arc<Vec<u8>>>);

/// Names with the date of a kept-aside snapshot made anonymous.
fn canonical(name: &str) -> String {
    let b = name.as_bytes();
    for i in 0..b.len().saturating_sub(10) {
        if b[i..i + 8].iter().all(|c| c.is_ascii_digit()) && b[i + 8] == b'T' {
            return format!("{}DATE{}", &name[..i], canonical(&name[i + 9..].trim_start_matches("AM").trim_start_matches("PM")));
        }
    }
    name.to_string()
}

impl Dir {
    fn hash(&self) -> u64 {
        let mut h = DefaultHasher::new();
        for (k, v) in &self.0 {
            canonical(k).hash(&mut h);
            v.hash(&mut h);
        }
        h.finish()
    }
    pub fn get(&self, n: &str) -> Option<&Vec<u8>> {
        self.0.get(n).map(|a| &**a)
    }
    pub fn put(&mut self, n: &str, v: Vec<u8>) {
        self.0.insert(n.into(), Arc::new(v));
    }
    fn write(&self, p: &Path) {
        std::fs::create_dir_all(p).unwrap();
        for (k, v) in &self.0 {
            std::fs::write(p.join(k), &**v).unwrap();
        }
    }
    fn read(p: &Path) -> Dir {
        let mut d = Dir::default();
        for e in std::fs::read_dir(p).unwrap().flatten() {
            if e.file_type().unwrap().is_file() {
                d.0.insert(e.file_name().to_string_lossy().to_string(), Arc::new(std::fs::read(e.path()).unwrap()));
            }
        }
        d
    }
    fn brief(&self) -> String {
        self.0.iter().map(|(k, v)| format!("{}:{}", k, v.len())).collect::<Vec<_>>().join(" ")
    }
}

/// What is injected: nothing, or at operation `n`, after `k` bytes, a crash (mode 'x'), an error once ('e'), a full disk
/// from then on ('f') or a short write ('s').
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub n: usize,
    pub k: usize,
    pub mode: char,
}

pub struct Out {
    pub code: i32,
    pub dir: Dir,
    pub ops: Vec<(String, usize)>,
    pub text: String,
}

static SERIAL: AtomicUsize = AtomicUsize::new(0);

/// Runs the real program in a folder with the given contents.
pub fn run(rep: &Rep, d: &Dir, args: &[String], fault: Option<Fault>, log: bool) -> Out {
    let at = rep.scratch.join(format!("d{}", SERIAL.fetch_add(1, Ordering::SeqCst)));
    d.write(&at);
    let mut c = Command::new(std::env::var("PCHECK_BIN").expect("PCHECK_BIN"));
    c.args(args).env("RUST_BACKTRACE", "0").current_dir(&at).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped());
    let logf = rep.scratch.join(format!("{}.log", at.file_name().unwrap().to_string_lossy()));
    if fault.is_some() || log {
        c.env("LD_PRELOAD", std::env::var("PCHECK_SHIM").expect("PCHECK_SHIM")).env("CRASH_DIR", &at);
    }
    if log {
        c.env("CRASH_LOG", &logf);
    }
    if let Some(f) = fault {
        c.env("CRASH_AT", f.n.to_string()).env("CRASH_BYTES", f.k.to_string());
        match f.mode {
            'e' => { c.env("CRASH_MODE", "error"); }
            'f' => { c.env("CRASH_MODE", "full"); }
            's' => { c.env("CRASH_MODE", "short"); }
            _ => {}
        }
    }
    let o = c.output().expect("the program runs");
    rep.transitions(1);
    let code = o.status.code().unwrap_or(-1);
    let dir = Dir::read(&at);
    let _ = std::fs::remove_dir_all(&at);
    let mut ops = vec![];
    if log {
        for l in std::fs::read_to_string(&logf).unwrap_or_default().lines() {
            let (a, b) = l.split_once(' ').unwrap();
            ops.push((a.to_string(), b.parse().unwrap()));
        }
        let _ = std::fs::remove_file(&logf);
    }
    Out { code, dir, ops, text: String::from_utf8_lossy(&o.stdout).to_string() }
}

pub fn args(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// The case file of a simulation that has not started.
pub fn case_file(s: &Sim) -> Vec<u8> {
    let mut v = s.value();
    v["hash"] = json!(0);
    serde_json::to_vec_pretty(&v).unwrap()
}

/// Simulation in a snapshot with these bytes, as the program would restore it.
fn restored(rep: &Rep, bytes: &[u8], ext: &str) -> Option<Sim> {
    let p = rep.scratch.join(format!("r{}.{}", SERIAL.fetch_add(1, Ordering::SeqCst), ext));
    std::fs::write(&p, bytes).unwrap();
    let r = match guard(|| restore_snapshot(&p)) {
        Ok(Ok(b)) => Sim::from_box(b),
        _ => None,
    };
    let _ = std::fs::remove_file(&p);
    r
}

/// Histories as values: same number of entries and values equal (bit for bit, or within `rel` of their scale).
fn same_history(a: &[u8], b: &[u8], exact: bool) -> bool {
    if exact {
        return a == b;
    }
    if a.len() != b.len() || a.len() % 156 != 0 {
        return false;
    }
    for (x, y) in a.chunks(156).zip(b.chunks(156)) {
        let f = |z: &[u8], o: usize| f64::from_le_bytes(z[o..o + 8].try_into().unwrap());
        if x[16..20] != y[16..20] {
            return false;
        }
        let offs: Vec<usize> = (0..19).map(|i| if i < 2 { 8 * i } else { 8 * i + 4 }).collect();
        for (i, o) in offs.iter().enumerate() {
            let (p, q) = (f(x, *o), f(y, *o));
            // vectors are compared on the scale of the vector
            let sc = if (2..11).contains(&i) { let v = 2 + (i - 2) / 3 * 3; (0..3).map(|j| f(y, offs[v + j]).abs()).fold(0., f64::max) } else { q.abs() };
            if !((p - q).abs() <= 1e-5 * sc + 1e-300) && p.to_bits() != q.to_bits() {
                return false;
            }
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------------------------- P02

pub const P02_RULE: &str = "Explicit-state exploration of fault histories on the real binary: a preloaded injector numbers every operation that changes a file (create, write, truncate, rename, unlink, link); for each run the process is ended at every operation and, for writes, after every torn length class, and besides every operation is made to fail once, to fail from then on (disk full) and to write short. The state is the folder left behind (hashed); from each, every file is offered to the real program for resuming, with a further fault at every operation of the resumed run, up to the stated number of consecutive faults. Checked on every state: a usable snapshot survives, every complete snapshot found can be resumed with the history found, progress already saved is never lost, whatever is accepted completes with the byte-identical history, whatever is refused leaves the files untouched, and a run that reports completion has written the complete history.";
pub const P02_ASSUME: &[&str] = &["the process dies or its file operations fail; what completed operations wrote stays (no loss of the operating system's cache)", "binary snapshots byte-identical, text snapshots within 1e-5 (text does not carry every bit of a number)"];

struct Conf {
    name: String,
    case: Vec<u8>,
    ext: &'static str,
    exact: bool,
}

fn faults(ops: &[(String, usize)], thorough: bool, errors: bool) -> Vec<Fault> {
    let mut v = vec![];
    for (i, (kind, len)) in ops.iter().enumerate() {
        let n = i + 1;
        if kind == "write" {
            let l = *len;
            let mut ks = vec![0, 1, l / 2, l.saturating_sub(1)];
            if thorough {
                ks.extend([7, 8, 156, 157, 311, 312, l / 4, 3 * l / 4, l.saturating_sub(8)]);
                ks.extend((1..(l / 4096 + 1)).map(|j| 4096 * j));
            }
            ks.retain(|k| *k < l.max(1));
            ks.sort();
            ks.dedup();
            for k in ks {
                v.push(Fault { n, k, mode: 'x' });
                if errors && (k == 0 || k == l / 2) {
                    v.push(Fault { n, k, mode: 'f' });
                    v.push(Fault { n, k, mode: if k == 0 { 'e' } else { 's' } });
                }
            }
        } else {
            v.push(Fault { n, k: 0, mode: 'x' });
            if errors {
                v.push(Fault { n, k: 0, mode: 'e' });
                v.push(Fault { n, k: 0, mode: 'f' });
            }
        }
    }
    v.push(Fault { n: ops.len() + 1, k: 0, mode: 'x' });
    v
}

#[derive(Clone)]
struct Item {
    dir: u64,
    cmd: Vec<String>,
    /// snapshot resumed from, and simulation time it holds
    from: Option<(String, f64)>,
    path: String,
    /// is it the most advanced usable snapshot of its folder?
    newest: bool,
}

/// Result of offering a file for resuming without faults: time it holds, if it was usable; operations of that run.
#[derive(Clone)]
struct Offer {
    time: Option<f64>,
    ops: Vec<(String, usize)>,
}

pub fn p02(rep: &Rep) {
    let mut confs = vec![];
    let kinds: Vec<(Int, &str, f64, f64, f64, usize)> = if rep.thorough {
        let mut v = vec![];
        for int in INTS {
            for ext in ["bin", "json"] {
                // (recovery period, historic period, steps): several snapshots; long history between snapshots; a
                // snapshot at every step; sparse history
                v.push(match (int, ext) {
                    (Int::Leap | Int::Jacobi, "bin") => (int, ext, 8., 1., 30., 2),
                    (Int::Leap | Int::Jacobi, _) => (int, ext, 34., 1., 75., 3),
                    (Int::Ias15, "bin") => (int, ext, 2., 0.5, 12., 2),
                    (Int::Ias15, _) => (int, ext, 5., 3.3, 22., 2),
                    (Int::Demo, "bin") => (int, ext, 34., 1., 75., 3),
                    (Int::Demo, _) => (int, ext, 0.5, 1., 8., 2),
                    (_, "bin") => (int, ext, 5., 3.3, 22., 2),
                    _ => (int, ext, 8., 1., 30., 2),
                });
            }
        }
        v
    } else {
        vec![(Int::Jacobi, "bin", 4., 1., 14., 2), (Int::Leap, "bin", 34., 1., 60., 2), (Int::Ias15, "bin", 2., 0.5, 7., 2), (Int::Whds, "json", 5., 2.5, 14., 2), (Int::Demo, "bin", 0.5, 1., 5., 2)]
    };
    for (int, ext, rec, hist, steps, n) in kinds {
        let dt = 0.0625;
        let mut s = compact(n, eff_mask(1));
        s.tlim = dt * steps;
        let x = sim(int, dt, rec * dt, hist * dt, build(&s));
        confs.push(Conf { name: format!("{}.{}/recovery={}/history={}/steps={}/bodies={}", int_name(int), ext, rec, hist, steps, n), case: case_file(&x), ext, exact: ext == "bin" });
    }
    let depth = 2;
    for c in &confs {
        if rep.nviol() > 0 || !rep.want(&c.name) {
            continue;
        }
        crash_space(rep, c, depth);
    }
}

fn crash_space(rep: &Rep, c: &Conf, depth: usize) {
    let snap = format!("s.{}", c.ext);
    let mut d0 = Dir::default();
    d0.put("case.json", c.case.clone());
    let r = run(rep, &d0, &args(&["start", "case.json", &snap, "h.bin"]), None, true);
    if r.code != 0 || r.dir.get(&snap).is_none() {
        rep.violation(&c.name, &format!("the undisturbed run ends with status {} leaving {}", r.code, r.dir.brief()));
        return;
    }
    let href = r.dir.get("h.bin").cloned().unwrap_or_default();
    let dirs: Mutex<HashMap<u64, Dir>> = Mutex::new(HashMap::new());
    let offers: Mutex<HashMap<(u64, String), Offer>> = Mutex::new(HashMap::new());
    let store = |d: Dir| {
        let h = d.hash();
        dirs.lock().unwrap().entry(h).or_insert(d);
        h
    };
    let h0 = store(d0.clone());
    let mut level = vec![(Item { dir: h0, cmd: args(&["start", "case.json", &snap, "h.bin"]), from: None, path: String::new(), newest: true }, r.ops.clone())];
    let mut done: std::collections::HashSet<(u64, String)> = Default::default();
    let mut points = 0;
    let mut runs = 0;
    for dep in 0..depth {
        // every fault of every run of this level
        let mut jobs: Vec<(usize, Fault)> = vec![];
        for (i, (it, ops)) in level.iter().enumerate() {
            let _ = it;
            for f in faults(ops, rep.thorough && dep == 0, dep == 0 || rep.thorough) {
                jobs.push((i, f));
            }
        }
        points += jobs.len();
        runs += level.len();
        let left: Mutex<Vec<Option<(u64, i32)>>> = Mutex::new(vec![None; jobs.len()]);
        par(rep, jobs.len(), |j| {
            let (i, f) = jobs[j];
            let it = &level[i].0;
            let d = dirs.lock().unwrap()[&it.dir].clone();
            let key = format!("{}{}/at={}.{}.{}", c.name, it.path, f.n, f.k, f.mode);
            let o = run(rep, &d, &it.cmd, Some(f), false);
            if o.code == 0 {
                // it reported completion: then everything is there
                let ok = o.dir.get("h.bin").map(|h| same_history(h, &href, c.exact)).unwrap_or(false);
                rep.check(&key, ok, || format!("the run reports completion, but its history is not complete: {} (want {} bytes)", o.dir.brief(), href.len()));
            } else if f.mode == 'x' && f.n <= level[i].1.len() {
                rep.check(&key, o.code == 137, || format!("the run ended by itself with status {} before the fault", o.code));
            }
            let h = store(o.dir);
            left.lock().unwrap()[j] = Some((h, o.code));
        });
        let left = left.into_inner().unwrap();
        // offer every file of every folder left behind to the program
        let mut cand: Vec<(u64, String)> = vec![];
        {
            let ds = dirs.lock().unwrap();
            let of = offers.lock().unwrap();
            let mut seen = std::collections::HashSet::new();
            for l in left.iter().flatten() {
                if !seen.insert(l.0) {
                    continue;
                }
                for k in ds[&l.0].0.keys() {
                    if k != "case.json" && k != "h.bin" && !of.contains_key(&(l.0, k.clone())) {
                        cand.push((l.0, k.clone()));
                    }
                }
            }
        }
        // folders reached without ever going back to an older snapshot (which truncates the history on purpose)
        let straight: std::collections::HashSet<u64> = jobs.iter().zip(left.iter()).filter(|(j, _)| level[j.0].0.newest).filter_map(|(_, l)| l.map(|l| l.0)).collect();
        rep.states(left.iter().flatten().map(|l| l.0).collect::<std::collections::HashSet<_>>().len() as u64);
        par(rep, cand.len(), |j| {
            let (h, k) = &cand[j];
            let d = dirs.lock().unwrap()[h].clone();
            let key = format!("{}/folder={:016x}/resume={}", c.name, h, k);
            let o = run(rep, &d, &args(&["resume", k, "h.bin"]), None, true);
            let ext = Path::new(k).extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
            let t = restored(rep, d.get(k).unwrap(), &ext).map(|s| s.time());
            let offer = if o.code == 0 {
                rep.traces(1);
                let ok = o.dir.get("h.bin").map(|x| same_history(x, &href, c.exact)).unwrap_or(false);
                rep.check(&key, ok, || format!("resuming from {} completes with a different history: {} -> {} (want {} bytes)", k, d.brief(), o.dir.brief(), href.len()));
                Offer { time: Some(t.unwrap_or(0.)), ops: o.ops }
            } else {
                let mut was = d.clone();
                if was.get("h.bin").is_none() {
                    was.put("h.bin", vec![]);
                }
                let mut now = o.dir.clone();
                if now.get("h.bin").is_none() {
                    now.put("h.bin", vec![]);
                }
                rep.check(&key, t.is_none() || k.ends_with(".tmp") || !straight.contains(h), || format!("{} is a complete snapshot of day {}, but the run cannot be resumed from it with the history left: {}", k, t.unwrap_or(0.), d.brief()));
                rep.check(&key, was == now, || format!("refused to resume from {}, but changed the files: {} -> {}", k, d.brief(), o.dir.brief()));
                Offer { time: None, ops: vec![] }
            };
            offers.lock().unwrap().insert((h.clone(), k.clone()), offer);
        });
        if rep.nviol() > 0 {
            break;
        }
        // what every folder offers, in the order of the fault points of each run
        let of = offers.lock().unwrap();
        let ds = dirs.lock().unwrap();
        let mut next = vec![];
        let mut floor: Vec<Option<f64>> = level.iter().map(|(it, _)| it.from.as_ref().map(|f| f.1)).collect();
        for (j, l) in left.iter().enumerate() {
            let (i, f) = jobs[j];
            let (h, code) = match l { Some(x) => *x, None => continue };
            let it = &level[i].0;
            let key = format!("{}{}/at={}.{}.{}", c.name, it.path, f.n, f.k, f.mode);
            let us: Vec<(String, f64)> = ds[&h].0.keys().filter_map(|k| of.get(&(h, k.clone())).and_then(|o| o.time).map(|t| (k.clone(), t))).collect();
            let best = us.iter().map(|u| u.1).fold(f64::NEG_INFINITY, f64::max);
            if let Some(fl) = floor[i] {
                if !rep.check(&key, best >= fl, || format!("a snapshot of day {} had been completed, but what is left can only be resumed from {}: {} (status {})", fl, if us.is_empty() { "nothing".to_string() } else { format!("day {}", best) }, ds[&h].brief(), code)) {
                    continue;
                }
            }
            if !us.is_empty() && it.newest && f.mode == 'x' {
                floor[i] = Some(floor[i].unwrap_or(best).max(best));
            }
            for (k, t) in us.iter() {
                if done.insert((h, k.clone())) {
                    next.push((Item { dir: h, cmd: args(&["resume", k, "h.bin"]), from: Some((k.clone(), *t)), path: format!("{}/at={}.{}.{}/resume={}", it.path, f.n, f.k, f.mode, canonical(k)), newest: *t == best }, of[&(h, k.clone())].ops.clone()));
                }
            }
        }
        // the whole run did save progress
        if dep == 0 {
            rep.check(&c.name, floor[0].is_some(), || "no recovery snapshot was ever usable".to_string());
        }
        drop(of);
        drop(ds);
        level = next;
    }
    let nd = dirs.lock().unwrap().len();
    rep.group(&format!("{}: runs {}, fault points {}, folders", c.name, runs, points), nd as u64);
    rep.sample(json!({"configuration": c.name, "runs explored": runs, "fault points": points, "distinct folders": nd, "operations of the undisturbed run": r.ops.len(), "history bytes": href.len()}));
}

// ------------------------------------------------------------------------------------------------ model of run control

/// What the program knows when it stops: step, history entries written so far (as steps), periods and limit.
#[derive(Clone, Debug, PartialEq)]
struct Saved {
    k: usize,
    rec: Vec<usize>,
    last_h: f64,
    last_r: f64,
    h: f64,
    r: f64,
    l: f64,
}

/// A trajectory of the real integrator, step by step: times, steps, history entries.
struct Track {
    name: String,
    int: Int,
    case: Vec<u8>,
    t: Vec<f64>,
    dt: Vec<f64>,
    e: Vec<Vec<u8>>,
    bodies: usize,
    table_end: Option<f64>,
    init: Saved,
}

fn track(rep: &Rep, name: &str, int: Int, case: Vec<u8>, steps: usize, table_end: Option<f64>, init: Saved) -> Option<Track> {
    let mut s = restored(rep, &case, "json")?;
    let bodies = s.uni().n_particles;
    let p = rep.scratch.join(format!("t{}.bin", SERIAL.fetch_add(1, Ordering::SeqCst)));
    let mut w = writer(&p);
    s.as_dyn().set_snapshot_periods(1e-300, 1e9);
    s.uni_mut().time_limit = 1e9;
    let mut t = vec![];
    for _ in 0..=steps {
        t.push(s.time());
        let _ = s.as_dyn().iterate(&mut w, true);
    }
    drop(w);
    let b = std::fs::read(&p).unwrap();
    let _ = std::fs::remove_file(&p);
    let n = n_bytes_per_particle_in_historic_snapshot() as usize * bodies;
    let e: Vec<Vec<u8>> = b.chunks(n).map(|c| c.to_vec()).collect();
    if e.len() != t.len() || e.iter().zip(&t).any(|(e, t)| f64::from_le_bytes(e[..8].try_into().unwrap()) != *t) {
        return None;
    }
    let dt = e.iter().map(|e| f64::from_le_bytes(e[8..16].try_into().unwrap())).collect();
    Some(Track { name: name.into(), int, case, t, dt, e, bodies, table_end, init })
}

impl Track {
    /// Runs the model: all snapshots written, in order, and the entries of the final history.
    fn go(&self, from: &Saved) -> (Vec<Saved>, Vec<usize>) {
        let mut s = from.clone();
        let mut snaps = vec![];
        loop {
            let first = s.last_h < 0.;
            let rt = s.last_r + s.r <= self.t[s.k];
            if first || s.last_h + s.h <= self.t[s.k] {
                s.rec.push(s.k);
                s.last_h = if first { 0. } else if self.int == Int::Ias15 { self.t[s.k] } else { s.last_h + s.h };
            }
            s.k += 1;
            if self.t[s.k] + self.dt[s.k] > s.l {
                return (snaps, s.rec);
            }
            if first || rt {
                s.last_r = self.t[s.k];
                snaps.push(s.clone());
            }
        }
    }
    fn bytes(&self, rec: &[usize]) -> Vec<u8> {
        rec.iter().flat_map(|k| self.e[*k].iter().copied()).collect()
    }
}

#[derive(Clone, Copy, Debug, Default)]
struct Opt {
    l: Option<f64>,
    h: Option<f64>,
    r: Option<f64>,
    silent: bool,
    exec: bool,
}

impl Opt {
    fn args(&self, base: &[&str]) -> Vec<String> {
        let mut a = args(base);
        if let Some(x) = self.l {
            a.push(format!("--time-limit={}", x));
        }
        if let Some(x) = self.h {
            a.push(format!("--historic-snapshot-period={}", x));
        }
        if let Some(x) = self.r {
            a.push(format!("--recovery-snapshot-period={}", x));
        }
        if self.silent {
            a.push("-s".into());
        }
        if self.exec {
            a.extend(args(&["-l", "3600"]));
        }
        a
    }
    fn name(&self) -> String {
        let f = |x: Option<f64>| x.map(|x| x.to_string()).unwrap_or("-".into());
        format!("{}.{}.{}{}{}", f(self.l), f(self.h), f(self.r), if self.silent { ".s" } else { "" }, if self.exec { ".x" } else { "" })
    }
    /// The saved state as the resumed run takes it, or why it must be refused.
    fn apply(&self, tr: &Track, s: &Saved) -> Result<Saved, &'static str> {
        let mut s = s.clone();
        if let Some(l) = self.l {
            if l < tr.t[s.k] {
                return Err("limit in the past");
            }
            if tr.table_end.map(|e| l > e).unwrap_or(false) {
                return Err("limit beyond the tables");
            }
            s.l = l;
        }
        s.h = self.h.unwrap_or(s.h);
        s.r = self.r.unwrap_or(s.r);
        Ok(s)
    }
}

fn number(v: &serde_json::Value, k: &str) -> f64 {
    v[k].as_f64().unwrap_or(f64::NAN)
}

/// Does this snapshot hold that saved state?
fn holds(rep: &Rep, bytes: &[u8], ext: &str, tr: &Track, s: &Saved) -> Result<(), String> {
    let x = restored(rep, bytes, ext).ok_or("cannot be restored")?;
    let v = x.value();
    let tol = if ext == "bin" { 1e-12 } else { 1e-5 };
    let near = |a: f64, b: f64| (a - b).abs() <= tol * b.abs().max(1.);
    let all = [("time", x.time(), tr.t[s.k]), ("historic period", number(&v, "historic_snapshot_period"), s.h), ("recovery period", number(&v, "recovery_snapshot_period"), s.r), ("time limit", x.uni().time_limit, s.l), ("history entries", x.nh() as f64, s.rec.len() as f64)];
    for (n, a, b) in all {
        if !near(a, b) {
            return Err(format!("{} is {} instead of {}", n, a, b));
        }
    }
    Ok(())
}

/// Compares what a successful command left with the model. Returns the state now saved on disk.
fn judge_run(rep: &Rep, key: &str, tr: &Track, ext: &str, before: &Dir, from: &Saved, prefix: Option<Vec<u8>>, o: &Out, silent: bool) -> Option<Saved> {
    let snap = format!("s.{}", ext);
    let (snaps, rec) = tr.go(from);
    if !rep.check(key, o.code == 0, || format!("ended with status {} leaving {}", o.code, o.dir.brief())) {
        return None;
    }
    rep.check(key, o.text.contains("Simulation completed"), || "does not report completion".to_string());
    rep.check(key, (!silent && rec.len() > from.rec.len()) == o.text.contains("Year:"), || "progress is printed in silent mode, or not printed otherwise".to_string());
    let want = match prefix {
        Some(mut p) => {
            p.extend(tr.bytes(&rec[from.rec.len()..]));
            p
        }
        None => tr.bytes(&rec),
    };
    let got = o.dir.get("h.bin").cloned().unwrap_or_default();
    let times = |b: &[u8]| b.chunks(156 * tr.bodies).map(|e| if e.len() >= 8 { f64::from_le_bytes(e[..8].try_into().unwrap()) / 0.0625 } else { -1. }).collect::<Vec<_>>();
    let exact = ext == "bin" || from.k == 0;
    if !rep.check(key, same_history(&got, &want, exact), || format!("history differs from the model: entries at steps {:?}, want {:?}", times(&got), times(&want))) {
        return None;
    }
    let now = o.dir.get(&snap);
    match snaps.last() {
        None => {
            rep.check(key, now == before.get(&snap), || "the snapshot changed although none was due".to_string());
            if from.k == 0 { None } else { Some(Saved { ..from.clone() }) }
        }
        Some(s) => {
            let r = now.ok_or("no snapshot".to_string()).and_then(|b| holds(rep, b, ext, tr, s));
            if !rep.check(key, r.is_ok(), || format!("snapshot: {}", r.clone().unwrap_err())) {
                return None;
            }
            // the one it replaced is kept aside
            let prev = if snaps.len() > 1 { Some(snaps[snaps.len() - 2].clone()) } else { None };
            let aside: Vec<&Arc<Vec<u8>>> = o.dir.0.iter().filter(|(k, _)| *k != &snap && k.starts_with("s.") && k.ends_with(ext)).map(|x| x.1).collect();
            let ok = match &prev {
                Some(p) => aside.iter().any(|b| holds(rep, b, ext, tr, p).is_ok()),
                None => before.get(&snap).map(|old| aside.iter().any(|b| ***b == *old)).unwrap_or(true),
            };
            rep.check(key, ok, || format!("the snapshot that was replaced is not kept aside: {}", o.dir.brief()));
            Some(s.clone())
        }
    }
}

/// Integrator cases: system with tides, dyadic step.
fn tracks(rep: &Rep, evo: bool, lim: f64, h: f64, r: f64) -> Vec<Track> {
    let dt = 0.0625;
    let list = Mutex::new(vec![]);
    par(rep, INTS.len(), |i| {
        let int = INTS[i];
        let n = [2, 3, 2, 3, 2][i];
        let mut s = compact(n, eff_mask(1));
        if evo {
            s = evolve_host(compact(n, eff_mask(1 | 32)), 1);
        }
        let mut perm: Vec<usize> = (1..n).collect();
        perm.insert([0, 1, 1, 2, 1][i], 0);
        s = crate::c_force::permute(&s, &perm);
        s.tlim = lim * dt;
        let x = sim(int, dt, r * dt, h * dt, build(&s));
        let mut v: serde_json::Value = serde_json::from_slice(&case_file(&x)).unwrap();
        let mut end = None;
        if evo {
            // a table that ends after 40 steps, so that its end can be reached
            for e in v["universe"]["particles_evolvers"].as_array_mut().unwrap() {
                let last = e["time"].as_array().and_then(|a| a.last()).and_then(|x| x.as_f64());
                if let Some(last) = last {
                    for t in e["time"].as_array_mut().unwrap() {
                        *t = json!(t.as_f64().unwrap() * 40. * dt / last);
                    }
                    end = Some(e["time"].as_array().unwrap().last().unwrap().as_f64().unwrap());
                }
            }
        }
        let case = serde_json::to_vec_pretty(&v).unwrap();
        let init = Saved { k: 0, rec: vec![], last_h: -1., last_r: -1., h: h * dt, r: r * dt, l: lim * dt };
        let name = format!("{}{}/limit={}/history={}/recovery={}", int_name(int), if evo { ".evolving" } else { "" }, lim, h, r);
        match track(rep, &name, int, case, if int == Int::Ias15 { 400 } else { 48 }, end, init) {
            Some(t) => list.lock().unwrap().push((i, t)),
            None => rep.violation(&name, "the case cannot be simulated step by step"),
        }
    });
    let mut l = list.into_inner().unwrap();
    l.sort_by_key(|x| x.0);
    l.into_iter().map(|x| x.1).collect()
}

// ---------------------------------------------------------------------------------------------------------------- P05

pub const P05_RULE: &str = "Explicit-state exploration of a model of run control (step, entries recorded, last record, last snapshot, periods, limit) over all sequences of one start and up to the stated number of resumes with every combination of options (time limit: none, several reachable, past, beyond the tables; historic and recovery period; silent; execution limit not reached). Every model transition is replayed on the real binary: status, report, every history byte, the fields of the snapshot and of the one kept aside must be those of the model. Plus every distribution of evolution tables over 2-3 bodies x place of the star x new limit: refused exactly when in the past or beyond some table. Plus runs stopped by the execution limit, continued and compared byte by byte with a run never stopped.";
pub const P05_ASSUME: &[&str] = &["the step sequence of each integrator is taken from the library; the model decides what is recorded, saved, refused and when the run ends", "a run makes at least one step"];

/// A new time limit, for every distribution of evolution tables over the bodies: refused exactly when it lies in the
/// past or when it is later than before and some body's table ends earlier.
fn limits(rep: &Rep) {
    let dt = 0.0625;
    let ends = [None, Some(20.), Some(30.)];
    let lims = [-1., 0., 2., 6., 10., 15., 20., 25., 30., 35.];
    let radix = [INTS.len(), 2, 27, 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let n = 2 + d[1];
        let tabs = digits(d[2], &[3, 3, 3]);
        if d[3] >= n || (n == 2 && tabs[2] != 0) {
            return;
        }
        let int = INTS[d[0]];
        let name = format!("limits/{}/n={}/tables={:?}/star={}", int_name(int), n, &tabs[..n], d[3]);
        if !rep.want(&name) {
            return;
        }
        let mut s = compact(n, eff_mask(1 | 32));
        for i in 0..n {
            if tabs[i] != 0 {
                s = Sys { t0: EVOS[1].2, ..s };
                s.bodies[i].evo = EVOS[1].1;
            }
        }
        let mut perm: Vec<usize> = (1..n).collect();
        perm.insert(d[3], 0);
        s = crate::c_force::permute(&s, &perm);
        s.tlim = 10. * dt;
        let x = sim(int, dt, 1e9, 1e9, build(&s));
        let now = 4. * dt;
        let mut v: serde_json::Value = serde_json::from_slice(&case_file(&x)).unwrap();
        v["current_time"] = json!(now);
        for (i, e) in v["universe"]["particles_evolvers"].as_array_mut().unwrap().iter_mut().enumerate().take(n) {
            if let (Some(end), Some(last)) = (ends[tabs[perm[i]]], e["time"].as_array().and_then(|a| a.last()).and_then(|x| x.as_f64())) {
                for t in e["time"].as_array_mut().unwrap() {
                    *t = json!(t.as_f64().unwrap() * end * dt / last);
                }
            }
        }
        let case = serde_json::to_vec_pretty(&v).unwrap();
        let first = tabs[..n].iter().filter_map(|&t| ends[t]).fold(f64::INFINITY, f64::min);
        for l in lims {
            let key = format!("{}/new={}", name, l);
            let mut y = match restored(rep, &case, "json") {
                Some(y) => y,
                None => return rep.violation(&key, "the case cannot be read"),
            };
            let got = guard(|| y.as_dyn().set_time_limit(l * dt)).is_ok();
            let want = l <= 0. || l == 10. || (l > 10. && l <= first) || (l < 10. && l * dt >= now);
            rep.check(&key, got == want, || format!("a new limit of {} steps (now {}, limit 10, tables end after {} steps) is {}", l, now / dt, first, if want { "refused" } else { "accepted" }));
            if got && want {
                let have = y.uni().time_limit / dt;
                rep.check(&key, have == if l > 0. { l } else { 10. }, || format!("limit is {} steps after asking for {}", have, l));
            }
            rep.states(1);
            rep.transitions(1);
        }
    });
}

pub fn p05(rep: &Rep) {
    limits(rep);
    let dt = 0.0625;
    let mut all = vec![];
    let starts: Vec<(f64, f64, f64)> = if rep.thorough { vec![(10., 1., 3.), (10.5, 2., 1.), (3., 0.5, 20.), (1., 1., 1.), (0.5, 1., 1.), (2., 3., 0.25), (12.75, 2.5, 4.5)] } else { vec![(10., 1., 3.), (10.5, 2.5, 1.), (1., 1., 1.), (0.5, 1., 1.), (2., 1., 1.)] };
    for (l, h, r) in starts {
        for t in tracks(rep, false, l, h, r) {
            all.push(t);
        }
    }
    for t in tracks(rep, true, 10., 1., 3.) {
        all.push(t);
    }
    let ls = |tr: &Track| {
        let mut v = vec![None, Some(16.), Some(21.5), Some(4.), Some(1.)];
        if tr.table_end.is_some() {
            v.extend([Some(40.), Some(40.5), Some(1000.)]);
        }
        v.into_iter().map(|x: Option<f64>| x.map(|x| x * dt)).collect::<Vec<_>>()
    };
    let hs = [None, Some(2. * dt), Some(0.5 * dt)];
    let rs = [None, Some(dt), Some(7. * dt)];
    let depth = if rep.thorough { 3 } else { 2 };
    for ext in ["bin", "json"] {
        for tr in &all {
            let name = format!("{}.{}", tr.name, ext);
            if !rep.want(&name) || (ext == "json" && !(tr.init.l == 10. * dt && tr.table_end.is_none())) {
                continue;
            }
            let snap = format!("s.{}", ext);
            let mut d0 = Dir::default();
            d0.put("case.json", tr.case.clone());
            // starts: with and without the switches; the same files in the end
            let mut level: Vec<(Dir, Saved, String)> = vec![];
            let mut first: Option<Dir> = None;
            for j in 0..4 {
                let o = Opt { silent: j & 1 == 1, exec: j & 2 == 2, ..Default::default() };
                let key = format!("{}/start{}", name, o.name());
                let r = run(rep, &d0, &o.args(&["start", "case.json", &snap, "h.bin"]), None, false);
                rep.states(1);
                rep.traces(1);
                let s = judge_run(rep, &key, tr, ext, &d0, &tr.init, None, &r, o.silent);
                if let Some(f) = &first {
                    rep.check(&key, f.hash() == r.dir.hash(), || format!("the switches change the files: {} instead of {}", r.dir.brief(), f.brief()));
                } else {
                    if let Some(s) = s {
                        level.push((r.dir.clone(), s, format!("{}/start", name)));
                    }
                    first = Some(r.dir);
                }
            }
            for dep in 0..(if ext == "json" { 1 } else { depth }) {
                let mut opts = vec![];
                for l in ls(tr) {
                    for h in hs {
                        for r in rs {
                            for j in 0..(if dep == 0 { 4 } else { 1 }) {
                                opts.push(Opt { l, h, r, silent: j & 1 == 1, exec: j & 2 == 2 });
                            }
                        }
                    }
                }
                let next = Mutex::new(vec![]);
                par(rep, level.len() * opts.len(), |j| {
                    let (d, s, at) = &level[j / opts.len()];
                    let o = opts[j % opts.len()];
                    let key = format!("{}/resume={}", at, o.name());
                    let r = run(rep, d, &o.args(&["resume", &snap, "h.bin"]), None, false);
                    rep.states(1);
                    rep.traces(1);
                    match o.apply(tr, s) {
                        Err(why) => {
                            rep.check(&key, r.code != 0, || format!("accepted although: {}", why));
                            rep.check(&key, r.dir == *d, || format!("refused ({}), but the files changed: {} -> {}", why, d.brief(), r.dir.brief()));
                        }
                        Ok(from) => {
                            // what is saved if no new snapshot is due still has the old options
                            let (snaps, _) = tr.go(&from);
                            let s2 = judge_run(rep, &key, tr, ext, d, &from, None, &r, o.silent);
                            if let Some(s2) = s2 {
                                let s2 = if snaps.is_empty() { s.clone() } else { s2 };
                                if !o.silent && !o.exec {
                                    next.lock().unwrap().push((r.dir, s2, key));
                                }
                            }
                        }
                    }
                });
                // distinct folders only
                let mut seen = std::collections::HashSet::new();
                let mut nx: Vec<(Dir, Saved, String)> = next.into_inner().unwrap();
                nx.sort_by(|a, b| a.2.cmp(&b.2));
                nx.retain(|x| seen.insert(x.0.hash()));
                rep.group(&format!("{}: folders after {} resumes", ext, dep + 1), nx.len() as u64);
                level = nx;
                if rep.nviol() > 0 {
                    return;
                }
            }
        }
    }
    // stopped by the execution limit
    par(rep, INTS.len() * 2, |j| {
        let int = INTS[j / 2];
        let rec = [1e7, 1e3][j % 2];
        let key = format!("{}/execution-limit/recovery={}", int_name(int), rec);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(2, eff_mask(0));
        s.tlim = 1e6;
        let dt = if int == Int::Leap { 0.1 * dt } else { dt };
        let x = sim(int, dt, rec * dt, 1000. * dt, build(&s));
        let mut d0 = Dir::default();
        d0.put("case.json", case_file(&x));
        let t0 = std::time::Instant::now();
        let o = run(rep, &d0, &args(&["start", "case.json", "s.bin", "h.bin", "-s", "--limit", "1"]), None, false);
        let el = t0.elapsed().as_secs_f64();
        rep.states(1);
        rep.check(&key, o.code == 0 && !o.text.contains("Simulation completed"), || format!("ended with status {}: {}", o.code, o.text));
        rep.check(&key, el >= 0.99, || format!("stopped after {} s, before the limit of 1 s", el));
        let st = match o.dir.get("s.bin").and_then(|b| restored(rep, b, "bin")) {
            Some(s) => s,
            None => return rep.violation(&key, &format!("stopped without a snapshot to continue from: {}", o.dir.brief())),
        };
        rep.check(&key, o.dir.get("h.bin").map(|h| h.len()) == Some(st.nh() * 312), || "the snapshot left is not the state at which the run stopped: the history differs in length".to_string());
        let t = st.time();
        let lim = t + 3.25 * dt;
        let f = run(rep, &o.dir, &args(&["resume", "s.bin", "h.bin", "-s", &format!("--time-limit={}", lim), &format!("--historic-snapshot-period={}", 0.5 * dt)]), None, false);
        rep.check(&key, f.code == 0 && f.text.contains("Simulation completed"), || format!("cannot be continued: status {}", f.code));
        // the same without ever stopping
        let mut s = restored(rep, &case_file(&x), "json").unwrap();
        let p = rep.scratch.join(format!("x{}.bin", j));
        let mut w = writer(&p);
        let mut n = 0u64;
        while s.time() < t {
            let _ = s.as_dyn().iterate(&mut w, true);
            n += 1;
            if n % 1000 == 0 {
                rep.tick();
            }
        }
        rep.check(&key, s.time() == t, || "times of the two runs differ".to_string());
        s.as_dyn().set_snapshot_periods(0.5 * dt, -1.);
        s.as_dyn().set_time_limit(lim);
        while s.as_dyn().iterate(&mut w, true).is_ok() {}
        drop(w);
        let want = std::fs::read(&p).unwrap();
        let _ = std::fs::remove_file(&p);
        rep.check(&key, f.dir.get("h.bin") == Some(&want), || format!("history after continuing differs from the run never stopped ({} vs {} bytes)", f.dir.get("h.bin").map(|h| h.len()).unwrap_or(0), want.len()));
        rep.traces(1);
        rep.group("steps before the execution limit", n);
    });
}

// ---------------------------------------------------------------------------------------------------------------- P04

pub const P04_RULE: &str = "Explicit-state exploration over folders: every combination of snapshot file (absent, early, late, empty, cut, foreign) and history file (absent, empty, every boundary around what the snapshots vouch for, longer, foreign bytes), for every integrator and both formats, with every sequence of start/resume commands up to the stated depth (including missing or damaged case files, coinciding names, refused options). Each command is run on the real binary and every byte of every file compared with the model. Includes sparse histories beyond 2 and 4 GiB.";
pub const P04_ASSUME: &[&str] = &["a history that does not exist may appear as an empty file when resuming is refused"];

pub fn p04(rep: &Rep) {
    let dt = 0.0625;
    let trs = tracks(rep, false, 14., 1., 3.);
    for ext in ["bin", "json"] {
        for tr in &trs {
            let name = format!("{}.{}", tr.name, ext);
            if !rep.want(&name) || (ext == "json" && !rep.thorough && tr.int != Int::Leap && tr.int != Int::Ias15) {
                continue;
            }
            folder_space(rep, tr, ext, &name, dt);
        }
    }
    huge_history(rep, dt);
}

/// Histories longer than what 31 or 32 bits can count (sparse files): nothing vouched for is lost, what is missing is noticed.
fn huge_history(rep: &Rep, dt: f64) {
    let radix = [INTS.len(), 3, 3, 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let int = INTS[d[0]];
        let n = [2usize, 5, 10][d[1]];
        let ent = 156 * n as u64;
        let entries = [(1u64 << 31) / ent + 1, (1u64 << 32) / ent + 1, (1u64 << 33) / ent + 7][d[2]];
        let v = entries * ent;
        let len = [v, v + 777, v - 1][d[3]];
        let key = format!("huge/{}/n={}/vouched={}/length={}", int_name(int), n, v, len);
        if !rep.want(&key) {
            return;
        }
        let at = rep.scratch.join(format!("huge{}", c));
        std::fs::create_dir_all(&at).unwrap();
        let f = std::fs::File::create(at.join("h.bin")).unwrap();
        if f.set_len(len).is_err() {
            rep.note("the file system has no room for sparse files: histories beyond 2^31 bytes not explored");
            return;
        }
        drop(f);
        let mut s = compact(n, eff_mask(1));
        s.tlim = 8.5 * dt;
        let mut x = sim(int, dt, 1e9, dt, build(&s));
        x.as_dyn().initialize_physical_values();
        let p = at.join("p.bin");
        let mut w = writer(&p);
        for _ in 0..4 {
            let _ = x.as_dyn().iterate(&mut w, true);
        }
        match &mut x {
            Sim::W(x) => x.n_historic_snapshots = entries as usize,
            Sim::I(x) => x.n_historic_snapshots = entries as usize,
            Sim::L(x) => x.n_historic_snapshots = entries as usize,
        }
        let bytes = match &x {
            Sim::W(x) => bincode::serialize(&**x).unwrap(),
            Sim::I(x) => bincode::serialize(&**x).unwrap(),
            Sim::L(x) => bincode::serialize(&**x).unwrap(),
        };
        std::fs::write(at.join("s.bin"), &bytes).unwrap();
        drop(w);
        let done = std::fs::metadata(&p).unwrap().len() as usize;
        let mut w = writer(&p);
        let mut k = 0;
        while x.as_dyn().iterate(&mut w, true).is_ok() && k < 500 {
            k += 1;
        }
        drop(w);
        let tail = std::fs::read(&p).unwrap()[done..].to_vec();
        let o = Command::new(std::env::var("PCHECK_BIN").expect("PCHECK_BIN")).args(["resume", "s.bin", "h.bin", "-s"]).env("RUST_BACKTRACE", "0").current_dir(&at).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
        let now = std::fs::metadata(at.join("h.bin")).map(|m| m.len()).unwrap_or(0);
        rep.states(1);
        rep.transitions(1);
        rep.traces(1);
        rep.group("huge histories", 1);
        if len < v {
            rep.check(&key, !o.status.success() && now == len, || format!("a history of {} bytes where {} are vouched for: status {:?}, now {} bytes", len, v, o.status.code(), now));
            rep.check(&key, std::fs::read(at.join("s.bin")).map(|b| b == bytes).unwrap_or(false), || "the snapshot was changed by a refused command".to_string());
        } else {
            rep.check(&key, o.status.success() && now == v + tail.len() as u64, || format!("status {:?}, {} bytes of history, expected {} + {}", o.status.code(), now, v, tail.len()));
            if now >= v {
                use std::io::{Read, Seek};
                let mut f = std::fs::File::open(at.join("h.bin")).unwrap();
                f.seek(std::io::SeekFrom::Start(v)).unwrap();
                let mut b = vec![];
                f.take(1 << 20).read_to_end(&mut b).unwrap();
                rep.check(&key, b == tail, || "the continued entries differ".to_string());
            }
        }
        let _ = std::fs::remove_dir_all(&at);
    });
}

#[derive(Clone)]
enum Snap {
    None,
    Valid(Saved),
    Bad,
}

fn folder_space(rep: &Rep, tr: &Track, ext: &str, name: &str, dt: f64) {
    let snap = format!("s.{}", ext);
    // real snapshots: from the real program with two limits
    let mut d0 = Dir::default();
    d0.put("case.json", tr.case.clone());
    d0.put("notes.txt", b"do not touch".to_vec());
    let full = run(rep, &d0, &args(&["start", "case.json", &snap, "h.bin"]), None, false);
    let late = match judge_run(rep, &format!("{}/prepare", name), tr, ext, &d0, &tr.init, None, &full, false) {
        Some(s) => s,
        None => return rep.violation(name, "the plain run leaves no snapshot"),
    };
    let (snaps, _) = tr.go(&tr.init);
    if snaps.len() < 2 {
        return rep.violation(name, "too few snapshots");
    }
    let early = snaps[snaps.len() - 2].clone();
    let hist = full.dir.get("h.bin").unwrap().clone();
    let late_b = full.dir.get(&snap).unwrap().clone();
    let early_b = match full.dir.0.iter().find(|(k, v)| *k != &snap && k.starts_with("s.") && holds(rep, v, ext, tr, &early).is_ok()) {
        Some((_, v)) => (**v).clone(),
        None => return rep.violation(name, "the replaced snapshot is not kept aside"),
    };
    let ent = 156 * tr.bodies;
    let (ve, vl) = (early.rec.len() * ent, late.rec.len() * ent);
    let cutn = if ext == "json" { late_b.len() / 2 } else { late_b.len() - 1 };
    let sn: Vec<(&str, Option<Vec<u8>>, Snap)> = vec![
        ("absent", None, Snap::None),
        ("early", Some(early_b), Snap::Valid(early.clone())),
        ("late", Some(late_b.clone()), Snap::Valid(late.clone())),
        ("empty", Some(vec![]), Snap::Bad),
        ("cut", Some(late_b[..cutn].to_vec()), Snap::Bad),
        ("foreign", Some(b"not a snapshot at all".to_vec()), Snap::Bad),
    ];
    let foreign = |n: usize| (0..n).map(|i| (i * 7 + 3) as u8).collect::<Vec<u8>>();
    let mut hs: Vec<(String, Option<Vec<u8>>)> = vec![("absent".into(), None)];
    let mut lens = vec![0, 1, ent - 1, ent, ve - ent, ve - 1, ve, ve + 1, ve + ent, vl - 1, vl, vl + 1, vl + ent / 2, hist.len()];
    if rep.thorough {
        lens.extend([8, 155, 156, 157, ve - 156, ve + 156, vl - ent, vl - 156, vl + 156, vl + ent]);
    }
    lens.sort();
    lens.dedup();
    for l in &lens {
        let l = *l;
        if l <= hist.len() {
            hs.push((format!("{}", l), Some(hist[..l].to_vec())));
        }
    }
    let mut long = hist.clone();
    long.extend(foreign(9000));
    hs.push(("long".into(), Some(long)));
    hs.push(("foreign".into(), Some(foreign(vl))));
    hs.push(("foreign-long".into(), Some(foreign(vl + 20000))));
    // commands
    #[derive(Clone)]
    enum Cmd {
        Start,
        StartBad(&'static str),
        StartOnto(&'static str),
        Resume(Opt),
        Same,
        SameStart,
    }
    let cmds: Vec<(&str, Cmd)> = vec![
        ("start", Cmd::Start),
        ("resume", Cmd::Resume(Opt::default())),
        ("resume-further", Cmd::Resume(Opt { l: Some(20. * dt), ..Default::default() })),
        ("resume-past", Cmd::Resume(Opt { l: Some(0.5 * dt), ..Default::default() })),
        ("start-missing-case", Cmd::StartBad("nothing.json")),
        ("start-bad-case", Cmd::StartBad("notes.txt")),
        ("start-onto-case", Cmd::StartOnto("snapshot")),
        ("start-history-onto-case", Cmd::StartOnto("history")),
        ("resume-same-name", Cmd::Same),
        ("start-same-name", Cmd::SameStart),
    ];
    let second = 4;
    par(rep, sn.len() * hs.len() * cmds.len(), |j| {
        let dg = digits(j, &[sn.len(), hs.len(), cmds.len()]);
        let mut d = d0.clone();
        if let Some(b) = &sn[dg[0]].1 {
            d.put(&snap, b.clone());
        }
        if let Some(b) = &hs[dg[1]].1 {
            d.put("h.bin", b.clone());
        }
        let base = format!("{}/snapshot={}/history={}", name, sn[dg[0]].0, hs[dg[1]].0);
        let step = |d: &Dir, st: &Snap, c: &(&str, Cmd), base: &str| -> Option<(Dir, Snap, String)> {
            let key = format!("{}/{}", base, c.0);
            let has_s = d.get(&snap).is_some();
            let h = d.get("h.bin").cloned();
            let a = match &c.1 {
                Cmd::Start => args(&["start", "case.json", &snap, "h.bin"]),
                Cmd::StartBad(f) => args(&["start", f, &snap, "h.bin"]),
                Cmd::StartOnto("snapshot") => args(&["start", "case.json", "case.json", "h.bin"]),
                Cmd::StartOnto(_) => args(&["start", "case.json", &snap, "case.json"]),
                Cmd::Resume(o) => o.args(&["resume", &snap, "h.bin"]),
                Cmd::Same => args(&["resume", &snap, &snap]),
                Cmd::SameStart => args(&["start", "case.json", &snap, &snap]),
            };
            let r = run(rep, d, &a, None, false);
            rep.states(1);
            rep.traces(1);
            // what must happen
            let go: Result<(Saved, Option<Vec<u8>>), &str> = match (&c.1, st) {
                (Cmd::Start, _) if has_s || h.is_some() => Err("files exist"),
                (Cmd::Start, _) => Ok((tr.init.clone(), None)),
                (Cmd::Resume(o), Snap::Valid(s)) => {
                    let v = s.rec.len() * ent;
                    match (o.apply(tr, s), &h) {
                        (Err(e), _) => Err(e),
                        (_, None) => Err("no history"),
                        (Ok(_), Some(h)) if h.len() < v => Err("history too short"),
                        (Ok(f), Some(h)) => Ok((f, Some(h[..v].to_vec()))),
                    }
                }
                _ => Err("nothing to resume, or nothing to start from, or coinciding names"),
            };
            match go {
                Err(why) => {
                    rep.check(&key, r.code != 0, || format!("accepted although: {}", why));
                    let mut now = r.dir.clone();
                    if h.is_none() && now.get("h.bin").map(|b| b.is_empty()).unwrap_or(false) {
                        now.0.remove("h.bin");
                    }
                    rep.check(&key, now == *d, || format!("refused ({}), but files changed: {} -> {}", why, d.brief(), r.dir.brief()));
                    Some((r.dir, st.clone(), key))
                }
                Ok((from, prefix)) => {
                    let none = tr.go(&from).0.is_empty();
                    let s = judge_run(rep, &key, tr, ext, d, &from, prefix, &r, false);
                    for f in ["case.json", "notes.txt"] {
                        rep.check(&key, r.dir.get(f) == d.get(f), || format!("{} was changed", f));
                    }
                    match s {
                        Some(s) => Some((r.dir, if none { st.clone() } else { Snap::Valid(s) }, key)),
                        None => None,
                    }
                }
            }
        };
        if let Some((d1, s1, k1)) = step(&d, &sn[dg[0]].2, &cmds[dg[2]], &base) {
            if dg[2] < second {
                for c in &cmds[..second] {
                    if let Some((d2, s2, k2)) = step(&d1, &s1, c, &k1) {
                        if rep.thorough && dg[2] < second {
                            for c in &cmds[..second] {
                                step(&d2, &s2, c, &k2);
                            }
                        }
                    }
                }
            }
        }
    });
    rep.group(&format!("{}: folders x commands", name), (sn.len() * hs.len() * cmds.len()) as u64);
    rep.sample(json!({"case": name, "snapshot classes": sn.len(), "history classes": hs.len(), "commands": cmds.len(), "vouched bytes": [ve, vl]}));
}
