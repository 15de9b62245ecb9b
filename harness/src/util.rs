//! Common machinery: reporting, evidence, known findings, panics, parallel enumeration, scratch space.
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
}

/// The real stdout (fd of a duplicate), because posidonius itself prints a lot to fd 1.
static REAL_OUT: AtomicUsize = AtomicUsize::new(1);

pub fn silence_stdout() {
    unsafe {
        let real = dup(1);
        let null = open(b"/dev/null\0".as_ptr() as *const _, 1);
        dup2(null, 1);
        REAL_OUT.store(real as usize, Ordering::SeqCst);
    }
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("PCHECK_DEBUG").is_ok() {
            eprintln!("{}", info);
        }
    }));
}

pub fn out(s: &str) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let mut f = unsafe { std::fs::File::from_raw_fd(REAL_OUT.load(Ordering::SeqCst) as i32) };
    let _ = writeln!(f, "{}", s);
    let _ = f.flush();
    std::mem::forget(f);
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("PCHECK_VERIF").unwrap_or_else(|_| "/verif".to_string()))
}

/// Runs code under test; an Err is the message with which it stopped (panicked).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

struct Finding {
    key: String,
    desc: String,
    seen: std::sync::atomic::AtomicBool,
}

pub struct Rep {
    pub id: String,
    pub thorough: bool,
    pub only: Option<String>,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    progress: AtomicU64,
    groups: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<serde_json::Value>>,
    viol: Mutex<Vec<(String, String)>>,
    nviol: AtomicU64,
    findings: Vec<Finding>,
    notes: Mutex<Vec<String>>,
    pub scratch: PathBuf,
    max_err: Mutex<BTreeMap<String, (f64, f64, String)>>,
}

impl Rep {
    pub fn new(id: &str, thorough: bool, only: Option<String>) -> Rep {
        let mut findings = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("finding: ") {
                    let mut it = r.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let k = it.next().unwrap_or("");
                    let d = it.next().unwrap_or("");
                    if p == format!("property={}", id) {
                        findings.push(Finding {
                            key: k.trim_start_matches("key=").to_string(),
                            desc: d.to_string(),
                            seen: Default::default(),
                        });
                    }
                }
            }
        }
        let scratch = std::env::temp_dir().join(format!("pcheck.{}.{}", id, std::process::id()));
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).unwrap();
        Rep {
            id: id.into(),
            thorough,
            only,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            progress: AtomicU64::new(0),
            groups: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            viol: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            findings,
            notes: Mutex::new(vec![]),
            scratch,
            max_err: Mutex::new(BTreeMap::new()),
        }
    }
    /// Is this case selected (all are, unless --only KEY replays one)?
    pub fn want(&self, key: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o.starts_with(key) || key.starts_with(o.as_str()),
        }
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
        self.tick();
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
        self.tick();
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
        self.tick();
    }
    pub fn tick(&self) {
        self.progress.fetch_add(1, Ordering::Relaxed);
    }
    pub fn group(&self, g: &str, n: u64) {
        *self.groups.lock().unwrap().entry(g.to_string()).or_insert(0) += n;
    }
    pub fn note(&self, s: &str) {
        self.notes.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, v: serde_json::Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    /// Keeps the largest observed error per class (evidence of how tight tolerances are).
    pub fn err(&self, class: &str, e: f64, tol: f64, key: &str) {
        let mut m = self.max_err.lock().unwrap();
        let ent = m.entry(class.to_string()).or_insert((0., tol, String::new()));
        if e / tol > ent.0 / ent.1 || ent.2.is_empty() {
            *ent = (e, tol, key.to_string());
        }
    }
    pub fn violation(&self, key: &str, detail: &str) {
        self.tick();
        for f in &self.findings {
            if glob(&f.key, key) {
                f.seen.store(true, Ordering::SeqCst);
                return;
            }
        }
        self.nviol.fetch_add(1, Ordering::SeqCst);
        let mut v = self.viol.lock().unwrap();
        if v.len() < 25 {
            v.push((key.to_string(), detail.to_string()));
        }
    }
    /// Compares with a tolerance; NaN is a violation.
    pub fn close(&self, class: &str, key: &str, got: f64, want: f64, tol: f64) -> bool {
        let e = (got - want).abs();
        self.err(class, e, tol, key);
        if !(e <= tol) {
            self.violation(key, &format!("{}: got {:e}, want {:e}, |diff| {:e} > tol {:e}", class, got, want, e, tol));
            return false;
        }
        true
    }
    pub fn check(&self, key: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(key, &detail());
        }
        ok
    }
    pub fn nviol(&self) -> u64 {
        self.nviol.load(Ordering::SeqCst)
    }
    pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
        std::env::set_current_dir("/").ok();
        let _ = std::fs::remove_dir_all(&self.scratch);
        let wall = self.start.elapsed().as_secs_f64();
        let st = self.states.load(Ordering::SeqCst);
        let tr = self.transitions.load(Ordering::SeqCst);
        let tv = self.traces.load(Ordering::SeqCst);
        let viol = self.viol.lock().unwrap();
        let errs: BTreeMap<String, serde_json::Value> = self
            .max_err
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| (k.clone(), json!({"largest_error": format!("{:e}", v.0), "tolerance": format!("{:e}", v.1), "at": v.2})))
            .collect();
        let kf: Vec<String> = self.findings.iter().filter(|f| f.seen.load(Ordering::SeqCst)).map(|f| f.key.clone()).collect();
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            "level": "model_checking",
            "coverage": {
                "states": st, "transitions": tr, "traces_validated_against_impl": tv,
                "exhaustive": self.only.is_none(),
                "rule": rule,
                "samples": *self.samples.lock().unwrap(),
                "groups": *self.groups.lock().unwrap(),
                "observed_margins": errs,
                "known_findings_seen": kf,
                "notes": *self.notes.lock().unwrap(),
            },
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": self.nviol(),
        });
        let evdir = verif_dir().join("evidence");
        std::fs::create_dir_all(evdir.join("replay")).ok();
        if let Err(e) = std::fs::write(evdir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()) {
            out(&format!("error: cannot write evidence: {}", e));
            return 2;
        }
        for f in self.findings.iter().filter(|f| f.seen.load(Ordering::SeqCst)) {
            out(&format!("KNOWN-FINDING: property={} {} [{}]", self.id, f.desc, f.key));
        }
        out(&format!(
            "{} {}: states={} transitions={} traces={} wall={:.1}s violations={}",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            st,
            tr,
            tv,
            wall,
            self.nviol()
        ));
        if viol.is_empty() {
            if st == 0 || tr == 0 {
                out("error: nothing was explored");
                return 2;
            }
            return 0;
        }
        let path = evdir.join("replay").join(format!("{}.json", self.id));
        let rp = json!({
            "property": self.id,
            "replay_command": format!("{}/check.sh {} {} --only '{}'", verif_dir().display(), self.id, if self.thorough {"thorough"} else {"quick"}, viol[0].0),
            "violations": viol.iter().map(|(k, d)| json!({"case": k, "detail": d})).collect::<Vec<_>>(),
            "total": self.nviol(),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap());
        for (k, d) in viol.iter().take(5) {
            out(&format!("  case {}: {}", k, d));
        }
        out(&format!("VIOLATION property={} replay={}", self.id, path.display()));
        1
    }
}

/// '*' wildcards only.
pub fn glob(pat: &str, s: &str) -> bool {
    let parts: Vec<&str> = pat.split('*').collect();
    if parts.len() == 1 {
        return pat == s;
    }
    let mut rest = s;
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            match rest.strip_prefix(p) {
                Some(r) => rest = r,
                None => return false,
            }
        } else if i == parts.len() - 1 {
            return rest.ends_with(p);
        } else {
            match rest.find(p) {
                Some(j) => rest = &rest[j + p.len()..],
                None => return false,
            }
        }
    }
    true
}

/// Exhaustive parallel enumeration of case numbers 0..n. A panic that escapes a case is reported as a
/// violation of that case (the code under test stopped where it must not).
pub fn par(rep: &Rep, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(128 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || rep.nviol() > 200 {
                        break;
                    }
                    if let Err(e) = guard(|| f(i)) {
                        rep.violation(&format!("stopped:{}", i), &format!("unexpected stop in case {}: {}", i, e));
                    }
                    rep.tick();
                })
                .unwrap();
        }
    });
}

/// Runs the check with a watchdog: if nothing at all makes progress for 240 s the code under test hangs.
pub fn with_watchdog(rep: std::sync::Arc<Rep>, f: impl FnOnce(&Rep) + Send + 'static) {
    let r2 = rep.clone();
    let h = std::thread::Builder::new().stack_size(128 << 20).spawn(move || {
        if let Err(e) = guard(|| f(&r2)) {
            r2.violation("stopped:check", &format!("unexpected stop: {}", e));
        }
    }).unwrap();
    let mut last = (rep.progress.load(Ordering::SeqCst), Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let p = rep.progress.load(Ordering::SeqCst);
        if p != last.0 {
            last = (p, Instant::now());
        } else if last.1.elapsed() > Duration::from_secs(240) {
            rep.violation("hang", "no case completed for 240 s: the code under test does not terminate");
            return;
        }
    }
    let _ = h.join();
}

/// All permutations of 0..n.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; n], &mut out);
    out
}

/// Mixed-radix decoding of a case number.
pub fn digits(mut i: usize, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|&r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}
pub fn product(radix: &[usize]) -> usize {
    radix.iter().product()
}
