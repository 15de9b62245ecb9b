//! P01 (resume), P03 (damaged snapshots), P06 (history).
use crate::sys::*;
use crate::util::*;
use posidonius::output::*;
use posidonius::*;
use serde_json::json;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::path::{Path, PathBuf};

pub struct Case {
    pub name: String,
    pub sys: Sys,
    pub int: Int,
    pub dt: f64,
}

/// The systems of the state-exploration checks: every subset of effects, every integrator, every tidal model.
pub fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let ns: &[usize] = if thorough { &[2, 3, 4] } else { &[3] };
    for &n in ns {
        for int in INTS {
            for m in 0..64usize {
                for model in 0..3 {
                    let eff = eff_mask(m);
                    if model > 0 && (!eff[TIDES] || (!thorough && (eff[DISK] || eff[WIND]))) {
                        continue;
                    }
                    if model > 0 && n == 4 {
                        continue;
                    }
                    let evos: Vec<usize> = if !eff[EVO] {
                        vec![0]
                    } else if model > 0 || (!thorough && (m & 0b11110) != 0) {
                        vec![if model > 0 { 1 } else { 1 + (m / 2) % 7 }]
                    } else {
                        (1..8).collect()
                    };
                    let grs: Vec<u8> = if eff[GR] && thorough { vec![1, 2, 3] } else { vec![1 + (m / 8 % 3) as u8] };
                    for &e in &evos {
                        for &g in &grs {
                            let mut s = evolve_host(with_model(n, eff, model), e);
                            s.gr_impl = g;
                            if e == 0 && eff[EVO] {
                                continue;
                            }
                            v.push(Case {
                                name: format!("{}/n{}/{}/{}/{}{}", int_name(int), n, MODELS[model], eff_name(eff), EVOS[e].0, if eff[GR] { format!("/gr{}", g) } else { String::new() }),
                                sys: s,
                                int,
                                dt: 0.05,
                            });
                        }
                    }
                }
            }
        }
    }
    // other sizes, other places of the star, other hosts, very small steps
    for int in INTS {
        for m in [0usize, 21, 31, 63] {
            let eff = eff_mask(m);
            let evo = if eff[EVO] { 4 } else { 0 };
            for (n, place) in [(2usize, 1usize), (3, 1), (3, 2), (10, 0), (10, 4), (10, 9)] {
                let mut perm: Vec<usize> = (1..n).collect();
                perm.insert(place, 0);
                let mut s = evolve_host(with_model(n, eff, 0), evo);
                s.gr_impl = 1 + (n + place) as u8 % 3;
                v.push(Case { name: format!("{}/n{}/{}/star at {}", int_name(int), n, eff_name(eff), place), sys: crate::c_force::permute(&s, &perm), int, dt: 0.05 });
            }
            let mut s = evolve_host(with_model(3, eff, 0), evo);
            crate::c_force::roles(&mut s, 1, 3, 3, 2, 3);
            v.push(Case { name: format!("{}/n3/{}/other hosts", int_name(int), eff_name(eff)), sys: s, int, dt: 0.05 });
            for dt in [1e-6, 3e-4] {
                v.push(Case { name: format!("{}/n3/{}/dt={:e}", int_name(int), eff_name(eff), dt), sys: evolve_host(with_model(3, eff, 0), evo), int, dt });
            }
        }
    }
    v
}

pub fn writer(p: &Path) -> BufWriter<File> {
    BufWriter::new(File::options().create(true).append(true).open(p).unwrap())
}

pub fn start(c: &Case, hist: f64, rec: f64) -> Sim {
    let mut s = sim(c.int, c.dt, rec, hist, build(&c.sys));
    s.as_dyn().initialize_physical_values();
    s
}

fn restore(p: &Path) -> Result<Sim, String> {
    match guard(|| restore_snapshot(p)) {
        Ok(Ok(b)) => Sim::from_box(b).ok_or_else(|| "unknown integrator type".to_string()),
        Ok(Err(e)) => Err(e),
        Err(e) => Err(e),
    }
}

fn vouched(s: &Sim) -> u64 {
    s.nh() as u64 * n_bytes_per_particle_in_historic_snapshot() * s.uni().n_particles as u64
}

fn rm(p: &Path) {
    let _ = std::fs::remove_file(p);
}

/// Removes the snapshot and everything the program derived from its name (previous snapshots, temporary files).
pub fn rm_family(p: &Path) {
    let stem = p.file_stem().unwrap().to_string_lossy().to_string();
    if let Ok(d) = std::fs::read_dir(p.parent().unwrap()) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&stem) {
                rm(&e.path());
            }
        }
    }
}

pub const P01_RULE: &str = "All interruption schedules: for every system (subset of effects x integrator/coordinates x tidal model x evolution model x relativity formulation) and N steps, every subset of the N step boundaries (including time zero) is used as the set of interruptions; at each the real snapshot is written and restored and the real history file reopened at the vouched length. Every visited state is compared bit for bit with the uninterrupted execution, as is the final history file. JSON: every single interruption point. Includes systems of 2 and 10 bodies, every place of the star, hosts other than the star and steps from 1e-6 days.";
pub const P01_ASSUME: &[&str] = &["IEEE-754 deterministic floating point on one machine", "bounded number of steps and bodies as reported in groups"];

pub fn p01(rep: &Rep) {
    let cs = cases(rep.thorough);
    let n = if rep.thorough { 6 } else { 4 };
    rep.group("systems", cs.len() as u64);
    par(rep, cs.len(), |i| {
        let c = &cs[i];
        if !rep.want(&c.name) {
            return;
        }
        p01_case(rep, c, i, n);
    });
    rep.note(&format!("{} steps per run, all {} interruption subsets", n, 1 << n));
    // long runs with abrupt changes (a planet crossing the disk edge: the adaptive integrator rejects steps there)
    let long: Vec<Case> = INTS
        .iter()
        .flat_map(|&int| (0..4).map(move |k| (int, k)))
        .map(|(int, k)| {
            let mut s = evolve_host(compact(3, [[false, false, false, true, false, false], [true, true, false, true, true, false], [true, true, true, true, true, true], [true, false, false, false, true, true]][k]), [0, 0, 1, 5][k]);
            let (p, v) = kepler_state(gm(s.bodies[0].mass + s.bodies[1].mass), 0.018, 0.6, 0.05, 0.4, 1.0, 2.5);
            s.bodies[1].pos = p;
            s.bodies[1].vel = v;
            s.disk.inner_edge_distance = 0.0175;
            s.disk.surface_density_normalization *= 1000.;
            Case { name: format!("long/{}/{}", int_name(int), k), sys: s, int, dt: 0.05 }
        })
        .collect();
    // the adaptive integrator crossing disk edges at several depths, on several orbits
    let mut long = long;
    for k in 0..if rep.thorough { 80 } else { 40 } {
        let mut s = evolve_host(compact(3, [k % 2 == 0, k % 4 < 2, false, true, false, false]), k % 3);
        let e = [0.6, 0.7, 0.5, 0.65][k % 4];
        let (p, v) = kepler_state(gm(s.bodies[0].mass + s.bodies[1].mass), 0.018, e, 0.05, 0.4, 1.0, 2.5 + 0.3 * k as f64);
        s.bodies[1].pos = p;
        s.bodies[1].vel = v;
        s.disk.inner_edge_distance = [0.0175, 0.015, 0.0195, 0.0125, 0.0165][k % 5];
        s.disk.surface_density_normalization *= [1000., 3000., 300.][k % 3];
        long.push(Case { name: format!("long/ias15/edge{}", k), sys: s, int: Int::Ias15, dt: 0.05 });
    }
    let m = if rep.thorough { 120 } else { 60 };
    rep.group("long runs", long.len() as u64);
    par(rep, long.len(), |i| {
        if rep.want(&long[i].name) {
            p01_long(rep, &long[i], i, m);
        }
    });
}

/// Every single interruption point (thorough: every pair of points) of a long run.
fn p01_long(rep: &Rep, c: &Case, i: usize, n: usize) {
    let dir = rep.scratch.join(format!("l{}", i));
    std::fs::create_dir_all(&dir).unwrap();
    let (snap, hist) = (dir.join("s.bin"), dir.join("h.bin"));
    let mut s = start(c, 0.3, 1e9);
    let mut w = writer(&hist);
    let mut states = vec![phys(&s)];
    let mut rejected = 0;
    let mut n = n;
    for k in 0..n {
        let (dt, t) = (s.value()["time_step"].as_f64().unwrap(), s.time());
        // a plunge into the star that the fixed step does not resolve
        let runaway = s.uni().particles[..s.uni().n_particles].iter().any(|p| !(norm([p.inertial_velocity.x, p.inertial_velocity.y, p.inertial_velocity.z]) < 1.));
        if let Err(e) = if runaway && k > 50 { Err("runaway".into()) } else { guard(|| s.as_dyn().iterate(&mut w, true)) } {
            if k > 50 {
                // an encounter or ejection: the run up to there
                n = k;
                drop(w);
                rm(&hist);
                let mut s = start(c, 0.3, 1e9);
                w = writer(&hist);
                for _ in 0..n {
                    let _ = s.as_dyn().iterate(&mut w, true);
                }
                break;
            }
            rep.violation(&c.name, &format!("uninterrupted run stopped at step {}: {}", k, e));
            return;
        }
        if s.time() - t < 0.9 * dt {
            rejected += 1;
        }
        states.push(phys(&s));
    }
    drop(w);
    let href = std::fs::read(&hist).unwrap();
    rep.group("rejected steps in the long runs", rejected);
    let (lines, steps) = (n, std::cell::Cell::new(0u64));
    // `from` has been restored at step k; follow it to the end
    let go = |mut s: Sim, k: usize, cut: Option<usize>, key: &str| -> bool {
        let mut w = match guard(|| get_universe_history_writer(&hist, vouched(&s))) {
            Ok(x) => x,
            Err(e) => {
                rep.violation(key, &format!("history refused on resume at step {}: {}", k, e));
                return false;
            }
        };
        for j in k..lines {
            if cut == Some(j) {
                s.as_dyn().write_recovery_snapshot(&snap, &mut w);
                drop(w);
                s = match restore(&snap) {
                    Ok(r) => r,
                    Err(e) => {
                        rep.violation(key, &format!("snapshot at step {} cannot be restored: {}", j, e));
                        return false;
                    }
                };
                w = get_universe_history_writer(&hist, vouched(&s));
            }
            if let Err(e) = guard(|| s.as_dyn().iterate(&mut w, true)) {
                rep.violation(key, &format!("stopped at step {}: {}", j, e));
                return false;
            }
            steps.set(steps.get() + 1);
            if !phys(&s).same(&states[j + 1]) {
                rep.violation(key, &format!("state after step {} differs from the uninterrupted run", j + 1));
                return false;
            }
        }
        drop(w);
        rep.traces(1);
        rep.check(key, std::fs::read(&hist).unwrap() == href, || "history differs from the uninterrupted run".into())
    };
    // one run that leaves a snapshot at every step
    rm(&hist);
    let mut s = start(c, 0.3, 1e9);
    let mut w = writer(&hist);
    let mut snaps = vec![];
    for _ in 0..n {
        rm_family(&snap);
        s.as_dyn().write_recovery_snapshot(&snap, &mut w);
        snaps.push(std::fs::read(&snap).unwrap());
        s.as_dyn().iterate(&mut w, true).unwrap();
    }
    drop(w);
    rep.check(&c.name, phys(&s).same(&states[n]), || "writing snapshots changed the trajectory".into());
    for k in 0..n {
        let cuts: Vec<Option<usize>> = if rep.thorough { std::iter::once(None).chain((k + 1..n).step_by(5).map(Some)).collect() } else { vec![None] };
        for cut in cuts {
            let key = format!("{}/at={}/again={:?}", c.name, k, cut);
            if !rep.want(&key) {
                continue;
            }
            rep.tick();
            rm_family(&snap);
            std::fs::write(&snap, &snaps[k]).unwrap();
            std::fs::write(&hist, &href).unwrap();
            match restore(&snap) {
                Ok(r) => {
                    if !go(r, k, cut, &key) {
                        return;
                    }
                }
                Err(e) => {
                    rep.violation(&key, &format!("snapshot at step {} cannot be restored: {}", k, e));
                    return;
                }
            }
        }
    }
    // the text form, at every point
    let js = dir.join("s.json");
    for k in 0..n {
        let key = format!("{}/json={}", c.name, k);
        if !rep.want(&key) {
            continue;
        }
        rep.tick();
        rm_family(&snap);
        std::fs::write(&snap, &snaps[k]).unwrap();
        let mut s = restore(&snap).unwrap();
        rm_family(&js);
        let mut w = writer(&dir.join("unused"));
        s.as_dyn().write_recovery_snapshot(&js, &mut w);
        match restore(&js) {
            Ok(r) => {
                if let (true, Some(at)) = (k > 0, json_far(&s.value(), &r.value(), String::new())) {
                    rep.violation(&key, &format!("the JSON snapshot does not restore {}", at));
                }
                rep.close("JSON restore", &key, state_distance(r.uni(), &states[k].universe()), 0., 1e-14);
            }
            Err(e) => {
                rep.violation(&key, &format!("JSON snapshot cannot be restored: {}", e));
            }
        }
        rep.states(1);
        rep.transitions(1);
    }
    rep.states(steps.get());
    rep.transitions(steps.get());
    let _ = std::fs::remove_dir_all(&dir);
}

fn p01_case(rep: &Rep, c: &Case, i: usize, n: usize) {
    let dir = rep.scratch.join(format!("c{}", i));
    std::fs::create_dir_all(&dir).unwrap();
    let (snap, hist) = (dir.join("s.bin"), dir.join("h.bin"));
    let hp = 0.12;
    // The uninterrupted execution, which never writes a snapshot
    let mut s = start(c, hp, 1e9);
    let mut w = writer(&hist);
    let mut states: Vec<Phys> = vec![phys(&s)];
    for k in 0..n {
        if let Err(e) = guard(|| s.as_dyn().iterate(&mut w, true)) {
            rep.violation(&c.name, &format!("uninterrupted run stopped at step {}: {}", k, e));
            return;
        }
        states.push(phys(&s));
    }
    w.flush().unwrap();
    drop(w);
    let href = std::fs::read(&hist).unwrap();
    rep.states(n as u64 + 1);
    rep.transitions(n as u64);
    // All subsets of interruption points
    for mask in 0..(1u32 << n) {
        let key = format!("{}/interrupt={:0w$b}", c.name, mask, w = n);
        if !rep.want(&key) {
            continue;
        }
        rm(&hist);
        rm_family(&snap);
        let mut s = start(c, hp, 1e9);
        let mut w = writer(&hist);
        for k in 0..n {
            if mask >> k & 1 == 1 {
                s.as_dyn().write_recovery_snapshot(&snap, &mut w);
                let _ = w.flush();
                drop(w);
                let r = match restore(&snap) {
                    Ok(r) => r,
                    Err(e) => {
                        rep.violation(&key, &format!("snapshot at step {} cannot be restored: {}", k, e));
                        return;
                    }
                };
                if !r.same(&s) {
                    rep.violation(&key, &format!("the snapshot at step {} does not restore the simulation bit for bit", k));
                    return;
                }
                s = r;
                rep.states(1);
                rep.transitions(1);
                match guard(|| get_universe_history_writer(&hist, vouched(&s))) {
                    Ok(x) => w = x,
                    Err(e) => {
                        rep.violation(&key, &format!("history refused on resume at step {}: {}", k, e));
                        return;
                    }
                }
                if !phys(&s).same(&states[k]) {
                    rep.violation(&key, &format!("state after resuming at step {} differs from the uninterrupted run", k));
                    return;
                }
            }
            if let Err(e) = guard(|| s.as_dyn().iterate(&mut w, true)) {
                rep.violation(&key, &format!("stopped at step {}: {}", k, e));
                return;
            }
            rep.states(1);
            rep.transitions(1);
            if !phys(&s).same(&states[k + 1]) {
                rep.violation(&key, &format!("state after step {} differs from the uninterrupted run", k + 1));
                return;
            }
        }
        s.as_dyn().write_recovery_snapshot(&snap, &mut w);
        drop(w);
        let h = std::fs::read(&hist).unwrap();
        if h != href {
            rep.violation(&key, &format!("history differs: {} bytes against {}", h.len(), href.len()));
            return;
        }
        rep.traces(1);
    }
    // JSON snapshots: each interruption point
    let js = dir.join("s.json");
    for k in 0..n {
        let key = format!("{}/json={}", c.name, k);
        if !rep.want(&key) {
            continue;
        }
        rm(&hist);
        rm_family(&js);
        let mut s = start(c, hp, 1e9);
        let mut w = writer(&hist);
        for _ in 0..k {
            let _ = s.as_dyn().iterate(&mut w, true);
        }
        s.as_dyn().write_recovery_snapshot(&js, &mut w);
        drop(w);
        let r = match restore(&js) {
            Ok(r) => r,
            Err(e) => {
                rep.violation(&key, &format!("JSON snapshot cannot be restored: {}", e));
                continue;
            }
        };
        rep.states(1);
        rep.transitions(1);
        if std::mem::discriminant(&r) != std::mem::discriminant(&s) || r.nh() != s.nh() {
            rep.violation(&key, "JSON snapshot restored as another integrator or history count");
            continue;
        }
        if let (true, Some(at)) = (k > 0, json_far(&s.value(), &r.value(), String::new())) {
            rep.violation(&key, &format!("the JSON snapshot does not restore {}", at));
        }
        let mut s = r;
        let mut w = match guard(|| get_universe_history_writer(&hist, vouched(&s))) {
            Ok(x) => x,
            Err(e) => {
                rep.violation(&key, &format!("history refused on resume: {}", e));
                continue;
            }
        };
        let d = state_distance(s.uni(), &states[k].universe());
        rep.close("JSON restore", &key, d, 0., 1e-14);
        for _ in k..n {
            let _ = guard(|| s.as_dyn().iterate(&mut w, true));
        }
        drop(w);
        let d = state_distance(s.uni(), &states[n].universe());
        // the adaptive step amplifies last-digit differences of the text form
        rep.close(if c.int == Int::Ias15 { "JSON resumed run (adaptive)" } else { "JSON resumed run" }, &key, d, 0., if c.int == Int::Ias15 { 1e-2 } else { 1e-9 });
        rep.check(&key, std::fs::metadata(&hist).unwrap().len() == href.len() as u64, || "history length differs after a JSON resume".into());
        rep.traces(1);
    }
    if i % 97 == 0 {
        rep.sample(json!({"system": c.name, "steps": n, "interruption_subsets": 1 << n, "history_bytes": href.len(), "final_time": states[n].time}));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// First place where two serialised simulations differ by more than floating-point text precision.
pub fn json_far(a: &serde_json::Value, b: &serde_json::Value, at: String) -> Option<String> {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if (x - y).abs() <= 4e-16 * x.abs().max(y.abs()) { None } else { Some(format!("{}: {:e} became {:e}", at, x, y)) }
        }
        (Array(x), Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| json_far(p, q, format!("{}[{}]", at, i))),
        (Object(x), Object(y)) if x.len() == y.len() => x.iter().find_map(|(k, p)| match y.get(k) {
            Some(q) => json_far(p, q, format!("{}.{}", at, k)),
            None => Some(format!("{}.{} (missing)", at, k)),
        }),
        _ if a == b => None,
        _ => Some(at),
    }
}

/// Largest relative difference of the dynamical state of two universes.
pub fn state_distance(a: &Universe, b: &Universe) -> f64 {
    let mut d: f64 = 0.;
    if a.n_particles != b.n_particles {
        return f64::INFINITY;
    }
    let rel = |x: V3, y: V3, s: f64| {
        let e = norm(sub(x, y));
        if e == 0. {
            0.
        } else {
            e / s
        }
    };
    let scale = |f: &dyn Fn(&Particle) -> V3| b.particles[..b.n_particles].iter().map(|p| norm(f(p))).fold(0., f64::max).max(1e-300);
    let fs: [&dyn Fn(&Particle) -> V3; 2] = [&|p| v3(p.inertial_position), &|p| v3(p.inertial_velocity)];
    for f in fs {
        let s = scale(f);
        for (p, q) in a.particles[..a.n_particles].iter().zip(b.particles.iter()) {
            let e = rel(f(p), f(q), s);
            if e.is_nan() {
                return f64::NAN;
            }
            d = d.max(e);
        }
    }
    let gs: [&dyn Fn(&Particle) -> V3; 3] = [&|p| v3(p.angular_momentum), &|p| v3(p.spin), &|p| [p.mass, p.radius, p.radius_of_gyration_2]];
    for g in gs {
        for (p, q) in a.particles[..a.n_particles].iter().zip(b.particles.iter()) {
            let e = rel(g(p), g(q), norm(g(q)).max(1e-300));
            if e.is_nan() {
                return f64::NAN;
            }
            d = d.max(e);
        }
    }
    d
}

pub const P03_RULE: &str = "Every damage of the enumerated kinds to a real snapshot of each integrator: every proper prefix (all cut lengths from 0), every extension by 1..16 bytes, of the binary form; every proper prefix of the JSON form; plus the cross product of each integrator's snapshot with each other integrator's exact length. The oracle is: restore_snapshot must not return a simulation; an undamaged snapshot must restore as the integrator that wrote it.";
pub const P03_ASSUME: &[&str] = &["damage = truncation or extension (bit flips are not detectable in this format and not claimed)"];

pub fn p03(rep: &Rep) {
    // small systems, one per integrator and number of bodies; with and without evolution tables
    let mut cs = vec![];
    for int in INTS {
        for (n, m) in if rep.thorough { vec![(2, 0), (3, 31), (2, 63), (4, 2)] } else { vec![(2usize, 0usize), (3, 31)] } {
            let s = evolve_host(compact(n, eff_mask(m)), if m & 32 != 0 { 4 } else { 0 });
            for steps in if rep.thorough { vec![0, 1, 3] } else { vec![1] } {
                cs.push((Case { name: format!("{}/n{}/{}/step{}", int_name(int), n, eff_name(eff_mask(m)), steps), sys: s.clone(), int, dt: 0.05 }, steps));
            }
        }
    }
    // (case, format, chunk of lengths): enumerate
    let mut files: Vec<(String, Int, Vec<u8>, bool)> = vec![];
    for (k, (c, steps)) in cs.iter().enumerate() {
        let dir = rep.scratch.join(format!("d{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        let mut s = start(c, 0.12, 1e9);
        let mut w = writer(&dir.join("h.bin"));
        for _ in 0..*steps {
            let _ = s.as_dyn().iterate(&mut w, true);
        }
        for ext in ["bin", "json"] {
            let p = dir.join(format!("s.{}", ext));
            s.as_dyn().write_recovery_snapshot(&p, &mut w);
            let b = std::fs::read(&p).unwrap();
            match restore(&p) {
                Ok(r) => {
                    rep.check(&format!("{}/{}/undamaged", c.name, ext), std::mem::discriminant(&r) == std::mem::discriminant(&s), || "undamaged snapshot restored as another integrator".into());
                }
                Err(e) => rep.violation(&format!("{}/{}/undamaged", c.name, ext), &format!("undamaged snapshot refused: {}", e)),
            }
            rep.traces(1);
            rep.transitions(1);
            rep.states(1);
            if ext == "json" && !rep.thorough && (k % 2 == 1 || c.int == Int::Demo || c.int == Int::Whds || c.int == Int::Ias15) {
                continue;
            }
            files.push((format!("{}/{}", c.name, ext), c.int, b, ext == "json"));
        }
    }
    // length a LeapFrog snapshot of the same system would have: the one the last-tried parser accepts
    let chunk = 512usize;
    let mut jobs = vec![];
    for (f, file) in files.iter().enumerate() {
        let mut a = 0;
        while a <= file.2.len() + 16 {
            jobs.push((f, a, (a + chunk).min(file.2.len() + 17)));
            a += chunk;
        }
    }
    let leap_len = |name: &str| -> Option<usize> {
        let rest = name.split_once('/').unwrap().1;
        files.iter().find(|x| x.0 == format!("leapfrog/{}", rest)).map(|x| x.2.len())
    };
    par(rep, jobs.len(), |j| {
        let (f, a, b) = jobs[j];
        let (name, _int, bytes, json) = &files[f];
        let p = rep.scratch.join(format!("j{}.{}", j, if *json { "json" } else { "bin" }));
        let ll = leap_len(name);
        let mut data = bytes[..(b - 1).min(bytes.len())].to_vec();
        for x in 0..((b - 1).saturating_sub(bytes.len())) {
            data.push(if *json { b"]}x\0"[x % 4] } else { (x * 37) as u8 });
        }
        std::fs::write(&p, &data).unwrap();
        let file = File::options().write(true).open(&p).unwrap();
        for len in (a..b).rev() {
            if len == bytes.len() {
                continue;
            }
            let key = if len < bytes.len() {
                if !*json && Some(len) == ll {
                    format!("{}/cut=leapfrog-length", name)
                } else {
                    format!("{}/cut={}", name, len)
                }
            } else {
                format!("{}/extended={}", name, len - bytes.len())
            };
            if !rep.want(&key) {
                continue;
            }
            if len > bytes.len() {
                std::fs::write(&p, &data[..len]).unwrap();
            } else {
                file.set_len(len as u64).unwrap();
            }
            rep.states(1);
            rep.transitions(1);
            if let Ok(r) = restore(&p) {
                rep.violation(&key, &format!("accepted as a {} simulation at time {}", match r { Sim::W(_) => "WHFast", Sim::I(_) => "IAS15", Sim::L(_) => "LeapFrog" }, r.time()));
            }
        }
        rm(&p);
    });
    for (name, _, b, _) in &files {
        rep.sample(json!({"snapshot": name, "bytes": b.len(), "cuts_and_extensions": b.len() + 16}));
        rep.group("snapshots", 1);
    }
}

pub const P06_RULE: &str = "For every system, integrator and pair (step, historic period) from the period grid, the run is executed step by step; a two-line cadence model predicts at which step boundaries an entry must appear, and every byte of each entry is compared with the state of the real simulation at that instant. The same runs with every other period must give bit-identical trajectories.";
pub const P06_ASSUME: &[&str] = &["tidal energy rate and migration timescale are the latest evaluated ones"];

/// Kinematic state bits (what a trajectory is).
pub fn kin(u: &Universe) -> Vec<u64> {
    let mut v = vec![];
    for p in &u.particles[..u.n_particles] {
        for a in [p.inertial_position, p.inertial_velocity, p.angular_momentum] {
            for x in v3(a) {
                v.push((x + 0.0).to_bits());
            }
        }
        for x in [p.mass, p.radius, p.radius_of_gyration_2, p.moment_of_inertia] {
            v.push(x.to_bits());
        }
    }
    v
}

/// What an entry must contain for the given universe (already brought up to date).
pub fn expected_entry(u: &Universe, t: f64, dt: f64) -> Vec<u8> {
    let mut o = vec![];
    for (i, p) in u.particles[..u.n_particles].iter().enumerate() {
        let love = match &p.tides.effect {
            TidesEffect::CentralBody(TidalModel::ConstantTimeLag(x)) | TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(x)) => x.love_number,
            _ => 0.,
        };
        o.extend(t.to_le_bytes());
        o.extend(dt.to_le_bytes());
        o.extend((i as i32).to_le_bytes());
        for a in [p.inertial_position, p.spin, p.inertial_velocity] {
            for x in v3(a) {
                o.extend(x.to_le_bytes());
            }
        }
        for x in [p.mass, p.radius, p.radius_of_gyration_2, love, p.tides.parameters.internal.scaled_dissipation_factor, p.tides.parameters.internal.lag_angle, p.tides.parameters.internal.denergy_dt, p.disk.parameters.internal.migration_timescale] {
            o.extend(x.to_le_bytes());
        }
    }
    o
}

pub fn p06(rep: &Rep) {
    let cs = cases(rep.thorough);
    let n = if rep.thorough { 12 } else { 7 };
    let periods = [0.02, 0.05, 0.1, 0.12, 0.17, 1e9];
    rep.group("systems", cs.len() as u64);
    rep.group("periods", periods.len() as u64);
    par(rep, cs.len(), |i| {
        let c = &cs[i];
        if !rep.want(&c.name) {
            return;
        }
        let hist: PathBuf = rep.scratch.join(format!("h{}.bin", i));
        let mut reference: Option<Vec<(f64, Vec<u64>)>> = None;
        for (pi, &hp) in periods.iter().enumerate().rev() {
            let key = format!("{}/period={}", c.name, if hp > 1e8 { "never".to_string() } else { hp.to_string() });
            if !rep.want(&key) && pi + 1 != periods.len() {
                continue;
            }
            rm(&hist);
            let mut s = start(c, hp, 1e9);
            let mut w = writer(&hist);
            let mut want: Vec<u8> = vec![];
            let mut last = -1.0f64; // nominal time of the last entry
            let mut count = 0;
            let mut traj = vec![];
            let mut dt = c.dt;
            for k in 0..n {
                let t = s.time();
                if last < 0. || last + hp <= t {
                    // the entry must show the state at this instant
                    let mut u = copy_universe(s.uni());
                    u.inertial_to_heliocentric();
                    u.calculate_spin_and_evolving_quantities(t, true);
                    if u.consider_effects.tides {
                        u.calculate_denergy_dt();
                    }
                    want.extend(expected_entry(&u, t, dt));
                    last = if last < 0. { 0. } else if c.int == Int::Ias15 { t } else { last + hp };
                    count += 1;
                }
                if let Err(e) = guard(|| s.as_dyn().iterate(&mut w, true)) {
                    rep.violation(&key, &format!("stopped at step {}: {}", k, e));
                    return;
                }
                rep.states(1);
                rep.transitions(1);
                traj.push((s.time(), kin(s.uni())));
                if c.int == Int::Ias15 {
                    dt = ias_step(&s);
                } else {
                    rep.check(&key, (s.time() - (k + 1) as f64 * c.dt).abs() < 1e-9, || format!("time after {} steps of {} is {}", k + 1, c.dt, s.time()));
                }
            }
            let _ = w.flush();
            drop(w);
            let got = std::fs::read(&hist).unwrap();
            rep.traces(1);
            rep.check(&key, s.nh() == count, || format!("{} entries counted, {} due", s.nh(), count));
            rep.check(&key, got.len() as u64 == vouched(&s), || format!("history has {} bytes, the count vouches for {}", got.len(), vouched(&s)));
            if got != want {
                let at = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                let nb = n_bytes_per_particle_in_historic_snapshot() as usize;
                rep.violation(&key, &format!("history differs from the states: {} bytes against {} due, first difference at entry-body {} byte {}", got.len(), want.len(), at / nb, at % nb));
            }
            match &reference {
                None => reference = Some(traj),
                Some(r) => {
                    if let Some(k) = (0..n).find(|&k| r[k] != traj[k]) {
                        rep.violation(&key, &format!("recording history changed the trajectory at step {}", k + 1));
                    }
                }
            }
            if i % 101 == 0 {
                rep.sample(json!({"system": c.name, "period": hp, "steps": n, "entries": count}));
            }
        }
        rm(&hist);
    });
}

/// The adaptive integrator's next step, which is what the history records.
pub fn ias_step(s: &Sim) -> f64 {
    match s {
        Sim::I(x) => serde_json::to_value(&**x).unwrap()["time_step"].as_f64().unwrap(),
        _ => unreachable!(),
    }
}
