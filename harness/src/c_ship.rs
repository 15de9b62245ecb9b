//! P29: the example cases shipped with the project.
use crate::c_misc::*;
use crate::c_cli::{args, run, Dir};
use crate::c_int::{errs, reference, snap};
use crate::c_state::*;
use crate::sys::*;
use crate::util::*;
use posidonius::*;
use serde_json::{json, Value};

pub const P29_RULE: &str = "every example case of the project is written by its own script with the real Python package, accepted by the simulator, and then: stepped with the integrator it asks for (barycentre at rest, finite, positive radii at every step) and resumed from a snapshot after every few steps (same state at the end, bit for bit); integrated with every integrator and coordinate system at its step and at a quarter of it against a high-order extrapolation (order of the method, absolute bounds); evaluated with the bodies in every order (up to four; every rotation and the reversal beyond); and run by the program itself in one go and stopped at every chosen step and resumed with a later limit (same history bytes).";
pub const P29_ASSUME: &[&str] = &["evolution tables and frequency-dependent Love numbers are synthetic ones with the documented layout (the repository ships none)", "forces themselves are decided by P07-P16, P25", "the first steps of each case (60 with the program, 240, thorough 4000, inside)"];

pub fn scripts() -> Vec<std::path::PathBuf> {
    let root = std::path::PathBuf::from(std::env::var("PCHECK_REPO").unwrap_or("/repo".into())).join("cases");
    let mut v = vec![];
    let mut todo = vec![root];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().map(|x| x == "py").unwrap_or(false) {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}

/// A table of frequency-dependent Love numbers as the Kaula example reads it
fn love_table(k: usize) -> String {
    let mut s = format!("# mass radius gyration\n{:e} {:e} {:e}\n", 2e-6, 6.4e6, 0.33);
    for i in 0..200 {
        let w = 1e-7 * 1.1f64.powi(i);
        let x = w * (1e5 + 1e4 * k as f64);
        s += &format!("{:e} {:e} {:e}\n", w, -0.6 * x / (1. + x * x), 0.3 + 0.6 / (1. + x * x));
    }
    s
}

/// Stretches the tables to the ages of the example cases (a million years to some 1e9)
fn old_stars(d: &std::path::Path) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() {
            old_stars(&p);
        } else if let Ok(s) = std::fs::read_to_string(&p) {
            let log = p.to_string_lossy().contains("Gallet");
            let t: Vec<String> = s
                .lines()
                .map(|l| match l.split_once(' ').map(|(a, b)| (a.parse::<f64>(), b)) {
                    Some((Ok(x), b)) => format!("{:e} {}", if log { x + 2e8f64.log10() } else { x * 2e8 }, b),
                    _ => l.to_string(),
                })
                .collect();
            std::fs::write(&p, t.join("\n") + "\n").unwrap();
        }
    }
}


/// Sum of m v, its scale; and the same for rates of change of momentum and of angular momentum
fn momentum(u: &Universe) -> (V3, f64) {
    let (mut m, mut sc) = ([0.; 3], 0.);
    for p in &u.particles[..u.n_particles] {
        let v = v3(p.inertial_velocity);
        for k in 0..3 {
            m[k] += p.mass * v[k];
        }
        sc += p.mass * norm(v);
    }
    (m, sc)
}

fn finite(u: &Universe) -> bool {
    u.particles[..u.n_particles].iter().all(|p| {
        [p.inertial_position, p.inertial_velocity, p.spin, p.angular_momentum].iter().all(|a| a.x.is_finite() && a.y.is_finite() && a.z.is_finite())
            && [p.radius, p.moment_of_inertia, p.mass].iter().all(|x| x.is_finite() && *x > 0.)
    })
}

/// The same bodies listed in another order
fn relisted(u: &Universe, perm: &[usize]) -> Universe {
    let mut v = vec![];
    for &i in perm {
        let mut p = u.particles[i];
        p.heliocentric_position = p.inertial_position;
        p.heliocentric_velocity = p.inertial_velocity;
        if let Reference::Particle(k) = p.reference {
            p.reference = Reference::Particle(perm.iter().position(|x| *x == k).unwrap());
        }
        v.push(p);
    }
    Universe::new(u.initial_time, u.time_limit, v, u.consider_effects.clone())
}

pub fn p29(rep: &Rep) {
    p18_tables(&rep.scratch);
    crate::c_py::heads(&rep.scratch.join("input"));
    old_stars(&rep.scratch.join("input"));
    let d = rep.scratch.join("input/love_numbers/TRAPPIST-1_Earth-like");
    std::fs::create_dir_all(&d).unwrap();
    for k in 0..7 {
        std::fs::write(d.join(format!("planet_{}.txt", k)), love_table(k)).unwrap();
    }
    let sc = scripts();
    let name = |i: usize| sc[i].file_stem().unwrap().to_string_lossy().to_string();
    let jobs: Vec<Value> = sc.iter().enumerate().map(|(i, s)| json!({"script": s.to_string_lossy(), "out": rep.scratch.join(format!("s{}.json", i)).to_string_lossy()})).collect();
    let o = match python(rep, "py_ship.py", &[], serde_json::to_vec(&jobs).unwrap().as_slice()) {
        Ok(o) => o,
        Err(e) => return rep.violation("write", &format!("the shipped cases cannot be run: {}", e)),
    };
    let o: Vec<&str> = o.lines().collect();
    if o.len() != sc.len() {
        return rep.violation("write", "no answer for every shipped case");
    }
    par(rep, sc.len(), |i| {
        let base = name(i);
        if !rep.want(&base) {
            return;
        }
        rep.tick();
        rep.states(1);
        if !rep.check(&format!("{}/write", base), o[i] == "\"ok\"", || format!("the case does not write its file: {}", o[i])) {
            return;
        }
        let f = rep.scratch.join(format!("s{}.json", i));
        let bytes = std::fs::read(&f).unwrap_or_default();
        let s0 = match guard(|| posidonius::output::restore_snapshot(&f)) {
            Ok(Ok(b)) => Sim::from_box(b),
            _ => None,
        };
        let Some(s0) = s0 else {
            return rep.violation(&format!("{}/start", base), "the simulator does not accept the case");
        };
        one(rep, &base, s0);
        program(rep, &base, &bytes);
    });
}

fn one(rep: &Rep, base: &str, s0: Sim) {
    let n = s0.uni().n_particles;
    let dt = s0.value()["time_step"].as_f64().unwrap();
    // the run, with a snapshot after every few steps, and every resumption
    let nsteps = if rep.thorough { 4000 } else { 240 };
    let every = if rep.thorough { 50 } else { 12 };
    let w = rep.scratch.join(format!("{}.bin", base));
    let mut wr = writer(&w);
    let mut s = s0.copy();
    let mut snaps = vec![];
    for k in 0..nsteps {
        if k % every == 0 {
            snaps.push((k, s.copy()));
        }
        let r = guard(|| s.as_dyn().iterate(&mut wr, true).is_ok());
        rep.transitions(1);
        if r != Ok(true) {
            return rep.violation(&format!("{}/run", base), &format!("step {} fails: {:?}", k, r));
        }
        let (m, sc) = momentum(s.uni());
        rep.close("momentum", &format!("{}/momentum", base), norm(m) / sc, 0., 1e-9);
        if !rep.check(&format!("{}/finite", base), finite(s.uni()), || format!("step {}: not finite", k)) {
            return;
        }
    }
    rep.traces(1);
    for (k, mut r) in snaps {
        rep.tick();
        let p = rep.scratch.join(format!("{}-{}.bin", base, k));
        let mut w2 = writer(&p);
        for _ in k..nsteps.min(k + 4 * every) {
            let _ = guard(|| r.as_dyn().iterate(&mut w2, true).is_ok());
            rep.transitions(1);
        }
        let _ = std::fs::remove_file(&p);
        if k + 4 * every >= nsteps {
            rep.check(&format!("{}/resume", base), r.same(&s), || format!("resumed at step {}: differs at step {}", k, nsteps));
        }
    }
    // every integrator from the same file, against the extrapolated reference
    let u0 = s0.uni();
    let base_step = match &s0 {
        Sim::I(_) => 0.02 * shortest(u0),
        _ => dt,
    };
    let evo = u0.consider_effects.evolution;
    let span = 32;
    let times: Vec<f64> = (1..=4).map(|k| 8. * k as f64 * base_step).collect();
    let at = reference(u0, &times, 0.02 * shortest(u0));
    let scratch = |k: &str| rep.scratch.join(format!("{}-{}.bin", base, k));
    for int in INTS {
        let key = format!("{}/{}", base, int_name(int));
        if !rep.want(&key) {
            continue;
        }
        rep.tick();
        rep.states(1);
        let w = scratch(int_name(int));
        let mut wr = writer(&w);
        let go = |h: f64| {
            guard(|| {
                let mut x = sim(int, h, 1e30, 1e30, copy_universe(u0));
                x.as_dyn().initialize_physical_values();
                x
            })
        };
        let mut es = vec![];
        let mut bad = None;
        if int == Int::Ias15 {
            match go(base_step) {
                Err(m) => bad = Some(m),
                Ok(mut x) => {
                    let (mut ts, mut sn) = (vec![], vec![]);
                    for _ in 0..8 {
                        if let Err(m) = guard(|| x.as_dyn().iterate(&mut wr, true).is_ok()) {
                            bad = Some(m);
                            break;
                        }
                        rep.transitions(1);
                        ts.push(x.time());
                        sn.push(snap(x.uni()));
                    }
                    let ys = reference(u0, &ts, 0.02 * shortest(u0));
                    let mut worst = [0f64; 3];
                    for (a, y) in sn.iter().zip(&ys) {
                        let e = errs(a, y);
                        for k in 0..3 {
                            worst[k] = worst[k].max(e[k]);
                        }
                    }
                    es.push(worst);
                }
            }
        } else {
            for k in [1usize, 4] {
                match go(base_step / k as f64) {
                    Err(m) => bad = Some(m),
                    Ok(mut x) => {
                        let mut worst = [0f64; 3];
                        for j in 0..span * k {
                            if let Err(m) = guard(|| x.as_dyn().iterate(&mut wr, true).is_ok()) {
                                bad = Some(m);
                                break;
                            }
                            rep.transitions(1);
                            if (j + 1) % (8 * k) == 0 {
                                let e = errs(&snap(x.uni()), &at[(j + 1) / (8 * k) - 1]);
                                for k in 0..3 {
                                    worst[k] = worst[k].max(e[k]);
                                }
                            }
                        }
                        es.push(worst);
                    }
                }
            }
        }
        drop(wr);
        let _ = std::fs::remove_file(&w);
        if let Some(m) = bad {
            rep.violation(&key, &format!("stopped: {}", m));
            continue;
        }
        rep.traces(1);
        let names = ["positions", "velocities", "angular momenta"];
        // the force of Kaula tides jumps where the number of terms changes
        let kaula = base.contains("substellar");
        let x = 2. * std::f64::consts::PI * base_step / shortest(u0);
        for k in 0..3 {
            if int == Int::Ias15 {
                let tol = if kaula { [1e-10, 2e-9, 1e-4][k] } else { 3e-12 };
                rep.close(&format!("ias15 {}", names[k]), &key, es[0][k], 0., tol);
                continue;
            }
            let floor = if kaula { [1e-11, 1e-11, 1e-6][k] } else { 5e-13 };
            rep.close(&format!("{} at a quarter of the step", names[k]), &key, es[1][k], 0., [0.15, 0.15, 0.6][k] * es[0][k] + floor);
            let lf = 40. * x.powi(3) * 4. / 3.;
            let f = match int {
                Int::Leap => 1.,
                Int::Demo => 0.05,
                _ => 0.01,
            };
            let tol = if k < 2 { lf * f + floor } else { lf * if int == Int::Leap { 1. } else { 0.01 } + 10. * floor };
            rep.close(&format!("{} {}", if int == Int::Leap { "leapfrog" } else { "whfast" }, names[k]), &key, es[0][k], 0., tol);
        }
    }
    // the bodies in another order
    let perms: Vec<Vec<usize>> = if n <= 4 { perms(n) } else { (1..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).chain([(0..n).rev().collect()]).collect() };
    let ev = |mut u: Universe| {
        u.calculate_roche_radiuses();
        u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
        u.inertial_to_heliocentric();
        let evolution = u.consider_effects.evolution;
        u.calculate_additional_effects(0., evolution, true, true, IgnoreGravityTerms::None);
        u.particles[..u.n_particles].iter().map(|p| [v3(p.inertial_acceleration), v3(p.inertial_additional_acceleration), v3(p.dangular_momentum_dt), v3(p.spin)]).collect::<Vec<_>>()
    };
    let Ok(want) = guard(|| ev(copy_universe(u0))) else {
        return rep.violation(&format!("{}/forces", base), "the forces cannot be evaluated");
    };
    for p in &perms {
        rep.states(1);
        let key = format!("{}/order={}", base, p.iter().map(|x| x.to_string()).collect::<String>());
        match guard(|| ev(relisted(u0, p))) {
            Err(m) => rep.violation(&key, &format!("refused: {}", m)),
            Ok(got) => {
                for (k, &i) in p.iter().enumerate() {
                    for (q, nm) in ["gravity", "other forces", "torque", "spin"].iter().enumerate() {
                        let sc = norm(want[i][q]).max((0..n).map(|j| norm(want[j][q]) * u0.particles[j].mass).fold(0., f64::max) * 1e-3 / u0.particles[i].mass);
                        if sc > 0. {
                            rep.close(&format!("{} in another order", nm), &key, norm(sub(got[k][q], want[i][q])) / sc, 0., 1e-9);
                        } else {
                            rep.check(&key, norm(got[k][q]) == 0., || format!("{} of body {} appears", nm, i));
                        }
                    }
                }
            }
        }
    }
}

/// Shortest period of two of the bodies
fn shortest(u: &Universe) -> f64 {
    let n = u.n_particles;
    let mut best = f64::MAX;
    for i in 0..n {
        for j in 0..i {
            let (a, b) = (&u.particles[i], &u.particles[j]);
            let x = sub(v3(a.inertial_position), v3(b.inertial_position));
            let v = sub(v3(a.inertial_velocity), v3(b.inertial_velocity));
            let mu = gm(a.mass + b.mass);
            let al = 2. / norm(x) - dot(v, v) / mu;
            if al > 0. && a.mass.max(b.mass) >= 0.5 * u.particles[..n].iter().map(|p| p.mass).fold(0., f64::max) {
                best = best.min(2. * std::f64::consts::PI * (1. / al).powf(1.5) / mu.sqrt());
            }
        }
    }
    best
}

/// The program itself: the case run to its end in one go, and stopped and resumed with a later limit
fn program(rep: &Rep, base: &str, case: &[u8]) {
    let key = format!("{}/program", base);
    if !rep.want(&key) {
        return;
    }
    let Ok(v) = serde_json::from_slice::<Value>(case) else {
        return rep.violation(&key, "the case file is no JSON");
    };
    let dt = v["time_step"].as_f64().unwrap_or(0.);
    let set = |limit: f64| {
        let mut v = v.clone();
        v["universe"]["time_limit"] = json!(limit * dt);
        v["historic_snapshot_period"] = json!(2.9 * dt);
        v["recovery_snapshot_period"] = json!(4.9 * dt);
        let mut d = Dir::default();
        d.put("case.json", serde_json::to_vec_pretty(&v).unwrap());
        d
    };
    let start = args(&["start", "-s", "case.json", "run.bin", "run_history.bin"]);
    let whole = run(rep, &set(60.5), &start, None, false);
    let Some(want) = whole.dir.get("run_history.bin").cloned() else {
        return rep.violation(&key, &format!("no history: code {} {}", whole.code, whole.text));
    };
    rep.states(1);
    if !rep.check(&key, whole.code == 0, || format!("code {}", whole.code)) {
        return;
    }
    let n = v["universe"]["n_particles"].as_u64().unwrap_or(0) as usize;
    let adaptive = v.get("integrator_iterations_max_exceeded").is_some();
    let entries = want.len() / 156 / n.max(1);
    rep.check(&key, want.len() % (156 * n.max(1)) == 0 && (adaptive || entries == 21), || format!("{} bytes of history", want.len()));
    for cut in if rep.thorough { (6..60).collect::<Vec<_>>() } else { vec![6, 13, 35, 59] } {
        rep.tick();
        rep.states(1);
        let key = format!("{}/cut={}", key, cut);
        let first = run(rep, &set(cut as f64 + 0.5), &start, None, false);
        if !rep.check(&key, first.code == 0 && first.dir.get("run.bin").is_some(), || format!("stopped with {} {}", first.code, first.text)) {
            continue;
        }
        let r = run(rep, &first.dir, &args(&["resume", "-s", "run.bin", "run_history.bin", "--time-limit", &format!("{:e}", 60.5 * dt)]), None, false);
        rep.check(&key, r.code == 0 && r.dir.get("run_history.bin") == Some(&want), || {
            let got = r.dir.get("run_history.bin").map(|x| x.len()).unwrap_or(0);
            let at = r.dir.get("run_history.bin").and_then(|g| g.iter().zip(want.iter()).position(|(a, b)| a != b));
            format!("code {}: {} bytes instead of {}, first difference at {:?}", r.code, got, want.len(), at)
        });
        rep.traces(1);
    }
}
