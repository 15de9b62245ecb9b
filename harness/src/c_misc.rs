//! P18 evolution tables, P22 orbital elements, P23 set-up validation.
use crate::sys::*;
use crate::util::*;
use posidonius::constants::*;
use posidonius::*;
use serde_json::json;

// ------------------------------------------------------------------------------------------------ P18
pub const P18_RULE: &str = "every evolution model x every supported mass (each with its own synthetic table: irregular nodes, with and without header line) x two start ages: initial radius and radius of gyration agreeing or not with the table; all sequences of queries up to the depth over a set of times that covers before/at/between/after the nodes, forward and backward, each with and without a save/restore in between, alone and with a second evolving body of every other model; runs of every integrator with all models, every step compared with the interpolation over the step. Walks in steps down to 1e-8 days, forth and back, and acceptance of runs starting and ending just inside and just outside every table.";
pub const P18_ASSUME: &[&str] = &["tables are synthetic with the documented column layout (the repository does not ship the real ones)", "rounding allowance 1e-12; the gyration of Leconte2011 is rounded to 7 decimals by the published procedure"];

#[derive(Clone)]
pub struct Curve {
    pub t: Vec<f64>, // years
    pub radius: Vec<f64>, // AU
    pub rg2: Option<Vec<f64>>,
    pub k2: Option<Vec<f64>>,
    pub invq: Option<Vec<f64>>,
}
#[derive(Clone)]
pub struct Evo {
    pub name: String,
    pub ty: EvolutionType,
    pub c: Curve,
}
fn interp(x: f64, xs: &[f64], ys: &[f64]) -> f64 {
    let n = xs.len();
    if x <= xs[0] {
        return ys[0];
    }
    if x >= xs[n - 1] {
        return ys[n - 1];
    }
    let mut j = 0;
    while xs[j + 1] <= x {
        j += 1;
    }
    ys[j] + (ys[j + 1] - ys[j]) * ((x - xs[j]) / (xs[j + 1] - xs[j]))
}
/// Writes one table per supported model and mass below ./input, and returns what they say.
pub fn p18_tables(dir: &std::path::Path) -> Vec<Evo> {
    let inp = dir.join("input");
    let f = |x: f64| format!("{:e}", x);
    let mut out = vec![];
    let mut idx = 0usize;
    let mut push = |kind: &str, file: String, ty: EvolutionType, name: String| {
        idx += 1;
        let n = 70;
        let mut t = vec![];
        let mut x = 0.002 + 0.0001 * (idx % 5) as f64;
        for i in 0..n {
            t.push(x);
            x += 3.0e-4 + 2.0e-4 * ((i * 7 + idx) % 5) as f64;
            if i > 60 {
                x += 0.5;
            }
        }
        let (mut r, mut g, mut k, mut q) = (vec![], vec![], vec![], vec![]);
        for i in 0..n {
            r.push(0.05 + 0.001 * idx as f64 + 0.01 * ((i * 13 + idx) % 7) as f64 / 7.);
            g.push(0.2 + 0.002 * (idx % 9) as f64 + 0.02 * ((i * 5 + idx) % 9) as f64 / 9.);
            k.push(0.3 + 0.003 * (idx % 4) as f64 + 0.05 * ((i * 3) % 8) as f64 / 8.);
            q.push(1.0e-6 * (1. + ((i * 11 + idx) % 6) as f64));
        }
        let mut s = String::new();
        if idx % 2 == 0 {
            s.push_str("age radius rest\n");
        }
        let mut c = Curve { t: t.clone(), radius: r.iter().map(|x| x * R_SUN).collect(), rg2: None, k2: None, invq: None };
        for i in 0..n {
            s.push_str(&match kind {
                "b15" => format!("{} 7.7 {} {}\n", f(t[i]), f(r[i]), f(g[i])),
                "gb" => format!("{} 7.1 7.2 {} 1 2 3 4 5 6 {}\n", f(t[i].log10()), f(r[i]), f(-q[i].log10())),
                "bm" => format!("{} {} {}\n", f(t[i]), f(r[i]), f(q[i])),
                "b98m" | "l11" => format!("{} {}\n", f(t[i]), f(r[i])),
                "b98s" => format!("{} {}\n", f(t[i]), f(r[i] * 6.957e8)),
                _ => format!("{} {} {} {} 9.9 {}\n", f(t[i]), f(r[i] * 6.957e8), f(k[i]), f(g[i]), f(q[i])),
            });
        }
        if kind == "gb" {
            // the first line may start with a negative number (logarithm of an age below one year): header needed
            if idx % 2 == 1 {
                s = format!("age radius rest\n{}", s);
            }
        }
        match kind {
            "b15" => c.rg2 = Some(g),
            "gb" | "bm" => c.invq = Some(q),
            "b98s" => c.radius = r.iter().map(|x| x * 6.957e8 / AU).collect(),
            "jup" | "jupd" => {
                c.radius = r.iter().map(|x| x * 6.957e8 / AU).collect();
                c.rg2 = Some(g);
                c.k2 = Some(k);
                if kind == "jupd" {
                    c.invq = Some(q);
                }
            }
            _ => {}
        }
        let path = inp.join(file);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, s).unwrap();
        out.push(Evo { name, ty, c });
    };
    for m in [0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.4] {
        push("gb", format!("Gallet_Bolmont_2017/M_{:02}_Z_0134.dat", (m * 10.0f64).round() as i32), EvolutionType::GalletBolmont2017(m), format!("GalletBolmont2017-{}", m));
    }
    for m in [0.01, 0.015, 0.02, 0.03, 0.04, 0.05, 0.06, 0.07, 0.072, 0.075, 0.08, 0.09, 0.11, 0.13, 0.15, 0.17, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4] {
        push("b15", format!("Baraffe_2015/{:04}_Msun.dat", (m * 1000.0f64).round() as i32), EvolutionType::Baraffe2015(m), format!("Baraffe2015-{}", m));
    }
    for m in [0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5] {
        push("bm", format!("Bolmont_Mathis_2016/L{:02}Z02r.dat", (m * 10.0f64).round() as i32), EvolutionType::BolmontMathis2016(m), format!("BolmontMathis2016-{}", m));
    }
    push("b98m", "Baraffe_1998/01Msun.dat".into(), EvolutionType::Baraffe1998(0.1), "Baraffe1998-0.1".into());
    push("b98s", "Baraffe_1998/SRad_Spli_M-1_0000.dat".into(), EvolutionType::Baraffe1998(1.0), "Baraffe1998-1".into());
    push("jup", "Leconte_Chabrier_2013/Jupiter.dat".into(), EvolutionType::LeconteChabrier2013(false), "LeconteChabrier2013".into());
    idx_back(&mut out, EvolutionType::LeconteChabrier2013(true), "LeconteChabrier2013-dynamical");
    let lm = [10.0f64, 12., 15., 20., 30., 40., 50., 60., 70., 72., 75., 80.];
    // auxiliary table of gyrations: its own sampling, narrower range, one column per mass
    let mut at = vec![];
    let mut x = 0.0031;
    while x < 2.9 {
        at.push(x);
        x += if x < 0.06 { 7.3e-4 } else { 0.11 };
    }
    let first = out.len();
    let mut idx2 = 0;
    for m in lm {
        let n = 80;
        idx2 += 1;
        let mut t = vec![];
        let mut x = 0.0005;
        for i in 0..n {
            t.push(x);
            x += 3.0e-4 + 2.0e-4 * ((i * 7 + idx2) % 5) as f64;
            if i > 60 {
                x += 0.3;
            }
        }
        if idx2 % 3 == 0 {
            // the ends of the auxiliary table fall exactly on nodes
            let (lo, hi) = (at[0], at[at.len() - 1]);
            let i = t.iter().position(|&x| x >= lo).unwrap();
            t[i] = lo;
            let i = t.iter().rposition(|&x| x <= hi).unwrap();
            t[i] = hi;
        }
        let r: Vec<f64> = (0..n).map(|i| 0.08 + 0.001 * idx2 as f64 + 0.01 * ((i * 13 + idx2) % 7) as f64 / 7.).collect();
        let s: String = (0..n).map(|i| format!("{} {}\n", f(t[i]), f(r[i]))).collect();
        let path = inp.join(format!("Leconte_2011/mass_{:.4}.dat", m));
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, s).unwrap();
        out.push(Evo { name: format!("Leconte2011-{}", m / 1000.), ty: EvolutionType::Leconte2011(m / 1000.), c: Curve { t, radius: r, rg2: None, k2: None, invq: None } });
    }
    let col = |i: usize, c: usize| 0.2 + 0.003 * c as f64 + 0.013 * ((i * 5 + c) % 7) as f64 / 7.;
    let s: String = (0..at.len()).map(|i| format!("{} {}\n", f(at[i]), (0..12).map(|c| f(col(i, c))).collect::<Vec<_>>().join(" "))).collect();
    std::fs::write(inp.join("Leconte_2011/rg2BD.dat"), s).unwrap();
    for c in 0..12 {
        let e = &mut out[first + c].c;
        let keep: Vec<usize> = (0..e.t.len()).filter(|&i| e.t[i] >= at[0] && e.t[i] <= at[at.len() - 1]).collect();
        let t: Vec<f64> = keep.iter().map(|&i| e.t[i]).collect();
        let r: Vec<f64> = keep.iter().map(|&i| e.radius[i] * R_SUN).collect();
        let ys: Vec<f64> = (0..at.len()).map(|i| col(i, c)).collect();
        let g: Vec<f64> = t.iter().map(|&x| (interp(x, &at, &ys) * 1e7).round() / 1e7).collect();
        *e = Curve { t, radius: r, rg2: Some(g), k2: None, invq: None };
    }
    out
}
fn idx_back(out: &mut Vec<Evo>, ty: EvolutionType, name: &str) {
    let mut e = out.last().unwrap().clone();
    e.ty = ty;
    e.name = name.into();
    // same file, with the dissipation column used as well: recomputed from the same formula as written
    let idx = out.len();
    e.c.invq = Some((0..e.c.t.len()).map(|i| 1.0e-6 * (1. + ((i * 11 + idx) % 6) as f64)).collect());
    out.push(e);
}
const SUN_DYN: f64 = K2 / (R_SUN * R_SUN * R_SUN); // squared dynamical frequency of the Sun

struct Want {
    l: V3, // conserved angular momentum
    mass: f64,
    radius: f64,
    rg2: f64,
    k2: f64,
}
fn p18_cmp(rep: &Rep, key: &str, p: &Particle, e: &Evo, w: &Want, t_days: f64, t0: f64) -> bool {
    let yr = (t_days + t0) / 365.25;
    let r = interp(yr, &e.c.t, &e.c.radius);
    let tight = 1e-11; // (t + t0) - t0 costs a few digits of the fraction
    let mut ok = rep.close("radius", key, p.radius / r, 1., tight);
    let g = e.c.rg2.as_ref().map(|v| interp(yr, &e.c.t, v)).unwrap_or(w.rg2);
    ok &= rep.close("gyration", key, p.radius_of_gyration_2 / g, 1., if matches!(e.ty, EvolutionType::Leconte2011(_)) { 2e-6 } else { tight });
    let k = e.c.k2.as_ref().map(|v| interp(yr, &e.c.t, v)).unwrap_or(w.k2);
    if let TidesEffect::CentralBody(TidalModel::ConstantTimeLag(x)) | TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(x)) = &p.tides.effect {
        ok &= rep.close("Love number", key, x.love_number / k, 1., tight);
    }
    let inertia = w.mass * p.radius_of_gyration_2 * p.radius * p.radius;
    ok &= rep.close("moment of inertia", key, p.moment_of_inertia / inertia, 1., 1e-12);
    let spin = mul(w.l, 1. / inertia);
    ok &= rep.close("spin", key, norm(sub(v3(p.spin), spin)) / norm(spin), 0., 1e-12);
    let lag = e.c.invq.as_ref().map(|v| 0.75 * dot(spin, spin) / SUN_DYN * interp(yr, &e.c.t, v)).unwrap_or(0.);
    ok &= rep.close("lag", key, p.tides.parameters.internal.lag_angle, lag, 1e-10 * lag);
    let _ = w.radius;
    ok
}
fn p18_uni(a: &Evo, b: Option<&Evo>, t0: f64) -> (Universe, Vec<Want>) {
    let mut s = compact(2, [true, false, false, false, false, true]);
    s.t0 = t0;
    s.tlim = 100.;
    s.bodies[0].evo = a.ty;
    if let Some(b) = b {
        s.bodies[1].evo = b.ty;
    }
    let u = build(&s);
    let w = (0..2)
        .map(|i| {
            let TM::Ctl { k2, .. } = s.bodies[i].tm else { panic!() };
            let p = &u.particles[i];
            Want { l: v3(p.angular_momentum), mass: s.bodies[i].mass, radius: s.bodies[i].radius, rg2: s.bodies[i].rg.powi(2), k2 }
        })
        .collect();
    (u, w)
}
fn p18_times(c: &Curve, t0: f64) -> Vec<f64> {
    let d = |i: usize, fr: f64| (c.t[i] + fr * (c.t[i + 1] - c.t[i])) * 365.25 - t0;
    let n = c.t.len();
    vec![d(0, 0.) - 0.4, d(0, 0.), d(0, 0.6), d(1, 0.3), d(9, 0.5), d(10, 0.), d(11, 0.25), d(20, 0.9), d(21, 0.), d(31, 0.1), d(45, 0.7), d(n - 2, 0.5), d(n - 2, 1.0), d(n - 2, 1.0) + 1000.]
}

pub fn p18(rep: &Rep) {
    let evs = p18_tables(&rep.scratch);
    rep.group("models and masses", evs.len() as u64);
    let mut reps: Vec<usize> = vec![];
    for i in 0..evs.len() {
        if i == 0 || std::mem::discriminant(&evs[i].ty) != std::mem::discriminant(&evs[i - 1].ty) || evs[i].name.ends_with("dynamical") || evs[i].name == "Baraffe1998-1" {
            reps.push(i);
        }
    }
    // initial states: the given radius and radius of gyration agree with the table or do not
    par(rep, evs.len() * 8, |c| {
        let (e, d) = (&evs[c / 8], digits(c % 8, &[2, 2, 2]));
        let name = format!("initial/{}/start={}/radius={}/gyration={}", e.name, d[0], d[1], d[2]);
        if !rep.want(&name) {
            return;
        }
        let t0 = e.c.t[[0usize, 12][d[0]]] * 365.25 * (1. + 1e-13);
        let mut s = compact(2, [true, false, false, false, false, true]);
        s.t0 = t0;
        s.tlim = 100.;
        s.bodies[0].evo = e.ty;
        if d[1] == 1 {
            s.bodies[0].radius = interp(t0 / 365.25, &e.c.t, &e.c.radius);
        }
        if d[2] == 1 {
            if let Some(g) = &e.c.rg2 {
                s.bodies[0].rg = interp(t0 / 365.25, &e.c.t, g).sqrt();
            }
        }
        let mut u = build(&s);
        let p = u.particles[0];
        let inertia = p.mass * p.radius_of_gyration_2 * p.radius * p.radius;
        rep.close("initial moment of inertia", &name, p.moment_of_inertia / inertia, 1., 1e-12);
        rep.close("initial angular momentum", &name, norm(sub(v3(p.angular_momentum), mul(s.bodies[0].spin, inertia))) / inertia / norm(s.bodies[0].spin), 0., 1e-12);
        rep.close("initial radius", &name, p.radius, interp(t0 / 365.25, &e.c.t, &e.c.radius), 1.1e-6);
        let TM::Ctl { k2, .. } = s.bodies[0].tm else { panic!() };
        let w = Want { l: v3(p.angular_momentum), mass: p.mass, radius: p.radius, rg2: s.bodies[0].rg.powi(2), k2 };
        for t in [0., p18_times(&e.c, t0)[4]] {
            u.calculate_spin_and_evolving_quantities(t, true);
            p18_cmp(rep, &format!("{}/t={}", name, t), &u.particles[0], e, &w, t, t0);
            rep.transitions(1);
        }
        rep.states(2);
    });
    // sequences of queries
    let starts = [0usize, 12];
    par(rep, evs.len() * 2, |c| {
        let e = &evs[c / 2];
        let t0 = e.c.t[starts[c % 2]] * 365.25 * (1. + 1e-13); // logarithmic ages round
        let name = format!("seq/{}/start={}", e.name, c % 2);
        if !rep.want(&name) {
            return;
        }
        let depth = match (reps.contains(&(c / 2)), rep.thorough) {
            (true, true) => 4,
            (true, false) => 3,
            (false, true) => 3,
            (false, false) => 2,
        };
        let (u0, w) = p18_uni(e, None, t0);
        let times = p18_times(&e.c, t0);
        // initial state: consistent with the table at the start
        {
            let r = interp(t0 / 365.25, &e.c.t, &e.c.radius);
            rep.close("initial radius", &format!("{}/initial", name), u0.particles[0].radius, r, 1.1e-6);
            rep.close("initial angular momentum", &format!("{}/initial", name), norm(sub(v3(u0.particles[0].angular_momentum), mul([0.31, -0.22, 1.9], u0.particles[0].mass * u0.particles[0].radius_of_gyration_2 * u0.particles[0].radius.powi(2)))) / norm(w[0].l), 0., 1e-12);
        }
        let mut n = 0u64;
        // depth-first over all sequences; each node continues from the live state
        fn dfs(rep: &Rep, name: &str, u: &Universe, e: &Evo, w: &Want, times: &[f64], t0: f64, seq: &mut Vec<usize>, depth: usize, n: &mut u64) -> bool {
            for (k, &t) in times.iter().enumerate() {
                for restored in [false, true] {
                    // a restored copy answers the same; continue only from the live one below the last level
                    let mut v = copy_universe(u);
                    if !restored {
                        // live: same object that answered before (the copy keeps its look-up position as a save/restore must)
                    }
                    if restored {
                        v = serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap();
                    }
                    v.calculate_spin_and_evolving_quantities(t, true);
                    *n += 1;
                    seq.push(k);
                    let key = format!("{}/times={:?}/restored={}", name, seq, restored);
                    if !p18_cmp(rep, &key, &v.particles[0], e, w, t, t0) {
                        return false;
                    }
                    if depth > 1 && !restored && !dfs(rep, name, &v, e, w, times, t0, seq, depth - 1, n) {
                        return false;
                    }
                    seq.pop();
                    if depth > 1 {
                        break; // JSON restores only at the last level (the binary copy above is a restore, too)
                    }
                }
            }
            true
        }
        dfs(rep, &name, &u0, e, &w[0], &times, t0, &mut vec![], depth, &mut n);
        // live object, no copies at all: every ordered pair of times on one object
        let mut u = copy_universe(&u0);
        for (i, &a) in times.iter().enumerate() {
            for (j, &b) in times.iter().enumerate() {
                for (k, t) in [(i, a), (j, b)] {
                    u.calculate_spin_and_evolving_quantities(t, true);
                    n += 1;
                    if !p18_cmp(rep, &format!("{}/live/{}-{}-{}", name, i, j, k), &u.particles[0], e, &w[0], t, t0) {
                        return;
                    }
                }
                // not asked to evolve: nothing but the spin is refreshed
                let before = (u.particles[0].radius, u.particles[0].radius_of_gyration_2);
                u.calculate_spin_and_evolving_quantities(times[(i + 3) % times.len()], false);
                rep.check(&format!("{}/frozen/{}-{}", name, i, j), before == (u.particles[0].radius, u.particles[0].radius_of_gyration_2), || "evolved although not asked to".into());
            }
        }
        rep.states(n);
        rep.transitions(n);
        rep.traces(1);
    });
    // fine walks: steps from a thousandth of a day down to where a quantity hardly changes, forth and back
    par(rep, evs.len() * 5, |c| {
        let (e, k) = (&evs[c / 5], c % 5);
        let name = format!("fine/{}/step={}", e.name, k);
        if !rep.want(&name) {
            return;
        }
        let t0 = 0.0045 * 365.25;
        let h = [1e-3, 1e-5, 1e-6, 1e-7, 1e-8][k];
        let (mut u, w) = p18_uni(e, None, t0);
        let mut n = 0;
        for j in (0..40).chain((0..40).rev()) {
            let t = p18_times(&e.c, t0)[7] + h * j as f64;
            u.calculate_spin_and_evolving_quantities(t, true);
            n += 1;
            if !p18_cmp(rep, &format!("{}/{}", name, n), &u.particles[0], e, &w[0], t, t0) {
                return;
            }
        }
        rep.states(n);
        rep.transitions(n);
    });
    // which intervals a table covers: start and end just inside and just outside
    let offs = [-3.0, -0.3, -1e-3, 1e-3, 0.3];
    par(rep, evs.len() * 25, |c| {
        let (e, a, b) = (&evs[c / 25], offs[c / 5 % 5], offs[c % 5]);
        let name = format!("range/{}/start={}/end={}", e.name, c / 5 % 5, c % 5);
        if !rep.want(&name) {
            return;
        }
        let t0 = e.c.t[0] * 365.25 + a;
        let mut s = compact(2, [true, false, false, false, false, true]);
        s.t0 = t0;
        s.tlim = e.c.t[e.c.t.len() - 1] * 365.25 - t0 + b;
        s.bodies[c % 2].evo = e.ty;
        let got = guard(|| build(&s));
        let want = a > 0. && b < 0.;
        rep.check(&name, got.is_ok() == want, || format!("run from {} days after the first row to {} days after the last one: {}", a, b, if want { "refused" } else { "accepted" }));
        rep.states(1);
        rep.transitions(1);
    });
    // two evolving bodies, every pair of models: each follows its own table
    let evs2: Vec<&Evo> = if rep.thorough { evs.iter().collect() } else { reps.iter().map(|&i| &evs[i]).collect() };
    par(rep, evs2.len() * evs2.len(), |c| {
        let (a, b) = (evs2[c / evs2.len()], evs2[c % evs2.len()]);
        let name = format!("pair/{}/{}", a.name, b.name);
        if !rep.want(&name) {
            return;
        }
        let t0 = 0.0045 * 365.25;
        let (mut u, w) = p18_uni(a, Some(b), t0);
        let mut ts = p18_times(&a.c, t0);
        ts.extend(p18_times(&b.c, t0));
        for (k, &t) in ts.iter().enumerate() {
            u.calculate_spin_and_evolving_quantities(t, true);
            for (i, e) in [(0, a), (1, b)] {
                if !p18_cmp(rep, &format!("{}/time={}/body={}", name, k, i), &u.particles[i], e, &w[i], t, t0) {
                    return;
                }
            }
            rep.states(1);
            rep.transitions(1);
        }
    });
    // runs: after every step the bodies have the values of some instant of that step
    par(rep, reps.len() * 5, |c| {
        let e = &evs[reps[c / 5]];
        let int = INTS[c % 5];
        let name = format!("run/{}/{}", int_name(int), e.name);
        if !rep.want(&name) {
            return;
        }
        let t0 = 0.0045 * 365.25;
        let mut s = compact(3, [true, true, false, false, true, true]);
        s.t0 = t0;
        s.tlim = 100.;
        s.bodies[0].evo = e.ty;
        s.bodies[0].mass = 1.0;
        for b in s.bodies.iter_mut().skip(1) {
            b.pos = mul(b.pos, 4.);
            b.vel = mul(b.vel, (1.0f64 / 0.08 / 4.).sqrt());
        }
        let mut sm = sim(int, 0.08, 1e9, 1e9, build(&s));
        sm.as_dyn().initialize_physical_values();
        let steps = if rep.thorough { 400 } else { 60 };
        let f = rep.scratch.join(format!("p18.{}", c));
        let mut w = std::io::BufWriter::new(std::fs::File::create(&f).unwrap());
        for k in 0..steps {
            let ta = sm.time();
            let _ = sm.as_dyn().iterate(&mut w, true);
            let tb = sm.time();
            let p = &sm.uni().particles[0];
            let mut lo = f64::INFINITY;
            let mut hi: f64 = 0.;
            for q in 0..=64 {
                let yr = (ta + (tb - ta) * q as f64 / 64. + t0) / 365.25;
                let r = interp(yr, &e.c.t, &e.c.radius);
                lo = lo.min(r);
                hi = hi.max(r);
            }
            let key = format!("{}/step={}", name, k);
            rep.check(&key, p.radius >= lo * (1. - 1e-9) && p.radius <= hi * (1. + 1e-9), || format!("radius {:e} outside [{:e},{:e}] between {} and {} d", p.radius, lo, hi, ta, tb));
            let inertia = p.mass * p.radius_of_gyration_2 * p.radius * p.radius;
            rep.close("inertia in runs", &key, p.moment_of_inertia / inertia, 1., 1e-12);
            rep.states(1);
            rep.transitions(1);
        }
        let _ = std::fs::remove_file(&f);
    });
    rep.sample(json!({"case": "seq/Leconte2011-0.01/start=1/times=[12, 0, 5]/restored=true"}));
}

// ------------------------------------------------------------------------------------------------ P22
pub const P22_RULE: &str = "every combination of a grid of eccentricities (circular to hyperbolic, both sides of every branch of the solvers), inclinations (planar, polar, retrograde), nodes, arguments of perihelion and mean anomalies (negative, beyond a turn): position and velocity against an independent solution of Kepler's equation, elements back from that state, orbit rebuilt from the elements, helper functions; the same grid (coarser) through the Python tools, one by one and as arrays.";
pub const P22_ASSUME: &[&str] = &["angles from inverse cosines carry half the digits near 0 and pi: the rebuilt state is judged to 4e-7 of its size", "parabolic phases are judged in the forward direction only (no mean anomaly of a parabola is defined for the way back)"];

/// Eccentric (hyperbolic) anomaly by bisection: robust, independent of the code under test.
pub fn solve_kepler(e: f64, m: f64) -> f64 {
    if e < 1. {
        let k = (m / TWO_PI).round();
        let mm = m - k * TWO_PI;
        let (mut lo, mut hi) = (-PI - 1e-9, PI + 1e-9);
        for _ in 0..200 {
            let x = 0.5 * (lo + hi);
            // x - e sin x without cancellation
            let s = if x.abs() < 0.05 { (1. - e) * x + e * (x.powi(3) / 6. - x.powi(5) / 120. + x.powi(7) / 5040. - x.powi(9) / 362880.) } else { x - e * x.sin() };
            if s < mm {
                lo = x
            } else {
                hi = x
            }
        }
        0.5 * (lo + hi)
    } else {
        let (mut lo, mut hi) = (-50., 50.);
        for _ in 0..200 {
            let x: f64 = 0.5 * (lo + hi);
            let s = if x.abs() < 0.05 { (e - 1.) * x + e * (x.powi(3) / 6. + x.powi(5) / 120. + x.powi(7) / 5040. + x.powi(9) / 362880.) } else { e * x.sinh() - x };
            if s < m {
                lo = x
            } else {
                hi = x
            }
        }
        0.5 * (lo + hi)
    }
}
/// Independent state from perihelion distance, eccentricity, angles and mean anomaly (Barker's for parabolas).
pub fn state_from(gm: f64, q: f64, e: f64, i: f64, w: f64, n: f64, m: f64) -> (V3, V3) {
    let (x, y, vx, vy);
    if e == 1. {
        // m = D + D^3/3
        let (mut lo, mut hi) = (-1e4, 1e4);
        for _ in 0..200 {
            let d: f64 = 0.5 * (lo + hi);
            if d + d * d * d / 3. < m {
                lo = d
            } else {
                hi = d
            }
        }
        let d = 0.5 * (lo + hi);
        x = q * (1. - d * d);
        y = 2. * q * d;
        let k = (2. * gm / q).sqrt() / (1. + d * d);
        vx = -k * d;
        vy = k;
    } else {
        let a = q / (1. - e);
        let u = solve_kepler(e, m);
        if e < 1. {
            let b = (1. - e * e).sqrt();
            let r = a * (1. - e * u.cos());
            x = a * (u.cos() - e);
            y = a * b * u.sin();
            let k = (gm * a).sqrt() / r;
            vx = -k * u.sin();
            vy = k * b * u.cos();
        } else {
            let aa = -a;
            let b = (e * e - 1.).sqrt();
            let r = aa * (e * u.cosh() - 1.);
            x = aa * (e - u.cosh());
            y = aa * b * u.sinh();
            let k = (gm * aa).sqrt() / r;
            vx = -k * u.sinh();
            vy = k * b * u.cosh();
        }
    }
    let (cw, sw, co, so, ci, si) = (w.cos(), w.sin(), n.cos(), n.sin(), i.cos(), i.sin());
    let px = [co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si];
    let qx = [-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si];
    (add(mul(px, x), mul(qx, y)), add(mul(px, vx), mul(qx, vy)))
}
struct Conv<'a> {
    rep: &'a Rep,
    key: String,
    gm: f64,
    o: [f64; 6], // q e i p n l
}
impl Conv<'_> {
    /// Forward conversion: state against the reference.
    fn forward(&self, s: [f64; 6]) -> (V3, V3) {
        let [q, e, i, p, n, l] = self.o;
        let (x, v) = state_from(self.gm, q, e, i, p - n, n, l);
        // a rounding error of the anomaly moves the body along the orbit: slow when close to perihelion of a narrow orbit
        let r = norm(x);
        // (a parabola is solved in closed form)
        let wide = if e == 1. { 1. } else { (1. - e).abs().max(1e-3) };
        let arc = norm(v) * (q / wide).powf(1.5) / self.gm.sqrt() * (1. + l.abs());
        self.rep.close("position", &self.key, norm(sub([s[0], s[1], s[2]], x)) / (r + arc), 0., 1e-9);
        let acc = self.gm / (r * r);
        self.rep.close("velocity", &self.key, norm(sub([s[3], s[4], s[5]], v)) / (norm(v) + acc * arc / norm(v)), 0., 1e-9);
        (x, v)
    }
    /// Way back: the elements describe the orbit and the state.
    fn back(&self, x: V3, v: V3, el: [f64; 7], per: Option<f64>) {
        let [q, e, i, _, _, _] = self.o;
        let (rep, key) = (self.rep, &self.key);
        let [a2, q2, e2, i2, p2, n2, l2] = el;
        rep.close("perihelion distance back", key, q2 / q, 1., 1e-7 + 1e-9 / (1. - e).abs().max(1e-3));
        rep.close("eccentricity back", key, e2, e, 3.1e-8 + 1e-12 / (e + 1e-5));
        rep.close("inclination back", key, i2, i, 3e-8);
        if e < 1. || e > 1.00001 {
            rep.close("semi-major axis back", key, a2 * (1. - e) / q, 1., 5e-12 / (1. - e).abs());
        }
        if e < 1. {
            if let Some(t) = per {
                let want = TWO_PI * ((q / (1. - e)).powi(3) / self.gm).sqrt();
                rep.close("period", key, t / want, 1., 3e-12 / (1. - e));
            }
            rep.check(key, l2 >= 0. && l2 <= TWO_PI, || format!("mean anomaly {} of an ellipse outside one turn", l2));
        }
        rep.check(key, i2 >= 0. && i2 <= PI, || format!("inclination {}", i2));
        if e != 1. && (e - 1.).abs() > 1e-5 {
            // rebuild the state with the reference
            let ee = if e < 1. { e2.min(0.9999999) } else { e2.max(1.0000001) };
            let (y, w) = state_from(self.gm, q2, ee, i2, p2 - n2, n2, l2);
            let f = 1. / (1. - e).abs().min(1.).sqrt() * (1. + if e2 == 0. { 0. } else { 0.3 / e });
            rep.close("rebuilt position", key, norm(sub(x, y)) / norm(x).max(q), 0., 4e-7 * f);
            rep.close("rebuilt velocity", key, norm(sub(v, w)) / norm(v), 0., 4e-7 * f);
        } else {
            // orientation only: normal and direction of the perihelion
            let h = cross(x, v);
            let want = [n2.sin() * i2.sin(), -n2.cos() * i2.sin(), i2.cos()];
            rep.close("rebuilt plane", key, norm(sub(mul(h, 1. / norm(h)), want)), 0., 1e-6);
            let ev = sub(mul(cross(v, h), 1. / self.gm), mul(x, 1. / norm(x)));
            let w = p2 - n2;
            let dir = [n2.cos() * w.cos() - n2.sin() * w.sin() * i2.cos(), n2.sin() * w.cos() + n2.cos() * w.sin() * i2.cos(), w.sin() * i2.sin()];
            rep.close("rebuilt perihelion", key, norm(sub(mul(ev, 1. / norm(ev)), dir)), 0., 1e-6);
        }
    }
}
pub fn p22(rep: &Rep) {
    let es: Vec<f64> = vec![0., 1e-10, 1e-5, 1e-3, 0.05, 0.1, 0.3, 0.5, 0.549, 0.551, 0.7, 0.9, 0.97, 0.99, 0.999, 1., 1.001, 1.05, 1.2, 1.5, 2., 5., 20.];
    let is = [0., 1e-5, 0.3, 1.2, PI / 2., 2.0, 3.0, PI - 1e-5, PI];
    let step = if rep.thorough { 24 } else { 12 };
    let ns: Vec<f64> = (0..step).map(|k| k as f64 * TWO_PI / step as f64).chain([0.4, 2.0, 3.5, 5.7]).collect();
    let ws = ns.clone();
    let mut ls: Vec<f64> = (0..16).map(|k| k as f64 * PI / 8.).collect();
    ls.extend([1e-9, 1e-4, 5e-4, 9.9e-4, -9e-4, 1.1e-3, 0.1, 0.44, 0.46, 3.0, PI - 1e-4, PI + 1e-4, 6.2, 6.28318, 7.0, 20.0, -1e-4, -0.1, -0.44, -0.46, -1.0, -3.0, -3.3, -6.0, -7.0, -19.0]);
    if rep.thorough {
        ls.extend((0..100).map(|k| -3.2 + 0.0643 * k as f64));
    }
    let gms = [(K2 * 1.000003, 1.0), (K2 * 0.08, 0.018), (K2 * 30., 40.)];
    par(rep, es.len() * is.len() * ns.len(), |c| {
        let d = digits(c, &[es.len(), is.len(), ns.len()]);
        let (e, i, n) = (es[d[0]], is[d[1]], ns[d[2]]);
        let mut cnt = 0;
        for (wi, &w) in ws.iter().enumerate() {
            for (li, &l) in ls.iter().enumerate() {
                let (gm, q) = gms[(wi + li) % gms.len()];
                let p = w + n;
                let key = format!("rust/gm={:e}/q={}/e={}/i={}/p={}/n={}/l={}", gm, q, e, i, p, n, l);
                if !rep.want(&key) {
                    continue;
                }
                let cv = Conv { rep, key, gm, o: [q, e, i, p, n, l] };
                let s = tools::calculate_cartesian_coordinates(gm, q, e, i, p, n, l);
                let (x, v) = cv.forward([s.0, s.1, s.2, s.3, s.4, s.5]);
                let r = tools::calculate_keplerian_orbital_elements(gm, ax(x), ax(v));
                cv.back(x, v, [r.0, r.1, r.2, r.3, r.4, r.5, r.6], Some(r.7));
                let (q2, e2) = tools::calculate_perihelion_distance_and_eccentricity(gm, ax(x), ax(v));
                rep.close("helper: perihelion distance", &cv.key, q2 / r.1, 1., 1e-13);
                rep.close("helper: eccentricity", &cv.key, e2, r.2, 3.1e-8 + 1e-12 / (e + 1e-5));
                let ev = v3(tools::calculate_eccentricity_vector(gm, ax(x), ax(v)));
                let h = cross(x, v);
                let want = sub(mul(cross(v, h), 1. / gm), mul(x, 1. / norm(x)));
                rep.close("eccentricity vector", &cv.key, norm(sub(ev, want)), 0., 1e-12 * (1. + e));
                cnt += 1;
            }
        }
        rep.states(cnt);
        rep.transitions(2 * cnt);
    });
    // the Python tools
    let es = [0., 1e-4, 0.1, 0.549, 0.551, 0.9, 0.999, 1., 1.05, 1.5, 5.];
    let is = [0., 0.3, PI / 2., 2.0, PI];
    let ns = [0., 0.4, PI / 2., 2.0, PI, 3.5, 1.5 * PI, 5.7];
    let ws = [0., 1.0, PI / 2., 2.5, PI, 4.0, 5.5];
    let ls: Vec<f64> = if rep.thorough { (0..20).map(|k| -6.6 + 0.7 * k as f64).collect() } else { vec![0., 0.2, 1.7, PI, 4.4, 6.1, -0.3, -3.3, 9.0] };
    let mut orbits = vec![];
    for &e in &es {
        for &i in &is {
            for &n in &ns {
                for &w in &ws {
                    for &l in &ls {
                        let (gm, q) = gms[orbits.len() % 3];
                        orbits.push([gm, q, e, i, w + n, n, l]);
                    }
                }
            }
        }
    }
    let shards = 8;
    par(rep, shards, |sh| {
        let mine: Vec<&[f64; 7]> = orbits.iter().skip(sh).step_by(shards).collect();
        let input: String = mine.iter().map(|o| o.iter().map(|x| format!("{:e}", x)).collect::<Vec<_>>().join(" ") + "\n").collect();
        let out = match python(rep, "py_elements.py", &[], input.as_bytes()) {
            Ok(o) => o,
            Err(e) => {
                rep.violation("python", &format!("Python tools failed: {}", e));
                return;
            }
        };
        let lines: Vec<&str> = out.lines().collect();
        rep.check("python", lines.len() == mine.len(), || format!("{} answers for {} orbits", lines.len(), mine.len()));
        for (o, l) in mine.iter().zip(lines) {
            let v: Vec<f64> = l.split_whitespace().map(|h| f64::from_bits(u64::from_str_radix(h, 16).unwrap())).collect();
            let key = format!("python/gm={:e}/q={}/e={}/i={}/p={}/n={}/l={}", o[0], o[1], o[2], o[3], o[4], o[5], o[6]);
            let cv = Conv { rep, key, gm: o[0], o: [o[1], o[2], o[3], o[4], o[5], o[6]] };
            cv.forward([v[0], v[1], v[2], v[3], v[4], v[5]]);
            let (x, w) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
            for k in [6, 14] {
                cv.back(x, w, [v[k], v[k + 1], v[k + 2], v[k + 3], v[k + 4], v[k + 5], v[k + 6]], None);
            }
            rep.states(1);
            rep.transitions(2);
            rep.traces(1);
        }
    });
    rep.group("python orbits", orbits.len() as u64);
    rep.sample(json!({"case": "rust/e=0.551/i=2/l=-0.44"}));
}

/// Copy of the Python package of the tree under test, importable, with the input folder it insists on.
pub fn python_tree(rep: &Rep) -> std::path::PathBuf {
    static ONCE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _g = ONCE.lock().unwrap_or_else(|e| e.into_inner());
    let dst = rep.scratch.join("py");
    if dst.exists() {
        return dst;
    }
    fn cp(a: &std::path::Path, b: &std::path::Path) {
        std::fs::create_dir_all(b).unwrap();
        for e in std::fs::read_dir(a).unwrap().flatten() {
            let (p, n) = (e.path(), e.file_name());
            if n == "tests" || n == "__pycache__" {
                continue;
            }
            if p.is_dir() {
                cp(&p, &b.join(&n));
            } else if p.extension().map(|x| x == "py").unwrap_or(false) {
                std::fs::copy(&p, b.join(&n)).unwrap();
            }
        }
    }
    let repo = std::env::var("PCHECK_REPO").unwrap_or("/repo".into());
    cp(&std::path::Path::new(&repo).join("posidonius"), &dst.join("posidonius"));
    let _ = std::os::unix::fs::symlink(rep.scratch.join("input"), dst.join("input"));
    dst
}
/// Runs a script of tools/ with the Python that has numpy.
pub fn python(rep: &Rep, script: &str, args: &[&str], input: &[u8]) -> Result<String, String> {
    use std::io::Write;
    use std::process::*;
    let tree = python_tree(rep);
    let mut ch = Command::new("python3-vt")
        .arg(verif_dir().join("tools").join(script))
        .args(args)
        .env("PYTHONPATH", format!("{}:{}", tree.display(), verif_dir().join("tools/pystub").display()))
        .env("PCHECK_REPO", std::env::var("PCHECK_REPO").unwrap_or("/repo".into()))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("OMP_NUM_THREADS", "1")
        .current_dir(&rep.scratch)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut si = ch.stdin.take().unwrap();
    let inp = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&inp);
    });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = t.join();
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).lines().rev().take(6).collect::<Vec<_>>().join(" | "));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}
