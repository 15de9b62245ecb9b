//! P20 two-body accuracy, P21 convergence of every integrator to the same motion.
use crate::c_force::permute;
use crate::c_misc::state_from;
use crate::sys::*;
use crate::util::*;
use posidonius::*;
use serde_json::json;
use std::f64::consts::PI;

pub type Snap = Vec<[V3; 4]>; // position, velocity, angular momentum, spin

pub fn snap(u: &Universe) -> Snap {
    u.particles[..u.n_particles].iter().map(|p| [v3(p.inertial_position), v3(p.inertial_velocity), v3(p.angular_momentum), v3(p.spin)]).collect()
}

// ------------------------------------------------------------------------------------------------ P20
pub const P20_RULE: &str = "all combinations of eccentricity (circular to nearly parabolic and hyperbolic), inclination (prograde, inclined, retrograde), starting phase, mass ratio, step as a fraction of the period and listing order, for every integrator and coordinate system; every step is compared with the analytic two-body solution (independent Kepler solver), energy and angular momentum with their initial values; for the second-order schemes the error at two step sizes is compared as well.";
pub const P20_ASSUME: &[&str] = &["bodies are points (radii far below the pericentre)", "democratic heliocentric coordinates split even a two-body problem: second order in the step with an error proportional to the planet's mass", "order tests are made in the asymptotic regime only (well-resolved pericentre)"];

struct Two {
    gm: f64,
    q: f64,
    e: f64,
    inc: f64,
    m0: f64,
    n: f64,
    mu: [f64; 2], // mass fractions of star and planet
    per: f64,
}
impl Two {
    fn at(&self, t: f64) -> [(V3, V3); 2] {
        let (x, v) = state_from(self.gm, self.q, self.e, self.inc, 0.7, 1.9, self.m0 + self.n * t);
        [(mul(x, -self.mu[1]), mul(v, -self.mu[1])), (mul(x, self.mu[0]), mul(v, self.mu[0]))]
    }
}

fn two(e: f64, inc: f64, m0: f64, ratio: f64, swap: bool) -> (Two, Sys) {
    let a = 1.0f64;
    let q = if e < 1. { a * (1. - e) } else { a * (e - 1.) };
    let (ms, mp) = (1.0, ratio);
    let g = gm(ms + mp);
    let n = (g / (a * a * a)).sqrt();
    let t = Two { gm: g, q, e, inc, m0, n, mu: [ms / (ms + mp), mp / (ms + mp)], per: 2. * PI / n };
    let (x, v) = state_from(g, q, e, inc, 0.7, 1.9, m0);
    let mut s = Sys { bodies: vec![], eff: [false; 6], gr_impl: 0, disk: disk_props(), t0: 0., tlim: 1e9 };
    let b0 = body(ms, 1e-9, 0.4, [0.; 3], [0.; 3], [0., 0., 1.]);
    let b1 = body(mp, 1e-12, 0.4, x, v, [0., 0., 1.]);
    s.bodies = if swap { vec![b1, b0] } else { vec![b0, b1] };
    (t, s)
}

/// Largest relative errors (position, velocity, energy, angular momentum) over the run, in units of the orbit's own scales.
fn two_run(rep: &Rep, t: &Two, s: &Sys, int: Int, dt: f64, steps: usize, hist: &std::path::Path, swap: bool) -> Result<([f64; 4], f64), String> {
    let mut sm = sim(int, dt, 1e9, 1e9, guard(|| build(s))?);
    guard(|| sm.as_dyn().initialize_physical_values())?;
    let mut w = crate::c_state::writer(hist);
    let mut worst = [0f64; 4];
    let (is, ip) = if swap { (1, 0) } else { (0, 1) };
    let rel = |u: &Universe| -> (V3, V3) {
        let (a, b) = (&u.particles[is], &u.particles[ip]);
        (sub(v3(b.inertial_position), v3(a.inertial_position)), sub(v3(b.inertial_velocity), v3(a.inertial_velocity)))
    };
    let inv = |x: V3, v: V3| (0.5 * dot(v, v) - t.gm / norm(x), cross(x, v));
    let (x0, v0) = rel(sm.uni());
    let (e0, h0) = inv(x0, v0);
    let mut bad = false;
    for _ in 0..steps {
        if norm(rel(sm.uni()).0) > 30. {
            break; // leaves the region where bodies are followed
        }
        let _ = guard(|| sm.as_dyn().iterate(&mut w, true))?;
        rep.transitions(1);
        let want = t.at(sm.time());
        let u = sm.uni();
        let (x, v) = rel(u);
        let r = norm(x);
        let vs = norm(v);
        for (i, k) in [(is, 0), (ip, 1)] {
            let p = &u.particles[i];
            // scale of this body's own motion
            let f = if k == 0 { t.mu[1] } else { t.mu[0] };
            let ep = norm(sub(v3(p.inertial_position), want[k].0)) / (f * r);
            let ev = norm(sub(v3(p.inertial_velocity), want[k].1)) / (f * vs);
            bad |= ep.is_nan() || ev.is_nan();
            worst[0] = worst[0].max(ep);
            worst[1] = worst[1].max(ev);
        }
        let (en, h) = inv(x, v);
        worst[2] = worst[2].max(((en - e0) / (0.5 * vs * vs + t.gm / r)).abs());
        worst[3] = worst[3].max(norm(sub(h, h0)) / norm(h0));
    }
    let _ = std::fs::remove_file(hist);
    if bad || worst.iter().any(|x| !x.is_finite()) {
        worst = [f64::INFINITY; 4];
    }
    Ok((worst, sm.time()))
}

pub fn p20(rep: &Rep) {
    let es: Vec<f64> = if rep.thorough { vec![0., 1e-4, 0.1, 0.3, 0.6, 0.9, 0.97, 0.995, 1.02, 1.3, 4.] } else { vec![0., 0.1, 0.6, 0.95, 1.3] };
    let incs: Vec<f64> = if rep.thorough { vec![0., 0.7, PI / 2., 2.5, PI] } else { vec![0., 0.7, 2.5] };
    let ms: Vec<f64> = if rep.thorough { vec![0., 0.05, 1., 2.5, PI, 4., 5., 6.2] } else { vec![0., 1., PI, 5.] };
    let ratios: Vec<f64> = if rep.thorough { vec![1e-12, 3e-6, 1e-3, 0.1, 0.9] } else { vec![3e-6, 1e-2, 0.5] };
    let fr: Vec<f64> = if rep.thorough { vec![0.0003, 0.003, 0.02, 0.05, 0.1, 0.23, 0.4, 0.7, 1.0, 1.3, 2.7] } else { vec![0.003, 0.02, 0.1, 0.4, 1.3] };
    let radix = [es.len(), incs.len(), ms.len(), ratios.len(), 2, INTS.len()];
    rep.group("two-body cases", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let (e, inc, m0, ratio, swap, int) = (es[d[0]], incs[d[1]], ms[d[2]], ratios[d[3]], d[4] == 1, INTS[d[5]]);
        let m0 = if e > 1. { m0 - 2.5 } else { m0 };
        let key = format!("two/{}/e={}/i={}/m={}/q={}/swap={}", int_name(int), d[0], d[1], d[2], d[3], d[4]);
        if !rep.want(&key) {
            return;
        }
        rep.states(1);
        let (t, s) = two(e, inc, m0, ratio, swap);
        let hist = rep.scratch.join(format!("p20.{}", c));
        // time scale at pericentre
        let peri = t.per * t.q.powf(1.5);
        match int {
            Int::Jacobi | Int::Whds => {
                for (k, f) in fr.iter().enumerate() {
                    if *f > 0.4 && (e > 1. || e > 0.98) {
                        continue; // would leave the region where bodies are followed
                    }
                    let steps = 25;
                    let dt = f * t.per;
                    let key = format!("{}/dt={}", key, k);
                    match two_run(rep, &t, &s, int, dt, steps, &hist, swap) {
                        Err(m) => rep.violation(&key, &format!("stopped: {}", m)),
                        Ok((w, end)) => {
                            let done = (end / dt).round();
                            rep.check(&key, (end - done * dt).abs() <= 1e-12 * end && (e > 1. || done == steps as f64), || format!("time {} after {} steps of {}", end, steps, dt));
                            // rounding of the phase, amplified where the motion is fast, and of the barycentric split
                            // (the Kepler solver's argument reduction costs digits for steps that are large fractions of a period)
                            let amp = 1. / t.q;
                            let (tp, te, th) = if *f <= 0.02 {
                                (1e-13 * amp.max(1.).powi(2), 1e-13 * amp.max(1.), 2e-14 * amp.max(10.))
                            } else {
                                (1e-13 * steps as f64 * (1. + 2. * PI * f * steps as f64) * amp.powi(3), 4e-13 * amp * amp, 1e-12 * amp)
                            };
                            let k = if *f > 0.9 { 10. } else { 1. };
                            let tols = [tp * k, tp * k, te * k, th];
                            for (i, n) in ["position", "velocity", "energy", "angular momentum"].iter().enumerate() {
                                let tol = tols[i];
                                rep.close(&format!("exact {}", n), &key, w[i], 0., tol);
                            }
                        }
                    }
                }
            }
            Int::Ias15 => {
                for (k, f) in fr.iter().enumerate().filter(|(_, f)| **f < 1.5) {
                    let key = format!("{}/dt={}", key, k);
                    match two_run(rep, &t, &s, int, f * peri, 60, &hist, swap) {
                        Err(m) => rep.violation(&key, &format!("stopped: {}", m)),
                        Ok((w, _)) => {
                            // a first step much longer than the pericentre passage is accepted by the method with its own tolerance
                            let base = if *f < 0.3 { 1e-11 } else { 2e-10 };
                            for (i, n) in ["position", "velocity", "energy", "angular momentum"].iter().enumerate() {
                                let tol = if i < 2 { base * (0.1 / t.q).max(1.) } else { base * 0.1 };
                                rep.close(&format!("ias15 {}", n), &key, w[i], 0., tol);
                            }
                        }
                    }
                }
            }
            Int::Demo | Int::Leap => {
                for (k, f) in [0.004f64, 0.012].iter().enumerate() {
                    let key = format!("{}/dt={}", key, k);
                    let dt = f * peri;
                    let steps = 24;
                    let a = two_run(rep, &t, &s, int, dt, steps, &hist, swap);
                    let b = two_run(rep, &t, &s, int, dt / 2., steps * 2, &hist, swap);
                    match (a, b) {
                        (Ok((wa, _)), Ok((wb, _))) => {
                            let small = if int == Int::Demo { t.mu[1] } else { 1. };
                            let amp = (1. / t.q).max(1.);
                            for (i, n) in ["position", "velocity", "energy", "angular momentum"].iter().enumerate() {
                                let ord = if i == 3 { 1e-13 * amp } else { 8000. * f.powi(3) * small + 2e-12 * amp };
                                rep.close(&format!("{} {}", int_name(int), n), &key, wa[i], 0., ord);
                                if i < 2 {
                                    rep.close(&format!("{} order of {}", int_name(int), n), &key, wb[i], 0., wa[i] * 0.3 + 2e-12);
                                }
                            }
                        }
                        (a, b) => rep.violation(&key, &format!("stopped: {:?} {:?}", a.err(), b.err())),
                    }
                }
            }
        }
        rep.traces(1);
    });
    rep.sample(json!({"case": "two/whds/e=3/i=2/m=1/q=1/swap=1/dt=4", "oracle": "analytic two-body motion"}));
}

// ------------------------------------------------------------------------------------------------ P21
pub const P21_RULE: &str = "all 64 combinations of effects x every integrator and coordinate system x listing position of the host x tidal models x relativistic implementations x evolution models, and systems of 2 to 5 bodies; each is integrated with a step and with a quarter of it and compared at eight times with a high-order extrapolation of the same equations of motion (reference integrator of the harness over the simulator's force evaluation, whose own convergence is verified): errors must shrink at the method's order, stay below absolute bounds, and the change made by each single effect must be the one it makes in the reference; the time after k steps is k steps. IAS15 also with an oversized first step, so that attempts are rejected.";
pub const P21_ASSUME: &[&str] = &["forces themselves are decided by P07-P16, P25", "evolving quantities are updated once per step: first order with evolution", "IAS15 is compared at its own accepted times to its tolerance, relaxed where tabulated evolution has kinks", "3.2 days of compact systems (innermost period about a day)"];

/// Right-hand side through the force evaluation of the universe.
struct Rhs {
    u: Box<Universe>,
    n: usize,
}
impl Rhs {
    fn eval(&mut self, t: f64, y: &[f64], dy: &mut [f64]) {
        let n = self.n;
        for i in 0..n {
            let p = &mut self.u.particles[i];
            let g = |k: usize| ax([y[9 * i + k], y[9 * i + k + 1], y[9 * i + k + 2]]);
            p.inertial_position = g(0);
            p.inertial_velocity = g(3);
            p.angular_momentum = g(6);
        }
        self.u.inertial_to_heliocentric();
        self.u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
        self.u.calculate_additional_effects(t, true, true, true, IgnoreGravityTerms::None);
        for i in 0..n {
            let p = &self.u.particles[i];
            let a = add(v3(p.inertial_acceleration), v3(p.inertial_additional_acceleration));
            let l = v3(p.dangular_momentum_dt);
            for k in 0..3 {
                dy[9 * i + k] = y[9 * i + 3 + k];
                dy[9 * i + 3 + k] = a[k];
                dy[9 * i + 6 + k] = l[k];
            }
        }
    }
}
/// Gragg-Bulirsch-Stoer step of fixed order.
fn gbs(r: &mut Rhs, t: f64, h: f64, y: &mut Vec<f64>) {
    const SEQ: [usize; 7] = [2, 4, 6, 8, 10, 12, 14];
    let m = y.len();
    let mut f0 = vec![0.; m];
    r.eval(t, y, &mut f0);
    let mut tab: Vec<Vec<f64>> = vec![];
    for (j, &ns) in SEQ.iter().enumerate() {
        let hh = h / ns as f64;
        let mut a = y.clone();
        let mut b: Vec<f64> = (0..m).map(|i| y[i] + hh * f0[i]).collect();
        let mut f = vec![0.; m];
        for k in 1..ns {
            r.eval(t + hh * k as f64, &b, &mut f);
            for i in 0..m {
                let c = a[i] + 2. * hh * f[i];
                a[i] = b[i];
                b[i] = c;
            }
        }
        r.eval(t + h, &b, &mut f);
        let mut cur: Vec<f64> = (0..m).map(|i| 0.5 * (a[i] + b[i] + hh * f[i])).collect();
        for k in 0..j {
            let q = (SEQ[j] as f64 / SEQ[j - 1 - k] as f64).powi(2) - 1.;
            let prev = tab[k].clone();
            tab[k] = cur.clone();
            cur = (0..m).map(|i| cur[i] + (cur[i] - prev[i]) / q).collect();
        }
        tab.push(cur);
    }
    *y = tab.last().unwrap().clone();
}
/// Reference state at the times (increasing), largest internal step hmax.
pub fn reference(u0: &Universe, times: &[f64], hmax: f64) -> Vec<Vec<f64>> {
    let n = u0.n_particles;
    let mut r = Rhs { u: Box::new(copy_universe(u0)), n };
    let mut y = vec![];
    for s in snap(u0) {
        for k in 0..3 {
            y.extend(s[k]);
        }
    }
    let mut t = 0.;
    let mut out = vec![];
    for &end in times {
        let k = ((end - t) / hmax).ceil().max(1.) as usize;
        let h = (end - t) / k as f64;
        if h > 0. {
            for j in 0..k {
                gbs(&mut r, t + h * j as f64, h, &mut y);
            }
        }
        t = end;
        out.push(y.clone());
    }
    out
}
/// Relative errors (position, velocity, angular momentum), worst body.
pub fn errs(a: &Snap, y: &[f64]) -> [f64; 3] {
    let mut w = [0f64; 3];
    for (i, s) in a.iter().enumerate() {
        for k in 0..3 {
            let r = [y[9 * i + 3 * k], y[9 * i + 3 * k + 1], y[9 * i + 3 * k + 2]];
            let e = norm(sub(s[k], r)) / norm(r).max(1e-300);
            w[k] = if e.is_nan() { f64::INFINITY } else { w[k].max(e) };
        }
    }
    w
}

pub fn started(s: &Sys, int: Int, dt: f64) -> Sim {
    let mut sm = sim(int, dt, 1e9, 1e9, build(s));
    sm.as_dyn().initialize_physical_values();
    sm
}


struct Run {
    coarse: Snap,
    fine: Snap,
    yref: Vec<f64>,
}

/// One system through one integrator: errors against the reference at two steps; the states are kept for the difference test.
fn converge(rep: &Rep, key: &str, s: &Sys, int: Int, t_end: f64, base: f64, evo: bool, hmax: f64, at: &[Vec<f64>]) -> Option<Run> {
    let hist = rep.scratch.join(format!("p21.{}", key.replace('/', "_")));
    let run = || -> Result<Run, String> {
        let u0 = guard(|| started(s, int, base))?;
        
        let mut es = vec![];
        let mut fine = vec![];
        let mut coarse = vec![];
        let mut yref = vec![];
        let mut w = crate::c_state::writer(&hist);
        if int == Int::Ias15 {
            // a first step that is too large is rejected and repeated: the result must not depend on it
            for first in [30. * base, 12. * base, base] {
                let mut sm = guard(|| started(s, int, first))?;
                let mut before = 0.;
                let mut times = vec![];
                let mut snaps = vec![];
                for _ in 0..if first == base { 12 } else { 3 } {
                    let _ = guard(|| sm.as_dyn().iterate(&mut w, true))?;
                    rep.transitions(1);
                    let t = sm.time();
                    if !(t > before) {
                        return Err(format!("time {} after {}", t, before));
                    }
                    before = t;
                    times.push(t);
                    snaps.push(snap(sm.uni()));
                }
                let ys = reference(u0.uni(), &times, hmax);
                let mut worst = [0f64; 3];
                for (a, y) in snaps.iter().zip(&ys) {
                    let e = errs(a, y);
                    for k in 0..3 {
                        worst[k] = worst[k].max(e[k]);
                    }
                }
                es.insert(0, worst);
                fine = snaps.pop().unwrap();
                yref = ys.last().unwrap().clone();
            }
        } else {
            for k in [1usize, 4] {
                let dt = base / k as f64;
                let mut sm = guard(|| started(s, int, dt))?;
                let steps = (t_end / base).round() as usize * k;
                let mut worst = [0f64; 3];
                for j in 0..steps {
                    let _ = guard(|| sm.as_dyn().iterate(&mut w, true))?;
                    rep.transitions(1);
                    let want = (j + 1) as f64 * dt;
                    if (sm.time() - want).abs() > 1e-12 * want {
                        return Err(format!("time {} after {} steps of {}", sm.time(), j + 1, dt));
                    }
                    if (j + 1) % (steps / at.len()) == 0 {
                        let e = errs(&snap(sm.uni()), &at[(j + 1) / (steps / at.len()) - 1]);
                        for k in 0..3 {
                            worst[k] = worst[k].max(e[k]);
                        }
                    }
                }
                yref = at.last().unwrap().clone();
                es.push(worst);
                coarse = std::mem::replace(&mut fine, snap(sm.uni()));
            }
        }
        for (i, a) in fine.iter().enumerate().filter(|_| !evo) {
            let u = u0.uni();
            let inertia = u.particles[i].moment_of_inertia;
            let want = mul(a[3], inertia);
            rep.close("spin is angular momentum over moment of inertia", key, norm(sub(a[2], want)) / norm(a[2]).max(1e-300), 0., 3e-4); // the spin is refreshed at each evaluation of the effects
        }
        let kaula = key.contains("kaula"); // its force jumps where the number of terms changes
        let names = ["positions", "velocities", "angular momenta"];
        if int == Int::Ias15 {
            for k in 0..3 {
                let tol = if evo { if k == 2 { 1e-6 } else { 3e-7 } } else { 2e-11 };
                rep.close(&format!("ias15 {}{}", names[k], if evo { " with evolution" } else { "" }), key, es[0][k], 0., tol);
                for e in &es[1..] {
                    rep.close(&format!("ias15 {} after rejected steps{}", names[k], if evo { " with evolution" } else { "" }), key, e[k], 0., tol);
                }
            }
        } else {
            for k in 0..3 {
                let first = evo || (k == 2 && s.eff[WIND]);
                let f = if first { 0.45 } else { 0.2 };
                rep.close(&format!("{} {} at a quarter of the step, {}", int_name(int), names[k], if first { "first order" } else { "second order" }), key, es[1][k], 0., f * es[0][k] + if kaula { 5e-10 } else { 2e-12 });
                let abs = if int == Int::Leap { [0.1, 0.1, 5e-5][k] } else if evo { [5e-4, 5e-4, 5e-5][k] } else if key.starts_with("10bodies") { 5e-5 } else { [5e-6, 5e-6, 5e-6][k] };
                rep.close(&format!("{} {}{}", int_name(int), names[k], if evo { " with evolution" } else { "" }), key, es[0][k], 0., abs);
            }
        }
        Ok(Run { coarse, fine, yref })
    };
    rep.states(1);
    let r = run();
    let _ = std::fs::remove_file(&hist);
    match r {
        Ok(r) => {
            rep.traces(1);
            Some(r)
        }
        Err(m) => {
            rep.violation(key, &format!("stopped: {}", m));
            None
        }
    }
}

pub fn p21(rep: &Rep) {
    // family: systems that differ only in which effects are enabled
    struct Fam {
        name: String,
        make: Box<dyn Fn(usize) -> Option<Sys> + Sync + Send>,
    }
    let mut fams: Vec<Fam> = vec![];
    let orders = [[0usize, 1, 2], [1, 0, 2], [1, 2, 0]];
    for (h, o) in orders.iter().enumerate() {
        let o = *o;
        for model in 0..3usize {
            for g in 1..4u8 {
                if model > 0 && g > 1 {
                    continue;
                }
                for e in 1..8usize {
                    if e > 1 && (model > 0 || g > 1 || h > 0) && !rep.thorough {
                        continue;
                    }
                    if model > 0 && e > 1 {
                        continue;
                    }
                    fams.push(Fam {
                        name: format!("host{}/{}/gr{}/{}", h, MODELS[model], g, EVOS[e].0),
                        make: Box::new(move |m| {
                            let eff = eff_mask(m);
                            // the variants only matter where the varied effect is on
                            if (g > 1 && !eff[GR]) || (model > 0 && !eff[TIDES] && !eff[FLAT]) || (e > 1 && !eff[EVO]) {
                                return None;
                            }
                            let mut s = with_model(3, eff, model);
                            if eff[EVO] {
                                s = evolve_host(s, e);
                            }
                            s.gr_impl = g;
                            Some(permute(&s, &o))
                        }),
                    });
                }
            }
        }
    }
    for n in if rep.thorough { vec![2usize, 4, 5, 10] } else { vec![2, 4] } {
        for h in if rep.thorough { (0..n).collect() } else { vec![0, n / 2] } {
            fams.push(Fam {
                name: format!("{}bodies/host{}", n, h),
                make: Box::new(move |m| {
                    let mut s = with_model(n, eff_mask(m), 0);
                    if s.eff[EVO] {
                        s = evolve_host(s, 1);
                    }
                    let mut o: Vec<usize> = (1..n).collect();
                    o.insert(h, 0);
                    Some(permute(&s, &o))
                }),
            });
        }
    }
    let radix = [fams.len(), 64];
    rep.group("families of systems", fams.len() as u64);
    rep.group("integrators", INTS.len() as u64);
    let all: std::sync::Mutex<std::collections::BTreeMap<(usize, usize, usize), Run>> = Default::default();
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let f = &fams[d[0]];
        let Some(s) = (f.make)(d[1]) else { return };
        let wanted = |i: Int| rep.want(&format!("{}/{}", f.name, int_name(i)));
        if !INTS.iter().any(|&i| wanted(i)) {
            return;
        }
        let evo = s.eff[EVO];
        let hmax = if evo { 0.04 } else if f.name.contains("kaula") { 0.05 } else { 0.1 };
        let name = |i: Int| format!("{}/{}/{}", f.name, int_name(i), eff_name(s.eff));
        let at = match guard(|| reference(started(&s, Int::Leap, 0.08).uni(), &[0.4, 0.8, 1.2, 1.6, 2.0, 2.4, 2.8, 3.2], hmax)) {
            Ok(y) => y,
            Err(m) => return rep.violation(&name(Int::Leap), &format!("forces along the reference motion: {}", m)),
        };
        for (k, &int) in INTS.iter().enumerate().filter(|(_, i)| wanted(**i)) {
            if let Some(r) = converge(rep, &name(int), &s, int, 3.2, 0.08, evo, hmax, &at) {
                all.lock().unwrap().insert((d[0], k, d[1]), r);
            }
        }
    });
    let all = all.into_inner().unwrap();
    for fi in 0..fams.len() {
        for (k, &int) in INTS.iter().enumerate() {
            if int == Int::Ias15 {
                continue; // its error is far below the size of every effect, nothing can be hidden
            }
            let f = &fams[fi];
            let kaula = f.name.contains("kaula");
            let runs: std::collections::BTreeMap<usize, &Run> = (0..64).filter_map(|m| all.get(&(fi, k, m)).map(|r| (m, r))).collect();
        // the change each effect makes is the change it makes in the reference
        for (&m, r) in &runs {
            for bit in 0..6 {
                let Some(q) = (if m >> bit & 1 == 1 { runs.get(&(m & !(1 << bit))) } else { None }) else { continue };
                let key = format!("{}/{}/{}-{}", f.name, int_name(int), eff_name(eff_mask(m)), bit);
                for k in 0..3 {
                    let (mut dr, mut de, mut dc) = (0f64, 0f64, 0f64);
                    for i in 0..r.fine.len() {
                        let yr = |r: &Run| [r.yref[9 * i + 3 * k], r.yref[9 * i + 3 * k + 1], r.yref[9 * i + 3 * k + 2]];
                        let want = sub(yr(r), yr(q));
                        let got = sub(r.fine[i][k], q.fine[i][k]);
                        let n = norm(yr(r));
                        dr = dr.max(norm(want) / n);
                        de = de.max(norm(sub(got, want)) / n);
                        dc = dc.max(norm(sub(sub(r.coarse[i][k], q.coarse[i][k]), want)) / n);
                    }
                    rep.close(&format!("{} share of effect {} in {}", int_name(int), bit, ["positions", "velocities", "angular momenta"][k]), &key, de, 0., 0.15 * dr + 0.45 * dc + if k < 2 { 2e-11 } else { 1e-12 } + if kaula { 3e-10 } else { 0. });
                }
            }
        }
        }
    }
}
