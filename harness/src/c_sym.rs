//! P17 (wind and disk laws), P11 (disabled effects and non-participants), P12 (order), P13 (frame), P19 (purity).
use crate::c_force::*;
use crate::refm::*;
use crate::sys::*;
use crate::util::*;
use posidonius::*;
use serde_json::json;
use std::f64::consts::PI;

// ------------------------------------------------------------------------------------------------ P17
pub const P17_RULE: &str = "wind: spin direction x rate below/at/above saturation x radius x mass x which bodies have a wind x other effects on or off, torque against Bolmont & Mathis 2016; runs of every integrator x every subset of the other spin-neutral effects against the analytic spin-down in both regimes. Disk: eccentricity x inclination x anomaly x separation x mass ratio (both migration regimes) x disk age x inner edge below, just below, just above and beyond the body x listing order; all participation subsets and hosts of 4 bodies in all orders; oracle Alibert et al. 2013. Outer edges far inside and far outside the orbit; roles for systems of up to 10 bodies; several winds at once.";
pub const P17_ASSUME: &[&str] = &["bodies bound to the disk host", "distances within 1e-9 (relative) of the inner edge are not judged"];

fn cmp_disk(rep: &Rep, key: &str, s: &Sys, u: &Universe, h: usize, part: &[bool], t: f64) {
    let st = state(u);
    let (e, tau) = disk(&st, h, part, &s.disk, t);
    let g = got(u);
    // 1 - sqrt(inner edge / distance) loses digits close to the inner edge, however it is written
    let taper = |i: usize| if i == h { 1. } else { let q = s.disk.inner_edge_distance / norm(sub(st[i].pos, st[h].pos)); if q < 1. { 1. - q.sqrt() } else { 1. } };
    let tol: Vec<f64> = (0..st.len()).map(|i| 1e-11 + 1e-14 / taper(i)).collect();
    let worst = tol.iter().cloned().fold(0., f64::max);
    for i in 0..st.len() {
        vclose(rep, "disk acceleration", key, g.d_acc[i], e.acc[i], e.acc_scale[i], if i == h { worst } else { tol[i] });
        if i != h && part[i] {
            let got_tau = u.particles[i].disk.parameters.internal.migration_timescale;
            if tau[i].is_infinite() {
                rep.check(key, got_tau.is_infinite() && norm(g.d_acc[i]) == 0., || format!("inside the inner edge: timescale {} and acceleration {:?}", got_tau, g.d_acc[i]));
            } else {
                rep.close("migration timescale", key, got_tau / tau[i], 1., tol[i]);
            }
        } else {
            rep.check(key, i == h || norm(g.d_acc[i]) == 0., || format!("body {} outside the disk interaction feels {:?}", i, g.d_acc[i]));
        }
    }
    rep.states(1);
    rep.transitions(1);
}

pub fn p17(rep: &Rep) {
    let deff = [false, false, false, true, false, false];
    let es = [0., 0.25, 0.8];
    let incs = [0., 0.5, PI / 2., 2.7];
    let fs = [0., 1.3, PI, 4.9];
    let aa = [0.03, 0.7, 20.];
    let qs = [1e-9, 1e-4, 0.3];
    let ts = [0., 40., 5.0e3, 4.0e5];
    let edges = [0.2, 1. - 1e-6, 1. + 1e-6, 3.0];
    let outer = [0.03, 1., 40.];
    let radix = [3usize, 4, 4, 3, 3, 4, 4, 2, 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("disk/e={}/i={}/f={}/a={}/q={}/t={}/edge={}/swap={}/outer={}", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
        if !rep.want(&key) {
            return;
        }
        let mut s = pair(0.7, qs[d[4]], aa[d[3]], es[d[0]], incs[d[1]], 0.7, 2.0, fs[d[2]], [0., 0., 1.], [0., 0., 1.], deff);
        s.disk.inner_edge_distance = edges[d[6]] * norm(s.bodies[1].pos);
        s.disk.outer_edge_distance = outer[d[8]] * aa[d[3]];
        s.disk.lifetime = [3.0e3, 1.0e5][c / 7 % 2];
        s.tlim = 1e9;
        let (s, h) = if d[7] == 1 { (permute(&s, &[1, 0]), 1) } else { (s, 0) };
        // the disk host need not be the most massive: with q < 1 it always is here, see the role enumeration
        let u = fresh(&s, ts[d[5]], MODES[c % 3]);
        cmp_disk(rep, &key, &s, &u, h, &[true, true], ts[d[5]]);
        rep.group("disk pairs", 1);
    });
    let cases = role_cases(4, 10);
    let radix = [cases.len(), 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let (n, ref perm, host, mask) = cases[d[0]];
        let key = format!("disk-roles/order={}/host={}/part={:b}/t={}", order_name(perm), host, mask, d[1]);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(n, deff);
        s.disk.inner_edge_distance = 0.02; // the first planet is inside
        roles(&mut s, 0, 0, 0, host, mask);
        let mut part: Vec<bool> = s.bodies.iter().map(|b| b.disk == Role::Orbit).collect();
        let s = permute(&s, perm);
        part = perm.iter().map(|&i| part[i]).collect();
        let h = perm.iter().position(|&i| i == host).unwrap();
        let u = fresh(&s, ts[d[1]], MODES[c % 3]);
        cmp_disk(rep, &key, &s, &u, h, &part, ts[d[1]]);
        rep.group("disk roles", 1);
    });
    // wind torque
    let rates = [0.2, 0.999999, 1.0, 1.000001, 4.0];
    let rr = [0.3, 1.0, 2.5];
    let mm = [0.08, 1.0, 7.0];
    let radix = [5usize, 5, 3, 3, 8, 4];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("wind/dir={}/rate={}/r={}/m={}/who={:03b}/others={}", d[0], d[1], d[2], d[3], d[4], d[5]);
        if !rep.want(&key) {
            return;
        }
        let eff = [d[5] & 1 > 0, d[5] & 1 > 0, d[5] & 2 > 0, false, true, false];
        let mut s = compact(3, eff);
        let sat = 1.75;
        let dir = SPINS[d[0] + 1];
        s.bodies[0].spin = mul(dir, rates[d[1]] * sat / norm(dir));
        s.bodies[0].mass = mm[d[3]];
        s.bodies[0].radius = rr[d[2]] * 1e-3;
        let mut w = vec![None; 3];
        for k in 0..3 {
            s.bodies[k].wind = None;
            if d[4] >> k & 1 == 1 {
                w[k] = Some((4e-12 * (k + 1) as f64, [sat, 2.0, 4.5][k]));
                s.bodies[k].wind = w[k];
            }
        }
        let u = fresh(&s, 0., IgnoreGravityTerms::None);
        let g = got(&u);
        let e = wind(&state(&u), &w);
        for k in 0..3 {
            vclose(rep, "wind torque", &key, g.w_tor[k], e.tor[k], e.tor_scale[k], 1e-12);
            vclose(rep, "total torque", &key, g.tor[k], add(add(g.t_tor[k], g.f_tor[k]), add(g.g_tor[k], g.w_tor[k])), norm(g.tor[k]) + norm(g.t_tor[k]), 1e-13);
        }
        rep.states(1);
        rep.transitions(1);
        rep.group("wind states", 1);
    });
    // winds of any number of bodies: every single one, all but one, all
    let mut cases = vec![];
    for n in 1..=10usize {
        let all = (1usize << n) - 1;
        for h in 0..n {
            cases.push((n, h, all));
            for k in 0..n {
                cases.push((n, h, all & !(1 << k)));
                cases.push((n, h, 1 << k));
            }
        }
    }
    par(rep, cases.len(), |c| {
        let (n, h, mask) = cases[c];
        let key = format!("wind-many/n={}/star={}/who={:b}", n, h, mask);
        if mask == 0 || !rep.want(&key) {
            return;
        }
        let mut s = compact(n, [false, false, false, false, true, false]);
        for k in 0..n {
            s.bodies[k].wind = None;
            if mask >> k & 1 == 1 {
                s.bodies[k].wind = Some((4e-12 * (k + 1) as f64, [1.0, 5.0][k % 2]));
            }
        }
        let perm: Vec<usize> = (0..n).map(|i| (i + n - h) % n).collect();
        let s = permute(&s, &perm);
        let w: Vec<_> = s.bodies.iter().map(|b| b.wind).collect();
        let u = fresh(&s, 0., IgnoreGravityTerms::None);
        let g = got(&u);
        let e = wind(&state(&u), &w);
        for k in 0..n {
            vclose(rep, "wind torque", &key, g.w_tor[k], e.tor[k], e.tor_scale[k], 1e-12);
            vclose(rep, "wind torque felt", &key, g.tor[k], e.tor[k], e.tor_scale[k], 1e-12);
        }
        rep.states(1);
        rep.transitions(1);
        rep.group("wind many bodies", 1);
    });
    // spin-down with every integrator; the other effects listed leave spins alone
    let radix = [5usize, 8, 3, 2, 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let int = INTS[d[0]];
        let eff = [false, false, d[1] & 1 > 0, d[1] & 2 > 0, true, false];
        let tides_without_response = d[1] & 4 > 0;
        let key = format!("wind-run/{}/others={}/rate={}/host={}/who={}", int_name(int), d[1], d[2], d[3], d[4]);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(3, eff);
        s.gr_impl = GR_ANDERSON; // no spin-orbit coupling
        s.eff[TIDES] = tides_without_response;
        let who = d[4];
        for (k, b) in s.bodies.iter_mut().enumerate() {
            b.tm = TM::Ctl { k2: 0., sigma: 0., scale: 1. };
            b.wind = None;
            if k == who {
                let om: f64 = [0.5, 1.2, 3.0][d[2]];
                b.spin = mul([0.48, 0.6, 0.64], om);
                let i = b.mass * b.rg * b.rg * b.radius * b.radius;
                // 20% of the spin in 40 steps of 0.05 days (saturation at 1.75)
                let lim = om.min(1.75);
                let kf = 0.1 * i / (lim * lim * (b.radius / C_RSUN / b.mass).sqrt());
                b.wind = Some((kf, 1.75));
            }
        }
        let perm: Vec<usize> = if d[3] == 1 { vec![2, 0, 1] } else { vec![0, 1, 2] };
        let at = perm.iter().position(|&x| x == who).unwrap();
        let b = s.bodies[who].clone();
        let s = permute(&s, &perm);
        let mut sm = sim(int, 0.05, 1e9, 1e9, build(&s));
        sm.as_dyn().initialize_physical_values();
        let hist = rep.scratch.join(format!("p17.{}.h", c));
        let mut w = crate::c_state::writer(&hist);
        let om0 = norm(b.spin);
        let (kf, sat) = b.wind.unwrap();
        let cc = kf * (b.radius / C_RSUN / b.mass).sqrt() / (b.mass * b.rg * b.rg * b.radius * b.radius);
        let exact = |t: f64| -> f64 {
            if om0 > sat {
                // exponential while saturated, then the inverse square root
                let t1 = (om0 / sat).ln() / (cc * sat * sat);
                if t <= t1 { om0 * (-cc * sat * sat * t).exp() } else { sat / (1. + 2. * cc * sat * sat * (t - t1)).sqrt() }
            } else {
                om0 / (1. + 2. * cc * om0 * om0 * t).sqrt()
            }
        };
        let steps = if int == Int::Ias15 { 12 } else { 40 };
        for k in 0..steps {
            sm.as_dyn().iterate(&mut w, true).unwrap();
            let p = &sm.uni().particles[at];
            let om = mul(v3(p.angular_momentum), 1. / (b.mass * b.rg * b.rg * b.radius * b.radius));
            let want = exact(sm.time());
            let tol = if int == Int::Leap { 1e-2 } else { 1e-3 };
            vclose(rep, &format!("spin-down ({})", int_name(int)), &format!("{}/step={}", key, k), om, mul(b.spin, want / om0), (om0 - want).abs(), tol);
            for j in 0..3 {
                if j != at {
                    let q = &sm.uni().particles[j];
                    let o = &s.bodies[j];
                    vclose(rep, "spin of the other bodies", &key, v3(q.angular_momentum), mul(o.spin, o.mass * o.rg * o.rg * o.radius * o.radius), norm(v3(q.angular_momentum)), 1e-12);
                }
            }
            rep.states(1);
            rep.transitions(1);
        }
        rep.group("wind runs", 1);
        let _ = std::fs::remove_file(hist);
    });
    rep.sample(json!({"case": "disk/e=1/i=1/f=3/a=0/q=1/t=2/edge=1/swap=1"}));
    rep.sample(json!({"case": "wind-run/ias15/others=0/rate=2/host=1/who=0", "oracle": "analytic spin-down through the saturation switch"}));
}

// ------------------------------------------------------------------------------------------------ shared
/// Everything observable of each body after an evaluation.
fn observables(u: &Universe) -> Vec<[V3; 10]> {
    let g = got(u);
    (0..u.n_particles)
        .map(|i| {
            let p = &u.particles[i];
            [g.add[i], g.tor[i], g.t_acc[i], g.t_tor[i], g.f_acc[i], g.f_tor[i], g.g_acc[i], g.d_acc[i], [p.radius, p.radius_of_gyration_2, 0.], v3(p.spin)]
        })
        .collect()
}
const OBS: [&str; 10] = ["additional acceleration", "torque", "tidal acceleration", "tidal torque", "flattening acceleration", "flattening torque", "relativistic acceleration", "disk acceleration", "radius/gyration", "spin"];

fn bits(v: V3) -> [u64; 3] {
    // negative zero equals zero
    [(v[0] + 0.).to_bits(), (v[1] + 0.).to_bits(), (v[2] + 0.).to_bits()]
}

fn same_obs(rep: &Rep, key: &str, what: &str, a: &[[V3; 10]], b: &[[V3; 10]], which: &[usize]) -> bool {
    for i in 0..a.len() {
        for &k in which {
            if bits(a[i][k]) != bits(b[i][k]) {
                rep.violation(key, &format!("{}: {} of body {} is {:?} instead of {:?}", what, OBS[k], i, a[i][k], b[i][k]));
                return false;
            }
        }
    }
    true
}

/// Trajectory of n steps as raw numbers.
fn run(s: &Sys, int: Int, dt: f64, steps: usize, scratch: &std::path::Path) -> Result<Vec<Vec<[V3; 4]>>, String> {
    run_t(s, int, dt, steps, scratch).map(|v| v.into_iter().map(|x| x.1).collect())
}
fn run_t(s: &Sys, int: Int, dt: f64, steps: usize, scratch: &std::path::Path) -> Result<Vec<(f64, Vec<[V3; 4]>)>, String> {
    let mut sm = sim(int, dt, 1e9, 1e9, guard(|| build(s))?);
    guard(|| sm.as_dyn().initialize_physical_values())?;
    let mut w = crate::c_state::writer(scratch);
    let mut out = vec![];
    for _ in 0..steps {
        let _ = guard(|| sm.as_dyn().iterate(&mut w, true))?;
        let u = sm.uni();
        out.push((
            sm.time(),
            u.particles[..u.n_particles].iter().map(|p| [v3(p.inertial_position), v3(p.inertial_velocity), v3(p.angular_momentum), [p.radius, p.radius_of_gyration_2, 0.]]).collect(),
        ));
    }
    let _ = std::fs::remove_file(scratch);
    Ok(out)
}

// ------------------------------------------------------------------------------------------------ P11
pub const P11_RULE: &str = "every subset of the six effects x tidal model x relativity formulation x evolution model, bodies carrying parameters of everything: outputs of every effect compared bit for bit with the system in which the switched-off effects are not configured at all, and with each effect alone (additivity); the same for trajectories of every integrator; every effect without host; every participation subset of every effect: exactly zero for non-participants and same forces as with those bodies' parameters changed or the bodies absent (effects between host and planet).";
pub const P11_ASSUME: &[&str] = &["additivity judged to 1e-12 of the magnitudes involved", "in full N-body relativity a body that does not take part still acts as a source of gravity for the others"];

/// Removes from the bodies everything that concerns the effects not in `eff`.
fn strip(s: &Sys, eff: [bool; 6]) -> Sys {
    let mut t = s.clone();
    for b in t.bodies.iter_mut() {
        if !eff[TIDES] {
            b.tides = Role::None;
        }
        if !eff[FLAT] {
            b.flat = Role::None;
        }
        if !eff[GR] {
            b.gr = Role::None;
        }
        if !eff[DISK] {
            b.disk = Role::None;
        }
        if !eff[WIND] {
            b.wind = None;
        }
        if !eff[EVO] {
            b.evo = EvolutionType::NonEvolving;
        }
    }
    t
}

fn p11_systems(thorough: bool) -> Vec<(String, Sys)> {
    let mut v = vec![];
    for n in if thorough { vec![2usize, 3, 4, 10] } else { vec![3, 10] } {
        for m in 0..64usize {
            for model in 0..3usize {
                for g in 1..4u8 {
                    if g > 1 && m >> GR & 1 == 0 {
                        continue;
                    }
                    for e in if model == 0 { vec![1usize, 2, 3, 4, 5, 6, 7] } else { vec![1usize] } {
                        if e > 1 && (g > 1 && !thorough || n == 10) {
                            continue;
                        }
                        let eff = eff_mask(m);
                        let mut s = evolve_host(with_model(n, eff, model), e);
                        s.gr_impl = g;
                        v.push((format!("n{}/{}/{}/{}/gr{}", n, MODELS[model], eff_name(eff), EVOS[e].0, g), s));
                    }
                }
            }
        }
    }
    v
}

pub fn p11(rep: &Rep) {
    let all: Vec<usize> = (0..10).collect();
    let sy = p11_systems(rep.thorough);
    par(rep, sy.len(), |c| {
        let (name, s) = &sy[c];
        if !rep.want(name) {
            return;
        }
        let t = 2.3;
        for (hostpos, perm) in [(0usize, vec![0usize, 1, 2, 3]), (1, vec![1, 0, 2, 3])] {
            let perm: Vec<usize> = perm.into_iter().filter(|&i| i < s.bodies.len()).collect();
            let s = permute(s, &perm);
            let key = format!("mask/{}/host={}", name, hostpos);
            let full = fresh(&s, t, IgnoreGravityTerms::None);
            let bare = fresh(&strip(&s, s.eff), t, IgnoreGravityTerms::None);
            same_obs(rep, &key, "with unused parameters configured", &observables(&full), &observables(&bare), &all);
            // additivity
            let g = got(&full);
            let n = s.bodies.len();
            let mut sum_a = vec![[0.; 3]; n];
            let mut sum_t = vec![[0.; 3]; n];
            let mut sc = vec![(0., 0.); n];
            for k in 0..5 {
                if !s.eff[k] {
                    continue;
                }
                let mut e1 = [false; 6];
                e1[k] = true;
                e1[EVO] = s.eff[EVO];
                let mut alone = s.clone();
                alone.eff = e1;
                let a = got(&fresh(&alone, t, IgnoreGravityTerms::None));
                for i in 0..n {
                    sum_a[i] = add(sum_a[i], a.add[i]);
                    sum_t[i] = add(sum_t[i], a.tor[i]);
                    sc[i].0 += norm(a.add[i]);
                    sc[i].1 += norm(a.tor[i]);
                }
                rep.transitions(1);
            }
            for i in 0..n {
                vclose(rep, "sum of separate accelerations", &key, g.add[i], sum_a[i], sc[i].0, 1e-12);
                vclose(rep, "sum of separate torques", &key, g.tor[i], sum_t[i], sc[i].1, 1e-12);
            }
            rep.states(1);
            rep.transitions(2);
        }
        rep.group("effect subsets", 1);
    });
    // trajectories
    let sy: Vec<(String, Sys)> = sy.into_iter().filter(|(n, _)| n.starts_with("n3") || rep.thorough).collect();
    par(rep, sy.len() * 5, |c| {
        let (name, s) = &sy[c / 5];
        let int = INTS[c % 5];
        let key = format!("run/{}/{}", int_name(int), name);
        if !rep.want(&key) {
            return;
        }
        let f = rep.scratch.join(format!("p11.{}", c));
        let steps = if rep.thorough { 60 } else { 4 };
        let a = run(s, int, 0.05, steps, &f);
        let b = run(&strip(s, s.eff), int, 0.05, steps, &f);
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let ok = a.iter().flatten().flatten().zip(b.iter().flatten().flatten()).all(|(x, y)| bits(*x) == bits(*y));
                rep.check(&key, ok, || "the trajectory changes with parameters of switched-off effects".into());
            }
            (a, b) => {
                rep.violation(&key, &format!("stopped: {:?} {:?}", a.err(), b.err()));
            }
        }
        rep.states(2 * steps as u64);
        rep.transitions(2 * steps as u64);
        rep.group("trajectories", 1);
    });
    // effects without host are switched off
    let radix = [32usize, 32, 3, 5];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        // d[0]: enabled effects; d[1]: effects whose host is missing
        if d[0] & d[1] == 0 || d[1] & !d[0] != 0 {
            return;
        }
        let key = format!("nohost/eff={:05b}/missing={:05b}/{}/{}", d[0], d[1], MODELS[d[2]], int_name(INTS[d[3]]));
        if !rep.want(&key) || d[1] >> WIND & 1 == 1 {
            return; // the wind has no host
        }
        let mut eff = eff_mask(d[0]);
        let mut s = with_model(3, eff, d[2]);
        // tides and flattening share the host: one is missing only if the other is also off
        for b in s.bodies.iter_mut() {
            if d[1] & 1 > 0 && b.tides == Role::Host {
                b.tides = Role::None;
            }
            if d[1] & 2 > 0 && b.flat == Role::Host {
                b.flat = Role::None;
            }
            if d[1] & 4 > 0 && b.gr == Role::Host {
                b.gr = Role::None;
            }
            if d[1] & 8 > 0 && b.disk == Role::Host {
                b.disk = Role::None;
            }
        }
        for k in 0..4 {
            if d[1] >> k & 1 == 1 {
                eff[k] = false;
            }
        }
        let mut off = s.clone();
        off.eff = eff;
        let (u, v) = match (guard(|| fresh(&s, 1.0, IgnoreGravityTerms::None)), guard(|| fresh(&off, 1.0, IgnoreGravityTerms::None))) {
            (Ok(u), Ok(v)) => (u, v),
            (a, b) => {
                rep.violation(&key, &format!("stopped: {:?} {:?}", a.err(), b.err()));
                return;
            }
        };
        same_obs(rep, &key, "an effect without host", &observables(&u), &observables(&v), &all);
        let f = rep.scratch.join(format!("p11n.{}", c));
        if d[2] == 0 || rep.thorough {
            match (run(&s, INTS[d[3]], 0.05, 3, &f), run(&off, INTS[d[3]], 0.05, 3, &f)) {
                (Ok(a), Ok(b)) => {
                    let ok = a.iter().flatten().flatten().zip(b.iter().flatten().flatten()).all(|(x, y)| bits(*x) == bits(*y));
                    rep.check(&key, ok, || "an effect without host changes the trajectory".into());
                }
                (a, b) => {
                    rep.violation(&key, &format!("stopped: {:?} {:?}", a.err(), b.err()));
                }
            }
        }
        rep.states(4);
        rep.transitions(4);
        rep.group("missing hosts", 1);
    });
    // non-participants
    let n = 4;
    let pm = perms(n);
    let radix = [5usize, 3, n, 8, pm.len()];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let (effect, model, host, mask) = (d[0], d[1], d[2], d[3]);
        if effect == WIND && (host != 0 || model != 0) || (effect == GR && host != 0) || (effect >= GR && model > 0 && effect != GR) {
            return;
        }
        let key = format!("roles/effect={}/{}/host={}/part={:b}/order={}", ["T", "F", "G", "D", "W"][effect], if effect == GR { format!("gr{}", model + 1) } else { MODELS[model].to_string() }, host, mask, d[4]);
        if !rep.want(&key) {
            return;
        }
        let mut eff = [false; 6];
        eff[effect] = true;
        let mut s = if effect == GR { compact(n, eff) } else { modelled(n, eff, model) };
        if effect == GR {
            s.gr_impl = model as u8 + 1;
        }
        if effect <= FLAT && !bound_roles(model, eff, host, mask, mask) {
            return;
        }
        let mut part = vec![false; n];
        let mut k = 0;
        for i in 0..n {
            if i == host {
                part[i] = true;
            } else {
                part[i] = mask >> k & 1 == 1;
                k += 1;
            }
        }
        if effect == WIND {
            part[0] = d[4] % 2 == 0;
        }
        for i in 0..n {
            let r = if i == host { Role::Host } else if part[i] { Role::Orbit } else { Role::None };
            let b = &mut s.bodies[i];
            match effect {
                0 => b.tides = r,
                1 => b.flat = r,
                2 => b.gr = r,
                3 => b.disk = r,
                _ => b.wind = if part[i] { Some((1e-12 * (i + 1) as f64, 2.5)) } else { None },
            }
            if effect == TIDES && i == host {
                if let TM::Kaula { .. } = b.tm {
                    b.tm = TM::Kaula { kind: 1 };
                }
            }
        }
        let perm = &pm[d[4]];
        let sp = permute(&s, perm);
        let u = match guard(|| fresh(&sp, 1.5, IgnoreGravityTerms::None)) {
            Ok(u) => u,
            Err(e) => {
                rep.violation(&key, &format!("a valid configuration stopped: {}", e));
                return;
            }
        };
        let g = got(&u);
        for (i, &b) in perm.iter().enumerate() {
            if !part[b] {
                rep.check(&key, norm(g.add[i]) == 0. && norm(g.tor[i]) == 0., || format!("body {} does not take part but feels {:?} / {:?}", b, g.add[i], g.tor[i]));
            }
        }
        // absent bodies: same forces between those that take part (not for N-body relativity)
        if !(effect == GR && model >= 1) && part.iter().any(|&p| !p) {
            // keep the most massive body (it defines the frame the code works in, not the physics)
            let keep: Vec<usize> = perm.iter().copied().filter(|&b| part[b] || b == 0).collect();
            if keep.len() >= 2 && keep.len() < n {
                let red = permute(&s, &keep);
                let v = fresh(&red, 1.5, IgnoreGravityTerms::None);
                let h = got(&v);
                let ns = g.add.iter().map(|x| norm(*x)).fold(0., f64::max);
                for (j, b) in keep.iter().enumerate() {
                    let i = perm.iter().position(|x| x == b).unwrap();
                    vclose(rep, "forces without the bystanders", &key, g.add[i], h.add[j], norm(h.add[j]) + 1e-6 * ns, 1e-9);
                    vclose(rep, "torques without the bystanders", &key, g.tor[i], h.tor[j], norm(h.tor[j]) + norm(h.t_tor[j]), 1e-9);
                }
            }
        }
        rep.states(2);
        rep.transitions(2);
        rep.group("participation subsets", 1);
    });
    rep.sample(json!({"case": "mask/n3/ctl/TGW/Baraffe2015/gr2/host=1"}));
    rep.sample(json!({"case": "roles/effect=T/kaula/host=0/part=101/order=9"}));
}

/// Systems whose tidal/flattening and disk hosts are any of the bodies.
fn other_hosts(n: usize) -> Vec<(String, Sys)> {
    let mut v = vec![];
    for m in 0..32usize {
        let eff = eff_mask(m);
        for th in 0..n {
            for dh in 0..n {
                if (th == 0 && dh == 0) || (th > 0 && !eff[TIDES] && !eff[FLAT]) || (dh > 0 && !eff[DISK]) {
                    continue;
                }
                let mut s = compact(n, eff);
                s.gr_impl = 1 + (m + th) as u8 % 3;
                roles(&mut s, th, 255, 255, dh, 255);
                v.push((format!("{}/tidal-host={}/disk-host={}", eff_name(eff), th, dh), s));
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------ P12
pub const P12_RULE: &str = "all permutations of 2..4 (thorough: 6) bodies and, with 10, every rotation, every place of the host and the reversal x every subset of effects x tidal model x relativity formulation x evolution: accelerations, torques, evolving quantities per body; trajectories under all permutations of 3 bodies for the symmetric methods (IAS15, leapfrog, democratic heliocentric, WHDS) and under every place of the host for Jacobi coordinates.";
pub const P12_ASSUME: &[&str] = &["rounding allowance 1e-11 of the magnitudes (forces); trajectories 1e-9 relative, adaptive steps 1e-7"];

/// Only the place of the most massive body changes, the others keep their relative order.
fn keeps_planets(perm: &[usize]) -> bool {
    let v: Vec<usize> = perm.iter().cloned().filter(|&x| x != 0).collect();
    v.windows(2).all(|w| w[0] < w[1])
}
pub fn p12(rep: &Rep) {
    let ns: Vec<usize> = if rep.thorough { vec![2, 3, 4, 5, 6, 7, 10] } else { vec![2, 3, 4, 10] };
    for &n in &ns {
        let pm = if n <= 6 {
            perms(n)
        } else {
            // every place of the host, every rotation of the list, the list reversed
            let mut v: Vec<Vec<usize>> = (0..n).map(|k| { let mut p: Vec<usize> = (1..n).collect(); p.insert(k, 0); p }).collect();
            v.extend((1..n).map(|r| (0..n).map(|i| (i + r) % n).collect::<Vec<_>>()));
            v.push((0..n).rev().collect());
            v
        };
        let mut sy = vec![];
        for m in 0..64usize {
            for model in 0..3usize {
                for g in 1..4u8 {
                    if (g > 1 && m >> GR & 1 == 0) || (n == 4 && m & 0b100000 != 0 && model > 0) || ((n == 5 || n == 6) && (model > 0 || g > 1)) || (n > 5 && model > 0 && g > 1) {
                        continue;
                    }
                    let eff = eff_mask(m);
                    let e = if eff[EVO] { [1usize, 4, 5, 7][(m + g as usize) % 4] } else { 0 };
                    let e = if model > 0 && eff[EVO] { 1 } else { e };
                    let mut s = evolve_host(with_model(n, eff, model), e);
                    s.gr_impl = g;
                    if eff[EVO] && n > 2 && model == 0 && (e == 4 || e == 7) {
                        { s.bodies[1].evo = EVOS[7].1; s.bodies[1].mass *= 60.; }
                    }
                    sy.push((format!("n{}/{}/{}/{}/gr{}", n, MODELS[model], eff_name(eff), EVOS[e].0, g), s));
                }
            }
        }
        if n == 3 {
            sy.extend(other_hosts(n));
        }
        par(rep, sy.len(), |c| {
            let (name, s) = &sy[c];
            if !rep.want(&format!("force/{}", name)) {
                return;
            }
            let base = observables(&fresh(s, 2.3, IgnoreGravityTerms::None));
            let biggest = |k: usize| base.iter().map(|o| norm(o[k])).fold(0., f64::max);
            for (q, perm) in pm.iter().enumerate() {
                let key = format!("force/{}/order={}", name, q);
                if s.gr_impl == GR_ANDERSON && s.eff[GR] && !keeps_planets(perm) {
                    continue; // Jacobi coordinates in the order of the list, by definition
                }
                let mut u = fresh(&permute(s, perm), 2.3, IgnoreGravityTerms::None);
                let o = observables(&u);
                for (i, &b) in perm.iter().enumerate() {
                    for k in 0..10 {
                        // a host collects opposite contributions: relative to the largest
                        vclose(rep, OBS[k], &key, o[i][k], base[b][k], norm(base[b][k]) + if k < 8 { 1e-3 * biggest(k) } else { 0. }, 1e-11);
                    }
                }
                u.gravity_calculate_acceleration(IgnoreGravityTerms::None);
                rep.states(1);
                rep.transitions(1);
            }
            rep.group("force systems", 1);
        });
    }
    // trajectories
    let n = 3;
    let pm = perms(n);
    let mut sy = vec![];
    for m in 0..64usize {
        for model in 0..3usize {
            let eff = eff_mask(m);
            if model > 0 && (eff[EVO] || eff[GR] || !eff[TIDES]) {
                continue;
            }
            let mut s = evolve_host(with_model(n, eff, model), if eff[EVO] { 1 + m / 2 % 7 } else { 0 });
            s.gr_impl = 1 + (m / 4 % 3) as u8;
            sy.push((format!("{}/{}", MODELS[model], eff_name(eff)), s));
        }
    }
    sy.extend(other_hosts(n));
    par(rep, sy.len() * 5, |c| {
        let (name, s) = &sy[c / 5];
        let int = INTS[c % 5];
        if !rep.want(&format!("run/{}/{}", int_name(int), name)) {
            return;
        }
        let f = rep.scratch.join(format!("p12.{}", c));
        let steps = if rep.thorough { 200 } else { 8 };
        let base = run_t(s, int, 0.05, steps, &f).unwrap();
        for (q, perm) in pm.iter().enumerate() {
            if (int == Int::Jacobi || (s.gr_impl == GR_ANDERSON && s.eff[GR])) && !keeps_planets(perm) {
                continue;
            }
            let key = format!("run/{}/{}/order={}", int_name(int), name, q);
            let r = match run_t(&permute(s, perm), int, 0.05, steps, &f) {
                Ok(r) => r,
                Err(e) => {
                    rep.violation(&key, &format!("stopped: {}", e));
                    continue;
                }
            };
            let tol = if int == Int::Ias15 { 1e-7 } else { 1e-9 };
            for k in 0..steps {
                if int == Int::Ias15 && (r[k].0 / base[k].0 - 1.).abs() > 1e-9 {
                    // rounding may change the number of predictor-corrector iterations: the step sizes then differ
                    rep.close("adaptive step", &key, r[k].0 / base[k].0, 1., 0.3);
                    break;
                }
                for (i, &b) in perm.iter().enumerate() {
                    for (x, what) in ["position", "velocity", "spin angular momentum", "radius/gyration"].iter().enumerate() {
                        vclose(rep, &format!("trajectory {} ({})", what, if int == Int::Ias15 { "adaptive" } else { "fixed step" }), &key, r[k].1[i][x], base[k].1[b][x], norm(base[k].1[b][x]) + if b == 0 { 1e-3 * norm(base[k].1[1][x]) } else { 0. }, tol);
                    }
                }
            }
            rep.states(steps as u64);
            rep.transitions(steps as u64);
            rep.group(int_name(int), 1);
        }
    });
    rep.sample(json!({"case": "force/n4/creep/TFDW/none/gr1/order=17"}));
}

// ------------------------------------------------------------------------------------------------ P13
pub const P13_RULE: &str = "all 24 rotations that map the axes onto each other plus 4 generic rotations x {no offset, position offset, velocity offset, both} x every subset of effects x relativity formulation (disk, creep and Kaula: the rotations about the reference axis): accelerations, torques, spins; trajectories of every integrator under the same group.";
pub const P13_ASSUME: &[&str] = &["rounding allowance 1e-10 of the magnitudes (offsets cost digits); trajectories 1e-8, adaptive steps 1e-6"];

type M3 = [V3; 3];
fn rot(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
fn rz(t: f64) -> M3 {
    [[t.cos(), -t.sin(), 0.], [t.sin(), t.cos(), 0.], [0., 0., 1.]]
}
fn matmul(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
fn rx(t: f64) -> M3 {
    [[1., 0., 0.], [0., t.cos(), -t.sin()], [0., t.sin(), t.cos()]]
}
pub fn cube_rotations() -> Vec<M3> {
    let mut v = vec![];
    for p in perms(3) {
        for s in 0..8 {
            let mut m = [[0.; 3]; 3];
            for i in 0..3 {
                m[i][p[i]] = if s >> i & 1 == 1 { -1. } else { 1. };
            }
            let det = dot(m[0], cross(m[1], m[2]));
            if det > 0. {
                v.push(m);
            }
        }
    }
    v
}
fn rotate_sys(s: &Sys, m: &M3, off: (V3, V3)) -> Sys {
    let mut t = s.clone();
    for b in t.bodies.iter_mut() {
        b.pos = add(rot(m, b.pos), off.0);
        b.vel = add(rot(m, b.vel), off.1);
        b.spin = rot(m, b.spin);
    }
    t
}
fn is_z(m: &M3) -> bool {
    (m[2][2] - 1.).abs() < 1e-15
}

pub fn p13(rep: &Rep) {
    let mut rots = cube_rotations();
    rots.push(rz(0.83));
    rots.push(matmul(&rz(0.4), &matmul(&rx(1.1), &rz(2.0))));
    rots.push(matmul(&rz(-2.2), &matmul(&rx(2.9), &rz(0.3))));
    rots.push(rx(PI / 2. + 1e-3));
    let offs: [(V3, V3); 4] = [([0.; 3], [0.; 3]), ([0.7, -1.3, 0.4], [0.; 3]), ([0.; 3], [0.02, 0.05, -0.03]), ([-0.3, 0.2, 0.9], [-0.01, 0.04, 0.02])];
    let mut sy = vec![];
    for m in 0..64usize {
        for model in 0..3usize {
            for g in 1..4u8 {
                let eff = eff_mask(m);
                if (g > 1 && !eff[GR]) || (model > 0 && !eff[TIDES] && !eff[FLAT]) {
                    continue;
                }
                let e = if !eff[EVO] { 0 } else if model > 0 { 1 } else { [1usize, 4, 5, 7][(m + g as usize) % 4] };
                let mut s = evolve_host(with_model(3, eff, model), e);
                s.gr_impl = g;
                sy.push((format!("{}/{}/{}/gr{}", MODELS[model], eff_name(eff), EVOS[e].0, g), s, model > 0 || eff[DISK]));
            }
        }
    }
    for (name, s) in other_hosts(3) {
        let z = s.eff[DISK];
        sy.push((name, s, z));
    }
    par(rep, sy.len(), |c| {
        let (name, s, zonly) = &sy[c];
        if !rep.want(&format!("force/{}", name)) {
            return;
        }
        for hp in 0..3 {
            let mut perm = vec![1, 2];
            perm.insert(hp, 0);
            let s = permute(s, &perm);
            let base = observables(&fresh(&s, 2.3, IgnoreGravityTerms::None));
            for (r, m) in rots.iter().enumerate() {
                if *zonly && !is_z(m) {
                    continue;
                }
                for (q, off) in offs.iter().enumerate() {
                    let key = format!("force/{}/host={}/rot={}/off={}", name, hp, r, q);
                    let o = observables(&fresh(&rotate_sys(&s, m, *off), 2.3, IgnoreGravityTerms::None));
                    let biggest = |k: usize| base.iter().map(|o| norm(o[k])).fold(0., f64::max);
                    for i in 0..3 {
                        for k in 0..10 {
                            let want = if k == 8 { base[i][k] } else { rot(m, base[i][k]) };
                            vclose(rep, OBS[k], &key, o[i][k], want, norm(want) + if k < 8 { 1e-2 * biggest(k) } else { 0. }, 1e-10);
                        }
                    }
                    rep.states(1);
                    rep.transitions(1);
                }
            }
        }
        rep.group("force systems", 1);
    });
    let sy: Vec<_> = sy.into_iter().filter(|x| rep.thorough || !x.0.contains("gr2")).collect();
    par(rep, sy.len() * 5, |c| {
        let (name, s, zonly) = &sy[c / 5];
        let int = INTS[c % 5];
        if !rep.want(&format!("run/{}/{}", int_name(int), name)) {
            return;
        }
        let f = rep.scratch.join(format!("p13.{}", c));
        let steps = if rep.thorough { 200 } else { 5 };
        let hp = (c / 5) % 3;
        let mut perm = vec![1, 2];
        perm.insert(hp, 0);
        let s = permute(s, &perm);
        let base = run_t(&s, int, 0.05, steps, &f).unwrap();
        for (r, m) in rots.iter().enumerate() {
            if *zonly && !is_z(m) {
                continue;
            }
            let q = (r + c) % 4;
            let key = format!("run/{}/{}/rot={}/off={}", int_name(int), name, r, q);
            let o = match run_t(&rotate_sys(&s, m, offs[q]), int, 0.05, steps, &f) {
                Ok(o) => o,
                Err(e) => {
                    rep.violation(&key, &format!("stopped: {}", e));
                    continue;
                }
            };
            let ada = int == Int::Ias15;
            for k in 0..steps {
                if ada && (o[k].0 / base[k].0 - 1.).abs() > 1e-9 {
                    // the adaptive criterion looks at the largest component, which depends on the axes: compare the motion itself
                    break;
                }
                for i in 0..3 {
                    for x in 0..3 {
                        let want = rot(m, base[k].1[i][x]);
                        let sc = norm(want) + 1e-2 * base[k].1.iter().map(|b| norm(b[x])).fold(0., f64::max);
                        vclose(rep, &format!("trajectory {} ({})", ["position", "velocity", "spin angular momentum"][x], if ada { "adaptive" } else { "fixed step" }), &key, o[k].1[i][x], want, sc, if ada { 1e-6 } else { 1e-8 });
                    }
                }
            }
            rep.states(steps as u64);
            rep.transitions(steps as u64);
            rep.group(int_name(int), 1);
        }
    });
    rep.sample(json!({"case": "force/ctl/TFGW/none/gr3/host=2/rot=25/off=3"}));
}

// ------------------------------------------------------------------------------------------------ P19
pub const P19_RULE: &str = "alphabet of operations on a live system: load one of 4 states (positions, velocities, spin angular momenta, time: including collinear, retrograde spin, after and before the initial time of the tables) and evaluate {everything, torques only, accelerations only, gravity in 3 modes, energy rate}; every operation sequence of length up to 2 (thorough: 3), followed by loading and evaluating each state, compared bit for bit with the same evaluation on a fresh system, for every subset of effects x tidal model x relativity formulation x evolution model.";
pub const P19_ASSUME: &[&str] = &["evaluations asked without updating evolving quantities use those of the previous evaluation by definition and are used only as prefixes"];

struct Load {
    t: f64,
    pv: Vec<(V3, V3)>,
    am: Vec<V3>,
}
fn loads(s: &Sys, coplanar: bool) -> Vec<Load> {
    let u = build(s);
    let n = s.bodies.len();
    let mut v = vec![];
    for k in 0..4 {
        let mut pv = vec![];
        let mut am = vec![];
        for i in 0..n {
            let p = &u.particles[i];
            let (x, y) = (v3(p.inertial_position), v3(p.inertial_velocity));
            let m = rz(0.9 * k as f64);
            let grow = 1. + 0.07 * k as f64;
            pv.push((mul(rot(&m, x), grow), mul(rot(&m, y), 1. / grow.sqrt() * (1. - 0.03 * k as f64))));
            let l = v3(p.angular_momentum);
            am.push(match k {
                0 => l,
                1 => mul(l, if i == 0 { 3.7 } else { 0.4 }),
                2 if coplanar => mul(l, 1.9),
                2 => rot(&rx(1.9), mul(l, if i == 0 { 0.1 } else { 1.2 })),
                _ => mul(l, if i == 0 { 0.2 } else { 5.0 }),
            });
        }
        v.push(Load { t: [0.0, 3.1, 0.45, 40.0][k], pv, am });
    }
    v
}
fn set(u: &mut Universe, l: &Load) {
    for (i, p) in u.particles[..u.n_particles].iter_mut().enumerate() {
        p.inertial_position = ax(l.pv[i].0);
        p.inertial_velocity = ax(l.pv[i].1);
        p.angular_momentum = ax(l.am[i]);
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Full(usize),
    Torque(usize),
    Acc(usize),
    NoEvo(usize),
    Gravity(usize, usize),
    Heat,
}
fn apply(u: &mut Universe, ls: &[Load], op: Op) {
    match op {
        Op::Full(k) | Op::Torque(k) | Op::Acc(k) | Op::NoEvo(k) => {
            set(u, &ls[k]);
            u.inertial_to_heliocentric();
            let (e, d, a) = match op {
                Op::Full(_) => (true, true, true),
                Op::Torque(_) => (true, true, false),
                Op::Acc(_) => (true, false, true),
                _ => (false, true, true),
            };
            u.calculate_additional_effects(ls[k].t, e, d, a, IgnoreGravityTerms::None);
        }
        Op::Gravity(k, m) => {
            set(u, &ls[k]);
            u.gravity_calculate_acceleration(MODES[m]);
        }
        Op::Heat => u.calculate_denergy_dt(),
    }
}

pub fn p19(rep: &Rep) {
    let mut sy = vec![];
    for m in 0..64usize {
        for model in 0..3usize {
            for g in 1..4u8 {
                let eff = eff_mask(m);
                if (g > 1 && !eff[GR]) || (model > 0 && !eff[TIDES] && !eff[FLAT]) {
                    continue;
                }
                if !rep.thorough && model > 0 && (g > 1 || eff[WIND]) {
                    continue;
                }
                for e in if !eff[EVO] { vec![0usize] } else if model > 0 { vec![1] } else { (1..8).collect() } {
                    if !rep.thorough && e > 1 && (g > 1 || eff[WIND] || eff[DISK]) {
                        continue;
                    }
                    let mut s = evolve_host(with_model(3, eff, model), e);
                    s.gr_impl = g;
                    if e > 3 {
                        { s.bodies[1].evo = EVOS[7].1; s.bodies[1].mass *= 60.; } // an evolving planet with its own dynamical tide
                    }
                    // every second system lists the host in the middle
                    let s = if m % 2 == 1 { permute(&s, &[1, 0, 2]) } else { s };
                    sy.push((format!("{}/{}/{}/gr{}", MODELS[model], eff_name(eff), EVOS[e].0, g), s, model));
                }
            }
        }
    }
    rep.group("systems", sy.len() as u64);
    let depth = if rep.thorough { 3 } else { 2 };
    par(rep, sy.len(), |c| {
        let (name, s, model) = &sy[c];
        if !rep.want(name) {
            return;
        }
        let ls = loads(s, *model > 0);
        let mut base = build(s);
        base.calculate_roche_radiuses();
        let mut ops = vec![Op::Gravity(1, 0), Op::Gravity(2, 2), Op::NoEvo(3), Op::NoEvo(0)];
        for k in 0..4 {
            ops.push(Op::Full(k));
            ops.push(Op::Torque(k));
            ops.push(Op::Acc(k));
        }
        if s.eff[TIDES] {
            ops.push(Op::Heat);
        }
        // fresh answers
        let finals: Vec<Op> = (0..4).flat_map(|k| [Op::Full(k), Op::Torque(k), Op::Acc(k)]).collect();
        let want: Vec<(Vec<[V3; 10]>, Vec<f64>)> = finals
            .iter()
            .map(|&f| {
                let mut u = copy_universe(&base);
                apply(&mut u, &ls, f);
                heat(&mut u, f)
            })
            .collect();
        let mut n = 0u64;
        // all prefixes of length 1..=depth; the final evaluations run one after another on the same live system, which
        // adds further histories
        let total = ops.len() + ops.len().pow(2) + if depth > 2 { ops.len().pow(3) } else { 0 };
        for q in 0..total {
            let mut seq = vec![];
            let (mut r, mut len) = (q, 1);
            while r >= ops.len().pow(len) {
                r -= ops.len().pow(len);
                len += 1;
            }
            for _ in 0..len {
                seq.push(ops[r % ops.len()]);
                r /= ops.len();
            }
            let mut u = copy_universe(&base);
            for &o in &seq {
                apply(&mut u, &ls, o);
                n += 1;
            }
            // rotate the order in which the final evaluations are visited so that each also comes right after the prefix
            for j in 0..finals.len() {
                let i = (j + q) % finals.len();
                apply(&mut u, &ls, finals[i]);
                n += 1;
                let (o, h) = heat(&mut u, finals[i]);
                let key = format!("{}/after={:?}/then={:?}", name, seq, &finals[i]);
                let which: &[usize] = match finals[i] {
                    Op::Torque(_) => &[1, 8, 9],
                    Op::Acc(_) => &[0, 8, 9],
                    _ => &[0, 1, 8, 9],
                };
                if !same_obs(rep, &key, "after other evaluations", &o, &want[i].0, which) {
                    return;
                }
                if h.iter().zip(&want[i].1).any(|(a, b)| (a + 0.).to_bits() != (b + 0.).to_bits()) {
                    rep.violation(&key, &format!("energy rate {:?} instead of {:?}", h, want[i].1));
                    return;
                }
            }
            rep.traces(1);
        }
        rep.states(n);
        rep.transitions(n);
    });
    rep.sample(json!({"case": "ctl/TFE/BolmontMathis2016/gr1/after=[Full(1), Acc(3)]/then=Full(2)"}));
}
fn heat(u: &mut Universe, f: Op) -> (Vec<[V3; 10]>, Vec<f64>) {
    let o = observables(u);
    let h = match f {
        Op::Full(_) => {
            if u.consider_effects.tides {
                u.calculate_denergy_dt();
            }
            u.particles[..u.n_particles].iter().map(|p| p.tides.parameters.internal.denergy_dt).collect()
        }
        _ => vec![],
    };
    (o, h)
}
