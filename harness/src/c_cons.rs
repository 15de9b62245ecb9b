//! P31: conserved quantities of whole systems over long runs of conservative forces.
use crate::c_force::{pair, permute};
use crate::c_state::*;
use crate::refm::*;
use crate::sys::*;
use crate::util::*;
use serde_json::json;
use std::f64::consts::PI;

pub const P31_RULE: &str = "runs of the real simulator over 20 (thorough: 60) orbits of the innermost planet for every integrator and coordinate system x number of bodies x {gravity, bulges without lag, rotational flattening, both, relativity of Newhall et al.} x place of the host in the list x every other planet taking part or all, and of pairs over 6 (thorough: 10) orbits x eccentricity x mass ratio x orientation x spins, each with a step and with half of it; after every step the total energy (kinetic, Newtonian, of the bulges each body raises on the other, of the flattened bodies, first post-Newtonian of every pair and triple), the total angular momentum with the spins, the centre of mass and the spin rates are compared with their initial values: they stay within bounds that shrink with the step as the method promises, and do not wander from the first to the last part of the run.";
pub const P31_ASSUME: &[&str] = &["bulges and flattening act between the host and each planet, not between planets (as documented)", "compact planetary systems without close encounters"];

struct Q {
    e: f64,
    l: V3,
    x: V3,
    v: V3,
    s: Vec<f64>,
}

/// Conserved quantities; `s` gives masses, radii and Love numbers, `h` is the host.
fn look(s: &Sys, h: usize, sm: &Sim) -> Q {
    let u = sm.uni();
    let n = s.bodies.len();
    let pos: Vec<V3> = (0..n).map(|i| v3(u.particles[i].inertial_position)).collect();
    let vel: Vec<V3> = (0..n).map(|i| v3(u.particles[i].inertial_velocity)).collect();
    let spin: Vec<V3> = (0..n).map(|i| v3(u.particles[i].spin)).collect();
    let (mut e, mut l, mut x, mut v, mut m) = (0., [0.; 3], [0.; 3], [0.; 3], 0.);
    for i in 0..n {
        let b = &s.bodies[i];
        e += 0.5 * b.mass * dot(vel[i], vel[i]);
        l = add(l, mul(cross(pos[i], vel[i]), b.mass));
        l = add(l, mul(spin[i], b.mass * b.rg * b.rg * b.radius * b.radius));
        x = add(x, mul(pos[i], b.mass));
        v = add(v, mul(vel[i], b.mass));
        m += b.mass;
        for j in 0..i {
            e -= C_G * b.mass * s.bodies[j].mass / norm(sub(pos[i], pos[j]));
        }
    }
    for i in (0..n).filter(|&i| i != h) {
        let d = sub(pos[i], pos[h]);
        let r = norm(d);
        for (a, o) in [(h, i), (i, h)] {
            let (b, mo) = (&s.bodies[a], s.bodies[o].mass);
            let takes = |r: Role| !matches!(r, Role::None);
            if s.eff[TIDES] && takes(s.bodies[i].tides) {
                if let TM::Ctl { k2, .. } = b.tm {
                    e -= 0.5 * C_G * mo * mo * k2 * b.radius.powi(5) / r.powi(6);
                }
            }
            if s.eff[FLAT] && takes(s.bodies[i].flat) {
                let w = dot(spin[a], spin[a]);
                let c = dot(d, spin[a]) / r;
                e += mo * b.flat_k2 * b.radius.powi(5) * (3. * c * c - w) / (6. * r.powi(3));
            }
        }
    }
    if s.eff[GR] {
        // first post-Newtonian parts (Landau & Lifshitz, Einstein-Infeld-Hoffmann Lagrangian)
        let c2 = C_C * C_C;
        let mut p = [0.; 3];
        for a in 0..n {
            let (ma, va) = (s.bodies[a].mass, vel[a]);
            let v2 = dot(va, va);
            let pot: f64 = (0..n).filter(|&b| b != a).map(|b| C_G * s.bodies[b].mass / norm(sub(pos[a], pos[b]))).sum();
            e += ma / c2 * (0.375 * v2 * v2 + 1.5 * pot * v2 + 0.5 * pot * pot);
            let mut pa = mul(va, ma / c2 * (0.5 * v2 + 3. * pot));
            for b in (0..n).filter(|&b| b != a) {
                let d = sub(pos[a], pos[b]);
                let r = norm(d);
                let nn = mul(d, 1. / r);
                let g = C_G * ma * s.bodies[b].mass / r / c2;
                e -= 0.25 * g * (7. * dot(va, vel[b]) + dot(va, nn) * dot(vel[b], nn));
                pa = sub(pa, mul(add(mul(vel[b], 7.), mul(nn, dot(vel[b], nn))), 0.5 * g));
            }
            l = add(l, cross(pos[a], pa));
            p = add(p, pa);
            x = add(x, mul(pos[a], ma / c2 * (0.5 * v2 - 0.5 * pot)));
            m += ma / c2 * (0.5 * v2 - 0.5 * pot);
        }
        v = add(v, p);
    }
    Q { e, l, x: mul(x, 1. / m), v: mul(v, 1. / m), s: spin.iter().map(|w| norm(*w)).collect() }
}

/// Largest departures of (energy, angular momentum, centre of mass, spin rates), and the change of the mean energy from the first to the last third.
fn run(s: &Sys, h: usize, int: Int, dt: f64, steps: usize, file: &std::path::Path) -> Result<[f64; 5], String> {
    guard(|| {
        let mut sm = sim(int, dt, 1e12, 1e12, build(s));
        sm.as_dyn().initialize_physical_values();
        let mut w = writer(file);
        let q0 = look(s, h, &sm);
        let end = dt * steps as f64;
        let size = s.bodies.iter().map(|b| norm(sub(b.pos, s.bodies[h].pos))).fold(0., f64::max);
        let mut m = [0f64; 5];
        let mut part = [(0., 0.); 2];
        while sm.time() < end * (1. - 1e-9) {
            sm.as_dyn().iterate(&mut w, true).map_err(|_| "stopped").unwrap();
            let q = look(s, h, &sm);
            let t = sm.time();
            let de = (q.e - q0.e) / q0.e.abs();
            let dl = norm(sub(q.l, q0.l)) / norm(q0.l);
            let dx = norm(sub(sub(q.x, q0.x), mul(q0.v, t))) / size;
            let ds = q.s.iter().zip(&q0.s).map(|(a, b)| if *b > 0. { (a / b - 1.).abs() } else { 0. }).fold(0., f64::max);
            for (k, d) in [de.abs(), dl, dx, ds].into_iter().enumerate() {
                m[k] = m[k].max(d);
            }
            if t < end / 3. {
                part[0] = (part[0].0 + de, part[0].1 + 1.);
            } else if t > end * 2. / 3. {
                part[1] = (part[1].0 + de, part[1].1 + 1.);
            }
        }
        m[4] = (part[1].0 / part[1].1 - part[0].0 / part[0].1).abs();
        m
    })
}

#[allow(clippy::too_many_arguments)]
fn check(rep: &Rep, key: &str, s: &Sys, host: usize, int: Int, period: f64, per: f64, norb: f64, c: usize) {
    let f = rep.scratch.join(format!("p31.{}.h", c));
    let a = run(s, host, int, period / per, (norb * per) as usize, &f);
    let b = run(s, host, int, 0.5 * period / per, (norb * per) as usize * 2, &f);
    let _ = std::fs::remove_file(&f);
    rep.states((norb * per) as u64 * 3);
    rep.transitions((norb * per) as u64 * 3);
    rep.traces(2);
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return rep.violation(key, &format!("stopped: {}", e)),
    };
    let names = ["energy", "angular momentum", "centre of mass", "spin rate"];
    if std::env::var("P31_DBG").is_ok() {
        eprintln!("DBG {} {:?} {:?}", key, a.map(|x| format!("{:.1e}", x)), b.map(|x| format!("{:.1e}", x)));
    }
    for k in 0..4 {
        // (the adaptive step of IAS15 is its own, only its spins have an error above rounding)
        let floor = match (int, s.eff[FLAT]) {
            (Int::Ias15, true) => [2e-11, 2e-8, 2e-14, 5e-11][k] * norb / 20.,
            // (conserved up to the second post-Newtonian order)
            (Int::Ias15, _) if s.eff[GR] => [3e-8, 3e-9, 2e-8, 2e-14][k] * norb / 20.,
            (_, _) if s.eff[GR] => [3e-9, 1e-9, 2e-8, 2e-14][k] * norb / 20.,
            // (rounding grows with the number of steps)
                _ => 2e-14 * norb / 20. + 1e-15 * norb * per,
        };
        // (positions are of second order; a spin lags half a step behind its torque, as does the force of a speed in the leapfrog)
        let order = if k == 0 && !(s.eff[GR] && matches!(int, Int::Leap)) { 0.4 } else { 0.65 };
        rep.close(&format!("{}, half the step", names[k]), key, b[k] / (order * a[k] + floor), 0., 1.);
    }
    if !(s.eff[GR] && matches!(int, Int::Leap)) {
    rep.close("wandering energy", key, b[4] / (0.5 * b[0] + 1e-13 + 1e-15 * norb * per), 0., 1.);
    }
}

pub fn p31(rep: &Rep) {
    let ns: Vec<usize> = if rep.thorough { (2..=10).collect() } else { vec![2, 3, 5, 10] };
    let radix = [ns.len(), 5, INTS.len(), 3, 2];
    rep.group("conservative runs", product(&radix) as u64);
    let norb = if rep.thorough { 60. } else { 20. };
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let n = ns[d[0]];
        let int = INTS[d[2]];
        let what = ["gravity", "bulges", "flattening", "both", "relativity"][d[1]];
        let host = [0, n - 1, n / 2][d[3]];
        // (Jacobi coordinates are for systems that list the host first; two bodies have two places)
        if d[3] > 0 && (matches!(int, Int::Jacobi) || (d[3] == 2 && host == n - 1)) {
            return;
        }
        let key = format!("n={}/{}/{}/host={}", n, what, int_name(int), host);
        let key = key + ["", "/every other takes no part"][d[4]];
        if d[4] == 1 && (n < 3 || d[1] == 0 || d[1] == 4) || !rep.want(&key) {
            return;
        }
        let mut eff = [false; 6];
        eff[TIDES] = d[1] & 1 != 0;
        eff[FLAT] = d[1] & 2 != 0;
        eff[GR] = d[1] == 4;
        let mut s = compact(n, eff);
        s.tlim = 1e9;
        s.gr_impl = GR_NEWHALL;
        // (smaller for relativity: speeds of 1/500 of light)
        let small = if eff[GR] { 0.01 } else { 1. };
        for b in s.bodies.iter_mut() {
            b.radius *= small;
            b.pos = mul(b.pos, small);
            b.vel = mul(b.vel, 1. / small.sqrt());
        }
        for (i, b) in s.bodies.iter_mut().enumerate() {
            // (effects large enough to be seen beside the error of the step)
            b.flat_k2 *= if i == 0 { 30. } else { 3e3 };
            if let TM::Ctl { k2, .. } = b.tm {
                b.tm = TM::Ctl { k2: k2 * if i == 0 { 300. } else { 3e3 }, sigma: 0., scale: 1. };
            }
        }
        if d[4] == 1 {
            for k in (2..n).step_by(2) {
                s.bodies[k].tides = Role::None;
                s.bodies[k].flat = Role::None;
            }
        }
        let mut order: Vec<usize> = (1..n).collect();
        order.insert(host, 0);
        s = permute(&s, &order);
        let mu = C_G * s.bodies[host].mass;
        let period = 2. * PI * ((0.018f64 * small).powi(3) / mu).sqrt();
        let per = match int { Int::Leap => 200., Int::Ias15 => 40., _ => 40. };
        check(rep, &key, &s, host, int, period, per, norb, c);
    });
    let es: &[f64] = if rep.thorough { &[0., 0.1, 0.3, 0.6, 0.8, 0.9] } else { &[0., 0.3, 0.8] };
    let ratios: &[f64] = if rep.thorough { &[1e-6, 1e-3, 0.1, 0.9] } else { &[1e-5, 0.9] };
    let incs: &[f64] = &[0., 1., 2.7];
    let spins: &[[V3; 2]] = &[[[3., -2., 11.], [1., 2., 6.]], [[4., 5., -1.], [0., 0., -8.]], [[0., 0., 2.], [-9., 0.5, 0.2]]];
    let radix = [es.len(), ratios.len(), incs.len(), spins.len(), 4, INTS.len(), 2];
    rep.group("conservative pairs", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let (e, ratio, inc) = (es[d[0]], ratios[d[1]], incs[d[2]]);
        let int = INTS[d[5]];
        // (quick: a third of the orientations)
        if !rep.thorough && (d[0] + d[1] + d[2] + d[3] + d[4] + d[5] + d[6]) % 3 != 0 {
            return;
        }
        // (spins only matter to flattening)
        if (d[4] == 0 || d[4] == 3) && d[3] > 0 || d[6] == 1 && matches!(int, Int::Jacobi) {
            return;
        }
        let what = ["bulges", "flattening", "both", "relativity"][d[4]];
        let host = d[6];
        let key = format!("pair/e={}/ratio={}/inc={}/spin={}/{}/{}/host={}", e, ratio, inc, d[3], what, int_name(int), host);
        if !rep.want(&key) {
            return;
        }
        let q = if d[4] == 3 { 0.001 } else { 0.02 };
        let mut eff = [false; 6];
        eff[TIDES] = d[4] == 0 || d[4] == 2;
        eff[FLAT] = d[4] == 1 || d[4] == 2;
        eff[GR] = d[4] == 3;
        let a = q / (1. - e);
        let mut s = pair(0.5, ratio, a, e, inc, 0.7, 1.9, 2.4, spins[d[3]][0], spins[d[3]][1], eff);
        s.tlim = 1e9;
        s.gr_impl = GR_NEWHALL;
        for (k, b) in s.bodies.iter_mut().enumerate() {
            b.radius = 0.05 * q * if k == 1 { ratio.cbrt() } else { 1. };
            b.rg = 0.6;
            b.tm = TM::Ctl { k2: 30., sigma: 0., scale: 1. };
            b.flat_k2 = 0.3;
        }
        if host == 1 {
            s = permute(&s, &[1, 0]);
        }
        let mu = C_G * 0.5 * (1. + ratio);
        let period = 2. * PI * (a * a * a / mu).sqrt();
        let per = match int { Int::Leap => 200., Int::Ias15 => 40., _ => 60. } * (1. - e).powf(-1.5).ceil();
        check(rep, &key, &s, host, int, period, per, if rep.thorough { 10. } else { 6. }, c);
    });
    rep.sample(json!({"case": "n=5/both/democratic/host=4", "steps": "run 20 orbits with a step and half of it, compare energy, angular momentum, centre of mass and spin rates with their initial values"}));
}
