//! Force-level properties: exhaustive enumeration of configurations, states, roles, hosts and orders, with the real
//! force evaluation compared with an independent reference (refm.rs) or with itself under a symmetry.
use crate::c_state::{start, writer, Case};
use crate::refm::*;
use crate::sys::*;
use crate::util::*;
use posidonius::*;
use serde_json::json;
use std::f64::consts::PI;

pub const MODES: [IgnoreGravityTerms; 3] = [IgnoreGravityTerms::None, IgnoreGravityTerms::WHFastOne, IgnoreGravityTerms::WHFastTwo];

/// What the code computed for each body.
#[derive(Clone, Debug)]
pub struct Got {
    pub add: Vec<V3>,
    pub tor: Vec<V3>,
    pub t_acc: Vec<V3>,
    pub t_tor: Vec<V3>,
    pub f_acc: Vec<V3>,
    pub f_tor: Vec<V3>,
    pub g_acc: Vec<V3>,
    pub g_tor: Vec<V3>,
    pub d_acc: Vec<V3>,
    pub w_tor: Vec<V3>,
}
pub fn got(u: &Universe) -> Got {
    let p = &u.particles[..u.n_particles];
    let f = |g: &dyn Fn(&Particle) -> Axes| -> Vec<V3> { p.iter().map(|x| v3(g(x))).collect() };
    Got {
        add: f(&|x| x.inertial_additional_acceleration),
        tor: f(&|x| x.dangular_momentum_dt),
        t_acc: f(&|x| x.tides.parameters.output.acceleration),
        t_tor: f(&|x| x.tides.parameters.output.dangular_momentum_dt),
        f_acc: f(&|x| x.rotational_flattening.parameters.output.acceleration),
        f_tor: f(&|x| x.rotational_flattening.parameters.output.dangular_momentum_dt),
        g_acc: f(&|x| x.general_relativity.parameters.output.acceleration),
        g_tor: f(&|x| x.general_relativity.parameters.output.dangular_momentum_dt),
        d_acc: f(&|x| x.disk.parameters.output.acceleration),
        w_tor: f(&|x| x.wind.parameters.output.dangular_momentum_dt),
    }
}

/// One single force-like effect is switched on, so that what a body feels is that effect alone.
pub fn alone(u: &Universe) -> bool {
    let c = &u.consider_effects;
    [c.tides, c.rotational_flattening, c.general_relativity, c.disk, c.wind].iter().filter(|x| **x).count() == 1
}

/// Fresh universe, one evaluation at time t.
pub fn fresh(s: &Sys, t: f64, mode: IgnoreGravityTerms) -> Universe {
    let mut u = build(s);
    u.calculate_roche_radiuses();
    eval(&mut u, t, mode);
    u
}

pub fn vclose(rep: &Rep, class: &str, key: &str, got: V3, want: V3, scale: f64, rel: f64) -> bool {
    let e = norm(sub(got, want));
    let tol = rel * scale + 1e-300;
    rep.err(class, e / (scale + 1e-300), rel, key);
    if !(e <= tol) {
        rep.violation(key, &format!("{}: got {:?}, want {:?}, |diff| {:e} > {:e}", class, got, want, e, tol));
        return false;
    }
    true
}

pub fn is_host(b: Role) -> bool {
    b == Role::Host
}
pub fn dynamical(e: EvolutionType) -> bool {
    matches!(e, EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true))
}

pub const SPINS: [V3; 6] = [[0., 0., 0.], [0., 0., 2.1], [0., 0., -5.3], [1.7, 0., 0.], [0.9, -1.3, 0.4], [-3.1, 2.2, -0.7]];

/// Two bodies: star and planet in the given orbit.
pub fn pair(m0: f64, ratio: f64, a: f64, e: f64, inc: f64, w: f64, om: f64, f: f64, s0: V3, s1: V3, eff: [bool; 6]) -> Sys {
    let mut s = compact(2, eff);
    s.bodies[0].mass = m0;
    s.bodies[1].mass = m0 * ratio;
    let (p, v) = kepler_state(C_G * m0 * (1. + ratio), a, e, inc, w, om, f);
    s.bodies[1].pos = p;
    s.bodies[1].vel = v;
    s.bodies[0].spin = s0;
    s.bodies[1].spin = s1;
    s
}

pub fn permute(s: &Sys, perm: &[usize]) -> Sys {
    let mut t = s.clone();
    t.bodies = perm.iter().map(|&i| s.bodies[i].clone()).collect();
    t
}

// ------------------------------------------------------------------------------------------------ P07
pub const P07_RULE: &str = "all counts of bodies 2..10, every position of the most massive body, every gravity mode, 6 spatial layouts x 3 mass patterns, offset and boost of the input frame; reference: direct summation with own constants. Frame identities re-checked after every step of every integrator.";
pub const P07_ASSUME: &[&str] = &["bodies are farther apart than their Roche radii (otherwise the run stops, see P08)"];

/// Cases (bodies, order, host, participation mask over the others): everything for `full` bodies; for more bodies every
/// rotation of the list x every host x {all, all but one, only one} of the others.
pub fn role_cases(full: usize, max: usize) -> Vec<(usize, Vec<usize>, usize, usize)> {
    let mut v = vec![];
    for perm in perms(full) {
        for h in 0..full {
            for m in 0..1usize << (full - 1) {
                v.push((full, perm.clone(), h, m));
            }
        }
    }
    for n in full + 1..=max {
        for r in 0..n {
            let perm: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
            for h in 0..n {
                let all = (1usize << (n - 1)) - 1;
                v.push((n, perm.clone(), h, all));
                for k in 0..n - 1 {
                    v.push((n, perm.clone(), h, all & !(1 << k)));
                    v.push((n, perm.clone(), h, 1 << k));
                }
            }
        }
    }
    v
}
pub fn order_name(p: &[usize]) -> String {
    p.iter().map(|i| char::from_digit(*i as u32, 16).unwrap()).collect()
}

fn layout(n: usize, k: usize) -> Vec<(V3, V3)> {
    (0..n)
        .map(|i| {
            let x = i as f64;
            let p = match k {
                0 => [0.05 + 0.31 * x, 0., 0.],
                1 => [0., -0.2 - 0.27 * x * x, 0.],
                2 => [(2.4 * x).cos() * (0.3 + 0.2 * x), (2.4 * x).sin() * (0.3 + 0.2 * x), 0.1 * x * (-1f64).powi(i as i32)],
                3 => [1.0 + (1.7 * x).sin(), -2.0 + (2.9 * x).cos(), 0.5 * (0.8 * x).sin()],
                4 => [20. * (1.1 * x).cos() / (1. + x), 20. * (1.1 * x).sin() / (1. + x), -3. * x / 10.],
                _ => [1e-2 * (1. + x) * (4.1 * x).cos(), 1e-2 * (1. + x) * (4.1 * x).sin(), 2e-2 * x],
            };
            (p, [0.01 * (1.3 * x).sin(), 0.02 * (0.7 * x).cos(), 0.005 * (2.1 * x).sin()])
        })
        .collect()
}

pub fn p07(rep: &Rep) {
    let radix = [9usize, 10, 6, 3, 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let n = d[0] + 2;
        let host = d[1];
        if host >= n {
            return;
        }
        let key = format!("n={}/host={}/layout={}/mass={}/off={}", n, host, d[2], d[3], d[4]);
        if !rep.want(&key) {
            return;
        }
        let off: (V3, V3) = [([0., 0., 0.], [0., 0., 0.]), ([3., -7., 11.], [0.2, 0.1, -0.4]), ([-0.01, 0.02, 0.], [0., 0., 0.3])][d[4]];
        let lay = layout(n, d[2]);
        let mut s = compact(2, [false; 6]);
        s.bodies = (0..n)
            .map(|i| {
                let m = match d[3] {
                    0 => 1e-6 * (1.0 + 0.37 * i as f64),
                    1 => 10f64.powf(-8. + 0.8 * ((i * 7) % 9) as f64),
                    _ => 0.2 + 0.01 * i as f64,
                };
                body(m, 1e-7, 0.5, add(lay[i].0, off.0), add(lay[i].1, off.1), [0., 0., 1.])
            })
            .collect();
        s.bodies[host].mass = 1.0;
        let mut u = build(&s);
        u.calculate_roche_radiuses();
        if u.hosts.index.most_massive != host {
            rep.violation(&key, &format!("most massive body is {} but {} was chosen", host, u.hosts.index.most_massive));
            return;
        }
        // frames
        let st = state(&u);
        let mt: f64 = st.iter().map(|b| b.m).sum();
        let com = |f: &dyn Fn(&St) -> V3| st.iter().fold([0.; 3], |a, b| add(a, mul(f(b), b.m / mt)));
        let size = 30. + norm(off.0);
        vclose(rep, "centre of mass position", &key, com(&|b| b.pos), [0.; 3], size, 1e-13);
        vclose(rep, "centre of mass velocity", &key, com(&|b| b.vel), [0.; 3], 1., 1e-13);
        u.inertial_to_heliocentric();
        for i in 0..n {
            for j in 0..n {
                vclose(rep, "relative position", &key, sub(st[i].pos, st[j].pos), sub(s.bodies[i].pos, s.bodies[j].pos), size, 1e-14);
                vclose(rep, "relative velocity", &key, sub(st[i].vel, st[j].vel), sub(s.bodies[i].vel, s.bodies[j].vel), 1., 1e-14);
            }
            helio_ok(rep, &key, &u, i);
        }
        for mode in MODES {
            let mut u2 = copy_universe(&u);
            u2.gravity_calculate_acceleration(mode);
            let st = state(&u2);
            let first_other = if host == 0 { 1 } else { 0 };
            let skip = |i: usize, j: usize| match mode {
                IgnoreGravityTerms::None => false,
                IgnoreGravityTerms::WHFastOne => (i == host && j == first_other) || (j == host && i == first_other),
                IgnoreGravityTerms::WHFastTwo => i == host || j == host,
            };
            let (a, sc) = gravity(&st, &skip);
            for i in 0..n {
                let k = format!("{}/{}", key, mode_name(mode));
                vclose(rep, "gravity", &k, v3(u2.particles[i].inertial_acceleration), a[i], sc[i], 1e-12);
            }
            rep.transitions(1);
        }
        rep.states(1);
        rep.group(&format!("n={}", n), 1);
    });
    // frames stay in step while integrating
    let cfg: Vec<(usize, Int, usize)> = (2..=5usize).flat_map(|n| INTS.iter().flat_map(move |&i| (0..n).map(move |h| (n, i, h)))).collect();
    par(rep, cfg.len(), |c| {
        let (n, int, h) = cfg[c];
        let key = format!("step/n={}/{}/host={}", n, int_name(int), h);
        if !rep.want(&key) {
            return;
        }
        let s = compact(n, [true, true, true, false, false, false]);
        let mut perm: Vec<usize> = (1..n).collect();
        perm.insert(h, 0);
        let s = permute(&s, &perm);
        let mut sm = sim(int, 0.05, 1e9, 1e9, build(&s));
        sm.as_dyn().initialize_physical_values();
        let sc = rep.scratch.join(format!("p07.{}.bin", c));
        let hist = rep.scratch.join(format!("p07.{}.h", c));
        let mut w = crate::c_state::writer(&hist);
        for k in 0..if rep.thorough { 5000 } else { 20 } {
            sm.as_dyn().iterate(&mut w, true).unwrap();
            let mut u = copy_universe(sm.uni());
            u.inertial_to_heliocentric();
            for i in 0..n {
                helio_ok(rep, &format!("{}/step={}", key, k), &u, i);
            }
            let st = state(&u);
            let mt: f64 = st.iter().map(|b| b.m).sum();
            let com = st.iter().fold([0.; 3], |a, b| add(a, mul(b.pos, b.m / mt)));
            vclose(rep, "centre of mass while stepping", &key, com, [0.; 3], 0.1, 1e-10);
            rep.states(1);
            rep.transitions(1);
        }
        let _ = std::fs::remove_file(sc);
        let _ = std::fs::remove_file(hist);
    });
    rep.sample(json!({"case": "n=10/host=9/layout=2/mass=1/off=1", "steps": "build, compare frames, gravity in 3 modes against direct summation"}));
}

fn helio_ok(rep: &Rep, key: &str, u: &Universe, i: usize) {
    let h = u.hosts.index.most_massive;
    let (p, q) = (&u.particles[i], &u.particles[h]);
    let dp = sub(v3(p.inertial_position), v3(q.inertial_position));
    let dv = sub(v3(p.inertial_velocity), v3(q.inertial_velocity));
    let size = 30.;
    vclose(rep, "heliocentric position", key, v3(p.heliocentric_position), dp, size, 1e-14);
    vclose(rep, "heliocentric velocity", key, v3(p.heliocentric_velocity), dv, 1., 1e-14);
    rep.close("heliocentric distance", key, p.heliocentric_distance, norm(dp), 1e-14 * size);
    let vr = if i == h { 0. } else { dot(dp, dv) / norm(dp) };
    rep.close("radial velocity", key, p.heliocentric_radial_velocity, vr, 1e-13);
    rep.close("speed", key, p.heliocentric_norm_velocity_vector, norm(dv), 1e-13);
    rep.close("speed squared", key, p.heliocentric_norm_velocity_vector_2, dot(dv, dv), 1e-13);
}

// ------------------------------------------------------------------------------------------------ P14
pub const P14_RULE: &str = "two bodies: eccentricity x inclination x true anomaly x separation x host spin x planet spin x mass ratio x host listed first/second (all products); three bodies: every participation subset x every host incl. a host that is not the most massive x every order; dynamical tides: every evolving model on host and/or planet x spins placed in every excitation regime x histories of two evaluations crossing the regimes. Oracle: Bolmont et al. 2015 eqs. 5-9, 19, 25, 32 in vector form. Roles are enumerated for systems of up to 10 bodies.";
pub const P14_ASSUME: &[&str] = &["states closer than 1e-6 (relative) to the regime switch of the dynamical tide are not judged", "current radii, Love numbers and dissipation of the bodies are taken from the simulation (P18 decides those)"];

fn cmp_tides(rep: &Rep, key: &str, u: &mut Universe, h: usize, part: &[bool], dynamic: &[bool], host_ctl: bool) {
    let st = state(u);
    let (e, margin) = ctl(&st, h, part, dynamic, host_ctl);
    if margin < 1e-6 {
        rep.group("skipped: on the regime switch", 1);
        return;
    }
    let g = got(u);
    u.calculate_denergy_dt();
    for i in 0..st.len() {
        vclose(rep, "tidal acceleration", key, g.t_acc[i], e.acc[i], e.acc_scale[i], 1e-11);
        vclose(rep, "tidal torque", key, g.t_tor[i], e.tor[i], e.tor_scale[i], 1e-11);
        if alone(u) {
            vclose(rep, "tidal acceleration felt", key, g.add[i], e.acc[i], e.acc_scale[i], 1e-11);
            vclose(rep, "tidal torque felt", key, g.tor[i], e.tor[i], e.tor_scale[i], 1e-11);
        }
        if i != h && part[i] {
            rep.close("tidal heating", key, u.particles[i].tides.parameters.internal.denergy_dt / (e.den_scale[i] + 1e-300), e.den[i] / (e.den_scale[i] + 1e-300), 1e-11);
        }
    }
    rep.states(1);
    rep.transitions(1);
}

pub fn p14(rep: &Rep) {
    let es = [0., 0.3, 0.85];
    let incs = [0., 0.4, PI / 2., 2.5, PI];
    let fs = [0., 1.1, 2.6, PI, 4.4];
    let aa = [0.02, 0.3];
    let ratios = [1e-5, 3e-2, 0.9];
    let radix = [3usize, 5, 5, 2, 6, 6, 3, 2];
    let eff = [true, false, false, false, false, false];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("pair/e={}/i={}/f={}/a={}/s0={}/s1={}/q={}/swap={}", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
        if !rep.want(&key) {
            return;
        }
        let s = pair(0.5, ratios[d[6]], aa[d[3]], es[d[0]], incs[d[1]], 0.7, 2.0, fs[d[2]], SPINS[d[4]], SPINS[d[5]], eff);
        let s = if d[7] == 1 { permute(&s, &[1, 0]) } else { s };
        let h = if d[7] == 1 { 1 } else { 0 };
        let mut u = fresh(&s, 0., MODES[c % 3]);
        cmp_tides(rep, &key, &mut u, h, &[true, true], &[false, false], true);
        rep.group("pairs", 1);
    });
    // roles: every subset of participants, every host, every order
    let cases = role_cases(if rep.thorough { 6 } else { 4 }, 10);
    par(rep, cases.len(), |c| {
        let (n, ref perm, host, mask) = cases[c];
        let key = format!("roles/order={}/host={}/part={:b}", order_name(perm), host, mask);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(n, eff);
        let mut k = 0;
        let mut part = vec![false; n];
        for i in 0..n {
            if i == host {
                s.bodies[i].tides = Role::Host;
            } else {
                part[i] = mask >> k & 1 == 1;
                s.bodies[i].tides = if part[i] { Role::Orbit } else { Role::None };
                k += 1;
            }
        }
        let s = permute(&s, perm);
        let part: Vec<bool> = perm.iter().map(|&i| part[i]).collect();
        let h = perm.iter().position(|&i| i == host).unwrap();
        let mut u = fresh(&s, 0., MODES[c % 3]);
        cmp_tides(rep, &key, &mut u, h, &part, &vec![false; n], true);
        rep.group("role subsets", 1);
    });
    // dynamical tides: host and/or planet evolving, spins in every regime, then a second evaluation after the spin moved
    let spin_z = [0.02, 0.3, 0.62, 1.3, 2.4, 4.7, 9.0];
    let radix = [4usize, 4, 7, 7, 7, 7];
    let kinds = [0usize, 4, 5, 7];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let (kh, kp) = (kinds[d[0]], kinds[d[1]]);
        if kh == 0 && kp == 0 {
            return;
        }
        if (kh == 0 && d[2] != d[4]) || (kp == 0 && d[3] != d[5]) {
            return;
        }
        if !rep.thorough && (c / 7) % 3 != 0 && kh != 0 && kp != 0 {
            return;
        }
        let key = format!("dynamical/host={}/planet={}/s0={}->{}/s1={}->{}", EVOS[kh].0, EVOS[kp].0, d[2], d[4], d[3], d[5]);
        if !rep.want(&key) {
            return;
        }
        // the two ages must agree: use the later initial time if either needs it
        let mut s = pair(0.4, 0.02, 0.03, 0.2, 0.3, 0.5, 1.0, 1.2, [0., 0.3 * spin_z[d[2]], spin_z[d[2]]], [0.1 * spin_z[d[3]], 0., spin_z[d[3]]], [true, false, false, false, false, true]);
        s.t0 = EVOS[kh].2.max(EVOS[kp].2);
        s.bodies[0].evo = EVOS[kh].1;
        s.bodies[1].evo = EVOS[kp].1;
        s.bodies[0].tm = TM::Ctl { k2: 0.3, sigma: 2.0e-2, scale: 1.3 };
        s.bodies[1].tm = TM::Ctl { k2: 0.35, sigma: 1.0e-1, scale: 0.7 };
        let mut u = match guard(|| fresh(&s, 0., IgnoreGravityTerms::None)) {
            Ok(u) => u,
            Err(_) => {
                rep.group("combination of tables not available", 1);
                return;
            }
        };
        let dynm = [dynamical(s.bodies[0].evo), dynamical(s.bodies[1].evo)];
        cmp_tides(rep, &key, &mut u, 0, &[true, true], &dynm, true);
        // second state in the history: the spins moved (possibly across the regimes), time advanced
        for (i, z) in [(0usize, spin_z[d[4]]), (1, spin_z[d[5]])] {
            let p = &mut u.particles[i];
            let inertia = p.mass * p.radius_of_gyration_2 * p.radius * p.radius;
            p.angular_momentum = ax(mul([0.2 * z, 0.1 * z, z], inertia));
        }
        eval(&mut u, 0.4, IgnoreGravityTerms::None);
        cmp_tides(rep, &format!("{}/second", key), &mut u, 0, &[true, true], &dynm, true);
        rep.group("dynamical-tide histories", 1);
    });
    rep.sample(json!({"case": "dynamical/host=none/planet=BolmontMathis2016/s0=3->3/s1=5->0", "steps": "evaluate with the planet spin in the dynamical regime, move its spin to the equilibrium regime, evaluate again; both compared with the law"}));
}

// ------------------------------------------------------------------------------------------------ P15
pub const P15_RULE: &str = "two bodies: eccentricity x inclination x anomaly x separation x 6 host spins x 6 planet spins (incl. no rotation) x mass ratio x order (all products); up to five bodies: every participation subset x host x order. Oracle: quadrupole potential gradient (Bolmont et al. 2015 eqs. 15-19) in vector form without division by the spin. Roles are enumerated for systems of up to 10 bodies.";
pub const P15_ASSUME: &[&str] = &["oblate-spheroid model; the coplanar creep variant is decided by P25"];

fn cmp_flat(rep: &Rep, key: &str, u: &Universe, h: usize, part: &[bool], k2f: &[f64]) {
    let st = state(u);
    let e = flattening(&st, h, part, k2f);
    let g = got(u);
    for i in 0..st.len() {
        vclose(rep, "flattening acceleration", key, g.f_acc[i], e.acc[i], e.acc_scale[i], 1e-11);
        vclose(rep, "flattening torque", key, g.f_tor[i], e.tor[i], e.tor_scale[i], 1e-11);
        if alone(u) {
            vclose(rep, "flattening acceleration felt", key, g.add[i], e.acc[i], e.acc_scale[i], 1e-11);
            vclose(rep, "flattening torque felt", key, g.tor[i], e.tor[i], e.tor_scale[i], 1e-11);
        }
    }
    rep.states(1);
    rep.transitions(1);
}

pub fn p15(rep: &Rep) {
    let es = [0., 0.3, 0.85];
    let incs = [0., 0.4, PI / 2., 2.5, PI];
    let fs = [0., 1.1, 2.6, PI, 4.4];
    let aa = [0.02, 0.3];
    let ratios = [1e-5, 3e-2, 0.9];
    let radix = [3usize, 5, 5, 2, 6, 6, 3, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("pair/e={}/i={}/f={}/a={}/s0={}/s1={}/q={}/swap={}", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
        if !rep.want(&key) {
            return;
        }
        let tides = c % 2 == 1;
        let mut s = pair(0.5, ratios[d[6]], aa[d[3]], es[d[0]], incs[d[1]], 0.7, 2.0, fs[d[2]], SPINS[d[4]], SPINS[d[5]], [tides, true, false, false, false, false]);
        s.bodies[0].flat_k2 = 0.31;
        s.bodies[1].flat_k2 = 0.93;
        let s = if d[7] == 1 { permute(&s, &[1, 0]) } else { s };
        let h = if d[7] == 1 { 1 } else { 0 };
        let u = fresh(&s, 0., MODES[c % 3]);
        let k2f: Vec<f64> = s.bodies.iter().map(|b| b.flat_k2).collect();
        cmp_flat(rep, &key, &u, h, &[true, true], &k2f);
        rep.group("pairs", 1);
    });
    let cases = role_cases(if rep.thorough { 6 } else { 4 }, 10);
    par(rep, cases.len(), |c| {
        let (n, ref perm, host, mask) = cases[c];
        let key = format!("roles/order={}/host={}/part={:b}", order_name(perm), host, mask);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(n, [false, true, false, false, false, false]);
        let mut k = 0;
        let mut part = vec![false; n];
        for i in 0..n {
            s.bodies[i].tides = Role::None;
            if i == host {
                s.bodies[i].flat = Role::Host;
            } else {
                part[i] = mask >> k & 1 == 1;
                s.bodies[i].flat = if part[i] { Role::Orbit } else { Role::None };
                k += 1;
            }
        }
        let s = permute(&s, perm);
        let part: Vec<bool> = perm.iter().map(|&i| part[i]).collect();
        let h = perm.iter().position(|&i| i == host).unwrap();
        let k2f: Vec<f64> = s.bodies.iter().map(|b| b.flat_k2).collect();
        let u = fresh(&s, 0., MODES[c % 3]);
        cmp_flat(rep, &key, &u, h, &part, &k2f);
        rep.group("role subsets", 1);
    });
    rep.sample(json!({"case": "pair/e=1/i=1/f=1/a=0/s0=0/s1=4/q=1/swap=0", "meaning": "host that does not rotate: only the planet's quadrupole acts"}));
}

// ------------------------------------------------------------------------------------------------ P16
pub const P16_RULE: &str = "pairs: formulation x separation (1e-6..0.3 AU: weak to strong field) x eccentricity x inclination x anomaly x both spins x mass ratio x order x gravity mode; up to 5 bodies: every participation subset x host position x order x formulation x gravity mode x a preceding evaluation of another state; scaling of the correction in 1/c; precession of isolated orbits for formulation x integrator x eccentricity x orientation against 6 pi G M/(a c^2 (1-e^2)). Roles are enumerated for systems of up to 10 bodies.";
pub const P16_ASSUME: &[&str] = &["Anderson and Newhall formulations are compared at leading order in 1/c^2 where the next order is below the tolerance", "precession runs use the default tolerances of the integrators"];

pub fn cmp_gr(rep: &Rep, key: &str, u: &Universe, im: u8, h: usize, part: &[bool]) {
    let st = state(u);
    let g = got(u);
    let mut feels = part.to_vec();
    feels[h] = true;
    // size of the next order, which the leading-order references leave out
    let mut beta: f64 = 0.;
    for i in 0..st.len() {
        for j in 0..i {
            let v = sub(st[i].vel, st[j].vel);
            beta = beta.max((C_G * (st[i].m + st[j].m) / norm(sub(st[i].pos, st[j].pos)) + dot(v, v)) / (C_C * C_C));
        }
    }
    let lead = 1e-10 + 5. * beta;
    let (e, rel) = match im {
        GR_KIDDER => (kidder(&st, h, part), 1e-11),
        GR_ANDERSON => (anderson(&st, h, part), lead),
        _ => (newhall(&st, &feels), lead),
    };
    for i in 0..st.len() {
        vclose(rep, ["", "kidder acceleration", "anderson acceleration", "newhall acceleration"][im as usize], key, g.g_acc[i], e.acc[i], e.acc_scale[i], rel);
        vclose(rep, "relativistic spin precession", key, g.g_tor[i], e.tor[i], e.tor_scale[i], 1e-11);
        if alone(u) {
            vclose(rep, "relativistic acceleration felt", key, g.add[i], e.acc[i], e.acc_scale[i], rel);
            vclose(rep, "relativistic torque felt", key, g.tor[i], e.tor[i], e.tor_scale[i], 1e-11);
        }
    }
    rep.states(1);
    rep.transitions(1);
}

pub fn p16(rep: &Rep) {
    let eff = [false, false, true, false, false, false];
    let es = [0., 0.3, 0.85];
    let incs = [0., 0.4, PI / 2., 2.5];
    let fs = [0., 1.1, 2.6, PI, 4.4];
    let aa = [3.0e-7, 1.0e-5, 0.02, 0.3];
    let ratios = [1e-5, 3e-2, 0.9];
    let radix = [3usize, 3, 4, 5, 4, 5, 5, 3, 2, 3];
    let sp: [V3; 5] = [[0., 0., 0.], [0., 0., 2.1], [0., 0., -5.3], [0.9, -1.3, 0.4], [-3.1, 2.2, -0.7]];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let im = d[0] as u8 + 1;
        if d[4] < 2 && im != GR_KIDDER {
            return; // strong field: higher orders differ by definition
        }
        if im != GR_KIDDER && (d[5] > 1 || d[6] > 1) {
            return; // no spins in these
        }
        let key = format!("pair/impl={}/e={}/i={}/f={}/a={}/s0={}/s1={}/q={}/swap={}/mode={}", im, d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9]);
        if !rep.want(&key) {
            return;
        }
        let mut s = pair(0.5, ratios[d[7]], aa[d[4]], es[d[1]], incs[d[2]], 0.7, 2.0, fs[d[3]], sp[d[5]], sp[d[6]], eff);
        s.gr_impl = im;
        if d[4] < 2 {
            // compact objects spinning fast enough for their spins to matter
            for b in s.bodies.iter_mut() {
                b.radius = 1.0e-9;
                b.spin = mul(b.spin, 1.0e6);
            }
        }
        let h = d[8];
        let s = if h == 1 { permute(&s, &[1, 0]) } else { s };
        let u = fresh(&s, 0., MODES[d[9]]);
        cmp_gr(rep, &key, &u, im, h, &[true, true]);
        rep.group("pairs", 1);
    });
    // roles; the most massive body must be the host
    let mut cases = role_cases(if rep.thorough { 6 } else { 4 }, 10);
    cases.retain(|x| x.2 == 0);
    let radix = [cases.len(), 1, 3, 3, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let im = d[2] as u8 + 1;
        let (n, ref perm, _, mask) = cases[d[0]];
        let key = format!("roles/order={}/part={:b}/impl={}/mode={}/history={}", order_name(perm), mask, im, d[3], d[4]);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(n, eff);
        s.gr_impl = im;
        let mut part = vec![false; n];
        for i in 1..n {
            part[i] = mask >> (i - 1) & 1 == 1;
            s.bodies[i].gr = if part[i] { Role::Orbit } else { Role::None };
        }
        let s = permute(&s, perm);
        let part: Vec<bool> = perm.iter().map(|&i| part[i]).collect();
        let h = perm.iter().position(|&i| i == 0).unwrap();
        let mut u = build(&s);
        u.calculate_roche_radiuses();
        if d[4] == 1 {
            // another state was evaluated before, with accelerations of that state still stored
            let keep: Vec<(Axes, Axes)> = u.particles[..n].iter().map(|p| (p.inertial_position, p.inertial_velocity)).collect();
            for (k, p) in u.particles[..n].iter_mut().enumerate() {
                p.inertial_position.x += 0.003 * (k as f64 - 1.3);
                p.inertial_velocity.y *= 1.2;
            }
            u.inertial_to_heliocentric();
            u.gravity_calculate_acceleration(MODES[(d[3] + 1) % 3]);
            u.calculate_additional_effects(0., true, true, true, MODES[(d[3] + 1) % 3]);
            for (p, k) in u.particles[..n].iter_mut().zip(keep) {
                p.inertial_position = k.0;
                p.inertial_velocity = k.1;
            }
        }
        eval(&mut u, 0., MODES[d[3]]);
        cmp_gr(rep, &key, &u, im, h, &part);
        rep.group("role subsets", 1);
    });
    // the isolated orbit precesses at the relativistic rate
    let radix = [3usize, 5, 3, 2, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let im = d[0] as u8 + 1;
        let int = INTS[d[1]];
        let key = format!("precession/impl={}/{}/e={}/inc={}/swap={}", im, int_name(int), d[2], d[3], d[4]);
        if !rep.want(&key) {
            return;
        }
        let e = [0.1, 0.3, 0.6][d[2]];
        let a: f64 = 0.02;
        let m0 = 1.0;
        let ratio = 1e-9;
        let mut s = pair(m0, ratio, a, e, [0., 1.1][d[3]], 0.7, 2.0, 0.3, [0., 0., 1e-6], [0., 0., 1e-6], eff);
        s.gr_impl = im;
        s.bodies[0].radius = 1e-5;
        s.bodies[1].radius = 1e-7;
        s.tlim = 1e9;
        let s = if d[4] == 1 { permute(&s, &[1, 0]) } else { s };
        let period = 2. * PI * (a * a * a / (C_G * m0)).sqrt();
        let norb = if rep.thorough { 100. } else { 10. };
        let steps = if int == Int::Leap { 12000. } else { 600. };
        let dt = period / steps;
        let mut sm = sim(int, dt, 1e12, 1e12, build(&s));
        sm.as_dyn().initialize_physical_values();
        let hist = rep.scratch.join(format!("p16.{}.h", c));
        let mut w = crate::c_state::writer(&hist);
        let (h, p) = if d[4] == 1 { (1, 0) } else { (0, 1) };
        let ecc = |sm: &Sim| -> (V3, V3) {
            let u = sm.uni();
            let x = sub(v3(u.particles[p].inertial_position), v3(u.particles[h].inertial_position));
            let v = sub(v3(u.particles[p].inertial_velocity), v3(u.particles[h].inertial_velocity));
            let l = cross(x, v);
            (sub(mul(cross(v, l), 1. / (C_G * m0)), mul(x, 1. / norm(x))), l)
        };
        // same orbital phase after a whole number of orbits: the periodic part of the correction drops out
        let base = run_orbits(&mut sm, &mut w, norb * period, &ecc);
        // the same run without relativity gives the numerical error of the method
        let mut s0 = s.clone();
        s0.eff[GR] = false;
        let mut sm0 = sim(int, dt, 1e12, 1e12, build(&s0));
        sm0.as_dyn().initialize_physical_values();
        let num = run_orbits(&mut sm0, &mut w, norb * period, &ecc);
        let want = norb * 6. * PI * C_G * m0 / (a * C_C * C_C * (1. - e * e));
        rep.close("relativistic precession (fraction of the predicted angle)", &key, (base - num) / want, 1., 2e-3);
        rep.states(2 * (norb * steps) as u64);
        rep.transitions(2 * (norb * steps) as u64);
        rep.group("precession runs", 1);
        let _ = std::fs::remove_file(hist);
    });
    rep.sample(json!({"case": "roles/order=5/part=101/impl=3/mode=2/history=1", "steps": "evaluate a displaced state, restore, evaluate; compare with the N-body post-Newtonian sums where only bodies 1 and 3 feel the correction"}));
}

fn run_orbits(sm: &mut Sim, w: &mut std::io::BufWriter<std::fs::File>, t: f64, ecc: &dyn Fn(&Sim) -> (V3, V3)) -> f64 {
    let (e0, l0) = ecc(sm);
    let lh = mul(l0, 1. / norm(l0));
    let mut pts: Vec<(f64, f64)> = vec![];
    let mut extra = 0;
    while extra < 3 {
        sm.as_dyn().iterate(w, true).unwrap();
        let (e1, _) = ecc(sm);
        pts.push((sm.time(), dot(cross(e0, e1), lh).atan2(dot(e0, e1))));
        if sm.time() >= t {
            extra += 1;
        }
    }
    // value at exactly t by interpolation through the six surrounding steps
    let q = &pts[pts.len() - 6..];
    let mut s = 0.;
    for i in 0..6 {
        let mut l = q[i].1;
        for j in 0..6 {
            if i != j {
                l *= (t - q[j].0) / (q[i].0 - q[j].0);
            }
        }
        s += l;
    }
    s
}

// ------------------------------------------------------------------------------------------------ P08
pub const P08_RULE: &str = "force evaluation: 2..5 bodies x every pair x every listing order x 3 gravity modes x 7 directions x 3 radius regimes (Roche radius or contact decides) x distance factors around the threshold, expected to stop exactly below it; ejection: every body x every order x distances around 100 AU, incl. pairs farther than 100 AU apart that are each within 100 AU of the most massive body. Integration: every integrator x every pair x every order on an approaching trajectory, and every body on an escaping one, run step by step until the stop; every integrator x evolution model of the light body x orbit x initial distance in units of its Roche radius x listing order, runs in which the evolving radius decides.";
pub const P08_ASSUME: &[&str] = &["distances within 1e-7 (relative) of a threshold are not judged", "conditions are looked at where the integrator evaluates forces, at least once per step"];

fn threshold(a: &Body, b: &Body) -> f64 {
    let (heavy, light) = if a.mass > b.mass { (a, b) } else { (b, a) };
    let roche = light.radius / 0.462 * (heavy.mass / light.mass).powf(1. / 3.);
    roche.max(a.radius + b.radius)
}

pub fn p08(rep: &Rep) {
    let dirs: [V3; 7] = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., 0., -1.], [0.6, -0.64, 0.48], [-0.48, 0.6, 0.64]];
    let facts = [0.05, 0.7, 1. - 1e-6, 1. + 1e-6, 1.4, 30.];
    let nmax = if rep.thorough { 5 } else { 4 };
    for n in 2..=nmax {
        let pm = perms(n);
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
        let radix = [pm.len(), pairs.len(), 3, dirs.len(), facts.len(), 3];
        par(rep, product(&radix), |c| {
            let d = digits(c, &radix);
            let key = format!("pair/n={}/order={}/pair={:?}/regime={}/dir={}/fact={}/mode={}", n, d[0], pairs[d[1]], d[2], d[3], d[4], d[5]);
            if !rep.want(&key) {
                return;
            }
            let mut s = compact(n, [false; 6]);
            for (k, b) in s.bodies.iter_mut().enumerate() {
                let x = k as f64;
                b.pos = [11. * (2.1 * x).cos(), 11. * (2.1 * x).sin(), 3. * (x - 1.)];
                b.vel = [0.; 3];
                b.mass = [1.0, 1e-6, 3e-4, 5e-6, 0.4][k];
                b.radius = match d[2] {
                    0 => [4e-3, 5e-5, 4e-4, 3e-5, 2e-3][k],
                    1 => [1e-6, 2e-4, 1e-4, 2e-4, 1e-5][k], // puffy light bodies: Roche radius decides
                    _ => [0.3, 1e-5, 1e-4, 1e-5, 0.2][k],   // huge heavy bodies: contact decides
                };
            }
            let (i, j) = pairs[d[1]];
            let th = threshold(&s.bodies[i], &s.bodies[j]);
            s.bodies[j].pos = add(s.bodies[i].pos, mul(dirs[d[3]], th * facts[d[4]]));
            let inside = facts[d[4]] < 1.;
            let perm = &pm[d[0]];
            let s = permute(&s, perm);
            let mut u = build(&s);
            u.calculate_roche_radiuses();
            let r = guard(|| u.gravity_calculate_acceleration(MODES[d[5]]));
            rep.check(&key, r.is_err() == inside, || {
                format!("distance {} x threshold: {}", facts[d[4]], if inside { "the run was not stopped" } else { "the run was stopped" })
            });
            rep.states(1);
            rep.transitions(1);
            rep.group("pair encounters", 1);
        });
        // ejections: masses descending so that body 0 is the most massive
        let dist = [1., 99., 100. * (1. - 1e-7), 100. * (1. + 1e-7), 130., 1e4];
        let radix = [pm.len(), n - 1, dirs.len(), dist.len(), 3, 2];
        par(rep, product(&radix), |c| {
            let d = digits(c, &radix);
            let key = format!("eject/n={}/order={}/body={}/dir={}/dist={}/mode={}/frame={}", n, d[0], d[1] + 1, d[2], d[3], d[4], d[5]);
            if !rep.want(&key) {
                return;
            }
            let mut s = compact(n, [false; 6]);
            for (k, b) in s.bodies.iter_mut().enumerate() {
                let x = k as f64;
                b.pos = [0.9 * (2.1 * x).cos(), 0.9 * (2.1 * x).sin(), 0.3 * (x - 1.)];
                b.vel = [0.; 3];
                b.mass = [1.0, 1e-6, 0.9, 5e-6, 0.4][k];
                b.radius = 1e-8;
            }
            let k = d[1] + 1;
            s.bodies[k].pos = add(s.bodies[0].pos, mul(dirs[d[2]], dist[d[3]]));
            // all the others well on the opposite side: farther than 100 AU from the body, never from the host
            if d[5] == 1 {
                for o in 1..n {
                    if o != k {
                        s.bodies[o].pos = add(s.bodies[0].pos, mul(dirs[d[2]], -70. - o as f64));
                    }
                }
            }
            let s = permute(&s, &pm[d[0]]);
            let mut u = build(&s);
            u.calculate_roche_radiuses();
            let r = guard(|| u.gravity_calculate_acceleration(MODES[d[4]]));
            let gone = dist[d[3]] > 100.;
            rep.check(&key, r.is_err() == gone, || format!("distance {} AU from the most massive body: {}", dist[d[3]], if gone { "not reported as ejected" } else { "the run was stopped" }));
            rep.states(1);
            rep.transitions(1);
            rep.group("ejections", 1);
        });
    }
    // radii that evolve: the distance of disruption follows them
    let ff = [0.9, 0.94, 0.97, 0.985, 1.005, 1.02, 1.05];
    let radix = [EVOS.len() - 1, 5, 2, ff.len(), 2, if rep.thorough { 6 } else { 3 }];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let int = INTS[d[1]];
        let e = [0., 0.3][d[2]];
        let t = [13., 1.7, 40., 5., 0.6, 110.][d[5]] * 365.25;
        let key = format!("swell/{}/{}/e={}/roche={}q/first={}/period={}", EVOS[d[0] + 1].0, int_name(int), e, ff[d[3]], d[4], t);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(2, eff_mask(32));
        s.t0 = EVOS[d[0] + 1].2;
        s.tlim = 3. * t;
        s.bodies[0].mass = 1.;
        s.bodies[0].radius = 1e-6;
        s.bodies[1].evo = EVOS[d[0] + 1].1;
        s.bodies[1].mass = 1e-9;
        // its radius at the beginning
        let r0 = build(&s).particles[1].radius;
        let a = (gm(1.) * (t / (2. * PI)).powi(2)).powf(1. / 3.);
        let q = a * (1. - e);
        s.bodies[1].mass = (r0 / 0.462 / (q * ff[d[3]])).powi(3);
        let (x, v) = kepler_state(gm(1. + s.bodies[1].mass), a, e, 0.3, 0.2, 1.1, std::f64::consts::PI);
        s.bodies[1].pos = x;
        s.bodies[1].vel = v;
        let s = permute(&s, if d[4] == 0 { &[0, 1] } else { &[1, 0] });
        let star = if s.bodies[0].mass == 1. { 0 } else { 1 };
        let m = s.bodies[1 - star].mass;
        let mut probe = build(&s);
        let case = Case { name: String::new(), sys: s, int, dt: t / 300. };
        let mut sim = match guard(|| start(&case, 1e9, 1e9)) {
            Ok(x) => x,
            Err(why) => return rep.violation(&key, &format!("refused: {}", why)),
        };
        let p = rep.scratch.join(format!("sw{}", c));
        let mut w = writer(&p);
        let dist = |u: &Universe| {
            let (a, b) = (&u.particles[0].inertial_position, &u.particles[1].inertial_position);
            ((a.x - b.x).powi(2) + (a.y - b.y).powi(2) + (a.z - b.z).powi(2)).sqrt()
        };
        let th = |u: &Universe| u.particles[1 - star].radius / 0.462 * (1. / m).powf(1. / 3.);
        let mut deep = 0;
        let mut steps = 0;
        for _ in 0..650 {
            // where it is, with the radius it has now
            probe.calculate_spin_and_evolving_quantities(sim.time(), true);
            let ratio = dist(sim.uni()) / th(&probe);
            rep.transitions(1);
            steps += 1;
            match guard(|| sim.as_dyn().iterate(&mut w, true)) {
                Ok(Ok(_)) => {
                    deep = if ratio < 0.9999 { deep + 1 } else { 0 };
                    if deep > 2 {
                        rep.violation(&key, &format!("day {}: the planet is at {} times its Roche radius and the run goes on", sim.time(), ratio));
                        break;
                    }
                }
                Ok(Err(_)) => break,
                Err(_) => {
                    let ratio = if int == Int::Ias15 {
                        // (its steps may be long: anywhere within the next one)
                        (0..400).map(|k| {
                            probe.calculate_spin_and_evolving_quantities(sim.time() + t * 0.3 * k as f64 / 400., true);
                            q / th(&probe)
                        }).fold(ratio, f64::min)
                    } else {
                        ratio
                    };
                    rep.check(&key, ratio < 1.03, || format!("day {}: the run stops with the planet at {} times its Roche radius", sim.time(), ratio));
                    rep.group("stops by an evolving radius", 1);
                    break;
                }
            }
        }
        drop(w);
        let _ = std::fs::remove_file(&p);
        rep.states(1);
        rep.group("runs with evolving radii", 1);
        let _ = steps;
    });
    // while integrating
    let n = 3;
    let pm = perms(n);
    let pairs = [(0usize, 1usize), (0, 2), (1, 2)];
    let radix = [pm.len(), 5, 5, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let int = INTS[d[1]];
        let key = format!("run/order={}/{}/event={}/late={}", d[0], int_name(int), d[2], d[3]);
        if !rep.want(&key) {
            return;
        }
        let mut s = compact(n, [false; 6]);
        s.tlim = 1e7;
        let m = [1.0, 1e-6, 3e-6];
        for k in 0..n {
            s.bodies[k].mass = m[k];
            s.bodies[k].radius = [4e-3, 4e-5, 6e-5][k];
            s.bodies[k].pos = [[0., 0., 0.], [3., 0.2, 0.1], [-1., 4., 0.4]][k];
            s.bodies[k].vel = [[0., 0., 0.], [0., 0.01, 0.], [-0.008, -0.002, 0.]][k];
        }
        let lead = if d[3] == 1 { 25. } else { 1.3 };
        let mut dt = 0.05;
        let what: Box<dyn Fn(&[V3]) -> bool> = if d[2] < 3 {
            let (i, j) = pairs[d[2]];
            let th = threshold(&s.bodies[i], &s.bodies[j]);
            // approach at about 0.3 threshold per step
            let dir = [0.6, -0.64, 0.48];
            let sp = 0.3 * th / dt;
            s.bodies[j].pos = add(s.bodies[i].pos, mul(dir, th * (1. + 0.3 * lead)));
            s.bodies[j].vel = add(s.bodies[i].vel, mul(dir, -sp));
            Box::new(move |p: &[V3]| norm(sub(p[i], p[j])) < th)
        } else {
            let k = d[2] - 2;
            dt = 1.;
            s.bodies[k].pos = [60., -64., 48.];
            s.bodies[k].pos = mul(s.bodies[k].pos, 1. - 0.002 * lead);
            s.bodies[k].vel = [0.12, -0.128, 0.096];
            Box::new(move |p: &[V3]| norm(sub(p[0], p[k])) > 100.)
        };
        let perm = &pm[d[0]];
        let s = permute(&s, perm);
        let mut sm = sim(int, dt, 1e9, 1e9, build(&s));
        sm.as_dyn().initialize_physical_values();
        let hist = rep.scratch.join(format!("p08.{}.h", c));
        let mut w = crate::c_state::writer(&hist);
        let inv: Vec<usize> = (0..n).map(|b| perm.iter().position(|&x| x == b).unwrap()).collect();
        let mut over = 0;
        let mut stopped = false;
        for k in 0..400 {
            let before: Vec<V3> = (0..n).map(|b| v3(sm.uni().particles[inv[b]].inertial_position)).collect();
            rep.states(1);
            rep.transitions(1);
            if guard(|| sm.as_dyn().iterate(&mut w, true)).is_err() {
                stopped = true;
                // it must be about to happen: moving the bodies by one and a half step ahead shows it
                let mut near = what(&before);
                for q in 1..=60 {
                    let p: Vec<V3> = (0..n).map(|b| add(before[b], mul(v3(sm.uni().particles[inv[b]].inertial_velocity), dt * q as f64 / 30.))).collect();
                    near |= what(&p);
                }
                rep.check(&key, near || int == Int::Ias15, || format!("stopped at step {} although no condition held", k));
                break;
            }
            let after: Vec<V3> = (0..n).map(|b| v3(sm.uni().particles[inv[b]].inertial_position)).collect();
            if what(&after) {
                over += 1;
            }
            if over >= 2 {
                break;
            }
        }
        rep.check(&key, stopped, || format!("the condition held on {} consecutive steps and the run went on", over));
        rep.group("runs", 1);
        let _ = std::fs::remove_file(hist);
    });
    rep.sample(json!({"case": "eject/n=3/order=3/body=2/dir=5/dist=3/mode=1/frame=1", "expect": "stop: body beyond 100 AU of the most massive body which is listed after it"}));
}

// ------------------------------------------------------------------------------------------------ shared enumeration
/// Every participation pattern of `n` bodies in tides/flattening with host `th`, and in the disk with host `dh`.
pub fn roles(s: &mut Sys, th: usize, tmask: usize, fmask: usize, dh: usize, dmask: usize) {
    let n = s.bodies.len();
    let creep: Vec<bool> = s.bodies.iter().map(|b| matches!(b.tm, TM::Creep { .. })).collect();
    let bit = |m: usize, h: usize, i: usize| -> bool {
        let k = if i < h { i } else { i - 1 };
        m >> k & 1 == 1
    };
    for i in 0..n {
        let t = if i == th { Role::Host } else if bit(tmask, th, i) { Role::Orbit } else { Role::None };
        let f = if i == th { Role::Host } else if bit(fmask, th, i) { Role::Orbit } else { Role::None };
        let b = &mut s.bodies[i];
        b.tides = t;
        b.flat = f;
        b.disk = if i == dh { Role::Host } else if bit(dmask, dh, i) { Role::Orbit } else { Role::None };
        if !creep[i] && i == th {
            if let TM::Kaula { .. } = b.tm {
                b.tm = TM::Ctl { k2: 0.3, sigma: 1e18, scale: 1. };
            }
        }
    }
}

/// The creep and Kaula models expand a bound orbit: only pairs with the star (body 0) are bound.
pub fn bound_roles(model: usize, eff: [bool; 6], host: usize, tmask: usize, fmask: usize) -> bool {
    model == 0 || host == 0 || ((!eff[0] || tmask & !1 == 0) && (!eff[1] || fmask & !1 == 0))
}

fn total(st: &[St], a: &[V3]) -> (V3, f64) {
    st.iter().zip(a).fold(([0.; 3], 0.), |(t, s), (b, x)| (add(t, mul(*x, b.m)), s + b.m * norm(*x)))
}

/// Coplanar (creep/Kaula) or generic system with n bodies where every body can be host.
pub fn modelled(n: usize, eff: [bool; 6], model: usize) -> Sys {
    let mut s = with_model(n, eff, model);
    if model == 2 {
        for (i, b) in s.bodies.iter_mut().enumerate() {
            b.tm = TM::Kaula { kind: (i % 2) as u8 };
        }
    }
    s
}

// ------------------------------------------------------------------------------------------------ P09
pub const P09_RULE: &str = "force level: tidal model x subsets of {tides, flattening, disk} x 2..10 bodies (beyond 4, thorough 6: everybody participates) x every tidal/flattening host x every participation pattern in each effect x every disk host x every listing order; gravity for every mode. Integration: every integrator x every subset of the effects x tidal model x host position, total momentum and centre of mass after every step.";
pub const P09_ASSUME: &[&str] = &["rounding allowance 1e-12 of the sum of the magnitudes (forces), 1e-13 per step (integration)"];

pub fn p09(rep: &Rep) {
    let full = if rep.thorough { 6 } else { 4 };
    for n in 2..=10 {
        let pm = if n <= 3 { perms(n) } else { vec![] };
        let all = (1usize << (n - 1)) - 1;
        let np = if n <= full { all + 1 } else { 1 };
        // all orders only up to 3 bodies with all patterns; 4+: orders move the host to every place
        let orders: Vec<Vec<usize>> = if n <= 3 { pm.clone() } else { (0..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).collect() };
        let radix = [3usize, 8, n, np, np, orders.len(), if n <= 3 { n } else { 2 }];
        par(rep, product(&radix), |c| {
            let mut d = digits(c, &radix);
            let eff = [d[1] & 1 > 0, d[1] & 2 > 0, false, d[1] & 4 > 0, false, false];
            if n > full {
                d[3] = if eff[0] || eff[3] { all } else { 0 };
                d[4] = if eff[1] { all } else { 0 };
            }
            if !eff[0] && d[3] != 0 && !eff[3] {
                return;
            }
            if !eff[1] && d[4] != 0 {
                return;
            }
            let dh = if n <= 3 { d[6] } else { d[6] * (n - 1) };
            let key = format!("force/n={}/{}/{}/host={}/t={:b}/f={:b}/order={}/disk={}", n, MODELS[d[0]], eff_name(eff), d[2], d[3], d[4], d[5], dh);
            if !rep.want(&key) {
                return;
            }
            if !bound_roles(d[0], eff, d[2], d[3], d[4]) {
                return;
            }
            let mut s = modelled(n, eff, d[0]);
            roles(&mut s, d[2], d[3], d[4], dh, d[3]);
            let s = permute(&s, &orders[d[5]]);
            let mut u = match guard(|| fresh(&s, 3.0, IgnoreGravityTerms::None)) {
                Ok(u) => u,
                Err(e) => {
                    rep.violation(&key, &format!("a valid configuration stopped: {}", e));
                    return;
                }
            };
            let st = state(&u);
            let g = got(&u);
            for (name, a) in [("tides", &g.t_acc), ("flattening", &g.f_acc), ("disk", &g.d_acc), ("all effects", &g.add)] {
                let (t, sc) = total(&st, a);
                vclose(rep, &format!("net force: {}", name), &key, t, [0.; 3], sc, 1e-12);
            }
            for m in MODES {
                u.gravity_calculate_acceleration(m);
                let a: Vec<V3> = u.particles[..n].iter().map(|p| v3(p.inertial_acceleration)).collect();
                let (t, sc) = total(&st, &a);
                vclose(rep, "net force: gravity", &key, t, [0.; 3], sc, 1e-12);
            }
            rep.states(1);
            rep.transitions(4);
            rep.group(&format!("n={}", n), 1);
        });
    }
    let radix = [5usize, 3, 16, 3, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let int = INTS[d[0]];
        let eff = [d[2] & 1 > 0, d[2] & 2 > 0, false, d[2] & 4 > 0, d[2] & 8 > 0, false];
        let n = d[4] + 2;
        if d[3] >= n {
            return;
        }
        let key = format!("run/{}/{}/{}/host={}/n={}", int_name(int), MODELS[d[1]], eff_name(eff), d[3], n);
        if !rep.want(&key) {
            return;
        }
        let mut perm: Vec<usize> = (1..n).collect();
        perm.insert(d[3], 0);
        let s = permute(&with_model(n, eff, d[1]), &perm);
        let mut sm = sim(int, 0.04, 1e9, 1e9, build(&s));
        sm.as_dyn().initialize_physical_values();
        let hist = rep.scratch.join(format!("p09.{}.h", c));
        let mut w = crate::c_state::writer(&hist);
        let steps = if rep.thorough { 2000 } else { 40 };
        for k in 0..steps {
            sm.as_dyn().iterate(&mut w, true).unwrap();
            let st = state(sm.uni());
            let p: Vec<V3> = st.iter().map(|b| b.vel).collect();
            let x: Vec<V3> = st.iter().map(|b| b.pos).collect();
            let (tp, sp) = total(&st, &p);
            let (tx, sx) = total(&st, &x);
            vclose(rep, "total momentum", &format!("{}/step={}", key, k), tp, [0.; 3], sp, 2e-13 * (10. + k as f64));
            vclose(rep, "centre of mass", &format!("{}/step={}", key, k), tx, [0.; 3], sx, 2e-13 * (10. + k as f64));
            rep.states(1);
            rep.transitions(1);
        }
        rep.group("runs", 1);
        let _ = std::fs::remove_file(hist);
    });
    rep.sample(json!({"case": "force/n=3/kaula/TFD/host=1/t=10/f=1/order=4/disk=2"}));
}

// ------------------------------------------------------------------------------------------------ P10
pub const P10_RULE: &str = "force level: tidal model x {tides, flattening, both} x 2..10 bodies (beyond 4, thorough 6: everybody participates) x every host x participation patterns x orders, plus pairs over 6x6 spin orientations x inclination x anomaly x eccentricity; torque on spins plus torque of the forces must vanish. Integration: every integrator x effects x model x host position, total angular momentum after every step.";
pub const P10_ASSUME: &[&str] = &["rounding allowance relative to the sum of the magnitudes of the torques involved"];

fn torque_balance(rep: &Rep, key: &str, u: &Universe, model: usize, host: usize) {
    let st = state(u);
    let g = got(u);
    for (name, a, t) in [("tides", &g.t_acc, &g.t_tor), ("flattening", &g.f_acc, &g.f_tor), ("all felt", &g.add, &g.tor)] {
        if name == "all felt" && model == 1 {
            continue; // includes the finding below
        }
        if model == 2 && name != "flattening" {
            continue; // judged over a whole orbit, see kaula_balance
        }
        let mut sum = [0.; 3];
        let mut sc = 0.;
        // torque of the radial (conservative) part rounds to zero only relative to its own size
        for i in 0..st.len() {
            sum = add(sum, add(t[i], cross(st[i].pos, mul(a[i], st[i].m))));
            sc += norm(t[i]) + 1e-3 * norm(st[i].pos) * norm(a[i]) * st[i].m;
        }
        if model == 1 && name == "tides" {
            // known finding: the deformation of a creep host has a torque but no force on the orbits
            if norm(sum) > 1e-10 * sc {
                rep.violation(&format!("creep-host-torque/{}", key), &format!("torque balance: {:?} left over (host torque {:?})", sum, t[host]));
            }
            sum = sub(sum, t[host]);
        }
        vclose(rep, &format!("torque balance: {}", name), key, sum, [0.; 3], sc, 1e-10);
    }
    rep.states(1);
    rep.transitions(1);
}

/// Kaula: the torque on a spin is the orbit average of the reaction to the instantaneous force; averaging over equally
/// spaced mean anomalies is exact for the finite sums involved.
fn kaula_balance(rep: &Rep) {
    let es = [0., 0.02, 0.12, 0.18, 0.22, 0.28, 0.35];
    let spins = [0.3, 1.0, 1.9, 3.7];
    let radix = [7usize, 4, 4, 4, 2, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("kaula/e={}/s0={}/s1={}/models={}/swap={}/w={}", d[0], d[1], d[2], d[3], d[4], d[5]);
        if !rep.want(&key) || d[3] == 0 {
            return;
        }
        let (m0, q, a, e) = (0.09, 0.02, 0.02, es[d[0]]);
        let nm = 48;
        let mut avg = [0.; 3];
        let mut tor = [0.; 3];
        let mut sc = 0.;
        for k in 0..nm {
            let m = 2. * PI * (k as f64 + 0.37) / nm as f64;
            let mut ea = m;
            for _ in 0..200 {
                ea -= (ea - e * ea.sin() - m) / (1. - e * ea.cos());
            }
            let f = 2. * ((1. + e).sqrt() * (ea / 2.).sin()).atan2((1. - e).sqrt() * (ea / 2.).cos());
            let mut s = pair(m0, q, a, e, 0., [0., 2.2][d[5]], 0., f, [0., 0., spins[d[1]]], [0., 0., spins[d[2]]], [true, false, false, false, false, false]);
            if d[3] & 1 > 0 {
                s.bodies[1].tm = TM::Kaula { kind: 0 };
            }
            if d[3] & 2 > 0 {
                s.bodies[0].tm = TM::Kaula { kind: 1 };
            }
            if d[3] & 2 > 0 && d[3] & 1 == 0 {
                s.bodies[1].tm = TM::Kaula { kind: 3 };
            }
            if d[3] == 1 {
                // a host without any tide of its own
                s.bodies[0].tm = TM::Ctl { k2: 0., sigma: 0., scale: 0. };
            }
            let s = if d[4] == 1 { permute(&s, &[1, 0]) } else { s };
            let u = fresh(&s, 0., IgnoreGravityTerms::None);
            let st = state(&u);
            let g = got(&u);
            for i in 0..2 {
                let t = cross(st[i].pos, mul(g.t_acc[i], st[i].m));
                avg = add(avg, mul(t, 1. / nm as f64));
                tor = add(tor, mul(g.t_tor[i], 1. / nm as f64));
                sc += (norm(t) + norm(g.t_tor[i])) / nm as f64;
            }
            rep.states(1);
            rep.transitions(1);
        }
        vclose(rep, "orbit-averaged torque balance: kaula", &key, add(avg, tor), [0.; 3], sc, 1e-9);
        rep.group("kaula orbits", 1);
    });
}

pub fn p10(rep: &Rep) {
    let full = if rep.thorough { 6 } else { 4 };
    for n in 2..=10 {
        let all = (1usize << (n - 1)) - 1;
        let np = if n <= full { all + 1 } else { 1 };
        let orders: Vec<Vec<usize>> = if n <= 3 { perms(n) } else { (0..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).collect() };
        let radix = [3usize, 3, n, np, np, orders.len()];
        par(rep, product(&radix), |c| {
            let mut d = digits(c, &radix);
            let eff = [d[1] != 1, d[1] != 0, false, false, false, false];
            if n > full {
                d[3] = if eff[0] { all } else { 0 };
                d[4] = if eff[1] { all } else { 0 };
            }
            if (!eff[0] && d[3] != 0) || (!eff[1] && d[4] != 0) {
                return;
            }
            let key = format!("force/n={}/{}/{}/host={}/t={:b}/f={:b}/order={}", n, MODELS[d[0]], eff_name(eff), d[2], d[3], d[4], d[5]);
            if !rep.want(&key) {
                return;
            }
            if !bound_roles(d[0], eff, d[2], d[3], d[4]) {
                return;
            }
            let mut s = modelled(n, eff, d[0]);
            roles(&mut s, d[2], d[3], d[4], 0, 0);
            let s = permute(&s, &orders[d[5]]);
            let u = match guard(|| fresh(&s, 3.0, IgnoreGravityTerms::None)) {
                Ok(u) => u,
                Err(e) => {
                    rep.violation(&key, &format!("a valid configuration stopped: {}", e));
                    return;
                }
            };
            let h = orders[d[5]].iter().position(|&i| i == d[2]).unwrap();
            torque_balance(rep, &key, &u, d[0], h);
            rep.group(&format!("n={}", n), 1);
        });
    }
    let es = [0., 0.3, 0.85];
    let incs = [0., 0.4, PI / 2., 2.5, PI];
    let fs = [0., 1.1, 2.6, PI, 4.4];
    let radix = [3usize, 5, 5, 6, 6, 3, 2];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("pair/e={}/i={}/f={}/s0={}/s1={}/q={}/swap={}", d[0], d[1], d[2], d[3], d[4], d[5], d[6]);
        if !rep.want(&key) {
            return;
        }
        let s = pair(0.5, [1e-5, 3e-2, 0.9][d[5]], 0.02, es[d[0]], incs[d[1]], 0.7, 2.0, fs[d[2]], SPINS[d[3]], SPINS[d[4]], [true, true, false, false, false, false]);
        let s = if d[6] == 1 { permute(&s, &[1, 0]) } else { s };
        torque_balance(rep, &key, &fresh(&s, 0., IgnoreGravityTerms::None), 0, 0);
        rep.group("pairs", 1);
    });
    kaula_balance(rep);
    let radix = [5usize, 3, 3, 4, 3];
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let int = INTS[d[0]];
        let eff = [d[2] != 1, d[2] != 0, false, false, false, false];
        let n = d[4] + 2;
        if d[3] >= n {
            return;
        }
        let key = format!("run/{}/{}/{}/host={}/n={}", int_name(int), MODELS[d[1]], eff_name(eff), d[3], n);
        if !rep.want(&key) {
            return;
        }
        let mut perm: Vec<usize> = (1..n).collect();
        perm.insert(d[3], 0);
        if d[1] == 2 {
            return; // orbit averages only, see kaula_balance
        }
        let mut s = with_model(n, eff, d[1]);
        if d[1] == 1 {
            s.bodies[0].tm = TM::Creep { eta: 1e25 }; // known finding: a creep host that deforms breaks the balance
            s.bodies[0].flat_creep = Some(1e25);
            s.bodies[0].spin[2] = 9.;
        }
        let s = permute(&s, &perm);
        let mut sm = sim(int, 0.04, 1e9, 1e9, build(&s));
        sm.as_dyn().initialize_physical_values();
        let hist = rep.scratch.join(format!("p10.{}.h", c));
        let mut w = crate::c_state::writer(&hist);
        let amt = |u: &Universe| -> (V3, V3) {
            let st = state(u);
            let spin = u.particles[..n].iter().fold([0.; 3], |a, p| add(a, v3(p.angular_momentum)));
            (add(spin, st.iter().fold([0.; 3], |a, b| add(a, mul(cross(b.pos, b.vel), b.m)))), spin)
        };
        let (l0, s0) = amt(sm.uni());
        let mut moved: f64 = 0.;
        let mut path = 0.;
        let mut last = s0;
        let nsteps = if rep.thorough { 2000 } else { 40 };
        for k in 0..nsteps {
            sm.as_dyn().iterate(&mut w, true).unwrap();
            let (l1, s1) = amt(sm.uni());
            moved = moved.max(norm(sub(s1, s0)));
            path += norm(sub(s1, last));
            last = s1;
            // the leapfrog updates spins and orbits at different instants of the step: accurate to its order only
            let tol = 1e-13 * (10. + k as f64) + if int == Int::Leap { 0.25 * path / norm(l0) } else { 0. };
            vclose(rep, &format!("total angular momentum ({})", int_name(int)), &format!("{}/step={}", key, k), l1, l0, norm(l0), tol);
            rep.states(1);
            rep.transitions(1);
        }
        if int == Int::Leap {
            let e1 = norm(sub(amt(sm.uni()).0, l0));
            let mut fine = sim(int, 0.01, 1e9, 1e9, build(&s));
            fine.as_dyn().initialize_physical_values();
            for _ in 0..4 * nsteps {
                fine.as_dyn().iterate(&mut w, true).unwrap();
                rep.states(1);
                rep.transitions(1);
            }
            let e4 = norm(sub(amt(fine.uni()).0, l0));
            rep.check(&key, e4 <= 0.4 * e1 + 4e-11 * norm(l0), || format!("angular momentum error does not shrink with the step: {:e} at step 0.04, {:e} at 0.01", e1, e4));
        }
        rep.err("exchanged with spins (fraction of total; larger than the tolerance)", norm(l0) * 1e-11 / (moved + 1e-300), 1., &key);
        rep.group("runs", 1);
        let _ = std::fs::remove_file(hist);
    });
    rep.sample(json!({"case": "run/whds/creep/TF/host=1/n=3"}));
}
