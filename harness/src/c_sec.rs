//! P30: slow changes of orbits and spins against secular theory.
use crate::c_force::{pair, permute};
use crate::c_state::*;
use crate::refm::*;
use crate::sys::*;
use crate::util::*;
use serde_json::json;
use std::f64::consts::PI;

pub const P30_RULE: &str = "runs of the real simulator over 12 orbits (thorough: 24) for every integrator and coordinate system x listing order x with and without a distant bystander x {rotational flattening, tidal bulge without lag, constant-time-lag dissipation, Kaula with a linear Love number table, creep of a planet on a circular orbit} x deformed body (planet, host) x eccentricity x orientation of the spin x spin rate (slow, fast, retrograde) x integer; the heat reported for the planet (constant time lag), and the change of the mean of semi-major axis, eccentricity vector, orbital plane and spin vector from the first to the last orbit, less that of the same run without the effect, is compared with the published secular rates (J2 and tidal precession of the pericentre, node and spin axis; Hut 1981 with obliquity after Leconte et al. 2010).";
pub const P30_ASSUME: &[&str] = &["first order in the perturbation: effects are scaled to 1e-7 to 1e-5 of the Keplerian motion", "Kaula: eccentricities for which the series is complete (up to 0.1) and spins perpendicular to the orbit (tilted ones are the known finding of P25)"];

/// Mean elements over an orbit.
#[derive(Clone, Copy, Default)]
struct Mean {
    w: f64,
    t: f64,
    a: f64,
    e: V3,
    l: V3,
    sp: [V3; 2],
    heat: f64,
}

fn add_to(m: &mut Mean, w: f64, t: f64, x: &(f64, V3, V3, [V3; 2], f64)) {
    m.w += w;
    m.t += w * t;
    m.a += w * x.0;
    m.e = add(m.e, mul(x.1, w));
    m.l = add(m.l, mul(x.2, w));
    m.heat += w * x.4;
    for k in 0..2 {
        m.sp[k] = add(m.sp[k], mul(x.3[k], w));
    }
}

fn run(s: &Sys, int: Int, dt: f64, ix: [usize; 2], period: f64, norb: f64, warm: bool, file: &std::path::Path) -> Result<[Mean; 2], String> {
    guard(|| {
        let mut sm = sim(int, dt, 1e12, 1e12, build(s));
        sm.as_dyn().initialize_physical_values();
        let mut w = writer(file);
        let mu = C_G * (s.bodies[ix[0]].mass + s.bodies[ix[1]].mass);
        let look = |sm: &Sim| {
            let u = sm.uni();
            let (h, p) = (&u.particles[ix[0]], &u.particles[ix[1]]);
            let x = sub(v3(p.inertial_position), v3(h.inertial_position));
            let v = sub(v3(p.inertial_velocity), v3(h.inertial_velocity));
            let l = cross(x, v);
            let e = sub(mul(cross(v, l), 1. / mu), mul(x, 1. / norm(x)));
            let a = 1. / (2. / norm(x) - dot(v, v) / mu);
            let heat = if warm {
                let mut c = copy_universe(u);
                c.calculate_denergy_dt();
                c.particles[ix[1]].tides.parameters.internal.denergy_dt
            } else {
                0.
            };
            (a, e, mul(l, 1. / norm(l)), [v3(h.spin), v3(p.spin)], heat)
        };
        let mut m = [Mean::default(); 2];
        let (mut t, mut x) = (0., look(&sm));
        while t < norb * period {
            sm.as_dyn().iterate(&mut w, true).map_err(|_| "stopped").unwrap();
            let (t2, x2) = (sm.time(), look(&sm));
            let mid = 0.5 * (t + t2);
            for (k, from) in [0., (norb - 1.) * period].into_iter().enumerate() {
                if mid >= from && mid < from + period {
                    add_to(&mut m[k], 0.5 * (t2 - t), t, &x);
                    add_to(&mut m[k], 0.5 * (t2 - t), t2, &x2);
                }
            }
            t = t2;
            x = x2;
        }
        for k in m.iter_mut() {
            let w = 1. / k.w;
            *k = Mean { w: k.w, t: k.t * w, a: k.a * w, e: mul(k.e, w), l: mul(k.l, w), sp: [mul(k.sp[0], w), mul(k.sp[1], w)], heat: k.heat * w };
        }
        m
    })
}

/// Rates of semi-major axis (relative), eccentricity vector, direction of the orbital angular momentum, and spins.
#[derive(Default)]
struct Rates {
    a: f64,
    e: V3,
    l: V3,
    sp: [Option<V3>; 2],
}

struct Setup {
    name: String,
    s: Sys,
    dt_per_orbit: f64,
    want: Rates,
    /// size of the effect per unit time
    scale: f64,
    /// size of the turn of the eccentricity vector
    turn: f64,
    /// heat of the planet and its scale
    heat: Option<(f64, f64)>,
    spin_scale: f64,
}

const A: f64 = 0.05;

fn hut(e: f64) -> [f64; 5] {
    let x = e * e;
    [
        1. + x * (15.5 + x * (31.875 + x * (11.5625 + x * 25. / 64.))),
        1. + x * (7.5 + x * (5.625 + x * 0.3125)),
        1. + x * (3.75 + x * (1.875 + x * 5. / 64.)),
        1. + x * (1.5 + x * 0.125),
        1. + x * (3. + x * 0.375),
    ]
}

fn setups(thorough: bool) -> Vec<Setup> {
    let mut v = vec![];
    let es: &[f64] = if thorough { &[0., 0.05, 0.15, 0.3, 0.5, 0.6] } else { &[0.05, 0.3, 0.6] };
    for which in 0..2usize {
        for (ei, &e) in es.iter().enumerate() {
            for ratio in if which == 0 { vec![1e-3, 0.3] } else { vec![0.3] } {
                // (the orbits of the Kaula cases are in the reference plane: rounding alone tilts others)
                let inc = if e <= 0.1 { 0. } else { [2.4, 0.9, 1.4][(ei + which) % 3] };
                let s0 = pair(1., ratio, A, e, inc, 0.7, 1.9, 0.4, [0., 0., 1e-3], [0., 0., 1e-3], [false; 6]);
                let mu = C_G * (1. + ratio);
                let n = (mu / (A * A * A)).sqrt();
                let x = sub(s0.bodies[1].pos, s0.bodies[0].pos);
                let vel = sub(s0.bodies[1].vel, s0.bodies[0].vel);
                let l = cross(x, vel);
                let lh = mul(l, 1. / norm(l));
                let ev = sub(mul(cross(vel, l), 1. / mu), mul(x, 1. / norm(x)));
                let eh = if e > 0. { mul(ev, 1. / e) } else { mul(x, 1. / norm(x)) };
                let (ms, mo) = (s0.bodies[which].mass, s0.bodies[1 - which].mass);
                let radius = 0.02 * A;
                let f = 1. - e * e;
                let lorb = ms * mo / (ms + mo) * n * A * A * f.sqrt();
                let tilted = |tilt: f64, rate: f64| mul(add(mul(lh, tilt.cos()), mul(add(mul(eh, 0.6), mul(cross(lh, eh), 0.8)), tilt.sin())), rate);
                let base = |spin: V3, rg2: f64| {
                    let mut s = s0.clone();
                    s.tlim = 1e9;
                    for b in s.bodies.iter_mut() {
                        b.radius = 1e-6;
                        b.rg = 1.;
                        b.tides = Role::None;
                        b.flat = Role::None;
                        b.gr = Role::None;
                        b.disk = Role::None;
                        b.wind = None;
                        b.tm = TM::Ctl { k2: 0., sigma: 0., scale: 1. };
                        b.flat_k2 = 0.;
                    }
                    s.bodies[which].radius = radius;
                    s.bodies[which].rg = rg2.sqrt();
                    s.bodies[which].spin = spin;
                    s
                };
                // rotational flattening
                for (ti, tilt) in [0., 0.6, 1.7, PI].into_iter().enumerate() {
                    let j2 = 3e-6 * f * f / (radius / A).powi(2);
                    let rate = n * [3., 0.7, 6., 2.][ti];
                    let k2 = 3. * j2 * C_G * ms / (radius.powi(3) * rate * rate);
                    // the spin axis turns by as much as the orbit
                    let rg2 = lorb / (ms * radius * radius * rate);
                    let spin = tilted(tilt, rate);
                    let mut s = base(spin, rg2);
                    s.eff[FLAT] = true;
                    s.bodies[0].flat = Role::Host;
                    s.bodies[1].flat = Role::Orbit;
                    s.bodies[which].flat_k2 = k2;
                    let sh = mul(spin, 1. / rate);
                    let c = dot(sh, lh);
                    let k = 1.5 * n * 3e-6;
                    let node = mul(cross(sh, lh), -k * c);
                    let e_dot = add(mul(cross(sh, ev), -k * c), mul(cross(lh, ev), 0.5 * k * (5. * c * c - 1.)));
                    let spin_dot = mul(node, -lorb / (rg2 * ms * radius * radius));
                    let mut want = Rates { a: 0., e: e_dot, l: node, sp: [None; 2] };
                    want.sp[which] = Some(spin_dot);
                    v.push(Setup { name: format!("flattening/body={}/e={}/ratio={}/tilt={}", which, e, ratio, tilt), s, dt_per_orbit: 100., want, scale: k, turn: k, heat: None, spin_scale: k * rate });
                }
                // tidal bulge that does not lag
                for (ti, tilt) in [0., 1.1].into_iter().enumerate() {
                    let k2 = 1e-6 * f.powi(5) / (7.5 * (mo / ms) * (radius / A).powi(5));
                    let rate = n * [0.4, 3.][ti];
                    let spin = tilted(tilt, rate);
                    let mut s = base(spin, 0.3);
                    s.eff[TIDES] = true;
                    s.bodies[0].tides = Role::Host;
                    s.bodies[1].tides = Role::Orbit;
                    s.bodies[which].tm = TM::Ctl { k2, sigma: 0., scale: 1. };
                    let k = n * 1e-6 * hut(e)[3];
                    let mut want = Rates { a: 0., e: mul(cross(lh, ev), k), l: [0.; 3], sp: [None; 2] };
                    want.sp[which] = Some([0.; 3]);
                    v.push(Setup { name: format!("bulge/body={}/e={}/ratio={}/tilt={}", which, e, ratio, tilt), s, dt_per_orbit: 100., want, scale: k, turn: k, heat: None, spin_scale: k * rate });
                }
                // creep tides of a planet on a circular orbit that spins faster than it revolves
                if which == 1 && e == es[0] {
                    for wn in [3., 6.] {
                        let s1 = pair(1., ratio, A, 0., 0., 0.7, 1.9, 0.4, [0., 0., 1e-3], [0., 0., 1e-3], [false; 6]);
                        let q = mo / ms;
                        let gamma = 200. * n;
                        let k2tau = 1.5 / gamma;
                        let r = A * (1e-8 * n * A.powi(3) / (C_G * ms * k2tau * q * (1. + q))).powf(0.2);
                        let size = k2tau * C_G * ms / r.powi(3) * (r / A).powi(8) * q * (1. + q);
                        let eta = 3. * C_G * ms * ms / (8. * PI * r.powi(4) * gamma);
                        let rate = n * wn;
                        let spin_unit = 3. * size / (1. + q) * q * (A / r).powi(2) * n;
                        let rg2 = spin_unit * (1. + wn) / (size * rate);
                        let mut s = base([0., 0., rate], rg2);
                        s.bodies[0].pos = s1.bodies[0].pos;
                        s.bodies[0].vel = s1.bodies[0].vel;
                        s.bodies[1].pos = s1.bodies[1].pos;
                        s.bodies[1].vel = s1.bodies[1].vel;
                        s.bodies[1].radius = r;
                        s.eff[TIDES] = true;
                        s.bodies[0].tides = Role::Host;
                        s.bodies[1].tides = Role::Orbit;
                        s.bodies[1].tm = TM::Creep { eta };
                        let mut want = Rates { a: -6. * size * (1. - wn), e: [0.; 3], l: [0.; 3], sp: [None; 2] };
                        want.sp[1] = Some([0., 0., spin_unit / rg2 * (1. - wn)]);
                        v.push(Setup { name: format!("creep/spin={}", wn), s, dt_per_orbit: 100., want, scale: 6. * size * (1. + wn), turn: f64::INFINITY, heat: None, spin_scale: spin_unit / rg2 * (1. + wn) });
                    }
                }
                // dissipation
                let q = mo / ms;
                let h = hut(e);
                for (tilt, wn) in [(0., 0.1), (0., 1.), (0., 7.), (PI, 2.), (0.8, 3.), (2.3, 0.6)] {
                    for model in 0..2 {
                        if model == 1 && (tilt != 0. || e > 0.1) {
                            continue;
                        }
                        // k/T (R/a)^8 q (1 + q)
                        let size = 2e-7 * n * f.powf(7.5) / h[0] / (1. + wn);
                        let kt = size / (q * (1. + q) * (radius / A).powi(8));
                        // k2 tau = kt R^3/(G m)
                        let (mut radius_used, mut size_used) = (radius, size);
                        let k2tau = kt * radius.powi(3) / (C_G * ms);
                        let rate = n * wn;
                        let mut tm = TM::Ctl { k2: 0.1 * (k2tau * n).min(1.), sigma: k2tau * 2. * C_G / (3. * radius.powi(5)) / 2.5, scale: 2.5 };
                        if model == 1 {
                            // the table has k2 tau = 0.3 x 600 s
                            let kt = 0.3 * 600. / 86400.;
                            radius_used = A * (1e-9 * n * A.powi(3) / (C_G * ms * kt * q * (1. + q))).powf(0.2);
                            let unit = C_G * ms / radius_used.powi(3) * kt;
                            size_used = unit * (radius_used / A).powi(8) * q * (1. + q);
                            tm = TM::Kaula { kind: 10 };
                        }
                        // spin relative rate comparable with that of the orbit
                        let f_a = h[0] / f.powf(7.5);
                        let spin_unit = 3. * size_used / (1. + q) * q * (A / radius_used).powi(2) * n / f.powi(6);
                        let rg2 = spin_unit * (h[1] + wn * h[4]) / (size_used * f_a * rate);
                        let spin = tilted(tilt, rate);
                        let mut s = base(spin, rg2);
                        s.bodies[which].radius = radius_used;
                        s.eff[TIDES] = true;
                        s.bodies[0].tides = Role::Host;
                        s.bodies[1].tides = Role::Orbit;
                        if model == 1 {
                            s.bodies[1 - which].tm = TM::Kaula { kind: 11 };
                        }
                        s.bodies[which].tm = tm;
                        let c = tilt.cos();
                        let g = f.powf(1.5);
                        let a_dot = -6. * size_used / f.powf(7.5) * (h[0] - g * h[1] * c * wn);
                        let e_dot = -27. * size_used * e / f.powf(6.5) * (h[2] - 11. / 18. * g * h[3] * c * wn);
                        let mut want = Rates { a: a_dot, e: mul(eh, e_dot), l: [0.; 3], sp: [None; 2] };
                        let mut spin_scale = 0.;
                        let mut heat = None;
                        if c.abs() == 1. {
                            let w_dot = spin_unit / rg2 * (h[1] - g * h[4] * c * wn);
                            want.sp[which] = Some(mul(lh, w_dot));
                            spin_scale = spin_unit / rg2 * (h[1] + g * h[4] * wn);
                            if which == 1 && model == 0 {
                                // what orbit and spin lose
                                let inertia = rg2 * ms * radius_used * radius_used;
                                let orb = C_G * ms * mo / (2. * A);
                                heat = Some((-orb * a_dot - inertia * rate * c * w_dot, orb * 6. * size_used / f.powf(7.5) * (h[0] + g * h[1] * wn) + inertia * rate * spin_scale));
                            }
                        }
                        let scale = 6. * size_used / f.powf(7.5) * (h[0] + g * h[1] * wn);
                        let mut turn = scale;
                        if model == 1 {
                            let k = 7.5 * 0.3 * n * q * (radius_used / A).powi(5) * h[3] / f.powi(5);
                            want.e = add(want.e, mul(cross(lh, ev), k));
                            turn += k;
                        }
                        let name = ["constant-time-lag", "kaula"][model];
                        v.push(Setup { name: format!("{}/body={}/e={}/ratio={}/tilt={}/spin={}", name, which, e, ratio, tilt, wn), s, dt_per_orbit: 100., want, scale, turn, heat, spin_scale });
                    }
                }
            }
        }
    }
    v
}

pub fn p30(rep: &Rep) {
    let v = setups(rep.thorough);
    let radix = [v.len(), INTS.len(), 2, 2];
    rep.group("secular runs", product(&radix) as u64);
    let norb = if rep.thorough { 24. } else { 12. };
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let t = &v[d[0]];
        let int = INTS[d[1]];
        let key = format!("{}/{}/{}{}", t.name, int_name(int), ["host-first", "planet-first"][d[2]], ["", "/bystander"][d[3]]);
        if !rep.want(&key) {
            return;
        }
        // (quick: the bystander in every other case)
        if !rep.thorough && d[3] != (d[0] + d[1] + d[2]) % 2 {
            return;
        }
        let mut s = t.s.clone();
        let ix = if d[2] == 1 {
            s = permute(&s, &[1, 0]);
            [1, 0]
        } else {
            [0, 1]
        };
        if d[3] == 1 {
            let mut b = s.bodies[ix[1]].clone();
            b.mass = 1e-15;
            b.pos = [11., -7., 2.];
            b.vel = [0.002, 0.004, 0.];
            b.tides = Role::None;
            b.flat = Role::None;
            b.radius = 1e-8;
            s.bodies.push(b);
        }
        let mu = C_G * (t.s.bodies[0].mass + t.s.bodies[1].mass);
        let period = 2. * PI * (A * A * A / mu).sqrt();
        let steps = t.dt_per_orbit * match int { Int::Leap => 8., Int::Demo => 2., _ => 1. };
        let dt = period / steps;
        let f = rep.scratch.join(format!("p30.{}.h", c));
        let with = run(&s, int, dt, ix, period, norb, t.heat.is_some(), &f);
        let mut s0 = s.clone();
        s0.eff = [false; 6];
        let without = run(&s0, int, dt, ix, period, norb, false, &f);
        let _ = std::fs::remove_file(&f);
        rep.states(2 * (norb * steps) as u64);
        rep.transitions(2 * (norb * steps) as u64);
        rep.traces(1);
        let (m, z) = match (with, without) {
            (Ok(m), Ok(z)) => (m, z),
            (Err(e), _) | (_, Err(e)) => return rep.violation(&key, &format!("stopped: {}", e)),
        };
        let (tm, tz) = (m[1].t - m[0].t, z[1].t - z[0].t);
        let tol = 0.02;
        let diff = |x: [V3; 2], y: [V3; 2]| sub(mul(sub(x[1], x[0]), 1. / tm), mul(sub(y[1], y[0]), 1. / tz));
        let a = ((m[1].a - m[0].a) / tm - (z[1].a - z[0].a) / tz) / A;
        rep.close("rate of the semi-major axis", &key, a / t.scale, t.want.a / t.scale, 0.006);
        let e = diff([m[0].e, m[1].e], [z[0].e, z[1].e]);
        let off = sub(e, t.want.e);
        let eh = mul(z[0].e, 1. / norm(z[0].e).max(1e-12));
        let along = if norm(z[0].e) > 1e-3 { dot(off, eh) } else { norm(off) };
        // (a bulge makes a circular orbit slightly eccentric in its osculating elements)
        let along = if t.turn.is_infinite() { 0. } else { along };
        rep.close("rate of the eccentricity", &key, along / t.scale, 0., if rep.thorough { 0.02 } else { 0.01 });
        rep.close("turn of the eccentricity vector", &key, norm(sub(off, mul(eh, along))) / t.turn, 0., tol);
        let l = diff([m[0].l, m[1].l], [z[0].l, z[1].l]);
        if t.want.sp.iter().any(|x| x.is_some()) {
            rep.close("rate of the orbital plane", &key, norm(sub(l, t.want.l)) / t.scale, 0., 0.005);
        }
        if let Some((w, sc)) = t.heat {
            rep.close("tidal heat", &key, 0.5 * (m[0].heat + m[1].heat) / sc, w / sc, 1.5 * tol);
        }
        for k in 0..2 {
            if let Some(w) = t.want.sp[k] {
                let g = diff([m[0].sp[k], m[1].sp[k]], [z[0].sp[k], z[1].sp[k]]);
                rep.close("rate of the spin", &key, norm(sub(g, w)) / t.spin_scale, 0., 0.006);
            }
        }
    });
    rep.sample(json!({"case": "constant-time-lag/body=1/e=0.3/ratio=0.3/tilt=0/spin=7/democratic/planet-first/bystander", "steps": "run 12 orbits with and without tides, average over first and last orbit, difference per time vs. Hut 1981"}));
}
