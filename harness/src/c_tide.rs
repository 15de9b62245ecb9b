//! P25: creep and Kaula tides against their published response.
use crate::c_force::*;
use crate::c_misc::state_from;
use crate::refm::C_G;
use crate::sys::*;
use crate::util::*;
use posidonius::constants::{M_EARTH, R_EARTH, R_SUN};
use posidonius::*;
use serde_json::json;
use std::f64::consts::PI;

pub const P25_RULE: &str = "Kaula: every combination of eccentricity, orbital phase, pericentre direction, spin, Love number table (dense, long, one point, two points, full, all points below or above the tidal frequencies, with negative frequencies), body with the response (planet, host, both), listing order and number of planets, against the double sum over harmonics with Hansen coefficients expanded numerically (contour integration) and an independent table look-up; plus a table linear in frequency against the constant-time-lag law. Creep: every combination of eccentricity, phase, pericentre, spin on both sides of the change of regime, viscosity from stiff to fluid, tides and flattening separately, body (planet, host), listing order, against the analytic solution of the creep equation with the same Hansen expansion and the published near-synchronous expansion.";
pub const P25_ASSUME: &[&str] = &["coplanar, prograde, bound orbits in the reference plane (validity range of both models as implemented)", "Hansen coefficients to seventh order in the eccentricity, as published", "the change of regime of the creep model and the changes of the number of Kaula terms are approached from both sides but not hit exactly"];

// ------------------------------------------------------------------ Hansen coefficients X_k^{-3,m}, Taylor series in e to order 7
#[derive(Clone, Copy)]
struct C(f64, f64);
impl C {
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
    fn scale(self, k: f64) -> C {
        C(self.0 * k, self.1 * k)
    }
    fn inv(self) -> C {
        let d = self.0 * self.0 + self.1 * self.1;
        C(self.0 / d, -self.1 / d)
    }
    fn exp(self) -> C {
        let m = self.0.exp();
        C(m * self.1.cos(), m * self.1.sin())
    }
    fn sqrt(self) -> C {
        let r = self.0.hypot(self.1).sqrt();
        let a = self.1.atan2(self.0) / 2.;
        C(r * a.cos(), r * a.sin())
    }
}

fn hansen_taylor(m: i32, k: i32) -> [f64; 8] {
    let (rho, nt, ne) = (0.3f64, 64, 256);
    let mut out = [0f64; 8];
    for a in 0..nt {
        let th = 2. * PI * a as f64 / nt as f64;
        let e = C(rho * th.cos(), rho * th.sin());
        let root = C(1., 0.).add(e.mul(e).scale(-1.)).sqrt();
        let mut x = C(0., 0.);
        for b in 0..ne {
            let ea = 2. * PI * b as f64 / ne as f64;
            let r = C(1., 0.).add(e.scale(-ea.cos()));
            let z = C(ea.cos(), 0.).add(e.scale(-1.)).add(C(0., 1.).mul(root).scale(ea.sin()));
            // (r/a)^-2 e^{imv} e^{-ikM} dE
            let ri = r.inv();
            let mut f = ri.mul(ri);
            for _ in 0..m {
                f = f.mul(z).mul(ri);
            }
            let mean = C(ea, 0.).add(e.scale(-ea.sin()));
            f = f.mul(C(0., -(k as f64)).mul(mean).exp());
            x = x.add(f.scale(1. / ne as f64));
        }
        for p in 0..8 {
            let w = C(0., -(p as f64) * th).exp();
            out[p] += x.mul(w).0 / nt as f64 / rho.powi(p as i32);
        }
    }
    out
}

pub struct Hansen {
    x0: [[f64; 8]; 15], // q = -7..7 : X_q^{-3,0}
    x2: [[f64; 8]; 15], // q = -7..7 : X_{2+q}^{-3,2}
}
impl Hansen {
    pub fn new() -> Hansen {
        let mut h = Hansen { x0: [[0.; 8]; 15], x2: [[0.; 8]; 15] };
        for i in 0..15 {
            h.x0[i] = hansen_taylor(0, i as i32 - 7);
            h.x2[i] = hansen_taylor(2, i as i32 - 5);
        }
        h
    }
    fn poly(c: &[f64; 8], e: f64) -> f64 {
        c.iter().rev().fold(0., |s, x| s * e + x)
    }
    fn at(&self, e: f64) -> ([f64; 15], [f64; 15]) {
        let mut a = [0.; 15];
        let mut b = [0.; 15];
        for i in 0..15 {
            a[i] = Self::poly(&self.x0[i], e);
            b[i] = Self::poly(&self.x2[i], e);
        }
        (a, b)
    }
}

/// Orbit of the relative motion in the reference plane.
struct Orb {
    a: f64,
    e: f64,
    n: f64,
    m: f64, // mean anomaly
    r: f64,
    er: V3,
    ep: V3,
}
fn orbit(mu: f64, x: V3, v: V3) -> Orb {
    let r = norm(x);
    let v2 = dot(v, v);
    let a = 1. / (2. / r - v2 / mu);
    let h = cross(x, v);
    let ev = sub(mul(cross(v, h), 1. / mu), mul(x, 1. / r));
    let e = norm(ev);
    let n = (mu / (a * a * a)).sqrt();
    let (ec, es) = (1. - r / a, dot(x, v) / (mu * a).sqrt());
    let ea = es.atan2(ec);
    let er = mul(x, 1. / r);
    let ep = cross(mul(h, 1. / norm(h)), er);
    Orb { a, e, n, m: ea - es, r, er, ep }
}

/// Love number at a frequency: linear between the points, constant beyond them; planets respond symmetrically.
fn love(tab: &(Vec<f64>, Vec<f64>, Vec<f64>), sigma: f64, planet: bool) -> (f64, f64) {
    let flip = planet && sigma < 0.;
    let s = if flip { -sigma } else { sigma };
    let (w, re, im) = tab;
    let k = w.len();
    let (a, b) = if s <= w[0] {
        (re[0], im[0])
    } else if s >= w[k - 1] {
        (re[k - 1], im[k - 1])
    } else {
        let i = (1..k).find(|&i| s <= w[i]).unwrap();
        let t = (s - w[i - 1]) / (w[i] - w[i - 1]);
        (re[i - 1] + t * (re[i] - re[i - 1]), im[i - 1] + t * (im[i] - im[i - 1]))
    };
    (-a, if flip { -b } else { b })
}

fn terms(e: f64) -> i32 {
    if e > 0.3 {
        7
    } else if e > 0.25 {
        6
    } else if e > 0.2 {
        5
    } else if e > 0.15 {
        4
    } else if e > 0.1 {
        3
    } else {
        2
    }
}

/// Force on the planet (radial, transverse) and rate of change of the spin of the responding body, Kaula.
fn kaula_ref(h: &Hansen, o: &Orb, perturber: f64, radius: f64, spin: f64, tab: &(Vec<f64>, Vec<f64>, Vec<f64>), planet: bool) -> ([f64; 3], [f64; 3]) {
    let (x0, x2) = h.at(o.e);
    let q = if o.e < 1e-12 { 0 } else { terms(o.e) };
    let c = C_G * perturber * perturber * radius.powi(5) / (o.a.powi(6) * o.r);
    let day = 86400.;
    let (mut fr, mut ft, mut sec) = (0., 0., 0.);
    let (mut sr, mut st, mut ss) = (0., 0., 0.);
    for k in -q..=q {
        let i = (k + 7) as usize;
        let (r0, i0) = love(tab, k as f64 * o.n / day, planet);
        let (r2, i2) = love(tab, ((2 + k) as f64 * o.n - 2. * spin) / day, planet);
        for j in -q..=q {
            let l = (j + 7) as usize;
            let al = (j - k) as f64 * o.m;
            let (s, co) = al.sin_cos();
            let w0 = if i == 7 { (1. - o.e * o.e).powf(-1.5) } else { x0[i] } * if l == 7 { (1. - o.e * o.e).powf(-1.5) } else { x0[l] };
            let w2 = x2[i] * x2[l];
            fr += 0.75 * w0 * (co * r0 - s * i0) + 2.25 * w2 * (co * r2 - s * i2);
            ft += 1.5 * w2 * (s * r2 + co * i2);
            sr += 0.75 * (w0 * r0).abs() + 2.25 * (w2 * r2).abs() + (w2 * i2).abs();
            st += 1.5 * (w2 * r2).abs() + (w2 * i2).abs();
        }
        sec += 1.5 * x2[i] * x2[i] * i2;
        ss += 1.5 * (x2[i] * x2[i] * i2).abs();
    }
    ([-c * fr, -c * ft, c * o.r * sec], [c * sr, c * st, c * o.r * ss])
}

pub struct Creep {
    pub x: f64,
    pub y: f64,
    pub z: f64,
}
/// Shape of a body of mass m (radius, viscosity, spin) under a companion.
fn creep_ref(h: &Hansen, o: &Orb, m: f64, comp: f64, radius: f64, eta: f64, spin: f64, tides: bool) -> Creep {
    let g = 3. * C_G * m * m / (8. * PI * radius.powi(4) * eta);
    let erho = if tides { 15. / 4. * comp / m * (radius / o.a).powi(3) } else { 0. };
    let ez = if tides { 0. } else { 1.25 * spin * spin * radius.powi(3) / (C_G * m) };
    let lim = if g < o.n { 0.9 * o.n } else { o.n * (1. + 7. * o.e * o.e) };
    let e = o.e;
    if spin < lim {
        // near-synchronous stationary solution to second order in the eccentricity
        let x = o.n / g;
        let x2 = x * x;
        let f = comp / (m + comp);
        let al = 1. - 3. * f * erho;
        let da = 1. + al * al * x2;
        let d1 = 1. + x2;
        let (s, c) = o.m.sin_cos();
        let rho = erho * ((1. + 1.5 * e * e - 4. * x2 * e * e / da) + 3. * e / d1 * (c + x * s));
        let z = erho * (0.5 + 0.75 * e * e)
            + ez * (1. + 12. * e * e * (1. + al * x2) / (d1 * da) + 2. * (1. - al) * (1. - al) * x2 * e * e / da)
            + 1.5 * erho * e / d1 * ((1. - 16. * f * x2 * ez / da) * c + (x + 8. * f * x * (1. - al * x2) * ez / da) * s);
        let delta = 3. * x * e * e / d1 * (2. + (1. + al) * x2) / da - 2. * x * e / da * (c + al * x * s);
        Creep { x: rho * (2. * delta).cos(), y: rho * (2. * delta).sin(), z }
    } else {
        // dz/dt = g (z_eq - z) + 2 i spin z with the expansion of (a/r)^3 e^{2iv}
        let (x0, x2) = h.at(e);
        // direction of the companion
        let ea = {
            let mut x = o.m;
            for _ in 0..200 {
                x -= (x - e * x.sin() - o.m) / (1. - e * x.cos());
            }
            x
        };
        let tv = ((1. - e * e).sqrt() * ea.sin()).atan2(ea.cos() - e);
        let (mut x, mut y, mut z) = (0., 0., 0.);
        for i in 0..15 {
            let k = i as f64 - 5.;
            let nu = 2. * spin - k * o.n;
            let (s, c) = (k * o.m - 2. * tv).sin_cos();
            let w = g * x2[i] / (g * g + nu * nu);
            x += w * (g * c - nu * s);
            y += w * (g * s + nu * c);
            let k = i as f64 - 7.;
            let (s, c) = (k * o.m).sin_cos();
            z += g * x0[i] / (g * g + k * k * o.n * o.n) * (g * c + k * o.n * s);
        }
        Creep { x: erho * x, y: erho * y, z: 0.5 * erho * z + ez }
    }
}

/// Star and planets in the reference plane; no effect of tides on any body unless set.
pub fn planar(e: f64, w: f64, mm: f64, np: usize) -> Sys {
    let m0 = 0.09;
    let mut s = Sys { bodies: vec![], eff: [false; 6], gr_impl: GR_KIDDER, disk: disk_props(), t0: 0., tlim: 1e5 };
    let none = TM::Ctl { k2: 0., sigma: 0., scale: 1. };
    let mut star = body(m0, 0.11 * R_SUN, 0.45, [0.; 3], [0.; 3], [0., 0., 2.2]);
    star.tides = Role::Host;
    star.tm = none;
    s.bodies.push(star);
    for k in 0..np {
        let m = [1.3, 4.1][k] * M_EARTH;
        let a = [0.02, 0.037][k];
        let (e, w, mm) = if k == 0 { (e, w, mm) } else { (0.06, 2.9, 4.4) };
        let (p, v) = state_from(gm(m0 + m), a * (1. - e), e, 0., w, 0., mm);
        let mut b = body(m, [1.1, 1.6][k] * R_EARTH, 0.57, p, v, [0., 0., [3.4, 1.9][k]]);
        b.tides = Role::Orbit;
        b.tm = none;
        s.bodies.push(b);
    }
    s
}

fn close3(rep: &Rep, class: &str, key: &str, got: V3, want: V3, tol: f64) {
    let e = norm(sub(got, want));
    rep.err(class, e, tol, key);
    if !(e <= tol) {
        rep.violation(key, &format!("{}: got {:?}, want {:?}, |diff| {:e} > {:e}", class, got, want, e, tol));
    }
}

/// Compares the tides of every body with the expectation built by `f(host, planet, orbit) -> [(fr, ft, dL planet, dL host); scales]`.
fn judge(rep: &Rep, class: &str, key: &str, s: &Sys, flat: bool, rel: f64, f: &dyn Fn(&Body, &Body, &Orb) -> ([f64; 4], [f64; 4])) {
    let h = s.bodies.iter().position(|b| if flat { b.flat } else { b.tides } == Role::Host).unwrap();
    let u = match guard(|| fresh(s, 0., IgnoreGravityTerms::None)) {
        Ok(u) => u,
        Err(m) => return rep.violation(key, &format!("stopped: {}", m)),
    };
    rep.transitions(1);
    let g = got(&u);
    let (acc, tor) = if flat { (&g.f_acc, &g.f_tor) } else { (&g.t_acc, &g.t_tor) };
    let host = &s.bodies[h];
    let mut hf = [0.; 3];
    let mut hs = 0.;
    let mut ht = [0.; 3];
    let mut hts = 0.;
    for (i, b) in s.bodies.iter().enumerate().filter(|(i, _)| *i != h) {
        let o = orbit(C_G * (host.mass + b.mass), sub(b.pos, host.pos), sub(b.vel, host.vel));
        let (w, mut sc) = f(host, b, &o);
        for k in 0..4 {
            // near the apsides the mean anomaly is known to the square root of the precision only
            sc[k] *= 1. + 1e-4 / (o.m.sin().abs() + 3e-8);
        }
        // torques are taken from the projected force
        for k in 2..4 {
            if sc[k] > 0. {
                sc[k] += 1e-4 * sc[0] * o.r;
            }
        }
        let force = add(mul(o.er, w[0]), mul(o.ep, w[1]));
        let fs = sc[0] + sc[1];
        close3(rep, &format!("{} acceleration", class), key, acc[i], mul(force, 1. / b.mass), rel * fs / b.mass + 1e-300);
        close3(rep, &format!("{} torque", class), key, tor[i], [0., 0., w[2]], rel * sc[2] + 1e-300);
        hf = sub(hf, force);
        hs += fs;
        ht = add(ht, [0., 0., w[3]]);
        hts += sc[3];
    }
    close3(rep, &format!("{} host acceleration", class), key, acc[h], mul(hf, 1. / host.mass), rel * hs / host.mass + 1e-300);
    close3(rep, &format!("{} host torque", class), key, tor[h], ht, rel * hts + 1e-300);
    rep.states(1);
    rep.traces(1);
}

fn order(s: Sys, host_at: usize) -> Sys {
    let n = s.bodies.len();
    let mut o: Vec<usize> = (1..n).collect();
    o.insert(host_at.min(n - 1), 0);
    permute(&s, &o)
}

pub fn p25(rep: &Rep) {
    let h = Hansen::new();
    // ---------------- Kaula
    let es: Vec<f64> = if rep.thorough { vec![0., 1e-5, 1e-4, 0.01, 0.05, 0.0999, 0.1001, 0.13, 0.1499, 0.1501, 0.1999, 0.2001, 0.23, 0.2499, 0.2501, 0.28, 0.2999, 0.3001, 0.4, 0.55] } else { vec![0., 1e-4, 0.05, 0.0999, 0.1001, 0.17, 0.22, 0.27, 0.35, 0.5] };
    let ms: Vec<f64> = if rep.thorough { vec![0., 0.3, 1., 2., PI, 4., 5., 6.1] } else { vec![0., 1., 4.] };
    let ws: Vec<f64> = if rep.thorough { vec![0., 0.9, 2.5, 4.4] } else { vec![0., 2.5] };
    let sp: Vec<f64> = if rep.thorough { vec![1e-3, 0.503, 0.99, 1.0003, 1.01, 1.25, 1.503, 2.003, 3.003, 40.] } else { vec![1e-3, 1.0003, 1.25, 1.503, 3.003] };
    let kinds: Vec<u8> = if rep.thorough { vec![0, 1, 2, 4, 5, 6, 7, 8, 9] } else { vec![0, 2, 4, 5, 6, 7, 8, 9] };
    let radix = [es.len(), ms.len(), ws.len(), sp.len(), kinds.len(), 3, 2, 2];
    rep.group("kaula states", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("kaula/e{}/m{}/w{}/s{}/t{}/r{}/h{}/n{}", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
        if !rep.want(&key) {
            return;
        }
        let mut s = planar(es[d[0]], ws[d[2]], ms[d[1]], d[7] + 1);
        s.eff[TIDES] = true;
        let n = (C_G * (s.bodies[0].mass + s.bodies[1].mass) / 0.02f64.powi(3)).sqrt();
        let kind = kinds[d[4]];
        let tab = kaula_table(kind);
        let (resp_planet, resp_host) = [(true, false), (false, true), (true, true)][d[5]];
        if resp_planet {
            s.bodies[1].tm = TM::Kaula { kind };
            s.bodies[1].spin[2] = sp[d[3]] * n;
        }
        if resp_host {
            s.bodies[0].tm = TM::Kaula { kind };
            s.bodies[0].spin[2] = sp[d[3]] * n * if resp_planet { 0.7 } else { 1. };
        }
        let first = s.bodies[1].pos;
        let s = order(s, d[6]);
        judge(rep, "kaula", &key, &s, false, 2e-11, &|host, b, o| {
            let (mut w, mut sc) = ([0.; 4], [0.; 4]);
            if resp_planet && b.pos == first {
                let (x, y) = kaula_ref(&h, o, host.mass, b.radius, b.spin[2], &tab, true);
                for k in 0..3 {
                    w[k] += x[k];
                    sc[k] += y[k];
                }
            }
            if resp_host {
                let (x, y) = kaula_ref(&h, o, b.mass, host.radius, host.spin[2], &tab, false);
                for k in 0..2 {
                    w[k] += x[k];
                    sc[k] += y[k];
                }
                w[3] += x[2];
                sc[3] += y[2];
            }
            // phase: the mean anomaly is ill defined for tiny eccentricities, where it does not matter beyond e
            for k in 0..4 {
                sc[k] *= 1. + 1e-3 / o.e.max(1e-6);
            }
            (w, sc)
        });
    });
    // a negligible tilt of the responding body changes the response negligibly
    let radix = [3, 3, 2, 2];
    rep.group("kaula with a tilt", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("kaula-tilt/e{}/m{}/host{}/tilt{}", d[0], d[1], d[2], d[3]);
        if !rep.want(&key) {
            return;
        }
        let mut s = planar([0.01, 0.05, 0.2][d[0]], 0.7, [1., 2.4, 4.][d[1]], 1);
        s.eff[TIDES] = true;
        let i = 1 - d[2];
        s.bodies[i].tm = TM::Kaula { kind: if d[2] == 1 { 7 } else { 0 } };
        s.bodies[i].spin = [0., 0., 3.4];
        let mut t = s.clone();
        t.bodies[i].spin[0] = 3.4 * [1e-7, 1e-5][d[3]];
        let (Ok(a), Ok(b)) = (guard(|| fresh(&s, 0., IgnoreGravityTerms::None)), guard(|| fresh(&t, 0., IgnoreGravityTerms::None))) else {
            return rep.violation(&key, "stopped");
        };
        rep.states(1);
        rep.transitions(2);
        rep.traces(1);
        let (a, b) = (got(&a), got(&b));
        rep.close("kaula tilt", &key, norm(sub(a.t_acc[1], b.t_acc[1])) / norm(a.t_acc[1]), 0., 1e-3);
        rep.close("kaula tilt", &key, norm(sub(a.t_tor[i], b.t_tor[i])) / norm(a.t_tor[i]), 0., 1e-3);
    });
    // a response proportional to the frequency is the constant time lag
    let es2 = [1e-3, 0.004, 0.01, 0.02];
    let sp2 = [0.2, 1., 1.7, 5.];
    let ms2 = [0., 0.8, 2.1, 3.9, 5.5];
    let radix = [es2.len(), sp2.len(), ms2.len(), 2];
    rep.group("kaula against constant time lag", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let key = format!("kaula-ctl/e{}/s{}/m{}/r{}", d[0], d[1], d[2], d[3]);
        if !rep.want(&key) {
            return;
        }
        let e = es2[d[0]];
        let mut s = planar(e, 0.7, ms2[d[2]], 1);
        s.eff[TIDES] = true;
        let on_host = d[3] == 1;
        let i = if on_host { 0 } else { 1 };
        let n = (C_G * (s.bodies[0].mass + s.bodies[1].mass) / 0.02f64.powi(3)).sqrt();
        s.bodies[i].spin[2] = sp2[d[1]] * n;
        let (k2, dtau) = (0.3, 600. / 86400.); // days
        let mut t = s.clone();
        s.bodies[i].tm = TM::Kaula { kind: 10 };
        let r = t.bodies[i].radius;
        t.bodies[i].tm = TM::Ctl { k2, sigma: 2. * C_G * k2 * dtau / (3. * r.powi(5)), scale: 1. };
        let (Ok(a), Ok(b)) = (guard(|| fresh(&s, 0., IgnoreGravityTerms::None)), guard(|| fresh(&t, 0., IgnoreGravityTerms::None))) else {
            return rep.violation(&key, "stopped");
        };
        rep.states(1);
        rep.transitions(2);
        rep.traces(1);
        let (ga, gb) = (got(&a), got(&b));
        for k in 0..2 {
            let er = mul(s.bodies[1].pos, 1. / norm(s.bodies[1].pos));
            let ep = cross([0., 0., 1.], er);
            let fr = dot(gb.t_acc[k], er).abs();
            rep.close("kaula radial against constant time lag", &key, dot(sub(ga.t_acc[k], gb.t_acc[k]), er) / fr, 0., 40. * e.powi(3) + 1e-9);
            // transverse: relative to the size of the harmonics
            let sc = fr * dtau * (n + s.bodies[i].spin[2]) + fr * e.powi(3) * 40.;
            rep.close("kaula transverse against constant time lag", &key, dot(sub(ga.t_acc[k], gb.t_acc[k]), ep) / sc, 0., 60. * e * e + 1e-9 + fr * e.powi(3) * 40. / sc);
        }
    });
    // ---------------- creep
    let es: Vec<f64> = if rep.thorough { vec![0., 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5] } else { vec![0., 0.01, 0.1, 0.3] };
    let ms: Vec<f64> = if rep.thorough { vec![0., 0.3, 1., 2., PI, 4., 5., 6.1] } else { vec![0., 1., 4., 6.1] };
    let ws: Vec<f64> = if rep.thorough { vec![0., 0.9, 2.5, 4.4] } else { vec![0., 2.5] };
    let sp: Vec<f64> = if rep.thorough { vec![0., 0.3, 0.85, 0.91, 0.99, 1.011, 1.2, 1.5, 2.8, 10.] } else { vec![0., 0.85, 0.99, 1.2, 2.8] };
    let gs: Vec<f64> = if rep.thorough { vec![1e-5, 0.01, 0.3, 0.97, 1.04, 3., 100., 1e6] } else { vec![1e-3, 0.5, 3., 1e3] };
    let radix = [es.len(), ms.len(), ws.len(), sp.len(), gs.len(), 4, 2, 2];
    rep.group("creep states", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let who = ["planet tides", "host tides", "planet flattening", "host flattening"][d[5]];
        let key = format!("creep/{}/e{}/m{}/w{}/s{}/g{}/h{}/n{}", d[5], d[0], d[1], d[2], d[3], d[4], d[6], d[7]);
        if !rep.want(&key) {
            return;
        }
        let mut s = planar(es[d[0]], ws[d[2]], ms[d[1]], d[7] + 1);
        let n = (C_G * (s.bodies[0].mass + s.bodies[1].mass) / 0.02f64.powi(3)).sqrt();
        let (flat, on_host) = (d[5] >= 2, d[5] % 2 == 1);
        let i = if on_host { 0 } else { 1 };
        s.bodies[i].spin[2] = sp[d[3]] * n;
        let (m, r) = (s.bodies[i].mass, s.bodies[i].radius);
        let eta = 3. * C_G * m * m / (8. * PI * r.powi(4) * gs[d[4]] * n);
        if flat {
            s.eff[FLAT] = true;
            for (k, b) in s.bodies.iter_mut().enumerate() {
                b.tides = Role::None;
                b.flat = if k == 0 { Role::Host } else { Role::Orbit };
                b.flat_k2 = 0.;
            }
            s.bodies[i].flat_creep = Some(eta);
        } else {
            s.eff[TIDES] = true;
            s.bodies[i].tm = TM::Creep { eta };
        }
        let lim = if gs[d[4]] < 1. { 0.9 } else { 1. + 7. * es[d[0]].powi(2) };
        if (sp[d[3]] - lim).abs() < 1e-6 {
            return;
        }
        let first = s.bodies[1].pos;
        let s = order(s, d[6]);
        judge(rep, &format!("creep {}", who), &key, &s, flat, 2e-11, &|host, b, o| {
            let (mut w, mut sc) = ([0.; 4], [0.; 4]);
            let (prim, comp) = if on_host { (host, b) } else { (b, host) };
            if !on_host && b.pos != first {
                return (w, sc);
            }
            let sh = creep_ref(&h, o, prim.mass, comp.mass, prim.radius, eta, prim.spin[2], !flat);
            let c = C_G * prim.mass * comp.mass * prim.radius * prim.radius / o.r.powi(4);
            // amplitudes: the sums cancel strongly for fast rotation
            let amp = if flat { sh.z.abs() } else { 15. / 4. * comp.mass / prim.mass * (prim.radius / o.a).powi(3) * 3. * (1. + 60. * o.e) };
            if on_host {
                w[3] = -0.6 * c * o.r * sh.y;
                sc[3] = c * o.r * amp;
            } else {
                w[0] = c * (-0.9 * sh.x - 0.6 * sh.z);
                w[1] = 0.6 * c * sh.y;
                w[2] = -0.6 * c * o.r * sh.y;
                sc = [c * amp, c * amp, c * o.r * amp, 0.];
            }
            (w, sc)
        });
    });
    rep.sample(json!({"kaula": "kaula/e4/m1/w1/s2/t0/r2/h1/n1", "creep": "creep/0/e2/m1/w1/s3/g1/h0/n1"}));
}
