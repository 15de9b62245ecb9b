//! Reference formulas written from the published laws (Bolmont et al. 2015, Alibert et al. 2013, Bolmont & Mathis 2016,
//! Kidder 1995 ...) in vector form, with physical constants of their own.
use crate::sys::*;
use posidonius::*;

pub const C_AU: f64 = 1.49597870700e11;
pub const C_DAY: f64 = 86400.0;
pub const C_MSUN: f64 = 1.9818e30;
pub const C_RSUN: f64 = 6.957e8 / C_AU;
pub const C_G: f64 = 6.67428e-11 / (C_AU * C_AU * C_AU) * C_MSUN * (C_DAY * C_DAY);
pub const C_C: f64 = 2.99792458e8 / C_AU * C_DAY;
pub const C_KB: f64 = 1.380649e-23 / (C_MSUN * C_AU * C_AU) * C_DAY * C_DAY;
pub const C_MH: f64 = 1.672162841e-27 / C_MSUN;

/// Instantaneous state of one body.
#[derive(Clone, Copy, Debug)]
pub struct St {
    pub m: f64,
    pub r: f64,
    pub rg2: f64,
    pub pos: V3,
    pub vel: V3,
    pub spin: V3,
    /// parameters of constant-time-lag tides: scale*sigma, k2, scale, sigma
    pub sig: f64,
    pub k2: f64,
    pub scale: f64,
    pub sigma: f64,
    pub lag: f64,
}

pub fn state(u: &Universe) -> Vec<St> {
    u.particles[..u.n_particles]
        .iter()
        .map(|p| {
            let (scale, sigma, k2) = match p.tides.effect {
                TidesEffect::CentralBody(TidalModel::ConstantTimeLag(c)) | TidesEffect::OrbitingBody(TidalModel::ConstantTimeLag(c)) => {
                    (c.dissipation_factor_scale, c.dissipation_factor, c.love_number)
                }
                _ => (0., 0., 0.),
            };
            let i = p.mass * p.radius_of_gyration_2 * p.radius * p.radius;
            St {
                m: p.mass,
                r: p.radius,
                rg2: p.radius_of_gyration_2,
                pos: v3(p.inertial_position),
                vel: v3(p.inertial_velocity),
                spin: mul(v3(p.angular_momentum), 1. / i),
                sig: scale * sigma,
                k2,
                scale,
                sigma,
                lag: p.tides.parameters.internal.lag_angle,
            }
        })
        .collect()
}

/// Result for every body: acceleration, spin torque, magnitude scales for tolerances and energy rate.
#[derive(Clone, Debug)]
pub struct Eff {
    pub acc: Vec<V3>,
    pub tor: Vec<V3>,
    pub acc_scale: Vec<f64>,
    pub tor_scale: Vec<f64>,
    pub den: Vec<f64>,
    pub den_scale: Vec<f64>,
}
impl Eff {
    pub fn zero(n: usize) -> Eff {
        Eff { acc: vec![[0.; 3]; n], tor: vec![[0.; 3]; n], acc_scale: vec![0.; n], tor_scale: vec![0.; n], den: vec![0.; n], den_scale: vec![0.; n] }
    }
}

pub fn gravity(st: &[St], skip: &dyn Fn(usize, usize) -> bool) -> (Vec<V3>, Vec<f64>) {
    let n = st.len();
    let mut a = vec![[0.; 3]; n];
    let mut sc = vec![0.; n];
    for i in 0..n {
        for j in 0..n {
            if i != j && !skip(i, j) {
                let d = sub(st[j].pos, st[i].pos);
                let r = norm(d);
                let k = C_G * st[j].m / (r * r);
                a[i] = add(a[i], mul(d, k / r));
                sc[i] += k;
            }
        }
    }
    (a, sc)
}

/// Dissipation of body `b` in the presence of the other body `o` (dynamical or equilibrium tide).
pub fn dissipation(b: &St, o: &St, dynamical: bool) -> (f64, bool, f64) {
    if !dynamical {
        return (b.sig, false, f64::INFINITY);
    }
    let r = sub(o.pos, b.pos);
    let v = sub(o.vel, b.vel);
    let mu = C_G * (b.m + o.m);
    let a = 1. / (2. / norm(r) - dot(v, v) / mu);
    let n = (mu / (a * a * a)).sqrt();
    let om = norm(b.spin);
    let half = (om - n).abs();
    // margin: relative distance to the switching surface n = 2 Omega
    let margin = (half - om).abs() / om.max(1e-30);
    if half < om {
        let h = half.max(1.0e-5 * C_DAY);
        (b.scale * (2. * C_G / (3. * b.r.powi(5)) * b.lag / h + b.sigma), true, margin)
    } else {
        (b.sig, false, margin)
    }
}

/// Constant-time-lag tides: host h, planets with `part[i]`; `dynamic[i]` says body i has frequency-dependent dissipation.
/// Returns the smallest relative distance to a regime switch as well.
pub fn ctl(st: &[St], h: usize, part: &[bool], dynamic: &[bool], host_ctl: bool) -> (Eff, f64) {
    let n = st.len();
    let mut e = Eff::zero(n);
    let mut margin = f64::INFINITY;
    let hs = &st[h];
    for i in 0..n {
        if i == h || !part[i] {
            continue;
        }
        let p = &st[i];
        let r = sub(p.pos, hs.pos);
        let v = sub(p.vel, hs.vel);
        let d = norm(r);
        let rh = mul(r, 1. / d);
        let vr = dot(rh, v);
        let (ss, _, m1) = if host_ctl { dissipation(hs, p, dynamic[h]) } else { (0., false, f64::INFINITY) };
        let (sp, _, m2) = dissipation(p, hs, dynamic[i]);
        margin = margin.min(m1).min(m2);
        let hk2 = if host_ctl { hs.k2 } else { 0. };
        let os = 4.5 * p.m * p.m * hs.r.powi(10) * ss / d.powi(7);
        let op = 4.5 * hs.m * hs.m * p.r.powi(10) * sp / d.powi(7);
        let frc = -3. * C_G / d.powi(7) * (p.m * p.m * hs.r.powi(5) * hk2 + hs.m * hs.m * p.r.powi(5) * p.k2);
        let frd_s = -3. * os * vr / d;
        let frd_p = -3. * op * vr / d;
        // velocity of the perturber in the frame rotating with each body
        let ws = sub(v, cross(hs.spin, r));
        let wp = sub(v, cross(p.spin, r));
        let f = add(mul(rh, frc + frd_s + frd_p + (os + op) * vr / d), sub(mul(ws, -os / d), mul(wp, op / d)));
        let fs = frc.abs() + (frd_s + frd_p).abs() + (os + op) * vr.abs() / d + (os / d) * (norm(v) + norm(hs.spin) * d) + op / d * (norm(v) + norm(p.spin) * d);
        e.acc[i] = mul(f, 1. / p.m);
        e.acc_scale[i] = fs / p.m;
        e.acc[h] = sub(e.acc[h], mul(f, 1. / hs.m));
        e.acc_scale[h] += fs / hs.m;
        // torque on the orbit by each tide; the spins take the opposite
        let ts = mul(cross(r, ws), -os / d);
        let tp = mul(cross(r, wp), -op / d);
        e.tor[i] = mul(tp, -1.);
        e.tor[h] = sub(e.tor[h], ts);
        e.tor_scale[i] = op * (norm(v) + norm(p.spin) * d);
        e.tor_scale[h] += os * (norm(v) + norm(hs.spin) * d);
        // energy dissipated by the planetary tide: work of its dissipative force and torque (star as point mass)
        let fp = sub(mul(rh, frd_p + op * vr / d), mul(wp, op / d));
        e.den[i] = -(dot(fp, v) + dot(e.tor[i], p.spin));
        e.den_scale[i] = (frd_p.abs() + op / d * (norm(v) + norm(p.spin) * d)) * norm(v) + e.tor_scale[i] * norm(p.spin);
    }
    (e, margin)
}

/// Oblate spheroid rotational flattening. k2f[i]: fluid Love number.
pub fn flattening(st: &[St], h: usize, part: &[bool], k2f: &[f64]) -> Eff {
    let n = st.len();
    let mut e = Eff::zero(n);
    let hs = &st[h];
    for i in 0..n {
        if i == h || !part[i] {
            continue;
        }
        let p = &st[i];
        let r = sub(p.pos, hs.pos);
        let d = norm(r);
        let one = |perturber_mass: f64, k2: f64, rad: f64, w: V3| -> (V3, V3, f64, f64) {
            // C = m k2 R^5/6 (per Omega^2)
            let c = perturber_mass * k2 * rad.powi(5) / 6.;
            let w2 = dot(w, w);
            let rw = dot(r, w);
            let f = add(mul(r, -3. * c * w2 / d.powi(5) + 15. * c * rw * rw / d.powi(7)), mul(w, -6. * c * rw / d.powi(5)));
            let t = cross(r, mul(w, -6. * c * rw / d.powi(5)));
            (f, t, 24. * c * w2 / d.powi(4), 6. * c * w2 / d.powi(3))
        };
        let (fs, ts, sfs, sts) = one(p.m, k2f[h], hs.r, hs.spin);
        let (fp, tp, sfp, stp) = one(hs.m, k2f[i], p.r, p.spin);
        let f = add(fs, fp);
        e.acc[i] = mul(f, 1. / p.m);
        e.acc[h] = sub(e.acc[h], mul(f, 1. / hs.m));
        e.acc_scale[i] = (sfs + sfp) / p.m;
        e.acc_scale[h] += (sfs + sfp) / hs.m;
        e.tor[i] = mul(tp, -1.);
        e.tor[h] = sub(e.tor[h], ts);
        e.tor_scale[i] = stp;
        e.tor_scale[h] += sts;
    }
    e
}

pub fn wind(st: &[St], w: &[Option<(f64, f64)>]) -> Eff {
    let n = st.len();
    let mut e = Eff::zero(n);
    for i in 0..n {
        if let Some((k, sat)) = w[i] {
            let om = norm(st[i].spin);
            let lim = om.min(sat);
            let c = k * lim * lim * (st[i].r / C_RSUN / st[i].m).sqrt();
            e.tor[i] = mul(st[i].spin, -c);
            e.tor_scale[i] = c * om;
        }
    }
    e
}

/// Disk: returns the accelerations and the migration timescale per body.
pub fn disk(st: &[St], h: usize, part: &[bool], d: &DiskProperties, t: f64) -> (Eff, Vec<f64>) {
    let n = st.len();
    let mut e = Eff::zero(n);
    let mut tau = vec![f64::NAN; n];
    let hs = &st[h];
    for i in 0..n {
        if i == h || !part[i] {
            continue;
        }
        let p = &st[i];
        let r = sub(p.pos, hs.pos);
        let v = sub(p.vel, hs.vel);
        let q = norm(r);
        let mu = C_G * (hs.m + p.m);
        let a = 1. / (2. / q - dot(v, v) / mu);
        let temp = 280. * q.powf(-0.5) * hs.m;
        let cs2 = C_KB * temp / (d.mean_molecular_weight * C_MH);
        let om = (C_G * hs.m / (q * q * q)).sqrt();
        let nu = d.alpha * cs2 / om;
        let vg = -1.5 * nu / a;
        let sig = if q > d.inner_edge_distance {
            d.surface_density_normalization / q * (-q / d.outer_edge_distance).exp() * (1. - (d.inner_edge_distance / q).sqrt()) * (-t / d.lifetime).exp()
        } else {
            0.
        };
        let ratio = 2. * sig * a * a / p.m;
        let adot = vg * ratio.min(1.);
        if adot == 0. {
            tau[i] = f64::INFINITY;
            continue;
        }
        tau[i] = -a / adot;
        let acc = add(
            add(mul(v, -1. / tau[i]), mul(r, -2. * dot(v, r) / (q * q) / (0.1 * tau[i]))),
            [0., 0., -2. * v[2] / (0.1 * tau[i])],
        );
        let sc = norm(v) * 41. / tau[i].abs();
        e.acc[i] = acc;
        e.acc_scale[i] = sc;
        e.acc[h] = sub(e.acc[h], mul(acc, p.m / hs.m));
        e.acc_scale[h] += sc * p.m / hs.m;
    }
    (e, tau)
}

/// Kidder (1995) relative acceleration of a pair: eqs. 2.2b, 2.2d, 2.2c, and spin precession 2.4; r points from the host to the planet.
pub fn kidder(st: &[St], h: usize, part: &[bool]) -> Eff {
    let n = st.len();
    let mut e = Eff::zero(n);
    let hs = &st[h];
    let c2 = C_C * C_C;
    for i in 0..n {
        if i == h || !part[i] {
            continue;
        }
        let p = &st[i];
        let x = sub(p.pos, hs.pos);
        let v = sub(p.vel, hs.vel);
        let r = norm(x);
        let nn = mul(x, 1. / r);
        let rd = dot(nn, v);
        let v2 = dot(v, v);
        let m = C_G * (hs.m + p.m);
        let eta = hs.m * p.m / (hs.m + p.m).powi(2);
        let g = m / (r * r);
        let a1n = -g / c2 * ((1. + 3. * eta) * v2 - 2. * (2. + eta) * m / r - 1.5 * eta * rd * rd);
        let a1v = g / c2 * 2. * (2. - eta) * rd;
        let a2n = -g / (c2 * c2)
            * (0.75 * (12. + 29. * eta) * (m / r).powi(2) + eta * (3. - 4. * eta) * v2 * v2 + 15. / 8. * eta * (1. - 3. * eta) * rd.powi(4)
                - 1.5 * eta * (3. - 4. * eta) * v2 * rd * rd
                - 0.5 * eta * (13. - 4. * eta) * (m / r) * v2
                - (2. + 25. * eta + 2. * eta * eta) * (m / r) * rd * rd);
        let a2v = g / (c2 * c2) * 0.5 * rd * (eta * (15. + 4. * eta) * v2 - (4. + 41. * eta + 8. * eta * eta) * (m / r) - 3. * eta * (3. + 2. * eta) * rd * rd);
        let l = |b: &St| mul(b.spin, b.m * b.rg2 * b.r * b.r);
        // body 1: planet, body 2: host; x = x1 - x2 (symmetric under exchange)
        let (s1, s2) = (l(p), l(hs));
        let s = add(s1, s2);
        let delta = mul(sub(mul(s2, 1. / hs.m), mul(s1, 1. / p.m)), hs.m + p.m);
        let dm = (p.m - hs.m) / (hs.m + p.m);
        let d = mul(delta, dm);
        let k = C_G / (c2 * r * r * r);
        let so = mul(
            add(
                sub(mul(nn, 6. * dot(cross(nn, v), add(mul(s, 2.), d))), cross(v, add(mul(s, 7.), mul(d, 3.)))),
                mul(cross(nn, add(mul(s, 3.), d)), 3. * rd),
            ),
            k,
        );
        let vv = norm(v);
        let acc = add(add(mul(nn, a1n + a2n), mul(v, a1v + a2v)), so);
        let sc = g / c2 * (v2 * 4. + 5. * m / r + 4. * rd.abs() * vv) + a2n.abs() + (a2v * vv).abs() + k * vv * (30. * (norm(s1) + norm(s2)) + 15. * norm(d));
        e.acc[i] = acc;
        e.acc_scale[i] = sc;
        e.acc[h] = sub(e.acc[h], mul(acc, p.m / hs.m));
        e.acc_scale[h] += sc * p.m / hs.m;
        let ln = mul(cross(x, v), hs.m * p.m / (hs.m + p.m));
        let prec = |sa: V3, sb: V3, ma: f64, mb: f64| -> (V3, f64) {
            let t = add(sub(mul(cross(ln, sa), 2. + 1.5 * mb / ma), cross(sb, sa)), mul(cross(nn, sa), 3. * dot(nn, sb)));
            (mul(t, k), k * norm(sa) * ((2. + 1.5 * mb / ma) * norm(ln) + 4. * norm(sb)))
        };
        let (t1, q1) = prec(s1, s2, p.m, hs.m);
        let (t2, q2) = prec(s2, s1, hs.m, p.m);
        e.tor[i] = t1;
        e.tor_scale[i] = q1;
        e.tor[h] = add(e.tor[h], t2);
        e.tor_scale[h] += q2;
    }
    e
}

/// Full first-order N-body equations (Newhall, Standish & Williams 1983 eq. 1), leading order.
pub fn newhall(st: &[St], feels: &[bool]) -> Eff {
    let n = st.len();
    let c2 = C_C * C_C;
    let (an, _) = gravity(st, &|_, _| false);
    let mut e = Eff::zero(n);
    for i in 0..n {
        if !feels[i] {
            continue;
        }
        for j in 0..n {
            if j == i {
                continue;
            }
            let mj = C_G * st[j].m;
            let d = sub(st[j].pos, st[i].pos);
            let r = norm(d);
            let pot_i: f64 = (0..n).filter(|&k| k != i).map(|k| C_G * st[k].m / norm(sub(st[k].pos, st[i].pos))).sum();
            let pot_j: f64 = (0..n).filter(|&k| k != j).map(|k| C_G * st[k].m / norm(sub(st[k].pos, st[j].pos))).sum();
            let (vi, vj) = (st[i].vel, st[j].vel);
            let br = -4. * pot_i - pot_j + dot(vi, vi) + 2. * dot(vj, vj) - 4. * dot(vi, vj) - 1.5 * (dot(d, vj) / r).powi(2) + 0.5 * dot(d, an[j]);
            let t1 = mul(d, mj * br / (r * r * r * c2));
            let t2 = mul(sub(vi, vj), mj / (r * r * r * c2) * dot(mul(d, -1.), sub(mul(vi, 4.), mul(vj, 3.))));
            let t3 = mul(an[j], 3.5 * mj / (r * c2));
            e.acc[i] = add(e.acc[i], add(t1, add(t2, t3)));
            e.acc_scale[i] += mj / (r * r * c2) * (4. * pot_i + pot_j + 10. * dot(vi, vi) + 10. * dot(vj, vj) + 4. * norm(an[j]) * r);
        }
    }
    e
}

/// Host-planet first-order equations in Jacobi coordinates of the participants (Anderson et al. 1975), leading order.
pub fn anderson(st: &[St], h: usize, part: &[bool]) -> Eff {
    let n = st.len();
    let c2 = C_C * C_C;
    let (an, _) = gravity(st, &|_, _| false);
    let mut e = Eff::zero(n);
    let mu = C_G * st[h].m;
    let order: Vec<usize> = (0..n).filter(|&i| i != h && part[i]).collect();
    // centre of mass of what is inside
    let mut mass = st[h].m;
    let (mut cx, mut cv, mut ca) = (st[h].pos, st[h].vel, an[h]);
    let mut jac = vec![];
    for &i in &order {
        let x = sub(st[i].pos, cx);
        let v = sub(st[i].vel, cv);
        let a = sub(an[i], ca);
        let r = norm(x);
        let v2 = dot(v, v);
        let fa = (0.5 * v2 + 3. * mu / r) / c2;
        let fb = (mu / r - 1.5 * v2) * mu / (r * r * r) / c2;
        let fd = (dot(v, a) - 3. * mu / (r * r * r) * dot(x, v)) / c2;
        let acc = sub(mul(x, fb), add(mul(a, fa), mul(v, fd)));
        let sc = (fa * norm(a) + (mu / r + 1.5 * v2) * mu / (r * r) / c2 + (norm(v) * norm(a) + 3. * mu / (r * r) * norm(v)) * norm(v) / c2, mass);
        jac.push((acc, sc));
        let m = st[i].m;
        cx = mul(add(mul(cx, mass), mul(st[i].pos, m)), 1. / (mass + m));
        cv = mul(add(mul(cv, mass), mul(st[i].vel, m)), 1. / (mass + m));
        ca = mul(add(mul(ca, mass), mul(an[i], m)), 1. / (mass + m));
        mass += m;
    }
    // back to inertial accelerations: a_i = jac_i + A_{i-1}, with A the acceleration of the inner centre of mass; total is zero
    let mut inner = [0.; 3];
    let mut inner_sc = 0.;
    for (k, &i) in order.iter().enumerate().rev() {
        let (acc, (sc, m_in)) = jac[k];
        let m = st[i].m;
        // (m_in*A_in + m*(acc + A_in))/(m_in+m) = inner  =>  A_in = inner - m/(m_in+m) acc
        let a_in = sub(inner, mul(acc, m / (m_in + m)));
        e.acc[i] = add(acc, a_in);
        e.acc_scale[i] = sc + inner_sc;
        inner = a_in;
        inner_sc += sc * m / (m_in + m);
    }
    e.acc[h] = inner;
    e.acc_scale[h] = inner_sc;
    e
}
