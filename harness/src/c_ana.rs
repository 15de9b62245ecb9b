//! P26: the analysis tools.
use crate::c_misc::python;
use crate::c_py::{hexf, hexv};
use crate::sys::*;
use crate::util::*;
use serde_json::{json, Value};
use std::f64::consts::PI;

pub const P26_RULE: &str = "every combination of grids, on the real Python functions: orbits (eccentricity x inclination x node x perihelion x phase x mass ratio, one to three planets, several entries) for the elements, angles and apsides of each planet; period ratios p/q for all p, q in and beyond the limits, exact and displaced within the uncertainty, x limits x sampling, for the candidate resonances; every resonance (p+q):p up to fourth order x librating angle (or none) x amplitude on both sides of the threshold x centre x rates of the perihelia for the detection; every number of plots up to the bound; tidal heat over eccentricity x spin x obliquity x mass ratio against the dissipation integrated numerically along the orbit.";
pub const P26_ASSUME: &[&str] = &["angles of the resonance test librate or circulate uniformly over the tested points", "tidal heat is compared with the average over the orientation of the spin around the orbit normal"];

fn angdiff(a: f64, b: f64, full: f64) -> f64 {
    let d = (a - b).rem_euclid(full);
    d.min(full - d)
}

/// Dissipation inside the planet of the constant time lag model, integrated along the orbit.
pub fn heat(a: f64, e: f64, w: f64, obl: f64, g: f64, mp: f64, ms: f64, rp: f64, k2dt: f64) -> f64 {
    let n = (g * (mp + ms) / a.powi(3)).sqrt();
    let steps = 600;
    let mut tot = 0.;
    let az = 4;
    for q in 0..az {
        let phi = 2. * PI * q as f64 / az as f64 + 0.3;
        let om = [w * obl.sin() * phi.cos(), w * obl.sin() * phi.sin(), w * obl.cos()];
        for k in 0..steps {
            let ea = 2. * PI * (k as f64 + 0.5) / steps as f64;
            let (s, c) = ea.sin_cos();
            let r = a * (1. - e * c);
            let x = [a * (c - e), a * (1. - e * e).sqrt() * s, 0.];
            let ed = n * a / r;
            let v = [-a * s * ed, a * (1. - e * e).sqrt() * c * ed, 0.];
            // relative velocity in the frame turning with the planet
            let u = sub(v, cross(om, x));
            let ur = dot(u, x) / r;
            // lagged part of the force: 3 G Ms^2 R^5 k2 dt / r^8 times (2 ur along r + u)
            let f = add(mul(x, 2. * ur / r), u);
            tot += 3. * g * ms * ms * rp.powi(5) * k2dt / r.powi(8) * dot(f, u) * (1. - e * c) / steps as f64 / az as f64;
        }
    }
    tot
}

pub fn p26(rep: &Rep) {
    let th = rep.thorough;
    // orbits
    let es = if th { vec![0.02, 0.1, 0.3, 0.6, 0.85] } else { vec![0.02, 0.2, 0.7] };
    let is: Vec<f64> = vec![0.01, 0.4, 1.3, 2.2, 3.0];
    let os: Vec<f64> = vec![0.2, 1.9, 3.6, 5.8];
    let ws: Vec<f64> = vec![0.1, 1.4, 2.9, 4.4, 6.1];
    let ms: Vec<f64> = vec![0.3, 2.0, 3.5, 5.0];
    let mut orbits = vec![];
    for e in &es {
        for i in &is {
            for o in &os {
                for w in &ws {
                    for m in &ms {
                        orbits.push((*e, *i, *o, *w, *m));
                    }
                }
            }
        }
    }
    let true_anomaly = |e: f64, m: f64| {
        let mut x = m + e * m.sin();
        for _ in 0..200 {
            let d = (x - e * x.sin() - m) / (1. - e * x.cos());
            x -= d;
        }
        2. * (((1. + e) / (1. - e)).sqrt() * (x / 2.).tan()).atan()
    };
    let entries = 4;
    let mut jobs: Vec<Value> = vec![];
    let mut want: Vec<Vec<Vec<(f64, f64, f64, f64, f64, f64, f64)>>> = vec![]; // per job, planet, entry: t a e g n M
    let mut at = 0;
    let mut np = 1;
    let (m0, mp) = (0.3, [1e-3, 5e-2, 1e-6]);
    while at < orbits.len() {
        let mut planets = vec![];
        let mut w = vec![];
        for p in 0..np {
            let mut cols: std::collections::BTreeMap<&str, Vec<f64>> = Default::default();
            let mut ww = vec![];
            for k in 0..entries {
                let (e, i, o, wp, m) = orbits[(at + p * entries + k) % orbits.len()];
                let a = 0.05 * (1. + p as f64) * (1. + 0.1 * k as f64);
                let (x, v) = kepler_state(gm(m0 + mp[p]), a, e, i, wp, o, true_anomaly(e, m));
                for (c, val) in [("position_x", x[0]), ("position_y", x[1]), ("position_z", x[2]), ("velocity_x", v[0]), ("velocity_y", v[1]), ("velocity_z", v[2]), ("mass", mp[p]), ("current_time", 1.5 * k as f64), ("star", m0)] {
                    cols.entry(c).or_default().push(val);
                }
                ww.push((1.5 * k as f64, a, e, wp, o, m, i));
            }
            planets.push(json!(cols));
            w.push(ww);
        }
        jobs.push(json!(planets));
        want.push(w);
        at += np * entries;
        np = np % 3 + 1;
    }
    // candidate resonances
    let mut poss = vec![];
    for p in 1..=22i64 {
        for q in 1..=p.min(14) {
            for off in [0., 0.3, -0.3] {
                for unc in [0.05, 0.01] {
                    for (dl, nl, sm) in [(12, 20, 10), (5, 9, 10), (12, 20, 40), (8, 20, 3)] {
                        poss.push((p, q, off, unc, dl, nl, sm));
                    }
                }
            }
        }
    }
    let pj: Vec<Value> = poss.iter().map(|(p, q, off, unc, dl, nl, sm)| json!([*p as f64 / *q as f64 * (1. + off * unc), {"uncertainty": unc, "denominator_limit": dl, "numerator_limit": nl, "sampling": sm}])).collect();
    // detection
    let mut det = vec![];
    for p in 1..=4i64 {
        for q in 1..=4i64 {
            for i in -1..=q {
                for amp in [0., 5., 24., 45., 90.] {
                    for centre in [0., 180., 90.] {
                        for rates in 0..3 {
                            for nb in [50usize, 120] {
                                det.push((p, q, i, amp, centre, rates, nb));
                            }
                        }
                    }
                }
            }
        }
    }
    let dj: Vec<Value> = det
        .iter()
        .map(|(p, q, i, amp, centre, rates, nb)| {
            let (w1, w2) = [(7.3, -11.9), (31.7, 17.1), (-23.3, 9.7)][*rates];
            let mut cols = vec![vec![]; 6];
            for k in 0..*nb {
                let t = k as f64;
                let (o1, o2) = (w1 * t + 40., w2 * t + 200.);
                let l1 = 77.7 * t + 13.;
                let phi = if *i < 0 { centre + 37.9 * t } else { centre + amp * (2. * PI * 3. * (t + 0.5) / *nb as f64).sin() };
                let ii = (*i).max(0) as f64;
                let l2 = (phi + *p as f64 * l1 + ii * o1 + (*q as f64 - ii) * o2) / (*p + *q) as f64;
                let f = |x: f64| x.rem_euclid(360.);
                let (n1, n2) = (0.4 * t + 300., 3.1 * t);
                for (c, v) in [f(o1 - n1), f(n1), f(l1 - o1), f(o2 - n2), f(n2), f(l2 - o2)].iter().enumerate() {
                    cols[c].push(*v);
                }
            }
            let g = gcd(*p, *p + *q);
            let _ = g;
            json!([p + q, p, cols, {"nb_points": nb, "angle_center_value": centre}])
        })
        .collect();
    // heat
    let mut heats = vec![];
    for e in [0., 0.01, 0.1, 0.3, 0.55] {
        for s in [0., 0.3, 1., 1.7, 12.] {
            for obl in [0., 0.2, 1., PI / 2., 2.5, PI] {
                for (m, a) in [(6e24, 3e9), (2e27, 7e9), (1e29, 2e10)] {
                    heats.push((e, s, obl, m, a));
                }
            }
        }
    }
    let (g, mstar, r, kdt) = (6.6742367e-11, 1.6e29, 6.4e6, 213.);
    let spin = |s: f64, m: f64, a: f64| s * (g * (m + mstar) / a.powi(3) as f64).sqrt();
    let hj: Vec<Value> = heats.iter().map(|(e, s, o, m, a)| json!([a, e, spin(*s, *m, *a), o, g, m, mstar, r, kdt])).collect();
    let nshape = if th { 3000 } else { 600 };
    let job = json!({"elements": jobs, "possible": pj, "is": dj, "shape": nshape, "heat": hj});
    let o: Value = match python(rep, "py_ana.py", &[], serde_json::to_string(&job).unwrap().as_bytes()).map(|s| serde_json::from_str(&s)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return rep.violation("analysis", &format!("no answer from the analysis tools: {}", e)),
        Err(e) => return rep.violation("analysis", &format!("the analysis tools stopped: {}", e)),
    };
    for (j, w) in want.iter().enumerate() {
        for (p, ww) in w.iter().enumerate() {
            let cols: Vec<Vec<f64>> = o["elements"][j][p].as_array().map(|a| a.iter().map(hexv).collect()).unwrap_or_default();
            if !rep.check(&format!("elements/{}", j), cols.len() == 8 && cols.iter().all(|c| c.len() == entries), || "wrong number of values".into()) {
                continue;
            }
            for (k, (t, a, e, g, n, m, i)) in ww.iter().enumerate() {
                let key = format!("elements/planets={}/planet={}/e={}/i={}/node={}/perihelion={}/anomaly={}", w.len(), p + 1, e, i, n, g, m);
                rep.states(1);
                rep.transitions(1);
                rep.close("time", &key, cols[0][k], *t, 0.);
                rep.close("semi-major axis", &key, cols[1][k], *a, 1e-10 * a / (1. - e));
                rep.close("eccentricity", &key, cols[2][k], *e, 1e-9);
                rep.close("argument of perihelion", &key, angdiff(cols[3][k], g.to_degrees(), 360.), 0., 1e-4);
                rep.close("longitude of the node", &key, angdiff(cols[4][k], n.to_degrees(), 360.), 0., 1e-4);
                rep.close("mean anomaly", &key, angdiff(cols[5][k], m.to_degrees(), 360.), 0., 1e-4);
                rep.close("perihelion distance", &key, cols[6][k], a * (1. - e), 1e-9 * a);
                rep.close("aphelion distance", &key, cols[7][k], a * (1. + e), 1e-9 * a);
                rep.check(&key, (0..3).all(|c| (0. ..=360.).contains(&cols[3 + c][k])), || "angles are not within a turn".into());
            }
        }
    }
    for (j, (p, q, off, unc, dl, nl, sm)) in poss.iter().enumerate() {
        let ratio = *p as f64 / *q as f64 * (1. + off * unc);
        let key = format!("candidates/{}:{}/off={}/uncertainty={}/limits={}:{}/sampling={}", p, q, off, unc, nl, dl, sm);
        let got: Vec<(i64, i64)> = o["possible"][j].as_array().map(|a| a.iter().map(|f| (f[0].as_i64().unwrap_or(0), f[1].as_i64().unwrap_or(0))).collect()).unwrap_or_default();
        rep.states(1);
        rep.transitions(1);
        rep.check(&key, got.windows(2).all(|w| w[0].0 <= w[1].0) && got.iter().collect::<std::collections::BTreeSet<_>>().len() == got.len(), || format!("not sorted by numerator or repeated: {:?}", got));
        rep.check(&key, got.iter().all(|(a, b)| *b <= *dl && *a <= *nl && *b >= 1 && gcd(*a, *b) == 1 && a >= b), || format!("beyond the limits: {:?}", got));
        // as near as any other fraction to some period ratio of the range
        let (lo, hi) = ((ratio * (1. - unc)).max(1.), ratio * (1. + unc));
        rep.check(&key, got.iter().all(|(a, b)| near_some(*a, *b, lo, hi, *dl)), || format!("{:?} has candidates that are nobody's nearest fraction in [{}, {}]", got, lo, hi));
        // the commensurability itself, where it is sampled
        let (pp, qq) = (p / gcd(*p, *q), q / gcd(*p, *q));
        if *off == 0. && sm % 2 == 0 && lo > 1. && qq <= *dl && pp <= *nl {
            rep.check(&key, got.contains(&(pp, qq)), || format!("{}:{} is not among {:?}", pp, qq, got));
        }
        // every one wide enough to be hit by the sampling
        for b in 1..=*dl {
            for a in b..=*nl {
                if gcd(a, b) == 1 && lo > 1. {
                    let (l, h) = cell(a, b, *dl);
                    let d = (hi - lo) / *sm as f64;
                    let hit = (0..*sm).any(|k| { let x = lo + d * k as f64; x > l + 1e-9 && x < h - 1e-9 });
                    if hit {
                        rep.check(&key, got.contains(&(a, b)), || format!("{}:{} is missing from {:?}", a, b, got));
                    }
                }
            }
        }
    }
    for (j, (p, q, i, amp, centre, rates, nb)) in det.iter().enumerate() {
        let key = format!("detection/{}:{}/angle={}/amplitude={}/centre={}/rates={}/points={}", p + q, p, i, amp, centre, rates, nb);
        rep.states(1);
        rep.transitions(1);
        // (a fraction that is not in lowest terms stands for the one that is)
        if gcd(*p, p + q) > 1 {
            continue;
        }
        // dispersion of every resonant angle (some other combination of the rates may stand still by chance)
        let c: Vec<Vec<f64>> = dj[j][2].as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_f64().unwrap()).collect()).collect();
        let least = (0..=*q)
            .map(|i| {
                let v: Vec<f64> = (0..*nb)
                    .map(|k| {
                        let (o1, o2) = (c[0][k] + c[1][k], c[3][k] + c[4][k]);
                        let phi = (p + q) as f64 * (c[5][k] + o2) - *p as f64 * (c[2][k] + o1) - i as f64 * o1 - (q - i) as f64 * o2;
                        (phi - centre + 180.).rem_euclid(360.) - 180.
                    })
                    .collect();
                let m = v.iter().sum::<f64>() / v.len() as f64;
                (v.iter().map(|x| (x - m).powi(2)).sum::<f64>() / v.len() as f64).sqrt()
            })
            .fold(f64::INFINITY, f64::min);
        if (least - 20.).abs() < 0.5 {
            continue;
        }
        let res = least < 20.;
        rep.group(if res { "resonant" } else { "not resonant" }, 1);
        rep.check(&key, o["is"][j] == json!(res), || format!("reported as {}", o["is"][j]));
    }
    for n in 1..=nshape {
        let (x, y) = (o["shape"][n - 1][0].as_u64().unwrap_or(0) as usize, o["shape"][n - 1][1].as_u64().unwrap_or(0) as usize);
        rep.states(1);
        rep.check(&format!("plots/{}", n), x * y >= n && (y == x || y == x + 1) && (x.max(1) * y - if x == y { x } else { y }) < n, || format!("{} x {}", x, y));
    }
    for (j, (e, s, ob, m, a)) in heats.iter().enumerate() {
        let key = format!("heat/e={}/spin={}/obliquity={}/mass={}", e, s, ob, m);
        let v = &o["heat"][j];
        let w = heat(*a, *e, spin(*s, *m, *a), *ob, g, *m, mstar, r, kdt);
        let sc = heat(*a, *e, 0., 0., g, *m, mstar, r, kdt) * (1. + s * s);
        rep.states(1);
        rep.transitions(1);
        rep.close("heat", &key, hexf(&v[0]), w, 1e-9 * sc);
        rep.close("heat (arrays)", &key, hexf(&v[1]), w, 1e-9 * sc);
    }
    rep.traces((orbits.len() + poss.len() + det.len() + heats.len()) as u64);
    rep.group("orbits", orbits.len() as u64);
    rep.group("period ratios", poss.len() as u64);
    rep.group("resonant angle histories", det.len() as u64);
    rep.group("tidal heat states", heats.len() as u64);
    rep.sample(json!({"orbit": orbits[0].0, "ratio": poss[0].0}));
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Interval of numbers for which a/b is the nearest fraction with that limit on the denominator.
fn cell(a: i64, b: i64, dl: i64) -> (f64, f64) {
    let x = a as f64 / b as f64;
    let (mut l, mut h) = (f64::NEG_INFINITY, f64::INFINITY);
    for d in 1..=dl {
        let k = (x * d as f64).floor() as i64;
        for n in [k - 1, k, k + 1, k + 2] {
            let y = n as f64 / d as f64;
            if n * b == a * d {
                continue;
            }
            if y < x {
                l = l.max((x + y) / 2.);
            } else {
                h = h.min((x + y) / 2.);
            }
        }
    }
    (l, h)
}

fn near_some(a: i64, b: i64, lo: f64, hi: f64, dl: i64) -> bool {
    let (l, h) = cell(a, b, dl);
    l <= hi + 1e-9 && h >= lo - 1e-9
}
