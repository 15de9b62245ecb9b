//! P27: the reports written from histories by the scripts.
use crate::c_misc::python;
use crate::c_force::permute;
use crate::sys::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::f64::consts::PI;

pub const P27_RULE: &str = "every number of planets (1-3) x place of the star x tides on/off x which planets take part with which model and scale; each history has one entry per combination of eccentricity x inclination x phase x spin orientation and rate (shifted from planet to planet), a moving star whose radius, gyration and spin vary: the scripts are run on the file (drawing replaced by a stand-in) and every column of the report they write is compared, entry by entry, with values derived independently from the recorded numbers, and the lines of the figure with the columns; the raw export must hold every number recorded.";
pub const P27_ASSUME: &[&str] = &["pandas and matplotlib are replaced by stand-ins (not installed here)", "planets do not change in size (the report takes their first moment of inertia)", "the energy column (two-body, last planet) is not judged", "the watt conversion is judged to 1%: the script uses a solar mass that differs by 0.4% from the one of the package"];

const AU_M: f64 = 1.495978707e11;

struct Entry {
    t: f64,
    x: Vec<V3>,
    v: Vec<V3>,
    s: Vec<V3>,
    r: Vec<f64>,
    g: Vec<f64>,
    de: Vec<f64>,
}

fn angle(a: V3, b: V3) -> f64 {
    norm(cross(a, b)).atan2(dot(a, b))
}

pub fn p27(rep: &Rep) {
    let dir = rep.scratch.join("report");
    std::fs::create_dir_all(&dir).unwrap();
    let es = [0.003, 0.2, 0.7];
    let incs = [0.02, 1.1, 2.9];
    let fs = [0.4, 2.2, 4.9];
    let spins: [(f64, f64, f64); 5] = [(0.05, 0.3, 2.0), (0.9, 2.0, 0.7), (PI / 2., 4.0, 6.0), (2.6, 1.0, 1.3), (1.7, 5.5, 0.02)];
    let radix = [3usize, 3, 3, 5];
    let total = product(&radix);
    let mut cases = vec![];
    for n in 2..=4usize {
        for star in 0..n {
            for tides in [false, true] {
                for part in 0..(1usize << (n - 1)) {
                    for model in 0..2 {
                        if !tides && part > 0 {
                            continue;
                        }
                        cases.push((n, star, tides, part, model));
                    }
                }
            }
        }
    }
    let shards = 8;
    let cases = &cases;
    par(rep, shards, |sh| {
        let mut jobs: Vec<Value> = vec![];
        let mut wants = vec![];
        for (c, &(n, star, tides, part, model)) in cases.iter().enumerate().filter(|x| x.0 % shards == sh) {
            let name = format!("n={}/star={}/tides={}/part={:b}/model={}", n, star, tides, part, model);
            if !rep.want(&name) {
                continue;
            }
            let mut s = compact(n, [tides, false, false, false, false, false]);
            let scales: Vec<f64> = (0..n).map(|i| if model == 0 { [1., 10., 0.1, 3.5][i] } else { 2. }).collect();
            for i in 1..n {
                if part >> (i - 1) & 1 == 0 {
                    s.bodies[i].tides = Role::None;
                }
                if let TM::Ctl { k2, sigma, .. } = s.bodies[i].tm {
                    s.bodies[i].tm = TM::Ctl { k2, sigma, scale: scales[i] };
                }
            }
            // heavy planets: the elements of one then depend on how the others are taken into account, and are not judged
            let heavy = model == 1 && n > 2;
            let mut perm: Vec<usize> = (1..n).collect();
            perm.insert(star, 0);
            let masses: Vec<f64> = perm.iter().map(|&i| s.bodies[i].mass * if i == 0 { 1. } else if heavy { [1., 1., 3e3, 50.][i] } else if n > 2 { 1e-3 } else { 20. }).collect();
            let sys = permute(&s, &perm);
            let x = sim(INTS[c % 5], 0.05, 1e9, 1e9, build(&sys));
            let (cf, hf, of, gf) = (dir.join(format!("c{}.json", c)), dir.join(format!("h{}.bin", c)), dir.join(format!("h{}.txt", c)), dir.join(format!("h{}.png", c)));
            std::fs::write(&cf, crate::c_cli::case_file(&x)).unwrap();
            // the history
            let m = if rep.thorough { total } else { 45 };
            let mut hist = vec![];
            let mut bytes = vec![];
            for k in 0..m {
                let t = 0.3 + 17. * k as f64;
                let ph = 0.37 * k as f64;
                let (x0, v0) = ([0.01 * ph.cos(), 0.02 - 0.001 * ph, 0.003], [1e-4 * ph.sin(), -2e-4, 1e-5 * ph]);
                let mut en = Entry { t, x: vec![[0.; 3]; n], v: vec![[0.; 3]; n], s: vec![[0.; 3]; n], r: vec![0.; n], g: vec![0.; n], de: vec![0.; n] };
                for j in 0..n {
                    let b = perm[j];
                    let d = digits((k * 3 + 29 * b + c) % total, &radix);
                    let (th, ph, w) = spins[d[3]];
                    en.s[j] = [w * th.sin() * ph.cos(), w * th.sin() * ph.sin(), w * th.cos()];
                    if b == 0 {
                        en.x[j] = x0;
                        en.v[j] = v0;
                        en.r[j] = 8e-4 * (1. + 0.01 * k as f64);
                        en.g[j] = 0.2 + 0.001 * k as f64;
                    } else {
                        let a = 0.03 * 1.9f64.powi(b as i32 - 1) * (1. + 0.002 * (k % 7) as f64);
                        let (x, v) = kepler_state(gm(masses[star] + masses[j]), a, es[d[0]], incs[d[1]], 1.3 + b as f64, 0.4 * k as f64, fs[d[2]]);
                        en.x[j] = add(x, x0);
                        en.v[j] = add(v, v0);
                        en.r[j] = [0., 4.3e-5, 2e-5, 4.7e-4][b];
                        en.g[j] = [0., 0.33, 0.21, 0.25][b];
                        en.de[j] = 1e-20 * (1. + k as f64) * b as f64;
                    }
                }
                for j in 0..n {
                    let mut put = |v: f64| bytes.extend_from_slice(&v.to_le_bytes());
                    put(t);
                    put(0.05);
                    bytes.extend_from_slice(&(j as i32).to_le_bytes());
                    let mut put = |v: f64| bytes.extend_from_slice(&v.to_le_bytes());
                    for w in [en.x[j], en.s[j], en.v[j]] {
                        for q in w {
                            put(q);
                        }
                    }
                    for q in [masses[j], en.r[j], en.g[j], 0.3 + j as f64, 1e17 + k as f64, 1e-3 * j as f64, en.de[j], 1e5 + (k * j) as f64] {
                        put(q);
                    }
                }
                hist.push(en);
            }
            std::fs::write(&hf, &bytes).unwrap();
            let p = |x: &std::path::Path| x.to_string_lossy().into_owned();
            jobs.push(json!({"script": "explore_history.py", "argv": [p(&cf), p(&hf)], "outputs": [p(&of), p(&gf)]}));
            jobs.push(json!({"script": "raw_history.py", "argv": [p(&hf)], "outputs": (0..n).map(|i| p(&dir.join(format!("h{}_{}.txt", c, i)))).collect::<Vec<_>>()}));
            wants.push((name, n, star, tides, part, scales, perm, masses, hist, bytes, heavy));
        }
        if jobs.is_empty() {
            return;
        }
        let out: Vec<Value> = match python(rep, "py_report.py", &[], serde_json::to_string(&jobs).unwrap().as_bytes()) {
            Ok(o) => o.lines().filter_map(|l| serde_json::from_str(l).ok()).collect(),
            Err(e) => return rep.violation("reports", &format!("the scripts could not be run: {}", e)),
        };
        if out.len() != jobs.len() {
            return rep.violation("reports", "the scripts did not answer for every history");
        }
        for (q, (name, n, star, tides, part, scales, perm, masses, hist, bytes, heavy)) in wants.iter().enumerate() {
            rep.tick();
            let (n, star) = (*n, *star);
            let o = &out[2 * q];
            if !o["error"].is_null() {
                rep.violation(name, &format!("no report: {}", o["error"]));
                continue;
            }
            let Some(tab) = o["files"][0].as_str().map(table) else {
                rep.violation(name, "the report was not written");
                continue;
            };
            let rows = tab.get("planet").map(|c| c.len()).unwrap_or(0);
            if rows != (n - 1) * hist.len() {
                rep.violation(name, &format!("the report has {} lines for {} planets and {} entries", rows, n - 1, hist.len()));
                continue;
            }
            // the figure shows what the report says
            let fig: Value = o["files"][1].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or(Value::Null);
            for (c, j) in (0..n).filter(|&j| j != star).enumerate() {
                for (panel, column, factor) in [("semi-major", "semi-major_axis_AU", 1.), ("planet obliquity", "planet_obliquity_deg", 1.), ("eccentricity", "eccentricity", 1.), ("inclination", "inclination_deg", 1.), ("heat", "energy_lost_due_to_tides_W_per_m2", 1.), ("planet_rotation", "planet_rotation_period_hours", 1. / 24.), ("star_obliquity", "star_obliquity_deg", 1.), ("precession", "planet_precession_angle_deg", 1.)] {
                    let want = tab.get(column).map(|v| &v[c * hist.len()..(c + 1) * hist.len()]).unwrap_or(&[]);
                    let ok = fig.as_array().map(|axes| axes.iter().any(|ax| {
                        ax["ylabel"].as_str().map(|l| l.to_lowercase().contains(panel)).unwrap_or(false)
                            && ax["lines"].as_array().map(|l| l.iter().any(|l| {
                                let num = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect::<Vec<_>>()).unwrap_or_default();
                                let (x, y) = (num(&l["x"]), num(&l["y"]));
                                l["label"].as_str() == Some(&j.to_string()[..]) && x.len() == hist.len() && y.len() == x.len() && want.len() == x.len()
                                    && x.iter().zip(hist).all(|(x, en)| (x - en.t / 365.25).abs() <= 1e-9 * en.t)
                                    && y.iter().zip(want).all(|(y, w)| (y - w * factor).abs() <= 1e-5 * y.abs() + 1e-12)
                            })).unwrap_or(false)
                    })).unwrap_or(false);
                    rep.check(&format!("{}/figure/{}/planet={}", name, panel, j), ok, || "the figure does not show what the report says".into());
                }
            }
            // total angular momentum
            let l: Vec<f64> = hist.iter().map(|en| {
                let mt: f64 = masses.iter().sum();
                let (mut xc, mut vc) = ([0.; 3], [0.; 3]);
                for j in 0..n {
                    xc = add(xc, mul(en.x[j], masses[j] / mt));
                    vc = add(vc, mul(en.v[j], masses[j] / mt));
                }
                let mut t = [0.; 3];
                for j in 0..n {
                    t = add(t, mul(cross(sub(en.x[j], xc), sub(en.v[j], vc)), masses[j]));
                    t = add(t, mul(en.s[j], masses[j] * en.g[j] * en.r[j] * en.r[j]));
                }
                norm(t)
            }).collect();
            let mut row = 0;
            let mut bad = 0;
            for j in (0..n).filter(|&j| j != star) {
                for (k, en) in hist.iter().enumerate() {
                    let key = format!("{}/planet={}/entry={}", name, j, k);
                    let col = |c: &str| tab.get(c).and_then(|v| v.get(row)).copied().unwrap_or(f64::NAN);
                    let mut close = |what: &str, got: f64, want: f64, tol: f64| {
                        if tol == f64::INFINITY {
                            return;
                        }
                        rep.err(what, (got - want).abs(), tol, &key);
                        if !((got - want).abs() <= tol) {
                            bad += 1;
                            if bad <= 3 {
                                rep.violation(&key, &format!("{}: reported {:e}, expected {:e}", what, got, want));
                            }
                        }
                    };
                    let (x, v) = (sub(en.x[j], en.x[star]), sub(en.v[j], en.v[star]));
                    let h = cross(x, v);
                    close("planet", col("planet"), j as f64, 0.);
                    close("time", col("current_time"), en.t / 365.25, 1e-12 * en.t);
                    // orbit around the centre of mass of all the others
                    let (mut xc, mut vc, mut mo) = ([0.; 3], [0.; 3], 0.);
                    for i in (0..n).filter(|&i| i != j) {
                        xc = add(xc, mul(en.x[i], masses[i]));
                        vc = add(vc, mul(en.v[i], masses[i]));
                        mo += masses[i];
                    }
                    let (xr, vr) = (sub(en.x[j], mul(xc, 1. / mo)), sub(en.v[j], mul(vc, 1. / mo)));
                    let mu = gm(mo + masses[j]);
                    let a = 1. / (2. / norm(xr) - dot(vr, vr) / mu);
                    let hr = cross(xr, vr);
                    let e = (1. - dot(hr, hr) / mu / a).max(0.).sqrt();
                    let loose = if *heavy { f64::INFINITY } else { 1. };
                    close("semi-major axis", col("semi-major_axis_AU") / a, 1., 1e-6 * loose);
                    close("eccentricity", col("eccentricity"), e, 1e-6 * loose);
                    close("inclination", col("inclination_deg"), angle(hr, [0., 0., 1.]) * 180. / PI, 1e-4 * loose);
                    let (ws, wp) = (norm(en.s[star]), norm(en.s[j]));
                    close("corotation radius", col("corotation_radius_AU") / (gm(masses[star] + masses[j]) / ws / ws).cbrt(), 1., 1e-9);
                    let obl = angle(h, en.s[j]);
                    close("planet obliquity", col("planet_obliquity_deg"), obl * 180. / PI, 1e-4);
                    close("star obliquity", col("star_obliquity_deg"), angle(h, en.s[star]) * 180. / PI, 1e-4);
                    close("planet rotation period", col("planet_rotation_period_hours") / (48. * PI / wp), 1., 1e-12);
                    close("star rotation period", col("star_rotation_period_days") / (2. * PI / ws), 1., 1e-12);
                    let n1 = (gm(masses[star] + masses[j]) / a.powi(3)).sqrt();
                    let al = (1. + 7.5 * e.powi(2) + 45. / 8. * e.powi(4) + 5. / 16. * e.powi(6)) / (1. + 3. * e.powi(2) + 3. / 8. * e.powi(4)) / (1. - e * e).powf(1.5);
                    close("pseudo-synchronous period", col("planet_pseudo_synchronization_period") / (2. * PI / (al * n1)), 1., 1e-5 * loose);
                    // direction of the planet seen from the projected spin axis
                    if obl.sin() > 1e-2 {
                        let hh = mul(h, 1. / norm(h));
                        let sp = sub(en.s[j], mul(hh, dot(en.s[j], hh)));
                        close("precession angle", col("planet_precession_angle_deg"), angle(sp, x) * 180. / PI, 1e-4);
                    }
                    let rm = en.r[j] * AU_M;
                    let (watt, flux, mean, mflux) = (col("energy_lost_due_to_tides_W"), col("energy_lost_due_to_tides_W_per_m2"), col("mean_energy_lost_due_to_tides_W"), col("mean_energy_lost_due_to_tides_W_per_m2"));
                    if *tides {
                        let w = en.de[j] * 6.8762e37;
                        close("tidal power", watt / w, 1., 1e-2);
                        close("tidal flux", flux / (w / (4. * PI * rm * rm)), 1., 1e-2);
                        let want = crate::c_ana::heat(a * AU_M, e, wp / 86400., obl, 6.67428e-11, masses[j] * 1.9818e30, masses[star] * 1.9818e30, rm, 2.465278e-3 * 86400.);
                        close("mean tidal power", mean / want, 1., 2e-2 * loose);
                        let sc = if part >> (perm[j] - 1) & 1 == 1 { scales[perm[j]] } else { 0. };
                        close("mean tidal flux", mflux / (want / (4. * PI * rm * rm)), sc, if *heavy { f64::INFINITY } else { 2e-2 * sc });
                    } else {
                        close("no tides", watt.abs() + flux.abs() + mean.abs() + mflux.abs(), 0., 0.);
                    }
                    let kk = if k == 0 { 1 } else { k };
                    close("change of angular momentum", col("conservation_of_angular_momentum"), ((l[kk] - l[0]) / l[0]).abs(), 1e-9);
                    row += 1;
                    rep.states(1);
                    rep.transitions(1);
                }
            }
            rep.traces(1);
            // raw export
            let o = &out[2 * q + 1];
            let key = format!("{}/raw", name);
            if !o["error"].is_null() {
                rep.violation(&key, &format!("no export: {}", o["error"]));
                continue;
            }
            const FIELDS: [&str; 19] = ["current_time", "time_step", "position_x", "position_y", "position_z", "spin_x", "spin_y", "spin_z", "velocity_x", "velocity_y", "velocity_z", "mass", "radius", "radius_of_gyration_2", "love_number", "scaled_dissipation_factor", "lag_angle", "denergy_dt", "migration_timescale"];
            for j in 0..n {
                let t = o["files"][j].as_str().map(table).unwrap_or_default();
                let mut ok = t.len() == FIELDS.len();
                for (f, nm) in FIELDS.iter().enumerate() {
                    let off = if f < 2 { 8 * f } else { 4 + 8 * f };
                    let want: Vec<f64> = (0..hist.len()).map(|k| f64::from_le_bytes(bytes[(k * n + j) * 156 + off..][..8].try_into().unwrap())).collect();
                    ok &= t.get(*nm).map(|g| *g == want).unwrap_or(false);
                }
                rep.check(&format!("{}/body={}", key, j), ok, || "the exported numbers are not those recorded".into());
                rep.transitions(1);
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    rep.sample(json!({"case": "n=3/star=1/tides=true/part=11/model=0/planet=2/entry=7"}));
}

fn table(s: &str) -> BTreeMap<String, Vec<f64>> {
    let mut it = s.lines();
    let head: Vec<&str> = it.next().unwrap_or("").split('\t').collect();
    let mut t: BTreeMap<String, Vec<f64>> = head.iter().map(|h| (h.to_string(), vec![])).collect();
    for l in it {
        for (h, x) in head.iter().zip(l.split('\t')) {
            t.get_mut(*h).unwrap().push(x.parse().unwrap_or(f64::NAN));
        }
    }
    t
}
