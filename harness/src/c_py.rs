//! The Python interface against the simulator: P24.
use crate::c_force::permute;
use crate::c_misc::python;
use crate::c_state::{start, state_distance, writer, Case};
use crate::sys::*;
use crate::util::*;
use posidonius::constants::*;
use posidonius::output::restore_snapshot;
use posidonius::*;
use serde_json::{json, Value};

pub const P24_RULE: &str = "Exhaustive enumeration of case descriptions (every subset of effects x integrator and coordinates; tidal model, relativity formulation, evolution model, host, order and participation variants; several case files from one description; every table of every evolution model with masses, starting ages and limits just inside and just outside of what it accepts; every assignment of host and orbiting roles, bodies of equal mass, and 1 to 13 bodies, valid or not): each is written by the real Python package and restored by the real simulator, every number of the restored simulation is compared with the same description built through the Rust interface, and both are run and compared step by step. Plus all constants, helper functions over grids against independent formulas, and history files of real runs read back by Python at every truncation length.";
pub const P24_ASSUME: &[&str] = &["pandas is replaced by a stand-in with the few operations history.py uses", "evolution tables are synthetic ones with the documented layout (the repository ships none)"];

fn role(r: Role) -> &'static str {
    match r {
        Role::None => "none",
        Role::Host => "host",
        Role::Orbit => "orbit",
    }
}

fn evo(e: EvolutionType) -> Value {
    match e {
        EvolutionType::NonEvolving => Value::Null,
        EvolutionType::Baraffe2015(m) => json!(["Baraffe2015", m]),
        EvolutionType::Baraffe1998(m) => json!(["Baraffe1998", m]),
        EvolutionType::Leconte2011(m) => json!(["Leconte2011", m]),
        EvolutionType::BolmontMathis2016(m) => json!(["BolmontMathis2016", m]),
        EvolutionType::GalletBolmont2017(m) => json!(["GalletBolmont2017", m]),
        EvolutionType::LeconteChabrier2013(d) => json!(["LeconteChabrier2013", d]),
    }
}

/// The same system in the terms of the Python interface.
fn describe(s: &Sys, dt: f64, rec: f64, hist: f64, out: Vec<(Int, String)>) -> Value {
    let pad = |v: &[f64]| {
        let mut v = v.to_vec();
        v.resize(1024, 0.);
        v
    };
    let bodies: Vec<Value> = s
        .bodies
        .iter()
        .map(|b| {
            let tm = match b.tm {
                TM::Ctl { k2, sigma, scale } => {
                    let v = serde_json::to_value(match tidal_model(TM::Ctl { k2, sigma, scale }) { TidalModel::ConstantTimeLag(p) => p, _ => unreachable!() }).unwrap();
                    json!(["ConstantTimeLag", v])
                }
                TM::Creep { eta } => json!(["CreepCoplanar", {"uniform_viscosity_coefficient": eta}]),
                TM::Kaula { kind } => {
                    let (w, re, im) = kaula_table(kind);
                    json!(["Kaula", {"love_number_excitation_frequency": pad(&w), "real_part_love_number": pad(&re), "imaginary_part_love_number": pad(&im), "num_datapoints": w.len()}])
                }
            };
            let fm = match b.flat_creep {
                Some(eta) => json!(["CreepCoplanar", {"uniform_viscosity_coefficient": eta}]),
                None => json!(["OblateSpheroid", {"love_number": b.flat_k2}]),
            };
            json!({"mass": b.mass, "radius": b.radius, "rg": b.rg, "pos": b.pos, "vel": b.vel, "spin": b.spin, "tides": role(b.tides), "tm": tm, "flat": role(b.flat), "fm": fm, "gr": role(b.gr), "wind": b.wind.map(|w| json!([w.0, w.1])), "disk": role(b.disk), "evo": evo(b.evo), "reference": b.reference})
        })
        .collect();
    let out: Vec<Value> = out
        .iter()
        .map(|(i, f)| match i {
            Int::Jacobi => json!(["WHFast", "Jacobi", f]),
            Int::Demo => json!(["whfast", "DemocraticHeliocentric", f]),
            Int::Whds => json!(["WHFast", "WHDS", f]),
            Int::Ias15 => json!(["IAS15", null, f]),
            Int::Leap => json!(["LeapFrog", null, f]),
        })
        .collect();
    let e = s.eff;
    json!({"t0": s.t0, "tlim": s.tlim, "dt": dt, "rec": rec, "hist": hist, "bodies": bodies, "out": out,
        "eff": {"tides": e[0], "rotational_flattening": e[1], "general_relativity": e[2], "disk": e[3], "wind": e[4], "evolution": e[5]},
        "gr_impl": match s.gr_impl { GR_KIDDER => "Kidder1995", GR_ANDERSON => "Anderson1975", _ => "Newhall1983" },
        "disk": serde_json::to_value(s.disk).unwrap()})
}

/// First place where two serialised simulations differ. Vectors are compared on the scale of the vector.
fn far(a: &Value, b: &Value, at: String, sc: f64) -> Option<String> {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if (x - y).abs() <= 1e-12 * x.abs().max(y.abs()).max(sc) { None } else { Some(format!("{}: Rust {:e}, Python {:e}", at, x, y)) }
        }
        (Array(x), Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| far(p, q, format!("{}[{}]", at, i), 0.)),
        (Object(x), Object(y)) => {
            let vec = x.len() == 3 && x.contains_key("x") && x.contains_key("y") && x.contains_key("z");
            let sc = if vec { x.values().chain(y.values()).filter_map(|v| v.as_f64()).map(|v| v.abs()).fold(0., f64::max) } else { 0. };
            if let Some(k) = y.keys().find(|k| !x.contains_key(*k)) {
                return Some(format!("{}.{} (only in Python)", at, k));
            }
            x.iter().find_map(|(k, p)| match y.get(k) {
                Some(q) => far(p, q, format!("{}.{}", at, k), sc),
                None => Some(format!("{}.{} (only in Rust)", at, k)),
            })
        }
        _ if a == b => None,
        _ => Some(format!("{}: Rust {}, Python {}", at, a, b).chars().take(200).collect()),
    }
}

/// Leaves out what belongs to effects a body takes no part in.
fn active(mut v: Value) -> Value {
    if let Some(ps) = v["universe"]["particles"].as_array_mut() {
        for p in ps {
            for e in ["tides", "rotational_flattening", "general_relativity", "disk", "wind"] {
                if p[e]["effect"] == "Disabled" {
                    p[e]["parameters"] = Value::Null;
                }
            }
        }
    }
    v
}

struct Descr {
    name: String,
    sys: Sys,
    ints: Vec<Int>,
    dt: f64,
    rec: f64,
    hist: f64,
}

fn descriptions(thorough: bool) -> Vec<Descr> {
    let mut v = vec![];
    let all = INTS.to_vec();
    let mut add = |name: String, sys: Sys, ints: Vec<Int>| v.push(Descr { name, sys, ints, dt: 0.04, rec: 77.7, hist: 0.1 });
    let bodies: Vec<usize> = if thorough { vec![1, 2, 3, 5, 10] } else { vec![2, 4] };
    for m in 0..64 {
        for n in &bodies {
            let mut s = compact(*n, eff_mask(m));
            if m & 32 != 0 {
                s = evolve_host(s, 1);
            }
            add(format!("effects={}/bodies={}", eff_name(eff_mask(m)), n), s, if thorough || *n == 2 { all.clone() } else { vec![INTS[m % 5]] });
        }
    }
    // tidal models
    for model in 1..3 {
        for m in 0..64 {
            if m & 3 == 0 || (!thorough && m & 0b11100 != 0 && m & 0b11100 != 0b11100) {
                continue;
            }
            let mut s = with_model(3, eff_mask(m), model);
            if m & 32 != 0 {
                s = evolve_host(s, 1);
            }
            add(format!("model={}/effects={}", MODELS[model], eff_name(eff_mask(m))), s, if thorough { all.clone() } else { vec![INTS[m % 5]] });
        }
    }
    // every table shape
    for kind in 0..11u8 {
        let mut s = with_model(3, eff_mask(1), 2);
        for b in s.bodies.iter_mut().skip(1) {
            b.tm = TM::Kaula { kind };
        }
        add(format!("kaula-table={}", kind), s, vec![INTS[kind as usize % 5]]);
    }
    // relativity formulations
    for g in [GR_KIDDER, GR_ANDERSON, GR_NEWHALL] {
        for m in [4, 5, 63 - 32] {
            let mut s = compact(3, eff_mask(m));
            s.gr_impl = g;
            add(format!("relativity={}/effects={}", g, eff_name(eff_mask(m))), s, all.clone());
        }
    }
    // evolution models, on the host and on a planet
    for k in 0..EVOS.len() {
        for m in [32, 33, 63, 31] {
            let s = evolve_host(compact(3, eff_mask(m)), k);
            add(format!("evolution={}/effects={}", EVOS[k].0, eff_name(eff_mask(m))), s, vec![INTS[(k + m) % 5]]);
            let mut s = compact(3, eff_mask(m));
            s.bodies[2].evo = EVOS[k].1;
            s.bodies[2].mass *= 60.;
            s.t0 = EVOS[k].2;
            add(format!("evolution-of-planet={}/effects={}", EVOS[k].0, eff_name(eff_mask(m))), s, vec![INTS[(k + m) % 5]]);
        }
    }
    // who is tied to whom
    for r in 0..3 {
        for j in 0..3 {
            let mut s = compact(3, eff_mask(31));
            s.bodies[j].reference = Some(r);
            add(format!("reference-of-{}={}", j, r), s, all.clone());
        }
    }
    // order of the bodies
    for p in perms(3) {
        for m in [31, 63] {
            let mut s = compact(3, eff_mask(m));
            if m == 63 {
                s = evolve_host(s, 4);
            }
            let s = permute(&s, &p);
            add(format!("order={:?}/effects={}", p, eff_name(eff_mask(m))), s, all.clone());
        }
    }
    // participation of each body in each effect
    for part in 0..(if thorough { 3usize.pow(5) } else { 3usize.pow(5) }) {
        let d = digits(part, &[3; 5]);
        let mut s = compact(3, eff_mask(31));
        let set = |x: usize, b: &mut Body, eff: usize| {
            // 0: all participate; 1: the planet does not; 2: no host
            if x == 1 && b.mass < 0.01 || x == 2 && b.mass > 0.01 {
                match eff {
                    0 => b.tides = Role::None,
                    1 => b.flat = Role::None,
                    2 => b.gr = Role::None,
                    3 => b.disk = Role::None,
                    _ => b.wind = None,
                }
            }
        };
        for b in s.bodies.iter_mut() {
            for e in 0..5 {
                set(d[e], b, e);
            }
        }
        add(format!("participation={:?}", d), s, if thorough { all.clone() } else { vec![INTS[part % 5]] });
    }
    // steps and periods
    for (i, dt) in [1e-3, 0.0625, 0.3].iter().enumerate() {
        for rec in [1e-2, 365.25, 1e6] {
            for hist in [1e-3, 36.525, 1e5] {
                v.push(Descr { name: format!("step={}/recovery={}/history={}", dt, rec, hist), sys: compact(2, eff_mask(1)), ints: if i == 2 { vec![Int::Leap, Int::Ias15] } else { vec![INTS[(i * 2) % 5], Int::Leap, Int::Ias15] }, dt: *dt, rec, hist });
            }
        }
    }
    v
}

fn lines(rep: &Rep, script: &str, job: &Value, key: &str) -> Vec<Value> {
    match python(rep, script, &[], serde_json::to_string(job).unwrap().as_bytes()) {
        Ok(o) => o.lines().filter_map(|l| serde_json::from_str(l).ok()).collect(),
        Err(e) => {
            rep.violation(key, &format!("the Python tools stopped: {}", e));
            vec![]
        }
    }
}

pub fn hexf(v: &Value) -> f64 {
    let s = v.as_str().unwrap_or("nan");
    let neg = s.starts_with('-');
    let t = s.trim_start_matches('-');
    let x = match t {
        "inf" => f64::INFINITY,
        "nan" => f64::NAN,
        _ => {
            let t = t.trim_start_matches("0x");
            let (m, e) = t.split_once('p').unwrap_or((t, "0"));
            let (i, f) = m.split_once('.').unwrap_or((m, ""));
            let mant = u64::from_str_radix(&format!("{}{}", i, f), 16).unwrap() as f64;
            let e: i32 = e.parse::<i32>().unwrap() - 4 * f.len() as i32;
            // in two factors, not to overflow
            mant * 2f64.powi(e / 2) * 2f64.powi(e - e / 2)
        }
    };
    if neg { -x } else { x }
}

pub fn hexv(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(hexf).collect()).unwrap_or_default()
}

/// Headers that both readers of tables understand
pub fn heads(d: &std::path::Path) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() {
            heads(&p);
        } else if let Ok(s) = std::fs::read_to_string(&p) {
            let skip = s.starts_with(|c: char| c.is_alphabetic() || c == '#');
            // the published tables of Baraffe et al. 2015 always have one
            if skip || p.to_string_lossy().contains("Baraffe_2015") {
                let body = if skip { s.split_once('\n').map(|x| x.1).unwrap_or("") } else { &s[..] };
                std::fs::write(&p, format!("# header\n{}", body)).unwrap();
            }
        }
    }
}

/// Every table of every evolution model, for masses in the middle, just inside and just outside of what each accepts.
fn table_cases(rep: &Rep) -> Vec<Descr> {
    let tabs = crate::c_misc::p18_tables(&rep.scratch);
    heads(&rep.scratch.join("input"));
    let mut v = vec![];
    for (i, e) in tabs.iter().enumerate() {
        for (k, off) in [0., 9e-5, -9e-5, 1.1e-4, -1.1e-4, 9e-4, -9e-4, 1.1e-3, -1.1e-3].into_iter().enumerate() {
            let (ty, m) = match e.ty {
                EvolutionType::Baraffe2015(m) => (EvolutionType::Baraffe2015(m + off), m),
                EvolutionType::Baraffe1998(m) => (EvolutionType::Baraffe1998(m + off), m),
                EvolutionType::Leconte2011(m) => (EvolutionType::Leconte2011(m + off), m),
                EvolutionType::BolmontMathis2016(m) => (EvolutionType::BolmontMathis2016(m + off), m),
                EvolutionType::GalletBolmont2017(m) => (EvolutionType::GalletBolmont2017(m + off), m),
                _ if off == 0. => (e.ty, 1.),
                _ => continue,
            };
            if m + off <= 0. {
                continue;
            }
            let mut s = compact(2, eff_mask([33, 32, 35][(i + k) % 3]));
            s.bodies[0].evo = ty;
            s.tlim = 100.;
            s.t0 = e.c.t[[3, 17, 40][(i + k) % 3]] * 365.25 + 0.003;
            v.push(Descr { name: format!("table/{}{:+e}", e.name, off), sys: s, ints: vec![INTS[(i + k) % 5]], dt: 0.05, rec: 1e9, hist: 1e9 });
        }
        // starting ages and limits at the borders of the table
        let (first, last) = (e.c.t[0] * 365.25, e.c.t[e.c.t.len() - 1] * 365.25);
        for (k, (nm, t0, tlim)) in [
            ("before", first - 0.01, 10.),
            ("youngest", first + 0.01, 10.),
            ("middle", 0.45 * last, 0.5 * last),
            ("old", 0.55 * last, 0.4 * last),
            ("oldest", last - 10., 9.9),
            ("beyond", last - 10., 10.1),
            ("beyond-young", first + 1., last - first - 0.9),
            ("whole", first + 1., last - first - 1.1),
        ]
        .into_iter()
        .enumerate()
        {
            let mut s = compact(2, eff_mask([33, 32, 35][(i + k) % 3]));
            s.bodies[0].evo = e.ty;
            s.t0 = t0;
            s.tlim = tlim;
            v.push(Descr { name: format!("table/{}/{}", e.name, nm), sys: s, ints: vec![INTS[(i + k) % 5]], dt: 0.05, rec: 1e9, hist: 1e9 });
        }
    }
    v
}

/// Every distribution of roles over the bodies, valid or not, and every number of bodies.
fn setup_cases(rep: &Rep) -> Vec<Descr> {
    let mut v = vec![];
    let role3 = |c: usize, i: usize| [Role::None, Role::Orbit, Role::Host][c / 3usize.pow(i as u32) % 3];
    let mut add = |name: String, sys: Sys, k: usize| v.push(Descr { name: format!("setup/{}", name), sys, ints: vec![INTS[k % 5]], dt: 0.05, rec: 1e9, hist: 1e9 });
    for c in 0..729 {
        // the heaviest body in every place of the list
        for mm in if rep.thorough { vec![0, 1, 2] } else { vec![c % 3] } {
            let mut s = crate::c_conf::placed(3, [true, true, false, false, false, false], mm);
            for i in 0..3 {
                s.bodies[i].tides = role3(c % 27, i);
                s.bodies[i].flat = role3(c / 27, i);
            }
            add(format!("tides={}/flattening={}/heaviest={}", c % 27, c / 27, mm), s, c + mm);
        }
    }
    for c in 0..27 {
        for mm in 0..3 {
            for im in [GR_KIDDER, GR_ANDERSON, GR_NEWHALL] {
                let mut s = crate::c_conf::placed(3, [false, false, true, false, false, false], mm);
                s.gr_impl = im;
                for i in 0..3 {
                    s.bodies[i].gr = role3(c, i);
                }
                add(format!("relativity={}/formulation={}/heaviest={}", c, im, mm), s, c + mm);
            }
            let mut s = crate::c_conf::placed(3, [false, false, false, true, false, false], mm);
            for i in 0..3 {
                s.bodies[i].disk = role3(c, i);
            }
            add(format!("disk={}/heaviest={}", c, mm), s, c + mm);
        }
    }
    // hosts of several effects in different places
    for c in 0..81 {
        for mm in 0..3 {
            let d = digits(c, &[3, 3, 3, 3]);
            let mut s = crate::c_conf::placed(3, [true, true, true, true, false, false], mm);
            for i in 0..3 {
                let r = |h: usize| if i == h { Role::Host } else { Role::Orbit };
                s.bodies[i].tides = r(d[0]);
                s.bodies[i].flat = r(d[1]);
                s.bodies[i].gr = r(d[2]);
                s.bodies[i].disk = r(d[3]);
            }
            add(format!("hosts={}{}{}{}/heaviest={}", d[0], d[1], d[2], d[3], mm), s, c + mm);
        }
    }
    // bodies of equal mass, in every order, with every host
    for (k, perm) in perms(3).iter().enumerate() {
        for (j, eff) in [[true, true, true, false, false, false], [false, false, true, false, false, false], [false, false, false, true, false, false], [false; 6]].into_iter().enumerate() {
            for h in 0..3 {
                for three in [false, true] {
                    let mut s = crate::c_conf::placed(3, eff, 0);
                    let m = s.bodies[0].mass;
                    s.bodies[1].mass = m;
                    s.bodies[1].pos = [1.5, 0.4, -0.1];
                    s.bodies[1].vel = [-0.002, 0.011, 0.001];
                    if three {
                        s.bodies[2].mass = m;
                        s.bodies[2].pos = [-6.5, 2.4, 0.3];
                        s.bodies[2].vel = [-0.002, -0.006, -0.001];
                    }
                    let mut s = permute(&s, perm);
                    for i in 0..3 {
                        let r = if i == h { Role::Host } else { Role::Orbit };
                        s.bodies[i].tides = r;
                        s.bodies[i].flat = r;
                        s.bodies[i].gr = r;
                        s.bodies[i].disk = r;
                    }
                    add(format!("twins={}/order={}/effects={}/host={}", 2 + three as u32, k, eff_name(eff), h), s, k + h + j);
                }
            }
        }
    }
    for n in 1..=MAX_PARTICLES + 3 {
        for (k, e) in [0usize, 1, 3, 31].into_iter().enumerate() {
            let mut s = compact(n.min(MAX_PARTICLES), eff_mask(e));
            while s.bodies.len() < n {
                let mut b = s.bodies[1].clone();
                for (x, f) in b.pos.iter_mut().zip([1.3, 1.7, 0.9]) {
                    *x *= f * (s.bodies.len() - 6) as f64;
                }
                s.bodies.push(b);
            }
            add(format!("bodies={}/effects={}", n, e), s, n + k);
        }
    }
    v
}

fn compare(rep: &Rep, ds: &[Descr]) {
    let chunk = 12;
    let nch = (ds.len() + chunk - 1) / chunk;
    par(rep, nch, |c| {
        let part: Vec<(usize, &Descr)> = ds.iter().enumerate().skip(c * chunk).take(chunk).filter(|(_, d)| rep.want(&format!("case/{}", d.name))).collect();
        if part.is_empty() {
            return;
        }
        let file = |i: usize, k: Int| rep.scratch.join(format!("c{}-{}.json", i, int_name(k)));
        let job = Value::Array(part.iter().map(|(i, d)| describe(&d.sys, d.dt, d.rec, d.hist, d.ints.iter().map(|k| (*k, file(*i, *k).to_string_lossy().to_string())).collect())).collect());
        let st = lines(rep, "py_case.py", &job, "case");
        if st.len() != part.len() {
            return rep.violation("case", "the Python tools did not answer for every case");
        }
        for ((i, d), s) in part.iter().zip(&st) {
            let base = format!("case/{}", d.name);
            // what the Rust interface makes of it
            for k in &d.ints {
                let key = format!("{}/{}", base, int_name(*k));
                let c = Case { name: d.name.clone(), sys: d.sys.clone(), int: *k, dt: d.dt };
                let a = guard(|| start(&c, d.hist, d.rec));
                let mut a = match a {
                    Ok(a) => a,
                    Err(m) if d.name.starts_with("table/") || d.name.starts_with("setup/") => {
                        rep.states(1);
                        rep.check(&key, s != "ok", || format!("Python accepts what Rust refuses: {}", m));
                        continue;
                    }
                    Err(m) => {
                        rep.violation(&key, &format!("the Rust interface refuses the case: {}", m));
                        continue;
                    }
                };
                if s != "ok" {
                    rep.violation(&key, &format!("Python refuses what Rust accepts: {}", s));
                    continue;
                }
                let f = file(*i, *k);
                let b = match guard(|| restore_snapshot(&f)) {
                    Ok(Ok(b)) => Sim::from_box(b),
                    _ => None,
                };
                let _ = std::fs::remove_file(&f);
                let mut b = match b {
                    Some(b) => b,
                    None => {
                        rep.violation(&key, "the simulator does not accept the case file");
                        continue;
                    }
                };
                rep.states(1);
                if let Some(at) = far(&active(a.value()), &active(b.value()), String::new(), 0.) {
                    rep.violation(&key, &format!("the restored case is not the described one: {}", at));
                    continue;
                }
                // and it runs the same
                let p = rep.scratch.join(format!("h{}", i));
                let mut w = writer(&p);
                // (a planet swollen to the size of a star would be flung away)
                let steps = if d.name.starts_with("evolution-of-planet") && !(d.name.contains("Jupiter") && d.name.ends_with("=TE")) { 0 } else { 8 };
                for _ in 0..steps {
                    let ra = guard(|| a.as_dyn().iterate(&mut w, true));
                    let rb = guard(|| b.as_dyn().iterate(&mut w, true));
                    rep.transitions(2);
                    if ra.is_ok() != rb.is_ok() {
                        rep.violation(&key, "one of the two runs stops");
                        break;
                    }
                    let dist = state_distance(a.uni(), b.uni());
                    let tol = if *k == Int::Ias15 { 1e-3 } else { 1e-9 };
                    rep.err("run from case file", dist, tol, &key);
                    if !(dist <= tol) {
                        rep.violation(&key, &format!("runs differ by {:e} at day {}", dist, a.time()));
                        break;
                    }
                }
                drop(w);
                let _ = std::fs::remove_file(&p);
                rep.traces(1);
            }
        }
    });
}

pub fn p24(rep: &Rep) {
    let ds = descriptions(rep.thorough);
    compare(rep, &ds);
    rep.group("case descriptions", ds.len() as u64);
    rep.sample(json!({"descriptions": ds.len(), "first": ds[0].name, "last": ds[ds.len() - 1].name}));
    if rep.want("constants") {
        constants(rep);
    }
    if rep.want("helpers") {
        helpers(rep);
    }
    if rep.want("history") {
        history(rep);
    }
    let ts = table_cases(rep);
    compare(rep, &ts);
    rep.group("evolution tables and masses", ts.len() as u64);
    let ss = setup_cases(rep);
    compare(rep, &ss);
    rep.group("role assignments and numbers of bodies, valid or not", ss.len() as u64);
}

fn constants(rep: &Rep) {
    let o = lines(rep, "py_misc.py", &json!({"what": "constants"}), "constants");
    let v = match o.first() {
        Some(v) => v.clone(),
        None => return,
    };
    let want: Vec<(&str, f64)> = vec![
        ("MAX_PARTICLES", MAX_PARTICLES as f64), ("PI", PI), ("TWO_PI", TWO_PI), ("DEG2RAD", DEG2RAD), ("M_SUN", M_SUN), ("M2EARTH", M2EARTH), ("M_EARTH", M_EARTH), ("G_SI", G_SI), ("AU", AU), ("M2AU", M2AU), ("R_SUN", R_SUN), ("R_EARTH", R_EARTH), ("HOUR", HOUR), ("DAY", DAY), ("G", G), ("K2", K2), ("BOLTZMANN_CONSTANT_SI", BOLTZMANN_CONSTANT_SI), ("MASS_HYDROGEN_ATOM_SI", MASS_HYDROGEN_ATOM_SI), ("BOLTZMANN_CONSTANT", BOLTZMANN_CONSTANT), ("MASS_HYDROGEN_ATOM", MASS_HYDROGEN_ATOM),
        ("K", K2.sqrt()), ("G_MERCURY", G), ("RAD2DEG", 180. / PI), ("YEAR", 365.25 * 86400.),
    ];
    for (k, x) in want {
        let got = v.get(k).map(hexf).unwrap_or(f64::NAN);
        rep.close("constant", &format!("constants/{}", k), got, x, 1e-14 * x.abs());
        rep.states(1);
    }
    // independent values (IAU 2009, SI) of what both share
    for (k, got, x, tol) in [("au", AU, 1.495978707e11, 1e-12), ("earth radius", R_EARTH * AU, 6.3781e6, 1e-12), ("sun radius", R_SUN * AU, 6.957e8, 1e-12), ("earth/sun", M2EARTH, 332946.050895, 1e-12), ("light", SPEED_OF_LIGHT * AU / 86400., 2.99792458e8, 1e-12), ("gaussian", K2.sqrt(), 0.01720209895, 2e-3)] {
        rep.close("constant value", &format!("constants/value/{}", k), got, x, tol * x);
    }
}

fn helpers(rep: &Rep) {
    let mut spin = vec![];
    let mut spin3 = vec![];
    for w in [0., 0.3, 6.28, 250.] {
        for i in [0., 1e-9, 0.02, 0.9, 1.6, 3.1] {
            for o in [0., 0.0005, 0.41, 1.5, 2.9] {
                for n in [0., 0.5, 2.2, 3.3, 6.] {
                    spin.push(json!([w, i, o, n]));
                }
                spin3.push(json!([w, i, o]));
            }
        }
    }
    let mut sync = vec![];
    for a in [0.004, 0.018, 0.3, 1., 30.] {
        for e in [0., 1e-3, 0.1, 0.33, 0.7, 0.95] {
            for ms in [0.08, 1., 1.4] {
                for mp in [1e-8, 3e-6, 1e-3, 0.01] {
                    sync.push(json!([a, e, ms, mp]));
                }
            }
        }
    }
    let mut radius = vec![];
    for m in [0.01, 0.1, 0.5, 1., 2.5, 10.] {
        for r in [0., 0.3, 0.7, 1.] {
            radius.push(json!([m, r]));
        }
    }
    let mut com = vec![];
    for n in 1..6 {
        let s = compact(n, eff_mask(0));
        com.push(Value::Array(s.bodies.iter().map(|b| json!([b.mass, b.pos, b.vel])).collect()));
        let s = permute(&s, &(0..n).rev().collect::<Vec<_>>());
        com.push(Value::Array(s.bodies.iter().map(|b| json!([b.mass, b.pos, b.vel])).collect()));
    }
    let (tx, ty) = (vec![0., 1., 2.5, 7., 7.5], vec![3., -1., 4., 4., 10.]);
    let lin: Vec<Value> = (-8..64).map(|i| json!([i as f64 * 0.125, tx, ty])).collect();
    let o = lines(rep, "py_misc.py", &json!({"what": "helpers", "spin": spin, "spin3": spin3, "sync": sync, "radius": radius, "com": com, "lin": lin}), "helpers");
    let v = match o.first() {
        Some(v) => v.clone(),
        None => return,
    };
    let f = |x: &Value, i: usize| x[i].as_f64().unwrap();
    for (k, s) in spin.iter().chain(&spin3).enumerate() {
        let g = hexv(&v["spin"][k]);
        let (w, i, o) = (f(s, 0), f(s, 1), f(s, 2));
        let n = s.get(3).and_then(|x| x.as_f64()).unwrap_or(0.);
        // z turned about the x axis by inclination and obliquity, then about z by the node
        let t = [0., -(i + o).sin(), (i + o).cos()];
        let r = [t[0] * n.cos() - t[1] * n.sin(), t[0] * n.sin() + t[1] * n.cos(), t[2]];
        for c in 0..3 {
            rep.close("spin vector", &format!("helpers/spin/{}", s), *g.get(c).unwrap_or(&f64::NAN), w * r[c], 1e-13 * w + 1e-300);
        }
        rep.states(1);
    }
    for (k, s) in sync.iter().enumerate() {
        let g = hexv(&v["sync"][k]);
        let (a, e, ms, mp) = (f(s, 0), f(s, 1), f(s, 2), f(s, 3));
        // Hut 1981
        let e2 = e * e;
        let n = (K2 * (ms + mp) / (a * a * a)).sqrt();
        let w = n * (1. + 7.5 * e2 + 5.625 * e2 * e2 + 0.3125 * e2 * e2 * e2) / ((1. + 3. * e2 + 0.375 * e2 * e2) * (1. - e2).powf(1.5));
        rep.close("pseudo-synchronous period", &format!("helpers/sync/{}", s), *g.first().unwrap_or(&f64::NAN), 2. * PI / w, 1e-12 * 2. * PI / w);
        rep.states(1);
    }
    for (k, s) in radius.iter().enumerate() {
        let g = hexv(&v["radius"][k]);
        let (m, rf) = (f(s, 0).log10(), f(s, 1));
        // Fortney et al. 2007
        let want = (0.0592 * rf + 0.0975) * m * m + (0.2337 * rf + 0.4938) * m + 0.3102 * rf + 0.7932;
        for c in 0..2 {
            rep.close("mass-radius relation", &format!("helpers/radius/{}/{}", s, c), *g.get(c).unwrap_or(&f64::NAN), want, 1e-12);
        }
        rep.states(1);
    }
    for (k, s) in com.iter().enumerate() {
        let g = hexv(&v["com"][k]);
        let mt: f64 = s.as_array().unwrap().iter().map(|b| f(b, 0)).sum();
        let mut want = vec![mt];
        for what in 1..3 {
            for c in 0..3 {
                want.push(s.as_array().unwrap().iter().map(|b| f(b, 0) * b[what][c].as_f64().unwrap()).sum::<f64>() / mt);
            }
        }
        for c in 0..14 {
            let sc = if c % 7 == 0 { mt } else if c % 7 < 4 { 0.2 } else { 0.1 };
            rep.close("centre of mass", &format!("helpers/com/{}/{}", k, c), *g.get(c).unwrap_or(&f64::NAN), want[c % 7], 1e-14 * sc);
        }
        rep.states(1);
    }
    for (k, s) in lin.iter().enumerate() {
        let g = hexv(&v["lin"][k]);
        let t = f(s, 0);
        let want = if t <= tx[0] { ty[0] } else if t >= tx[4] { ty[4] } else {
            let i = (0..4).find(|i| t <= tx[i + 1]).unwrap();
            ty[i] + (ty[i + 1] - ty[i]) * (t - tx[i]) / (tx[i + 1] - tx[i])
        };
        rep.close("linear interpolation", &format!("helpers/interpolation/{}", t), *g.first().unwrap_or(&f64::NAN), want, 1e-12);
        rep.states(1);
    }
}

fn history(rep: &Rep) {
    // real histories
    let mut files = vec![];
    for n in [1usize, 2, 3, 10] {
        for (j, int) in [Int::Demo, Int::Ias15].iter().enumerate() {
            let c = Case { name: String::new(), sys: compact(n, eff_mask(if n == 1 { 0 } else { 31 })), int: *int, dt: 0.04 };
            let p = rep.scratch.join(format!("hist{}-{}.bin", n, j));
            let r = guard(|| {
                let mut s = start(&c, 0.01, 1e9);
                let mut w = writer(&p);
                for _ in 0..4 {
                    let _ = s.as_dyn().iterate(&mut w, true);
                }
            });
            if r.is_err() || std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0) != (4 * 156 * n) as u64 {
                rep.violation(&format!("history/{}", n), "no history to read");
                continue;
            }
            files.push((n, p));
        }
    }
    // every truncation of the last entry, and every whole number of entries
    let mut jobs = vec![];
    for (n, p) in &files {
        let b = std::fs::read(p).unwrap();
        let e = 156 * n;
        let mut lens: Vec<usize> = vec![e, 2 * e, 3 * e, 4 * e];
        let step = if rep.thorough || *n < 3 { 1 } else { 13 };
        lens.extend((2 * e..3 * e).step_by(step));
        lens.extend((1..*n).map(|k| 3 * e + 156 * k));
        lens.sort();
        lens.dedup();
        for l in lens {
            let q = rep.scratch.join(format!("cut{}.bin", jobs.len()));
            std::fs::write(&q, &b[..l]).unwrap();
            jobs.push((*n, l, q, b[..l].to_vec()));
        }
    }
    let chunk = 100;
    par(rep, (jobs.len() + chunk - 1) / chunk, |c| {
        let part: Vec<_> = jobs.iter().skip(c * chunk).take(chunk).collect();
        let o = lines(rep, "py_misc.py", &json!({"what": "history", "files": part.iter().map(|j| j.2.to_string_lossy()).collect::<Vec<_>>()}), "history");
        if o.len() != part.len() {
            return rep.violation("history", "the Python tools did not answer for every file");
        }
        for ((n, l, _, b), v) in part.iter().zip(&o) {
            let key = format!("history/bodies={}/bytes={}", n, l);
            rep.states(1);
            rep.traces(1);
            let rows = l / (156 * n) * n;
            if !rep.check(&key, v["n"] == json!(n) && v["rows"] == json!(rows), || format!("read {} bodies and {} rows, want {} and {}: {}", v["n"], v["rows"], n, rows, v["error"])) {
                continue;
            }
            let cols: Vec<Vec<f64>> = v["data"].as_array().unwrap().iter().map(hexv).collect();
            for r in 0..rows {
                for f in 0..20 {
                    let o = r * 156 + match f { 0 => 0, 1 => 8, 2 => 16, _ => 20 + 8 * (f - 3) };
                    let want = if f == 2 { i32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as f64 } else { f64::from_le_bytes(b[o..o + 8].try_into().unwrap()) };
                    rep.check(&key, cols[f][r].to_bits() == want.to_bits() || cols[f][r] == want || (want.is_nan() && cols[f][r].is_nan()), || format!("row {} field {}: Python reads {:e}, the file holds {:e}", r, f, cols[f][r], want));
                }
            }
        }
    });
    rep.group("history files read by Python", jobs.len() as u64);
    // classified by body, relative to any body
    let mut what = vec![];
    for (n, p) in &files {
        if *n > 1 {
            for r in 0..(*n).min(3) {
                what.push((*n, r, p.clone()));
            }
        }
    }
    let o = lines(rep, "py_misc.py", &json!({"what": "classify", "files": what.iter().map(|w| json!([w.2.to_string_lossy(), w.1])).collect::<Vec<_>>()}), "history/classified");
    if o.len() != what.len() {
        return rep.violation("history/classified", "the Python tools did not answer for every file");
    }
    for ((n, r, p), v) in what.iter().zip(&o) {
        let key = format!("history/classified/bodies={}/reference={}", n, r);
        rep.states(1);
        let b = std::fs::read(p).unwrap();
        let rec = |e: usize, i: usize, o: usize| f64::from_le_bytes(b[(e * n + i) * 156 + o..(e * n + i) * 156 + o + 8].try_into().unwrap());
        let others: Vec<usize> = (0..*n).filter(|i| i != r).collect();
        let keys: Vec<String> = others.iter().map(|i| i.to_string()).collect();
        if !rep.check(&key, v["keys"] == json!(keys), || format!("bodies are {} instead of {:?}", v["keys"], keys)) {
            continue;
        }
        let entries = b.len() / (156 * n);
        let check = |vals: &Value, i: usize| {
            let cols: Vec<Vec<f64>> = vals.as_array().unwrap().iter().map(hexv).collect();
            for e in 0..entries {
                rep.close("classified time", &key, cols[0][e], rec(e, i, 0) / 365.25, 1e-12 * rec(e, i, 0).abs() / 365.25 + 1e-300);
                rep.check(&key, cols[1][e] == i as f64, || format!("body {} is filed as {}", cols[1][e], i));
                for c in 0..3 {
                    let (x, w) = (rec(e, i, 20 + 8 * c) - rec(e, *r, 20 + 8 * c), rec(e, i, 68 + 8 * c) - rec(e, *r, 68 + 8 * c));
                    rep.close("classified position", &key, cols[2 + c][e], x, 1e-14);
                    rep.close("classified velocity", &key, cols[5 + c][e], w, 1e-14);
                }
                rep.close("classified mass", &key, cols[8][e], rec(e, i, 92), 0.);
            }
            cols
        };
        check(&v["star"], *r);
        for (k, i) in others.iter().enumerate() {
            let cols = check(&v["planets"][k], *i);
            // elements with respect to the barycentre of all the others
            for e in 0..entries {
                let m = |i: usize| rec(e, i, 92);
                let pos = |i: usize| [rec(e, i, 20), rec(e, i, 28), rec(e, i, 36)];
                let vel = |i: usize| [rec(e, i, 68), rec(e, i, 76), rec(e, i, 84)];
                let mo: f64 = (0..*n).filter(|j| j != i).map(m).sum();
                let bary = |f: &dyn Fn(usize) -> V3| (0..*n).filter(|j| j != i).fold([0.; 3], |a, j| add(a, mul(f(j), m(j) / mo)));
                let (x, w) = (sub(pos(*i), bary(&pos)), sub(vel(*i), bary(&vel)));
                let gm = K2 * (mo + m(*i));
                let a = 1. / (2. / norm(x) - dot(w, w) / gm);
                let h = cross(x, w);
                let ev = sub(mul(cross(w, h), 1. / gm), mul(x, 1. / norm(x)));
                // the semi-major axis is counted from the reference body: the barycentre's distance to it is added
                let off = norm(sub(bary(&pos), pos(*r)));
                if a > 0. && norm(ev) < 0.9 {
                    rep.close("classified semi-major axis", &key, cols[9][e], a + off, 1e-9 * a);
                    rep.close("classified eccentricity", &key, cols[10][e], norm(ev), 1e-8);
                    rep.close("classified inclination", &key, cols[11][e], (h[2] / norm(h)).clamp(-1., 1.).acos(), 2e-8);
                }
            }
        }
    }
    rep.group("histories classified by Python", what.len() as u64);
}
