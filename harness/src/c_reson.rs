//! P28: the figures of resonances drawn from histories.
use crate::c_misc::{python, solve_kepler};
use crate::sys::*;
use crate::util::*;
use serde_json::{json, Value};

pub const P28_RULE: &str = "every length of the history on both sides of each change of the sampling (2 to 10000 entries) x number of planets x order of their distances x resonance and which of its angles librates x when it is held (always, never, for a while, twice, two different ones one after the other, until the planets swap places): the real script is run (drawing replaced by a recorder) and its figure must show exactly one box per held resonance, over the entries it is held, with its name, rank and pair, plus the true size, eccentricity and order of every orbit; single-resonance figures: every pair x resonance x history, period ratio and every angle compared entry by entry, impossible requests refused.";
pub const P28_ASSUME: &[&str] = &["pandas and matplotlib are replaced by stand-ins (not installed here)", "held resonances librate within 30 degrees about 0, 60 or 180, everything else covers the circle", "the beginning and end of a box are judged to within the window of the test and the sampling step"];

const D: f64 = std::f64::consts::PI / 180.;

struct Plan {
    name: String,
    n: usize,
    entries: usize,
    /// per planet (in the order of its number): rank by distance at start, 0 = closest
    rank: Vec<usize>,
    /// per adjacent pair (by distance): resonance held in each segment (start, end, p, q, angle)
    held: Vec<Vec<(usize, usize, usize, usize, usize)>>,
    /// planets swap places (all ranks reversed) at this entry
    swap: Option<usize>,
    precess: bool,
}

/// Elements of one planet at every entry: a, e, argument, node, mean anomaly (degrees).
type Track = Vec<[f64; 5]>;

/// The same states for a given attempt: rates are changed until nothing but what is meant to be held looks like a resonance.
fn tracks(p: &Plan, attempt: usize) -> Vec<Track> {
    let weyl = |k: usize, s: f64| (k as f64 * s * 360.) % 360.;
    let irr: Vec<f64> = (0..6).map(|j| (2f64.sqrt() * (1 + 3 * j + 7 * attempt) as f64 + 0.37 * (j * attempt) as f64).fract()).collect();
    let mut out = vec![vec![]; p.n];
    for k in 0..p.entries {
        // by distance
        let who: Vec<usize> = (0..p.n).map(|r| (0..p.n).find(|&j| (if p.swap.map(|s| k >= s).unwrap_or(false) { p.n - 1 - p.rank[j] } else { p.rank[j] }) == r).unwrap()).collect();
        let varpi = |j: usize| if p.precess { (37. * j as f64 + weyl(k, irr[j + 2] / 7.)) % 360. } else { 37. + 71. * j as f64 };
        let mut lam = weyl(k, irr[0]);
        let mut a = 0.03;
        for r in 0..p.n {
            let j = who[r];
            if r > 0 {
                let i = who[r - 1];
                let h = p.held[r - 1].iter().find(|s| k >= s.0 && k < s.1);
                match h {
                    Some(&(_, _, pp, q, ang)) => {
                        let c = [0., 180., 60.][(pp + q) % 3] + 30. * (k as f64 * 2.1).sin();
                        lam = (c + q as f64 * lam + ang as f64 * varpi(i) + (pp - q - ang) as f64 * varpi(j) + 360. * ((k * (1 + attempt / 3) + k / 3 * (attempt % 3)) % pp) as f64) / pp as f64;
                        a *= (pp as f64 / q as f64 * 1.004).powf(2. / 3.);
                    }
                    None => {
                        lam = weyl(k, irr[r]) + 11.;
                        // the period ratio stays where it was or will be
                        let (pp, q) = p.held[r - 1].iter().filter(|s| k >= s.1).last().or(p.held[r - 1].first()).map(|s| (s.2, s.3)).unwrap_or((17, 10));
                        a *= (pp as f64 / q as f64 * 1.004).powf(2. / 3.);
                    }
                }
            }
            let e = [0.02, 0.15, 0.3][j % 3] * (1. + 0.1 * (k as f64 * 0.01).sin());
            let node = 20. + 100. * j as f64;
            out[j].push([a, e, (varpi(j) - node).rem_euclid(360.), node, (lam - varpi(j)).rem_euclid(360.)]);
        }
    }
    out
}

const MS: f64 = 0.09;
fn mass(j: usize) -> f64 {
    1e-6 * (1. + j as f64)
}

fn history(p: &Plan, tr: &[Track]) -> Vec<u8> {
    let mut bytes = Vec::with_capacity(p.entries * (p.n + 1) * 156);
    for k in 0..p.entries {
        let ph = 0.37 * k as f64;
        let (x0, v0) = ([0.01 * ph.cos(), 0.02, 0.003], [1e-4 * ph.sin(), -2e-4, 1e-5]);
        for j in 0..=p.n {
            let (x, v) = if j == 0 {
                (x0, v0)
            } else {
                let [a, e, g, n, m] = tr[j - 1][k];
                let ea = solve_kepler(e, m * D);
                let f = 2. * ((1. + e).sqrt() * (ea / 2.).sin()).atan2((1. - e).sqrt() * (ea / 2.).cos());
                let (x, v) = kepler_state(gm(MS + mass(j)), a, e, 0.03 * j as f64, g * D, n * D, f);
                (add(x, x0), add(v, v0))
            };
            let mut put = |v: f64| bytes.extend_from_slice(&v.to_le_bytes());
            put(time(k) * 365.25);
            put(0.05);
            bytes.extend_from_slice(&(j as i32).to_le_bytes());
            let mut put = |v: f64| bytes.extend_from_slice(&v.to_le_bytes());
            for w in [x, [0., 0., 1.], v] {
                for q in w {
                    put(q);
                }
            }
            for q in [if j == 0 { MS } else { mass(j) }, 1e-4, 0.3, 0.3, 1e17, 0., 0., 1e5] {
                put(q);
            }
        }
    }
    bytes
}

fn time(k: usize) -> f64 {
    3. + 10. * k as f64
}

fn candidates(ratio: f64) -> Vec<(usize, usize)> {
    let lo = (ratio * 0.95).max(1.);
    let step = (ratio * 1.05 - lo) / 10.;
    let mut out: Vec<(usize, usize)> = vec![];
    for i in 0..10 {
        let x = lo + step * i as f64;
        let mut best = (f64::INFINITY, 0, 0);
        for q in 1..=12usize {
            let p = (x * q as f64).round() as usize;
            let d = (x - p as f64 / q as f64).abs();
            if d < best.0 - 1e-12 {
                best = (d, p, q);
            }
        }
        if best.1 <= 20 && !out.contains(&(best.1, best.2)) {
            out.push((best.1, best.2));
        }
    }
    out.sort();
    out
}

fn fold(x: f64) -> f64 {
    let y = x.rem_euclid(360.);
    if y > 270. { y - 360. } else { y }
}

fn angles(a: &[f64; 5], b: &[f64; 5], p: usize, q: usize) -> Vec<f64> {
    let (wi, wo) = (a[2] + a[3], b[2] + b[3]);
    let th = p as f64 * (b[4] + wo) - q as f64 * (a[4] + wi);
    (0..=p - q).map(|i| fold(th - i as f64 * wi - (p - q - i) as f64 * wo)).collect()
}

/// Smallest spread of the angles of a resonance over the entries.
fn spread(inner: &Track, outer: &Track, from: usize, to: usize, p: usize, q: usize) -> f64 {
    let v: Vec<Vec<f64>> = (from..=to).map(|k| angles(&inner[k], &outer[k], p, q)).collect();
    (0..=p - q).map(|i| {
        let m = v.iter().map(|x| x[i]).sum::<f64>() / v.len() as f64;
        (v.iter().map(|x| (x[i] - m).powi(2)).sum::<f64>() / v.len() as f64).sqrt()
    }).fold(f64::INFINITY, f64::min)
}

fn plans(thorough: bool) -> Vec<Plan> {
    let res: &[(usize, usize)] = &[(2, 1), (3, 2), (4, 3), (5, 3), (3, 1), (5, 2)];
    let mut out = vec![];
    let mut add_plan = |name: String, n: usize, entries: usize, rank: &[usize], held: Vec<Vec<(usize, usize, usize, usize, usize)>>, swap: Option<usize>, precess: bool| {
        out.push(Plan { name, n, entries, rank: rank.to_vec(), held, swap, precess });
    };
    let orders: &[&[usize]] = &[&[0], &[0, 1], &[1, 0], &[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]];
    // every length
    let lengths: Vec<usize> = if thorough { vec![2, 3, 15, 16, 17, 30, 120, 499, 500, 501, 502, 999, 1000, 1001, 1499, 1500, 2500, 7499, 7500, 8000, 10000] } else { vec![2, 15, 16, 17, 120, 499, 500, 501, 999, 1000, 1500, 8000] };
    for &e in &lengths {
        for o in if thorough { vec![orders[1], orders[2], orders[6]] } else { vec![orders[2]] } {
            let held = (1..o.len()).map(|k| vec![(0, e, res[k % 6].0, res[k % 6].1, 0)]).collect();
            add_plan(format!("length={}/order={:?}", e, o), o.len(), e, o, held, None, false);
        }
    }
    // every resonance, angle and pattern
    for (ri, &(p, q)) in res.iter().enumerate() {
        for ang in 0..=p - q {
            for precess in [false, true] {
                for (oi, o) in orders.iter().enumerate() {
                    for pat in 0..6 {
                        if !thorough && (oi + ang + ri + pat + precess as usize) % 4 != 0 {
                            continue;
                        }
                        if o.len() == 1 && pat > 0 {
                            continue;
                        }
                        // two resonances at different period ratios, and planets changing places, leave a step in the sizes
                        let e = 220;
                        let (r2, q2) = res[(ri + 1) % res.len()];
                        let seg = |pat: usize| match pat {
                            0 => vec![(0, e, p, q, ang)],
                            1 => vec![],
                            2 => vec![(60, 150, p, q, ang)],
                            3 => vec![(0, 80, p, q, ang), (140, e, p, q, ang)],
                            4 => vec![(0, 100, p, q, ang), (100, e, r2, q2, 0)],
                            _ => vec![(0, e, p, q, ang)],
                        };
                        let held = (1..o.len()).map(|k| if k == 1 || pat == 5 { seg(pat) } else { vec![(30, 200, r2, q2, 0)] }).collect();
                        let swap = if pat == 5 { Some(110) } else { None };
                        add_plan(format!("res={}:{}/angle={}/precess={}/order={:?}/pattern={}", p, q, ang, precess as usize, o, pat), o.len(), e, o, held, swap, precess);
                    }
                }
            }
        }
    }
    out
}

struct BoxShown {
    text: String,
    x: (f64, f64),
    rank: f64,
}

fn nums(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default()
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

pub fn p28(rep: &Rep) {
    let dir = rep.scratch.join("reson");
    std::fs::create_dir_all(&dir).unwrap();
    let plans: Vec<Plan> = plans(rep.thorough).into_iter().filter(|p| rep.want(&p.name)).collect();
    let shards = 16;
    par(rep, shards, |sh| {
        let mut jobs: Vec<Value> = vec![];
        let mut wants = vec![];
        for (c, p) in plans.iter().enumerate().filter(|x| x.0 % shards == sh) {
            rep.tick();
            let Some(tr) = (0..2000).map(|a| tracks(p, a)).find(|t| suitable(p, t)) else {
                eprintln!("no states for {}", p.name);
                continue;
            };
            let hf = dir.join(format!("h{}.bin", c));
            std::fs::write(&hf, history(p, &tr)).unwrap();
            let s = |x: &std::path::Path| x.to_string_lossy().into_owned();
            jobs.push(json!({"script": "explore_timed_resonances.py", "argv": [s(&hf)], "outputs": [s(&dir.join(format!("h{}_timed_resonances.png", c)))]}));
            let mut singles = vec![];
            if p.n >= 2 {
                for (i, o) in [(1, 2), (1, 3), (2, 3), (2, 1)] {
                    if i > p.n || o > p.n {
                        continue;
                    }
                    for (rp, rq) in [(2usize, 1usize), (5, 2), (3, 3), (1, 2)] {
                        if (c + rp + i) % 3 != 0 && !rep.thorough {
                            continue;
                        }
                        singles.push((i, o, rp, rq));
                        jobs.push(json!({"script": "explore_single_resonance.py", "argv": [s(&hf), i.to_string(), o.to_string(), rp.to_string(), rq.to_string()], "outputs": [s(&dir.join(format!("h{}_resonance_{}_{}_between_{}_and_{}.png", c, rp, rq, i, o)))]}));
                    }
                }
            }
            wants.push((p, tr, singles));
        }
        if jobs.is_empty() {
            return;
        }
        let out: Vec<Value> = match python(rep, "py_report.py", &[], serde_json::to_string(&jobs).unwrap().as_bytes()) {
            Ok(o) => o.lines().filter_map(|l| serde_json::from_str(l).ok()).collect(),
            Err(e) => return rep.violation("figures", &format!("the scripts could not be run: {}", e)),
        };
        if out.len() != jobs.len() {
            return rep.violation("figures", "the scripts did not answer for every history");
        }
        let mut q = 0;
        for (p, tr, singles) in &wants {
            rep.tick();
            timed(rep, p, tr, &out[q]);
            q += 1;
            for &(i, o, rp, rq) in singles {
                single(rep, p, tr, i, o, rp, rq, &out[q]);
                q += 1;
            }
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    rep.sample(json!({"case": "res=3:2/angle=1/precess=1/order=[1, 0, 2]/pattern=3"}));
}

fn axes<'a>(f: &'a Value, label: &str) -> Option<&'a Value> {
    f.as_array()?.iter().find(|a| a["ylabel"].as_str().map(|l| l.to_lowercase().contains(label)).unwrap_or(false))
}

fn figure(o: &Value) -> Option<Value> {
    serde_json::from_str(o["files"][0].as_str()?).ok()
}

fn rank(tr: &[Track], j: usize, k: usize) -> usize {
    tr.iter().filter(|t| t[k][0] < tr[j][k][0]).count() + 1
}

/// What is held: (inner, outer, p, q, from, to), per pair of neighbours.
fn wanted(p: &Plan, tr: &[Track]) -> Vec<(usize, usize, usize, usize, usize, usize)> {
    let mut want = vec![];
    for (r, h) in p.held.iter().enumerate() {
        for &(s, e, pp, q, _) in h {
            let parts = match p.swap {
                Some(x) if x > s && x < e => vec![(s, x), (x, e)],
                _ => vec![(s, e)],
            };
            for (s, e) in parts {
                let at = |rk: usize| (0..p.n).find(|&j| rank(tr, j, s) == rk).unwrap();
                want.push((at(r + 1), at(r + 2), pp, q, s, e));
            }
        }
    }
    want
}

/// Are the states what they are meant to be?
fn suitable(p: &Plan, tr: &[Track]) -> bool {
    let n = p.entries;
    let step = if n > 500 { n / 500 } else { 1 };
    let win = step.max(15);
    let want = wanted(p, tr);
    for k in (win..n).step_by(step) {
        let from = k + 1 - win;
        for r in 1..p.n {
            let (i, j) = ((0..p.n).find(|&j| rank(tr, j, k) == r).unwrap(), (0..p.n).find(|&j| rank(tr, j, k) == r + 1).unwrap());
            let ratio = (tr[j][k][0] / tr[i][k][0]).powf(1.5);
            let begin = (tr[j][from][0] / tr[i][from][0]).powf(1.5);
            if (ratio - begin).abs() > 0.019 {
                continue;
            }
            let held = want.iter().find(|w| w.0 == i && w.1 == j && from >= w.4 && k < w.5);
            let partly = want.iter().find(|w| w.0 == i && w.1 == j && k >= w.4 && from < w.5);
            for (a, b) in candidates(ratio) {
                let s = spread(&tr[i], &tr[j], from, k, a, b);
                match (held, partly) {
                    (Some(w), _) if (w.2, w.3) == (a, b) => {
                        if s > 50. {
                            return false;
                        }
                        break;
                    }
                    (None, Some(w)) if (w.2, w.3) == (a, b) => {}
                    _ if s < 74. => return false,
                    _ => {}
                }
            }
        }
    }
    true
}

fn timed(rep: &Rep, p: &Plan, tr: &[Track], o: &Value) {
    let name = &p.name;
    if !o["error"].is_null() {
        return rep.violation(name, &format!("no figure: {}", o["error"]));
    }
    let Some(f) = figure(o) else { return rep.violation(name, "the figure was not written") };
    let (Some(fa), Some(fo), Some(fe)) = (axes(&f, "a ["), axes(&f, "order"), axes(&f, "eccentricity")) else { return rep.violation(name, "a panel of the figure is missing") };
    let n = p.entries;
    let tol_t = |k: usize| 1e-9 * time(k);
    let index = |t: f64| {
        let k = ((t - 3.) / 10.).round();
        (k >= 0. && (k as usize) < n && near(time(k as usize), t, 1e-9 * t)).then_some(k as usize)
    };
    let lines = |ax: &Value, label: Option<String>| -> Vec<(Vec<f64>, Vec<f64>)> { ax["lines"].as_array().unwrap().iter().filter(|l| l["label"].as_str().map(|s| s.to_string()) == label).map(|l| (nums(&l["x"]), nums(&l["y"]))).collect() };
    // sizes and eccentricities
    for j in 0..p.n {
        let key = format!("{}/planet={}", name, j + 1);
        let full = |ls: &[(Vec<f64>, Vec<f64>)], want: &dyn Fn(usize) -> f64| ls.iter().any(|(x, y)| x.len() == n && (0..n).all(|k| near(x[k], time(k), tol_t(k)) && near(y[k], want(k), 1e-7)));
        rep.check(&key, full(&lines(fa, Some((j + 1).to_string())), &|k| tr[j][k][0]), || "the size of the orbit is not drawn as it is".into());
        rep.check(&key, full(&lines(fa, None), &|k| tr[j][k][0] * (1. - tr[j][k][1])), || "the pericentre is not drawn as it is".into());
        rep.check(&key, full(&lines(fa, None), &|k| tr[j][k][0] * (1. + tr[j][k][1])), || "the apocentre is not drawn as it is".into());
        rep.check(&key, full(&lines(fe, Some((j + 1).to_string())), &|k| tr[j][k][1]), || "the eccentricity is not drawn as it is".into());
        rep.transitions(n as u64);
    }
    let step = if n > 500 { n / 500 } else { 1 };
    let win = step.max(15);
    let rank = |j: usize, k: usize| rank(tr, j, k);
    // order of the planets
    for j in 0..p.n {
        let key = format!("{}/planet={}", name, j + 1);
        let l = lines(fo, Some((j + 1).to_string()));
        let ok = l.len() == 1 && {
            let (x, y) = &l[0];
            let ks: Vec<Option<usize>> = x.iter().map(|&t| index(t)).collect();
            let mut last = 0;
            x.first().map(|&t| near(t, time(0), tol_t(0))).unwrap_or(false)
                && ks.iter().zip(y).all(|(k, y)| {
                    let Some(k) = *k else { return false };
                    let gap = k - last.min(k);
                    last = k;
                    gap <= win.max(step) + 1 && *y == rank(j, k) as f64
                })
                && (n <= win || last + step >= n)
        };
        rep.check(&key, ok, || "the order of the planets is not drawn as it is".into());
    }
    // boxes
    let texts = fo["texts"].as_array().unwrap();
    let areas = fo["areas"].as_array().unwrap();
    let mut shown = vec![];
    for t in texts {
        let (tx, ty) = (t["x"].as_f64().unwrap_or(f64::NAN), t["y"].as_f64().unwrap_or(f64::NAN));
        let a = areas.iter().find(|a| {
            let (x, y) = (nums(&a["x"]), nums(&a["y"]));
            let mid = |v: &[f64]| (v.iter().cloned().fold(f64::INFINITY, f64::min) + v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)) / 2.;
            near(mid(&x), tx, 1e-6 * tx) && near(mid(&y), ty, 1e-6)
        });
        let Some(a) = a else {
            rep.violation(name, &format!("{} is written outside its box", t["text"]));
            continue;
        };
        let x = nums(&a["x"]);
        let y = nums(&a["y"]);
        shown.push(BoxShown { text: t["text"].as_str().unwrap_or("").into(), x: (x.iter().cloned().fold(f64::INFINITY, f64::min), x.iter().cloned().fold(f64::NEG_INFINITY, f64::max)), rank: y.iter().cloned().fold(f64::INFINITY, f64::min).floor() });
    }
    rep.check(name, areas.len() == texts.len(), || format!("{} boxes and {} names", areas.len(), texts.len()));
    let want = wanted(p, tr);
    let checks: Vec<usize> = (win..n).step_by(step).collect();
    let mut used = vec![false; shown.len()];
    for &(i, j, pp, q, s, e) in &want {
        // entries where the whole window is inside
        let ks: Vec<usize> = checks.iter().cloned().filter(|&k| k + 1 >= win + s && k < e).collect();
        let key = format!("{}/pair={}-{}/from={}", name, i + 1, j + 1, s);
        rep.states(1);
        let mine: Vec<usize> = (0..shown.len()).filter(|&b| {
            let w = &shown[b];
            w.text == format!("{}:{}", pp, q) && w.rank == rank(i, s) as f64 && w.x.1 >= time(s) - 1e-6 && w.x.0 <= time(e.min(n) - 1) + 1e-6
                && {
                    // the dashes show which pair it is
                    [w.x.0, w.x.1].iter().all(|&t| index(t).map(|k| lines(fa, None).iter().any(|(x, y)| x.len() == 2 && y.len() == 2 && near(x[0], t, 1e-6) && near(x[1], t, 1e-6) && ((near(y[0], tr[i][k][0], 1e-7) && near(y[1], tr[j][k][0], 1e-7)) || (near(y[1], tr[i][k][0], 1e-7) && near(y[0], tr[j][k][0], 1e-7))))).unwrap_or(false))
                }
        }).collect();
        if ks.is_empty() {
            for b in mine {
                used[b] = true;
            }
            continue;
        }
        if mine.len() != 1 {
            rep.violation(&key, &format!("{}:{} held by entries {} to {} is shown {} times", pp, q, s, e - 1, mine.len()));
            continue;
        }
        used[mine[0]] = true;
        let w = &shown[mine[0]];
        let (b, l) = (index(w.x.0), index(w.x.1));
        let first = ks[0];
        let last = *ks.last().unwrap();
        let ok = match (b, l) {
            (Some(b), Some(l)) => b <= first && b + win + step > first && l >= last && l <= last + win + step,
            _ => false,
        };
        rep.check(&key, ok, || format!("{}:{} held by entries {} to {} is shown from {:?} to {:?} (expected about {} to {})", pp, q, s, e - 1, b, l, first, last));
    }
    for (b, w) in shown.iter().enumerate() {
        rep.check(name, used[b], || format!("{} shown from {} to {} at rank {} although it is not held", w.text, w.x.0, w.x.1, w.rank));
    }
    rep.traces(1);
}

fn single(rep: &Rep, p: &Plan, tr: &[Track], i: usize, o: usize, rp: usize, rq: usize, out: &Value) {
    let key = format!("{}/single/{}:{}/{}-{}", p.name, rp, rq, i, o);
    rep.states(1);
    if i > o || rq > rp {
        rep.check(&key, !out["error"].is_null() && out["files"][0].is_null(), || "an impossible request was accepted".into());
        return;
    }
    if !out["error"].is_null() {
        return rep.violation(&key, &format!("no figure: {}", out["error"]));
    }
    let Some(f) = figure(out) else { return rep.violation(&key, "the figure was not written") };
    let n = p.entries;
    let (a, b) = (&tr[i - 1], &tr[o - 1]);
    let judge = |label: &str, want: &dyn Fn(usize) -> f64, angle: bool| {
        let ok = axes(&f, label).and_then(|ax| ax["lines"].as_array()).map(|l| {
            l.iter().any(|l| {
                let (x, y) = (nums(&l["x"]), nums(&l["y"]));
                x.len() == n && y.len() == n && (0..n).all(|k| {
                    near(x[k], time(k), 1e-9 * time(k))
                        && if angle {
                            let d = (y[k] - want(k)).rem_euclid(360.);
                            d.min(360. - d) < 1e-3 && y[k] >= -90.001 && y[k] <= 270.001
                        } else {
                            near(y[k], want(k), 1e-6)
                        }
                })
            })
        }).unwrap_or(false);
        rep.check(&key, ok, || format!("panel '{}' is not what the history holds", label));
        rep.transitions(n as u64);
    };
    judge("period ratio", &|k| (b[k][0] / a[k][0]).powf(1.5), false);
    judge("w2 - w1", &|k| b[k][2] + b[k][3] - a[k][2] - a[k][3], true);
    for m in 0..=rp - rq {
        judge(&format!("phi {}", m), &|k| angles(&a[k], &b[k], rp, rq)[m], true);
    }
    rep.traces(1);
}
