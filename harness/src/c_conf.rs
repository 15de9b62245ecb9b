//! P23: set-up validation and host selection.
use crate::c_force::*;
use crate::c_misc::p18_tables;
use crate::sys::*;
use crate::util::*;
use posidonius::*;
use serde_json::json;

pub const P23_RULE: &str = "roles (none, host, orbiting) of every body of 3-body (thorough: 4-body) systems for tides and flattening together, each effect requested or not, every position of the most massive body; roles of every body for relativity (every implementation, including disabled) and for the disk (with and without extension) together; every choice of host for all four effects x every requested subset of the six effects x with and without windy/evolving bodies; 1..12 bodies; every pair of tidal and flattening models of a body in both setting orders, roles and for replacing an earlier setting; every evolution model and mass with every placement of the simulated interval relative to its table, and masses without a table. Each is compared with the rules of valid configurations; accepted ones are evaluated and the bodies that feel each effect are compared with the roles.";
pub const P23_ASSUME: &[&str] = &["which bodies feel an effect is observed through the per-body outputs of a force evaluation", "evolution tables are synthetic"];

const ROLE: [Role; 3] = [Role::None, Role::Host, Role::Orbit];

/// The rules of a valid configuration: Ok(effects that act) or Err(reason).
fn verdict(s: &Sys, disk_extent: bool) -> Result<[bool; 6], &'static str> {
    let hosts = |f: &dyn Fn(&Body) -> Role| -> Vec<usize> { (0..s.bodies.len()).filter(|&i| f(&s.bodies[i]) == Role::Host).collect() };
    let t = hosts(&|b| b.tides);
    let f = hosts(&|b| b.flat);
    let g = if (1..=3).contains(&s.gr_impl) { hosts(&|b| b.gr) } else { vec![] };
    let d = if disk_extent { hosts(&|b| b.disk) } else { vec![] };
    for h in [&t, &f, &g, &d] {
        if h.len() > 1 {
            return Err("several hosts");
        }
    }
    let mut e = s.eff;
    e[TIDES] &= t.len() == 1;
    e[FLAT] &= f.len() == 1;
    e[GR] &= g.len() == 1;
    e[DISK] &= d.len() == 1;
    e[WIND] &= s.bodies.iter().any(|b| b.wind.is_some());
    e[EVO] &= s.bodies.iter().any(|b| b.evo != EvolutionType::NonEvolving);
    let mm = (0..s.bodies.len()).fold(0, |k, i| if s.bodies[i].mass > s.bodies[k].mass { i } else { k });
    if e[GR] && g[0] != mm {
        return Err("relativity host is not the most massive");
    }
    if e[TIDES] && e[FLAT] && t[0] != f[0] {
        return Err("tides and flattening hosts differ");
    }
    Ok(e)
}

fn judge(rep: &Rep, key: &str, s: &Sys, disk_extent: bool) {
    if !rep.want(key) {
        return;
    }
    let want = verdict(s, disk_extent);
    let u = guard(|| build(s));
    rep.states(1);
    rep.transitions(1);
    rep.traces(1);
    let (mut u, e) = match (u, want) {
        (Err(_), Err(_)) => return,
        (Ok(_), Err(why)) => {
            rep.violation(key, &format!("accepted although invalid: {}", why));
            return;
        }
        (Err(m), Ok(_)) => {
            rep.violation(key, &format!("valid configuration refused: {}", m));
            return;
        }
        (Ok(u), Ok(e)) => (u, e),
    };
    let c = &u.consider_effects;
    let acts = [c.tides, c.rotational_flattening, c.general_relativity, c.disk, c.wind, c.evolution];
    if !rep.check(key, acts == e, || format!("effects that act {}, want {}", eff_name(acts), eff_name(e))) {
        return;
    }
    let r = guard(|| {
        u.calculate_roche_radiuses();
        eval(&mut u, 0.3, IgnoreGravityTerms::None);
    });
    if let Err(m) = r {
        rep.violation(key, &format!("accepted configuration stops at the first evaluation: {}", m));
        return;
    }
    rep.transitions(1);
    let g = got(&u);
    let n = s.bodies.len();
    let nz = |v: V3| norm(v) > 0.;
    for i in 0..n {
        let b = &s.bodies[i];
        for k in 0..3 {
            for v in [&g.add, &g.tor] {
                if !v[i][k].is_finite() {
                    rep.violation(key, &format!("body {}: not finite", i));
                    return;
                }
            }
        }
        let others = |f: &dyn Fn(&Body) -> Role| s.bodies.iter().any(|x| f(x) == Role::Orbit);
        let feel = |f: &dyn Fn(&Body) -> Role, on: bool| on && (f(b) == Role::Orbit || (f(b) == Role::Host && others(f)));
        rep.check(key, nz(g.t_acc[i]) == feel(&|x| x.tides, e[TIDES]), || format!("tidal acceleration of body {}: {:?}", i, g.t_acc[i]));
        rep.check(key, nz(g.f_acc[i]) == feel(&|x| x.flat, e[FLAT]), || format!("flattening acceleration of body {}: {:?}", i, g.f_acc[i]));
        if !(e[GR] && b.gr == Role::Host) {
            rep.check(key, nz(g.g_acc[i]) == (e[GR] && b.gr == Role::Orbit), || format!("relativistic acceleration of body {}: {:?}", i, g.g_acc[i]));
        }
        if b.disk != Role::Host || !e[DISK] {
            rep.check(key, !nz(g.d_acc[i]) || (e[DISK] && b.disk == Role::Orbit), || format!("disk acceleration of body {}: {:?}", i, g.d_acc[i]));
            let host_is_star = s.bodies.iter().any(|x| x.disk == Role::Host && x.mass > 0.01);
            rep.check(key, nz(g.d_acc[i]) || !(e[DISK] && b.disk == Role::Orbit && host_is_star), || format!("no disk acceleration of body {}", i));
        }
        rep.check(key, nz(g.w_tor[i]) == (e[WIND] && b.wind.is_some()), || format!("wind torque of body {}: {:?}", i, g.w_tor[i]));
    }
    let heaviest = (0..n).fold(0, |k, i| if s.bodies[i].mass > s.bodies[k].mass { i } else { k });
    rep.check(key, v3(u.particles[heaviest].heliocentric_position) == [0.; 3], || "the most massive body is not the origin of the heliocentric frame".into());
}

/// Star at list position `mm`.
pub fn placed(n: usize, eff: [bool; 6], mm: usize) -> Sys {
    let s = compact(n, eff);
    let mut perm: Vec<usize> = (1..n).collect();
    perm.insert(mm, 0);
    let mut s = permute(&s, &perm);
    for b in s.bodies.iter_mut() {
        b.tides = Role::None;
        b.flat = Role::None;
        b.gr = Role::None;
        b.disk = Role::None;
        b.wind = None;
    }
    s
}

pub fn p23(rep: &Rep) {
    // tides and flattening roles
    for n in if rep.thorough { vec![1, 2, 3, 4] } else { vec![1, 2, 3] } {
        let r = 3usize.pow(n as u32);
        let radix = [r, r, 4, n];
        rep.group(&format!("tides and flattening roles of {} bodies", n), product(&radix) as u64);
        par(rep, product(&radix), |c| {
            let d = digits(c, &radix);
            let mut s = placed(n, [d[2] & 1 == 1, d[2] & 2 == 2, false, false, false, false], d[3]);
            for i in 0..n {
                s.bodies[i].tides = ROLE[d[0] / 3usize.pow(i as u32) % 3];
                s.bodies[i].flat = ROLE[d[1] / 3usize.pow(i as u32) % 3];
            }
            judge(rep, &format!("tf/n={}/t={}/f={}/on={}/mm={}", n, d[0], d[1], d[2], d[3]), &s, true);
        });
    }
    // relativity and disk roles
    for n in if rep.thorough { vec![2, 3, 4] } else { vec![2, 3] } {
        let r = 3usize.pow(n as u32);
        let radix = [r, 4, r, 4, 2, n];
        rep.group(&format!("relativity and disk roles of {} bodies", n), product(&radix) as u64);
        par(rep, product(&radix), |c| {
            let d = digits(c, &radix);
            let mut s = placed(n, [false, false, d[3] & 1 == 1, d[3] & 2 == 2, false, false], d[5]);
            for i in 0..n {
                s.bodies[i].gr = ROLE[d[0] / 3usize.pow(i as u32) % 3];
                s.bodies[i].disk = ROLE[d[2] / 3usize.pow(i as u32) % 3];
            }
            s.gr_impl = d[1] as u8;
            if d[4] == 1 {
                s.disk.inner_edge_distance = 0.;
                s.disk.outer_edge_distance = 0.;
            }
            judge(rep, &format!("gd/n={}/g={}/impl={}/d={}/on={}/flat={}/mm={}", n, d[0], d[1], d[2], d[3], d[4], d[5]), &s, d[4] == 0);
        });
    }
    // the hosts of all effects together
    for n in if rep.thorough { vec![2, 3, 4, 5] } else { vec![2, 3] } {
        let h = n + 1;
        let radix = [h, h, h, h, 64, if rep.thorough && n < 5 { 4 } else { 2 }, n];
        rep.group(&format!("hosts of all effects, {} bodies", n), product(&radix) as u64);
        par(rep, product(&radix), |c| {
            let d = digits(c, &radix);
            let mut s = placed(n, eff_mask(d[4]), d[6]);
            for i in 0..n {
                let role = |k: usize| if d[k] == i + 1 { Role::Host } else { Role::Orbit };
                s.bodies[i].tides = role(0);
                s.bodies[i].flat = role(1);
                s.bodies[i].gr = role(2);
                s.bodies[i].disk = role(3);
            }
            let (w, e) = if radix[5] == 4 { (d[5] & 1 == 1, d[5] & 2 == 2) } else { (d[5] == 1, d[5] == 1) };
            if w {
                s.bodies[n - 1].wind = Some((4.0e-12, 1.75));
            }
            if e {
                s.bodies[d[6]].evo = EvolutionType::Baraffe2015(0.08);
            }
            judge(rep, &format!("hosts/n={}/t={}/f={}/g={}/d={}/on={}/we={}/mm={}", n, d[0], d[1], d[2], d[3], eff_name(s.eff), d[5], d[6]), &s, true);
        });
    }
    // number of bodies
    for n in 1..=12usize {
        let key = format!("count/{}", n);
        if !rep.want(&key) {
            continue;
        }
        let mut s = compact(n.min(10), [true; 6]);
        while s.bodies.len() < n {
            let k = s.bodies.len();
            let mut b = s.bodies[k - 1].clone();
            b.pos[0] += 1.0;
            s.bodies.push(b);
        }
        s.bodies[0].evo = EvolutionType::Baraffe2015(0.08);
        let r = guard(|| build(&s));
        rep.states(1);
        rep.transitions(1);
        rep.check(&key, r.is_ok() == (n <= 10), || format!("{} bodies: accepted {}", n, r.is_ok()));
    }
    // creep model combinations within a body
    let t_of = |k: usize| match k {
        1 => Some(TM::Ctl { k2: 0.3, sigma: 1e18, scale: 1. }),
        2 => Some(TM::Creep { eta: 3.0e-3 }),
        3 => Some(TM::Creep { eta: 3.1e-3 }),
        4 => Some(TM::Kaula { kind: 0 }),
        _ => None,
    };
    let f_of = |k: usize| match k {
        1 => Some(RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: 0.9 })),
        2 => Some(RotationalFlatteningModel::CreepCoplanar(CreepCoplanarParameters { uniform_viscosity_coefficient: 3.0e-3 })),
        3 => Some(RotationalFlatteningModel::CreepCoplanar(CreepCoplanarParameters { uniform_viscosity_coefficient: 3.1e-3 })),
        _ => None,
    };
    // operation sequences on one body: each operation sets tides or flattening (0 = disabled)
    let te = |k: usize, host: bool| Tides::new(match (t_of(k), host) {
        (None, _) => TidesEffect::Disabled,
        (Some(m), true) => TidesEffect::CentralBody(tidal_model(m)),
        (Some(m), false) => TidesEffect::OrbitingBody(tidal_model(m)),
    });
    let fe = |k: usize, host: bool| RotationalFlattening::new(match (f_of(k), host) {
        (None, _) => RotationalFlatteningEffect::Disabled,
        (Some(m), true) => RotationalFlatteningEffect::CentralBody(m),
        (Some(m), false) => RotationalFlatteningEffect::OrbitingBody(m),
    });
    let valid = |t: usize, f: usize| t == 0 || f == 0 || ((t == 2 || t == 3) == (f >= 2) && (f < 2 || t == f));
    let nops = 9; // 5 tides settings, 4 flattening settings
    let depth = if rep.thorough { 4 } else { 3 };
    let total = (nops as usize).pow(depth) * 2;
    rep.group("creep settings sequences", total as u64);
    par(rep, total, |c| {
        let host = c % 2 == 1;
        let mut k = c / 2;
        let key = format!("creep/host={}/seq={}", host, k);
        if !rep.want(&key) {
            return;
        }
        let (mut t, mut f) = (0, 0);
        let z = ax([0., 0., 1.]);
        let mut p = Particle::new(1e-6, 1e-5, 0.5, ax([1., 0., 0.]), ax([0., 1e-2, 0.]), z);
        for step in 0..depth {
            let op = k % nops;
            k /= nops;
            if op < 5 { t = op } else { f = op - 5 }
            let r = guard(|| if op < 5 { p.set_tides(te(op, host)) } else { p.set_rotational_flattening(fe(op - 5, host)) });
            rep.transitions(1);
            if r.is_ok() != valid(t, f) {
                rep.violation(&key, &format!("after operation {}: tides model {} with flattening model {} accepted: {}", step, t, f, r.is_ok()));
                break;
            }
            if r.is_err() {
                break;
            }
        }
        rep.states(1);
        rep.traces(1);
    });
    // evolution tables and the simulated interval
    let evs = p18_tables(&rep.scratch);
    let radix = [evs.len(), 6, 5, 2, 2];
    rep.group("evolution tables x intervals", product(&radix) as u64);
    par(rep, product(&radix), |c| {
        let d = digits(c, &radix);
        let e = &evs[d[0]];
        let key = format!("table/{}/start={}/end={}/on={}/body={}", e.name, d[1], d[2], d[3], d[4]);
        if !rep.want(&key) {
            return;
        }
        let (first, last) = (e.c.t[0] * 365.25, e.c.t[e.c.t.len() - 1] * 365.25);
        let tiny = 1e-9; // logarithmic ages round
        let t0 = [first * 0.5, first * (1. - tiny), first * (1. + tiny), 0.5 * (first + last), last * (1. - 1e-4), 0.][d[1]];
        let len = [0.25 * (last - t0), (last - t0) * (1. - tiny), (last - t0) * (1. + tiny), (last - t0) + 10., last + 1.][d[2]];
        let ok = t0 >= first && len <= last - t0;
        let mut s = compact(2, [true, true, false, false, false, d[3] == 1]);
        s.bodies[d[4]].evo = e.ty;
        s.t0 = t0;
        s.tlim = len;
        let r = guard(|| build(&s));
        rep.states(1);
        rep.transitions(1);
        rep.check(&key, r.is_ok() == ok, || format!("start {} length {} table [{}, {}] days: accepted {}", t0, len, first, last, r.is_ok()));
    });
    // masses without a table
    let lists: [(&str, fn(f64) -> EvolutionType, Vec<f64>); 5] = [
        ("gb", EvolutionType::GalletBolmont2017, vec![0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.4]),
        ("b15", EvolutionType::Baraffe2015, vec![0.01, 0.015, 0.02, 0.03, 0.04, 0.05, 0.06, 0.07, 0.072, 0.075, 0.08, 0.09, 0.11, 0.13, 0.15, 0.17, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4]),
        ("l11", EvolutionType::Leconte2011, vec![0.01, 0.012, 0.015, 0.02, 0.03, 0.04, 0.05, 0.06, 0.07, 0.072, 0.075, 0.08]),
        ("b98", EvolutionType::Baraffe1998, vec![0.1, 1.0]),
        ("bm", EvolutionType::BolmontMathis2016, vec![0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5]),
    ];
    for (name, f, list) in &lists {
        let mut grid: Vec<f64> = (0..=2000).map(|i| i as f64 * 0.001).collect();
        grid.push(-1.);
        grid.push(50.);
        par(rep, grid.len(), |k| {
            let m = grid[k];
            let key = format!("mass/{}/{}", name, m);
            // closer than half a grid step to a tabulated mass is within the accepted rounding of some models
            let near = list.iter().map(|x| (x - m).abs()).fold(1e9, f64::min);
            let tab = near < 1e-9;
            if (!tab && near < 1.6e-3) || !rep.want(&key) {
                return;
            }
            let e = evs.iter().find(|e| std::mem::discriminant(&e.ty) == std::mem::discriminant(&f(1.0))).unwrap();
            let mut s = compact(2, [true, false, false, false, false, true]);
            s.bodies[0].evo = f(m);
            s.t0 = e.c.t[20] * 365.25;
            s.tlim = 1.;
            let r = guard(|| build(&s));
            rep.states(1);
            rep.transitions(1);
            rep.check(&key, r.is_ok() == tab, || format!("mass {}: accepted {}", m, r.is_ok()));
        });
    }
    rep.sample(json!({"case": "tf/n=3/t=14/f=5/on=3/mm=2", "expect": "verdict of the configuration rules, then the bodies that feel each effect"}));
    rep.sample(json!({"case": "creep/host=true/seq=152", "expect": "refused as soon as tides and flattening of a body are an inconsistent pair"}));
}
