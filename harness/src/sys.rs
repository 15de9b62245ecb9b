//! System descriptions and builders: the finite alphabet of systems every check enumerates.
use posidonius::constants::*;
use posidonius::*;
use std::path::Path;

pub type V3 = [f64; 3];
pub fn ax(v: V3) -> Axes {
    Axes { x: v[0], y: v[1], z: v[2] }
}
pub fn v3(a: Axes) -> V3 {
    [a.x, a.y, a.z]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    None,
    Host,
    Orbit,
}

/// Tidal model of a body.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TM {
    Ctl { k2: f64, sigma: f64, scale: f64 },
    Creep { eta: f64 },
    Kaula { kind: u8 },
}

#[derive(Clone, Debug)]
pub struct Body {
    pub mass: f64,
    pub radius: f64,
    pub rg: f64,
    pub pos: V3,
    pub vel: V3,
    pub spin: V3,
    pub tides: Role,
    pub tm: TM,
    pub flat: Role,
    pub flat_k2: f64,
    pub flat_creep: Option<f64>,
    pub gr: Role,
    pub wind: Option<(f64, f64)>,
    pub disk: Role,
    pub evo: EvolutionType,
    pub reference: Option<usize>,
}

pub const GR_KIDDER: u8 = 1;
pub const GR_ANDERSON: u8 = 2;
pub const GR_NEWHALL: u8 = 3;

#[derive(Clone, Debug)]
pub struct Sys {
    pub bodies: Vec<Body>,
    pub eff: [bool; 6], // tides, flattening, gr, disk, wind, evolution
    pub gr_impl: u8,
    pub disk: DiskProperties,
    pub t0: f64,
    pub tlim: f64,
}
pub const TIDES: usize = 0;
pub const FLAT: usize = 1;
pub const GR: usize = 2;
pub const DISK: usize = 3;
pub const WIND: usize = 4;
pub const EVO: usize = 5;

pub fn disk_props() -> DiskProperties {
    DiskProperties {
        inner_edge_distance: 0.01,
        outer_edge_distance: 100.0,
        lifetime: 1.0e4 * 365.25,
        alpha: 0.01,
        surface_density_normalization: 1000.0 / M_SUN * AU * AU * 10.0,
        mean_molecular_weight: 2.4,
    }
}

pub fn gm(m: f64) -> f64 {
    K2 * m
}

/// State from orbital elements (independent implementation): a, e, i, argument of perihelion, node, true anomaly.
pub fn kepler_state(mu: f64, a: f64, e: f64, inc: f64, w: f64, om: f64, f: f64) -> (V3, V3) {
    let p = a * (1. - e * e);
    let r = p / (1. + e * f.cos());
    let h = (mu / p).sqrt();
    let (x, y) = (r * f.cos(), r * f.sin());
    let (vx, vy) = (-h * f.sin(), h * (e + f.cos()));
    let (cw, sw, co, so, ci, si) = (w.cos(), w.sin(), om.cos(), om.sin(), inc.cos(), inc.sin());
    let px = [co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si];
    let qx = [-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si];
    (add(mul(px, x), mul(qx, y)), add(mul(px, vx), mul(qx, vy)))
}

pub fn body(mass: f64, radius: f64, rg: f64, pos: V3, vel: V3, spin: V3) -> Body {
    Body {
        mass,
        radius,
        rg,
        pos,
        vel,
        spin,
        tides: Role::None,
        tm: TM::Ctl { k2: 0., sigma: 0., scale: 1. },
        flat: Role::None,
        flat_k2: 0.,
        flat_creep: None,
        gr: Role::None,
        wind: None,
        disk: Role::None,
        evo: EvolutionType::NonEvolving,
        reference: None,
    }
}

/// Star + n-1 planets, compact system (periods of days), generic (not degenerate) orientations.
/// Everything participates in every effect; which effects act is decided by `eff`.
pub fn compact(n: usize, eff: [bool; 6]) -> Sys {
    let m0 = 0.08;
    let mut b = vec![];
    let mut star = body(m0, 0.8 * R_SUN * 0.1, 0.45, [0.; 3], [0.; 3], [0.31, -0.22, 1.9]);
    star.tides = Role::Host;
    star.tm = TM::Ctl { k2: 0.307, sigma: 4.0e20, scale: 1.3 };
    star.flat = Role::Host;
    star.flat_k2 = 0.307;
    star.gr = Role::Host;
    star.wind = Some((4.0e-18 * 1.0e6, 1.75));
    star.disk = Role::Host;
    b.push(star);
    let a = [0.018, 0.027, 0.041, 0.058, 0.082, 0.11, 0.15, 0.2, 0.27];
    let e = [0.10, 0.05, 0.17, 0.02, 0.08, 0.03, 0.06, 0.01, 0.04];
    let inc = [0.05, 0.02, 0.11, 0.30, 0.04, 0.07, 0.015, 0.22, 0.09];
    let w = [0.4, 2.1, 4.0, 5.5, 1.2, 3.3, 0.9, 2.7, 6.0];
    let om = [1.0, 0.3, 2.2, 5.1, 3.9, 4.4, 0.1, 1.8, 2.9];
    let f = [0.7, 2.9, 4.8, 1.5, 5.9, 0.2, 3.6, 2.4, 4.1];
    let ms = [1.0, 0.5, 1.7, 0.3, 12.0, 2.2, 0.8, 5.0, 1.1];
    let rs = [1.0, 0.8, 1.2, 0.7, 2.9, 1.3, 0.95, 1.9, 1.05];
    for k in 0..n.saturating_sub(1) {
        let m = ms[k] * M_EARTH;
        let (p, v) = kepler_state(gm(m0 + m), a[k], e[k], inc[k], w[k], om[k], f[k]);
        let mut pl = body(m, rs[k] * R_EARTH, 0.5757 - 0.01 * k as f64, p, v, [0.2 - 0.07 * k as f64, 0.1 + 0.05 * k as f64, 3.1 + 0.9 * k as f64]);
        pl.tides = Role::Orbit;
        pl.tm = TM::Ctl { k2: 0.305 + 0.02 * k as f64, sigma: 1.0e17 * (1.0 + 0.3 * k as f64), scale: 0.9 + 0.1 * k as f64 };
        pl.flat = Role::Orbit;
        pl.flat_k2 = 0.9532 - 0.03 * k as f64;
        pl.gr = Role::Orbit;
        pl.disk = Role::Orbit;
        b.push(pl);
    }
    // One planet also has a wind (several winds are legal)
    if n > 2 {
        b[2].wind = Some((1.0e-22, 2.0));
    }
    Sys { bodies: b, eff, gr_impl: GR_KIDDER, disk: disk_props(), t0: 0., tlim: 1.0e5 }
}

/// Coplanar variant for the models restricted to the reference plane.
pub fn coplanar(n: usize, eff: [bool; 6]) -> Sys {
    let mut s = compact(n, eff);
    let m0 = s.bodies[0].mass;
    s.bodies[0].spin = [0., 0., 1.9];
    let a = [0.018, 0.027, 0.041, 0.058, 0.082, 0.11, 0.15, 0.2, 0.27];
    // away from the eccentricities where the Kaula model changes its truncation
    let e = [0.09, 0.05, 0.17, 0.02, 0.08, 0.03, 0.06, 0.012, 0.04];
    let w = [0.4, 2.1, 4.0, 5.5, 1.2, 3.3, 0.9, 2.7, 6.0];
    let f = [0.7, 2.9, 4.8, 1.5, 5.9, 0.2, 3.6, 2.4, 4.1];
    for k in 1..n {
        let m = s.bodies[k].mass;
        let (p, v) = kepler_state(gm(m0 + m), a[k - 1], e[k - 1], 0., w[k - 1], 0., f[k - 1]);
        s.bodies[k].pos = p;
        s.bodies[k].vel = v;
        s.bodies[k].spin = [0., 0., 3.1 + 0.9 * k as f64];
    }
    s
}

/// Frequency-dependent Love number tables for the Kaula model (kind 0: short table; 1: long table; 2: near-rigid).
pub fn kaula_table(kind: u8) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    // limits of the tables: one point, two points, full, negative to positive, below and above every tidal frequency, linear
    let fixed = |w: Vec<f64>, re: Vec<f64>, im: Vec<f64>| (w, re, im);
    match kind {
        4 => return fixed(vec![3.1e-5], vec![-0.21], vec![0.013]),
        5 => return fixed(vec![1.1e-5, 9.3e-5], vec![-0.31, -0.12], vec![0.004, 0.027]),
        6 => {
            let w: Vec<f64> = (0..1024).map(|i| 1e-7 * 1.0125f64.powi(i)).collect();
            let re = (0..1024).map(|i| -0.2 - 0.1 * (i as f64 * 0.37).sin()).collect();
            let im = (0..1024).map(|i| 0.02 + 0.015 * (i as f64 * 0.71).cos()).collect();
            return fixed(w, re, im);
        }
        7 => {
            let w: Vec<f64> = (-60..=60).map(|i| i as f64 * 7e-6).collect();
            let re = (-60..=60).map(|i| -0.2 - 0.002 * i as f64).collect();
            let im = (-60..=60).map(|i: i32| 0.003 * i as f64 - 1e-5 * (i * i) as f64).collect();
            return fixed(w, re, im);
        }
        8 => return fixed(vec![1e-12, 3e-12, 1e-11], vec![-0.1, -0.2, -0.26], vec![0.001, 0.002, 0.0055]),
        9 => return fixed(vec![1., 2., 7.], vec![-0.17, -0.2, -0.25], vec![0.0091, 0.002, 0.005]),
        11 => return fixed(vec![-0.1, 0.1], vec![0., 0.], vec![0., 0.]),
        10 => return fixed(vec![-0.1, 0.1], vec![-0.3, -0.3], vec![-0.3 * 600. * 0.1, 0.3 * 600. * 0.1]),
        _ => {}
    }
    let n = match kind {
        0 => 40,
        1 => 900,
        _ => 33,
    };
    let (lo, hi) = (-9.0f64, -2.0f64);
    let tau = match kind {
        0 => 2.0e3,
        1 => 3.0e4,
        _ => 1.0e6,
    };
    let k0 = if kind == 3 { 0. } else { 0.3 };
    let mut w = vec![];
    let mut re = vec![];
    let mut im = vec![];
    for i in 0..n {
        let x = 10f64.powf(lo + (hi - lo) * i as f64 / (n - 1) as f64);
        let d = 1. + (x * tau) * (x * tau);
        w.push(x);
        re.push(-k0 * (0.4 + 0.6 / d));
        im.push(k0 * 0.6 * x * tau / d);
    }
    (w, re, im)
}

pub fn kaula_params(kind: u8) -> KaulaParameters {
    let (w, re, im) = kaula_table(kind);
    let mut p = KaulaParameters {
        love_number_excitation_frequency: [0.; 1024],
        real_part_love_number: [0.; 1024],
        imaginary_part_love_number: [0.; 1024],
        num_datapoints: w.len() as f64,
        polynomials: Polynomials::default(),
        kaula_tidal_force: Axes { x: 0., y: 0., z: 0. },
    };
    for i in 0..w.len() {
        p.love_number_excitation_frequency[i] = w[i];
        p.real_part_love_number[i] = re[i];
        p.imaginary_part_love_number[i] = im[i];
    }
    p
}

pub fn tidal_model(tm: TM) -> TidalModel {
    match tm {
        TM::Ctl { k2, sigma, scale } => TidalModel::ConstantTimeLag(ConstantTimeLagParameters { dissipation_factor: sigma, dissipation_factor_scale: scale, love_number: k2 }),
        TM::Creep { eta } => TidalModel::CreepCoplanar(CreepCoplanarParameters { uniform_viscosity_coefficient: eta }),
        TM::Kaula { kind } => TidalModel::Kaula(kaula_params(kind)),
    }
}

pub fn particle(s: &Sys, b: &Body) -> Particle {
    let mut p = Particle::new(b.mass, b.radius, b.rg, ax(b.pos), ax(b.vel), ax(b.spin));
    if let Some(r) = b.reference {
        p.reference = posidonius::Reference::Particle(r);
    }
    match b.tides {
        Role::None => {}
        Role::Host => p.set_tides(Tides::new(TidesEffect::CentralBody(tidal_model(b.tm)))),
        Role::Orbit => p.set_tides(Tides::new(TidesEffect::OrbitingBody(tidal_model(b.tm)))),
    }
    let fm = match b.flat_creep {
        Some(eta) => RotationalFlatteningModel::CreepCoplanar(CreepCoplanarParameters { uniform_viscosity_coefficient: eta }),
        None => RotationalFlatteningModel::OblateSpheroid(OblateSpheroidParameters { love_number: b.flat_k2 }),
    };
    match b.flat {
        Role::None => {}
        Role::Host => p.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::CentralBody(fm))),
        Role::Orbit => p.set_rotational_flattening(RotationalFlattening::new(RotationalFlatteningEffect::OrbitingBody(fm))),
    }
    let gi = match s.gr_impl {
        GR_KIDDER => GeneralRelativityImplementation::Kidder1995,
        GR_ANDERSON => GeneralRelativityImplementation::Anderson1975,
        GR_NEWHALL => GeneralRelativityImplementation::Newhall1983,
        _ => GeneralRelativityImplementation::Disabled,
    };
    match b.gr {
        Role::None => {}
        Role::Host => p.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::CentralBody(gi))),
        Role::Orbit => p.set_general_relativity(GeneralRelativity::new(GeneralRelativityEffect::OrbitingBody)),
    }
    if let Some((k, sat)) = b.wind {
        p.set_wind(Wind::new(WindEffect::Interaction, k, sat));
    }
    match b.disk {
        Role::None => {}
        Role::Host => p.set_disk(Disk::new(DiskEffect::CentralBody(s.disk))),
        Role::Orbit => p.set_disk(Disk::new(DiskEffect::OrbitingBody)),
    }
    p.set_evolution(b.evo);
    p
}

pub fn consider(eff: [bool; 6]) -> ConsiderEffects {
    ConsiderEffects { tides: eff[0], rotational_flattening: eff[1], general_relativity: eff[2], disk: eff[3], wind: eff[4], evolution: eff[5] }
}

pub fn build(s: &Sys) -> Universe {
    let ps = s.bodies.iter().map(|b| particle(s, b)).collect();
    Universe::new(s.t0, s.tlim, ps, consider(s.eff))
}

/// Ready for force evaluation, as after restoring a case at time zero.
pub fn ready(s: &Sys) -> Universe {
    let mut u = build(s);
    u.calculate_spin_and_evolving_quantities(0., true);
    u.calculate_roche_radiuses();
    u
}

/// One full evaluation of the additional effects at time t.
pub fn eval(u: &mut Universe, t: f64, mode: IgnoreGravityTerms) {
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(t, true, true, true, mode);
}

pub fn copy_universe(u: &Universe) -> Universe {
    bincode::deserialize(&bincode::serialize(u).unwrap()).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Int {
    Jacobi,
    Demo,
    Whds,
    Ias15,
    Leap,
}
pub const INTS: [Int; 5] = [Int::Jacobi, Int::Demo, Int::Whds, Int::Ias15, Int::Leap];

pub enum Sim {
    W(Box<WHFast>),
    I(Box<Ias15>),
    L(Box<LeapFrog>),
}

pub fn sim(int: Int, dt: f64, rec: f64, hist: f64, u: Universe) -> Sim {
    match int {
        Int::Jacobi => Sim::W(Box::new(WHFast::new(dt, rec, hist, u, whfast::CoordinatesType::Jacobi))),
        Int::Demo => Sim::W(Box::new(WHFast::new(dt, rec, hist, u, whfast::CoordinatesType::DemocraticHeliocentric))),
        Int::Whds => Sim::W(Box::new(WHFast::new(dt, rec, hist, u, whfast::CoordinatesType::WHDS))),
        Int::Ias15 => Sim::I(Box::new(Ias15::new(dt, rec, hist, u))),
        Int::Leap => Sim::L(Box::new(LeapFrog::new(dt, rec, hist, u))),
    }
}

impl Sim {
    pub fn as_dyn(&mut self) -> &mut dyn Integrator {
        match self {
            Sim::W(x) => &mut **x,
            Sim::I(x) => &mut **x,
            Sim::L(x) => &mut **x,
        }
    }
    pub fn uni(&self) -> &Universe {
        match self {
            Sim::W(x) => &x.universe,
            Sim::I(x) => &x.universe,
            Sim::L(x) => &x.universe,
        }
    }
    pub fn uni_mut(&mut self) -> &mut Universe {
        match self {
            Sim::W(x) => &mut x.universe,
            Sim::I(x) => &mut x.universe,
            Sim::L(x) => &mut x.universe,
        }
    }
    pub fn time(&self) -> f64 {
        match self {
            Sim::W(x) => x.current_time,
            Sim::I(x) => x.current_time,
            Sim::L(x) => x.current_time,
        }
    }
    /// Everything that defines the simulation, with the volatile diagnostics hash removed.
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Sim::W(x) => { let mut v = bincode::serialize(&**x).unwrap(); strip_hash(&mut v, x.hash); v }
            Sim::I(x) => { let mut v = bincode::serialize(&**x).unwrap(); strip_hash(&mut v, x.hash); v }
            Sim::L(x) => { let mut v = bincode::serialize(&**x).unwrap(); strip_hash(&mut v, x.hash); v }
        }
    }
    pub fn from_box(b: Box<dyn Integrator>) -> Option<Sim> {
        // Deep copy through the serialised form keeps evolution tables (Clone drops them on purpose)
        if let Some(x) = b.as_any().downcast_ref::<WHFast>() {
            return Some(Sim::W(Box::new(bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap())));
        }
        if let Some(x) = b.as_any().downcast_ref::<Ias15>() {
            return Some(Sim::I(Box::new(bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap())));
        }
        if let Some(x) = b.as_any().downcast_ref::<LeapFrog>() {
            return Some(Sim::L(Box::new(bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap())));
        }
        None
    }
}

fn strip_hash(v: &mut Vec<u8>, h: u64) {
    if h == 0 {
        return;
    }
    let pat = h.to_le_bytes();
    let mut i = 0;
    while i + 8 <= v.len() {
        if v[i..i + 8] == pat {
            v[i..i + 8].copy_from_slice(&[0; 8]);
        }
        i += 1;
    }
}

/// Synthetic evolution tables with the layouts the simulator expects, in the current directory.
pub fn write_tables(dir: &Path) {
    let inp = dir.join("input");
    for d in ["Baraffe_2015", "Gallet_Bolmont_2017", "Bolmont_Mathis_2016", "Leconte_2011", "Baraffe_1998", "Leconte_Chabrier_2013"] {
        std::fs::create_dir_all(inp.join(d)).unwrap();
    }
    std::fs::write(inp.join("empty.dat"), "").unwrap();
    for (file, txt) in table_files() {
        std::fs::write(inp.join(file), txt).unwrap();
    }
}

/// Node times in years: dense (fractions of days) so that short runs cross many nodes, and wide enough.
pub fn node_years() -> Vec<f64> {
    let mut v = vec![];
    let mut t = -2.0e-3;
    // irregular spacing between 0.1 and 0.5 days (0.0003..0.0014 yr)
    for i in 0..60 {
        v.push(t);
        t += 3.0e-4 + 2.0e-4 * ((i * 7) % 5) as f64;
    }
    for i in 0..20 {
        v.push(t + 10f64.powf(-1.0 + 0.4 * i as f64));
    }
    v
}
pub struct TableRow {
    pub t_yr: f64,
    pub radius: f64, // solar radii or metres, as the file has it
    pub rg2: f64,
    pub k2: f64,
    pub invq: f64,
}
pub fn table_rows(kind: &str) -> Vec<TableRow> {
    let mut rows = vec![];
    for (i, t) in node_years().iter().enumerate() {
        let wob = ((i * 13) % 7) as f64 / 7.0;
        let r = match kind {
            "Baraffe1998Sun" => (0.9 + 0.05 * wob) * 6.957e8 * 0.1,
            "Jupiter" => (1.0 + 0.04 * wob) * 7.1e7,
            _ => 0.10 + 0.01 * wob + 0.0003 * i as f64,
        };
        rows.push(TableRow {
            t_yr: match kind {
                "Gallet" => 10.0 + *t, // this table stores log10 of a positive time
                _ => *t,
            },
            radius: r,
            rg2: 0.20 + 0.02 * ((i * 5) % 9) as f64 / 9.0,
            k2: 0.30 + 0.05 * ((i * 3) % 8) as f64 / 8.0,
            invq: 1.0e-6 * (1.0 + ((i * 11) % 6) as f64),
        });
    }
    rows
}
fn table_files() -> Vec<(String, String)> {
    let mut v = vec![];
    let f = |x: f64| format!("{:e}", x);
    let mut s = String::new();
    s.push_str("# header\n");
    for r in table_rows("Baraffe2015") {
        s.push_str(&format!("{} 0 {} {}\n", f(r.t_yr), f(r.radius), f(r.rg2)));
    }
    // "header" rows start with a non-number; negative first times would be taken for a header, so it is needed
    for n in ["1000", "0080", "0010", "0110"] {
        v.push((format!("Baraffe_2015/{}_Msun.dat", n), s.clone()));
    }
    let mut s = String::from("# header\n");
    for r in table_rows("Gallet") {
        s.push_str(&format!("{} 0 0 {} 0 0 0 0 0 0 {}\n", f(r.t_yr.log10()), f(r.radius), f(-(r.invq.log10()))));
    }
    for n in ["10", "03"] {
        v.push((format!("Gallet_Bolmont_2017/M_{}_Z_0134.dat", n), s.clone()));
    }
    let mut s = String::from("# header\n");
    for r in table_rows("Bolmont") {
        s.push_str(&format!("{} {} {}\n", f(r.t_yr), f(r.radius), f(r.invq)));
    }
    for n in ["10", "04"] {
        v.push((format!("Bolmont_Mathis_2016/L{}Z02r.dat", n), s.clone()));
    }
    let mut s = String::from("# header\n");
    for r in table_rows("Baraffe1998M") {
        s.push_str(&format!("{} {}\n", f(r.t_yr), f(r.radius)));
    }
    v.push(("Baraffe_1998/01Msun.dat".into(), s));
    let mut s = String::from("# header\n");
    for r in table_rows("Baraffe1998Sun") {
        s.push_str(&format!("{} {}\n", f(r.t_yr), f(r.radius)));
    }
    v.push(("Baraffe_1998/SRad_Spli_M-1_0000.dat".into(), s));
    let mut s = String::from("# header\n");
    for r in table_rows("Jupiter") {
        s.push_str(&format!("{} {} {} {} 0 {}\n", f(r.t_yr), f(r.radius), f(r.k2), f(r.rg2), f(r.invq)));
    }
    v.push(("Leconte_Chabrier_2013/Jupiter.dat".into(), s));
    // Leconte 2011: radius table and a separate gyration table with its own sampling
    let mut s = String::from("# header\n");
    for r in table_rows("Leconte2011") {
        s.push_str(&format!("{} {}\n", f(r.t_yr), f(r.radius)));
    }
    for n in ["80.0000", "10.0000"] {
        v.push((format!("Leconte_2011/mass_{}.dat", n), s.clone()));
    }
    let mut s = String::new();
    for (t, cols) in leconte_aux() {
        s.push_str(&f(t));
        for c in cols {
            s.push_str(&format!(" {}", f(c)));
        }
        s.push('\n');
    }
    v.push(("Leconte_2011/rg2BD.dat".into(), s));
    v
}
pub fn leconte_aux() -> Vec<(f64, Vec<f64>)> {
    let mut out = vec![];
    let ny = node_years();
    let (lo, hi) = (ny[1], ny[70]);
    let mut t = lo;
    let mut i = 0;
    while t < hi {
        out.push((t, (0..12).map(|c| 0.2 + 0.01 * c as f64 + 0.013 * ((i * 5 + c) % 7) as f64 / 7.0).collect()));
        t = if i < 60 { t + 7.1e-4 } else { t * 1.7 + 0.01 };
        i += 1;
    }
    out.push((hi + 1.0, vec![0.25; 12]));
    out
}

/// Extra-body orbit state helper: planets on circular orbits.
pub fn mode_name(m: IgnoreGravityTerms) -> &'static str {
    match m {
        IgnoreGravityTerms::None => "all",
        IgnoreGravityTerms::WHFastOne => "skip-first-pair",
        IgnoreGravityTerms::WHFastTwo => "skip-host",
    }
}

/// Names of an effect subset.
pub fn eff_name(eff: [bool; 6]) -> String {
    let n = ["T", "F", "G", "D", "W", "E"];
    let s: String = (0..6).filter(|&i| eff[i]).map(|i| n[i]).collect();
    if s.is_empty() { "-".into() } else { s }
}
pub fn eff_mask(m: usize) -> [bool; 6] {
    let mut e = [false; 6];
    for i in 0..6 {
        e[i] = m >> i & 1 == 1;
    }
    e
}

/// Evolution models for the host, with the initial time each needs.
pub const EVOS: [(&str, EvolutionType, f64); 8] = [
    ("none", EvolutionType::NonEvolving, 0.),
    ("Baraffe2015", EvolutionType::Baraffe2015(0.08), 0.),
    ("Leconte2011", EvolutionType::Leconte2011(0.08), 0.),
    ("Baraffe1998", EvolutionType::Baraffe1998(0.10), 0.),
    ("BolmontMathis2016", EvolutionType::BolmontMathis2016(0.4), 0.),
    ("GalletBolmont2017", EvolutionType::GalletBolmont2017(0.3), 3652.5),
    ("Jupiter", EvolutionType::LeconteChabrier2013(false), 0.),
    ("JupiterDyn", EvolutionType::LeconteChabrier2013(true), 0.),
];

pub fn evolve_host(mut s: Sys, k: usize) -> Sys {
    s.bodies[0].evo = EVOS[k].1;
    s.t0 = EVOS[k].2;
    s
}

/// The simulation state without anything that only concerns output scheduling.
#[derive(Clone)]
pub struct Phys {
    pub uni: Vec<u8>,
    pub time: f64,
    pub nh: usize,
}
pub fn phys(s: &Sim) -> Phys {
    Phys { uni: bincode::serialize(s.uni()).unwrap(), time: s.time(), nh: s.nh() }
}
impl Phys {
    /// Bit-identical, except that the order of a hash map in the serialised form carries no meaning.
    pub fn same(&self, o: &Phys) -> bool {
        if self.time.to_bits() != o.time.to_bits() || self.nh != o.nh {
            return false;
        }
        same_universe(&self.uni, &o.uni)
    }
    pub fn universe(&self) -> Universe {
        bincode::deserialize(&self.uni).unwrap()
    }
}
pub fn same_universe(a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    if a.len() != b.len() {
        return false;
    }
    let (x, y): (Universe, Universe) = match (bincode::deserialize(a), bincode::deserialize(b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return false,
    };
    serde_json::to_value(&x).unwrap() == serde_json::to_value(&y).unwrap()
}
impl Sim {
    pub fn nh(&self) -> usize {
        match self {
            Sim::W(x) => x.n_historic_snapshots,
            Sim::I(x) => x.n_historic_snapshots,
            Sim::L(x) => x.n_historic_snapshots,
        }
    }
    /// Whole integrators equal, as after a restore.
    pub fn same(&self, o: &Sim) -> bool {
        let (a, b) = (self.bytes(), o.bytes());
        if a == b {
            return true;
        }
        a.len() == b.len() && self.value() == o.value()
    }
    pub fn value(&self) -> serde_json::Value {
        let mut v = match self {
            Sim::W(x) => serde_json::to_value(&**x).unwrap(),
            Sim::I(x) => serde_json::to_value(&**x).unwrap(),
            Sim::L(x) => serde_json::to_value(&**x).unwrap(),
        };
        v["hash"] = serde_json::Value::Null;
        v
    }
    pub fn copy(&self) -> Sim {
        match self {
            Sim::W(x) => Sim::W(Box::new(bincode::deserialize(&bincode::serialize(&**x).unwrap()).unwrap())),
            Sim::I(x) => Sim::I(Box::new(bincode::deserialize(&bincode::serialize(&**x).unwrap()).unwrap())),
            Sim::L(x) => Sim::L(Box::new(bincode::deserialize(&bincode::serialize(&**x).unwrap()).unwrap())),
        }
    }
}

pub fn int_name(i: Int) -> &'static str {
    match i {
        Int::Jacobi => "jacobi",
        Int::Demo => "democratic",
        Int::Whds => "whds",
        Int::Ias15 => "ias15",
        Int::Leap => "leapfrog",
    }
}

/// Tides (and, in the coplanar cases, flattening) model variants: 0 CTL generic; 1 creep (coplanar); 2 Kaula (coplanar); 3 mixed CTL host & Kaula planet
pub fn with_model(n: usize, eff: [bool; 6], model: usize) -> Sys {
    match model {
        0 => compact(n, eff),
        1 => {
            let mut s = coplanar(n, eff);
            for b in s.bodies.iter_mut() {
                let eta = if b.tides == Role::Host { 5.0e-2 } else { 3.0e-3 };
                b.tm = TM::Creep { eta };
                b.flat_creep = Some(eta);
            }
            s
        }
        2 => {
            let mut s = coplanar(n, eff);
            for (i, b) in s.bodies.iter_mut().enumerate() {
                if b.tides == Role::Orbit {
                    b.tm = TM::Kaula { kind: (i % 2) as u8 };
                }
            }
            s
        }
        _ => unreachable!(),
    }
}
pub const MODELS: [&str; 3] = ["ctl", "creep", "kaula"];
