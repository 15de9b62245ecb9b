mod sys;
mod util;
mod c_state;
mod refm;
mod c_force;
mod c_sym;
mod c_misc;
mod c_conf;
mod c_int;
mod c_tide;
mod c_ana;
mod c_cli;
mod c_py;
mod c_report;
mod c_reson;
mod c_cons;
mod c_sec;
mod c_ship;
use std::sync::Arc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: pcheck ID [quick|thorough] [--only CASE]");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let thorough = args.get(2).map(|s| s == "thorough").unwrap_or(false);
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    util::silence_stdout();
    let rep = Arc::new(util::Rep::new(&id, thorough, only));
    sys::write_tables(&rep.scratch);
    std::env::set_current_dir(&rep.scratch).unwrap();
    let (f, rule, assumptions): (fn(&util::Rep), &str, &[&str]) = match id.as_str() {
        "P01" => (c_state::p01, c_state::P01_RULE, c_state::P01_ASSUME),
        "P02" => (c_cli::p02, c_cli::P02_RULE, c_cli::P02_ASSUME),
        "P04" => (c_cli::p04, c_cli::P04_RULE, c_cli::P04_ASSUME),
        "P05" => (c_cli::p05, c_cli::P05_RULE, c_cli::P05_ASSUME),
        "P03" => (c_state::p03, c_state::P03_RULE, c_state::P03_ASSUME),
        "P06" => (c_state::p06, c_state::P06_RULE, c_state::P06_ASSUME),
        "P07" => (c_force::p07, c_force::P07_RULE, c_force::P07_ASSUME),
        "P14" => (c_force::p14, c_force::P14_RULE, c_force::P14_ASSUME),
        "P16" => (c_force::p16, c_force::P16_RULE, c_force::P16_ASSUME),
        "P08" => (c_force::p08, c_force::P08_RULE, c_force::P08_ASSUME),
        "P09" => (c_force::p09, c_force::P09_RULE, c_force::P09_ASSUME),
        "P10" => (c_force::p10, c_force::P10_RULE, c_force::P10_ASSUME),
        "P15" => (c_force::p15, c_force::P15_RULE, c_force::P15_ASSUME),
        "P11" => (c_sym::p11, c_sym::P11_RULE, c_sym::P11_ASSUME),
        "P12" => (c_sym::p12, c_sym::P12_RULE, c_sym::P12_ASSUME),
        "P13" => (c_sym::p13, c_sym::P13_RULE, c_sym::P13_ASSUME),
        "P17" => (c_sym::p17, c_sym::P17_RULE, c_sym::P17_ASSUME),
        "P18" => (c_misc::p18, c_misc::P18_RULE, c_misc::P18_ASSUME),
        "P22" => (c_misc::p22, c_misc::P22_RULE, c_misc::P22_ASSUME),
        "P23" => (c_conf::p23, c_conf::P23_RULE, c_conf::P23_ASSUME),
        "P20" => (c_int::p20, c_int::P20_RULE, c_int::P20_ASSUME),
        "P21" => (c_int::p21, c_int::P21_RULE, c_int::P21_ASSUME),
        "P26" => (c_ana::p26, c_ana::P26_RULE, c_ana::P26_ASSUME),
        "P27" => (c_report::p27, c_report::P27_RULE, c_report::P27_ASSUME),
        "P28" => (c_reson::p28, c_reson::P28_RULE, c_reson::P28_ASSUME),
        "P29" => (c_ship::p29, c_ship::P29_RULE, c_ship::P29_ASSUME),
        "P30" => (c_sec::p30, c_sec::P30_RULE, c_sec::P30_ASSUME),
        "P31" => (c_cons::p31, c_cons::P31_RULE, c_cons::P31_ASSUME),
        "P24" => (c_py::p24, c_py::P24_RULE, c_py::P24_ASSUME),
        "P25" => (c_tide::p25, c_tide::P25_RULE, c_tide::P25_ASSUME),
        "P19" => (c_sym::p19, c_sym::P19_RULE, c_sym::P19_ASSUME),
        _ => {
            util::out("unknown property");
            std::process::exit(2);
        }
    };
    util::with_watchdog(rep.clone(), move |r| f(r));
    let rc = rep.finish(rule, assumptions);
    std::process::exit(rc);
}
