#![allow(dead_code)]
mod net;
mod params;
mod proto;
mod runner;
mod util;
mod adv;
mod byz;
mod evid;
mod chain;
mod drivers;
mod wide;
mod steps;
mod ext;
mod misuse;
mod trips;
mod ids;
mod honest;
mod wire;
mod zoo;

use runner::*;

fn checks() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(honest::checks());
    v.extend(adv::checks());
    v.extend(byz::checks());
    v.extend(evid::checks());
    v.extend(drivers::checks());
    v.extend(ext::checks());
    v.extend(misuse::checks());
    v.extend(trips::checks());
    v.extend(ids::checks());
    v
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let checks = checks();
    if args.first().map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(&checks, &args[1]));
    }
    let id = args.first().cloned().unwrap_or_default();
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("usage: mcheck <property id> [facet] | mcheck replay <file>");
        std::process::exit(2);
    };
    let opt = Options {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into(),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only: args.get(1).cloned(),
    };
    std::process::exit(run_check(check, &opt));
}
