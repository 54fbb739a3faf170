//! Deterministic simulation of teleparse.
mod case;
mod driver;
mod judge;
mod plan;
mod proc;
#[cfg_attr(not(feature = "internals"), path = "raw_off.rs")]
mod raw;
mod real;
mod refm;
mod script;
#[cfg_attr(not(feature = "internals"), path = "sets_off.rs")]
mod sets;
mod tab;
mod work;
use std::time::Duration;

fn num(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(d)
}
/// batches: quick, thorough
fn size(id: &str) -> (u64, u64) {
    match id {
        "S01" => (30_000, 1_000_000),
        "S02" => (50_000, 1_500_000),
        "S13" => (10_000, 500_000),
        _ => (40_000, 2_000_000),
    }
}
fn main() {
    proc::fixed_addresses();
    real::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>()[..] {
        ["check", id, tier] => {
            if !(1..=13).any(|i| format!("S{i:02}") == id) || !matches!(tier, "quick" | "thorough") {
                eprintln!("unknown property {id} or tier {tier}");
                std::process::exit(2);
            }
            let (q, t) = size(id);
            let quick = tier == "quick";
            driver::check(&driver::Cfg {
                id: id.into(),
                tier: tier.into(),
                seed: num("VERIF_SEED", 1),
                batches: num("SIM_BATCHES", if quick { q } else { t }),
                workers: num("SIM_WORKERS", 8),
                cap: Duration::from_secs(num("SIM_CAP", if quick { 240 } else { 3600 })),
                first: num("SIM_FIRST", 0),
            })
        }
        ["replay", f] => driver::replay(f),
        _ => {
            eprintln!("usage: sim check <property> quick|thorough | sim replay FILE");
            2
        }
    };
    std::process::exit(code);
}
