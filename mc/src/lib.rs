//! Bounded exhaustive model checking of the `object` crate.
pub mod arenc;
pub mod coffenc;
pub mod elfbase;
pub mod elfenc;
pub mod elfmodel;
pub mod elfreloc;
pub mod enc;
pub mod deep;
pub mod engine;
pub mod machoenc;
pub mod machobase;
pub mod machomodel;
pub mod peenc;
pub mod report;
pub mod walk;
pub mod wasmenc;
pub mod wobj;
pub mod xcoffenc;
pub mod zdata;

pub use engine::{Ch, Fail, R, Unit, fail, no_panic, sample, tapped, unit};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn deep(self) -> bool {
        self == Tier::Thorough
    }
}

/// Entry point of every check binary.
pub fn run(prop: &str, units: fn(Tier) -> Vec<Unit>) -> ! {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let tier_name = tier.pick("quick", "thorough");
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let (_, uname, choices) = report::read_replay(&args[2]).expect("bad replay file");
        // The choice meaning can depend on the tier's alphabet: try both.
        for t in [tier, Tier::Quick, Tier::Thorough] {
            for u in units(t).iter().filter(|u| u.name == uname) {
                let (notes, r) = engine::replay(u, &choices);
                if let Err(f) = r {
                    for n in notes {
                        println!("    {n}");
                    }
                    println!("{prop}/{uname}: [{}] {}", f.key, f.msg);
                    println!("VIOLATION property={prop} replay={}", args[2]);
                    std::process::exit(1);
                }
            }
        }
        println!("replay passes");
        std::process::exit(0);
    }
    let t0 = Instant::now();
    let cap: u64 = std::env::var("MC_CAP_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(400, 3 * 3600));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let only = args.get(1).cloned();
    let mut us = units(tier);
    if let Some(o) = &only {
        us.retain(|u| u.name.contains(o.as_str()));
    }
    let mut reports = vec![];
    for u in &us {
        let r = engine::explore(u, threads, t0 + Duration::from_secs(cap), prop);
        if only.is_some() || std::env::var_os("MC_PROGRESS").is_some() {
            eprintln!("  {} {} execs {} inputs {} outcomes {:.1}s viol {}", r.name, r.executions, r.inputs, r.outcomes, r.secs, r.violations.len());
        }
        reports.push(r);
    }
    let o = report::finish(prop, tier_name, &reports, t0.elapsed().as_secs_f64());
    std::process::exit(if o.violations > 0 { 1 } else { 0 });
}
