mod core;
mod diff;
mod dynsvc;
mod probe;
mod props;
mod rt;
mod sched;
mod stack;

use crate::core::*;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => replay_file(&props, &PathBuf::from(&args[1]), args.get(2).map_or(false, |a| a == "-v")),
        Some("list") => {
            for p in &props {
                println!("{} {:?}", p.id, p.subs.iter().map(|s| s.name()).collect::<Vec<_>>());
            }
            0
        }
        Some(id) => {
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let tier = match args.get(1).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                Some("quick") => Tier::Quick,
                _ => tier,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            match props.iter().find(|p| p.id == id) {
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
                Some(p) => {
                    // a hang is an error of the check, never a verdict
                    let limit = if tier == Tier::Quick { 600 } else { 6 * 3600 };
                    std::thread::spawn(move || {
                        std::thread::sleep(std::time::Duration::from_secs(limit));
                        eprintln!("ERROR watchdog: no verdict within {limit} s");
                        std::process::exit(2);
                    });
                    run_prop(p, tier, seed)
                }
            }
        }
        None => {
            eprintln!("usage: verif <property> [quick|thorough] | verif replay <file> [-v] | verif list");
            2
        }
    };
    std::process::exit(code);
}
