#![cfg_attr(not(feature = "std"), allow(dead_code))]
mod abort;
mod alloc;
mod clock;
mod model;
mod runner;
mod util;
mod session;
mod props;
mod wire;

use runner::{Exec, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    runner::install_hook();
    if let Err(e) = model::self_test() {
        eprintln!("HARNESS ERROR {e}");
        std::process::exit(2);
    }
    // Creating the curve context takes entropy: not from a case.
    session::curve();
    let all = props::all();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).expect("property id");
            let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            match all.iter().find(|p| p.id == id) {
                Some(p) => runner::check(p, tier, seed),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(args.get(2).expect("replay file")).expect("readable replay");
            let v: serde_json::Value = serde_json::from_str(&text).expect("json");
            let id = v["property"].as_str().unwrap_or("");
            match all.iter().find(|p| p.id == id) {
                Some(p) => match runner::replay_value(p, &v) {
                    Exec::Pass(_) => {
                        println!("{id} holds on this case");
                        0
                    }
                    Exec::Fail(m) => {
                        println!("{id}: {m}");
                        println!("VIOLATION property={id} replay={}", args[2]);
                        1
                    }
                    Exec::Harness(m) => {
                        eprintln!("HARNESS ERROR {m}");
                        2
                    }
                },
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("literals") => {
            print!("{}", util::literals());
            0
        }
        Some("list") => {
            for p in &all {
                println!("{} {:?}", p.id, p.families.iter().map(|f| f.name).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: vp check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
