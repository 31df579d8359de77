//! Bounded model checking of rgb-std: `mc check <ID>` explores the space of one
//! property, `mc replay <file>` re-executes a single recorded case.

#![allow(clippy::result_large_err, clippy::type_complexity, clippy::too_many_arguments)]

#[macro_use]
extern crate amplify;
#[macro_use]
mod core;
mod checks;
mod explore;
mod lab;

use core::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    core::install_panic_hook();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let code = match args.get(1).map(String::as_str) {
        Some("check") => core::shielded(|| checks::dispatch(&Ctx::new(&args[2], thorough, seed, None))),
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            let ctx = Ctx::new(
                v["property"].as_str().expect("property"),
                v["tier"] == "thorough",
                v["seed"].as_u64().unwrap_or(1),
                Some(v["case"].as_str().expect("case").to_string()),
            );
            checks::dispatch(&ctx)
        }
        Some("list") => {
            println!("{}", checks::IDS.join(" "));
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code);
}
