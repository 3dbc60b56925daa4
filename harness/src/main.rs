use rup_check::driver::{self, Tier};
use rup_check::with_prop;
use std::path::Path;

fn usage() -> ! {
    eprintln!("usage: rup-check run <id> <quick|thorough> <seed> | replay <file> | list");
    std::process::exit(2)
}

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn main() {
    driver::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a[..] {
        ["list"] => {
            for i in rup_check::props::IDS {
                println!("{}", i);
            }
            0
        }
        ["run", id, t, seed] => {
            let seed = seed.parse().unwrap_or_else(|_| usage());
            with_prop!(id, p, driver::run(&p, tier(t), seed), usage())
        }
        ["worker", id, t, seed, dir] => {
            let seed = seed.parse().unwrap_or_else(|_| usage());
            with_prop!(id, p, driver::worker(&p, tier(t), seed, Path::new(dir)), usage());
            0
        }
        ["replay", file] => {
            if std::env::var("TZ").as_deref() != Ok(rup_check::util::ZONE) {
                std::env::set_var("TZ", rup_check::util::ZONE);
            }
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(file).expect("file")).expect("json");
            let id = v["property"].as_str().unwrap_or("").to_owned();
            let case = v["case"].clone();
            let id = id.as_str();
            with_prop!(id, p, driver::replay(&p, case), usage())
        }
        _ => usage(),
    };
    std::process::exit(code);
}
