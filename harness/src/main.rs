mod datagen;
mod fw;
mod mockep;
mod rep;
mod sess;
mod shexgen;
mod shaclgen;
mod shaclm;
mod shexm;
mod term;
mod props;

use fw::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all = props::all();
    let find = |id: &str| -> &'static Prop {
        all.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(
            find(&a[2]),
            tier(&a[3]),
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            a[6].parse().unwrap(),
            a[7].parse().unwrap(),
            &a[8],
        ),
        Some("run") => {
            let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
            let t = tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick"));
            std::process::exit(run(find(&a[2]), t, env_u64("VERIF_SEED", 1), &root))
        },
        Some("case") => std::process::exit(replay_case(find(&a[2]), Tier::Quick, a[3].parse().unwrap(), a[4].parse().unwrap())),
        Some("list") => {
            for p in all {
                println!("{}", p.id)
            }
        },
        _ => {
            eprintln!("usage: vharness run|case|list ...");
            std::process::exit(2)
        },
    }
}
