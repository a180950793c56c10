//! Monitors of the properties in /verif/properties.jsonl.
pub mod descsnap;
pub mod dynconv;
pub mod faults;
pub mod gen;
pub mod json;
pub mod props;
pub mod rmsg;
pub mod rng;
pub mod run;
pub mod schema;
pub mod scope;
pub mod text;
pub mod wire;


use run::Prop;

pub fn cli(all: Vec<&'static Prop>) {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| all.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(run::run(find(&a[2]))),
        Some("worker") => {
            run::set_worker_limits();
            let p = find(&a[2]);
            run::worker(
                p,
                a[3].parse().unwrap(),
                a[4] == "thorough",
                a[5].parse().unwrap(),
                a[6].parse().unwrap(),
                std::path::Path::new(&a[7]),
            )
        }
        Some("replay") => std::process::exit(run::replay(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap())),
        Some("threads") => std::process::exit(props::threads::mini(
            a[2].parse().unwrap(),
            a[3].parse().unwrap(),
            a[4].parse().unwrap(),
            a[5] == "small",
        )),
        Some("deep") => std::process::exit(props::deep::child(&a[2..])),
        Some("list") => {
            for p in all {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: prmon run|replay|list ...");
            std::process::exit(2);
        }
    }
}
