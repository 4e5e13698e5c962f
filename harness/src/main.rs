extern crate nalgebra as na;
extern crate ndarray as nd;
mod adapt;
mod engine;
mod fast;
mod gen;
mod geo;
mod props;
mod scan;
use engine::*;

#[global_allocator]
static ALLOC: BudgetAlloc = BudgetAlloc;

fn usage() -> ! {
    eprintln!("usage: kcheck list | run <ID> [--scale X] [--sub NAME] | replay <file> | show <ID> <sub> [n] | dict");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage();
    }
    install_panic_hook();
    split_stdout();
    let props = props::all();
    match args[1].as_str() {
        "list" => {
            for p in &props {
                out!("{} {:?}", p.id, p.subs.iter().map(|s| s.name()).collect::<Vec<_>>());
            }
        }
        "dict" => {
            out!("{:?}\n{:?}", gen::dict().ints, gen::dict().floats);
        }
        "run" => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let mut scale = 1.0;
            let mut only = None;
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--scale" => {
                        scale = args[i + 1].parse().unwrap();
                        i += 1;
                    }
                    "--sub" => {
                        only = Some(args[i + 1].clone());
                        i += 1;
                    }
                    _ => usage(),
                }
                i += 1;
            }
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("no property {id}");
                std::process::exit(2)
            };
            start_watchdog();
            let tier = if tier_name() == "thorough" { Tier::Thorough } else { Tier::Quick };
            std::process::exit(run_property(p, tier, scale, only.as_deref()));
        }
        "replay" => {
            let f = args.get(2).cloned().unwrap_or_else(|| usage());
            let rf: ReplayFile = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay json");
            let p = props.iter().find(|p| p.id == rf.property).expect("property");
            let s = p.subs.iter().find(|s| s.name() == rf.sub).expect("sub-check");
            start_watchdog();
            match s.replay(p.id, &rf.case) {
                Ok(Ok(())) => out!("{}/{}: holds on {}", p.id, rf.sub, f),
                Ok(Err(m)) => {
                    out!("{}/{}: {}", p.id, rf.sub, m);
                    out!("VIOLATION property={} replay={}", p.id, f);
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(3);
                }
            }
        }
        "show" => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let sub = args.get(3).cloned().unwrap_or_else(|| usage());
            let n = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(5);
            let p = props.iter().find(|p| p.id == id).expect("property");
            p.subs.iter().find(|s| s.name() == sub).expect("sub").show(env_seed(), n);
        }
        _ => usage(),
    }
}
