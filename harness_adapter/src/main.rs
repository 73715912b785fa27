mod adapter;
#[path = "../../harness/src/produce.rs"]
mod produce;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;

use crate::produce::{Args, produce};

fn run_adapter(a: &Args) {
    produce(
        a,
        |cfg, decs, sid| {
            let cfg = adapter::Cfg::from_json(cfg);
            let mut run = adapter::Run::start(&cfg, sid, "scenario");
            for d in decs {
                run.apply(d);
            }
            let (l, d) = run.finish();
            (cfg.json(), l, d)
        },
        |p, rng, sid| {
            let cfg = adapter::gen_cfg(p, rng);
            let mut run = adapter::Run::start(&cfg, sid, p);
            run.explore(rng);
            let (l, d) = run.finish();
            (cfg.json(), l, d)
        },
    );
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("adapter") => run_adapter(&Args::parse(&args)),
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}
