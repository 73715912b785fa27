mod http;
#[path = "../../harness/src/produce.rs"]
mod produce;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
mod web;

use crate::produce::{Args, produce};

fn run_http(a: &Args) {
    produce(
        a,
        |cfg, decs, sid| {
            let cfg = http::Cfg::from_json(cfg);
            let mut run = http::Run::start(&cfg, sid, "scenario");
            for d in decs {
                run.apply(d);
            }
            let (l, d) = run.finish();
            (cfg.json(), l, d)
        },
        |p, rng, sid| {
            let cfg = http::gen_cfg(rng);
            let mut run = http::Run::start(&cfg, sid, p);
            run.explore(rng);
            let (l, d) = run.finish();
            (cfg.json(), l, d)
        },
    );
}

fn run_web(a: &Args) {
    produce(
        a,
        |cfg, decs, sid| web::run(&web::Cfg::from_json(cfg, sid), decs, sid, "scenario"),
        |p, rng, sid| {
            let (cfg, decs) = web::generate(rng);
            web::run(&cfg, &decs, sid, p)
        },
    );
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("http") => run_http(&Args::parse(&args)),
        Some("web") => run_web(&Args::parse(&args)),
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}
