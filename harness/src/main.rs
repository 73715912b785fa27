mod core;
mod life;
mod process;
mod produce;
mod registry;
mod sched;
mod settings;
mod store;
mod util;

use std::fs::File;
use std::io::{BufWriter, Write};

use serde_json::{Value, json};

use crate::produce::{Args, arg, produce};
use crate::util::Rng;


/// Runs a scenario, returns whether it had to be given up because a thread never stopped.
fn guarded(run: &mut core::Run, f: impl FnOnce(&mut core::Run)) -> bool {
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut *run)));
    if res.is_err() {
        run.stuck();
    }
    res.is_err()
}

type Out = BufWriter<File>;

/// Starts a scenario; when the stream can't even be created, that's recorded instead.
fn started(cfg: &core::Cfg, sid: u64, name: &str, trace: &mut Out, scen: &mut Out) -> Option<core::Run> {
    let run = std::panic::catch_unwind(|| core::Run::start(cfg, sid, name)).ok();
    if run.is_none() {
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(name);
        let _ = writeln!(trace, "{reset}\n{}", json!({"e": "stuck"}));
        let _ = writeln!(scen, "{}", json!({"sid": sid, "cfg": cfg.json(), "decs": [], "drain": 0}));
    }
    run
}

/// `core --out T --seed S --count N --profiles a,b [--scenarios F]`
fn run_core(args: &[String]) {
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let count: u64 = arg(args, "--count").and_then(|s| s.parse().ok()).unwrap_or(10);
    let profiles = arg(args, "--profiles").unwrap_or("base".into());
    let profiles: Vec<_> = profiles.split(',').map(core::profile).collect();
    let out = arg(args, "--out").expect("--out");
    let secs: u64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(100_000);
    let t0 = std::time::Instant::now();
    let mut trace = BufWriter::new(File::create(&out).expect("trace"));
    let mut scen = BufWriter::new(File::create(format!("{out}.scen")).expect("scen"));
    let emit = |trace: &mut Out, scen: &mut Out, sid: u64, cfg: &core::Cfg, run: core::Run, rng_seed: u64| {
        let (lines, decs) = run.finish();
        for l in lines {
            writeln!(trace, "{l}").expect("write");
        }
        let s = json!({"sid": sid, "cfg": cfg.json(), "decs": decs, "drain": rng_seed});
        writeln!(scen, "{s}").expect("write");
    };
    let mut sid = 0;
    if let Some(f) = arg(args, "--scenarios") {
        // {"cfg":..,"decs":[..],"drain":seed}
        let text = std::fs::read_to_string(f).expect("scenarios");
        for line in text.lines() {
            if t0.elapsed().as_secs() > secs {
                break;
            }
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            let cfg = core::Cfg::from_json(&v["cfg"]);
            let decs: Vec<String> = v["decs"]
                .as_array()
                .map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())
                .unwrap_or_default();
            let drain = v["drain"].as_u64().unwrap_or(seed + sid);
            let Some(mut run) = started(&cfg, sid, "scenario", &mut trace, &mut scen) else { break };
            let hung = guarded(&mut run, |run| {
                run.replay(&decs);
                run.drain(&mut Rng::new(drain));
            });
            emit(&mut trace, &mut scen, sid, &cfg, run, drain);
            sid += 1;
            if hung {
                break;
            }
        }
    } else {
        for i in 0..count {
            if t0.elapsed().as_secs() > secs {
                break;
            }
            let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
            let mut rng = Rng::new(s);
            let p = rng.pick(&profiles).clone();
            let cfg = core::gen_cfg(&p, &mut rng);
            let Some(mut run) = started(&cfg, sid, p.name, &mut trace, &mut scen) else { break };
            let mut drain = 0;
            let hung = guarded(&mut run, |run| {
                run.explore(&p, &mut rng);
                drain = rng.next() >> 12;
                run.drain(&mut Rng::new(drain));
            });
            emit(&mut trace, &mut scen, sid, &cfg, run, drain);
            sid += 1;
            if hung {
                break;
            }
        }
    }
    eprintln!("{sid} scenarios in {:?}", t0.elapsed());
}

/// A scratch directory in which `tmp` is used for temporary files.
fn scratch() -> tempfile::TempDir {
    let dir = tempfile::tempdir().expect("scratch");
    // SAFETY: no other thread runs yet
    unsafe { std::env::set_var("TMPDIR", dir.path().join("tmp")) };
    std::fs::create_dir(dir.path().join("tmp")).expect("scratch");
    dir
}

/// Programs started by this process find no input.
fn no_input() {
    let null = File::open("/dev/null").expect("null");
    // SAFETY: both are open files
    unsafe { libc::dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 0) };
}

fn run_process(a: &Args) {
    let dir = scratch();
    no_input();
    produce(
        a,
        |cfg, decs, sid| {
            let mut run = process::Run::start(cfg, sid, "scenario", dir.path());
            for d in decs {
                run.apply(d);
            }
            let (l, d) = run.finish();
            (cfg.clone(), l, d)
        },
        |p, rng, sid| {
            let cfg = process::gen_cfg(rng);
            let mut run = process::Run::start(&cfg, sid, p, dir.path());
            run.explore(rng);
            let (l, d) = run.finish();
            (cfg, l, d)
        },
    );
}

fn run_commands(a: &Args) {
    let dir = scratch();
    no_input();
    process::stand_ins(dir.path());
    let path = std::env::var("PATH").unwrap_or_default();
    // SAFETY: no other thread runs yet
    unsafe { std::env::set_var("PATH", format!("{}:{path}", dir.path().display())) };
    produce(
        a,
        |cfg, decs, sid| {
            let mut run = process::CmdRun::start(sid, "scenario", dir.path());
            for d in decs {
                run.apply(d);
            }
            let (l, d) = run.finish();
            (cfg.clone(), l, d)
        },
        |p, rng, sid| {
            let mut run = process::CmdRun::start(sid, p, dir.path());
            run.explore(rng);
            let (l, d) = run.finish();
            (json!({}), l, d)
        },
    );
}

fn run_store(a: &Args) {
    let dir = scratch();
    produce(
        a,
        |cfg, decs, sid| {
            let cfg = store::Cfg::from_json(cfg);
            let mut run = store::Run::start(&cfg, sid, "scenario", dir.path());
            for d in decs {
                run.apply(d);
            }
            let (l, d) = run.finish();
            (cfg.json(), l, d)
        },
        |p, rng, sid| {
            let cfg = store::gen_cfg(p, rng);
            let mut run = store::Run::start(&cfg, sid, p, dir.path());
            run.explore(rng, p == "conc");
            let (l, d) = run.finish();
            (cfg.json(), l, d)
        },
    );
}

fn run_registry(a: &Args) {
    produce(
        a,
        |cfg, decs, sid| {
            let mut run = registry::Run::start(cfg, sid, "scenario");
            for d in decs {
                run.apply(d);
            }
            let (l, d) = run.finish();
            (cfg.clone(), l, d)
        },
        |p, rng, sid| {
            let cfg = registry::gen_cfg(rng);
            let mut run = registry::Run::start(&cfg, sid, p);
            run.explore(rng);
            let (l, d) = run.finish();
            (cfg, l, d)
        },
    );
}

fn run_life(a: &Args) {
    produce(
        a,
        |cfg, decs, sid| {
            let mut run = life::Run::start(&life::Cfg::from_json(cfg), sid, "scenario");
            for d in decs {
                run.apply(d);
            }
            let cfg = run.cfg();
            let (l, d) = run.finish();
            (cfg, l, d)
        },
        |p, rng, sid| {
            let mut run = life::Run::start(&life::gen_cfg(rng), sid, p);
            run.explore(rng);
            let cfg = run.cfg();
            let (l, d) = run.finish();
            (cfg, l, d)
        },
    );
}

fn run_settings(a: &Args) {
    produce(
        a,
        |cfg, decs, sid| {
            let mut run = settings::Run::start(&settings::Cfg::from_json(cfg), sid, "scenario");
            for d in decs {
                run.apply(d);
            }
            let cfg = run.cfg();
            let (l, d) = run.finish();
            (cfg, l, d)
        },
        |p, rng, sid| {
            let mut run = settings::Run::start(&settings::gen_cfg(rng), sid, p);
            run.explore(rng);
            let cfg = run.cfg();
            let (l, d) = run.finish();
            (cfg, l, d)
        },
    );
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if !text.contains("scripted") {
            eprintln!("PANIC {text}");
        }
    }));
    #[cfg(stream_download_verif)]
    stream_download::verif::set_hook(sched::gate);
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("core") => run_core(&args),
        Some("child") => std::process::exit(process::child(&args[2..])),
        Some("process") => run_process(&Args::parse(&args)),
        Some("commands") => run_commands(&Args::parse(&args)),
        Some("registry") => run_registry(&Args::parse(&args)),
        Some("life") => run_life(&Args::parse(&args)),
        Some("settings") => run_settings(&Args::parse(&args)),
        Some("store") => run_store(&Args::parse(&args)),
        _ => {
            eprintln!("unknown command");
            std::process::exit(2);
        }
    }
}
