//! Command line and output shared by all kinds of scenarios.
use std::fs::File;
use std::io::{BufWriter, Write};

use serde_json::{Value, json};

use crate::util::Rng;

pub fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub struct Args {
    pub seed: u64,
    pub count: u64,
    pub secs: u64,
    pub profiles: Vec<String>,
    pub out: String,
    pub scenarios: Option<String>,
}

impl Args {
    pub fn parse(args: &[String]) -> Args {
        let num = |n: &str, d: u64| arg(args, n).and_then(|s| s.parse().ok()).unwrap_or(d);
        Args {
            seed: num("--seed", 1),
            count: num("--count", 10),
            secs: num("--secs", 100_000),
            profiles: arg(args, "--profiles").unwrap_or_default().split(',').map(String::from).collect(),
            out: arg(args, "--out").expect("--out"),
            scenarios: arg(args, "--scenarios"),
        }
    }
}

/// Produces scenarios and writes their traces: `replay(cfg, decisions, sid)` for given ones and
/// `explore(profile, rng, sid)` for new ones, both returning (configuration, trace, decisions).
pub fn produce(
    a: &Args,
    mut replay: impl FnMut(&Value, &[String], u64) -> (Value, Vec<String>, Vec<String>),
    mut explore: impl FnMut(&str, &mut Rng, u64) -> (Value, Vec<String>, Vec<String>),
) {
    let t0 = std::time::Instant::now();
    let mut trace = BufWriter::new(File::create(&a.out).expect("trace"));
    let mut scen = BufWriter::new(File::create(format!("{}.scen", a.out)).expect("scen"));
    let mut emit = |sid: u64, (cfg, lines, decs): (Value, Vec<String>, Vec<String>)| {
        for l in lines {
            writeln!(trace, "{l}").expect("write");
        }
        writeln!(scen, "{}", json!({"sid": sid, "cfg": cfg, "decs": decs})).expect("write");
    };
    let mut sid = 0;
    if let Some(f) = &a.scenarios {
        for line in std::fs::read_to_string(f).expect("scenarios").lines() {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            let decs: Vec<String> = v["decs"]
                .as_array()
                .map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())
                .unwrap_or_default();
            emit(sid, replay(&v["cfg"], &decs, sid));
            sid += 1;
        }
    } else {
        for i in 0..a.count {
            if t0.elapsed().as_secs() > a.secs {
                break;
            }
            let mut rng = Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(i));
            let p = rng.pick(&a.profiles).clone();
            emit(sid, explore(&p, &mut rng, sid));
            sid += 1;
        }
    }
    eprintln!("{sid} scenarios in {:?}", t0.elapsed());
}

