//! Feeds raw and parsed inputs to real registries.
use std::sync::{Arc, Mutex};

use serde_json::{Value, json};
use stream_download::registry::{Input, Registry, RegistryEntry, Rule, Source};
use url::Url;

use crate::util::Rng;

type Log = Arc<Mutex<Vec<String>>>;

/// A rule; unused fields are empty so that the specification sees one kind of record.
/// `t` is prefix, string or url; `m`/`v` how a string is matched, `sm`/`sv` a scheme and `dm`/`dv` a domain.
fn rule_json(t: &str, m: &str, v: &str, dm: &str, dv: &str) -> Value {
    json!({"t": t, "m": m, "v": v, "dm": dm, "dv": dv})
}

/// eq, start, has, full: equality or a regular expression with the literal at the start, anywhere, or alone.
fn regex(m: &str, v: &str) -> regex::Regex {
    let v = regex::escape(v);
    regex::Regex::new(&match m {
        "start" => format!("^{v}"),
        "has" => v,
        _ => format!("^{v}$"),
    })
    .expect("regex")
}

fn rule(r: &Value) -> Rule {
    let s = |k: &str| r[k].as_str().unwrap_or("").to_string();
    let (m, v, dm, dv) = (s("m"), s("v"), s("dm"), s("dv"));
    match r["t"].as_str().unwrap_or("") {
        "prefix" => Rule::prefix(v),
        "string" => match &*m {
            "any" => Rule::any_string(),
            "eq" => Rule::string(v),
            _ => Rule::string(regex(&m, &v)),
        },
        _ => match (&*m, &*dm) {
            ("any", "any") => Rule::any_url(),
            ("http", "any") => Rule::any_http(),
            ("eq", "any") => Rule::url_scheme(v),
            (_, "any") => Rule::url_scheme(regex(&m, &v)),
            ("any", "eq") => Rule::url_domain(dv),
            ("any", _) => Rule::url_domain(regex(&dm, &dv)),
            ("http", "eq") => Rule::http_domain(dv),
            ("http", _) => Rule::http_domain(regex(&dm, &dv)),
            ("eq", "eq") => Rule::url(v, dv),
            ("eq", _) => Rule::url(v, regex(&dm, &dv)),
            (_, "eq") => Rule::url(regex(&m, &v), dv),
            (..) => Rule::url(regex(&m, &v), regex(&dm, &dv)),
        },
    }
}

struct Entry {
    id: u64,
    priority: u32,
    rules: Vec<Rule>,
    log: Log,
    last: Arc<Mutex<Option<Input>>>,
}

fn source_json(s: &Source) -> (bool, String) {
    match s {
        Source::Url(u) => (true, u.as_str().to_string()),
        Source::String(t) => (false, t.clone()),
    }
}

#[async_trait::async_trait]
impl RegistryEntry<u64> for Entry {
    fn priority(&self) -> u32 {
        self.priority
    }
    fn rules(&self) -> &[Rule] {
        &self.rules
    }
    async fn handler(&mut self, input: Input) -> u64 {
        let (url, text) = source_json(&input.source);
        let src = input.source.clone();
        // the accessors agree with the variant
        let acc = src.clone().try_into_url().is_some_and(|u| u.as_str() == text) == url
            && src.clone().try_into_string().is_some_and(|s| s == text) != url
            && String::from(src.clone()) == text
            && src.to_string() == text
            && input.to_string() == input.clone().into_raw()
            && if url { src.into_url().as_str() == text } else { src.into_string() == text };
        self.log.lock().unwrap().push(
            json!({"e": "h", "id": self.id, "hasp": input.prefix.is_some(),
                "prefix": input.prefix.clone().unwrap_or_default(), "url": url, "text": text,
                "raw": input.clone().into_raw(), "acc": acc})
            .to_string(),
        );
        *self.last.lock().unwrap() = Some(input);
        self.id
    }
}

/// What the URL parser says about a text.
fn parse(text: &str) -> Value {
    match Url::parse(text) {
        Ok(u) => json!({"text": text, "url": true, "scheme": u.scheme(), "hasdom": u.domain().is_some(),
            "dom": u.domain().unwrap_or(""), "norm": u.as_str()}),
        Err(_) => json!({"text": text, "url": false, "scheme": "", "hasdom": false, "dom": "", "norm": text}),
    }
}

pub struct Run {
    cfg: Value,
    reg: Registry<u64>,
    log: Log,
    last: Arc<Mutex<Option<Input>>>,
    rt: tokio::runtime::Runtime,
    decs: Vec<String>,
}

const LITS: &[&str] = &["foo", "a:", "a", "h.com", "", "foobar", "b"];
const PREFIXES: &[&str] = &["a:", "a:b:", "foo", "", "http", "http:", "http://", "x-", "ü", "a"];
const SCHEMES: &[&str] = &["http", "https", "s3", "a", "ftp", "mailto", "httpx"];
const DOMAINS: &[&str] = &["h.com", "com", "sub.h.com", "bucket", "H.com"];
const TEXTS: &[&str] = &[
    "foo", "foobar", "", "a:", "a:foo", "a:a:foo", "a:b:foo", "xa:foo", "a:http://h.com/p", "a:a:http://h.com",
    "http://h.com", "http://h.com/", "HTTP://H.com/P?q=a:b#f", "https://sub.h.com/x y", "https://1.2.3.4/a", "s3://bucket/k",
    "mailto:me@h.com", "h.com", "http", "http:", "http:/h.com", "://", "x-http://h.com", "ü", "üü:foo", "a", "b", "aaa",
    "httpx://h.com", "ftp://h.com/foo", "a:b:a:b:http://com", "foofoo", "http://h.com.evil.org/", "file:///a/b", "a:b:", "h.com/a:",
];

pub fn gen_cfg(rng: &mut Rng) -> Value {
    // sorting algorithms behave differently for many entries
    let many = rng.pct(8);
    let n = if many { rng.range(15, 70) } else { rng.range(0, 5) };
    let entries: Vec<Value> = (0..n)
        .map(|_| {
            let k = if many { rng.range(0, 1) } else { rng.range(0, 3) };
            let rules: Vec<Value> = (0..k)
                .map(|_| {
                    let m = *rng.pick(&["any", "eq", "start", "has", "full"]);
                    match rng.below(3) {
                        0 => rule_json("prefix", "", rng.pick(PREFIXES), "any", ""),
                        1 => rule_json("string", m, if m == "any" { "" } else { rng.pick(LITS) }, "any", ""),
                        _ => {
                            let m = *rng.pick(&["any", "eq", "http", "start", "has", "full"]);
                            let dm = *rng.pick(&["any", "any", "eq", "start", "has", "full"]);
                            rule_json(
                                "url",
                                m,
                                if m == "any" || m == "http" { "" } else { rng.pick(SCHEMES) },
                                dm,
                                if dm == "any" { "" } else { rng.pick(DOMAINS) },
                            )
                        }
                    }
                })
                .collect();
            json!({"prio": *rng.pick(&[0, 1, 1, 2, 2, 3, 1_000_000_000]), "rules": rules})
        })
        .collect();
    json!({"entries": entries})
}

impl Run {
    pub fn start(cfg: &Value, sid: u64, profile: &str) -> Run {
        let log: Log = Arc::default();
        let last = Arc::default();
        let mut reset = cfg.clone();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(profile);
        log.lock().unwrap().push(reset.to_string());
        let mut reg = Registry::new();
        for (i, e) in cfg["entries"].as_array().into_iter().flatten().enumerate() {
            reg = reg.entry(Entry {
                id: i as u64 + 1,
                priority: e["prio"].as_u64().unwrap_or(0) as u32,
                rules: e["rules"].as_array().into_iter().flatten().map(rule).collect(),
                log: log.clone(),
                last: Arc::clone(&last),
            });
        }
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
        Run { cfg: cfg.clone(), reg, log, last, rt, decs: vec![] }
    }

    fn prefixes(&self) -> Vec<String> {
        let mut v: Vec<String> = self.cfg["entries"]
            .as_array()
            .into_iter()
            .flatten()
            .flat_map(|e| e["rules"].as_array().cloned().unwrap_or_default())
            .filter(|r| r["t"] == "prefix")
            .map(|r| r["v"].as_str().unwrap_or("").to_string())
            .collect();
        v.sort();
        v.dedup();
        v
    }

    /// `raw TEXT` (a &str or a String), `again` (the input of the last handler), `parsed PREFIX\tTEXT`
    pub fn apply(&mut self, dec: &str) {
        let (kind, text) = dec.split_once(' ').unwrap_or((dec, ""));
        self.decs.push(dec.to_string());
        let parsed = match kind {
            "again" => match self.last.lock().unwrap().clone() {
                Some(i) => Some(i),
                None => return,
            },
            "parsed" => {
                let (p, t) = text.split_once('\t').unwrap_or(("-", text));
                Some(Input {
                    prefix: p.strip_prefix('+').map(String::from),
                    source: Source::from(t.to_string()),
                })
            }
            _ => None,
        };
        let mut q = json!({"e": "q", "parsed": parsed.is_some(), "raw": "", "hasp": false, "prefix": "", "rests": [], "parses": []});
        if let Some(i) = &parsed {
            let (_, t) = source_json(&i.source);
            q["hasp"] = json!(i.prefix.is_some());
            q["prefix"] = json!(i.prefix.clone().unwrap_or_default());
            q["raw"] = json!(t);
            q["parses"] = json!([parse(&t)]);
        } else {
            q["raw"] = json!(text);
            let mut parses = vec![parse(text)];
            let mut rests = vec![];
            for p in self.prefixes() {
                if text.len() >= p.len() && text.as_bytes()[..p.len()] == *p.as_bytes() {
                    let rest = &text[p.len()..];
                    parses.push(parse(rest));
                    rests.push(json!({"p": p, "rest": rest}));
                }
            }
            q["parses"] = json!(parses);
            q["rests"] = json!(rests);
        }
        self.log.lock().unwrap().push(q.to_string());
        let own = self.decs.len() % 2 == 0;
        let reg = &mut self.reg;
        let rt = &self.rt;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rt.block_on(async {
                match parsed {
                    Some(i) => reg.find_match(i).await,
                    None if own => reg.find_match(text.to_string()).await,
                    None => reg.find_match(text).await,
                }
            })
        }));
        let r = match res {
            Ok(r) => json!({"e": "r", "some": r.is_some(), "id": r.unwrap_or(0), "panic": false}),
            Err(_) => json!({"e": "r", "some": false, "id": 0, "panic": true}),
        };
        self.log.lock().unwrap().push(r.to_string());
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        for _ in 0..rng.range(3, 14) {
            let d = match rng.below(8) {
                0 => "again".to_string(),
                1 => {
                    let p = if rng.pct(30) { "-".to_string() } else { format!("+{}", rng.pick(PREFIXES)) };
                    format!("parsed {p}\t{}", rng.pick(TEXTS))
                }
                2 => format!("raw {}{}", rng.pick(PREFIXES), rng.pick(TEXTS)),
                3 => format!("raw {}{}{}", rng.pick(PREFIXES), rng.pick(PREFIXES), rng.pick(TEXTS)),
                _ => format!("raw {}", rng.pick(TEXTS)),
            };
            self.apply(&d);
        }
    }

    pub fn finish(self) -> (Vec<String>, Vec<String>) {
        let lines = self.log.lock().unwrap().clone();
        (lines, self.decs)
    }
}
