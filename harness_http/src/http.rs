//! Drives the real HTTP source against a scripted server on the loopback interface.
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use futures_util::StreamExt;
use serde_json::{Value, json};
use stream_download::http::{Client, HttpStream, HttpStreamError};
use stream_download::source::{DecodeError, SourceStream};

use crate::util::{Rng, opt};

#[derive(Clone, Debug)]
pub struct Cfg {
    client: String,
    /// Accept-Ranges header, empty when missing.
    ar: String,
    /// Length the first response announces.
    cl: Option<u64>,
    ct: usize,
    xh: usize,
    url: usize,
}

/// Content-Type headers and what they mean.
const TYPES: &[(&[u8], &str)] = &[
    (b"audio/mpeg", "audio/mpeg"),
    (b"audio/ogg; codecs=vorbis", "audio/ogg"),
    (b"", ""),
    (b"garbage", ""),
    (b"/", ""),
    (b"au\xffdio/mpeg", ""),
    (b"application/vnd.apple.mpegurl", "application/vnd.apple.mpegurl"),
];
const XHEADERS: &[(&[u8], &str)] = &[(b"v 1;x=\"y\"", "v 1;x=\"y\""), (b"", ""), (b"\xff\xfe", "")];
const PATHS: &[&str] = &["/file.mp3", "/a%20b/c?x=1&y=%2F", "/?q"];

/// Lengths that don't fit into smaller types.
const BIG: &[u64] = &[1 << 31, (1 << 32) + 4, (1 << 53) + 1, i64::MAX as u64];

impl Cfg {
    pub fn json(&self) -> Value {
        json!({"client": self.client, "ar": self.ar, "cl": opt(self.cl.map(|n| n.min(i64::MAX as u64))), "ct": self.ct, "xh": self.xh, "url": self.url,
            "cttext": TYPES[self.ct].1, "xhtext": XHEADERS[self.xh].1, "target": PATHS[self.url]})
    }
    pub fn from_json(v: &Value) -> Cfg {
        let i = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
        Cfg {
            client: v["client"].as_str().unwrap_or("reqwest").into(),
            ar: v["ar"].as_str().unwrap_or("").into(),
            cl: v["cl"].as_u64(),
            ct: i("ct") % TYPES.len(),
            xh: i("xh") % XHEADERS.len(),
            url: i("url") % PATHS.len(),
        }
    }
}

pub fn gen_cfg(rng: &mut Rng) -> Cfg {
    Cfg {
        client: (*rng.pick(&["reqwest", "reqwest", "middleware"])).into(),
        ar: (*rng.pick(&["bytes", "bytes", "none", "", "other"])).into(),
        cl: (!rng.pct(25)).then(|| {
            if rng.pct(20) { *rng.pick(BIG) } else { rng.range(0, 24) as u64 }
        }),
        ct: rng.below(TYPES.len() as u64) as usize,
        xh: rng.below(XHEADERS.len() as u64) as usize,
        url: rng.below(PATHS.len() as u64) as usize,
    }
}

type Log = Arc<Mutex<Vec<String>>>;

/// How the server treats the next request.
#[derive(Clone, Debug)]
struct Plan {
    status: u16,
    len: u64,
    /// Announce the length instead of chunked encoding.
    sized: bool,
    /// Close before the response is complete.
    trunc: bool,
    /// Close without a response.
    cut: bool,
    piece: u64,
    /// The length a truncated response announces.
    announce: Option<u64>,
}

impl Plan {
    fn announced(&self) -> u64 {
        self.announce.unwrap_or(self.len + if self.trunc { 5 } else { 0 })
    }
}

struct Server {
    addr: String,
    plans: Arc<Mutex<VecDeque<Plan>>>,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}

/// The i-th byte of the body of the n-th response.
fn body(n: u64, i: u64) -> u8 {
    ((n * 53 + i * 7) % 250 + 1) as u8
}

fn error_text(n: u64) -> String {
    format!("server says {n}")
}

/// Every server gets a loopback address of its own, as closed connections keep their ports busy for a while.
pub fn listen() -> TcpListener {
    static STARTED: AtomicU32 = AtomicU32::new(0);
    let n = STARTED.fetch_add(1, Ordering::SeqCst).wrapping_add(std::process::id().wrapping_mul(7919));
    let byte = |x: u32| (1 + x % 250) as u8;
    let own = Ipv4Addr::new(127, byte(n / 62_500), byte(n / 250), byte(n));
    for _ in 0..100 {
        for ip in [own, Ipv4Addr::LOCALHOST] {
            if let Ok(l) = TcpListener::bind((ip, 0)) {
                return l;
            }
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    TcpListener::bind("127.0.0.1:0").expect("bind")
}

impl Server {
    fn start(cfg: &Cfg, log: &Log) -> Server {
        let listener = listen();
        let addr = listener.local_addr().expect("addr").to_string();
        let plans: Arc<Mutex<VecDeque<Plan>>> = Arc::default();
        let stop = Arc::new(AtomicBool::new(false));
        let thread = {
            let (plans, stop, log, cfg) = (plans.clone(), stop.clone(), log.clone(), cfg.clone());
            std::thread::spawn(move || {
                let mut n = 0;
                for conn in listener.incoming() {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let Ok(conn) = conn else { continue };
                    n += 1;
                    let plan = plans.lock().unwrap().pop_front();
                    let _ = serve(conn, n, plan, &cfg, &log);
                }
            })
        };
        Server { addr, plans, stop, thread: Some(thread) }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(&self.addr);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

fn serve(mut conn: TcpStream, n: u64, plan: Option<Plan>, cfg: &Cfg, log: &Log) -> std::io::Result<()> {
    conn.set_read_timeout(Some(Duration::from_secs(10)))?;
    let mut head = Vec::new();
    let mut byte = [0u8; 1];
    while !head.ends_with(b"\r\n\r\n") {
        if conn.read(&mut byte)? == 0 {
            return Ok(());
        }
        head.push(byte[0]);
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let mut lines = head.lines();
    let mut first = lines.next().unwrap_or("").split(' ');
    let (method, target) = (first.next().unwrap_or(""), first.next().unwrap_or(""));
    let ranges: Vec<&str> = lines
        .filter_map(|l| l.split_once(':'))
        .filter(|(k, _)| k.eq_ignore_ascii_case("range"))
        .map(|(_, v)| v.trim())
        .collect();
    let plan = plan.unwrap_or(Plan { status: 200, len: 3, sized: true, trunc: false, cut: false, piece: 9, announce: None });
    log.lock().unwrap().push(
        json!({"e": "req", "n": n, "m": method, "t": target, "range": ranges.join(","),
            "st": plan.status, "len": plan.len, "trunc": plan.trunc, "cut": plan.cut,
            "cl": if plan.sized && !plan.cut { clip(plan.announced()) } else { -1 },
            "cls": if plan.sized && !plan.cut { plan.announced().to_string() } else { String::new() }}).to_string(),
    );
    if plan.cut {
        return Ok(());
    }
    let mut out = format!("HTTP/1.1 {} X\r\nConnection: close\r\n", plan.status).into_bytes();
    let mut header = |k: &str, v: &[u8]| {
        if !v.is_empty() {
            out.extend_from_slice(k.as_bytes());
            out.extend_from_slice(b": ");
            out.extend_from_slice(v);
            out.extend_from_slice(b"\r\n");
        }
    };
    header("Accept-Ranges", cfg.ar.as_bytes());
    header("Content-Type", TYPES[cfg.ct].0);
    header("X-Test", XHEADERS[cfg.xh].0);
    let data: Vec<u8> = if plan.status >= 400 {
        error_text(n).into_bytes()
    } else {
        (0..plan.len).map(|i| body(n, i)).collect()
    };
    // a truncated response announces more than it sends
    let announced = if plan.status >= 400 { data.len() as u64 } else { plan.announced() };
    if plan.sized {
        header("Content-Length", announced.to_string().as_bytes());
    } else {
        header("Transfer-Encoding", b"chunked");
    }
    out.extend_from_slice(b"\r\n");
    conn.write_all(&out)?;
    for piece in data.chunks(plan.piece.max(1) as usize) {
        if plan.sized {
            conn.write_all(piece)?;
        } else {
            conn.write_all(format!("{:x}\r\n", piece.len()).as_bytes())?;
            conn.write_all(piece)?;
            conn.write_all(b"\r\n")?;
        }
        conn.flush()?;
    }
    if !plan.sized && !plan.trunc {
        conn.write_all(b"0\r\n\r\n")?;
    }
    Ok(())
}

fn clip(v: u64) -> i64 {
    v.min(1_000_000_000) as i64
}

/// Outcomes: `ok`, `len K` variants and faults are encoded as `<kind>[:<len>]`.
fn plan(s: &str, piece: u64) -> (Plan, bool) {
    let (kind, len) = s.split_once(':').unwrap_or((s, "4"));
    let len = len.parse().unwrap_or(4);
    let p = Plan { status: 200, len, sized: true, trunc: false, cut: false, piece, announce: None };
    match kind {
        // more than anyone could wait for: it ends early
        "big" => (Plan { len: 12, trunc: true, announce: Some(len), ..p }, false),
        "part" => (Plan { status: 206, ..p }, false),
        "chunked" => (Plan { sized: false, ..p }, false),
        "trunc" => (Plan { trunc: true, ..p }, false),
        "ctrunc" => (Plan { trunc: true, sized: false, ..p }, false),
        "cut" => (Plan { cut: true, ..p }, false),
        "refused" => (p, true),
        "404" | "400" | "416" | "500" | "503" => (Plan { status: kind.parse().unwrap_or(500), ..p }, false),
        _ => (p, false),
    }
}

enum Ev<T> {
    Done(T),
    Hung,
    Panicked,
}

struct Session<C: Client> {
    log: Log,
    cfg: Cfg,
    server: Server,
    rt: tokio::runtime::Runtime,
    stream: Option<HttpStream<C>>,
    rng: Rng,
}

impl<C: Client<Url = reqwest::Url>> Session<C> {
    fn push(&self, v: Value) {
        self.log.lock().unwrap().push(v.to_string());
    }

    fn exec<T>(rt: &tokio::runtime::Runtime, f: impl Future<Output = T>) -> Ev<T> {
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), f).await })
        }));
        match res {
            Ok(Ok(v)) => Ev::Done(v),
            Ok(Err(_)) => Ev::Hung,
            Err(_) => Ev::Panicked,
        }
    }

    /// Schedules the server's behaviour; a refused connection is one to a port nobody listens on.
    fn prepare(&mut self, outcome: &str) -> bool {
        let piece = self.rng.range(1, 9) as u64;
        let (p, refused) = plan(outcome, piece);
        let mut plans = self.server.plans.lock().unwrap();
        plans.clear();
        if !refused {
            plans.push_back(p);
        }
        refused
    }

    fn last_n(&self) -> u64 {
        let log = self.log.lock().unwrap();
        log.iter()
            .rev()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .find(|v| v["e"] == "req")
            .map_or(0, |v| v["n"].as_u64().unwrap_or(0))
    }

    fn failed<T>(&self, ev: &Ev<T>) -> bool {
        match ev {
            Ev::Hung => self.push(json!({"e": "hung"})),
            Ev::Panicked => self.push(json!({"e": "rpanic"})),
            Ev::Done(_) => return false,
        }
        true
    }

    fn new_stream(&mut self, outcome: &str, client: C) {
        let refused = self.prepare(outcome);
        let addr = if refused { "127.0.0.1:1".to_string() } else { self.server.addr.clone() };
        let url: reqwest::Url = format!("http://{addr}{}", PATHS[self.cfg.url]).parse().expect("url");
        self.push(json!({"e": "newc", "refused": refused}));
        let ev = Self::exec(&self.rt, HttpStream::new(client, url));
        if self.failed(&ev) {
            return;
        }
        let Ev::Done(res) = ev else { return };
        match res {
            Ok(s) => {
                self.push(json!({"e": "new", "ok": true, "kind": "", "msg": false}));
                let ct = s.content_type().as_ref().map_or(String::new(), |c| format!("{}/{}", c.r#type, c.subtype));
                self.push(json!({"e": "info", "cl": s.content_length().map_or(-1, clip),
                    "cls": s.content_length().map_or(String::new(), |n| n.to_string()), "ct": ct, "sk": s.supports_seek(),
                    "xh": s.header("X-Test").unwrap_or(""), "ar": s.header("accept-ranges").unwrap_or(""),
                    "no": s.header("X-Missing").is_none()}));
                self.stream = Some(s);
            }
            Err(e) => {
                let kind = match &e {
                    HttpStreamError::FetchFailure(_) => "fetch",
                    HttpStreamError::ResponseFailure(_) => "response",
                };
                let text = match Self::exec(&self.rt, e.decode_error()) {
                    Ev::Done(t) => t,
                    _ => String::new(),
                };
                let msg = text.contains(&error_text(self.last_n()));
                self.push(json!({"e": "new", "ok": false, "kind": kind, "msg": msg}));
            }
        }
    }

    fn op_result(&self, name: &str, ev: Ev<std::io::Result<()>>) {
        if self.failed(&ev) {
            return;
        }
        let Ev::Done(res) = ev else { return };
        let msg = res.as_ref().is_err_and(|e| e.to_string().contains(&error_text(self.last_n())));
        self.push(json!({"e": name, "ok": res.is_ok(), "msg": msg}));
    }

    fn apply(&mut self, p: &[&str]) {
        let Some(mut s) = self.stream.take() else { return };
        let num = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok());
        match p[0] {
            "seek" => {
                let (start, end) = (num(1).unwrap_or(0), num(2));
                self.prepare(p.get(3).unwrap_or(&"part"));
                self.push(json!({"e": "skc", "s": clip(start), "ss": start.to_string(), "en": end.map_or(-1, clip),
                    "es": end.map_or(String::new(), |e| (e - 1).to_string())}));
                let ev = Self::exec(&self.rt, s.seek_range(start, end));
                self.op_result("skr", ev);
            }
            "rc" => {
                let pos = num(1).unwrap_or(0);
                self.prepare(p.get(2).unwrap_or(&"part"));
                self.push(json!({"e": "rcc", "p": clip(pos), "ps": pos.to_string()}));
                let ev = Self::exec(&self.rt, s.reconnect(pos));
                self.op_result("rcr", ev);
            }
            _ => {
                let want = num(1).unwrap_or(1) as usize;
                let mut d: Vec<u8> = Vec::new();
                let ev = Self::exec(&self.rt, async {
                    while d.len() < want {
                        match s.next().await {
                            Some(Ok(b)) => d.extend_from_slice(&b),
                            Some(Err(_)) => return (false, true),
                            None => return (true, false),
                        }
                    }
                    (false, false)
                });
                if self.failed(&ev) {
                    return;
                }
                if let Ev::Done((end, err)) = ev {
                    self.push(json!({"e": "it", "d": d, "end": end, "err": err}));
                }
            }
        }
        self.stream = Some(s);
    }
}

trait Any {
    fn run(&mut self, dec: &str);
    fn alive(&self) -> bool;
}
impl Any for Session<reqwest::Client> {
    fn run(&mut self, dec: &str) {
        let p: Vec<&str> = dec.split(' ').collect();
        if p[0] == "new" {
            let c = reqwest::Client::builder().no_proxy().build().expect("client");
            self.new_stream(p.get(1).unwrap_or(&"ok"), c);
        } else {
            self.apply(&p);
        }
    }
    fn alive(&self) -> bool {
        self.stream.is_some()
    }
}
impl Any for Session<reqwest_middleware::ClientWithMiddleware> {
    fn run(&mut self, dec: &str) {
        let p: Vec<&str> = dec.split(' ').collect();
        if p[0] == "new" {
            let c = reqwest::Client::builder().no_proxy().build().expect("client");
            let c = reqwest_middleware::ClientBuilder::new(c).build();
            self.new_stream(p.get(1).unwrap_or(&"ok"), c);
        } else {
            self.apply(&p);
        }
    }
    fn alive(&self) -> bool {
        self.stream.is_some()
    }
}

pub struct Run {
    log: Log,
    cfg: Cfg,
    session: Box<dyn Any>,
    pub decs: Vec<String>,
}

fn session<C: Client<Url = reqwest::Url>>(cfg: &Cfg, log: &Log, seed: u64) -> Session<C> {
    Session {
        log: log.clone(),
        cfg: cfg.clone(),
        server: Server::start(cfg, log),
        rt: tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"),
        stream: None,
        rng: Rng::new(seed),
    }
}

impl Run {
    pub fn start(cfg: &Cfg, sid: u64, header: &str) -> Run {
        let log: Log = Arc::default();
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(header);
        log.lock().unwrap().push(reset.to_string());
        let session: Box<dyn Any> = if cfg.client == "middleware" {
            Box::new(session::<reqwest_middleware::ClientWithMiddleware>(cfg, &log, sid))
        } else {
            Box::new(session::<reqwest::Client>(cfg, &log, sid))
        };
        Run { log, cfg: cfg.clone(), session, decs: vec![] }
    }

    pub fn apply(&mut self, dec: &str) {
        // the first response has the configured length
        let dec = match dec.strip_prefix("new ") {
            Some("ok") => match self.cfg.cl {
                Some(cl) if cl > 1000 => format!("new big:{cl}"),
                Some(cl) => format!("new ok:{cl}"),
                None => "new chunked:9".into(),
            },
            _ => dec.into(),
        };
        self.session.run(&dec);
        self.decs.push(dec);
    }

    fn outcome(&self, rng: &mut Rng, good: &[&str]) -> String {
        let kind = if rng.pct(70) {
            rng.pick(good)
        } else {
            rng.pick(&["404", "400", "416", "500", "503", "cut", "trunc", "ctrunc"])
        };
        format!("{kind}:{}", rng.range(0, 20))
    }

    fn position(&self, rng: &mut Rng) -> u64 {
        match rng.below(10) {
            0 => *rng.pick(&[u64::MAX - 9, 1 << 32, (1 << 32) + 5, (1 << 53) + 1, 1 << 63, i64::MAX as u64]),
            1 | 2 => self.cfg.cl.unwrap_or(3),
            3 => self.cfg.cl.map_or(1, |n| (n as i64).saturating_add(rng.range(-2, 2)).max(0) as u64),
            _ => rng.range(0, 30) as u64,
        }
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        let first = if rng.pct(80) { "ok".into() } else { (*rng.pick(&["404", "500", "503", "cut", "refused", "400"])).to_string() };
        self.apply(&format!("new {first}"));
        for _ in 0..rng.range(1, 10) {
            if !self.session.alive() {
                break;
            }
            let d = match rng.below(10) {
                0..=3 => format!("poll {}", rng.range(1, 25)),
                4..=7 => {
                    let s = self.position(rng);
                    let e = if rng.pct(40) { "-".into() } else { s.saturating_add(rng.range(1, 9) as u64).to_string() };
                    format!("seek {s} {e} {}", self.outcome(rng, &["part", "part", "ok", "chunked"]))
                }
                _ => format!("rc {} {}", self.position(rng), self.outcome(rng, &["part", "ok", "chunked"])),
            };
            self.apply(&d);
        }
    }

    pub fn finish(self) -> (Vec<String>, Vec<String>) {
        drop(self.session);
        let lines = self.log.lock().unwrap().clone();
        (lines, self.decs)
    }
}
