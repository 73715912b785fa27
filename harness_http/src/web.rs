//! Whole streams over HTTP: a reader on top of the real HTTP client, a server with a resource on the loopback
//! interface, and every way of creating such a stream.
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
use std::net::TcpStream;
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, mpsc};
use std::time::Duration;

use serde_json::{Value, json};
use stream_download::http::{Client, HttpStream, HttpStreamError};
use stream_download::source::DecodeError;
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamInitializationError};

use crate::http::listen;
use crate::util::{Rng, content};

/// How long anything may take; far more than it does.
const GUARD: Duration = Duration::from_secs(60);

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Length of the resource.
    len: u64,
    /// Whether responses announce their length.
    sized: bool,
    /// Accept-Ranges header, empty when missing.
    ar: String,
    /// How the stream is created.
    how: String,
    /// Default middleware to have been added.
    mw: usize,
    /// mem, temp, ring or adaptive, and the capacity of the latter two.
    store: String,
    cap: usize,
    /// Bytes to prefetch, -1 for the default.
    prefetch: i64,
    /// Bytes per write of the server, and whether it takes its time in between.
    piece: u64,
    slow: bool,
    /// The answers of the server, `full` once there are none left.
    ans: Vec<String>,
}

impl Cfg {
    pub fn json(&self) -> Value {
        json!({"len": self.len, "sized": self.sized, "ar": self.ar, "how": self.how, "mw": self.mw, "store": self.store, "cap": self.cap,
            "prefetch": self.prefetch, "piece": self.piece, "slow": self.slow, "ans": self.ans})
    }

    /// What the design model leaves open varies with `sid`.
    pub fn from_json(v: &Value, sid: u64) -> Cfg {
        let mut rng = Rng::new(sid + 17);
        let text = |k: &str, other: &str| v[k].as_str().unwrap_or(other).to_string();
        let (how, store) = (*rng.pick(HOWS), *rng.pick(&["mem", "mem", "temp"]));
        let (prefetch, piece, slow) = (*rng.pick(&[0, 1, 2, -1]), rng.range(1, 4) as u64, rng.pct(20));
        Cfg {
            len: v["len"].as_u64().unwrap_or(4),
            sized: v["sized"].as_bool().unwrap_or(true),
            ar: text("ar", "bytes"),
            how: text("how", how),
            mw: v["mw"].as_u64().unwrap_or(rng.below(3)) as usize,
            store: text("store", store),
            cap: v["cap"].as_u64().unwrap_or(1000) as usize,
            prefetch: v["prefetch"].as_i64().unwrap_or(prefetch),
            piece: v["piece"].as_u64().unwrap_or(piece),
            slow: v["slow"].as_bool().unwrap_or(slow),
            ans: v["ans"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
        }
    }

    fn stalls(&self) -> bool {
        self.ans.iter().any(|a| a.starts_with("stall"))
    }
}

const HOWS: &[&str] = &["http", "mw", "generic", "genericmw", "from", "frommw"];

/// A configuration and the calls of the reader.
pub fn generate(rng: &mut Rng) -> (Cfg, Vec<String>) {
    let len = if rng.pct(10) { rng.range(200, 2000) } else { rng.range(0, 40) } as u64;
    let sized = rng.pct(75);
    let ar = (*rng.pick(&["bytes", "bytes", "none", ""])).to_string();
    let ring = rng.pct(25);
    let cap = rng.range(1, 12) as usize;
    let mut ans = Vec::new();
    for i in 0..rng.range(0, 3) {
        let k = rng.range(0, len.max(1) as i64 - 1);
        ans.push(match rng.below(10) {
            0..=2 if !ring => format!("trunc:{k}"),
            // what a server without ranges and lengths sends after a reconnect is a stream of its own
            3..=5 if sized || ar == "bytes" => format!("stall:{k}"),
            6 if i > 0 => (*rng.pick(&["500", "404", "cut", "416"])).to_string(),
            7 if i == 0 && rng.pct(40) => (*rng.pick(&["500", "404", "cut", "refused"])).to_string(),
            _ => "full".into(),
        });
    }
    let cfg = Cfg {
        len,
        sized,
        ar,
        how: (*rng.pick(HOWS)).into(),
        mw: rng.below(5) as usize,
        store: (*rng.pick(if ring { &["ring", "adaptive"] } else { &["mem", "temp"] })).into(),
        cap,
        prefetch: *rng.pick(&[0, 0, 1, 5, 30, -1]),
        piece: if len > 100 { rng.range(20, 300) } else { rng.range(1, 9) } as u64,
        slow: len <= 100 && rng.pct(30),
        ans,
    };
    let mut decs = Vec::new();
    let max = if ring { cap as i64 } else if len > 100 { 700 } else { 15 };
    for _ in 0..rng.range(0, 7) {
        // a ring doesn't keep what was read, and nothing says where a stream of unknown length ends
        decs.push(match rng.below(10) {
            0..=2 if !ring && sized => format!("start {}", rng.range(0, len as i64 + 3)),
            0..=2 if !ring && len > 0 => format!("start {}", rng.range(0, len as i64 - 1)),
            3 if !ring && sized => format!("end {}", -rng.range(0, len as i64)),
            _ => format!("read {}", rng.range(1, max)),
        });
    }
    if rng.pct(60) {
        decs.push(format!("rest {}", rng.range(1, max)));
    }
    (cfg, decs)
}

type Log = Arc<Mutex<Vec<String>>>;

fn push(log: &Log, v: Value) {
    log.lock().unwrap().push(v.to_string());
}

struct Server {
    addr: String,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Server {
    fn start(cfg: &Cfg, log: &Log) -> Server {
        let listener = listen();
        let addr = listener.local_addr().expect("addr").to_string();
        let stop = Arc::new(AtomicBool::new(false));
        let thread = {
            let (stop, log, cfg) = (stop.clone(), log.clone(), cfg.clone());
            std::thread::spawn(move || {
                let mut n = 0;
                let mut ans: VecDeque<String> = cfg.ans.iter().cloned().collect();
                let mut conns = Vec::new();
                for conn in listener.incoming() {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let Ok(conn) = conn else { continue };
                    n += 1;
                    let a = ans.pop_front().unwrap_or_else(|| "full".into());
                    let (cfg, log, stop) = (cfg.clone(), log.clone(), stop.clone());
                    conns.push(std::thread::spawn(move || {
                        let _ = serve(conn, n, &a, &cfg, &log, &stop);
                    }));
                }
                for c in conns {
                    let _ = c.join();
                }
            })
        };
        Server { addr, stop, thread: Some(thread) }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(&self.addr);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// `bytes=a-b` as numbers, -1 for what isn't there and -2 for what isn't a range.
fn parse_range(s: &str) -> (i64, i64) {
    let Some((a, b)) = s.strip_prefix("bytes=").and_then(|s| s.split_once('-')) else {
        return if s.is_empty() { (-1, -1) } else { (-2, -2) };
    };
    let num = |x: &str| x.parse::<i64>().unwrap_or(-2);
    (num(a), if b.is_empty() { -1 } else { num(b) })
}

fn serve(mut conn: TcpStream, n: u64, answer: &str, cfg: &Cfg, log: &Log, stop: &AtomicBool) -> std::io::Result<()> {
    conn.set_read_timeout(Some(Duration::from_secs(10)))?;
    let mut head = Vec::new();
    let mut byte = [0u8; 1];
    while !head.ends_with(b"\r\n\r\n") {
        if conn.read(&mut byte)? == 0 {
            return Ok(());
        }
        head.push(byte[0]);
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let mut lines = head.lines();
    let mut first = lines.next().unwrap_or("").split(' ');
    let (method, target) = (first.next().unwrap_or(""), first.next().unwrap_or(""));
    let values = |name: &str| -> Vec<&str> {
        lines.clone().filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.trim()).collect()
    };
    let mw: Vec<u64> = values("x-mw").iter().map(|v| v.parse().unwrap_or(0)).collect();
    let (a, b) = parse_range(&values("range").join(","));
    let (kind, k) = answer.split_once(':').unwrap_or((answer, "0"));
    let k: u64 = k.parse().unwrap_or(0);
    let (from, to) = match (a, b) {
        (0.., -1) => (a as u64, cfg.len),
        (0.., 0..) => (a as u64, (b as u64 + 1).min(cfg.len)),
        _ => (0, cfg.len),
    };
    let unsatisfiable = a >= 0 && (from >= to);
    let status: u64 = match kind {
        "cut" => 0,
        "500" | "404" | "416" => kind.parse().unwrap_or(500),
        _ if unsatisfiable => 416,
        _ if a >= 0 => 206,
        _ => 200,
    };
    let fault = if status >= 300 || from >= to { "" } else { kind };
    let shown = if matches!(fault, "trunc" | "stall") { fault } else { "" };
    push(log, json!({"e": "req", "n": n, "m": method, "t": target, "a": a, "b": b, "st": status, "mw": mw, "fault": shown}));
    if status == 0 {
        return Ok(());
    }
    let mut out = format!("HTTP/1.1 {status} X\r\nConnection: close\r\n");
    if !cfg.ar.is_empty() {
        out += &format!("Accept-Ranges: {}\r\n", cfg.ar);
    }
    let data: Vec<u8> = if status >= 400 { b"server says no".to_vec() } else { (from..to).map(content).collect() };
    if status == 206 {
        out += &format!("Content-Range: bytes {from}-{}/{}\r\n", to - 1, cfg.len);
    }
    let chunked = !cfg.sized && status < 400;
    out += &if chunked { "Transfer-Encoding: chunked\r\n".into() } else { format!("Content-Length: {}\r\n", data.len()) };
    out += "\r\n";
    conn.write_all(out.as_bytes())?;
    let sent = if matches!(fault, "trunc" | "stall") { k.min(data.len() as u64 - 1) as usize } else { data.len() };
    for piece in data[..sent].chunks(cfg.piece.max(1) as usize) {
        if chunked {
            conn.write_all(format!("{:x}\r\n", piece.len()).as_bytes())?;
            conn.write_all(piece)?;
            conn.write_all(b"\r\n")?;
        } else {
            conn.write_all(piece)?;
        }
        conn.flush()?;
        if cfg.slow {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    match fault {
        "trunc" => return Ok(()),
        "stall" => {
            conn.set_read_timeout(Some(Duration::from_millis(20)))?;
            while !stop.load(Ordering::SeqCst) {
                match conn.read(&mut byte) {
                    Ok(0) => break,
                    Err(e) if !matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => break,
                    _ => {}
                }
            }
        }
        _ if chunked => conn.write_all(b"0\r\n\r\n")?,
        _ => {}
    }
    Ok(())
}

/// Marks every request it sees.
struct Mark(usize);

#[async_trait::async_trait]
impl reqwest_middleware::Middleware for Mark {
    async fn handle(
        &self,
        mut req: reqwest::Request,
        extensions: &mut ::http::Extensions,
        next: reqwest_middleware::Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        req.headers_mut().append("x-mw", reqwest::header::HeaderValue::from(self.0));
        next.run(req, extensions).await
    }
}

type MwStream = HttpStream<reqwest_middleware::ClientWithMiddleware>;

/// Default middleware can only be added, so there may be more than asked for.
fn middleware(wanted: usize) -> usize {
    static ADDED: AtomicUsize = AtomicUsize::new(0);
    while ADDED.load(Ordering::SeqCst) < wanted {
        let n = ADDED.fetch_add(1, Ordering::SeqCst) + 1;
        Settings::<MwStream>::add_default_middleware(Mark(n));
    }
    ADDED.load(Ordering::SeqCst)
}

fn settings<C: Client>(cfg: &Cfg) -> Settings<HttpStream<C>> {
    let s = Settings::default().retry_timeout(if cfg.stalls() { Duration::from_millis(100) } else { GUARD * 2 });
    if cfg.prefetch < 0 { s } else { s.prefetch_bytes(cfg.prefetch as u64) }
}

fn init_error<C: Client>(e: &StreamInitializationError<HttpStream<C>>) -> &'static str {
    match e {
        StreamInitializationError::StorageCreationFailure(_) => "storage",
        StreamInitializationError::StreamCreationFailure(HttpStreamError::FetchFailure(_)) => "fetch",
        StreamInitializationError::StreamCreationFailure(HttpStreamError::ResponseFailure(_)) => "response",
    }
}

async fn report<P: StorageProvider, C: Client>(
    res: Result<StreamDownload<P>, StreamInitializationError<HttpStream<C>>>,
) -> Result<StreamDownload<P>, (&'static str, bool)> {
    match res {
        Ok(s) => Ok(s),
        Err(e) => {
            let kind = init_error(&e);
            Err((kind, e.decode_error().await.contains("server says no")))
        }
    }
}

async fn create<P: StorageProvider + 'static>(
    cfg: &Cfg,
    storage: P,
    url: reqwest::Url,
) -> Result<StreamDownload<P>, (&'static str, bool)> {
    match cfg.how.as_str() {
        "mw" => report(StreamDownload::new_http_with_middleware(url, storage, settings(cfg)).await).await,
        "generic" => report(StreamDownload::new::<HttpStream<reqwest::Client>>(url, storage, settings(cfg)).await).await,
        "genericmw" => report(StreamDownload::new::<MwStream>(url, storage, settings(cfg)).await).await,
        "from" => {
            let s = HttpStream::new(reqwest::Client::new(), url).await;
            match s {
                Ok(s) => report(StreamDownload::from_stream(s, storage, settings(cfg)).await).await,
                Err(e) => {
                    let e = StreamInitializationError::<HttpStream<reqwest::Client>>::StreamCreationFailure(e);
                    report::<P, _>(Err(e)).await
                }
            }
        }
        "frommw" => {
            let s = HttpStream::new(<reqwest_middleware::ClientWithMiddleware as Client>::create(), url).await;
            match s {
                Ok(s) => report(StreamDownload::from_stream(s, storage, settings(cfg)).await).await,
                Err(e) => report::<P, _>(Err(StreamInitializationError::<MwStream>::StreamCreationFailure(e))).await,
            }
        }
        _ => report(StreamDownload::new_http(url, storage, settings(cfg)).await).await,
    }
}

fn kind(e: &std::io::Error) -> String {
    format!("{:?}", e.kind())
}

/// The calls of the reader, one after the other.
fn use_stream<P: StorageProvider>(mut s: StreamDownload<P>, decs: &[String], log: &Log) {
    for d in decs {
        let (op, n) = d.split_once(' ').unwrap_or((d, "1"));
        let n: i64 = n.parse().unwrap_or(1);
        match op {
            "start" | "end" => {
                push(log, json!({"e": "skc", "w": op, "o": n}));
                let to = if op == "start" { SeekFrom::Start(n as u64) } else { SeekFrom::End(n) };
                match s.seek(to) {
                    Ok(p) => push(log, json!({"e": "sk", "ok": true, "p": p, "kind": ""})),
                    Err(e) => push(log, json!({"e": "sk", "ok": false, "p": 0, "kind": kind(&e)})),
                }
            }
            _ => {
                let mut buf = vec![0; n.max(1) as usize];
                for _ in 0..3000 {
                    push(log, json!({"e": "rdc", "n": buf.len()}));
                    let more = match s.read(&mut buf) {
                        Ok(k) => {
                            push(log, json!({"e": "rd", "ok": true, "d": &buf[..k], "kind": ""}));
                            k > 0
                        }
                        Err(e) => {
                            push(log, json!({"e": "rd", "ok": false, "d": [], "kind": kind(&e)}));
                            false
                        }
                    };
                    if op != "rest" || !more {
                        break;
                    }
                }
            }
        }
    }
}

fn with_storage<P: StorageProvider + 'static>(cfg: &Cfg, decs: &[String], storage: P, log: &Log) {
    let server = Server::start(cfg, log);
    let refused = cfg.ans.first().is_some_and(|a| a == "refused");
    let addr = if refused { "127.0.0.1:1" } else { &server.addr };
    let url: reqwest::Url = format!("http://{addr}/file.mp3?x=1").parse().expect("url");
    let mw = if cfg.how.ends_with("mw") { middleware(cfg.mw) } else { 0 };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
    push(log, json!({"e": "newc", "mw": mw, "refused": refused}));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rt.block_on(async { tokio::time::timeout(GUARD, create(cfg, storage, url)).await })
    }));
    match res {
        Err(_) => push(log, json!({"e": "rpanic"})),
        Ok(Err(_)) => push(log, json!({"e": "hung"})),
        Ok(Ok(Err((kind, msg)))) => push(log, json!({"e": "new", "ok": false, "cl": -1, "kind": kind, "msg": msg})),
        Ok(Ok(Ok(s))) => {
            push(log, json!({"e": "new", "ok": true, "cl": s.content_length().map_or(-1, |n| n as i64), "kind": "", "msg": false}));
            let handle = s.handle();
            let (tx, rx) = mpsc::channel();
            let reader = {
                let (decs, log) = (decs.to_vec(), log.clone());
                std::thread::spawn(move || {
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| use_stream(s, &decs, &log)));
                    let _ = tx.send(res.is_err());
                })
            };
            match rx.recv_timeout(GUARD) {
                Ok(false) => {
                    // the reader is dropped, which ends the download
                    let _ = reader.join();
                    let ended = rt.block_on(async { tokio::time::timeout(GUARD, handle.wait_for_completion()).await.is_ok() });
                    push(log, json!({"e": "ended", "ok": ended}));
                }
                Ok(true) => push(log, json!({"e": "rpanic"})),
                Err(_) => push(log, json!({"e": "hung"})),
            }
        }
    }
    rt.shutdown_background();
}

pub fn run(cfg: &Cfg, decs: &[String], sid: u64, header: &str) -> (Value, Vec<String>, Vec<String>) {
    let log: Log = Arc::default();
    let mut reset = cfg.json();
    reset["e"] = json!("reset");
    reset["sid"] = json!(sid);
    reset["profile"] = json!(header);
    push(&log, reset);
    let cap = NonZeroUsize::new(cfg.cap.max(1)).unwrap();
    match cfg.store.as_str() {
        "temp" => with_storage(cfg, decs, TempStorageProvider::new(), &log),
        "ring" => with_storage(cfg, decs, BoundedStorageProvider::new(MemoryStorageProvider, cap), &log),
        "adaptive" => with_storage(
            cfg,
            decs,
            AdaptiveStorageProvider::with_fixed_and_variable(MemoryStorageProvider, TempStorageProvider::new(), cap),
            &log,
        ),
        _ => with_storage(cfg, decs, MemoryStorageProvider, &log),
    }
    // what comes after the end is not part of the trace
    let lines = log.lock().unwrap().clone();
    (cfg.json(), lines, decs.to_vec())
}
