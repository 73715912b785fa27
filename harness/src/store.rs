//! Sequences of operations on the storages themselves.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{self, RecvTimeoutError};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use serde_json::{Value, json};
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::{TempStorageProvider, tempfile};

use crate::core::{ReadSeek, WriteSeek, kind_name};
use crate::util::{Rng, opt};

type Log = Arc<Mutex<Vec<String>>>;

#[derive(Clone, Debug)]
pub struct Cfg {
    kind: String,
    cl: Option<u64>,
    cap: usize,
    /// Bytes an inner read or write handles at most, 0 for no limit.
    accept: usize,
    /// How the temp file is configured.
    place: u64,
    /// Where the reader and the writer start. Positions are logged relative to
    /// it, so that the specification deals with small numbers only.
    base: u64,
}

impl Cfg {
    pub fn json(&self) -> Value {
        json!({"kind": self.kind, "cl": opt(self.cl), "cap": self.cap, "accept": self.accept,
            "place": self.place, "base": self.base, "far": self.base > 0})
    }
    pub fn from_json(v: &Value) -> Cfg {
        Cfg {
            kind: v["kind"].as_str().unwrap_or("mem").into(),
            cl: v["cl"].as_u64(),
            cap: v["cap"].as_u64().unwrap_or(1).max(1) as usize,
            accept: v["accept"].as_u64().unwrap_or(0) as usize,
            place: v["place"].as_u64().unwrap_or(0),
            base: v["base"].as_u64().unwrap_or(0),
        }
    }
}

impl Cfg {
    /// A position as it is logged.
    fn rel(&self, p: u64) -> i64 {
        (p.wrapping_sub(self.base) as i64).clamp(-900_000, 900_000)
    }

    /// One operation of the reader or the writer.
    fn operate(&self, dec: &str, start: u64, r: Option<&mut Box<dyn ReadSeek>>, w: Option<&mut Box<dyn WriteSeek>>) -> Value {
        let p: Vec<&str> = dec.split(' ').collect();
        let num = |i: usize| p.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
        let to = |i: usize| match p.get(i) {
            Some(&"c") => SeekFrom::Current(num(i + 1)),
            Some(&"e") => SeekFrom::End(num(i + 1)),
            _ => SeekFrom::Start(self.base.wrapping_add_signed(num(i + 1))),
        };
        let sought = |res: io::Result<u64>| {
            let (ok, pos) = res.map_or((false, 0), |x| (true, self.rel(x)));
            json!({"e": p[0], "w": p.get(1), "o": num(2), "ok": ok, "p": pos})
        };
        match (p[0], r, w) {
            ("r", Some(r), _) => {
                let mut buf = vec![0u8; num(1) as usize];
                let n = buf.len();
                match r.read(&mut buf) {
                    Ok(k) => json!({"e": "rd", "n": n, "ok": true, "k": k, "d": buf[..k.min(n)], "err": ""}),
                    Err(e) => json!({"e": "rd", "n": n, "ok": false, "k": 0, "d": [], "err": kind_name(&e)}),
                }
            }
            ("w", _, Some(w)) => {
                let n = num(1) as u64;
                // distinct values, so that stale bytes are noticed
                let buf: Vec<u8> = (start..start + n).map(|i| (i % 251 + 1) as u8).collect();
                match w.write(&buf) {
                    Ok(k) => json!({"e": "wr", "ok": true, "r": k, "d": buf, "err": ""}),
                    Err(e) => json!({"e": "wr", "ok": false, "r": 0, "d": buf, "err": kind_name(&e)}),
                }
            }
            ("rs", Some(r), _) => sought(r.seek(to(1))),
            ("ws", _, Some(w)) => sought(w.seek(to(1))),
            (_, _, Some(w)) => {
                let ok = w.flush().is_ok();
                json!({"e": "flush", "ok": ok})
            }
            _ => json!({"e": "none"}),
        }
    }
}

static STUCK: AtomicU64 = AtomicU64::new(0);

/// Stops one side in a call of its inner storage.
#[derive(Default)]
struct Gate {
    state: Mutex<GateState>,
    cond: Condvar,
}
#[derive(Default)]
struct GateState {
    /// The side to stop, before its how many-th call.
    armed: Option<(&'static str, u64)>,
    stopped: bool,
    /// How many of the operations are finished.
    over: u32,
}
impl Gate {
    fn pass(&self, side: &'static str) {
        let mut s = self.state.lock().unwrap();
        match &mut s.armed {
            Some((who, left)) if *who == side && *left > 1 => *left -= 1,
            Some((who, _)) if *who == side => {
                s.stopped = true;
                self.cond.notify_all();
                drop(self.cond.wait_while(s, |s| s.stopped));
            }
            _ => {}
        }
    }
    /// Waits for something, not for long.
    fn wait(&self, most: Duration, f: impl Fn(&GateState) -> bool) {
        let s = self.state.lock().unwrap();
        drop(self.cond.wait_timeout_while(s, most, |s| !f(s)));
    }
    fn set(&self, f: impl FnOnce(&mut GateState)) {
        f(&mut self.state.lock().unwrap());
        self.cond.notify_all();
    }
}

/// Records that it's used, and may handle less than requested per call.
#[derive(Clone)]
struct Rec<P> {
    inner: P,
    name: &'static str,
    log: Log,
    accept: usize,
    gate: Arc<Gate>,
}
struct Short<T> {
    inner: T,
    accept: usize,
    side: &'static str,
    gate: Arc<Gate>,
}
impl<T> Short<T> {
    fn lim(&self, n: usize) -> usize {
        if self.accept == 0 { n } else { n.min(self.accept) }
    }
}
impl<T: Read> Read for Short<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.gate.pass(self.side);
        let n = self.lim(buf.len());
        self.inner.read(&mut buf[..n])
    }
}
impl<T: Write> Write for Short<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.gate.pass(self.side);
        self.inner.write(&buf[..self.lim(buf.len())])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.gate.pass(self.side);
        self.inner.flush()
    }
}
impl<T: Seek> Seek for Short<T> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.gate.pass(self.side);
        self.inner.seek(p)
    }
}
impl<P: StorageProvider> StorageProvider for Rec<P> {
    type Reader = Short<P::Reader>;
    type Writer = Short<P::Writer>;
    fn into_reader_writer(self, cl: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        self.log.lock().unwrap().push(json!({"e": "prov", "name": self.name, "cl": opt(cl)}).to_string());
        let (r, w) = self.inner.into_reader_writer(cl)?;
        let (accept, gate) = (self.accept, self.gate);
        Ok((
            Short { inner: r, accept, side: "r", gate: gate.clone() },
            Short { inner: w, accept, side: "w", gate },
        ))
    }
    fn max_capacity(&self) -> Option<usize> {
        self.inner.max_capacity()
    }
    fn max_capacity_for_length(&self, cl: Option<u64>) -> Option<usize> {
        self.inner.max_capacity_for_length(cl)
    }
}

type Pair = (Box<dyn ReadSeek>, Box<dyn WriteSeek>);

fn open<P: StorageProvider>(p: P, cl: Option<u64>, log: &Log) -> io::Result<Pair>
where
    P::Reader: 'static,
{
    let cap = p.max_capacity_for_length(cl).map(|c| c as u64);
    log.lock().unwrap().push(json!({"e": "cap", "v": opt(cap)}).to_string());
    let (r, w) = p.into_reader_writer(cl)?;
    Ok((Box::new(r), Box::new(w)))
}

pub struct Run {
    cfg: Cfg,
    log: Log,
    pair: Option<Pair>,
    dir: PathBuf,
    counter: u64,
    gate: Arc<Gate>,
    pub decs: Vec<String>,
}

impl Run {
    pub fn start(cfg: &Cfg, sid: u64, header: &str, dir: &std::path::Path) -> Run {
        let log: Log = Arc::default();
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(header);
        log.lock().unwrap().push(reset.to_string());
        let mut run = Run {
            cfg: cfg.clone(),
            log,
            pair: None,
            dir: dir.join(format!("s{sid}")),
            counter: 0,
            gate: Arc::default(),
            decs: vec![],
        };
        let res = run.open().and_then(|(mut r, mut w)| {
            if cfg.base > 0 {
                r.seek(SeekFrom::Start(cfg.base))?;
                w.seek(SeekFrom::Start(cfg.base))?;
            }
            Ok((r, w))
        });
        run.push(json!({"e": "opened", "ok": res.is_ok()}));
        run.pair = res.ok();
        if cfg.base > 0 {
            // from here on the end is near the positions
            run.apply("w 1");
        }
        run
    }

    fn push(&self, v: Value) {
        self.log.lock().unwrap().push(v.to_string());
    }

    fn temp(&self) -> TempStorageProvider {
        let dir = self.dir.clone();
        match self.cfg.place {
            1 => TempStorageProvider::new_in(&self.dir),
            2 => TempStorageProvider::with_prefix_in("pfx-", &self.dir),
            3 => TempStorageProvider::with_tempfile_builder(move || {
                tempfile::Builder::new().prefix("pfx-").tempfile_in(&dir)
            }),
            // uses TMPDIR, which main sets to a directory of its own
            4 => TempStorageProvider::with_prefix("pfx-"),
            _ => TempStorageProvider::new(),
        }
    }

    fn open(&self) -> io::Result<Pair> {
        let c = &self.cfg;
        let cap = NonZeroUsize::new(c.cap).unwrap();
        let (log, gate) = (self.log.clone(), self.gate.clone());
        let rec = move |name| Rec {
            inner: MemoryStorageProvider,
            name,
            log: log.clone(),
            accept: c.accept,
            gate: gate.clone(),
        };
        if self.cfg.place > 0 {
            std::fs::create_dir_all(&self.dir)?;
        }
        match c.kind.as_str() {
            "temp" => open(self.temp(), c.cl, &self.log),
            "bmem" => open(BoundedStorageProvider::new(rec("inner"), cap), c.cl, &self.log),
            "btemp" => {
                let inner = Rec { inner: self.temp(), name: "inner", log: self.log.clone(), accept: c.accept, gate: self.gate.clone() };
                open(BoundedStorageProvider::new(inner, cap), c.cl, &self.log)
            }
            "adapt" => {
                open(AdaptiveStorageProvider::with_fixed_and_variable(rec("fixed"), rec("variable"), cap), c.cl, &self.log)
            }
            "adaptmt" => {
                let var = Rec { inner: self.temp(), name: "variable", log: self.log.clone(), accept: 0, gate: self.gate.clone() };
                open(AdaptiveStorageProvider::with_fixed_and_variable(rec("fixed"), var, cap), c.cl, &self.log)
            }
            _ => open(MemoryStorageProvider, c.cl, &self.log),
        }
    }

    fn has_file(&self) -> bool {
        matches!(self.cfg.kind.as_str(), "temp" | "btemp")
    }

    fn files(&self) -> Vec<PathBuf> {
        let dir = if matches!(self.cfg.place, 0 | 4) { std::env::temp_dir() } else { self.dir.clone() };
        std::fs::read_dir(dir)
            .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect())
            .unwrap_or_default()
    }

    /// The reader and the writer at the same time, one of them stopped in a call of the inner storage.
    fn both(&self, first: &str, k: u64, ops: [&str; 2], pair: Pair) -> (Option<Pair>, Value) {
        let (r, w) = pair;
        let first = if first == "r" { "r" } else { "w" };
        self.gate.set(|s| *s = GateState { armed: Some((first, k.max(1))), ..Default::default() });
        let (reads, read) = mpsc::channel();
        let (writes, write) = mpsc::channel();
        let (cfg, gate, op) = (self.cfg.clone(), self.gate.clone(), ops[0].to_string());
        let reader = move || {
            let mut r = r;
            let mut v = cfg.operate(&op, 0, Some(&mut r), None);
            gate.set(|s| s.over += 1);
            v["rp"] = json!(r.stream_position().map_or(999_999, |x| cfg.rel(x)));
            v["wp"] = json!(0); // the specification decides the order
            let _ = reads.send((r, v));
        };
        let (cfg, gate, op, counter) = (self.cfg.clone(), self.gate.clone(), ops[1].to_string(), self.counter);
        let writer = move || {
            let mut w = w;
            let mut v = cfg.operate(&op, counter, None, Some(&mut w));
            gate.set(|s| s.over += 1);
            v["wp"] = json!(w.stream_position().map_or(999_999, |x| cfg.rel(x)));
            v["rp"] = json!(0);
            let _ = writes.send((w, v));
        };
        let started = || self.gate.wait(Duration::from_secs(5), |s| s.stopped || s.over > 0);
        if first == "r" {
            std::thread::spawn(reader);
            started();
            std::thread::spawn(writer);
        } else {
            std::thread::spawn(writer);
            started();
            std::thread::spawn(reader);
        }
        // the other one may be waiting for it
        self.gate.wait(Duration::from_millis(1), |s| s.over > u32::from(!s.stopped));
        self.gate.set(|s| {
            s.armed = None;
            s.stopped = false;
        });
        let most = Duration::from_secs(10);
        let (a, b) = (read.recv_timeout(most), write.recv_timeout(most));
        match (a, b) {
            (Ok((r, a)), Ok((w, b))) => (Some((r, w)), json!({"e": "both", "r": a, "w": b})),
            (Err(RecvTimeoutError::Timeout), _) | (_, Err(RecvTimeoutError::Timeout)) => {
                STUCK.fetch_add(1, Ordering::SeqCst);
                (None, json!({"e": "hung"}))
            }
            _ => (None, json!({"e": "rpanic"})),
        }
    }

    pub fn apply(&mut self, dec: &str) {
        if STUCK.load(Ordering::SeqCst) > 3 {
            // that is known by now
            return;
        }
        let Some(mut pair) = self.pair.take() else { return };
        self.decs.push(dec.into());
        let wrote = |op: &str| op.strip_prefix("w ").and_then(|n| n.parse::<u64>().ok()).unwrap_or(0);
        let p: Vec<&str> = dec.split(" | ").collect();
        let (res, n) = if let [how, r, w] = p[..] {
            let how: Vec<&str> = how.split(' ').collect();
            let k = how.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
            let (back, v) = self.both(how.get(1).unwrap_or(&"r"), k, [r, w], pair);
            self.pair = back;
            (v, wrote(w))
        } else {
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let (r, w) = &mut pair;
                let mut v = self.cfg.operate(dec, self.counter, Some(r), Some(w));
                v["rp"] = json!(r.stream_position().map_or(999_999, |x| self.cfg.rel(x)));
                v["wp"] = json!(w.stream_position().map_or(999_999, |x| self.cfg.rel(x)));
                v
            }));
            if res.is_ok() {
                self.pair = Some(pair);
            }
            (res.unwrap_or_else(|_| json!({"e": "rpanic"})), wrote(dec))
        };
        self.counter += n;
        self.push(res);
    }

    fn gen_dec(&self, rng: &mut Rng) -> String {
        let cap = self.cfg.cap as i64;
        let span = if self.cfg.kind.starts_with('b') || self.cfg.cl.is_none() { cap + 2 } else { cap.max(6) };
        match rng.below(100) {
            0..=34 => format!("w {}", rng.range(0, span)),
            35..=69 => format!("r {}", rng.range(0, span)),
            70..=84 => {
                let which = if rng.pct(60) { "rs" } else { "ws" };
                match rng.below(10) {
                    0..=3 => format!("{which} s {}", rng.range(0, 3 * cap + 2)),
                    4..=8 => format!("{which} c {}", rng.range(-span, span)),
                    _ => format!("{which} e {}", rng.range(-span, 3)),
                }
            }
            85..=97 => format!("rs c {}", rng.range(-2, 2)),
            _ => "f".into(),
        }
    }

    fn gen_both(&self, rng: &mut Rng) -> String {
        let span = self.cfg.cap as i64 + 1;
        let (first, k) = (*rng.pick(&["r", "w"]), rng.range(1, 5));
        let r = match rng.below(10) {
            0..=6 => format!("r {}", rng.range(1, span)),
            7..=8 => format!("rs c {}", rng.range(-span, span)),
            _ => format!("rs s {}", rng.range(0, 3 * span)),
        };
        let w = match rng.below(10) {
            0..=7 => format!("w {}", rng.range(1, span)),
            8 => format!("ws c {}", rng.range(-span, span)),
            _ => format!("ws s {}", rng.range(0, 3 * span)),
        };
        format!("p {first} {k} | {r} | {w}")
    }

    pub fn explore(&mut self, rng: &mut Rng, conc: bool) {
        // mostly sequential use, or anything
        let wild = rng.pct(60);
        for _ in 0..rng.range(4, 60) {
            let d = if conc && rng.pct(40) {
                self.gen_both(rng)
            } else if wild || rng.pct(10) {
                self.gen_dec(rng)
            } else {
                let n = rng.range(1, self.cfg.cap as i64);
                if rng.pct(50) { format!("w {n}") } else { format!("r {n}") }
            };
            self.apply(&d);
        }
    }

    pub fn finish(mut self) -> (Vec<String>, Vec<String>) {
        if self.has_file() && self.pair.is_some() {
            let files = self.files();
            let prefixed = |p: &PathBuf| p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("pfx-"));
            let placed = files.len() == 1 && (matches!(self.cfg.place, 0 | 1) || prefixed(&files[0]));
            self.pair = None;
            let removed = self.files().is_empty();
            self.push(json!({"e": "file", "placed": placed, "removed": removed}));
        }
        self.pair = None;
        let _ = std::fs::remove_dir_all(&self.dir);
        let lines = self.log.lock().unwrap().clone();
        (lines, self.decs)
    }
}

pub fn gen_cfg(profile: &str, rng: &mut Rng) -> Cfg {
    let kinds: &[&str] = match profile {
        "flat" => &["mem", "temp"],
        "ring" => &["bmem", "bmem", "btemp"],
        "adapt" => &["adapt", "adaptmt"],
        "conc" => &["mem", "bmem", "bmem", "btemp", "adapt"],
        _ => &["mem", "temp", "bmem", "btemp", "adapt", "adaptmt"],
    };
    let cap = if rng.pct(70) { rng.range(1, 6) } else { rng.range(1, 24) } as usize;
    let cl = match rng.below(5) {
        0 | 1 => None,
        2 => Some(cap as u64),
        3 => Some((cap as i64 + rng.range(-1, 1)) as u64),
        _ => Some(rng.range(0, 3 * cap as i64) as u64),
    };
    let kind = rng.pick(kinds).to_string();
    let accept = if rng.pct(30) && (kind.starts_with('b')) { rng.range(1, 3) as usize } else { 0 };
    let place = rng.below(5);
    // memory has to be allocated up to the position, a temp file is sparse
    let sparse = match kind.as_str() {
        "temp" => true,
        "adaptmt" => cl.is_none_or(|n| n > cap as u64),
        "adapt" => cl.is_none(),
        k => k.starts_with('b'),
    };
    let base = if sparse && rng.pct(25) {
        *rng.pick(&[(1 << 31) - 3, (1 << 32) - 3, (1 << 32) + 1, (1 << 33) + 7])
    } else {
        0
    };
    Cfg { kind, cl, cap, accept, place, base }
}
