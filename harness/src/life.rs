//! Creation of a stream, and what its handles and tokens say about the download.
use std::future::Future;
use std::io::{self, Read};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use serde_json::{Value, json};
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::{Settings, StreamDownload, StreamHandle, StreamInitializationError};
use tokio::io::{AsyncRead, ReadBuf};
use tokio::sync::Notify;
use tokio_util::sync::CancellationToken;

use crate::util::{Rng, opt};

#[derive(Clone, Debug)]
pub struct Cfg {
    /// `from`: from_stream, `new`: by the source's parameters, `ar`: from an AsyncRead.
    entry: String,
    /// Whether the source and the storage can be created.
    create: bool,
    stor: bool,
    cl: Option<u64>,
    cod: bool,
    /// The finish hook: `ok`, `slow`: returns when told to, `err`: fails.
    hook: String,
}

impl Cfg {
    pub fn json(&self) -> Value {
        json!({"entry": self.entry, "create": self.create, "stor": self.stor, "cl": opt(self.cl), "cod": self.cod,
            "hook": self.hook})
    }
    pub fn from_json(v: &Value) -> Cfg {
        Cfg {
            entry: v["entry"].as_str().unwrap_or("from").into(),
            create: v["create"] != false,
            stor: v["stor"] != false,
            cl: v["cl"].as_u64(),
            cod: v["cod"] != false,
            hook: v["hook"].as_str().unwrap_or("ok").into(),
        }
    }
}

pub fn gen_cfg(rng: &mut Rng) -> Cfg {
    let entry: String = (*rng.pick(&["from", "new", "ar"])).into();
    Cfg {
        create: entry != "new" || rng.pct(80),
        stor: rng.pct(85),
        cl: rng.pct(50).then_some(1000),
        cod: rng.pct(60),
        hook: if entry == "ar" { "ok" } else { *rng.pick(&["ok", "ok", "slow", "slow", "err"]) }.into(),
        entry,
    }
}

#[derive(Default)]
struct Script {
    queue: Vec<u64>,
    end: bool,
    pos: u64,
    waker: Option<Waker>,
}

#[derive(Default)]
struct Ctx {
    log: Mutex<Vec<String>>,
    script: Mutex<Script>,
    released: AtomicBool,
    release: Notify,
}
impl Ctx {
    fn push(&self, v: Value) {
        self.log.lock().unwrap().push(v.to_string());
    }
    /// The next piece, or the end.
    fn next(&self, waker: &Waker, max: u64) -> Poll<Option<Vec<u8>>> {
        let mut s = self.script.lock().unwrap();
        if s.queue.is_empty() {
            if s.end {
                return Poll::Ready(None);
            }
            s.waker = Some(waker.clone());
            return Poll::Pending;
        }
        let n = s.queue[0].min(max);
        if n == s.queue[0] {
            s.queue.remove(0);
        } else {
            s.queue[0] -= n;
        }
        let from = s.pos;
        s.pos += n;
        Poll::Ready(Some((from..from + n).map(byte).collect()))
    }
}

fn byte(p: u64) -> u8 {
    (p * 7 % 250 + 1) as u8
}

/// Logs when it goes away.
struct Guard(Arc<Ctx>, &'static str);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.push(json!({"e": "gone", "what": self.1}));
    }
}

#[derive(Debug)]
pub struct Failure;
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no source today")
    }
}
impl std::error::Error for Failure {}
impl DecodeError for Failure {
    async fn decode_error(self) -> String {
        "decoded: no source today".into()
    }
}

struct Src {
    ctx: Arc<Ctx>,
    cl: Option<u64>,
    hook: String,
    _guard: Guard,
}
impl Src {
    fn new(ctx: &Arc<Ctx>, cfg: &Cfg) -> Src {
        Src { ctx: ctx.clone(), cl: cfg.cl, hook: cfg.hook.clone(), _guard: Guard(ctx.clone(), "source") }
    }
}
impl Stream for Src {
    type Item = Result<Bytes, Failure>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.ctx.next(cx.waker(), u64::MAX).map(|x| x.map(|d| Ok(d.into())))
    }
}
impl SourceStream for Src {
    type Params = (Arc<Ctx>, Cfg);
    type StreamCreationError = Failure;

    async fn create((ctx, cfg): Self::Params) -> Result<Self, Failure> {
        tokio::task::yield_now().await;
        ctx.push(json!({"e": "create", "ok": cfg.create}));
        if cfg.create { Ok(Src::new(&ctx, &cfg)) } else { Err(Failure) }
    }
    fn content_length(&self) -> Option<u64> {
        self.cl
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        Err(io::ErrorKind::Unsupported.into())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        Err(io::ErrorKind::Unsupported.into())
    }
    fn supports_seek(&self) -> bool {
        false
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        let done = outcome == StreamOutcome::Completed;
        self.ctx.push(json!({"e": "fin", "ok": result.is_ok(), "done": done}));
        match self.hook.as_str() {
            "slow" => {
                if !self.ctx.released.load(Ordering::SeqCst) {
                    self.ctx.release.notified().await;
                }
                result
            }
            "err" => Err(io::Error::other("no end today")),
            _ => result,
        }
    }
}

struct Input {
    ctx: Arc<Ctx>,
    _guard: Guard,
}
impl AsyncRead for Input {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        match self.ctx.next(cx.waker(), buf.remaining() as u64) {
            Poll::Ready(d) => {
                buf.put_slice(&d.unwrap_or_default());
                Poll::Ready(Ok(()))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

struct Prov {
    ctx: Arc<Ctx>,
    ok: bool,
    _guard: Guard,
}
impl StorageProvider for Prov {
    type Reader = MemoryStorage;
    type Writer = MemoryStorage;
    fn into_reader_writer(self, cl: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        self.ctx.push(json!({"e": "prov", "cl": opt(cl), "ok": self.ok}));
        if self.ok { MemoryStorageProvider.into_reader_writer(cl) } else { Err(io::Error::other("no storage today")) }
    }
    fn max_capacity(&self) -> Option<usize> {
        None
    }
}

type Sd = StreamDownload<Prov>;

async fn outcome<S: SourceStream>(
    ctx: &Ctx,
    f: impl Future<Output = Result<Sd, StreamInitializationError<S>>>,
) -> Option<Sd> {
    match f.await {
        Ok(sd) => {
            ctx.push(json!({"e": "new", "ok": true, "kind": "", "text": "", "cl": opt(sd.content_length())}));
            Some(sd)
        }
        Err(e) => {
            let kind = match &e {
                StreamInitializationError::StreamCreationFailure(_) => "stream",
                StreamInitializationError::StorageCreationFailure(_) => "storage",
            };
            let text = e.decode_error().await;
            let text = ["decoded: no source today", "no storage today"]
                .into_iter()
                .find(|t| text.contains(t))
                .unwrap_or("?");
            ctx.push(json!({"e": "new", "ok": false, "kind": kind, "text": text, "cl": -1}));
            None
        }
    }
}

pub struct Run {
    ctx: Arc<Ctx>,
    cfg: Cfg,
    rt: tokio::runtime::Runtime,
    sd: Option<Sd>,
    handle: Option<StreamHandle>,
    token: Option<CancellationToken>,
    waits: Vec<Arc<AtomicBool>>,
    read: u64,
    pub decs: Vec<String>,
}

impl Run {
    pub fn start(cfg: &Cfg, sid: u64, header: &str) -> Run {
        let ctx = Arc::new(Ctx::default());
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(header);
        ctx.push(reset);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let prov = Prov { ctx: ctx.clone(), ok: cfg.stor, _guard: Guard(ctx.clone(), "provider") };
        let sd = rt.block_on(async {
            match cfg.entry.as_str() {
                "new" => {
                    let s = Settings::<Src>::default().prefetch_bytes(0).cancel_on_drop(cfg.cod);
                    outcome(&ctx, Sd::new((ctx.clone(), cfg.clone()), prov, s)).await
                }
                "ar" => {
                    let s = Settings::<AsyncReadStream<Input>>::default().prefetch_bytes(0).cancel_on_drop(cfg.cod);
                    let input = Input { ctx: ctx.clone(), _guard: Guard(ctx.clone(), "source") };
                    let p = AsyncReadStreamParams::new(input).content_length(cfg.cl);
                    outcome(&ctx, Sd::new_async_read(p, prov, s)).await
                }
                _ => {
                    let s = Settings::<Src>::default().prefetch_bytes(0).cancel_on_drop(cfg.cod);
                    outcome(&ctx, Sd::from_stream(Src::new(&ctx, cfg), prov, s)).await
                }
            }
        });
        let handle = sd.as_ref().map(Sd::handle);
        let token = sd.as_ref().map(Sd::cancellation_token);
        let mut run =
            Run { ctx, cfg: cfg.clone(), rt, sd, handle, token, waits: vec![], read: 0, decs: vec![] };
        run.settle();
        run
    }

    /// Everything happens that can happen.
    fn settle(&mut self) {
        self.rt.block_on(async {
            for _ in 0..40 {
                tokio::task::yield_now().await;
            }
        });
        let waits: Vec<bool> = self.waits.iter().map(|w| w.load(Ordering::SeqCst)).collect();
        self.ctx.push(json!({"e": "st", "waits": waits}));
    }

    pub fn apply(&mut self, dec: &str) {
        self.decs.push(dec.into());
        let p: Vec<&str> = dec.split(' ').collect();
        let n = p.get(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
        match p[0] {
            "d" | "e" => {
                let mut s = self.ctx.script.lock().unwrap();
                if s.end {
                    return;
                }
                if p[0] == "d" {
                    s.queue.push(n.max(1));
                } else {
                    s.end = true;
                }
                self.ctx.push(json!({"e": "give", "n": if p[0] == "d" { n.max(1) } else { 0 }}));
                if let Some(w) = s.waker.take() {
                    w.wake();
                }
            }
            "w" => {
                // a handle taken now, or an old one
                let Some(h) = self.sd.as_ref().map(Sd::handle).or(self.handle.clone()) else { return };
                let flag = Arc::new(AtomicBool::new(false));
                self.waits.push(flag.clone());
                self.ctx.push(json!({"e": "wait"}));
                self.rt.spawn(async move {
                    h.wait_for_completion().await;
                    flag.store(true, Ordering::SeqCst);
                });
            }
            "c" => {
                let Some(sd) = &self.sd else { return };
                self.ctx.push(json!({"e": "cancel"}));
                sd.cancel_download();
            }
            "t" => {
                let Some(t) = &self.token else { return };
                self.ctx.push(json!({"e": "cancel"}));
                t.cancel();
            }
            "f" => {
                if self.cfg.hook != "slow" || self.ctx.released.swap(true, Ordering::SeqCst) {
                    return;
                }
                self.ctx.push(json!({"e": "rel"}));
                self.ctx.release.notify_one();
            }
            "drop" => {
                let Some(sd) = self.sd.take() else { return };
                self.ctx.push(json!({"e": "drop"}));
                drop(sd);
            }
            "r" => {
                let Some(mut sd) = self.sd.take() else { return };
                let have = self.ctx.script.lock().unwrap().pos;
                // never waits
                let n = n.min(have.saturating_sub(self.read)) as usize;
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::spawn(move || {
                    let mut buf = vec![0u8; n];
                    let res = sd.read(&mut buf);
                    let _ = tx.send((sd, res, buf));
                });
                match rx.recv_timeout(Duration::from_secs(20)) {
                    Ok((sd, res, buf)) => {
                        self.sd = Some(sd);
                        let k = *res.as_ref().unwrap_or(&0);
                        let good = buf[..k.min(n)].iter().enumerate().all(|(i, b)| *b == byte(self.read + i as u64));
                        self.read += k as u64;
                        self.ctx.push(json!({"e": "rd", "n": n, "ok": res.is_ok(), "k": k, "good": good}));
                    }
                    Err(_) => self.ctx.push(json!({"e": "hung"})),
                }
            }
            _ => return,
        }
        self.settle();
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        if self.sd.is_none() {
            return;
        }
        for _ in 0..rng.range(1, 14) {
            let d = match rng.below(22) {
                0..=5 => format!("d {}", rng.range(1, 5)),
                6..=9 => format!("r {}", rng.range(1, 6)),
                10..=14 => "w".into(),
                15 => "e".into(),
                16 => "c".into(),
                17 => "t".into(),
                18 | 19 => "f".into(),
                _ => "drop".into(),
            };
            self.apply(&d);
        }
    }

    pub fn finish(self) -> (Vec<String>, Vec<String>) {
        let Run { ctx, rt, sd, decs, .. } = self;
        let lines = ctx.log.lock().unwrap().clone();
        drop(sd);
        rt.shutdown_background();
        (lines, decs)
    }

    pub fn cfg(&self) -> Value {
        self.cfg.json()
    }
}
