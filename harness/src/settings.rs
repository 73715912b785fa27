//! What a stream does under the settings that a series of setter calls made.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{self, Receiver};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

use bytes::Bytes;
use futures_util::Stream;
use serde_json::{Value, json};
use stream_download::source::{DecodeError, SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::memory::{MemoryStorage, MemoryStorageProvider};
use stream_download::{Settings, StreamDownload};

use crate::util::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Created from a stream or from the stream's parameters.
    new: bool,
}

impl Cfg {
    pub fn json(&self) -> Value {
        json!({"new": self.new})
    }
    pub fn from_json(v: &Value) -> Cfg {
        Cfg { new: v["new"] == true }
    }
}

pub fn gen_cfg(rng: &mut Rng) -> Cfg {
    Cfg { new: rng.pct(50) }
}

#[derive(Default)]
struct Ctx {
    log: Mutex<Vec<String>>,
    queue: Mutex<(Option<u64>, bool, Option<Waker>)>,
    given: AtomicU64,
    stored: AtomicU64,
    largest: AtomicU64,
    seeks: AtomicU64,
    prog: [AtomicU64; 2],
    rec: [AtomicU64; 2],
    gone: AtomicBool,
    outcome: Mutex<&'static str>,
}
impl Ctx {
    fn push(&self, v: Value) {
        self.log.lock().unwrap().push(v.to_string());
    }
    fn wake(&self, give: Option<u64>, end: bool) {
        let mut q = self.queue.lock().unwrap();
        q.0 = give.or(q.0);
        q.1 |= end;
        if let Some(w) = q.2.take() {
            w.wake();
        }
    }
}

#[derive(Debug)]
pub struct Failure;
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no source")
    }
}
impl std::error::Error for Failure {}
impl DecodeError for Failure {}

struct Src(Arc<Ctx>);
impl Drop for Src {
    fn drop(&mut self) {
        self.0.gone.store(true, Ordering::SeqCst);
    }
}
impl Stream for Src {
    type Item = Result<Bytes, Failure>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut q = self.0.queue.lock().unwrap();
        if let Some(n) = q.0.take() {
            return Poll::Ready(Some(Ok(vec![7; n as usize].into())));
        }
        if q.1 {
            return Poll::Ready(None);
        }
        q.2 = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl SourceStream for Src {
    type Params = Arc<Ctx>;
    type StreamCreationError = Failure;

    async fn create(ctx: Self::Params) -> Result<Self, Failure> {
        Ok(Src(ctx))
    }
    fn content_length(&self) -> Option<u64> {
        None
    }
    async fn seek_range(&mut self, _: u64, _: Option<u64>) -> io::Result<()> {
        self.0.seeks.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    async fn reconnect(&mut self, _: u64) -> io::Result<()> {
        self.0.seeks.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        true
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        *self.0.outcome.lock().unwrap() = if outcome == StreamOutcome::Completed { "completed" } else { "cancelled" };
        result
    }
}

struct Prov(Arc<Ctx>);
struct Writer(Arc<Ctx>, MemoryStorage);
impl Write for Writer {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.1.write(buf)?;
        self.0.largest.fetch_max(buf.len() as u64, Ordering::SeqCst);
        self.0.stored.fetch_add(n as u64, Ordering::SeqCst);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.1.flush()
    }
}
impl Seek for Writer {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.1.seek(pos)
    }
}
impl StorageProvider for Prov {
    type Reader = MemoryStorage;
    type Writer = Writer;
    fn into_reader_writer(self, cl: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        let (r, w) = MemoryStorageProvider.into_reader_writer(cl)?;
        Ok((r, Writer(self.0, w)))
    }
    fn max_capacity(&self) -> Option<usize> {
        None
    }
}

static STUCK: AtomicU64 = AtomicU64::new(0);

type Sd = StreamDownload<Prov>;

async fn turns(n: u32) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// Waits for it; only as long as it takes if it is expected, else to see that it does not happen.
async fn seen(expected: bool, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    let most = if expected { Duration::from_secs(10) } else { Duration::from_micros(400) };
    while t.elapsed() < most {
        if f() {
            return true;
        }
        turns(4).await;
        if expected && t.elapsed() > Duration::from_millis(5) {
            std::thread::sleep(Duration::from_micros(50));
        }
    }
    turns(40).await;
    f()
}

/// How long to wait for what; the specification decides what should have happened.
#[derive(Clone)]
struct Hint {
    pf: u64,
    bs: u64,
    rt: u64,
    cod: bool,
}

pub struct Run {
    ctx: Arc<Ctx>,
    cfg: Cfg,
    settings: Option<Settings<Src>>,
    hint: Hint,
    pub decs: Vec<String>,
}

impl Run {
    pub fn start(cfg: &Cfg, sid: u64, header: &str) -> Run {
        let ctx = Arc::new(Ctx::default());
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(header);
        ctx.push(reset);
        let hint = Hint { pf: 262_144, bs: 4096, rt: 5000, cod: true };
        let mut run = Run { ctx, cfg: cfg.clone(), settings: Some(Settings::default()), hint, decs: vec![] };
        run.got("", 0);
        run
    }

    /// A setter was called; what the getters say.
    fn got(&mut self, k: &str, v: u64) {
        let s = self.settings.as_ref().expect("settings");
        let (pf, bs) = (s.get_prefetch_bytes(), s.get_write_batch_size());
        self.ctx.push(json!({"e": "set", "k": k, "v": v, "pf": pf, "bs": bs}));
    }

    pub fn apply(&mut self, dec: &str) {
        let p: Vec<&str> = dec.split(' ').collect();
        let v = p.get(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(1);
        if p[0] == "run" {
            self.decs.push(dec.into());
            self.probe();
            return;
        }
        let Some(s) = self.settings.take() else { return };
        let (s, v) = match p[0] {
            "pf" => {
                self.hint.pf = v.min(1 << 20);
                (s.prefetch_bytes(self.hint.pf), self.hint.pf)
            }
            "bs" => {
                self.hint.bs = v.max(1);
                (s.batch_write_size(NonZeroUsize::new(v.max(1) as usize).unwrap()), v.max(1))
            }
            "rt" => {
                self.hint.rt = v.max(2);
                (s.retry_timeout(Duration::from_millis(v.max(2))), v.max(2))
            }
            "cod" => {
                self.hint.cod = v == 1;
                (s.cancel_on_drop(v == 1), v.min(1))
            }
            "prog" | "rec" => {
                let i = usize::from(v > 1);
                let c = self.ctx.clone();
                let s = if p[0] == "prog" {
                    s.on_progress(move |_, _, _| {
                        c.prog[i].fetch_add(1, Ordering::SeqCst);
                    })
                } else {
                    s.on_reconnect(move |_, _| {
                        c.rec[i].fetch_add(1, Ordering::SeqCst);
                    })
                };
                (s, i as u64 + 1)
            }
            _ => (s, 0),
        };
        self.decs.push(dec.into());
        self.settings = Some(s);
        self.got(p[0], v);
    }

    /// A stream with these settings: prefetch, batches, stall, drop.
    fn probe(&mut self) {
        let Some(s) = self.settings.take() else { return };
        if STUCK.load(Ordering::SeqCst) > 1 {
            // that is known by now
            return;
        }
        let (ctx, hint, new) = (self.ctx.clone(), self.hint.clone(), self.cfg.new);
        let (done, wait) = mpsc::channel();
        std::thread::spawn(move || {
            probe(&ctx, hint, new, s);
            let _ = done.send(());
        });
        if wait.recv_timeout(Duration::from_secs(30)).is_err() {
            STUCK.fetch_add(1, Ordering::SeqCst);
            self.ctx.push(json!({"e": "failed"}));
        }
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        for _ in 0..rng.below(9) {
            let d = match rng.below(6) {
                0 => format!("pf {}", [0, 1, 2, 4095, 4096, 70_000, rng.below(300_000)][rng.below(7) as usize]),
                1 => format!("bs {}", [1, 2, 4095, 4097, 20_000, 1 + rng.below(9000)][rng.below(6) as usize].max(16)),
                2 => format!("rt {}", [2, 3, 100, 60_000, 4_000_000, 2 + rng.below(9000)][rng.below(6) as usize]),
                3 => format!("cod {}", rng.below(2)),
                4 => format!("prog {}", 1 + rng.below(2)),
                _ => format!("rec {}", 1 + rng.below(2)),
            };
            self.apply(&d);
        }
        self.apply("run");
    }

    pub fn finish(self) -> (Vec<String>, Vec<String>) {
        let lines = self.ctx.log.lock().unwrap().clone();
        (lines, self.decs)
    }

    pub fn cfg(&self) -> Value {
        self.cfg.json()
    }
}

/// A stream with these settings: prefetch, batches, stall, drop.
fn probe(ctx: &Arc<Ctx>, hint: Hint, new: bool, s: Settings<Src>) {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let ctx = ctx.clone();
    rt.block_on(async move {
        let prov = Prov(ctx.clone());
        let made = if new {
            Sd::new(ctx.clone(), prov, s).await.ok()
        } else {
            Sd::from_stream(Src(ctx.clone()), prov, s).await.ok()
        };
        let Some(sd) = made else {
            ctx.push(json!({"e": "failed"}));
            return;
        };
        let token = sd.cancellation_token();
        let (tx, reads): (_, Receiver<(Sd, bool)>) = mpsc::channel();
        std::thread::spawn(move || {
            let mut sd = sd;
            let mut buf = [0u8];
            let r = sd.read(&mut buf);
            let _ = tx.send((sd, matches!(r, Ok(1)) && buf[0] == 7));
        });
        let mut back = None;
        let need = hint.pf.max(1);
        let offers = [need - 1, 1, 2 * hint.bs + 1];
        for n in offers.into_iter().filter(|n| *n > 0) {
            ctx.largest.store(0, Ordering::SeqCst);
            let given = ctx.given.fetch_add(n, Ordering::SeqCst) + n;
            ctx.wake(Some(n), false);
            let stored = seen(true, || ctx.stored.load(Ordering::SeqCst) >= given).await;
            turns(200).await;
            if back.is_none() {
                seen(given >= need, || {
                    back = reads.try_recv().ok();
                    back.is_some()
                })
                .await;
            }
            ctx.push(json!({"e": "offer", "n": n, "ok": stored, "got": back.is_some(),
                "good": back.as_ref().is_none_or(|b| b.1),
                "max": ctx.largest.load(Ordering::SeqCst),
                "prog": ctx.prog.each_ref().map(|c| c.swap(0, Ordering::SeqCst))}));
        }
        let mut passed = 0;
        for ms in [hint.rt - 1, hint.rt + 1] {
            tokio::time::advance(Duration::from_millis(ms - passed)).await;
            passed = ms;
            let late = ms > hint.rt;
            seen(late, || late && ctx.seeks.load(Ordering::SeqCst) > 0).await;
            turns(200).await;
            ctx.push(json!({"e": "stall", "ms": ms, "seeks": ctx.seeks.load(Ordering::SeqCst),
                "rec": ctx.rec.each_ref().map(|c| c.load(Ordering::SeqCst))}));
        }
        let Some((sd, _)) = back else {
            token.cancel();
            turns(100).await;
            return;
        };
        drop(sd);
        seen(hint.cod, || hint.cod && ctx.gone.load(Ordering::SeqCst)).await;
        ctx.push(json!({"e": "drop", "gone": ctx.gone.load(Ordering::SeqCst)}));
        ctx.wake(None, true);
        seen(true, || ctx.gone.load(Ordering::SeqCst)).await;
        let out = *ctx.outcome.lock().unwrap();
        ctx.push(json!({"e": "over", "gone": ctx.gone.load(Ordering::SeqCst), "out": out}));
    });
    rt.shutdown_background();
}
