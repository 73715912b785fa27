//! Drives the real `StreamDownload` under a controlled schedule and records everything observable.
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use bytes::Bytes;
use futures_util::Stream;
use serde_json::{Value, json};
use stream_download::source::{SourceStream, StreamOutcome};
use stream_download::storage::StorageProvider;
use stream_download::storage::adaptive::AdaptiveStorageProvider;
use stream_download::storage::bounded::BoundedStorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::storage::temp::TempStorageProvider;
use stream_download::{Settings, StreamDownload, StreamPhase};
use tokio::sync::Notify;
use tokio::sync::mpsc as tmpsc;
use tokio_util::sync::CancellationToken;

use crate::sched::{self, D, R, Sched, W, gate};
use crate::util::{Rng, content, opt};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub len: u64,
    pub cl: Option<u64>,
    pub sk: bool,
    pub pf: u64,
    pub bs: usize,
    pub rt: u64,
    pub kind: String,
    pub cap: usize,
    pub cod: bool,
    pub accept: usize,
    /// The write, the flush and the seek of the storage that fail.
    pub wfail: i64,
    pub ffail: i64,
    pub zfail: i64,
    /// What is written only reaches the storage when it is flushed.
    pub hold: bool,
    /// The storage starts with as many bytes as will be written, none of them right.
    pub fill: bool,
    pub fin: String,
    pub cbc: i64,
    pub cbp: i64,
    /// Seeds the choices tokio::select! makes.
    pub rs: u64,
    /// The unit of all sizes and positions, in bytes. Everything the library does with multiples
    /// of a unit results in multiples of it, so traces of large streams are as short as those of small ones.
    pub u: u64,
}

impl Cfg {
    /// Capacity as documented for the storage kind, -1 when there's none.
    pub fn capacity(&self) -> i64 {
        match self.kind.as_str() {
            "bmem" | "btemp" => self.cap as i64,
            "adapt" | "adaptmt" if self.cl.is_none() => self.cap as i64,
            _ => -1,
        }
    }
    pub fn limited(&self) -> bool {
        let cap = self.capacity();
        cap >= 0 && self.cl.is_none_or(|cl| cl as i64 > cap)
    }
    pub fn json(&self) -> Value {
        json!({"len": self.len, "cl": opt(self.cl), "sk": self.sk, "pf": self.pf, "bs": self.bs,
            "rt": self.rt, "kind": self.kind, "cap": self.capacity(), "lim": self.limited(),
            "bufcap": self.cap, "cod": self.cod, "accept": self.accept, "wfail": self.wfail,
            "ffail": self.ffail, "zfail": self.zfail, "hold": self.hold, "fill": self.fill,
            "fin": self.fin, "cbc": self.cbc, "cbp": self.cbp, "rs": self.rs, "u": self.u})
    }
    pub fn from_json(v: &Value) -> Cfg {
        let i = |k: &str| v[k].as_i64().unwrap_or(-1);
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        Cfg {
            len: i("len") as u64,
            cl: u64::try_from(i("cl")).ok(),
            sk: v["sk"].as_bool().unwrap_or(true),
            pf: i("pf") as u64,
            bs: i("bs").max(1) as usize,
            rt: i("rt") as u64,
            kind: s("kind"),
            cap: i("bufcap").max(1) as usize,
            cod: v["cod"].as_bool().unwrap_or(true),
            accept: i("accept").max(0) as usize,
            wfail: i("wfail"),
            ffail: v["ffail"].as_i64().unwrap_or(-1),
            zfail: v["zfail"].as_i64().unwrap_or(-1),
            hold: v["hold"] == true,
            fill: v["fill"] == true,
            fin: s("fin"),
            cbc: i("cbc"),
            cbp: i("cbp"),
            rs: i("rs").max(0) as u64,
            u: i("u").max(1) as u64,
        }
    }
    /// The sizes in bytes.
    fn scaled(&self) -> Cfg {
        let u = self.u as usize;
        Cfg {
            len: self.len * self.u,
            cl: self.cl.map(|n| n * self.u),
            pf: self.pf * self.u,
            bs: self.bs * u,
            cap: self.cap * u,
            accept: self.accept * u,
            ..self.clone()
        }
    }
    /// A number of bytes in units, or a value that is wrong everywhere.
    fn units(&self, n: u64) -> i64 {
        if n % self.u == 0 { (n / self.u) as i64 } else { -7777 }
    }
    fn bytes(&self, from: u64, to: u64) -> Vec<u8> {
        (from..to).flat_map(|i| (0..self.u).map(move |k| content(i).wrapping_add(k as u8))).collect()
    }
    /// One value per unit, 0 for one that isn't intact.
    fn values(&self, data: &[u8]) -> Vec<u8> {
        data.chunks(self.u as usize)
            .map(|b| {
                let whole = b.len() as u64 == self.u && b.iter().enumerate().all(|(i, x)| *x == b[0].wrapping_add(i as u8));
                if whole { b[0] } else { 0 }
            })
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Chunk(u64),
    Empty,
    Err,
    End,
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Read(usize),
    Seek(char, i64),
    Drop,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    D,
    R,
    Op(Op),
    Item(Item),
    /// How the next source call (range request, reconnect) ends.
    Plan(&'static str),
    Res(bool),
    Adv(u64),
    Cancel,
    Down,
    Quiet,
}

impl Dec {
    pub fn enc(&self) -> String {
        match self {
            Dec::D => "D".into(),
            Dec::R => "R".into(),
            Dec::Op(Op::Read(n)) => format!("read {n}"),
            Dec::Op(Op::Seek(w, o)) => format!("seek {w} {o}"),
            Dec::Op(Op::Drop) => "drop".into(),
            Dec::Item(Item::Chunk(n)) => format!("chunk {n}"),
            Dec::Item(Item::Empty) => "empty".into(),
            Dec::Item(Item::Err) => "err".into(),
            Dec::Item(Item::End) => "end".into(),
            Dec::Item(Item::Panic) => "panic".into(),
            Dec::Plan(p) => format!("plan {p}"),
            Dec::Res(ok) => format!("res {}", u8::from(*ok)),
            Dec::Adv(ms) => format!("adv {ms}"),
            Dec::Cancel => "cancel".into(),
            Dec::Down => "down".into(),
            Dec::Quiet => "quiet".into(),
        }
    }
    pub fn dec(s: &str) -> Option<Dec> {
        let p: Vec<&str> = s.split(' ').collect();
        let n = |i: usize| p.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
        Some(match p[0] {
            "D" => Dec::D,
            "R" => Dec::R,
            "read" => Dec::Op(Op::Read(n(1) as usize)),
            "seek" => Dec::Op(Op::Seek(p.get(1)?.chars().next()?, n(2))),
            "drop" => Dec::Op(Op::Drop),
            "chunk" => Dec::Item(Item::Chunk(n(1) as u64)),
            "empty" => Dec::Item(Item::Empty),
            "err" => Dec::Item(Item::Err),
            "end" => Dec::Item(Item::End),
            "panic" => Dec::Item(Item::Panic),
            "plan" => Dec::Plan(match *p.get(1)? {
                "err" => "err",
                "hang" => "hang",
                _ => "ok",
            }),
            "res" => Dec::Res(n(1) == 1),
            "adv" => Dec::Adv(n(1) as u64),
            "cancel" => Dec::Cancel,
            "down" => Dec::Down,
            "quiet" => Dec::Quiet,
            _ => return None,
        })
    }
}

#[derive(Default)]
pub struct Src {
    pos: u64,
    end: u64,
    ended: bool,
    queue: VecDeque<Item>,
    waker: Option<Waker>,
    pend_logged: bool,
    plans: VecDeque<&'static str>,
    hang: Option<Option<bool>>,
    hang_waker: Option<Waker>,
}

#[derive(Default)]
pub struct Ctx {
    pub sched: Sched,
    pub log: Mutex<Vec<String>>,
    pub src: Mutex<Src>,
    pub pong: AtomicU64,
    pub r_busy: AtomicBool,
    pub r_gone: AtomicBool,
    pub writes: AtomicI64,
    pub flushes: AtomicI64,
    pub wseeks: AtomicI64,
    pub errors: AtomicI64,
    pub progs: AtomicI64,
    pub tick: Notify,
}

impl Ctx {
    pub fn log(&self, v: Value) {
        self.log.lock().unwrap().push(v.to_string());
    }
    /// What kind of error it is must not matter.
    fn error(&self, what: &str) -> io::Error {
        use io::ErrorKind::*;
        let kinds = [Other, Unsupported, TimedOut, Interrupted, UnexpectedEof, WouldBlock, InvalidInput, NotFound, WriteZero];
        let k = self.errors.fetch_add(1, Ordering::SeqCst) as usize;
        io::Error::new(kinds[(k + what.len()) % kinds.len()], what)
    }
}

#[derive(Debug)]
pub struct SrcErr;
impl fmt::Display for SrcErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "chunk error")
    }
}

pub struct ScriptSource {
    ctx: Arc<Ctx>,
    cfg: Cfg,
}

struct Hang(Arc<Ctx>);
impl Future for Hang {
    type Output = bool;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        let mut s = self.0.src.lock().unwrap();
        match s.hang {
            Some(Some(ok)) => {
                s.hang = None;
                s.hang_waker = None;
                Poll::Ready(ok)
            }
            _ => {
                s.hang = Some(None);
                s.hang_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for Hang {
    fn drop(&mut self) {
        let mut s = self.0.src.lock().unwrap();
        s.hang = None;
        s.hang_waker = None;
    }
}

/// Logs how a source call ended, including when its future is dropped.
struct CallGuard<'a> {
    ctx: &'a Ctx,
    name: &'static str,
    done: bool,
}
impl CallGuard<'_> {
    fn end(&mut self, ok: bool) {
        self.done = true;
        self.ctx.log(json!({"e": self.name, "ok": ok, "to": false}));
    }
}
impl Drop for CallGuard<'_> {
    fn drop(&mut self) {
        if !self.done {
            self.ctx.log(json!({"e": self.name, "ok": false, "to": true}));
        }
    }
}

impl ScriptSource {
    async fn outcome(&self) -> bool {
        let plan = {
            let mut s = self.ctx.src.lock().unwrap();
            s.waker = None;
            s.plans.pop_front().unwrap_or("ok")
        };
        match plan {
            "err" => false,
            "hang" => Hang(self.ctx.clone()).await,
            _ => true,
        }
    }
    fn reposition(&self, start: u64, end: u64) {
        let mut s = self.ctx.src.lock().unwrap();
        s.pos = start;
        s.end = end.min(self.cfg.len);
        s.ended = false;
        s.pend_logged = false;
        // items scripted for the previous response are lost, except faults
        s.queue.retain(|i| matches!(i, Item::Err | Item::Empty));
    }
}

impl Stream for ScriptSource {
    type Item = Result<Bytes, SrcErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        gate("src.poll");
        let mut s = self.ctx.src.lock().unwrap();
        s.waker = None;
        let item = if s.ended { Some(Item::End) } else { s.queue.pop_front() };
        let Some(item) = item else {
            s.waker = Some(cx.waker().clone());
            if !s.pend_logged {
                s.pend_logged = true;
                self.ctx.log(json!({"e": "pend"}));
            }
            return Poll::Pending;
        };
        s.pend_logged = false;
        match item {
            Item::Chunk(n) if s.pos < s.end => {
                let n = n.min(s.end - s.pos);
                let from = s.pos;
                s.pos += n;
                self.ctx.log(json!({"e": "chunk", "p": from, "n": n}));
                Poll::Ready(Some(Ok(self.cfg.bytes(from, from + n).into())))
            }
            Item::Empty => {
                self.ctx.log(json!({"e": "chunk", "p": s.pos, "n": 0}));
                Poll::Ready(Some(Ok(Bytes::new())))
            }
            Item::Err => {
                self.ctx.log(json!({"e": "serr"}));
                Poll::Ready(Some(Err(SrcErr)))
            }
            Item::Panic => {
                self.ctx.log(json!({"e": "panic", "by": "source"}));
                drop(s);
                panic!("scripted source panic");
            }
            Item::End | Item::Chunk(_) => {
                s.ended = true;
                self.ctx.log(json!({"e": "send", "p": s.pos}));
                Poll::Ready(None)
            }
        }
    }
}

impl SourceStream for ScriptSource {
    type Params = ();
    type StreamCreationError = std::convert::Infallible;

    async fn create(_: ()) -> Result<Self, std::convert::Infallible> {
        unreachable!()
    }
    fn content_length(&self) -> Option<u64> {
        self.cfg.scaled().cl
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        gate("src.seek");
        let u = self.cfg.u;
        self.ctx.log(json!({"e": "sk", "s": self.cfg.units(start), "en": end.map_or(-1, |e| self.cfg.units(e))}));
        let (start, end) = (start / u, end.map(|e| e / u));
        self.ctx.src.lock().unwrap().pend_logged = false;
        let mut g = CallGuard { ctx: &self.ctx, name: "skr", done: false };
        if self.outcome().await {
            self.reposition(start, end.unwrap_or(u64::MAX));
            g.end(true);
            Ok(())
        } else {
            g.end(false);
            Err(self.ctx.error("range request failed"))
        }
    }
    async fn reconnect(&mut self, current_position: u64) -> io::Result<()> {
        gate("src.reconnect");
        self.ctx.log(json!({"e": "rcn", "p": self.cfg.units(current_position)}));
        let current_position = current_position / self.cfg.u;
        self.ctx.src.lock().unwrap().pend_logged = false;
        let mut g = CallGuard { ctx: &self.ctx, name: "rcr", done: false };
        if !self.cfg.sk {
            g.end(false);
            return Err(io::Error::new(io::ErrorKind::Unsupported, "unsupported"));
        }
        if self.outcome().await {
            self.reposition(current_position, u64::MAX);
            g.end(true);
            Ok(())
        } else {
            g.end(false);
            Err(self.ctx.error("reconnect failed"))
        }
    }
    fn supports_seek(&self) -> bool {
        self.cfg.sk
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        gate("src.finish");
        self.ctx.src.lock().unwrap().waker = None;
        let out = match outcome {
            StreamOutcome::Completed => "completed",
            StreamOutcome::CancelledByUser => "cancelled",
        };
        self.ctx.log(json!({"e": "fin", "ok": result.is_ok(), "out": out}));
        // the hook may take time
        tokio::task::yield_now().await;
        gate("src.finished");
        let res = match self.cfg.fin.as_str() {
            "err" => Err(self.ctx.error("finish failed")),
            _ => result,
        };
        self.ctx.log(json!({"e": "finr", "ok": res.is_ok()}));
        res
    }
}

type DynReader = Box<dyn ReadSeek>;
type DynWriter = Box<dyn WriteSeek>;
pub trait ReadSeek: Read + Seek + Send {}
impl<T: Read + Seek + Send> ReadSeek for T {}
pub trait WriteSeek: Write + Seek + Send {}
impl<T: Write + Seek + Send> WriteSeek for T {}

pub struct RecProvider {
    ctx: Arc<Ctx>,
    cfg: Cfg,
}

fn split<P: StorageProvider>(p: P, cl: Option<u64>) -> io::Result<(DynReader, DynWriter)>
where
    P::Reader: 'static,
{
    let (r, w) = p.into_reader_writer(cl)?;
    Ok((Box::new(r), Box::new(w)))
}

fn bounded<P: StorageProvider>(p: P, cap: usize) -> BoundedStorageProvider<P> {
    BoundedStorageProvider::new(p, NonZeroUsize::new(cap.max(1)).unwrap())
}

fn adaptive_mt(cap: usize) -> AdaptiveStorageProvider<MemoryStorageProvider, TempStorageProvider> {
    AdaptiveStorageProvider::with_fixed_and_variable(
        MemoryStorageProvider,
        TempStorageProvider::new(),
        NonZeroUsize::new(cap.max(1)).unwrap(),
    )
}

impl StorageProvider for RecProvider {
    type Reader = RecReader;
    type Writer = RecWriter;

    fn into_reader_writer(self, cl: Option<u64>) -> io::Result<(RecReader, RecWriter)> {
        let cap = self.cfg.scaled().cap;
        let (r, mut w) = match self.cfg.kind.as_str() {
            "temp" => split(TempStorageProvider::new(), cl)?,
            "bmem" => split(bounded(MemoryStorageProvider, cap), cl)?,
            "btemp" => split(bounded(TempStorageProvider::new(), cap), cl)?,
            "adapt" => split(
                AdaptiveStorageProvider::new(
                    MemoryStorageProvider,
                    NonZeroUsize::new(cap.max(1)).unwrap(),
                ),
                cl,
            )?,
            "adaptmt" => split(adaptive_mt(cap), cl)?,
            _ => split(MemoryStorageProvider, cl)?,
        };
        if self.cfg.fill {
            w.write_all(&vec![0; self.cfg.scaled().len as usize])?;
            w.seek(SeekFrom::Start(0))?;
        }
        Ok((
            RecReader { inner: r },
            RecWriter { inner: w, ctx: self.ctx, cfg: self.cfg, pos: 0, held: vec![] },
        ))
    }
    fn max_capacity(&self) -> Option<usize> {
        let cap = self.cfg.scaled().cap;
        match self.cfg.kind.as_str() {
            "bmem" => bounded(MemoryStorageProvider, cap).max_capacity(),
            "btemp" => bounded(TempStorageProvider::new(), cap).max_capacity(),
            "adapt" => AdaptiveStorageProvider::new(
                MemoryStorageProvider,
                NonZeroUsize::new(cap.max(1)).unwrap(),
            )
            .max_capacity(),
            "adaptmt" => adaptive_mt(cap).max_capacity(),
            _ => None,
        }
    }
    fn max_capacity_for_length(&self, cl: Option<u64>) -> Option<usize> {
        let cap = self.cfg.scaled().cap;
        match self.cfg.kind.as_str() {
            "bmem" => bounded(MemoryStorageProvider, cap).max_capacity_for_length(cl),
            "btemp" => bounded(TempStorageProvider::new(), cap).max_capacity_for_length(cl),
            "adapt" => AdaptiveStorageProvider::new(
                MemoryStorageProvider,
                NonZeroUsize::new(cap.max(1)).unwrap(),
            )
            .max_capacity_for_length(cl),
            "adaptmt" => adaptive_mt(cap).max_capacity_for_length(cl),
            _ => None,
        }
    }
}

pub struct RecReader {
    inner: DynReader,
}
impl Read for RecReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        gate("st.read");
        self.inner.read(buf)
    }
}
impl Seek for RecReader {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        if !matches!(pos, SeekFrom::Current(0)) {
            gate("st.rseek");
        }
        self.inner.seek(pos)
    }
}

pub struct RecWriter {
    inner: DynWriter,
    ctx: Arc<Ctx>,
    cfg: Cfg,
    pos: u64,
    held: Vec<u8>,
}
impl Write for RecWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return self.inner.write(buf);
        }
        gate("st.write");
        let k = self.ctx.writes.fetch_add(1, Ordering::SeqCst);
        if k == self.cfg.wfail {
            self.ctx.log(json!({"e": "w", "p": self.cfg.units(self.pos), "n": self.cfg.units(buf.len() as u64),
                "r": 0, "d": [], "ok": false}));
            return Err(io::ErrorKind::StorageFull.into());
        }
        let lim = if self.cfg.accept > 0 { buf.len().min(self.cfg.scaled().accept) } else { buf.len() };
        let r = if self.cfg.hold {
            self.held.extend_from_slice(&buf[..lim]);
            lim
        } else {
            self.inner.write(&buf[..lim])?
        };
        self.ctx.log(json!({"e": "w", "p": self.cfg.units(self.pos), "n": self.cfg.units(buf.len() as u64),
            "r": self.cfg.units(r as u64), "d": self.cfg.values(&buf[..r.min(lim)]), "ok": true}));
        self.pos += r as u64;
        self.ctx.tick.notify_one();
        Ok(r)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.ctx.flushes.fetch_add(1, Ordering::SeqCst) == self.cfg.ffail {
            return Err(self.failed());
        }
        self.release()?;
        self.inner.flush()
    }
}
impl RecWriter {
    fn release(&mut self) -> io::Result<()> {
        self.inner.write_all(&std::mem::take(&mut self.held))
    }
    /// Anything but a write of the storage failed.
    fn failed(&self) -> io::Error {
        self.ctx.log(json!({"e": "w", "p": self.cfg.units(self.pos), "n": 0, "r": 0, "d": [], "ok": false}));
        self.ctx.error("disk failed")
    }
}
impl Seek for RecWriter {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        // asking for the position doesn't fail
        if pos != SeekFrom::Current(0) && self.ctx.wseeks.fetch_add(1, Ordering::SeqCst) == self.cfg.zfail {
            return Err(self.failed());
        }
        if pos == SeekFrom::Current(0) {
            return Ok(self.inner.stream_position()? + self.held.len() as u64);
        }
        self.release()?;
        let p = self.inner.seek(pos)?;
        if p != self.pos {
            self.pos = p;
            self.ctx.log(json!({"e": "ws", "p": self.cfg.units(p)}));
        }
        Ok(p)
    }
}

type Sd = StreamDownload<RecProvider>;

enum DCmd {
    Adv(u64),
    Ping(u64),
    Down,
}

fn settings(ctx: &Arc<Ctx>, cfg: &Cfg) -> Settings<ScriptSource> {
    let (c1, c2) = (ctx.clone(), ctx.clone());
    let (cbc, cbp) = (cfg.cbc, cfg.cbp);
    let unit = cfg.clone();
    let cfg = cfg.scaled();
    Settings::default()
        .prefetch_bytes(cfg.pf)
        .batch_write_size(NonZeroUsize::new(cfg.bs.max(1)).unwrap())
        .retry_timeout(Duration::from_millis(cfg.rt))
        .cancel_on_drop(cfg.cod)
        .on_progress(move |_, st, token: &CancellationToken| {
            gate("cb.progress");
            let (ph, ck, tgt) = match st.phase {
                StreamPhase::Prefetching { target, chunk_size, .. } => {
                    ("pre", unit.units(chunk_size as u64), unit.units(target))
                }
                StreamPhase::Downloading { chunk_size, .. } => ("down", unit.units(chunk_size as u64), -1),
                _ => ("complete", -1, -1),
            };
            c1.log(json!({"e": "prog", "ph": ph, "pos": unit.units(st.current_position),
                "a": unit.units(st.current_chunk.start), "b": unit.units(st.current_chunk.end), "ck": ck, "tgt": tgt}));
            let k = c1.progs.fetch_add(1, Ordering::SeqCst);
            if k == cbp {
                c1.log(json!({"e": "panic", "by": "callback"}));
                panic!("scripted callback panic");
            }
            if k == cbc {
                c1.log(json!({"e": "cancel", "by": "cb"}));
                token.cancel();
            }
        })
        .on_reconnect(move |_, _| {
            gate("cb.reconnect");
            c2.log(json!({"e": "onrec"}));
        })
}

struct ThreadWaker(std::thread::Thread);
impl std::task::Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let waker = Waker::from(Arc::new(ThreadWaker(std::thread::current())));
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    }
}

fn d_thread(ctx: Arc<Ctx>, cfg: Cfg, mut cmds: tmpsc::UnboundedReceiver<DCmd>, out: mpsc::Sender<Sd>) {
    sched::enter(D, &ctx);
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&cfg.rs.to_le_bytes()))
        .build()
        .expect("runtime");
    // A pending blocking task keeps the paused clock from advancing on its own
    let (hold, held) = mpsc::channel::<()>();
    let down = rt.block_on(async {
        tokio::task::spawn_blocking(move || {
            let _ = held.recv();
        });
        let source = ScriptSource { ctx: ctx.clone(), cfg: cfg.clone() };
        let provider = RecProvider { ctx: ctx.clone(), cfg: cfg.clone() };
        let sd = StreamDownload::from_stream(source, provider, settings(&ctx, &cfg))
            .await
            .map_err(|e| e.to_string())
            .expect("create");
        tokio::spawn({
            let ctx = ctx.clone();
            async move {
                loop {
                    ctx.tick.notified().await;
                    ctx.log(json!({"e": "tick"}));
                }
            }
        });
        let _ = out.send(sd);
        drop(out);
        let mut down = false;
        while let Some(cmd) = cmds.recv().await {
            match cmd {
                DCmd::Adv(ms) => {
                    ctx.log(json!({"e": "adv", "ms": ms}));
                    tokio::time::advance(Duration::from_millis(ms)).await;
                }
                DCmd::Ping(k) => {
                    for _ in 0..6 {
                        tokio::task::yield_now().await;
                    }
                    ctx.pong.store(k, Ordering::SeqCst);
                }
                DCmd::Down => {
                    down = true;
                    break;
                }
            }
        }
        down
    });
    if down {
        ctx.log(json!({"e": "down"}));
    }
    drop(hold);
    drop(rt);
    sched::leave(D, &ctx);
}

pub fn kind_name(e: &io::Error) -> &'static str {
    match e.kind() {
        io::ErrorKind::InvalidInput => "InvalidInput",
        io::ErrorKind::Unsupported => "Unsupported",
        io::ErrorKind::Other => "Other",
        _ => "Misc",
    }
}

fn r_thread(ctx: Arc<Ctx>, cfg: Cfg, sd: Sd, ops: mpsc::Receiver<Op>) {
    sched::enter(R, &ctx);
    let mut sd = Some(sd);
    while let Ok(op) = ops.recv() {
        if let Some(s) = sd.as_mut() {
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &op {
                Op::Read(n) => {
                    ctx.log(json!({"e": "rc", "n": n}));
                    let mut buf = vec![0u8; *n * cfg.u as usize];
                    match s.read(&mut buf) {
                        Ok(k) => {
                            let d = cfg.values(&buf[..k.min(buf.len())]);
                            ctx.log(json!({"e": "rr", "ok": true, "k": cfg.units(k as u64), "d": d, "err": ""}));
                        }
                        Err(e) => {
                            ctx.log(json!({"e": "rr", "ok": false, "k": 0, "d": [], "err": kind_name(&e)}));
                        }
                    }
                }
                Op::Seek(w, o) => {
                    // the specification's integers are small
                    let clipped = match (w, *o) {
                        ('s', i64::MIN..=-1) => 1_000_000_000,
                        (_, o) => o.clamp(-1_000_000_000, 1_000_000_000),
                    };
                    ctx.log(json!({"e": "kc", "w": w.to_string(), "o": clipped}));
                    // extreme positions stay as they are
                    let o = &if clipped.abs() < 1_000_000 { *o * cfg.u as i64 } else { *o };
                    let to = match w {
                        // negative values stand for the upper half of u64
                        's' => SeekFrom::Start(*o as u64),
                        'c' => SeekFrom::Current(*o),
                        _ => SeekFrom::End(*o),
                    };
                    match s.seek(to) {
                        Ok(p) => ctx.log(json!({"e": "kr", "ok": true, "p": cfg.units(p), "err": ""})),
                        Err(e) => {
                            ctx.log(json!({"e": "kr", "ok": false, "p": 0, "err": kind_name(&e)}));
                        }
                    }
                }
                Op::Drop => {}
            }));
            if res.is_err() {
                ctx.log(json!({"e": "rpanic"}));
            }
        }
        if op == Op::Drop {
            ctx.log(json!({"e": "drop"}));
            sd = None;
            ctx.r_gone.store(true, Ordering::SeqCst);
        }
        ctx.r_busy.store(false, Ordering::SeqCst);
    }
    sched::leave(R, &ctx);
}

/// What kind of scenarios to produce, weights are percentages.
#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub kinds: &'static [&'static str],
    pub unknown_cl: u64,
    pub unseekable: u64,
    pub prefetch: u64,
    pub seeks: u64,
    pub faults: u64,
    pub stalls: u64,
    pub cancel: u64,
    pub drops: u64,
    pub down: u64,
    pub wfail: u64,
    pub hang: u64,
    pub accept: u64,
    pub finfail: u64,
    pub panics: u64,
    pub early_end: u64,
}

const BASE: Profile = Profile {
    name: "base",
    kinds: &["mem", "mem", "mem", "temp", "bmem", "adapt"],
    unknown_cl: 25,
    unseekable: 10,
    prefetch: 50,
    seeks: 45,
    faults: 8,
    stalls: 10,
    cancel: 0,
    drops: 0,
    down: 0,
    wfail: 0,
    hang: 0,
    accept: 20,
    finfail: 0,
    panics: 0,
    early_end: 5,
};

pub fn profile(name: &str) -> Profile {
    match name {
        "base" => BASE,
        "seek" => Profile { name: "seek", seeks: 65, unseekable: 5, kinds: &["mem", "mem", "temp", "adapt", "bmem"], ..BASE },
        "fault" => Profile {
            name: "fault", faults: 15, wfail: 30, hang: 10, finfail: 20, panics: 20, down: 20, early_end: 10, ..BASE
        },
        "cancel" => Profile {
            name: "cancel", cancel: 60, drops: 40, hang: 25, stalls: 20,
            kinds: &["mem", "bmem", "bmem", "adapt", "temp"], ..BASE
        },
        "stall" => Profile { name: "stall", stalls: 60, hang: 25, faults: 15, early_end: 10, ..BASE },
        "prefetch" => Profile { name: "prefetch", prefetch: 95, stalls: 25, ..BASE },
        "ring" => Profile {
            name: "ring", kinds: &["bmem", "bmem", "btemp", "adapt", "adaptmt"], unknown_cl: 40, seeks: 30, accept: 0, ..BASE
        },
        "unseek" => Profile { name: "unseek", unseekable: 100, stalls: 30, seeks: 40, early_end: 12, ..BASE },
        "batch" => Profile { name: "batch", accept: 50, seeks: 20, ..BASE },
        "drain" => Profile { name: "drain", early_end: 25, seeks: 40, unknown_cl: 5, unseekable: 5, ..BASE },
        _ => BASE,
    }
}

pub fn gen_cfg(p: &Profile, rng: &mut Rng) -> Cfg {
    let len = if rng.pct(3) { 0 } else { rng.range(1, 40) as u64 };
    let kind = rng.pick(p.kinds).to_string();
    let cap = if rng.pct(70) { rng.range(1, 12) } else { rng.range(1, 48) } as usize;
    let disk = if rng.pct(p.wfail) { rng.below(4) } else { 9 };
    let nth = rng.range(0, 12);
    Cfg {
        len,
        cl: (!rng.pct(p.unknown_cl)).then_some(len),
        sk: !rng.pct(p.unseekable),
        pf: if rng.pct(p.prefetch) { rng.range(1, 14) as u64 } else { 0 },
        bs: if rng.pct(40) { rng.range(1, 4) } else { rng.range(3, 16) } as usize,
        rt: 1000,
        cap,
        hold: matches!(kind.as_str(), "mem" | "temp") && rng.pct(25),
        fill: matches!(kind.as_str(), "mem" | "temp") && rng.pct(30),
        kind,
        cod: !rng.pct(30),
        accept: if rng.pct(p.accept) { rng.range(1, 4) as usize } else { 0 },
        wfail: if disk < 2 { nth } else { -1 },
        ffail: if disk == 2 { nth } else { -1 },
        zfail: if disk == 3 { nth / 4 } else { -1 },
        fin: if rng.pct(p.finfail) { "err" } else { "pass" }.into(),
        cbc: if rng.pct(p.cancel / 4) { rng.range(0, 6) } else { -1 },
        cbp: if rng.pct(p.panics / 2) { rng.range(0, 5) } else { -1 },
        rs: rng.below(1_000_000),
        // a prime above the default batch size
        u: if rng.pct(2) { *rng.pick(&[2, 4099, 4099, 16_411]) } else { 1 },
    }
}

pub struct Run {
    ctx: Arc<Ctx>,
    cfg: Cfg,
    dcmd: Option<tmpsc::UnboundedSender<DCmd>>,
    rcmd: Option<mpsc::Sender<Op>>,
    token: CancellationToken,
    threads: Vec<std::thread::JoinHandle<()>>,
    ping: u64,
    pub decs: Vec<String>,
    cancelled: bool,
    down: bool,
}

impl Run {
    pub fn start(cfg: &Cfg, sid: u64, header: &str) -> Run {
        let ctx = Arc::new(Ctx::default());
        {
            let mut s = ctx.src.lock().unwrap();
            s.end = cfg.len;
        }
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(header);
        ctx.log(reset);
        let (dtx, drx) = tmpsc::unbounded_channel();
        let (stx, srx) = mpsc::channel();
        let (rtx, rrx) = mpsc::channel();
        let mut threads = Vec::new();
        {
            let (ctx, cfg) = (ctx.clone(), cfg.clone());
            threads.push(std::thread::spawn(move || d_thread(ctx, cfg, drx, stx)));
        }
        let t0 = std::time::Instant::now();
        let sd = loop {
            assert!(t0.elapsed().as_secs() < 60, "scripted: creation hung");
            match srx.recv_timeout(Duration::from_micros(200)) {
                Ok(sd) => break sd,
                // creation itself may pass gates
                Err(mpsc::RecvTimeoutError::Timeout) => ctx.sched.grant(D),
                Err(e) => panic!("stream was not created: {e}"),
            }
        };
        let token = sd.cancellation_token();
        let handle = sd.handle();
        {
            let ctx = ctx.clone();
            let cfg = cfg.clone();
            threads.push(std::thread::spawn(move || r_thread(ctx, cfg, sd, rrx)));
        }
        {
            let ctx = ctx.clone();
            threads.push(std::thread::spawn(move || {
                sched::enter(W, &ctx);
                block_on(handle.wait_for_completion());
                ctx.log(json!({"e": "done"}));
                sched::leave(W, &ctx);
            }));
        }
        Run {
            ctx,
            cfg: cfg.clone(),
            dcmd: Some(dtx),
            rcmd: Some(rtx),
            token,
            threads,
            ping: 0,
            decs: Vec::new(),
            cancelled: false,
            down: false,
        }
    }

    fn src_pending(&self) -> bool {
        self.ctx.src.lock().unwrap().waker.is_some()
    }
    fn hanging(&self) -> bool {
        matches!(self.ctx.src.lock().unwrap().hang, Some(None))
    }
    fn r_idle(&self) -> bool {
        !self.ctx.r_busy.load(Ordering::SeqCst)
    }
    fn r_gone(&self) -> bool {
        self.ctx.r_gone.load(Ordering::SeqCst)
    }

    fn at_gate(&self) -> bool {
        self.ctx.sched.at(D).is_some() || self.ctx.sched.at(R).is_some()
    }

    /// Checks that nothing happens anymore without outside help, and records that.
    fn quiet(&mut self) -> bool {
        self.ctx.sched.settle();
        if self.at_gate() {
            return false;
        }
        if !self.ctx.sched.dead(D) {
            let before = self.ctx.sched.arrivals.load(Ordering::SeqCst);
            self.ping += 1;
            let k = self.ping;
            if let Some(d) = &self.dcmd {
                let _ = d.send(DCmd::Ping(k));
            }
            loop {
                if self.at_gate() || before != self.ctx.sched.arrivals.load(Ordering::SeqCst) {
                    return false;
                }
                if self.ctx.pong.load(Ordering::SeqCst) >= k || self.ctx.sched.dead(D) {
                    break;
                }
                std::thread::yield_now();
            }
        }
        if !self.ctx.sched.stays_blocked(8) {
            return false;
        }
        self.ctx.log(json!({"e": "quiet", "rb": !self.r_idle(), "sp": self.src_pending(),
            "hg": self.hanging(), "down": self.down}));
        true
    }

    /// Applies a decision if it's possible now.
    fn apply(&mut self, dec: &Dec) -> bool {
        let ok = self.try_apply(dec);
        if ok {
            self.decs.push(dec.enc());
        }
        ok
    }

    fn try_apply(&mut self, dec: &Dec) -> bool {
        let ctx = self.ctx.clone();
        match dec {
            Dec::D | Dec::R => {
                let role = if *dec == Dec::D { D } else { R };
                if ctx.sched.at(role).is_none() {
                    return false;
                }
                if std::env::var_os("SHOW_GATES").is_some() {
                    eprintln!("{} {:?}", dec.enc(), ctx.sched.at(role));
                }
                ctx.sched.grant(role);
                ctx.sched.settle();
            }
            Dec::Op(op) => {
                if !self.r_idle() || self.r_gone() || ctx.sched.dead(R) {
                    return false;
                }
                ctx.r_busy.store(true, Ordering::SeqCst);
                if let Some(r) = &self.rcmd {
                    let _ = r.send(op.clone());
                }
                ctx.sched.settle();
            }
            Dec::Item(item) => {
                let w = {
                    let mut s = ctx.src.lock().unwrap();
                    if s.queue.len() >= 4 {
                        return false;
                    }
                    s.queue.push_back(item.clone());
                    s.waker.take()
                };
                // keep the waker visible as pending until the source is polled again
                if let Some(w) = w {
                    w.wake();
                }
                ctx.sched.settle();
            }
            Dec::Plan(p) => {
                let mut s = ctx.src.lock().unwrap();
                if s.plans.len() >= 2 {
                    return false;
                }
                s.plans.push_back(p);
            }
            Dec::Res(ok) => {
                let w = {
                    let mut s = ctx.src.lock().unwrap();
                    if s.hang != Some(None) {
                        return false;
                    }
                    s.hang = Some(Some(*ok));
                    s.hang_waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
                ctx.sched.settle();
            }
            Dec::Adv(ms) => {
                if ctx.sched.dead(D) || !self.quiet() {
                    return false;
                }
                if let Some(d) = &self.dcmd {
                    let _ = d.send(DCmd::Adv(*ms));
                }
                ctx.sched.settle();
            }
            Dec::Cancel => {
                if self.cancelled {
                    return false;
                }
                self.cancelled = true;
                ctx.log(json!({"e": "cancel", "by": "token"}));
                self.token.cancel();
                ctx.sched.settle();
            }
            Dec::Down => {
                if self.down {
                    return false;
                }
                self.down = true;
                if let Some(d) = &self.dcmd {
                    let _ = d.send(DCmd::Down);
                }
                ctx.sched.settle();
            }
            Dec::Quiet => return self.quiet(),
        }
        true
    }

    pub fn gen_op(&self, p: &Profile, rng: &mut Rng) -> Op {
        let len = self.cfg.len as i64;
        let cap = self.cfg.capacity();
        if self.cfg.cl.is_some() && rng.pct(p.seeks / 20) {
            let big = *rng.pick(&[i64::MAX, i64::MIN, i64::MAX - 3, i64::MIN + 3, -1, i64::MAX / 2]);
            return Op::Seek(*rng.pick(&['s', 'c', 'e']), big);
        }
        if rng.pct(p.seeks) {
            let near = if cap >= 0 { cap + 2 } else { 12 };
            match rng.below(10) {
                0..=4 if cap < 0 || rng.pct(30) => Op::Seek('s', rng.range(0, len + 4)),
                0..=7 => Op::Seek('c', rng.range(-near, near)),
                _ => Op::Seek('e', rng.range(-len - 2, 3)),
            }
        } else if rng.pct(2) {
            Op::Read(0)
        } else if cap >= 0 {
            if rng.pct(8) {
                Op::Read((cap + rng.range(1, 3)) as usize)
            } else {
                Op::Read(rng.range(1, cap) as usize)
            }
        } else if rng.pct(10) {
            Op::Read(rng.range(1, 60) as usize)
        } else {
            Op::Read(rng.range(1, 9) as usize)
        }
    }

    pub fn explore(&mut self, p: &Profile, rng: &mut Rng) {
        let steps = rng.range(10, 160);
        let (wd, wr) = *rng.pick(&[(1u64, 1u64), (6, 1), (1, 6), (30, 1), (1, 30)]);
        let wop = *rng.pick(&[1u64, 3, 8]);
        let wsrc = *rng.pick(&[1u64, 3, 8]);
        let cmax = *rng.pick(&[2i64, 5, 9, 20]);
        let inject = rng.pct(p.cancel).then(|| rng.range(0, steps));
        let dropat = rng.pct(p.drops).then(|| rng.range(0, steps));
        let downat = rng.pct(p.down).then(|| rng.range(0, steps));
        let panicat = rng.pct(p.panics).then(|| rng.range(0, steps));
        for i in 0..steps {
            self.ctx.sched.settle();
            if inject == Some(i) {
                self.apply(&Dec::Cancel);
            }
            if downat == Some(i) {
                self.apply(&Dec::Down);
            }
            if panicat == Some(i) {
                self.apply(&Dec::Item(Item::Panic));
            }
            if dropat.is_some_and(|d| i >= d) && self.r_idle() && !self.r_gone() {
                self.apply(&Dec::Op(Op::Drop));
            }
            let d = self.ctx.sched.at(D).is_some();
            let r = self.ctx.sched.at(R).is_some();
            if !d && !r && rng.pct(40) {
                self.apply(&Dec::Quiet);
                continue;
            }
            let opw = if self.r_idle() && !self.r_gone() { wop } else { 0 };
            let srcw = if self.src_pending() { wsrc } else { 1 };
            let hangw = if self.hanging() { 2 } else { 0 };
            let weights = [
                if d { wd * 8 } else { 0 },
                if r { wr * 8 } else { 0 },
                opw,
                srcw,
                hangw,
                if !d && !r { p.stalls / 4 } else { 0 },
                if rng.pct(p.hang) { 1 } else { 0 },
            ];
            let total: u64 = weights.iter().sum();
            if total == 0 {
                continue;
            }
            let mut x = rng.below(total);
            let mut pick = 0;
            for (k, w) in weights.iter().enumerate() {
                if x < *w {
                    pick = k;
                    break;
                }
                x -= w;
            }
            match pick {
                0 => self.apply(&Dec::D),
                1 => self.apply(&Dec::R),
                2 => {
                    let op = self.gen_op(p, rng);
                    self.apply(&Dec::Op(op))
                }
                3 => {
                    let item = if rng.pct(p.faults) {
                        if rng.pct(50) { Item::Err } else { Item::Empty }
                    } else if rng.pct(p.early_end) {
                        Item::End
                    } else {
                        Item::Chunk(rng.range(1, cmax) as u64)
                    };
                    self.apply(&Dec::Item(item))
                }
                4 => self.apply(&Dec::Res(rng.pct(70))),
                5 => {
                    let ms = *rng.pick(&[400u64, 700, 1200]);
                    self.apply(&Dec::Adv(ms))
                }
                _ => {
                    let plan = *rng.pick(&["ok", "err", "hang", "hang"]);
                    self.apply(&Dec::Plan(plan))
                }
            };
        }
    }

    pub fn replay(&mut self, decs: &[String]) {
        for s in decs {
            let Some(dec) = Dec::dec(s) else { continue };
            self.ctx.sched.settle();
            if std::env::var_os("SHOW_GATES").is_some() {
                eprintln!("{s}: D {:?} R {:?}", self.ctx.sched.at(D), self.ctx.sched.at(R));
            }
            // whether nothing moves anymore is sampled: a busy machine may need more attempts
            let tries = if matches!(dec, Dec::Quiet | Dec::Adv(_)) { 40 } else { 1 };
            for _ in 0..tries {
                if self.apply(&dec) || self.at_gate() {
                    break;
                }
                std::thread::sleep(Duration::from_micros(200));
                self.ctx.sched.settle();
            }
        }
    }

    /// Steps both threads until nothing moves, the source cooperating fully.
    fn run_dry(&mut self, rng: &mut Rng, until_r_idle: bool) {
        for _ in 0..20_000 {
            self.ctx.sched.settle();
            if until_r_idle && (self.r_idle() || self.ctx.sched.dead(R)) {
                return;
            }
            let d = self.ctx.sched.at(D).is_some();
            let r = self.ctx.sched.at(R).is_some();
            if d && (!r || rng.pct(50)) {
                self.apply(&Dec::D);
            } else if r {
                self.apply(&Dec::R);
            } else if self.hanging() {
                self.apply(&Dec::Res(true));
            } else if self.src_pending() {
                let n = rng.range(1, 8) as u64;
                self.apply(&Dec::Item(Item::Chunk(n)));
            } else if self.quiet() {
                return;
            }
        }
        self.stuck();
    }

    pub fn stuck(&self) {
        self.ctx.log(json!({"e": "stuck"}));
    }

    fn last_read(&self) -> (bool, u64) {
        let log = self.ctx.log.lock().unwrap();
        log.iter()
            .rev()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .find(|v| v["e"] == "rr" || v["e"] == "rpanic")
            .map_or((false, 0), |v| (v["ok"] == true, v["k"].as_u64().unwrap_or(0)))
    }

    fn read_all(&mut self, rng: &mut Rng) {
        let cap = self.cfg.capacity();
        for _ in 0..200 {
            let max = if cap >= 0 { cap.min(9) } else { 9 };
            let n = rng.range(1, max.max(1)) as usize;
            if !self.apply(&Dec::Op(Op::Read(n))) {
                return;
            }
            self.run_dry(rng, true);
            if !self.r_idle() {
                return;
            }
            let (ok, k) = self.last_read();
            if !ok || k == 0 {
                return;
            }
        }
    }

    /// Lets everything complete: the source delivers what it's asked for and the reader reads on.
    ///
    /// The decisions taken here follow from the state of `rng` and aren't part of the case.
    pub fn drain(&mut self, rng: &mut Rng) {
        let keep = self.decs.len();
        self.drain_now(rng);
        self.decs.truncate(keep);
    }

    fn drain_now(&mut self, rng: &mut Rng) {
        {
            let mut s = self.ctx.src.lock().unwrap();
            s.plans.clear();
            s.queue.retain(|i| !matches!(i, Item::End | Item::Panic));
        }
        self.ctx.log(json!({"e": "drain"}));
        self.run_dry(rng, true);
        if self.r_idle() && !self.r_gone() {
            self.read_all(rng);
        }
        if self.r_idle() && !self.r_gone() && rng.pct(30) {
            self.apply(&Dec::Op(Op::Seek('s', 0)));
            self.run_dry(rng, true);
            if self.r_idle() {
                self.read_all(rng);
            }
        }
        self.run_dry(rng, false);
        self.ctx.log(json!({"e": "final", "rb": !self.r_idle(), "rgone": self.r_gone(), "down": self.down}));
    }

    pub fn finish(mut self) -> (Vec<String>, Vec<String>) {
        let lines = self.ctx.log.lock().unwrap().clone();
        self.ctx.sched.free_run();
        self.token.cancel();
        self.rcmd = None;
        if let Some(d) = self.dcmd.take() {
            let _ = d.send(DCmd::Down);
        }
        let stuck = Duration::from_secs(5);
        let t0 = std::time::Instant::now();
        for t in self.threads.drain(..) {
            while !t.is_finished() && t0.elapsed() < stuck {
                std::thread::sleep(Duration::from_micros(100));
            }
            if t.is_finished() {
                let _ = t.join();
            }
        }
        (lines, self.decs)
    }
}
