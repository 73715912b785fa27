//! Drives the adapters that turn OpenDAL objects and async readers into sources.
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::num::NonZeroUsize;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use bytes::Bytes;
use futures_util::Stream;
use opendal::raw::*;
use opendal::{Buffer, BytesRange, Capability, EntryMode, Error, ErrorKind, Metadata, OperationContext, Operator, Result};
use serde_json::{Value, json};
use stream_download::async_read::{AsyncReadStream, AsyncReadStreamParams};
use stream_download::source::SourceStream;
use stream_download_opendal::{OpendalStream, OpendalStreamParams};
use tokio::io::{AsyncRead, ReadBuf};

use crate::util::{Rng, content_range, opt};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: String,
    pub size: u64,
    /// 0: the default
    pub chunk: usize,
    pub ct: String,
    /// announced length of an async reader
    pub len: Option<u64>,
}

impl Cfg {
    pub fn json(&self) -> Value {
        json!({"kind": self.kind, "size": self.size, "chunk": self.chunk, "ct": self.ct, "len": opt(self.len)})
    }
    pub fn from_json(v: &Value) -> Cfg {
        let i = |k: &str| v[k].as_i64().unwrap_or(-1);
        let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
        Cfg {
            kind: s("kind"),
            size: i("size").max(0) as u64,
            chunk: i("chunk").max(0) as usize,
            ct: s("ct"),
            len: u64::try_from(i("len")).ok(),
        }
    }
}

pub fn gen_cfg(p: &str, rng: &mut Rng) -> Cfg {
    let size = match rng.below(10) {
        0 => 0,
        1 => rng.range(4000, 13_000) as u64,
        _ => rng.range(1, 40) as u64,
    };
    let kind = if p == "async" { "async" } else { "opendal" };
    Cfg {
        kind: kind.into(),
        size,
        chunk: match rng.below(6) {
            0 => 0,
            1 => rng.range(1, 3) as usize,
            2 if size > 100 => rng.range(900, 5000) as usize,
            _ => rng.range(1, 12) as usize,
        },
        ct: (*rng.pick(&["", "audio/mpeg", "text/plain; charset=utf-8"])).into(),
        len: match rng.below(4) {
            0 => None,
            1 => Some(size + rng.range(0, 5) as u64),
            _ => Some(size),
        },
    }
}

/// What happens when the adapter reads the next time.
#[derive(Clone, Debug, PartialEq)]
enum Act {
    Give(usize),
    Fail,
    Pend,
}

#[derive(Debug, Default)]
struct World {
    size: u64,
    ct: String,
    acts: VecDeque<Act>,
    stat_fails: bool,
    open_fails: bool,
    /// what the service did since the last decision
    pended: bool,
    failed: bool,
}

type Shared = Arc<Mutex<World>>;

fn next_act(w: &Shared) -> Act {
    let mut w = w.lock().unwrap();
    let a = w.acts.pop_front().unwrap_or(Act::Give(5));
    match a {
        Act::Pend => w.pended = true,
        Act::Fail => w.failed = true,
        Act::Give(_) => {}
    }
    a
}

fn broken() -> Error {
    Error::new(ErrorKind::Unexpected, "scripted failure")
}

#[derive(Debug)]
struct Svc(Shared);

fn unsupported<T>() -> Result<T> {
    Err(Error::new(ErrorKind::Unsupported, "unsupported"))
}

impl Service for Svc {
    type Reader = oio::StreamReader<Object>;
    type Writer = ();
    type Lister = ();
    type Deleter = ();
    type Copier = ();

    fn info(&self) -> ServiceInfo {
        ServiceInfo::new("scripted", "/", "scripted")
    }
    fn capability(&self) -> Capability {
        Capability { read: true, stat: true, ..Default::default() }
    }
    async fn create_dir(&self, _: &OperationContext, _: &str, _: OpCreateDir) -> Result<RpCreateDir> {
        unsupported()
    }
    async fn stat(&self, _: &OperationContext, _: &str, _: OpStat) -> Result<RpStat> {
        let mut w = self.0.lock().unwrap();
        if w.stat_fails {
            w.failed = true;
            return Err(broken());
        }
        let mut m = Metadata::new(EntryMode::FILE);
        m.set_content_length(w.size);
        if !w.ct.is_empty() {
            m.set_content_type(&w.ct);
        }
        Ok(RpStat::new(m))
    }
    fn read(&self, _: &OperationContext, _: &str, _: OpRead) -> Result<Self::Reader> {
        Ok(oio::StreamReader::new(Object(self.0.clone())))
    }
    fn write(&self, _: &OperationContext, _: &str, _: OpWrite) -> Result<()> {
        unsupported()
    }
    fn delete(&self, _: &OperationContext) -> Result<()> {
        unsupported()
    }
    fn list(&self, _: &OperationContext, _: &str, _: OpList) -> Result<()> {
        unsupported()
    }
    fn copy(&self, _: &OperationContext, _: &str, _: &str, _: OpCopy, _: OpCopier) -> Result<()> {
        unsupported()
    }
    async fn rename(&self, _: &OperationContext, _: &str, _: &str, _: OpRename) -> Result<RpRename> {
        unsupported()
    }
    async fn presign(&self, _: &OperationContext, _: &str, _: OpPresign) -> Result<RpPresign> {
        unsupported()
    }
}

struct Object(Shared);

impl oio::StreamRead for Object {
    async fn open(&self, range: BytesRange) -> Result<(RpRead, Box<dyn oio::ReadStreamDyn>)> {
        let mut w = self.0.lock().unwrap();
        if w.open_fails {
            w.open_fails = false;
            w.failed = true;
            return Err(broken());
        }
        let pos = range.offset().min(w.size);
        let end = range.size().map_or(w.size, |n| pos.saturating_add(n).min(w.size));
        Ok((RpRead::default(), Box::new(Body { world: self.0.clone(), pos, end })))
    }
}

struct Body {
    world: Shared,
    pos: u64,
    end: u64,
}

/// Pending once, and woken immediately.
#[derive(Default)]
struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl oio::ReadStream for Body {
    async fn read(&mut self) -> Result<Buffer> {
        loop {
            if self.pos == self.end {
                return Ok(Buffer::new());
            }
            match next_act(&self.world) {
                Act::Pend => Later::default().await,
                Act::Fail => return Err(broken()),
                Act::Give(n) => {
                    let to = (self.pos + n as u64).min(self.end);
                    let data = content_range(self.pos, to);
                    self.pos = to;
                    return Ok(Bytes::from(data).into());
                }
            }
        }
    }
}

/// An async reader doing what the script says.
struct Feed {
    world: Shared,
    pos: u64,
}
impl AsyncRead for Feed {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let size = self.world.lock().unwrap().size;
        if self.pos == size {
            return Poll::Ready(Ok(()));
        }
        match next_act(&self.world) {
            Act::Pend => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Fail => Poll::Ready(Err(io::Error::other("scripted failure"))),
            Act::Give(n) => {
                let to = (self.pos + n.min(buf.remaining()) as u64).min(size);
                buf.put_slice(&content_range(self.pos, to));
                self.pos = to;
                Poll::Ready(Ok(()))
            }
        }
    }
}

enum Source {
    Opendal(Box<OpendalStream>),
    Async(Box<AsyncReadStream<Feed>>),
}

pub struct Run {
    log: Vec<String>,
    pub decs: Vec<String>,
    cfg: Cfg,
    world: Shared,
    rt: tokio::runtime::Runtime,
    source: Option<Source>,
}

impl Run {
    pub fn start(cfg: &Cfg, sid: u64, header: &str) -> Run {
        let mut reset = cfg.json();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(header);
        let world = World { size: cfg.size, ct: cfg.ct.clone(), ..Default::default() };
        Run {
            log: vec![reset.to_string()],
            decs: vec![],
            cfg: cfg.clone(),
            world: Arc::new(Mutex::new(world)),
            rt: tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"),
            source: None,
        }
    }

    fn push(&mut self, v: Value) {
        self.log.push(v.to_string());
    }

    /// Whether the service failed meanwhile, and whether it asked to be polled again.
    fn served(&self) -> (bool, bool) {
        let mut w = self.world.lock().unwrap();
        w.acts.clear();
        w.stat_fails = false;
        (std::mem::take(&mut w.failed), std::mem::take(&mut w.pended))
    }

    /// Runs a future to its end; None when it panics.
    fn exec<T>(rt: &tokio::runtime::Runtime, f: impl Future<Output = T>) -> Option<T> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(f))).ok()
    }

    pub fn apply(&mut self, dec: &str) {
        let p: Vec<&str> = dec.split(' ').collect();
        self.decs.push(dec.into());
        let num = |i: usize| p.get(i).and_then(|x| x.parse::<u64>().ok());
        if p[0] == "new" {
            self.create(p.get(1) == Some(&"stat"));
            return;
        }
        let Some(mut s) = self.source.take() else { return };
        match p[0] {
            "poll" => {
                for a in &p[1..] {
                    self.world.lock().unwrap().acts.push_back(match *a {
                        "err" => Act::Fail,
                        "pend" => Act::Pend,
                        n => Act::Give(n.parse().unwrap_or(1)),
                    });
                }
                let mut cx = Context::from_waker(Waker::noop());
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _guard = self.rt.enter();
                    match &mut s {
                        Source::Opendal(s) => Pin::new(s).poll_next(&mut cx),
                        Source::Async(s) => Pin::new(s).poll_next(&mut cx),
                    }
                }));
                let (fail, pend) = self.served();
                let mut ev = json!({"e": "it", "d": [], "kind": "", "fail": fail, "pend": pend});
                match res {
                    Err(_) => return self.push(json!({"e": "rpanic"})),
                    Ok(Poll::Pending) => ev["kind"] = json!("pending"),
                    Ok(Poll::Ready(None)) => ev["kind"] = json!("end"),
                    Ok(Poll::Ready(Some(Err(_)))) => ev["kind"] = json!("err"),
                    Ok(Poll::Ready(Some(Ok(b)))) => {
                        ev["kind"] = json!("data");
                        ev["d"] = json!(b.to_vec());
                    }
                }
                self.push(ev);
            }
            "seek" | "rc" => {
                {
                    let how = p.last().unwrap_or(&"");
                    let mut w = self.world.lock().unwrap();
                    w.stat_fails = *how == "stat";
                    w.open_fails = *how == "open";
                }
                let (start, end) = (num(1).unwrap_or(0), if p[0] == "rc" { None } else { num(2) });
                self.push(json!({"e": if p[0] == "rc" { "rcc" } else { "skc" }, "s": start, "en": opt(end)}));
                let res = match (&mut s, p[0]) {
                    (Source::Opendal(s), "rc") => Self::exec(&self.rt, s.reconnect(start)),
                    (Source::Opendal(s), _) => Self::exec(&self.rt, s.seek_range(start, end)),
                    (Source::Async(s), "rc") => Self::exec(&self.rt, s.reconnect(start)),
                    (Source::Async(s), _) => Self::exec(&self.rt, s.seek_range(start, end)),
                };
                let (fail, _) = self.served();
                let Some(res) = res else { return self.push(json!({"e": "rpanic"})) };
                let uns = res.as_ref().is_err_and(|e| e.kind() == io::ErrorKind::Unsupported);
                self.push(json!({"e": "opr", "ok": res.is_ok(), "fail": fail, "uns": uns}));
            }
            _ => {}
        }
        self.source = Some(s);
    }

    fn create(&mut self, fails: bool) {
        self.world.lock().unwrap().stat_fails = fails;
        let world = self.world.clone();
        let source = if self.cfg.kind == "async" {
            let params = AsyncReadStreamParams::new(Feed { world, pos: 0 }).content_length(self.cfg.len);
            Self::exec(&self.rt, AsyncReadStream::create(params)).map(|s| s.ok().map(|s| Source::Async(Box::new(s))))
        } else {
            let op = Operator::from_parts(OperationContext::new(), Arc::new(Svc(world)));
            let mut params = OpendalStreamParams::new(op, "some/object");
            if let Some(n) = NonZeroUsize::new(self.cfg.chunk) {
                params = params.chunk_size(n);
            }
            Self::exec(&self.rt, OpendalStream::create(params)).map(|s| s.ok().map(|s| Source::Opendal(Box::new(s))))
        };
        let (fail, _) = self.served();
        let Some(source) = source else { return self.push(json!({"e": "rpanic"})) };
        let info = match &source {
            None => json!({"cl": -1, "sk": false, "ct": ""}),
            Some(Source::Opendal(s)) => {
                json!({"cl": opt(s.content_length()), "sk": s.supports_seek(), "ct": s.content_type().unwrap_or("")})
            }
            Some(Source::Async(s)) => json!({"cl": opt(s.content_length()), "sk": s.supports_seek(), "ct": ""}),
        };
        let mut ev = info;
        ev["e"] = json!("new");
        ev["ok"] = json!(source.is_some());
        ev["fail"] = json!(fail);
        self.push(ev);
        self.source = source;
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        self.apply(if rng.pct(4) { "new stat" } else { "new ok" });
        let size = self.cfg.size as i64;
        let big = self.cfg.size > 100;
        let (seeks, fails) = (*rng.pick(&[5u64, 25, 50]), *rng.pick(&[0u64, 10, 25]));
        for _ in 0..rng.range(2, 40) {
            if self.source.is_none() {
                break;
            }
            let at = |rng: &mut Rng| if rng.pct(15) { size } else { rng.range(0, size.max(1) - 1) };
            let d = if rng.pct(seeks) {
                let s = at(rng);
                let how = if rng.pct(fails) { *rng.pick(&["stat", "open"]) } else { "ok" };
                if rng.pct(25) {
                    format!("rc {s} {how}")
                } else {
                    let e = if rng.pct(40) { "-".into() } else { rng.range(s, size.max(s)).to_string() };
                    format!("seek {s} {e} {how}")
                }
            } else {
                let mut acts = String::new();
                for _ in 0..rng.range(1, 3) {
                    let a = if rng.pct(fails) {
                        "err".into()
                    } else if rng.pct(25) {
                        "pend".into()
                    } else if big {
                        rng.range(1, 9000).to_string()
                    } else {
                        rng.range(1, 14).to_string()
                    };
                    acts += &format!(" {a}");
                }
                format!("poll{acts}")
            };
            self.apply(&d);
        }
        // the rest of the object
        for _ in 0..80 {
            if self.source.is_none() || self.log.last().is_some_and(|l| l.contains("\"kind\":\"end\"")) {
                break;
            }
            self.apply(if big { "poll 8000" } else { "poll 6" });
        }
    }

    pub fn finish(self) -> (Vec<String>, Vec<String>) {
        (self.log, self.decs)
    }
}
