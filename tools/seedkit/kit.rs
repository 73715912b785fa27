//! A scripted source: position `i` holds `byte(i)`, chunks of `chunk` bytes, delivered up to a gate.
#![allow(dead_code)]
use std::convert::Infallible;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use bytes::Bytes;
use futures_util::Stream;
use stream_download::source::{SourceStream, StreamOutcome};

pub fn byte(i: u64) -> u8 {
    ((i * 7 + 3) % 251) as u8
}

pub fn content(r: std::ops::Range<u64>) -> Vec<u8> {
    r.map(byte).collect()
}

#[derive(Debug, Default)]
pub struct Inner {
    pub gate: u64,
    pub log: Vec<String>,
    /// the next seek requests hang
    pub seek_hangs: bool,
    pub seek_fails: bool,
    pub reconnect_hangs: bool,
    pub reconnect_fails: bool,
    pub finish_fails: bool,
    /// pretends that the next chunk is an error
    pub chunk_errors: usize,
    /// the response ends early here, once
    pub early_end: Option<u64>,
    pub finished: Option<(bool, StreamOutcome)>,
    waker: Option<Waker>,
}

#[derive(Clone, Debug)]
pub struct Script {
    pub size: u64,
    pub length: Option<u64>,
    pub chunk: u64,
    pub seekable: bool,
    pub inner: Arc<Mutex<Inner>>,
}

impl Script {
    pub fn new(size: u64, chunk: u64) -> Self {
        Self { size, length: Some(size), chunk, seekable: true, inner: Arc::new(Mutex::new(Inner { gate: u64::MAX, ..Default::default() })) }
    }
    pub fn open(&self, gate: u64) {
        let mut i = self.inner.lock().unwrap();
        i.gate = gate;
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    }
    pub fn log(&self) -> Vec<String> {
        self.inner.lock().unwrap().log.clone()
    }
}

pub struct Src {
    s: Script,
    pos: u64,
    end: u64,
}

impl Src {
    pub fn new(s: &Script) -> Self {
        Self { s: s.clone(), pos: 0, end: s.size }
    }
}

impl Stream for Src {
    type Item = io::Result<Bytes>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let this = &mut *self;
        let mut i = this.s.inner.lock().unwrap();
        if this.pos >= this.end {
            return Poll::Ready(None);
        }
        if i.early_end.is_some_and(|e| this.pos >= e) {
            i.early_end = None;
            return Poll::Ready(None);
        }
        let to = (this.pos + this.s.chunk).min(this.end).min(i.gate).min(i.early_end.unwrap_or(u64::MAX));
        if to <= this.pos {
            i.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if i.chunk_errors > 0 {
            i.chunk_errors -= 1;
            return Poll::Ready(Some(Err(io::Error::other("chunk error"))));
        }
        let b = content(this.pos..to);
        this.pos = to;
        Poll::Ready(Some(Ok(b.into())))
    }
}

impl SourceStream for Src {
    type Params = Script;
    type StreamCreationError = Infallible;
    async fn create(s: Script) -> Result<Self, Infallible> {
        Ok(Self::new(&s))
    }
    fn content_length(&self) -> Option<u64> {
        self.s.length
    }
    async fn seek_range(&mut self, start: u64, end: Option<u64>) -> io::Result<()> {
        let (hangs, fails) = {
            let mut i = self.s.inner.lock().unwrap();
            i.log.push(format!("seek {start}..{}", end.map_or(String::new(), |e| e.to_string())));
            (i.seek_hangs, i.seek_fails)
        };
        if hangs {
            std::future::pending::<()>().await;
        }
        if fails {
            return Err(io::Error::other("seek failed"));
        }
        self.pos = start;
        self.end = end.unwrap_or(self.s.size).min(self.s.size);
        Ok(())
    }
    async fn reconnect(&mut self, pos: u64) -> io::Result<()> {
        let (hangs, fails) = {
            let mut i = self.s.inner.lock().unwrap();
            i.log.push(format!("reconnect {pos}"));
            (i.reconnect_hangs, i.reconnect_fails)
        };
        if hangs {
            std::future::pending::<()>().await;
        }
        if fails {
            return Err(io::Error::other("reconnect failed"));
        }
        self.pos = pos;
        self.end = self.s.size;
        Ok(())
    }
    fn supports_seek(&self) -> bool {
        self.s.seekable
    }
    async fn on_finish(&mut self, result: io::Result<()>, outcome: StreamOutcome) -> io::Result<()> {
        let mut i = self.s.inner.lock().unwrap();
        i.log.push(format!("finish {} {outcome:?}", result.is_ok()));
        i.finished = Some((result.is_ok(), outcome));
        if i.finish_fails {
            return Err(io::Error::other("finish failed"));
        }
        result
    }
}

/// Runs a blocking step that must end
pub async fn within<T: Send + 'static>(what: &str, secs: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    match tokio::time::timeout(std::time::Duration::from_secs(secs), tokio::task::spawn_blocking(f)).await {
        Ok(r) => r.unwrap(),
        Err(_) => {
            println!("FAILED: {what} hangs");
            std::process::exit(1)
        }
    }
}

pub fn expect(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
