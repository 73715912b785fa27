//! Real child processes: pipelines, cancellation and cleanup, and the argument lists of commands.
use std::fs::File;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde_json::{Value, json};
use stream_download::process::{
    Command, CommandBuilder, FfmpegConvertAudioCommand, ProcessStreamParams, SpawnedCommand, SpawnCommand, YtDlpCommand,
};
use stream_download::storage::StorageProvider;
use stream_download::storage::memory::MemoryStorageProvider;
use stream_download::{Settings, StreamDownload, StreamHandle};

use crate::util::{Rng, content};

const PATIENCE: Duration = Duration::from_secs(20);

/// `sdverif child ROLE ARG`: the programs of the pipelines.
pub fn child(args: &[String]) -> i32 {
    let role = args.first().map_or("", String::as_str);
    let n: u64 = args.get(1).and_then(|a| a.parse().ok()).unwrap_or(0);
    let mut out = io::stdout();
    let mut input = io::stdin();
    let code = match role {
        "gen" | "genfail" | "hang" => {
            let data: Vec<u8> = (0..n).map(content).collect();
            // in two pieces, the second one a bit later
            let (a, b) = data.split_at(data.len() / 2);
            if out.write_all(a).and_then(|()| out.flush()).is_err() || out.write_all(b).and_then(|()| out.flush()).is_err() {
                3
            } else if role == "genfail" {
                eprintln!("failing on purpose");
                4
            } else {
                0
            }
        }
        _ => {
            let mut left = if role == "head" { n as usize } else { usize::MAX };
            let mut buf = vec![0u8; 4096];
            if role == "flood" {
                for _ in 0..4000 {
                    eprintln!("a rather long line of diagnostics that nobody wants to read");
                }
            }
            let mut code = 0;
            while left > 0 {
                let lim = left.min(buf.len());
                match input.read(&mut buf[..lim]) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => {
                        left -= k;
                        if role == "inc" {
                            buf[..k].iter_mut().for_each(|b| *b = b.wrapping_add(1));
                        }
                        if out.write_all(&buf[..k]).and_then(|()| out.flush()).is_err() {
                            code = 3;
                            break;
                        }
                    }
                }
            }
            if role == "fail" { 5 } else { code }
        }
    };
    match role {
        // keeps its output open until it's killed
        "hang" | "stay" => std::thread::sleep(Duration::from_secs(600)),
        "linger" => {
            // SAFETY: nothing is written after this
            unsafe { libc::close(1) };
            std::thread::sleep(Duration::from_millis(60));
        }
        _ => {}
    }
    code
}

type Lines = Vec<String>;

/// State letters of this process' children.
fn children() -> Vec<(i32, char)> {
    let me = std::process::id().to_string();
    let mut res = vec![];
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let name = e.file_name();
        let Some(pid) = name.to_str().and_then(|n| n.parse::<i32>().ok()) else { continue };
        let Ok(stat) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { continue };
        let Some(i) = stat.rfind(')') else { continue };
        let mut f = stat[i + 1..].split_whitespace();
        let state = f.next().and_then(|s| s.chars().next()).unwrap_or('?');
        if f.next() == Some(&me) {
            res.push((pid, state));
        }
    }
    res.sort_unstable();
    res
}

/// running, zombie or gone
fn state_of(pid: i32) -> &'static str {
    match children().iter().find(|c| c.0 == pid).map(|c| c.1) {
        None => "gone",
        Some('Z' | 'X') => "zombie",
        Some(_) => "running",
    }
}

/// Memory storage whose writer fails once it holds `fail` bytes.
struct Provider {
    fail: i64,
    refuse: bool,
}
struct Writer<W> {
    inner: W,
    left: i64,
}
impl StorageProvider for Provider {
    type Reader = <MemoryStorageProvider as StorageProvider>::Reader;
    type Writer = Writer<<MemoryStorageProvider as StorageProvider>::Writer>;
    fn into_reader_writer(self, cl: Option<u64>) -> io::Result<(Self::Reader, Self::Writer)> {
        if self.refuse {
            return Err(io::Error::other("scripted"));
        }
        let (r, w) = MemoryStorageProvider.into_reader_writer(cl)?;
        Ok((r, Writer { inner: w, left: if self.fail < 0 { i64::MAX } else { self.fail } }))
    }
}
impl<W: Write> Write for Writer<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.left <= 0 && !buf.is_empty() {
            return Err(io::Error::other("scripted"));
        }
        let n = buf.len().min(usize::try_from(self.left).unwrap_or(usize::MAX));
        let n = self.inner.write(&buf[..n])?;
        self.left -= n as i64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
impl<W: Seek> Seek for Writer<W> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

fn words(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}

pub struct Run<'a> {
    cfg: Value,
    dir: &'a Path,
    lines: Lines,
    decs: Vec<String>,
    rt: Option<tokio::runtime::Runtime>,
    params: Option<ProcessStreamParams>,
    reader: Option<StreamDownload<Provider>>,
    handle: Option<StreamHandle>,
    pids: Vec<i32>,
    dead: bool,
    pos: u64,
}

pub fn gen_cfg(rng: &mut Rng) -> Value {
    let n = *rng.pick(&[0u64, 1, 8, 9, 40, 5000, 70_000, 200_000]);
    let mut stages = vec![match rng.below(6) {
        0 => format!("hang {}", n.max(8)),
        1 => format!("genfail {n}"),
        _ => format!("gen {n}"),
    }];
    for _ in 0..rng.below(4) {
        stages.push(match rng.below(10) {
            0 => format!("head {}", rng.pick(&[0, 1, 5, 8, 4096, 100_000])),
            1 => "flood".into(),
            2 => "fail".into(),
            3 => "linger".into(),
            4 => "stay".into(),
            5 | 6 => "cat".into(),
            _ => "inc".into(),
        });
    }
    let missing = if rng.pct(7) { rng.below(stages.len() as u64) as i64 } else { -1 };
    json!({"stages": stages, "stderr": *rng.pick(&["file", "file", "null", "out"]), "missing": missing,
        "cod": rng.pct(60), "prefetch": *rng.pick(&[0, 1, 4, 8]),
        "fail": if rng.pct(12) { rng.range(0, 30) } else { -1 }, "refuse": rng.pct(4), "single": rng.pct(50)})
}

impl<'a> Run<'a> {
    pub fn start(cfg: &Value, sid: u64, profile: &str, dir: &'a Path) -> Run<'a> {
        let mut reset = cfg.clone();
        reset["e"] = json!("reset");
        reset["sid"] = json!(sid);
        reset["profile"] = json!(profile);
        let parsed: Vec<Value> = words(&cfg["stages"])
            .iter()
            .map(|s| {
                let (k, n) = s.split_once(' ').unwrap_or((s, "0"));
                json!({"k": k, "n": n.parse::<u64>().unwrap_or(0)})
            })
            .collect();
        reset["stages"] = json!(parsed);
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime");
        Run {
            cfg: cfg.clone(),
            dir,
            lines: vec![reset.to_string()],
            decs: vec![],
            rt: Some(rt),
            params: None,
            reader: None,
            handle: None,
            pids: vec![],
            dead: false,
            pos: 0,
        }
    }

    fn push(&mut self, v: Value) {
        self.lines.push(v.to_string());
    }

    fn rt(&self) -> &tokio::runtime::Runtime {
        self.rt.as_ref().expect("runtime")
    }

    fn temp_files(&self) -> usize {
        std::fs::read_dir(self.dir.join("tmp")).map_or(0, Iterator::count)
    }

    fn command(&self, i: usize, stage: &str) -> Command {
        let exe = std::env::current_exe().expect("exe");
        let program: PathBuf =
            if self.cfg["missing"].as_i64() == Some(i as i64) { self.dir.join("missing") } else { exe };
        let mut c = Command::new(program).arg("child").args(stage.split(' '));
        match self.cfg["stderr"].as_str() {
            Some("null") => c = c.stderr_handle(Stdio::null()),
            Some("out") => {
                let f = File::create(self.dir.join(format!("err{i}"))).expect("file");
                c = c.stderr_handle(f);
            }
            _ => {}
        }
        c
    }

    fn spawn(&mut self) {
        let stages = words(&self.cfg["stages"]);
        let before: Vec<i32> = children().iter().map(|c| c.0).collect();
        let mut cmds = stages.iter().enumerate().map(|(i, s)| self.command(i, s));
        let first = cmds.next().expect("stage");
        let params = {
            let _guard = self.rt().enter();
            if stages.len() == 1 && self.cfg["single"].as_bool() == Some(true) {
                ProcessStreamParams::new(first)
            } else {
                let b = cmds.fold(CommandBuilder::new(first), CommandBuilder::pipe);
                ProcessStreamParams::new(b)
            }
        };
        self.pids = children().iter().map(|c| c.0).filter(|p| !before.contains(p)).collect();
        // in the order they were started, even when the numbers started over
        if self.pids.last().unwrap_or(&0) - self.pids.first().unwrap_or(&0) > 2000 {
            let first = self.pids[0];
            let i = self.pids.iter().position(|p| p - first > 2000).unwrap_or(0);
            self.pids.rotate_left(i);
        }
        let ok = params.is_ok();
        let files = self.temp_files();
        self.params = params.ok();
        self.push(json!({"e": "spawn", "ok": ok, "files": files}));
        self.dead = !ok;
    }

    /// The last program of the pipeline
    fn last(&self) -> Option<i32> {
        (!self.dead).then(|| self.pids.last().copied()).flatten()
    }

    fn last_state(&self) -> &'static str {
        self.last().map_or("gone", state_of)
    }

    fn create(&mut self) {
        let Some(p) = self.params.take() else { return };
        let provider = Provider {
            fail: self.cfg["fail"].as_i64().unwrap_or(-1),
            refuse: self.cfg["refuse"].as_bool().unwrap_or(false),
        };
        let settings = Settings::default()
            .cancel_on_drop(self.cfg["cod"].as_bool().unwrap_or(true))
            .prefetch_bytes(self.cfg["prefetch"].as_u64().unwrap_or(0));
        let res = self.rt().block_on(async {
            tokio::time::timeout(PATIENCE, StreamDownload::new_process(p, provider, settings)).await
        });
        match res {
            Ok(r) => {
                self.push(json!({"e": "create", "ok": r.is_ok()}));
                self.handle = r.as_ref().ok().map(StreamDownload::handle);
                self.reader = r.ok();
            }
            Err(_) => self.push(json!({"e": "hung"})),
        }
    }

    /// Runs a blocking operation on the reader, which is lost when it hangs.
    fn blocking<T: Send + 'static>(
        &mut self,
        f: impl FnOnce(&mut StreamDownload<Provider>) -> T + Send + 'static,
    ) -> Option<T> {
        let mut r = self.reader.take()?;
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let v = f(&mut r);
            let _ = tx.send((v, r));
        });
        match rx.recv_timeout(PATIENCE) {
            Ok((v, r)) => {
                self.reader = Some(r);
                Some(v)
            }
            Err(_) => {
                self.push(json!({"e": "hung"}));
                None
            }
        }
    }

    fn read(&mut self, want: usize) {
        // asking the reader for its position waits for that position
        let pos = self.pos;
        let Some((data, end, err)) = self.blocking(move |r| {
            let mut data = vec![];
            let mut buf = vec![0u8; want.clamp(1, 4096)];
            while data.len() < want {
                let lim = buf.len().min(want - data.len());
                match r.read(&mut buf[..lim]) {
                    Ok(0) => return (data, true, false),
                    Ok(k) => data.extend_from_slice(&buf[..k]),
                    Err(_) => return (data, false, true),
                }
            }
            (data, false, false)
        }) else {
            return;
        };
        self.pos = pos + data.len() as u64;
        // by how much every byte differs from the generated one
        let mut shift: i64 = -1;
        for (i, b) in data.iter().enumerate() {
            let s = i64::from(b.wrapping_sub(content(pos + i as u64)));
            shift = if shift == -1 || shift == s { s } else { -2 };
            if shift == -2 {
                break;
            }
        }
        self.push(json!({"e": "rd", "p": pos, "w": want, "n": data.len(), "shift": shift, "end": end, "err": err}));
    }

    fn wait(&mut self) {
        let Some(h) = self.handle.clone() else { return };
        let ok = self
            .rt()
            .block_on(async { tokio::time::timeout(PATIENCE, h.wait_for_completion()).await.is_ok() });
        let files = self.temp_files();
        let state = self.last_state();
        self.push(if ok { json!({"e": "waited", "last": state, "files": files}) } else { json!({"e": "hung"}) });
    }

    fn settle(&mut self) {
        let t = Instant::now();
        // dropping a child only kills it, the download task also waits for it
        let gone = |s: &str| s == "gone" || (s == "zombie" && self.handle.is_none());
        while t.elapsed() < PATIENCE && (!gone(self.last_state()) || self.temp_files() != 0) {
            std::thread::sleep(Duration::from_millis(2));
        }
        let (last, files) = (self.last_state(), self.temp_files());
        self.push(json!({"e": "settled", "last": last, "files": files}));
    }

    pub fn apply(&mut self, dec: &str) {
        self.decs.push(dec.to_string());
        let (k, n) = dec.split_once(' ').unwrap_or((dec, "0"));
        let n: u64 = n.parse().unwrap_or(0);
        match k {
            "spawn" => self.spawn(),
            "create" => self.create(),
            "read" => self.read(n as usize),
            "seek" => {
                let r = self.blocking(move |r| r.seek(SeekFrom::Start(n)).ok());
                if let Some(r) = r {
                    self.pos = r.unwrap_or(self.pos);
                    self.push(json!({"e": "sk", "p": n, "ok": r == Some(n)}));
                }
            }
            "cancel" => {
                if let Some(r) = &self.reader {
                    r.cancel_download();
                    self.push(json!({"e": "cancel"}));
                }
            }
            "drop" => {
                if self.reader.is_some() || self.params.is_some() {
                    let what = if self.reader.is_some() { "reader" } else { "params" };
                    let _guard = self.rt.as_ref().map(tokio::runtime::Runtime::enter);
                    self.reader = None;
                    self.params = None;
                    drop(_guard);
                    self.push(json!({"e": "drop", "what": what}));
                }
            }
            "wait" => self.wait(),
            "settle" => self.settle(),
            _ => {}
        }
    }

    /// How much a stage of the pipeline passes on, and whether it ends
    fn available(&self) -> (u64, bool) {
        let mut n = 0;
        let mut ends = true;
        for s in words(&self.cfg["stages"]) {
            let (k, a) = s.split_once(' ').unwrap_or((&s, "0"));
            let a: u64 = a.parse().unwrap_or(0);
            match k {
                "gen" | "genfail" => n = a,
                "hang" => (n, ends) = (a, false),
                "head" if a <= n => (n, ends) = (a, true),
                "stay" => ends = false,
                _ => {}
            }
        }
        (n, ends)
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        let (n, ends) = self.available();
        self.apply("spawn");
        if self.dead {
            self.apply("settle");
            return;
        }
        if rng.pct(6) {
            self.apply("drop");
            self.apply("settle");
            return;
        }
        self.apply("create");
        if self.reader.is_none() {
            self.apply("settle");
            return;
        }
        let enough = ends || n >= self.cfg["prefetch"].as_u64().unwrap_or(0);
        let mut left = n;
        for _ in 0..rng.below(4) {
            if !enough || self.reader.is_none() {
                break;
            }
            if rng.pct(20) && n > 0 {
                let p = rng.below(n);
                self.apply(&format!("seek {p}"));
                left = n - p;
                continue;
            }
            let k = match rng.below(3) {
                0 => rng.below(6),
                _ => rng.below(left + 1),
            };
            if k <= left {
                left -= k;
                self.apply(&format!("read {k}"));
            }
        }
        let cod = self.cfg["cod"].as_bool().unwrap_or(true);
        // a child that never ends by itself has to be stopped, unless the storage fails first
        match rng.below(if ends { 6 } else { 3 }) {
            0 => {
                self.apply("cancel");
                if rng.pct(70) {
                    self.apply("wait");
                } else {
                    self.apply("drop");
                }
            }
            1 => {
                if !ends && !cod {
                    self.apply("cancel");
                }
                self.apply("drop");
            }
            2 => {
                if !ends {
                    self.apply("cancel");
                }
                if rng.pct(50) {
                    self.apply("drop");
                }
                self.apply("wait");
            }
            3 => self.apply("wait"),
            4 => {
                self.apply("drop");
                self.apply("wait");
            }
            _ => {
                self.apply(&format!("read {}", n + 10));
                self.apply("wait");
            }
        }
        self.apply("settle");
    }

    pub fn finish(mut self) -> (Lines, Vec<String>) {
        self.reader = None;
        self.params = None;
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_secs(5));
        }
        // nothing may still run once the runtime is gone
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(5) && self.last_state() == "running" {
            std::thread::sleep(Duration::from_millis(2));
        }
        let last = self.last_state();
        let files = self.temp_files();
        self.push(json!({"e": "down", "last": last, "files": files}));
        for &pid in &self.pids {
            if state_of(pid) != "gone" {
                // SAFETY: a child of this process that hasn't been reaped
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, std::ptr::null_mut(), 0);
                }
            }
        }
        for f in std::fs::read_dir(self.dir.join("tmp")).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(f.path());
        }
        (self.lines, self.decs)
    }
}

// ---------------------------------------------------------------------------------------------
// Argument lists

/// A command being built
enum Built {
    Plain(Command),
    Ffmpeg(FfmpegConvertAudioCommand),
    YtDlp(YtDlpCommand),
}

impl From<Built> for Command {
    fn from(b: Built) -> Self {
        match b {
            Built::Plain(c) => c,
            Built::Ffmpeg(c) => c.into(),
            Built::YtDlp(c) => c.into(),
        }
    }
}

impl SpawnCommand for Built {
    fn spawn(self) -> io::Result<SpawnedCommand> {
        match self {
            Built::Plain(c) => c.spawn(),
            Built::Ffmpeg(c) => Command::from(c).spawn(),
            Built::YtDlp(c) => c.spawn(),
        }
    }
}

/// Puts stand-ins that print their name and arguments into `dir`: programs that then copy their input.
pub fn stand_ins(dir: &Path) {
    let script = "#!/bin/sh\nprintf '%s\\0' \"${0##*/}\" \"$#\" \"$@\"\nexec cat\n";
    for name in ["ffmpeg", "yt-dlp", "tool", "my tool"] {
        let p = dir.join(name);
        std::fs::write(&p, script).expect("script");
        let _ = std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755));
    }
}

const WORDS: &[&str] = &["-x", "-", "a b", "", "-f", "mp3", "--", "ü", "$HOME", "a\"b", "*", "pipe:", "x;y", "-i", "\\n", "'"];

pub struct CmdRun<'a> {
    dir: &'a Path,
    lines: Lines,
    decs: Vec<String>,
    rt: tokio::runtime::Runtime,
    done: Vec<Built>,
    cur: Option<Built>,
    args: usize,
}

impl<'a> CmdRun<'a> {
    pub fn start(sid: u64, profile: &str, dir: &'a Path) -> CmdRun<'a> {
        CmdRun {
            dir,
            lines: vec![json!({"e": "reset", "sid": sid, "profile": profile}).to_string()],
            decs: vec![],
            rt: tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"),
            done: vec![],
            cur: None,
            args: 0,
        }
    }

    /// `["call", arguments..]`
    pub fn apply(&mut self, dec: &str) {
        let w = serde_json::from_str::<Value>(dec).map(|v| words(&v)).unwrap_or_default();
        let Some((call, rest)) = w.split_first() else { return };
        let a = || rest.first().cloned().unwrap_or_default();
        if call == "run" {
            self.decs.push(dec.into());
            self.run();
            return;
        }
        let path = self.dir.join(a());
        let next = match (call.as_str(), self.cur.take()) {
            ("plain", prev) => {
                self.done.extend(prev);
                self.args = 0;
                Built::Plain(Command::new(path))
            }
            ("ffmpeg", prev) => {
                self.done.extend(prev);
                Built::Ffmpeg(FfmpegConvertAudioCommand::new(a()))
            }
            ("ytdlp", prev) => {
                self.done.extend(prev);
                Built::YtDlp(YtDlpCommand::new(a()))
            }
            ("arg", Some(Built::Plain(c))) => {
                self.args += 1;
                Built::Plain(c.arg(a()))
            }
            ("args", Some(Built::Plain(c))) => {
                self.args += rest.len();
                Built::Plain(c.args(rest))
            }
            ("insert", Some(Built::Plain(c))) => {
                let i = a().parse::<usize>().unwrap_or(0).min(self.args);
                self.args += 1;
                Built::Plain(c.insert_arg(i, rest.get(1).cloned().unwrap_or_default()))
            }
            ("arg", Some(Built::Ffmpeg(c))) => Built::Ffmpeg(c.arg(a())),
            ("args", Some(Built::Ffmpeg(c))) => Built::Ffmpeg(c.args(rest)),
            ("path", Some(Built::Ffmpeg(c))) => Built::Ffmpeg(c.ffmpeg_path(path)),
            ("path", Some(Built::YtDlp(c))) => Built::YtDlp(c.yt_dlp_path(path)),
            ("audio", Some(Built::YtDlp(c))) => Built::YtDlp(c.extract_audio(a() == "yes")),
            ("format", Some(Built::YtDlp(c))) => Built::YtDlp(c.format(a())),
            (_, other) => {
                self.cur = other;
                return;
            }
        };
        self.cur = Some(next);
        self.decs.push(dec.into());
        self.lines.push(json!({"e": "call", "c": call, "a": rest}).to_string());
    }

    fn run(&mut self) {
        let Some(last) = self.cur.take() else { return };
        let mut all: Vec<Built> = std::mem::take(&mut self.done);
        all.push(last);
        let n = all.len();
        let params = {
            let _guard = self.rt.enter();
            if n == 1 {
                ProcessStreamParams::new(all.remove(0))
            } else {
                let mut it = all.into_iter();
                let first = it.next().expect("command");
                let b = it.fold(CommandBuilder::new(first), CommandBuilder::pipe);
                ProcessStreamParams::new(b)
            }
        };
        let Ok(params) = params else {
            self.lines.push(json!({"e": "argv", "ok": false, "all": []}).to_string());
            return;
        };
        let out = self.rt.block_on(async {
            tokio::time::timeout(PATIENCE, async {
                let r = StreamDownload::new_process(params, MemoryStorageProvider, Settings::default()).await.ok()?;
                tokio::task::spawn_blocking(move || {
                    let (mut r, mut v) = (r, vec![]);
                    r.read_to_end(&mut v).ok().map(|_| v)
                })
                .await
                .ok()?
            })
            .await
        });
        // name, number of arguments, arguments; of the last program first
        let ok = matches!(out, Ok(Some(_)));
        let mut all = vec![];
        if let Ok(Some(v)) = out {
            let text = String::from_utf8_lossy(&v).into_owned();
            let mut parts = text.split('\0').map(String::from);
            while let (Some(name), Some(k)) = (parts.next(), parts.next()) {
                let k: usize = k.parse().unwrap_or(0);
                let args: Vec<String> = parts.by_ref().take(k).collect();
                all.push(json!({"name": name, "args": args}));
            }
        }
        all.reverse();
        self.lines.push(json!({"e": "argv", "ok": ok, "all": all}).to_string());
    }

    pub fn explore(&mut self, rng: &mut Rng) {
        let call = |c: &str, a: &[&str]| {
            let mut v = vec![c];
            v.extend_from_slice(a);
            json!(v).to_string()
        };
        for _ in 0..rng.range(1, 3) {
            let first = rng.below(3);
            match first {
                0 => self.apply(&call("plain", &[rng.pick(&["tool", "my tool"])])),
                1 => self.apply(&call("ffmpeg", &[rng.pick(WORDS)])),
                _ => self.apply(&call("ytdlp", &[rng.pick(&["http://h.com/v?a=b&c", "ü", "", "-", "-x"])])),
            }
            for _ in 0..rng.below(6) {
                let some: Vec<&str> = (0..rng.below(4)).map(|_| *rng.pick(WORDS)).collect();
                let idx = rng.below(self.args as u64 + 1).to_string();
                let d = match (rng.below(4), first) {
                    (0 | 1, 2) => call("format", &[rng.pick(WORDS)]),
                    (2, 2) => call("audio", &[rng.pick(&["yes", "no"])]),
                    (3, 1 | 2) => call("path", &[rng.pick(&["tool", "my tool"])]),
                    (0, _) => call("args", &some),
                    (3, _) => call("insert", &[&idx, rng.pick(WORDS)]),
                    _ => call("arg", &[rng.pick(WORDS)]),
                };
                self.apply(&d);
            }
        }
        self.apply(r#"["run"]"#);
    }

    pub fn finish(self) -> (Lines, Vec<String>) {
        (self.lines, self.decs)
    }
}
