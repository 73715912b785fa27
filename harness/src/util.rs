//! Small helpers: seeded randomness and reading a thread's run state.
use std::fs::File;
use std::os::unix::fs::FileExt;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n` (0 when n is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1).max(1) as u64) as i64
    }
    /// True with probability pct/100.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
}

/// The source's byte at an absolute position; never zero, so filler is recognisable.
pub fn content(i: u64) -> u8 {
    ((i * 37 + 11) % 251 + 1) as u8
}

#[allow(dead_code)]
pub fn content_range(from: u64, to: u64) -> Vec<u8> {
    (from..to).map(content).collect()
}

pub fn gettid() -> i32 {
    // /proc/thread-self is a link to <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().map(String::from)))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

pub struct StatFile(File);

impl StatFile {
    pub fn open(tid: i32) -> Option<Self> {
        File::open(format!("/proc/self/task/{tid}/stat")).ok().map(StatFile)
    }
    /// Whether the thread is sleeping in the kernel (or gone).
    pub fn asleep(&self) -> bool {
        let mut buf = [0u8; 64];
        match self.0.read_at(&mut buf, 0) {
            Ok(n) => {
                let s = &buf[..n];
                match s.iter().rposition(|&c| c == b')') {
                    Some(i) if i + 2 < n => matches!(s[i + 2], b'S' | b'Z' | b'X'),
                    _ => true,
                }
            }
            Err(_) => true,
        }
    }
}

pub fn opt(v: Option<u64>) -> i64 {
    v.map_or(-1, |v| i64::try_from(v).unwrap_or(i64::MAX))
}
