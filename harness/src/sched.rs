//! Cooperative scheduler: the download thread (D) and the reader thread (R) stop at gates and run
//! only when granted a step, everything else is decided by the controller.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

use crate::core::Ctx;
use crate::util::{StatFile, gettid};

pub const D: usize = 0;
pub const R: usize = 1;
pub const W: usize = 2;

thread_local! {
    static ROLE: RefCell<Option<(usize, Arc<Ctx>)>> = const { RefCell::new(None) };
}

#[derive(Default)]
struct St {
    at: [Option<&'static str>; 2],
    go: [bool; 2],
    dead: [bool; 3],
    free: bool,
}

#[derive(Default)]
pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
    stat: [OnceLock<StatFile>; 3],
    pub arrivals: AtomicU64,
}

/// Registers the current thread.
pub fn enter(role: usize, ctx: &Arc<Ctx>) {
    if let Some(f) = StatFile::open(gettid()) {
        let _ = ctx.sched.stat[role].set(f);
    }
    ROLE.with(|r| *r.borrow_mut() = Some((role, ctx.clone())));
}

pub fn leave(role: usize, ctx: &Arc<Ctx>) {
    ROLE.with(|r| *r.borrow_mut() = None);
    ctx.sched.st.lock().unwrap().dead[role] = true;
}

/// Scheduling point; a no-op on threads that aren't scheduled.
pub fn gate(label: &'static str) {
    let cur = ROLE.with(|r| r.borrow().clone());
    if let Some((role, ctx)) = cur {
        if role < 2 {
            ctx.sched.wait(role, label);
        }
    }
}

impl Sched {
    fn wait(&self, role: usize, label: &'static str) {
        let mut st = self.st.lock().unwrap();
        if st.free {
            return;
        }
        self.arrivals.fetch_add(1, Ordering::SeqCst);
        st.at[role] = Some(label);
        while !st.go[role] && !st.free {
            st = self.cv.wait(st).unwrap();
        }
        st.go[role] = false;
        st.at[role] = None;
    }

    pub fn at(&self, role: usize) -> Option<&'static str> {
        self.st.lock().unwrap().at[role]
    }

    pub fn dead(&self, role: usize) -> bool {
        self.st.lock().unwrap().dead[role]
    }

    pub fn grant(&self, role: usize) {
        let mut st = self.st.lock().unwrap();
        if st.at[role].is_some() {
            st.go[role] = true;
            self.cv.notify_all();
        }
    }

    pub fn free_run(&self) {
        let mut st = self.st.lock().unwrap();
        st.free = true;
        self.cv.notify_all();
    }

    fn asleep(&self, role: usize) -> bool {
        self.stat[role].get().is_some_and(StatFile::asleep)
    }

    fn stopped(&self, roles: &[usize]) -> bool {
        for &role in roles {
            {
                let st = self.st.lock().unwrap();
                if st.dead[role] {
                    continue;
                }
                if role < 2 {
                    if st.go[role] {
                        return false;
                    }
                    if st.at[role].is_some() {
                        continue;
                    }
                }
            }
            if !self.asleep(role) {
                return false;
            }
        }
        true
    }

    /// Waits until D and R are at a gate or blocked, and W is blocked.
    pub fn settle(&self) {
        let mut ok = 0;
        let mut spins = 0u32;
        let t0 = std::time::Instant::now();
        while ok < 2 {
            if spins > 200_000 && spins % 1024 == 0 && t0.elapsed().as_secs() > 30 {
                // caught by the caller, which records that a thread never stopped
                panic!("scripted: hung");
            }
            if self.stopped(&[D, R, W]) {
                ok += 1;
            } else {
                ok = 0;
                spins = spins.wrapping_add(1);
                if spins > 50 {
                    std::thread::yield_now();
                }
            }
        }
    }

    /// Whether all threads stay blocked for a while without reaching a gate.
    pub fn stays_blocked(&self, samples: u32) -> bool {
        let before = self.arrivals.load(Ordering::SeqCst);
        // give them the time to go to sleep first
        let t0 = std::time::Instant::now();
        while !self.stopped(&[D, R, W]) {
            if t0.elapsed().as_millis() > 500 {
                return false;
            }
            std::thread::yield_now();
        }
        for _ in 0..samples {
            if !self.stopped(&[D, R, W]) {
                return false;
            }
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
        before == self.arrivals.load(Ordering::SeqCst)
            && self.at(D).is_none()
            && self.at(R).is_none()
    }
}
