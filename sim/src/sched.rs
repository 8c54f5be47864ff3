//! Baton scheduler for sessions: real threads, exactly one of which runs at any
//! time. Who runs next is decided here, from choices drawn before the run, at
//! stream calls, allocations, and waits on locks.

use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

pub struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}

struct State {
    current: usize,
    done: Vec<bool>,
    /// (points until the next preemption, which of the others runs then)
    plan: Vec<(u64, usize)>,
    next: usize,
    left: u64,
    switches: u64,
    points: u64,
    waits: u64,
    digest: u64,
    stuck: u64,
}

thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static IN: Cell<bool> = const { Cell::new(false) };
}

pub struct Summary {
    pub switches: u64,
    pub points: u64,
    pub waits: u64,
    pub digest: u64,
    pub stuck: bool,
}

impl Sched {
    pub fn new(n: usize, plan: Vec<(u64, usize)>, first: usize) -> Arc<Self> {
        let left = plan.first().map(|p| p.0).unwrap_or(0);
        Arc::new(Sched {
            m: Mutex::new(State {
                current: first % n,
                done: vec![false; n],
                plan,
                next: 0,
                left,
                switches: 0,
                points: 0,
                waits: 0,
                digest: 0,
                stuck: 0,
            }),
            cv: Condvar::new(),
        })
    }

    fn quiet<T>(f: impl FnOnce() -> T) -> T {
        let was = IN.with(|i| i.replace(true));
        let r = f();
        IN.with(|i| i.set(was));
        r
    }

    /// Registers the calling thread as `id` and waits for its turn.
    pub fn enter(self: &Arc<Self>, id: usize) {
        Self::quiet(|| {
            let g = self.m.lock().unwrap();
            let g = self.cv.wait_while(g, |s| s.current != id).unwrap();
            drop(g);
        });
        ME.with(|m| m.set((Arc::as_ptr(self), id)));
    }

    /// Deregisters the calling thread and passes the baton on.
    pub fn leave(self: &Arc<Self>, id: usize) {
        ME.with(|m| m.set((std::ptr::null(), 0)));
        Self::quiet(|| {
            let mut s = self.m.lock().unwrap();
            s.done[id] = true;
            if let Some(n) = (1..s.done.len()).map(|d| (id + d) % s.done.len()).find(|i| !s.done[*i]) {
                s.current = n;
                s.digest = s.digest.rotate_left(5).wrapping_mul(31).wrapping_add(n as u64 + 100);
            }
            drop(s);
            self.cv.notify_all();
        });
    }

    fn switch(&self, id: usize, hint: usize) {
        Self::quiet(|| {
            let mut s = self.m.lock().unwrap();
            let others: Vec<usize> = (0..s.done.len()).filter(|i| *i != id && !s.done[*i]).collect();
            if others.is_empty() {
                return;
            }
            let n = others[hint % others.len()];
            s.current = n;
            s.switches += 1;
            s.digest = (s.digest ^ s.points).wrapping_mul(0x9FB2_1C65_1E98_DF25).rotate_left(17) ^ n as u64;
            self.cv.notify_all();
            let g = self.cv.wait_while(s, |s| s.current != id).unwrap();
            drop(g);
        });
    }

    fn tick(&self, id: usize) {
        let hint = Self::quiet(|| {
            let mut s = self.m.lock().unwrap();
            s.points += 1;
            s.stuck = 0;
            if s.next >= s.plan.len() || s.plan[s.next].0 == 0 {
                return None;
            }
            s.left -= 1;
            if s.left > 0 {
                return None;
            }
            let h = s.plan[s.next].1;
            s.next += 1;
            s.left = s.plan.get(s.next).map(|p| p.0).unwrap_or(0);
            Some(h)
        });
        if let Some(h) = hint {
            self.switch(id, h);
        }
    }

    /// A lock is held by somebody else: let the others run, round robin.
    fn blocked(&self, id: usize) {
        let give_up = Self::quiet(|| {
            let mut s = self.m.lock().unwrap();
            s.waits += 1;
            s.stuck += 1;
            s.stuck > 20_000
        });
        if give_up {
            // Every session waits: a deadlock. The watchdog would see a hang;
            // report it at once instead.
            crate::rt::die_deadlocked();
        }
        let n = Self::quiet(|| self.m.lock().unwrap().done.len());
        // switch() indexes the others in order; the next one after us
        let h = Self::quiet(|| {
            let s = self.m.lock().unwrap();
            let others: Vec<usize> = (0..n).filter(|i| *i != id && !s.done[*i]).collect();
            others.iter().position(|o| *o > id).unwrap_or(0)
        });
        self.switch(id, h);
    }

    pub fn summary(&self) -> Summary {
        Self::quiet(|| {
            let s = self.m.lock().unwrap();
            Summary { switches: s.switches, points: s.points, waits: s.waits, digest: s.digest, stuck: s.stuck > 20_000 }
        })
    }
}

/// A point at which another session may be scheduled. Nothing happens on threads
/// that are not sessions.
#[inline]
pub fn point() {
    let _ = ME.try_with(|m| {
        let (p, id) = m.get();
        if !p.is_null() && !IN.with(|i| i.get()) {
            unsafe { &*p }.tick(id);
        }
    });
}

/// True if the calling thread is a session (and not inside the scheduler).
pub fn in_session() -> bool {
    ME.try_with(|m| !m.get().0.is_null()).unwrap_or(false) && !IN.try_with(|i| i.get()).unwrap_or(true)
}

pub fn wait_point() {
    let _ = ME.try_with(|m| {
        let (p, id) = m.get();
        if !p.is_null() {
            unsafe { &*p }.blocked(id);
        }
    });
}
