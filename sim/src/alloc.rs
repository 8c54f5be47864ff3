//! Global allocator with per-thread accounting: live and peak bytes of the code
//! under test, a limit that plays the role of the machine's memory, and a
//! scheduling point for the session simulator. What an operation holds on to is
//! counted over all threads, since it may have helpers.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct SimAlloc;

#[derive(Clone, Copy)]
struct Acc {
    on: bool,
    live: i64,
    peak: i64,
    limit: i64,
    largest: usize,
    total: u64,
    count: u64,
    work: u64,
    per: u64,
}

const OFF: Acc = Acc { on: false, live: 0, peak: 0, limit: i64::MAX, largest: 0, total: 0, count: 0, work: u64::MAX, per: 0 };

thread_local! {
    static ACC: Cell<Acc> = const { Cell::new(OFF) };
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: i64,
    pub largest: usize,
    pub leaked: i64,
    /// Bytes and number of all allocations together.
    pub total: u64,
    pub count: u64,
}

/// Runs `f` with accounting from zero; allocations beyond `limit` live bytes fail.
pub fn measured<T>(limit: i64, f: impl FnOnce() -> T) -> (T, Usage) {
    ACC.with(|a| {
        let v = a.get();
        a.set(Acc { on: true, limit, work: v.work, per: v.per, ..OFF });
    });
    let r = f();
    let acc = ACC.with(|a| {
        let v = a.get();
        a.set(Acc { work: v.work, per: v.per, ..OFF });
        v
    });
    (r, Usage { peak: acc.peak, largest: acc.largest, leaked: acc.live, total: acc.total, count: acc.count })
}

static COUNTING: AtomicBool = AtomicBool::new(false);
static HELD: AtomicI64 = AtomicI64::new(0);

/// Bytes allocated and not freed again by any thread while `f` ran.
pub fn held_after(f: impl FnOnce()) -> i64 {
    HELD.store(0, Relaxed);
    COUNTING.store(true, Relaxed);
    f();
    COUNTING.store(false, Relaxed);
    HELD.load(Relaxed)
}

/// From now on allocations fail once they cost more than `work` in one
/// measurement, each counting its bytes and `per`.
pub fn work_limit(work: u64, per: u64) {
    ACC.with(|a| {
        let v = a.get();
        a.set(Acc { work, per, ..v });
    });
}

#[inline]
fn grow(by: usize, size: usize) -> bool {
    if COUNTING.load(Relaxed) {
        HELD.fetch_add(by as i64, Relaxed);
    }
    ACC.try_with(|a| {
        let mut v = a.get();
        if !v.on {
            return true;
        }
        if v.live + by as i64 > v.limit {
            return false;
        }
        v.total += size as u64;
        v.count += 1;
        if v.total + v.per * v.count > v.work {
            return false;
        }
        v.live += by as i64;
        v.largest = v.largest.max(by);
        if v.live > v.peak {
            v.peak = v.live;
        }
        a.set(v);
        true
    })
    .unwrap_or(true)
}
#[inline]
fn shrink(by: usize) {
    if COUNTING.load(Relaxed) {
        HELD.fetch_sub(by as i64, Relaxed);
    }
    let _ = ACC.try_with(|a| {
        let mut v = a.get();
        if v.on {
            v.live -= by as i64;
            a.set(v);
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !grow(l.size(), l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !grow(l.size(), l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Old and new block exist at the same time while the data is moved.
        if n > l.size() {
            if !grow(n - l.size(), n) {
                return std::ptr::null_mut();
            }
        } else {
            shrink(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static A: SimAlloc = SimAlloc;
