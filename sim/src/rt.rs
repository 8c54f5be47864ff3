//! Seams around the process: panics are caught at the boundary of the code under
//! test, random numbers come from the run's seed, and waits on locks become
//! scheduling points.

use crate::simio::{InjectedPanic, StepLimit};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// How a call into the code under test ended.
pub enum Out<T> {
    Ret(T),
    Panic(String),
    /// The stream's call budget ran out.
    Limit,
    /// The simulated stream itself panicked, as planned.
    Injected,
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static SEED: Cell<u64> = const { Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

unsafe extern "C" {
    fn personality(persona: u64) -> i32;
}

/// Processes started from here on get the same address layout every time, so that
/// code which (wrongly) depends on addresses replays too. Best effort.
pub fn fix_addresses() {
    const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        personality(ADDR_NO_RANDOMIZE);
    }
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

unsafe extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread in microseconds.
pub fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000 + t.ns as u64 / 1000
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Out::Ret(v),
        Err(p) => {
            if p.is::<StepLimit>() {
                Out::Limit
            } else if p.is::<InjectedPanic>() {
                Out::Injected
            } else {
                Out::Panic(last_panic())
            }
        }
    }
}

/// Random bytes the standard library asks for on this thread from now on.
pub fn seed_thread(seed: u64) {
    SEED.with(|s| s.set(seed | 1));
}

/// Runs `f` on a new thread with hash seeds of its own, like another process.
pub fn fresh<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    let h = std::thread::Builder::new().stack_size(crate::driver::STACK).spawn(move || {
        seed_thread(seed);
        f()
    });
    match h.map(|h| h.join()) {
        Ok(Ok(v)) => v,
        _ => {
            eprintln!("HARNESS-ERROR: cannot run a thread");
            std::process::exit(3)
        }
    }
}

pub const EXIT_DEADLOCK: i32 = 97;

pub fn die_deadlocked() -> ! {
    unsafe { _exit(EXIT_DEADLOCK) }
}

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

fn fill(buf: *mut u8, n: usize) {
    let mut r = crate::ctx::Rng::new(SEED.try_with(|s| s.get()).unwrap_or(1));
    for i in 0..n {
        unsafe { *buf.add(i) = r.next() as u8 };
    }
}

/// Replaces the C library's function: hash seeds are part of the run.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    fill(buf, n);
    n as isize
}

#[unsafe(no_mangle)]
pub extern "C" fn sched_yield() -> i32 {
    if crate::sched::in_session() {
        crate::sched::wait_point();
    } else {
        unsafe { raw_syscall(24, 0, 0, 0, 0, 0, 0) };
    }
    0
}

unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    }
    r
}

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;

/// Replaces the C library's `syscall`, through which the standard library waits
/// on locks. A session that would wait hands over to another one instead and
/// then looks at the lock again.
///
/// # Safety
/// Same contract as the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_GETRANDOM {
        fill(a as *mut u8, b);
        return b as i64;
    }
    if n == SYS_FUTEX && crate::sched::in_session() {
        let op = b & 0x7F;
        if op == 0 || op == 9 {
            crate::sched::wait_point();
            unsafe { *__errno_location() = 11 };
            return -1;
        }
    }
    let r = unsafe { raw_syscall(n, a, b, c, d, e, f) };
    if r < 0 {
        unsafe { *__errno_location() = (-r) as i32 };
        return -1;
    }
    r
}
