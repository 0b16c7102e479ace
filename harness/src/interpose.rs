//! Symbol interposition: this binary defines `clock_gettime`, `nanosleep`,
//! `clock_nanosleep`, `sched_yield` and `syscall`, so that the standard library,
//! parking_lot and moka (all statically linked) reach these definitions instead of
//! libc's. Threads under test thereby run on a virtual clock, and (concurrent
//! engine) block and wake under the control of the harness' scheduler.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

thread_local! {
    /// 0: real time. 1: thread-local virtual clock. 2: managed by the scheduler
    /// (global virtual clock, every clock read is a scheduling point).
    pub static MODE: Cell<u8> = const { Cell::new(0) };
    static VNOW: Cell<u64> = const { Cell::new(0) };
    pub static SLEEPS: Cell<u64> = const { Cell::new(0) };
}

pub static GNOW: AtomicU64 = AtomicU64::new(0);

pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret: i64;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_NANOSLEEP: i64 = 35;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
const SYS_SCHED_YIELD: i64 = 24;

pub fn real_now() -> u64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe { raw_syscall(SYS_CLOCK_GETTIME, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.sec as u64 * 1_000_000_000 + ts.nsec as u64
}

pub fn virt_enable(start: u64) {
    MODE.with(|m| m.set(1));
    VNOW.with(|v| v.set(start));
    SLEEPS.with(|s| s.set(0));
}
pub fn virt_disable() {
    MODE.with(|m| m.set(0));
}
pub fn vnow() -> u64 {
    VNOW.with(|v| v.get())
}
pub fn vadvance(ns: u64) {
    VNOW.with(|v| v.set(v.get() + ns));
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let mode = if clk == 0 { 0 } else { MODE.try_with(|m| m.get()).unwrap_or(0) };
    match mode {
        1 => {
            let t = vnow();
            (*ts).sec = (t / 1_000_000_000) as i64;
            (*ts).nsec = (t % 1_000_000_000) as i64;
            0
        }
        2 => {
            crate::sched::yield_point(crate::sched::Y_CLOCK);
            let t = GNOW.fetch_add(1, Ordering::SeqCst);
            (*ts).sec = (t / 1_000_000_000) as i64;
            (*ts).nsec = (t % 1_000_000_000) as i64;
            0
        }
        _ => ret(raw_syscall(SYS_CLOCK_GETTIME, clk as usize, ts as usize, 0, 0, 0, 0)) as i32,
    }
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

/// A sleep under the virtual clock: nobody else runs on this thread, so sleeping
/// just advances time. An op that sleeps for ever is stuck.
fn virt_sleep() -> bool {
    match MODE.try_with(|m| m.get()).unwrap_or(0) {
        1 => {
            let n = SLEEPS.with(|s| {
                s.set(s.get() + 1);
                s.get()
            });
            if n > 200_000 {
                crate::runner::die_stuck("a single-threaded operation slept 200000 times without making progress");
            }
            vadvance(1_000);
            true
        }
        2 => {
            crate::sched::yield_sleep();
            true
        }
        _ => false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const Timespec, b: *mut Timespec) -> i32 {
    if virt_sleep() {
        return 0;
    }
    ret(raw_syscall(SYS_NANOSLEEP, a as usize, b as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, a: *const Timespec, b: *mut Timespec) -> i32 {
    if virt_sleep() {
        return 0;
    }
    let r = raw_syscall(SYS_CLOCK_NANOSLEEP, clk as usize, flags as usize, a as usize, b as usize, 0, 0);
    (-r) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if MODE.try_with(|m| m.get()).unwrap_or(0) == 2 {
        crate::sched::yield_sleep();
        return 0;
    }
    ret(raw_syscall(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == SYS_FUTEX {
        let _q = crate::sched::Quiet::new();
        let mode = MODE.try_with(|m| m.get()).unwrap_or(0);
        if mode != 0 {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                // FUTEX_WAIT / FUTEX_WAIT_BITSET
                let cur = (*(a as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst);
                if cur != c as u32 {
                    *__errno_location() = 11; // EAGAIN
                    return -1;
                }
                if mode == 1 {
                    if d == 0 {
                        crate::runner::die_stuck("a single-threaded operation blocked on a lock that nobody can release (self-deadlock)");
                    }
                    *__errno_location() = 110;
                    return -1;
                }
                let timed = d != 0;
                if crate::sched::futex_block(a, timed) {
                    return 0;
                }
                *__errno_location() = 110; // ETIMEDOUT
                return -1;
            } else if op == 1 || op == 10 {
                // FUTEX_WAKE / FUTEX_WAKE_BITSET
                if mode == 2 {
                    crate::sched::futex_wake(a, c);
                }
            }
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
