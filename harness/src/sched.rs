//! Deterministic cooperative scheduler for real OS threads. Exactly one managed
//! thread runs at a time (it "holds the baton"). Scheduling points are: reads of the
//! clock, contended futex waits, sleeps, and every user callback reachable from the
//! cache (Hash, Eq, Clone, weigher, expiry, listener, init closures, predicates).
//! The next thread is chosen from the case's choice sequence.

use crate::choices::Src;
use crate::interpose::{raw_syscall, MODE};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const Y_CLOCK: u8 = 0;
pub const Y_HASH: u8 = 1;
pub const Y_EQ: u8 = 2;
pub const Y_CLONE: u8 = 3;
pub const Y_CALLBACK: u8 = 4;
pub const Y_OP: u8 = 5;

pub const MAXT: usize = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Blocked(usize, bool),
    Done,
}

struct Sched {
    n: usize,
    cur: usize,
    st: [St; MAXT],
    timed_out: [bool; MAXT],
    src: *mut Src,
    steps: u64,
    switches: u64,
    strat: Strat,
    max_steps: u64,
    fine: Option<Fine>,
}

enum Strat {
    /// switch with probability num/den at each point
    Rand { den: u32 },
    /// PCT: priorities and change points
    Pct { prio: [i32; MAXT], points: Vec<u64>, low: i32 },
}

/// Fine-grained preemption: every atomic access of the code under test (see tsan.c) is
/// a scheduling point too. Whether a thread is preempted there is a hash of the case's
/// seed, the thread, the place in the code and how often the thread has been there, so
/// that a case can be repeated although the amount of work of the epoch-based memory
/// reclamation depends on the cases that came before.
struct Fine {
    seed: u64,
    den: u64,
    /// only at one in `hot` places
    hot: u64,
    /// only at the first visits of a place
    novel: bool,
    /// at most so often (0 = no limit)
    budget: u64,
    points: u64,
    preempts: u64,
    limit: u64,
}
const NSITE: usize = 4096;
/// (number of the switch, visits since then)
static mut RUNS: [[(u64, u32); NSITE]; MAXT] = [[(0, 0); NSITE]; MAXT];
static mut CNT: [[u32; NSITE]; MAXT] = [[0; NSITE]; MAXT];

extern "C" {
    static mut mvh_fine_on: i32;
    fn mvh_fine_inc(d: i32);
    static mut mvh_points: u64;
}

/// A new case begins.
pub fn reset_points() {
    unsafe { mvh_points = 0 };
}

#[no_mangle]
pub extern "C" fn mvh_points_out() {
    crate::runner::die_stuck("the case made 1,500,000,000 atomic accesses without finishing");
}

/// No fine-grained scheduling points during its life.
pub struct Quiet;
impl Quiet {
    pub fn new() -> Self {
        unsafe { mvh_fine_inc(1) };
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe { mvh_fine_inc(-1) };
    }
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^ (x >> 32)
}

#[no_mangle]
pub extern "C" fn mvh_fine_point(site: usize) {
    if NOYIELD.with(|n| n.get()) > 0 {
        return;
    }
    let s = s();
    let me = s.cur;
    let Some(f) = &mut s.fine else { return };
    f.points += 1;
    if f.points > f.limit {
        crate::runner::die_stuck("the threads made 100,000,000 atomic accesses without finishing");
    }
    let h = mix(f.seed ^ (site as u64) << 20);
    let run = unsafe { &mut RUNS[me][(h >> 20) as usize % NSITE] };
    *run = if run.0 == s.switches { (run.0, run.1 + 1) } else { (s.switches, 1) };
    let fair = run.1 > 20_000;
    if h % f.hot != 0 && !fair {
        return;
    }
    let n = unsafe { &mut CNT[me][(h >> 20) as usize % NSITE] };
    *n += 1;
    let h = mix(h ^ (*n as u64) << 3 ^ me as u64);
    if (h % f.den != 0 || f.novel && *n > 2 || f.budget > 0 && f.preempts >= f.budget || f.points > 3_000_000) && !fair {
        return;
    }
    // `fair` ends busy waiting at a place where this case never preempts. After three
    // million accesses nothing else does, so that cases with much of it end too.
    f.preempts += !fair as u64;
    let others: Vec<usize> = s.runnable().filter(|&i| i != me).collect();
    if !others.is_empty() {
        s.switch_to(others[(h >> 40) as usize % others.len()]);
    }
}

static mut S: Option<Sched> = None;
static ACTIVE: AtomicBool = AtomicBool::new(false);
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static CTRL: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NOYIELD: Cell<u32> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

fn fwait(a: &AtomicU32, v: u32) {
    unsafe { raw_syscall(202, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
fn fwake(a: &AtomicU32) {
    unsafe { raw_syscall(202, a as *const _ as usize, 129, 1, 0, 0, 0) };
}

fn wait_baton(t: usize) {
    let mut spins = 0;
    loop {
        if GO[t].compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return;
        }
        spins += 1;
        if spins > 50 {
            fwait(&GO[t], 0);
        } else {
            std::hint::spin_loop();
        }
    }
}
fn give_baton(t: usize) {
    GO[t].store(1, Ordering::SeqCst);
    fwake(&GO[t]);
}

pub fn tid() -> usize {
    TID.with(|t| t.get())
}
pub fn managed() -> bool {
    MODE.try_with(|m| m.get() == 2).unwrap_or(false)
}

/// Runs `f` without scheduling points (harness-internal bookkeeping).
pub fn no_yield<T>(f: impl FnOnce() -> T) -> T {
    NOYIELD.with(|n| n.set(n.get() + 1));
    let r = f();
    NOYIELD.with(|n| n.set(n.get() - 1));
    r
}

impl Sched {
    fn runnable(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.n).filter(|&i| self.st[i] == St::Run)
    }
    fn draw(&mut self, n: u32) -> u32 {
        unsafe { (*self.src).draw(n) }
    }
    /// Choose who runs next; `must` = the current thread cannot continue.
    fn choose(&mut self, must: bool, sleeping: bool) -> Option<usize> {
        let cands: Vec<usize> = self.runnable().filter(|&i| !must || i != self.cur).collect();
        if cands.is_empty() {
            return None;
        }
        if cands.len() == 1 {
            return Some(cands[0]);
        }
        if self.steps > self.max_steps {
            // Fair mode: round robin.
            let c = self.cur;
            if !must && !sleeping && self.steps % 64 != 0 {
                return Some(c);
            }
            return cands.iter().copied().find(|&i| i > c).or(Some(cands[0]));
        }
        let cur = self.cur;
        if let Strat::Pct { prio, points, low } = &mut self.strat {
            if points.contains(&self.steps) || sleeping {
                *low -= 1;
                prio[cur] = *low;
            }
            return cands.iter().copied().max_by_key(|&i| prio[i]);
        }
        let den = if let Strat::Rand { den } = self.strat { den } else { 2 };
        if must || sleeping {
            let k = self.draw(cands.len() as u32) as usize;
            return Some(cands[k]);
        }
        if self.draw(den) == den - 1 {
            let others: Vec<usize> = cands.into_iter().filter(|&i| i != cur).collect();
            let k = self.draw(others.len() as u32) as usize;
            Some(others[k])
        } else {
            Some(cur)
        }
    }
    fn switch_to(&mut self, t: usize) {
        let me = self.cur;
        if t == me {
            return;
        }
        self.cur = t;
        self.switches += 1;
        give_baton(t);
        wait_baton(me);
    }
}

pub fn yield_point(_kind: u8) {
    if !managed() || NOYIELD.with(|n| n.get()) > 0 {
        return;
    }
    let _q = Quiet::new();
    step(false);
}

pub fn yield_sleep() {
    if !managed() {
        return;
    }
    let _q = Quiet::new();
    step(true);
}

fn step(sleeping: bool) {
    let s = s();
    s.steps += 1;
    if s.steps > s.max_steps + 8_000_000 {
        crate::runner::die_stuck("the threads made 8,000,000 steps under fair scheduling without finishing");
    }
    if let Some(t) = s.choose(false, sleeping) {
        s.switch_to(t);
    }
}

/// Returns true when woken, false on timeout.
pub fn futex_block(addr: usize, timed: bool) -> bool {
    let _q = Quiet::new();
    let s = s();
    let me = s.cur;
    s.steps += 1;
    s.st[me] = St::Blocked(addr, timed);
    s.timed_out[me] = false;
    match s.choose(true, false) {
        Some(t) => s.switch_to(t),
        None => {
            // Nobody is runnable: fire a timeout if there is one.
            let timed: Vec<usize> = (0..s.n).filter(|&i| matches!(s.st[i], St::Blocked(_, true))).collect();
            if timed.is_empty() {
                let d = format!("all threads are blocked: {:?}", &s.st[..s.n]);
                crate::runner::die_deadlock(&d);
            }
            let t = timed[0];
            s.st[t] = St::Run;
            s.timed_out[t] = true;
            s.switch_to(t);
        }
    }
    !s.timed_out[me]
}

pub fn futex_wake(addr: usize, n: usize) {
    let _q = Quiet::new();
    let s = s();
    let mut k = 0;
    for i in 0..s.n {
        if k >= n {
            break;
        }
        if let St::Blocked(a, _) = s.st[i] {
            if a == addr {
                s.st[i] = St::Run;
                s.timed_out[i] = false;
                k += 1;
            }
        }
    }
}

fn finish() {
    let s = s();
    let me = s.cur;
    s.st[me] = St::Done;
    let next = s.choose(true, false);
    match next {
        Some(t) => {
            s.cur = t;
            give_baton(t);
        }
        None => {
            let blocked: Vec<usize> = (0..s.n).filter(|&i| matches!(s.st[i], St::Blocked(..))).collect();
            if blocked.is_empty() {
                CTRL.store(1, Ordering::SeqCst);
                fwake(&CTRL);
            } else {
                let timed: Vec<usize> =
                    blocked.iter().copied().filter(|&i| matches!(s.st[i], St::Blocked(_, true))).collect();
                if timed.is_empty() {
                    let d = format!("remaining threads are blocked for ever: {:?}", &s.st[..s.n]);
                    crate::runner::die_deadlock(&d);
                }
                let t = timed[0];
                s.st[t] = St::Run;
                s.timed_out[t] = true;
                s.cur = t;
                give_baton(t);
            }
        }
    }
}

type Job = Box<dyn FnOnce() + Send>;
static mut JOBS: [Option<Job>; MAXT] = [const { None }; MAXT];
static mut POOL: usize = 0;
static KICK: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];

#[allow(static_mut_refs)]
fn pool_thread(t: usize) {
    TID.with(|c| c.set(t));
    loop {
        loop {
            if KICK[t].compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                break;
            }
            fwait(&KICK[t], 0);
        }
        let job = unsafe { JOBS[t].take().unwrap() };
        wait_baton(t);
        if ACTIVE.load(Ordering::SeqCst) {
            MODE.with(|m| m.set(2));
            unsafe { mvh_fine_inc(-1) };
            job();
            unsafe { mvh_fine_inc(1) };
            MODE.with(|m| m.set(0));
            finish();
        } else {
            job();
            CTRL.store(1, Ordering::SeqCst);
            fwake(&CTRL);
        }
    }
}

fn ensure_pool(n: usize) {
    unsafe {
        while POOL < n {
            let t = POOL;
            POOL += 1;
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || pool_thread(t)).unwrap();
        }
    }
}

fn wait_ctrl() {
    loop {
        if CTRL.compare_exchange(1, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            return;
        }
        fwait(&CTRL, 0);
    }
}

pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
}

pub fn run(src: &mut Src, jobs: Vec<Job>) -> RunStats {
    run_with(src, jobs, false)
}

/// Runs the jobs under a schedule drawn from `src`. `src` must not be touched by the
/// jobs except through the scheduler.
pub fn run_with(src: &mut Src, jobs: Vec<Job>, fine: bool) -> RunStats {
    let n = jobs.len();
    assert!(n >= 1 && n <= MAXT);
    ensure_pool(n);
    src.open();
    let fine = (fine && n > 1).then(|| {
        let seed = src.draw(1 << 30) as u64 + 1;
        // (denominator, one in how many places, first visits only, most preemptions)
        let m: [(u64, u64, bool, u64); 14] = [
            (100, 1, false, 0), (30, 1, false, 0), (300, 1, false, 0), (1000, 1, false, 0),
            (4, 16, false, 0), (12, 16, false, 0), (2, 64, false, 0), (5, 64, false, 0),
            (4, 1, true, 0), (12, 1, true, 0), (40, 1, true, 0),
            (150, 1, true, 2), (150, 1, true, 3), (60, 1, true, 2),
        ];
        let (den, hot, novel, budget) = m[11];
        Fine { seed: mix(seed), den, hot, novel, budget, points: 0, preempts: 0, limit: 100_000_000 }
    });
    let strat = match if n == 1 { 0 } else if fine.is_some() { 10 } else { src.draw(5) } {
        // How much the coarse scheduling points add.
        10 => Strat::Rand { den: [12, 60, 500, 1 << 20][src.draw(4) as usize] },
        0 => Strat::Rand { den: 12 },
        1 => Strat::Rand { den: 2 },
        2 => Strat::Rand { den: 4 },
        3 => Strat::Rand { den: 40 },
        _ => {
            let mut prio = [0i32; MAXT];
            for p in prio.iter_mut().take(n) {
                *p = src.draw(1000) as i32;
            }
            let d = src.draw(6);
            let scale = [60u32, 200, 1000][src.draw(3) as usize];
            let points = (0..d).map(|_| src.draw(scale) as u64).collect();
            Strat::Pct { prio, points, low: 0 }
        }
    };
    let first = if n == 1 { 0 } else { src.draw(n as u32) as usize };
    src.close();
    unsafe {
        S = Some(Sched {
            n,
            cur: first,
            st: [St::Run; MAXT],
            timed_out: [false; MAXT],
            src: src as *mut Src,
            steps: 0,
            switches: 0,
            strat,
            max_steps: 20_000,
            fine,
        });
        if s().fine.is_some() {
            for c in CNT.iter_mut() {
                c.fill(0);
            }
            for c in (*std::ptr::addr_of_mut!(RUNS)).iter_mut() {
                c.fill((0, 0));
            }
            mvh_fine_on = 1;
        }
    }
    ACTIVE.store(true, Ordering::SeqCst);
    for (t, j) in jobs.into_iter().enumerate() {
        unsafe { JOBS[t] = Some(j) };
        KICK[t].store(1, Ordering::SeqCst);
        fwake(&KICK[t]);
    }
    give_baton(first);
    wait_ctrl();
    ACTIVE.store(false, Ordering::SeqCst);
    unsafe { mvh_fine_on = 0 };
    let st = RunStats {
        steps: s().steps,
        switches: s().switches,
        preempts: s().fine.as_ref().map_or(0, |f| f.preempts),
    };
    st
}

/// Runs `f` on every pool thread, unmanaged, one after another (used to flush
/// thread-local garbage between cases).
pub fn on_all_pool_threads(f: fn()) {
    let n = unsafe { POOL };
    for t in 0..n {
        unsafe { JOBS[t] = Some(Box::new(f)) };
        KICK[t].store(1, Ordering::SeqCst);
        fwake(&KICK[t]);
        give_baton(t);
        wait_ctrl();
    }
}
