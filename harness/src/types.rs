//! Instrumented key, value and hasher types, and the log of user callbacks.

use crate::choices::mix;
use crate::sched::{no_yield, yield_point, Y_CLONE, Y_EQ, Y_HASH};
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

const MAGIC: u64 = 0x5AFE_C0DE_1234_ABCD;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

pub static EPOCH: AtomicU32 = AtomicU32::new(1);
/// Predicates of `invalidate_entries_if` held by the caches.
pub static PREDS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_K: AtomicI64 = AtomicI64::new(0);
pub static LIVE_V: AtomicI64 = AtomicI64::new(0);
pub static CORRUPT: AtomicU64 = AtomicU64::new(0);
pub static NEXT_ID: AtomicU64 = AtomicU64::new(1);
/// Panic injection into user callbacks, decremented at each call (0: off).
pub static CALLBACK_YIELDS: AtomicU8 = AtomicU8::new(0);

pub fn new_case() {
    EPOCH.fetch_add(1, SeqCst);
    LIVE_K.store(0, SeqCst);
    LIVE_V.store(0, SeqCst);
    PREDS.store(0, SeqCst);
    CORRUPT.store(0, SeqCst);
    NEXT_ID.store(1, SeqCst);
    LOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
fn corrupt(_what: &str) {
    CORRUPT.fetch_add(1, SeqCst);
}

// Not `Clone`, so that `ToOwned` can be implemented with `Owned = K`.
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct KRef(pub u32);
impl Hash for KRef {
    fn hash<H: Hasher>(&self, h: &mut H) {
        yield_point(Y_HASH);
        h.write_u32(self.0)
    }
}

#[derive(Debug)]
pub struct K {
    pub r: KRef,
    magic: u64,
    epoch: u32,
    pay: Box<u32>,
}
impl K {
    pub fn new(k: u32) -> K {
        let epoch = EPOCH.load(SeqCst);
        LIVE_K.fetch_add(1, SeqCst);
        K { r: KRef(k), magic: MAGIC, epoch, pay: Box::new(k) }
    }
    pub fn check(&self) {
        if self.magic != MAGIC || *self.pay != self.r.0 {
            corrupt("key");
        }
    }
    pub fn id(&self) -> u32 {
        self.check();
        self.r.0
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        self.check();
        K::new(self.r.0)
    }
}
impl Drop for K {
    fn drop(&mut self) {
        if self.magic != MAGIC || *self.pay != self.r.0 {
            corrupt("key drop");
            return;
        }
        self.magic = DEAD;
        if self.epoch == EPOCH.load(SeqCst) {
            LIVE_K.fetch_sub(1, SeqCst);
        }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        yield_point(Y_EQ);
        self.check();
        o.check();
        self.r == o.r
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check();
        self.r.hash(h)
    }
}
impl Borrow<KRef> for K {
    fn borrow(&self) -> &KRef {
        self.check();
        &self.r
    }
}
impl ToOwned for KRef {
    type Owned = K;
    fn to_owned(&self) -> K {
        K::new(self.0)
    }
}

/// What the `Expiry` implementation answers for a value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dec {
    /// No expiration (create), or "no expiration from now on".
    Never,
    /// Return `duration_until_expiry` unchanged (for create: None).
    Keep,
    /// Expire this many ns from now.
    In(u64),
}

pub struct V {
    pub id: u64,
    pub w: u32,
    pub ed: [Dec; 3],
    magic: u64,
    epoch: u32,
    pay: Box<u64>,
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.id)
    }
}
impl V {
    pub fn new(id: u64, w: u32, ed: [Dec; 3]) -> V {
        LIVE_V.fetch_add(1, SeqCst);
        V { id, w, ed, magic: MAGIC, epoch: EPOCH.load(SeqCst), pay: Box::new(id) }
    }
    pub fn fresh(w: u32) -> V {
        V::new(next_id(), w, [Dec::Keep; 3])
    }
    pub fn check(&self) {
        if self.magic != MAGIC || *self.pay != self.id {
            corrupt("value");
        }
    }
}
pub fn next_id() -> u64 {
    NEXT_ID.fetch_add(1, SeqCst)
}
impl Default for V {
    fn default() -> V {
        V::fresh(1)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        self.check();
        yield_point(Y_CLONE);
        self.check();
        V::new(self.id, self.w, self.ed)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        if self.magic != MAGIC || *self.pay != self.id {
            corrupt("value drop");
            return;
        }
        self.magic = DEAD;
        if self.epoch == EPOCH.load(SeqCst) {
            LIVE_V.fetch_sub(1, SeqCst);
        }
    }
}

/// Hash functions of different quality. All are legal `BuildHasher`s.
#[derive(Clone, Copy, Debug, Default)]
pub struct HB {
    pub mode: u8,
    pub seed: u64,
}
pub struct H {
    acc: u64,
    b: HB,
}
impl HB {
    pub fn finish(&self, acc: u64) -> u64 {
        match self.mode {
            0 => mix(acc ^ self.seed),
            1 => 0x0123_4567_89AB_CDEF,
            2 => mix(mix(acc) % 3 + self.seed),
            3 => acc,
            4 => mix(acc) << 58,
            5 => mix(acc) & 0xFFFF,
            _ => u64::MAX - (mix(acc) & 1),
        }
    }
    pub fn of(&self, k: u32) -> u64 {
        self.finish(k as u64)
    }
}
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.b.finish(self.acc)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.acc = self.acc.wrapping_mul(0x100_0000_01B3) ^ *x as u64;
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.acc = self.acc.wrapping_mul(0x100_0000_01B3) ^ i as u64;
    }
    fn write_u64(&mut self, i: u64) {
        self.acc = self.acc.wrapping_mul(0x100_0000_01B3) ^ i;
    }
}
impl BuildHasher for HB {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H { acc: 0, b: *self }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cause {
    Expired,
    Explicit,
    Replaced,
    Size,
}
impl From<moka::notification::RemovalCause> for Cause {
    fn from(c: moka::notification::RemovalCause) -> Cause {
        use moka::notification::RemovalCause as R;
        match c {
            R::Expired => Cause::Expired,
            R::Explicit => Cause::Explicit,
            R::Replaced => Cause::Replaced,
            R::Size => Cause::Size,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Log {
    Event { k: u32, id: u64, cause: Cause, tid: usize },
    /// listener call finished
    EventEnd { k: u32, id: u64, tid: usize },
    Create { k: u32, id: u64, at: u64 },
    Read { k: u32, id: u64, at: u64, cur: Option<u64>, lm: u64 },
    Update { k: u32, id: u64, at: u64, cur: Option<u64> },
    /// the listener call logged just before panics
    ListenerPanic,
}

pub static LOG: Mutex<Vec<Log>> = Mutex::new(Vec::new());
pub fn log(l: Log) {
    no_yield(|| LOG.lock().unwrap_or_else(|e| e.into_inner()).push(l));
}
pub fn take_log() -> Vec<Log> {
    no_yield(|| std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner())))
}

pub fn dur(ns: u64) -> Duration {
    Duration::from_nanos(ns)
}
pub fn std_ns(i: std::time::Instant) -> u64 {
    // `Instant` is the virtual monotonic clock, whose zero is the zero `Instant`.
    let zero: std::time::Instant = unsafe { std::mem::zeroed() };
    i.duration_since(zero).as_nanos() as u64
}

/// The `Expiry` under test: answers with the decision stored in the value.
pub struct Exp {
    pub yields: bool,
}
impl moka::Expiry<K, V> for Exp {
    fn expire_after_create(&self, k: &K, v: &V, at: std::time::Instant) -> Option<Duration> {
        v.check();
        if self.yields {
            yield_point(crate::sched::Y_CALLBACK);
        }
        log(Log::Create { k: k.id(), id: v.id, at: std_ns(at) });
        match v.ed[0] {
            Dec::In(d) => Some(dur(d)),
            _ => None,
        }
    }
    fn expire_after_read(
        &self,
        k: &K,
        v: &V,
        at: std::time::Instant,
        cur: Option<Duration>,
        lm: std::time::Instant,
    ) -> Option<Duration> {
        v.check();
        if self.yields {
            yield_point(crate::sched::Y_CALLBACK);
        }
        log(Log::Read { k: k.id(), id: v.id, at: std_ns(at), cur: cur.map(|d| d.as_nanos() as u64), lm: std_ns(lm) });
        match v.ed[1] {
            Dec::In(d) => Some(dur(d)),
            Dec::Keep => cur,
            Dec::Never => None,
        }
    }
    fn expire_after_update(
        &self,
        k: &K,
        v: &V,
        at: std::time::Instant,
        cur: Option<Duration>,
    ) -> Option<Duration> {
        v.check();
        if self.yields {
            yield_point(crate::sched::Y_CALLBACK);
        }
        log(Log::Update { k: k.id(), id: v.id, at: std_ns(at), cur: cur.map(|d| d.as_nanos() as u64) });
        match v.ed[2] {
            Dec::In(d) => Some(dur(d)),
            Dec::Keep => cur,
            Dec::Never => None,
        }
    }
}

/// Releases the epoch-based garbage of this thread.
pub fn flush_epoch() {
    for _ in 0..300 {
        crossbeam_epoch::pin().flush();
    }
}
