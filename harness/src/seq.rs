//! Sequential model-based engine: a generated cache configuration and operation
//! history, executed on the real cache under a virtual clock, compared with a
//! reference model after every operation.

use crate::api::*;
use crate::choices::Src;
use crate::interpose::{vadvance, virt_enable, vnow};
use crate::runner::*;
use crate::types::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Per-entry expiration times are kept in units of 2^12 ns.
const GRAIN: u64 = 4_096;
/// The timer wheel's finest bucket is about 1.07 s wide.
const PE_GRACE: u64 = 2_200_000_000;

#[derive(Clone, Copy)]
pub struct Prof {
    pub kinds: &'static [u8],
    /// weights: unbounded, tiny (1..=8), zero, medium
    pub cap: [u32; 4],
    pub ttl: u32,
    pub tti: u32,
    pub expiry: u32,
    pub listener: u32,
    pub inval: u32,
    pub weigher: u32,
    pub lru: u32,
    /// op weights, see `gen_op`
    pub ops: [u32; 16],
    pub keys: u32,
    pub nops: (u32, u32),
    pub bulk: bool,
    pub sync_each: u32,
    pub lpanic: u32,
    pub fail: u32,
    pub hash_modes: &'static [u8],
    /// labels that make a case non-trivial (all of them needed)
    pub need: &'static [&'static str],
}

pub const I_INS: usize = 0;
pub const I_GET: usize = 1;
pub const I_HAS: usize = 2;
pub const I_INV: usize = 3;
pub const I_REM: usize = 4;
pub const I_ALL: usize = 5;
pub const I_IF: usize = 6;
pub const I_ITER: usize = 7;
pub const I_RUN: usize = 8;
pub const I_ADV: usize = 9;
pub const I_GW: usize = 10;
pub const I_COMP: usize = 11;
pub const I_BULK: usize = 12;
pub const I_SETTLE: usize = 13;
pub const I_UPD: usize = 14;
pub const I_CLONE: usize = 15;

pub const BASE: Prof = Prof {
    kinds: &[0, 1, 2],
    cap: [5, 4, 0, 2],
    ttl: 20,
    tti: 20,
    expiry: 20,
    listener: 50,
    inval: 30,
    weigher: 30,
    lru: 40,
    ops: [20, 16, 6, 5, 5, 2, 2, 4, 6, 8, 10, 8, 0, 1, 0, 1],
    keys: 8,
    nops: (10, 60),
    bulk: false,
    sync_each: 15,
    lpanic: 0,
    fail: 10,
    hash_modes: &[0, 0, 1, 2, 3, 4, 6],
    need: &[],
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Life {
    Alive,
    Dead,
    Either,
}

#[derive(Clone, Debug)]
struct Ent {
    id: u64,
    w: u32,
    ed: [Dec; 3],
    lm: u64,
    la: u64,
    exp: Option<u64>,
    exp_unknown: bool,
    /// killed by a predicate (never comes back)
    pdead: bool,
    /// observed to be dead while its life was uncertain
    odead: bool,
    /// stored for certain (otherwise it may have been evicted or reclaimed)
    sure: bool,
    /// batch (period between two maintenance runs) of the last access that can
    /// have moved it in the access-order queue
    batch: u64,
}

struct M {
    cfg: Cfg,
    segcap: Option<u64>,
    map: BTreeMap<u32, Ent>,
    va: Option<u64>,
    peak: HashMap<u32, u64>,
    seen: HashSet<u64>,
    /// listener is registered and has not panicked
    lis: bool,
    now: u64,
    last_read_cb: u64,
    batch: u64,
    batch_ops: u32,
    first_live_batch: u64,
    sized: HashSet<u64>,
}

#[derive(Clone, Copy, Debug)]
pub enum Pred {
    Key(u32, u32),
    Id(u64, u64),
    KeyLe(u32),
    All,
    Nothing,
}
impl Pred {
    pub fn m(&self, k: u32, id: u64) -> bool {
        match self {
            Pred::Key(m, r) => k % m == *r,
            Pred::Id(m, r) => id % m == *r,
            Pred::KeyLe(n) => k <= *n,
            Pred::All => true,
            Pred::Nothing => false,
        }
    }
}

struct Deaths {
    ttl: bool,
    tti: bool,
    va: bool,
    pred: bool,
    pe: Life, // Alive = not expired per entry
}

impl M {
    fn deaths(&self, e: &Ent) -> Deaths {
        let now = self.now;
        Deaths {
            ttl: self.cfg.ttl.map_or(false, |d| now >= e.lm.saturating_add(d)),
            tti: self.cfg.tti.map_or(false, |d| now >= e.la.saturating_add(d)),
            va: self.va.map_or(false, |v| e.lm < v),
            pred: e.pdead,
            pe: if e.exp_unknown {
                Life::Either
            } else {
                match e.exp {
                    None => Life::Alive,
                    Some(x) if now >= x => Life::Dead,
                    Some(x) if now + GRAIN >= x => Life::Either,
                    Some(_) => Life::Alive,
                }
            },
        }
    }
    fn life(&self, e: &Ent) -> Life {
        let d = self.deaths(e);
        if e.odead || d.ttl || d.tti || d.va || d.pred || d.pe == Life::Dead {
            Life::Dead
        } else if d.pe == Life::Either {
            Life::Either
        } else {
            Life::Alive
        }
    }
    fn pressure(&self) -> bool {
        match self.segcap {
            None => false,
            Some(c) => {
                let mut s = 0u64;
                for v in self.peak.values() {
                    s += v;
                    if s > c {
                        return true;
                    }
                }
                false
            }
        }
    }
    fn expected_cur(&self, e: &Ent, lm: u64, la: u64) -> Option<u64> {
        [
            e.exp,
            self.cfg.ttl.map(|d| lm.saturating_add(d)),
            self.cfg.tti.map(|d| la.saturating_add(d)),
        ]
        .into_iter()
        .flatten()
        .min()
    }
    /// An eviction-listener event.
    fn event(&mut self, k: u32, id: u64, cause: Cause, wrote: Option<(u32, u64)>, removed: Option<u32>) -> Result<(), Fail> {
        if !self.seen.insert(id) {
            return fail(Kind::Event, format!("value v{id} of key {k} was notified twice"));
        }
        let Some(e) = self.map.get(&k) else {
            return fail(Kind::Event, format!("event for k{k} v{id} ({cause:?}), but the key has no entry"));
        };
        if e.id != id {
            return fail(Kind::Event, format!("event for k{k} v{id} ({cause:?}), but the stored value is v{}", e.id));
        }
        let d = self.deaths(e);
        let pe_dead = d.pe != Life::Alive;
        let overwritten = matches!(wrote, Some((wk, wid)) if wk == k && wid != id);
        let dead_any = d.ttl || d.tti || d.va || d.pred || pe_dead;
        let pressure = self.pressure();
        let mut ok: Vec<Cause> = vec![];
        let expired = d.ttl || d.tti || d.pe == Life::Dead;
        if overwritten {
            if expired {
                ok.push(Cause::Expired);
            }
            if d.va {
                ok.push(Cause::Explicit);
            }
            if !expired && !d.va {
                ok.push(Cause::Replaced);
                if pe_dead {
                    ok.push(Cause::Expired);
                }
                if d.pred {
                    ok.push(Cause::Explicit);
                }
            }
        } else if removed == Some(k) {
            if expired {
                ok.push(Cause::Expired);
                if d.va || d.pred {
                    ok.push(Cause::Explicit);
                }
            } else {
                ok.push(Cause::Explicit);
                if pe_dead {
                    ok.push(Cause::Expired);
                }
            }
        }
        // maintenance (may also run inside the same operation)
        if d.ttl || d.tti || pe_dead {
            ok.push(Cause::Expired);
        }
        if d.va || d.pred {
            ok.push(Cause::Explicit);
        }
        if pressure {
            ok.push(Cause::Size);
        }
        if !ok.contains(&cause) {
            if cause == Cause::Size && !pressure {
                return fail(
                    Kind::Evict,
                    format!("k{k} v{id} was evicted for size although everything fits (cap {:?})", self.cfg.cap),
                );
            }
            if ok.is_empty() && !dead_any {
                return fail(Kind::Evict, format!("live k{k} v{id} was removed by maintenance with cause {cause:?}"));
            }
            return fail(Kind::Cause, format!("k{k} v{id} reported as {cause:?}, but only {ok:?} is true of it"));
        }
        if cause == Cause::Size {
            self.sized.insert(id);
        }
        self.map.remove(&k);
        Ok(())
    }
}

#[derive(Default)]
struct Seen {
    creates: Vec<(u32, u64, u64)>,
    reads: Vec<(u32, u64, u64, Option<u64>, u64)>,
    updates: Vec<(u32, u64, u64, Option<u64>)>,
}

pub struct Eng<'a> {
    c: C,
    m: M,
    out: &'a mut CaseOut,
    trace: bool,
    sync_each: bool,
}

fn label(out: &mut CaseOut, l: &'static str) {
    if !out.labels.contains(&l) {
        out.labels.push(l);
    }
}

type R = Result<(), Fail>;

impl<'a> Eng<'a> {
    fn t(&mut self, s: impl FnOnce() -> String) {
        if self.trace {
            self.out.trace.push(s());
        }
    }
    fn lab(&mut self, l: &'static str) {
        label(self.out, l)
    }
    fn tick(&mut self) {
        vadvance(1);
        self.m.now = vnow();
        self.m.batch_ops += 1;
    }

    /// Applies the callback log of the operation just executed. `wrote`: the
    /// operation stored this (key, id) ; `removed`: it removed this key.
    ///
    /// `old` is the entry that was stored before the write / removal.
    fn absorb(&mut self, log: Vec<Log>, wrote: Option<(u32, u64, u32, [Dec; 3])>, removed: Option<u32>) -> Result<Seen, Fail> {
        let mut seen = Seen::default();
        let mut pend = wrote;
        let pressure_before = self.m.pressure();
        let _ = pressure_before;
        if let Some((k, _, w, _)) = wrote {
            if self.m.cfg.cap != Some(0) {
                let p = self.m.peak.entry(k).or_insert(0);
                *p = (*p).max(if self.m.cfg.weigher { w as u64 } else { 1 });
            }
        }
        // Expiry callbacks first, so that the entry written has its expiration time.
        for l in &log {
            match *l {
                Log::Create { k, id, at } => seen.creates.push((k, id, at)),
                Log::Read { k, id, at, cur, lm } => seen.reads.push((k, id, at, cur, lm)),
                Log::Update { k, id, at, cur } => seen.updates.push((k, id, at, cur)),
                _ => {}
            }
        }
        let w2 = wrote.map(|(k, id, _, _)| (k, id));
        for l in &log {
            if let Log::Event { k, id, cause, .. } = *l {
                if !self.m.lis {
                    return fail(Kind::Event, format!("listener called (k{k} v{id} {cause:?}) after it was disabled"));
                }
                if self.trace {
                    self.out.trace.push(format!("    event k{k} v{id} {cause:?}"));
                }
                match cause {
                    Cause::Expired => self.lab("ev_expired"),
                    Cause::Explicit => self.lab("ev_explicit"),
                    Cause::Replaced => self.lab("ev_replaced"),
                    Cause::Size => self.lab("ev_size"),
                }
                if let Some((wk, wid, w, ed)) = pend {
                    if wk == k && id == wid {
                        // the new value itself is being evicted: it must have been stored
                        if let Some(old) = self.m.map.get(&k) {
                            if old.sure && self.m.lis {
                                return fail(
                                    Kind::Event,
                                    format!("k{k}: v{wid} evicted, but v{} that it replaced was not notified", old.id),
                                );
                            }
                        }
                        self.store(wk, wid, w, ed, &seen)?;
                        pend = None;
                    }
                }
                self.m.event(k, id, cause, w2, removed)?;
                if self.m.cfg.cap == Some(0) {
                    return fail(Kind::Event, "event from a cache of capacity 0");
                }
            }
            if let Log::ListenerPanic = *l {
                self.m.lis = false;
                self.lab("listener_panicked");
            }
        }
        if let Some((wk, wid, w, ed)) = pend {
            if self.m.cfg.cap == Some(0) {
                // not stored
            } else {
                if let Some(old) = self.m.map.get(&wk) {
                    if self.m.lis && old.sure {
                        return fail(
                            Kind::Event,
                            format!("k{wk}: v{} was replaced by v{wid} without a notification", old.id),
                        );
                    }
                }
                self.store(wk, wid, w, ed, &seen)?;
            }
        }
        if let Some(k) = removed {
            if let Some(old) = self.m.map.get(&k) {
                if self.m.lis && old.sure {
                    return fail(Kind::Event, format!("k{k}: v{} was removed without a notification", old.id));
                }
                self.m.map.remove(&k);
            }
        }
        Ok(seen)
    }

    /// Records a write in the model, with the per-entry expiration.
    fn store(&mut self, k: u32, id: u64, w: u32, ed: [Dec; 3], seen: &Seen) -> R {
        let now = self.m.now;
        let w = if self.m.cfg.weigher { w } else { 1 };
        // `old` may already have been dropped from the model by its Replaced event.
        let old = self.m.map.remove(&k).or_else(|| LAST_OLD.with(|l| l.borrow_mut().take().filter(|x| x.0 == k).map(|x| x.1)));
        let mut e = Ent {
            id,
            w,
            ed,
            lm: now,
            la: now,
            exp: None,
            exp_unknown: false,
            pdead: false,
            odead: false,
            sure: true,
            batch: self.m.batch,
        };
        if self.m.cfg.expiry {
            let cr: Vec<_> = seen.creates.iter().filter(|c| c.0 == k && c.1 == id).collect();
            let up: Vec<_> = seen.updates.iter().filter(|c| c.0 == k && c.1 == id).collect();
            if cr.len() + up.len() != 1 {
                return fail(
                    Kind::Callback,
                    format!("write of k{k} v{id}: {} create and {} update expiry callbacks (want one)", cr.len(), up.len()),
                );
            }
            let at = cr.first().map(|c| c.2).or(up.first().map(|u| u.2)).unwrap();
            if at != now {
                return fail(Kind::Callback, format!("expiry callback time {at} is not the operation time {now}"));
            }
            if !cr.is_empty() {
                if let Some(o) = &old {
                    if o.sure && !self.m.sized.contains(&o.id) && (self.m.lis || !self.m.pressure()) && self.m.life(o) == Life::Alive {
                        return fail(Kind::Callback, format!("k{k}: expire_after_create on the update of a live entry"));
                    }
                }
                if let Dec::In(d) = ed[0] {
                    e.exp = Some(now.saturating_add(d));
                }
                self.lab("pe_create");
            } else {
                let Some(o) = old else {
                    return fail(Kind::Callback, format!("k{k}: expire_after_update on a new entry"));
                };
                if self.m.life(&o) == Life::Dead {
                    return fail(
                        Kind::Callback,
                        format!("k{k}: expire_after_update on a write over v{}, which had expired or been invalidated (the key was not present)", o.id),
                    );
                }
                self.lab("pe_update");
                // last_modified and last_accessed have been refreshed
                let before = self.m.expected_cur(&o, now, now);
                let got = up[0].3;
                let fuzzy = o.exp_unknown || o.exp.map_or(false, |x| x <= now + GRAIN);
                if !fuzzy {
                    check_cur("update", k, before.map(|b| b - now), got)?;
                }
                match ed[2] {
                    Dec::In(d) => {
                        e.exp = Some(now.saturating_add(d));
                        if got == Some(d) {
                            // Same as the current one: nothing is stored.
                            match o.exp {
                                Some(x) if x.saturating_sub(now).abs_diff(d) <= GRAIN && !o.exp_unknown => e.exp = o.exp,
                                _ => e.exp_unknown = true,
                            }
                        }
                    }
                    Dec::Never => e.exp = None,
                    Dec::Keep => {
                        if fuzzy {
                            // expired: cleared, or at the very edge: unknown
                            if o.exp_unknown || o.exp.map_or(false, |x| x + GRAIN >= now) {
                                e.exp_unknown = true;
                            } else {
                                e.exp = None;
                            }
                        } else {
                            e.exp = o.exp;
                        }
                    }
                }
            }
        } else if !seen.creates.is_empty() || !seen.updates.is_empty() {
            return fail(Kind::Callback, "expiry callback without an Expiry");
        }
        self.m.map.insert(k, e);
        Ok(())
    }

    /// The operation observed the value of `k` through a retrieval that counts as a
    /// read (`read`) or does not.
    fn observe(&mut self, what: &str, k: u32, got: Option<u64>, read: bool) -> R {
        let pressure = self.m.pressure();
        let Some(e) = self.m.map.get(&k).cloned() else {
            if let Some(g) = got {
                return fail(Kind::Read, format!("{what}(k{k}) returned v{g}, but the key has no entry"));
            }
            return Ok(());
        };
        let life = self.m.life(&e);
        match got {
            Some(g) => {
                if g != e.id {
                    return fail(Kind::Read, format!("{what}(k{k}) returned v{g}, expected v{} (stale or foreign value)", e.id));
                }
                if life == Life::Dead {
                    let d = self.m.deaths(&e);
                    let why = if d.ttl {
                        "expired by time-to-live"
                    } else if d.tti {
                        "expired by time-to-idle"
                    } else if d.va {
                        "invalidated by invalidate_all"
                    } else if d.pred {
                        "invalidated by invalidate_entries_if"
                    } else {
                        "expired by its per-entry expiration"
                    };
                    let kind = if d.va || d.pred { Kind::Ret } else { Kind::Read };
                    return fail(kind, format!("{what}(k{k}) returned v{g}, which is {why}"));
                }
                let now = self.m.now;
                let x = self.m.map.get_mut(&k).unwrap();
                x.sure = true;
                if life == Life::Either && !x.exp_unknown {
                    // alive within the last grain: stays so until `exp`
                }
                if read {
                    x.la = now;
                    if self.m.batch_ops < 150 {
                        x.batch = self.m.batch;
                    }
                }
                self.lab("hit");
            }
            None => {
                match life {
                    Life::Alive => {
                        if e.sure && (self.m.lis || !pressure) {
                            return fail(
                                Kind::Read,
                                format!("{what}(k{k}) found nothing, but v{} is live (lost entry)", e.id),
                            );
                        }
                        if !pressure {
                            return fail(Kind::Read, format!("{what}(k{k}) found nothing, but v{} was stored and fits", e.id));
                        }
                        // evicted
                        self.m.map.remove(&k);
                    }
                    Life::Either => {
                        self.m.map.get_mut(&k).unwrap().odead = true;
                        self.lab("pe_edge");
                    }
                    Life::Dead => {
                        self.lab("dead_miss");
                        let d = self.m.deaths(&e);
                        if d.ttl || d.tti {
                            self.lab("time_miss");
                        }
                        if d.pe == Life::Dead {
                            self.lab("pe_miss");
                        }
                        if d.va {
                            self.lab("va_miss");
                        }
                        if d.pred {
                            self.lab("pred_miss");
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// Checks the read callbacks of an operation that hit `k` (`hit`: id) or missed.
    fn reads(&mut self, k: u32, hit: Option<u64>, before: Option<Ent>, seen: &Seen) -> R {
        if !self.m.cfg.expiry {
            return Ok(());
        }
        match hit {
            None => {
                if !seen.reads.is_empty() {
                    return fail(Kind::Callback, format!("expire_after_read called without a hit: {:?}", seen.reads));
                }
            }
            Some(id) => {
                if seen.reads.len() != 1 || seen.reads[0].0 != k || seen.reads[0].1 != id {
                    return fail(
                        Kind::Callback,
                        format!("a read hit of k{k} v{id} made these expire_after_read calls: {:?}", seen.reads),
                    );
                }
                let (_, _, at, cur, lm) = seen.reads[0];
                if at != self.m.now {
                    return fail(Kind::Callback, "expire_after_read time is not the operation time");
                }
                let e = before.unwrap();
                if lm != e.lm {
                    return fail(Kind::Callback, format!("expire_after_read last_modified {lm}, expected {}", e.lm));
                }
                let now = self.m.now;
                if !e.exp_unknown {
                    let want = self.m.expected_cur(&e, e.lm, e.la);
                    let edge = e.exp.map_or(false, |x| x <= now + GRAIN);
                    if !edge {
                        check_cur("read", k, want.map(|w| w.saturating_sub(now)), cur)?;
                    }
                }
                if let Some(x) = self.m.map.get_mut(&k) {
                    if x.id == id {
                        match e.ed[1] {
                            Dec::Keep => {}
                            Dec::Never => {
                                x.exp = None;
                                x.exp_unknown = false;
                            }
                            Dec::In(d) => {
                                x.exp = Some(now.saturating_add(d));
                                x.exp_unknown = false;
                                if cur == Some(d) {
                                    match e.exp {
                                        Some(y) if y.saturating_sub(now).abs_diff(d) <= GRAIN => {
                                            x.exp = e.exp;
                                            x.exp_unknown = e.exp_unknown;
                                        }
                                        _ => x.exp_unknown = true,
                                    }
                                }
                            }
                        }
                        self.lab("pe_read");
                    }
                }
            }
        }
        Ok(())
    }

    fn snapshot(&mut self, k: u32) -> Option<Ent> {
        let e = self.m.map.get(&k).cloned();
        LAST_OLD.with(|l| *l.borrow_mut() = e.clone().map(|e| (k, e)));
        e
    }

    fn op_insert(&mut self, k: u32, v: V) -> R {
        let (id, w, ed) = (v.id, v.w, v.ed);
        self.t(|| format!("insert(k{k}, v{id} w{w} {ed:?})"));
        self.snapshot(k);
        if self.m.map.contains_key(&k) {
            self.lab("overwrite");
        }
        self.c.insert(k, v);
        let seen = self.absorb(take_log(), Some((k, id, w, ed)), None)?;
        self.reads(k, None, None, &seen)
    }

    fn op_get(&mut self, k: u32, bor: bool) -> R {
        let before = self.snapshot(k);
        let got = self.c.get(k, bor).map(|v| v.id);
        self.t(|| format!("get(k{k}) = {got:?}"));
        self.observe("get", k, got, true)?;
        // maintenance runs after the read
        let log = take_log();
        let mut s = Seen::default();
        for l in &log {
            if let Log::Read { k, id, at, cur, lm } = *l {
                s.reads.push((k, id, at, cur, lm));
            }
        }
        self.reads(k, got, before, &s)?;
        self.absorb(log, None, None)?;
        Ok(())
    }

    fn op_has(&mut self, k: u32, bor: bool) -> R {
        let got = self.c.contains(k, bor);
        self.t(|| format!("contains_key(k{k}) = {got}"));
        let id = self.m.map.get(&k).map(|e| e.id);
        if got && id.is_none() {
            return fail(Kind::Read, format!("contains_key(k{k}) is true, but the key has no entry"));
        }
        self.observe("contains_key", k, if got { id } else { None }, false)?;
        let seen = self.absorb(take_log(), None, None)?;
        self.reads(k, None, None, &seen)
    }

    fn op_invalidate(&mut self, k: u32, bor: bool) -> R {
        self.t(|| format!("invalidate(k{k})"));
        self.snapshot(k);
        if self.m.map.contains_key(&k) {
            self.lab("invalidated");
        }
        self.c.invalidate(k, bor);
        let seen = self.absorb(take_log(), None, Some(k))?;
        self.reads(k, None, None, &seen)
    }

    fn op_remove(&mut self, k: u32, bor: bool) -> R {
        self.snapshot(k);
        let got = self.c.remove(k, bor).map(|v| {
            v.check();
            v.id
        });
        self.t(|| format!("remove(k{k}) = {got:?}"));
        if got.is_some() {
            self.lab("removed");
        }
        self.observe("remove", k, got, false)?;
        let seen = self.absorb(take_log(), None, Some(k))?;
        self.reads(k, None, None, &seen)
    }

    fn op_invalidate_all(&mut self) -> R {
        self.t(|| "invalidate_all()".to_string());
        self.lab("invalidate_all");
        self.c.invalidate_all();
        self.m.va = Some(self.m.now);
        self.absorb(take_log(), None, None)?;
        Ok(())
    }

    fn op_if(&mut self, p: Pred) -> R {
        let ok = self.c.invalidate_if(move |k, v| {
            v.check();
            p.m(k.id(), v.id)
        });
        self.t(|| format!("invalidate_entries_if({p:?}) = {ok}"));
        if ok != self.m.cfg.inval {
            return fail(
                Kind::Config,
                format!("invalidate_entries_if ok={ok} with support_invalidation_closures={}", self.m.cfg.inval),
            );
        }
        if ok {
            for (k, e) in self.m.map.iter_mut() {
                if p.m(*k, e.id) {
                    e.pdead = true;
                }
            }
            self.lab("invalidate_if");
        }
        self.absorb(take_log(), None, None)?;
        Ok(())
    }

    fn op_iter(&mut self, into: bool) -> R {
        let mut got: BTreeMap<u32, u64> = BTreeMap::new();
        let mut dup = None;
        let mut f = |k: &K, v: &V| {
            v.check();
            if got.insert(k.id(), v.id).is_some() {
                dup = Some(k.id());
            }
        };
        if into {
            self.c.into_iter(&mut f)
        } else {
            self.c.iter(&mut f)
        }
        self.t(|| format!("iter() = {got:?}"));
        if let Some(k) = dup {
            return fail(Kind::Iter, format!("iterator returned key {k} twice"));
        }
        let pressure = self.m.pressure();
        for (k, id) in &got {
            match self.m.map.get(k) {
                None => return fail(Kind::Iter, format!("iterator returned k{k} v{id}, but the key has no entry")),
                Some(e) if e.id != *id => {
                    return fail(Kind::Iter, format!("iterator returned k{k} v{id}, expected v{}", e.id))
                }
                Some(e) if self.m.life(e) == Life::Dead => {
                    return fail(Kind::Iter, format!("iterator returned k{k} v{id}, which is expired or invalidated"))
                }
                _ => {}
            }
        }
        let ents: Vec<(u32, Ent)> = self.m.map.iter().map(|(k, e)| (*k, e.clone())).collect();
        for (k, e) in ents {
            if !got.contains_key(&k) && self.m.life(&e) == Life::Alive && (self.m.lis || !pressure) {
                return fail(Kind::Iter, format!("iterator missed live k{k} v{}", e.id));
            }
            if got.contains_key(&k) {
                self.lab("iter_hit");
            }
        }
        let seen = self.absorb(take_log(), None, None)?;
        self.reads(0, None, None, &seen)
    }

    fn op_run(&mut self) -> R {
        self.t(|| "run_pending_tasks()".to_string());
        self.pre_run();
        let seen = self.absorb(take_log(), None, None)?;
        self.reads(0, None, None, &seen)?;
        self.after_run(false)
    }

    fn pre_run(&mut self) {
        self.m.first_live_batch =
            self.m.map.values().filter(|e| !self.m.deaths(e).tti && !self.m.deaths(e).va).map(|e| e.batch).min().unwrap_or(u64::MAX);
        self.c.run_pending();
    }

    /// Accounting after `run_pending_tasks`. Everything pending has been applied.
    fn after_run(&mut self, settled: bool) -> R {
        let now = self.m.now;
        let (ec, ws) = (self.c.entry_count(), self.c.weighted_size());
        if let Some(cap) = self.m.cfg.cap {
            let bound = if self.m.cfg.kind == 1 {
                self.m.segcap.unwrap() * self.m.cfg.segs.next_power_of_two() as u64
            } else {
                cap
            };
            if ws > bound {
                return fail(Kind::Capacity, format!("weighted_size {ws} exceeds max_capacity {cap} after run_pending_tasks"));
            }
            if ws == bound && cap > 0 {
                self.lab("full");
            }
        }
        // Physical reclamation.
        let mut must_go = vec![];
        let (mut lo_n, mut lo_w, mut hi_n, mut hi_w) = (0u64, 0u64, 0u64, 0u64);
        let pressure = self.m.pressure();
        let keys: Vec<u32> = self.m.map.keys().copied().collect();
        let exact = self.m.lis;
        // The idle scan walks the access-order queue from its oldest end and stops
        // at the first live entry. Reads recorded before the write of the entry
        // itself was applied do not move it, so within one batch the order is only
        // approximate: an idle entry may have to wait for a live one of its batch.
        let first_live_batch = self.m.first_live_batch;
        for k in keys {
            let e = self.m.map[&k].clone();
            let d = self.m.deaths(&e);
            let gone = d.ttl
                || (d.tti && e.batch < first_live_batch)
                || d.va
                || (settled && d.pred)
                || (!e.exp_unknown && e.exp.map_or(false, |x| now >= x.saturating_add(PE_GRACE)));
            if gone {
                must_go.push((k, e.id));
                self.lab("reclaimed");
                self.m.map.remove(&k);
                continue;
            }
            let dead = self.m.life(&e) != Life::Alive;
            if exact {
                hi_n += 1;
                hi_w += e.w as u64;
                lo_n += 1;
                lo_w += e.w as u64;
            } else if dead {
                hi_n += 1;
                hi_w += e.w as u64;
            } else {
                // Alive: present unless evicted under pressure; ask.
                let has = self.c.contains(k, true);
                if !has {
                    if !pressure {
                        return fail(Kind::Read, format!("k{k} v{} vanished although everything fits", e.id));
                    }
                    self.m.map.remove(&k);
                    continue;
                }
                self.m.map.get_mut(&k).unwrap().sure = true;
                hi_n += 1;
                hi_w += e.w as u64;
                lo_n += 1;
                lo_w += e.w as u64;
            }
        }
        if exact && !must_go.is_empty() {
            return fail(
                Kind::Reclaim,
                format!("expired/invalidated entries still stored after run_pending_tasks: {must_go:?}"),
            );
        }
        if ec < lo_n || ec > hi_n || ws < lo_w || ws > hi_w {
            let kind = if !must_go.is_empty() && ec > hi_n { Kind::Reclaim } else { Kind::Count };
            return fail(
                kind,
                format!(
                    "after run_pending_tasks entry_count={ec} (expected {lo_n}..={hi_n}), weighted_size={ws} (expected {lo_w}..={hi_w})"
                ),
            );
        }
        if ec > 0 {
            self.lab("counted");
        }
        // what is left is what may be accounted from now on
        self.m.batch += 1;
        self.m.batch_ops = 0;
        self.m.peak.clear();
        let ps: Vec<(u32, u64)> = self.m.map.iter().map(|(k, e)| (*k, e.w as u64)).collect();
        self.m.peak.extend(ps);
        Ok(())
    }

    fn op_gw(&mut self, v: Gw, k: u32, init: Init, cond: bool, yields: u32) -> R {
        let before = self.snapshot(k);
        let calls = std::cell::Cell::new(0u32);
        let mut cond_calls: Vec<u64> = vec![];
        let (iid, iw, ied, ikind) = match &init {
            Init::Val(v) => (v.id, v.w, v.ed, 0),
            Init::None => (0, 0, [Dec::Keep; 3], 1),
            Init::Err(_) => (0, 0, [Dec::Keep; 3], 2),
            Init::Panic => (0, 0, [Dec::Keep; 3], 3),
        };
        let next_before = NEXT_ID.load(SeqCst);
        let errcode = if let Init::Err(e) = &init { *e } else { 0 };
        let c = self.c.clone();
        let r = {
            let calls = &calls;
            let cc = &mut cond_calls;
            catch_unwind(AssertUnwindSafe(|| {
                c.gw(
                    v,
                    k,
                    || {
                        calls.set(calls.get() + 1);
                        init
                    },
                    |x: &V| {
                        x.check();
                        cc.push(x.id);
                        cond
                    },
                    yields,
                )
            }))
        };
        let calls = calls.get();
        self.t(|| format!("{v:?}(k{k}, init={} v{iid} w{iw} {ied:?}, cond={cond}) = {r:?} (init calls {calls})", ["value", "none", "err", "panic"][ikind]));
        let log = take_log();
        // what did it find?
        enum Found {
            Hit(u64),
            Miss,
        }
        let mut ent: Option<EntOut> = None;
        let wid = if v.is_default() {
            // the default value gets the next id when created
            next_before
        } else {
            iid
        };
        let found = match &r {
            Err(p) => {
                let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                if ikind != 3 || s.as_deref() != Some(INJECTED) {
                    return fail(Kind::Panic, format!("{v:?} panicked: {}", last_panic()));
                }
                if v == Gw::OrInsert || v == Gw::ROrInsert {
                    // the panic happened while evaluating the argument
                    self.absorb(log, None, None)?;
                    return Ok(());
                }
                self.lab("init_panic");
                self.lab("gw_failed");
                Found::Miss
            }
            Ok(GwOut::None) => {
                if ikind != 1 {
                    return fail(Kind::Init, format!("{v:?} returned None, but init did not"));
                }
                self.lab("init_none");
                self.lab("gw_failed");
                Found::Miss
            }
            Ok(GwOut::Err(e)) => {
                if ikind != 2 || *e != errcode {
                    return fail(Kind::Init, format!("{v:?} returned Err({e}), init gave {ikind}/{errcode}"));
                }
                self.lab("init_err");
                self.lab("gw_failed");
                Found::Miss
            }
            Ok(GwOut::Val(x)) => {
                if x.id == wid {
                    Found::Miss
                } else {
                    Found::Hit(x.id)
                }
            }
            Ok(GwOut::Ent(e)) => {
                ent = Some(EntOut { key: e.key, id: e.id, fresh: e.fresh, replaced: e.replaced });
                if e.id == wid {
                    Found::Miss
                } else {
                    Found::Hit(e.id)
                }
            }
        };
        if let Some(e) = &ent {
            if e.key != Some(k) {
                return fail(Kind::Ret, format!("{v:?}: Entry::key() is {:?} (None: it panicked), expected {k}", e.key));
            }
        }
        if let Some(b) = &before {
            if self.m.life(b) == Life::Dead && cond_calls.contains(&b.id) {
                return fail(Kind::Ret, format!("{v:?}: replace_if was called with v{}, which is expired or invalidated", b.id));
            }
        }
        match found {
            Found::Hit(id) => {
                if calls != 0 && !v.plain() {
                    return fail(Kind::Init, format!("{v:?}: init evaluated {calls} times although k{k} was found"));
                }
                if v.has_cond() && cond {
                    return fail(Kind::Ret, format!("{v:?}: replace_if was true but the old value v{id} was returned"));
                }
                if let Some(e) = &ent {
                    if e.fresh || e.replaced {
                        return fail(
                            Kind::Ret,
                            format!("{v:?}: existing entry reported fresh={} replaced={}", e.fresh, e.replaced),
                        );
                    }
                }
                self.observe("get_with", k, Some(id), true)?;
                let mut s = Seen::default();
                for l in &log {
                    if let Log::Read { k, id, at, cur, lm } = *l {
                        s.reads.push((k, id, at, cur, lm));
                    }
                }
                self.reads(k, Some(id), before, &s)?;
                self.absorb(log, None, None)?;
                self.lab("gw_hit");
            }
            Found::Miss => {
                let alive = before.as_ref().map(|e| self.m.life(e)) == Some(Life::Alive);
                let cond_true = v.has_cond() && cond && cond_calls.iter().any(|i| before.as_ref().map(|b| b.id) == Some(*i));
                if !cond_true {
                    self.observe("get_with", k, None, false)?;
                }
                if calls != 1 && !v.is_default() {
                    return fail(Kind::Init, format!("{v:?}: init evaluated {calls} times on a miss"));
                }
                if ikind == 0 || v.is_default() {
                    let (w, ed) = if v.is_default() { (1, [Dec::Keep; 3]) } else { (iw, ied) };
                    if let Some(e) = &ent {
                        if !e.fresh {
                            return fail(Kind::Ret, format!("{v:?}: freshly inserted entry reported is_fresh=false"));
                        }
                        let want = alive && cond_true;
                        if e.replaced != want && before.as_ref().map_or(true, |b| self.m.life(b) != Life::Either) && !self.m.pressure() {
                            return fail(
                                Kind::Ret,
                                format!("{v:?}: is_old_value_replaced={} but an old value was{} replaced", e.replaced, if want { "" } else { " not" }),
                            );
                        }
                    }
                    LAST_OLD.with(|l| *l.borrow_mut() = before.clone().map(|e| (k, e)));
                    let s = self.absorb(log, Some((k, wid, w, ed)), None)?;
                    self.reads(k, None, None, &s)?;
                    self.lab("gw_init");
                } else {
                    let s = self.absorb(log, None, None)?;
                    self.reads(k, None, None, &s)?;
                }
            }
        }
        Ok(())
    }

    fn op_comp(&mut self, v: Cv, k: u32, dec: CDec, yields: u32) -> R {
        let before = self.snapshot(k);
        let (did, dw, ded, dk) = match &dec {
            CDec::Nop => (0, 0, [Dec::Keep; 3], 0),
            CDec::Put(v) => (v.id, v.w, v.ed, 1),
            CDec::Remove => (0, 0, [Dec::Keep; 3], 2),
            CDec::Err(e) => (*e as u64, 0, [Dec::Keep; 3], 3),
            CDec::Panic => (0, 0, [Dec::Keep; 3], 4),
        };
        let saw: std::cell::RefCell<Vec<Option<(u32, u64)>>> = Default::default();
        let c = self.c.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            c.comp(
                v,
                k,
                |e| {
                    saw.borrow_mut().push(e);
                    dec
                },
                yields,
            )
        }));
        let saw = saw.into_inner();
        self.t(|| format!("{v:?}(k{k}) saw {saw:?}, decided {} v{did} w{dw} {ded:?} -> {r:?}", ["nop", "put", "remove", "err", "panic"][dk]));
        let log = take_log();
        if saw.len() != 1 {
            return fail(Kind::Ret, format!("{v:?}: the closure was called {} times", saw.len()));
        }
        let saw = saw[0];
        if let Some((sk, _)) = saw {
            if sk != k {
                return fail(Kind::Ret, format!("{v:?}(k{k}): closure got an entry of key {sk}"));
            }
        }
        self.observe("compute", k, saw.map(|s| s.1), true)?;
        let mut s = Seen::default();
        for l in &log {
            if let Log::Read { k, id, at, cur, lm } = *l {
                s.reads.push((k, id, at, cur, lm));
            }
        }
        self.reads(k, saw.map(|s| s.1), before, &s)?;
        // the entry as it is now is what the write updates
        self.snapshot(k);
        let pressure = self.m.pressure();
        match r {
            Err(p) => {
                let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                if dk != 4 || s.as_deref() != Some(INJECTED) {
                    return fail(Kind::Panic, format!("{v:?} panicked: {}", last_panic()));
                }
                self.lab("comp_panic");
                self.absorb(log, None, None)?;
            }
            Ok(out) => {
                let good = match (&out, dk) {
                    (CompOut::StillNone(x), 0) => saw.is_none() && *x == k,
                    (CompOut::Unchanged(e), 0) => saw == Some((k, e.id)) && e.key == Some(k) && !e.fresh && !e.replaced,
                    (CompOut::Inserted(e), 1) => saw.is_none() && e.id == did && e.key == Some(k) && e.fresh && !e.replaced,
                    (CompOut::Replaced(e), 1) => saw.is_some() && e.id == did && e.key == Some(k) && e.fresh && e.replaced,
                    (CompOut::StillNone(x), 2) => (saw.is_none() || pressure) && *x == k,
                    (CompOut::Removed(e), 2) => saw == Some((k, e.id)) && e.key == Some(k) && !e.fresh && !e.replaced,
                    (CompOut::Err(c), 3) => *c as u64 == did,
                    _ => false,
                };
                if !good {
                    return fail(
                        Kind::Ret,
                        format!("{v:?}(k{k}): closure saw {saw:?} and decided {}, but the result is {out:?}", ["nop", "put", "remove", "err", "panic"][dk]),
                    );
                }
                match dk {
                    1 => {
                        self.lab("comp_put");
                        self.absorb(log, Some((k, did, dw, ded)), None)?;
                    }
                    2 => {
                        self.lab("comp_remove");
                        self.absorb(log, None, Some(k))?;
                    }
                    _ => {
                        self.lab("comp_nop");
                        self.absorb(log, None, None)?;
                    }
                }
            }
        }
        Ok(())
    }

    fn settle(&mut self) -> R {
        let n = self.m.map.len() / 300 + 4;
        for _ in 0..n {
            self.tick();
            self.pre_run();
            self.absorb(take_log(), None, None)?;
        }
        self.t(|| "run_pending_tasks() until settled".to_string());
        if PREDS.load(SeqCst) > 0 {
            flush_epoch();
            for i in 0..10 {
                if PREDS.load(SeqCst) == 0 {
                    break;
                }
                self.tick();
                self.pre_run();
                self.absorb(take_log(), None, None)?;
                flush_epoch();
                let (p, n) = (PREDS.load(SeqCst), self.c.entry_count()); self.t(|| format!("extra {i} {p} {n}"));
            }
            let p = PREDS.load(SeqCst);
            if p > 0 {
                return fail(Kind::Reclaim, format!("{p} predicates of invalidate_entries_if are still held after run_pending_tasks has settled"));
            }
            self.lab("pred_dropped");
        }
        self.after_run(true)
    }

    fn corrupt(&self) -> R {
        let n = CORRUPT.load(SeqCst);
        if n > 0 {
            return fail(Kind::Uaf, format!("{n} uses of a dropped or corrupted key/value"));
        }
        Ok(())
    }
}

fn check_cur(what: &str, k: u32, want: Option<u64>, got: Option<u64>) -> R {
    let ok = match (want, got) {
        (None, None) => true,
        (Some(w), Some(g)) => g <= w && g + GRAIN >= w,
        _ => false,
    };
    if !ok {
        return fail(
            Kind::Callback,
            format!("k{k}: expire_after_{what} got duration_until_expiry {got:?}, expected {want:?}"),
        );
    }
    Ok(())
}

thread_local! {
    static LAST_OLD: std::cell::RefCell<Option<(u32, Ent)>> = const { std::cell::RefCell::new(None) };
}

const DURS: [u64; 8] = [5 * MS, 20 * MS, 100 * MS, 400 * MS, 1500 * MS, 10 * SEC, 3600 * SEC, 200_000 * SEC];

fn gen_dur(src: &mut Src) -> u64 {
    DURS[src.weighted(&[6, 5, 4, 4, 3, 2, 1, 1])]
}

pub fn gen_cfg(src: &mut Src, p: &Prof) -> Cfg {
    src.open();
    let kind = src.pick(p.kinds);
    let segs = if kind == 1 { src.range(1, 5) as usize } else { 1 };
    let cap = match src.weighted(&p.cap) {
        0 => None,
        1 => Some(src.range(1, 8) as u64),
        2 => Some(0),
        _ => Some(src.range(9, 60) as u64),
    };
    let weigher = src.chance(p.weigher);
    let lru = src.chance(p.lru);
    let ttl = src.chance(p.ttl).then(|| gen_dur(src));
    let tti = src.chance(p.tti).then(|| gen_dur(src));
    let expiry = src.chance(p.expiry);
    let listener = src.chance(p.listener);
    let async_listener = (kind == 2 && listener && src.chance(50)).then(|| src.draw(3));
    let inval = src.chance(p.inval);
    let init_cap = match src.draw(4) {
        0 => None,
        1 => Some(1),
        2 => Some(100),
        _ => Some(1000),
    };
    let hb = HB { mode: src.pick(p.hash_modes), seed: src.draw(1000) as u64 };
    src.close();
    Cfg { kind, segs, cap, weigher, lru, ttl, tti, expiry, listener, async_listener, inval, init_cap, hb, cb_yield: false }
}

fn gen_dec(src: &mut Src, i: usize) -> Dec {
    match src.weighted(&[4, if i == 0 { 2 } else { 5 }, 2]) {
        0 => Dec::In(gen_dur(src) + src.draw(3) as u64 * 3_137),
        1 => Dec::Keep,
        _ => Dec::Never,
    }
}

pub fn gen_val(src: &mut Src, cfg: &Cfg) -> V {
    let w = if cfg.weigher {
        match src.draw(6) {
            0 => 1,
            1 => 0,
            2 => src.range(2, 5),
            3 => src.range(5, 12),
            4 => src.range(12, 70),
            _ => [1, 2, 3][src.draw(3) as usize],
        }
    } else {
        1
    };
    let ed = if cfg.expiry { [gen_dec(src, 0), gen_dec(src, 1), gen_dec(src, 2)] } else { [Dec::Keep; 3] };
    V::new(next_id(), w, ed)
}

pub fn gen_pred(src: &mut Src) -> Pred {
    match src.draw(5) {
        0 => Pred::Key(2, src.draw(2)),
        1 => Pred::Id(2, src.draw(2) as u64),
        2 => Pred::All,
        3 => Pred::KeyLe(src.draw(8)),
        _ => Pred::Nothing,
    }
}

fn gen_advance(src: &mut Src, m: &M) -> u64 {
    match src.weighted(&[6, 4, 4, 2, 1]) {
        0 => 1 + src.draw(50) as u64 * MS,
        1 => (300 + src.draw(1500) as u64) * MS,
        2 => {
            // to a boundary of some entry
            let n = m.map.len() as u32;
            if n == 0 {
                return MS;
            }
            let e = m.map.values().nth(src.draw(n) as usize).unwrap();
            let mut bs: Vec<(u64, bool)> = vec![];
            if let Some(d) = m.cfg.ttl {
                bs.push((e.lm.saturating_add(d), false));
            }
            if let Some(d) = m.cfg.tti {
                bs.push((e.la.saturating_add(d), false));
            }
            if let Some(x) = e.exp {
                bs.push((x, true));
            }
            if bs.is_empty() {
                return MS;
            }
            let (b, pe) = bs[src.draw(bs.len() as u32) as usize];
            // The next operation runs 1 ns after the advance.
            let target = match src.draw(4) {
                0 => b - 1,
                1 => b.saturating_sub(2),
                2 => b,
                _ => if pe { b.saturating_sub(4_200) } else { b.saturating_sub(MS) },
            };
            target.saturating_sub(m.now).max(1)
        }
        3 => [2, 70, 4000, 100_000][src.draw(4) as usize] * SEC,
        _ => 700_000 * SEC,
    }
}

pub fn run_case(p: &Prof, src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    PANIC_AT.store(u64::MAX, SeqCst);
    virt_enable(1_000 * SEC);
    let r = (|| -> R {
        let cfg = gen_cfg(src, p);
        if trace {
            out.trace.push(format!("{cfg:?}"));
        }
        let sync_each = src.chance(p.sync_each);
        if cfg.listener && src.chance(p.lpanic) {
            PANIC_AT.store(src.draw(4) as u64, SeqCst);
            PANIC_LATE.store(src.chance(50), SeqCst);
            if trace {
                out.trace.push(format!("listener panics at call {}", PANIC_AT.load(SeqCst)));
            }
        }
        vadvance(src.draw(5000) as u64);
        let c = build(&cfg);
        let segs = if cfg.kind == 1 { cfg.segs.next_power_of_two() as u64 } else { 1 };
        let m = M {
            segcap: cfg.cap.map(|c| c.div_ceil(segs)),
            map: BTreeMap::new(),
            va: None,
            peak: HashMap::new(),
            seen: HashSet::new(),
            lis: cfg.listener,
            now: vnow(),
            last_read_cb: 0,
            batch: 0,
            batch_ops: 0,
            first_live_batch: 0,
            sized: HashSet::new(),
            cfg: cfg.clone(),
        };
        let mut g = Eng { c, m, out, trace, sync_each };
        let n = src.range(p.nops.0, p.nops.1);
        for _ in 0..n {
            src.open();
            let r = one_op(p, src, &mut g);
            src.close();
            r?;
            g.corrupt()?;
            if g.sync_each {
                g.tick();
                g.op_run()?;
            }
        }
        g.tick();
        g.settle()?;
        // final sweep
        let keys: Vec<u32> = g.m.map.keys().copied().collect();
        for k in keys {
            g.tick();
            g.op_has(k, true)?;
        }
        g.tick();
        g.op_iter(false)?;
        // teardown
        let Eng { c, m, .. } = g;
        let need = p.need.iter().all(|l| out.labels.contains(l));
        out.nontrivial = need;
        drop(m);
        drop(c);
        take_log();
        flush_epoch();
        let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
        if lk != 0 || lv != 0 {
            return fail(Kind::Leak, format!("after dropping the cache {lk} keys and {lv} values are still alive"));
        }
        if CORRUPT.load(SeqCst) != 0 {
            return fail(Kind::Uaf, "a dropped or corrupted key/value was used");
        }
        Ok(())
    })();
    if let Err(f) = r {
        out.fail = Some(f);
    }
}

fn one_op(p: &Prof, src: &mut Src, g: &mut Eng) -> R {
    let op = src.weighted(&p.ops);
    let nk = p.keys;
    if op == I_ADV {
        let d = gen_advance(src, &g.m);
        g.t(|| format!("-- advance {d} ns"));
        vadvance(d);
        g.m.now = vnow();
        return Ok(());
    }
    g.tick();
    let k = src.draw(nk);
    match op {
        I_INS => {
            let v = gen_val(src, &g.m.cfg.clone());
            g.op_insert(k, v)
        }
        I_GET => {
            let b = src.chance(50);
            g.op_get(k, b)
        }
        I_HAS => {
            let b = src.chance(50);
            g.op_has(k, b)
        }
        I_INV => {
            let b = src.chance(50);
            g.op_invalidate(k, b)
        }
        I_REM => {
            let b = src.chance(50);
            g.op_remove(k, b)
        }
        I_ALL => g.op_invalidate_all(),
        I_IF => {
            let pr = gen_pred(src);
            g.op_if(pr)
        }
        I_ITER => {
            let b = src.chance(30);
            g.op_iter(b)
        }
        I_RUN => g.op_run(),
        I_GW => {
            let v = GWS[src.draw(GWS.len() as u32) as usize];
            let y = src.draw(3);
            let cond = src.chance(50);
            let f = src.chance(p.fail * 3);
            let init = if v.is_default() {
                Init::None
            } else if f && v.can_none() && src.chance(60) {
                Init::None
            } else if f && v.can_err() && src.chance(60) {
                let e = src.draw(100);
                Init::Err(if v.unit() { UNIT_ERR } else { e })
            } else if src.chance(p.fail) && !v.plain() {
                Init::Panic
            } else {
                Init::Val(gen_val(src, &g.m.cfg.clone()))
            };
            g.op_gw(v, k, init, cond, y)
        }
        I_COMP => {
            let n = if g.m.cfg.kind == 2 { 8 } else { 6 };
            let v = CVS[src.draw(n) as usize];
            let y = src.draw(3);
            let d = if v.upsert() {
                if src.chance(p.fail) {
                    CDec::Panic
                } else {
                    CDec::Put(gen_val(src, &g.m.cfg.clone()))
                }
            } else {
                match src.weighted(&[5, 2, 3, if v.can_err() { 2 } else { 0 }, p.fail / 5]) {
                    0 => CDec::Put(gen_val(src, &g.m.cfg.clone())),
                    1 => CDec::Nop,
                    2 => CDec::Remove,
                    3 => CDec::Err(src.draw(100)),
                    _ => CDec::Panic,
                }
            };
            g.op_comp(v, k, d, y)
        }
        I_BULK => {
            let start = src.draw(1000);
            let n = [50, 200, 390, 800, 1500][src.draw(5) as usize];
            let what = src.weighted(&[6, 2, 1]);
            let tr = g.trace;
            g.t(|| format!("bulk {} k{start}..k{}", ["insert", "get", "remove"][what], start + n));
            g.trace = false;
            let mut r = Ok(());
            for k in start..start + n {
                g.tick();
                r = match what {
                    0 => {
                        let v = V::new(next_id(), 1, [Dec::Keep; 3]);
                        g.op_insert(k, v)
                    }
                    1 => g.op_get(k, true),
                    _ => g.op_invalidate(k, true),
                };
                if r.is_err() {
                    break;
                }
            }
            g.trace = tr;
            g.lab("bulk");
            r
        }
        I_SETTLE => g.settle(),
        I_UPD => {
            // a burst of updates of one key
            let n = [10, 300, 3000, 33_000, 66_000, 70_000][src.weighted(&[10, 8, 4, 2, 2, 1])];
            let tr = g.trace;
            g.t(|| format!("insert(k{k}) {n} times"));
            g.trace = false;
            let mut r = Ok(());
            for _ in 0..n {
                g.tick();
                let v = V::new(next_id(), 1, [Dec::Keep; 3]);
                r = g.op_insert(k, v);
                if r.is_err() {
                    break;
                }
            }
            g.trace = tr;
            if n > 30_000 {
                g.lab("gen_wrap");
            }
            r
        }
        _ => {
            // work through another handle of the same cache
            g.c = g.c.clone();
            g.t(|| "clone handle".to_string());
            Ok(())
        }
    }
}
