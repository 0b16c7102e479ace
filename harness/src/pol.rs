//! Eviction policy engine: an exact reference model of the LRU and TinyLFU policies,
//! compared with the cache after every step (operations followed by maintenance).

use crate::api::*;
use crate::choices::Src;
use crate::interpose::*;
use crate::runner::*;
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering::SeqCst;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

#[derive(Clone, Copy)]
pub struct PProf {
    pub lru: bool,
    pub keys: u32,
    pub cap: (u32, u32),
    pub weigher: u32,
    pub nops: (u32, u32),
    /// groups of up to this many reads (or inserts of new keys) between maintenance runs
    pub group: u32,
    /// insert, get, has, invalidate/remove, invalidate_all, iterate, get_with, compute, advance, read burst, insert burst
    pub ops: [u32; 11],
    pub need: &'static [&'static str],
}
pub const PBASE: PProf = PProf {
    lru: true,
    keys: 12,
    cap: (1, 8),
    weigher: 40,
    nops: (10, 70),
    group: 12,
    ops: [24, 22, 3, 6, 1, 2, 10, 8, 3, 8, 3],
    need: &["size_evicted", "hit", "update"],
};

type R = Result<(), Fail>;

#[derive(Clone, Debug)]
struct It {
    k: u32,
    id: u64,
    w: u64,
}

struct Mo {
    max: u64,
    lru: bool,
    /// least recently used first
    q: VecDeque<It>,
    /// popularity of a key: at least / at most
    freq: BTreeMap<u32, (u32, u32)>,
    /// the popularity is being recorded for certain
    on: bool,
    lookups: u32,
}

impl Mo {
    fn ws(&self) -> u64 {
        self.q.iter().map(|i| i.w).sum()
    }
    fn pos(&self, k: u32) -> Option<usize> {
        self.q.iter().position(|i| i.k == k)
    }
    fn f(&self, k: u32) -> (u32, u32) {
        let (a, b) = self.freq.get(&k).copied().unwrap_or((0, 0));
        (a.min(15), b.min(15))
    }
    fn lookup(&mut self, k: u32) {
        let on = self.on;
        let e = self.freq.entry(k).or_insert((0, 0));
        e.1 += 1;
        if on {
            e.0 += 1;
        }
        self.lookups += 1;
        if let Some(p) = self.pos(k) {
            let i = self.q.remove(p).unwrap();
            self.q.push_back(i);
        }
    }
    fn remove(&mut self, k: u32) {
        self.q.retain(|i| i.k != k);
    }
    /// evicts from the LRU end until the weights fit
    fn shrink(&mut self) -> bool {
        let mut any = false;
        while self.ws() > self.max {
            self.q.pop_front();
            any = true;
        }
        any
    }
}

struct Eng<'a> {
    c: C,
    m: Mo,
    cfg: Cfg,
    keys: u32,
    out: &'a mut CaseOut,
    trace: bool,
}

fn set(q: &VecDeque<It>) -> BTreeMap<u32, u64> {
    q.iter().map(|i| (i.k, i.id)).collect()
}

impl Eng<'_> {
    fn t(&mut self, s: impl FnOnce() -> String) {
        if self.trace {
            self.out.trace.push(s());
        }
    }
    fn lab(&mut self, l: &'static str) {
        if !self.out.labels.contains(&l) {
            self.out.labels.push(l);
        }
    }
    fn val(&self, src: &mut Src) -> V {
        let w = if self.cfg.weigher {
            match src.draw(8) {
                0 | 1 | 2 => 1,
                3 => 0,
                4 => 2,
                5 => 3,
                6 => src.draw(self.m.max as u32 + 1),
                _ => src.range(1, self.m.max as u32 + 2),
            }
        } else {
            1
        };
        // Expirations too far away to matter here.
        let ed = if self.cfg.expiry {
            [0; 3].map(|_| match src.draw(3) {
                0 => Dec::Keep,
                1 => Dec::Never,
                _ => Dec::In(SEC * (1_000_000 + src.draw(1_000_000) as u64)),
            })
        } else {
            [Dec::Keep; 3]
        };
        V::new(next_id(), w, ed)
    }
    fn w(&self, v: &V) -> u64 {
        if self.cfg.weigher {
            v.w as u64
        } else {
            1
        }
    }
    /// Runs maintenance and reads back what is stored.
    fn stored(&mut self) -> BTreeMap<u32, u64> {
        vadvance(1);
        self.c.run_pending();
        let mut got = BTreeMap::new();
        self.c.iter(&mut |k, v| {
            got.insert(k.id(), v.id);
        });
        got
    }
    fn show(&self, m: &BTreeMap<u32, u64>) -> String {
        let v: Vec<String> = m.iter().map(|(k, id)| format!("k{k}=v{id}")).collect();
        v.join(" ")
    }
    /// The stored entries must be those of one of the given queues; the model
    /// continues with it.
    fn agree(&mut self, what: &str, outcomes: Vec<VecDeque<It>>) -> R {
        let got = self.stored();
        let gone: Vec<u32> = self.m.q.iter().filter(|i| !got.contains_key(&i.k)).map(|i| i.k).collect();
        if !gone.is_empty() {
            self.lab("size_evicted");
        }
        self.t(|| format!("    run_pending_tasks; gone: {gone:?}"));
        for q in &outcomes {
            if set(q) == got {
                self.m.q = q.clone();
                return self.after(what);
            }
        }
        let order: Vec<String> = self.m.q.iter().map(|i| format!("k{}(w{},f{:?})", i.k, i.w, self.m.f(i.k))).collect();
        let want: Vec<String> = outcomes.iter().map(|q| self.show(&set(q))).collect();
        fail(
            Kind::Policy,
            format!(
                "{what}: stored [{}], expected [{}]; before, least recently used first (weight, popularity): {}; max {}",
                self.show(&got),
                want.join("] or ["),
                order.join(" "),
                self.m.max
            ),
        )
    }
    fn after(&mut self, what: &str) -> R {
        let ws = self.m.ws();
        let (n, w) = (self.c.entry_count(), self.c.weighted_size());
        if n != self.m.q.len() as u64 || w != ws {
            return fail(Kind::Count, format!("{what}: entry_count {n}, weighted_size {w}; stored {} / {ws}", self.m.q.len()));
        }
        if ws >= self.m.max / 2 {
            self.m.on = true;
        }
        for l in take_log() {
            if let Log::Event { k, id, cause: Cause::Size, .. } = l {
                if self.m.q.iter().any(|i| i.k == k && i.id == id) {
                    return fail(Kind::Policy, format!("{what}: k{k}=v{id} was notified as evicted but it is stored"));
                }
            }
        }
        if CORRUPT.load(SeqCst) > 0 {
            return fail(Kind::Uaf, "a dropped or corrupted key/value was used");
        }
        Ok(())
    }
    /// The possible results of offering a new entry to the queue.
    fn offer(&self, q: &VecDeque<It>, it: It) -> Vec<VecDeque<It>> {
        let ws: u64 = q.iter().map(|i| i.w).sum();
        if ws + it.w <= self.m.max {
            let mut q = q.clone();
            q.push_back(it);
            return vec![q];
        }
        if it.w > self.m.max {
            return vec![q.clone()];
        }
        if self.m.lru {
            let mut q = q.clone();
            q.push_back(it);
            while q.iter().map(|i| i.w).sum::<u64>() > self.m.max {
                q.pop_front();
            }
            return vec![q];
        }
        // TinyLFU: the least recently used entries that weigh at least as much
        // have to be less popular, together, than the new one.
        let (mut w, mut lo, mut hi, mut n) = (0, 0, 0, 0);
        for i in q {
            if w >= it.w {
                break;
            }
            let (a, b) = self.m.f(i.k);
            w += i.w;
            lo += a;
            hi += b;
            n += 1;
        }
        let (clo, chi) = self.m.f(it.k);
        let mut r = vec![];
        let iw = it.w;
        if w >= iw && chi > lo {
            let mut q: VecDeque<It> = q.iter().skip(n).cloned().collect();
            q.push_back(it);
            r.push(q);
        }
        if w < iw || clo <= hi {
            r.push(q.clone());
        }
        r
    }
    fn wrote(&mut self, what: &str, k: u32, id: u64, w: u64) -> R {
        let it = It { k, id, w };
        if let Some(p) = self.m.pos(k) {
            self.lab("update");
            self.m.q.remove(p);
            self.m.q.push_back(it);
            if w > self.m.max {
                // An update that cannot fit: whatever is evicted for it, the
                // weights have to fit, and the entry is gone.
                let got = self.stored();
                let q: VecDeque<It> = self.m.q.iter().filter(|i| got.get(&i.k) == Some(&i.id)).cloned().collect();
                if set(&q) != got || q.iter().map(|i| i.w).sum::<u64>() > self.m.max {
                    return fail(Kind::Policy, format!("{what}: stored [{}]", self.show(&got)));
                }
                self.m.q = q;
                return self.after(what);
            }
            let mut q2 = VecDeque::new();
            std::mem::swap(&mut q2, &mut self.m.q);
            self.m.q = q2.clone();
            let keep = self.m.q.clone();
            if self.m.shrink() {
                self.lab("size_evicted");
            }
            let q = std::mem::replace(&mut self.m.q, keep);
            return self.agree(what, vec![q]);
        }
        let outs = self.offer(&self.m.q, it);
        if !self.m.lru && outs.len() == 1 && self.m.ws() + w > self.m.max && w <= self.m.max && w > 0 {
            let won = outs[0].iter().any(|i| i.k == k);
            self.lab(if won { "candidate_won" } else { "candidate_lost" });
        }
        self.agree(what, outs)
    }
    fn check_val(&self, what: &str, k: u32, got: Option<u64>) -> R {
        let want = self.m.pos(k).map(|p| self.m.q[p].id);
        if want != got {
            return fail(Kind::Read, format!("{what}: got {got:?}, stored is {want:?}"));
        }
        Ok(())
    }
}

pub fn run_case(p: &PProf, src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    PANIC_AT.store(u64::MAX, SeqCst);
    virt_enable(1_000 * SEC);
    let r = go(p, src, out, trace);
    if let Err(f) = r {
        out.fail = Some(f);
    }
    take_log();
    flush_epoch();
}

fn go(p: &PProf, src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let kind = src.pick(&[0u8, 1, 2]);
    let max = src.range(p.cap.0, p.cap.1) as u64;
    let cfg = Cfg {
        kind,
        segs: 1,
        cap: Some(max),
        weigher: src.chance(p.weigher),
        lru: p.lru,
        ttl: src.chance(25).then_some(900_000 * SEC),
        tti: src.chance(25).then_some(900_000 * SEC),
        expiry: src.chance(15),
        listener: src.chance(40),
        inval: src.chance(15),
        init_cap: src.chance(20).then_some(100),
        hb: HB { mode: 0, seed: src.draw(16) as u64 },
        ..Cfg::default()
    };
    let cfg = Cfg { async_listener: (cfg.listener && kind == 2 && src.chance(50)).then(|| src.draw(3)), ..cfg };
    if trace {
        out.trace.push(format!("{cfg:?}"));
    }
    let c = build(&cfg);
    let m = Mo { max, lru: p.lru, q: VecDeque::new(), freq: BTreeMap::new(), on: false, lookups: 0 };
    let mut g = Eng { c, m, cfg, keys: p.keys, out, trace };
    let n = src.range(p.nops.0, p.nops.1);
    for _ in 0..n {
        // Stay below the aging of the popularity.
        if g.m.lookups > 1100 {
            break;
        }
        src.open();
        let r = step(p, src, &mut g);
        src.close();
        r?;
    }
    let need = p.need.iter().all(|l| g.out.labels.contains(l));
    g.out.nontrivial = need;
    Ok(())
}

fn step(p: &PProf, src: &mut Src, g: &mut Eng) -> R {
    vadvance(1);
    let op = src.weighted(&p.ops);
    let k = src.draw(g.keys);
    let b = src.chance(50);
    match op {
        0 => {
            let v = g.val(src);
            let (id, w) = (v.id, g.w(&v));
            g.t(|| format!("insert(k{k}, v{id} w{w})"));
            g.c.insert(k, v);
            g.wrote("insert", k, id, w)
        }
        1 => {
            let got = g.c.get(k, b).map(|v| v.id);
            g.t(|| format!("get(k{k}) -> {got:?}"));
            g.lab(if got.is_some() { "hit" } else { "miss" });
            g.check_val("get", k, got)?;
            g.m.lookup(k);
            let q = g.m.q.clone();
            g.agree("get", vec![q])
        }
        2 => {
            let got = g.c.contains(k, b);
            g.t(|| format!("contains_key(k{k}) -> {got}"));
            let q = g.m.q.clone();
            g.agree("contains_key", vec![q])
        }
        3 => {
            if src.chance(50) {
                g.t(|| format!("invalidate(k{k})"));
                g.c.invalidate(k, b);
            } else {
                let got = g.c.remove(k, b).map(|v| v.id);
                g.t(|| format!("remove(k{k}) -> {got:?}"));
                g.check_val("remove", k, got)?;
            }
            g.m.remove(k);
            let q = g.m.q.clone();
            g.agree("removal", vec![q])
        }
        4 => {
            g.t(|| "invalidate_all()".to_string());
            g.c.invalidate_all();
            // No write may share its instant.
            vadvance(1);
            g.m.q.clear();
            g.agree("invalidate_all", vec![VecDeque::new()])
        }
        5 => {
            g.t(|| "iterate".to_string());
            let mut n = 0;
            g.c.iter(&mut |_, _| n += 1);
            let q = g.m.q.clone();
            g.agree("iteration", vec![q])
        }
        6 => {
            let v = g.val(src);
            let (id, w) = (v.id, g.w(&v));
            let gw = src.pick(&[Gw::GetWith, Gw::GetWithRef, Gw::Opt, Gw::Try, Gw::OrInsert, Gw::OrInsertWith, Gw::ROrInsertWith, Gw::OrTry]);
            let mut ran = false;
            let o = g.c.gw(gw, k, || { ran = true; Init::Val(v) }, |_| false, 0);
            drop(o);
            let _ = ran;
            let had = g.m.pos(k).is_some();
            g.t(|| format!("{gw:?}(k{k}, v{id} w{w}){}", if had { " hit" } else { "" }));
            g.m.lookup(k);
            if had {
                g.lab("hit");
                let q = g.m.q.clone();
                g.agree("get_with (hit)", vec![q])
            } else {
                g.wrote("get_with (miss)", k, id, w)
            }
        }
        7 => {
            let v = g.val(src);
            let (id, w) = (v.id, g.w(&v));
            let d = src.weighted(&[5, 2, 2]);
            let had = g.m.pos(k).is_some();
            let dec = match d {
                0 => CDec::Put(v),
                1 => CDec::Nop,
                _ => CDec::Remove,
            };
            let o = g.c.comp(src.pick(&[Cv::Compute, Cv::ComputeRef]), k, |_| dec, 0);
            drop(o);
            g.t(|| format!("and_compute_with(k{k}) {}", ["Put", "Nop", "Remove"][d]) + &format!(" v{id} w{w} (present: {had})"));
            g.m.lookup(k);
            match d {
                0 => g.wrote("compute Put", k, id, w),
                1 => {
                    let q = g.m.q.clone();
                    g.agree("compute Nop", vec![q])
                }
                _ => {
                    g.m.remove(k);
                    let q = g.m.q.clone();
                    g.agree("compute Remove", vec![q])
                }
            }
        }
        8 => {
            let d = src.draw(900) as u64 * MS;
            g.t(|| format!("-- advance {d} ns"));
            vadvance(d);
            Ok(())
        }
        9 => {
            // reads only, then maintenance
            let n = src.range(2, p.group);
            for _ in 0..n {
                let k = src.draw(g.keys);
                let got = g.c.get(k, true).map(|v| v.id);
                g.t(|| format!("get(k{k}) -> {got:?}"));
                g.lab(if got.is_some() { "hit" } else { "miss" });
                g.check_val("get", k, got)?;
                g.m.lookup(k);
            }
            let q = g.m.q.clone();
            g.agree("reads", vec![q])
        }
        _ => {
            // inserts of distinct new keys, then maintenance
            let n = src.range(2, p.group);
            let mut outs = vec![g.m.q.clone()];
            let mut used = BTreeSet::new();
            for _ in 0..n {
                let k = src.draw(g.keys);
                if g.m.pos(k).is_some() || !used.insert(k) {
                    continue;
                }
                let v = g.val(src);
                let (id, w) = (v.id, g.w(&v));
                g.t(|| format!("insert(k{k}, v{id} w{w})"));
                g.c.insert(k, v);
                let mut next: Vec<VecDeque<It>> = vec![];
                for q in &outs {
                    for o in g.offer(q, It { k, id, w }) {
                        if next.len() < 64 {
                            next.push(o);
                        }
                    }
                }
                if next.len() >= 64 {
                    // too many possibilities: take what is stored
                    let got = g.stored();
                    for o in next {
                        if set(&o) == got {
                            g.m.q = o;
                            return g.after("inserts");
                        }
                    }
                    g.out.labels.push("gave_up");
                    g.m.q.clear();
                    g.c.invalidate_all();
                    vadvance(1);
                    return g.agree("invalidate_all", vec![VecDeque::new()]);
                }
                outs = next;
            }
            g.agree("inserts", outs)
        }
    }
}

/// Popular entries survive a scan of keys used once, popularity fades away when it
/// is not renewed, and a new popular key gets in.
pub fn run_scan(src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    PANIC_AT.store(u64::MAX, SeqCst);
    virt_enable(1_000 * SEC);
    let r = scan(src, out, trace);
    if let Err(f) = r {
        out.fail = Some(f);
    }
    take_log();
    flush_epoch();
}

fn scan(src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let kind = src.pick(&[0u8, 1, 2]);
    let n = [128u32, 200, 400, 1000][src.draw(4) as usize];
    let cfg = Cfg {
        kind,
        segs: 1,
        cap: Some(n as u64),
        lru: false,
        ttl: src.chance(20).then_some(900_000 * SEC),
        listener: src.chance(30),
        hb: HB { mode: 0, seed: src.draw(1 << 16) as u64 },
        ..Cfg::default()
    };
    let hot_reads = src.range(4, 12);
    let scans = n / 2 + src.draw(n);
    let get_with = src.chance(50);
    let aging = src.chance(50);
    let step = src.range(1, 60);
    if trace {
        out.trace.push(format!("{cfg:?}"));
        out.trace.push(format!("{n} hot keys read {hot_reads} times each, then {scans} keys used once ({}), maintenance every {step} operations", if get_with { "get_with" } else { "get, insert" }));
    }
    let c = build(&cfg);
    let mut cnt = 0;
    let mut tick = |c: &C| {
        vadvance(1);
        cnt += 1;
        if cnt % step == 0 {
            c.run_pending();
        }
    };
    for k in 0..n {
        c.insert(k, V::fresh(1));
        tick(&c);
    }
    c.run_pending();
    if c.entry_count() != n as u64 {
        return fail(Kind::Policy, format!("{n} entries fit, stored are {}", c.entry_count()));
    }
    for _ in 0..hot_reads {
        for k in 0..n {
            if c.get(k, true).is_none() {
                return fail(Kind::Read, format!("k{k} is stored and was not found"));
            }
            tick(&c);
        }
    }
    c.run_pending();
    for k in 0..scans {
        let k = 100_000 + k;
        if get_with {
            c.gw(Gw::GetWith, k, || Init::Val(V::fresh(1)), |_| false, 0);
        } else if c.get(k, true).is_none() {
            c.insert(k, V::fresh(1));
        }
        tick(&c);
    }
    c.run_pending();
    c.run_pending();
    let alive = (0..n).filter(|k| c.contains(*k, true)).count();
    if trace {
        out.trace.push(format!("{alive} of {n} hot entries survived"));
    }
    if c.entry_count() > n as u64 {
        return fail(Kind::Capacity, format!("{} entries are stored", c.entry_count()));
    }
    // Collisions in the popularity estimate may cost some.
    if (alive as u32) < n - n / 10 {
        return fail(Kind::Policy, format!("{alive} of {n} entries that had been read {hot_reads} times survived a scan of {scans} keys used once"));
    }
    out.nontrivial = true;
    if !aging {
        // A new key that gets popular is admitted.
        let k = 900_000;
        for _ in 0..20 {
            c.get(k, true);
            vadvance(1);
        }
        c.run_pending();
        // Its victim is the least recently used one; make sure that it is not more popular.
        if hot_reads <= 10 {
            c.insert(k, V::fresh(1));
            c.run_pending();
            if !c.contains(k, true) {
                return fail(Kind::Policy, format!("a key looked up 20 times was not admitted, the entries had been read at most {} times", hot_reads + 1));
            }
        }
        return Ok(());
    }
    // Aging: make every entry as popular as possible, then look other keys up for a
    // long time. The old popularity fades.
    for _ in 0..16 {
        for k in 0..n {
            c.get(k, true);
            tick(&c);
        }
    }
    c.run_pending();
    // Each period (10 lookups per entry of the capacity) halves the popularity.
    let total = n as u64 * 10 * 5;
    for i in 0..total {
        // Not the same ones all the time, so that none gets popular.
        c.get(2_000_000 + i as u32, true);
        tick(&c);
    }
    c.run_pending();
    let mut won = 0;
    for j in 0..8u32 {
        let k = 900_000 + j;
        for _ in 0..6 {
            c.get(k, true);
            vadvance(1);
        }
        c.run_pending();
        c.insert(k, V::fresh(1));
        c.run_pending();
        won += c.contains(k, true) as u32;
    }
    if trace {
        out.trace.push(format!("after {total} other lookups {won} of 8 new popular keys were admitted"));
    }
    if won < 6 {
        return fail(Kind::Policy, format!("{won} of 8 new keys looked up 6 times each were admitted over entries not used for {total} lookups"));
    }
    Ok(())
}

/// What was counted is not forgotten (within one aging period), whatever happens to
/// the contents of the cache.
pub fn run_memory(src: &mut Src, out: &mut CaseOut, trace: bool) {
    wrap(src, out, trace, memory)
}

/// Popularity counters driven to their extremes by chosen hash values.
pub fn run_extreme(src: &mut Src, out: &mut CaseOut, trace: bool) {
    wrap(src, out, trace, extreme)
}

/// New entries together with updates and reads of the least recently used ones, with no
/// maintenance in between.
pub fn run_pending_lru(src: &mut Src, out: &mut CaseOut, trace: bool) {
    wrap(src, out, trace, |s, o, t| pending(true, s, o, t))
}
pub fn run_pending_tlfu(src: &mut Src, out: &mut CaseOut, trace: bool) {
    wrap(src, out, trace, |s, o, t| pending(false, s, o, t))
}

fn wrap(src: &mut Src, out: &mut CaseOut, trace: bool, f: fn(&mut Src, &mut CaseOut, bool) -> R) {
    new_case();
    PANIC_AT.store(u64::MAX, SeqCst);
    virt_enable(1_000 * SEC);
    if let Err(f) = f(src, out, trace) {
        out.fail = Some(f);
    }
    take_log();
    flush_epoch();
}

fn memory(src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let kind = src.pick(&[0u8, 1, 2]);
    let n = src.pick(&[20u32, 100, 140, 250, 400, 700]);
    let weigher = src.chance(70);
    let w = if weigher { src.range(1, 4) } else { 1 };
    let max = n * w;
    let cfg = Cfg {
        kind,
        segs: 1,
        cap: Some(max as u64),
        weigher,
        lru: false,
        ttl: src.chance(20).then_some(900_000 * SEC),
        listener: src.chance(30),
        inval: src.chance(20),
        hb: HB { mode: 0, seed: src.draw(1 << 16) as u64 },
        ..Cfg::default()
    };
    let cands = src.range(1, 8);
    let looks = src.range(3, 15);
    let maint = src.range(1, 80);
    let c = build(&cfg);
    if trace {
        out.trace.push(format!("{cfg:?}; {cands} keys looked up {looks} times each; maintenance every {maint} operations"));
    }
    let cnt = std::cell::Cell::new(0);
    let tick = |c: &C| {
        vadvance(1);
        cnt.set(cnt.get() + 1);
        if cnt.get() % maint == 0 {
            c.run_pending();
        }
    };
    let mut next = 1_000u32;
    let mut fresh = || {
        next += 1;
        next
    };
    // The popularity is recorded once the cache has been filled by half.
    let h = src.range(1, 6).min(n);
    if weigher {
        for _ in 0..h {
            c.insert(fresh(), V::fresh((max / h).max(1)));
            tick(&c);
        }
    } else {
        for _ in 0..n {
            c.insert(fresh(), V::fresh(1));
            tick(&c);
        }
    }
    c.run_pending();
    if c.weighted_size() < max as u64 / 2 {
        return fail(Kind::Capacity, format!("half of the capacity {max} fits, the weighted size is {}", c.weighted_size()));
    }
    let keys: Vec<u32> = (0..cands).collect();
    let mut looked = vec![0u32; cands as usize];
    let steps = src.range(1, 8);
    for s in 0..=steps {
        // a part of the lookups, the rest of them at last
        for k in &keys {
            let m = if s == steps { looks } else { src.draw(looks + 1) };
            while looked[*k as usize] < m {
                c.get(*k, true);
                looked[*k as usize] += 1;
                if src.draw(4) == 0 {
                    tick(&c);
                }
            }
        }
        c.run_pending();
        if s == steps && !src.chance(70) {
            break;
        }
        let d = src.draw(8);
        if trace {
            out.trace.push(format!("lookups so far {looked:?}, then disturbance {d}"));
        }
        match d {
            0 => {
                for _ in 0..n {
                    c.insert(fresh(), V::fresh(w));
                    tick(&c);
                }
            }
            1 => {
                c.invalidate_all();
                vadvance(1);
                c.run_pending();
            }
            2 if weigher => {
                c.insert(fresh(), V::fresh(max + src.draw(3)));
                tick(&c);
            }
            2 | 3 => {
                // an update of stored entries
                let mut ks = vec![];
                c.iter(&mut |k, _| ks.push(k.id()));
                for k in ks {
                    let w = if weigher { src.draw(w * 2 + 1) } else { 1 };
                    c.insert(k, V::fresh(w));
                    tick(&c);
                }
            }
            4 => {
                let mut ks = vec![];
                c.iter(&mut |k, _| ks.push(k.id()));
                for k in ks {
                    c.invalidate(k, true);
                    tick(&c);
                }
            }
            5 => {
                for _ in 0..src.range(1, 5) {
                    vadvance(src.draw(7200) as u64 * SEC);
                    c.run_pending();
                }
            }
            6 => {
                for k in &keys {
                    c.contains(*k, true);
                }
            }
            _ => {
                if weigher {
                    for _ in 0..h {
                        c.insert(fresh(), V::fresh((max / h).max(1)));
                        tick(&c);
                    }
                }
            }
        }
    }
    c.invalidate_all();
    vadvance(1);
    c.run_pending();
    c.run_pending();
    for _ in 0..n {
        c.insert(fresh(), V::fresh(w));
        tick(&c);
    }
    c.run_pending();
    if c.entry_count() != n as u64 {
        return fail(Kind::Capacity, format!("{n} entries of weight {w} fit within {max}, stored are {}", c.entry_count()));
    }
    out.nontrivial = true;
    for k in &keys {
        c.insert(*k, V::fresh(w));
        c.run_pending();
        if !c.contains(*k, true) {
            return fail(Kind::Policy, format!("a key looked up {looks} times was not admitted in place of an entry never looked up"));
        }
    }
    if c.entry_count() != n as u64 {
        return fail(Kind::Capacity, format!("{} entries of weight {w} are stored, the capacity is {max}", c.entry_count()));
    }
    Ok(())
}

/// Keys (their hash being the key itself) whose popularity counters do not overlap.
fn spread(table: u64, seed: u64, max: usize) -> Vec<u32> {
    const SEED: [u64; 4] = [0xc3a5_c85c_97cb_3127, 0xb492_b66f_be98_f273, 0x9ae1_6a3b_2f90_404f, 0xcbf2_9ce4_8422_2325];
    let mut used = vec![false; 16 * table as usize];
    let mut keys = vec![];
    let mut r = crate::choices::Rng::new(seed);
    for _ in 0..60_000 {
        let k = r.next() as u32;
        let h = k as u64;
        let s: [usize; 4] = std::array::from_fn(|i| {
            let x = h.wrapping_add(SEED[i]).wrapping_mul(SEED[i]);
            let x = x.wrapping_add(x >> 32);
            (x & (table - 1)) as usize * 16 + ((h & 3) << 2) as usize + i
        });
        if !s.iter().any(|x| used[*x]) {
            s.iter().for_each(|x| used[*x] = true);
            keys.push(k);
            if keys.len() == max {
                break;
            }
        }
    }
    keys
}

fn extreme(src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let kind = src.pick(&[0u8, 1, 2]);
    let table = src.pick(&[256u32, 512]);
    let cap = table / 2 + 1 + src.draw(table / 8);
    let keys = spread(table as u64, src.draw(1 << 16) as u64, usize::MAX);
    let cfg = Cfg { kind, segs: 1, cap: Some(cap as u64), lru: false, listener: src.chance(20), hb: HB { mode: 3, seed: 0 }, ..Cfg::default() };
    let maint = src.range(1, 60);
    let c = build(&cfg);
    let period = cap * 10;
    let base = u32::MAX - 100_000;
    for i in 0..cap {
        c.insert(base + i, V::fresh(1));
    }
    c.run_pending();
    if c.entry_count() != cap as u64 {
        return fail(Kind::Capacity, format!("{cap} entries fit, stored are {}", c.entry_count()));
    }
    // Look most keys up an odd number of times within a period.
    let odd = (keys.len() as u32).min(period - 1).saturating_sub(src.draw(40));
    let rounds = src.range(1, 3);
    if trace {
        out.trace.push(format!("{cfg:?}; {rounds} times: {odd} keys with separate counters are looked up, once or three times"));
    }
    let mut n = 0;
    let mut look = |k: u32| {
        c.get(k, true);
        vadvance(1);
        n += 1;
        if n % maint == 0 {
            c.run_pending();
        }
    };
    for _ in 0..rounds {
        for k in &keys[..odd as usize] {
            look(*k);
        }
        let mut left = period - odd;
        let mut i = 0;
        while left >= 2 {
            look(keys[i % odd as usize]);
            look(keys[i % odd as usize]);
            i += 1;
            left -= 2;
        }
    }
    for _ in 0..src.draw(60) {
        look(keys[src.draw(odd) as usize]);
    }
    c.run_pending();
    out.nontrivial = true;
    // Whatever has happened, a popular key gets in.
    let k = 77;
    for _ in 0..15 {
        c.get(k, true);
        vadvance(1);
    }
    c.run_pending();
    c.insert(k, V::fresh(1));
    c.run_pending();
    if !c.contains(k, true) {
        return fail(Kind::Policy, "a key looked up 15 times was not admitted in place of an entry never looked up".to_string());
    }
    Ok(())
}

fn pending(lru: bool, src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let kind = src.pick(&[0u8, 1, 2]);
    let n = src.range(2, 14) as usize;
    let cfg = Cfg {
        kind,
        segs: 1,
        cap: Some(n as u64),
        lru,
        ttl: src.chance(20).then_some(900_000 * SEC),
        tti: src.chance(20).then_some(900_000 * SEC),
        expiry: src.chance(20),
        listener: src.chance(30),
        inval: src.chance(20),
        hb: HB { mode: 3, seed: 0 },
        ..Cfg::default()
    };
    let c = build(&cfg);
    if trace {
        out.trace.push(format!("{cfg:?}"));
    }
    macro_rules! t {
        ($($x:tt)*) => {
            if trace {
                out.trace.push(format!($($x)*));
            }
        };
    }
    // Every key has popularity counters of its own.
    let mut keys = spread(128, src.draw(1 << 16) as u64, n + 12).into_iter();
    let mut q: VecDeque<(u32, u64)> = VecDeque::new();
    let settle = |c: &C| {
        vadvance(1);
        c.run_pending();
    };
    for _ in 0..n {
        let (k, v) = (keys.next().unwrap(), V::fresh(1));
        t!("insert(k{k}, v{})", v.id);
        q.push_back((k, v.id));
        c.insert(k, v);
        vadvance(1);
    }
    settle(&c);
    let touch = |q: &mut VecDeque<(u32, u64)>, k: u32, id: Option<u64>| {
        let i = q.iter().position(|x| x.0 == k).unwrap();
        let mut x = q.remove(i).unwrap();
        if let Some(id) = id {
            x.1 = id;
        }
        q.push_back(x);
    };
    for round in 0..src.range(1, 3) {
        // a few reads, of each entry at most one
        let mut rk: Vec<u32> = q.iter().map(|x| x.0).collect();
        rk.retain(|_| src.chance(30));
        for k in rk {
            t!("get(k{k})");
            c.get(k, true);
            touch(&mut q, k, None);
            vadvance(1);
        }
        settle(&c);
        let u = src.draw(n.min(5) as u32) as usize;
        let new = src.range(1, (n - u).min(3) as u32) as usize;
        let news: Vec<u32> = (0..new).map(|_| keys.next().unwrap()).collect();
        if !lru {
            let looks = 5 * round + 4;
            t!("{news:?} are looked up {looks} times each");
            for k in &news {
                for _ in 0..looks {
                    c.get(*k, false);
                    vadvance(1);
                }
            }
            settle(&c);
        }
        // which entries are updated: mostly the least recently used ones
        let mut ups: Vec<u32> = if src.chance(70) {
            q.iter().take(u).map(|x| x.0).collect()
        } else {
            let mut all: Vec<u32> = q.iter().map(|x| x.0).collect();
            (0..u).map(|_| all.swap_remove(src.draw(all.len() as u32) as usize)).collect()
        };
        if src.chance(30) {
            ups.reverse();
        }
        let mut reads: Vec<u32> = vec![];
        if src.chance(30) {
            let m = (n - u - new).min(2) as u32;
            let rest: Vec<u32> = q.iter().map(|x| x.0).filter(|k| !ups.contains(k)).collect();
            for k in rest.iter().take(src.draw(m + 1) as usize) {
                reads.push(*k);
            }
        }
        // The writes are applied in their order, after the reads.
        let mut ops: Vec<(u8, u32)> = news.iter().map(|k| (0, *k)).collect();
        for x in ups.iter().map(|k| (1, *k)).chain(reads.iter().map(|k| (2, *k))) {
            let at = src.draw(ops.len() as u32 + 1) as usize;
            ops.insert(at, x);
        }
        t!("least recently used first: {:?}", q.iter().map(|x| x.0).collect::<Vec<_>>());
        for (o, k) in &ops {
            if *o == 2 {
                touch(&mut q, *k, None);
            }
        }
        let mut ins = vec![];
        for (o, k) in &ops {
            match o {
                0 => {
                    let v = V::fresh(1);
                    t!("insert(k{k}, v{}) (new)", v.id);
                    ins.push((*k, v.id));
                    c.insert(*k, v);
                }
                1 => {
                    let v = V::fresh(1);
                    t!("insert(k{k}, v{}) (update)", v.id);
                    touch(&mut q, *k, Some(v.id));
                    c.insert(*k, v);
                }
                _ => {
                    t!("get(k{k})");
                    c.get(*k, true);
                }
            }
            if src.chance(50) {
                vadvance(1);
            }
        }
        // What was neither updated nor read is the least recently used now.
        for _ in 0..new {
            q.pop_front();
        }
        settle(&c);
        let mut got = BTreeMap::new();
        c.iter(&mut |k, v| {
            got.insert(k.id(), v.id);
        });
        let want: BTreeMap<u32, u64> = q.iter().chain(ins.iter()).copied().collect();
        if want != got {
            return fail(Kind::Policy, format!("stored {got:?}, expected {want:?}"));
        }
        out.nontrivial |= u > 0;
        // The places of the new ones among the updated ones are not specified.
        for (k, id) in &ins {
            q.push_back((*k, *id));
        }
        for _ in 0..q.len() {
            let k = q[0].0;
            t!("get(k{k})");
            c.get(k, true);
            touch(&mut q, k, None);
        }
        settle(&c);
    }
    Ok(())
}
