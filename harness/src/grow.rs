//! Growth engine: ordinary operations alone, without explicit maintenance, keep the
//! cache bounded and reclaim what is dead.

use crate::api::*;
use crate::choices::Src;
use crate::interpose::*;
use crate::runner::*;
use crate::types::*;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

type R = Result<(), Fail>;

/// Writes that a segment may hold back (its write queue holds 384).
const SLACK: u64 = 512;
/// Values of removed entries that are waiting to be freed by the epoch-based
/// reclamation, for each segment and in all.
const GARBAGE: i64 = 600;

fn gen_cfg(src: &mut Src, bounded: bool) -> Cfg {
    let kind = src.pick(&[0u8, 1, 2]);
    let listener = src.chance(40);
    Cfg {
        kind,
        segs: if kind == 1 { src.pick(&[1usize, 2, 4]) } else { 1 },
        cap: bounded.then(|| [1u64, 10, 100, 400][src.draw(4) as usize]),
        lru: src.chance(50),
        listener,
        async_listener: (listener && kind == 2 && src.chance(50)).then(|| src.draw(3)),
        hb: HB { mode: 0, seed: src.draw(1000) as u64 },
        ..Cfg::default()
    }
}

fn stored(c: &C) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    c.iter(&mut |k, _| {
        s.insert(k.id());
    });
    s
}

fn done(out: &mut CaseOut, r: R) {
    COST.store(0, SeqCst);
    if let Err(f) = r {
        out.fail = Some(f);
    }
    take_log();
    flush_epoch();
}

fn start() {
    new_case();
    COST.store(0, SeqCst);
    PANIC_AT.store(u64::MAX, SeqCst);
    virt_enable(1_000 * SEC);
}

/// A bounded cache under an unbounded number of operations.
pub fn run_bounded(src: &mut Src, out: &mut CaseOut, trace: bool) {
    start();
    let r = bounded(src, out, trace);
    done(out, r);
}

fn bounded(src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let mut cfg = gen_cfg(src, true);
    cfg.ttl = src.chance(20).then_some(3_600 * SEC);
    cfg.tti = src.chance(20).then_some(3_600 * SEC);
    cfg.expiry = src.chance(20);
    cfg.inval = src.chance(20);
    let n = [600, 1_500, 4_000][src.weighted(&[4, 3, 2])];
    // inserts of new keys, of a few keys, get_with, get (hits and misses), remove, compute
    let mix = [
        [10, 0, 0, 0, 0, 0],
        [0, 10, 0, 0, 0, 0],
        [0, 0, 10, 0, 0, 0],
        [5, 5, 2, 5, 0, 0],
        [5, 5, 2, 5, 5, 2],
        [1, 5, 0, 20, 1, 1],
        [0, 5, 0, 1, 5, 0],
        [1, 1, 1, 1, 1, 10],
    ][src.draw(8) as usize];
    let step = [1, 1_000, 100_000, 5 * MS, 200 * MS][src.draw(5) as usize];
    let segs = cfg.segs as u64;
    let cap = cfg.cap.unwrap();
    let limit = cap.div_ceil(segs) * segs + SLACK * segs;
    let vlimit = limit as i64 + GARBAGE;
    if trace {
        out.trace.push(format!("{cfg:?}"));
        out.trace.push(format!("{n} operations (new, few, get_with, get, remove, compute) = {mix:?}, {step} ns apart, no run_pending_tasks"));
    }
    let c = build(&cfg);
    let dec = if cfg.expiry { [Dec::In(3_600 * SEC), Dec::Keep, Dec::Keep] } else { [Dec::Keep; 3] };
    let fresh = || V::new(next_id(), 1, dec);
    // One draw per case; the sequence itself is derived from it.
    let mut x = crate::choices::Rng::new(src.draw(1 << 20) as u64);
    let sum: u64 = mix.iter().sum();
    let (mut new, mut most, mut mostv) = (1_000u32, 0, 0);
    for i in 0..n {
        vadvance(step);
        let mut d = x.next() % sum;
        let mut op = 0;
        while d >= mix[op] {
            d -= mix[op];
            op += 1;
        }
        let few = (x.next() % 4) as u32;
        match op {
            0 => {
                new += 1;
                c.insert(new, fresh());
            }
            1 => c.insert(few, fresh()),
            2 => {
                new += 1;
                c.gw(Gw::GetWith, new, || Init::Val(fresh()), |_| false, 0);
            }
            3 => {
                c.get(few, true);
            }
            4 => {
                c.remove(few, true);
            }
            _ => {
                let d = match x.next() % 3 {
                    0 => CDec::Nop,
                    1 => CDec::Remove,
                    _ => CDec::Put(fresh()),
                };
                c.comp(Cv::Compute, few, |_| d, 0);
            }
        }
        take_log();
        let v = LIVE_V.load(SeqCst) as i64;
        mostv = mostv.max(v);
        if v > vlimit {
            return fail(Kind::Capacity, format!("after {} operations {v} values are alive, max_capacity is {cap} ({segs} segments)", i + 1));
        }
        if i % 97 == 0 || i + 1 == n {
            let s = stored(&c).len() as u64;
            most = most.max(s);
            if s > limit {
                return fail(Kind::Capacity, format!("after {} operations {s} entries are stored, max_capacity is {cap} ({segs} segments)", i + 1));
            }
        }
    }
    if trace {
        out.trace.push(format!("at most {most} entries, {mostv} values"));
    }
    out.nontrivial = true;
    Ok(())
}

/// What has expired or has been invalidated is reclaimed by ordinary operations.
pub fn run_dead(src: &mut Src, out: &mut CaseOut, trace: bool) {
    start();
    let r = dead(src, out, trace);
    done(out, r);
}

fn dead(src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let mut cfg = gen_cfg(src, false);
    if src.chance(30) {
        cfg.cap = Some(10_000);
    }
    let how = src.draw(5);
    match how {
        0 => cfg.ttl = Some(10 * SEC),
        1 => cfg.tti = Some(10 * SEC),
        2 => cfg.expiry = true,
        3 => {}
        _ => cfg.inval = true,
    }
    let m = [3u32, 50, 390, 800, 2_000][src.draw(5) as usize];
    // the ordinary operation: get (miss), get (hit), insert, remove, get_with
    let kind = src.draw(5);
    let slow = if cfg.listener && src.chance(50) { [MS, 30 * MS, 150 * MS][src.draw(3) as usize] } else { 0 };
    // A maintenance run cut short because of a slow listener is continued by the
    // operations that follow, however soon they come.
    let soon = cfg.listener && cfg.segs == 1 && src.chance(30);
    let slow = if soon { 300_000 } else { slow };
    if trace {
        out.trace.push(format!("{cfg:?}"));
        out.trace.push(format!(
            "{m} entries die by {}; then {} now and then, no run_pending_tasks; the listener takes {slow} ns",
            ["time_to_live", "time_to_idle", "expire_after", "invalidate_all", "invalidate_entries_if"][how as usize],
            ["get (miss)", "get (hit)", "insert", "remove", "get_with"][kind as usize]
        ) + if soon { "; only the first one waits" } else { "" });
    }
    let c = build(&cfg);
    let dec = if cfg.expiry { [Dec::In(10 * SEC), Dec::Keep, Dec::Keep] } else { [Dec::Keep; 3] };
    for k in 0..m {
        vadvance(1);
        c.insert(k, V::new(next_id(), 1, dec));
    }
    if src.chance(50) {
        c.run_pending();
    }
    COST.store(slow, SeqCst);
    vadvance(1);
    match how {
        3 => c.invalidate_all(),
        4 => {
            c.invalidate_if(|_, _| true);
        }
        _ => vadvance(11 * SEC),
    }
    vadvance(1);
    let live = 5_000_000;
    let rounds = 12 * (m / 300 + 2);
    let cheap = [Dec::Keep; 3];
    let mut most = 0;
    for i in 0..rounds {
        vadvance(if soon && i > 0 { 1 } else { 310 * MS });
        // Every segment gets to see some of the operations.
        let lanes = if cfg.segs > 1 { 100 } else { 1 };
        for j in 0..lanes {
            let live = live + 10 * j;
            match kind {
                0 => {
                    if c.get(live + 1, true).is_some() {
                        return fail(Kind::Read, "a value of a key never written");
                    }
                }
                1 => {
                    if i == 0 {
                        c.insert(live, V::new(next_id(), 1, cheap));
                    }
                    c.get(live, true);
                }
                2 => c.insert(live, V::new(next_id(), 1, cheap)),
                3 => {
                    c.remove(live, true);
                    // remove of an absent key records nothing
                    c.insert(live, V::new(next_id(), 1, cheap));
                }
                _ => {
                    c.gw(Gw::GetWith, live + i % 2, || Init::Val(V::new(next_id(), 1, cheap)), |_| false, 0);
                }
            }
            let ev = take_log().iter().filter(|l| matches!(l, Log::Event { .. })).count();
            most = most.max(ev);
        }
    }
    let left: Vec<u32> = stored(&c).into_iter().filter(|k| *k < live).collect();
    if !left.is_empty() {
        return fail(Kind::Reclaim, format!("{} dead entries are observable", left.len()));
    }
    let lanes = if cfg.segs > 1 { 100 } else { 1 };
    let most_live = [0, lanes, lanes, lanes, 2 * lanes][kind as usize];
    let n = c.entry_count();
    let v = LIVE_V.load(SeqCst);
    if trace {
        out.trace.push(format!("entry_count {n}, {v} values alive, at most {most} notifications in one operation"));
    }
    if n > most_live {
        return fail(Kind::Reclaim, format!("after {rounds} operations entry_count is {n}; at most {most_live} entries are alive"));
    }
    if v > most_live as i64 + 200 {
        return fail(Kind::Leak, format!("after {rounds} operations {v} values are alive"));
    }
    if how == 4 {
        flush_epoch();
        if PREDS.load(SeqCst) > 0 {
            return fail(Kind::Reclaim, format!("after {rounds} operations the predicate of invalidate_entries_if is still held"));
        }
    }
    // A slow listener does not hold up one operation for the whole backlog.
    if slow >= 30 * MS && how != 2 && most > 1_600 {
        return fail(Kind::Reclaim, format!("one operation called the slow listener {most} times"));
    }
    out.nontrivial = m >= 50;
    Ok(())
}
