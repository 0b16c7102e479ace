//! Differential engine: the same history on every kind of cache gives the same answers.

use crate::api::*;
use crate::choices::Src;
use crate::interpose::*;
use crate::runner::*;
use crate::seq::{gen_pred, gen_val};
use crate::types::*;
use moka::{future, sync};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

type R = Result<(), Fail>;

#[derive(Clone, Copy)]
pub struct DProf {
    /// bounded, with maintenance after every operation and one segment only
    pub tight: bool,
    pub keys: u32,
    pub nops: (u32, u32),
    pub bulk: bool,
}

fn show_ent(e: &EntOut) -> String {
    format!("{:?} v{} fresh={} replaced={}", e.key, e.id, e.fresh, e.replaced)
}
fn show_gw(o: &GwOut) -> String {
    match o {
        GwOut::Val(v) => format!("v{}", v.id),
        GwOut::Ent(e) => show_ent(e),
        GwOut::None => "None".into(),
        GwOut::Err(e) => format!("Err({e})"),
    }
}
fn show_comp(o: &CompOut) -> String {
    match o {
        CompOut::Inserted(e) => format!("Inserted {}", show_ent(e)),
        CompOut::Replaced(e) => format!("ReplacedWith {}", show_ent(e)),
        CompOut::Removed(e) => format!("Removed {}", show_ent(e)),
        CompOut::Unchanged(e) => format!("Unchanged {}", show_ent(e)),
        CompOut::StillNone(k) => format!("StillNone k{k}"),
        CompOut::Err(e) => format!("Err({e})"),
    }
}

/// The builder with its options set in the other order: `segments` last.
fn build_late(cfg: &Cfg) -> C {
    let mut b = sync::Cache::<K, V>::builder();
    if let Some(c) = cfg.cap {
        b = b.max_capacity(c);
    }
    if let Some(n) = cfg.init_cap {
        b = b.initial_capacity(n);
    }
    if cfg.weigher {
        b = b.weigher(|_: &K, v: &V| v.w);
    }
    if cfg.lru {
        b = b.eviction_policy(moka::policy::EvictionPolicy::lru());
    }
    if let Some(d) = cfg.ttl {
        b = b.time_to_live(dur(d));
    }
    if let Some(d) = cfg.tti {
        b = b.time_to_idle(dur(d));
    }
    if cfg.expiry {
        b = b.expire_after(Exp { yields: false });
    }
    if cfg.inval {
        b = b.support_invalidation_closures();
    }
    if cfg.listener {
        b = b.eviction_listener(listen);
    }
    b = b.name("late");
    C::G(b.segments(cfg.segs).build_with_hasher(cfg.hb))
}

fn listen(k: std::sync::Arc<K>, v: V, c: moka::notification::RemovalCause) {
    v.check();
    log(Log::Event { k: k.id(), id: v.id, cause: c.into(), tid: 0 });
}

struct One {
    name: String,
    c: C,
    other: C,
    cfg: Cfg,
    /// (key, value) -> notifications
    ev: BTreeMap<(u32, u64), u32>,
    /// calls of the expiry callbacks
    calls: Vec<String>,
}
impl One {
    fn absorb(&mut self) {
        for l in take_log() {
            match l {
                Log::Event { k, id, .. } => *self.ev.entry((k, id)).or_default() += 1,
                Log::Create { k, id, at } | Log::Update { k, id, at, .. } => self.calls.push(format!("write k{k} v{id} at {at}")),
                Log::Read { k, id, at, cur, lm } => self.calls.push(format!("read k{k} v{id} at {at} {} {lm}", cur.is_some())),
                _ => {}
            }
        }
    }
}

pub fn run_case(p: &DProf, src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    PANIC_AT.store(u64::MAX, SeqCst);
    virt_enable(1_000 * SEC);
    let r = go(p, src, out, trace);
    if let Err(f) = r {
        out.fail = Some(f);
    }
    take_log();
    flush_epoch();
}

fn same(what: &str, xs: &[(String, String)]) -> R {
    if xs.iter().any(|x| x.1 != xs[0].1) {
        let l: Vec<String> = xs.iter().map(|x| format!("{}: {}", x.0, x.1)).collect();
        return fail(Kind::Differ, format!("{what}: {}", l.join("; ")));
    }
    Ok(())
}

fn go(p: &DProf, src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    let durs = [20 * MS, 400 * MS, 10 * SEC];
    let base = Cfg {
        cap: if p.tight {
            Some(src.range(1, 8) as u64)
        } else {
            match src.weighted(&[5, 3, 1]) {
                0 => None,
                1 => Some(1_000_000),
                _ => Some(u64::MAX),
            }
        },
        weigher: src.chance(40),
        lru: src.chance(50),
        ttl: src.chance(30).then(|| src.pick(&durs)),
        tti: src.chance(30).then(|| src.pick(&durs)),
        expiry: src.chance(30),
        listener: src.chance(60),
        inval: src.chance(50),
        hb: HB { mode: src.pick(&[0u8, 0, 3]), seed: src.draw(64) as u64 },
        ..Cfg::default()
    };
    if trace {
        out.trace.push(format!("{base:?}"));
    }
    let segs = if p.tight { 1 } else { src.range(2, 6) as usize };
    let mut cs: Vec<One> = vec![];
    for i in 0..4 {
        let mut cfg = base.clone();
        if !p.tight {
            // neither matters to what the cache answers
            cfg.init_cap = [None, Some(1), Some(64), Some(5_000)][src.draw(4) as usize];
            cfg.hb = HB { mode: src.pick(&[0u8, 1, 2, 3, 4]), seed: src.draw(1000) as u64 };
        }
        let name;
        let c = match i {
            0 => {
                name = "sync::Cache".to_string();
                build(&cfg)
            }
            1 => {
                cfg.kind = 2;
                if cfg.listener && src.chance(50) {
                    cfg.async_listener = Some(src.draw(3));
                }
                name = "future::Cache".to_string();
                build(&cfg)
            }
            2 => {
                cfg.kind = 1;
                cfg.segs = segs;
                name = format!("SegmentedCache({segs})");
                build(&cfg)
            }
            _ => {
                cfg.kind = 1;
                cfg.segs = if p.tight { 1 } else { 1 << src.draw(4) };
                name = format!("builder().segments({})", cfg.segs);
                build_late(&cfg)
            }
        };
        // what was configured is what is reported
        let pol = c.policy();
        let want = (cfg.cap, if cfg.kind == 1 { cfg.segs.next_power_of_two() } else { 1 }, cfg.ttl.map(dur), cfg.tti.map(dur));
        let got = (pol.max_capacity(), pol.num_segments(), pol.time_to_live(), pol.time_to_idle());
        if want != got {
            return fail(Kind::Config, format!("{name}: policy() is {got:?}, configured {want:?}"));
        }
        let nm = if i == 3 { Some("late") } else { None };
        if c.name() != nm {
            return fail(Kind::Config, format!("{name}: name() is {:?}, configured {nm:?}", c.name()));
        }
        if trace {
            out.trace.push(format!("  {name}: hash {:?}, initial_capacity {:?}", cfg.hb, cfg.init_cap));
        }
        cs.push(One { name, other: c.clone(), c, cfg, ev: BTreeMap::new(), calls: vec![] });
    }
    let n = src.range(p.nops.0, p.nops.1);
    for _ in 0..n {
        src.open();
        let r = step(p, src, out, trace, &base, &mut cs);
        src.close();
        r?;
    }
    vadvance(1);
    let mut live = vec![];
    for o in &cs {
        let mut m = BTreeMap::new();
        o.c.iter(&mut |k, v| {
            m.insert(k.id(), v.id);
        });
        live.push((o.name.clone(), format!("{m:?}")));
    }
    same("live entries at the end", &live)?;
    // settle, with enough time for the timer wheels
    vadvance(100 * SEC);
    let mut obs = vec![];
    let mut evs = vec![];
    let mut calls = vec![];
    vadvance(1);
    for o in &mut cs {
        for _ in 0..(p.keys / 200 + 4) {
            o.c.run_pending();
        }
        o.absorb();
        let mut m = BTreeMap::new();
        o.c.iter(&mut |k, v| {
            m.insert(k.id(), v.id);
        });
        obs.push((o.name.clone(), format!("{m:?} entry_count {} weighted_size {}", o.c.entry_count(), o.c.weighted_size())));
        evs.push((o.name.clone(), format!("{:?}", o.ev)));
        calls.push((o.name.clone(), o.calls.join(", ")));
    }
    same("contents at the end", &obs)?;
    same("notifications (key, value): times", &evs)?;
    same("calls of the Expiry", &calls)?;
    if CORRUPT.load(SeqCst) > 0 {
        return fail(Kind::Uaf, "a dropped or corrupted key/value was used");
    }
    out.nontrivial = ["hit", "update", "removed"].iter().all(|l| out.labels.contains(l));
    Ok(())
}

fn step(p: &DProf, src: &mut Src, out: &mut CaseOut, trace: bool, base: &Cfg, cs: &mut [One]) -> R {
    let op = src.weighted(&[20, 16, 6, 4, 6, 2, if base.inval { 3 } else { 1 }, 3, 6, 10, 10, 10, if p.bulk { 8 } else { 0 }]);
    if op == 9 {
        let d = match src.draw(3) {
            0 => 1 + src.draw(50) as u64 * MS,
            1 => (300 + src.draw(1500) as u64) * MS,
            _ => [MS, 20 * MS - 2, 400 * MS - 1, 9 * SEC, 10 * SEC][src.draw(5) as usize],
        };
        if trace {
            out.trace.push(format!("-- advance {d} ns"));
        }
        vadvance(d);
        return Ok(());
    }
    vadvance(1);
    let k = src.draw(p.keys);
    let b = src.chance(50);
    let v = gen_val(src, base);
    let (id, w) = (v.id, v.w);
    // An insertion over an entry that has died is a creation or an update, depending
    // on whether maintenance has come across the entry; so both answer the same.
    let ed = if base.expiry {
        let mut d = || match src.draw(4) {
            0 => Dec::Never,
            i => Dec::In([5 * MS, 100 * MS, 3 * SEC][i as usize - 1] + 1_234_567),
        };
        let (w, r) = (d(), d());
        [w, if src.chance(50) { Dec::Keep } else { r }, w]
    } else {
        [Dec::Keep; 3]
    };
    let mk = || V::new(id, w, ed);
    let pred = gen_pred(src);
    let gw = GWS[src.draw(GWS.len() as u32) as usize];
    let cv = CVS[src.draw(6) as usize];
    let d = src.draw(8);
    let via_clone = src.chance(30);
    let cond = src.chance(30);
    let (from, len) = (src.draw(p.keys.max(1)), [30u32, 100, 400][src.draw(3) as usize]);
    let mut res = vec![];
    let mut what = String::new();
    for o in cs.iter_mut() {
        let c = if via_clone { o.other.clone() } else { o.c.clone() };
        let r = match op {
            0 => {
                what = format!("insert(k{k}, v{id} w{w})");
                c.insert(k, mk());
                String::new()
            }
            1 => {
                what = format!("get(k{k})");
                format!("{:?}", c.get(k, b).map(|v| v.id))
            }
            2 => {
                what = format!("contains_key(k{k})");
                format!("{}", c.contains(k, b))
            }
            3 => {
                what = format!("invalidate(k{k})");
                c.invalidate(k, b);
                String::new()
            }
            4 => {
                what = format!("remove(k{k})");
                format!("{:?}", c.remove(k, b).map(|v| v.id))
            }
            5 => {
                what = "invalidate_all()".into();
                c.invalidate_all();
                String::new()
            }
            6 => {
                what = format!("invalidate_entries_if({pred:?})");
                let ok = c.invalidate_if(move |k, v| pred.m(k.id(), v.id));
                if ok != o.cfg.inval {
                    return fail(Kind::Config, format!("{}: invalidate_entries_if is {}, support_invalidation_closures was {}", o.name, if ok { "accepted" } else { "refused" }, if o.cfg.inval { "called" } else { "not called" }));
                }
                format!("{ok}")
            }
            7 => {
                what = "iterate".into();
                let mut m = BTreeMap::new();
                c.iter(&mut |k, v| {
                    m.insert(k.id(), v.id);
                });
                format!("{m:?}")
            }
            8 => {
                what = "run_pending_tasks()".into();
                c.run_pending();
                String::new()
            }
            10 => {
                let init = if gw.is_default() {
                    Init::None
                } else if gw.can_none() && d == 0 {
                    Init::None
                } else if gw.can_err() && d < 2 {
                    Init::Err(if gw.unit() { UNIT_ERR } else { 7 })
                } else {
                    Init::Val(mk())
                };
                // `or_default` makes a value with an id of its own
                if gw.is_default() {
                    NEXT_ID.store(id + 1_000_000, SeqCst);
                }
                what = format!("{gw:?}(k{k}, v{id} w{w}, {d}, replace {cond})");
                let r = show_gw(&c.gw(gw, k, || init, |_| cond, src_yield(d)));
                if gw.is_default() {
                    NEXT_ID.store(id + 1, SeqCst);
                }
                r
            }
            11 => {
                let dec = if cv.upsert() || d < 4 {
                    CDec::Put(mk())
                } else if d < 5 {
                    CDec::Nop
                } else if d < 7 || !cv.can_err() {
                    CDec::Remove
                } else {
                    CDec::Err(9)
                };
                let mut seen = None;
                what = format!("{cv:?}(k{k}, v{id} w{w}, {d})");
                let r = c.comp(cv, k, |e| { seen = Some(e); dec }, src_yield(d));
                format!("{} (saw {seen:?})", show_comp(&r))
            }
            _ => {
                what = format!("insert k{from}..k{}", from + len);
                for k in from..from + len {
                    c.insert(k, V::new(1_000_000_000 + id * 100_000 + k as u64, w, ed));
                }
                String::new()
            }
        };
        if p.tight {
            c.run_pending();
        }
        o.absorb();
        res.push((o.name.clone(), r));
    }
    if trace {
        out.trace.push(format!("{what} -> {}", res[0].1));
    }
    let mut lab = |l| {
        if !out.labels.contains(&l) {
            out.labels.push(l)
        }
    };
    match op {
        1 if res[0].1 != "None" => lab("hit"),
        0 => lab("update"),
        4 if res[0].1 != "None" => lab("removed"),
        _ => {}
    }
    same(&what, &res)
}

fn src_yield(d: u32) -> u32 {
    d % 3
}

/// What the builders accept and report.
pub fn run_builder(src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    virt_enable(1_000 * SEC);
    let r = builder(src, out, trace);
    if let Err(f) = r {
        out.fail = Some(f);
    }
    take_log();
    flush_epoch();
}

fn builder(src: &mut Src, out: &mut CaseOut, trace: bool) -> R {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::time::Duration;
    const MAX: u64 = 1_000 * 365 * 24 * 3600;
    let kind = src.draw(3);
    let mut gd = || -> Option<Duration> {
        match src.draw(7) {
            0 => None,
            1 => Some(Duration::from_secs(MAX)),
            2 => Some(Duration::from_secs(MAX) + Duration::from_nanos(1)),
            3 => Some(Duration::from_secs(MAX) - Duration::from_nanos(1)),
            4 => Some(Duration::MAX),
            5 => Some(Duration::from_nanos(src.draw(1 << 30) as u64 + 1)),
            _ => Some(Duration::from_secs(src.draw(1 << 30) as u64)),
        }
    };
    let (ttl, tti) = (gd(), gd());
    let segs = [1usize, 2, 3, 5, 8, 17, 64, 0][src.draw(8) as usize];
    let cap = match src.draw(5) {
        0 => None,
        1 => Some(0),
        2 => Some(u64::MAX),
        3 => Some(src.draw(100) as u64),
        _ => Some((src.draw(1 << 30) as u64) << src.draw(34)),
    };
    let name = src.chance(50);
    let plain = src.chance(20);
    if trace {
        out.trace.push(format!("kind {kind} segments {segs} max_capacity {cap:?} ttl {ttl:?} tti {tti:?} name {name} new() {plain}"));
    }
    let too_long = |d: Option<Duration>| d.is_some_and(|d| d > Duration::from_secs(MAX));
    let must_panic = if plain { kind == 1 && segs == 0 } else { too_long(ttl) || too_long(tti) || (kind == 1 && segs == 0) };
    let hb = HB::default();
    let made = catch_unwind(AssertUnwindSafe(|| -> C {
        macro_rules! opts {
            ($b:expr) => {{
                let mut b = $b;
                if let Some(c) = cap {
                    b = b.max_capacity(c);
                }
                if let Some(d) = ttl {
                    b = b.time_to_live(d);
                }
                if let Some(d) = tti {
                    b = b.time_to_idle(d);
                }
                if name {
                    b = b.name("the name");
                }
                b
            }};
        }
        if plain {
            let n = cap.unwrap_or(5);
            // The default hasher's type differs; only its policy is of interest.
            let pol = match kind {
                0 => sync::Cache::<K, V>::new(n).policy(),
                1 => sync::SegmentedCache::<K, V>::new(n, segs).policy(),
                _ => future::Cache::<K, V>::new(n).policy(),
            };
            let want = if kind == 1 { segs.next_power_of_two() } else { 1 };
            assert!(pol.max_capacity() == Some(n) && pol.num_segments() == want && pol.time_to_live().is_none() && pol.time_to_idle().is_none(), "new({n}, {segs}) has {pol:?}");
        }
        match kind {
            0 => C::S(opts!(sync::Cache::builder()).build_with_hasher(hb)),
            1 => C::G(opts!(sync::SegmentedCache::builder(segs)).build_with_hasher(hb)),
            _ => C::F(opts!(future::Cache::builder()).build_with_hasher(hb)),
        }
    }));
    let must_panic = must_panic || too_long(ttl) || too_long(tti);
    out.nontrivial = true;
    match made {
        Err(_) if must_panic => Ok(()),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| last_panic());
            fail(Kind::Config, format!("building a valid configuration panicked: {m}"))
        }
        Ok(_) if must_panic => fail(Kind::Config, "an invalid configuration was accepted"),
        Ok(c) => {
            let pol = c.policy();
            let want = (cap, if kind == 1 { segs.next_power_of_two() } else { 1 }, ttl, tti);
            let got = (pol.max_capacity(), pol.num_segments(), pol.time_to_live(), pol.time_to_idle());
            if want != got {
                return fail(Kind::Config, format!("policy() is {got:?}, configured {want:?}"));
            }
            let nm = name.then_some("the name");
            if c.name() != nm {
                return fail(Kind::Config, format!("name() is {:?}, configured {nm:?}", c.name()));
            }
            // and it works
            vadvance(1);
            c.insert(1, V::fresh(1));
            let dead = |d: Option<Duration>| d.is_some_and(|d| d.as_nanos() <= 1);
            let want = cap != Some(0) && !dead(ttl) && !dead(tti);
            vadvance(1);
            if c.get(1, true).is_some() != want {
                return fail(Kind::Config, format!("after an insert get is {}", !want));
            }
            c.run_pending();
            let evictable = cap.is_some();
            if want && !evictable && c.entry_count() != 1 {
                return fail(Kind::Config, "the entry is not counted");
            }
            Ok(())
        }
    }
}
