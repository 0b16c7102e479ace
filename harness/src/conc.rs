//! Concurrent engine: a generated program (2-4 threads, a few operations each) runs on
//! the real cache under a generated deterministic schedule (`sched`). The recorded
//! history is checked per key for linearizability, and at quiescence the contents,
//! counts, notifications and drops are checked.

use crate::api::*;
use crate::choices::Src;
use crate::interpose::GNOW;
use crate::runner::*;
use crate::sched::{self, no_yield};
use crate::seq::{gen_pred, Pred, MS, SEC};
use crate::types::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy)]
pub struct CProf {
    pub kinds: &'static [u8],
    pub threads: (u32, u32),
    pub nops: (u32, u32),
    pub keys: u32,
    /// ins get has inv rem all if iter run adv gw comp burst
    pub ops: [u32; 13],
    /// weights: unbounded, generous, small (lossy), zero
    pub cap: [u32; 4],
    pub listener: u32,
    pub weigher: u32,
    pub expiry: u32,
    pub ttl: u32,
    pub inval: u32,
    pub fail: u32,
    pub prefill: u32,
    pub hash_modes: &'static [u8],
    pub gws: &'static [Gw],
    pub need: &'static [&'static str],
    /// preempt at atomic accesses too
    pub fine: bool,
    /// percent: the hash table is about to be resized or cleaned
    pub fill: u32,
    /// bursts fill the write queue
    pub flood: bool,
}

pub const CBASE: CProf = CProf {
    kinds: &[0, 0, 1, 2, 2],
    threads: (2, 4),
    nops: (1, 5),
    keys: 2,
    ops: [20, 14, 3, 6, 8, 3, 3, 3, 8, 5, 10, 10, 0],
    cap: [6, 4, 3, 0],
    listener: 60,
    weigher: 40,
    expiry: 20,
    ttl: 0,
    inval: 30,
    fail: 12,
    prefill: 40,
    hash_modes: &[0, 0, 1, 3],
    gws: &[],
    need: &["overlap"],
    fine: false,
    fill: 0,
    flood: false,
};

const GWALL: [Gw; 20] = [
    Gw::GetWith,
    Gw::GetWithRef,
    Gw::Opt,
    Gw::OptRef,
    Gw::Try,
    Gw::TryRef,
    Gw::OrInsertWith,
    Gw::ROrInsertWith,
    Gw::GetWithIf,
    Gw::Try2,
    Gw::OrInsert,
    Gw::OrInsertWithIf,
    Gw::OrOpt,
    Gw::OrTry,
    Gw::ROrInsert,
    Gw::ROrInsertWithIf,
    Gw::ROrOpt,
    Gw::ROrTry,
    Gw::TryUnit,
    Gw::ROrTryUnit,
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IK {
    Val,
    None,
    Err(u32),
    Panic,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum DK {
    Put,
    Nop,
    Remove,
    Err(u32),
    Panic,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Ins { k: u32, id: u64, w: u32 },
    Get { k: u32 },
    Has { k: u32 },
    Inv { k: u32 },
    Rem { k: u32 },
    All,
    If { p: Pred },
    Iter,
    Run,
    Adv { ns: u64 },
    Gw { v: Gw, k: u32, id: u64, w: u32, ik: IK, cond: bool, y: u32 },
    Comp { v: Cv, k: u32, id: u64, w: u32, dk: DK, y: u32 },
    /// inserts of `n` other keys
    Burst { k0: u32, n: u32, id0: u64 },
    /// invalidates `n` of them
    Drain { k0: u32, n: u32 },
}

#[derive(Clone, Debug)]
pub enum Out {
    Unit,
    Val(Option<u64>),
    Bool(bool),
    Items(Vec<(u32, u64)>),
    Gw { id: Option<u64>, err: Option<u32>, ent: Option<(Option<u32>, bool, bool)> },
    Comp { tag: &'static str, id: Option<u64>, key: Option<u32>, fresh: bool, replaced: bool, err: Option<u32> },
    Panic(String),
    /// the future was dropped before it completed
    Cancelled,
}

#[derive(Clone, Debug)]
pub struct Cl {
    pub start: u64,
    pub end: u64,
    pub saw: Option<(u32, u64)>,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub t: usize,
    pub op: Op,
    pub inv: u64,
    pub resp: u64,
    pub out: Out,
    pub cl: Vec<Cl>,
    pub conds: Vec<u64>,
}

static STAMP: AtomicU64 = AtomicU64::new(0);
pub fn stamp() -> u64 {
    STAMP.fetch_add(1, SeqCst)
}
pub fn reset_stamp() {
    STAMP.store(1, SeqCst);
}

pub fn pmsg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

pub fn gw_out(r: GwOut) -> Out {
    match r {
        GwOut::Val(v) => Out::Gw { id: Some(v.id), err: None, ent: None },
        GwOut::Ent(e) => Out::Gw { id: Some(e.id), err: None, ent: Some((e.key, e.fresh, e.replaced)) },
        GwOut::None => Out::Gw { id: None, err: None, ent: None },
        GwOut::Err(e) => Out::Gw { id: None, err: Some(e), ent: None },
    }
}
pub fn comp_out(r: CompOut) -> Out {
    let (tag, e) = match r {
        CompOut::Inserted(e) => ("inserted", e),
        CompOut::Replaced(e) => ("replaced", e),
        CompOut::Removed(e) => ("removed", e),
        CompOut::Unchanged(e) => ("unchanged", e),
        CompOut::StillNone(k) => {
            return Out::Comp { tag: "stillnone", id: None, key: Some(k), fresh: false, replaced: false, err: None }
        }
        CompOut::Err(e) => {
            return Out::Comp { tag: "err", id: None, key: None, fresh: false, replaced: false, err: Some(e) }
        }
    };
    Out::Comp { tag, id: Some(e.id), key: e.key, fresh: e.fresh, replaced: e.replaced, err: None }
}

pub fn mk_init(ik: IK, id: u64, w: u32) -> Init {
    match ik {
        IK::Val => Init::Val(V::new(id, w, ED)),
        IK::None => Init::None,
        IK::Err(e) => Init::Err(e),
        IK::Panic => Init::Panic,
    }
}
pub fn mk_dec(dk: DK, id: u64, w: u32) -> CDec {
    match dk {
        DK::Put => CDec::Put(V::new(id, w, ED)),
        DK::Nop => CDec::Nop,
        DK::Remove => CDec::Remove,
        DK::Err(e) => CDec::Err(e),
        DK::Panic => CDec::Panic,
    }
}

pub const ED: [Dec; 3] = [Dec::In(90_000 * SEC), Dec::Keep, Dec::Keep];

fn exec(c: &C, t: usize, op: Op, recs: &Mutex<Vec<Rec>>) {
    let inv = stamp();
    sched::yield_point(sched::Y_OP);
    let cls: Mutex<Vec<Cl>> = Mutex::new(vec![]);
    let conds: Mutex<Vec<u64>> = Mutex::new(vec![]);
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::Ins { k, id, w } => {
            c.insert(k, V::new(id, w, ED));
            Out::Unit
        }
        Op::Get { k } => Out::Val(c.get(k, true).map(|v| v.id)),
        Op::Has { k } => Out::Bool(c.contains(k, true)),
        Op::Inv { k } => {
            c.invalidate(k, true);
            Out::Unit
        }
        Op::Rem { k } => Out::Val(c.remove(k, true).map(|v| {
            v.check();
            v.id
        })),
        Op::All => {
            c.invalidate_all();
            Out::Unit
        }
        Op::If { p } => Out::Bool(c.invalidate_if(move |k, v| {
            v.check();
            sched::yield_point(sched::Y_CALLBACK);
            p.m(k.id(), v.id)
        })),
        Op::Iter => {
            let mut items = vec![];
            c.iter(&mut |k, v| {
                v.check();
                sched::yield_point(sched::Y_CALLBACK);
                items.push((k.id(), v.id));
            });
            Out::Items(items)
        }
        Op::Run => {
            c.run_pending();
            Out::Unit
        }
        Op::Adv { ns } => {
            GNOW.fetch_add(ns, SeqCst);
            Out::Unit
        }
        Op::Gw { v, k, id, w, ik, cond, y } => {
            let cls = &cls;
            let conds = &conds;
            gw_out(c.gw(
                v,
                k,
                move || {
                    let s = stamp();
                    sched::yield_point(sched::Y_CALLBACK);
                    let i = mk_init(ik, id, w);
                    no_yield(|| cls.lock().unwrap().push(Cl { start: s, end: stamp(), saw: None }));
                    i
                },
                |x: &V| {
                    x.check();
                    no_yield(|| conds.lock().unwrap().push(x.id));
                    cond
                },
                y,
            ))
        }
        Op::Comp { v, k, id, w, dk, y } => {
            let cls = &cls;
            comp_out(c.comp(
                v,
                k,
                move |e| {
                    let s = stamp();
                    sched::yield_point(sched::Y_CALLBACK);
                    let d = mk_dec(dk, id, w);
                    no_yield(|| cls.lock().unwrap().push(Cl { start: s, end: stamp(), saw: e }));
                    d
                },
                y,
            ))
        }
        Op::Burst { k0, n, id0 } => {
            for i in 0..n {
                c.insert(k0 + i, V::new(id0 + i as u64, 1, ED));
            }
            Out::Unit
        }
        Op::Drain { k0, n } => {
            for i in 0..n {
                c.invalidate(k0 + i, true);
            }
            Out::Unit
        }
    }));
    let out = match r {
        Ok(o) => o,
        Err(p) => Out::Panic(pmsg(p)),
    };
    let resp = stamp();
    let rec =
        Rec { t, op, inv, resp, out, cl: cls.into_inner().unwrap(), conds: conds.into_inner().unwrap() };
    no_yield(|| recs.lock().unwrap().push(rec));
}

pub fn gen_w(src: &mut Src, weigher: bool) -> u32 {
    if weigher {
        [1, 0, 2, 3, 5, 9][src.draw(6) as usize]
    } else {
        1
    }
}

pub fn gen_op(src: &mut Src, p: &CProf, cfg: &Cfg) -> Op {
    let o = src.weighted(&p.ops);
    let k = src.draw(p.keys);
    match o {
        0 => Op::Ins { k, id: next_id(), w: gen_w(src, cfg.weigher) },
        1 => Op::Get { k },
        2 => Op::Has { k },
        3 => Op::Inv { k },
        4 => Op::Rem { k },
        5 => Op::All,
        6 if cfg.inval => Op::If { p: gen_pred(src) },
        6 => Op::Get { k },
        7 => Op::Iter,
        8 => Op::Run,
        9 => Op::Adv { ns: [301 * MS, 1500 * MS, 50 * MS][src.draw(3) as usize] },
        10 => {
            let gws: &[Gw] = if p.gws.is_empty() { &GWALL } else { p.gws };
            let v = gws[src.draw(gws.len() as u32) as usize];
            let cond = src.chance(50);
            let y = src.draw(3);
            let ik = if v.plain() || !src.chance(p.fail * 2) {
                IK::Val
            } else if v.can_none() && src.chance(60) {
                IK::None
            } else if v.can_err() && src.chance(60) {
                IK::Err(if v.unit() { UNIT_ERR } else { next_id() as u32 })
            } else {
                IK::Panic
            };
            Op::Gw { v, k, id: next_id(), w: gen_w(src, cfg.weigher), ik, cond, y }
        }
        11 => {
            let n = if cfg.kind == 2 { 8 } else { 6 };
            let v = CVS[src.draw(n) as usize];
            let y = src.draw(3);
            let dk = if v.upsert() {
                if src.chance(p.fail) {
                    DK::Panic
                } else {
                    DK::Put
                }
            } else {
                match src.weighted(&[10, 3, 6, if v.can_err() { 2 } else { 0 }, p.fail / 6]) {
                    0 => DK::Put,
                    1 => DK::Nop,
                    2 => DK::Remove,
                    3 => DK::Err(next_id() as u32),
                    _ => DK::Panic,
                }
            };
            Op::Comp { v, k, id: next_id(), w: gen_w(src, cfg.weigher), dk, y }
        }
        _ => {
            if p.fill > 0 && src.chance(30) {
                return Op::Drain { k0: 1000 + src.draw(60), n: [1, 3, 8, 14][src.draw(4) as usize] };
            }
            let n = if p.flood {
                [380, 200, 420, 300][src.draw(4) as usize]
            } else if p.fill > 0 {
                [3, 1, 6, 12][src.weighted(&[3, 3, 2, 1])]
            } else {
                [20, 70, 150, 400][src.weighted(&[3, 3, 2, 1])]
            };
            let k0 = 1000 + 1000 * src.draw(3);
            let id0 = next_id();
            for _ in 0..n {
                next_id();
            }
            Op::Burst { k0, n, id0 }
        }
    }
}

// ------------------------------------------------------------ history checking

#[derive(Clone, Debug)]
pub enum SK {
    Write(Option<u64>),
    Read(Option<u64>),
    Has(bool),
    RemoveRet(Option<u64>),
    Comp { saw: Option<u64>, write: Option<Option<u64>> },
    Pred(Pred),
}
#[derive(Clone, Debug)]
pub struct Sub {
    pub inv: u64,
    pub resp: u64,
    pub k: SK,
    pub what: String,
    /// (record, 0: the reading part, 1: the writing part)
    pub tag: (usize, u8),
    /// Must come after these (the critical sections of single-flight calls and of
    /// computes on one key do not overlap).
    pub after: Vec<(usize, u8)>,
}

/// Wing-Gong search with memoization. `lossy`: the entry may vanish at any time.
pub fn linearizable(k: u32, subs: &[Sub], init: Option<u64>, lossy: bool) -> Option<bool> {
    if subs.len() > 62 {
        return None;
    }
    let n = subs.len();
    let full = (1u64 << n) - 1;
    let after: Vec<u64> = subs
        .iter()
        .map(|x| (0..n).filter(|&j| x.after.contains(&subs[j].tag)).fold(0, |m, j| m | (1u64 << j)))
        .collect();
    let mut seen: HashSet<(u64, Option<u64>)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            return Some(true);
        }
        if !seen.insert((mask, st)) {
            continue;
        }
        if seen.len() > 300_000 {
            return None;
        }
        let minresp = (0..n).filter(|i| mask & (1 << i) == 0).map(|i| subs[i].resp).min().unwrap();
        for i in 0..n {
            if mask & (1 << i) != 0 || subs[i].inv > minresp || after[i] & !mask != 0 {
                continue;
            }
            let m2 = mask | (1 << i);
            match &subs[i].k {
                SK::Write(w) => stack.push((m2, *w)),
                SK::Read(r) => {
                    if *r == st {
                        stack.push((m2, st))
                    } else if r.is_none() && lossy {
                        stack.push((m2, None))
                    }
                }
                SK::Has(b) => {
                    if *b == st.is_some() {
                        stack.push((m2, st))
                    } else if !*b && lossy {
                        stack.push((m2, None))
                    }
                }
                SK::RemoveRet(r) => {
                    if *r == st || (r.is_none() && lossy) {
                        stack.push((m2, None))
                    }
                }
                SK::Comp { saw, write } => {
                    if *saw == st || (saw.is_none() && lossy) {
                        stack.push((m2, match write {
                            Some(w) => *w,
                            None => *saw,
                        }))
                    }
                }
                SK::Pred(p) => match st {
                    Some(id) if p.m(k, id) => stack.push((m2, None)),
                    _ => stack.push((m2, st)),
                },
            }
        }
    }
    Some(false)
}

pub fn overlap(a: &Rec, b: &Rec) -> bool {
    a.inv < b.resp && b.inv < a.resp
}

pub fn rec_line(r: &Rec) -> String {
    let cl: Vec<String> = r.cl.iter().map(|c| format!("closure {}..{} saw {:?}", c.start, c.end, c.saw)).collect();
    format!("T{} [{}..{}] {:?} = {:?} {}", r.t, r.inv, r.resp, r.op, r.out, cl.join(" "))
}

pub struct Hist<'a> {
    pub cfg: &'a Cfg,
    pub recs: &'a [Rec],
    pub lossy: bool,
    /// keys whose history is checked
    pub keys: Vec<u32>,
    /// values written by an operation that did not complete (cancelled): may or may
    /// not have been stored
    pub maybe: HashMap<u32, Vec<(u64, u64, u64)>>,
}

/// Checks the return values of every operation on its own, single flight, and the
/// per-key linearizability. Returns the ids written per key: (id, inv, resp).
pub fn check_history(h: &Hist, out: &mut CaseOut) -> Result<BTreeMap<u64, (u32, u64, u64, u32)>, Fail> {
    let recs = h.recs;
    let mut written: BTreeMap<u64, (u32, u64, u64, u32)> = BTreeMap::new();
    let lossy = h.lossy;
    let mut subs: BTreeMap<u32, Vec<Sub>> = BTreeMap::new();
    let mut atomic: BTreeMap<u32, bool> = BTreeMap::new();
    for &k in &h.keys {
        subs.insert(k, vec![]);
        atomic.insert(k, !lossy);
    }
    let mut skip: HashSet<u32> = HashSet::new();
    // producers of init results
    let prod = |r: &Rec, k: u32, cls: u8, pred: &dyn Fn(u64, IK) -> bool| -> bool {
        recs.iter().any(|o| match o.op {
            Op::Gw { v, k: k2, id, ik, .. } => {
                k2 == k && v.class() == cls && !o.cl.is_empty() && !matches!(o.out, Out::Cancelled) && overlap(r, o) && !std::ptr::eq(r, o) && pred(id, ik)
            }
            _ => false,
        })
    };
    for r in recs {
        if let Out::Panic(m) = &r.out {
            let ok = match r.op {
                Op::Gw { ik: IK::Panic, .. } | Op::Comp { dk: DK::Panic, .. } => m == INJECTED && !r.cl.is_empty(),
                _ => false,
            };
            if !ok {
                return fail(Kind::Panic, format!("{:?} on T{} panicked: {m}", r.op, r.t));
            }
        }
    }
    for (ri, r) in recs.iter().enumerate() {
        if matches!(r.out, Out::Cancelled) {
            if let Op::Ins { k, .. } | Op::Inv { k } | Op::Rem { k } | Op::Gw { k, .. } | Op::Comp { k, .. } = r.op {
                atomic.insert(k, false);
            }
            // The closure was called: what it saw must fit.
            if let (Some(cl), Op::Gw { k, .. } | Op::Comp { k, .. }) = (r.cl.first(), r.op) {
                let saw = match r.op {
                    Op::Gw { v, cond, .. } if v.plain() || (v.has_cond() && cond) => continue,
                    Op::Gw { .. } => None,
                    _ => cl.saw.map(|s| s.1),
                };
                if let Some(s) = subs.get_mut(&k) {
                    s.push(Sub { inv: r.inv, resp: cl.start, k: SK::Read(saw), what: format!("T{} {:?} (cancelled)", r.t, r.op), tag: (ri, 0), after: vec![] });
                }
            }
            continue;
        }
        let mut push = |k: u32, inv: u64, resp: u64, sk: SK| {
            if let Some(s) = subs.get_mut(&k) {
                let part = matches!(sk, SK::Write(_)) as u8;
                s.push(Sub { inv, resp, k: sk, what: format!("T{} {:?}", r.t, r.op), tag: (ri, part), after: vec![] });
            }
        };
        match (&r.op, &r.out) {
            (Op::Ins { k, id, w }, _) => {
                atomic.insert(*k, false);
                if h.cfg.cap != Some(0) {
                    written.insert(*id, (*k, r.inv, r.resp, *w));
                }
                push(*k, r.inv, r.resp, SK::Write(Some(*id)));
            }
            (Op::Burst { k0, n, id0 }, _) => {
                if h.cfg.cap != Some(0) {
                    for i in 0..*n {
                        written.insert(*id0 + i as u64, (*k0 + i, r.inv, r.resp, 1));
                    }
                }
            }
            (Op::Drain { .. }, _) => {}
            (Op::Get { k }, Out::Val(v)) => push(*k, r.inv, r.resp, SK::Read(*v)),
            (Op::Has { k }, Out::Bool(b)) => push(*k, r.inv, r.resp, SK::Has(*b)),
            (Op::Inv { k }, _) => {
                atomic.insert(*k, false);
                push(*k, r.inv, r.resp, SK::Write(None))
            }
            (Op::Rem { k }, Out::Val(v)) => {
                atomic.insert(*k, false);
                push(*k, r.inv, r.resp, SK::RemoveRet(*v))
            }
            (Op::All, _) => {
                for k in &h.keys {
                    atomic.insert(*k, false);
                    push(*k, r.inv, r.resp, SK::Write(None));
                }
            }
            (Op::If { p }, Out::Bool(ok)) => {
                if !ok {
                    return fail(Kind::Config, "invalidate_entries_if failed although it is supported");
                }
                for k in &h.keys {
                    atomic.insert(*k, false);
                    push(*k, r.inv, r.resp, SK::Pred(*p));
                }
                for o in recs {
                    if overlap(r, o) {
                        match o.op {
                            Op::Ins { k, .. } | Op::Gw { k, .. } | Op::Comp { k, .. } => {
                                skip.insert(k);
                            }
                            _ => {}
                        }
                    }
                }
            }
            (Op::Iter, Out::Items(items)) => {
                let mut got: HashMap<u32, u64> = HashMap::new();
                for (k, id) in items {
                    if got.insert(*k, *id).is_some() {
                        return fail(Kind::Iter, format!("iteration on T{} returned key {k} twice: {items:?}", r.t));
                    }
                }
                for k in &h.keys {
                    push(*k, r.inv, r.resp, SK::Read(got.get(k).copied()));
                }
            }
            (Op::Gw { v, k, id, w, ik, cond, .. }, o) => {
                atomic.insert(*k, false);
                let own_val = *ik == IK::Val;
                match o {
                    Out::Gw { id: Some(g), ent, .. } => {
                        if let Some((key, fresh, replaced)) = ent {
                            if *key != Some(*k) {
                                return fail(Kind::Ret, format!("{v:?}(k{k}): Entry::key() is {key:?}"));
                            }
                            if *fresh != (*g == *id) {
                                return fail(Kind::Ret, format!("{v:?}(k{k}) T{}: is_fresh={fresh} for v{g} (own value v{id})", r.t));
                            }
                            if *replaced && (!v.has_cond() || !*cond || *g != *id) {
                                return fail(Kind::Ret, format!("{v:?}(k{k}) T{}: is_old_value_replaced=true for v{g}", r.t));
                            }
                        }
                        if *g == *id {
                            if !own_val {
                                return fail(Kind::Init, format!("{v:?}(k{k}) returned a value that was never created"));
                            }
                            let (is, ie) = if v.plain() || r.cl.is_empty() {
                                (r.resp, r.inv)
                            } else {
                                (r.cl[0].start, r.cl[0].end)
                            };
                            if !(v.has_cond() && *cond) {
                                push(*k, r.inv, is, SK::Read(None));
                            }
                            push(*k, ie, r.resp, SK::Write(Some(*id)));
                            if h.cfg.cap != Some(0) {
                                written.insert(*id, (*k, ie, r.resp, *w));
                            }
                        } else {
                            if !r.cl.is_empty() && !v.plain() {
                                return fail(Kind::Init, format!("{v:?}(k{k}) T{} evaluated init but returned v{g}", r.t));
                            }
                            if !prod(r, *k, v.class(), &|pid, pk| pid == *g && pk == IK::Val) {
                                // It may have waited for another call, and got what that
                                // call had found in the cache.
                                let from = recs
                                    .iter()
                                    .filter(|o| {
                                        matches!((&o.op, &o.out), (Op::Gw { v: v2, k: k2, .. }, Out::Gw { id: Some(g2), .. })
                                            if k2 == k && g2 == g && v2.class() == v.class())
                                            && !std::ptr::eq(r, *o)
                                            && overlap(r, o)
                                    })
                                    .map(|o| o.inv)
                                    .min();
                                let joined = from.is_some();
                                let from = from.map_or(r.inv, |x| x.min(r.inv));
                                push(*k, from, r.resp, SK::Read(Some(*g)));
                                if v.has_cond() && *cond && r.conds.contains(g) && !joined {
                                    return fail(Kind::Ret, format!("{v:?}(k{k}) T{}: replace_if was true for v{g}, which was returned", r.t));
                                }
                            } else {
                                out.labels.push("joined");
                            }
                        }
                    }
                    Out::Gw { id: None, err: None, .. } => {
                        let own = *ik == IK::None && !r.cl.is_empty();
                        if !own && !prod(r, *k, v.class(), &|_, pk| pk == IK::None) {
                            return fail(Kind::Init, format!("{v:?}(k{k}) T{} returned None, but no init did", r.t));
                        }
                        if own {
                            if !(v.has_cond() && *cond) {
                                push(*k, r.inv, r.cl[0].start, SK::Read(None));
                            }
                            out.labels.push("init_failed");
                        } else {
                            out.labels.push("joined");
                        }
                    }
                    Out::Gw { err: Some(e), .. } => {
                        let own = *ik == IK::Err(*e) && !r.cl.is_empty();
                        if !own && !prod(r, *k, v.class(), &|_, pk| pk == IK::Err(*e)) {
                            return fail(Kind::Init, format!("{v:?}(k{k}) T{} returned Err({e}), but no overlapping init did", r.t));
                        }
                        if own {
                            push(*k, r.inv, r.cl[0].start, SK::Read(None));
                            out.labels.push("init_failed");
                        } else {
                            out.labels.push("joined");
                        }
                    }
                    _ => {
                        // injected panic in init
                        if !(v.has_cond() && *cond) && !v.plain() {
                            push(*k, r.inv, r.cl[0].start, SK::Read(None));
                        }
                        out.labels.push("init_failed");
                    }
                }
            }
            (Op::Comp { v, k, id, w, dk, .. }, o) => {
                if r.cl.is_empty() {
                    // only legal for "if nobody else"
                    let busy = v.future_only()
                        && recs.iter().any(|x| matches!(x.op, Op::Comp { k: k2, .. } if k2 == *k) && !std::ptr::eq(x, r) && overlap(x, r));
                    if !busy {
                        return fail(Kind::Ret, format!("{v:?}(k{k}) T{}: the closure was not called ({o:?})", r.t));
                    }
                    match o {
                        Out::Comp { tag: "unchanged", id: Some(g), .. } => push(*k, r.inv, r.resp, SK::Read(Some(*g))),
                        Out::Comp { tag: "stillnone", .. } => push(*k, r.inv, r.resp, SK::Read(None)),
                        _ => return fail(Kind::Ret, format!("{v:?}(k{k}) T{}: closure not called, result {o:?}", r.t)),
                    }
                    out.labels.push("nobody_skipped");
                    continue;
                }
                let cl = &r.cl[0];
                if let Some((sk, _)) = cl.saw {
                    if sk != *k {
                        return fail(Kind::Ret, format!("{v:?}(k{k}): the closure got an entry of key {sk}"));
                    }
                }
                let saw = cl.saw.map(|s| s.1);
                if !matches!(o, Out::Panic(_)) {
                    let good = match (o, dk) {
                        (Out::Comp { tag: "inserted", id: g, key, fresh, replaced, .. }, DK::Put) => {
                            saw.is_none() && *g == Some(*id) && *key == Some(*k) && *fresh && !*replaced
                        }
                        (Out::Comp { tag: "replaced", id: g, key, fresh, replaced, .. }, DK::Put) => {
                            saw.is_some() && *g == Some(*id) && *key == Some(*k) && *fresh && *replaced
                        }
                        (Out::Comp { tag: "unchanged", id: g, key, fresh, replaced, .. }, DK::Nop) => {
                            saw.is_some() && *g == saw && *key == Some(*k) && !*fresh && !*replaced
                        }
                        (Out::Comp { tag: "stillnone", key, .. }, DK::Nop) => saw.is_none() && *key == Some(*k),
                        (Out::Comp { tag: "removed", key, fresh, replaced, .. }, DK::Remove) => {
                            *key == Some(*k) && !*fresh && !*replaced
                        }
                        (Out::Comp { tag: "stillnone", key, .. }, DK::Remove) => *key == Some(*k),
                        (Out::Comp { tag: "err", err: Some(e), .. }, DK::Err(e2)) => e == e2,
                        _ => false,
                    };
                    if !good {
                        return fail(
                            Kind::Ret,
                            format!("{v:?}(k{k}) T{}: the closure saw {saw:?} and decided {dk:?} (v{id}), but the result is {o:?}", r.t),
                        );
                    }
                }
                let panicked = matches!(o, Out::Panic(_));
                match dk {
                    DK::Put if !panicked => {
                        push(*k, r.inv, r.resp, SK::Comp { saw, write: Some(Some(*id)) });
                        if h.cfg.cap != Some(0) {
                            written.insert(*id, (*k, cl.end, r.resp, *w));
                        }
                    }
                    DK::Remove => push(*k, r.inv, r.resp, SK::Comp { saw, write: Some(None) }),
                    _ => push(*k, r.inv, r.resp, SK::Comp { saw, write: None }),
                }
            }
            _ => {}
        }
    }
    // Split computes on keys that other operations write too.
    for (ri, r) in recs.iter().enumerate() {
        if let Op::Comp { k, dk, id, .. } = r.op {
            if r.cl.is_empty() || atomic.get(&k) != Some(&false) || matches!(r.out, Out::Cancelled) {
                continue;
            }
            let Some(s) = subs.get_mut(&k) else { continue };
            let Some(i) = s.iter().position(|x| x.inv == r.inv && x.resp == r.resp) else { continue };
            let what = s[i].what.clone();
            let SK::Comp { saw, write } = s[i].k.clone() else { continue };
            s.remove(i);
            let cl = &r.cl[0];
            s.push(Sub { inv: r.inv, resp: cl.start, k: SK::Read(saw), what: what.clone(), tag: (ri, 0), after: vec![] });
            match (dk, write) {
                (DK::Put, Some(_)) => s.push(Sub { inv: cl.end, resp: r.resp, k: SK::Write(Some(id)), what, tag: (ri, 1), after: vec![] }),
                (DK::Remove, _) => {
                    let ret = match &r.out {
                        Out::Comp { tag: "removed", id, .. } => *id,
                        _ => None,
                    };
                    s.push(Sub { inv: cl.end, resp: r.resp, k: SK::RemoveRet(ret), what, tag: (ri, 1), after: vec![] })
                }
                _ => {}
            }
        }
    }
    // The whole of a single-flight initialization (from the second look at the cache to
    // the insertion) and of a compute excludes the others of its key: whoever evaluates
    // its closure later sees what the earlier one wrote.
    for (bi, b) in recs.iter().enumerate() {
        let Some(cb) = b.cl.first() else { continue };
        let (k, cls) = match b.op {
            Op::Gw { v, k, .. } if !v.plain() => (k, v.class()),
            Op::Comp { k, .. } => (k, 255),
            _ => continue,
        };
        let mut after = vec![];
        for (ai, a) in recs.iter().enumerate() {
            let Some(ca) = a.cl.first() else { continue };
            let same = match a.op {
                Op::Gw { v, k: k2, .. } if !v.plain() => k2 == k && v.class() == cls,
                Op::Comp { k: k2, .. } => k2 == k && cls == 255,
                _ => false,
            };
            if same && ai != bi && ca.end < cb.start {
                after.push((ai, 1));
            }
        }
        if let Some(s) = subs.get_mut(&k) {
            for x in s.iter_mut().filter(|x| x.tag == (bi, 0)) {
                x.after.extend_from_slice(&after);
            }
        }
    }
    // Single flight.
    for (i, a) in recs.iter().enumerate() {
        for b in &recs[i + 1..] {
            let both = match (&a.op, &b.op) {
                (Op::Gw { v, k, .. }, Op::Gw { v: v2, k: k2, .. }) => {
                    k == k2 && v.class() == v2.class() && !v.plain() && !v2.plain()
                }
                (Op::Comp { k, .. }, Op::Comp { k: k2, .. }) => k == k2,
                _ => false,
            };
            if both {
                for x in &a.cl {
                    for y in &b.cl {
                        if x.start < y.end && y.start < x.end {
                            return fail(
                                Kind::Init,
                                format!("two closures ran at the same time for one key: T{} {:?} and T{} {:?}", a.t, a.op, b.t, b.op),
                            );
                        }
                    }
                }
            }
        }
    }
    for (k, s) in &mut subs {
        if skip.contains(k) {
            out.labels.push("pred_overlap_skipped");
            continue;
        }
        if let Some(mb) = h.maybe.get(k) {
            // treat each as an optional write: allowed to take effect or not
            let n = mb.len();
            if n > 6 {
                out.labels.push("lin_too_big");
                continue;
            }
            let mut ok = None;
            for m in 0..(1u32 << n) {
                let mut s2 = s.clone();
                for (j, (id, inv, resp)) in mb.iter().take(n).enumerate() {
                    if m & (1 << j) != 0 {
                        let w = if *id == 0 { None } else { Some(*id) };
                        s2.push(Sub { inv: *inv, resp: *resp, k: SK::Write(w), what: "cancelled write".into(), tag: (usize::MAX, 0), after: vec![] });
                    }
                }
                match linearizable(*k, &s2, None, lossy) {
                    Some(true) => {
                        ok = Some(true);
                        break;
                    }
                    Some(false) => ok = ok.or(Some(false)),
                    None => {
                        ok = None;
                        break;
                    }
                }
            }
            if ok == Some(false) {
                return fail(Kind::Lin, lin_msg(*k, s));
            }
            continue;
        }
        match linearizable(*k, s, None, lossy) {
            Some(true) => {}
            None => out.labels.push("lin_too_big"),
            Some(false) => {
                // Is it the iterations that do not fit?
                let rest: Vec<Sub> = s
                    .iter()
                    .filter(|x| !recs.get(x.tag.0).is_some_and(|r| matches!(r.op, Op::Iter)))
                    .cloned()
                    .collect();
                if rest.len() < s.len() && linearizable(*k, &rest, None, lossy) == Some(true) {
                    return fail(Kind::Iter, lin_msg(*k, s));
                }
                return fail(Kind::Lin, lin_msg(*k, s));
            }
        }
    }
    Ok(written)
}

fn lin_msg(k: u32, s: &[Sub]) -> String {
    let mut v: Vec<String> = s.iter().map(|x| format!("[{}..{}] {:?} ({})", x.inv, x.resp as i64, x.k, x.what)).collect();
    v.truncate(40);
    format!("the history of k{k} is not linearizable: {}", v.join("; "))
}

pub struct Quiet {
    pub stored: BTreeMap<u32, u64>,
    pub ec: u64,
    pub ws: u64,
}

/// Runs maintenance until settled and collects what is stored. (Solo.)
pub fn quiesce(c: &C, n: usize) -> Quiet {
    for _ in 0..n {
        GNOW.fetch_add(MS, SeqCst);
        c.run_pending();
    }
    // A write that raced with `invalidate_all` may have been invalidated by it, and sit
    // in the access order queue behind a live entry; it is reclaimed once that entry has
    // been used. So use all the live entries.
    let mut live = vec![];
    c.iter(&mut |k, _| live.push(k.id()));
    for k in live {
        let _ = c.get(k, true);
    }
    for _ in 0..2 {
        GNOW.fetch_add(MS, SeqCst);
        c.run_pending();
    }
    let mut stored = BTreeMap::new();
    c.iter(&mut |k, v| {
        v.check();
        stored.insert(k.id(), v.id);
    });
    Quiet { stored, ec: c.entry_count(), ws: c.weighted_size() }
}

/// Counts, capacity, notifications at quiescence.
pub fn check_quiet(
    cfg: &Cfg,
    q: &Quiet,
    recs: &[Rec],
    written: &BTreeMap<u64, (u32, u64, u64, u32)>,
    maybe: &HashSet<u64>,
    log: &[Log],
    panicky: bool,
    ordered: bool,
    out: &mut CaseOut,
) -> Result<(), Fail> {
    let weights: HashMap<u64, u32> = written.iter().map(|(id, x)| (*id, x.3)).collect();
    if q.ec != q.stored.len() as u64 {
        return fail(Kind::Count, format!("at quiescence entry_count={} but {} entries are stored: {:?}", q.ec, q.stored.len(), q.stored));
    }
    let mut sum = 0u64;
    for id in q.stored.values() {
        sum += if cfg.weigher { *weights.get(id).unwrap_or(&0) as u64 } else { 1 };
        if !written.contains_key(id) && !maybe.contains(id) {
            return fail(Kind::Read, format!("v{id} is stored, but no operation stored it: {:?}", q.stored));
        }
    }
    if q.ws != sum && !q.stored.values().any(|id| maybe.contains(id) && !weights.contains_key(id)) {
        return fail(Kind::Count, format!("at quiescence weighted_size={} but the stored weights sum to {sum}: {:?}", q.ws, q.stored));
    }
    if let Some(cap) = cfg.cap {
        let bound = if cfg.kind == 1 {
            let s = cfg.segs.next_power_of_two() as u64;
            cap.div_ceil(s) * s
        } else {
            cap
        };
        if sum > bound {
            return fail(Kind::Capacity, format!("at quiescence the stored weights {sum} exceed max_capacity {cap}"));
        }
    }
    if !cfg.listener || panicky {
        return Ok(());
    }
    let mut ev: HashMap<u64, (u32, Cause, usize)> = HashMap::new();
    let mut open: HashMap<u32, (u64, usize)> = HashMap::new();
    for (i, l) in log.iter().enumerate() {
        match *l {
            Log::Event { k, id, cause, tid } => {
                if let (true, Some(x)) = (ordered, open.get(&k)) {
                    return fail(
                        Kind::Order,
                        format!("the listener was called for k{k} v{id} ({cause:?}, T{tid}) while a call for k{k} v{} (T{}) was running", x.0, x.1),
                    );
                }
                open.insert(k, (id, tid));
                if let Some(o) = ev.insert(id, (k, cause, i)) {
                    return fail(Kind::Event, format!("k{k} v{id} was notified twice ({:?}, then {cause:?})", o.1));
                }
                match written.get(&id) {
                    None if !maybe.contains(&id) => {
                        return fail(Kind::Event, format!("k{k} v{id} was notified ({cause:?}) but never stored"))
                    }
                    Some(w) if w.0 != k => {
                        return fail(Kind::Event, format!("v{id} was notified with k{k}, but belongs to k{}", w.0))
                    }
                    _ => {}
                }
                // plausibility of the cause
                let ok = match cause {
                    Cause::Replaced => written.iter().any(|(i2, w)| *i2 != id && w.0 == k) || !maybe.is_empty(),
                    Cause::Explicit => recs.iter().any(|r| match r.op {
                        Op::Inv { k: x } | Op::Rem { k: x } | Op::Comp { k: x, dk: DK::Remove, .. } => x == k,
                        Op::Drain { k0, n } => k >= k0 && k < k0 + n,
                        Op::All => true,
                        Op::If { p } => p.m(k, id),
                        _ => false,
                    }),
                    Cause::Expired => cfg.ttl.is_some(),
                    Cause::Size => cfg.cap.is_some(),
                };
                if !ok {
                    return fail(Kind::Cause, format!("k{k} v{id} was notified as {cause:?}, for which there was no reason"));
                }
                out.labels.push("event");
            }
            Log::EventEnd { k, .. } => {
                open.remove(&k);
            }
            _ => {}
        }
    }
    for (id, (k, ..)) in written {
        let stored = q.stored.get(k) == Some(id);
        match (stored, ev.contains_key(id)) {
            (true, true) => {
                return fail(Kind::Event, format!("k{k} v{id} is still stored, but was notified as removed ({:?})", ev[id].1))
            }
            (false, false) => return fail(Kind::Event, format!("k{k} v{id} is gone, but the listener was never called for it")),
            _ => {}
        }
    }
    // order: real-time ordered writes of one key are notified in that order
    let mut per: BTreeMap<u32, Vec<(u64, u64, u64, usize)>> = BTreeMap::new();
    for (id, (k, inv, resp, _)) in written {
        if let Some(e) = ev.get(id) {
            per.entry(*k).or_default().push((*id, *inv, *resp, e.2));
        }
    }
    for (k, v) in per {
        for a in &v {
            for b in &v {
                if ordered && a.2 < b.1 && a.3 > b.3 {
                    return fail(
                        Kind::Order,
                        format!("k{k}: v{} was written before v{} but notified after it", a.0, b.0),
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn gen_ccfg(src: &mut Src, p: &CProf) -> (Cfg, bool) {
    src.open();
    let kind = src.pick(p.kinds);
    let segs = if kind == 1 { src.range(1, 3) as usize } else { 1 };
    let weigher = src.chance(p.weigher);
    let (cap, mut lossy) = match src.weighted(&p.cap) {
        0 => (None, false),
        1 => (Some(100_000), false),
        2 => (Some(src.range(1, 4) as u64), true),
        _ => (Some(0), true),
    };
    let listener = src.chance(p.listener);
    let ttl = src.chance(p.ttl).then(|| [50 * MS, 400 * MS, 1000 * MS][src.draw(3) as usize]);
    lossy |= ttl.is_some();
    let cfg = Cfg {
        kind,
        segs,
        cap,
        weigher,
        lru: src.chance(50),
        ttl,
        tti: None,
        expiry: src.chance(p.expiry),
        listener,
        async_listener: (kind == 2 && listener && src.chance(50)).then(|| src.draw(3)),
        inval: src.chance(p.inval),
        init_cap: src.chance(30).then_some(64),
        hb: HB { mode: src.pick(p.hash_modes), seed: src.draw(100) as u64 },
        cb_yield: src.chance(70),
    };
    src.close();
    (cfg, lossy)
}

pub fn solo(src: &mut Src, f: impl FnOnce() + Send) {
    // The job ends before `run` returns.
    let b: Box<dyn FnOnce() + Send> = Box::new(f);
    let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
    sched::run(src, vec![b]);
}

pub fn run_case(p: &CProf, src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    reset_stamp();
    PANIC_AT.store(u64::MAX, SeqCst);
    GNOW.store(1_000 * SEC + 7, SeqCst);
    let r = inner(p, src, out, trace);
    if let Err(f) = r {
        out.fail = Some(f);
    }
    out.labels.sort();
    out.labels.dedup();
    out.nontrivial = p.need.iter().all(|l| out.labels.contains(l));
}

fn inner(p: &CProf, src: &mut Src, out: &mut CaseOut, trace: bool) -> Result<(), Fail> {
    let (cfg, lossy) = gen_ccfg(src, p);
    if trace {
        out.trace.push(format!("{cfg:?} lossy={lossy}"));
    }
    let nt = src.range(p.threads.0, p.threads.1) as usize;
    let mut pre: Vec<Op> = vec![];
    if src.chance(p.prefill) {
        for _ in 0..src.range(1, 3) {
            src.open();
            let op = match src.draw(4) {
                0 | 1 => Op::Ins { k: src.draw(p.keys), id: next_id(), w: gen_w(src, cfg.weigher) },
                2 => Op::Run,
                _ => gen_op(src, p, &cfg),
            };
            src.close();
            pre.push(op);
        }
    }
    if src.chance(p.fill) {
        // the table expands beyond 89 entries and is cleaned at 13 tombstones
        let (n, rm) = [(88, 0), (86, 3), (40, 12), (60, 10), (170, 0), (176, 2)][src.draw(6) as usize];
        let n = n + src.draw(4);
        let id0 = next_id();
        for _ in 0..n {
            next_id();
        }
        pre.push(Op::Burst { k0: 1000, n, id0 });
        pre.push(Op::Drain { k0: 1000, n: rm });
    }
    let stale_clock = src.chance(40);
    let mut progs: Vec<Vec<Op>> = vec![];
    for _ in 0..nt {
        let n = src.range(p.nops.0, p.nops.1);
        let mut ops = vec![];
        for _ in 0..n {
            src.open();
            ops.push(gen_op(src, p, &cfg));
            src.close();
        }
        progs.push(ops);
    }
    if trace {
        out.trace.push(format!("setup: {pre:?}"));
        for (t, ops) in progs.iter().enumerate() {
            out.trace.push(format!("T{t}: {ops:?}"));
        }
    }
    let recs: Arc<Mutex<Vec<Rec>>> = Arc::new(Mutex::new(vec![]));
    let mut cache: Option<C> = None;
    solo(src, || {
        let c = build(&cfg);
        for op in &pre {
            exec(&c, 9, *op, &recs);
        }
        cache = Some(c);
    });
    if stale_clock {
        GNOW.fetch_add(2 * SEC, SeqCst);
    }
    let cache = cache.unwrap();
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in progs.iter().cloned().enumerate() {
        let c = cache.clone();
        let recs = recs.clone();
        jobs.push(Box::new(move || {
            for op in ops {
                exec(&c, t, op, &recs);
            }
            drop(c);
        }));
    }
    let st = sched::run_with(src, jobs, p.fine);
    if st.preempts > 0 {
        out.labels.push("preempted");
    }
    if st.switches > 2 {
        out.labels.push("switches");
    }
    let keys: Vec<u32> = (0..p.keys).collect();
    let mut q = None;
    let big = progs.iter().flatten().any(|o| matches!(o, Op::Burst { .. }));
    solo(src, || {
        for k in &keys {
            exec(&cache, 9, Op::Get { k: *k }, &recs);
        }
        let r = catch_unwind(AssertUnwindSafe(|| quiesce(&cache, if big { 14 } else { 5 })));
        for k in &keys {
            exec(&cache, 9, Op::Get { k: *k }, &recs);
        }
        exec(&cache, 9, Op::Iter, &recs);
        q = Some(r.map_err(pmsg));
    });
    let log = take_log();
    let recs_v = std::mem::take(&mut *recs.lock().unwrap());
    if trace {
        let mut rs: Vec<&Rec> = recs_v.iter().collect();
        rs.sort_by_key(|r| r.inv);
        for r in rs {
            out.trace.push(rec_line(r));
        }
        for l in &log {
            if let Log::Event { k, id, cause, tid } = l {
                out.trace.push(format!("event k{k} v{id} {cause:?} on T{tid}"));
            }
        }
    }
    for (i, a) in recs_v.iter().enumerate() {
        for b in &recs_v[i + 1..] {
            if a.t != b.t && overlap(a, b) {
                out.labels.push("overlap");
                if matches!(a.op, Op::Iter) || matches!(b.op, Op::Iter) {
                    out.labels.push("iter_overlap");
                }
            }
        }
    }
    let h = Hist { cfg: &cfg, recs: &recs_v, lossy: lossy || cfg.cap == Some(0), keys, maybe: HashMap::new() };
    let written = check_history(&h, out)?;
    let q = match q.unwrap() {
        Ok(q) => q,
        Err(m) => return fail(Kind::Panic, format!("run_pending_tasks panicked: {m}")),
    };
    if trace {
        out.trace.push(format!("at quiescence: {:?} entry_count={} weighted_size={}", q.stored, q.ec, q.ws));
    }
    check_quiet(&cfg, &q, &recs_v, &written, &HashSet::new(), &log, false, true, out)?;
    if !h.lossy && !recs_v.iter().any(|r| matches!(r.op, Op::All | Op::If { .. })) {
        check_bulk(&recs_v, &q)?;
    }
    let n = CORRUPT.load(SeqCst);
    if n > 0 {
        return fail(Kind::Uaf, format!("{n} uses of a dropped or corrupted key/value"));
    }
    teardown(src, cache)
}

/// The keys of bursts: one that is written once and never removed is stored, one that is
/// removed after its last write is not.
fn check_bulk(recs: &[Rec], q: &Quiet) -> Result<(), Fail> {
    let mut last: HashMap<u32, Vec<(Option<u64>, u64, u64)>> = HashMap::new();
    for r in recs {
        match r.op {
            Op::Burst { k0, n, id0 } => {
                for i in 0..n {
                    last.entry(k0 + i).or_default().push((Some(id0 + i as u64), r.inv, r.resp));
                }
            }
            Op::Drain { k0, n } => {
                for i in 0..n {
                    last.entry(k0 + i).or_default().push((None, r.inv, r.resp));
                }
            }
            _ => {}
        }
    }
    for (k, ws) in last {
        let got = q.stored.get(&k).copied();
        // a write that is not followed by another one that began after it had ended
        let may = |v: Option<u64>| ws.iter().any(|w| w.0 == v && !ws.iter().any(|x| x.1 > w.2));
        if !may(got) {
            return fail(Kind::Lin, format!("k{k}: {got:?} is stored at the end, but the writes were {ws:?}"));
        }
    }
    Ok(())
}

pub fn teardown(src: &mut Src, cache: C) -> Result<(), Fail> {
    solo(src, move || drop(cache));
    for _ in 0..3 {
        sched::on_all_pool_threads(flush_few);
        if LIVE_K.load(SeqCst) == 0 && LIVE_V.load(SeqCst) == 0 {
            break;
        }
        sched::on_all_pool_threads(flush_epoch);
        flush_epoch();
    }
    take_log();
    let (lk, lv) = (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst));
    if lk != 0 || lv != 0 {
        return fail(Kind::Leak, format!("after dropping the cache {lk} keys and {lv} values are still alive"));
    }
    if CORRUPT.load(SeqCst) != 0 {
        return fail(Kind::Uaf, "a dropped or corrupted key/value was used");
    }
    Ok(())
}

fn flush_few() {
    for _ in 0..4 {
        crossbeam_epoch::pin().flush();
    }
}
