//! Async engine: a generated program of tasks runs on one `future::Cache` under a
//! generated poll order (a single-threaded executor that polls only woken tasks), and
//! futures of operations are dropped after a generated number of polls. The oracle is
//! the same history check as for the concurrent engine, where a cancelled operation may
//! have taken effect (until it was cancelled) or not.

use crate::api::*;
use crate::choices::Src;
use crate::conc::*;
use crate::interpose::GNOW;
use crate::runner::*;
use crate::seq::{MS, SEC};
use crate::types::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy)]
pub struct AProf {
    pub c: CProf,
    /// percentage of the operations that are cancelled
    pub cancel: u32,
    pub tasks: (u32, u32),
    /// a slow listener: pending up to this many times
    pub lis: u32,
    /// what the listener does at most
    pub async_lis: u32,
    /// longest wait of init and compute closures
    pub clo: u32,
    /// run maintenance only when an operation asks for it
    pub few_runs: bool,
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

#[derive(Default)]
struct Shared {
    cl: Vec<Cl>,
    open: Option<(u64, Option<(u32, u64)>)>,
    conds: Vec<u64>,
    done: bool,
}

struct Run {
    fut: Pin<Box<dyn Future<Output = Out>>>,
    op: Op,
    inv: u64,
    polls: u32,
    cancel: Option<u32>,
    flag: Arc<Flag>,
    sh: Arc<Mutex<Shared>>,
}

/// One future for one operation.
fn start(c: &FC, op: Op, sh: Arc<Mutex<Shared>>) -> Pin<Box<dyn Future<Output = Out>>> {
    let c = c.clone();
    Box::pin(async move {
        match op {
            Op::Ins { k, id, w } => {
                c.insert(K::new(k), V::new(id, w, ED)).await;
                Out::Unit
            }
            Op::Get { k } => Out::Val(c.get(&KRef(k)).await.map(|v| {
                v.check();
                v.id
            })),
            Op::Has { k } => Out::Bool(c.contains_key(&KRef(k))),
            Op::Inv { k } => {
                c.invalidate(&KRef(k)).await;
                Out::Unit
            }
            Op::Rem { k } => Out::Val(c.remove(&KRef(k)).await.map(|v| {
                v.check();
                v.id
            })),
            Op::All => {
                c.invalidate_all();
                Out::Unit
            }
            Op::If { p } => Out::Bool(
                c.invalidate_entries_if(move |k, v| {
                    v.check();
                    p.m(k.id(), v.id)
                })
                .is_ok(),
            ),
            Op::Iter => {
                let mut items = vec![];
                for (k, v) in c.iter() {
                    v.check();
                    items.push((k.id(), v.id));
                    YieldN(1).await;
                }
                Out::Items(items)
            }
            Op::Run => {
                c.run_pending_tasks().await;
                Out::Unit
            }
            Op::Adv { ns } => {
                GNOW.fetch_add(ns, SeqCst);
                Out::Unit
            }
            Op::Gw { v, k, id, w, ik, cond, y } => {
                let (s1, s2) = (sh.clone(), sh.clone());
                let init = async move {
                    let st = stamp();
                    s1.lock().unwrap().open = Some((st, None));
                    YieldN(y).await;
                    let i = mk_init(ik, id, w);
                    let mut g = s1.lock().unwrap();
                    g.open = None;
                    g.done = true;
                    g.cl.push(Cl { start: st, end: stamp(), saw: None });
                    i
                };
                gw_out(
                    f_gw(&c, v, k, init, move |x: &V| {
                        x.check();
                        s2.lock().unwrap().conds.push(x.id);
                        cond
                    })
                    .await,
                )
            }
            Op::Comp { v, k, id, w, dk, y } => {
                let s1 = sh.clone();
                comp_out(
                    f_comp(&c, v, k, move |e| {
                        let st = stamp();
                        s1.lock().unwrap().open = Some((st, e));
                        async move {
                            YieldN(y).await;
                            let d = mk_dec(dk, id, w);
                            let mut g = s1.lock().unwrap();
                            g.open = None;
                            g.done = true;
                            g.cl.push(Cl { start: st, end: stamp(), saw: e });
                            d
                        }
                    })
                    .await,
                )
            }
            Op::Burst { k0, n, id0 } => {
                for i in 0..n {
                    c.insert(K::new(k0 + i), V::new(id0 + i as u64, 1, ED)).await;
                }
                Out::Unit
            }
            Op::Drain { k0, n } => {
                for i in 0..n {
                    c.invalidate(&K::new(k0 + i)).await;
                }
                Out::Unit
            }
        }
    })
}

struct P(*mut Src);
unsafe impl Send for P {}
impl P {
    fn src(&mut self) -> &mut Src {
        unsafe { &mut *self.0 }
    }
}

pub fn run_case(p: &AProf, src: &mut Src, out: &mut CaseOut, trace: bool) {
    new_case();
    reset_stamp();
    PANIC_AT.store(u64::MAX, SeqCst);
    GNOW.store(1_000 * SEC + 7, SeqCst);
    if let Err(f) = inner(p, src, out, trace) {
        out.fail = Some(f);
    }
    out.labels.sort();
    out.labels.dedup();
    out.nontrivial = p.c.need.iter().all(|l| out.labels.contains(l));
}

struct State {
    recs: Vec<Rec>,
    /// key -> (id or 0 for a removal, inv, time of the cancellation)
    maybe: HashMap<u32, Vec<(u64, u64, u64)>>,
    /// values of cancelled operations that were seen in the cache: id -> (k, inv, cancelled, w)
    seen: BTreeMap<u64, (u32, u64, u64, u32)>,
    maybe_ids: HashSet<u64>,
    labels: Vec<&'static str>,
    steps: u64,
    fail: Option<Fail>,
    notes: Vec<String>,
}

fn inner(p: &AProf, src: &mut Src, out: &mut CaseOut, trace: bool) -> Result<(), Fail> {
    let (mut cfg, lossy) = gen_ccfg(src, &p.c);
    cfg.cb_yield = false;
    cfg.async_listener = (cfg.listener && src.chance(p.async_lis)).then(|| src.draw(p.lis + 1));
    if trace {
        out.trace.push(format!("{cfg:?} lossy={lossy}"));
    }
    let nt = src.range(p.tasks.0, p.tasks.1) as usize;
    let mut progs: Vec<VecDeque<(Op, Option<u32>)>> = vec![];
    let mut big = false;
    for _ in 0..nt {
        let n = src.range(p.c.nops.0, p.c.nops.1);
        let mut ops = VecDeque::new();
        for _ in 0..n {
            src.open();
            let mut op = gen_op(src, &p.c, &cfg);
            match &mut op {
                Op::Gw { y, .. } | Op::Comp { y, .. } => *y = src.draw(p.clo + 1),
                Op::Burst { n, id0, .. } => {
                    big = true;
                    if src.chance(40) {
                        *n = 420;
                        *id0 = next_id();
                        for _ in 0..*n {
                            next_id();
                        }
                    }
                }
                _ => {}
            }
            let cancel = src.chance(p.cancel).then(|| src.draw(5));
            src.close();
            ops.push_back((op, cancel));
        }
        progs.push(ops);
    }
    let settle = src.draw(3);
    if trace {
        for (t, ops) in progs.iter().enumerate() {
            let l: Vec<String> = ops
                .iter()
                .map(|(o, c)| match c {
                    Some(n) => format!("{o:?} dropped after {n} polls"),
                    None => format!("{o:?}"),
                })
                .collect();
            out.trace.push(format!("task {t}: {}", l.join("; ")));
        }
    }
    let keys: Vec<u32> = (0..p.c.keys).collect();
    let mut st = State {
        recs: vec![],
        maybe: HashMap::new(),
        seen: BTreeMap::new(),
        maybe_ids: HashSet::new(),
        labels: vec![],
        steps: 0,
        fail: None,
        notes: vec![],
    };
    let mut cache: Option<C> = None;
    let mut q = None;
    {
        let ptr = P(src as *mut Src);
        let (st, cache, cfg, keys, q) = (&mut st, &mut cache, &cfg, &keys, &mut q);
        solo(unsafe { &mut *ptr.0 }, move || {
            let mut ptr = ptr;
            let c = build(cfg);
            let C::F(fc) = &c else { unreachable!() };
            drive(fc, progs, ptr.src(), st, trace, big);
            if st.fail.is_none() {
                // Everybody has finished or is gone.
                for _ in 0..settle {
                    finish_op(&c, Op::Run, st);
                }
                for k in keys {
                    finish_op(&c, Op::Get { k: *k }, st);
                }
                let r = catch_unwind(AssertUnwindSafe(|| quiesce(&c, if big { 14 } else { 5 })));
                for k in keys {
                    finish_op(&c, Op::Get { k: *k }, st);
                }
                finish_op(&c, Op::Iter, st);
                *q = Some(r.map_err(pmsg));
            }
            *cache = Some(c);
        });
    }
    out.labels.append(&mut st.labels);
    let log = take_log();
    if trace {
        let mut rs: Vec<&Rec> = st.recs.iter().collect();
        rs.sort_by_key(|r| r.inv);
        for r in rs {
            out.trace.push(rec_line(r));
        }
        for l in &log {
            match l {
                Log::Event { k, id, cause, .. } => out.trace.push(format!("event k{k} v{id} {cause:?}")),
                Log::EventEnd { k, id, .. } => out.trace.push(format!("event k{k} v{id} delivered")),
                _ => {}
            }
        }
        out.trace.append(&mut st.notes);
    }
    if let Some(f) = st.fail {
        // Futures may be blocked: leak the cache, if they keep it.
        return Err(f);
    }
    for (i, a) in st.recs.iter().enumerate() {
        if st.recs[i + 1..].iter().any(|b| a.t != b.t && overlap(a, b)) {
            out.labels.push("overlap");
        }
    }
    let h = Hist { cfg: &cfg, recs: &st.recs, lossy: lossy || cfg.cap == Some(0), keys, maybe: st.maybe };
    let mut written = check_history(&h, out)?;
    let q = match q.unwrap() {
        Ok(q) => q,
        Err(m) => return fail(Kind::Panic, format!("run_pending_tasks panicked: {m}")),
    };
    if trace {
        out.trace.push(format!("at quiescence: {:?} entry_count={} weighted_size={}", q.stored, q.ec, q.ws));
    }
    // A value of a cancelled operation that got into the cache counts like any other.
    for (id, x) in &st.seen {
        written.entry(*id).or_insert(*x);
        out.labels.push("cancelled_but_stored");
    }
    for r in &st.recs {
        let ids: Vec<u64> = match &r.out {
            Out::Val(Some(id)) => vec![*id],
            Out::Items(v) => v.iter().map(|x| x.1).collect(),
            Out::Gw { id: Some(id), .. } => vec![*id],
            _ => vec![],
        };
        for id in ids {
            if st.maybe_ids.contains(&id) && !written.contains_key(&id) && cfg.cap != Some(0) {
                return fail(Kind::Read, format!("v{id} was observed ({:?} on T{}), but the operation that would have stored it had been cancelled without effect", r.op, r.t));
            }
        }
    }
    check_quiet(&cfg, &q, &st.recs, &written, &st.maybe_ids, &log, false, st.maybe_ids.is_empty() && !out.labels.contains(&"cancelled"), out)?;
    if cfg.listener {
        let mut open: HashMap<u64, u32> = HashMap::new();
        for l in &log {
            match l {
                Log::Event { k, id, .. } => {
                    open.insert(*id, *k);
                }
                Log::EventEnd { id, .. } => {
                    open.remove(id);
                }
                _ => {}
            }
        }
        if let Some((id, k)) = open.iter().next() {
            return fail(Kind::Event, format!("the future of the listener for k{k} v{id} was not run to its end"));
        }
    }
    let n = CORRUPT.load(SeqCst);
    if n > 0 {
        return fail(Kind::Uaf, format!("{n} uses of a dropped or corrupted key/value"));
    }
    teardown(src, cache.unwrap())
}

/// Runs one operation to its end, with nobody else around.
fn finish_op(c: &C, op: Op, st: &mut State) {
    let C::F(fc) = c else { unreachable!() };
    let inv = stamp();
    let sh = Arc::new(Mutex::new(Shared::default()));
    let r = catch_unwind(AssertUnwindSafe(|| block_on(start(fc, op, sh))));
    let out = r.unwrap_or_else(|p| Out::Panic(pmsg(p)));
    st.recs.push(Rec { t: 9, op, inv, resp: stamp(), out, cl: vec![], conds: vec![] });
}

fn snapshot(c: &FC) -> Vec<(u32, u64)> {
    c.iter().map(|(k, v)| (k.id(), v.id)).collect()
}

fn own_id(op: &Op) -> Option<(u32, u64, u32)> {
    match *op {
        Op::Ins { k, id, w } => Some((k, id, w)),
        Op::Gw { k, id, w, ik: IK::Val, .. } => Some((k, id, w)),
        Op::Comp { k, id, w, dk: DK::Put, .. } => Some((k, id, w)),
        _ => None,
    }
}

fn look(c: &FC, r: &Run, st: &mut State, pend: &mut BTreeMap<u64, (u32, u64, u32)>) {
    let snap = match r.op {
        Op::Burst { .. } => snapshot(c),
        _ => match own_id(&r.op) {
            Some(_) => snapshot(c),
            None => return,
        },
    };
    for (k, id) in snap {
        let mine = match r.op {
            Op::Burst { k0, n, id0 } => id >= id0 && id < id0 + n as u64 && k == k0 + (id - id0) as u32,
            _ => own_id(&r.op).is_some_and(|o| o.1 == id),
        };
        if mine {
            let w = own_id(&r.op).map_or(1, |o| o.2);
            pend.insert(id, (k, r.inv, w));
        }
    }
    let _ = st;
}

fn drive(
    c: &FC,
    mut progs: Vec<VecDeque<(Op, Option<u32>)>>,
    src: &mut Src,
    st: &mut State,
    trace: bool,
    big: bool,
) {
    let n = progs.len();
    let mut runs: Vec<Option<Run>> = (0..n).map(|_| None).collect();
    let mut pend: BTreeMap<u64, (u32, u64, u32)> = BTreeMap::new();
    loop {
        st.steps += 1;
        if st.steps > 200_000 {
            die_stuck("the tasks were polled 200,000 times without finishing");
        }
        let ready: Vec<usize> = (0..n)
            .filter(|&t| match &runs[t] {
                Some(r) => r.flag.0.load(SeqCst) || r.cancel.is_some_and(|m| r.polls >= m),
                None => !progs[t].is_empty(),
            })
            .collect();
        if ready.is_empty() {
            let stuck: Vec<String> = runs.iter().enumerate().filter_map(|(t, r)| r.as_ref().map(|r| format!("task {t} {:?}", r.op))).collect();
            if !stuck.is_empty() {
                // Not awaited any more by anybody: they are cancelled (if that is possible).
                st.fail = Some(Fail {
                    kind: Kind::Deadlock,
                    msg: format!("nobody was woken, but these operations have not completed: {}", stuck.join(", ")),
                });
                for r in runs.iter_mut() {
                    let x = r.take();
                    let _ = catch_unwind(AssertUnwindSafe(|| drop(x)));
                }
            }
            return;
        }
        let t = ready[if ready.len() == 1 { 0 } else { src.draw(ready.len() as u32) as usize }];
        if runs[t].is_none() {
            let (op, cancel) = progs[t].pop_front().unwrap();
            let sh = Arc::new(Mutex::new(Shared::default()));
            let inv = stamp();
            runs[t] = Some(Run {
                fut: start(c, op, sh.clone()),
                op,
                inv,
                polls: 0,
                cancel,
                flag: Arc::new(Flag(AtomicBool::new(true))),
                sh,
            });
        }
        let r = runs[t].as_mut().unwrap();
        if r.cancel.is_some_and(|m| r.polls >= m) {
            let mut r = runs[t].take().unwrap();
            if r.polls > 0 {
                look(c, &r, st, &mut pend);
            }
            r.fut = Box::pin(async { Out::Unit });
            let resp = stamp();
            let (mut cl, conds, done) = {
                let mut g = r.sh.lock().unwrap();
                if let Some((s, saw)) = g.open.take() {
                    g.cl.push(Cl { start: s, end: resp, saw });
                }
                (std::mem::take(&mut g.cl), std::mem::take(&mut g.conds), g.done)
            };
            if r.polls > 0 {
                st.labels.push("cancelled");
                let mut add = |k: u32, id: u64| st.maybe.entry(k).or_default().push((id, r.inv, resp));
                match r.op {
                    Op::Ins { k, id, .. } => add(k, id),
                    Op::Inv { k } | Op::Rem { k } => add(k, 0),
                    Op::Gw { v, k, id, ik: IK::Val, .. } if done || v.plain() => add(k, id),
                    Op::Comp { k, id, dk: DK::Put, .. } if done => add(k, id),
                    Op::Comp { k, dk: DK::Remove, .. } if done => add(k, 0),
                    _ => {}
                }
                let ids: Vec<(u32, u64, u32)> = match r.op {
                    Op::Burst { k0, n, id0 } => (0..n).map(|i| (k0 + i, id0 + i as u64, 1)).collect(),
                    _ => own_id(&r.op).into_iter().collect(),
                };
                for (k, id, w) in ids {
                    st.maybe_ids.insert(id);
                    if pend.remove(&id).is_some() {
                        st.seen.insert(id, (k, r.inv, resp, w));
                    }
                }
                if !cl.is_empty() {
                    st.labels.push("cancelled_in_closure");
                }
            } else {
                cl.clear();
            }
            st.recs.push(Rec { t, op: r.op, inv: r.inv, resp, out: Out::Cancelled, cl, conds });
            continue;
        }
        r.flag.0.store(false, SeqCst);
        let w: Waker = r.flag.clone().into();
        let mut cx = Context::from_waker(&w);
        let res = catch_unwind(AssertUnwindSafe(|| r.fut.as_mut().poll(&mut cx)));
        r.polls += 1;
        let out = match res {
            Ok(Poll::Pending) => {
                st.labels.push("pending");
                if !big || r.polls % 16 == 1 {
                    let r = runs[t].take().unwrap();
                    look(c, &r, st, &mut pend);
                    runs[t] = Some(r);
                }
                if trace {
                    st.notes.push(format!("poll {} of task {t}: pending", st.steps));
                }
                continue;
            }
            Ok(Poll::Ready(o)) => o,
            Err(p) => Out::Panic(pmsg(p)),
        };
        let r = runs[t].take().unwrap();
        let resp = stamp();
        let mut g = r.sh.lock().unwrap();
        let (cl, conds) = (std::mem::take(&mut g.cl), std::mem::take(&mut g.conds));
        st.recs.push(Rec { t, op: r.op, inv: r.inv, resp, out, cl, conds });
        // Time passes.
        if src.chance(8) {
            GNOW.fetch_add([301 * MS, 5 * MS][src.draw(2) as usize], SeqCst);
        }
    }
}
