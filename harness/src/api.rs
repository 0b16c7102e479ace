//! One face for the three caches (`sync::Cache`, `sync::SegmentedCache`,
//! `future::Cache`), covering the public API.

use crate::types::*;
use moka::ops::compute::{CompResult, Op};
use moka::{future, sync, Entry};
use std::future::Future;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type SC = sync::Cache<K, V, HB>;
pub type GC = sync::SegmentedCache<K, V, HB>;
pub type FC = future::Cache<K, V, HB>;

#[derive(Clone)]
pub enum C {
    S(SC),
    G(GC),
    F(FC),
}

/// What an init closure does.
pub enum Init {
    Val(V),
    None,
    Err(u32),
    Panic,
}

#[derive(Debug)]
pub struct MyErr(pub u32);
#[derive(Debug)]
pub struct MyErr2(pub u32);

#[derive(Debug)]
pub struct EntOut {
    pub key: Option<u32>,
    pub id: u64,
    pub fresh: bool,
    pub replaced: bool,
}

#[derive(Debug)]
pub enum GwOut {
    Val(V),
    Ent(EntOut),
    None,
    Err(u32),
}

/// Decision of a compute closure.
pub enum CDec {
    Nop,
    Put(V),
    Remove,
    Err(u32),
    Panic,
}

#[derive(Debug)]
pub enum CompOut {
    Inserted(EntOut),
    Replaced(EntOut),
    Removed(EntOut),
    Unchanged(EntOut),
    StillNone(u32),
    Err(u32),
}

pub const INJECTED: &str = "injected panic";

fn ent(e: Entry<K, V>) -> EntOut {
    let key = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.key().id())).ok();
    e.value().check();
    let (fresh, replaced) = (e.is_fresh(), e.is_old_value_replaced());
    EntOut { key, id: e.into_value().id, fresh, replaced }
}
fn comp(r: CompResult<K, V>) -> CompOut {
    match r {
        CompResult::Inserted(e) => CompOut::Inserted(ent(e)),
        CompResult::ReplacedWith(e) => CompOut::Replaced(ent(e)),
        CompResult::Removed(e) => CompOut::Removed(ent(e)),
        CompResult::Unchanged(e) => CompOut::Unchanged(ent(e)),
        CompResult::StillNone(k) => CompOut::StillNone(k.id()),
    }
}

fn val(i: Init) -> V {
    match i {
        Init::Val(v) => v,
        _ => panic!("{INJECTED}"),
    }
}
fn opt(i: Init) -> Option<V> {
    match i {
        Init::Val(v) => Some(v),
        Init::None => None,
        _ => panic!("{INJECTED}"),
    }
}
fn res(i: Init) -> Result<V, MyErr> {
    match i {
        Init::Val(v) => Ok(v),
        Init::Err(e) => Err(MyErr(e)),
        _ => panic!("{INJECTED}"),
    }
}
fn res2(i: Init) -> Result<V, MyErr2> {
    match i {
        Init::Val(v) => Ok(v),
        Init::Err(e) => Err(MyErr2(e)),
        _ => panic!("{INJECTED}"),
    }
}
/// The error id of the calls whose error type is `()`.
pub const UNIT_ERR: u32 = 1 << 20;
fn res_unit(i: Init) -> Result<V, ()> {
    match i {
        Init::Val(v) => Ok(v),
        Init::Err(_) => Err(()),
        _ => panic!("{INJECTED}"),
    }
}
fn op(d: CDec) -> Op<V> {
    match d {
        CDec::Nop => Op::Nop,
        CDec::Put(v) => Op::Put(v),
        CDec::Remove => Op::Remove,
        _ => panic!("{INJECTED}"),
    }
}
fn try_op(d: CDec) -> Result<Op<V>, MyErr> {
    match d {
        CDec::Err(e) => Err(MyErr(e)),
        d => Ok(op(d)),
    }
}
fn up(d: CDec) -> V {
    match d {
        CDec::Put(v) => v,
        _ => panic!("{INJECTED}"),
    }
}
pub fn see(e: Option<Entry<K, V>>) -> Option<(u32, u64)> {
    e.map(|e| {
        e.value().check();
        let k = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.key().id())).unwrap_or(u32::MAX);
        (k, e.value().id)
    })
}

struct PredTok(u32);
impl PredTok {
    fn new() -> PredTok {
        PREDS.fetch_add(1, SeqCst);
        PredTok(EPOCH.load(SeqCst))
    }
}
impl Drop for PredTok {
    fn drop(&mut self) {
        if self.0 == EPOCH.load(SeqCst) {
            PREDS.fetch_sub(1, SeqCst);
        }
    }
}

/// Variants of the `get_with` family.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gw {
    GetWith,
    GetWithRef,
    GetWithIf,
    Opt,
    OptRef,
    Try,
    TryRef,
    Try2,
    OrInsert,
    OrDefault,
    OrInsertWith,
    OrInsertWithIf,
    OrOpt,
    OrTry,
    ROrInsert,
    ROrDefault,
    ROrInsertWith,
    ROrInsertWithIf,
    ROrOpt,
    ROrTry,
    /// error type `()`
    TryUnit,
    ROrTryUnit,
}
pub const GWS: [Gw; 22] = [
    Gw::GetWith,
    Gw::GetWithRef,
    Gw::GetWithIf,
    Gw::Opt,
    Gw::OptRef,
    Gw::Try,
    Gw::TryRef,
    Gw::Try2,
    Gw::OrInsert,
    Gw::OrDefault,
    Gw::OrInsertWith,
    Gw::OrInsertWithIf,
    Gw::OrOpt,
    Gw::OrTry,
    Gw::ROrInsert,
    Gw::ROrDefault,
    Gw::ROrInsertWith,
    Gw::ROrInsertWithIf,
    Gw::ROrOpt,
    Gw::ROrTry,
    Gw::TryUnit,
    Gw::ROrTryUnit,
];
impl Gw {
    pub fn can_none(self) -> bool {
        matches!(self, Gw::Opt | Gw::OptRef | Gw::OrOpt | Gw::ROrOpt)
    }
    pub fn can_err(self) -> bool {
        matches!(self, Gw::Try | Gw::TryRef | Gw::Try2 | Gw::OrTry | Gw::ROrTry) || self.unit()
    }
    /// errors carry no id (see `UNIT_ERR`)
    pub fn unit(self) -> bool {
        matches!(self, Gw::TryUnit | Gw::ROrTryUnit)
    }
    pub fn has_cond(self) -> bool {
        matches!(self, Gw::GetWithIf | Gw::OrInsertWithIf | Gw::ROrInsertWithIf)
    }
    /// init is a plain value, not a closure
    pub fn plain(self) -> bool {
        matches!(self, Gw::OrInsert | Gw::OrDefault | Gw::ROrInsert | Gw::ROrDefault)
    }
    pub fn is_default(self) -> bool {
        matches!(self, Gw::OrDefault | Gw::ROrDefault)
    }
    /// the waiter identity: calls of one class for one key are coalesced
    pub fn class(self) -> u8 {
        match self {
            Gw::Opt | Gw::OptRef | Gw::OrOpt | Gw::ROrOpt => 1,
            Gw::Try | Gw::TryRef | Gw::OrTry | Gw::ROrTry => 2,
            Gw::Try2 => 3,
            Gw::TryUnit | Gw::ROrTryUnit => 4,
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cv {
    Compute,
    ComputeRef,
    TryCompute,
    TryComputeRef,
    Upsert,
    UpsertRef,
    Nobody,
    NobodyRef,
}
pub const CVS: [Cv; 8] = [
    Cv::Compute,
    Cv::ComputeRef,
    Cv::TryCompute,
    Cv::TryComputeRef,
    Cv::Upsert,
    Cv::UpsertRef,
    Cv::Nobody,
    Cv::NobodyRef,
];
impl Cv {
    pub fn upsert(self) -> bool {
        matches!(self, Cv::Upsert | Cv::UpsertRef)
    }
    pub fn can_err(self) -> bool {
        matches!(self, Cv::TryCompute | Cv::TryComputeRef | Cv::Nobody | Cv::NobodyRef)
    }
    pub fn future_only(self) -> bool {
        matches!(self, Cv::Nobody | Cv::NobodyRef)
    }
}

macro_rules! gw_body {
    ($c:expr, $v:expr, $k:expr, $init:expr, $cond:expr, $mk:ident, $aw:ident) => {{
        let c = $c;
        let k: u32 = $k;
        let r = KRef(k);
        let init = $init;
        match $v {
            Gw::GetWith => GwOut::Val($aw!(c.get_with(K::new(k), $mk!(init, val)))),
            Gw::GetWithRef => GwOut::Val($aw!(c.get_with_by_ref(&r, $mk!(init, val)))),
            #[allow(deprecated)]
            Gw::GetWithIf => GwOut::Val($aw!(c.get_with_if(K::new(k), $mk!(init, val), $cond))),
            Gw::Opt => match $aw!(c.optionally_get_with(K::new(k), $mk!(init, opt))) {
                Some(v) => GwOut::Val(v),
                None => GwOut::None,
            },
            Gw::OptRef => match $aw!(c.optionally_get_with_by_ref(&r, $mk!(init, opt))) {
                Some(v) => GwOut::Val(v),
                None => GwOut::None,
            },
            Gw::Try => match $aw!(c.try_get_with(K::new(k), $mk!(init, res))) {
                Ok(v) => GwOut::Val(v),
                Err(e) => GwOut::Err(e.0),
            },
            Gw::TryRef => match $aw!(c.try_get_with_by_ref(&r, $mk!(init, res))) {
                Ok(v) => GwOut::Val(v),
                Err(e) => GwOut::Err(e.0),
            },
            Gw::Try2 => match $aw!(c.try_get_with(K::new(k), $mk!(init, res2))) {
                Ok(v) => GwOut::Val(v),
                Err(e) => GwOut::Err(e.0),
            },
            Gw::OrInsert => GwOut::Ent(ent($aw!(c.entry(K::new(k)).or_insert(val($aw!(init)))))),
            Gw::OrDefault => GwOut::Ent(ent($aw!(c.entry(K::new(k)).or_default()))),
            Gw::OrInsertWith => GwOut::Ent(ent($aw!(c.entry(K::new(k)).or_insert_with($mk!(init, val))))),
            Gw::OrInsertWithIf => {
                GwOut::Ent(ent($aw!(c.entry(K::new(k)).or_insert_with_if($mk!(init, val), $cond))))
            }
            Gw::OrOpt => match $aw!(c.entry(K::new(k)).or_optionally_insert_with($mk!(init, opt))) {
                Some(e) => GwOut::Ent(ent(e)),
                None => GwOut::None,
            },
            Gw::OrTry => match $aw!(c.entry(K::new(k)).or_try_insert_with($mk!(init, res))) {
                Ok(e) => GwOut::Ent(ent(e)),
                Err(e) => GwOut::Err(e.0),
            },
            Gw::ROrInsert => GwOut::Ent(ent($aw!(c.entry_by_ref(&r).or_insert(val($aw!(init)))))),
            Gw::ROrDefault => GwOut::Ent(ent($aw!(c.entry_by_ref(&r).or_default()))),
            Gw::ROrInsertWith => GwOut::Ent(ent($aw!(c.entry_by_ref(&r).or_insert_with($mk!(init, val))))),
            Gw::ROrInsertWithIf => {
                GwOut::Ent(ent($aw!(c.entry_by_ref(&r).or_insert_with_if($mk!(init, val), $cond))))
            }
            Gw::ROrOpt => match $aw!(c.entry_by_ref(&r).or_optionally_insert_with($mk!(init, opt))) {
                Some(e) => GwOut::Ent(ent(e)),
                None => GwOut::None,
            },
            Gw::ROrTry => match $aw!(c.entry_by_ref(&r).or_try_insert_with($mk!(init, res))) {
                Ok(e) => GwOut::Ent(ent(e)),
                Err(e) => GwOut::Err(e.0),
            },
            Gw::TryUnit => match $aw!(c.try_get_with(K::new(k), $mk!(init, res_unit))) {
                Ok(v) => GwOut::Val(v),
                Err(_) => GwOut::Err(UNIT_ERR),
            },
            Gw::ROrTryUnit => match $aw!(c.entry_by_ref(&r).or_try_insert_with($mk!(init, res_unit))) {
                Ok(e) => GwOut::Ent(ent(e)),
                Err(_) => GwOut::Err(UNIT_ERR),
            },
        }
    }};
}

struct SyncInit<F>(F);

macro_rules! mk_sync {
    ($init:ident, $f:ident) => {
        || $f(($init.0)())
    };
}
macro_rules! aw_sync {
    ($e:expr) => {
        IntoPlain::plain($e)
    };
}
trait IntoPlain {
    type O;
    fn plain(self) -> Self::O;
}
macro_rules! plain_impl { ($($t:ty),*) => { $(impl IntoPlain for $t { type O = $t; fn plain(self) -> $t { self } })* } }
plain_impl!(V, Option<V>, Entry<K, V>, Option<Entry<K, V>>, CompResult<K, V>);
impl<T, E> IntoPlain for Result<T, E> {
    type O = Result<T, E>;
    fn plain(self) -> Self {
        self
    }
}
impl<F: FnOnce() -> Init> IntoPlain for SyncInit<F> {
    type O = Init;
    fn plain(self) -> Init {
        (self.0)()
    }
}
macro_rules! mk_fut {
    ($init:ident, $f:ident) => {
        async move { $f($init.await) }
    };
}
macro_rules! aw_fut {
    ($e:expr) => {
        $e.await
    };
}

macro_rules! comp_body {
    ($c:expr, $v:expr, $k:expr, $f:expr, $mk:ident, $aw:ident) => {{
        let c = $c;
        let k: u32 = $k;
        let r = KRef(k);
        let f = $f;
        match $v {
            Cv::Compute => comp($aw!(c.entry(K::new(k)).and_compute_with($mk!(f, op)))),
            Cv::ComputeRef => comp($aw!(c.entry_by_ref(&r).and_compute_with($mk!(f, op)))),
            Cv::TryCompute => match $aw!(c.entry(K::new(k)).and_try_compute_with($mk!(f, try_op))) {
                Ok(o) => comp(o),
                Err(MyErr(e)) => CompOut::Err(e),
            },
            Cv::TryComputeRef => match $aw!(c.entry_by_ref(&r).and_try_compute_with($mk!(f, try_op))) {
                Ok(o) => comp(o),
                Err(MyErr(e)) => CompOut::Err(e),
            },
            Cv::Upsert => {
                let e = ent($aw!(c.entry(K::new(k)).and_upsert_with($mk!(f, up))));
                if e.replaced { CompOut::Replaced(e) } else { CompOut::Inserted(e) }
            }
            Cv::UpsertRef => {
                let e = ent($aw!(c.entry_by_ref(&r).and_upsert_with($mk!(f, up))));
                if e.replaced { CompOut::Replaced(e) } else { CompOut::Inserted(e) }
            }
            #[allow(unreachable_patterns)]
            v => comp_rest!($mk, c, v, k, r, f),
        }
    }};
}
macro_rules! comp_rest {
    (mk_csync, $c:ident, $v:ident, $k:ident, $r:ident, $f:ident) => {{
        let _ = ($v, $f);
        unreachable!()
    }};
    (mk_cfut, $c:ident, $v:ident, $k:ident, $r:ident, $f:ident) => {{
        let x = if $v == Cv::Nobody {
            $c.entry(K::new($k)).and_try_compute_if_nobody_else(mk_cfut!($f, try_op)).await
        } else {
            $c.entry_by_ref(&$r).and_try_compute_if_nobody_else(mk_cfut!($f, try_op)).await
        };
        match x {
            Ok(o) => comp(o),
            Err(MyErr(e)) => CompOut::Err(e),
        }
    }};
}
macro_rules! mk_csync {
    ($f:ident, $g:ident) => {
        |e| $g($f(see(e)))
    };
}
macro_rules! mk_cfut {
    ($f:ident, $g:ident) => {
        |e| {
            let fut = $f(see(e));
            async move { $g(fut.await) }
        }
    };
}

pub async fn f_gw(
    c: &FC,
    v: Gw,
    k: u32,
    init: impl Future<Output = Init>,
    cond: impl FnMut(&V) -> bool + Send,
) -> GwOut {
    gw_body!(c, v, k, init, cond, mk_fut, aw_fut)
}

pub async fn f_comp<Fu: Future<Output = CDec>>(
    c: &FC,
    v: Cv,
    k: u32,
    f: impl FnOnce(Option<(u32, u64)>) -> Fu,
) -> CompOut {
    comp_body!(c, v, k, f, mk_cfut, aw_fut)
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}

/// Drives a future on the current thread, parking while it is pending.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w: Waker = Arc::new(Unpark(std::thread::current())).into();
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::park();
    }
}

/// Pending `n` times, waking itself.
pub struct YieldN(pub u32);
impl Future for YieldN {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl C {
    pub fn get(&self, k: u32, bor: bool) -> Option<V> {
        let v = match (self, bor) {
            (C::S(c), false) => c.get(&K::new(k)),
            (C::S(c), true) => c.get(&KRef(k)),
            (C::G(c), false) => c.get(&K::new(k)),
            (C::G(c), true) => c.get(&KRef(k)),
            (C::F(c), false) => block_on(c.get(&K::new(k))),
            (C::F(c), true) => block_on(c.get(&KRef(k))),
        };
        if let Some(v) = &v {
            v.check();
        }
        v
    }
    pub fn contains(&self, k: u32, bor: bool) -> bool {
        match (self, bor) {
            (C::S(c), false) => c.contains_key(&K::new(k)),
            (C::S(c), true) => c.contains_key(&KRef(k)),
            (C::G(c), false) => c.contains_key(&K::new(k)),
            (C::G(c), true) => c.contains_key(&KRef(k)),
            (C::F(c), false) => c.contains_key(&K::new(k)),
            (C::F(c), true) => c.contains_key(&KRef(k)),
        }
    }
    pub fn insert(&self, k: u32, v: V) {
        match self {
            C::S(c) => c.insert(K::new(k), v),
            C::G(c) => c.insert(K::new(k), v),
            C::F(c) => block_on(c.insert(K::new(k), v)),
        }
    }
    pub fn invalidate(&self, k: u32, bor: bool) {
        match (self, bor) {
            (C::S(c), false) => c.invalidate(&K::new(k)),
            (C::S(c), true) => c.invalidate(&KRef(k)),
            (C::G(c), false) => c.invalidate(&K::new(k)),
            (C::G(c), true) => c.invalidate(&KRef(k)),
            (C::F(c), false) => block_on(c.invalidate(&K::new(k))),
            (C::F(c), true) => block_on(c.invalidate(&KRef(k))),
        }
    }
    pub fn remove(&self, k: u32, bor: bool) -> Option<V> {
        match (self, bor) {
            (C::S(c), false) => c.remove(&K::new(k)),
            (C::S(c), true) => c.remove(&KRef(k)),
            (C::G(c), false) => c.remove(&K::new(k)),
            (C::G(c), true) => c.remove(&KRef(k)),
            (C::F(c), false) => block_on(c.remove(&K::new(k))),
            (C::F(c), true) => block_on(c.remove(&KRef(k))),
        }
    }
    pub fn invalidate_all(&self) {
        match self {
            C::S(c) => c.invalidate_all(),
            C::G(c) => c.invalidate_all(),
            C::F(c) => c.invalidate_all(),
        }
    }
    pub fn invalidate_if(&self, p: impl Fn(&K, &V) -> bool + Send + Sync + 'static) -> bool {
        let tok = PredTok::new();
        let p = move |k: &K, v: &V| {
            let _ = &tok;
            p(k, v)
        };
        match self {
            C::S(c) => c.invalidate_entries_if(p).is_ok(),
            C::G(c) => c.invalidate_entries_if(p).is_ok(),
            C::F(c) => c.invalidate_entries_if(p).is_ok(),
        }
    }
    pub fn run_pending(&self) {
        match self {
            C::S(c) => c.run_pending_tasks(),
            C::G(c) => c.run_pending_tasks(),
            C::F(c) => block_on(c.run_pending_tasks()),
        }
    }
    pub fn entry_count(&self) -> u64 {
        match self {
            C::S(c) => c.entry_count(),
            C::G(c) => c.entry_count(),
            C::F(c) => c.entry_count(),
        }
    }
    pub fn weighted_size(&self) -> u64 {
        match self {
            C::S(c) => c.weighted_size(),
            C::G(c) => c.weighted_size(),
            C::F(c) => c.weighted_size(),
        }
    }
    pub fn policy(&self) -> moka::Policy {
        match self {
            C::S(c) => c.policy(),
            C::G(c) => c.policy(),
            C::F(c) => c.policy(),
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            C::S(c) => c.name(),
            C::G(c) => c.name(),
            C::F(c) => c.name(),
        }
    }
    /// Runs `f` on each item of an iterator over the cache.
    pub fn iter(&self, f: &mut dyn FnMut(&K, &V)) {
        match self {
            C::S(c) => c.iter().for_each(|(k, v)| f(&k, &v)),
            C::G(c) => c.iter().for_each(|(k, v)| f(&k, &v)),
            C::F(c) => c.iter().for_each(|(k, v)| f(&k, &v)),
        }
    }
    pub fn into_iter(&self, f: &mut dyn FnMut(&K, &V)) {
        match self {
            C::S(c) => c.into_iter().for_each(|(k, v)| f(&k, &v)),
            C::G(c) => c.into_iter().for_each(|(k, v)| f(&k, &v)),
            C::F(c) => c.into_iter().for_each(|(k, v)| f(&k, &v)),
        }
    }
    pub fn gw(
        &self,
        v: Gw,
        k: u32,
        init: impl FnOnce() -> Init,
        cond: impl FnMut(&V) -> bool + Send,
        yields: u32,
    ) -> GwOut {
        match self {
            C::S(c) => {
                let i = SyncInit(init);
                gw_body!(c, v, k, i, cond, mk_sync, aw_sync)
            }
            C::G(c) => {
                let i = SyncInit(init);
                gw_body!(c, v, k, i, cond, mk_sync, aw_sync)
            }
            C::F(c) => block_on(f_gw(
                c,
                v,
                k,
                async move {
                    YieldN(yields).await;
                    init()
                },
                cond,
            )),
        }
    }
    pub fn comp(&self, v: Cv, k: u32, f: impl FnOnce(Option<(u32, u64)>) -> CDec, yields: u32) -> CompOut {
        match self {
            C::S(c) => comp_body!(c, v, k, f, mk_csync, aw_sync),
            C::G(c) => comp_body!(c, v, k, f, mk_csync, aw_sync),
            C::F(c) => block_on(f_comp(c, v, k, move |e| async move {
                YieldN(yields).await;
                f(e)
            })),
        }
    }
}

/// Cache configuration.
#[derive(Clone, Debug)]
pub struct Cfg {
    /// 0 sync, 1 segmented, 2 future
    pub kind: u8,
    pub segs: usize,
    pub cap: Option<u64>,
    pub weigher: bool,
    pub lru: bool,
    pub ttl: Option<u64>,
    pub tti: Option<u64>,
    pub expiry: bool,
    pub listener: bool,
    /// future: use the asynchronous listener, pending this many times
    pub async_listener: Option<u32>,
    pub inval: bool,
    pub init_cap: Option<usize>,
    pub hb: HB,
    pub cb_yield: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            kind: 0,
            segs: 1,
            cap: None,
            weigher: false,
            lru: false,
            ttl: None,
            tti: None,
            expiry: false,
            listener: false,
            async_listener: None,
            inval: false,
            init_cap: None,
            hb: HB::default(),
            cb_yield: false,
        }
    }
}

/// nth listener call that panics (u64::MAX: never); counted down per case.
pub static PANIC_AT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);

/// An asynchronous listener panics inside its future.
pub static PANIC_LATE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Time that a listener call takes on the virtual clock.
pub static COST: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn on_event(k: &K, v: &V, c: moka::notification::RemovalCause, yields: bool, late: bool) -> bool {
    use std::sync::atomic::Ordering::SeqCst;
    v.check();
    let (kk, id) = (k.id(), v.id);
    log(Log::Event { k: kk, id, cause: c.into(), tid: crate::sched::tid() });
    let cost = COST.load(SeqCst);
    if cost > 0 {
        crate::interpose::vadvance(cost);
    }
    if PANIC_AT.load(SeqCst) != u64::MAX {
        let n = PANIC_AT.fetch_sub(1, SeqCst);
        if n == 0 {
            PANIC_AT.store(u64::MAX, SeqCst);
            log(Log::ListenerPanic);
            if late && PANIC_LATE.load(SeqCst) {
                return true;
            }
            panic!("{INJECTED} in listener");
        }
    }
    if yields {
        crate::sched::yield_point(crate::sched::Y_CALLBACK);
    }
    false
}
fn on_end(k: &K, v: &V) {
    v.check();
    log(Log::EventEnd { k: k.id(), id: v.id, tid: crate::sched::tid() });
}

macro_rules! common_opts {
    ($b:expr, $cfg:expr) => {{
        let cfg: &Cfg = $cfg;
        let mut b = $b;
        let y = cfg.cb_yield;
        if let Some(c) = cfg.cap {
            b = b.max_capacity(c);
        }
        if let Some(n) = cfg.init_cap {
            b = b.initial_capacity(n);
        }
        if cfg.weigher {
            b = b.weigher(move |k: &K, v: &V| {
                v.check();
                k.check();
                if y {
                    crate::sched::yield_point(crate::sched::Y_CALLBACK);
                }
                v.w
            });
        }
        if cfg.lru {
            b = b.eviction_policy(moka::policy::EvictionPolicy::lru());
        }
        if let Some(d) = cfg.ttl {
            b = b.time_to_live(dur(d));
        }
        if let Some(d) = cfg.tti {
            b = b.time_to_idle(dur(d));
        }
        if cfg.expiry {
            b = b.expire_after(Exp { yields: y });
        }
        if cfg.inval {
            b = b.support_invalidation_closures();
        }
        b
    }};
}

pub fn build(cfg: &Cfg) -> C {
    let y = cfg.cb_yield;
    let lis = move |k: Arc<K>, v: V, c: moka::notification::RemovalCause| {
        on_event(&k, &v, c, y, false);
        on_end(&k, &v);
    };
    match cfg.kind {
        0 => {
            let mut b = common_opts!(sync::Cache::builder(), cfg);
            if cfg.listener {
                b = b.eviction_listener(lis);
            }
            C::S(b.build_with_hasher(cfg.hb))
        }
        1 => {
            let mut b = common_opts!(sync::SegmentedCache::builder(cfg.segs), cfg);
            if cfg.listener {
                b = b.eviction_listener(lis);
            }
            C::G(b.build_with_hasher(cfg.hb))
        }
        _ => {
            let mut b = common_opts!(future::Cache::builder(), cfg);
            if cfg.listener {
                if let Some(n) = cfg.async_listener {
                    b = b.async_eviction_listener(move |k, v, c| {
                        use moka::notification::ListenerFuture;
                        let boom = on_event(&k, &v, c, y, true);
                        let f: ListenerFuture = Box::pin(async move {
                            YieldN(n).await;
                            if boom {
                                panic!("{INJECTED} in listener");
                            }
                            on_end(&k, &v);
                        });
                        f
                    });
                } else {
                    b = b.eviction_listener(lis);
                }
            }
            C::F(b.build_with_hasher(cfg.hb))
        }
    }
}
