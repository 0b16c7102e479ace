//! The table of properties: which engine parts decide which property, with which
//! generator profile, and which kinds of failure are violations of it.

use crate::api::Gw;
use crate::asy::{self, AProf};
use crate::choices::Src;
use crate::pol::{self, PProf, PBASE};
use crate::diff::{self, DProf};
use crate::grow;
use crate::conc::{self, CProf, CBASE};
use crate::runner::*;
use crate::seq::{self, Prof, BASE};

macro_rules! seqpart {
    ($name:literal, $q:expr, $t:expr, $prof:expr) => {{
        const P: Prof = $prof;
        fn run(src: &mut Src, out: &mut CaseOut, trace: bool) {
            seq::run_case(&P, src, out, trace)
        }
        Part { name: $name, run, quick: $q, thorough: $t, fresh: false }
    }};
}

macro_rules! concpart {
    ($name:literal, $q:expr, $t:expr, $prof:expr) => {{
        const P: CProf = $prof;
        fn run(src: &mut Src, out: &mut CaseOut, trace: bool) {
            conc::run_case(&P, src, out, trace)
        }
        Part { name: $name, run, quick: $q, thorough: $t, fresh: false }
    }};
}

macro_rules! asypart {
    ($name:literal, $q:expr, $t:expr, $prof:expr) => {{
        const P: AProf = $prof;
        fn run(src: &mut Src, out: &mut CaseOut, trace: bool) {
            asy::run_case(&P, src, out, trace)
        }
        Part { name: $name, run, quick: $q, thorough: $t, fresh: false }
    }};
}

macro_rules! polpart {
    ($name:literal, $q:expr, $t:expr, $prof:expr) => {{
        const P: PProf = $prof;
        fn run(src: &mut Src, out: &mut CaseOut, trace: bool) {
            pol::run_case(&P, src, out, trace)
        }
        Part { name: $name, run, quick: $q, thorough: $t, fresh: false }
    }};
}

macro_rules! diffpart {
    ($name:literal, $q:expr, $t:expr, $prof:expr) => {{
        const P: DProf = $prof;
        fn run(src: &mut Src, out: &mut CaseOut, trace: bool) {
            diff::run_case(&P, src, out, trace)
        }
        Part { name: $name, run, quick: $q, thorough: $t, fresh: false }
    }};
}

const ABASE: AProf = AProf {
    c: CProf { kinds: &[2], listener: 80, nops: (1, 6), cap: [6, 3, 2, 0], ops: [24, 8, 2, 10, 10, 2, 2, 1, 12, 4, 16, 12, 0], need: &["cancelled", "pending"], ..CBASE },
    cancel: 40,
    tasks: (1, 4),
    lis: 3,
    async_lis: 85,
    clo: 3,
    few_runs: false,
};

const HEAD: &str = "A case is a generated cache configuration plus a generated history (the draws of the choice sequence); \
distinct = different choice sequences. ";

fn prop(id: &'static str, kinds: &[Kind], rule: &str, parts: Vec<Part>) -> Prop {
    use Kind::*;
    let mut k = vec![Panic, Stuck, Deadlock, Crash, Uaf];
    k.extend_from_slice(kinds);
    Prop { id, kinds: k, rule: format!("{HEAD}{rule}"), parts }
}

//                    ins get has inv rem all  if iter run adv  gw comp bulk settle upd clone
const OPS_MIX: [u32; 16] = [20, 16, 6, 5, 5, 2, 2, 4, 6, 8, 10, 8, 0, 1, 0, 1];
const OPS_TIME: [u32; 16] = [14, 16, 6, 2, 2, 1, 1, 3, 6, 22, 8, 6, 0, 1, 0, 0];
const OPS_BULK: [u32; 16] = [10, 10, 6, 5, 5, 2, 4, 2, 6, 8, 5, 5, 20, 4, 0, 1];
const OPS_UPD: [u32; 16] = [10, 10, 6, 5, 5, 2, 4, 2, 6, 8, 5, 5, 0, 4, 4, 1];
const OPS_REM: [u32; 16] = [20, 10, 6, 12, 12, 5, 4, 4, 6, 10, 6, 8, 0, 1, 0, 0];
const OPS_IF: [u32; 16] = [20, 8, 6, 2, 4, 1, 10, 4, 12, 10, 4, 6, 0, 3, 0, 0];
const OPS_ENT: [u32; 16] = [8, 4, 2, 4, 4, 2, 2, 1, 4, 10, 26, 26, 0, 1, 0, 0];
const OPS_GW: [u32; 16] = [8, 6, 2, 4, 4, 1, 1, 1, 3, 8, 50, 4, 0, 1, 0, 0];
const OPS_CAP: [u32; 16] = [30, 16, 2, 3, 3, 1, 1, 1, 10, 3, 8, 8, 0, 2, 0, 0];

const ALLH: &[u8] = &[0, 0, 1, 2, 3, 4, 6];

pub fn all() -> Vec<Prop> {
    use Kind::*;
    vec![
        prop(
            "C01",
            &[Read, Ret, Iter, Init, Lin],
            "Non-trivial: the history has at least one hit and one overwrite (resp. a bulk load or update burst).",
            vec![
                seqpart!("mixed", 350_000, 3_500_000, Prof { need: &["hit", "overwrite"], ..BASE }),
                seqpart!("plain", 100_000, 1_000_000, Prof { ttl: 0, tti: 0, expiry: 0, cap: [8, 0, 0, 2], inval: 0, nops: (20, 120), need: &["hit", "overwrite"], ..BASE }),
                seqpart!("collide", 80_000, 800_000, Prof { hash_modes: &[1, 2, 4, 6], keys: 14, nops: (30, 120), need: &["hit", "overwrite"], ..BASE }),
                seqpart!("bulk", 1_200, 12_000, Prof { ops: OPS_BULK, nops: (4, 16), inval: 60, cap: [6, 1, 0, 3], need: &["bulk"], ..BASE }),
                seqpart!("update-burst", 300, 3_000, Prof { ops: OPS_UPD, nops: (4, 16), inval: 60, sync_each: 0, cap: [6, 1, 0, 3], need: &["hit"], ..BASE }),
            ],
        ),
        prop(
            "C02",
            &[Capacity, Evict],
            "Non-trivial: something was evicted or rejected for size, or the weights came within the capacity and nothing was.",
            vec![
                seqpart!("small", 200_000, 2_500_000, Prof { ops: OPS_CAP, cap: [0, 6, 0, 2], weigher: 60, ttl: 5, tti: 5, expiry: 5, keys: 12, need: &["hit"], ..BASE }),
                seqpart!("plain", 120_000, 1_200_000, Prof { ops: OPS_CAP, cap: [0, 4, 1, 4], weigher: 80, ttl: 0, tti: 0, expiry: 0, inval: 0, keys: 30, nops: (20, 140), need: &["hit"], ..BASE }),
                seqpart!("zero", 20_000, 200_000, Prof { cap: [0, 0, 1, 0], need: &[], ..BASE }),
                seqpart!("unbounded", 40_000, 400_000, Prof { cap: [1, 0, 0, 0], keys: 30, nops: (20, 140), need: &["hit"], ..BASE }),
                seqpart!("bulk", 800, 8_000, Prof { ops: OPS_BULK, nops: (4, 12), cap: [1, 1, 0, 3], need: &["bulk"], ..BASE }),
                concpart!("conc", 60_000, 600_000, CProf { cap: [1, 1, 8, 0], keys: 5, weigher: 60, inval: 5, ops: [30, 10, 2, 3, 4, 1, 1, 1, 12, 3, 8, 10, 0], ..CBASE }),
                concpart!("fine", 30_000, 300_000, CProf { fine: true, cap: [1, 1, 8, 0], keys: 5, weigher: 60, inval: 5, ops: [30, 10, 2, 3, 4, 1, 1, 1, 12, 3, 8, 10, 0], ..CBASE }),
            ],
        ),
        prop(
            "C03",
            &[Count, Capacity],
            "Non-trivial: the history has an overwrite (weights change) and a removal.",
            vec![
                seqpart!("mixed", 180_000, 2_500_000, Prof { weigher: 70, sync_each: 30, need: &["overwrite"], ..BASE }),
                seqpart!("removals", 120_000, 1_200_000, Prof { ops: OPS_REM, weigher: 70, sync_each: 20, nops: (10, 90), need: &["overwrite", "removed"], ..BASE }),
                seqpart!("evicting", 80_000, 800_000, Prof { ops: OPS_CAP, weigher: 80, cap: [0, 5, 0, 2], keys: 14, need: &["overwrite"], ..BASE }),
                seqpart!("bulk", 1_000, 10_000, Prof { ops: OPS_BULK, nops: (4, 14), weigher: 50, cap: [4, 1, 0, 3], need: &["bulk"], ..BASE }),
                seqpart!("update-burst", 250, 2_500, Prof { ops: OPS_UPD, nops: (4, 14), weigher: 50, sync_each: 0, cap: [4, 1, 0, 3], need: &["overwrite"], ..BASE }),
                concpart!("conc", 90_000, 900_000, CProf { weigher: 80, listener: 30, ops: [24, 8, 2, 8, 10, 3, 3, 1, 14, 4, 8, 12, 0], ..CBASE }),
                concpart!("fine", 50_000, 500_000, CProf { fine: true, weigher: 80, listener: 30, ops: [24, 8, 2, 8, 10, 3, 3, 1, 14, 4, 8, 12, 0], ..CBASE }),
            ],
        ),
        prop(
            "C04",
            &[Capacity, Reclaim, Leak],
            "Non-trivial: several hundred operations; in the part dead at least 50 entries died.",
            vec![
                Part { name: "bounded", run: grow::run_bounded, quick: 40_000, thorough: 400_000, fresh: false },
                Part { name: "dead", run: grow::run_dead, quick: 12_000, thorough: 120_000, fresh: false },
            ],
        ),
        prop(
            "C05",
            &[Read, Ret, Iter],
            "Non-trivial: a dead entry was looked up (and found dead) after a hit.",
            vec![
                seqpart!("ttl", 130_000, 1_300_000, Prof { ops: OPS_TIME, ttl: 100, tti: 20, expiry: 10, cap: [6, 0, 0, 1], need: &["hit", "time_miss"], ..BASE }),
                seqpart!("tti", 130_000, 1_300_000, Prof { ops: OPS_TIME, ttl: 20, tti: 100, expiry: 10, cap: [6, 0, 0, 1], need: &["hit", "time_miss"], ..BASE }),
                seqpart!("both", 130_000, 1_300_000, Prof { ops: OPS_TIME, ttl: 100, tti: 100, expiry: 30, cap: [6, 1, 0, 1], keys: 4, need: &["hit", "time_miss"], ..BASE }),
                seqpart!("bulk", 500, 5_000, Prof { ops: OPS_BULK, nops: (4, 14), ttl: 60, tti: 60, expiry: 0, cap: [4, 0, 0, 1], need: &["bulk"], ..BASE }),
            ],
        ),
        prop(
            "C06",
            &[Read, Ret, Iter, Callback],
            "Non-trivial: expire_after_read and expire_after_create answered, and an entry was found expired.",
            vec![
                seqpart!("expiry", 200_000, 2_000_000, Prof { ops: OPS_TIME, ttl: 15, tti: 15, expiry: 100, cap: [6, 1, 0, 1], need: &["pe_create", "pe_read", "pe_miss"], ..BASE }),
                seqpart!("expiry-few", 200_000, 2_000_000, Prof { ops: OPS_TIME, ttl: 25, tti: 25, expiry: 100, cap: [6, 0, 0, 0], keys: 2, nops: (10, 80), need: &["pe_create", "pe_update", "pe_read"], ..BASE }),
                seqpart!("expiry-entry-api", 80_000, 800_000, Prof { ops: OPS_ENT, ttl: 15, tti: 15, expiry: 100, cap: [6, 0, 0, 0], keys: 3, need: &["pe_create", "pe_read"], ..BASE }),
                seqpart!("bulk", 400, 4_000, Prof { ops: OPS_BULK, nops: (4, 14), expiry: 100, cap: [4, 0, 0, 1], need: &["bulk"], ..BASE }),
            ],
        ),
        prop(
            "C07",
            &[Reclaim, Count, Leak, Event],
            "Non-trivial: a maintenance run removed an entry that had expired or been invalidated.",
            vec![
                seqpart!("timed", 200_000, 2_000_000, Prof { ops: OPS_TIME, ttl: 40, tti: 40, expiry: 50, cap: [6, 1, 0, 1], listener: 70, need: &["reclaimed"], ..BASE }),
                seqpart!("wheel", 100_000, 1_000_000, Prof { ops: OPS_TIME, ttl: 0, tti: 0, expiry: 100, cap: [6, 0, 0, 0], keys: 30, nops: (20, 100), listener: 70, need: &["reclaimed"], ..BASE }),
                seqpart!("invalidated", 80_000, 800_000, Prof { ops: OPS_IF, inval: 100, listener: 70, need: &["reclaimed"], ..BASE }),
                seqpart!("bulk", 1_200, 12_000, Prof { ops: OPS_BULK, nops: (4, 14), ttl: 30, tti: 30, expiry: 30, inval: 100, cap: [4, 0, 0, 1], need: &["bulk"], ..BASE }),
            ],
        ),
        prop(
            "C08",
            &[Read, Ret, Iter, Lin],
            "Non-trivial: the history has a hit, a removal or invalidation of a present key, and (part all) an entry found dead after invalidate_all.",
            vec![
                seqpart!("removals", 140_000, 2_000_000, Prof { ops: OPS_REM, need: &["hit", "removed", "invalidated"], ..BASE }),
                seqpart!("removals-timed", 120_000, 1_200_000, Prof { ops: OPS_REM, ttl: 40, tti: 40, expiry: 30, keys: 4, need: &["hit", "removed", "time_miss"], ..BASE }),
                seqpart!("all", 120_000, 1_200_000, Prof { ops: [20, 10, 6, 4, 5, 10, 3, 4, 6, 10, 6, 8, 0, 1, 0, 0], keys: 5, need: &["hit", "va_miss"], ..BASE }),
                seqpart!("bulk", 800, 8_000, Prof { ops: [10, 10, 6, 5, 5, 10, 2, 2, 6, 8, 5, 5, 20, 4, 0, 1], nops: (4, 14), cap: [4, 0, 0, 1], need: &["bulk"], ..BASE }),
                concpart!("conc", 80_000, 800_000, CProf { cap: [6, 2, 1, 0], ops: [20, 14, 4, 10, 12, 6, 0, 3, 10, 4, 6, 6, 0], inval: 0, ..CBASE }),
                concpart!("fine", 50_000, 500_000, CProf { fine: true, cap: [6, 2, 1, 0], ops: [20, 14, 4, 10, 12, 6, 0, 3, 10, 4, 6, 6, 0], inval: 0, ..CBASE }),
            ],
        ),
        prop(
            "C09",
            &[Read, Ret, Iter, Config, Reclaim, Lin, Count, Event],
            "Non-trivial: at least one predicate was registered and an entry was found dead because of it.",
            vec![
                seqpart!("predicates", 160_000, 2_200_000, Prof { ops: OPS_IF, inval: 95, cap: [12, 2, 1, 2], need: &["hit", "pred_miss"], ..BASE }),
                seqpart!("predicates-many", 80_000, 800_000, Prof { ops: OPS_IF, inval: 100, ttl: 0, tti: 0, expiry: 0, cap: [6, 0, 0, 0], keys: 30, nops: (30, 140), need: &["hit", "pred_miss"], ..BASE }),
                seqpart!("bulk", 1_500, 15_000, Prof { ops: [10, 10, 6, 2, 2, 1, 12, 2, 8, 8, 3, 3, 20, 6, 0, 0], nops: (5, 16), inval: 100, cap: [4, 0, 0, 1], need: &["bulk"], ..BASE }),
                seqpart!("update-burst", 200, 2_000, Prof { ops: OPS_UPD, nops: (4, 14), inval: 100, sync_each: 0, cap: [1, 0, 0, 0], need: &["hit"], ..BASE }),
                concpart!("conc", 80_000, 800_000, CProf { cap: [6, 2, 0, 0], inval: 100, ops: [20, 14, 4, 3, 5, 1, 14, 3, 16, 5, 4, 4, 0], prefill: 90, ..CBASE }),
                concpart!("fine", 50_000, 500_000, CProf { fine: true, cap: [6, 2, 0, 0], inval: 100, ops: [20, 14, 4, 3, 5, 1, 14, 3, 16, 5, 4, 4, 0], prefill: 90, ..CBASE }),
            ],
        ),
        prop(
            "C10",
            &[Event, Evict, Leak],
            "Non-trivial: notifications with at least two causes.",
            vec![
                seqpart!("mixed", 140_000, 2_000_000, Prof { listener: 100, need: &["ev_replaced", "ev_explicit"], ..BASE }),
                seqpart!("evicting", 120_000, 1_200_000, Prof { ops: OPS_CAP, listener: 100, cap: [0, 5, 0, 2], weigher: 50, need: &["ev_size"], ..BASE }),
                seqpart!("timed", 120_000, 1_200_000, Prof { ops: OPS_TIME, listener: 100, ttl: 40, tti: 40, expiry: 40, need: &["ev_expired"], ..BASE }),
                seqpart!("bulk", 800, 8_000, Prof { ops: OPS_BULK, listener: 100, nops: (4, 14), inval: 60, ttl: 30, tti: 30, cap: [3, 1, 0, 2], need: &["bulk"], ..BASE }),
                concpart!("conc", 100_000, 1_000_000, CProf { listener: 100, need: &["overlap", "event"], ..CBASE }),
                concpart!("fine", 60_000, 600_000, CProf { fine: true, listener: 100, need: &["overlap", "event"], ..CBASE }),
            ],
        ),
        prop(
            "C11",
            &[Cause, Order, Evict],
            "Non-trivial: notifications with at least two causes.",
            vec![
                seqpart!("mixed", 140_000, 2_000_000, Prof { listener: 100, ops: OPS_REM, need: &["ev_replaced", "ev_explicit"], ..BASE }),
                seqpart!("timed", 150_000, 1_500_000, Prof { ops: OPS_TIME, listener: 100, ttl: 40, tti: 40, expiry: 40, keys: 5, need: &["ev_expired", "ev_replaced"], ..BASE }),
                seqpart!("evicting", 100_000, 1_000_000, Prof { ops: OPS_CAP, listener: 100, cap: [0, 5, 0, 2], weigher: 50, ttl: 40, inval: 60, need: &["ev_size"], ..BASE }),
                seqpart!("bulk", 500, 5_000, Prof { ops: OPS_BULK, listener: 100, nops: (4, 14), inval: 60, ttl: 30, tti: 30, cap: [3, 1, 0, 2], need: &["bulk"], ..BASE }),
                concpart!("conc", 100_000, 1_000_000, CProf { listener: 100, keys: 1, ops: [26, 4, 1, 8, 10, 2, 2, 1, 10, 4, 10, 14, 0], need: &["overlap", "event"], ..CBASE }),
                concpart!("fine", 50_000, 500_000, CProf { fine: true, listener: 100, keys: 1, ops: [26, 4, 1, 8, 10, 2, 2, 1, 10, 4, 10, 14, 0], need: &["overlap", "event"], ..CBASE }),
            ],
        ),
        prop(
            "C12",
            &[Read, Ret, Iter, Count, Capacity, Event, Reclaim, Leak],
            "Non-trivial: the injected listener panic fired and the history went on.",
            vec![
                seqpart!("panic", 200_000, 2_000_000, Prof { listener: 100, lpanic: 100, ops: OPS_REM, need: &["listener_panicked"], ..BASE }),
                seqpart!("panic-evicting", 120_000, 1_200_000, Prof { listener: 100, lpanic: 100, ops: OPS_CAP, cap: [0, 5, 0, 2], weigher: 50, need: &["listener_panicked"], ..BASE }),
                seqpart!("panic-timed", 120_000, 1_200_000, Prof { listener: 100, lpanic: 100, ops: OPS_TIME, ttl: 40, tti: 40, expiry: 40, inval: 50, need: &["listener_panicked"], ..BASE }),
            ],
        ),
        prop(
            "C14",
            &[Read, Ret, Init, Leak, Lin],
            "Non-trivial: an init failed (error, None or panic) and a later init succeeded.",
            vec![
                seqpart!("failing-init", 200_000, 2_500_000, Prof { ops: OPS_GW, fail: 33, need: &["gw_failed", "gw_init"], ..BASE }),
                seqpart!("failing-init-few", 150_000, 1_500_000, Prof { ops: OPS_GW, fail: 33, keys: 2, cap: [8, 1, 1, 1], need: &["gw_failed", "gw_init"], ..BASE }),
                concpart!("conc", 100_000, 1_000_000, CProf { fail: 30, keys: 1, ops: [4, 4, 1, 4, 4, 1, 1, 1, 4, 2, 60, 6, 0], need: &["overlap", "init_failed"], ..CBASE }),
                concpart!("fine", 40_000, 400_000, CProf { fine: true, fail: 30, keys: 1, ops: [4, 4, 1, 4, 4, 1, 1, 1, 4, 2, 60, 6, 0], need: &["overlap", "init_failed"], ..CBASE }),
            ],
        ),
        prop(
            "C15",
            &[Read, Ret, Init, Lin],
            "Non-trivial: a compute closure put a value and one removed one, and an init closure ran.",
            vec![
                seqpart!("entry", 180_000, 2_500_000, Prof { ops: OPS_ENT, nops: (15, 80), fail: 15, need: &["comp_put", "comp_remove", "gw_init"], ..BASE }),
                seqpart!("entry-timed", 150_000, 1_500_000, Prof { ops: OPS_ENT, ttl: 40, tti: 40, expiry: 40, keys: 3, need: &["comp_put", "gw_init"], ..BASE }),
                seqpart!("entry-collide", 60_000, 600_000, Prof { ops: OPS_ENT, hash_modes: ALLH, keys: 12, nops: (20, 120), cap: [6, 0, 1, 1], need: &["comp_put", "gw_init"], ..BASE }),
                concpart!("conc", 100_000, 1_000_000, CProf { keys: 1, cap: [6, 4, 1, 0], ops: [3, 4, 1, 1, 1, 0, 0, 1, 6, 2, 20, 60, 0], ..CBASE }),
                concpart!("conc-atomic", 60_000, 600_000, CProf { keys: 1, cap: [6, 4, 0, 0], ops: [0, 10, 2, 0, 0, 0, 0, 2, 6, 0, 0, 60, 0], ..CBASE }),
                concpart!("fine", 40_000, 400_000, CProf { fine: true, keys: 1, cap: [6, 4, 1, 0], ops: [3, 4, 1, 1, 1, 0, 0, 1, 6, 2, 20, 60, 0], ..CBASE }),
                concpart!("fine-atomic", 30_000, 300_000, CProf { fine: true, keys: 1, cap: [6, 4, 0, 0], ops: [0, 10, 2, 0, 0, 0, 0, 2, 6, 0, 0, 60, 0], ..CBASE }),
            ],
        ),
        prop(
            "C16",
            &[Read, Ret, Iter, Init, Lin, Count, Event, Cause, Order, Capacity, Leak, Callback, Config],
            "Non-trivial: operations of different threads overlapped.",
            vec![
                concpart!("mixed", 150_000, 2_500_000, CBASE),
                concpart!("writes", 80_000, 1_200_000, CProf { keys: 1, cap: [6, 4, 1, 0], ops: [40, 16, 3, 8, 10, 3, 0, 2, 10, 2, 4, 4, 0], ..CBASE }),
                concpart!("collide", 60_000, 800_000, CProf { keys: 4, hash_modes: &[1, 2, 4], ..CBASE }),
                concpart!("burst", 3_000, 30_000, CProf { hash_modes: &[0], nops: (1, 4), ops: [20, 14, 3, 6, 8, 3, 3, 3, 8, 5, 10, 10, 20], need: &["overlap"], ..CBASE }),
                concpart!("fine-mixed", 80_000, 800_000, CProf { fine: true, ..CBASE }),
                concpart!("fine-writes", 60_000, 600_000, CProf { fine: true, keys: 1, cap: [6, 4, 1, 0], ops: [40, 16, 3, 8, 10, 3, 0, 2, 10, 2, 4, 4, 0], ..CBASE }),
                concpart!("fine-collide", 40_000, 400_000, CProf { fine: true, keys: 4, hash_modes: &[1, 2, 4], ..CBASE }),
                concpart!("fine-grow", 30_000, 300_000, CProf { fine: true, hash_modes: &[3], fill: 90, keys: 3, cap: [6, 3, 0, 0], ops: [20, 8, 3, 6, 8, 1, 1, 3, 3, 1, 8, 10, 20], ..CBASE }),
            ],
        ),
        prop(
            "C13",
            &[Read, Ret, Init, Lin],
            "Non-trivial: a caller joined the init closure of another caller.",
            vec![
                concpart!("single-flight", 170_000, 2_500_000, CProf { keys: 1, fail: 10, cap: [6, 4, 1, 1], ops: [4, 6, 1, 4, 4, 1, 1, 1, 4, 2, 80, 4, 0], need: &["overlap", "joined"], ..CBASE }),
                concpart!("single-flight-plain", 120_000, 1_500_000, CProf { keys: 1, fail: 0, expiry: 0, cap: [1, 0, 0, 0], prefill: 10, ops: [0, 10, 1, 2, 2, 0, 0, 0, 4, 2, 80, 0, 0], gws: &[Gw::GetWith, Gw::GetWithRef, Gw::OrInsertWith, Gw::ROrInsertWith], need: &["overlap", "joined"], ..CBASE }),
                concpart!("single-flight-keys", 80_000, 800_000, CProf { keys: 3, fail: 15, hash_modes: &[0, 1, 2, 4], ops: [4, 6, 1, 4, 4, 1, 1, 1, 4, 2, 80, 4, 0], need: &["overlap", "joined"], ..CBASE }),
                concpart!("fine", 60_000, 600_000, CProf { fine: true, keys: 1, fail: 10, cap: [6, 4, 1, 1], ops: [4, 6, 1, 4, 4, 1, 1, 1, 4, 2, 80, 4, 0], ..CBASE }),
                concpart!("fine-plain", 40_000, 400_000, CProf { fine: true, keys: 1, fail: 0, expiry: 0, cap: [1, 0, 0, 0], prefill: 10, ops: [0, 10, 1, 2, 2, 0, 0, 0, 4, 2, 80, 0, 0], gws: &[Gw::GetWith, Gw::GetWithRef, Gw::OrInsertWith, Gw::ROrInsertWith], ..CBASE }),
            ],
        ),
        prop(
            "C17",
            &[Read, Ret, Iter, Init, Lin, Count, Event, Cause, Capacity, Leak, Reclaim],
            "Non-trivial: the future of an operation was dropped after it had been polled at least once.",
            vec![
                asypart!("cancel", 250_000, 2_500_000, ABASE),
                asypart!("cancel-one-key", 120_000, 1_200_000, AProf { c: CProf { keys: 1, ..ABASE.c }, ..ABASE }),
                asypart!("cancel-init", 120_000, 1_200_000, AProf { c: CProf { keys: 1, fail: 15, ops: [4, 4, 1, 4, 4, 1, 1, 1, 6, 2, 60, 20, 0], ..ABASE.c }, ..ABASE }),
                asypart!("cancel-maintenance", 120_000, 1_200_000, AProf { c: CProf { listener: 100, cap: [0, 1, 6, 0], keys: 5, ops: [40, 8, 1, 6, 6, 1, 1, 0, 30, 4, 4, 6, 0], ..ABASE.c }, ..ABASE }),
                asypart!("burst", 6_000, 60_000, AProf { c: CProf { nops: (1, 4), keys: 4, listener: 95, cap: [2, 1, 6, 0], hash_modes: &[0], ops: [14, 6, 1, 6, 6, 1, 1, 0, 20, 4, 4, 6, 30], ..ABASE.c }, ..ABASE }),
            ],
        ),
        prop(
            "C18",
            &[Iter],
            "Non-trivial: an iteration (over at least one entry, in the concurrent parts overlapping other operations).",
            vec![
                seqpart!("seq", 150_000, 2_000_000, Prof { ops: [20, 6, 2, 4, 4, 2, 2, 20, 6, 8, 4, 4, 0, 1, 0, 1], keys: 30, nops: (15, 90), need: &["hit"], ..BASE }),
                seqpart!("bulk", 800, 8_000, Prof { ops: [10, 4, 2, 5, 5, 1, 2, 12, 6, 8, 3, 3, 20, 4, 0, 1], nops: (4, 14), cap: [4, 0, 0, 1], need: &["bulk"], ..BASE }),
                concpart!("conc", 150_000, 1_500_000, CProf { keys: 6, cap: [6, 2, 0, 0], prefill: 100, inval: 10, ops: [20, 4, 1, 6, 6, 1, 1, 30, 6, 2, 4, 6, 0], hash_modes: &[0, 1, 2, 3, 4], need: &["overlap", "iter_overlap"], ..CBASE }),
                concpart!("conc-burst", 3_000, 30_000, CProf { hash_modes: &[0], keys: 4, nops: (1, 4), cap: [1, 0, 0, 0], prefill: 100, inval: 10, ops: [10, 4, 1, 6, 6, 0, 0, 30, 6, 2, 4, 6, 20], need: &["iter_overlap"], ..CBASE }),
                concpart!("fine", 50_000, 500_000, CProf { fine: true, keys: 6, cap: [6, 2, 0, 0], prefill: 100, inval: 10, ops: [20, 4, 1, 6, 6, 1, 1, 30, 6, 2, 4, 6, 0], hash_modes: &[0, 1, 2, 3, 4], need: &["overlap", "iter_overlap"], ..CBASE }),
                concpart!("fine-grow", 20_000, 200_000, CProf { fine: true, hash_modes: &[3], fill: 90, keys: 3, cap: [6, 3, 0, 0], ops: [20, 4, 1, 6, 6, 0, 0, 30, 3, 1, 4, 6, 20], need: &["iter_overlap"], ..CBASE }),
            ],
        ),
        prop(
            "C19",
            &[Policy, Count, Capacity],
            "Non-trivial: an entry was evicted for size, a stored entry was read and one was updated.",
            vec![
                polpart!("lru", 130_000, 2_000_000, PBASE),
                polpart!("lru-weights", 90_000, 1_500_000, PProf { weigher: 100, cap: (3, 14), keys: 16, ..PBASE }),
                polpart!("lru-bursts", 20_000, 600_000, PProf { weigher: 50, cap: (8, 60), keys: 120, group: 60, nops: (6, 30), ops: [10, 14, 3, 4, 1, 2, 6, 6, 3, 20, 20], ..PBASE }),
                Part { name: "pending", run: pol::run_pending_lru, quick: 20_000, thorough: 400_000, fresh: false },
            ],
        ),
        prop(
            "C20",
            &[Policy, Count, Capacity],
            "Non-trivial: new keys both won and lost against the least recently used entries.",
            vec![
                polpart!("tinylfu", 130_000, 2_000_000, PProf { lru: false, need: &["candidate_won", "candidate_lost"], ops: [22, 26, 3, 4, 0, 2, 12, 6, 3, 12, 3], ..PBASE }),
                polpart!("tinylfu-weights", 90_000, 1_500_000, PProf { lru: false, weigher: 100, cap: (3, 14), keys: 16, need: &["candidate_won", "candidate_lost"], ops: [22, 26, 3, 4, 0, 2, 12, 6, 3, 12, 3], ..PBASE }),
                polpart!("tinylfu-bursts", 20_000, 600_000, PProf { lru: false, weigher: 40, cap: (6, 16), keys: 24, group: 40, nops: (6, 40), need: &["candidate_won", "candidate_lost"], ops: [10, 14, 3, 4, 0, 2, 8, 4, 3, 24, 10], ..PBASE }),
                Part { name: "scan", run: pol::run_scan, quick: 600, thorough: 6_000, fresh: false },
                Part { name: "pending", run: pol::run_pending_tlfu, quick: 20_000, thorough: 400_000, fresh: false },
                Part { name: "memory", run: pol::run_memory, quick: 20_000, thorough: 300_000, fresh: false },
                Part { name: "extreme", run: pol::run_extreme, quick: 200, thorough: 4_000, fresh: false },
            ],
        ),
        prop(
            "C21",
            &[Leak, Callback],
            "Non-trivial: the history overwrote and removed entries (concurrent parts: operations overlapped).",
            vec![
                seqpart!("seq", 120_000, 2_000_000, Prof { need: &["overwrite", "removed"], ..BASE }),
                seqpart!("bulk", 800, 8_000, Prof { ops: OPS_BULK, nops: (4, 14), inval: 60, cap: [4, 1, 0, 3], need: &["bulk"], ..BASE }),
                concpart!("conc", 130_000, 2_000_000, CBASE),
                concpart!("conc-keys", 60_000, 600_000, CProf { keys: 6, hash_modes: &[0, 1, 2, 4], ..CBASE }),
                concpart!("conc-burst", 2_000, 20_000, CProf { hash_modes: &[0], nops: (1, 4), ops: [20, 14, 3, 6, 8, 3, 3, 3, 8, 5, 10, 10, 20], ..CBASE }),
                concpart!("fine", 60_000, 600_000, CProf { fine: true, ..CBASE }),
                concpart!("fine-keys", 30_000, 300_000, CProf { fine: true, keys: 6, hash_modes: &[0, 1, 2, 4], ..CBASE }),
                concpart!("fine-grow", 20_000, 200_000, CProf { fine: true, hash_modes: &[3], fill: 90, keys: 3, cap: [6, 3, 0, 0], ops: [20, 8, 3, 6, 8, 1, 1, 3, 3, 1, 8, 10, 20], ..CBASE }),
            ],
        ),
        prop(
            "C22",
            &[Differ, Config],
            "Non-trivial: a hit, an insert and a removal of a present key (part builder: every case).",
            vec![
                diffpart!("unbounded", 60_000, 600_000, DProf { tight: false, keys: 10, nops: (10, 60), bulk: false }),
                diffpart!("bulk", 600, 6_000, DProf { tight: false, keys: 600, nops: (6, 30), bulk: true }),
                diffpart!("bounded", 50_000, 500_000, DProf { tight: true, keys: 10, nops: (10, 60), bulk: false }),
                Part { name: "builder", run: diff::run_builder, quick: 20_000, thorough: 200_000, fresh: false },
            ],
        ),
        prop(
            "C23",
            &[],
            "Non-trivial: operations of different threads overlapped.",
            vec![
                concpart!("mixed", 100_000, 1_500_000, CProf { listener: 80, ..CBASE }),
                concpart!("one-key", 70_000, 1_000_000, CProf { keys: 1, listener: 80, fail: 20, ops: [20, 6, 1, 6, 8, 2, 3, 1, 10, 3, 20, 20, 0], ..CBASE }),
                concpart!("burst", 6_000, 60_000, CProf { hash_modes: &[0], nops: (1, 4), listener: 50, ops: [10, 4, 1, 4, 4, 2, 3, 2, 6, 3, 6, 6, 40], ..CBASE }),
                seqpart!("bulk", 800, 8_000, Prof { ops: OPS_BULK, nops: (4, 14), sync_each: 0, inval: 60, cap: [4, 1, 0, 3], need: &["bulk"], ..BASE }),
                seqpart!("update-burst", 300, 3_000, Prof { ops: OPS_UPD, nops: (4, 14), sync_each: 0, cap: [4, 1, 0, 3], need: &["hit"], ..BASE }),
                concpart!("fine", 60_000, 600_000, CProf { fine: true, listener: 80, ..CBASE }),
                concpart!("fine-one-key", 40_000, 400_000, CProf { fine: true, keys: 1, listener: 80, fail: 20, ops: [20, 6, 1, 6, 8, 2, 3, 1, 10, 3, 20, 20, 0], ..CBASE }),
                concpart!("fine-burst", 1_500, 15_000, CProf { fine: true, hash_modes: &[0], nops: (1, 4), listener: 50, ops: [10, 4, 1, 4, 4, 2, 3, 2, 6, 3, 6, 6, 40], ..CBASE }),
                concpart!("fine-flood", 2_000, 20_000, CProf { fine: true, flood: true, kinds: &[2, 2, 0], hash_modes: &[0], nops: (1, 2), listener: 30, prefill: 0, ops: [6, 2, 0, 2, 2, 1, 0, 0, 2, 1, 2, 2, 60], ..CBASE }),
                concpart!("fine-full", 4_000, 100_000, CProf { fine: true, flood: true, kinds: &[2, 2, 2, 0], hash_modes: &[0], nops: (1, 1), listener: 0, cap: [1, 0, 0, 0], prefill: 100, ops: [2, 0, 0, 0, 0, 0, 0, 0, 20, 0, 0, 0, 40], ..CBASE }),
                concpart!("fine-grow", 10_000, 100_000, CProf { fine: true, hash_modes: &[3], fill: 90, keys: 3, cap: [6, 3, 0, 0], ops: [20, 8, 3, 6, 8, 1, 1, 3, 3, 1, 8, 10, 20], ..CBASE }),
            ],
        ),
    ]
}

#[allow(dead_code)]
const _: [u32; 16] = OPS_MIX;
