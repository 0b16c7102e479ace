From 606497a89696f46c324f6c8f0e3a78c800db3ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 01/27] fix: return the key from sync
 entry_by_ref().or_try_insert_with() for an existing entry

---
 src/sync/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index ce25f7c..858cd82 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1419,7 +1419,7 @@ where
         E: Send + Sync + 'static,
         Q: Equivalent<K> + ToOwned<Owned = K> + Hash + ?Sized,
     {
-        if let Some(entry) = self.get_with_hash(key, hash, false) {
+        if let Some(entry) = self.get_with_hash(key, hash, need_key) {
             return Ok(entry);
         }
 
-- 
2.43.0


From 5fe0010ac9bac789fec6c2ebfb1a28c869df382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 02/27] fix: do not return an expired or invalidated value from
 remove and compute

---
 src/future/base_cache.rs | 20 ++++++++++++++++++++
 src/future/cache.rs      |  5 ++++-
 src/sync/base_cache.rs   | 20 ++++++++++++++++++++
 src/sync/cache.rs        |  5 ++++-
 4 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ea2b280..0d31f54 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -240,6 +240,26 @@ where
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
 
+    /// Returns `true` if the entry has been expired or invalidated, but may not have
+    /// been removed from the cache yet.
+    pub(crate) fn is_expired_or_invalidated(
+        &self,
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+        now: Instant,
+    ) -> bool
+    where
+        V: Clone,
+    {
+        let i = &self.inner;
+        let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
+
+        is_expired_by_per_entry_ttl(entry.entry_info(), now)
+            || is_expired_entry_wo(ttl, va, entry, now)
+            || is_expired_entry_ao(tti, va, entry, now)
+            || i.is_invalidated_entry(key, entry)
+    }
+
     pub(crate) async fn get_with_hash<Q, I>(
         &self,
         key: &Q,
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 07eb6e3..5f435fc 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1961,7 +1961,10 @@ where
             Some(kv) => {
                 let now = self.base.current_time();
 
-                let maybe_v = if need_value {
+                // Do not return the value if it has already been expired or invalidated.
+                let maybe_v = if need_value
+                    && !self.base.is_expired_or_invalidated(&kv.key, &kv.entry, now)
+                {
                     Some(kv.entry.value.clone())
                 } else {
                     None
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce1acb7..6938d3b 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -214,6 +214,26 @@ where
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
 
+    /// Returns `true` if the entry has been expired or invalidated, but may not have
+    /// been removed from the cache yet.
+    pub(crate) fn is_expired_or_invalidated(
+        &self,
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+        now: Instant,
+    ) -> bool
+    where
+        V: Clone,
+    {
+        let i = &self.inner;
+        let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
+
+        is_expired_by_per_entry_ttl(entry.entry_info(), now)
+            || is_expired_entry_wo(ttl, va, entry, now)
+            || is_expired_entry_ao(tti, va, entry, now)
+            || i.is_invalidated_entry(key, entry)
+    }
+
     pub(crate) fn get_with_hash<Q>(&self, key: &Q, hash: u64, need_key: bool) -> Option<Entry<K, V>>
     where
         Q: Equivalent<K> + Hash + ?Sized,
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 858cd82..4adfb18 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1616,7 +1616,10 @@ where
                 std::mem::drop(klg);
                 std::mem::drop(kl);
 
-                let maybe_v = if need_value {
+                // Do not return the value if it has already been expired or invalidated.
+                let maybe_v = if need_value
+                    && !self.base.is_expired_or_invalidated(&kv.key, &kv.entry, now)
+                {
                     Some(kv.entry.value.clone())
                 } else {
                     None
-- 
2.43.0


From bcca5baabce8f7e756a40538ecec85d5c1e61473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:09 +0000
Subject: [PATCH 03/27] fix: set is_old_value_replaced in or_insert_with_if,
 and do not evaluate replace_if with a dead value

---
 src/future/base_cache.rs | 10 +++-------
 src/future/cache.rs      | 12 +++++++++++-
 src/sync/base_cache.rs   | 10 +++-------
 src/sync/cache.rs        | 14 ++++++++++++--
 4 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 0d31f54..4c1c8bc 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -285,13 +285,6 @@ where
         let maybe_kv_and_op = self
             .inner
             .get_key_value_and_then(key, hash, move |k, entry| {
-                if let Some(ignore_if) = &mut ignore_if {
-                    if ignore_if(&entry.value) {
-                        // Ignore the entry.
-                        return None;
-                    }
-                }
-
                 let i = &self.inner;
                 let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
 
@@ -302,6 +295,9 @@ where
                 {
                     // Expired or invalidated entry.
                     None
+                } else if ignore_if.as_mut().is_some_and(|f| f(&entry.value)) {
+                    // Ignore the entry.
+                    None
                 } else {
                     // Valid entry.
                     let mut is_expiry_modified = false;
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 5f435fc..eef3e2a 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1575,6 +1575,16 @@ where
         replace_if: Option<impl FnMut(&V) -> bool + Send>,
         need_key: bool,
     ) -> Entry<K, V> {
+        // Remember if there is an old value to be replaced.
+        let mut is_old_value_replaced = false;
+        let replace_if = replace_if.map(|mut f| {
+            let is_replaced = &mut is_old_value_replaced;
+            move |v: &V| {
+                *is_replaced = f(v);
+                *is_replaced
+            }
+        });
+
         let k = if need_key {
             Some(Arc::clone(&key))
         } else {
@@ -1591,7 +1601,7 @@ where
         {
             InitResult::Initialized(v) => {
                 crossbeam_epoch::pin().flush();
-                Entry::new(k, v, true, false)
+                Entry::new(k, v, true, is_old_value_replaced)
             }
             InitResult::ReadExisting(v) => Entry::new(k, v, false, false),
             InitResult::InitErr(_) => unreachable!(),
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 6938d3b..ced533e 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -304,13 +304,6 @@ where
         let maybe_entry = self
             .inner
             .get_key_value_and_then(key, hash, move |k, entry| {
-                if let Some(ignore_if) = &mut ignore_if {
-                    if ignore_if(&entry.value) {
-                        // Ignore the entry.
-                        return None;
-                    }
-                }
-
                 let i = &self.inner;
                 let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
 
@@ -321,6 +314,9 @@ where
                 {
                     // Expired or invalidated entry.
                     None
+                } else if ignore_if.as_mut().is_some_and(|f| f(&entry.value)) {
+                    // Ignore the entry.
+                    None
                 } else {
                     // Valid entry.
                     let maybe_key = if need_key { Some(Arc::clone(k)) } else { None };
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 4adfb18..27306ef 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1023,9 +1023,19 @@ where
         key: Arc<K>,
         hash: u64,
         init: impl FnOnce() -> V,
-        mut replace_if: Option<impl FnMut(&V) -> bool>,
+        replace_if: Option<impl FnMut(&V) -> bool>,
         need_key: bool,
     ) -> Entry<K, V> {
+        // Remember if there is an old value to be replaced.
+        let mut is_old_value_replaced = false;
+        let mut replace_if = replace_if.map(|mut f| {
+            let is_replaced = &mut is_old_value_replaced;
+            move |v: &V| {
+                *is_replaced = f(v);
+                *is_replaced
+            }
+        });
+
         let get = || {
             self.base
                 .get_with_hash_without_recording(&*key, hash, replace_if.as_mut())
@@ -1047,7 +1057,7 @@ where
         {
             InitResult::Initialized(v) => {
                 crossbeam_epoch::pin().flush();
-                Entry::new(k, v, true, false)
+                Entry::new(k, v, true, is_old_value_replaced)
             }
             InitResult::ReadExisting(v) => Entry::new(k, v, false, false),
             InitResult::InitErr(_) => unreachable!(),
-- 
2.43.0


From 49034f82befa3edc73bd5f616abc9a4e2ba0d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:09 +0000
Subject: [PATCH 04/27] fix: do not skip entries when invalidate_entries_if
 scans the write order queue

---
 src/future/base_cache.rs  | 19 +++++++++++++------
 src/future/invalidator.rs |  6 ++++++
 src/sync/base_cache.rs    | 19 +++++++++++++------
 src/sync/invalidator.rs   |  6 ++++++
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 4c1c8bc..5cbaee4 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2389,11 +2389,20 @@ where
             return;
         }
 
+        // If we are going to start a new scan, start it from the head of the queue.
+        let is_new_scan = !invalidator.is_scanning().await;
+        if is_new_scan {
+            deqs.write_order.reset_cursor();
+        }
+
         let mut candidates = Vec::default();
         let mut len = 0;
-        let has_next;
+        // This will be `false` if we have reached the end of the queue. NOTE: Do not
+        // peek the next entry (e.g. using `Peekable`). Doing so will advance the
+        // cursor of the queue and the peeked entry will be never scanned.
+        let mut is_truncated = true;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2406,18 +2415,16 @@ where
                         }
                     }
                 } else {
+                    is_truncated = false;
                     break;
                 }
             }
-
-            has_next = iter.peek().is_some();
         }
 
-        if len == 0 {
+        if len == 0 && is_new_scan {
             return;
         }
 
-        let is_truncated = len == batch_size && has_next;
         let (invalidated, is_done) = invalidator
             .scan_and_invalidate(self, candidates, is_truncated)
             .await;
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5c48cd1..e8b7700 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -160,6 +160,12 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
     }
 
+    /// Returns `true` if there is a scan that has not reached the end of the write
+    /// order queue yet.
+    pub(crate) async fn is_scanning(&self) -> bool {
+        !self.scan_context.predicates.lock().await.is_empty()
+    }
+
     pub(crate) async fn scan_and_invalidate(
         &self,
         cache: &Inner<K, V, S>,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ced533e..331bc3f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -2192,11 +2192,20 @@ where
             return;
         }
 
+        // If we are going to start a new scan, start it from the head of the queue.
+        let is_new_scan = !invalidator.is_scanning();
+        if is_new_scan {
+            deqs.write_order.reset_cursor();
+        }
+
         let mut candidates = Vec::new();
         let mut len = 0;
-        let has_next;
+        // This will be `false` if we have reached the end of the queue. NOTE: Do not
+        // peek the next entry (e.g. using `Peekable`). Doing so will advance the
+        // cursor of the queue and the peeked entry will be never scanned.
+        let mut is_truncated = true;
         {
-            let iter = &mut deqs.write_order.peekable();
+            let mut iter = &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2209,18 +2218,16 @@ where
                         }
                     }
                 } else {
+                    is_truncated = false;
                     break;
                 }
             }
-
-            has_next = iter.peek().is_some();
         }
 
-        if len == 0 {
+        if len == 0 && is_new_scan {
             return;
         }
 
-        let is_truncated = len == batch_size && has_next;
         let (invalidated, is_done) =
             invalidator.scan_and_invalidate(self, candidates, is_truncated);
 
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index f5ff7dc..b3c1bdc 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -160,6 +160,12 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
     }
 
+    /// Returns `true` if there is a scan that has not reached the end of the write
+    /// order queue yet.
+    pub(crate) fn is_scanning(&self) -> bool {
+        !self.scan_context.predicates.lock().is_empty()
+    }
+
     pub(crate) fn scan_and_invalidate(
         &self,
         cache: &Inner<K, V, S>,
-- 
2.43.0


From 560b3274aea3ebc7ce081f1d730ce7aed23d06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 05/27] fix: handle wrap-around of the generations in
 EntryInfo::set_policy_gen

---
 src/common/concurrent/entry_info.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 8791a0d..20b069a 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -105,11 +105,12 @@ impl<K> EntryInfo<K> {
         loop {
             let current = g.load(Ordering::Acquire);
 
-            // Do not set the given value if it is smaller than the current value of
-            // `policy_gen`. Note that the current value may have been wrapped
-            // around. If the value is much larger than the current value, it is
-            // likely that the value of `policy_gen` has been wrapped around.
-            if current >= value || value.wrapping_sub(current) > u16::MAX / 2 {
+            // Do not set the given value if it is equal to or older than the current
+            // value of `policy_gen`. Note that the values wrap around on overflow,
+            // so compare them using the wrapping distance between them; if the
+            // distance is too long, it is likely that `value` is older than
+            // `current`.
+            if value == current || value.wrapping_sub(current) > u16::MAX / 2 {
                 break;
             }
 
-- 
2.43.0


From bf5dbd06449a5e19459e3593b72600595ddd218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:11 +0000
Subject: [PATCH 06/27] fix: stop calling the eviction listener of a
 SegmentedCache from all segments once it has panicked

---
 src/sync/segment.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/sync/segment.rs b/src/sync/segment.rs
index a9935f6..1951107 100644
--- a/src/sync/segment.rs
+++ b/src/sync/segment.rs
@@ -17,7 +17,10 @@ use std::{
     collections::hash_map::RandomState,
     fmt,
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Arc,
+    },
 };
 
 /// A thread-safe concurrent in-memory cache, with multiple internal segments.
@@ -692,6 +695,30 @@ struct Inner<K, V, S> {
     segment_shift: u32,
 }
 
+/// Wraps the eviction listener so that it will never be called again, by any segment,
+/// once it has panicked.
+fn disable_when_panicked<K, V>(listener: EvictionListener<K, V>) -> EvictionListener<K, V>
+where
+    K: Send + Sync + 'static,
+    V: Send + Sync + 'static,
+{
+    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
+
+    let is_enabled = AtomicBool::new(true);
+    Arc::new(move |key, value, cause| {
+        if !is_enabled.load(Ordering::Acquire) {
+            return;
+        }
+        // Safety: It is safe to assert unwind safety here because we will not call
+        // the listener again if it has panicked.
+        if let Err(payload) = catch_unwind(AssertUnwindSafe(|| listener(key, value, cause))) {
+            is_enabled.store(false, Ordering::Release);
+            // Let the removal notifier of the segment handle (log) the panic.
+            resume_unwind(payload);
+        }
+    })
+}
+
 impl<K, V, S> Inner<K, V, S>
 where
     K: Hash + Eq + Send + Sync + 'static,
@@ -724,6 +751,10 @@ where
             max_capacity.map(|n| (n as f64 / actual_num_segments as f64).ceil() as u64);
         let seg_init_capacity =
             initial_capacity.map(|cap| (cap as f64 / actual_num_segments as f64).ceil() as usize);
+        // Each segment has its own removal notifier, which disables only itself when
+        // the listener panics. Ensure that the listener will not be called by other
+        // segments after that.
+        let eviction_listener = eviction_listener.map(disable_when_panicked);
         // NOTE: We cannot initialize the segments as `vec![cache; actual_num_segments]`
         // because Cache::clone() does not clone its inner but shares the same inner.
         let segments = (0..actual_num_segments)
-- 
2.43.0


From 0808bc6645271ae315ab79780caef18ffdf5a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:09 +0000
Subject: [PATCH 07/27] fix: ignore superseded write operations and keep the
 weighted size consistent with the admitted entries

---
 src/common/concurrent.rs            |  5 -----
 src/common/concurrent/entry_info.rs | 29 +++++++++++++++++++-----
 src/future/base_cache.rs            | 34 +++++++++++++++++------------
 src/sync/base_cache.rs              | 34 +++++++++++++++++------------
 4 files changed, 64 insertions(+), 38 deletions(-)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index eb8fec4..133e9d5 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -315,7 +315,6 @@ pub(crate) enum WriteOp<K, V> {
         value_entry: MiniArc<ValueEntry<K, V>>,
         /// Entry generation after the operation.
         entry_gen: u16,
-        old_weight: u32,
         new_weight: u32,
     },
     Remove {
@@ -333,13 +332,11 @@ impl<K, V> Clone for WriteOp<K, V> {
                 key_hash,
                 value_entry,
                 entry_gen,
-                old_weight,
                 new_weight,
             } => Self::Upsert {
                 key_hash: key_hash.clone(),
                 value_entry: MiniArc::clone(value_entry),
                 entry_gen: *entry_gen,
-                old_weight: *old_weight,
                 new_weight: *new_weight,
             },
             Self::Remove {
@@ -368,7 +365,6 @@ impl<K, V> WriteOp<K, V> {
         hash: u64,
         value_entry: &MiniArc<ValueEntry<K, V>>,
         entry_generation: u16,
-        old_weight: u32,
         new_weight: u32,
     ) -> Self {
         let key_hash = KeyHash::new(Arc::clone(key), hash);
@@ -377,7 +373,6 @@ impl<K, V> WriteOp<K, V> {
             key_hash,
             value_entry,
             entry_gen: entry_generation,
-            old_weight,
             new_weight,
         }
     }
diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 20b069a..eb3400a 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -106,11 +106,8 @@ impl<K> EntryInfo<K> {
             let current = g.load(Ordering::Acquire);
 
             // Do not set the given value if it is equal to or older than the current
-            // value of `policy_gen`. Note that the values wrap around on overflow,
-            // so compare them using the wrapping distance between them; if the
-            // distance is too long, it is likely that `value` is older than
-            // `current`.
-            if value == current || value.wrapping_sub(current) > u16::MAX / 2 {
+            // value of `policy_gen`.
+            if !Self::is_newer_gen(value, current) {
                 break;
             }
 
@@ -123,11 +120,33 @@ impl<K> EntryInfo<K> {
         }
     }
 
+    /// Returns `true` if the `WriteOp` having the given generation has already been
+    /// superseded; a `WriteOp` having the same or a newer generation has been applied
+    /// to the cache policies, or the entry has been removed from the cache policies.
+    #[inline]
+    pub(crate) fn is_superseded(&self, gen: u16) -> bool {
+        !Self::is_newer_gen(gen, self.policy_gen.load(Ordering::Acquire))
+    }
+
+    /// Returns `true` if the generation `value` is newer than the generation
+    /// `current`. Note that the generations wrap around on overflow, so compare them
+    /// using the wrapping distance between them; if the distance is too long, it is
+    /// likely that `value` is older than `current`.
+    #[inline]
+    fn is_newer_gen(value: u16, current: u16) -> bool {
+        value != current && value.wrapping_sub(current) <= u16::MAX / 2
+    }
+
+    /// Returns the policy weight of the entry that is known to the cache policies.
+    /// When the entry is admitted, the weighted size of the cache includes this
+    /// weight.
     #[inline]
     pub(crate) fn policy_weight(&self) -> u32 {
         self.policy_weight.load(Ordering::Acquire)
     }
 
+    /// Sets the policy weight. This should be called only when a `WriteOp` is applied
+    /// to the cache policies.
     pub(crate) fn set_policy_weight(&self, size: u32) {
         self.policy_weight.store(size, Ordering::Release);
     }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 5cbaee4..88087c3 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -531,21 +531,19 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
                 op1 = Some((cnt, ins_op));
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
-                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
                 op2 = Some((cnt, old_info, upd_op));
                 entry
@@ -784,7 +782,6 @@ impl<K, V, S> BaseCache<K, V, S> {
         &self,
         value: V,
         timestamp: Instant,
-        policy_weight: u32,
         other: &ValueEntry<K, V>,
     ) -> (MiniArc<ValueEntry<K, V>>, u16) {
         let info = MiniArc::clone(other.entry_info());
@@ -793,7 +790,6 @@ impl<K, V, S> BaseCache<K, V, S> {
         let gen = info.incr_entry_gen();
         info.set_last_accessed(timestamp);
         info.set_last_modified(timestamp);
-        info.set_policy_weight(policy_weight);
         (MiniArc::new(ValueEntry::new_from(value, info, other)), gen)
     }
 
@@ -1576,14 +1572,12 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => {
                     self.handle_upsert(
                         kh,
                         entry,
                         gen,
-                        old_weight,
                         new_weight,
                         deqs,
                         timer_wheel,
@@ -1615,7 +1609,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1624,13 +1617,21 @@ where
     ) where
         V: Clone,
     {
+        // Do nothing if this operation has already been superseded. Note that the
+        // order of the operations in the write op channel may be different from the
+        // order in which they were applied to the concurrent hash table.
+        if entry.entry_info().is_superseded(gen) {
+            return;
+        }
+
         {
             let counters = &mut eviction_state.counters;
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
+                counters.saturating_sub(0, entry.policy_weight());
                 counters.saturating_add(0, new_weight);
+                entry.entry_info().set_policy_weight(new_weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1879,6 +1880,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_policy_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1990,9 +1992,10 @@ where
         } else {
             entry.unset_q_nodes();
         }
-        if let Some(g) = gen {
-            entry.entry_info().set_policy_gen(g);
-        }
+        // If `gen` is `None`, the entry has been removed by the cache policies. In
+        // this case, the pending operations for the entry are superseded.
+        let gen = gen.unwrap_or_else(|| entry.entry_info().entry_gen());
+        entry.entry_info().set_policy_gen(gen);
     }
 
     fn handle_remove_with_deques(
@@ -2020,6 +2023,9 @@ where
         } else {
             entry.unset_q_nodes();
         }
+        // The pending operations for the removed entry are superseded.
+        let info = entry.entry_info();
+        info.set_policy_gen(info.entry_gen());
     }
 
     async fn evict_expired_entries_using_timers(
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 331bc3f..fb24aa6 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -531,21 +531,19 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
                 op1 = Some((cnt, ins_op));
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
-                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
                 op2 = Some((cnt, old_info, upd_op));
                 entry
@@ -654,7 +652,6 @@ impl<K, V, S> BaseCache<K, V, S> {
         &self,
         value: V,
         timestamp: Instant,
-        policy_weight: u32,
         other: &ValueEntry<K, V>,
     ) -> (MiniArc<ValueEntry<K, V>>, u16) {
         let info = MiniArc::clone(other.entry_info());
@@ -663,7 +660,6 @@ impl<K, V, S> BaseCache<K, V, S> {
         let gen = info.incr_entry_gen();
         info.set_last_accessed(timestamp);
         info.set_last_modified(timestamp);
-        info.set_policy_weight(policy_weight);
         (MiniArc::new(ValueEntry::new_from(value, info, other)), gen)
     }
 
@@ -1428,13 +1424,11 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => self.handle_upsert(
                     kh,
                     entry,
                     gen,
-                    old_weight,
                     new_weight,
                     deqs,
                     timer_wheel,
@@ -1464,7 +1458,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1473,13 +1466,21 @@ where
     ) where
         V: Clone,
     {
+        // Do nothing if this operation has already been superseded. Note that the
+        // order of the operations in the write op channel may be different from the
+        // order in which they were applied to the concurrent hash table.
+        if entry.entry_info().is_superseded(gen) {
+            return;
+        }
+
         {
             let counters = &mut eviction_state.counters;
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
+                counters.saturating_sub(0, entry.policy_weight());
                 counters.saturating_add(0, new_weight);
+                entry.entry_info().set_policy_weight(new_weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1714,6 +1715,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_policy_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1826,9 +1828,10 @@ where
         } else {
             entry.unset_q_nodes();
         }
-        if let Some(g) = gen {
-            entry.entry_info().set_policy_gen(g);
-        }
+        // If `gen` is `None`, the entry has been removed by the cache policies. In
+        // this case, the pending operations for the entry are superseded.
+        let gen = gen.unwrap_or_else(|| entry.entry_info().entry_gen());
+        entry.entry_info().set_policy_gen(gen);
     }
 
     fn handle_remove_with_deques(
@@ -1856,6 +1859,9 @@ where
         } else {
             entry.unset_q_nodes();
         }
+        // The pending operations for the removed entry are superseded.
+        let info = entry.entry_info();
+        info.set_policy_gen(info.entry_gen());
     }
 
     fn evict_expired_entries_using_timers(
-- 
2.43.0


From fde46eac510af7fa4d854282a1fd25c34fc08a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:05 +0000
Subject: [PATCH 08/27] fix: do not move timestamps back when they are set by
 multiple threads

---
 src/common/time/atomic_time.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a4870bc..61ee2a7 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -47,11 +47,19 @@ impl AtomicInstant {
         }
     }
 
-    /// Sets the `Instant`.
+    /// Sets the `Instant` if it is unset or is earlier than the given one. The `Instant`
+    /// will never go back even if other thread sets a later one at the same time.
     pub(crate) fn set_instant(&self, instant: Instant) {
         // Ensure the `Instant` is not `u64::MAX`, which means unset.
         debug_assert!(instant.as_nanos() != u64::MAX);
 
-        self.instant.store(instant.as_nanos(), Ordering::Release);
+        let nanos = instant.as_nanos();
+        // This will return an `Err` when the current `Instant` is not earlier than the
+        // given one. We can ignore it.
+        let _ = self
+            .instant
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                (current == u64::MAX || current < nanos).then_some(nanos)
+            });
     }
 }
-- 
2.43.0


From 63de0d04c6f443b3ae7f456f15d9173e6604b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:29 +0000
Subject: [PATCH 09/27] fix: do not return an invalidated or expired value when
 the entry is being updated by other thread

---
 src/common/concurrent.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index 133e9d5..4207971 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -173,6 +173,10 @@ impl<K> DeqNodes<K> {
 pub(crate) struct ValueEntry<K, V> {
     pub(crate) value: V,
     info: MiniArc<EntryInfo<K>>,
+    /// The time when this `value` was written. Unlike the one in the `EntryInfo`, which
+    /// is shared with the `ValueEntry` that will replace this one, this does not change
+    /// when the cache entry is being updated.
+    last_modified: Option<Instant>,
     nodes: MiniArc<Mutex<DeqNodes<K>>>,
 }
 
@@ -183,6 +187,7 @@ impl<K, V> ValueEntry<K, V> {
 
         Self {
             value,
+            last_modified: entry_info.last_modified(),
             info: entry_info,
             nodes: MiniArc::new(Mutex::new(DeqNodes::default())),
         }
@@ -193,6 +198,7 @@ impl<K, V> ValueEntry<K, V> {
         self::debug_counters::InternalGlobalDebugCounters::value_entry_created();
         Self {
             value,
+            last_modified: entry_info.last_modified(),
             info: entry_info,
             nodes: MiniArc::clone(&other.nodes),
         }
@@ -291,7 +297,7 @@ impl<K, V> AccessTime for MiniArc<ValueEntry<K, V>> {
 
     #[inline]
     fn last_modified(&self) -> Option<Instant> {
-        self.info.last_modified()
+        self.last_modified
     }
 
     #[inline]
-- 
2.43.0


From 8e020a8c778b6f63a99f4daa8764e7c68449d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:42 +0000
Subject: [PATCH 10/27] fix: check the validity of the entry removed by remove
 and compute before removing it

---
 src/cht/segment.rs       | 11 -----------
 src/future/base_cache.rs | 41 ++++++++++++++++++++++++++++++++++------
 src/future/cache.rs      |  8 +++-----
 src/sync/base_cache.rs   | 41 ++++++++++++++++++++++++++++++++++------
 src/sync/cache.rs        |  8 +++-----
 5 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index 8a0bbec..bf70e0e 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -334,17 +334,6 @@ impl<K: Hash + Eq, V, S: BuildHasher> HashMap<K, V, S> {
         self.remove_entry_if_and(hash, eq, |_, _| true, |_, v| v.clone())
     }
 
-    /// Removes a key from the map, returning a clone of the key-value pair
-    /// previously corresponding to the key.
-    #[inline]
-    pub(crate) fn remove_entry(&self, hash: u64, eq: impl FnMut(&K) -> bool) -> Option<(K, V)>
-    where
-        K: Clone,
-        V: Clone,
-    {
-        self.remove_entry_if_and(hash, eq, |_, _| true, |k, v| (k.clone(), v.clone()))
-    }
-
     /// Removes a key from the map if a condition is met, returning a clone of
     /// the value previously corresponding to the key.
     ///
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 88087c3..b11bdcc 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -388,11 +388,29 @@ where
     }
 
     #[inline]
-    pub(crate) fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    /// Removes the entry for the key, and returns it with a `bool` telling if it has
+    /// been expired or invalidated (`true`) when it was removed.
+    ///
+    /// If `check_validity` is `false`, the `bool` will be always `true`.
+    pub(crate) fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        check_validity: bool,
+    ) -> Option<(KvEntry<K, V>, bool)>
     where
         Q: Equivalent<K> + Hash + ?Sized,
+        V: Clone,
     {
-        self.inner.remove_entry(key, hash)
+        let mut is_dead = true;
+        // NOTE: Check it before removing the entry. If we did it after that, other
+        // thread might see that the entry was removed, and then invalidate it.
+        let kv = self.inner.remove_entry(key, hash, |k, entry| {
+            if check_validity {
+                is_dead = self.is_expired_or_invalidated(k, entry, self.current_time());
+            }
+        })?;
+        Some((kv, is_dead))
     }
 
     #[inline]
@@ -1249,13 +1267,24 @@ where
     }
 
     #[inline]
-    fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        mut before_remove: impl FnMut(&Arc<K>, &MiniArc<ValueEntry<K, V>>),
+    ) -> Option<KvEntry<K, V>>
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
-        self.cache
-            .remove_entry(hash, |k| key.equivalent(k as &K))
-            .map(|(key, entry)| KvEntry::new(key, entry))
+        self.cache.remove_entry_if_and(
+            hash,
+            |k| key.equivalent(k as &K),
+            |k, entry| {
+                before_remove(k, entry);
+                true
+            },
+            |k, entry| KvEntry::new(Arc::clone(k), MiniArc::clone(entry)),
+        )
     }
 
     fn keys(&self, cht_segment: usize) -> Option<Vec<Arc<K>>> {
diff --git a/src/future/cache.rs b/src/future/cache.rs
index eef3e2a..ceb172e 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1966,15 +1966,13 @@ where
             }
         }
 
-        match self.base.remove_entry(key, hash) {
+        match self.base.remove_entry(key, hash, need_value) {
             None => None,
-            Some(kv) => {
+            Some((kv, is_dead)) => {
                 let now = self.base.current_time();
 
                 // Do not return the value if it has already been expired or invalidated.
-                let maybe_v = if need_value
-                    && !self.base.is_expired_or_invalidated(&kv.key, &kv.entry, now)
-                {
+                let maybe_v = if need_value && !is_dead {
                     Some(kv.entry.value.clone())
                 } else {
                     None
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index fb24aa6..47d16cf 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -394,11 +394,29 @@ where
     }
 
     #[inline]
-    pub(crate) fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    /// Removes the entry for the key, and returns it with a `bool` telling if it has
+    /// been expired or invalidated (`true`) when it was removed.
+    ///
+    /// If `check_validity` is `false`, the `bool` will be always `true`.
+    pub(crate) fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        check_validity: bool,
+    ) -> Option<(KvEntry<K, V>, bool)>
     where
         Q: Equivalent<K> + Hash + ?Sized,
+        V: Clone,
     {
-        self.inner.remove_entry(key, hash)
+        let mut is_dead = true;
+        // NOTE: Check it before removing the entry. If we did it after that, other
+        // thread might see that the entry was removed, and then invalidate it.
+        let kv = self.inner.remove_entry(key, hash, |k, entry| {
+            if check_validity {
+                is_dead = self.is_expired_or_invalidated(k, entry, self.current_time());
+            }
+        })?;
+        Some((kv, is_dead))
     }
 
     #[inline]
@@ -1105,13 +1123,24 @@ where
     }
 
     #[inline]
-    fn remove_entry<Q>(&self, key: &Q, hash: u64) -> Option<KvEntry<K, V>>
+    fn remove_entry<Q>(
+        &self,
+        key: &Q,
+        hash: u64,
+        mut before_remove: impl FnMut(&Arc<K>, &MiniArc<ValueEntry<K, V>>),
+    ) -> Option<KvEntry<K, V>>
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
-        self.cache
-            .remove_entry(hash, |k| key.equivalent(k as &K))
-            .map(|(key, entry)| KvEntry::new(key, entry))
+        self.cache.remove_entry_if_and(
+            hash,
+            |k| key.equivalent(k as &K),
+            |k, entry| {
+                before_remove(k, entry);
+                true
+            },
+            |k, entry| KvEntry::new(Arc::clone(k), MiniArc::clone(entry)),
+        )
     }
 
     fn keys(&self, cht_segment: usize) -> Option<Vec<Arc<K>>> {
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 27306ef..fbb2e6d 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1608,9 +1608,9 @@ where
             }
         }
 
-        match self.base.remove_entry(key, hash) {
+        match self.base.remove_entry(key, hash, need_value) {
             None => None,
-            Some(kv) => {
+            Some((kv, is_dead)) => {
                 let now = self.base.current_time();
 
                 let info = kv.entry.entry_info();
@@ -1627,9 +1627,7 @@ where
                 std::mem::drop(kl);
 
                 // Do not return the value if it has already been expired or invalidated.
-                let maybe_v = if need_value
-                    && !self.base.is_expired_or_invalidated(&kv.key, &kv.entry, now)
-                {
+                let maybe_v = if need_value && !is_dead {
                     Some(kv.entry.value.clone())
                 } else {
                     None
-- 
2.43.0


From 58ac5205005ca59148979eb3b7c87db0fa41efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:43 +0000
Subject: [PATCH 11/27] fix: do not remove an entry without the key lock when
 the eviction listener is set

---
 src/future/cache.rs | 29 +++++++++++------------------
 src/sync/cache.rs   | 21 +++++++--------------
 2 files changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/future/cache.rs b/src/future/cache.rs
index ceb172e..2b75180 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1946,24 +1946,17 @@ where
         let mut kl = None;
         let mut klg = None;
         if self.base.is_removal_notifier_enabled() {
-            // To lock the key, we have to get Arc<K> for key (&Q).
-            //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = if let Some(lock) = &kl {
-                    Some(lock.lock().await)
-                } else {
-                    None
-                };
-            }
+            // To lock the key, we have to get Arc<K> for key (&Q). If the key does not
+            // exist, there is nothing to remove. Return here so that we will never
+            // remove, without the key lock, an entry inserted by somebody else (other
+            // thread) after that.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = if let Some(lock) = &kl {
+                Some(lock.lock().await)
+            } else {
+                None
+            };
         }
 
         match self.base.remove_entry(key, hash, need_value) {
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index fbb2e6d..ba3fefb 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1592,20 +1592,13 @@ where
         let mut kl = None;
         let mut klg = None;
         if self.base.is_removal_notifier_enabled() {
-            // To lock the key, we have to get Arc<K> for key (&Q).
-            //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = kl.as_ref().map(|kl| kl.lock());
-            }
+            // To lock the key, we have to get Arc<K> for key (&Q). If the key does not
+            // exist, there is nothing to remove. Return here so that we will never
+            // remove, without the key lock, an entry inserted by somebody else (other
+            // thread) after that.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = kl.as_ref().map(|kl| kl.lock());
         }
 
         match self.base.remove_entry(key, hash, need_value) {
-- 
2.43.0


From 91d0a603d48a2957ea6b7cb3c25bc4574f2500d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:47 +0000
Subject: [PATCH 12/27] fix: do not hand out a key lock that is being removed
 from the lock map

---
 src/common/concurrent/arc.rs |  1 +
 src/future/key_lock.rs       | 89 ++++++++++++++++++++++++++++--------
 src/sync/key_lock.rs         | 89 ++++++++++++++++++++++++++++--------
 3 files changed, 143 insertions(+), 36 deletions(-)

diff --git a/src/common/concurrent/arc.rs b/src/common/concurrent/arc.rs
index 0e70664..b75ef4a 100644
--- a/src/common/concurrent/arc.rs
+++ b/src/common/concurrent/arc.rs
@@ -73,6 +73,7 @@ impl<T> MiniArc<T> {
 
 impl<T: ?Sized> MiniArc<T> {
     /// Gets the number of [`MiniArc`] pointers to this allocation
+    #[cfg(test)]
     pub(crate) fn count(this: &Self) -> u32 {
         use atomic::Ordering::Acquire;
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 1365937..f6a4aab 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -1,6 +1,9 @@
 use std::{
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicU32, Ordering},
+        Arc,
+    },
 };
 
 use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
@@ -9,7 +12,46 @@ use async_lock::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Lock>, S>;
+
+struct Lock {
+    mutex: Mutex<()>,
+    /// The number of the `KeyLock`s sharing this `Lock`. Once it becomes zero, this
+    /// `Lock` is being removed from the lock map and must not be shared anymore.
+    users: AtomicU32,
+}
+
+impl Lock {
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::new(()),
+            users: AtomicU32::new(1),
+        }
+    }
+
+    /// Tries to join to the users of this `Lock`. Returns `false` if this `Lock` has
+    /// been abandoned by its last user.
+    fn try_join(&self) -> bool {
+        let mut users = self.users.load(Ordering::Acquire);
+        while users > 0 {
+            match self.users.compare_exchange_weak(
+                users,
+                users + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(current) => users = current,
+            }
+        }
+        false
+    }
+
+    /// Leaves from the users of this `Lock`. Returns `true` if it was the last user.
+    fn leave(&self) -> bool {
+        self.users.fetch_sub(1, Ordering::AcqRel) == 1
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +62,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<Lock>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,12 +71,8 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
-            self.map.remove_if(
-                self.hash,
-                |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
-            );
+        if self.lock.leave() {
+            remove_lock(self.map, &self.key, self.hash, &self.lock);
         }
     }
 }
@@ -44,7 +82,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Lock>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -54,10 +92,18 @@ where
     }
 
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock().await
+        self.lock.mutex.lock().await
     }
 }
 
+fn remove_lock<K, S>(map: &LockMap<K, S>, key: &Arc<K>, hash: u64, lock: &MiniArc<Lock>)
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    map.remove_if(hash, |k| k == key, |_k, v| MiniArc::ptr_eq(v, lock));
+}
+
 pub(crate) struct KeyLockMap<K, S> {
     locks: LockMap<K, S>,
 }
@@ -75,13 +121,20 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(Lock::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) if existing_kl.try_join() => {
+                    return KeyLock::new(&self.locks, key, hash, existing_kl)
+                }
+                // The existing lock has been abandoned by its last user, but not yet
+                // removed. Remove it and retry.
+                Some(existing_kl) => remove_lock(&self.locks, key, hash, &existing_kl),
+            }
         }
     }
 }
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index bde1912..8fee683 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -1,6 +1,9 @@
 use std::{
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicU32, Ordering},
+        Arc,
+    },
 };
 
 use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
@@ -9,7 +12,46 @@ use parking_lot::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Lock>, S>;
+
+struct Lock {
+    mutex: Mutex<()>,
+    /// The number of the `KeyLock`s sharing this `Lock`. Once it becomes zero, this
+    /// `Lock` is being removed from the lock map and must not be shared anymore.
+    users: AtomicU32,
+}
+
+impl Lock {
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::new(()),
+            users: AtomicU32::new(1),
+        }
+    }
+
+    /// Tries to join to the users of this `Lock`. Returns `false` if this `Lock` has
+    /// been abandoned by its last user.
+    fn try_join(&self) -> bool {
+        let mut users = self.users.load(Ordering::Acquire);
+        while users > 0 {
+            match self.users.compare_exchange_weak(
+                users,
+                users + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(current) => users = current,
+            }
+        }
+        false
+    }
+
+    /// Leaves from the users of this `Lock`. Returns `true` if it was the last user.
+    fn leave(&self) -> bool {
+        self.users.fetch_sub(1, Ordering::AcqRel) == 1
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +62,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<Lock>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,12 +71,8 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
-            self.map.remove_if(
-                self.hash,
-                |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
-            );
+        if self.lock.leave() {
+            remove_lock(self.map, &self.key, self.hash, &self.lock);
         }
     }
 }
@@ -44,7 +82,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Lock>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -54,10 +92,18 @@ where
     }
 
     pub(crate) fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock()
+        self.lock.mutex.lock()
     }
 }
 
+fn remove_lock<K, S>(map: &LockMap<K, S>, key: &Arc<K>, hash: u64, lock: &MiniArc<Lock>)
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    map.remove_if(hash, |k| k == key, |_k, v| MiniArc::ptr_eq(v, lock));
+}
+
 pub(crate) struct KeyLockMap<K, S> {
     locks: LockMap<K, S>,
 }
@@ -75,13 +121,20 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(Lock::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) if existing_kl.try_join() => {
+                    return KeyLock::new(&self.locks, key, hash, existing_kl)
+                }
+                // The existing lock has been abandoned by its last user, but not yet
+                // removed. Remove it and retry.
+                Some(existing_kl) => remove_lock(&self.locks, key, hash, &existing_kl),
+            }
         }
     }
 }
-- 
2.43.0


From 38390b2832a6ca106db8fcc95dba0ec1e04746f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 13/27] fix: do not lose a predicate registered while other
 predicates are being removed

---
 src/future/invalidator.rs | 18 ++----------------
 src/sync/invalidator.rs   | 18 ++----------------
 2 files changed, 4 insertions(+), 32 deletions(-)

diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index e8b7700..917cb87 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -11,10 +11,7 @@ use crate::{
 use async_lock::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::Arc,
 };
 use uuid::Uuid;
 
@@ -50,7 +47,6 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -70,13 +66,12 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.predicates.is_empty()
     }
 
     pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
@@ -97,10 +92,6 @@ impl<K, V, S> Invalidator<K, V, S> {
             let hash = pred_map.hash(&id);
             pred_map.remove(hash, |k| k == &id);
         }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
-        }
     }
 
     pub(crate) fn register_predicate(
@@ -127,7 +118,6 @@ impl<K, V, S> Invalidator<K, V, S> {
             }
             let pred = Predicate::new(&id, predicate, registered_at);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -266,10 +256,6 @@ where
             let hash = pred_map.hash(p.id());
             pred_map.remove(hash, |k| k == p.id());
         }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
-        }
     }
 
     fn apply(
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index b3c1bdc..21a105e 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -11,10 +11,7 @@ use crate::{
 use parking_lot::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::Arc,
 };
 use uuid::Uuid;
 
@@ -50,7 +47,6 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -70,13 +66,12 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.predicates.is_empty()
     }
 
     pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
@@ -97,10 +92,6 @@ impl<K, V, S> Invalidator<K, V, S> {
             let hash = pred_map.hash(&id);
             pred_map.remove(hash, |k| k == &id);
         }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
-        }
     }
 
     pub(crate) fn register_predicate(
@@ -127,7 +118,6 @@ impl<K, V, S> Invalidator<K, V, S> {
             }
             let pred = Predicate::new(&id, predicate, registered_at);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -266,10 +256,6 @@ where
             let hash = pred_map.hash(p.id());
             pred_map.remove(hash, |k| k == p.id());
         }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
-        }
     }
 
     fn apply(
-- 
2.43.0


From 82cde1a6a0bb8f4fcc8afc39dbf8ca416d7c7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:22 +0000
Subject: [PATCH 14/27] fix: do not remove a predicate before it is applied to
 all the entries inserted before it

---
 src/future/base_cache.rs  | 30 +++++++++++++-----------
 src/future/invalidator.rs | 48 +++++++++++++++++++--------------------
 src/sync/base_cache.rs    | 30 +++++++++++++-----------
 src/sync/invalidator.rs   | 48 +++++++++++++++++++--------------------
 4 files changed, 82 insertions(+), 74 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index b11bdcc..797f994 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1354,6 +1354,8 @@ where
             None
         };
         let mut should_process_logs = true;
+        // The time before which all the completed writes have been applied.
+        let mut synced_at = self.current_time();
         let mut calls = 0u32;
         let current_ec = self.entry_count.load();
         let current_ws = self.weighted_size.load();
@@ -1367,6 +1369,7 @@ where
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
                 }
 
+                synced_at = self.current_time();
                 let w_len = self.write_op_ch.len();
                 if w_len > 0 {
                     self.apply_writes(&mut deqs, &mut timer_wheel, w_len, &mut eviction_state)
@@ -1430,6 +1433,7 @@ where
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
+                        synced_at,
                         &mut eviction_state,
                     )
                     .await;
@@ -2411,16 +2415,15 @@ where
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
+        synced_at: Instant,
         eviction_state: &mut EvictionState<'_, K, V>,
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // that have been registered by `synced_at`.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.remove_predicates_registered_before(synced_at);
             return;
         }
 
@@ -2441,14 +2444,15 @@ where
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
-                    if !kd.is_dirty() {
-                        if let Some(ts) = kd.last_modified() {
-                            let key = kd.key();
-                            let hash = self.hash(&**key);
-                            candidates.push(KeyDateLite::new(key, hash, ts));
-                            len += 1;
-                        }
-                    }
+                    let ts = if kd.is_dirty() {
+                        None
+                    } else {
+                        kd.last_modified()
+                    };
+                    let key = kd.key();
+                    let hash = self.hash(&**key);
+                    candidates.push(KeyDateLite::new(key, hash, ts));
+                    len += 1;
                 } else {
                     is_truncated = false;
                     break;
@@ -2461,7 +2465,7 @@ where
         }
 
         let (invalidated, is_done) = invalidator
-            .scan_and_invalidate(self, candidates, is_truncated)
+            .scan_and_invalidate(self, candidates, is_truncated, synced_at)
             .await;
 
         for KvEntry { key: _key, entry } in invalidated {
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 917cb87..1b08e34 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -22,7 +22,8 @@ const PREDICATE_MAP_NUM_SEGMENTS: usize = 16;
 pub(crate) struct KeyDateLite<K> {
     key: Arc<K>,
     hash: u64,
-    timestamp: Instant,
+    /// The last modified time of the entry. `None` if the entry is being updated.
+    timestamp: Option<Instant>,
 }
 
 impl<K> Clone for KeyDateLite<K> {
@@ -36,7 +37,7 @@ impl<K> Clone for KeyDateLite<K> {
 }
 
 impl<K> KeyDateLite<K> {
-    pub(crate) fn new(key: &Arc<K>, hash: u64, timestamp: Instant) -> Self {
+    pub(crate) fn new(key: &Arc<K>, hash: u64, timestamp: Option<Instant>) -> Self {
         Self {
             key: Arc::clone(key),
             hash,
@@ -161,6 +162,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
+        synced_at: Instant,
     ) -> (Vec<KvEntry<K, V>>, bool)
     where
         K: Hash + Eq + Send + Sync + 'static,
@@ -169,7 +171,17 @@ impl<K, V, S> Invalidator<K, V, S> {
     {
         let mut predicates = self.scan_context.predicates.lock().await;
         if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+            // Do not start to process the predicates registered after `synced_at`. The
+            // write order queue may not have all the entries inserted before them.
+            *predicates = self
+                .predicates
+                .iter()
+                .map(|(_k, v)| v)
+                .filter(|pred| pred.registered_at <= synced_at)
+                .collect();
+            if predicates.is_empty() {
+                return (Vec::default(), true);
+            }
         }
 
         let mut invalidated = Vec::default();
@@ -178,8 +190,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         for candidate in &candidates {
             let key = &candidate.key;
             let hash = candidate.hash;
-            let ts = candidate.timestamp;
-            if self.apply(&predicates, cache, key, hash, ts) {
+            if let Some(ts) = self.apply(&predicates, cache, key, hash) {
                 if let Some(entry) = Self::invalidate(cache, key, hash, ts).await {
                     invalidated.push(KvEntry {
                         key: Arc::clone(key),
@@ -187,7 +198,7 @@ impl<K, V, S> Invalidator<K, V, S> {
                     });
                 }
             }
-            newest_timestamp = Some(ts);
+            newest_timestamp = candidate.timestamp.or(newest_timestamp);
         }
 
         self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
@@ -236,8 +247,6 @@ where
                 self.remove_predicates(&finished);
                 // Set the active predicates to the scan context.
                 *predicates = active;
-            } else {
-                unreachable!();
             }
         } else {
             // Remove all the predicates from the predicate registry and scan context.
@@ -258,28 +267,19 @@ where
         }
     }
 
+    /// Returns the last modified time of the current entry for the key if any of the
+    /// predicates matches the entry.
     fn apply(
         &self,
         predicates: &[Predicate<K, V>],
         cache: &Inner<K, V, S>,
         key: &Arc<K>,
         hash: u64,
-        ts: Instant,
-    ) -> bool {
-        if let Some(entry) = cache.cache.get(hash, |k| k == key) {
-            if let Some(lm) = entry.last_modified() {
-                if lm == ts {
-                    return Self::do_apply_predicates(
-                        predicates.iter().cloned(),
-                        key,
-                        &entry.value,
-                        lm,
-                    );
-                }
-            }
-        }
-
-        false
+    ) -> Option<Instant> {
+        let entry = cache.cache.get(hash, |k| k == key)?;
+        let lm = entry.last_modified()?;
+        let is_match = Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, lm);
+        is_match.then_some(lm)
     }
 
     async fn invalidate(
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 47d16cf..4eb9ecd 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1229,6 +1229,8 @@ where
             None
         };
         let mut should_process_logs = true;
+        // The time before which all the completed writes have been applied.
+        let mut synced_at = self.current_time();
         let mut calls = 0u32;
         let current_ec = self.entry_count.load();
         let current_ws = self.weighted_size.load();
@@ -1242,6 +1244,7 @@ where
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
                 }
 
+                synced_at = self.current_time();
                 let w_len = self.write_op_ch.len();
                 if w_len > 0 {
                     self.apply_writes(&mut deqs, &mut timer_wheel, w_len, &mut eviction_state);
@@ -1292,6 +1295,7 @@ where
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
+                        synced_at,
                         &mut eviction_state,
                     );
                 }
@@ -2214,16 +2218,15 @@ where
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
+        synced_at: Instant,
         eviction_state: &mut EvictionState<'_, K, V>,
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // that have been registered by `synced_at`.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.remove_predicates_registered_before(synced_at);
             return;
         }
 
@@ -2244,14 +2247,15 @@ where
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
-                    if !kd.is_dirty() {
-                        if let Some(ts) = kd.last_modified() {
-                            let key = kd.key();
-                            let hash = self.hash(&**key);
-                            candidates.push(KeyDateLite::new(key, hash, ts));
-                            len += 1;
-                        }
-                    }
+                    let ts = if kd.is_dirty() {
+                        None
+                    } else {
+                        kd.last_modified()
+                    };
+                    let key = kd.key();
+                    let hash = self.hash(&**key);
+                    candidates.push(KeyDateLite::new(key, hash, ts));
+                    len += 1;
                 } else {
                     is_truncated = false;
                     break;
@@ -2264,7 +2268,7 @@ where
         }
 
         let (invalidated, is_done) =
-            invalidator.scan_and_invalidate(self, candidates, is_truncated);
+            invalidator.scan_and_invalidate(self, candidates, is_truncated, synced_at);
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 21a105e..39d6f24 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -22,7 +22,8 @@ const PREDICATE_MAP_NUM_SEGMENTS: usize = 16;
 pub(crate) struct KeyDateLite<K> {
     key: Arc<K>,
     hash: u64,
-    timestamp: Instant,
+    /// The last modified time of the entry. `None` if the entry is being updated.
+    timestamp: Option<Instant>,
 }
 
 impl<K> Clone for KeyDateLite<K> {
@@ -36,7 +37,7 @@ impl<K> Clone for KeyDateLite<K> {
 }
 
 impl<K> KeyDateLite<K> {
-    pub(crate) fn new(key: &Arc<K>, hash: u64, timestamp: Instant) -> Self {
+    pub(crate) fn new(key: &Arc<K>, hash: u64, timestamp: Option<Instant>) -> Self {
         Self {
             key: Arc::clone(key),
             hash,
@@ -161,6 +162,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
+        synced_at: Instant,
     ) -> (Vec<KvEntry<K, V>>, bool)
     where
         K: Hash + Eq + Send + Sync + 'static,
@@ -169,7 +171,17 @@ impl<K, V, S> Invalidator<K, V, S> {
     {
         let mut predicates = self.scan_context.predicates.lock();
         if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+            // Do not start to process the predicates registered after `synced_at`. The
+            // write order queue may not have all the entries inserted before them.
+            *predicates = self
+                .predicates
+                .iter()
+                .map(|(_k, v)| v)
+                .filter(|pred| pred.registered_at <= synced_at)
+                .collect();
+            if predicates.is_empty() {
+                return (Vec::default(), true);
+            }
         }
 
         let mut invalidated = Vec::default();
@@ -178,8 +190,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         for candidate in &candidates {
             let key = &candidate.key;
             let hash = candidate.hash;
-            let ts = candidate.timestamp;
-            if self.apply(&predicates, cache, key, hash, ts) {
+            if let Some(ts) = self.apply(&predicates, cache, key, hash) {
                 if let Some(entry) = Self::invalidate(cache, key, hash, ts) {
                     invalidated.push(KvEntry {
                         key: Arc::clone(key),
@@ -187,7 +198,7 @@ impl<K, V, S> Invalidator<K, V, S> {
                     });
                 }
             }
-            newest_timestamp = Some(ts);
+            newest_timestamp = candidate.timestamp.or(newest_timestamp);
         }
 
         self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
@@ -236,8 +247,6 @@ where
                 self.remove_predicates(&finished);
                 // Set the active predicates to the scan context.
                 *predicates = active;
-            } else {
-                unreachable!();
             }
         } else {
             // Remove all the predicates from the predicate registry and scan context.
@@ -258,28 +267,19 @@ where
         }
     }
 
+    /// Returns the last modified time of the current entry for the key if any of the
+    /// predicates matches the entry.
     fn apply(
         &self,
         predicates: &[Predicate<K, V>],
         cache: &Inner<K, V, S>,
         key: &Arc<K>,
         hash: u64,
-        ts: Instant,
-    ) -> bool {
-        if let Some(entry) = cache.cache.get(hash, |k| k == key) {
-            if let Some(lm) = entry.last_modified() {
-                if lm == ts {
-                    return Invalidator::<_, _, S>::do_apply_predicates(
-                        predicates.iter().cloned(),
-                        key,
-                        &entry.value,
-                        lm,
-                    );
-                }
-            }
-        }
-
-        false
+    ) -> Option<Instant> {
+        let entry = cache.cache.get(hash, |k| k == key)?;
+        let lm = entry.last_modified()?;
+        let is_match = Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, lm);
+        is_match.then_some(lm)
     }
 
     fn invalidate(
-- 
2.43.0


From 637718e233776cbea05509505425a03a14e42055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 15/27] fix: send the write operation for the value actually
 stored when an insert is retried

---
 src/future/base_cache.rs | 39 ++++++++++++++-------------------------
 src/sync/base_cache.rs   | 38 +++++++++++++-------------------------
 2 files changed, 27 insertions(+), 50 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 797f994..3e81696 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -46,7 +46,7 @@ use std::{
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -516,8 +516,6 @@ where
         self.retry_interrupted_ops().await;
 
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Arc::new(AtomicU8::new(0));
-        let op_cnt2 = Arc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -531,27 +529,22 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
-        // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // has to retry the insertion or modification, so both on_insert and on_modify
+        // closures can be executed. (on_modify can be executed more than once, but
+        // on_insert will not; its result will be reused.) To tell whether the actual
+        // operation was insert or update, check the return value. If it is `Some`, the
+        // value was updated, otherwise the value was inserted.
+        let old_entry = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -562,22 +555,18 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_entry, upd_op))) => {
-                self.do_post_update_steps(ts, key, old_entry, upd_op, &self.interrupted_op_ch_snd)
+        match (old_entry, op1, op2) {
+            (None, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (Some(_), _, Some((old_info, upd_op))) => {
+                self.do_post_update_steps(ts, key, old_info, upd_op, &self.interrupted_op_ch_snd)
                     .await
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 4eb9ecd..f711f23 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -39,9 +39,8 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
-    rc::Rc,
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -520,8 +519,6 @@ where
         value: V,
     ) -> (WriteOp<K, V>, Instant) {
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Rc::new(AtomicU8::new(0));
-        let op_cnt2 = Rc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -531,27 +528,22 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
-        // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // has to retry the insertion or modification, so both on_insert and on_modify
+        // closures can be executed. (on_modify can be executed more than once, but
+        // on_insert will not; its result will be reused.) To tell whether the actual
+        // operation was insert or update, check the return value. If it is `Some`, the
+        // value was updated, otherwise the value was inserted.
+        let old_entry = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -562,21 +554,17 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_info, upd_op))) => {
+        match (old_entry, op1, op2) {
+            (None, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (Some(_), _, Some((old_info, upd_op))) => {
                 self.do_post_update_steps(ts, key, old_info, upd_op)
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
-- 
2.43.0


From b39f8c3cf7fd6d8908c230a67f3c93c21c88437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:11 +0000
Subject: [PATCH 16/27] fix: do not miss the predicates being removed when
 reading an entry

---
 src/future/base_cache.rs  | 41 +++++++++++++++++++++++++++++----------
 src/future/invalidator.rs | 32 +++++++++++++++++++++---------
 src/sync/base_cache.rs    | 41 +++++++++++++++++++++++++++++----------
 src/sync/invalidator.rs   | 32 +++++++++++++++++++++---------
 4 files changed, 108 insertions(+), 38 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 3e81696..e59eb58 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1,6 +1,6 @@
 use super::{
     housekeeper::Housekeeper,
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, Predicate, PredicateFun},
     key_lock::{KeyLock, KeyLockMap},
     notifier::RemovalNotifier,
     InterruptedOp, PredicateId,
@@ -225,6 +225,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let preds = self.inner.invalidation_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -235,7 +237,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !i.is_invalidated_entry(k, entry, &preds)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -257,7 +259,7 @@ where
         is_expired_by_per_entry_ttl(entry.entry_info(), now)
             || is_expired_entry_wo(ttl, va, entry, now)
             || is_expired_entry_ao(tti, va, entry, now)
-            || i.is_invalidated_entry(key, entry)
+            || i.is_invalidated_entry(key, entry, &i.invalidation_predicates())
     }
 
     pub(crate) async fn get_with_hash<Q, I>(
@@ -281,6 +283,7 @@ where
         }
 
         let mut now = self.current_time();
+        let preds = self.inner.invalidation_predicates();
 
         let maybe_kv_and_op = self
             .inner
@@ -291,7 +294,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || i.is_invalidated_entry(k, entry, &preds)
                 {
                     // Expired or invalidated entry.
                     None
@@ -458,6 +461,8 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let preds = self.inner.invalidation_predicates();
+
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -466,7 +471,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || i.is_invalidated_entry(k, entry, &preds)
             {
                 // Expired or invalidated entry.
                 None
@@ -1298,16 +1303,32 @@ where
         }
     }
 
+    /// Returns the predicates currently registered by `invalidate_entries_if` method.
+    ///
+    /// NOTE: To read an entry, call this _before_ looking up the entry in the map. Once
+    /// a predicate has been applied to all the entries in the map, it will be removed.
+    /// If we did this after the lookup, we would miss the predicate that invalidated
+    /// the entry we are holding.
+    #[inline]
+    fn invalidation_predicates(&self) -> Vec<Predicate<K, V>> {
+        self.invalidator
+            .as_ref()
+            .map(|inv| inv.predicates())
+            .unwrap_or_default()
+    }
+
     /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn is_invalidated_entry(
+        &self,
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+        predicates: &[Predicate<K, V>],
+    ) -> bool
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
     #[inline]
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 1b08e34..4c091a1 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -129,23 +129,37 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
+    /// Returns the predicates currently registered.
+    #[inline]
+    pub(crate) fn predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        K: Hash + Eq + 'static,
+        V: 'static,
+        S: BuildHasher,
+    {
+        if self.is_empty() {
+            Vec::default()
+        } else {
+            self.predicates.iter().map(|(_, v)| v).collect()
+        }
+    }
+
     // This method will be called by the get method of Cache.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn apply_predicates(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
-        if self.is_empty() {
+        if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
         } else {
             false
         }
@@ -344,7 +358,7 @@ impl<K, V> Default for ScanContext<K, V> {
     }
 }
 
-struct Predicate<K, V> {
+pub(crate) struct Predicate<K, V> {
     id: PredicateId,
     f: PredicateFun<K, V>,
     registered_at: Instant,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index f711f23..8352810 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1,5 +1,5 @@
 use super::{
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, Predicate, PredicateFun},
     key_lock::{KeyLock, KeyLockMap},
     PredicateId,
 };
@@ -198,6 +198,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let preds = self.inner.invalidation_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -208,7 +210,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !i.is_invalidated_entry(k, entry, &preds)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -230,7 +232,7 @@ where
         is_expired_by_per_entry_ttl(entry.entry_info(), now)
             || is_expired_entry_wo(ttl, va, entry, now)
             || is_expired_entry_ao(tti, va, entry, now)
-            || i.is_invalidated_entry(key, entry)
+            || i.is_invalidated_entry(key, entry, &i.invalidation_predicates())
     }
 
     pub(crate) fn get_with_hash<Q>(&self, key: &Q, hash: u64, need_key: bool) -> Option<Entry<K, V>>
@@ -299,6 +301,7 @@ where
         }
 
         let mut now = self.current_time();
+        let preds = self.inner.invalidation_predicates();
 
         let maybe_entry = self
             .inner
@@ -309,7 +312,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || i.is_invalidated_entry(k, entry, &preds)
                 {
                     // Expired or invalidated entry.
                     None
@@ -463,6 +466,8 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let preds = self.inner.invalidation_predicates();
+
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -471,7 +476,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || i.is_invalidated_entry(k, entry, &preds)
             {
                 // Expired or invalidated entry.
                 None
@@ -1153,16 +1158,32 @@ where
         }
     }
 
+    /// Returns the predicates currently registered by `invalidate_entries_if` method.
+    ///
+    /// NOTE: To read an entry, call this _before_ looking up the entry in the map. Once
+    /// a predicate has been applied to all the entries in the map, it will be removed.
+    /// If we did this after the lookup, we would miss the predicate that invalidated
+    /// the entry we are holding.
+    #[inline]
+    fn invalidation_predicates(&self) -> Vec<Predicate<K, V>> {
+        self.invalidator
+            .as_ref()
+            .map(|inv| inv.predicates())
+            .unwrap_or_default()
+    }
+
     /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn is_invalidated_entry(
+        &self,
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+        predicates: &[Predicate<K, V>],
+    ) -> bool
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
     #[inline]
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 39d6f24..9936ff1 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -129,23 +129,37 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
+    /// Returns the predicates currently registered.
+    #[inline]
+    pub(crate) fn predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        K: Hash + Eq + 'static,
+        V: 'static,
+        S: BuildHasher,
+    {
+        if self.is_empty() {
+            Vec::default()
+        } else {
+            self.predicates.iter().map(|(_, v)| v).collect()
+        }
+    }
+
     // This method will be called by the get method of Cache.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn apply_predicates(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        if self.is_empty() {
+        if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
         } else {
             false
         }
@@ -338,7 +352,7 @@ impl<K, V> Default for ScanContext<K, V> {
     }
 }
 
-struct Predicate<K, V> {
+pub(crate) struct Predicate<K, V> {
     id: PredicateId,
     f: PredicateFun<K, V>,
     registered_at: Instant,
-- 
2.43.0


From 9d488290a238615d4266915a06bc4ecdedcc28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 17/27] fix: do not leak the value when insert_if_not_present
 finds an existing entry after a failed attempt

---
 src/cht/map/bucket.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index c6b76a5..452f0b7 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -188,7 +188,8 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
                 }
 
                 if !is_tombstone(this_bucket_ptr) {
-                    // Found. Return it.
+                    // Found. Return it. Drop the value we have tried to insert if any.
+                    state.drop_value();
                     return Ok(InsertionResult::AlreadyPresent(this_bucket_ptr));
                 }
             }
@@ -598,6 +599,18 @@ impl<K, V, F: FnOnce() -> V> InsertOrModifyState<K, V, F> {
         }
     }
 
+    /// Drops the value in the bucket if any. (Dropping a bucket does not drop its
+    /// value)
+    fn drop_value(self) {
+        match self {
+            InsertOrModifyState::New(..) => (),
+            InsertOrModifyState::AttemptedInsertion(mut b)
+            | InsertOrModifyState::AttemptedModification(mut b, _) => unsafe {
+                ptr::drop_in_place(b.maybe_value.as_mut_ptr());
+            },
+        }
+    }
+
     fn into_insert_bucket(self) -> Owned<Bucket<K, V>> {
         match self {
             InsertOrModifyState::New(k, f) => Owned::new(Bucket::new(k, f())),
-- 
2.43.0


From 7d9c1e1a30d825d844f1e00091147ac30757e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 18/27] fix: report an entry as Expired when its per-entry
 expiration has passed before it is replaced or removed

---
 src/common/concurrent.rs |  2 ++
 src/future/base_cache.rs | 10 ++++++++++
 src/sync/base_cache.rs   | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index 4207971..091f9d1 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -388,6 +388,7 @@ pub(crate) struct OldEntryInfo<K, V> {
     pub(crate) entry: MiniArc<ValueEntry<K, V>>,
     pub(crate) last_accessed: Option<Instant>,
     pub(crate) last_modified: Option<Instant>,
+    pub(crate) expiration_time: Option<Instant>,
 }
 
 impl<K, V> OldEntryInfo<K, V> {
@@ -396,6 +397,7 @@ impl<K, V> OldEntryInfo<K, V> {
             entry: MiniArc::clone(entry),
             last_accessed: entry.last_accessed(),
             last_modified: entry.last_modified(),
+            expiration_time: entry.entry_info().expiration_state().0,
         }
     }
 }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index e59eb58..e76932a 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -621,6 +621,7 @@ where
                     &old_info.entry,
                     old_info.last_accessed,
                     old_info.last_modified,
+                    old_info.expiration_time,
                 )
                 .shared();
             // Async Cancellation Safety: To ensure the above future should be
@@ -2617,6 +2618,7 @@ where
         entry: &MiniArc<ValueEntry<K, V>>,
         last_accessed: Option<Instant>,
         last_modified: Option<Instant>,
+        expiration_time: Option<Instant>,
     ) -> BoxFuture<'static, ()> {
         use futures_util::future::FutureExt;
 
@@ -2639,6 +2641,10 @@ where
             }
         }
 
+        if matches!(expiration_time, Some(ts) if ts <= now) {
+            cause = RemovalCause::Expired;
+        }
+
         if let Some(notifier) = &self.removal_notifier {
             let notifier = Arc::clone(notifier);
             let value = entry.value.clone();
@@ -2676,6 +2682,10 @@ where
             }
         }
 
+        if is_expired_by_per_entry_ttl(entry.entry_info(), now) {
+            cause = RemovalCause::Expired;
+        }
+
         if let Some(notifier) = &self.removal_notifier {
             let notifier = Arc::clone(notifier);
             let key = Arc::clone(key);
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 8352810..0d3ac5b 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -614,6 +614,7 @@ where
                 &old_info.entry,
                 old_info.last_accessed,
                 old_info.last_modified,
+                old_info.expiration_time,
             );
         }
         crossbeam_epoch::pin().flush();
@@ -2410,6 +2411,7 @@ where
         entry: &MiniArc<ValueEntry<K, V>>,
         last_accessed: Option<Instant>,
         last_modified: Option<Instant>,
+        expiration_time: Option<Instant>,
     ) {
         let now = self.current_time();
         let exp = &self.expiration_policy;
@@ -2430,6 +2432,10 @@ where
             }
         }
 
+        if matches!(expiration_time, Some(ts) if ts <= now) {
+            cause = RemovalCause::Expired;
+        }
+
         self.notify_single_removal(key, entry, cause);
     }
 
@@ -2452,6 +2458,10 @@ where
             }
         }
 
+        if is_expired_by_per_entry_ttl(entry.entry_info(), now) {
+            cause = RemovalCause::Expired;
+        }
+
         self.notify_single_removal(Arc::clone(key), entry, cause);
     }
 }
-- 
2.43.0


From 46de29b2ddcf7fc798b441165a69896be3906b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 19/27] fix: future cache: resume a cancelled maintenance task
 when waiting for a key lock or for the write channel

---
 src/future/base_cache.rs  | 34 +++++++++++++++-
 src/future/cache.rs       |  2 +-
 src/future/housekeeper.rs | 81 ++++++++++++++++++++++++++++++---------
 src/future/key_lock.rs    |  4 ++
 4 files changed, 100 insertions(+), 21 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index e76932a..b376257 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -527,7 +527,7 @@ where
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
         let _klg = if let Some(lock) = &kl {
-            Some(lock.lock().await)
+            Some(self.lock_key(lock).await)
         } else {
             None
         };
@@ -752,6 +752,38 @@ where
         }
     }
 
+    /// Acquires the lock of the given `KeyLock`.
+    ///
+    /// Async Cancellation Safety: The lock may be held by a maintenance task that was
+    /// cancelled while it was notifying the eviction listener. Nobody else might ever
+    /// resume it, so do it here.
+    pub(crate) async fn lock_key<'a>(&self, kl: &'a KeyLock<'_, K, S>) -> MutexGuard<'a, ()> {
+        use futures_util::future::{select, Either};
+
+        let Some(hk) = &self.housekeeper else {
+            return kl.lock().await;
+        };
+
+        loop {
+            if let Some(guard) = kl.try_lock() {
+                return guard;
+            }
+
+            // This event will be sent when the maintenance task was completed or
+            // cancelled. Listen to it before checking the task, so that we will not
+            // miss it.
+            let task_event = self.write_op_ch_ready_event().listen();
+            hk.resume_cancelled_task(&self.inner).await;
+
+            // NOTE: Do not keep the future of the lock while resuming the task, as
+            // the task may want the same lock.
+            let lock = std::pin::pin!(kl.lock());
+            if let Either::Left((guard, _)) = select(lock, task_event).await {
+                return guard;
+            }
+        }
+    }
+
     #[inline]
     async fn apply_reads_if_needed(&self, inner: &Arc<Inner<K, V, S>>, now: Instant) {
         let len = self.read_op_ch.len();
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 2b75180..971c1e0 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1953,7 +1953,7 @@ where
             let arc_key = self.base.get_key_with_hash(key, hash)?;
             kl = self.base.maybe_key_lock(&arc_key);
             klg = if let Some(lock) = &kl {
-                Some(lock.lock().await)
+                Some(self.base.lock_key(lock).await)
             } else {
                 None
             };
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 1ef86cd..229e350 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -18,14 +18,52 @@ use std::{
 #[cfg(test)]
 use std::sync::atomic::AtomicUsize;
 
-use async_lock::Mutex;
+use async_lock::{Mutex, MutexGuard};
 use futures_util::future::{BoxFuture, Shared};
 
 use super::base_cache::Inner;
 
+type MaintenanceTask = Shared<BoxFuture<'static, bool>>;
+
+/// The guard of the lock on the `current_task`. When it is dropped, it will free the
+/// lock, and then notify those who are waiting for the lock to be freed. It does so
+/// even if the enclosing future was dropped before completing the maintenance task.
+struct CurrentTaskGuard<'a> {
+    // NOTE: The fields are dropped in this order.
+    current_task: MutexGuard<'a, Option<MaintenanceTask>>,
+    _notifier: NotifyOnDrop<'a>,
+}
+
+impl<'a> CurrentTaskGuard<'a> {
+    fn new(
+        current_task: MutexGuard<'a, Option<MaintenanceTask>>,
+        freed_event: &'a event_listener::Event<()>,
+    ) -> Self {
+        Self {
+            current_task,
+            _notifier: NotifyOnDrop(freed_event),
+        }
+    }
+}
+
+struct NotifyOnDrop<'a>(&'a event_listener::Event<()>);
+
+impl Drop for NotifyOnDrop<'_> {
+    fn drop(&mut self) {
+        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
+        // method for the write op channel, or in `BaseCache::lock_key` method for a
+        // key lock, notify them.
+        self.0.notify(usize::MAX);
+    }
+}
+
 pub(crate) struct Housekeeper {
     /// A shared `Future` of the maintenance task that is currently being resolved.
-    current_task: Mutex<Option<Shared<BoxFuture<'static, bool>>>>,
+    current_task: Mutex<Option<MaintenanceTask>>,
+    /// A flag to indicate that there is a maintenance task that has been started but
+    /// not completed yet. Unless somebody has the lock on the `current_task`, the
+    /// task was cancelled and has to be resumed.
+    has_incomplete_task: AtomicBool,
     run_after: AtomicInstant,
     /// A flag to indicate if the last call on `run_pending_tasks` method left some
     /// entries to evict.
@@ -70,6 +108,7 @@ impl Housekeeper {
 
         Self {
             current_task: Mutex::default(),
+            has_incomplete_task: AtomicBool::new(false),
             run_after: AtomicInstant::new(Self::sync_after(now)),
             more_entries_to_evict,
             maintenance_task_timeout,
@@ -117,15 +156,10 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
-        let mut current_task = self.current_task.lock().await;
-        self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
+        let current_task = self.current_task.lock().await;
+        let mut guard = CurrentTaskGuard::new(current_task, &cache.write_op_ch_ready_event);
+        self.do_run_pending_tasks(Arc::clone(&cache), &mut guard.current_task)
             .await;
-
-        drop(current_task);
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
     }
 
     /// Tries to run the pending tasks if the lock is free. Returns `true` if there
@@ -136,19 +170,26 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
-        if let Some(mut current_task) = self.current_task.try_lock() {
-            self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
+        if let Some(current_task) = self.current_task.try_lock() {
+            let mut guard = CurrentTaskGuard::new(current_task, &cache.write_op_ch_ready_event);
+            self.do_run_pending_tasks(Arc::clone(cache), &mut guard.current_task)
                 .await;
+            true
         } else {
-            return false;
+            false
         }
+    }
 
-        // The `current_task` lock should be free now.
-
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
-        true
+    /// Resumes the maintenance task if it was cancelled.
+    pub(crate) async fn resume_cancelled_task<K, V, S>(&self, cache: &Arc<Inner<K, V, S>>)
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Clone + Send + Sync + 'static,
+    {
+        if self.has_incomplete_task.load(Ordering::Acquire) {
+            self.try_run_pending_tasks(cache).await;
+        }
     }
 
     async fn do_run_pending_tasks<K, V, S>(
@@ -184,6 +225,7 @@ impl Housekeeper {
             .boxed()
             .shared();
             *current_task = Some(task.clone());
+            self.has_incomplete_task.store(true, Ordering::Release);
 
             #[cfg(test)]
             self.start_count.fetch_add(1, Ordering::AcqRel);
@@ -194,6 +236,7 @@ impl Housekeeper {
         // If we are here, it means that the maintenance task has been completed.
         // We can remove it from the lock.
         *current_task = None;
+        self.has_incomplete_task.store(false, Ordering::Release);
         self.run_after.set_instant(Self::sync_after(now));
         self.set_more_entries_to_evict(more_to_evict);
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index f6a4aab..73bb6a6 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -91,6 +91,10 @@ where
         }
     }
 
+    pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, ()>> {
+        self.lock.mutex.try_lock()
+    }
+
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
         self.lock.mutex.lock().await
     }
-- 
2.43.0


From d10137d4cc2683651a6ba004a0891f3a3a606732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 20/27] fix: treat a write over an expired or invalidated entry
 as a creation for the per-entry expiration

---
 src/future/base_cache.rs  | 46 +++++++++++++++++++++++++++++++--------
 src/future/invalidator.rs | 18 ++++++++++++++-
 src/sync/base_cache.rs    | 46 +++++++++++++++++++++++++++++++--------
 src/sync/invalidator.rs   | 18 ++++++++++++++-
 4 files changed, 108 insertions(+), 20 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index b376257..fc2c6b0 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -602,15 +602,21 @@ where
         if let (Some(expiry), WriteOp::Upsert { value_entry, .. }) =
             (&self.inner.expiration_policy.expiry(), &upd_op)
         {
-            Self::expire_after_read_or_update(
-                |k, v, t, d| expiry.expire_after_update(k, v, t, d),
-                &key,
-                value_entry,
-                self.inner.expiration_policy.time_to_live(),
-                self.inner.expiration_policy.time_to_idle(),
-                ts,
-                self.inner.clock(),
-            );
+            if self.inner.is_obsolete(&key, &old_info, ts) {
+                // The old entry has already expired or been invalidated, and only
+                // its removal is pending. For the user, the key was not present.
+                Self::expire_after_create(expiry, &key, value_entry, ts, self.inner.clock());
+            } else {
+                Self::expire_after_read_or_update(
+                    |k, v, t, d| expiry.expire_after_update(k, v, t, d),
+                    &key,
+                    value_entry,
+                    self.inner.expiration_policy.time_to_live(),
+                    self.inner.expiration_policy.time_to_idle(),
+                    ts,
+                    self.inner.clock(),
+                );
+            }
         }
 
         if self.is_removal_notifier_enabled() {
@@ -1364,6 +1370,28 @@ where
         Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
+    /// Returns `true` if the entry (before it was replaced) has already expired or
+    /// been invalidated at `now`.
+    fn is_obsolete(&self, key: &Arc<K>, old_info: &OldEntryInfo<K, V>, now: Instant) -> bool
+    where
+        V: Clone,
+    {
+        let exp = &self.expiration_policy;
+
+        matches!(old_info.expiration_time, Some(ts) if ts <= now)
+            || matches!(old_info.last_accessed, Some(la)
+                if is_expired_by_tti(&exp.time_to_idle(), la, now))
+            || matches!(old_info.last_modified, Some(lm)
+                if is_expired_by_ttl(&exp.time_to_live(), lm, now)
+                    || is_invalid_entry(&self.valid_after(), lm)
+                    || Invalidator::<K, V, S>::apply_predicates_at(
+                        &self.invalidation_predicates(),
+                        key,
+                        &old_info.entry.value,
+                        lm,
+                    ))
+    }
+
     #[inline]
     fn weigh(&self, key: &K, value: &V) -> u32 {
         self.weigher.as_ref().map_or(1, |w| w(key, value))
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 4c091a1..1f389aa 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -159,12 +159,28 @@ impl<K, V, S> Invalidator<K, V, S> {
         if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
+            Self::apply_predicates_at(predicates, key, &entry.value, ts)
         } else {
             false
         }
     }
 
+    /// Does the same to `apply_predicates` but takes the last modified time of the
+    /// entry as an argument.
+    pub(crate) fn apply_predicates_at(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        value: &V,
+        last_modified: Instant,
+    ) -> bool
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Send + Sync + 'static,
+    {
+        Self::do_apply_predicates(predicates.iter().cloned(), key, value, last_modified)
+    }
+
     /// Returns `true` if there is a scan that has not reached the end of the write
     /// order queue yet.
     pub(crate) async fn is_scanning(&self) -> bool {
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 0d3ac5b..9e70ce0 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -597,15 +597,21 @@ where
         if let (Some(expiry), WriteOp::Upsert { value_entry, .. }) =
             (&self.inner.expiration_policy.expiry(), &upd_op)
         {
-            Self::expire_after_read_or_update(
-                |k, v, t, d| expiry.expire_after_update(k, v, t, d),
-                &key,
-                value_entry,
-                self.inner.expiration_policy.time_to_live(),
-                self.inner.expiration_policy.time_to_idle(),
-                ts,
-                self.inner.clock(),
-            );
+            if self.inner.is_obsolete(&key, &old_info, ts) {
+                // The old entry has already expired or been invalidated, and only
+                // its removal is pending. For the user, the key was not present.
+                Self::expire_after_create(expiry, &key, value_entry, ts, self.inner.clock());
+            } else {
+                Self::expire_after_read_or_update(
+                    |k, v, t, d| expiry.expire_after_update(k, v, t, d),
+                    &key,
+                    value_entry,
+                    self.inner.expiration_policy.time_to_live(),
+                    self.inner.expiration_policy.time_to_idle(),
+                    ts,
+                    self.inner.clock(),
+                );
+            }
         }
 
         if self.is_removal_notifier_enabled() {
@@ -1187,6 +1193,28 @@ where
         Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
+    /// Returns `true` if the entry (before it was replaced) has already expired or
+    /// been invalidated at `now`.
+    fn is_obsolete(&self, key: &Arc<K>, old_info: &OldEntryInfo<K, V>, now: Instant) -> bool
+    where
+        V: Clone,
+    {
+        let exp = &self.expiration_policy;
+
+        matches!(old_info.expiration_time, Some(ts) if ts <= now)
+            || matches!(old_info.last_accessed, Some(la)
+                if is_expired_by_tti(&exp.time_to_idle(), la, now))
+            || matches!(old_info.last_modified, Some(lm)
+                if is_expired_by_ttl(&exp.time_to_live(), lm, now)
+                    || is_invalid_entry(&self.valid_after(), lm)
+                    || Invalidator::<K, V, S>::apply_predicates_at(
+                        &self.invalidation_predicates(),
+                        key,
+                        &old_info.entry.value,
+                        lm,
+                    ))
+    }
+
     #[inline]
     fn weigh(&self, key: &K, value: &V) -> u32 {
         self.weigher.as_ref().map_or(1, |w| w(key, value))
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 9936ff1..3f1d703 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -159,12 +159,28 @@ impl<K, V, S> Invalidator<K, V, S> {
         if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
+            Self::apply_predicates_at(predicates, key, &entry.value, ts)
         } else {
             false
         }
     }
 
+    /// Does the same to `apply_predicates` but takes the last modified time of the
+    /// entry as an argument.
+    pub(crate) fn apply_predicates_at(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        value: &V,
+        last_modified: Instant,
+    ) -> bool
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher,
+    {
+        Self::do_apply_predicates(predicates.iter().cloned(), key, value, last_modified)
+    }
+
     /// Returns `true` if there is a scan that has not reached the end of the write
     /// order queue yet.
     pub(crate) fn is_scanning(&self) -> bool {
-- 
2.43.0


From d9905c8d421a567e83533e383b40cc049d55b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 21/27] fix: reclaim an entry invalidated by invalidate_all
 even if a racing read has refreshed its access time

---
 src/future/base_cache.rs | 33 ++++++++++++++++++++-------------
 src/sync/base_cache.rs   | 33 ++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index fc2c6b0..3235b6a 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1382,14 +1382,14 @@ where
             || matches!(old_info.last_accessed, Some(la)
                 if is_expired_by_tti(&exp.time_to_idle(), la, now))
             || matches!(old_info.last_modified, Some(lm)
-                if is_expired_by_ttl(&exp.time_to_live(), lm, now)
-                    || is_invalid_entry(&self.valid_after(), lm)
-                    || Invalidator::<K, V, S>::apply_predicates_at(
-                        &self.invalidation_predicates(),
-                        key,
-                        &old_info.entry.value,
-                        lm,
-                    ))
+            if is_expired_by_ttl(&exp.time_to_live(), lm, now)
+                || is_invalid_entry(&self.valid_after(), lm)
+                || Invalidator::<K, V, S>::apply_predicates_at(
+                    &self.invalidation_predicates(),
+                    key,
+                    &old_info.entry.value,
+                    lm,
+                ))
     }
 
     #[inline]
@@ -2266,12 +2266,13 @@ where
                     elem.hash(),
                     elem.is_dirty(),
                     elem.last_accessed(),
+                    elem.last_modified(),
                 )
             });
 
             let (key, hash, cause) = match maybe_key_hash_ts {
-                Some((key, hash, false, Some(ts))) => {
-                    let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
+                Some((key, hash, false, Some(ts), lm)) => {
+                    let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, lm, now) {
                         (true, _) => RemovalCause::Expired,
                         (false, true) => RemovalCause::Explicit,
                         (false, false) => {
@@ -2284,7 +2285,7 @@ where
                 // TODO: Remove the second pattern `Some((_key, false, None))` once
                 // we change `last_modified` and `last_accessed` in `EntryInfo` from
                 // `Option<Instant>` to `Instant`.
-                Some((key, hash, true, _) | (key, hash, false, None)) => {
+                Some((key, hash, true, _, _) | (key, hash, false, None, _)) => {
                     // `is_dirty` is true or `last_modified` is None. Skip this entry
                     // as it may have been updated by this or other async task but
                     // its `WriteOp` is not processed yet.
@@ -2317,7 +2318,9 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_ao(tti, va, v, now),
+                |_, v| {
+                    is_expired_entry_ao(tti, va, v, now) || is_expired_entry_wo(&None, va, v, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
@@ -2838,11 +2841,15 @@ fn is_entry_expired_ao_or_invalid(
     time_to_idle: &Option<Duration>,
     valid_after: &Option<Instant>,
     entry_last_accessed: Instant,
+    entry_last_modified: Option<Instant>,
     now: Instant,
 ) -> (bool, bool) {
     let ts = entry_last_accessed;
     let expired = is_expired_by_tti(time_to_idle, ts, now);
-    let invalid = is_invalid_entry(valid_after, ts);
+    // A read that raced with `invalidate_all` may have made `last_accessed` newer than
+    // `valid_after`, so check `last_modified` too.
+    let invalid = is_invalid_entry(valid_after, ts)
+        || matches!(entry_last_modified, Some(lm) if is_invalid_entry(valid_after, lm));
     (expired, invalid)
 }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 9e70ce0..7af693f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1205,14 +1205,14 @@ where
             || matches!(old_info.last_accessed, Some(la)
                 if is_expired_by_tti(&exp.time_to_idle(), la, now))
             || matches!(old_info.last_modified, Some(lm)
-                if is_expired_by_ttl(&exp.time_to_live(), lm, now)
-                    || is_invalid_entry(&self.valid_after(), lm)
-                    || Invalidator::<K, V, S>::apply_predicates_at(
-                        &self.invalidation_predicates(),
-                        key,
-                        &old_info.entry.value,
-                        lm,
-                    ))
+            if is_expired_by_ttl(&exp.time_to_live(), lm, now)
+                || is_invalid_entry(&self.valid_after(), lm)
+                || Invalidator::<K, V, S>::apply_predicates_at(
+                    &self.invalidation_predicates(),
+                    key,
+                    &old_info.entry.value,
+                    lm,
+                ))
     }
 
     #[inline]
@@ -2057,12 +2057,13 @@ where
                     elem.hash(),
                     elem.is_dirty(),
                     elem.last_accessed(),
+                    elem.last_modified(),
                 )
             });
 
             let (key, hash, cause) = match maybe_key_hash_ts {
-                Some((key, hash, false, Some(ts))) => {
-                    let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, now) {
+                Some((key, hash, false, Some(ts), lm)) => {
+                    let cause = match is_entry_expired_ao_or_invalid(tti, va, ts, lm, now) {
                         (true, _) => RemovalCause::Expired,
                         (false, true) => RemovalCause::Explicit,
                         (false, false) => {
@@ -2075,7 +2076,7 @@ where
                 // TODO: Remove the second pattern `Some((_key, false, None))` once
                 // we change `last_modified` and `last_accessed` in `EntryInfo` from
                 // `Option<Instant>` to `Instant`.
-                Some((key, hash, true, _) | (key, hash, false, None)) => {
+                Some((key, hash, true, _, _) | (key, hash, false, None, _)) => {
                     // `is_dirty` is true or `last_modified` is None. Skip this entry
                     // as it may have been updated by this or other async task but
                     // its `WriteOp` is not processed yet.
@@ -2103,7 +2104,9 @@ where
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
-                |_, v| is_expired_entry_ao(tti, va, v, now),
+                |_, v| {
+                    is_expired_entry_ao(tti, va, v, now) || is_expired_entry_wo(&None, va, v, now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
@@ -2575,11 +2578,15 @@ fn is_entry_expired_ao_or_invalid(
     time_to_idle: &Option<Duration>,
     valid_after: &Option<Instant>,
     entry_last_accessed: Instant,
+    entry_last_modified: Option<Instant>,
     now: Instant,
 ) -> (bool, bool) {
     let ts = entry_last_accessed;
     let expired = is_expired_by_tti(time_to_idle, ts, now);
-    let invalid = is_invalid_entry(valid_after, ts);
+    // A read that raced with `invalidate_all` may have made `last_accessed` newer than
+    // `valid_after`, so check `last_modified` too.
+    let invalid = is_invalid_entry(valid_after, ts)
+        || matches!(entry_last_modified, Some(lm) if is_invalid_entry(valid_after, lm));
     (expired, invalid)
 }
 
-- 
2.43.0


From 41e9da7d0e13719f0ed86c6c71d3d3654da76a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 22/27] fix: future cache: do not miss the wake-up for a full
 write channel

---
 src/future/base_cache.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 3235b6a..c481ae6 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -671,6 +671,7 @@ where
 
         let mut op = op;
         let mut spin_loop_attempts = 0u8;
+        let mut listener = None;
         loop {
             // Run the `Inner::do_run_pending_tasks` method if needed.
             BaseCache::<K, V, S>::apply_reads_writes_if_needed(inner, ch, ts, housekeeper).await;
@@ -696,7 +697,7 @@ where
                 for _ in 0..SPIN_COUNT {
                     std::hint::spin_loop();
                 }
-            } else {
+            } else if let Some(listener) = listener.take() {
                 spin_loop_attempts = 0;
 
                 // Yield the async runtime scheduler to other async tasks and wait
@@ -709,10 +710,15 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
-                ch_ready_event.listen().await;
+                listener.await;
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
+            } else {
+                // Start to listen to the channel ready event, and try once more
+                // before waiting for it. Otherwise, we would miss the event when it
+                // is sent by other thread after we found the channel full.
+                listener = Some(ch_ready_event.listen());
             }
         }
     }
-- 
2.43.0


From 2b364e672d3f76baa2412ca8cb7b3c38e73a7565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 23/27] fix: do not share the waiters of get_with with
 try_get_with whose error type is ()

---
 src/future.rs                   | 5 +++++
 src/future/value_initializer.rs | 4 ++--
 src/sync.rs                     | 5 +++++
 src/sync/value_initializer.rs   | 4 ++--
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/future.rs b/src/future.rs
index 84ae55f..1a068cc 100644
--- a/src/future.rs
+++ b/src/future.rs
@@ -41,6 +41,11 @@ pub(crate) struct OptionallyNone;
 // Empty struct to be used in `InitResult::InitErr` to represent the Compute None.
 pub(crate) struct ComputeNone;
 
+// Uninhabited type to identify the waiters for the `get_with` method, which never
+// fails. (It is a private type, so that it will not be the same as the error type of
+// a `try_get_with` call, which shares the waiter map.)
+pub(crate) enum GetWithNeverFails {}
+
 impl<T: ?Sized> FutureExt for T where T: Future {}
 
 pub trait FutureExt: Future {
diff --git a/src/future/value_initializer.rs b/src/future/value_initializer.rs
index f913cd5..422f57a 100644
--- a/src/future/value_initializer.rs
+++ b/src/future/value_initializer.rs
@@ -15,7 +15,7 @@ use crate::{
     Entry,
 };
 
-use super::{Cache, ComputeNone, OptionallyNone};
+use super::{Cache, ComputeNone, GetWithNeverFails, OptionallyNone};
 
 const WAITER_MAP_NUM_SEGMENTS: usize = 64;
 
@@ -603,7 +603,7 @@ where
     pub(crate) fn type_id_for_get_with() -> TypeId {
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNeverFails>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
diff --git a/src/sync.rs b/src/sync.rs
index f9210e5..1a2a9f4 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -38,3 +38,8 @@ pub(crate) struct OptionallyNone;
 
 // Empty struct to be used in `InitResult::InitErr`` to represent the Compute None.
 pub(crate) struct ComputeNone;
+
+// Uninhabited type to identify the waiters for the `get_with` method, which never
+// fails. (It is a private type, so that it will not be the same as the error type of
+// a `try_get_with` call, which shares the waiter map.)
+pub(crate) enum GetWithNeverFails {}
diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 42d02a1..172af43 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -12,7 +12,7 @@ use crate::{
     Entry,
 };
 
-use super::{Cache, ComputeNone, OptionallyNone};
+use super::{Cache, ComputeNone, GetWithNeverFails, OptionallyNone};
 
 const WAITER_MAP_NUM_SEGMENTS: usize = 64;
 
@@ -345,7 +345,7 @@ where
     pub(crate) fn type_id_for_get_with() -> TypeId {
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNeverFails>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
-- 
2.43.0


From a16b31e0ded96381f476d4c9c7affaac5fd79265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 24/27] fix: frequency sketch: avoid the subtraction underflow
 in reset

---
 src/common/frequency_sketch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/frequency_sketch.rs b/src/common/frequency_sketch.rs
index 67304f7..5f3a94c 100644
--- a/src/common/frequency_sketch.rs
+++ b/src/common/frequency_sketch.rs
@@ -174,7 +174,7 @@ impl FrequencySketch {
             count += (*entry & ONE_MASK).count_ones();
             *entry = (*entry >> 1) & RESET_MASK;
         }
-        self.size = (self.size >> 1) - (count >> 2);
+        self.size = (self.size >> 1).saturating_sub(count >> 2);
     }
 
     /// Returns the table index for the counter at the specified depth.
-- 
2.43.0


From a5da7353228e652bbe91eefe74c9aec674095636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 25/27] fix: drop the predicates of an ongoing scan when the
 write order queue becomes empty

---
 src/future/base_cache.rs  | 4 +++-
 src/future/invalidator.rs | 9 ++++++++-
 src/sync/invalidator.rs   | 6 ++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index c481ae6..96f2deb 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -2503,7 +2503,9 @@ where
         // If the write order queue is empty, we are done and can remove the predicates
         // that have been registered by `synced_at`.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(synced_at);
+            invalidator
+                .remove_predicates_registered_before(synced_at)
+                .await;
             return;
         }
 
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 1f389aa..b6772dc 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -75,7 +75,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         self.predicates.is_empty()
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    pub(crate) async fn remove_predicates_registered_before(&self, ts: Instant)
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
@@ -93,6 +93,13 @@ impl<K, V, S> Invalidator<K, V, S> {
             let hash = pred_map.hash(&id);
             pred_map.remove(hash, |k| k == &id);
         }
+
+        // There is nothing left to scan for them, so drop them from the ongoing scan.
+        self.scan_context
+            .predicates
+            .lock()
+            .await
+            .retain(|pred| pred.registered_at > ts);
     }
 
     pub(crate) fn register_predicate(
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 3f1d703..1290c5a 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -93,6 +93,12 @@ impl<K, V, S> Invalidator<K, V, S> {
             let hash = pred_map.hash(&id);
             pred_map.remove(hash, |k| k == &id);
         }
+
+        // There is nothing left to scan for them, so drop them from the ongoing scan.
+        self.scan_context
+            .predicates
+            .lock()
+            .retain(|pred| pred.registered_at > ts);
     }
 
     pub(crate) fn register_predicate(
-- 
2.43.0


From 1ec6f205595a12638aca6b3db9e3f079c7d29154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:16 +0000
Subject: [PATCH 26/27] fix: cht: do not let is_empty return true while a
 concurrently inserted entry exists

---
 src/cht/segment.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index bf70e0e..22efb40 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -306,6 +306,11 @@ impl<K: Hash + Eq, V, S: BuildHasher> HashMap<K, V, S> {
     where
         V: Clone,
     {
+        // Count the new entry before it becomes visible to others, who may remove it
+        // right away. Otherwise `len` could go below the number of the entries, and
+        // `is_empty` could return `true` for a non-empty map.
+        self.len.fetch_add(1, Ordering::Relaxed);
+
         let result = self
             .bucket_array_ref(hash)
             // .insert_entry_and(key, hash, value, with_previous_entry);
@@ -317,8 +322,9 @@ impl<K: Hash + Eq, V, S: BuildHasher> HashMap<K, V, S> {
                 with_previous_entry,
             );
 
-        if result.is_none() {
-            self.len.fetch_add(1, Ordering::Relaxed);
+        if result.is_some() {
+            // Replaced the existing entry.
+            self.len.fetch_sub(1, Ordering::Relaxed);
         }
 
         result
-- 
2.43.0


From 965ec56ae1b842844c21ee20cf4c442c80bbfc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:00 +0000
Subject: [PATCH 27/27] fix: drop the invalidation predicates of a cache whose
 max_capacity is zero

---
 src/future/base_cache.rs | 5 +++++
 src/sync/base_cache.rs   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 96f2deb..b6ef627 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1418,6 +1418,11 @@ where
         eviction_batch_size: u32,
     ) -> bool {
         if self.max_capacity == Some(0) {
+            // No entry is stored, so there is nothing to apply the predicates to.
+            if let Some(inv) = &self.invalidator {
+                inv.remove_predicates_registered_before(self.current_time())
+                    .await;
+            }
             return false;
         }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 7af693f..25ffe6f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1254,6 +1254,10 @@ where
         eviction_batch_size: u32,
     ) -> bool {
         if self.max_capacity == Some(0) {
+            // No entry is stored, so there is nothing to apply the predicates to.
+            if let Some(inv) = &self.invalidator {
+                inv.remove_predicates_registered_before(self.current_time());
+            }
             return false;
         }
 
-- 
2.43.0

