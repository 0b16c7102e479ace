SEQ = "model-based stateful property testing (virtual clock, reference model, shrinking)"
CONC = "generated programs under a generated deterministic thread schedule, linearizability / history oracle"
BOTH = SEQ + "; plus " + CONC
ASYNC = "generated async programs, poll orders and cancellation points against a history oracle"
TRUST = "Trusts the reference model, the interposed virtual clock and the generators; it samples, so absence of a failure is not a proof. "
SEQN = TRUST + "Single-threaded histories only (concurrency is decided by other properties)."
CONCN = TRUST + "Threads switch only at clock reads, lock contention, sleeps and user callbacks (hash, eq, clone, weigher, listener, init, expiry), under sequential consistency."

prop("C01", "A cache is a coherent map of the latest writes",
 "Every retrieval (get, contains_key, remove, iteration, the get_with family, entry and compute closures) of a key observes the value of the latest completed insert or compute for that key, or nothing if the key was never written, or has been removed, invalidated, expired or evicted since. It never observes an older value, a value of another key, or a value that was never inserted, and an entry that is neither removed, invalidated, expired nor evictable is always found. This holds for every operation history, however the keys hash (also when hashes collide), through every handle of the cache, and for sync, segmented and async caches alike.",
 ["histories", "inputs", "configurations"], "all operation sequences over all keys, hash functions, cache kinds and configurations",
 "The tests run fixed short scripts with a good hash function and a mock clock; they do not vary history, hash collisions, configuration and maintenance timing together.",
 ["src/sync/cache.rs", "src/future/cache.rs", "src/sync/segment.rs", "src/sync/base_cache.rs", "src/future/base_cache.rs", "src/cht/segment.rs", "src/cht/map/bucket.rs"],
 [("lock-free hash table", "src/cht/map/bucket_array_ref.rs"), ("insert / read paths", "src/sync/base_cache.rs do_insert_with_hash, do_get_with_hash")],
 technique=SEQ, note=SEQN)

prop("C02", "Capacity is respected, and nothing is evicted without need",
 "After pending tasks have been run to completion, the sum of the weights of the entries (each 1 without a weigher) never exceeds max_capacity, whatever the history, the weigher (also weights of 0, weights above the capacity, and weights changed by an update) and the eviction policy. No entry is removed for size while the weights of all entries written fit within the capacity, and a cache without max_capacity never evicts for size. A cache of capacity 0 retains nothing, and an entry heavier than the whole capacity is never retained. (A SegmentedCache divides max_capacity over its segments, rounding up per segment, and each segment keeps within its share.)",
 ["histories", "configurations", "inputs"], "all histories of inserts, updates, reads and removals; all capacities, weighers, policies",
 "Tests check a handful of capacities with fixed weights and a fixed order of operations.",
 [S+"base_cache.rs", F+"base_cache.rs", C+"concurrent/deques.rs"],
 [("admission and eviction", S+"base_cache.rs handle_admit, handle_upsert, evict_lru_entries"), ("weight accounting", S+"base_cache.rs EvictionCounters")],
 technique=BOTH, note=CONCN)

prop("C03", "entry_count and weighted_size are exact once pending tasks have run",
 "When no operation is in flight and pending tasks have been run until there is nothing left to do, entry_count() equals the number of entries actually stored and weighted_size() equals the sum of their weights, for every history. In particular they return to 0 when everything has been removed or has expired, and never wrap around, drift, or count an entry twice after updates, re-insertions, invalidations or evictions.",
 ["histories", "configurations", "schedules"], "all histories of writes, updates with changed weights, removals, expirations and evictions",
 "Tests compare counts after a few fixed scripts.",
 [S+"base_cache.rs", F+"base_cache.rs", S+"segment.rs"],
 [("EvictionCounters saturating add/sub", S+"base_cache.rs"), ("entry generation and admitted flags", C+"concurrent/entry_info.rs")],
 technique=BOTH, note=CONCN)

prop("C05", "time_to_live and time_to_idle are exact",
 "With time_to_live d, a retrieval at time t observes an entry only if t is earlier than d after the entry's latest write; with time_to_idle d, only if t is earlier than d after its latest write or read; with both, only if both allow it. Before that instant the entry is not lost to expiration. contains_key and iteration do not count as reads, updates restart both clocks, and the answer does not depend on whether or when pending tasks ran.",
 ["histories", "inputs", "configurations"], "all durations, all timings of operations down to the nanosecond around the boundary, all histories",
 "Tests advance a mock clock by whole seconds in a fixed script, never at the exact boundary, and with maintenance forced after each step.",
 [S+"base_cache.rs", F+"base_cache.rs", C+"concurrent/entry_info.rs", C+"time/clock.rs", C+"time/atomic_time.rs"],
 [("is_expired_entry_ao / is_expired_entry_wo", S+"base_cache.rs"), ("last_accessed / last_modified", C+"concurrent/entry_info.rs")],
 technique=SEQ, note=SEQN)

prop("C06", "Per-entry expiration follows the Expiry callbacks exactly",
 "With expire_after, each insertion of a key without a live value calls expire_after_create once, each insertion over a live value calls expire_after_update once, and each read hit calls expire_after_read once, with the right key, value, time, last-modified time and remaining duration; retrievals that are not reads and misses call nothing. An entry is observable until the duration returned last has passed since that call, and never afterwards; returning the duration passed in leaves it unchanged and None clears it. The shortest of the per-entry duration, time_to_live and time_to_idle decides.",
 ["histories", "inputs", "configurations"], "all decisions of the callbacks (none, unchanged, shorter, longer, beyond the timer wheel's span), all histories and timings",
 "Tests use a few fixed expiry policies and whole-second steps.",
 [S+"base_cache.rs", F+"base_cache.rs", C+"timer_wheel.rs", C+"concurrent/entry_info.rs", "src/policy.rs"],
 [("expire_after_read_or_update / expire_after_create", S+"base_cache.rs"), ("ExpiryCounters, expiration_time", C+"concurrent/entry_info.rs")],
 technique=SEQ, note=SEQN)

prop("C07", "Dead entries are physically reclaimed and notified by maintenance",
 "Once an entry has expired (by time_to_live, time_to_idle or its per-entry expiration) or has been invalidated by invalidate_all or invalidate_entries_if, running pending tasks until they settle removes it: it no longer counts in entry_count and weighted_size, its key and value are released, and the eviction listener has been told with the cause that applies. Per-entry expirations may be reclaimed with the timer wheel's resolution of about one second and no later, whatever the durations and however long the idle gaps between runs.",
 ["histories", "configurations", "inputs"], "all histories, durations from milliseconds to beyond the timer wheel's longest period, all gaps between runs",
 "Tests of the timer wheel schedule single timers at fixed times; tests of the cache check reclaiming in fixed scripts of a few entries.",
 [C+"timer_wheel.rs", S+"base_cache.rs", F+"base_cache.rs", S+"invalidator.rs", F+"invalidator.rs", C+"deque.rs"],
 [("timer wheel cascade", C+"timer_wheel.rs advance"), ("evict_expired_entries_using_deqs / _timers", S+"base_cache.rs"), ("batched scans", S+"base_cache.rs do_run_pending_tasks")],
 technique=SEQ, note=SEQN)

prop("C08", "invalidate, remove and invalidate_all remove exactly what they should",
 "After invalidate or remove of a key returns, the value is not observable any more, remove returns the value that was live at that point (and nothing if it was absent, expired or invalidated), and no other key is affected. After invalidate_all returns, no value inserted before the call is ever observable again, and values inserted after it are not affected, whatever maintenance does in between.",
 ["histories", "configurations", "schedules"], "all histories mixing removal, invalidation, expiration, re-insertion and maintenance",
 "Tests check single scripts; interaction with expiration, with re-insertion and with maintenance at every point is not covered.",
 [S+"base_cache.rs", F+"base_cache.rs", S+"cache.rs", F+"cache.rs", S+"segment.rs"],
 [("valid_after", S+"base_cache.rs set_valid_after, is_valid_entry"), ("invalidate_with_hash", S+"cache.rs")],
 technique=BOTH, note=CONCN)

prop("C09", "invalidate_entries_if removes exactly the matching earlier entries",
 "After invalidate_entries_if returns, no entry that was inserted before the call and for which the predicate is true is observable; entries for which it is false and entries inserted or updated after the call are not affected. Running pending tasks evicts all matching entries however many entries and predicates there are and whatever else is updated, read or removed meanwhile, and then drops the predicates. Without support_invalidation_closures the call returns an error and changes nothing.",
 ["histories", "configurations", "schedules"], "all predicates, numbers of entries (below and above the scan batch), registrations of several predicates, histories",
 "Tests register one or two predicates on a few entries.",
 [S+"invalidator.rs", F+"invalidator.rs", S+"base_cache.rs", F+"base_cache.rs"],
 [("apply_predicates, ScanContext", S+"invalidator.rs"), ("invalidate_entries batches", S+"base_cache.rs")],
 technique=BOTH, note=CONCN)

prop("C10", "The eviction listener is called exactly once for every removed entry",
 "For every value that was stored, exactly one of the following holds once pending tasks have settled: it is still stored and the listener was never called for it, or it is gone and the listener was called for it exactly once, with its own key and value. This holds for replacement, explicit removal, invalidation, expiration and size eviction in every combination; the listener is never called for a value that is still retrievable or was never stored.",
 ["histories", "schedules", "configurations"], "all histories and all ways of leaving the cache",
 "Tests compare the notifications of fixed scripts.",
 [S+"base_cache.rs", F+"base_cache.rs", "src/notification/notifier.rs", F+"notifier.rs"],
 [("notify_upsert, notify_invalidate, notify_single_removal", S+"base_cache.rs")],
 technique=BOTH, note=CONCN)

prop("C11", "Removal causes are truthful, and notifications of a key are in order",
 "The cause given to the eviction listener is true of the entry: Replaced only when a newer value took its place, Explicit only when it was removed or invalidated, Expired only when it had expired, Size only under capacity pressure; and an entry that had expired when it was overwritten or removed is reported as Expired. For one key the notifications come one at a time and in the order in which its values were written.",
 ["histories", "schedules", "configurations"], "all histories and all causes, also where several causes could apply",
 "Tests check one cause at a time.",
 [S+"base_cache.rs", F+"base_cache.rs", "src/notification.rs", S+"cache.rs", F+"cache.rs"],
 [("choice of the cause", S+"base_cache.rs notify_upsert, notify_invalidate"), ("key locks", S+"key_lock.rs, "+F+"key_lock.rs")],
 technique=BOTH, note=CONCN)

prop("C12", "A panicking eviction listener harms nothing but the listener",
 "When the eviction listener panics, the operation that triggered it completes normally without propagating the panic, the cache keeps satisfying every other guarantee (contents, counts, capacity, expiration), and that cache's listener is never called again.",
 ["fault_sequences", "histories"], "panics at any call of the listener, in any operation, at any point of any history",
 "One test panics at one fixed notification.",
 ["src/notification/notifier.rs", F+"notifier.rs", S+"base_cache.rs"],
 [("catch_unwind in notify", "src/notification/notifier.rs")],
 technique=SEQ+" with fault injection", note=SEQN)

prop("C14", "A failed initialization stores nothing and leaves the key usable",
 "When an init closure or future of the get_with / try_get_with / optionally_get_with / entry families returns an error or None, or panics, the caller gets exactly that outcome, nothing is stored for the key, and any previously stored value and every other key are unaffected. The next call for that key evaluates its own closure and can succeed; nothing is left locked or poisoned.",
 ["fault_sequences", "histories"], "errors, None and panics in any init, for any key, in any history",
 "Tests check each failure once, from a fresh cache.",
 [S+"value_initializer.rs", F+"value_initializer.rs", S+"cache.rs", F+"cache.rs"],
 [("try_init_or_read", S+"value_initializer.rs"), ("WaiterGuard", F+"value_initializer.rs")],
 technique=BOTH+" with fault injection", note=CONCN)

prop("C15", "The entry and compute API report exactly what happened",
 "and_compute_with and its variants call the closure once with exactly the live entry (or None), apply exactly the returned operation (nothing for Nop or an error, store for Put, remove for Remove), and return the matching result: Inserted, ReplacedWith, Removed, Unchanged or StillNone, carrying the right key and value. The or_insert family and get_with evaluate their closure only if there is no live value (or replace_if says so) and report is_fresh exactly when this call stored the value and is_old_value_replaced exactly when it took the place of a live one; by-reference variants behave like by-value ones.",
 ["histories", "inputs", "configurations"], "all entry API variants, all decisions, all states of the key (absent, live, expired, invalidated)",
 "Tests check one sequence of results per method; the by-ref and conditional variants and expired or invalidated entries are barely covered.",
 ["src/ops.rs", "src/common/entry.rs", S+"entry_selector.rs", F+"entry_selector.rs", S+"value_initializer.rs", F+"value_initializer.rs", S+"cache.rs", F+"cache.rs", S+"segment.rs"],
 [("try_compute", S+"value_initializer.rs, "+F+"value_initializer.rs")],
 technique=BOTH, note=CONCN)

prop("C13", "get_with is single-flight: concurrent callers share one evaluation",
 "For calls of the get_with family on one key that overlap in time and share one kind of initializer, at most one init closure or future is running at any moment. All callers that waited for it receive its value (or, for the fallible variants, its error or None), and a caller whose closure was evaluated receives the result of its own closure. No caller receives a value that neither an overlapping call nor an earlier write produced, a caller is told is_fresh exactly when its own closure made the value.",
 ["schedules", "histories", "configurations"], "all interleavings of callers, other writes, invalidations and maintenance; all variants of the family; with and without eviction in between",
 "Tests start a few threads or tasks with sleeps in one fixed order.",
 [S+"value_initializer.rs", F+"value_initializer.rs", S+"cache.rs", F+"cache.rs", S+"entry_selector.rs", F+"entry_selector.rs"],
 [("waiter map", S+"value_initializer.rs try_init_or_read"), ("waiter map (async)", F+"value_initializer.rs")],
 technique=CONC, note=CONCN)

prop("C16", "Concurrent operations on a key are linearizable",
 "Under every interleaving of threads, the results of the operations on one key (insert, get, contains_key, remove, invalidate, invalidate_all, iteration, get_with, compute) are those of some sequential order of them that respects real time. A value that was replaced, removed or invalidated before a read began is never returned by it, a completed write is never lost, two removals never both return the same value, compute closures of one key never overlap and never lose each other's updates, and once all threads are done the contents, counts and notifications agree with that order.",
 ["schedules", "histories", "configurations"], "all interleavings of up to four threads with a few operations each, with maintenance running in any of them",
 "Tests of concurrency run a few threads without control over the interleaving, and mostly on disjoint keys.",
 [S+"base_cache.rs", F+"base_cache.rs", S+"cache.rs", F+"cache.rs", "src/cht/segment.rs", "src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs", S+"key_lock.rs", F+"key_lock.rs"],
 [("insert_with_or_modify and write op", S+"base_cache.rs do_insert_with_hash"), ("apply_writes against newer entries", S+"base_cache.rs apply_writes, handle_upsert"), ("key locks", S+"key_lock.rs")],
 technique=CONC, note=CONCN)

prop("C18", "Iteration yields each live entry once and nothing else",
 "An iteration yields no key twice and no entry that was expired, invalidated or removed before it began. Every entry that is live during the whole iteration is yielded exactly once with its current value; entries written or removed meanwhile may or may not appear, with a value they had. Iterating counts as no read, blocks nobody, and never yields a key with the value of another key, however the hash table is resized meanwhile.",
 ["histories", "schedules", "configurations"], "all contents, hash distributions and concurrent modifications, including table growth and shrinking during the iteration",
 "Tests iterate over fixed contents, and only once concurrently.",
 [S+"iter.rs", F+"iter.rs", "src/common/iter.rs", "src/cht/iter.rs", "src/cht/segment.rs", S+"base_cache.rs"],
 [("ScanningGet", "src/common/iter.rs"), ("segment-wise keys()", "src/cht/segment.rs")],
 technique=BOTH, note=CONCN)

prop("C21", "Every key and value is dropped exactly once, and never used afterwards",
 "For every history and interleaving, a key or value handed to the cache is dropped exactly once: it is released once it has left the cache, its notifications have been delivered and no caller holds it (after pending tasks and garbage collection), and at the latest when the last handle of the cache is dropped. None is leaked, dropped twice, or read after having been dropped, also when closures or the listener panic, operations fail, or the hash table is resized.",
 ["histories", "schedules", "fault_sequences"], "all histories, interleavings and failures of user code",
 "Tests check that drops happen in two fixed scenarios.",
 ["src/cht/map/bucket.rs", "src/cht/map/bucket_array_ref.rs", "src/common/concurrent/arc.rs", "src/common/deque.rs", "src/common/timer_wheel.rs", S+"base_cache.rs", F+"base_cache.rs"],
 [("deferred destruction", "src/cht/map/bucket.rs defer_destroy_bucket"), ("MiniArc", "src/common/concurrent/arc.rs"), ("intrusive deque nodes", "src/common/deque.rs")],
 technique=BOTH, note=CONCN+" Leaks, double drops and reads of dropped values are observed through instrumented key and value types, not through a memory checker.")

prop("C23", "No operation deadlocks, livelocks or panics",
 "Every operation of every thread completes, however threads interleave, how many writes are issued without anybody calling run_pending_tasks (also beyond the capacity of the internal channels), and whichever callbacks (listener, weigher, expiry, init, predicates) are slow. No operation panics unless the user's own closure did.",
 ["schedules", "histories", "configurations"], "all interleavings, bursts of writes, all configurations",
 "Tests only show that a few runs finished.",
 [S+"base_cache.rs", F+"base_cache.rs", "src/common/concurrent/housekeeper.rs", F+"housekeeper.rs", S+"value_initializer.rs", S+"key_lock.rs", F+"key_lock.rs", "src/common/concurrent/constants.rs"],
 [("schedule_write_op back-pressure", S+"cache.rs, "+F+"cache.rs"), ("housekeeper run lock", "src/common/concurrent/housekeeper.rs")],
 technique=CONC, note=CONCN)

prop("C17", "Dropping the future of an async operation at any point is safe",
 "Whenever the future of an operation of future::Cache (insert, get, the get_with family, compute, invalidate, remove, run_pending_tasks) is dropped before it has completed, the operation has taken effect completely or not at all, as seen by everybody else. Nobody waiting is stranded: another caller of the get_with family takes over, computes of the key go on, and operations blocked on a key lock, on a full channel or on a cancelled maintenance task still complete. Every notification that had become due is delivered exactly once and its listener future is run to its end, maintenance carries on where it was cancelled, and entry_count, weighted_size, capacity and drops stay exact.",
 ["schedules", "fault_sequences", "histories"], "all poll orders of several tasks and all points at which their futures may be dropped",
 "Tests drop futures at a few fixed await points with one task.",
 [F+"cache.rs", F+"base_cache.rs", F+"value_initializer.rs", F+"housekeeper.rs", F+"key_lock.rs", F+"notifier.rs", "src/future.rs"],
 [("CancelGuard, retry_interrupted_ops", "src/future.rs, "+F+"base_cache.rs"), ("WaiterGuard", F+"value_initializer.rs"), ("current_task", F+"housekeeper.rs")],
 technique=ASYNC, note=TRUST+"Tasks are polled by one thread, so futures interleave at await points only; wake-ups across threads are exercised by C16 and C23.")

prop("C04", "Ordinary operations alone keep the cache bounded and reclaim dead entries",
 "Without a single explicit call to run_pending_tasks, ordinary operations maintain the cache: however many keys are written, the number and weight of the entries held (and of the values kept alive) stays within max_capacity plus a small constant per segment; and once entries have expired or have been invalidated, a bounded number of further operations of any kind, spread over a second or more, reclaims them, notifies their removals and completes invalidate_entries_if. Work left over by one maintenance run is continued by the following ones, and a single operation never does an unbounded amount of maintenance, also when the eviction listener is slow.",
 ["histories", "configurations"], "all mixes and bursts of operations, all cache kinds and policies, cheap and slow listeners, without explicit maintenance",
 "Tests call run_pending_tasks after every step, so the code that decides when and how much maintenance ordinary operations do is hardly executed.",
 [C+"concurrent/housekeeper.rs", F+"housekeeper.rs", S+"base_cache.rs", F+"base_cache.rs", C+"concurrent/constants.rs"],
 [("should_apply_reads / should_apply_writes, more_entries_to_evict, time limits", C+"concurrent/housekeeper.rs"), ("schedule_write_op back-pressure", S+"base_cache.rs, "+F+"base_cache.rs")],
 technique=SEQ, note=SEQN+" The bounds checked are looser than the constants of the code (512 writes and 600 values of slack).")

prop("C19", "The LRU policy evicts in exact least-recently-used order",
 "With EvictionPolicy::lru, whenever the entries do not fit within max_capacity, exactly the least recently used ones are evicted, no more than needed, where inserting, updating and reading (get and the get_with family, but neither contains_key nor iteration) count as uses; a new entry is always admitted if it fits at all.",
 ["histories", "configurations", "inputs"], "all sequences of inserts, updates, reads, removals and maintenance, all weights",
 "One test per cache type checks one fixed script of a dozen operations without weights.",
 [S+"base_cache.rs", F+"base_cache.rs", C+"deque.rs", "src/common/concurrent/deques.rs"],
 [("access order queue", "src/common/concurrent/deques.rs"), ("apply_reads, apply_writes, evict_lru_entries", S+"base_cache.rs")],
 technique="model-based stateful property testing against an exact reference queue", note=SEQN+" Maintenance runs after groups of at most a dozen operations, so that read recordings are never dropped. What happens when an update makes an entry heavier than max_capacity is not checked (everything may be evicted).")

prop("C20", "TinyLFU admission keeps popular entries and resists scans",
 "With the default policy, a new entry is admitted to a full cache exactly if its estimated popularity is higher than that of the least recently used entries that would have to make room for it, otherwise it is the new entry that is evicted; popularity counts the lookups of a key (hits and misses alike), never decreases but by ageing, and ages so that old popularity fades. So a scan over many keys used once does not displace the entries that are used often, and a new working set replaces an old one.",
 ["histories", "configurations", "inputs"], "all sequences of lookups and inserts, weights and capacities; scans and changes of the working set of all sizes",
 "One test per cache type checks one fixed script; the sketch is tested on its own for a few keys.",
 [S+"base_cache.rs", F+"base_cache.rs", C+"frequency_sketch.rs", "src/common/concurrent/deques.rs"],
 [("admit, handle_admit", S+"base_cache.rs"), ("increment, frequency, reset", C+"frequency_sketch.rs"), ("should_enable_frequency_sketch", S+"base_cache.rs")],
 technique="model-based stateful property testing against a reference policy with popularity intervals; statistical scan scenarios with fixed thresholds", note=SEQN+" The popularity estimate is probabilistic (count-min with 4-bit counters): the oracle keeps a lower and an upper bound for each key and only judges decisions that the bounds settle.")

prop("C22", "All cache types give the same answers, and builders are honoured",
 "sync::Cache, SegmentedCache with any number of segments, builder().segments(n) and future::Cache, built with the same options, give the same answers, the same callbacks and the same removal notifications for the same single-threaded history. Every builder option (name, max_capacity, initial_capacity, weigher, hasher, listener, time_to_live, time_to_idle, expire_after, eviction policy, support_invalidation_closures) takes effect on each type in whatever order the options are given and for extreme values, policy() and name() report it, and the documented limits of the durations are enforced.",
 ["configurations", "histories"], "all combinations and orders of builder options, all histories",
 "Tests of each cache type are separate copies of scripts that may diverge; builder options are mostly tested one at a time on one type.",
 ["src/sync/builder.rs", "src/future/builder.rs", S+"segment.rs", S+"cache.rs", F+"cache.rs", "src/common/builder_utils.rs", "src/policy.rs"],
 [("builders", "src/sync/builder.rs, src/future/builder.rs"), ("segment selection and forwarding", S+"segment.rs")],
 technique="differential property testing of the four kinds of caches, and generated configurations against the documented behaviour", note=SEQN)
