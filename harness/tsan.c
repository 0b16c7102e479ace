/* The atomics of the code under test. rustc is run with `-Cpasses=tsan`, which turns
   every atomic access into a call of one of the functions below; in "fine" cases each
   of them is a point at which the scheduler may switch to another thread. All orders
   are carried out as sequentially consistent. */
#include <stdint.h>
int mvh_fine_on;
__thread int mvh_fine_off = 1; /* cleared in the managed threads */
extern void mvh_fine_point(uintptr_t site);
extern char __executable_start;
/* Atomic accesses of the current case: far beyond what any case needs, a loop does not
   end. */
#define MAX_POINTS 1500000000ull
uint64_t mvh_points;
extern void mvh_points_out(void);
static inline __attribute__((always_inline)) void pt(void *ra) {
  if (__builtin_expect(mvh_fine_on, 0) && !mvh_fine_off) {
    mvh_fine_off++;
    mvh_fine_point((uintptr_t)ra - (uintptr_t)&__executable_start);
    mvh_fine_off--;
  } else if (__builtin_expect(++mvh_points > MAX_POINTS, 0)) {
    mvh_points = 0;
    mvh_points_out();
  }
}
void mvh_fine_inc(int d) { mvh_fine_off += d; }
#define PT pt(__builtin_return_address(0))
#define SC __ATOMIC_SEQ_CST
#define RMW(N, T, name, op) \
  T __tsan_atomic##N##_##name(volatile T *a, T v, int mo) { PT; return op; }
#define ALL(N, T) \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { PT; return __atomic_load_n(a, SC); } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { PT; __atomic_store_n(a, v, SC); } \
  RMW(N, T, exchange, __atomic_exchange_n(a, v, SC)) \
  RMW(N, T, fetch_add, __atomic_fetch_add(a, v, SC)) \
  RMW(N, T, fetch_sub, __atomic_fetch_sub(a, v, SC)) \
  RMW(N, T, fetch_and, __atomic_fetch_and(a, v, SC)) \
  RMW(N, T, fetch_or, __atomic_fetch_or(a, v, SC)) \
  RMW(N, T, fetch_xor, __atomic_fetch_xor(a, v, SC)) \
  RMW(N, T, fetch_nand, __atomic_fetch_nand(a, v, SC)) \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    PT; __atomic_compare_exchange_n(a, &c, v, 0, SC, SC); return c; }
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { PT; __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
