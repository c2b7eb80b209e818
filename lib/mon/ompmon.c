/* Access monitor for OpenMP regions.
 *
 * The extension under test is compiled with -fsanitize=thread but linked to this file
 * instead of ThreadSanitizer's runtime, and this file also stands in for libgomp's
 * GOMP_parallel.  A parallel region is executed thread by thread, in an order chosen by
 * the harness, and every load and store of the region is recorded with the logical thread
 * that made it.  Two logical threads touching one byte range, at least one writing, is a
 * data race whatever the schedule (the region has no barriers or locks, or the event is
 * reported as unsupported).  Accesses to registered poison zones are out of bounds.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#define MAXT 64
#define HB 20
#define HSIZE (1u << HB)

/* One entry per 4-byte granule and barrier epoch.  Accesses under a lock (critical section,
 * atomic) are kept apart from the others: they only conflict with unlocked ones. */
typedef struct { uintptr_t g; uint32_t ep; uint32_t gen; int16_t rd[2], rd2[2], wr[2]; } cell;
static cell *tab;
static uint32_t gen, epoch;
static int recording, cur_tid, nthreads = 4, inner, locked;
static uintptr_t stk_lo, stk_hi;
static long n_acc, n_reg, n_race, n_oob, n_drop, n_unsup, n_thr, n_multi, n_bar, n_lock;
static uintptr_t race_addr, oob_addr;
static int race_a, race_b, race_w, oob_w;
static unsigned long order_seed = 1;

#define MAXZ 64
static uintptr_t zlo[MAXZ], zhi[MAXZ];
static int nz;

/* ---- interface for the harness (ctypes) ---- */
void mon_reset(void) { n_acc = n_reg = n_race = n_oob = n_drop = n_unsup = n_thr = n_multi = n_bar = n_lock = 0; nz = 0; }
void mon_config(int t, unsigned long seed) { nthreads = t < 1 ? 1 : (t > MAXT ? MAXT : t); order_seed = seed * 2862933555777941757ul + 3037000493ul; }
void mon_poison(uintptr_t lo, uintptr_t hi) { if (nz < MAXZ) { zlo[nz] = lo; zhi[nz++] = hi; } }
long mon_get(int k) {
    long v[] = { n_acc, n_reg, n_race, n_oob, n_drop, n_unsup, n_thr, n_multi, (long) race_addr, race_a, race_b, race_w,
                 (long) oob_addr, oob_w, n_bar, n_lock };
    return v[k];
}

static void touch(uintptr_t a, uintptr_t size, int w, int lk)
{
    uintptr_t g;
    int k;
    for (k = 0; k < nz; k++)
        if (a < zhi[k] && a + size > zlo[k]) { if (!n_oob++) { oob_addr = a; oob_w = w; } }
    if (!recording || (a >= stk_lo && a < stk_hi)) return;
    n_acc++;
    lk = lk || locked;
    for (g = a >> 2; g <= (a + size - 1) >> 2; g++) {
        uint32_t h = (uint32_t) (((g + epoch * 0x632BE59Bul) * 0x9E3779B97F4A7C15ull) >> (64 - HB)), tries = 0;
        cell *c;
        int j, other = -1;
        for (;;) {
            c = &tab[h];
            if (c->gen != gen) {
                c->gen = gen; c->g = g; c->ep = epoch;
                c->rd[0] = c->rd[1] = c->rd2[0] = c->rd2[1] = c->wr[0] = c->wr[1] = -1;
                break;
            }
            if (c->g == g && c->ep == epoch) break;
            h = (h + 1) & (HSIZE - 1);
            if (++tries > 64) { n_drop++; return; }
        }
        for (j = 0; j < 2; j++) {
            if (lk && j) continue;
            if (c->wr[j] >= 0 && c->wr[j] != cur_tid) other = c->wr[j];
            else if (w && c->rd[j] >= 0 && c->rd[j] != cur_tid) other = c->rd[j];
            else if (w && c->rd2[j] >= 0 && c->rd2[j] != cur_tid) other = c->rd2[j];
        }
        if (other >= 0 && !n_race++) { race_addr = a; race_a = other; race_b = cur_tid; race_w = w; }
        if (w) c->wr[lk] = (int16_t) cur_tid;
        else if (c->rd[lk] < 0) c->rd[lk] = (int16_t) cur_tid;
        else if (c->rd[lk] != cur_tid) c->rd2[lk] = (int16_t) cur_tid;
    }
}

/* ---- the part of libgomp that statically scheduled loops use ---- */
static int nested;
int omp_get_num_threads(void) { return recording && !nested ? inner : 1; }
int omp_get_thread_num(void) { return recording && !nested ? cur_tid : 0; }
int omp_get_max_threads(void) { return nthreads; }
int omp_in_parallel(void) { return recording; }

#define MAXWS 64
static struct { long next, end, inc, chunk; } ws[MAXWS];
static int ws_n, ws_i, pos, pre;
static long pre_s, pre_e, pre_i, pre_c;
static void ws_new(long s, long e, long inc, long chunk);
void omp_set_num_threads(int t) { (void) t; }
int omp_get_num_procs(void) { return nthreads; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned req, unsigned flags)
{
    int order[MAXT], i, T = req ? (int) req : nthreads;
    char here;
    (void) flags;
    if (recording) { n_unsup++; nested++; fn(data); nested--; return; }   /* nested: run by this thread alone */
    if (T > MAXT) T = MAXT;
    if (!tab) tab = calloc(HSIZE, sizeof(cell));
    gen++;
    for (i = 0; i < T; i++) order[i] = i;
    for (i = T - 1; i > 0; i--) {
        int j, t;
        order_seed = order_seed * 6364136223846793005ul + 1442695040888963407ul;
        j = (int) ((order_seed >> 33) % (unsigned) (i + 1));
        t = order[i]; order[i] = order[j]; order[j] = t;
    }
    stk_hi = (uintptr_t) &here;            /* frames of the region lie below this one */
    stk_lo = stk_hi - (1ul << 23);
    n_reg++;
    if (T > 1) n_multi++;
    inner = T;
    ws_n = 0;
    if (pre) ws_new(pre_s, pre_e, pre_i, pre_c);
    for (i = 0; i < T; i++) {
        cur_tid = order[i];
        pos = i;
        epoch = 0;
        locked = 0;
        ws_i = pre;
        recording = 1;
        fn(data);
        recording = 0;
        n_thr++;
    }
}

/* Threads run one after the other, so a barrier only separates epochs: accesses in
 * different epochs are ordered by it. */
void GOMP_barrier(void) { epoch++; n_bar++; }
static void lock(void) { locked = 1; n_lock++; }
static void unlock(void) { locked = 0; }
void GOMP_critical_start(void) { lock(); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { (void) p; lock(); }
void GOMP_critical_name_end(void **p) { (void) p; unlock(); }
void GOMP_atomic_start(void) { lock(); }
void GOMP_atomic_end(void) { unlock(); }
int GOMP_single_start(void) { int f = ws_i >= ws_n; if (f) ws_n++; ws_i++; return f; }

/* work-sharing loops with a run-time schedule: chunks go to threads at random (a thread
 * stops taking chunks at random; the last one takes what is left) */
static unsigned rnd(void) { order_seed = order_seed * 6364136223846793005ul + 1442695040888963407ul; return (unsigned) (order_seed >> 33); }
static int last(void) { return pos == inner - 1; }
static int take(long *lo, long *hi)
{
    long inc = ws[ws_i - 1].inc, c = ws[ws_i - 1].chunk * inc, e = ws[ws_i - 1].end, p = ws[ws_i - 1].next;
    if (inc > 0 ? p >= e : p <= e) return 0;
    if (!last() && rnd() % 3 == 0) return 0;
    *lo = p;
    *hi = (inc > 0 ? p + c > e : p + c < e) ? e : p + c;
    ws[ws_i - 1].next = *hi;
    return 1;
}
static void ws_new(long s, long e, long inc, long chunk)
{
    ws[ws_n].next = s; ws[ws_n].end = e; ws[ws_n].inc = inc; ws[ws_n].chunk = chunk < 1 ? 1 : chunk;
    ws_n++;
}
static int ws_start(long s, long e, long inc, long chunk, long *lo, long *hi)
{
    if (ws_i >= MAXWS) { n_unsup++; return 0; }
    if (ws_i >= ws_n) ws_new(s, e, inc, chunk);
    ws_i++;
    return take(lo, hi);
}
#define LOOP(kind) \
    int GOMP_loop_##kind##_start(long s, long e, long i, long c, long *lo, long *hi) { return ws_start(s, e, i, c, lo, hi); } \
    int GOMP_loop_##kind##_next(long *lo, long *hi) { return take(lo, hi); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned t, long s, long e, long i, long c, unsigned f) \
    { pre = 1; pre_s = s; pre_e = e; pre_i = i; pre_c = c; GOMP_parallel(fn, d, t, f); pre = 0; }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
int GOMP_loop_runtime_start(long s, long e, long i, long *lo, long *hi) { return ws_start(s, e, i, 1, lo, hi); }
int GOMP_loop_runtime_next(long *lo, long *hi) { return take(lo, hi); }
int GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *lo, long *hi) { return ws_start(s, e, i, 1, lo, hi); }
int GOMP_loop_maybe_nonmonotonic_runtime_next(long *lo, long *hi) { return take(lo, hi); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned t, long s, long e, long i, unsigned f)
{ pre = 1; pre_s = s; pre_e = e; pre_i = i; pre_c = 1; GOMP_parallel(fn, d, t, f); pre = 0; }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned t, long s, long e, long i, unsigned f)
{ GOMP_parallel_loop_runtime(fn, d, t, s, e, i, f); }
void GOMP_loop_end(void) { epoch++; n_bar++; }
void GOMP_loop_end_nowait(void) { }

/* ---- the instrumentation interface of -fsanitize=thread ---- */
#define RW(n) void __tsan_read##n(void *a) { touch((uintptr_t) a, n, 0, 0); } \
              void __tsan_write##n(void *a) { touch((uintptr_t) a, n, 1, 0); } \
              void __tsan_unaligned_read##n(void *a) { touch((uintptr_t) a, n, 0, 0); } \
              void __tsan_unaligned_write##n(void *a) { touch((uintptr_t) a, n, 1, 0); } \
              void __tsan_volatile_read##n(void *a) { touch((uintptr_t) a, n, 0, 0); } \
              void __tsan_volatile_write##n(void *a) { touch((uintptr_t) a, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long s) { if (s) touch((uintptr_t) a, s, 0, 0); }
void __tsan_write_range(void *a, unsigned long s) { if (s) touch((uintptr_t) a, s, 1, 0); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; }
void __tsan_vptr_read(void **a) { (void) a; }
void __tsan_atomic_thread_fence(int mo) { (void) mo; __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }
#define AT(b, T) \
  T __tsan_atomic##b##_load(volatile T *a, int mo) { (void) mo; touch((uintptr_t) a, sizeof(T), 0, 1); return *a; } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { (void) mo; touch((uintptr_t) a, sizeof(T), 1, 1); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { T o = *a; (void) mo; touch((uintptr_t) a, sizeof(T), 1, 1); *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { (void) mo; touch((uintptr_t) a, sizeof(T), 1, 1); return __sync_fetch_and_add(a, v); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { (void) mo; touch((uintptr_t) a, sizeof(T), 1, 1); return __sync_fetch_and_sub(a, v); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void) mo; (void) fmo; touch((uintptr_t) a, sizeof(T), 1, 1); return __sync_val_compare_and_swap(a, c, v); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { T o = *c; (void) mo; (void) fmo; touch((uintptr_t) a, sizeof(T), 1, 1); *c = __sync_val_compare_and_swap(a, o, v); return *c == o; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, fmo); }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
