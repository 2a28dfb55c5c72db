/* Deterministic OpenMP runtime and memory access monitor for generated kernels.
 *
 * Kernels are compiled by g++ with -fopenmp and -fsanitize=thread and linked with this library
 * instead of libgomp and libtsan: the compiler's calls at every load and store come here, and
 * parallel regions run their team as coroutines under the control of the checker, which chooses
 * team size and order.  Within a region every access is recorded per thread between two barriers;
 * an address touched by two threads, one of them writing, is a conflict.  Without conflicts all
 * interleavings of the team are equivalent to the one executed.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXT 64
#define STACK (512 * 1024)
#define EXPORT __attribute__((visibility("default")))

/* ---- control by the checker --------------------------------------------------------------- */
static int team_override;      /* 0: as requested (default team when not requested) */
static int default_team = 1;
static int order[MAXT];        /* running order of the threads of a team */
static int order_n;
static long n_regions, n_conflicts, n_switches, n_access, max_team, n_barriers;
static long first_conflict[6]; /* address, size, writer mask, reader mask, region, phase */
static int requested_last;

/* ---- arenas: memory whose accesses are recorded for coverage --------------------------------- */
#define MAXA 64
typedef struct { uintptr_t lo, hi; uint16_t *writes; uint8_t *reads; int granule; } arena;
static arena arenas[MAXA]; static int n_arenas;

/* ---- access table of the current phase ----------------------------------------------------- */
typedef struct { uintptr_t a; uint64_t w, r; } cell;
static cell *tab; static size_t tab_cap, tab_n;

static void tab_clear(void) { if (tab_n) memset(tab, 0, tab_cap * sizeof *tab); tab_n = 0; }
static cell *tab_get(uintptr_t a) {
    if (!tab_cap) { tab_cap = 1 << 16; tab = calloc(tab_cap, sizeof *tab); }
    if (tab_n * 2 > tab_cap) {
        cell *old = tab; size_t oc = tab_cap;
        tab_cap *= 2; tab = calloc(tab_cap, sizeof *tab); tab_n = 0;
        for (size_t i = 0; i < oc; i++) if (old[i].a) { cell *c = tab_get(old[i].a); c->w = old[i].w; c->r = old[i].r; }
        free(old);
    }
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 20 & (tab_cap - 1);
    while (tab[h].a && tab[h].a != a) h = (h + 1) & (tab_cap - 1);
    if (!tab[h].a) { tab[h].a = a; tab_n++; }
    return &tab[h];
}

/* ---- teams ------------------------------------------------------------------------------------ */
static int in_region, cur, team; static long phase, region_id;
static ucontext_t sched, ctx[MAXT]; static char *stacks[MAXT]; static int state[MAXT]; /* 0 run 1 barrier 2 done */
static void (*body)(void *); static void *body_data;

static inline int on_own_stack(uintptr_t a) {
    return a >= (uintptr_t)stacks[cur] && a < (uintptr_t)stacks[cur] + STACK;
}

static void touch(uintptr_t a, size_t n, int write) {
    if (in_region) {
        if (on_own_stack(a)) return;
        uint64_t bit = 1ull << cur;
        for (uintptr_t g = a >> 2; g <= (a + n - 1) >> 2; g++) {
            cell *c = tab_get(g);
            if (write) c->w |= bit; else c->r |= bit;
            uint64_t others = (c->w | c->r) & ~bit;
            if (others && c->w && ((c->w & (c->w - 1)) || (c->r & ~c->w))) {
                if (!n_conflicts++) {
                    first_conflict[0] = a; first_conflict[1] = n; first_conflict[2] = c->w;
                    first_conflict[3] = c->r; first_conflict[4] = region_id; first_conflict[5] = phase;
                }
            }
        }
    }
    n_access++;
    for (int i = 0; i < n_arenas; i++) {
        arena *A = &arenas[i];
        if (a >= A->lo && a < A->hi) {
            for (size_t k = 0; k < n; k += A->granule) {
                if (a + k >= A->hi) break;
                size_t e = (a + k - A->lo) / A->granule;
                if (write) { if (A->writes[e] < 65535) A->writes[e]++; } else A->reads[e] = 1;
            }
            break;
        }
    }
}

static void yield_to_sched(void) { n_switches++; swapcontext(&ctx[cur], &sched); }
static void entry(void) { body(body_data); state[cur] = 2; yield_to_sched(); }

static void phase_end(void) { tab_clear(); phase++; }

static void run_team(void (*fn)(void *), void *data, unsigned req) {
    requested_last = req;
    if (in_region) { /* nested region: team of one */
        int c = cur, t = team; (void)c; (void)t;
        fn(data); return;
    }
    team = req ? (int)req : default_team;
    if (team_override) team = team_override;
    if (team < 1) team = 1;
    if (team > MAXT) team = MAXT;
    if (team > max_team) max_team = team;
    n_regions++; region_id++; phase = 0; body = fn; body_data = data;
    tab_clear();
    for (int t = 0; t < team; t++) {
        if (!stacks[t]) stacks[t] = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&ctx[t]);
        ctx[t].uc_stack.ss_sp = stacks[t]; ctx[t].uc_stack.ss_size = STACK; ctx[t].uc_link = 0;
        makecontext(&ctx[t], entry, 0); state[t] = 0;
    }
    in_region = 1;
    for (;;) {
        int live = 0, waiting = 0;
        for (int k = 0; k < team; k++) {
            int t = k < order_n && order[k] < team ? order[k] : -1;
            if (order_n != team) t = k; /* no order given for this team size */
            if (t < 0) t = k;
            if (state[t] == 0) { cur = t; swapcontext(&sched, &ctx[t]); }
        }
        for (int t = 0; t < team; t++) { live += state[t] != 2; waiting += state[t] == 1; }
        if (!live) break;
        if (waiting == live) { phase_end(); for (int t = 0; t < team; t++) if (state[t] == 1) state[t] = 0; }
    }
    in_region = 0; phase_end();
}

/* dynamic work sharing: chunks are handed out one at a time, the threads taking turns */
static long ws_next, ws_end, ws_incr, ws_chunk; static long ws_gen_started; static int ws_in[MAXT]; static int ws_members;

static int ws_more(long *a, long *b) {
    if (team > 1 && in_region) { yield_to_sched(); }
    if (ws_incr > 0 ? ws_next >= ws_end : ws_next <= ws_end) return 0;
    long s = ws_next, e = s + ws_chunk * ws_incr;
    if (ws_incr > 0 ? e > ws_end : e < ws_end) e = ws_end;
    ws_next = e; *a = s; *b = e; return 1;
}
static int ws_start(long s, long e, long incr, long chunk, long *a, long *b) {
    if (!ws_members) { ws_next = s; ws_end = e; ws_incr = incr; ws_chunk = chunk > 0 ? chunk : 1; }
    if (!ws_in[cur]) { ws_in[cur] = 1; ws_members++; }
    (void)ws_gen_started;
    return ws_more(a, b);
}
static void barrier(void) {
    if (!in_region) return;
    n_barriers++;
    if (team > 1) { state[cur] = 1; yield_to_sched(); } else phase_end();
}
static void ws_leave(void) { if (ws_in[cur]) { ws_in[cur] = 0; ws_members--; } }

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; run_team(fn, data, n); }
EXPORT void GOMP_barrier(void) { barrier(); }
EXPORT int omp_get_thread_num(void) { return in_region ? cur : 0; }
EXPORT int omp_get_num_threads(void) { return in_region ? team : 1; }
EXPORT int omp_get_max_threads(void) { return default_team; }
EXPORT void omp_set_num_threads(int n) { default_team = n; }
#define FAMILY(kind) \
    EXPORT _Bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, a, b); } \
    EXPORT _Bool GOMP_loop_##kind##_next(long *a, long *b) { return ws_more(a, b); }
FAMILY(dynamic) FAMILY(guided) FAMILY(nonmonotonic_dynamic) FAMILY(nonmonotonic_guided) FAMILY(static)
EXPORT _Bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, a, b); }
EXPORT _Bool GOMP_loop_runtime_next(long *a, long *b) { return ws_more(a, b); }
EXPORT _Bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, a, b); }
EXPORT _Bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return ws_more(a, b); }
EXPORT void GOMP_loop_end(void) { barrier(); ws_leave(); }
EXPORT void GOMP_loop_end_nowait(void) { ws_leave(); }
struct wrapped { void (*fn)(void *); void *data; };
#define COMBINED(kind) \
    EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { \
        ws_next = s; ws_end = e; ws_incr = i; ws_chunk = c > 0 ? c : 1; ws_members = MAXT + 1; (void)f; run_team(fn, d, n); ws_members = 0; memset(ws_in, 0, sizeof ws_in); }
COMBINED(dynamic) COMBINED(guided) COMBINED(nonmonotonic_dynamic) COMBINED(nonmonotonic_guided) COMBINED(static)
EXPORT void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
EXPORT void GOMP_critical_start(void) {}
EXPORT void GOMP_critical_end(void) {}
EXPORT void GOMP_atomic_start(void) {}
EXPORT void GOMP_atomic_end(void) {}
EXPORT _Bool GOMP_single_start(void) { return !in_region || cur == 0; }

/* ---- accesses --------------------------------------------------------------------------------- */
#define RW(n) \
    EXPORT void __tsan_read##n(void *p) { touch((uintptr_t)p, n, 0); } \
    EXPORT void __tsan_write##n(void *p) { touch((uintptr_t)p, n, 1); } \
    EXPORT void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, 0); } \
    EXPORT void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, 1); } \
    EXPORT void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, 0); } \
    EXPORT void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { if (n) touch((uintptr_t)p, n, 0); }
EXPORT void __tsan_write_range(void *p, size_t n) { if (n) touch((uintptr_t)p, n, 1); }
EXPORT void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
EXPORT void __tsan_vptr_read(void **p) { (void)p; }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}

/* ---- interface of the checker ------------------------------------------------------------------- */
EXPORT void mc_reset(int override_team, int dflt) {
    team_override = override_team; default_team = dflt; order_n = 0;
    n_regions = n_conflicts = n_switches = n_access = max_team = n_barriers = 0; memset(first_conflict, 0, sizeof first_conflict);
    for (int i = 0; i < n_arenas; i++) {
        size_t n = (arenas[i].hi - arenas[i].lo + arenas[i].granule - 1) / arenas[i].granule;
        memset(arenas[i].writes, 0, n * 2); memset(arenas[i].reads, 0, n);
    }
}
EXPORT void mc_arenas_clear(void) {
    for (int i = 0; i < n_arenas; i++) { free(arenas[i].writes); free(arenas[i].reads); }
    n_arenas = 0;
}
EXPORT int mc_arena_add(uintptr_t lo, size_t bytes, int granule) {
    if (n_arenas == MAXA) return -1;
    arena *A = &arenas[n_arenas]; A->lo = lo; A->hi = lo + bytes; A->granule = granule;
    size_t n = bytes / granule + 1; A->writes = calloc(n, 2); A->reads = calloc(n, 1);
    return n_arenas++;
}
EXPORT void *mc_arena_writes(int i) { return arenas[i].writes; }
EXPORT void *mc_arena_reads(int i) { return arenas[i].reads; }
EXPORT void mc_order(const int *o, int n) { order_n = n; for (int i = 0; i < n && i < MAXT; i++) order[i] = o[i]; }
EXPORT void mc_stats(long *o) {
    o[0] = n_regions; o[1] = n_conflicts; o[2] = n_switches; o[3] = n_access; o[4] = max_team;
    o[5] = n_barriers; o[6] = requested_last; for (int i = 0; i < 6; i++) o[7 + i] = first_conflict[i];
}
