// Deterministic simulation runtime (see simrt.h).
//
//  * OpenMP runtime: this file implements the libgomp ABI used by the compiled
//    code.  The workers of a team are fibers of ONE operating-system thread; a
//    seeded scheduler decides which one runs, and may preempt at every
//    instrumented point (basic block or memory access).
//  * Clock: omp_get_wtime(), clock() and system_clock::now() read a simulated
//    clock that advances with executed work and by injected jumps.
//  * Storage: the libc entry points used by libstdc++ file streams are
//    interposed, and inject errors on files of the run.
//  * Heap: operator new/delete use an arena at a fixed address, so that object
//    addresses are a function of the run only; fresh memory may hold arbitrary
//    bytes chosen by the seed.
#include "simrt.h"
#include <sys/mman.h>
#include <sys/uio.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <chrono>
#include <ctime>
#include <random>
#include <sys/time.h>
#include <new>
#include <exception>
#include <cxxabi.h>

namespace sim {
const char* const IO_KIND_NAMES[IO_KINDS] = {
    "open-fail",  "read-eio",    "read-short",  "read-eintr", "write-eio",
    "write-enospc", "write-short", "write-eintr", "close-eio"};

/*****************************************************************************/
// Arena
/*****************************************************************************/
static char* const  ARENA_BASE = (char*)0x200000000000ull;
static const size_t ARENA_SIZE = 24ull << 30;
static char*        g_arena_ptr = nullptr;
static uint64_t     g_heap_state = 0;
static const int    NSMALL = 64 * 32;         // 16-byte classes
static const int    NCLASS = NSMALL + 64;     // then powers of two
// A run can use several heaps: what a solve sees of its own heap then depends
// on that solve only, not on what else the process does.
static const int    NHEAP = 3;
static const size_t HEAP_SPAN = 6ull << 30;
static void*        g_free[NHEAP][NCLASS];
static char*        g_top[NHEAP];
static int          g_heap = 0;
static bool         g_user_team = false;
static char*        g_run_base = nullptr;     // start of the current run's heap
static int          current_heap();
struct Hdr {
    uint32_t cls;   // size class, or ~0u for large
    uint32_t pad;
    uint64_t size;
};

static void arena_init() {
    void* p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       MAP_FIXED_NOREPLACE,
                   -1, 0);
    if (p != (void*)ARENA_BASE) {
        fprintf(stderr, "simrt: cannot map the arena\n");
        _exit(97);
    }
    g_arena_ptr = ARENA_BASE + 4096;
}

// Memory handed out by a real allocator holds whatever was there before: the
// contents of a fresh block are arbitrary bytes chosen by the seed.
static void stale(void* p, size_t n) {
    g_heap_state ^= g_heap_state << 13;
    g_heap_state ^= g_heap_state >> 7;
    g_heap_state ^= g_heap_state << 17;
    uint64_t w = g_heap_state;
    if ((w & 7) == 0) w = 0x0101010101010101ull * ((w >> 8) & 255);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) memcpy((char*)p + i, &w, 8);
    if (i < n) memcpy((char*)p + i, &w, n - i);
}
static inline void* arena_alloc(size_t n) {
    if (!g_arena_ptr) arena_init();
    if (n == 0) n = 1;
    size_t   r   = (n + 15) & ~size_t(15);
    uint32_t cls;
    if (r / 16 < (size_t)NSMALL) cls = (uint32_t)(r / 16);
    else {
        int k = 64 - __builtin_clzll(r - 1);
        r   = size_t(1) << k;
        cls = NSMALL + k;
    }
    int heap = g_run_base ? current_heap() : 0;
    if (g_free[heap][cls]) {
        void* p           = g_free[heap][cls];
        g_free[heap][cls] = *(void**)p;
        if (g_heap_state) stale(p, n);
        return p;
    }
    char*& top = g_run_base ? g_top[heap] : g_arena_ptr;
    char*  p   = top;
    top = p + 16 + r;
    if (top > ARENA_BASE + ARENA_SIZE || (g_run_base && top > g_run_base + (heap + 1) * HEAP_SPAN)) {
        static const char msg[] = "simrt: arena exhausted\n";
        (void)!::write(2, msg, sizeof msg - 1);
        _exit(96);
    }
    Hdr* h  = (Hdr*)p;
    h->cls  = cls;
    h->size = r;
    if (g_heap_state) stale(p + 16, n);
    return p + 16;
}
static inline void arena_free(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)((char*)p - 16);
    // memory from before the run is not recycled during it: addresses of the
    // run depend on the run only
    if (h->cls != ~0u && (char*)p >= g_run_base) {
        int heap = g_run_base ? (int)(((char*)p - g_run_base) / HEAP_SPAN) : 0;
        *(void**)p           = g_free[heap][h->cls];
        g_free[heap][h->cls] = p;
    }
}

/*****************************************************************************/
// State
/*****************************************************************************/
static const int    MAXT = 64;
static char* const  STACK_BASE  = (char*)0x300000000000ull;
static const size_t STACK_SIZE  = 2ull << 20;
static const size_t MAIN_STACK  = 256ull << 20;

struct Fiber {
    void*    sp;
    void*    eh[2];   // __cxa_eh_globals
    int      tid;
    bool     done;
    bool     waiting;       // at a barrier
    unsigned single_no;
    unsigned loop_no;
    void*    lock;          // lock held (0: none)
    void*    want;          // lock wanted
    int      slot;
};

static Config               g_cfg;
static Stats                g_st;
static std::vector<Preempt> g_rec;
static std::vector<Race>    g_races;
static bool                 g_on = false;

// scheduler
static Fiber    g_main, g_outer;
static Fiber    g_fib[MAXT];
static Fiber*   g_cur   = nullptr;
static int      g_team  = 1;
static int      g_live  = 0;
static bool     g_in_team = false;
static bool     g_multi = false;        // more than one live fiber
static uint64_t g_next = ~0ull;         // next decision index of interest
static uint64_t g_work_check = ~0ull;   // next work value of interest
static uint64_t g_rng = 1;
static size_t   g_list_pos = 0;
static uint64_t g_nrec = 0;
static void (*g_fn)(void*) = nullptr;
static void* g_data = nullptr;
static unsigned g_barrier_epoch = 0;
static uint64_t g_region_id = 0;
static bool g_team_probe = true;
static bool g_region_query = false;

struct Loop {
    long start, end, incr, chunk;
    long next;
    unsigned no;
    int kind;  // 0 static 1 dynamic 2 guided
    int static_done[MAXT];
    bool init;
};
static Loop g_loops[4];
struct SingleRec { unsigned no; bool taken; };
static unsigned g_single_taken = 0;

// clock
static double   g_jump_sum = 0;
static double   g_deadline = 1e300;
static std::vector<bool> g_jump_done;

static inline uint64_t rnd() {
    g_rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline void hash_sched(uint64_t v) {
    g_st.sched_hash = (g_st.sched_hash ^ v) * 1099511628211ull;
}

const Config& config() { return g_cfg; }
Stats& stats() { return g_st; }
const std::vector<Preempt>& recorded() { return g_rec; }
const std::vector<Race>& race_list() { return g_races; }
void set_team_probe(bool on) {
    if (on) { g_st.max_work_team = 0; g_st.team_sizes = 0; }
    g_team_probe = on;
}

/*****************************************************************************/
// Clock
/*****************************************************************************/
static inline double time_now() {
    return g_cfg.clock_base + g_st.work * g_cfg.sec_per_unit +
           g_st.reads * g_cfg.sec_per_read + g_jump_sum;
}
double now() { return time_now(); }
static uint64_t g_last_event = 0;   // work at the last read or jump
static void check_deadline() {
    if (!g_st.deadline_passed && time_now() > g_deadline) {
        g_st.deadline_passed   = true;
        g_st.work_at_deadline  = g_st.work;
        // executed work may have passed the deadline a little earlier
        if (g_cfg.sec_per_unit > 0) {
            double over = (time_now() - g_deadline) / g_cfg.sec_per_unit;
            uint64_t back = g_st.work - g_last_event;
            g_st.work_at_deadline -= over < (double)back ? (uint64_t)over : back;
        }
        g_st.reads_at_deadline = g_st.reads;
    }
}
void set_deadline(double t) { g_last_event = g_st.work; g_deadline = t; check_deadline(); }
void advance(double sec) { if (sec > 0) { check_deadline(); g_last_event = g_st.work; g_jump_sum += sec; check_deadline(); } }
static uint64_t g_gap_from = 0;
void reset_gaps() { memset(g_st.gap, 0, sizeof g_st.gap); g_st.gap_rest = 0; g_st.gap_n = 0; g_gap_from = g_st.work; }

static void fire_jumps(int on, uint64_t v) {
    for (size_t i = 0; i < g_cfg.jumps.size(); i++) {
        if (!g_jump_done[i] && g_cfg.jumps[i].on == on && g_cfg.jumps[i].at <= v) {
            g_jump_done[i] = true;
            g_jump_sum += g_cfg.jumps[i].delta;
            g_st.jumps_fired++;
        }
    }
}
static void (*g_read_hook)(void*) = nullptr;
static void* g_read_arg = nullptr;
void set_read_hook(void (*fn)(void*), void* arg) { g_read_hook = fn; g_read_arg = arg; }
bool pause(bool on) { bool o = g_on; g_on = on; return o; }
static double clock_read() {
    if (!g_on) {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }
    check_deadline();
    g_last_event = g_st.work;
    uint64_t gap = g_st.work - g_gap_from;
    g_gap_from = g_st.work;
    if (g_st.gap_n < 16) g_st.gap[g_st.gap_n] = gap;
    else if (gap > g_st.gap_rest) g_st.gap_rest = gap;
    g_st.gap_n++;
    g_st.reads++;
    fire_jumps(0, g_st.reads);
    fire_jumps(1, g_st.work);
    check_deadline();
    if (g_read_hook && !g_in_team) {
        g_on = false;
        g_read_hook(g_read_arg);
        g_on = true;
    }
    return time_now();
}

/*****************************************************************************/
// Fibers
/*****************************************************************************/
extern "C" void sim_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
    movq %r12, %rdi
    call *%r13
    ud2
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

static void prep(Fiber* f, char* lo, size_t size, void (*entry)(void*), void* arg) {
    uint64_t* sp = (uint64_t*)((uintptr_t)(lo + size) & ~uintptr_t(63));
    asm volatile("" : "+r"(sp));
    *--sp = 0;
    *--sp = 0;                       // fake return of trampoline (alignment)
    *--sp = (uint64_t)sim_tramp;     // ret target
    *--sp = 0;                       // rbp
    *--sp = 0;                       // rbx
    *--sp = (uint64_t)arg;           // r12
    *--sp = (uint64_t)entry;         // r13
    *--sp = 0;                       // r14
    *--sp = 0;                       // r15
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    *--sp = (uint64_t)mx | ((uint64_t)cw << 32);
    f->sp = sp;
    f->eh[0] = f->eh[1] = nullptr;
}

static void jump_to(Fiber* to) {
    Fiber* from = g_cur;
    if (from == to) return;
    void** eh = (void**)abi::__cxa_get_globals();
    from->eh[0] = eh[0]; from->eh[1] = eh[1];
    eh[0] = to->eh[0]; eh[1] = to->eh[1];
    g_cur = to;
    g_st.switches++;
    sim_switch(&from->sp, to->sp);
}

static inline bool runnable(const Fiber& f) {
    if (f.done || f.waiting) return false;
    if (f.want) {
        for (int i = 0; i < g_team; i++)
            if (!g_fib[i].done && g_fib[i].lock == f.want) return false;
    }
    return true;
}

static void refresh_next() {
    if (!g_multi) { g_next = ~0ull; return; }
    if (g_cfg.sched_mode == 1) {
        if (g_nrec >= g_cfg.sched_limit) { g_next = ~0ull; return; }
        // geometric-like gap
        uint64_t gap = 1 + (uint64_t)(-__builtin_log(((rnd() >> 11) + 1) * (1.0 / 9007199254740993.0)) * g_cfg.sched_gap);
        g_next = g_st.decisions + gap;
    } else if (g_cfg.sched_mode == 2) {
        while (g_list_pos < g_cfg.sched_list.size() &&
               g_cfg.sched_list[g_list_pos].at <= g_st.decisions)
            g_list_pos++;
        g_next = g_list_pos < g_cfg.sched_list.size()
                     ? g_cfg.sched_list[g_list_pos].at
                     : ~0ull;
    } else {
        g_next = ~0ull;
    }
}

static int first_runnable() {
    for (int i = 0; i < g_team; i++)
        if (runnable(g_fib[i])) return i;
    return -1;
}
static int random_runnable() {
    int c[MAXT], n = 0;
    for (int i = 0; i < g_team; i++)
        if (runnable(g_fib[i]) && i != g_cfg.stall_tid) c[n++] = i;
    if (n == 0) return first_runnable();
    return c[rnd() % n];
}

// The forced choice: the current fiber cannot go on.  `dflt` is the choice of
// the sequential schedule; a deviation from it is recorded.
static int choose_forced() {
    g_st.decisions++;
    int dflt = first_runnable();
    int to   = dflt;
    if (g_cfg.sched_mode == 1 && g_nrec < g_cfg.sched_limit) {
        to = random_runnable();
    } else if (g_cfg.sched_mode == 2) {
        for (size_t i = g_list_pos; i < g_cfg.sched_list.size(); i++) {
            if (g_cfg.sched_list[i].at == g_st.decisions) {
                int t = g_cfg.sched_list[i].to;
                if (t >= 0 && t < g_team && runnable(g_fib[t])) to = t;
                break;
            }
            if (g_cfg.sched_list[i].at > g_st.decisions) break;
        }
    }
    if (to != dflt) {
        g_nrec++;
        if (g_rec.size() < (1u << 20)) g_rec.push_back({g_st.decisions, to});
    }
    if (to >= 0) hash_sched(g_st.decisions * 131 + to);
    refresh_next();
    return to;
}

static void yield_forced() {
    int to = choose_forced();
    if (to < 0) {
        static const char msg[] = "simrt: deadlock\n";
        (void)!::write(2, msg, sizeof msg - 1);
        _exit(95);
    }
    jump_to(&g_fib[to]);
}

// A possible preemption (called when decisions reached g_next).
static void __attribute__((noinline)) maybe_preempt() {
    int to = -1;
    if (g_cfg.sched_mode == 1) {
        to = random_runnable();
    } else if (g_cfg.sched_mode == 2) {
        if (g_list_pos < g_cfg.sched_list.size() &&
            g_cfg.sched_list[g_list_pos].at == g_st.decisions) {
            int t = g_cfg.sched_list[g_list_pos].to;
            if (t >= 0 && t < g_team && runnable(g_fib[t])) to = t;
        }
    }
    if (to >= 0 && to != g_cur->tid) {
        g_nrec++;
        if (g_rec.size() < (1u << 20)) g_rec.push_back({g_st.decisions, to});
        g_st.preemptions++;
        hash_sched(g_st.decisions * 131 + to);
        refresh_next();
        jump_to(&g_fib[to]);
    } else {
        refresh_next();
    }
}

static inline void decision_point() {
    if (!g_multi) return;
    if (++g_st.decisions >= g_next) maybe_preempt();
}

static void __attribute__((noinline)) work_event() {
    if (g_st.work >= g_cfg.work_budget) {
        g_st.work_budget_hit = true;
        // Reported by the harness: terminate through a dedicated exit code.
        static const char msg[] = "simrt: work budget exhausted\n";
        (void)!::write(2, msg, sizeof msg - 1);
        _exit(94);
    }
    check_deadline();
    for (auto& j : g_cfg.jumps) if (j.on == 1) { g_last_event = g_st.work; break; }
    fire_jumps(1, g_st.work);
    check_deadline();
    uint64_t nx = g_st.work + 4096;
    if (nx > g_cfg.work_budget) nx = g_cfg.work_budget;
    g_work_check = nx;
}

static inline void tick() {
    if (!g_on) return;
    if (++g_st.work >= g_work_check) work_event();
    if (g_multi && ++g_st.decisions >= g_next) maybe_preempt();
}

static void fiber_body(void* arg) {
    Fiber* f = (Fiber*)arg;
    try {
        g_fn(g_data);
    } catch (...) {
        static const char msg[] = "simrt: exception escaped a parallel region\n";
        (void)!::write(2, msg, sizeof msg - 1);
        _exit(93);
    }
    f->done = true;
    g_live--;
    g_multi = g_live > 1;
    if (g_live == 0) {
        g_multi = false;
        jump_to(&g_main);
    } else {
        // a barrier may now be complete
        int waiting = 0;
        for (int i = 0; i < g_team; i++) if (!g_fib[i].done && g_fib[i].waiting) waiting++;
        if (waiting == g_live) {
            for (int i = 0; i < g_team; i++) g_fib[i].waiting = false;
            g_barrier_epoch++;
        }
        int to = choose_forced();
        if (to < 0) { static const char m[] = "simrt: deadlock\n"; (void)!::write(2, m, sizeof m - 1); _exit(95); }
        jump_to(&g_fib[to]);
    }
    __builtin_unreachable();
}

static void main_body(void* arg) {
    void** a = (void**)arg;
    ((void (*)(void*))a[0])(a[1]);
    g_cur = &g_main;
    void** eh = (void**)abi::__cxa_get_globals();
    eh[0] = g_outer.eh[0]; eh[1] = g_outer.eh[1];
    g_cur = &g_outer;
    void* dummy;
    sim_switch(&dummy, g_outer.sp);
    __builtin_unreachable();
}

static bool g_stacks = false;
static void map_stacks() {
    if (g_stacks) return;
    size_t total = MAIN_STACK + MAXT * STACK_SIZE;
    void*  p = mmap(STACK_BASE, total, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)STACK_BASE) { fprintf(stderr, "simrt: cannot map stacks\n"); _exit(97); }
    g_stacks = true;
}

/*****************************************************************************/
// Race detection (used by the build instrumented for memory accesses)
/*****************************************************************************/
struct Shadow {
    uintptr_t granule;
    uint64_t  epoch;
    uint8_t   writer[8];     // tid+1 of the last writer of the byte
    uint16_t  readers[8];    // mask of readers (tid & 15)
    uint8_t   wlock[8], rlock[8];   // lock held by all these accesses (0: none)
    uint8_t   wat[8], rat[8];       // accesses were atomic
    uintptr_t wpc, rpc;
};
static const size_t SH = 1u << 19;
static Shadow*      g_shadow = nullptr;
static uint64_t     g_epoch = 1;

static void __attribute__((noinline)) report_race(uintptr_t a, uintptr_t pc1, uintptr_t pc2, int t1, int t2, bool w1, bool w2) {
    g_st.races++;
    for (auto& r : g_races) if ((r.pc1 == pc1 && r.pc2 == pc2) || (r.pc1 == pc2 && r.pc2 == pc1)) return;
    if (g_races.size() < 64) g_races.push_back({a, pc1, pc2, t1, t2, w1, w2, g_region_id});
}

static inline void access1(uintptr_t a, size_t n, bool w, uintptr_t pc, bool atomic) {
    // within one granule
    uintptr_t g = a >> 3;
    Shadow&   s = g_shadow[(g * 0x9E3779B97F4A7C15ull) >> 45];
    uint64_t  ep = g_epoch + g_barrier_epoch;
    if (s.granule != g || s.epoch != ep) {
        memset(&s, 0, sizeof s);
        s.granule = g;
        s.epoch   = ep;
    }
    int      tid  = g_cur->tid;
    unsigned lo   = a & 7;
    uint8_t  lock = g_cur->lock ? (uint8_t)(1 + (((uintptr_t)g_cur->lock * 0x9E3779B97F4A7C15ull) >> 56) % 255) : 0;
    for (unsigned i = lo; i < lo + n && i < 8; i++) {
        if (s.writer[i] && s.writer[i] != tid + 1 && !(atomic && s.wat[i]) &&
            !(lock && s.wlock[i] == lock))
            report_race(a, s.wpc, pc, s.writer[i] - 1, tid, true, w);
        if (w) {
            uint16_t others = s.readers[i] & ~(1u << (tid & 15));
            if (others && !(atomic && s.rat[i]) && !(lock && s.rlock[i] == lock))
                report_race(a, s.rpc, pc, __builtin_ctz(others), tid, false, true);
            s.writer[i] = tid + 1;
            s.wlock[i] = lock;
            s.wat[i] = atomic;
        } else {
            if (!s.readers[i]) { s.rlock[i] = lock; s.rat[i] = atomic; }
            else { if (s.rlock[i] != lock) s.rlock[i] = 0; s.rat[i] &= atomic; }
            s.readers[i] |= 1u << (tid & 15);
        }
    }
    if (w) s.wpc = pc;
    else s.rpc = pc;
}
static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc, bool atomic = false) {
    if (!g_on) return;
    if (++g_st.work >= g_work_check) work_event();
    if (!g_in_team || g_team < 2) return;
    g_st.accesses_checked++;
    if (g_multi && ++g_st.decisions >= g_next) maybe_preempt();
    while (n) {
        size_t k = 8 - (a & 7);
        if (k > n) k = n;
        access1(a, k, w, pc, atomic);
        a += k; n -= k;
    }
}
static void forget(void* p, size_t n) {
    if (!g_in_team || g_team < 2 || !g_shadow) return;
    uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
    for (; a < e; a++) {
        Shadow& s = g_shadow[(a * 0x9E3779B97F4A7C15ull) >> 45];
        if (s.granule == a) { s.granule = 0; s.epoch = 0; }
    }
}
static bool g_race_build = false;
static void race_init() {
    g_race_build = true;
    if (!g_shadow)
        g_shadow = (Shadow*)mmap(nullptr, SH * sizeof(Shadow), PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

/*****************************************************************************/
// start / stop
/*****************************************************************************/
static uint64_t g_op_open, g_op_read, g_op_write, g_op_close;
static long     g_space = -1;

static bool g_fresh_heap = false;
void set_fresh_heap(bool on) { g_fresh_heap = on; }

void start(const Config& cfg) {
    g_cfg = cfg;
    g_st  = Stats();
    g_rec.clear();
    g_races.clear();
    g_rec.reserve(1 << 16);
    g_races.reserve(64);
    map_stacks();
    if (cfg.heap_seed) {   // stale stack contents
        g_heap_state = mix(cfg.heap_seed * 3 + 1) | 1;
        stale(STACK_BASE + MAIN_STACK - (1 << 20), (1 << 20));
        for (int i = 0; i < cfg.max_threads && i < MAXT; i++)
            stale(STACK_BASE + MAIN_STACK + (i + 1) * STACK_SIZE - (1 << 17), 1 << 17);
    }
    if (g_race_build) race_init();
    g_rng        = mix(cfg.sched_seed);
    g_heap_state = cfg.heap_seed ? mix(cfg.heap_seed) | 1 : 0;
    if (g_fresh_heap) {
        memset(g_free, 0, sizeof g_free);
        g_run_base = ARENA_BASE + (4ull << 30);
        for (int i = 0; i < NHEAP; i++) g_top[i] = g_run_base + i * HEAP_SPAN;
    }
    g_list_pos = 0;
    g_nrec     = 0;
    g_jump_sum = 0;
    g_deadline = 1e300;
    g_last_event = 0;
    g_gap_from = 0;
    g_jump_done.assign(cfg.jumps.size(), false);
    g_work_check = 0;
    g_in_team = g_multi = false;
    g_op_open = g_op_read = g_op_write = g_op_close = 0;
    g_space = -1;
    g_team_probe = true;
    g_team = 1; g_live = 0;
}

void run_main(void (*fn)(void*), void* arg) {
    static void* a[2];
    a[0] = (void*)fn; a[1] = arg;
    memset(&g_outer, 0, sizeof g_outer);
    memset(&g_main, 0, sizeof g_main);
    prep(&g_main, STACK_BASE, MAIN_STACK, main_body, a);
    g_cur = &g_outer;
    g_on  = true;
    jump_to(&g_main);
    g_on = false;
}
void stop() { g_on = false; }

/*****************************************************************************/
// OpenMP
/*****************************************************************************/
static void run_team(void (*fn)(void*), void* data, unsigned n) {
    g_st.regions++;
    if (n == 0) n = g_cfg.max_threads;
    if (n > (unsigned)MAXT) n = MAXT;
    if (g_in_team) n = 1;  // nested regions are serialised
    if (!g_on || g_in_team) {
        // plain serial execution (nested or outside a simulated run)
        int  saved_team = g_team;
        bool saved = g_in_team;
        if (g_in_team) {
            // keep the identity of the caller: team of one is emulated by
            // running the body with thread 0 of 1
            Fiber* c = g_cur;
            int tid = c->tid;
            c->tid = 0; g_team = 1; g_in_team = false;
            bool m = g_multi; g_multi = false;
            fn(data);
            c->tid = tid; g_team = saved_team; g_in_team = saved; g_multi = m;
        } else {
            fn(data);
        }
        return;
    }
    if (n > g_st.max_team) g_st.max_team = n;
    if (n > 1) g_st.par_regions++;
    g_region_id++;
    g_epoch += g_barrier_epoch + 1;
    g_barrier_epoch = 0;
    memset(g_loops, 0, sizeof g_loops);
    g_single_taken = 0;
    g_fn = fn; g_data = data;
    g_team = n; g_live = n; g_in_team = true;
    g_region_query = false;
    for (unsigned i = 0; i < n; i++) {
        Fiber& f = g_fib[i];
        memset(&f, 0, sizeof f);
        f.tid = i;
        prep(&f, STACK_BASE + MAIN_STACK + i * STACK_SIZE, STACK_SIZE, fiber_body, &f);
    }
    g_multi = n > 1;
    hash_sched(0x5151 + n);
    int to = choose_forced();
    jump_to(&g_fib[to]);
    g_in_team = false; g_multi = false; g_team = 1; g_next = ~0ull;
    if (g_team_probe && !g_region_query) {
        if ((uint64_t)n > g_st.max_work_team) g_st.max_work_team = n;
        g_st.team_sizes |= 1ull << (n < 63 ? n : 63);
    }
    tick();
}

void parallel(void (*fn)(void*), void* data, int n) {
    g_user_team = true;
    run_team(fn, data, n);
    g_user_team = false;
}
static int current_heap() { return g_user_team && g_in_team && g_cur ? 1 + g_cur->tid % (NHEAP - 1) : g_heap; }
int use_heap(int h) {
    int o = g_heap;
    g_heap = h;
    return o;
}
int  user_thread() { return g_in_team && g_cur ? g_cur->tid : 0; }

}  // namespace sim
using namespace sim;

extern "C" {
int omp_get_thread_num(void) { return g_in_team && g_cur ? g_cur->tid : 0; }
int omp_get_num_threads(void) { return g_in_team ? g_team : 1; }
int omp_get_max_threads(void) { if (g_in_team) g_region_query = true; return g_on ? g_cfg.max_threads : 1; }
int omp_get_num_procs(void) { return g_on ? g_cfg.max_threads : 1; }
int omp_in_parallel(void) { return g_in_team && g_team > 1; }
int omp_get_level(void) { return g_in_team ? 1 : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int n) { if (n > 0 && n <= MAXT) g_cfg.max_threads = n; }
double omp_get_wtime(void) { return clock_read(); }
double omp_get_wtick(void) { return 1e-9; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n); }

void GOMP_barrier(void) {
    if (!g_in_team || g_team < 2) { return; }
    Fiber* f = g_cur;
    int waiting = 0;
    for (int i = 0; i < g_team; i++) if (!g_fib[i].done && g_fib[i].waiting) waiting++;
    if (waiting + 1 == g_live) {
        for (int i = 0; i < g_team; i++) g_fib[i].waiting = false;
        g_barrier_epoch++;
        decision_point();
        return;
    }
    f->waiting = true;
    while (f->waiting) yield_forced();
}
bool GOMP_single_start(void) {
    g_region_query = true;
    if (!g_in_team) return true;
    Fiber* f = g_cur;
    f->single_no++;
    if (f->single_no > g_single_taken) { g_single_taken = f->single_no; return true; }
    return false;
}
static void* g_copy = nullptr;
void* GOMP_single_copy_start(void) {
    if (GOMP_single_start()) return nullptr;
    GOMP_barrier();
    return g_copy;
}
void GOMP_single_copy_end(void* d) { g_copy = d; GOMP_barrier(); }

static int g_crit_default, g_atomic_default;
static void lock_take(void* l) {
    if (!g_in_team || g_team < 2) return;
    Fiber* f = g_cur;
    f->want = l;
    decision_point();
    while (!runnable(*f)) yield_forced();
    f->want = nullptr;
    f->lock = l;
}
static void lock_drop() {
    if (!g_in_team || g_team < 2) return;
    g_cur->lock = nullptr;
    decision_point();
}
void GOMP_critical_start(void) { lock_take(&g_crit_default); }
void GOMP_critical_end(void) { lock_drop(); }
void GOMP_critical_name_start(void** p) { lock_take(p); }
void GOMP_critical_name_end(void**) { lock_drop(); }
void GOMP_atomic_start(void) { lock_take(&g_atomic_default); }
void GOMP_atomic_end(void) { lock_drop(); }
typedef struct { void* x; } sim_omp_lock_t;
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock_take(l); }
void omp_unset_lock(void*) { lock_drop(); }
int  omp_test_lock(void* l) {
    if (!g_in_team || g_team < 2) return 1;
    for (int i = 0; i < g_team; i++) if (!g_fib[i].done && g_fib[i].lock == l) return 0;
    g_cur->lock = l;
    return 1;
}

static Loop* loop_get(long start, long end, long incr, long chunk, int kind) {
    static Loop serial;
    if (!g_in_team) {
        serial = Loop();
        serial.start = start; serial.end = end; serial.incr = incr; serial.chunk = chunk < 1 ? 1 : chunk;
        serial.next = start; serial.kind = 1; serial.no = 1; serial.init = true;
        return &serial;
    }
    Fiber* f = g_cur;
    f->loop_no++;
    Loop* l = &g_loops[f->loop_no & 3];
    if (!l->init || l->no != f->loop_no) {
        memset(l, 0, sizeof *l);
        l->start = start; l->end = end; l->incr = incr; l->chunk = chunk;
        l->next = start; l->kind = kind; l->no = f->loop_no; l->init = true;
    }
    return l;
}
static Loop* g_serial_loop = nullptr;
static bool loop_next(Loop* l, long* is, long* ie) {
    if (!l->init) return false;
    decision_point();
    long left = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr
                            : (l->next - l->end - l->incr - 1) / -l->incr;
    if (left <= 0) return false;
    long take;
    int team = g_in_team ? g_team : 1;
    if (l->kind == 0) {
        int tid = g_in_team ? g_cur->tid : 0;
        long total = l->incr > 0 ? (l->end - l->start + l->incr - 1) / l->incr
                                 : (l->start - l->end - l->incr - 1) / -l->incr;
        if (l->chunk <= 0) {
            if (l->static_done[tid]) return false;
            long q = total / team, r = total % team;
            long b = tid * q + (tid < r ? tid : r);
            long c = q + (tid < r ? 1 : 0);
            l->static_done[tid] = 1;
            if (c == 0) return false;
            *is = l->start + b * l->incr; *ie = l->start + (b + c) * l->incr;
            return true;
        }
        long k = (long)l->static_done[tid] * team + tid;
        long b = k * l->chunk;
        if (b >= total) return false;
        long c = l->chunk; if (b + c > total) c = total - b;
        l->static_done[tid]++;
        *is = l->start + b * l->incr; *ie = l->start + (b + c) * l->incr;
        return true;
    }
    if (l->kind == 2) {
        take = (left + team - 1) / team;
        if (take < l->chunk) take = l->chunk;
        if (take < 1) take = 1;
    } else {
        take = l->chunk < 1 ? 1 : l->chunk;
    }
    if (take > left) take = left;
    *is = l->next;
    *ie = l->next + take * l->incr;
    l->next = *ie;
    return true;
}
#define LOOP(NAME, KIND)                                                        \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { \
        Loop* l = loop_get(s, e, i, c, KIND);                                   \
        if (!g_in_team) g_serial_loop = l;                                      \
        return loop_next(l, is, ie);                                            \
    }                                                                           \
    bool GOMP_loop_##NAME##_next(long* is, long* ie) {                          \
        return loop_next(g_in_team ? &g_loops[g_cur->loop_no & 3] : g_serial_loop, is, ie); \
    }
LOOP(static, 0)
LOOP(dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_dynamic, 1)
LOOP(nonmonotonic_guided, 2)
#define LOOPR(NAME, KIND)                                                       \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { \
        Loop* l = loop_get(s, e, i, 1, KIND);                                   \
        if (!g_in_team) g_serial_loop = l;                                      \
        return loop_next(l, is, ie);                                            \
    }                                                                           \
    bool GOMP_loop_##NAME##_next(long* is, long* ie) {                          \
        return loop_next(g_in_team ? &g_loops[g_cur->loop_no & 3] : g_serial_loop, is, ie); \
    }
LOOPR(runtime, 1)
LOOPR(nonmonotonic_runtime, 1)
LOOPR(maybe_nonmonotonic_runtime, 1)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }

// unsigned long long variants
#define ULOOP(NAME, KIND)                                                        \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { \
        (void)up;                                                               \
        Loop* l = loop_get((long)s, (long)e, (long)i, (long)c, KIND);           \
        if (!g_in_team) g_serial_loop = l;                                      \
        return loop_next(l, (long*)is, (long*)ie);                              \
    }                                                                           \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { \
        return loop_next(g_in_team ? &g_loops[g_cur->loop_no & 3] : g_serial_loop, (long*)is, (long*)ie); \
    }
ULOOP(static, 0)
ULOOP(dynamic, 1)
ULOOP(guided, 2)
ULOOP(nonmonotonic_dynamic, 1)
ULOOP(nonmonotonic_guided, 2)

// combined constructs: the loop is created before the team body runs
struct Combined { void (*fn)(void*); void* data; long s, e, i, c; int kind; };
static Combined g_comb;
static void comb_body(void* p) {
    Combined* c = (Combined*)p;
    Fiber* f = g_cur;
    if (g_in_team) {
        f->loop_no = 1;
        Loop* l = &g_loops[1];
        if (!l->init) {
            l->start = c->s; l->end = c->e; l->incr = c->i; l->chunk = c->c;
            l->next = c->s; l->kind = c->kind; l->no = 1; l->init = true;
        }
    } else {
        g_serial_loop = loop_get(c->s, c->e, c->i, c->c, c->kind);
    }
    c->fn(c->data);
}
#define PLOOP(NAME, KIND)                                                       \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
        g_comb = {fn, d, s, e, i, c, KIND};                                     \
        run_team(comb_body, &g_comb, n);                                        \
    }
PLOOP(static, 0)
PLOOP(dynamic, 1)
PLOOP(guided, 2)
PLOOP(nonmonotonic_dynamic, 1)
PLOOP(nonmonotonic_guided, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) {
    g_comb = {fn, d, s, e, i, 1, 1};
    run_team(comb_body, &g_comb, n);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) {
    GOMP_parallel_loop_runtime(fn, d, n, s, e, i, f);
}
// sections
unsigned GOMP_sections_start(unsigned count) {
    long a, b;
    Loop* l = loop_get(1, (long)count + 1, 1, 1, 1);
    if (!g_in_team) g_serial_loop = l;
    return loop_next(l, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next(void) {
    long a, b;
    return loop_next(g_in_team ? &g_loops[g_cur->loop_no & 3] : g_serial_loop, &a, &b) ? (unsigned)a : 0;
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) {
    g_comb = {fn, d, 1, (long)count + 1, 1, 1, 1};
    run_team(comb_body, &g_comb, n);
}
// tasks run at once
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
    if (cpy) {
        char* buf = (char*)aligned_alloc(align < 16 ? 16 : align, (size + 63) / 16 * 16 + 16);
        cpy(buf, data);
        fn(buf);
        free(buf);
    } else {
        fn(data);
    }
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { decision_point(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

/*****************************************************************************/
// Instrumentation callbacks
/*****************************************************************************/
void __sanitizer_cov_trace_pc(void) { tick(); }

void __tsan_init(void) { race_init(); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RA ((uintptr_t)__builtin_return_address(0))
#define RW(N)                                                                   \
    void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, RA); }        \
    void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, RA); }        \
    void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, RA); } \
    void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, RA); } \
    void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, RA); } \
    void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access((uintptr_t)a, n, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { access((uintptr_t)a, n, true, RA); }
void __tsan_vptr_update(void** a, void*) { access((uintptr_t)a, 8, true, RA); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, RA); }
#define AT(BITS, T)                                                             \
    T __tsan_atomic##BITS##_load(const volatile T* a, int) { access((uintptr_t)a, sizeof(T), false, RA, true); return *a; } \
    void __tsan_atomic##BITS##_store(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); *a = v; } \
    T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((uintptr_t)a, sizeof(T), true, RA, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int n) { return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, m, n); } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((uintptr_t)a, sizeof(T), true, RA, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

/*****************************************************************************/
// Static-local guards: another fiber may own the initialisation
/*****************************************************************************/
int __cxa_guard_acquire(uint64_t* g) {
    char* b = (char*)g;
    if (b[0]) return 0;
    while (b[1]) {
        if (!g_multi) break;
        int me = g_cur->tid;
        for (int k = 1; k <= g_team; k++) {
            int t = (me + k) % g_team;
            if (t != me && runnable(g_fib[t])) { jump_to(&g_fib[t]); break; }
        }
        if (b[0]) return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { char* b = (char*)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { char* b = (char*)g; b[1] = 0; }

/*****************************************************************************/
// Clocks
/*****************************************************************************/
clock_t clock(void) {
    return (clock_t)(clock_read() * 1e6);
}
}  // extern "C"

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    double t = g_on ? 1.7e9 + time_now() : 1.7e9;
    return time_point(duration((long)(t * 1e9)));
}
steady_clock::time_point steady_clock::now() noexcept {
    double t = g_on ? clock_read() : 1.0;
    return time_point(duration((long)(t * 1e9)));
}
}}}

// Entropy of the machine: a stream that is a function of the simulated
// environment, so that a run that consumes it differs from one to another
// environment and repeats exactly in the same.
static uint64_t g_entropy = 0;
static uint64_t entropy() {
    uint64_t z = (g_cfg.sched_seed * 0x9e3779b97f4a7c15ull) + (++g_entropy) * 0xbf58476d1ce4e5b9ull + (uint64_t)(g_cfg.clock_base * 1024);
    z ^= z >> 31; z *= 0x94d049bb133111ebull; z ^= z >> 29;
    return z;
}
namespace std { unsigned int random_device::_M_getval() { return (unsigned)(g_on ? entropy() : 4u); } }
extern "C" {
time_t time(time_t* p) noexcept {
    time_t t = (time_t)(1.7e9 + (g_on ? time_now() : 0));
    if (p) *p = t;
    return t;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    double t = 1.7e9 + (g_on ? clock_read() : 0);
    tv->tv_sec = (time_t)t;
    tv->tv_usec = (suseconds_t)((t - (double)tv->tv_sec) * 1e6);
    return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned) noexcept {
    for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)(g_on ? entropy() : 4);
    return (ssize_t)n;
}
}

/*****************************************************************************/
// Storage
/*****************************************************************************/
static bool g_simfd[4096];
static uint64_t g_fdw[4096];
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static const IoFault* fault_at(int kind, uint64_t op) {
    for (auto& f : g_cfg.io_faults)
        if (f.kind == kind && f.op == op) return &f;
    return nullptr;
}

extern "C" {
static FILE* do_open(const char* path, const char* mode, FILE* (*r)(const char*, const char*)) {
    if (!g_on) return r(path, mode);
    g_op_open++;
    g_st.io_opens++;
    if (auto* f = fault_at(IO_OPEN_FAIL, g_op_open)) {
        g_st.io_fired[IO_OPEN_FAIL]++;
        errno = f->arg ? (int)f->arg : EIO;
        return nullptr;
    }
    FILE* p = r(path, mode);
    if (p) {
        int fd = fileno(p);
        if (fd >= 0 && fd < 4096) { g_simfd[fd] = true; g_fdw[fd] = 0; }
    }
    return p;
}
FILE* fopen(const char* path, const char* mode) {
    static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
    return do_open(path, mode, r);
}
FILE* fopen64(const char* path, const char* mode) {
    static auto r = real<FILE* (*)(const char*, const char*)>("fopen64");
    return do_open(path, mode, r);
}
int fclose(FILE* f) {
    static auto r = real<int (*)(FILE*)>("fclose");
    int  fd  = fileno(f);
    bool sim = g_on && fd >= 0 && fd < 4096 && g_simfd[fd];
    bool wrote = sim && g_fdw[fd] > 0;
    if (fd >= 0 && fd < 4096) g_simfd[fd] = false;
    int rc = r(f);
    if (sim && wrote) {
        g_op_close++;
        g_st.io_closes++;
        if (fault_at(IO_CLOSE_EIO, g_op_close)) {
            g_st.io_fired[IO_CLOSE_EIO]++;
            errno = EIO;
            return EOF;
        }
    }
    return rc;
}
ssize_t read(int fd, void* b, size_t n) {
    static auto r = real<ssize_t (*)(int, void*, size_t)>("read");
    if (!g_on || fd < 0 || fd >= 4096 || !g_simfd[fd]) return r(fd, b, n);
    g_op_read++;
    g_st.io_reads++;
    if (fault_at(IO_READ_EINTR, g_op_read)) { g_st.io_fired[IO_READ_EINTR]++; errno = EINTR; return -1; }
    if (fault_at(IO_READ_EIO, g_op_read)) { g_st.io_fired[IO_READ_EIO]++; errno = EIO; return -1; }
    if (auto* f = fault_at(IO_READ_SHORT, g_op_read)) {
        size_t k = f->arg < 1 ? 1 : (size_t)f->arg;
        if (k < n) { n = k; g_st.io_fired[IO_READ_SHORT]++; }
    } else if (g_cfg.io_chunk > 0 && (size_t)g_cfg.io_chunk < n) {
        n = g_cfg.io_chunk;
        g_st.io_fired[IO_READ_SHORT]++;
    }
    return r(fd, b, n);
}
// returns the number of bytes allowed, or -1 with errno set
static ssize_t write_gate(size_t n) {
    g_op_write++;
    g_st.io_writes++;
    if (fault_at(IO_WRITE_EINTR, g_op_write)) { g_st.io_fired[IO_WRITE_EINTR]++; errno = EINTR; return -1; }
    if (fault_at(IO_WRITE_EIO, g_op_write)) { g_st.io_fired[IO_WRITE_EIO]++; errno = EIO; return -1; }
    if (auto* f = fault_at(IO_WRITE_ENOSPC, g_op_write)) { if (g_space < 0) g_space = f->arg; }
    size_t k = n;
    if (auto* f = fault_at(IO_WRITE_SHORT, g_op_write)) {
        size_t q = f->arg < 1 ? 1 : (size_t)f->arg;
        if (q < k) { k = q; g_st.io_fired[IO_WRITE_SHORT]++; }
    }
    if (g_space >= 0) {
        if (g_space == 0 && n > 0) { g_st.io_fired[IO_WRITE_ENOSPC]++; errno = ENOSPC; return -1; }
        if ((size_t)g_space < k) k = g_space;
        g_space -= k;
    }
    return k;
}
ssize_t write(int fd, const void* b, size_t n) {
    static auto r = real<ssize_t (*)(int, const void*, size_t)>("write");
    if (!g_on || fd < 0 || fd >= 4096 || !g_simfd[fd]) return r(fd, b, n);
    ssize_t k = write_gate(n);
    if (k < 0) return -1;
    ssize_t w = r(fd, b, k);
    if (w > 0) { g_st.io_bytes_written += w; g_fdw[fd] += w; }
    return w;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto r = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
    if (!g_on || fd < 0 || fd >= 4096 || !g_simfd[fd]) return r(fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    ssize_t k = write_gate(n);
    if (k < 0) return -1;
    static auto rw = real<ssize_t (*)(int, const void*, size_t)>("write");
    ssize_t done = 0;
    for (int i = 0; i < c && k > 0; i++) {
        size_t m = v[i].iov_len < (size_t)k ? v[i].iov_len : (size_t)k;
        if (m == 0) continue;
        ssize_t w = rw(fd, v[i].iov_base, m);
        if (w < 0) return done ? done : -1;
        done += w; k -= w;
        g_st.io_bytes_written += w; g_fdw[fd] += w;
    }
    return done;
}
}  // extern "C"

/*****************************************************************************/
// operator new / delete
/*****************************************************************************/
static inline void* sim_new(size_t n) {
    void* p = arena_alloc(n);
    if (g_in_team) forget(p, n);
    return p;
}
static inline void sim_del(void* p) {
    if (!p) return;
    if (g_in_team) forget(p, ((Hdr*)((char*)p - 16))->size);
    arena_free(p);
}
void* operator new(size_t n) { return sim_new(n); }
void* operator new[](size_t n) { return sim_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { sim_del(p); }
void operator delete[](void* p) noexcept { sim_del(p); }
void operator delete(void* p, size_t) noexcept { sim_del(p); }
void operator delete[](void* p, size_t) noexcept { sim_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_del(p); }
void* operator new(size_t n, std::align_val_t al) {
    size_t a = (size_t)al;
    if (a <= 16) return sim_new(n);
    char* p = (char*)arena_alloc(n + a + 32);
    uintptr_t q = ((uintptr_t)p + 32 + a - 1) & ~(a - 1);
    Hdr* h = (Hdr*)(q - 16);
    h->cls = ~0u; h->size = n;   // never reused
    return (void*)q;
}
void* operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
void operator delete(void*, std::align_val_t) noexcept {}
void operator delete[](void*, std::align_val_t) noexcept {}
void operator delete(void*, size_t, std::align_val_t) noexcept {}
void operator delete[](void*, size_t, std::align_val_t) noexcept {}
