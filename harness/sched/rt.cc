#include "rt.h"
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <execinfo.h>

namespace rt {

static const size_t ARENA = size_t(64) << 20;
static const size_t RED = 64;
static char* arena_base;
static uint8_t* shadow;         // one byte per 8
static size_t arena_used;
static std::vector<Obj> objs;
static size_t live_by_kind[K_MAX], live_b, total_by_kind[K_MAX];

static uintptr_t watch_lo[8]; static size_t watch_sz[8]; static int nwatch;
void watch(const void* p, size_t sz) { watch_lo[nwatch] = (uintptr_t) p; watch_sz[nwatch++] = sz; }

static bool sched_on;
static int cur = -1;
static uint64_t clk, steps, switches, hashv;

static bool viol; static std::string vkind, vmsg;
bool stop_on_uaf = true;

void violation(const std::string& kind, const std::string& msg) {
    if (viol) return;
    viol = true; vkind = kind; vmsg = msg;
}
bool has_violation() { return viol; }
const std::string& violation_kind() { return vkind; }
const std::string& violation_msg() { return vmsg; }

static void init() {
    arena_base = (char*) mmap((void*) 0x10000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (uint8_t*) mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena_base == MAP_FAILED || shadow == MAP_FAILED) { perror("mmap"); _exit(3); }
    arena_used = 4096;
}
void arena_reset() {
    if (!arena_base) init();
    memset(shadow, 0, (arena_used + 4096) / 8);
    arena_used = 4096;
    objs.clear();
    memset(live_by_kind, 0, sizeof live_by_kind);
    memset(total_by_kind, 0, sizeof total_by_kind);
    live_b = 0;
}
void* arena_alloc(size_t sz, int kind, int tag, bool pool) {
    size_t off = (arena_used + RED + 63) & ~size_t(63);
    if (off + sz + RED > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    size_t g = (sz + 7) / 8;
    memset(shadow + off / 8, 1, g);
    // fresh memory holds junk, as from a real allocator
    memset(arena_base + off, 0xA5, sz);
    arena_used = off + g * 8;
    Obj o; o.off = off; o.size = sz; o.tag = tag; o.kind = kind; o.state = 1; o.pool = pool;
    o.alloc_step = clk; o.free_step = 0; o.alloc_thr = cur; o.free_thr = -1;
    objs.push_back(o);
    ++live_by_kind[kind]; ++total_by_kind[kind]; live_b += sz;
    return arena_base + off;
}
Obj* arena_obj(const void* p) {
    size_t off = (const char*) p - arena_base;
    auto it = std::upper_bound(objs.begin(), objs.end(), off, [](size_t a, const Obj& b) { return a < b.off; });
    if (it == objs.begin()) return nullptr;
    --it;
    return &*it;
}
bool in_arena(const void* p) { return (uintptr_t) p - (uintptr_t) arena_base < arena_used; }
static const char* kname(int k) {
    static const char* n[] = {"other", "leaf", "internode", "suffix-block", "gc-record", "value", "table"};
    return n[k];
}
static std::string odesc(Obj* o, const void* p) {
    char b[256];
    if (!o) return "unknown";
    snprintf(b, sizeof b, "%s obj@%u size %u tag %#x state %d offset %ld alloc@%u by T%d free@%u by T%d", kname(o->kind), o->off, o->size, o->tag, o->state,
             (long) ((const char*) p - (arena_base + o->off)), o->alloc_step, o->alloc_thr, o->free_step, o->free_thr);
    return b;
}
static bool check_release(const char* what, void* p, size_t sz, int tag, bool pool, Obj*& o) {
    o = in_arena(p) ? arena_obj(p) : nullptr;
    if (!o || arena_base + o->off != p) { violation("bad-free", std::string(what) + " of a pointer that is not an allocation"); return false; }
    if (o->size != sz || o->tag != tag || o->pool != pool) {
        char b[256]; snprintf(b, sizeof b, "%s with size %zu tag %#x pool %d, but allocated as: %s (pool %d)", what, sz, tag, pool, odesc(o, p).c_str(), o->pool);
        violation("mismatched-free", b);
    }
    return true;
}
void arena_retire(void* p, size_t sz, int tag, bool pool) {
    Obj* o;
    if (!check_release("deferred free", p, sz, tag, pool, o)) return;
    if (o->state != 1) { violation("double-free", "deferred free of " + odesc(o, p)); return; }
    o->state = 2; o->free_thr = cur; o->free_step = clk;
}
void arena_free(void* p, size_t sz, int tag, bool pool, bool via_rcu) {
    Obj* o;
    if (!check_release("free", p, sz, tag, pool, o)) return;
    if (o->state == 3 || (o->state == 2 && !via_rcu)) { violation("double-free", "free of " + odesc(o, p)); return; }
    o->state = 3; if (!via_rcu) { o->free_thr = cur; o->free_step = clk; }
    memset(shadow + o->off / 8, 2, (o->size + 7) / 8);
    memset(p, 0xDB, o->size);
    --live_by_kind[o->kind]; live_b -= o->size;
}
size_t live_count(int kind) { return live_by_kind[kind]; }
size_t live_bytes() { return live_b; }
size_t total_allocs(int kind) { return total_by_kind[kind]; }

// ---- fibers ----------------------------------------------------------
extern "C" void rt_switch(void** save, void* load);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

static const int MAXT = 8;
static const size_t STK = 512 << 10;
struct Fiber { void* sp; char* stk; bool done; int prio; uint64_t steps, consec; };
static Fiber fb[MAXT];
static void* main_sp;
static int nthr, nlive;
static const std::function<void(int)>* bodyp;
static Rng* rngp;
static SchedCfg cfg;
static std::vector<uint32_t> change; static size_t change_i;
static int lowprio;
static uint64_t sched_steps;
static bool fair;
static bool in_viol_exit;
static int stall_victim; static uint64_t stall_at; static bool stalled; static uint64_t stall_budget;

static void switch_to(int t);
static int pick_other(bool include_self) {
    int k = 0, c[MAXT];
    for (int i = 0; i < nthr; ++i)
        if (!fb[i].done && (include_self || i != cur) && !(stalled && i == stall_victim && nlive > 1)) c[k++] = i;
    if (!k) {
        if (stalled && !fb[stall_victim].done) { stalled = false; return stall_victim; }
        return cur;
    }
    return c[rngp->below(k)];
}
static int pick_prio() {
    int b = -1;
    for (int i = 0; i < nthr; ++i)
        if (!fb[i].done && (b < 0 || fb[i].prio > fb[b].prio)) b = i;
    return b;
}
static void fiber_main();
static void switch_to(int t) {
    if (t == cur || t < 0) return;
    int old = cur;
    cur = t;
    ++switches;
    hashv = (hashv ^ (uint64_t(t) + 1 + (fb[old < 0 ? 0 : old].steps << 4))) * 0x100000001b3ull;
    hashv ^= hashv >> 29;
    fb[t].consec = 0;
    rt_switch(old < 0 ? &main_sp : &fb[old].sp, fb[t].sp);
}
static void no_progress() {
    if (in_viol_exit) return;
    std::string s = "no completion after " + std::to_string(sched_steps) + " steps (the last ones under fair scheduling); per-thread steps:";
    for (int i = 0; i < nthr; ++i) s += " T" + std::to_string(i) + (fb[i].done ? "(done)=" : "=") + std::to_string(fb[i].steps);
    violation("no-progress", s);
    in_viol_exit = true;
    // abandon all fibers: return to main
    int old = cur; cur = -1; sched_on = false;
    rt_switch(&fb[old].sp, main_sp);
}
static bool abandon;
static void give_up() {
    int old = cur; cur = -1; sched_on = false;
    rt_switch(&fb[old].sp, main_sp);
}
static inline void sched_point(bool strong) {
    Fiber& f = fb[cur];
    ++f.steps; ++f.consec; ++sched_steps;
    if (__builtin_expect(sched_steps > cfg.adversarial_steps, 0)) {
        fair = true; stalled = false;
        if (sched_steps > cfg.max_steps) no_progress();
        if (rngp->chance(1, 16)) switch_to(pick_other(false));
        return;
    }
    switch (cfg.strategy) {
    case ST_RANDOM:
        if (rngp->chance(cfg.sw_num, cfg.sw_den)) switch_to(pick_other(false));
        break;
    case ST_WBIAS:
        if (strong ? rngp->chance(cfg.sw_num, cfg.sw_den) : rngp->chance(1, 128)) switch_to(pick_other(false));
        break;
    case ST_PCT:
        if (change_i < change.size() && sched_steps >= change[change_i]) {
            ++change_i; f.prio = --lowprio; switch_to(pick_prio());
        } else if (f.consec > 3000) { f.prio = --lowprio; switch_to(pick_prio()); }
        break;
    case ST_STALL:
        if (!stalled && cur == stall_victim && stall_budget && f.steps >= stall_at) {
            stalled = true; --stall_budget; stall_at = f.steps + 1 + rngp->below(cfg.est_len);
            switch_to(pick_other(false));
        } else if (f.consec > 3000) {
            if (stalled) { stalled = false; switch_to(stall_victim); }
            else switch_to(pick_other(false));
        } else if (rngp->chance(1, 200)) switch_to(pick_other(false));
        break;
    }
}
void spin_hint() {
    if (!sched_on) {
        if (++sched_steps > cfg.max_steps * 4) { violation("no-progress", "sequential operation spins forever"); fprintf(stderr, "sequential spin\n"); abort(); }
        return;
    }
    Fiber& f = fb[cur];
    ++f.steps; ++sched_steps;
    if (sched_steps > cfg.max_steps) no_progress();
    if (fair) { switch_to(pick_other(false)); return; }
    switch (cfg.strategy) {
    case ST_PCT: f.prio = --lowprio; switch_to(pick_prio()); break;
    case ST_STALL:
        if (stalled && rngp->chance(1, 40)) { stalled = false; switch_to(stall_victim); }
        else switch_to(pick_other(false));
        break;
    default: if (rngp->chance(1, 2)) switch_to(pick_other(false));
    }
}
void yield_point() { if (sched_on) sched_point(true); }
static void fiber_main() {
    (*bodyp)(cur);
    Fiber& f = fb[cur];
    f.done = true; --nlive;
    if (stalled && cur == stall_victim) stalled = false;
    if (!nlive) { int old = cur; cur = -1; sched_on = false; rt_switch(&fb[old].sp, main_sp); abort(); }
    int t = cfg.strategy == ST_PCT && !fair ? pick_prio() : pick_other(false);
    switch_to(t);
    abort();
}
void run_threads(int n, const std::function<void(int)>& body, Rng& rng, const SchedCfg& c) {
    cfg = c; rngp = &rng; bodyp = &body; nthr = nlive = n;
    sched_steps = 0; fair = false; in_viol_exit = false; abandon = false; stalled = false;
    change.clear(); change_i = 0; lowprio = 0;
    if (cfg.strategy == ST_PCT) {
        for (int i = 0; i < cfg.pct_d; ++i) change.push_back(rng.below(cfg.est_len) + 1);
        std::sort(change.begin(), change.end());
    }
    if (cfg.strategy == ST_STALL) { stall_victim = rng.below(n); stall_at = 1 + rng.below(cfg.est_len); stall_budget = 1 + rng.below(4); }
    int order[MAXT];
    for (int i = 0; i < n; ++i) order[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(order[i], order[rng.below(i + 1)]);
    for (int i = 0; i < n; ++i) {
        Fiber& f = fb[i];
        if (!f.stk) {
            f.stk = (char*) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (f.stk == MAP_FAILED) { perror("mmap"); _exit(3); }
        }
        f.done = false; f.prio = order[i] + 1; f.steps = f.consec = 0;
        void** sp = (void**) (f.stk + STK - 64);
        *--sp = nullptr;             // alignment / fake return
        *--sp = (void*) fiber_main;  // ret target
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        f.sp = sp;
    }
    sched_on = true;
    cur = -1;
    int t = cfg.strategy == ST_PCT ? pick_prio() : rng.below(n);
    switch_to(t);
    sched_on = false; cur = -1;
}
int cur_thread() { return cur; }
uint64_t now() { return clk; }
uint64_t tick() { return ++clk; }
uint64_t exec_switches() { return switches; }
uint64_t exec_hash() { return hashv; }
uint64_t thread_steps(int t) { return fb[t].steps; }
void begin_exec() {
    clk = 1; steps = 0; switches = 0; hashv = 0xcbf29ce484222325ull; viol = false; vkind.clear(); vmsg.clear();
    sched_on = false; cur = -1; sched_steps = 0; cfg = SchedCfg();
    arena_reset();
}

// ---- access hook -----------------------------------------------------
__attribute__((noinline)) static void bad_access(const void* a, size_t sz, bool w) {
    Obj* o = arena_obj(a);
    std::string s = std::string(w ? "write" : "read") + " of " + std::to_string(sz) + " bytes by T" + std::to_string(cur) + " at step " + std::to_string(clk) + " touches ";
    s += (shadow[((const char*) a - arena_base) / 8] == 2 ? "freed memory: " : "memory outside any block; nearest below: ") + odesc(o, a);
    violation(shadow[((const char*) a - arena_base) / 8] == 2 ? "use-after-free" : "out-of-bounds", s);
}
static inline void access(const void* a, size_t sz, bool w, bool strong) {
    size_t off = (uintptr_t) a - (uintptr_t) arena_base;
    if (off >= arena_used || !arena_base) {
        if (__builtin_expect(nwatch != 0, 0) && sched_on)
            for (int i = 0; i < nwatch; ++i)
                if ((uintptr_t) a - watch_lo[i] < watch_sz[i]) { ++clk; sched_point(strong); return; }
        return;
    }
    ++clk;
    if (__builtin_expect(sched_on, 1)) sched_point(strong);
    else if (__builtin_expect(++sched_steps > 400000000ull, 0)) { fprintf(stderr, "sequential phase does not end\n"); violation("no-progress", "a single-threaded phase does not end"); abort(); }
    // checked after the possible switch: the access happens now
    if (__builtin_expect(shadow[off / 8] != 1, 0)) bad_access(a, sz, w);
    else if (w && sz && __builtin_expect(shadow[(off + sz - 1) / 8] != 1, 0)) bad_access((const char*) a + sz - 1, sz, w);
    // reads may run up to 7 bytes past the end (documented word-wise compares)
    else if (sz > 8 && __builtin_expect(shadow[(off + sz - 8) / 8] != 1, 0)) bad_access((const char*) a + sz - 8, sz, w);
}
} // namespace rt

// ---- TSan ABI --------------------------------------------------------
using namespace rt;
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32; typedef unsigned long long u64;
typedef __uint128_t u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(a, n, false, false); } \
  void __tsan_write##n(void* a) { access(a, n, true, true); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, false); } \
  void __tsan_volatile_write##n(void* a) { access(a, n, true, true); } \
  void __tsan_read_write##n(void* a) { access(a, n, false, true); access(a, n, true, true); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, false, false); } \
  void __tsan_unaligned_write##n(void* a) { access(a, n, true, true); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false, false); } \
  void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true, true); } \
  void __tsan_unaligned_read_write##n(void* a) { access(a, n, false, true); access(a, n, true, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, false); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
    // copy in word pieces with a possible switch between them: memcpy is not atomic
    if (n) { access(s, n, false, false); access(d, n, true, true); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
    if (n) { access(s, n, false, false); access(d, n, true, true); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) access(d, n, true, true); return memset(d, c, n); }
#define AT(T, b) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { access((void*) a, b / 8, false, true); return *a; } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { access((void*) a, b / 8, true, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*) a, b / 8, true, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((void*) a, b / 8, true, true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*) a, b / 8, true, true); T o = *a; if (o == c) *a = v; return o; }
AT(u8, 8) AT(u16, 16) AT(u32, 32) AT(u64, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
