// Controlled-schedule runtime: logical threads (fibers) on one OS thread.
// The code under test is compiled by clang with -fsanitize=thread
// instrumentation, but linked with THIS runtime instead of TSan's: every
// instrumented access to the arena is (a) checked against shadow state and
// (b) a possible context switch.  Everything is driven by one PRNG, so an
// execution is a pure function of its seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace rt {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    void reseed(uint64_t seed) {
        uint64_t z = seed + 0x632BE59BD9B4E019ull;
        for (int i = 0; i < 3; ++i) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; z += 0xD1B54A32D192ED03ull; }
        s = z;
    }
    uint64_t next() {              // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// ---- arena -----------------------------------------------------------
enum Kind : uint8_t { K_OTHER = 0, K_LEAF, K_INTERNODE, K_KSUF, K_GC, K_VALUE, K_TABLE, K_MAX };
struct Obj {
    uint32_t off, size;         // user offset / size
    uint16_t tag;
    uint8_t kind, state;        // 1 live, 2 retired, 3 freed
    bool pool;
    uint32_t alloc_step, free_step;
    int8_t alloc_thr, free_thr;
};
void arena_reset();
// accesses to this range are switch points too (never checked for liveness)
void watch(const void* p, size_t sz);
void* arena_alloc(size_t sz, int kind, int tag, bool pool);
// kind of release: checks tag/size/pool against allocation
void arena_free(void* p, size_t sz, int tag, bool pool, bool via_rcu);
void arena_retire(void* p, size_t sz, int tag, bool pool);
Obj* arena_obj(const void* p);
bool in_arena(const void* p);
size_t live_count(int kind);
size_t live_bytes();
size_t total_allocs(int kind);

// ---- scheduler -------------------------------------------------------
enum Strategy { ST_RANDOM, ST_PCT, ST_WBIAS, ST_STALL, ST_MAX };
struct SchedCfg {
    int strategy = ST_RANDOM;
    uint32_t sw_num = 1, sw_den = 8;     // switch probability
    int pct_d = 2;                       // number of change points
    uint32_t est_len = 1000;             // estimated length for PCT
    uint64_t adversarial_steps = 60000;  // after that: fair scheduling
    uint64_t max_steps = 4000000;        // after that: no progress
};
void run_threads(int n, const std::function<void(int)>& body, Rng& rng, const SchedCfg& cfg);
int cur_thread();               // -1 outside run_threads
uint64_t now();                 // logical clock (increments at each step / event)
uint64_t tick();                // ++clock
void spin_hint();               // a spin loop iteration in the code under test
void yield_point();             // explicit yield
uint64_t exec_switches();
uint64_t exec_hash();
uint64_t thread_steps(int t);
void begin_exec();              // reset per-execution state

// ---- violations ------------------------------------------------------
// record first violation of this execution; does not stop by itself
void violation(const std::string& kind, const std::string& msg);
bool has_violation();
const std::string& violation_kind();
const std::string& violation_msg();
// abort the current execution (longjmp-free: marks & keeps going)
extern bool stop_on_uaf;

}
