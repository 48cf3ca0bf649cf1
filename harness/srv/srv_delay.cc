// Random naps at code edges of the server, from SRV_DELAY_SEED. Either every
// edge naps rarely, or a few edges, chosen by the seed, nap often and long.
#include <cstdint>
#include <cstdlib>
#include <sched.h>
#include <time.h>
#include <unistd.h>
static uint64_t base; static unsigned mean, slow;
static struct Init { Init() { const char* s = getenv("SRV_DELAY_SEED"); base = s ? strtoull(s, 0, 10) : 0; unsigned k = base % 8; mean = k == 0 ? 0 : k <= 2 ? 3000 : 40000; slow = k >= 4 ? k < 6 ? 60 : 300 : 0; } } init_;
static uint32_t nguards; static uint64_t nthreads;
static uint64_t now() { timespec t; clock_gettime(CLOCK_MONOTONIC_COARSE, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; while (a != b) *a++ = ++nguards; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!mean) return;
    static thread_local uint64_t x, next; static thread_local bool busy;
    if (busy) return;
    if (!x) x = (base + __atomic_add_fetch(&nthreads, 1, __ATOMIC_RELAXED) * 0x9E3779B97F4A7C15ull) | 1;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if (x % mean == 0) { busy = true; unsigned k = (x >> 40) % 8; if (k < 4) sched_yield(); else if (k < 7) usleep((x >> 20) % 60); else usleep((x >> 20) % 1500); busy = false; }
    else if (slow && (x >> 50) % 4 == 0) {
        uint64_t h = (base + *g) * 0x9E3779B97F4A7C15ull;
        if ((h >> 32) % slow) return;
        // long naps take up no more than a part of the time
        uint64_t t = now();
        if (t < next) return;
        uint64_t d = 1000 + (x >> 20) % 14000;
        next = t + d * (3 + (x >> 36) % 8); busy = true; usleep(d); busy = false;
    }
}
