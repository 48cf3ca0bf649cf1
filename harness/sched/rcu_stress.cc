// C06, second monitor: the real reclaimer on real threads, with blocks coming
// from malloc so that AddressSanitizer sees every access to a reclaimed one,
// and callbacks that check grace periods by wall-clock order of section events.
#include "kvthread.hh"
#include "kvthread.cc"
#include <atomic>
#include <thread>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sched.h>

relaxed_atomic<mrcu_epoch_type> globalepoch(1), active_epoch(1);
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;

static const int NT = 6, NC = 6;
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } uint32_t below(uint32_t n) { return (next() >> 11) % n; } };
struct alignas(128) Sec { std::atomic<uint64_t> v{0}; };      // odd: inside
static Sec sec[NT];
static std::atomic<uint64_t> cell[NC];
static threadinfo* T[NT];
static std::atomic<bool> stop{false};
static std::atomic<uint64_t> nreads, nhand, nfreed, ncb, ncbdone, ndelayed, nstall, nticks;
static FILE* outf = stdout; static std::string replay_dir = "/tmp"; static uint64_t seed = 1;
static std::atomic<bool> failed{false};
static void bad(const char* kind, const std::string& m) {
    if (failed.exchange(true)) return;
    std::string p = replay_dir + "/C06-stress-" + std::to_string(seed) + ".txt";
    if (FILE* f = fopen(p.c_str(), "w")) { fprintf(f, "harness: rcu_stress --seed %llu (real threads; timing decides)\n%s: %s\n", (unsigned long long) seed, kind, m.c_str()); fclose(f); }
    fprintf(outf, "VIOL\t%s\t%s\t%s\n", kind, p.c_str(), m.c_str()); fflush(outf);
}
struct CB : public threadinfo::mrcu_callback {
    uint64_t wait[NT]; int ran = 0; threadinfo* owner;
    void operator()(threadinfo& ti) {
        ++ncbdone;
        if (ran++) bad("twice", "a callback ran twice");
        if (&ti != owner) bad("wrong-thread", "a callback ran on another thread's context");
        bool any = false;
        for (int u = 0; u < NT; ++u) if (wait[u] & 1) { any = true; if (sec[u].v.load() == wait[u]) bad("too-early", "a callback ran while thread " + std::to_string(u) + " was still inside the section it was in at hand-over"); }
        ndelayed += any;
        delete this;
    }
};
static void worker(int t, uint64_t sd) {
    Rng r{sd}; threadinfo& ti = *T[t];
    auto open = [&] { sec[t].v.fetch_add(1); }; auto close = [&] { sec[t].v.fetch_add(1); };
    while (!stop.load(std::memory_order_relaxed)) {
        ti.rcu_start(); open();
        int n = 1 + r.below(40);
        for (int i = 0; i < n; ++i) {
            int c = r.below(NC);
            switch (r.below(10)) {
            case 0: case 1: {
                size_t sz = 16 + 8 * r.below(30);
                uint64_t* p = (uint64_t*) ti.allocate(sz, memtag_value); p[0] = sz; p[1] = ~(uint64_t) sz;
                uint64_t* o = (uint64_t*) cell[c].exchange((uint64_t) p);
                if (o) { ti.deallocate_rcu(o, o[0], memtag_value); ++nhand; }
                break; }
            case 2: { CB* cb = new CB; cb->owner = &ti; for (int u = 0; u < NT; ++u) cb->wait[u] = sec[u].v.load(); ti.rcu_register(cb); for (int u = 0; u < NT; ++u) if (sec[u].v.load() != cb->wait[u]) cb->wait[u] = 0; ++ncb; break; }
            case 3: if (r.below(40) == 0) { volatile uint64_t* p = (volatile uint64_t*) cell[c].load(); usleep(r.below(1500)); ++nstall; if (p && p[1] != ~p[0]) bad("reclaimed-under-reader", "a block changed under a reader"); } break;
            case 4: if (r.below(6) == 0) { close(); ti.rcu_quiesce(); open(); } break;
            default: {
                volatile uint64_t* p = (volatile uint64_t*) cell[c].load();
                if (p) { for (int k = r.below(20); k >= 0; --k) if (p[1] != ~p[0]) bad("reclaimed-under-reader", "a block changed under a reader"); ++nreads; }
                break; }
            }
        }
        close(); ti.rcu_stop();
        if (r.below(30) == 0) usleep(r.below(300));
    }
    sec[t].v.store(0);
}
int main(int argc, char** argv) {
    double maxs = 5;
    std::string prog;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed" || a == "--one") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--out") outf = fopen(argv[++i], "w");
        else if (a == "--replay-dir") replay_dir = argv[++i];
        else if (a == "--max-seconds") maxs = atof(argv[++i]);
        else if (a == "--progress") { int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644); if (write(fd, &seed, 8) != 8) return 3; close(fd); }
        else ++i;
    }
    setenv("_", "valgrind", 1);
    Rng r{seed};
    for (int t = 0; t < NT; ++t) T[t] = threadinfo::make(threadinfo::TI_PROCESS, t);
    std::vector<std::thread> th; for (int t = 0; t < NT; ++t) th.emplace_back(worker, t, r.next());
    struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    do {
        usleep(20 + r.below(400));
        globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); ++nticks;
        clock_gettime(CLOCK_MONOTONIC, &b);
    } while (!failed && b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9 < maxs);
    stop = true; for (auto& x : th) x.join();
    // everything handed over must be reclaimed in bounded time
    for (int k = 0; k < 200000 && ncbdone < ncb; ++k) { globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); for (int t = 0; t < NT; ++t) { T[t]->rcu_start(); T[t]->rcu_stop(); } }
    if (!failed && ncbdone != ncb) bad(ncbdone < ncb ? "never" : "twice", std::to_string(ncb) + " callbacks were handed over, " + std::to_string(ncbdone) + " ran");
    fprintf(outf, "STATS\t{\"ticks\":%llu,\"blocks_handed_over\":%llu,\"callbacks\":%llu,\"callbacks_run\":%llu,\"callbacks_some_section_had_delayed\":%llu,\"protected_reads\":%llu,\"stalls_inside_sections\":%llu,\"distinct_schedules\":0}\n",
        (unsigned long long) nticks, (unsigned long long) nhand, (unsigned long long) ncb, (unsigned long long) ncbdone, (unsigned long long) ndelayed, (unsigned long long) nreads, (unsigned long long) nstall);
    fflush(outf);
    return failed ? 1 : 0;
}
