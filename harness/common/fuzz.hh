// Skeleton of a seeded, model-based stress driver.  A harness defines
// run_case(Case&); everything random comes from c.r, so a case is a function
// of its seed.  Sanitizer reports and fatal signals become VIOL lines too.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace fz {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { uint64_t z = seed + 0x632BE59BD9B4E019ull; for (int i = 0; i < 3; ++i) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; z += 0xD1B54A32D192ED03ull; } s = z; }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t) ((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + (int) below(b - a + 1); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
struct Violation { std::string kind, msg; };
inline bool tracing;
inline std::string prop;
inline std::map<std::string, uint64_t> counters;
inline uint64_t cur_seed;

[[noreturn]] inline void fail(const std::string& kind, const std::string& msg) { throw Violation{kind, msg}; }
inline void check(bool ok, const char* kind, const std::function<std::string()>& msg) { if (!ok) fail(kind, msg()); }
inline std::string fmt(const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline void note(const char* f, ...) { if (!tracing) return; va_list ap; va_start(ap, f); vprintf(f, ap); va_end(ap); putchar('\n'); fflush(stdout); }
inline std::string show(const std::string& k, size_t lim = 300) {
    std::string s = "\"";
    for (unsigned char c : k.substr(0, lim)) { char b[8]; if (c >= 32 && c < 127 && c != '\\' && c != '"') snprintf(b, 8, "%c", c); else snprintf(b, 8, "\\x%02x", c); s += b; }
    return s + (k.size() > lim ? "...\"" : "\"");
}
inline void count(const char* n, uint64_t d = 1) { counters[n] += d; }

struct Case {
    uint64_t seed; Rng r; uint64_t h = 1469598103934665603ull; bool nontrivial = false;
    explicit Case(uint64_t s) : seed(s), r(s) {}
    void hash(uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
    void hash(const std::string& s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; hash(s.size()); }
};
}
void run_case(fz::Case& c);
inline void (*fz_at_end)() = nullptr;       // may fail(); run after all cases
inline void (*fz_at_start)(int, char**) = nullptr;

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
namespace fz {
inline FILE* outf; inline std::string replay_dir = "/tmp"; inline bool reported;
inline std::string harness_name = "harness";
inline void report(const std::string& kind, const std::string& msg) {
    if (reported) return;
    reported = true;
    std::string path = replay_dir + "/" + prop + "-" + harness_name + "-" + std::to_string(cur_seed) + ".txt";
    FILE* f = fopen(path.c_str(), "w");
    if (f) { fprintf(f, "harness: %s --prop %s --one %llu\nkind: %s\n%s\n", harness_name.c_str(), prop.c_str(), (unsigned long long) cur_seed, kind.c_str(), msg.c_str()); fclose(f); }
    std::string m = msg.substr(0, 700); for (auto& ch : m) if (ch == '\n' || ch == '\t') ch = ' ';
    fprintf(outf, "VIOL\t%s\t%s\t%s\n", kind.c_str(), path.c_str(), m.c_str());
    fflush(outf);
}
inline void on_death() { report("sanitizer", "sanitizer report (see the output in the replay file)"); }
inline void on_sig(int sig) { report(sig == SIGABRT ? "assertion" : sig == SIGALRM ? "hang" : "crash", "signal " + std::to_string(sig)); fflush(stdout); _exit(sig == SIGALRM ? 1 : 1); }
}

#ifndef FUZZ_NO_MAIN
int main(int argc, char** argv) {
    using namespace fz;
    uint64_t seed = 1, n = 1000, single = 0; bool has_single = false; double maxs = 1e9; std::string hashes;
    volatile uint64_t* progress = nullptr; int case_timeout = 20;
    outf = stdout;
    { std::string a0 = argv[0]; harness_name = a0.substr(a0.rfind('/') + 1); }
    std::vector<char*> rest{argv[0]};
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--execs") n = strtoull(nx().c_str(), 0, 10);
        else if (a == "--one") { single = strtoull(nx().c_str(), 0, 10); has_single = true; }
        else if (a == "--out") { outf = fopen(nx().c_str(), "w"); if (!outf) return 3; }
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--hashes") hashes = nx();
        else if (a == "--max-seconds") maxs = atof(nx().c_str());
        else if (a == "--case-timeout") case_timeout = atoi(nx().c_str());
        else if (a == "--progress") { int fd = open(nx().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 8)) return 3; progress = (volatile uint64_t*) mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
        else rest.push_back(argv[i]);
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, 0);
    if (!__sanitizer_set_death_callback) for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, 0);
    if (fz_at_start) fz_at_start(rest.size(), rest.data());
    if (has_single) {
        tracing = true; cur_seed = single;
        alarm(case_timeout);
        Case c(single);
        try { run_case(c); if (fz_at_end) fz_at_end(); } catch (Violation& v) { printf("VIOLATION kind=%s: %s\n", v.kind.c_str(), v.msg.c_str()); fflush(stdout); report(v.kind, v.msg); _exit(1); }
        printf("no violation\n"); fflush(stdout);
        return 0;
    }
    time_t t0 = time(0);
    Rng sr(seed ^ 0xABCDEF);
    std::unordered_set<uint64_t> distinct; uint64_t execs = 0, nontrivial = 0; int rc = 0; time_t last_alarm = 0;
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t es = sr.next() >> 8;
        cur_seed = es; if (progress) *progress = es;
        time_t now = time(0);
        if (now != last_alarm) { alarm(case_timeout); last_alarm = now; }
        Case c(es);
        try { run_case(c); } catch (Violation& v) { report(v.kind, v.msg); rc = 1; break; }
        ++execs;
        if (c.nontrivial) { ++nontrivial; if (distinct.size() < 3000000) distinct.insert(c.h); }
        if (difftime(now, t0) > maxs) break;
    }
    alarm(0);
    if (!rc && fz_at_end) try { fz_at_end(); } catch (Violation& v) { report(v.kind, v.msg); rc = 1; }
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "w"); if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); } }
    fprintf(outf, "STATS\t{\"execs\":%llu,\"nontrivial_execs\":%llu", (unsigned long long) execs, (unsigned long long) nontrivial);
    for (auto& p : counters) fprintf(outf, ",\"%s\":%llu", p.first.c_str(), (unsigned long long) p.second);
    fprintf(outf, "}\n"); fflush(outf); fflush(stdout);
    _exit(rc);
}
#endif
