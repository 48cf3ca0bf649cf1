// Controlled-schedule monitor of the real epoch reclaimer (C06) and of the
// real query engine on top of it (C11).  kvthread.cc is compiled into this
// unit with its allocator replaced by the arena, so that every access to
// reclaimer state, tree nodes and rows is a possible context switch and every
// release is seen by the monitor.
#include "rt.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <atomic>
#include <new>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cassert>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <time.h>
#include "compiler.hh"
#include "json.hh"
#include "string.hh"
#include "str.hh"
#include "straccum.hh"

void* monitor_malloc(size_t sz);
void monitor_free(void* p);
int monitor_posix_memalign(void** p, size_t al, size_t sz);
inline void monitor_relax() { (relax_fence)(); rt::spin_hint(); }
#define relax_fence() monitor_relax()
#define malloc monitor_malloc
#define free monitor_free
#define posix_memalign monitor_posix_memalign
#include "kvthread.hh"
#include "kvthread.cc"
#undef malloc
#undef free
#undef posix_memalign
#include "masstree.hh"
#include "kvrow.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#if MASSTREE_ROW_TYPE_ARRAY
# include "value_array.cc"
#endif

using rt::Rng;
using lcdf::Str; using lcdf::Json; using lcdf::String;
using std::string; using std::vector;

relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch = 0;
kvtimestamp_t initial_timestamp = 1;
volatile bool recovering = false;

static string prop = "C06";
static uint64_t curSeed; static bool trace;
static const int MAXT = 5;
static uint64_t st_execs, st_nontrivial, st_sections, st_quiesces, st_ticks, st_hand[4], st_released[4], st_blocked, st_callbacks_again, st_pool_pages, st_big, st_reads, st_drain_rounds, st_wrap;
static uint64_t st_switches, st_steps, st_ops[8], st_keys, st_readsat, st_overlap, st_scanrows, st_live_reads, st_by_strategy[4], st_max_queue, st_early_possible;
static string log_; static void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
static void note(const char* f, ...) {
    if (log_.size() > 300000) return;
    char b[700]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v);
    char h[60]; snprintf(h, sizeof h, "%8llu T%d ", (unsigned long long) rt::now(), rt::cur_thread()); log_ += h; log_ += b; log_ += "\n";
}
#define NOTE(...) do { if (trace) note(__VA_ARGS__); } while (0)
static string fmt(const char* f, ...) { char b[700]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); return b; }

// ------------------------------------------------------------- grace periods
struct Section { bool in = false; uint64_t n = 0; };
static Section sec[MAXT];
static int nthr;                     // threads with a threadinfo
struct Item { int kind; void* p; size_t sz; int owner; uint64_t wait[MAXT]; bool done; uint64_t stamp, step; };
static vector<Item> items;
static std::map<void*, int> by_ptr;   // pending item at an address
static std::map<void*, uint64_t> pool_live;
static vector<int> pend_pool[MAXT];
static const char* iname[] = {"allocate()d block", "pool block", "callback"};
static uint64_t stamp_ctr;

static void open_section(int t) { sec[t].in = true; ++sec[t].n; ++st_sections; NOTE("section %llu opened", (unsigned long long) sec[t].n); }
static void close_section(int t) { sec[t].in = false; NOTE("section %llu closed", (unsigned long long) sec[t].n); }
static int hand_over_begin(int kind, void* p, size_t sz, int owner, uint64_t stamp) {
    Item it; it.kind = kind; it.p = p; it.sz = sz; it.owner = owner; it.done = false; it.stamp = stamp; it.step = rt::now();
    for (int u = 0; u < MAXT; ++u) it.wait[u] = sec[u].in ? sec[u].n : 0;
    items.push_back(it); int i = items.size() - 1;
    by_ptr[p] = i; ++st_hand[kind];
    NOTE("hand over item %d: %s %p", i, iname[kind], p);
    return i;
}
// only sections open from before to after the call were certainly open "at" it
static void hand_over_end(int i) { for (int u = 0; u < MAXT; ++u) if (items[i].wait[u] && !(sec[u].in && sec[u].n == items[i].wait[u])) items[i].wait[u] = 0; }
static void released(int i) {
    Item& it = items[i];
    NOTE("item %d (%s %p) reclaimed", i, iname[it.kind], it.p);
    ++st_released[it.kind];
    if (it.done) { rt::violation("twice", fmt("item %d (%s handed over by T%d at step %llu) was reclaimed twice", i, iname[it.kind], it.owner, (unsigned long long) it.step)); return; }
    it.done = true;
    auto b = by_ptr.find(it.p); if (b != by_ptr.end() && b->second == i) by_ptr.erase(b);
    bool any = false;
    for (int u = 0; u < MAXT; ++u) if (it.wait[u]) {
        any = true;
        if (sec[u].in && sec[u].n == it.wait[u])
            rt::violation("too-early", fmt("item %d (%s, handed over by T%d at step %llu) is reclaimed at step %llu while T%d is still in the section (its number %llu) it was in at hand-over",
                i, iname[it.kind], it.owner, (unsigned long long) it.step, (unsigned long long) rt::now(), u, (unsigned long long) it.wait[u]));
    }
    if (any) ++st_early_possible;
}
static void check_pool(int t) {      // pool blocks are released by becoming list links
    auto& v = pend_pool[t];
    for (size_t k = 0; k < v.size();) {
        Item& it = items[v[k]];
        if (it.done || *(uint64_t*) it.p != it.stamp) { if (!it.done) released(v[k]); v[k] = v.back(); v.pop_back(); } else ++k;
    }
}

// ------------------------------------------------------------- allocator
static bool pool_mode;
static vector<void*> chunks; static size_t chunk_used;
void* monitor_malloc(size_t sz) { return rt::arena_alloc(sz, rt::K_OTHER, 0, false); }
void monitor_free(void* p) {
    auto b = by_ptr.find(p);
    rt::Obj* o = rt::arena_obj(p);
    if (b != by_ptr.end() && items[b->second].kind == 0) released(b->second);
    rt::arena_free(p, o ? o->size : 0, 0, false, false);
}
int monitor_posix_memalign(void** p, size_t, size_t sz) {
    if (sz > (2u << 20)) return 1;
    if (chunk_used == chunks.size()) {
        void* q = mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        chunks.push_back((void*) (((uintptr_t) q + (2 << 20) - 1) & ~uintptr_t((2 << 20) - 1)));
    }
    *p = chunks[chunk_used++]; ++st_pool_pages;
    return 0;
}
static uint64_t pick_epoch(Rng& r) {
    switch (r.below(4)) {
    case 0: ++st_wrap; return uint64_t(0) - 1 - 2 * r.below(12);                       // wraps around zero
    case 1: ++st_wrap; return (uint64_t(1) << 63) + 1 - 2 * (int64_t) r.below(12);     // wraps in the signed order
    default: return 1 + 2 * r.below(20);
    }
}
static bool odd_epochs;       // as in the server; an epoch of zero means "not in a section"
static void tick(int step) {
    if (odd_epochs) step = 2;
    globalepoch.store(globalepoch.load() + step);
    active_epoch.store(threadinfo::min_active_epoch());
    ++st_ticks; NOTE("tick done");
}
static rt::SchedCfg pick_sched(Rng& r, int est) {
    rt::SchedCfg c; c.strategy = r.below(rt::ST_MAX); c.sw_num = 1; c.sw_den = 1 + r.below(r.chance(1, 2) ? 6 : 60);
    c.pct_d = 1 + r.below(5); c.est_len = est; c.adversarial_steps = 60000;
    ++st_by_strategy[c.strategy];
    return c;
}
static threadinfo* T[MAXT];

// ================================================================ C06
struct Obj6 { uint64_t id; uint64_t w[3]; };
struct CB : public threadinfo::mrcu_callback {
    int item, again, other; Rng* r; int owner; int ran;
    void operator()(threadinfo& ti) override;
};
struct World6 {
    Rng& r; uint64_t* cell; int ncell; int nworker; int nticks;
    World6(Rng& rr) : r(rr) {}
    bool only_pool_sz(size_t sz) { (void) sz; return true; }
    static void fill(void* p, size_t sz, uint64_t stamp) { for (size_t i = 0; i + 8 <= sz; i += 8) ((uint64_t*) p)[i / 8] = stamp; }
    void* make(int t, int kind, size_t& sz, uint64_t& stamp) {
        stamp = 0xC0DE000000000000ull | ++stamp_ctr;
        void* p;
        if (kind == 0) { sz = 16 + 8 * r.below(14); p = T[t]->allocate(sz, memtag_value); }
        else {
            sz = pool_mode ? 900 + 8 * r.below(30) : 16 + 8 * r.below(100);
            p = T[t]->pool_allocate(sz, memtag_masstree_leaf);
            if (pool_live.count(p)) rt::violation("twice", fmt("a pool block still in use is handed out again (%p): it was put on the free list twice", p));
            auto b = by_ptr.find(p); if (b != by_ptr.end()) released(b->second);
            pool_live[p] = stamp;
        }
        fill(p, sz, stamp);
        return p;
    }
    void retire(int t, int kind, void* p, size_t sz, uint64_t stamp) {
        int i = hand_over_begin(kind, p, sz, t, stamp);
        if (kind == 0) T[t]->deallocate_rcu(p, sz, memtag_value);
        else { pool_live.erase(p); pend_pool[t].push_back(i); T[t]->pool_deallocate_rcu(p, sz, memtag_masstree_leaf); }
        hand_over_end(i);
    }
    void callback(int t, int again) {
        CB* cb = new(rt::arena_alloc(sizeof(CB), rt::K_OTHER, 0, false)) CB;
        cb->again = again; cb->other = r.chance(1, 4); cb->r = &r; cb->owner = t; cb->ran = 0;
        reg(t, cb, *T[t]);
    }
    void reg(int t, CB* cb, threadinfo& ti) { int i = hand_over_begin(2, cb, sizeof(CB), t, 0); cb->item = i; ti.rcu_register(cb); hand_over_end(i); }
    // a cell holds pointer | kind; the block's size is in a side table
    std::map<void*, std::pair<size_t, uint64_t>> info;
    void publish(int t, int c) {
        int kind = r.below(2); size_t sz; uint64_t stamp; void* p = make(t, kind, sz, stamp);
        info[p] = {sz, stamp};
        uint64_t nv = (uint64_t) p | kind;
        uint64_t old = __atomic_exchange_n(&cell[c], nv, __ATOMIC_SEQ_CST);
        if (old) { void* op = (void*) (old & ~1ull); auto in = info[op]; retire(t, old & 1, op, in.first, in.second); }
    }
    void read(int t, int c) {
        uint64_t v = __atomic_load_n(&cell[c], __ATOMIC_SEQ_CST);
        if (!v) return;
        uint64_t* p = (uint64_t*) (v & ~1ull);
        uint64_t first = 0;
        int n = 1 + r.below(6);
        for (int i = 0; i < n; ++i) {
            uint64_t x = *(volatile uint64_t*) &p[i & 1];
            if (rt::has_violation()) return;
            if (!i) first = x;
            // values are stamps and never change while the block is reachable or protected
            if (x != first || (x >> 48) != 0xC0DE) { rt::violation("reclaimed-under-reader", fmt("T%d in section %llu reads %llx from a block it obtained inside that section, first %llx", t, (unsigned long long) sec[t].n, (unsigned long long) x, (unsigned long long) first)); return; }
            rt::yield_point(); ++st_live_reads;
        }
    }
    void act(int t) {
        switch (r.below(8)) {
        case 0: case 1: publish(t, r.below(ncell)); break;
        case 2: callback(t, r.chance(1, 5) ? 1 + r.below(3) : 0); break;
        case 3: { size_t sz; uint64_t st; int k = r.below(2); void* p = make(t, k, sz, st); if (k) { pool_live.erase(p); T[t]->pool_deallocate(p, sz, memtag_masstree_leaf); } else T[t]->deallocate(p, sz, memtag_value); break; }
        case 4: for (int i = r.below(30); i > 0; --i) rt::yield_point(); break;
        default: read(t, r.below(ncell));
        }
    }
    void worker(int t) {
        int n = 1 + r.below(5);
        for (int s = 0; s < n && !rt::has_violation(); ++s) {
            for (int i = r.below(8); i > 0; --i) rt::yield_point();
            T[t]->rcu_start(); open_section(t);
            int q = r.chance(1, 3) ? r.below(4) : 0;
            for (int k = 0; k <= q; ++k) {
                for (int i = r.below(5); i >= 0 && !rt::has_violation(); --i) act(t);
                if (k < q) { close_section(t); T[t]->rcu_quiesce(); check_pool(t); open_section(t); ++st_quiesces; }
            }
            close_section(t); T[t]->rcu_stop(); check_pool(t); ++st_quiesces;
        }
    }
    size_t pending(int t) { size_t n = 0; for (auto& i : items) n += !i.done && i.owner == t; return n; }
    void prologue() {
        // queues of any length, with any number of epochs in them
        for (int t = 0; t < nworker; ++t) {
            if (r.chance(1, 2)) continue;
            int n = r.below(r.chance(1, 3) ? 900 : 40); if (n > 250) ++st_big;
            T[t]->rcu_start(); open_section(t);
            int every = 1 + r.below(200);
            for (int i = 0; i < n && !rt::has_violation(); ++i) {
                if (r.chance(1, 5)) callback(t, r.chance(1, 10)); else { size_t sz; uint64_t st; int k = r.below(2); void* p = make(t, k, sz, st); retire(t, k, p, sz, st); }
                if (r.below(every) == 0) { tick(r.chance(1, 3) ? 1 : 2); if (r.chance(1, 2)) { close_section(t); T[t]->rcu_quiesce(); check_pool(t); open_section(t); } }
            }
            close_section(t); T[t]->rcu_stop(); check_pool(t);
            st_max_queue = std::max(st_max_queue, (uint64_t) pending(t));
        }
    }
    void run() {
        nworker = 2 + r.below(3); nthr = nworker; nticks = 1 + r.below(12);
        for (int t = 0; t < nworker; ++t) T[t] = threadinfo::make(threadinfo::TI_PROCESS, t);
        ncell = 1 + r.below(4);
        cell = (uint64_t*) rt::arena_alloc(8 * ncell, rt::K_OTHER, 0, false); memset(cell, 0, 8 * ncell);
        prologue();
        if (rt::has_violation()) return;
        auto body = [&](int f) {
            if (f < nworker) worker(f);
            else for (int i = 0; i < nticks && !rt::has_violation(); ++i) { for (int k = r.below(60); k > 0; --k) rt::yield_point(); tick(r.chance(1, 4) ? 1 : 2); }
        };
        rt::run_threads(nworker + 1, body, r, pick_sched(r, 600));
        if (rt::has_violation()) return;
        // every thread is outside: the queues must empty in bounded time
        int base = 0; for (int t = 0; t < nworker; ++t) base += pending(t);
        for (int t = 0; t < nworker && !rt::has_violation(); ++t) {
            int bound = 20 + pending(t) / 32, k = 0;
            bool quiesce = r.chance(1, 3);
            if (quiesce) T[t]->rcu_start();
            for (; k < bound && pending(t) && !rt::has_violation(); ++k) {
                tick(2); if (quiesce) T[t]->rcu_quiesce(); else { T[t]->rcu_start(); T[t]->rcu_stop(); }
                check_pool(t); ++st_drain_rounds;
            }
            if (quiesce) T[t]->rcu_stop();
            check_pool(t);
            if (!rt::has_violation() && pending(t)) {
                string s; for (size_t i = 0; i < items.size(); ++i) if (!items[i].done && items[i].owner == t) { s = fmt(" (e.g. item %zu, %s, handed over at step %llu)", i, iname[items[i].kind], (unsigned long long) items[i].step); break; }
                rt::violation("never", fmt("%zu items of T%d are still waiting%s after %d epoch ticks and quiescent points with no thread in any section", pending(t), t, s.c_str(), bound));
            }
        }
    }
};
static World6* W6;
void CB::operator()(threadinfo& ti) {
    ++ran;
    if (&ti != T[owner]) rt::violation("wrong-thread", "a callback is run with another thread's context");
    released(item);
    if (rt::has_violation()) return;
    if (other) { other = 0; size_t sz; uint64_t st; int k = r->below(2); void* p = W6->make(owner, k, sz, st); W6->retire(owner, k, p, sz, st); }
    if (again > 0) { --again; ++st_callbacks_again; W6->reg(owner, this, ti); }
}

// ================================================================ C11
template <int LW> struct params : public Masstree::nodeparams<LW, LW < 4 ? 3 : 15> { typedef row_type* value_type; typedef ::threadinfo threadinfo_type; static constexpr bool prefetch = false; };
#if MASSTREE_ROW_TYPE_STR
enum { is_str = 1, is_array = 0 };
#elif MASSTREE_ROW_TYPE_ARRAY
enum { is_str = 0, is_array = 1 };
#else
enum { is_str = 0, is_array = 0 };
#endif
typedef vector<string> Row;            // is_str: one element
struct Change { unsigned col; string v; };
enum { O_PUT, O_REPLACE, O_REMOVE, O_GET, O_GET1, O_SCAN };
static const char* oname[] = {"put", "replace", "remove", "get", "get1", "scan"};
struct Op { int type, key; vector<Change> ch; vector<unsigned> f; int n; };
// an observation about one key
struct Ev { int thr, type, key; uint64_t call, ret; bool found; kvtimestamp_t ts; vector<Change> ch; vector<unsigned> f; Row got; bool single; int rc; };
static vector<Ev> evs;
static string show_row(const Row& r) { string s = "["; for (size_t i = 0; i < r.size(); ++i) { if (i) s += "|"; for (unsigned char c : r[i]) s += c >= 32 && c < 127 ? string(1, c) : fmt("\\x%02x", c); } return s + "]"; }
static string show_ch(const vector<Change>& c) { string s; for (auto& x : c) s += fmt(is_str ? "%x=" : "%u=", x.col) + x.v + " "; return s; }
static void apply_changes(Row& r, const vector<Change>& ch) {
    for (auto& c : ch) {
        if (is_str) {
            if (r.empty()) r.push_back("");
            if (c.col == 0) { r[0] = c.v; continue; }
            unsigned off = c.col & 0xffff, len = c.col >> 16;
            if (off + len > r[0].size()) r[0].resize(off + len);
            r[0].replace(off, len, c.v);
        } else { if (r.size() <= c.col) r.resize(c.col + 1); r[c.col] = c.v; }
    }
}
static string column(const Row& r, unsigned k) {
    if (is_str) { const string& s = r[0]; if (!k) return s; unsigned off = k & 0xffff; return off >= s.size() ? "" : s.substr(off, k >> 16); }
    return k < r.size() ? r[k] : "";
}
static string copy_str(Str s) { string o; o.reserve(s.length()); for (int i = 0; i < s.length(); ++i) o += *(volatile const char*) (s.data() + i); return o; }
static string copy_json(const Json& j) { if (j.is_null()) return ""; if (!j.is_s()) return "(not a string)"; return copy_str(Str(j.as_s().data(), j.as_s().length())); }

template <int LW> struct World11 {
    Rng& r; int nworker, nticks, nkeys; vector<string> keys; vector<vector<Op>> prog; typedef Masstree::basic_table<params<LW>> table_t; table_t* table; uint64_t uniq = 0;
    World11(Rng& rr) : r(rr) {}
    static Str K(const string& k) { return Str(k.data() + 16, k.size() - 32); }
    string val() { string s = fmt("%c%llu", 'a' + (int) r.below(26), (unsigned long long) ++uniq); if (is_str) { while (s.size() < 8) s += '.'; return s; } int n = r.chance(1, 3) ? r.below(30) : 0; s += string(n, 'x'); return s; }
    unsigned colno() { return is_str ? 8 * r.below(4) + (8 << 16) : r.below(5); }
    Op gen() {
        Op o; o.key = r.below(nkeys); o.n = 0;
        uint32_t x = r.below(100);
        o.type = x < 40 ? O_PUT : x < 48 ? O_REPLACE : x < 58 ? O_REMOVE : x < 80 ? O_GET : x < 85 ? O_GET1 : O_SCAN;
        if (o.type == O_PUT) {
            std::set<unsigned> cs; int n = 1 + r.below(4);
            if (!is_str && r.chance(1, 3)) for (unsigned i = 0; i < 3; ++i) cs.insert(i);   // the whole row
            while (n--) cs.insert(colno());
            string same = val();
            bool tie = r.chance(1, 2);      // same text in all columns: torn rows are obvious
            for (unsigned c : cs) o.ch.push_back({c, tie ? same : val()});
        } else if (o.type == O_REPLACE) o.ch.push_back({0, val()});
        else if (o.type == O_GET || o.type == O_SCAN) { if (r.chance(1, 2)) { int n = 1 + r.below(3); while (n--) o.f.push_back(colno()); } o.n = 1 + r.below(nkeys + 1); if (o.type == O_SCAN && r.chance(1, 3)) o.n = -o.n; }
        else if (o.type == O_GET1) o.f.push_back(colno());
        return o;
    }
    void exec(int t, const Op& o) {
        threadinfo& ti = *T[t];
        ti.rcu_start(); sec[t].in = true;
        Ev e; e.thr = t; e.type = o.type; e.key = o.key; e.ch = o.ch; e.f = o.f; e.found = false; e.ts = 0; e.single = false; e.rc = 0;
        query<row_type> q;
        Str key = K(keys[o.key]);
        vector<Json> js;
        for (auto& c : o.ch) { js.push_back(Json(c.col)); js.push_back(Json(String(c.v.data(), c.v.size()))); }
        ++st_ops[o.type];
        e.call = rt::tick();
        NOTE("%s k%d %s", oname[o.type], o.key, show_ch(o.ch).c_str());
        switch (o.type) {
        case O_PUT: e.rc = q.run_put(*table, key, js.data(), js.data() + js.size(), ti); e.ts = q.query_times().ts; break;
        case O_REPLACE: e.rc = q.run_replace(*table, key, Str(o.ch[0].v.data(), o.ch[0].v.size()), ti); e.ts = q.query_times().ts; break;
        case O_REMOVE: e.found = q.run_remove(*table, key, ti); if (e.found) e.ts = q.query_times().ts; break;
        case O_GET: {
            Json req = Json::array(1, int(Cmd_Get), String(key.data(), key.length())); for (unsigned f : o.f) req.push_back(f);
            req[2] = String::make_stable(key);
            q.run_get(*table, req, ti);
            e.found = req.size() > 2;   // absent: nothing follows; a row here always has a column
            if (e.found) for (int i = 2; i < req.size(); ++i) e.got.push_back(copy_json(req[i]));
            break; }
        case O_GET1: { Str v; e.found = q.run_get1(*table, key, o.f[0], v, ti); if (e.found) e.got.push_back(copy_str(v)); break; }
        case O_SCAN: {
            Json req = Json::array(1, int(Cmd_Scan), Json()); req[2] = String::make_stable(key); req.push_back(std::abs(o.n)); for (unsigned f : o.f) req.push_back(f);
            if (o.n < 0) q.run_rscan(*table, req, ti); else q.run_scan(*table, req, ti);
            string last; std::set<int> seen;
            for (int i = 2; i + 1 < req.size(); i += 2) {
                string k = copy_json(req[i]); Ev g = e; g.type = O_SCAN; g.found = true; g.key = -1;
                for (int j = 0; j < nkeys; ++j) if (k == string(K(keys[j]).s, K(keys[j]).len)) g.key = j;
                if (g.key < 0) { rt::violation("scan", "a scan returned the key '" + k + "' which was never inserted"); break; }
                if (!last.empty() && (o.n > 0 ? k <= last : k >= last)) { rt::violation("scan", "a scan returned keys out of order: " + last + " then " + k); break; }
                last = k;
                const Json& v = req[i + 1];
                if (v.is_a()) for (int c = 0; c < v.size(); ++c) g.got.push_back(copy_json(v[c])); else { g.got.push_back(copy_json(v)); g.single = true; }
                ++st_scanrows; g.ret = rt::tick(); evs.push_back(g);
            }
            sec[t].in = false; ti.rcu_stop();
            return; }
        }
        e.ret = rt::tick();
        if (trace) { note("%s k%d -> rc %d found %d ts %llu %s", oname[o.type], o.key, e.rc, e.found, (unsigned long long) e.ts, show_row(e.got).c_str()); }
        evs.push_back(e);
        sec[t].in = false; ti.rcu_stop();
    }
    static bool is_update(const Ev& e) { return e.type == O_PUT || e.type == O_REPLACE || (e.type == O_REMOVE && e.found); }
    static string d(const Ev& e) { string s = fmt("T%d %s [%llu,%llu] ", e.thr, oname[e.type], (unsigned long long) e.call, (unsigned long long) e.ret); if (is_update(e)) s += fmt("version %llu ", (unsigned long long) e.ts) + show_ch(e.ch); else if (e.found) s += "returned " + show_row(e.got); else s += "found nothing"; return s; }
    bool matches(const Ev& e, bool present, const Row& row) {
        if (e.found != present) return false;
        if (!present) return true;
        Row want;
        if (e.f.empty()) want = row; else for (unsigned f : e.f) want.push_back(column(row, f));
        return want == e.got;
    }
    void check_key(int k) {
        vector<Ev*> up, rd;
        for (auto& e : evs) if (e.key == k) (is_update(e) ? up : rd).push_back(&e);
        if (up.empty() && rd.empty()) return;
        ++st_keys;
        std::sort(up.begin(), up.end(), [](Ev* a, Ev* b) { return a->ts < b->ts; });
        auto bad = [&](const string& kind, const string& m, Ev* x) {
            string s = fmt("row k%d: ", k) + m + "; " + d(*x) + "\n  updates by version:";
            for (auto* u : up) s += "\n    " + d(*u);
            rt::violation(kind, s);
        };
        for (size_t i = 1; i < up.size(); ++i) if (up[i]->ts == up[i - 1]->ts) return bad("version", "two updates of one row have the same version", up[i]);
        // real time: a version never goes down
        for (size_t i = 0; i < up.size(); ++i) for (size_t j = i + 1; j < up.size(); ++j)
            if (up[j]->ret < up[i]->call) return bad("version", "an update that began after another had completed has a lower version than that one; the earlier update: " + d(*up[j]) + " the later one", up[i]);
        // states by version
        vector<std::pair<bool, Row>> st; st.push_back({false, Row()});
        for (auto* u : up) {
            auto s = st.back();
            if (u->type != O_REMOVE && u->rc != (s.first ? Updated : Inserted)) return bad("result", fmt("an update reports %d although the row, by versions, %s", u->rc, s.first ? "existed" : "did not exist"), u);
            if (u->type == O_REMOVE) { if (!s.first) return bad("result", "a removal succeeded although the row, by versions, did not exist", u); s = {false, Row()}; }
            else { if (!s.first) s.second.clear(); s.first = true; if (u->type == O_REPLACE) s.second = Row{u->ch[0].v}; else apply_changes(s.second, u->ch); }
            st.push_back(s);
        }
        // every read sees one state, and reads never go back
        std::sort(rd.begin(), rd.end(), [](Ev* a, Ev* b) { return a->call < b->call; });
        vector<std::pair<uint64_t, size_t>> doneidx;   // (ret, index)
        for (auto* e : rd) {
            size_t lo = 0, hi = 0;
            for (size_t i = 0; i < up.size(); ++i) { if (up[i]->ret < e->call) lo = std::max(lo, i + 1); if (up[i]->call < e->ret) hi = std::max(hi, i + 1); }
            for (auto& x : doneidx) if (x.first < e->call) lo = std::max(lo, x.second);
            size_t i = lo; for (; i <= hi; ++i) if (matches(*e, st[i].first, st[i].second)) break;
            ++st_readsat;
            if (hi > lo) ++st_overlap;
            if (i > hi) {
                bool other = false; for (auto& s : st) other |= matches(*e, s.first, s.second);
                string s = other ? "a read returned a version of the row that was not current at any moment of the read" : e->found ? "a read returned columns that never were together in any version of the row" : "a read found no row although it existed all the time";
                s += "; states:"; for (size_t j = 0; j < st.size(); ++j) s += fmt(" #%zu ", j) + (st[j].first ? show_row(st[j].second) : "(none)"); s += fmt("; allowed #%zu..#%zu", lo, hi);
                return bad(other ? "stale" : "torn", s, e);
            }
            doneidx.push_back({e->ret, i});
        }
    }
    void run() {
        nworker = 2 + r.below(3); nthr = nworker; nticks = r.below(8); nkeys = 1 + r.below(r.chance(1, 2) ? 3 : 9);
        int fam = r.below(3);
        for (int i = 0; i < nkeys; ++i) keys.push_back(string(16, 'P') + (fam == 0 ? fmt("k%02d", i) : fam == 1 ? fmt("a long shared prefix %02d", i) : fmt("shared%02d%s", i / 3, i % 3 ? i % 3 == 1 ? "suffix" : "suffiy" : "")) + string(16, 0));
        for (int t = 0; t < nworker; ++t) T[t] = threadinfo::make(threadinfo::TI_PROCESS, t);
        table = new table_t; table->initialize(*T[0]);
        int pre = r.below(2 * nkeys + 1);
        for (int i = 0; i < pre && !rt::has_violation(); ++i) { Op o = gen(); if (o.type > O_REMOVE) o.type = O_PUT, o.ch = {{colno(), val()}}; exec(r.below(nworker), o); }
        if (r.chance(1, 3)) tick(2);
        prog.resize(nworker);
        for (auto& p : prog) { int n = 1 + r.below(6); while (n--) p.push_back(gen()); }
        auto body = [&](int f) {
            if (f < nworker) { for (auto& o : prog[f]) { if (rt::has_violation()) return; exec(f, o); } }
            else for (int i = 0; i < nticks && !rt::has_violation(); ++i) { for (int k = r.below(60); k > 0; --k) rt::yield_point(); tick(2); }
        };
        if (!rt::has_violation()) rt::run_threads(nworker + 1, body, r, pick_sched(r, 1500));
        // final contents
        for (int k = 0; k < nkeys && !rt::has_violation(); ++k) { Op o; o.type = O_GET; o.key = k; o.n = 0; exec(0, o); }
        for (int k = 0; k < nkeys && !rt::has_violation(); ++k) check_key(k);
        delete table;
    }
};

// ================================================================ driver
static std::unordered_set<uint64_t> distinct;
static FILE* outf; static string replay_dir;
static string describe() {
    string s;
    if (prop == "C11") { std::sort(evs.begin(), evs.end(), [](const Ev& a, const Ev& b) { return a.call < b.call; }); for (auto& e : evs) s += fmt("k%d ", e.key) + World11<3>::d(e) + "\n"; }
    return s + log_;
}
static void report(uint64_t seed, const string& kind, const string& msg, const string& desc) {
    string path = replay_dir + "/" + prop + "-kv-" + std::to_string(seed) + ".txt";
    FILE* f = fopen(path.c_str(), "w");
    if (f) { fprintf(f, "harness: kv_sched --prop %s --pool %d --one %llu\nkind: %s\n%s\n%s", prop.c_str(), pool_mode, (unsigned long long) seed, kind.c_str(), msg.c_str(), desc.c_str()); fclose(f); }
    string one = msg.substr(0, 700); for (auto& c : one) if (c == '\n' || c == '\t') c = ' ';
    fprintf(outf, "VIOL\t%s\t%s\t%s\n", kind.c_str(), path.c_str(), one.c_str());
    fflush(outf);
}
static void on_sig(int sig) {
    string kind = rt::has_violation() ? rt::violation_kind() : sig == SIGABRT ? "assertion" : "crash";
    string msg = rt::has_violation() ? rt::violation_msg() + " (then signal " + std::to_string(sig) + ")" : "signal " + std::to_string(sig) + " while executing; thread T" + std::to_string(rt::cur_thread()) + " step " + std::to_string(rt::now());
    report(curSeed, kind, msg, describe());
    _exit(1);
}
static volatile uint64_t* progress;
static void one(uint64_t seed) {
    Rng r(seed); curSeed = seed; if (progress) *progress = seed;
    rt::begin_exec();
    log_.clear(); items.clear(); by_ptr.clear(); pool_live.clear(); evs.clear(); stamp_ctr = 0; chunk_used = 0;
    for (int i = 0; i < MAXT; ++i) { sec[i] = Section(); pend_pool[i].clear(); T[i] = nullptr; }
    threadinfo::allthreads = nullptr;
    uint64_t e0 = pick_epoch(r); odd_epochs = (int64_t) e0 < 0 || e0 == 0; globalepoch.store(e0); active_epoch.store(e0);
    if (prop == "C06") { World6 w(r); W6 = &w; w.run(); }
    else if (r.chance(3, 4)) { World11<3> w(r); w.run(); }
    else { World11<15> w(r); w.run(); }
    ++st_execs; st_switches += rt::exec_switches(); st_steps += rt::now();
    if (rt::exec_switches() >= 3) { ++st_nontrivial; if (distinct.size() < 4000000) distinct.insert(rt::exec_hash()); }
}
int main(int argc, char** argv) {
    uint64_t seed = 1, n = 1000, single = 0; bool has_single = false;
    outf = stdout; replay_dir = "/tmp"; double maxs = 1e9; string hashes;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a == "--prop") prop = argv[++i];
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--execs") n = strtoull(argv[++i], 0, 10);
        else if (a == "--pool") pool_mode = atoi(argv[++i]);
        else if (a == "--one") { single = strtoull(argv[++i], 0, 10); has_single = true; }
        else if (a == "--out") { outf = fopen(argv[++i], "w"); if (!outf) return 3; }
        else if (a == "--replay-dir") replay_dir = argv[++i];
        else if (a == "--hashes") hashes = argv[++i];
        else if (a == "--progress") { int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 8)) return 3; progress = (volatile uint64_t*) mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
        else if (a == "--max-seconds") maxs = atof(argv[++i]);
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; }
    }
    setenv("_", pool_mode ? "harness" : "valgrind", 1);
    rt::watch(&globalepoch, sizeof globalepoch); rt::watch(&active_epoch, sizeof active_epoch);
    static char alt[1 << 16];
    stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
    if (has_single) {
        trace = true; one(single);
        printf("%s", describe().c_str());
        if (rt::has_violation()) { printf("VIOLATION kind=%s: %s\n", rt::violation_kind().c_str(), rt::violation_msg().c_str()); return 1; }
        printf("no violation; %llu switches\n", (unsigned long long) rt::exec_switches());
        return 0;
    }
    int rc = 0; time_t t0 = time(0); Rng sr(seed ^ 0xABCDEF);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t es = sr.next() >> 8; one(es);
        if (rt::has_violation()) { report(es, rt::violation_kind(), rt::violation_msg(), describe()); rc = 1; break; }
        if ((i & 127) == 0 && difftime(time(0), t0) > maxs) break;
    }
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "w"); if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); } }
    fprintf(outf, "STATS\t{");
    auto pr = [&](const char* n, uint64_t v) { fprintf(outf, "\"%s\":%llu,", n, (unsigned long long) v); };
    pr("execs", st_execs); pr("nontrivial_execs", st_nontrivial); pr("steps", st_steps); pr("switches", st_switches); pr("epoch_ticks", st_ticks); pr("executions_starting_near_epoch_wrap", st_wrap);
    if (prop == "C06") {
        pr("read_sections", st_sections); pr("quiescent_points", st_quiesces); pr("handed_over_blocks", st_hand[0]); pr("handed_over_pool_blocks", st_hand[1]); pr("handed_over_callbacks", st_hand[2]);
        pr("reclaimed_blocks", st_released[0]); pr("reclaimed_pool_blocks", st_released[1]); pr("callbacks_run", st_released[2]); pr("callbacks_registering_again", st_callbacks_again); pr("reclaimed_items_some_section_had_delayed", st_early_possible);
        pr("protected_reads", st_live_reads); pr("queues_over_one_group", st_big); pr("max_queue", st_max_queue); pr("drain_rounds", st_drain_rounds);
    } else {
        for (int i = 0; i < 6; ++i) { string s = string("ops_") + oname[i]; pr(s.c_str(), st_ops[i]); }
        pr("row_histories_checked", st_keys); pr("row_reads_checked", st_readsat); pr("row_reads_overlapping_an_update", st_overlap); pr("scan_rows", st_scanrows);
    }
    static const char* sn[] = {"random", "pct", "wbias", "stall"};
    for (int i = 0; i < 4; ++i) { string s = string("strategy_") + sn[i]; pr(s.c_str(), st_by_strategy[i]); }
    fprintf(outf, "\"distinct_schedules\":%zu}\n", distinct.size());
    fflush(outf);
    return rc;
}
