// C02/C03: the tree against std::map, one thread, every node width / search
// method / version flavour compiled in, ASan+UBSan underneath.
#ifdef GROUP
#define FUZZ_NO_MAIN
#endif
#include "fuzz.hh"
#include "compiler.hh"
#include "kvthread.hh"
#include "masstree.hh"
#include "masstree_struct.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include <deque>
using namespace fz;
using lcdf::Str;
using std::string;
using std::vector;
struct SeqTI {
    struct mrcu_callback { virtual ~mrcu_callback() {} virtual void operator()(SeqTI&) = 0; };
    struct spin { uint64_t n = 0; void operator()() { if (++n > 1000000) abort(); } template <typename V> void operator()(V) { if (++n > 1000000) abort(); } };
    struct Blk { size_t sz; int tag; bool pool; bool retired; };
    std::map<void*, Blk> blocks;
    struct D { void* p; mrcu_callback* cb; };
    std::deque<D> q;
    spin accounting_relax_fence(threadcounter) { return spin(); }
    spin stable_fence() { return spin(); }
    spin lock_fence(threadcounter) { return spin(); }
    void mark(threadcounter) {} void mark(threadcounter, int64_t) {}
    bool has_counter(threadcounter) const { return false; }
    uint64_t counter(threadcounter) const { return 0; }
    kvtimestamp_t operation_timestamp() const { return 2; }
    kvtimestamp_t update_timestamp() const { return 2; }
    kvtimestamp_t update_timestamp(kvtimestamp_t) const { return 2; }
    template <typename N> void observe_phantoms(N*) {}
    void* get(size_t sz, int tag, bool pool) {
        void* p = nullptr;
        if (pool) { if (posix_memalign(&p, 64, (sz + 63) & ~size_t(63))) abort(); } else p = malloc(sz ? sz : 1);
        memset(p, 0xA5, sz);
        blocks[p] = Blk{sz, tag, pool, false};
        return p;
    }
    void put(void* p, size_t sz, int tag, bool pool) {
        auto it = blocks.find(p);
        if (it == blocks.end()) fail("bad-free", "a block that is not allocated is freed");
        // a pool block may be described by any size of the same line count
        bool szok = pool ? (sz + 63) / 64 == (it->second.sz + 63) / 64 : sz == it->second.sz;
        if (!szok || it->second.pool != pool || (it->second.tag & ~0xff) != (tag & ~0xff)) fail("mismatched-free", fmt("block of %zu bytes (tag %x) freed as %zu bytes (tag %x)", it->second.sz, it->second.tag, sz, tag));
        blocks.erase(it);
        free(p);
    }
    void retire(void* p, size_t sz, int tag, bool pool) {
        auto it = blocks.find(p);
        if (it == blocks.end()) fail("bad-free", "a block that is not allocated is retired");
        if (it->second.retired) fail("double-retire", "a block is retired twice");
        bool szok = pool ? (sz + 63) / 64 == (it->second.sz + 63) / 64 : sz == it->second.sz;
        if (!szok || it->second.pool != pool) fail("mismatched-free", fmt("block of %zu bytes retired as %zu bytes", it->second.sz, sz));
        it->second.retired = true;
        q.push_back(D{p, nullptr});
        (void) tag;
    }
    void* allocate(size_t sz, memtag t) { return get(sz, t, false); }
    void deallocate(void* p, size_t sz, memtag t) { put(p, sz, t, false); }
    void deallocate_rcu(void* p, size_t sz, memtag t) { retire(p, sz, t, false); }
    void* pool_allocate(size_t sz, memtag t) { return get(sz, t, true); }
    void pool_deallocate(void* p, size_t sz, memtag t) { put(p, sz, t, true); }
    void pool_deallocate_rcu(void* p, size_t sz, memtag t) { retire(p, sz, t, true); }
    void rcu_register(mrcu_callback* cb) { q.push_back(D{nullptr, cb}); }
    void quiesce() {
        size_t guard = 0;
        while (!q.empty()) {
            if (++guard > 1000000) fail("drain", "deferred work never ends");
            D d = q.front(); q.pop_front();
            if (d.cb) (*d.cb)(*this);
            else { blocks.erase(d.p); free(d.p); }
        }
    }
};

struct Val { uint64_t id; uint32_t klen; uint32_t check; };
struct vprint { static void print(Val* v, FILE* f, const char* prefix, int indent, Str key, kvtimestamp_t, char*) { fprintf(f, "%s%*s%.*s = %llu\n", prefix, indent, "", key.len, key.s, (unsigned long long) v->id); } };
template <int LW, int IW, int BM, bool CONC, typename NV, int DBG = 0> struct Params : public Masstree::nodeparams<LW, IW> {
    static constexpr bool concurrent = CONC;
    static constexpr int bound_method = BM;
    static constexpr int debug_level = DBG;
    static constexpr bool need_phantom_epoch = CONC;
    typedef NV nodeversion_value_type;
    typedef Val* value_type; typedef vprint value_print_type; typedef SeqTI threadinfo_type;
};

// a key in its own heap block: 8 readable bytes around it (documented slack of
// the word-wise comparisons), nothing beyond
struct KeyBuf { char* b; int n; explicit KeyBuf(const string& k) : b((char*) malloc(k.size() + 16)), n(k.size()) { memset(b, 0xEE, n + 16); memcpy(b + 8, k.data(), n); } ~KeyBuf() { free(b); } Str str() const { return Str(b + 8, n); } };

static string rndbytes(Rng& r, int l, int alpha) {
    static const char al[] = {0, 'a', (char) 255, 'b', 1, (char) 128, 'z', (char) 254};
    string s(l, 0);
    if (alpha == 0) for (auto& c : s) c = (char) r.below(256);
    else for (auto& c : s) c = al[r.below(alpha)];
    return s;
}
static string mutate(Rng& r, const string& k) {
    string s = k;
    switch (r.below(8)) {
    case 0: s = s.substr(0, r.below(s.size() + 1)); break;
    case 1: s += rndbytes(r, 1 + r.below(3), 1 + r.below(4)); break;
    case 2: s += string(1 + r.below(9), '\0'); break;
    case 3: if (!s.empty()) s[r.below(s.size())] ^= 1 << r.below(8); break;
    case 4: s = s.substr(0, s.size() / 8 * 8); break;                       // cut at a slice boundary
    case 5: s = s.substr(0, s.size() / 8 * 8) + rndbytes(r, r.below(10), 3); break;
    case 6: s += rndbytes(r, 8 * r.range(1, 4), 3); break;
    default: { size_t p = r.below(s.size() + 1); s = s.substr(0, p) + rndbytes(r, 1 + r.below(9), 3) + s.substr(p); }
    }
    if (s.size() > 255) s.resize(255);
    return s;
}
static vector<string> gen_universe(Rng& r, int& fam) {
    std::set<string> K;
    fam = r.below(9);
    int n = r.chance(1, 6) ? r.range(100, 400) : r.range(3, 60);
    switch (fam) {
    case 0: for (int i = 0; i < n; ++i) K.insert(fmt("%d", (int) r.below(n * 3))); break;
    case 1: for (int i = 0; i < n; ++i) { uint64_t v = __builtin_bswap64((uint64_t) i * 5 + 3); K.insert(string((char*) &v, 8)); } break;
    case 2: for (int i = 0; i < n; ++i) K.insert(rndbytes(r, r.below(30), 2 + r.below(4))); break;
    case 3: { string p = rndbytes(r, 8 * r.range(1, 6), 3); for (int i = 0; i < n; ++i) K.insert(p.substr(0, r.chance(3, 4) ? p.size() : r.below(p.size())) + rndbytes(r, r.below(20), 4)); break; }
    case 4: { string p = rndbytes(r, r.range(200, 250), r.chance(1, 2) ? 1 : 3); for (int i = 0; i < n; ++i) { string s = p.substr(0, r.chance(2, 3) ? p.size() : r.below(p.size())) + rndbytes(r, r.below(20), 4); if (s.size() > 255) s.resize(255); K.insert(s); } break; }
    case 5: for (int i = 0; i < 12; ++i) { K.insert(string(i, '\0')); K.insert(string(i, 'a')); K.insert(string(i, '\0') + "a"); K.insert(string(i, '\xff')); K.insert("abcdefgh" + string(i, '\0')); } break;
    case 6: for (int i = 0; i < n; ++i) K.insert(fmt("user%08d", (int) r.below(n)) + rndbytes(r, r.below(r.chance(1, 4) ? 200 : 6), 4)); break;
    case 7: { vector<string> v{rndbytes(r, r.below(40), 4)}; for (int i = 0; i < n; ++i) v.push_back(mutate(r, r.pick(v))); K.insert(v.begin(), v.end()); break; }
    default: for (int i = 0; i < n; ++i) K.insert(rndbytes(r, r.below(13), 0)); break;
    }
    // neighbours of existing keys
    vector<string> v(K.begin(), K.end());
    int m = r.below(1 + n / 4);
    for (int i = 0; i < m; ++i) K.insert(mutate(r, r.pick(v)));
    return vector<string>(K.begin(), K.end());
}

template <typename PP> struct Run {
    typedef Masstree::basic_table<PP> table_type;
    typedef typename table_type::cursor_type cursor_type;
    typedef typename table_type::unlocked_cursor_type ucursor_type;
    Case& c; Rng& r; SeqTI ti; table_type table; std::map<string, Val*> model; vector<string> U; uint64_t nextid = 1; int fam = 0;
    explicit Run(Case& cc) : c(cc), r(cc.r) {}
    Val* mk(const string& k) { Val* v = (Val*) ti.allocate(sizeof(Val), memtag_value); v->id = nextid++; v->klen = k.size(); v->check = ~(uint32_t) v->id; return v; }
    struct Scanner {
        Run* R; size_t left; vector<std::pair<string, Val*>> out; string last; uint64_t leaves = 0; size_t cap;
        template <typename SS, typename K> void visit_leaf(const SS&, const K&, SeqTI&) { ++leaves; }
        bool visit_value(Str k, Val* v, SeqTI&) {
            if (k.len < 0 || k.len > 255) fail("scan-key", fmt("scan reports a key of length %d", k.len));
            out.emplace_back(string(k.s, k.len), v);
            if (out.size() > cap) fail("scan-endless", "scan visits more items than the tree holds");
            return --left > 0;
        }
    };
    void scan_check(const string& first, bool incl, bool back, size_t lim) {
        vector<std::pair<string, Val*>> want;
        if (!back) { auto it = incl ? model.lower_bound(first) : model.upper_bound(first); for (; it != model.end() && want.size() < lim; ++it) want.push_back(*it); }
        else { auto it = incl ? model.upper_bound(first) : model.lower_bound(first); while (it != model.begin() && want.size() < lim) { --it; want.push_back(*it); } }
        Scanner sc{this, lim, {}, "", 0, model.size() + 8};
        KeyBuf kb(first);
        int n = back ? table.rscan(kb.str(), incl, sc, ti) : table.scan(kb.str(), incl, sc, ti);
        count("scans"); count("scan_items", sc.out.size());
        auto what = [&] { return fmt("%s from %s %s limit %zu", back ? "reverse scan" : "scan", show(first).c_str(), incl ? "inclusive" : "exclusive", lim); };
        for (size_t i = 0; i < std::max(want.size(), sc.out.size()); ++i) {
            if (i >= sc.out.size()) fail("scan-missing", what() + " stops before key " + show(want[i].first));
            if (i >= want.size()) fail("scan-extra", what() + " goes on to key " + show(sc.out[i].first));
            if (sc.out[i].first != want[i].first) fail("scan-wrong", what() + " item " + std::to_string(i) + " is " + show(sc.out[i].first) + ", expected " + show(want[i].first));
            if (sc.out[i].second != want[i].second) fail("scan-value", what() + " reports another value for key " + show(want[i].first));
        }
        if (n != (int) sc.out.size()) fail("scan-count", what() + fmt(" returns %d after %zu visits", n, sc.out.size()));
    }
    string some_key() {
        if (r.chance(4, 5) || U.empty()) { if (U.empty()) return ""; return r.pick(U); }
        return mutate(r, r.pick(U));
    }
    void run() {
        U = gen_universe(r, fam);
        table.initialize(ti);
        int nops = r.chance(1, 8) ? r.range(300, 900) : r.range(10, 150);
        // trailing-NUL keys of one slice can need ten leaf slots: narrow leaves do not support them
        bool narrow = PP::leaf_width < 11;
        auto okkey = [&](const string& k) { if (!narrow) return true; for (size_t i = 0; i < k.size(); i += 8) { string sl = k.substr(i, 8); if (sl.back() == 0) return false; } return !k.empty() || true; };
        if (narrow) { vector<string> v; for (auto& k : U) if (okkey(k)) v.push_back(k); U = v; if (U.empty()) U.push_back("a"); }
        int wput = r.range(1, 6), wrem = r.range(0, 5), wscan = prop == "C03" ? 6 : 1;
        int bulk = r.below(3); size_t bi = 0;
        for (auto& k : U) c.hash(k);
        c.hash(PP::leaf_width * 100 + PP::internode_width);
        bool quiesce_often = r.chance(1, 2);
        size_t maxsize = 0; int phase = 0;
        for (int i = 0; i < nops; ++i) {
            if (i % 64 == 0) phase = r.below(3);      // growing, mixed, shrinking
            int tot = 3 + wput + wrem + wscan + 1;
            int x = r.below(tot);
            if (phase == 0 && x >= 3 + wput && x < 3 + wput + wrem && r.chance(2, 3)) x = 3;
            if (phase == 2 && x >= 3 && x < 3 + wput && r.chance(2, 3)) x = 3 + wput;
            string k = some_key();
            if (bulk && x >= 3 && x < 3 + wput && r.chance(1, 2)) { k = bulk == 1 ? U[bi++ % U.size()] : U[U.size() - 1 - bi++ % U.size()]; }
            if (narrow && !okkey(k)) continue;
            KeyBuf kb(k);
            c.hash(x); c.hash(k);
            auto it = model.find(k);
            if (x < 3) {
                note("get %s", show(k).c_str());
                Val* v = nullptr; bool f;
                if (x == 0) f = table.get(kb.str(), v, ti);
                else if (x == 1) { ucursor_type lp(table, kb.str()); f = lp.find_unlocked(ti); if (f) v = lp.value(); }
                else { cursor_type lp(table, kb.str()); f = lp.find_locked(ti); if (f) v = lp.value(); lp.finish(0, ti); }
                if (f != (it != model.end())) fail("get", fmt("get %s: %s", show(k).c_str(), f ? "found but absent from the map" : "not found but present in the map"));
                if (f && v != it->second) fail("get-value", "get " + show(k) + " returns another key's or an old value");
                count("gets"); if (f) count("gets_found");
            } else if (x < 3 + wput) {
                bool abandon = r.chance(1, 20);
                note("put %s%s", show(k).c_str(), abandon ? " (abandoned)" : "");
                cursor_type lp(table, kb.str());
                bool f = lp.find_insert(ti);
                if (f != (it != model.end())) fail("insert", fmt("find_insert %s: %s", show(k).c_str(), f ? "found but absent from the map" : "not found but present in the map"));
                if (f && lp.value() != it->second) fail("insert-value", "find_insert " + show(k) + " sees a wrong value");
                if (abandon) { lp.finish(0, ti); count("abandoned"); }
                else if (f) { Val* nv = mk(k); lp.value() = nv; lp.finish(1, ti); ti.deallocate(it->second, sizeof(Val), memtag_value); it->second = nv; count("updates"); }
                else { Val* nv = mk(k); lp.value() = nv; lp.finish(1, ti); model[k] = nv; count("inserts"); }
            } else if (x < 3 + wput + wrem) {
                note("remove %s", show(k).c_str());
                cursor_type lp(table, kb.str());
                bool f = lp.find_locked(ti);
                if (f != (it != model.end())) fail("remove", fmt("remove %s: %s", show(k).c_str(), f ? "found but absent from the map" : "not found but present in the map"));
                if (f) { if (lp.value() != it->second) fail("remove-value", "remove " + show(k) + " sees a wrong value"); lp.finish(-1, ti); ti.deallocate(it->second, sizeof(Val), memtag_value); model.erase(it); count("removes"); }
                else lp.finish(0, ti);
            } else if (x < 3 + wput + wrem + wscan) {
                bool incl = r.chance(1, 2), back = r.chance(1, 2); size_t lim = r.chance(1, 3) ? 1 + r.below(4) : r.chance(1, 2) ? 1 + r.below(model.size() + 2) : 1000000;
                if (r.chance(1, 10)) k = r.chance(1, 2) ? "" : string(255, '\xff');
                note("%s %s %s %zu", back ? "rscan" : "scan", show(k).c_str(), incl ? "incl" : "excl", lim);
                scan_check(k, incl, back, lim);
            } else if (r.chance(1, 10)) {
                static FILE* nul = fopen("/dev/null", "w");
                table.print(nul); count("prints");
            }
            maxsize = std::max(maxsize, model.size());
            if (quiesce_often || r.chance(1, 20)) ti.quiesce();
        }
        count("max_entries", 0); counters["max_entries"] = std::max<uint64_t>(counters["max_entries"], maxsize);
        note("final check of %zu keys", model.size());
        scan_check("", true, false, 1000000); scan_check(string(255, '\xff'), true, true, 1000000);
        for (auto& p : model) { KeyBuf kb(p.first); Val* v = nullptr; if (!table.get(kb.str(), v, ti) || v != p.second) fail("get", "final get of " + show(p.first) + " fails"); }
        if (prop == "C03") for (auto& p : model) { scan_check(p.first, r.chance(1, 2), r.chance(1, 2), 1 + r.below(3)); if (r.chance(1, 2)) { string k = mutate(r, p.first); if (!narrow || okkey(k)) scan_check(k, r.chance(1, 2), r.chance(1, 2), 1 + r.below(3)); } }
        c.nontrivial = maxsize > (size_t) PP::leaf_width;
        count(fmt("config_%dx%d_%s_%s", PP::leaf_width, PP::internode_width, PP::bound_method == bound_method_binary ? "binary" : PP::bound_method == bound_method_linear ? "linear" : "fast", PP::concurrent ? "concurrent" : "single").c_str());
        count(fmt("family_%d", fam).c_str());
        for (auto& p : model) ti.deallocate(p.second, sizeof(Val), memtag_value);
        table.destroy(ti); ti.quiesce();
        if (!ti.blocks.empty()) fail("leak", fmt("%zu blocks left after destroying the table (first: %zu bytes, tag %x)", ti.blocks.size(), ti.blocks.begin()->second.sz, ti.blocks.begin()->second.tag));
    }
};
template <typename PP> static void go(Case& c) { Run<PP> R(c); try { R.run(); } catch (...) { new Run<PP>(std::move(R)); throw; } }

// One translation unit per group of configurations, to compile them in parallel.
#define GROUPS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#define DECL(N) void group##N(Case& c);
GROUPS(DECL)
#ifndef GROUP
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch;
kvtimestamp_t initial_timestamp;
void run_case(Case& c) {
    switch (c.r.below(14)) {
    case 0: group0(c); break;
    case 1: group1(c); break;
    case 2: group2(c); break;
    case 3: group3(c); break;
    case 4: group4(c); break;
    case 5: group5(c); break;
    case 6: case 7: group6(c); break;
    default: group7(c); break;
    }
}
#elif GROUP == 0
void group0(Case& c) { go<Params<3, 3, bound_method_binary, true, uint32_t>>(c); }
#elif GROUP == 1
void group1(Case& c) { go<Params<4, 3, bound_method_linear, true, uint64_t>>(c); }
#elif GROUP == 2
void group2(Case& c) { go<Params<5, 7, bound_method_binary, false, uint32_t>>(c); }
#elif GROUP == 3
void group3(Case& c) { go<Params<11, 4, bound_method_linear, true, uint32_t>>(c); }
#elif GROUP == 4
void group4(Case& c) { go<Params<15, 11, bound_method_binary, false, uint64_t>>(c); }
#elif GROUP == 5
void group5(Case& c) { go<Params<15, 15, bound_method_fast, true, uint32_t>>(c); }
#elif GROUP == 6
void group6(Case& c) { go<Params<12, 8, bound_method_binary, true, uint64_t, 1>>(c); }
#elif GROUP == 7
void group7(Case& c) { go<Params<15, 15, bound_method_binary, true, uint32_t>>(c); }
#endif
