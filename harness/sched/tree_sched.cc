// Controlled-schedule monitor of the concurrent tree (C01 C04 C05 C07 C08 C09).
#define MONITOR_TI_IMPL
#include "monitor_ti.hh"
#include "masstree.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>

using rt::Rng;
using lcdf::Str;
using std::string;
using std::vector;

relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;

struct Val { uint64_t id, key, check; };

template <int LW, int IW, int BM, typename VT> struct Params : public Masstree::nodeparams<LW, IW> {
    typedef Val* value_type;
    typedef MonitorTI threadinfo_type;
    static constexpr int bound_method = BM;
    static constexpr bool prefetch = false;
    typedef VT nodeversion_value_type;
};

// ------------------------------------------------------------------ program
enum OpType { GET, PUT, INS, REM, ABANDON, SCAN, RSCAN, TXN };
static const char* opname[] = {"get", "put", "insert-if-absent", "remove", "lookup-for-insert-abandoned", "scan", "rscan", "txn"};
struct Op { int type; int key; int n; bool emit; int key2; int type2 = 0; };
struct Program {
    int config, family;
    vector<string> keys;             // universe
    vector<Op> prefill;              // sequential
    vector<vector<Op>> threads;
    rt::SchedCfg sched;
    int cb_num;                      // chance (of 4) to run callbacks between ops
    int outer;                       // locks that updaters nest inside the leaf lock, like mtd's logs
};
struct Ev { int thr, type, key; bool found; uint64_t oldid, newid, call, ret; };

static string prop = "C01";
static bool trace;
static string hexkey(const string& k) {
    string s;
    for (unsigned char c : k) { char b[8]; if (c >= 33 && c < 127 && c != '\\') snprintf(b, 8, "%c", c); else snprintf(b, 8, "\\x%02x", c); s += b; }
    return "\"" + s + "\"";
}

static void gen_keys(Program& P, Rng& r) {
    std::set<string> K;
    P.family = r.below(8);
    int U;
    switch (P.family) {
    case 0: U = 4 + r.below(12); for (int i = 0; i < U; ++i) K.insert(string(1, 'a' + i)); break;
    case 1: { U = 6 + r.below(r.chance(1, 3) ? 60 : 24);
        for (int i = 0; i < U; ++i) { uint64_t v = __builtin_bswap64((uint64_t) i * 3 + 1); K.insert(string((char*) &v, 8)); } break; }
    case 2: { int np = 1 + r.below(3); U = 4 + r.below(14);
        for (int p = 0; p < np; ++p) for (int i = 0; i < U; ++i) {
            string s = string(7, 'p') + char('0' + p);
            switch (r.below(4)) { case 0: s += char('a' + i); break; case 1: s += string(2, 'a' + i); break; case 2: s += string(9, 'a' + i); break; default: s += string("xxxxxxxx") + char('a' + i); }
            K.insert(s);
        }
        if (r.chance(1, 2)) K.insert(string(7, 'p') + '0');
        if (r.chance(1, 2)) K.insert("q"); if (r.chance(1, 2)) K.insert("a"); break; }
    case 3: { for (int i = 0; i < 11; ++i) { if (r.chance(1, 2)) K.insert(string(i, '\0')); if (r.chance(1, 2)) K.insert(string(i, 'a')); if (r.chance(1, 3)) K.insert(string(i, '\0') + "a"); }
        K.insert("zz"); break; }
    case 4: { int d = 1 + r.below(3); string base; 
        for (int i = 0; i < d; ++i) { base += string(7, 'd') + char('0' + i); int m = 1 + r.below(4); for (int j = 0; j < m; ++j) K.insert(base + string(1 + r.below(10), 'a' + j)); if (r.chance(1, 2)) K.insert(base); }
        int m = 2 + r.below(8); for (int j = 0; j < m; ++j) K.insert(base + string("tail") + char('a' + j)); break; }
    case 5: { static const char al[] = {0, 'a', (char) 255}; U = 6 + r.below(16);
        for (int i = 0; i < U; ++i) { string s; int l = r.below(20); for (int j = 0; j < l; ++j) s += al[r.chance(2, 3) ? 1 : r.below(3)]; K.insert(s); } break; }
    case 6: { U = 5 + r.below(12); for (int i = 0; i < U; ++i) { string s; char b[9]; snprintf(b, 9, "%08d", (int) r.below(8) * (1 + (int) r.below(2))); s = b; s += string(1 + r.below(r.chance(1, 2) ? 40 : 200), 'a' + i % 26); s += char('a' + i % 26); K.insert(s.substr(0, 255)); } break; }
    default: { // two layers with many keys in one sublayer, several leaves there
        string p = "layerkey"; U = 5 + r.below(20); for (int i = 0; i < U; ++i) K.insert(p + string(1 + (i % 3), 'a' + i % 26) + char('A' + i % 20));
        int m = r.below(6); for (int i = 0; i < m; ++i) K.insert(string(1, 'a' + i * 4)); break; }
    }
    P.keys.assign(K.begin(), K.end());
}

static Program gen(uint64_t seed, Rng& r) {
    Program P;
    P.config = r.below(10);
    gen_keys(P, r);
    // one 8-byte slice can stand for up to ten entries of a leaf (lengths 0-8
    // and a layer) when keys end in NUL bytes, so such keys need wide leaves
    if ((P.family == 3 || P.family == 5) && P.config < 7) P.config = 6 + r.below(4);
    int U = P.keys.size();
    // prefill
    int dens = r.below(5);           // 0 none .. 4 all
    vector<int> order(U); for (int i = 0; i < U; ++i) order[i] = i;
    int ordk = r.below(3);
    if (ordk == 0) for (int i = U - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    else if (ordk == 1) std::reverse(order.begin(), order.end());
    bool removal_heavy = r.chance(1, 2);
    for (int i : order) if ((int) r.below(4) < dens) P.prefill.push_back(Op{PUT, i, 0, false, 0});
    if (r.chance(1, 2)) { int k = r.below(U + 1); for (int j = 0; j < k; ++j) P.prefill.push_back(Op{r.chance(2, 3) ? REM : PUT, (int) r.below(U), 0, false, 0}); }
    if (prop == "C08") {
        int m = 1 + r.below(8);
        for (int j = 0; j < m; ++j) { Op o{TXN, (int) r.below(U), r.chance(1, 2) ? 1 + (int) r.below(4) : 1000 + (int) r.below(2), r.chance(1, 2), (int) r.below(U)}; o.type2 = r.below(16); P.prefill.insert(P.prefill.begin() + r.below(P.prefill.size() + 1), o); }
    }
    // hot keys: a contiguous window so that threads meet in one leaf
    int w = 1 + r.below(std::min(U, 6)); int base = r.below(U - w + 1);
    auto pick = [&]() -> int { return r.chance(3, 4) ? base + (int) r.below(w) : (int) r.below(U); };
    int nt = 2 + r.below(r.chance(1, 3) ? 3 : 2);
    bool scanmode = prop == "C04" ? true : r.chance(1, 4);
    for (int t = 0; t < nt; ++t) {
        vector<Op> v;
        int role = r.below(scanmode ? 5 : 4);  // 0 mixed 1 inserter 2 remover 3 reader 4 scanner
        if (scanmode && t == 0) role = 4;
        if (removal_heavy && t == nt - 1 && prop != "C08") role = 2;
        if (prop == "C08") role = t == 0 ? 5 : (r.chance(1, 3) ? 5 : 1);
        int n = role == 4 || role == 5 ? 1 + r.below(2) : 1 + r.below(role == 2 ? 6 : 5);
        if (role == 2 && r.chance(1, 2)) {
            // remove a run of adjacent keys: empties leaves and layers
            int a = r.below(U), m = 1 + r.below(U - a < 16 ? U - a : 16);
            bool rev = r.chance(1, 2);
            for (int i = 0; i < m; ++i) v.push_back(Op{REM, rev ? a + m - 1 - i : a + i, 0, false, 0});
        } else
            for (int i = 0; i < n; ++i) {
                Op o{GET, pick(), 0, false, 0};
                int x = r.below(100);
                switch (role) {
                case 0: o.type = x < 30 ? GET : x < 55 ? PUT : x < 65 ? INS : x < 90 ? REM : x < 94 ? SCAN : RSCAN; break;
                case 1: o.type = x < 70 ? PUT : x < 85 ? INS : x < 95 ? GET : REM; break;
                case 2: o.type = x < 80 ? REM : x < 90 ? PUT : GET; break;
                case 3: o.type = x < 90 ? GET : x < 95 ? SCAN : RSCAN; break;
                case 4: o.type = x < 50 ? SCAN : RSCAN; break;
                case 5: o.type = TXN; break;
                }
                if (o.type == REM && prop == "C08" && nt % 2) o.type = PUT;
                if (prop == "C09" && o.type == INS && r.chance(1, 2)) o.type = ABANDON;
                if (o.type == SCAN || o.type == RSCAN || o.type == TXN) {
                    o.n = r.chance(1, 2) ? 1 + r.below(4) : 1000 + r.below(2); o.emit = r.chance(1, 2);
                    if (r.chance(1, 2)) o.key = o.type == RSCAN ? U - 1 : 0;
                    o.key2 = pick(); o.type2 = r.below(16);
                }
                v.push_back(o);
            }
        P.threads.push_back(v);
    }
    P.cb_num = r.below(4);
    auto& s = P.sched;
    s.strategy = r.below(rt::ST_MAX);
    static const uint32_t dens2[] = {2, 4, 8, 16, 40};
    s.sw_num = 1; s.sw_den = dens2[r.below(5)];
    s.pct_d = 1 + r.below(4);
    static const uint32_t el[] = {60, 150, 400, 1000, 2500};
    s.est_len = el[r.below(5)];
    P.outer = r.chance(1, prop == "C09" ? 2 : 5) ? 1 + r.below(2) : 0;
    return P;
}

// --------------------------------------------------------- linearizability
// Per-key history check (Wing & Gong with memo).  init/final as ordinary events.
static bool lin_key(vector<Ev>& ev, uint64_t init) {
    size_t n = ev.size();
    if (n > 62) return true; // not generated
    std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.call < b.call; });
    struct St { uint64_t mask, val; bool operator==(const St& o) const { return mask == o.mask && val == o.val; } };
    struct H { size_t operator()(const St& s) const { return s.mask * 0x9E3779B97F4A7C15ull ^ s.val * 0x2545F4914F6CDD1Dull; } };
    std::unordered_set<St, H> seen;
    vector<St> stack{St{0, init}};
    uint64_t full = n == 64 ? ~0ull : (1ull << n) - 1;
    while (!stack.empty()) {
        St s = stack.back(); stack.pop_back();
        if (s.mask == full) return true;
        if (!seen.insert(s).second) continue;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(s.mask >> i & 1)) minret = std::min(minret, ev[i].ret);
        for (size_t i = 0; i < n; ++i) {
            if (s.mask >> i & 1) continue;
            if (ev[i].call > minret) break;
            const Ev& e = ev[i];
            uint64_t nv = s.val; bool ok;
            switch (e.type) {
            case GET: ok = e.found ? s.val == e.oldid : s.val == 0; break;
            case PUT: ok = s.val == e.oldid; nv = e.newid; break;
            case INS: ok = s.val == e.oldid; if (!e.oldid) nv = e.newid; break;
            case ABANDON: ok = s.val == e.oldid; break;
            case REM: ok = s.val == e.oldid; nv = 0; break;
            default: ok = true;
            }
            if (ok) stack.push_back(St{s.mask | 1ull << i, nv});
        }
    }
    return false;
}

struct Stats {
    uint64_t execs = 0, ops = 0, steps = 0, switches = 0, overlapping = 0, keys_checked = 0, scans = 0, scan_items = 0, txns = 0, txn_commit = 0, txn_abort = 0, absent_reads = 0,
        leaf_allocs = 0, inode_allocs = 0, ksuf_allocs = 0, gc_records = 0, leaf_freed_ops = 0, own_version_checks = 0, phantom_checks = 0, phantom_hits = 0, destroyed = 0, drained_cycles = 0, strict_empty = 0, cycles = 0, nontrivial = 0, lin_skipped = 0, outer_held = 0, outer_waits = 0;
    uint64_t by_type[8] = {}; uint64_t by_family[8] = {}, by_config[10] = {}, by_strategy[4] = {};
} S;
static std::unordered_set<uint64_t> distinct;
static std::set<string> samples;

// -------------------------------------------------------------- execution
static char* keypool; static vector<Str> keystr;
static Program* curP; static vector<Ev>* curEv; static uint64_t curSeed;

static string describe(const Program& P, const vector<Ev>& ev) {
    string s = "config " + std::to_string(P.config) + " family " + std::to_string(P.family) + " strategy " + std::to_string(P.sched.strategy) + "\nkeys:";
    for (size_t i = 0; i < P.keys.size(); ++i) s += " " + std::to_string(i) + "=" + hexkey(P.keys[i]);
    s += "\nprefill:";
    for (auto& o : P.prefill) s += string(" ") + (o.type == PUT ? "+" : "-") + std::to_string(o.key);
    s += "\n";
    for (size_t t = 0; t < P.threads.size(); ++t) { s += "thread " + std::to_string(t) + ":"; for (auto& o : P.threads[t]) { s += string(" ") + opname[o.type] + "(" + std::to_string(o.key); if (o.type >= SCAN) s += ",n=" + std::to_string(o.n) + (o.emit ? ",incl" : ",excl"); s += ")"; } s += "\n"; }
    s += "history (thread op key found/old new [call,ret]):\n";
    for (auto& e : ev) { char b[160]; snprintf(b, sizeof b, "  T%d %s key%d %s old=%llu new=%llu [%llu,%llu]\n", e.thr, opname[e.type], e.key, e.found ? "found" : "absent", (unsigned long long) e.oldid, (unsigned long long) e.newid, (unsigned long long) e.call, (unsigned long long) e.ret); s += b; }
    return s;
}

struct ScanRec { int thr, type, key; bool emit; int n; uint64_t start, end; vector<std::pair<string, std::pair<uint64_t, uint64_t>>> out; };

struct FreeScan { vector<Val*> v; template <typename SS, typename K> void visit_leaf(const SS&, const K&, MonitorTI&) {} bool visit_value(Str, Val* x, MonitorTI&) { v.push_back(x); return true; } };

template <typename PP> struct Runner {
    typedef Masstree::basic_table<PP> table_type;
    typedef typename table_type::cursor_type cursor_type;
    typedef typename table_type::unlocked_cursor_type ucursor_type;
    typedef typename table_type::leaf_type leaf_type;
    table_type* table;
    vector<MonitorTI> tis;
    Program& P;
    Rng& r;
    vector<Ev> ev;
    vector<ScanRec> scans;
    uint64_t nextid = 1; bool cur_overlap = false;
    Runner(Program& p, Rng& rr) : P(p), r(rr) {}

    Val* mk(MonitorTI& ti, int key) {
        Val* v = (Val*) ti.allocate(sizeof(Val), memtag_value);
        uint64_t id = nextid++;
        v->id = id; v->key = key; v->check = ~id;
        return v;
    }
    uint64_t rd(Val* v, int key) {
        uint64_t id = v->id;
        if (v->check != ~id) rt::violation("torn-value", "value object read by an operation is not one that was ever written");
        else if (key >= 0 && v->key != (uint64_t) key) rt::violation("wrong-key", "operation on key " + hexkey(P.keys[key]) + " returned the value of key number " + std::to_string(v->key));
        return id;
    }
    void begin(MonitorTI& ti) { ti.op_begin(); }
    void end(MonitorTI& ti) { ti.op_end(); }

    struct Scanner {
        Runner* R; ScanRec* rec; int left;
        template <typename SS, typename K> void visit_leaf(const SS&, const K&, MonitorTI&) {}
        bool visit_value(Str k, Val* v, MonitorTI&) {
            string ks(k.s, k.len);
            uint64_t id = v->id;
            if (v->check != ~id) rt::violation("torn-value", "scan returned a value that was never written");
            else if (v->key >= R->P.keys.size() || R->P.keys[v->key] != ks)
                rt::violation("scan-key", "scan returned key " + hexkey(ks) + " with the value of key " + (v->key < R->P.keys.size() ? hexkey(R->P.keys[v->key]) : string("?")));
            rec->out.push_back({ks, {id, rt::tick()}});
            if (rec->out.size() > 4 * R->P.keys.size() + 64) { rt::violation("scan-endless", "scan visits more items than keys exist"); return false; }
            return --left > 0;
        }
    };
    void do_scan(MonitorTI& ti, const Op& o) {
        scans.emplace_back();
        size_t si = scans.size() - 1;
        ScanRec rec; rec.thr = ti.id; rec.type = o.type; rec.key = o.key; rec.emit = o.emit; rec.n = o.n;
        begin(ti); rec.start = rt::tick();
        Scanner sc{this, &rec, o.n};
        if (o.type == SCAN) table->scan(keystr[o.key], o.emit, sc, ti);
        else table->rscan(keystr[o.key], o.emit, sc, ti);
        rec.end = rt::tick(); end(ti);
        scans[si] = rec;
    }
    // ---- OCC transactions.  A transaction notes (leaf, version) for every leaf
    // its reads consulted, performs one insert of its own and updates the noted
    // versions from what the cursor reports, then validates.
    struct NodeSet { std::map<const leaf_type*, uint64_t> m; bool conflict = false;
        void note(const leaf_type* l, uint64_t v) { auto it = m.find(l); if (it == m.end()) m[l] = v; else if (it->second != v) conflict = true; } };
    struct TxnScanner {
        Runner* R; NodeSet* ns; int left; std::map<string, uint64_t> seen; string last; bool stopped = false;
        TxnScanner(Runner* r, NodeSet* n, int l) : R(r), ns(n), left(l) {}
        template <typename SS, typename K> void visit_leaf(const SS& st, const K&, MonitorTI&) { ns->note(st.node(), st.full_version_value()); }
        bool visit_value(Str k, Val* v, MonitorTI&) { last.assign(k.s, k.len); seen[last] = v->id; if (seen.size() > 4 * R->P.keys.size()) { stopped = true; return false; } if (--left <= 0) { stopped = true; return false; } return true; }
    };
    struct TxnRead { bool scan, back, emit; string first; std::map<string, uint64_t> seen; string last; bool stopped; bool present; uint64_t start;
        bool covers(const string& k) const {
            if (!scan) return k == first;
            int c = k.compare(first);
            if (back ? (c > 0 || (c == 0 && !emit)) : (c < 0 || (c == 0 && !emit))) return false;
            if (stopped) { int d = k.compare(last); if (back ? d < 0 : d > 0) return false; }
            return true;
        } };
    struct TxnRec { int thr; vector<TxnRead> reads; std::set<string> own; uint64_t vstart; };
    vector<TxnRec> committed;
    void do_txn(MonitorTI& ti, const Op& o) {
        ++S.txns;
        bool seq = rt::cur_thread() < 0;
        begin(ti);
        NodeSet ns; TxnRec T; T.thr = ti.id;
        int nr = 1 + (o.key2 & 1);
        for (int i = 0; i < nr; ++i) {
            int which = i == 0 ? o.key : o.key2;
            TxnRead t; t.start = rt::tick(); t.first = P.keys[which]; t.emit = o.emit; t.back = (o.type2 >> i) & 1; t.stopped = false; t.present = false;
            if ((o.n + i) & 1) {
                ucursor_type lp(*table, keystr[which]);
                bool f = lp.find_unlocked(ti);
                if (!f) ns.note(lp.node(), lp.full_version_value());
                t.scan = false; t.present = f;
                if (!f) ++S.absent_reads;
            } else {
                TxnScanner sc(this, &ns, o.n);
                if (!t.back) table->scan(keystr[which], o.emit, sc, ti); else table->rscan(keystr[which], o.emit, sc, ti);
                t.scan = true; t.seen = sc.seen; t.last = sc.last; t.stopped = sc.stopped;
            }
            T.reads.push_back(t);
        }
        if (o.type2 & 4) {
            int wk = o.type2 & 8 ? o.key : o.key2;
            Val* nv = mk(ti, wk);
            Ev e; e.thr = ti.id; e.type = INS; e.key = wk; e.oldid = 0; e.newid = nv->id; e.call = rt::tick();
            cursor_type lp(*table, keystr[wk]);
            bool found = lp.find_insert(ti);
            e.found = found;
            if (found) { e.oldid = rd(lp.value(), wk); lp.finish(0, ti); ti.deallocate(nv, sizeof(Val), memtag_value); e.ret = rt::tick(); }
            else {
                leaf_type* on = lp.original_node(); uint64_t ov = lp.original_version_value();
                lp.value() = nv; fence();
                lp.finish(1, ti);
                e.ret = rt::tick();
                T.own.insert(P.keys[wk]);
                uint64_t uv = lp.updated_version_value();
                auto it = ns.m.find(on);
                if (it != ns.m.end()) {
                    if (it->second == ov) { it->second = uv; for (auto& x : lp.new_nodes()) ns.note(x.first, x.second); }
                    else ns.conflict = true;
                }
                ++S.own_version_checks;
                if (seq) {
                    char b[200];
                    if (on->full_version_value() != uv) { snprintf(b, sizeof b, "insert of %s reports version %llx of its leaf after the insert, a reader sees %llx", hexkey(P.keys[wk]).c_str(), (unsigned long long) uv, (unsigned long long) on->full_version_value()); rt::violation("own-version", b); }
                    std::set<const leaf_type*> nn; 
                    for (auto& x : lp.new_nodes()) { nn.insert(x.first); if (x.first->full_version_value() != x.second) { snprintf(b, sizeof b, "insert of %s reports version %llx of a new leaf, a reader sees %llx", hexkey(P.keys[wk]).c_str(), (unsigned long long) x.second, (unsigned long long) x.first->full_version_value()); rt::violation("own-version", b); } }
                    // the leaf that now holds the key must be one of those reported
                    ucursor_type lq(*table, keystr[wk]);
                    if (!lq.find_unlocked(ti)) rt::violation("own-version", "key just inserted is absent");
                    else if (lq.node() != on && !nn.count(lq.node())) rt::violation("own-version", "the leaf that received key " + hexkey(P.keys[wk]) + " is neither the original leaf nor reported as new");
                }
            }
            ev.push_back(e);
        }
        T.vstart = rt::tick();
        bool ok = !ns.conflict;
        if (ok) for (auto& p : ns.m) if (p.first->full_version_value() != p.second) ok = false;
        if (ok) { ++S.txn_commit; committed.push_back(T); } else ++S.txn_abort;
        if (!ok && seq) rt::violation("own-abort", "a transaction with no concurrent activity sees a changed version after accounting for its own insert of key " + hexkey(P.keys[o.type2 & 8 ? o.key : o.key2]));
        end(ti);
    }
    // For every validated transaction: a key in what it consulted that it saw as
    // absent and did not insert itself has no insertion by another thread that
    // finished before validation began (nor, for keys it saw, a removal), apart
    // from what was already undone when it read.
    void check_txns() {
        for (auto& T : committed)
            for (auto& rd : T.reads)
                for (size_t k = 0; k < P.keys.size(); ++k) {
                    const string& ks = P.keys[k];
                    if (!rd.covers(ks)) continue;
                    bool saw = rd.scan ? rd.seen.count(ks) != 0 : rd.present;
                    if (saw) continue;
                    ++S.phantom_checks;
                    for (auto& e : ev) {
                        if ((e.type != PUT && e.type != INS) || e.found || e.key != (int) k || e.ret >= T.vstart) continue;
                        if (e.thr == T.thr && e.call > rd.start) continue;      // own
                        if (e.call < rd.start) {
                            // present before the read: only a phantom if nobody can have removed it by then
                            bool rem = false;
                            for (auto& f : ev) if (f.type == REM && f.found && f.oldid == lastid(k, e, f)) rem = true;
                            if (rem || e.ret < rd.start) continue;      // the linearizability check covers it
                        }
                        ++S.phantom_hits;
                        bool removed = false;
                        for (auto& f : ev) if (f.type == REM && f.key == (int) k && f.found && f.call < T.vstart && f.ret > e.call) removed = true;
                        if (removed) continue;
                        char b[400]; snprintf(b, sizeof b, "a transaction of T%d validated at %llu although key %s, which its %s saw as absent (read began at %llu), was inserted by T%d during [%llu,%llu]", T.thr, (unsigned long long) T.vstart, hexkey(ks).c_str(), rd.scan ? (rd.back ? "reverse scan" : "scan") : "lookup", (unsigned long long) rd.start, e.thr, (unsigned long long) e.call, (unsigned long long) e.ret);
                        rt::violation("missed-phantom", b);
                        return;
                    }
                }
    }
    uint64_t lastid(size_t, const Ev&, const Ev& f) { return f.oldid; }

    // A lock of the user's, held from before an update takes effect until after
    // it is finished (mtd holds its log's that way).
    struct Outer {
        uint32_t* l;
        Outer(int n, int id) : l(n ? &lock[id % n] : nullptr) { if (l) while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) { ++S.outer_waits; rt::spin_hint(); } }
        ~Outer() { if (l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); ++S.outer_held; } }
        static inline uint32_t lock[2];
    };
    void do_op(MonitorTI& ti, const Op& o) {
        ++S.ops; ++S.by_type[o.type];
        if (o.type == SCAN || o.type == RSCAN) { do_scan(ti, o); return; }
        if (o.type == TXN) { do_txn(ti, o); return; }
        Ev e; e.thr = ti.id; e.type = o.type; e.key = o.key; e.found = false; e.oldid = e.newid = 0;
        begin(ti);
        e.call = rt::tick();
        switch (o.type) {
        case GET: { Val* v = nullptr; e.found = table->get(keystr[o.key], v, ti); if (e.found) e.oldid = rd(v, o.key); break; }
        case PUT: {
            Val* nv = mk(ti, o.key); e.newid = nv->id;
            cursor_type lp(*table, keystr[o.key]);
            e.found = lp.find_insert(ti);
            Outer held(P.outer, ti.id);
            if (e.found) { Val* old = lp.value(); e.oldid = rd(old, o.key); lp.value() = nv; fence(); ti.deallocate_rcu(old, sizeof(Val), memtag_value); }
            else { lp.value() = nv; fence(); }
            lp.finish(1, ti);
            break; }
        case INS: {
            Val* nv = mk(ti, o.key); e.newid = nv->id;
            cursor_type lp(*table, keystr[o.key]);
            e.found = lp.find_insert(ti);
            if (e.found) { e.oldid = rd(lp.value(), o.key); lp.finish(0, ti); ti.deallocate(nv, sizeof(Val), memtag_value); }
            else { Outer held(P.outer, ti.id); lp.value() = nv; fence(); lp.finish(1, ti); }
            break; }
        case ABANDON: {
            cursor_type lp(*table, keystr[o.key]);
            e.found = lp.find_insert(ti);
            if (e.found) e.oldid = rd(lp.value(), o.key);
            lp.finish(0, ti);
            break; }
        case REM: {
            cursor_type lp(*table, keystr[o.key]);
            e.found = lp.find_locked(ti);
            if (e.found) { Outer held(P.outer, ti.id); Val* old = lp.value(); e.oldid = rd(old, o.key); lp.finish(-1, ti); ti.deallocate_rcu(old, sizeof(Val), memtag_value); }
            else lp.finish(0, ti);
            break; }
        }
        e.ret = rt::tick();
        end(ti);
        ev.push_back(e);
    }
    void drain() {
        MonitorTI& ti = tis[0];
        for (int i = 0; i < 100000; ++i) {
            ti.op_begin(); ti.op_end();
            if (!ti.run_callback(true)) {
                if (MonitorTI::quiet()) return;
            }
        }
        rt::violation("drain", "deferred work does not end");
    }
    void check_scan(const ScanRec& s, bool& bad) {
        ++S.scans; S.scan_items += s.out.size();
        bool fwd = s.type == SCAN;
        const string& first = P.keys[s.key];
        for (size_t i = 0; i < s.out.size(); ++i) {
            const string& k = s.out[i].first;
            int c = k.compare(first);
            if (fwd ? (c < 0 || (c == 0 && !s.emit)) : (c > 0 || (c == 0 && !s.emit))) { rt::violation("scan-range", "scan from " + hexkey(first) + (s.emit ? " inclusive" : " exclusive") + " returned " + hexkey(k)); bad = true; return; }
            if (i) { int d = k.compare(s.out[i - 1].first); if (fwd ? d <= 0 : d >= 0) { rt::violation("scan-order", string(d == 0 ? "duplicate key " : "misordered key ") + hexkey(k) + " after " + hexkey(s.out[i - 1].first)); bad = true; return; } }
        }
        if ((int) s.out.size() > s.n) { rt::violation("scan-stop", "scan went on after the visitor asked it to stop"); bad = true; return; }
        // decompose
        for (size_t ki = 0; ki < P.keys.size(); ++ki) {
            const string& k = P.keys[ki];
            int c = k.compare(first);
            if (fwd ? (c < 0 || (c == 0 && !s.emit)) : (c > 0 || (c == 0 && !s.emit))) continue;
            Ev e; e.thr = s.thr; e.type = GET; e.key = ki; e.found = false; e.oldid = e.newid = 0; e.call = s.start; e.ret = s.end;
            bool past = true;
            for (auto& o : s.out) {
                int d = o.first.compare(k);
                if (d == 0) { e.found = true; e.oldid = o.second.first; e.ret = o.second.second; past = false; break; }
                if (fwd ? d > 0 : d < 0) { e.ret = o.second.second; past = false; break; }
            }
            if (past && (int) s.out.size() >= s.n) continue;   // stopped before reaching k
            ev.push_back(e);
        }
    }
    void run() {
        int nt = P.threads.size();
        tis.resize(nt);
        for (int i = 0; i < nt; ++i) tis[i].id = i;
        MonitorTI::reset();
        Outer::lock[0] = Outer::lock[1] = 0;
        table = new (rt::arena_alloc(sizeof(table_type), rt::K_TABLE, 0, false)) table_type();
        table->initialize(tis[0]);
        for (auto& o : P.prefill) { do_op(tis[0], o); if (r.chance(P.cb_num, 4)) while (tis[0].run_callback(true)) {} }
        if (r.chance(1, 2)) drain();
        size_t npre = ev.size();
        if (rt::has_violation()) return;
        vector<bool> cbflag; for (int i = 0; i < 256; ++i) cbflag.push_back(r.chance(P.cb_num, 4));
        size_t cbi = 0;
        rt::run_threads(nt, [&](int t) {
            for (auto& o : P.threads[t]) {
                do_op(tis[t], o);
                if (cbflag[cbi++ % 256]) while (tis[t].run_callback()) {}
            }
        }, r, P.sched);
        S.steps += rt::now(); S.switches += rt::exec_switches();
        if (rt::has_violation() && rt::violation_kind() == "no-progress") return;
        for (size_t i = npre; i < ev.size(); ++i) { bool ov = false; for (size_t j = npre; j < ev.size() && !ov; ++j) if (ev[i].thr != ev[j].thr && ev[i].call < ev[j].ret && ev[j].call < ev[i].ret) ov = true; S.overlapping += ov; cur_overlap |= ov; }
        if (rt::has_violation()) return;
        if (r.chance(3, 4)) drain();
        // final observations
        for (size_t k = 0; k < P.keys.size(); ++k) do_op(tis[0], Op{GET, (int) k, 0, false, 0});
        int lo = 0, hi = (int) P.keys.size() - 1;
        do_op(tis[0], Op{SCAN, lo, 1 << 20, true, 0});
        do_op(tis[0], Op{RSCAN, hi, 1 << 20, true, 0});
        // probe: every key can still be written and removed
        bool probe = r.chance(1, 2);
        if (probe) for (size_t k = 0; k < P.keys.size(); ++k) { do_op(tis[0], Op{PUT, (int) k, 0, false, 0}); do_op(tis[0], Op{GET, (int) k, 0, false, 0}); }
        if (rt::has_violation()) return;
        bool bad = false;
        for (auto& s : scans) { check_scan(s, bad); if (bad) return; }
        check_txns();
        if (rt::has_violation()) return;
        vector<vector<Ev>> per(P.keys.size());
        for (auto& e : ev) per[e.key].push_back(e);
        for (size_t k = 0; k < per.size(); ++k) {
            ++S.keys_checked;
            auto cp = per[k];
            if (cp.size() > 62) { ++S.lin_skipped; continue; }
            if (!lin_key(cp, 0)) {
                string m = "no order of the operations on key " + hexkey(P.keys[k]) + " explains their results:";
                for (auto& e : cp) { char b[160]; snprintf(b, sizeof b, " {T%d %s %s old=%llu new=%llu [%llu,%llu]}", e.thr, opname[e.type], e.found ? "found" : "absent", (unsigned long long) e.oldid, (unsigned long long) e.newid, (unsigned long long) e.call, (unsigned long long) e.ret); m += b; }
                rt::violation("not-linearizable", m);
                if (trace) dump(table->root(), 0);
                return;
            }
        }
        S.leaf_allocs += rt::total_allocs(rt::K_LEAF); S.inode_allocs += rt::total_allocs(rt::K_INTERNODE); S.ksuf_allocs += rt::total_allocs(rt::K_KSUF); S.gc_records += rt::total_allocs(rt::K_GC);
        // memory: remove everything, drain, then destroy, drain
        uint32_t m = prop == "C07" ? 1 + r.below(2) : r.below(3);
        if (m) {
            size_t U = P.keys.size();
            for (size_t k = 0; k < U; ++k) do_op(tis[0], Op{REM, (int) (m == 1 ? k : U - 1 - k), 0, false, 0});
            drain();
            if (rt::has_violation()) return;
            if (rt::live_count(rt::K_VALUE)) { rt::violation("value-leak", "values left after removing every key"); return; }
            ++S.drained_cycles;
            leftover();
        } else {
            // values are owned by the user: free them by walking
            FreeScan fs;
            table->scan(Str("", 0), true, fs, tis[0]);
            for (Val* v : fs.v) tis[0].deallocate(v, sizeof(Val), memtag_value);
        }
        if (rt::has_violation()) return;
        if (prop == "C07" && !cycles()) return;
        drain();        // destroying a table presupposes that other threads' deferred work has run
        if (rt::has_violation()) return;
        table->destroy(tis[0]);
        drain();
        ++S.destroyed;
        if (rt::has_violation()) return;
        size_t l = rt::live_count(rt::K_LEAF), in = rt::live_count(rt::K_INTERNODE), ks = rt::live_count(rt::K_KSUF), gc = rt::live_count(rt::K_GC), v = rt::live_count(rt::K_VALUE);
        if (l || in || ks || gc || v) {
            char b[200]; snprintf(b, sizeof b, "after destroying the table and draining: %zu leaves, %zu internal nodes, %zu suffix blocks, %zu gc records, %zu values still allocated", l, in, ks, gc, v);
            rt::violation("leak", b);
        }
    }
    typedef Masstree::node_base<PP> node_type;
    typedef Masstree::internode<PP> internode_type;
    void dump(node_type* n, int d) {
        if (n->isleaf()) {
            leaf_type* l = (leaf_type*) n; auto perm = l->permutation();
            printf("%*sleaf %p ver %llx prev %p next %p mod %d size %d:", d, "", (void*) l, (unsigned long long) l->version_value(), (void*) l->prev_, (void*) l->safe_next(), l->modstate_, perm.size());
            for (int i = 0; i < perm.size(); ++i) { int p = perm[i]; char b[9]; uint64_t ik = __builtin_bswap64(l->ikey0_[p]); memcpy(b, &ik, 8); b[8] = 0; printf(" [%d]%s/%d", p, hexkey(b).c_str(), l->keylenx_[p]); }
            printf("\n");
            for (int i = 0; i < perm.size(); ++i) if (l->is_layer(perm[i])) dump(l->lv_[perm[i]].layer(), d + 2);
        } else {
            internode_type* in = (internode_type*) n;
            printf("%*sinode %p ver %llx nkeys %d root %d\n", d, "", (void*) in, (unsigned long long) in->version_value(), in->size(), in->is_root());
            for (int i = 0; i <= in->size(); ++i) { if (i) { char b[9]; uint64_t ik = __builtin_bswap64(in->ikey0_[i - 1]); memcpy(b, &ik, 8); b[8] = 0; printf("%*s-%s\n", d, "", hexkey(b).c_str()); } if (in->child_[i]) dump(in->child_[i], d + 1); else printf("%*snull\n", d + 1, ""); }
        }
    }
    void leftover() {
        size_t l = rt::live_count(rt::K_LEAF), in = rt::live_count(rt::K_INTERNODE), ks = rt::live_count(rt::K_KSUF), gc = rt::live_count(rt::K_GC);
        if (S.by_type[ABANDON] != abandon0) return;  // abandoned inserts may leave leaves that were never emptied
        ++S.strict_empty;
        if (l > 1 || in > 1 || ks > 1 || gc) {
            char b[200]; snprintf(b, sizeof b, "after removing every key and draining: %zu leaves, %zu internal nodes, %zu suffix blocks, %zu gc records (an empty tree needs 1, at most 1, at most 1, 0)", l, in, ks, gc);
            rt::violation("not-given-back", b);
            if (trace) dump(table->root(), 0);
        }
    }
    // filling and emptying the tree again and again settles at one size
    bool cycles() {
        if (S.by_type[ABANDON] != abandon0) return true;
        int N = r.chance(1, 8) ? 12 : 4;
        size_t U = P.keys.size(), full[12], empty[12], leaves[12], inodes[12];
        vector<int> in(U), out(U);
        for (size_t i = 0; i < U; ++i) in[i] = out[i] = i;
        for (size_t i = U; i > 1; --i) { std::swap(in[i - 1], in[r.below(i)]); std::swap(out[i - 1], out[r.below(i)]); }
        if (r.chance(1, 3)) std::sort(in.begin(), in.end());
        if (r.chance(1, 3)) { std::sort(out.begin(), out.end()); if (r.chance(1, 2)) std::reverse(out.begin(), out.end()); }
        size_t keep = ev.size();
        for (int c = 0; c < N; ++c) {
            for (int k : in) do_op(tis[0], Op{PUT, k, 0, false, 0});
            drain(); full[c] = rt::live_bytes(); leaves[c] = rt::live_count(rt::K_LEAF); inodes[c] = rt::live_count(rt::K_INTERNODE);
            for (int k : out) do_op(tis[0], Op{REM, k, 0, false, 0});
            drain(); empty[c] = rt::live_bytes();
            if (rt::has_violation()) return false;
            leftover();
            if (rt::has_violation()) return false;
            ++S.cycles;
        }
        ev.resize(keep);
        // The set of nodes must repeat exactly; suffix storage may be sized
        // differently from one cycle to the next but must not keep growing.
        bool rising = N > 4;
        for (int c = 3; c + 1 < N; ++c) rising &= full[c] < full[c + 1];
        for (int c = 3; c < N; ++c)
            if (leaves[c] != leaves[2] || inodes[c] + 1 < inodes[2] || inodes[c] > inodes[2] + 1 || full[c] > 2 * full[1] + 4096 || empty[c] > 2 * empty[1] + 4096) rising = true;
        if (rising) {
            string m = "equal fill/empty cycles do not settle at one size:";
            for (int c = 0; c < N; ++c) m += " full " + std::to_string(full[c]) + "B/" + std::to_string(leaves[c]) + " leaves/" + std::to_string(inodes[c]) + " internal, empty " + std::to_string(empty[c]) + "B;";
            rt::violation("growth", m); return false;
        }
        return true;
    }
    uint64_t abandon0 = S.by_type[ABANDON];
};

static string last_desc; static bool cur_nontrivial;
template <typename PP> static void go(Program& P, Rng& r) {
    Runner<PP>* R = new Runner<PP>(P, r);
    curEv = &R->ev;
    R->run();
    if (rt::has_violation() && rt::violation_kind() != "") { /* caller prints */ }
    if (trace || rt::has_violation()) last_desc = describe(P, R->ev);
    curEv = nullptr;
    cur_nontrivial = R->cur_overlap && rt::exec_switches() >= 3;
    delete R;
}
static FILE* outf; static string replay_dir;
static void report(uint64_t seed, const string& kind, const string& msg, const string& desc) {
    string path = replay_dir + "/" + prop + "-tree-" + std::to_string(seed) + ".txt";
    FILE* f = fopen(path.c_str(), "w");
    if (f) { fprintf(f, "harness: tree_sched --prop %s --one %llu\nkind: %s\n%s\n%s", prop.c_str(), (unsigned long long) seed, kind.c_str(), msg.c_str(), desc.c_str()); fclose(f); }
    fprintf(outf, "VIOL\t%s\t%s\t%s\n", kind.c_str(), path.c_str(), msg.substr(0, 600).c_str());
    fflush(outf);
}
static void on_sig(int sig) {
    string kind = rt::has_violation() ? rt::violation_kind() : sig == SIGABRT ? "assertion" : "crash";
    string msg = rt::has_violation() ? rt::violation_msg() + " (then signal " + std::to_string(sig) + ")" : "signal " + std::to_string(sig) + " while executing; thread T" + std::to_string(rt::cur_thread()) + " step " + std::to_string(rt::now());
    report(curSeed, kind, msg, curP && curEv ? describe(*curP, *curEv) : "");
    _exit(1);
}

static volatile uint64_t* progress;
static void one(uint64_t seed) {
    Rng r(seed);
    curSeed = seed;
    if (progress) *progress = seed;
    rt::begin_exec();
    Program P = gen(seed, r);
    curP = &P;
    keystr.clear();
    size_t off = 0;
    for (auto& k : P.keys) { memset(keypool + off, 0xEE, 288); memcpy(keypool + off, k.data(), k.size()); keystr.push_back(Str(keypool + off, k.size())); off += 288; }
    switch (P.config) {
    case 0: case 1: case 2: go<Params<3, 3, bound_method_binary, uint32_t>>(P, r); break;
    case 3: case 4: go<Params<4, 3, bound_method_linear, uint64_t>>(P, r); break;
    case 5: go<Params<5, 4, bound_method_binary, uint64_t>>(P, r); break;
    case 6: go<Params<11, 4, bound_method_linear, uint32_t>>(P, r); break;
    default: go<Params<15, 15, bound_method_binary, uint32_t>>(P, r); break;
    }
    ++S.execs; ++S.by_family[P.family]; ++S.by_config[P.config]; ++S.by_strategy[P.sched.strategy];
    if (cur_nontrivial) { ++S.nontrivial; if (distinct.size() < 4000000) distinct.insert(rt::exec_hash()); }
    curP = nullptr;
}

int main(int argc, char** argv) {
    uint64_t seed = 1, n = 1000, single = 0; bool has_single = false;
    outf = stdout; replay_dir = "/tmp";
    double maxs = 1e9; string hashes;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a == "--prop") prop = argv[++i];
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--execs") n = strtoull(argv[++i], 0, 10);
        else if (a == "--one") { single = strtoull(argv[++i], 0, 10); has_single = true; }
        else if (a == "--out") { outf = fopen(argv[++i], "w"); if (!outf) return 3; }
        else if (a == "--replay-dir") replay_dir = argv[++i];
        else if (a == "--hashes") hashes = argv[++i];
        else if (a == "--progress") { int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, 8)) return 3; progress = (volatile uint64_t*) mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
        else if (a == "--max-seconds") maxs = atof(argv[++i]);
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; }
    }
    static char alt[1 << 16];
    stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
    keypool = (char*) malloc(288 * 512);
    int rc = 0;
    if (has_single) {
        trace = true;
        one(single);
        printf("%s", last_desc.c_str());
        if (rt::has_violation()) { printf("VIOLATION kind=%s: %s\n", rt::violation_kind().c_str(), rt::violation_msg().c_str()); return 1; }
        printf("no violation; %llu switches\n", (unsigned long long) rt::exec_switches());
        return 0;
    }
    time_t t0 = time(0);
    Rng sr(seed ^ 0xABCDEF);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t es = sr.next() >> 8;
        one(es);
        if (rt::has_violation()) { report(es, rt::violation_kind(), rt::violation_msg(), last_desc); rc = 1; break; }
        if ((i & 1023) == 0 && difftime(time(0), t0) > maxs) break;
    }
    if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "w"); if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); } }
    fprintf(outf, "STATS\t{");
    auto pr = [&](const char* n, uint64_t v) { fprintf(outf, "\"%s\":%llu,", n, (unsigned long long) v); };
    pr("execs", S.execs); pr("nontrivial_execs", S.nontrivial); pr("ops", S.ops); pr("steps", S.steps); pr("switches", S.switches); pr("overlapping_ops", S.overlapping);
    pr("key_histories_checked", S.keys_checked); pr("key_histories_skipped", S.lin_skipped); pr("updates_under_an_outer_lock", S.outer_held); pr("outer_lock_waits", S.outer_waits); pr("scans", S.scans); pr("scan_items", S.scan_items);
    pr("leaf_allocs", S.leaf_allocs); pr("internode_allocs", S.inode_allocs); pr("suffix_blocks", S.ksuf_allocs); pr("gc_records", S.gc_records); pr("callbacks_run", MonitorTI::callbacks_run); pr("releases", MonitorTI::released);
    pr("destroyed", S.destroyed); pr("emptied", S.drained_cycles); pr("strict_empty_checks", S.strict_empty); pr("fill_empty_cycles", S.cycles);
    pr("txns", S.txns); pr("txn_commit", S.txn_commit); pr("txn_abort", S.txn_abort); pr("phantom_checks", S.phantom_checks); pr("own_version_checks", S.own_version_checks); pr("absent_reads", S.absent_reads);
    for (int i = 0; i < 8; ++i) { string n = string("ops_") + opname[i]; pr(n.c_str(), S.by_type[i]); }
    for (int i = 0; i < 8; ++i) { string n = "family_" + std::to_string(i); pr(n.c_str(), S.by_family[i]); }
    for (int i = 0; i < 10; ++i) { string n = "config_" + std::to_string(i); pr(n.c_str(), S.by_config[i]); }
    static const char* sn[] = {"random", "pct", "wbias", "stall"};
    for (int i = 0; i < 4; ++i) { string n = string("strategy_") + sn[i]; pr(n.c_str(), S.by_strategy[i]); }
    static const char* mk[] = {"root_retries", "internode_retries", "leaf_retries", "leaf_walks", "waits_on_inserting_leaf", "waits_on_splitting_leaf"};
    int mi[] = {tc_root_retry, tc_internode_retry, tc_leaf_retry, tc_leaf_walk, tc_stable_leaf_insert, tc_stable_leaf_split};
    for (int i = 0; i < 6; ++i) pr(mk[i], MonitorTI::marks[mi[i] < 63 ? mi[i] : 63]);
    fprintf(outf, "\"distinct_schedules\":%zu}\n", distinct.size());
    fflush(outf);
    return rc;
}
