// C10: rows behave as column arrays under partial updates.  The real query
// engine (kvrow.hh) over a real table, for the row type selected on the
// command line, against a map of column vectors; rows are malloc blocks, so
// AddressSanitizer sees any access outside one.  The row operations and the
// checkpoint encoding are also exercised directly.
#include "fuzz.hh"
#include "masstree.hh"
#include "kvrow.hh"
#include "kvthread.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "msgpack.hh"
#include "straccum.hh"
using namespace fz;
using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum;

relaxed_atomic<mrcu_epoch_type> globalepoch(1), active_epoch(1);
kvepoch_t global_log_epoch = 0;
kvtimestamp_t initial_timestamp = 1;
volatile bool recovering = false;

struct params : public Masstree::nodeparams<15, 15> { typedef row_type* value_type; typedef ::threadinfo threadinfo_type; };
typedef Masstree::basic_table<params> table_type;

#if MASSTREE_ROW_TYPE_STR
enum { is_str = 1, is_bag = 0 };
#elif MASSTREE_ROW_TYPE_ARRAY || MASSTREE_ROW_TYPE_ARRAY_VER
enum { is_str = 0, is_bag = 0 };
#else
enum { is_str = 0, is_bag = 1 };
#endif

typedef std::vector<std::string> Row;       // is_str: one element
struct MRow { Row c; kvtimestamp_t ts = 0; bool marker = false; };
struct Change { unsigned col; std::string v; };

static threadinfo* ti;
// keys are compared a word at a time, so their buffers extend a little further
static char keybuf[300];
static Str K(const std::string& k) { memcpy(keybuf + 16, k.data(), k.size()); return Str(keybuf + 16, k.size()); }
static String KS(const std::string& k) { String s = String::make_uninitialized(k.size() + 32); memset(s.mutable_data(), 0, k.size() + 32); memcpy(s.mutable_data() + 16, k.data(), k.size()); return s.substr(16, k.size()); }
static std::string S(Str s) { return std::string(s.data(), s.length()); }

static size_t bag_size(const Row& r) { size_t z = 4 + 2 * r.size(); for (auto& x : r) z += x.size(); return z; }

static std::string value(Case& c, int cls) {
    int n;
    switch (cls) {
    case 0: n = c.r.below(4); break;
    case 1: n = c.r.below(20); break;
    case 2: n = c.r.below(300); break;
    default: n = c.r.below(c.r.chance(1, 6) ? 30000 : 2000);
    }
    std::string s(n, 0);
    for (auto& ch : s) ch = c.r.chance(1, 8) ? "\0\xff\n"[c.r.below(3)] : 'a' + c.r.below(26);
    return s;
}
// An update of `r` (of 1 column and up, columns ascending), applied to `r`.
static std::vector<Change> change(Case& c, Row& r, int cls, int colcls) {
    std::vector<Change> ch;
    if (is_str) {
        std::string& s = r.empty() ? (r.push_back(""), r[0]) : r[0];
        if (c.r.chance(1, 3)) { ch.push_back({0, value(c, cls)}); s = ch[0].v; }
        int n = c.r.range(ch.empty() ? 1 : 0, 3);
        std::vector<Change> more;
        std::string t = s;
        for (int i = 0; i < n; ++i) {
            // bytes skipped over read as zero; index 0 means "all"
            unsigned off = c.r.below(std::min<size_t>(t.size() + 1 + (c.r.chance(1, 5) ? c.r.below(40) : 0), 60000));
            std::string v = value(c, cls);
            if (v.size() > 3000) v.resize(3000);
            unsigned idx = off + (unsigned(v.size()) << 16);
            if (!idx || (!more.empty() && idx <= more.back().col)) continue;
            if (off + v.size() > t.size()) t.resize(off + v.size());
            t.replace(off, v.size(), v);
            more.push_back({idx, v});
        }
        for (auto& m : more) ch.push_back(m);
        s = t;
        if (ch.empty()) { ch.push_back({0, value(c, 0)}); s = ch[0].v; }
        return ch;
    }
    unsigned maxcol = colcls == 0 ? 3 : colcls == 1 ? 8 : colcls == 2 ? 40 : 700;
    std::set<unsigned> cols;
    int n = c.r.chance(1, 2) ? 1 : c.r.range(1, 6);
    for (int i = 0; i < n; ++i) cols.insert(c.r.chance(1, 2) && !r.empty() ? c.r.below(r.size()) : c.r.below(maxcol));
    for (unsigned k : cols) {
        std::string v = value(c, cls);
        if (!r.empty() && k < r.size() && c.r.chance(1, 3)) v = std::string(r[k].size(), 'A' + c.r.below(26));   // same length
        Row t = r; if (t.size() <= k) t.resize(k + 1); t[k] = v;
        if (is_bag && bag_size(t) > 65535) {
            if (!ch.empty()) continue;
            size_t over = bag_size(t) - 65535;
            if (over > v.size()) { count("rows_full"); v = std::string(k < r.size() ? r[k].size() : 0, 'Z'); t = r; if (t.size() <= k) t.resize(k + 1); t[k] = v; if (bag_size(t) > 65535) continue; }
            else { v.resize(v.size() - over); t[k] = v; count("rows_at_limit"); }
        }
        r = t; ch.push_back({k, v});
    }
    if (ch.empty()) { unsigned k = 0; std::string v = r.empty() ? "" : std::string(r[0].size(), 'y'); if (r.empty()) r.push_back(""); r[0] = v; ch.push_back({k, v}); }
    return ch;
}
static std::vector<Json> to_json(const std::vector<Change>& ch) {
    std::vector<Json> j;
    for (auto& x : ch) { j.push_back(Json(x.col)); j.push_back(Json(String(x.v.data(), x.v.size()))); }
    return j;
}
static std::string show_change(const std::vector<Change>& ch) { std::string s; for (auto& x : ch) s += fmt("[%u%s]=", is_str ? x.col & 0xffff : x.col, is_str && x.col ? fmt("+%u", x.col >> 16).c_str() : "") + show(x.v, 24) + fmt("(%zu) ", x.v.size()); return s; }

static std::string col_of(const Row& r, unsigned k) {
    if (is_str) {
        const std::string s = r.empty() ? "" : r[0];
        if (k == 0) return s;
        unsigned off = k & 0xffff, len = k >> 16;
        return off >= s.size() ? "" : s.substr(off, len);
    }
    return k < r.size() ? r[k] : "";
}
static unsigned some_col(Case& c, const Row& r) {
    if (is_str) { if (c.r.chance(1, 3)) return 0; size_t n = r.empty() ? 0 : r[0].size(); return c.r.below(std::min<size_t>(n + 6, 65535)) + (c.r.below(n + 6 > 60000 ? 60000 : n + 6) << 16); }
    return c.r.chance(1, 4) ? r.size() + c.r.below(5) : c.r.below(r.size() + 1);
}
static void check_row(const row_type* row, const Row& r, const char* what) {
    if (row->ncol() != (is_str ? 1 : (int) r.size())) fail("ncol", fmt("%s: row has %d columns, expected %zu", what, row->ncol(), r.size()));
    for (int i = 0; i < row->ncol(); ++i) if (S(row->col(i)) != col_of(r, is_str ? 0 : i)) fail("column", fmt("%s: column %d is ", what, i) + show(S(row->col(i)), 60) + ", expected " + show(col_of(r, i), 60));
    if (S(row->col(is_str ? 0xffff : row->ncol() + 3)) != "") fail("column", "a column past the end is not empty");
}
static row_type* round_trip(const row_type* row, const Row& r) {
    StringAccum sa; msgpack::unparser<StringAccum> u(sa);
    row->checkpoint_write(u);
    std::vector<char> buf(sa.begin(), sa.end());     // exactly sized, so that over-reads show
    char* heap = new char[buf.size()]; memcpy(heap, buf.data(), buf.size());
    msgpack::parser par(heap);
    row_type* n = row_type::checkpoint_read(par, row->timestamp(), *ti);
    bool whole = par.position() == heap + buf.size();
    delete[] heap;
    if (!whole) fail("checkpoint", "reading a checkpointed row did not consume what was written");
    check_row(n, r, "row read back from a checkpoint");
    if (n->timestamp() != row->timestamp()) fail("checkpoint", "timestamp changed");
    return n;
}
static void tick() {
    globalepoch.store(globalepoch.load() + 2);
    ti->rcu_quiesce();
    active_epoch.store(threadinfo::min_active_epoch());
    ti->rcu_quiesce();
}

// one row on its own
static void direct_case(Case& c) {
    int cls = c.r.below(4), colcls = c.r.below(4);
    if (is_bag && colcls == 3 && cls == 3) cls = 2;
    Row r; kvtimestamp_t ts = 2;
    row_type* row;
    if (c.r.chance(1, 3)) { std::string v = value(c, cls); r = Row{v}; row = row_type::create1(Str(v.data(), v.size()), ts, *ti); c.hash(v); }
    else { auto ch = change(c, r, cls, colcls); auto j = to_json(ch); note("create %s", show_change(ch).c_str()); row = row_type::create(j.data(), j.data() + j.size(), ts, *ti); for (auto& x : ch) { c.hash(x.col); c.hash(x.v); } }
    check_row(row, r, "new row");
    int n = c.r.range(1, 25);
    for (int i = 0; i < n; ++i) {
        if (c.r.chance(1, 5)) { row_type* m = round_trip(row, r); count("checkpoint_round_trips"); if (c.r.chance(1, 2)) { row->deallocate(*ti); row = m; } else m->deallocate(*ti); }
        auto ch = change(c, r, cls, colcls); auto j = to_json(ch); ts += 2;
        for (auto& x : ch) { c.hash(x.col); c.hash(x.v); }
        note("update %s", show_change(ch).c_str());
        // the engine keeps the request's strings alive only during the update
        row_type* nr = row->update(j.data(), j.data() + j.size(), ts, *ti);
        j.clear();
        if (nr != row) { j = to_json(ch); row->deallocate_rcu_after_update(j.data(), j.data() + j.size(), *ti); } else count("in_place_updates");
        row = nr;
        count("updates");
        check_row(row, r, "after update");
        if (row->timestamp() != ts) fail("timestamp", fmt("row has timestamp %llu after an update at %llu", (unsigned long long) row->timestamp(), (unsigned long long) ts));
        tick();
    }
    row->deallocate(*ti);
    c.nontrivial = n > 2;
}

// a column never set may come back as null or as the empty string
static std::string jstr(const Json& j) { if (j.is_null()) return ""; if (!j.is_s()) return "(not a string)"; return std::string(j.as_s().data(), j.as_s().length()); }

struct Eng {
    Case& c; table_type t; std::map<std::string, MRow> m; query<row_type> q;
    std::vector<std::string> keys; int cls, colcls;
    Eng(Case& cc) : c(cc) { t.initialize(*ti); cls = c.r.below(4); colcls = c.r.below(4); if (is_bag && colcls == 3 && cls == 3) cls = 2; }
    std::string expect_cols(const Row& r, const std::vector<int>& f, const Json& got, int from, bool single) {
        // single: a scan gives a lone column without an array around it
        std::vector<std::string> want;
        if (f.empty()) { if (is_str) want.push_back(col_of(r, 0)); else want = r; }
        else for (int k : f) want.push_back(col_of(r, k));
        if (single && want.size() == 1) { return jstr(got) == want[0] ? "" : "value " + show(jstr(got), 80) + " expected " + show(want[0], 80); }
        if (int(want.size()) != got.size() - from) return fmt("%d columns, expected %zu", got.size() - from, want.size());
        for (size_t i = 0; i < want.size(); ++i) if (jstr(got[from + i]) != want[i]) return fmt("column #%zu is ", i) + show(jstr(got[from + i]), 80) + " expected " + show(want[i], 80);
        return "";
    }
    std::vector<int> fields(const Row& r) { std::vector<int> f; if (c.r.chance(1, 2)) { int n = c.r.range(1, 4); while (n--) f.push_back(some_col(c, r)); } return f; }
    void step() {
        const std::string& k = c.r.pick(keys); auto it = m.find(k); bool have = it != m.end() && !it->second.marker;
        Str key = K(k);
        int op = c.r.below(100); c.hash(op); c.hash(k);
        if (op < 40) {
            Row r = have ? it->second.c : Row();
            auto ch = change(c, r, cls, colcls); auto j = to_json(ch);
            for (auto& x : ch) { c.hash(x.col); c.hash(x.v); }
            result_t res = q.run_put(t, key, j.data(), j.data() + j.size(), *ti);
            note("put %s %s-> %d", show(k).c_str(), show_change(ch).c_str(), res);
            if (res != (have ? Updated : Inserted)) fail("put result", fmt("put returned %d for a row that %s", res, have ? "exists" : "does not exist"));
            kvtimestamp_t ts = q.query_times().ts;
            if (it != m.end() && ts <= it->second.ts) fail("version", "put returned a version not above the row's previous one");
            if (have && q.query_times().prev_ts != it->second.ts) fail("version", "put did not report the version it replaced");
            MRow& x = m[k]; x.c = r; x.ts = ts; x.marker = false; count("puts");
        } else if (op < 50) {
            std::string v = value(c, cls);
            if (is_bag && v.size() > 60000) v.resize(60000);
            c.hash(v);
            result_t res = q.run_replace(t, key, Str(v.data(), v.size()), *ti);
            note("replace %s %s -> %d", show(k).c_str(), show(v, 30).c_str(), res);
            if (res != (have ? Updated : Inserted)) fail("replace result", fmt("replace returned %d for a row that %s", res, have ? "exists" : "does not exist"));
            kvtimestamp_t ts = q.query_times().ts;
            if (it != m.end() && ts <= it->second.ts) fail("version", "replace returned a version not above the row's previous one");
            MRow& x = m[k]; x.c = Row{v}; x.ts = ts; x.marker = false; count("replaces");
        } else if (op < 58) {
            bool f = q.run_remove(t, key, *ti);
            note("remove %s -> %d", show(k).c_str(), f);
            if (f != have) fail("remove result", fmt("remove returned %d for a row that %s", f, have ? "exists" : "does not exist"));
            if (have) m.erase(it);
            count("removes");
        } else if (op < 62) {
            // what recovery leaves behind for a removed row
            if (it == m.end()) {
                Masstree::tcursor<params> lp(t, key); bool f = lp.find_insert(*ti); if (f) fail("remove", "a removed row is still there");
                row_marker mk; mk.marker_type_ = row_marker::mt_remove; kvtimestamp_t ts = ti->update_timestamp() | 1;
                lp.value() = row_type::create1(Str((const char*) &mk, sizeof mk), ts, *ti); lp.finish(1, *ti);
                MRow x; x.marker = true; x.ts = ts; m[k] = x; count("markers");
                note("marker %s", show(k).c_str());
            }
        } else if (op < 78) {
            std::vector<int> f = fields(have ? it->second.c : Row());
            Json req = Json::array(1, int(Cmd_Get), KS(k));
            for (int x : f) req.push_back(x);
            q.run_get(t, req, *ti);
            note("get %s %zu fields", show(k).c_str(), f.size());
            if (!have) { if (req.size() != 2) fail("get", "a get of a row that does not exist returned columns"); }
            else { std::string e = expect_cols(it->second.c, f, req, 2, false); if (!e.empty()) fail("get", "get " + show(k) + ": " + e); }
            count("gets");
        } else if (op < 84) {
            unsigned col = some_col(c, have ? it->second.c : Row()); Str v;
            bool f = q.run_get1(t, key, col, v, *ti);
            note("get1 %s %u", show(k).c_str(), col);
            if (f != have) fail("get1", fmt("get1 found=%d, row exists=%d", f, have));
            if (f && S(v) != col_of(it->second.c, col)) fail("get1", fmt("column %u of ", col) + show(k) + " is " + show(S(v), 80) + " expected " + show(col_of(it->second.c, col), 80));
            count("gets");
        } else {
            bool rev = c.r.chance(1, 3); int n = c.r.range(1, 12);
            std::vector<int> f; if (c.r.chance(1, 2)) { int nf = c.r.range(1, 3); while (nf--) f.push_back(some_col(c, have ? it->second.c : Row())); }
            Json req = Json::array(1, int(Cmd_Scan), KS(k), n);
            for (int x : f) req.push_back(x);
            if (rev) q.run_rscan(t, req, *ti); else if (c.r.chance(1, 2)) q.run_scan(t, req, *ti); else { std::vector<uint64_t> v; q.run_scan_versions(t, req, v, *ti); }
            note("%sscan %s n=%d %zu fields -> %d", rev ? "r" : "", show(k).c_str(), n, f.size(), (req.size() - 2) / 2);
            std::vector<std::string> want;
            if (rev) { for (auto i = m.upper_bound(k); i != m.begin() && (int) want.size() < n;) { --i; if (!i->second.marker) want.push_back(i->first); } }
            else for (auto i = m.lower_bound(k); i != m.end() && (int) want.size() < n; ++i) if (!i->second.marker) want.push_back(i->first);
            if (req.size() != 2 + 2 * (int) want.size()) fail("scan", fmt("scan returned %d rows, expected %zu", (req.size() - 2) / 2, want.size()));
            for (size_t i = 0; i < want.size(); ++i) {
                if (jstr(req[2 + 2 * i]) != want[i]) fail("scan", fmt("scan key #%zu is ", i) + show(jstr(req[2 + 2 * i])) + " expected " + show(want[i]));
                std::string e = expect_cols(m[want[i]].c, f, req[3 + 2 * i], 0, true);
                if (!e.empty()) fail("scan", "scan row " + show(want[i]) + ": " + e);
            }
            count("scans"); count("scan_rows", want.size());
        }
    }
};

void run_case(Case& c) {
    ti->rcu_start();
    if (c.r.chance(1, 3)) { direct_case(c); ti->rcu_stop(); count("direct_cases"); return; }
    Eng e(c);
    int nk = c.r.range(1, c.r.chance(1, 3) ? 40 : 6);
    int fam = c.r.below(3);
    std::set<std::string> ks;
    for (int i = 0; i < nk; ++i) {
        std::string k = fam == 0 ? fmt("k%03d", i) : fam == 1 ? fmt("a long common prefix %d", i * 7919 % 1000) : std::string(1, 'a' + i % 3) + std::string(i % 12, 'b');
        ks.insert(k);
    }
    e.keys.assign(ks.begin(), ks.end());
    for (auto& k : e.keys) k.reserve(k.size() + 16);
    int n = c.r.range(5, 90);
    for (int i = 0; i < n; ++i) { e.step(); if (c.r.chance(1, 4)) { tick(); } count("ops"); }
    for (auto& x : e.m) {
        Masstree::unlocked_tcursor<params> lp(e.t, K(x.first));
        if (!lp.find_unlocked(*ti)) fail("final", "row lost: " + show(x.first));
        if (!x.second.marker) { check_row(lp.value(), x.second.c, "final"); if (lp.value()->timestamp() != x.second.ts) fail("version", "the row's version is not the one its last put returned"); }
    }
    e.t.destroy(*ti);
    for (int i = 0; i < 4; ++i) tick();
    ti->rcu_stop();
    c.nontrivial = n > 10;
}
static void start(int, char**) { setenv("_", "valgrind", 1); ti = threadinfo::make(0, 0); }
static struct Init { Init() { fz_at_start = start; } } init;
