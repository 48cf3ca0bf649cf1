// Crash laboratory for the server's logging, recovery and checkpointing code (C12-C16).
//
// The real mtd.cc, log.cc, checkpoint.cc, file.cc, kvrow.hh and tree code run in forked children with real
// threads. Every change they make to files passes through link-time wrappers that journal it (with unsynced
// data kept apart from synced data) in memory shared with the driver. The driver picks crash points in the
// journal, builds the directory image a crash there could have left, runs the real recovery on it in another
// child and judges the recovered contents against the recorded history of operations.
#define main mtd_main
#include "mtd.cc"
#undef main
#include <sys/wait.h>
#include <dirent.h>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <thread>
#include <sstream>
#include <unordered_set>

typedef std::string S;
typedef std::vector<S> row_t;
typedef std::map<S, row_t> state_t;

// ---------------------------------------------------------------- randomness
struct rng {
    uint64_t s;
    explicit rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t operator()(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    bool p(int num, int den) { return (int) (*this)(den) < num; }
};
static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull;
    x ^= x >> 29; x *= 0x94D049BB133111EBull; return x ^ (x >> 32);
}

// ---------------------------------------------------------------- shared memory
enum { MAXLOG = 4, MAXCLIENT = 5, MAXOPS = 6000, MAXJ = 60000, DATASZ = 96 << 20, DUMPSZ = 24 << 20, MAXGUARD = 1 << 17 };
enum jtype { J_CREATE, J_OPEN, J_WRITE, J_SYNCBEGIN, J_SYNCEND, J_RENAME, J_TRUNC, J_UNLINK, J_NAP, J_MARK };
struct jent {
    uint64_t seq;
    int type, who;            // who: logger index or -1
    int file;                 // inode number
    uint64_t off, len;        // data in the data area / new length
    uint64_t epoch;
    char name[96], name2[96];
};
enum optype { OP_PUT, OP_REPLACE, OP_REMOVE, OP_GET, OP_NTYPES };
struct oprec {
    std::atomic<uint64_t> inv, resp;
    int type, key;
    uint64_t id, ts, prev_ts, epoch;
    int mask, logidx, result;
};
struct dumpbuf { uint64_t len; uint64_t nmarkers; bool complete; };
struct shared {
    std::atomic<uint64_t> seq;
    std::atomic<uint64_t> nj, ndata;
    pthread_mutex_t mu;
    jent j[MAXJ];
    std::atomic<int> nops[MAXCLIENT];
    oprec ops[MAXCLIENT][MAXOPS];
    int stage;                       // 0 starting, 1 recovered, 2 running, 3 finished
    uint64_t recovered_seq;          // seq when recovery finished
    uint64_t t_stop;
    dumpbuf dump[2];
    uint64_t stalls, deltas, ckp_commits, bad;
    char badmsg[4000];
    std::atomic<uint64_t> rpos;      // progress of journal overflow
    unsigned char guards[MAXGUARD];
};
static shared* sh;
static char* shdata;
static char* shdump[2];

// ---------------------------------------------------------------- configuration of a cycle
struct config {
    int L, M, ndirs, nck;
    bool ckp;
    uint32_t buflen;
    int nap_us, sync_us[MAXLOG], slow_log, epoch_us, ckp_us, ckpsync_us;
    int duration_ms, think_us, quiet_ms;
    int nops;                // per client limit
    int mixw[OP_NTYPES];
    bool own_keys;           // each log has its own keys
    int bigvalues;
    uint64_t seed, cycle;
    int noise;               // number of hot guards
    uint32_t hot[4];
    bool late_start;         // clients begin at once after recovery
    std::vector<S> keys;
};
static config cfg;
static bool in_child;
static thread_local int tl_quiet;
static S workdir;
static bool verbose;

static S logdir(int i) { return workdir + "/l" + std::to_string(i % cfg.ndirs); }
static S ckdir(int i) { return workdir + "/c" + std::to_string(i % cfg.ndirs); }

// ---------------------------------------------------------------- journalled file operations
extern "C" {
int __real_open(const char*, int, ...);
int __real_creat(const char*, mode_t);
ssize_t __real_write(int, const void*, size_t);
int __real_fsync(int);
int __real_close(int);
int __real_rename(const char*, const char*);
int __real_ftruncate(int, off_t);
int __real_unlink(const char*);
int __real_nanosleep(const struct timespec*, struct timespec*);
unsigned __real_sleep(unsigned);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
}
static int fd_inode[1024];
static std::map<S, int>* inode_of;     // child only, under sh->mu
static int next_inode;
static thread_local rng* tl_rng;
static std::atomic<uint64_t> rng_id;
static rng& trng() {
    if (!tl_rng) { uint64_t k = rng_id++; tl_rng = new rng(mix(cfg.seed, 1000 + k)); }
    return *tl_rng;
}
static void nap_us(uint64_t us) {
    if (!us) return;
    struct timespec t = { (time_t) (us / 1000000), (long) (us % 1000000) * 1000 };
    __real_nanosleep(&t, 0);
}
static uint64_t tick() { return ++sh->seq; }
static int whoami() {
    for (threadinfo* ti = threadinfo::allthreads; ti; ti = ti->next())
        if (ti->purpose() == threadinfo::TI_LOG && pthread_equal(ti->pthread(), pthread_self()))
            return ti->index();
    return -1;
}
template <typename T> static auto set_buffer_length(T& li, uint32_t n, int) -> decltype(li.len_, void()) { li.acquire(); li.len_ = n; li.release(); }
template <typename T> static void set_buffer_length(T&, uint32_t, long) {}
static jent* jadd(int type, int file, const char* name = "", const char* name2 = "") {
    uint64_t n = sh->nj;
    if (n + 1 >= MAXJ) { sh->bad = 2; snprintf(sh->badmsg, sizeof(sh->badmsg), "journal full"); _exit(99); }
    jent* e = &sh->j[n];
    e->type = type; e->file = file; e->off = e->len = 0; e->who = whoami();
    e->epoch = global_log_epoch.value();
    snprintf(e->name, sizeof(e->name), "%s", name);
    snprintf(e->name2, sizeof(e->name2), "%s", name2);
    e->seq = tick();
    sh->nj = n + 1;
    return e;
}
struct jlock { jlock() { pthread_mutex_lock(&sh->mu); } ~jlock() { pthread_mutex_unlock(&sh->mu); } };
static const char* rel(const char* p) {
    return strncmp(p, workdir.c_str(), workdir.size()) == 0 ? p + workdir.size() + 1 : 0;
}
extern "C" {
int __wrap_open(const char* path, int flags, ...) {
    va_list va; va_start(va, flags); int mode = va_arg(va, int); va_end(va);
    const char* r = in_child ? rel(path) : 0;
    if (!r || (flags & O_ACCMODE) == O_RDONLY)
        return __real_open(path, flags, mode);
    jlock g;
    bool existed = access(path, F_OK) == 0;
    int fd = __real_open(path, flags, mode);
    if (fd < 0) return fd;
    if (!existed) {
        (*inode_of)[r] = ++next_inode;
        jadd(J_CREATE, next_inode, r);
    } else if (flags & O_TRUNC)
        jadd(J_TRUNC, (*inode_of)[r])->len = 0;
    fd_inode[fd] = (*inode_of)[r];
    return fd;
}
int __wrap_creat(const char* path, mode_t mode) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (!in_child || fd >= 1024 || !fd_inode[fd])
        return __real_write(fd, p, n);
    if (cfg.sync_us[0] && trng().p(1, 4)) nap_us(trng()(1500));
    jlock g;
    // the data is journalled in one piece; the driver tears it anywhere
    uint64_t off = sh->ndata;
    if (off + n > DATASZ) { sh->bad = 2; snprintf(sh->badmsg, sizeof(sh->badmsg), "data full"); _exit(99); }
    memcpy(shdata + off, p, n);
    sh->ndata = off + n;
    ssize_t r = __real_write(fd, p, n);
    jent* e = jadd(J_WRITE, fd_inode[fd]);
    e->off = off; e->len = r > 0 ? r : 0;
    return r;
}
int __wrap_fsync(int fd) {
    if (!in_child || fd >= 1024 || !fd_inode[fd])
        return 0;
    int ino = fd_inode[fd];
    int w;
    { jlock g; w = jadd(J_SYNCBEGIN, ino)->who; }
    int us = w >= 0 ? cfg.sync_us[w] : cfg.ckpsync_us;
    if (us) nap_us(trng()(us));
    if (w >= 0 && w == cfg.slow_log && trng().p(1, 3)) nap_us(trng()(us * 6 + 4000));
    { jlock g; jadd(J_SYNCEND, ino); }
    return 0;
}
int __wrap_close(int fd) {
    if (in_child && fd >= 0 && fd < 1024) fd_inode[fd] = 0;
    return __real_close(fd);
}
int __wrap_rename(const char* a, const char* b) {
    const char *ra = in_child ? rel(a) : 0, *rb = in_child ? rel(b) : 0;
    if (!ra || !rb) return __real_rename(a, b);
    jlock g;
    int r = __real_rename(a, b);
    if (r == 0) {
        (*inode_of)[rb] = (*inode_of)[ra];
        inode_of->erase(ra);
        jadd(J_RENAME, (*inode_of)[rb], ra, rb);
    }
    return r;
}
int __wrap_ftruncate(int fd, off_t len) {
    if (!in_child || fd >= 1024 || !fd_inode[fd]) return __real_ftruncate(fd, len);
    jlock g;
    int r = __real_ftruncate(fd, len);
    if (r == 0) jadd(J_TRUNC, fd_inode[fd])->len = len;
    return r;
}
int __wrap_unlink(const char* a) {
    const char* ra = in_child ? rel(a) : 0;
    if (!ra) return __real_unlink(a);
    jlock g;
    int r = __real_unlink(a);
    if (r == 0) { jadd(J_UNLINK, (*inode_of)[ra], ra); inode_of->erase(ra); }
    return r;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    if (!in_child) return __real_nanosleep(a, b);
    int w = whoami();
    if (w >= 0) { jlock g; jent* e = jadd(J_NAP, 0); e->off = global_wake_epoch.value(); }
    nap_us(trng()(cfg.nap_us) + 50);
    return 0;
}
unsigned __wrap_sleep(unsigned) { nap_us(500); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!in_child) return __real_pthread_cond_timedwait(c, m, ts);
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    uint64_t ns = t.tv_nsec + (200 + trng()(cfg.ckp_us)) * 1000ull;
    t.tv_sec += ns / 1000000000; t.tv_nsec = ns % 1000000000;
    return __real_pthread_cond_timedwait(c, m, &t);
}
// ---- injected delays at code edges
static uint32_t nguards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (; a < b; ++a) *a = ++nguards;
}
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!in_child) return;
    uint32_t id = *g;
    if (id >= MAXGUARD) return;
    sh->guards[id] |= 1;
    if (cfg.noise && !tl_quiet)
        for (int i = 0; i < cfg.noise; ++i)
            if (cfg.hot[i] == id) {
                tl_quiet = 1;
                static std::atomic<int> budget(0);
                if (budget.fetch_add(1, std::memory_order_relaxed) < 60 && trng().p(1, 2))
                    nap_us(trng()(cfg.epoch_us * 2 + 1000));
                tl_quiet = 0;
            }
}
}

// ---------------------------------------------------------------- child
static S value_of(uint64_t id, int col, int big) {
    char b[48];
    int n = snprintf(b, sizeof(b), "%llx.%d", (unsigned long long) id, col);
    S s(b, n);
    uint64_t h = mix(id, col);
    int pad = h % 5 == 0 ? 0 : h % 24;
    if (big && (h >> 8) % 6 == 0) pad = (h >> 16) % (unsigned) big;
    for (int i = 0; i < pad; ++i) s += (char) (mix(h, i) % 7 == 0 ? 0 : 'a' + mix(h, i) % 26);
    return s;
}
static void dput(char*& p, char* end, const void* x, size_t n) { if (p + n <= end) memcpy(p, x, n); p += n; }
struct dumper {
    char *p, *end; uint64_t markers;
    template <typename SS, typename K> void visit_leaf(const SS&, const K&, threadinfo&) {}
    bool visit_value(Str key, row_type* row, threadinfo&) {
        if (row_is_marker(row)) {
            ++markers;
            if (row_is_delta_marker(row)) {
                sh->bad = 1;
                snprintf(sh->badmsg, sizeof(sh->badmsg), "a partial update without its base is left in the recovered table");
            }
            return true;
        }
        uint32_t n = key.len, nc = row->ncol(); uint64_t ts = row->timestamp();
        dput(p, end, &n, 4); dput(p, end, key.s, n); dput(p, end, &ts, 8); dput(p, end, &nc, 4);
        for (uint32_t i = 0; i < nc; ++i) {
            Str c = row->col(i); uint32_t m = c.len;
            dput(p, end, &m, 4); dput(p, end, c.s, m);
        }
        return true;
    }
};
static void dump_table(int which, threadinfo& ti) {
    dumper d; d.p = shdump[which]; d.end = d.p + DUMPSZ; d.markers = 0;
    tree->table().scan(Str("", 0), true, d, ti);
    sh->dump[which].len = d.p - shdump[which];
    sh->dump[which].nmarkers = d.markers;
    sh->dump[which].complete = d.p <= d.end;
}
static bool parse_dump(int which, state_t& st, std::map<S, uint64_t>& ts, S& err) {
    char *p = shdump[which], *e = p + sh->dump[which].len;
    st.clear(); ts.clear();
    if (!sh->dump[which].complete) { err = "dump incomplete"; return false; }
    S prev; bool first = true;
    while (p < e) {
        uint32_t n, nc, m; uint64_t t;
        memcpy(&n, p, 4); p += 4; S k(p, n); p += n; memcpy(&t, p, 8); p += 8; memcpy(&nc, p, 4); p += 4;
        row_t r;
        for (uint32_t i = 0; i < nc; ++i) { memcpy(&m, p, 4); p += 4; r.push_back(S(p, m)); p += m; }
        while (!r.empty() && r.back().empty()) r.pop_back();
        if (!first && !(prev < k)) { err = "scan order"; return false; }
        first = false; prev = k;
        st[k] = r; ts[k] = t;
    }
    return true;
}
static std::atomic<bool> stop_clients;
static std::atomic<int> clients_started;
static void client(int c) {
    threadinfo* ti = threadinfo::make(threadinfo::TI_PROCESS, c);
    ti->pthread() = pthread_self();
    prepare_thread(ti);
    rng r(mix(cfg.seed, 500 + c));
    query<row_type> q;
    int tot = 0;
    for (int i = 0; i < OP_NTYPES; ++i) tot += cfg.mixw[i];
    for (int i = 0; i < cfg.nops && i < MAXOPS && !stop_clients; ++i) {
        oprec& o = sh->ops[c][i];
        o.resp = 0; o.inv = 0;
        o.id = (cfg.cycle << 40) | ((uint64_t) c << 32) | i;
        o.logidx = ti->index() % nlogger;
        int nk = cfg.keys.size();
        o.key = r.p(1, 2) ? r(nk) : r(std::min(nk, 3));
        if (cfg.own_keys)
            o.key = std::min((int) (o.key / cfg.L * cfg.L + o.logidx), nk - 1), o.key = o.key % cfg.L == o.logidx ? o.key : o.logidx;
        int w = r(tot), t = 0;
        while (w >= cfg.mixw[t]) w -= cfg.mixw[t++];
        o.type = t;
        o.mask = t == OP_PUT ? 1 + r(15) : 1;
        Json req = Json::make_array();
        static const int cmds[] = { Cmd_Put, Cmd_Replace, Cmd_Remove, Cmd_Get };
        req.push_back(i); req.push_back(cmds[t]); req.push_back(String(cfg.keys[o.key].data(), cfg.keys[o.key].size()));
        if (t == OP_PUT) {
            for (int k = 0; k < 4; ++k)
                if (o.mask & (1 << k)) {
                    S v = value_of(o.id, k, cfg.bigvalues);
                    req.push_back(k); req.push_back(String(v.data(), v.size()));
                }
        } else if (t == OP_REPLACE) {
            S v = value_of(o.id, 0, cfg.bigvalues);
            req.push_back(String(v.data(), v.size()));
        }
        // as on the wire
        StringAccum sa;
        msgpack::unparse(sa, req);
        req = Json();
        char* wire = new char[sa.length()];
        memcpy(wire, sa.data(), sa.length());
        {
            msgpack::streaming_parser sp;
            size_t used = 0;
            while (!sp.done() && used < (size_t) sa.length())
                used += sp.consume(wire + used, sa.length() - used, String::make_stable(wire, sa.length()));
            if (!sp.success() || used != (size_t) sa.length()) { sh->bad = 1; snprintf(sh->badmsg, sizeof(sh->badmsg), "request did not parse"); }
            sh->nops[c] = i + 1;
            Str reqstr(wire, sa.length());
            if (r.p(1, 8)) reqstr = Str();
            o.inv = tick();
            ti->rcu_start();
            int ret = onego(q, sp.result(), reqstr, *ti);
            ti->rcu_stop();
            if (ret != 1) { sh->bad = 1; snprintf(sh->badmsg, sizeof(sh->badmsg), "onego returned %d", ret); }
            if (t != OP_GET) {
                o.ts = q.query_times().ts; o.prev_ts = q.query_times().prev_ts;
                o.epoch = q.query_times().epoch.value();
                if (t == OP_REMOVE) o.result = sp.result()[2].is_b() && sp.result()[2].as_b();
                else o.result = sp.result()[2].to_i();
            }
            o.resp = tick();
        }
        delete[] wire;
        if (cfg.think_us) nap_us(r(cfg.think_us * 2));
        if (r.p(1, 150)) nap_us(r(cfg.nap_us * 6));
    }
}
static void child_setup() {
    in_child = true;
    memset(fd_inode, 0, sizeof(fd_inode));
    inode_of = new std::map<S, int>;
    next_inode = 0;
    for (int i = 0; i < cfg.ndirs; ++i)
        for (const char* d : {"l", "c"}) {
            S dn = d + std::to_string(i);
            if (DIR* dd = opendir((workdir + "/" + dn).c_str())) {
                std::vector<S> names;
                while (struct dirent* de = readdir(dd)) if (de->d_name[0] != '.') names.push_back(de->d_name);
                closedir(dd);
                for (auto& n : names) {
                    (*inode_of)[dn + "/" + n] = ++next_inode;
                    jadd(J_OPEN, next_inode, (dn + "/" + n).c_str());
                }
            }
        }
}
static void server_start(bool recovery) {
    // as main() does
    nlogger = cfg.L; nckthreads = cfg.nck; tcpthreads = udpthreads = 0;
    for (int i = 0; i < cfg.ndirs; ++i) {
        logdirs.push_back(strdup(logdir(i).c_str()));
        ckpdirs.push_back(strdup(ckdir(i).c_str()));
    }
    checkpoint_interval = cfg.ckp && !recovery ? 0.01 : -1;
    global_log_epoch = 1;
    global_wake_epoch = 0;
    log_epoch_interval.tv_sec = 0;
    log_epoch_interval.tv_usec = cfg.epoch_us;
    always_assert(pthread_cond_init(&rec_cond, 0) == 0);
    always_assert(pthread_mutex_init(&rec_mu, 0) == 0);
    always_assert(pthread_cond_init(&checkpoint_cond, 0) == 0);
    always_assert(pthread_mutex_init(&checkpoint_mu, 0) == 0);
    threadinfo* main_ti = threadinfo::make(threadinfo::TI_MAIN, -1);
    main_ti->pthread() = pthread_self();
    initial_timestamp = timestamp();
    tree = new Masstree::default_table;
    tree->initialize(*main_ti);
    log_init();
    recover(main_ti);
    sh->recovered_seq = tick();
    sh->stage = 1;
    dump_table(0, *main_ti);
}
static threadinfo* main_thread() {
    for (threadinfo* ti = threadinfo::allthreads; ti; ti = ti->next())
        if (ti->purpose() == threadinfo::TI_MAIN) return ti;
    return 0;
}
static void child_run() {
    child_setup();
    server_start(false);
    for (int i = 0; i < nlogger && cfg.buflen; ++i) {
        set_buffer_length(logs->log(i), cfg.buflen, 0);
    }
    sh->stage = 2;
    if (!cfg.late_start) nap_us(cfg.nap_us * 3);
    std::vector<std::thread> th;
    for (int c = 0; c < cfg.M; ++c) th.emplace_back(client, c);
    double t0 = now();
    std::atomic<bool> done(false);
    std::thread ticker([&] {
        while (!done) { nap_us(1000); globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); }
    });
    while (now() - t0 < cfg.duration_ms / 1000.0) {
        nap_us(500);
        bool all = true;
        for (int c = 0; c < cfg.M; ++c) if (sh->nops[c] < cfg.nops) all = false;
        if (all) break;
    }
    stop_clients = true;
    for (auto& t : th) t.join();
    { jlock g; jadd(J_MARK, 0); }
    sh->t_stop = sh->seq;
    if (cfg.quiet_ms) nap_us(cfg.quiet_ms * 1000);
    dump_table(1, *main_thread());
    sh->stage = 3;
    { jlock g; jadd(J_MARK, 0); _exit(0); }
}
static void child_recover() {
    child_setup();
    server_start(true);
    sh->stage = 3;
    { jlock g; jadd(J_MARK, 0); _exit(0); }
}

// ---- log files as this harness understands them (C16, C14)
struct lrec { uint32_t cmd; S raw; uint64_t epoch; };
static bool parse_log(const S& s, std::vector<lrec>& out) {
    size_t p = 0; uint64_t ep = 0;
    while (p + 8 <= s.size()) {
        uint32_t cmd, size; memcpy(&cmd, &s[p], 4); memcpy(&size, &s[p + 4], 4);
        if (size < 8 || p + size > s.size()) return false;
        if (cmd == logcmd_epoch) memcpy(&ep, &s[p + 8], 8);
        out.push_back({cmd, s.substr(p, size), ep});
        p += size;
    }
    return p == s.size();
}
static S epoch_rec(uint64_t e) { S s(16, 0); uint32_t c = logcmd_epoch, n = 16; memcpy(&s[0], &c, 4); memcpy(&s[4], &n, 4); memcpy(&s[8], &e, 8); return s; }


// The end of the last whole record at or before byte `keep` (records carry no checksums: bytes that are lost
// inside a record are detectable, bytes that change inside one are not).
static size_t record_floor(const S& s, size_t keep) {
    size_t p = 0;
    while (p + 8 <= keep) {
        uint32_t size; memcpy(&size, &s[p + 4], 4);
        if (size < 8 || p + size > keep) break;
        p += size;
    }
    return p;
}
// Bytes that are not a log record: zeroes, noise, or a damaged header.
static S junk(rng& r, int how, size_t n) {
    S s;
    if (how == 0) return S(n, 0);
    if (how == 1) { while (s.size() < n) s += (char) r(256); return s; }
    static const uint32_t cmds[] = { logcmd_put, logcmd_replace, logcmd_modify, logcmd_remove, logcmd_epoch, logcmd_quiesce, logcmd_wake, 0x12345678 };
    uint32_t h[2] = { cmds[r(8)], 0 };
    uint64_t body = n;
    S b; while (b.size() < n) b += (char) (r.p(1, 2) ? 0 : r(256));
    switch (r(5)) {
    case 0: h[1] = r(8); break;                                  // shorter than its own header
    case 1: h[1] = 8 + body + 1 + r(1 << 20); break;             // past the end of the file
    case 2: h[1] = 0xFFFFFFFFu - r(40); break;
    case 3: h[0] = cmds[r(4)]; h[1] = 8 + r(11); break;          // too short for its kind
    default:                                                     // a key longer than the record
        h[0] = cmds[r(4)]; h[1] = 8 + body;
        if (body >= 20) {
            uint32_t kl = r.p(1, 2) ? body + r(1 << 20) : 0xFFFFFFFFu - r(64);
            size_t at = h[0] == logcmd_modify ? 16 : 8;
            memcpy(&b[at], &kl, 4);
        } else h[1] = r(8);
        break;
    }
    s.assign((char*) h, 8);
    s += b;
    return s;
}

// ---------------------------------------------------------------- images
typedef std::map<S, S> image_t;        // path relative to the working directory -> contents
struct vfile { S durable; std::vector<int> pending; };   // pending: journal indexes not yet durable
struct journal {
    std::vector<jent> j;
    std::string data;
    image_t base;
    void capture(const image_t& b) {
        j.assign(sh->j, sh->j + sh->nj);
        data.assign(shdata, sh->ndata);
        base = b;
    }
};
struct cutinfo { int torn = 0, lost_writes = 0, files = 0; S desc; };
// The directory a crash just after journal entry `upto` could leave. how: 0 = unsynced data wholly lost,
// 1 = wholly kept, 2 = an arbitrary byte prefix of each file's unsynced data kept; 3/4 = as 2, with the lost
// part replaced by zeroes / garbage.
static void build_image(const journal& jn, size_t upto, int how, rng& r, image_t& out, cutinfo& ci, int tailfile_how) {
    struct ino_t { S durable, current; std::map<uint64_t, S> begun; size_t synclen; };
    std::map<int, ino_t> inodes;
    std::map<S, int> names;
    std::map<int, S> begun;
    for (size_t i = 0; i < jn.j.size(); ++i) {
        const jent& e = jn.j[i];
        if (i >= upto && e.type != J_OPEN) break;       // the files present at the start come first
        switch (e.type) {
        case J_OPEN: {
            names[e.name] = e.file;
            ino_t& n = inodes[e.file];
            auto it = jn.base.find(e.name);
            n.durable = n.current = it == jn.base.end() ? S() : it->second;
            break;
        }
        case J_CREATE: names[e.name] = e.file; inodes[e.file] = ino_t(); break;
        case J_WRITE: inodes[e.file].current += jn.data.substr(e.off, e.len); break;
        case J_TRUNC: {
            ino_t& n = inodes[e.file];
            n.current.resize(e.len); n.durable.resize(std::min<size_t>(n.durable.size(), e.len));
            if (begun.count(e.file)) begun[e.file].resize(std::min<size_t>(begun[e.file].size(), e.len));
            break;
        }
        case J_SYNCBEGIN: begun[e.file] = inodes[e.file].current; break;
        case J_SYNCEND: inodes[e.file].durable = begun[e.file]; break;
        case J_RENAME: names[e.name2] = e.file; names.erase(e.name); break;
        case J_UNLINK: names.erase(e.name); break;
        }
    }
    std::ostringstream d;
    for (auto& nm : names) {
        ino_t& n = inodes[nm.second];
        S c = n.current;
        size_t lo = n.durable.size();
        // writes only append, so durable is a prefix of current
        if (c.size() > lo) {
            ++ci.files;
            size_t keep = how == 0 ? lo : how == 1 ? c.size() : r.p(1, 4) ? (r.p(1, 2) ? lo : c.size()) : lo + r(c.size() - lo + 1);
            if (keep < c.size()) {
                ci.lost_writes++;
                if (keep > lo) ci.torn++;
            }
            if (how == 3 || how == 4) {
                size_t tail = r(c.size() - keep + 1);
                if (r.p(1, 2)) tail += r(4096);
                bool log = nm.first.find("kvd-log") != S::npos;
                if (log) keep = std::max(lo, record_floor(c, keep));
                if (log && record_floor(c, keep) != keep) tail = 0;      // unsynced data ends inside a record
                c.resize(keep);
                c += junk(r, how == 3 ? 0 : 1 + r(2), tail);
                d << " " << nm.first << ":" << keep << "+" << tail << (how == 3 ? "zeroes" : "junk");
            } else {
                c.resize(keep);
                if (keep != n.current.size()) d << " " << nm.first << ":" << keep << "/" << n.current.size();
            }
        }
        out[nm.first] = c;
    }
    ci.desc = d.str();
}
static void rmtree_contents(const S& d) {
    for (int i = 0; i < 3; ++i)
        for (const char* k : {"l", "c"}) {
            S dn = d + "/" + k + std::to_string(i);
            if (DIR* dd = opendir(dn.c_str())) {
                while (struct dirent* de = readdir(dd))
                    if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) unlinkat(dirfd(dd), de->d_name, 0);
                closedir(dd);
                rmdir(dn.c_str());
            }
        }
}
static void materialise(const image_t& img) {
    rmtree_contents(workdir);
    for (int i = 0; i < cfg.ndirs; ++i) { mkdir(logdir(i).c_str(), 0777); mkdir(ckdir(i).c_str(), 0777); }
    for (auto& f : img) {
        int fd = __real_open((workdir + "/" + f.first).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
        if (fd < 0) { perror(f.first.c_str()); _exit(98); }
        if (__real_write(fd, f.second.data(), f.second.size()) != (ssize_t) f.second.size()) { perror("write"); _exit(98); }
        __real_close(fd);
    }
}

// ---------------------------------------------------------------- driver
struct failure { S prop, msg; };
static S childlog;
static void reset_shared() {
    sh->seq = 0; sh->nj = 0; sh->ndata = 0; sh->stage = 0; sh->bad = 0; sh->badmsg[0] = 0; sh->recovered_seq = 0; sh->t_stop = 0;
    sh->stalls = sh->deltas = sh->ckp_commits = 0;
    for (int c = 0; c < MAXCLIENT; ++c) sh->nops[c] = 0;
    sh->dump[0].complete = sh->dump[1].complete = false;
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&sh->mu, &a);
}
static S readfile(const S& f, size_t lim = 6000) {
    FILE* p = fopen(f.c_str(), "r"); if (!p) return "";
    S s; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof(b), p)) > 0) s.append(b, n);
    fclose(p);
    if (s.size() > lim) s = s.substr(0, lim / 3) + "\n...\n" + s.substr(s.size() - lim * 2 / 3);
    return s;
}
// returns "" on success
static S run_child(void (*f)(), int timeout_s) {
    reset_shared();
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        int fd = __real_open(childlog.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
        dup2(fd, 1); dup2(fd, 2);
        setpgid(0, 0);
        f();
        _exit(97);
    }
    double t0 = now();
    int st = 0;
    while (1) {
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) break;
        if (now() - t0 > timeout_s) {
            if (getenv("LAB_GDB") && system(("gdb -p " + std::to_string(p) + " -batch -ex 'thread apply all bt 12' > /tmp/labgdb." + std::to_string(p) + " 2>&1").c_str())) {}
            kill(p, SIGABRT); nap_us(200000); kill(p, SIGKILL); waitpid(p, &st, 0);
            return "hang: no end after " + std::to_string(timeout_s) + " s in stage " + std::to_string(sh->stage) + "\n" + readfile(childlog);
        }
        nap_us(300);
    }
    if (sh->bad == 2) return "";        // resources of the harness
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return sh->bad ? S(sh->badmsg) : S();
    std::ostringstream o;
    o << "the server died (" << (WIFSIGNALED(st) ? "signal " : "status ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << ") in stage "
      << (sh->stage == 0 ? "recovery" : sh->stage == 2 ? "service" : "other") << "\n" << readfile(childlog);
    return o.str();
}

struct op { int c, i, type, key, mask, logidx, result; uint64_t inv, resp, ts, prev_ts, id, epoch; };
struct counters {
    uint64_t episodes = 0, cycles = 0, images = 0, recoveries = 0, ops = 0, updates = 0, torn = 0, lostw = 0, in_recovery = 0, cutops = 0, cutimages = 0,
             durable_checked = 0, flushed_images = 0, ckp_images = 0, ckp_recovered = 0, ckp_commits = 0, damaged = 0, repart = 0, dupl = 0, records = 0, deltas = 0, again = 0,
             exact = 0, empties = 0, distinct = 0;
    std::unordered_set<uint64_t> hashes;
} C;
static std::vector<uint32_t> seen_guards;
static uint64_t guards_seen;

static row_t apply_op(const row_t* base, const op& o, int big, bool& present) {
    row_t r;
    present = o.type != OP_REMOVE;
    if (o.type == OP_REMOVE) return r;
    if (o.type == OP_REPLACE) r.assign(1, value_of(o.id, 0, big));
    else {
        if (base) r = *base;
        for (int k = 0; k < 4; ++k)
            if (o.mask & (1 << k)) { if ((int) r.size() <= k) r.resize(k + 1); r[k] = value_of(o.id, k, big); }
    }
    return r;
}
static S show(const S& k) {
    S o = "\"";
    for (unsigned char c : k) { char b[8]; if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
    return o + "\"";
}
static S show(const row_t& r) { S o = "["; for (auto& c : r) o += show(c.substr(0, 24)) + ","; return o + "]"; }
static const char* opn[] = { "put", "replace", "remove", "get" };
static S show(const op& o) {
    std::ostringstream s;
    s << opn[o.type] << " key " << show(cfg.keys[o.key]) << " id " << std::hex << o.id << std::dec << " mask " << o.mask << " client " << o.c << " log " << o.logidx
      << " inv " << o.inv << " resp " << o.resp << " version " << o.ts << " prev " << o.prev_ts << " epoch " << o.epoch << " result " << o.result;
    return s.str();
}
struct history {
    std::vector<op> all;                       // updates only
    std::vector<std::pair<uint64_t, uint64_t>> started;   // time of every operation begun
    std::vector<std::vector<op>> bykey;        // in version order
    std::vector<std::vector<std::pair<bool, row_t>>> states;   // state after each prefix; [0] = base
    int big;
    S build(const state_t& base, const std::map<S, uint64_t>& basets) {
        all.clear(); started.clear(); bykey.assign(cfg.keys.size(), {}); states.assign(cfg.keys.size(), {});
        big = cfg.bigvalues;
        for (int c = 0; c < cfg.M; ++c)
            for (int i = 0; i < sh->nops[c]; ++i) {
                oprec& q = sh->ops[c][i];
                if (!q.inv || q.type == OP_GET) continue;
                started.push_back({q.inv, q.resp ? (uint64_t) q.resp : ~(uint64_t) 0});
                if (!q.resp) continue;
                if (q.type == OP_REMOVE && !q.result) continue;
                op o{c, i, q.type, q.key, q.mask, q.logidx, q.result, q.inv, q.resp, q.ts, q.prev_ts, q.id, q.epoch};
                all.push_back(o); bykey[o.key].push_back(o);
            }
        for (size_t k = 0; k < cfg.keys.size(); ++k) {
            auto& v = bykey[k];
            std::sort(v.begin(), v.end(), [](const op& a, const op& b) { return a.ts < b.ts; });
            auto it = base.find(cfg.keys[k]);
            states[k].push_back({it != base.end(), it != base.end() ? it->second : row_t()});
            uint64_t maxinv = 0; const op* who = 0;
            for (auto& o : v) {
                if (o.resp < maxinv) return "versions disagree with real time:\n " + show(o) + "\n " + show(*who);
                if (o.inv > maxinv) maxinv = o.inv, who = &o;
                auto bt = basets.find(cfg.keys[k]);
                if (bt != basets.end() && o.ts <= bt->second) return "an update after recovery has a version not above the recovered row's " + std::to_string(bt->second) + ": " + show(o);
                bool present; auto& last = states[k].back();
                row_t r = apply_op(last.first ? &last.second : 0, o, big, present);
                while (!r.empty() && r.back().empty()) r.pop_back();
                states[k].push_back({present, r});
            }
        }
        return "";
    }
};
// Is `st` the state after a prefix-closed subset of the operations invoked before seq `t` that contains every
// operation completed before `durable`? ignore_log: operations of that log need not be present.
static S judge(const history& h, const state_t& st, uint64_t t, uint64_t durable, bool& flushed_violation, int ignore_log, uint64_t& cutops, S* cutdesc) {
    size_t nk = cfg.keys.size();
    flushed_violation = false;
    for (auto& kv : st) {
        size_t k = std::find(cfg.keys.begin(), cfg.keys.end(), kv.first) - cfg.keys.begin();
        if (k == nk) return "recovered key " + show(kv.first) + " was never written, value " + show(kv.second);
    }
    std::vector<std::vector<int>> cand(nk);
    std::vector<int> lb(nk, 0), cur(nk, 0);
    for (size_t k = 0; k < nk; ++k) {
        auto it = st.find(cfg.keys[k]);
        size_t n = 0;
        // only operations already invoked at the crash can count
        while (n < h.bykey[k].size() && h.bykey[k][n].inv <= t) ++n;
        for (size_t j = 0; j <= n; ++j) {
            auto& s = h.states[k][j];
            if (s.first == (it != st.end()) && (!s.first || s.second == it->second)) cand[k].push_back(j);
        }
        if (cand[k].empty()) {
            std::ostringstream o;
            o << "key " << show(cfg.keys[k]) << " has " << (it == st.end() ? S("no row") : show(it->second)) << ", which no prefix of its updates gives:";
            for (size_t j = 0; j <= n; ++j) {
                if (n > 24 && j > 6 && j + 14 < n) { if (j == 7) o << "\n  ..."; continue; }
                o << "\n  " << j << ": " << (h.states[k][j].first ? show(h.states[k][j].second) : S("absent"));
                if (j) o << "  by " << show(h.bykey[k][j - 1]);
            }
            return o.str();
        }
    }
    // durability
    for (size_t k = 0; k < nk; ++k) {
        int need = 0;
        for (size_t j = 0; j < h.bykey[k].size(); ++j) if (h.bykey[k][j].resp < durable && h.bykey[k][j].logidx != ignore_log) need = j + 1;
        if (cand[k].back() < need) {
            flushed_violation = true;
            auto it = st.find(cfg.keys[k]);
            return "lost an update flushed long before the crash (all logs written since seq " + std::to_string(durable) + "): " + show(h.bykey[k][need - 1])
                + "\n  recovered " + (it == st.end() ? S("no row") : show(it->second)) + ", that is version " + std::to_string(cand[k].back()) + " of " + std::to_string(h.bykey[k].size());
        }
        lb[k] = need;
    }
    uint64_t M = 0; const op* mo = 0;
    bool changed = true;
    for (size_t k = 0; k < nk; ++k) cur[k] = *std::lower_bound(cand[k].begin(), cand[k].end(), lb[k]);
    while (changed) {
        changed = false;
        for (size_t k = 0; k < nk; ++k)
            for (int j = 0; j < cur[k]; ++j) if (h.bykey[k][j].inv > M) M = h.bykey[k][j].inv, mo = &h.bykey[k][j];
        for (size_t k = 0; k < nk; ++k) {
            int need = cur[k];
            const op* no = 0;
            for (int j = cur[k]; j < (int) h.bykey[k].size(); ++j)
                if (h.bykey[k][j].resp < M && h.bykey[k][j].logidx != ignore_log) need = j + 1, no = &h.bykey[k][j];
            if (need > cur[k]) {
                auto it = std::lower_bound(cand[k].begin(), cand[k].end(), need);
                if (it == cand[k].end())
                    return "recovered\n  " + show(*mo) + "\nbut not the update completed before it began\n  " + show(*no);
                cur[k] = *it; changed = true;
            }
        }
    }
    for (size_t k = 0; k < nk; ++k) {
        size_t n = 0;
        while (n < h.bykey[k].size() && h.bykey[k][n].inv <= t) ++n;
        cutops += n - std::min<size_t>(n, cand[k].back());
    }
    (void) cutdesc;
    return "";
}
// Everything completed before the returned seq was flushed by journal position `upto`: since then every
// logger has finished at least 8 turns (and 8 epochs have passed), 5 of them in different later epochs in
// which no log had been woken (only then does an idle writer record that it is idle). No promise if some update was in progress
// through several turns of a logger since then: it records the (old) epoch in which it began, and what is
// logged after that epoch counts only once the update itself is flushed.
static uint64_t durable_bound(const history& h, const journal& jn, size_t upto, uint64_t recovered_seq, int L) {
    std::vector<std::vector<uint64_t>> turns(L), calm(L);
    uint64_t e1 = 0;
    for (size_t i = std::min(upto, jn.j.size()); i-- > 0;) {
        const jent& e = jn.j[i];
        if (e.seq < recovered_seq) return 0;
        if (!e1) e1 = e.epoch;
        if (e.type == J_NAP && e.who >= 0 && e.who < L) {
            turns[e.who].push_back(e.seq);
            auto& c = calm[e.who];
            if (e.epoch > e.off && (c.empty() || c.back() != e.epoch)) c.push_back(e.epoch);
        }
        if (e1 - e.epoch >= 8) {
            bool ok = true;
            for (auto& x : turns) ok = ok && x.size() >= 8;
            for (auto& c : calm) { int n = 0; for (uint64_t q : c) n += q >= e.epoch + 2; ok = ok && n >= 5; }
            if (!ok) continue;
            uint64_t w = e.seq;
            for (auto& o : h.started)
                if (o.second > w)
                    for (auto& x : turns) {
                        int n = 0;
                        for (uint64_t q : x) n += q > o.first && q < o.second;
                        if (n >= 3) return 0;
                    }
            return w;
        }
    }
    return 0;
}

#include "lab_driver.hh"
