// C17: the real server process under client workloads over loopback TCP and
// UDP. Every client checks each answer against an exact model of its own keys;
// keys shared by all clients are checked for linearizability afterwards;
// hostile clients send malformed, partial and abandoned traffic meanwhile; and
// the server is killed and restarted on its files.
#include "fuzz.hh"
#include "jv.hh"
#include "kvio.hh"
#include "kvproto.hh"
#include <netdb.h>
#include "mtclient.hh"
#include <arpa/inet.h>
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <thread>
#undef check
using fz::Rng; using fz::fail; using fz::fmt; using fz::show;
typedef std::string S;
typedef std::vector<S> Row;
static S mtd_path, base_dir = "/dev/shm";
static uint64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
static void nap_us(unsigned us) { usleep(us); }
enum { answer_ms = 40000 };

// ---------- MessagePack, independent of the code under test
static void be(S& o, uint64_t x, int n) { while (n--) o += char(x >> (8 * n)); }
static void enc_len(S& o, Rng& r, size_t n, int fixbase, size_t fixmax, const int codes[3]) {
    int k = n <= fixmax && r.below(8) ? 0 : n < 256 && codes[0] && r.below(8) ? 1 : n < 65536 && r.below(8) ? 2 : 3;
    if (k == 1 && !codes[0]) k = 2;
    if (k == 0) o += char(fixbase | n); else { o += char(codes[k - 1]); be(o, n, k == 1 ? 1 : k == 2 ? 2 : 4); }
}
static void enc(S& o, const V& v, Rng& r) {
    switch (v.t) {
    case V::Null: o += char(0xC0); break;
    case V::Bool: o += char(v.b ? 0xC3 : 0xC2); break;
    case V::Int: {
        int64_t x = (int64_t) v.i; uint64_t u = (uint64_t) v.i;
        if (v.i > INT64_MAX) { o += char(0xCF); be(o, u, 8); break; }
        if (x >= -32 && x < 128 && r.below(6)) { o += char(x); break; }
        int w = r.below(4);
        if (x >= 0 && r.below(2)) { while (w < 3 && u >> (8 << w)) ++w; o += char(0xCC + w); be(o, u, 1 << w); }
        else { while (w < 3 && (x < -(1ll << ((8 << w) - 1)) || x >= (1ll << ((8 << w) - 1)))) ++w; o += char(0xD0 + w); be(o, u, 1 << w); }
        break; }
    case V::Dbl: { uint64_t u; memcpy(&u, &v.d, 8); o += char(0xCB); be(o, u, 8); break; }
    case V::S: { static const int c[3] = {0xD9, 0xDA, 0xDB}; enc_len(o, r, v.s.size(), 0xA0, 31, c); o += v.s; break; }
    case V::A: { static const int c[3] = {0, 0xDC, 0xDD}; enc_len(o, r, v.a.size(), 0x90, 15, c); for (auto& x : v.a) enc(o, x, r); break; }
    case V::O: { static const int c[3] = {0, 0xDE, 0xDF}; enc_len(o, r, v.o.size(), 0x80, 15, c); for (auto& x : v.o) { enc(o, V::str(x.first), r); enc(o, x.second, r); } break; }
    }
}
// Parse one value; false if it is incomplete.
static bool dec(const uint8_t*& p, const uint8_t* e, V& v, int depth = 0) {
    auto num = [&](int n, uint64_t& x) { if (e - p < n) return false; x = 0; while (n--) x = x << 8 | *p++; return true; };
    if (p == e || depth > 20) return false;
    int c = *p++; uint64_t x = 0; int kind = 0;
    if (c < 128) { v = V::integer(c); return true; }
    if (c >= 0xE0) { v = V::integer(c - 256); return true; }
    if (c < 0x90) { kind = 3; x = c & 15; } else if (c < 0xA0) { kind = 2; x = c & 15; } else if (c < 0xC0) { kind = 1; x = c & 31; }
    else switch (c) {
    case 0xC0: v = V::null(); return true;
    case 0xC2: case 0xC3: v = V::boolean(c & 1); return true;
    case 0xCA: { if (!num(4, x)) return false; uint32_t u = x; float f; memcpy(&f, &u, 4); v = V::dbl(f); return true; }
    case 0xCB: { if (!num(8, x)) return false; double d; memcpy(&d, &x, 8); v = V::dbl(d); return true; }
    case 0xCC: case 0xCD: case 0xCE: case 0xCF: if (!num(1 << (c - 0xCC), x)) return false; v = V::integer((__int128) x); return true;
    case 0xD0: if (!num(1, x)) return false; v = V::integer((int8_t) x); return true;
    case 0xD1: if (!num(2, x)) return false; v = V::integer((int16_t) x); return true;
    case 0xD2: if (!num(4, x)) return false; v = V::integer((int32_t) x); return true;
    case 0xD3: if (!num(8, x)) return false; v = V::integer((int64_t) x); return true;
    case 0xC4: case 0xD9: if (!num(1, x)) return false; kind = 1; break;
    case 0xC5: case 0xDA: if (!num(2, x)) return false; kind = 1; break;
    case 0xC6: case 0xDB: if (!num(4, x)) return false; kind = 1; break;
    case 0xDC: if (!num(2, x)) return false; kind = 2; break;
    case 0xDD: if (!num(4, x)) return false; kind = 2; break;
    case 0xDE: if (!num(2, x)) return false; kind = 3; break;
    case 0xDF: if (!num(4, x)) return false; kind = 3; break;
    default: fail("bad answer", fmt("byte 0x%02x in an answer", c));
    }
    if (kind == 1) { if ((uint64_t) (e - p) < x) return false; v = V::str(S((const char*) p, x)); p += x; return true; }
    if (kind == 2) { v = V::arr(); for (; x; --x) { V y; if (!dec(p, e, y, depth + 1)) return false; v.a.push_back(std::move(y)); } return true; }
    v = V::obj(); for (; x; --x) { V k, y; if (!dec(p, e, k, depth + 1) || !dec(p, e, y, depth + 1)) return false; v.o.emplace_back(k.s, std::move(y)); }
    return true;
}
static S wire(const V& v, Rng& r) { S o; enc(o, v, r); return o; }
static V list(std::initializer_list<V> l) { V v = V::arr(); v.a = l; return v; }
static V I(__int128 x) { return V::integer(x); }
static V T(const S& x) { return V::str(x); }
static bool same(const V& a, const V& b) {
    if (a.t != b.t) return false;
    switch (a.t) {
    case V::Null: return true; case V::Bool: return a.b == b.b; case V::Int: return a.i == b.i; case V::Dbl: return dsame(a.d, b.d); case V::S: return a.s == b.s;
    case V::A: { if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false; return true; }
    case V::O: { if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); ++i) if (a.o[i].first != b.o[i].first || !same(a.o[i].second, b.o[i].second)) return false; return true; }
    }
    return false;
}

// ---------- the server process
static int port_serial;
struct Server {
    S dir; int j = 2, port = 0; pid_t pid = -1; std::vector<S> args; uint64_t seed = 0;
    std::atomic<bool> expected_dead{false};
    // Reserve a port range that no other harness uses (an abstract socket name
    // is the lock), below the range the kernel picks client ports from.
    int lockfd = -1;
    ~Server() { if (lockfd >= 0) close(lockfd); }
    void take_port() {
        for (int tries = 0; tries < 2000; ++tries) {
            int slot = (getpid() * 131 + ++port_serial * 17) % 1200, p0 = 11000 + slot * 16; bool ok = true;
            int fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX;
            int n = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "mtsrv-port-%d", slot);
            if (bind(fd, (sockaddr*) &u, offsetof(sockaddr_un, sun_path) + 1 + n) != 0) { close(fd); continue; }
            for (int k = 0; k < 8 && ok; ++k) for (int type : {SOCK_STREAM, SOCK_DGRAM}) {
                int t = socket(AF_INET, type | SOCK_CLOEXEC, 0), one = 1; if (type == SOCK_STREAM) setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
                sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p0 + k);
                if (bind(t, (sockaddr*) &a, sizeof a) != 0 || (type == SOCK_STREAM && listen(t, 1) != 0)) ok = false;
                close(t);
            }
            if (!ok) { close(fd); continue; }
            if (lockfd >= 0) close(lockfd);
            lockfd = fd; port = p0; return;
        }
        fprintf(stderr, "no free port\n"); exit(3);
    }
    void spawn() {
        if (lockfd < 0) take_port();
        for (int tries = 0; tries < 20; ++tries) {
            pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                setpgid(0, 0);
                if (chdir(dir.c_str())) _exit(99);
                int fd = open((dir + "/server.out").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(fd, 1); dup2(fd, 2);
                for (int k = 3; k < 256; ++k) close(k);
                int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
                setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:handle_abort=1:abort_on_error=0:detect_stack_use_after_return=0", 1);
                setenv("SRV_DELAY_SEED", std::to_string(seed).c_str(), 1);
                std::vector<char*> av; av.push_back((char*) mtd_path.c_str()); for (auto& a : args) av.push_back((char*) a.c_str());
                S sj = "-j" + std::to_string(j), sp = std::to_string(port); av.push_back((char*) sj.c_str()); av.push_back((char*) "--port"); av.push_back((char*) sp.c_str()); av.push_back(nullptr);
                execv(mtd_path.c_str(), av.data()); _exit(98);
            }
            uint64_t t0 = now_ns();
            while (now_ns() - t0 < 60000000000ull) {
                int st;
                if (waitpid(pid, &st, WNOHANG) == pid) {
                    pid = -1;
                    S out = tail();
                    if (out.find("bind") != S::npos) { take_port(); break; }
                    fail("server died", fmt("at start (status 0x%x): ", st) + out);
                }
                int fd = socket(AF_INET, SOCK_STREAM, 0);
                sockaddr_in a = addr();
                int r = connect(fd, (sockaddr*) &a, sizeof a);
                close(fd);
                if (r == 0) { wait_udp(); return; }
                nap_us(20000);
            }
            if (pid > 0) { kill9(); fail("server hung", "no connection accepted within 60 s of its start: " + tail()); }
        }
        fprintf(stderr, "no free port\n"); exit(3);
    }
    // The UDP threads bind their ports on their own time.
    void wait_udp() {
        for (int k = 0; k < j; ++k) {
            int fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a = addr(k); connect(fd, (sockaddr*) &a, sizeof a);
            timeval tv{0, 200000}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
            uint64_t t0 = now_ns(); bool ok = false;
            while (!ok && now_ns() - t0 < 60000000000ull) {
                static const uint8_t probe[] = {0x93, 1, 2, 0xa3, 'z', 'z', 'z'};
                char b[100];
                ok = send(fd, probe, sizeof probe, 0) == (ssize_t) sizeof probe && recv(fd, b, sizeof b, 0) > 0;
                if (!ok) { nap_us(10000); alive(); }
            }
            close(fd);
            if (!ok) fail("no answer", fmt("UDP port %d never answered after the start: ", k) + tail());
        }
    }
    sockaddr_in addr(int off = 0) const { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port + off); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
    S tail() const {
        S s; FILE* f = fopen((dir + "/server.out").c_str(), "r"); if (!f) return s;
        char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
        size_t p = s.find("ERROR: AddressSanitizer"); if (p == S::npos) p = s.find("ssertion"); if (p != S::npos) s = s.substr(p > 200 ? p - 200 : 0, 6000);
        return s.size() > 6000 ? s.substr(s.size() - 6000) : s;
    }
    void alive() {
        int st;
        if (pid > 0 && waitpid(pid, &st, WNOHANG) == pid) { pid = -1; fail("server died", fmt("wait status 0x%x: ", st) + tail()); }
    }
    void kill9() { if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = -1; } }
};
static Server* srv;

// ---------- connections
struct Reply { V v; uint64_t t; };
struct Conn {
    int fd = -1; S in; bool eof = false; Rng& r; V hs;
    explicit Conn(Rng& r) : r(r) {}
    ~Conn() { if (fd >= 0) close(fd); }
    void connect_only() {
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        if (r.chance(1, 6)) { int b = 2000 + r.below(20000); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); }
        if (r.chance(1, 6)) { int b = 2000 + r.below(20000); setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
        sockaddr_in a = srv->addr();
        fcntl(fd, F_SETFL, O_NONBLOCK);
        if (connect(fd, (sockaddr*) &a, sizeof a) != 0) {
            if (errno != EINPROGRESS) fail("no connection", S("connect: ") + strerror(errno));
            uint64_t t0 = now_ns(); pollfd pf{fd, POLLOUT, 0}; int e = 0; socklen_t el = sizeof e;
            while (poll(&pf, 1, 500) <= 0) if (now_ns() - t0 > answer_ms * 1000000ull) { srv->alive(); fail("no connection", fmt("not accepted within %d s", answer_ms / 1000)); }
            if (getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &el) || e) fail("no connection", S("connect: ") + strerror(e));
        }
    }
    bool take(V& v) {
        const uint8_t *p = (const uint8_t*) in.data(), *b = p, *e = p + in.size();
        if (!dec(p, e, v)) return false;
        in.erase(0, p - b); return true;
    }
    // Send `out` in pieces, cut at random or at the offsets in `starts` (whose
    // sending times are noted), while receiving `want` values.
    void exchange(const S& out, const std::vector<size_t>& starts, std::vector<uint64_t>* sent, size_t want, std::vector<Reply>& got, bool until_eof = false, bool half_close = false, unsigned lazy_ms = 0) {
        size_t off = 0, si = 0, limit = 0; if (sent) sent->assign(starts.size(), 0);
        int seg = r.below(5); uint64_t last = now_ns(), hold = 0; bool slow = r.chance(1, 12);
        std::vector<char> buf(65536);
        // A large answer that arrives in many pieces is not decoded anew for each.
        size_t next_try = 0, nslow = 0;
        auto drain = [&](bool now = true) {
            if (!now && in.size() < next_try) return;
            V v; uint64_t t = now_ns(); while (!in.empty() && take(v)) got.push_back({std::move(v), t});
            next_try = in.size() > 16384 ? in.size() + in.size() / 10 : 0;
        };
        drain();
        uint64_t lazy_end = 0; // do not read before then, unless the server does not read either
        while (off < out.size() || (until_eof ? !eof : got.size() < want)) {
            pollfd pf{fd, POLLIN, 0};
            uint64_t t = now_ns();
            if (lazy_ms && off == out.size() && !lazy_end) lazy_end = t + lazy_ms * 1000000ull;
            if (lazy_ms && t < (off == out.size() ? lazy_end : last + 100000000ull)) { pf.events = 0; if (off == out.size()) { nap_us(2000); continue; } }
            bool held = t < hold;
            if (off < out.size() && !held) pf.events |= POLLOUT;
            int pr = poll(&pf, 1, held || in.size() < next_try ? 1 : lazy_ms && off < out.size() ? 20 : 200);
            t = now_ns();
            if (pr > 0 && (pf.revents & (POLLIN | POLLHUP | POLLERR))) {
                ssize_t n = read(fd, buf.data(), slow && in.size() < 4096 && ++nslow < 5000 ? 1 + r.below(64) : buf.size());
                if (n > 0) { in.append(buf.data(), n); drain(false); last = t; }
                else if (n == 0 || (errno != EAGAIN && errno != EINTR)) { eof = true; drain(); if (until_eof || (off == out.size() && got.size() >= want)) return; fail("connection lost", fmt("the server closed the connection after %zu of %zu answers", got.size(), want)); }
            }
            if (pr == 0 && in.size() < next_try) drain();
            if (pr > 0 && (pf.revents & POLLOUT)) {
                if (limit <= off) switch (seg) {
                    case 0: limit = out.size(); break;
                    case 1: limit = off + 1 + r.below(8); break;
                    case 2: limit = off + 1 + r.below(3000); break;
                    case 3: limit = off + 1 + r.below(64); if (r.chance(1, 20)) hold = t + 200000ull * r.below(15); break;
                    default: { auto it = std::upper_bound(starts.begin(), starts.end(), off); limit = it == starts.end() ? out.size() : *it; if (r.chance(1, 4) && limit > off + 2) limit = off + 1 + r.below(limit - off - 1); }
                }
                limit = std::min(limit, out.size());
                t = now_ns();
                while (sent && si < starts.size() && starts[si] < limit) (*sent)[si++] = t;
                ssize_t n = send(fd, out.data() + off, limit - off, MSG_NOSIGNAL);
                if (n > 0) { off += n; last = t; if (off >= limit) limit = 0; if (off == out.size() && half_close) shutdown(fd, SHUT_WR); }
                else if (errno != EAGAIN && errno != EINTR) { if (until_eof) { off = out.size(); continue; } fail("connection lost", S("write: ") + strerror(errno)); }
            }
            if (now_ns() - last > answer_ms * 1000000ull) { srv->alive(); if (getenv("SRV_GDB")) { S cmd = fmt("gdb -p %d -batch -ex 'thread apply all bt 12' > /tmp/srvgdb.%d 2>&1; ss -tnp | grep ':%d' >> /tmp/srvgdb.%d", srv->pid, getpid(), srv->port, getpid()); if (system(cmd.c_str())) {} } fail("no answer", fmt("%zu of %zu answers after %d s without progress (%zu of %zu bytes sent)", got.size(), want, answer_ms / 1000, off, out.size()) + ": " + show(out, 80)); }
        }
    }
    V call(const V& q) { std::vector<Reply> got; S o = wire(q, r); exchange(o, {}, nullptr, 1, got); return got[0].v; }
    // Open with a handshake; `extra` may be further requests sent along.
    void open(const S& extra = S(), size_t nextra = 0, std::vector<Reply>* got = nullptr) {
        connect_only();
        V o = V::obj(); if (r.chance(3, 4)) o.o.emplace_back("core", I(r.below(srv->j + 2) - 1)); if (r.chance(1, 2)) o.o.emplace_back("maxkeylen", I(r.chance(1, 2) ? 255 : r.below(256)));
        V q = list({I(0), I(14)}); if (r.chance(5, 6)) q.a.push_back(o);
        V seq = I(r.below(1000)); q.a[0] = seq;
        std::vector<Reply> rep; S b = wire(q, r); size_t hl = b.size(); b += extra;
        exchange(b, {hl}, nullptr, 1 + nextra, rep);
        hs = rep[0].v;
        if (hs.t != V::A || hs.a.size() != 5 || !same(hs.a[0], seq) || !same(hs.a[1], I(15)) || !same(hs.a[2], V::boolean(true)) || hs.a[3].t != V::Int || hs.a[3].i < 0 || hs.a[3].i >= srv->j)
            fail("bad answer", "to the handshake " + vshow(q) + ": " + vshow(hs));
        if (q.a.size() > 2) if (V* c = q.a[2].find("core")) if (c->i >= 0 && c->i < srv->j && hs.a[3].i != c->i) fail("bad answer", "handshake asked for thread " + istr(c->i) + ", got " + vshow(hs));
        if (got) { rep.erase(rep.begin()); *got = std::move(rep); }
    }
    // No further requests: there must be no further answers.
    void finish() {
        if (fd < 0) return;
        shutdown(fd, SHUT_WR);
        std::vector<Reply> got; exchange(S(), {}, nullptr, 0, got, true);
        if (!got.empty() || !in.empty()) fail("extra answer", "after all requests were answered: " + (got.empty() ? show(in) : vshow(got[0].v)));
        close(fd); fd = -1; in.clear(); eof = false;
    }
    void reset() { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); fd = -1; in.clear(); eof = false; }
};

// ---------- operations and the model
enum { Get = 2, Scan = 4, Put = 6, Repl = 8, Rem = 10, Ckpt = 12 };
struct Op { int cmd = Get; S key; std::vector<std::pair<int, S>> put; std::vector<int> f; int n = 0; V seq; bool shared = false; uint64_t tag = 0; };
static V request(const Op& o) {
    V q = list({o.seq, I(o.cmd)});
    if (o.cmd == Ckpt) return q;
    q.a.push_back(T(o.key));
    if (o.cmd == Put) for (auto& p : o.put) { q.a.push_back(I(p.first)); q.a.push_back(T(p.second)); }
    else if (o.cmd == Repl) q.a.push_back(T(o.put[0].second));
    else if (o.cmd == Scan) q.a.push_back(I(o.n));
    if (o.cmd == Get || o.cmd == Scan) for (int c : o.f) q.a.push_back(I(c));
    return q;
}
static S opshow(const Op& o) {
    static const char* nm[] = {"", "get", "scan", "put", "replace", "remove", "checkpoint"};
    S s = nm[o.cmd / 2]; s += " " + show(o.key, 80);
    for (auto& p : o.put) s += fmt(" %d=%zu:", p.first, p.second.size()) + show(p.second, 24);
    if (o.cmd == Scan) s += " n=" + std::to_string(o.n);
    for (int c : o.f) s += " f" + std::to_string(c);
    return s + " seq=" + vshow(o.seq);
}
static bool col_ok(const V& v, const Row& r, int c) {
    if (c < (int) r.size()) return v.t == V::S && v.s == r[c];
    return v.t == V::Null || (v.t == V::S && v.s.empty());
}
typedef std::map<S, Row> Model;
static S prefix_end(S p) { p.back() = char(p.back() + 1); return p; }
// Apply a private operation to the model, checking its answer. "" if right.
static bool val_ok(const V& v, const Row& row, const std::vector<int>& f) {
    if ((f.empty() && row.size() == 1) || f.size() == 1) return col_ok(v, row, f.empty() ? 0 : f[0]);
    if (v.t != V::A) return f.empty() && row.empty() && v.t == V::Null;
    if (v.a.size() != (f.empty() ? row.size() : f.size())) return false;
    for (size_t i = 0; i < v.a.size(); ++i) if (!col_ok(v.a[i], row, f.empty() ? (int) i : f[i])) return false;
    return true;
}
static S apply(Model& m, const S& prefix, const Op& o, const V& v) {
    S head = opshow(o) + " answered " + vshow(v).substr(0, 600);
    if (v.t != V::A || v.a.size() < 2) return head;
    if (!same(v.a[0], o.seq)) return head + ": wrong sequence number";
    if (v.a[1].t != V::Int || v.a[1].i != o.cmd + 1) return head + ": wrong response code";
    auto it = m.find(o.key);
    switch (o.cmd) {
    case Ckpt: return v.a.size() == 2 ? "" : head;
    case Put: case Repl: {
        bool ins = it == m.end();
        if (v.a.size() != 3 || !same(v.a[2], I(ins ? 1 : 2))) return head + ": expected " + (ins ? "inserted (1)" : "updated (2)");
        Row& row = m[o.key];
        if (o.cmd == Repl) row = Row(1, o.put[0].second);
        else for (auto& p : o.put) { if ((int) row.size() <= p.first) row.resize(p.first + 1); row[p.first] = p.second; }
        return ""; }
    case Rem:
        if (v.a.size() != 3 || !same(v.a[2], V::boolean(it != m.end()))) return head + ": expected " + (it != m.end() ? "true" : "false");
        if (it != m.end()) m.erase(it);
        return "";
    case Get: {
        if (it == m.end()) return v.a.size() == 2 ? "" : head + ": the key is absent";
        const Row& row = it->second;
        size_t n = o.f.empty() ? row.size() : o.f.size();
        if (v.a.size() != n + 2) return head + fmt(": expected %zu columns", n);
        for (size_t i = 0; i < n; ++i) if (!col_ok(v.a[i + 2], row, o.f.empty() ? (int) i : o.f[i])) return head + fmt(": column %d is ", o.f.empty() ? (int) i : o.f[i]) + show((o.f.empty() ? (int) i : o.f[i]) < (int) row.size() ? row[o.f.empty() ? i : o.f[i]] : "");
        return ""; }
    case Scan: {
        if (v.a.size() % 2 || (int) (v.a.size() - 2) / 2 > o.n) return head + ": wrong number of items";
        S end = prefix_end(prefix); it = m.lower_bound(o.key); S prev; bool out = false;
        for (size_t i = 2; i < v.a.size(); i += 2) {
            const V& k = v.a[i];
            if (k.t != V::S || k.s < o.key || (i > 2 && k.s <= prev)) return head + fmt(": item %zu out of order or range: ", i / 2 - 1) + vshow(k);
            prev = k.s;
            if (k.s >= end) { out = true; if (it != m.end()) return head + ": skipped " + show(it->first, 80); continue; }
            if (it == m.end() || it->first != k.s) return head + ": unexpected key " + show(k.s, 80) + ", expected " + (it == m.end() ? "the end" : show(it->first, 80));
            if (!val_ok(v.a[i + 1], it->second, o.f)) return head + ": wrong value for " + show(k.s, 80);
            ++it;
        }
        if (it != m.end() && (int) (v.a.size() - 2) / 2 < o.n) return head + ": stopped before " + show(it->first, 80);
        (void) out;
        return ""; }
    }
    return "";
}
static size_t row_size(const Row& r) { size_t n = 32; for (auto& c : r) n += c.size() + 2; return n; }

// ---------- shared keys
struct Hist { uint64_t inv, resp; int conn; int idx; uint64_t tag; bool write; };
enum { NREG = 6, NTOG = 4 };
static std::mutex shmu;
static std::vector<Hist> hist[NREG];
static std::set<uint64_t> tog_written[NTOG]; static int64_t tog_ins[NTOG], tog_rem[NTOG];
static S reg_key(int i) { static const char* k[NREG] = {"s/0", "s/register/1", "s/register/12345678", "s/register/2", "s/4", "s/register/1/5"}; return k[i]; }
static int reg_cols(int i) { return i % 3 + 1; }
static S tog_key(int i) { static const char* k[NTOG] = {"t/0", "t/toggle/1", "t/toggle/12", "t/toggle/1/1"}; return k[i]; }
static S tagged(uint64_t tag, int col, size_t len) {
    S s = fmt("#%llu.%d:", (unsigned long long) tag, col) + std::to_string(len) + ";";
    uint64_t x = tag * 31 + col; while (s.size() < len) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += char('a' + (x >> 33) % 26); }
    return s;
}
static size_t tag_len(uint64_t tag) { uint64_t z = tag * 0x9E3779B97F4A7C15ull; z ^= z >> 29; return z % 7 == 0 ? 700 + z % 900 : z % 60; }
static bool untag(const S& s, int col, uint64_t& tag) { unsigned long long t; int c; if (sscanf(s.c_str(), "#%llu.%d:", &t, &c) != 2 || c != col) return false; tag = t; return s == tagged(t, col, tag_len(t)); }

// Is the history of a register linearizable? Operations that mention one tag
// are neighbours in any linearization, so precedence between tags is acyclic.
static void check_register(int reg, Rng&) {
    auto& h = hist[reg];
    std::map<uint64_t, int> id; std::vector<uint64_t> tags, maxinv, minresp, winv; std::vector<int> wconn, widx; std::vector<bool> written;
    auto get = [&](uint64_t t) { auto p = id.emplace(t, (int) tags.size()); if (p.second) { tags.push_back(t); maxinv.push_back(0); minresp.push_back(~0ull); winv.push_back(0); wconn.push_back(-1); widx.push_back(0); written.push_back(false); } return p.first->second; };
    for (auto& o : h) { int c = get(o.tag); maxinv[c] = std::max(maxinv[c], o.inv); minresp[c] = std::min(minresp[c], o.resp); if (o.write) { written[c] = true; winv[c] = o.inv; wconn[c] = o.conn; widx[c] = o.idx; } }
    auto nm = [&](int c) { return fmt("#%llu", (unsigned long long) tags[c]); };
    for (auto& o : h) {
        int c = get(o.tag);
        if (!written[c]) fail("shared key", "register " + reg_key(reg) + ": a value was read that was never written: " + nm(c));
        if (!o.write && (o.resp < winv[c] || (o.conn == wconn[c] && o.idx < widx[c]))) fail("shared key", "register " + reg_key(reg) + ": value " + nm(c) + " was read before it was written");
    }
    int n = tags.size();
    std::vector<std::vector<int>> po(n);
    std::map<int, std::vector<const Hist*>> byconn; for (auto& o : h) byconn[o.conn].push_back(&o);
    for (auto& p : byconn) { std::sort(p.second.begin(), p.second.end(), [](const Hist* a, const Hist* b) { return a->idx < b->idx; }); for (size_t i = 1; i < p.second.size(); ++i) { int a = id[p.second[i - 1]->tag], b = id[p.second[i]->tag]; if (a != b) po[a].push_back(b); } }
    std::vector<int> state(n, 0), from(n, -1);
    std::vector<std::pair<int, int>> st;
    // edges a->b: minresp[a] < maxinv[b], or program order
    std::vector<int> byinv(n); for (int i = 0; i < n; ++i) byinv[i] = i; std::sort(byinv.begin(), byinv.end(), [&](int a, int b) { return maxinv[a] > maxinv[b]; });
    for (int s = 0; s < n; ++s) if (!state[s]) {
        st.push_back({s, 0}); state[s] = 1;
        while (!st.empty()) {
            auto& [a, k] = st.back(); int b = -1;
            if (k < n) { b = byinv[k]; if (maxinv[b] <= minresp[a]) { k = n; continue; } ++k; if (b == a) continue; }
            else if (k - n < (int) po[a].size()) b = po[a][k++ - n];
            else { state[a] = 2; st.pop_back(); continue; }
            if (state[b] == 1) {
                S cyc; bool on = false; for (auto& x : st) { if (x.first == b) on = true; if (on) cyc += nm(x.first) + fmt(" [first answered %llu us, last asked %llu us] -> ", (unsigned long long) (minresp[x.first] / 1000), (unsigned long long) (maxinv[x.first] / 1000)); }
                fail("shared key", "register " + reg_key(reg) + ": no single order of its writes explains the answers: " + cyc + nm(b));
            }
            if (!state[b]) { state[b] = 1; from[b] = a; st.push_back({b, 0}); }
        }
    }
    fz::count("register_ops_checked", h.size()); fz::count("register_writes_checked", n);
}

// ---------- clients
struct Stats { std::map<S, uint64_t> c; void add(const char* n, uint64_t d = 1) { c[n] += d; } };
static std::mutex failmu; static bool failed; static fz::Violation first_fail;
static std::atomic<bool> stop;
static std::mutex statmu;
static uint64_t case_hash;
struct Client {
    Rng r; int id; S prefix; Model m; Stats st; uint64_t tagctr = 0; int opidx = 0; uint64_t h = 0; bool udp_ok;
    S longstem;
    Client(uint64_t seed, int id, const S& p) : r(seed), id(id), prefix(p), udp_ok(false) { int n = 10 + r.below(200); for (int i = 0; i < n; ++i) longstem += char('a' + i % 7); }
    S key() {
        S k = prefix;
        switch (r.below(6)) {
        case 0: k += std::to_string(r.below(30)); break;
        case 1: k += fmt("%08u", r.below(40)); break;
        case 2: k += longstem.substr(0, r.below(longstem.size())); if (r.chance(1, 2)) k += S(1, char(r.below(3))); break;
        case 3: k += "aaaabbbb" + S(r.below(12), '\0'); break;
        case 4: k += longstem + std::to_string(r.below(12)); break;
        default: k += S(r.below(3), char(0xff)) + std::to_string(r.below(5)); break;
        }
        if (k.size() > 255) k.resize(255);
        return k;
    }
    S value(size_t lim) {
        size_t n = r.chance(1, 60) ? r.below(20000) : r.chance(1, 10) ? r.below(2000) : r.below(40);
        n = std::min(n, lim); S s(n, 'x'); uint64_t x = r.next(); bool bin = r.chance(1, 4);
        for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) x = x * 6364136223846793005ull + 1; s[i] = bin ? char(x >> (8 * (i % 8))) : char('A' + (x >> (5 + 4 * (i % 8))) % 50); }
        return s;
    }
    V seq() { switch (r.below(8)) { case 0: return I((__int128) (r.next() >> r.below(64))); case 1: return I(-(__int128) r.below(100000)); case 2: return T(std::to_string(r.below(1000)) + S(r.below(40), 's')); case 3: return V::null(); default: return I(opidx + r.below(2)); } }
    Op gen(bool udp, bool shared_ok) {
        Op o; o.seq = seq(); size_t lim = udp ? 1200 : 9000;
        if (shared_ok && r.chance(1, 3)) {
            o.shared = true;
            if (r.chance(1, 4)) {
                int t = r.below(NTOG); o.key = tog_key(t);
                switch (r.below(4)) { case 0: o.cmd = Rem; break; case 1: o.cmd = Get; break; default: o.cmd = r.chance(1, 2) ? Repl : Put; o.tag = ((uint64_t) (id + 1) << 32) | ++tagctr; o.put.push_back({0, tagged(o.tag, 0, tag_len(o.tag))}); }
            } else if (r.chance(1, 12)) { o.cmd = Scan; o.key = "s/"; o.n = NREG; }
            else {
                int g = r.below(NREG); o.key = reg_key(g);
                if (r.chance(1, 2)) { o.cmd = Get; if (r.chance(1, 3)) o.f.push_back(r.below(reg_cols(g))); }
                else { o.tag = ((uint64_t) (id + 1) << 32) | ++tagctr; for (int c = 0; c < reg_cols(g); ++c) o.put.push_back({c, tagged(o.tag, c, tag_len(o.tag))}); o.cmd = reg_cols(g) == 1 && r.chance(1, 2) ? Repl : Put; }
            }
            return o;
        }
        o.key = key();
        switch (r.below(12)) {
        case 0: case 1: case 2: o.cmd = Get; if (r.chance(1, 2)) for (int n = 1 + r.below(4); n; --n) o.f.push_back(r.below(7)); break;
        case 3: case 4: case 5: case 6: {
            o.cmd = Put; int c = r.chance(1, 15) ? r.below(60) : r.below(3);
            for (int n = 1 + r.below(4); n; --n) { o.put.push_back({c, value(lim)}); c += 1 + r.below(3); }
            auto it = m.find(o.key); Row row; if (it != m.end()) row = it->second;
            for (auto& p : o.put) { if ((int) row.size() <= p.first) row.resize(p.first + 1); row[p.first] = p.second; }
            if (row_size(row) > (udp ? 8000 : 60000)) { o.cmd = Rem; o.put.clear(); }
            break; }
        case 7: case 8: o.cmd = Repl; o.put.push_back({0, !udp && r.chance(1, 60) ? value(20000) + S(r.below(40000), 'z') : value(udp ? 3000 : 20000)}); break;
        case 9: o.cmd = Rem; break;
        case 10: { o.cmd = Scan; if (r.chance(1, 3)) o.key = prefix; o.n = 1 + r.below(r.chance(1, 4) ? 40 : 6); if (udp) { o.n = 1 + r.below(4); }
            if (r.chance(1, 2)) for (int n = 1 + r.below(3); n; --n) o.f.push_back(r.below(5)); break; }
        default: if (r.chance(1, 25)) { o.cmd = Ckpt; o.key.clear(); } else { o.cmd = Get; }
        }
        // a row that was grown by pipelined puts is judged when its turn comes; see `pending`
        return o;
    }
    void shared_result(const Op& o, const V& v, uint64_t inv, uint64_t resp, int idx) {
        S head = opshow(o) + " answered " + vshow(v).substr(0, 500);
        if (v.t != V::A || v.a.size() < 2 || !same(v.a[0], o.seq) || !same(v.a[1], I(o.cmd + 1))) fail("wrong answer", head);
        std::lock_guard<std::mutex> g(shmu);
        for (int t = 0; t < NTOG; ++t) if (o.key == tog_key(t)) {
            if (o.cmd == Repl || o.cmd == Put) { if (v.a.size() != 3 || !(same(v.a[2], I(1)) || same(v.a[2], I(2)))) fail("wrong answer", head); if (v.a[2].i == 1) ++tog_ins[t]; }
            else if (o.cmd == Rem) { if (v.a.size() != 3 || v.a[2].t != V::Bool) fail("wrong answer", head); if (v.a[2].b) ++tog_rem[t]; }
            else if (v.a.size() > 2) { uint64_t tag; if (v.a.size() != 3 || v.a[2].t != V::S || !untag(v.a[2].s, 0, tag) || !tog_written[t].count(tag)) fail("shared key", head + ": not a value written to this key"); }
            return;
        }
        auto rd = [&](int g, const V& x, int col) { uint64_t tag; if (x.t != V::S || !untag(x.s, col, tag)) fail("shared key", head + fmt(": column %d of ", col) + reg_key(g) + " is not a value written to it"); return tag; };
        if (o.cmd == Scan) {
            if (v.a.size() != 2 + 2 * NREG) fail("shared key", head + ": keys are missing");
            std::vector<S> ks; for (int i = 0; i < NREG; ++i) ks.push_back(reg_key(i)); std::sort(ks.begin(), ks.end());
            for (int i = 0; i < NREG; ++i) {
                if (!same(v.a[2 + 2 * i], T(ks[i]))) fail("shared key", head + ": expected key " + ks[i]);
                for (int g = 0; g < NREG; ++g) if (reg_key(g) == ks[i]) {
                    const V& x = v.a[3 + 2 * i]; uint64_t tag;
                    if (reg_cols(g) == 1) tag = rd(g, x, 0);
                    else { if (x.t != V::A || (int) x.a.size() != reg_cols(g)) fail("shared key", head); tag = rd(g, x.a[0], 0); for (int c = 1; c < reg_cols(g); ++c) if (rd(g, x.a[c], c) != tag) fail("shared key", head + ": the columns of " + ks[i] + " come from different updates"); }
                    hist[g].push_back({inv, resp, id, idx, tag, false});
                }
            }
            return;
        }
        for (int g = 0; g < NREG; ++g) if (o.key == reg_key(g)) {
            if (o.cmd == Get) {
                size_t n = o.f.empty() ? reg_cols(g) : 1; uint64_t tag = 0;
                if (v.a.size() != n + 2) fail("shared key", head + ": wrong number of columns");
                for (size_t c = 0; c < n; ++c) { uint64_t t = rd(g, v.a[c + 2], o.f.empty() ? (int) c : o.f[0]); if (c && t != tag) fail("shared key", head + ": its columns come from different updates"); tag = t; }
                hist[g].push_back({inv, resp, id, idx, tag, false});
            } else {
                if (v.a.size() != 3 || !same(v.a[2], I(2))) fail("wrong answer", head + ": expected updated (2)");
                hist[g].push_back({inv, resp, id, idx, o.tag, true});
            }
        }
    }
    void note_written(const Op& o) { if (o.shared && o.tag) for (int t = 0; t < NTOG; ++t) if (o.key == tog_key(t)) { std::lock_guard<std::mutex> g(shmu); tog_written[t].insert(o.tag); } }
    static void apply_model_only(Model& m, const Op& o) {
        if (o.cmd == Repl) m[o.key] = Row(1, o.put[0].second); else if (o.cmd == Rem) m.erase(o.key);
        else if (o.cmd == Put) { Row& row = m[o.key]; for (auto& p : o.put) { if ((int) row.size() <= p.first) row.resize(p.first + 1); row[p.first] = p.second; } }
    }
    void judge(const std::vector<Op>& ops, const std::vector<uint64_t>& sent, const std::vector<Reply>& got) {
        if (got.size() != ops.size()) fail("extra answer", fmt("%zu answers to %zu requests; first extra: ", got.size(), ops.size()) + vshow(got[std::min(got.size() - 1, ops.size())].v));
        for (size_t i = 0; i < ops.size(); ++i) {
            st.add(ops[i].shared ? "shared_ops" : "private_ops");
            if (ops[i].shared) shared_result(ops[i], got[i].v, sent[i], got[i].t, opidx + i);
            else { S e = apply(m, prefix, ops[i], got[i].v); if (!e.empty()) fail("wrong answer", fmt("client %d, request %zu of %zu in a batch: ", id, i, ops.size()) + e); }
            h = h * 1099511628211ull + ops[i].cmd * 31 + ops[i].key.size();
        }
        opidx += ops.size();
    }
    // A batch is generated against a copy of the model advanced by its own ops.
    std::vector<Op> batch(int n, bool udp) {
        std::vector<Op> ops; Model save = m;
        for (int i = 0; i < n; ++i) { Op o = gen(udp, true); if (!o.shared) apply_model_only(m, o); note_written(o); ops.push_back(std::move(o)); }
        m = std::move(save);
        return ops;
    }
    void tcp(uint64_t until) {
        Conn c(r);
        while (now_ns() < until && !stop) {
            int n = r.chance(1, 3) ? 1 : r.chance(1, 6) ? 1 + r.below(120) : 1 + r.below(12);
            std::vector<Op> ops = batch(n, false); unsigned lazy = 0;
            if (r.chance(1, 60)) { // many large answers, read late
                ops.clear(); Op o; o.cmd = Repl; o.key = key(); o.seq = seq(); o.put.push_back({0, value(20000) + S(20000 + r.below(20000), 'z')}); ops.push_back(o);
                for (int k = 20 + r.below(150); k; --k) { Op g; g.cmd = Get; g.key = o.key; g.seq = seq(); ops.push_back(g); }
                lazy = 5 + r.below(150); st.add("late_readers");
            } else if (r.chance(1, 30)) lazy = 1 + r.below(60);
            S out; std::vector<size_t> starts; for (auto& o : ops) { starts.push_back(out.size()); enc(out, request(o), r); }
            std::vector<uint64_t> sent; std::vector<Reply> got;
            if (c.fd < 0) {
                if (r.chance(1, 2)) { uint64_t t = now_ns(); c.open(out, ops.size(), &got); sent.assign(ops.size(), t); st.add("coalesced_handshakes"); judge(ops, sent, got); continue; }
                c.open();
            }
            if (r.chance(1, 20)) { // and then one that is none: everything before it is answered, and the connection is closed
                V seqv = seq(), q; S bad;
                switch (r.below(7)) {
                case 0: bad = char(0xc1); break;
                case 1: q = I(r.below(100)); break;
                case 2: q = list({seqv}); break;
                case 3: q = list({seqv, I(16 + 2 * r.below(40)), T(key())}); break;
                case 4: q = list({seqv, T("get"), T(key())}); break;
                case 5: q = list({seqv, I(Put), T(key()), T("zero"), T("value")}); break;
                default: q = list({seqv, I(r.chance(1, 2) ? Get : Rem)});
                }
                if (bad.empty()) enc(bad, q, r);
                c.exchange(out + bad, starts, &sent, 0, got, true, false, lazy);
                if (got.size() == ops.size() + 1 && got.back().v.t == V::A && got.back().v.a.size() >= 2 && same(got.back().v.a[1], I(-1))) got.pop_back();
                if (!c.in.empty()) fail("bad answer", "cut off before the connection was closed: " + show(c.in, 80));
                if (got.size() < ops.size()) fail("connection lost", fmt("%zu of %zu answers before the connection was closed for a malformed request that followed", got.size(), ops.size()));
                judge(ops, sent, got);
                close(c.fd); c.fd = -1; c.in.clear(); c.eof = false; st.add("malformed_after_requests");
                continue;
            }
            bool half = r.chance(1, 25);
            c.exchange(out, starts, &sent, ops.size(), got, false, half, lazy);
            judge(ops, sent, got);
            if (half) { c.finish(); st.add("half_closes"); }
            st.add("batches"); st.add("bytes_sent", out.size());
            if (r.chance(1, 25)) { c.finish(); st.add("reconnects"); }
            if (r.chance(1, 8)) nap_us(r.below(3000));
        }
        c.finish();
    }
    void udp(uint64_t until) {
        int fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); int big = 1 << 20; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
        sockaddr_in a = srv->addr(r.below(srv->j)); if (connect(fd, (sockaddr*) &a, sizeof a)) fail("no connection", "udp connect");
        std::vector<char> buf(70000); uint64_t useq = 1;
        auto roundtrip = [&](const Op& o, const S& b) {
            uint64_t t0 = now_ns(); V v; int tries = 0;
            if (send(fd, b.data(), b.size(), 0) != (ssize_t) b.size()) fail("no answer", S("udp send: ") + strerror(errno));
            for (;;) {
                pollfd pf{fd, POLLIN, 0};
                if (poll(&pf, 1, 500) <= 0) { srv->alive(); if (now_ns() - t0 > answer_ms * 1000000ull) fail("no answer", "over UDP to " + opshow(o)); if ((o.cmd == Get || o.cmd == Scan) && ++tries % 10 == 0) send(fd, b.data(), b.size(), 0); continue; }
                ssize_t n = recv(fd, buf.data(), buf.size(), 0);
                if (n < 0) fail("no answer", S("udp recv: ") + strerror(errno));
                const uint8_t *p = (const uint8_t*) buf.data(), *e = p + n;
                if (!dec(p, e, v) || p != e) fail("bad answer", "UDP answer to " + opshow(o) + " is " + show(S(buf.data(), n), 200));
                if (tries && v.t == V::A && !v.a.empty() && !same(v.a[0], o.seq)) continue;
                std::vector<Op> ops(1, o); std::vector<uint64_t> sent(1, t0); std::vector<Reply> got(1, Reply{v, now_ns()});
                judge(ops, sent, got); st.add("udp_answers");
                return;
            }
        };
        while (now_ns() < until && !stop) {
            std::vector<Op> ops = batch(1, true); Op& o = ops[0]; o.seq = I(useq++);
            S b = wire(request(o), r);
            if (b.size() > 4096) continue;
            roundtrip(o, b);
            if ((o.cmd == Repl || o.cmd == Put) && !o.shared && r.chance(1, 4)) {
                // the same request once more with its head changed and its tail missing
                Op o2 = o; o2.seq = I(useq + 1000000); S& v2 = o2.put[0].second; if (!v2.empty()) v2[0] ^= 1;
                Rng r2 = r; S b2 = wire(request(o2), r2); size_t cut = 1 + r.below(std::min<size_t>(b2.size() - 1, 12));
                b2.resize(b2.size() - cut); ++useq;
                if (send(fd, b2.data(), b2.size(), 0) < 0) fail("no answer", S("udp send: ") + strerror(errno));
                st.add("udp_truncated");
                Op g; g.cmd = Get; g.key = o.key; g.seq = I(useq++); roundtrip(g, wire(request(g), r));
            } else if (r.chance(1, 20)) {
                S junk; switch (r.below(3)) { case 0: break; case 1: for (int n = r.below(60); n; --n) junk += char(r.below(256)); if (!junk.empty() && (((uint8_t) junk[0] & 0xf0) == 0x90 || ((uint8_t) junk[0] & 0xfe) == 0xdc)) junk[0] = 'j'; break; default: junk = wire(list({I(1), I(77), T("H")}), r); }
                send(fd, junk.data(), junk.size(), 0); st.add("udp_junk"); Op g; g.cmd = Get; g.key = key(); g.seq = I(useq++); roundtrip(g, wire(request(g), r));
            }
        }
        close(fd);
    }
    void fold() { std::lock_guard<std::mutex> g(statmu); for (auto& p : st.c) fz::counters[p.first] += p.second; st.c.clear(); case_hash ^= h * 0x9E3779B97F4A7C15ull + id; }
};

// ---------- hostile clients
struct Hostile {
    Rng r; Stats st; std::vector<Conn*> held;
    explicit Hostile(uint64_t seed) : r(seed) {}
    ~Hostile() { for (Conn* c : held) delete c; }
    S key() { return "H" + std::to_string(r.below(20)) + S(r.chance(1, 8) ? 250 : 0, 'h'); }
    V scalar() { switch (r.below(9)) { case 0: return V::null(); case 1: return V::boolean(r.chance(1, 2)); case 2: return I(gen_int(r)); case 3: return V::dbl(r.chance(1, 2) ? 1.5 : 1e300); case 4: return T(key()); case 5: return V::arr(); case 6: return V::obj(); case 7: return list({I(0), I(1)}); default: return I((int) r.below(20) - 3); } }
    V valid() {
        V q = list({I(r.below(100)), I(0), T(key())});
        switch (r.below(6)) {
        case 0: q.a[1] = I(Get); if (r.chance(1, 2)) q.a.push_back(I(r.below(5))); break;
        case 1: q.a[1] = I(Put); { int c = r.below(3); for (int n = 1 + r.below(3); n; --n) { q.a.push_back(I(c)); q.a.push_back(T(S(r.below(200), 'p'))); c += 1 + r.below(3); } } break;
        case 2: q.a[1] = I(Repl); q.a.push_back(T(S(r.below(500), 'r'))); break;
        case 3: q.a[1] = I(Rem); break;
        case 4: q.a[1] = I(Scan); q.a.push_back(I(1 + r.below(20))); if (r.chance(1, 2)) q.a.push_back(I(r.below(4))); break;
        default: q.a[1] = I(Get); break;
        }
        return q;
    }
    V mangled() {
        V q = valid();
        for (int n = 1 + r.below(3); n; --n) switch (r.below(9)) {
            case 0: if (!q.a.empty()) q.a.pop_back(); break;
            case 1: if (!q.a.empty()) q.a[r.below(q.a.size())] = scalar(); break;
            case 2: q.a.push_back(scalar()); break;
            case 3: if (!q.a.empty()) q.a.erase(q.a.begin() + r.below(q.a.size())); break;
            case 4: if (q.a.size() > 2) q.a[2] = T("H" + S(255 + r.below(400), 'L')); break;
            case 5: if (q.a.size() > 3) q.a[3] = I(gen_int(r)); break;
            case 6: if (q.a.size() > 1) q.a[1] = I(r.chance(1, 2) ? (__int128) r.below(40) - 5 : gen_int(r)); break;
            case 7: if (q.a.size() > 6) std::swap(q.a[3], q.a[5]); else if (q.a.size() > 3) std::swap(q.a[2], q.a[3]); break;
            default: q.a.resize(std::min<size_t>(q.a.size(), r.below(4))); break;
        }
        // never another client's key, and no row beyond the size the row type can hold
        if (q.a.size() > 2 && q.a[2].t == V::S && (q.a[2].s.empty() || q.a[2].s[0] != 'H')) q.a[2].s = "H" + q.a[2].s;
        if (q.a.size() > 1 && q.a[1].t == V::Int && q.a[1].i == Put) for (size_t i = 3; i < q.a.size(); i += 2) if (q.a[i].t == V::Int && q.a[i].i > 3000 && q.a[i].i <= 32767) q.a[i].i += 40000;
        if (q.a.size() > 1 && r.chance(1, 30)) return r.chance(1, 2) ? scalar() : V::null();
        return q;
    }
    // Send, then read until the server closes: it must answer or close.
    void drain(Conn& c, const S& out) {
        std::vector<Reply> got;
        try { c.exchange(out, {}, nullptr, 0, got, false); shutdown(c.fd, SHUT_WR); c.exchange(S(), {}, nullptr, 0, got, true); }
        catch (fz::Violation& v) { if (v.kind == "connection lost" || v.kind == "bad answer") return; throw; }
    }
    void step() {
        Conn c(r);
        switch (r.below(11)) {
        case 0: { // malformed handshakes
            V q; switch (r.below(6)) { case 0: q = list({I(0)}); break; case 1: q = list({I(0), I(14), scalar()}); break; case 2: q = list({I(0), I(2), T("H")}); break; case 3: q = V::obj(); q.o.emplace_back("a", I(1)); break; case 4: { q = list({I(0), I(14), V::obj()}); q.a[2].o.emplace_back("core", scalar()); q.a[2].o.emplace_back("maxkeylen", scalar()); break; } default: q = V::arr(); }
            c.connect_only(); drain(c, wire(q, r)); st.add("hostile_bad_handshakes"); break; }
        case 1: { V q = list({I(7), I(14), V::obj()}); q.a[2].o.emplace_back("maxkeylen", I(256 + r.below(10000)));
            c.connect_only(); std::vector<Reply> got; S b = wire(q, r); c.exchange(b, {}, nullptr, 1, got);
            if (got[0].v.t != V::A || got[0].v.a.size() < 3 || !same(got[0].v.a[2], V::boolean(false))) fail("bad answer", "handshake with an unacceptable maxkeylen answered " + vshow(got[0].v));
            got.clear(); c.exchange(S(), {}, nullptr, 0, got, true); st.add("hostile_bad_handshakes"); break; }
        case 2: { c.connect_only(); S g; for (int n = r.below(300); n; --n) g += char(r.below(256)); if (!g.empty() && r.chance(1, 2)) g[0] = char(0x90 | r.below(16)); drain(c, g); st.add("hostile_garbage"); break; }
        case 3: { c.connect_only(); if (r.chance(1, 2)) { S b = wire(list({I(0), I(14), V::obj()}), r); b.resize(1 + r.below(b.size() - 1)); if (send(c.fd, b.data(), b.size(), MSG_NOSIGNAL) < 0) break; }
            if (held.size() < 12) { held.push_back(new Conn(r)); held.back()->fd = c.fd; c.fd = -1; st.add("hostile_silent"); } else c.reset(); break; }
        case 4: case 5: case 6: { c.open(); S b; for (int n = r.below(4); n; --n) enc(b, valid(), r); V q = mangled(); enc(b, q, r); drain(c, b); st.add("hostile_malformed"); break; }
        case 7: { c.open(); S b; for (int n = r.below(3); n; --n) enc(b, valid(), r); for (int n = 1 + r.below(80); n; --n) b += char(r.below(256)); drain(c, b); st.add("hostile_garbage"); break; }
        case 8: { // leave without reading the answers
            c.open(); { Op o; o.cmd = Repl; o.key = "Hbig"; o.seq = I(1); o.put.push_back({0, S(1 + r.below(20000), 'b')}); c.call(request(o)); }
            S b; for (int n = 1 + r.below(60); n; --n) enc(b, list({I(2), I(Get), T("Hbig")}), r);
            ssize_t k = send(c.fd, b.data(), b.size(), MSG_NOSIGNAL); (void) k; if (r.chance(1, 2)) nap_us(r.below(2000)); if (r.chance(3, 4)) c.reset(); st.add("hostile_abandoned"); break; }
        case 9: { // part of a request, then nothing
            c.open(); S b; if (r.chance(1, 2)) enc(b, valid(), r); S x = wire(valid(), r); x.resize(1 + r.below(x.size() - 1)); b += x;
            if (send(c.fd, b.data(), b.size(), MSG_NOSIGNAL) < 0) break;
            if (held.size() < 12) { held.push_back(new Conn(r)); held.back()->fd = c.fd; c.fd = -1; st.add("hostile_partial_held"); } else { if (r.chance(1, 2)) c.reset(); st.add("hostile_partial"); } break; }
        default: { // several at once come and go
            std::vector<Conn*> v; try { for (int n = 2 + r.below(10); n; --n) { v.push_back(new Conn(r)); if (r.chance(1, 2)) v.back()->open(); else v.back()->connect_only(); } } catch (...) { for (auto x : v) delete x; throw; }
            for (auto x : v) { if (r.chance(1, 2)) x->reset(); delete x; } st.add("hostile_churn"); }
        }
    }
    void run(uint64_t until) { while (now_ns() < until && !stop) { step(); nap_us(r.below(8000)); } }
};

// ---------- the bundled client library, in a child process
static int kvconn_child(uint64_t seed, const S& prefix, int ms, FILE* out, Model& m, int wfd) {
    Client cl(seed, 0, prefix); Rng& r = cl.r; uint64_t until = now_ns() + ms * 1000000ull; cl.m = m;
    KVConn c("127.0.0.1", srv->port, r.below(srv->j + 1) - 1); unsigned seq = r.next(); uint64_t nops = 0;
    while (now_ns() < until) {
        std::vector<Op> ops; Model save = cl.m; int n = 1 + r.below(r.chance(1, 5) ? 60 : 8);
        for (int i = 0; i < n; ++i) {
            Op o = cl.gen(false, false); if (o.cmd == Ckpt) continue;
            if (o.cmd == Put) { o.put.resize(1); }
            o.seq = I(seq++); Client::apply_model_only(cl.m, o); ops.push_back(o);
        }
        cl.m = save;
        for (auto& o : ops) {
            // NB the client refers to key and value until it flushes, and the code under test reads keys in words
            Str k(o.key.data(), o.key.size()); std::vector<unsigned> f(o.f.begin(), o.f.end()); unsigned q = (unsigned) o.seq.i;
            switch (o.cmd) {
            case Get: if (f.empty()) c.sendgetwhole(k, q); else if (f.size() == 1 && r.chance(1, 2)) c.sendgetcol(k, f[0], q); else c.sendget(k, f, q); break;
            case Put: c.sendputcol(k, o.put[0].first, Str(o.put[0].second.data(), o.put[0].second.size()), q); break;
            case Repl: c.sendputwhole(k, Str(o.put[0].second.data(), o.put[0].second.size()), q); break;
            case Rem: c.sendremove(k, q); break;
            case Scan: if (f.empty()) c.sendscanwhole(k, o.n, q); else c.sendscan(k, f, o.n, q); break;
            }
        }
        c.flush();
        for (size_t i = 0; i < ops.size(); ++i) {
            const Json& j = c.receive();
            if (!j) { fprintf(out, "no answer to %s\n", opshow(ops[i]).c_str()); return 3; }
            std::function<V(const Json&)> conv = [&](const Json& x) -> V {
                if (x.is_a()) { V v = V::arr(); for (int k = 0; k < x.size(); ++k) v.a.push_back(conv(x.at(k))); return v; }
                if (x.is_s()) { const String& s = x.as_s(); return T(S(s.data(), s.length())); }
                if (x.is_b()) return V::boolean(x.as_b());
                if (x.is_i()) return I(x.is_u() ? (__int128) x.as_u() : (__int128) x.as_i());
                if (x.is_d()) return V::dbl(x.as_d());
                return V::null(); };
            S e = apply(cl.m, prefix, ops[i], conv(j));
            if (!e.empty()) { fprintf(out, "%s\n", e.c_str()); return 3; }
            ++nops;
        }
    }
    if (c.check(1) > 0) { fprintf(out, "bytes left after the last answer\n"); return 3; }
    // hand the final contents back
    S b; Rng er(1); V v = V::arr(); for (auto& p : cl.m) { V row = V::arr(); for (auto& x : p.second) row.a.push_back(T(x)); v.a.push_back(T(p.first)); v.a.push_back(row); }
    v.a.push_back(I(nops)); enc(b, v, er);
    for (size_t o = 0; o < b.size();) { ssize_t k = write(wfd, b.data() + o, b.size() - o); if (k <= 0) return 4; o += k; }
    return 0;
}
struct Child {
    pid_t pid = -1; int rfd = -1; S errfile, prefix, in; Model m; V v; bool done = false;
    void start(uint64_t seed, int ms, const S& dir, int k) {
        prefix = "k" + std::to_string(k) + "/"; errfile = dir + "/client" + std::to_string(k) + ".out";
        int p[2]; if (pipe2(p, O_CLOEXEC)) exit(3);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(0); signal(SIGALRM, SIG_DFL); signal(SIGABRT, SIG_DFL); close(p[0]);
            FILE* f = fopen(errfile.c_str(), "w"); dup2(fileno(f), 2); dup2(fileno(f), 1); fz::reported = true;
            int rc = 5; try { rc = kvconn_child(seed, prefix, ms, f, m, p[1]); } catch (fz::Violation& x) { fprintf(f, "%s: %s\n", x.kind.c_str(), x.msg.c_str()); rc = 3; }
            fflush(f); _exit(rc);
        }
        close(p[1]); rfd = p[0]; in.clear();
    }
    void collect() {
        uint64_t t0 = now_ns(); char b[65536]; fcntl(rfd, F_SETFL, O_NONBLOCK);
        for (;;) {
            ssize_t n = read(rfd, b, sizeof b);
            if (n > 0) { in.append(b, n); continue; }
            if (n == 0) break;
            if (now_ns() - t0 > answer_ms * 1000000ull) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); close(rfd); srv->alive(); fail("no answer", "the client library is still waiting"); }
            nap_us(2000);
        }
        close(rfd); int st; waitpid(pid, &st, 0); pid = -1;
        S e; if (FILE* f = fopen(errfile.c_str(), "r")) { size_t n = fread(b, 1, 6000, f); e.assign(b, n); fclose(f); }
        if (st != 0) { srv->alive(); fail("client library", fmt("status 0x%x: ", st) + e); }
        const uint8_t *p = (const uint8_t*) in.data(), *q = p + in.size(); V v; if (!dec(p, q, v)) fail("client library", "no contents handed back");
        m.clear(); for (size_t i = 0; i + 1 < v.a.size(); i += 2) { Row row; for (auto& x : v.a[i + 1].a) row.push_back(x.s); m[v.a[i].s] = row; }
        fz::count("client_library_ops", (uint64_t) v.a.back().i);
    }
};

// ---------- whole contents
static Model contents(Rng& r) {
    Conn c(r); c.open(); Model m; S from;
    for (;;) {
        V v = c.call(list({I(1), I(Scan), T(from), I(50)}));
        if (v.t != V::A || v.a.size() < 2 || v.a.size() % 2 || !same(v.a[1], I(Scan + 1))) fail("wrong answer", "to a scan of everything: " + vshow(v));
        bool fresh = false;
        for (size_t i = 2; i < v.a.size(); i += 2) {
            if (v.a[i].t != V::S) fail("wrong answer", "scan key " + vshow(v.a[i]));
            Row row; if (v.a[i + 1].t == V::A) for (auto& x : v.a[i + 1].a) row.push_back(x.s); else row.push_back(v.a[i + 1].s);
            if (!m.count(v.a[i].s)) fresh = true;
            m[v.a[i].s] = row; from = v.a[i].s;
        }
        if (v.a.size() < 102 || !fresh) break;
    }
    c.finish(); return m;
}
static S mdiff(const Model& want, const Model& got, const char* what) {
    auto a = want.begin(); auto b = got.begin();
    while (a != want.end() || b != got.end()) {
        if (b == got.end() || (a != want.end() && a->first < b->first)) return S(what) + ": key " + show(a->first, 80) + " is missing";
        if (a == want.end() || b->first < a->first) return S(what) + ": unexpected key " + show(b->first, 80);
        if (a->second != b->second) { size_t i = 0; while (i < a->second.size() && i < b->second.size() && a->second[i] == b->second[i]) ++i; return S(what) + ": row " + show(a->first, 80) + fmt(" has %zu columns, expected %zu; column %zu is ", b->second.size(), a->second.size(), i) + (i < b->second.size() ? show(b->second[i], 60) : "absent") + ", expected " + (i < a->second.size() ? show(a->second[i], 60) : "absent"); }
        ++a; ++b;
    }
    return "";
}
static Model part(const Model& m, const S& p) { Model x; for (auto it = m.lower_bound(p); it != m.end() && it->first.compare(0, p.size(), p) == 0; ++it) x.insert(*it); return x; }
// Has every log ended in a quiescence record, that is, is everything flushed?
static bool logs_quiet(const S& dir, int n) {
    for (int i = 0; i < n; ++i) {
        FILE* f = fopen((dir + "/kvd-log-" + std::to_string(i)).c_str(), "r"); if (!f) return false;
        fseek(f, 0, SEEK_END); long sz = ftell(f); char b[8]; bool q = false;
        if (sz >= 8) { fseek(f, sz - 8, SEEK_SET); if (fread(b, 1, 8, f) == 8) { uint32_t len; memcpy(&len, b + 4, 4); q = len == 8 && memcmp(b, "kQUI", 4) == 0; uint32_t c; memcpy(&c, b, 4); if (len == 8 && (c == 0x6b515549u || c == 0x6b515569u)) q = true; if (len == 8 && !q) { fz::note("log %d ends with %.4s", i, b); } } }
        fclose(f); if (!q) return false;
    }
    return true;
}
static void rmdir_all(const S& d) {
    if (d.find("/mtsrv.") == S::npos) return;
    if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); }
    rmdir(d.c_str());
}
static void run_threads(std::vector<std::function<void()>> fs) {
    std::vector<std::thread> ts; failed = false; stop = false;
    for (auto& f : fs) ts.emplace_back([&f]() { try { f(); } catch (fz::Violation& v) { std::lock_guard<std::mutex> g(failmu); if (!failed) { failed = true; first_fail = v; } stop = true; } });
    for (auto& t : ts) t.join();
    if (failed) { nap_us(300000); S first = first_fail.kind + ": " + first_fail.msg; try { srv->alive(); } catch (fz::Violation& v) { v.msg += "\nfirst noticed by a client as: " + first; throw v; } throw first_fail; }
    srv->alive();
}

static void do_case(fz::Case& c, Server& s, std::vector<Client*>& cl, std::vector<Hostile*>& hs, std::vector<Child>& kids, bool logging, S& desc) {
    Rng& r = c.r;
    for (auto& h : hist) h.clear(); for (auto& t : tog_written) t.clear(); for (int i = 0; i < NTOG; ++i) tog_ins[i] = tog_rem[i] = 0;
    s.spawn();
    { Conn p(r); p.open(); for (int g = 0; g < NREG; ++g) { Op o; o.cmd = Put; o.key = reg_key(g); o.seq = I(g); for (int k = 0; k < reg_cols(g); ++k) o.put.push_back({k, tagged(1, k, tag_len(1))}); uint64_t t = now_ns(); V v = p.call(request(o)); if (v.t != V::A || v.a.size() != 3 || !same(v.a[2], I(1))) fail("wrong answer", opshow(o) + " answered " + vshow(v)); hist[g].push_back({t, now_ns(), -1, g, 1, true}); } p.finish(); }
    int phases = logging && r.chance(1, 2) ? 2 : 1; fz::count("servers_started");
    for (int ph = 0; ph < phases; ++ph) {
        int ms = 300 + r.below(700);
        for (auto& k : kids) k.start(r.next(), ms, s.dir, &k - &kids[0]);
        uint64_t until = now_ns() + ms * 1000000ull;
        std::vector<std::function<void()>> fs;
        for (auto* x : cl) fs.push_back([x, until]() { if (x->udp_ok) x->udp(until); else x->tcp(until); });
        for (auto* x : hs) fs.push_back([x, until]() { x->run(until); });
        run_threads(fs);
        for (auto& k : kids) k.collect();
        Model all = contents(r);
        for (auto* x : cl) { S e = mdiff(x->m, part(all, x->prefix), "final contents"); if (!e.empty()) fail("contents", e); }
        for (auto& k : kids) { S e = mdiff(k.m, part(all, k.prefix), "final contents (client library)"); if (!e.empty()) fail("contents", e); }
        for (int t = 0; t < NTOG; ++t) { int64_t d = tog_ins[t] - tog_rem[t]; bool here = all.count(tog_key(t)); if (d != (here ? 1 : 0)) fail("shared key", tog_key(t) + fmt(": %lld insertions and %lld removals reported, but the key is ", (long long) tog_ins[t], (long long) tog_rem[t]) + (here ? "present" : "absent")); }
        for (int g = 0; g < NREG; ++g) { uint64_t tag; if (!all.count(reg_key(g)) || !untag(all[reg_key(g)][0], 0, tag)) fail("shared key", "final value of " + reg_key(g)); uint64_t t = now_ns(); hist[g].push_back({t, t, -1, 1000000 + ph, tag, false}); }
        for (int g = 0; g < NREG; ++g) check_register(g, r);
        for (auto* x : hs) { for (Conn* q : x->held) { if (q->r.chance(1, 2)) q->reset(); delete q; } x->held.clear(); std::lock_guard<std::mutex> g(statmu); for (auto& p : x->st.c) fz::counters[p.first] += p.second; x->st.c.clear(); }
        for (auto* x : cl) x->fold();
        if (!getenv("SRV_NORESTART") && logging && r.chance(1, 2 + (ph == 0 && phases == 2 ? 0 : 1))) {
            uint64_t t0 = now_ns(); bool quiet = false;
            nap_us(700000);
            while (now_ns() - t0 < 12000000000ull && !(quiet = logs_quiet(s.dir, s.j))) nap_us(100000);
            if (!quiet) { fz::count("restarts_skipped"); continue; }
            all = contents(r);
            s.alive(); s.kill9();
            if (getenv("SRV_KEEP")) { S cmd = "rm -rf /tmp/srvkeep." + std::to_string(getpid()) + "; cp -r " + s.dir + " /tmp/srvkeep." + std::to_string(getpid()); if (system(cmd.c_str())) {} }
            s.spawn();
            Model again = contents(r); S e = mdiff(all, again, "contents after restart");
            if (!e.empty()) fail("restart", e);
            fz::count("restarts"); desc += " restart";
        }
        c.nontrivial = true;
    }
    s.alive();
}
void run_case(fz::Case& c) {
    if (getenv("SRV_GDB")) {
        static std::atomic<int> epoch; int mine = ++epoch;
        std::thread([mine]() { for (int i = 0; i < 120; ++i) { sleep(1); if (epoch != mine) return; }
            S cmd = fmt("(gdb -p %d -batch -ex 'thread apply all bt 14'; echo ========; gdb -p %d -batch -ex 'thread apply all bt 12'; ss -tnp) > /tmp/srvgdb.%d 2>&1", srv ? srv->pid : 0, getpid(), getpid()); if (system(cmd.c_str())) {} }).detach();
    }

    Rng& r = c.r; static int serial;
    Server s; srv = &s; s.seed = r.next() >> 8;
    s.dir = base_dir + "/mtsrv." + std::to_string(getpid()) + "." + std::to_string(++serial); mkdir(s.dir.c_str(), 0755);
    s.j = 1 + r.below(3); r.below(1000);
    bool logging = r.chance(3, 4); if (!logging) s.args.push_back("-n");
    s.args.push_back("--ld=" + s.dir); s.args.push_back("--cd=" + s.dir);
    static const char* ei[] = {"1", "5", "20", "100", "1000"}; S e = ei[r.below(5)]; s.args.push_back("--epoch-interval=" + e);
    S ck; if (logging && r.chance(1, 3)) { ck = r.chance(1, 2) ? "0.3" : "1"; s.args.push_back("--checkpoint=" + ck); }
    if (getenv("SRV_FORCE")) { s.j = 3; s.args.clear(); s.args = {"--ld=" + s.dir, "--cd=" + s.dir, "--epoch-interval=1000", "--checkpoint=0.3"}; logging = true; }
    int ntcp = 1 + r.below(6), nudp = r.below(3), nh = r.below(3), nk = r.below(3);
    S desc = fmt("j=%d logging=%d epoch=%s ckp=%s tcp=%d udp=%d hostile=%d lib=%d", s.j, logging, e.c_str(), ck.c_str(), ntcp, nudp, nh, nk);
    fz::note("%s dir=%s", desc.c_str(), s.dir.c_str());
    std::vector<Client*> cl; std::vector<Hostile*> hs; std::vector<Child> kids(nk);
    for (int i = 0; i < ntcp; ++i) cl.push_back(new Client(r.next(), i, "p" + std::to_string(i) + "/"));
    for (int i = 0; i < nudp; ++i) { cl.push_back(new Client(r.next(), ntcp + i, "u" + std::to_string(i) + "/")); cl.back()->udp_ok = true; }
    for (int i = 0; i < nh; ++i) hs.push_back(new Hostile(r.next()));
    case_hash = c.seed;
    auto cleanup = [&]() { for (auto& k : kids) if (k.pid > 0) { kill(k.pid, SIGKILL); int st; waitpid(k.pid, &st, 0); } s.kill9(); for (auto* x : cl) delete x; for (auto* x : hs) delete x; rmdir_all(s.dir); srv = nullptr; };
    try { do_case(c, s, cl, hs, kids, logging, desc); }
    catch (fz::Violation& v) { v.msg = "[" + desc + "] " + v.msg; if (v.kind != "server died") { S t = s.tail(); if (!t.empty()) v.msg += "\n---- server output ----\n" + t; } cleanup(); throw; }
    c.h = case_hash;
    cleanup();
}
static void start(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (S(argv[i]) == "--mtd" && i + 1 < argc) mtd_path = argv[++i];
    if (mtd_path.empty()) { fprintf(stderr, "--mtd PATH is needed\n"); exit(3); }
    signal(SIGPIPE, SIG_IGN);
}
namespace { struct Init { Init() { fz_at_start = start; } } init_; }
