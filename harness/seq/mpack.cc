// C18: MessagePack encoder, trusting parser and streaming parser against an
// independent reference encoder/decoder.
#include "config.h"
#include "compiler.hh"
#include "msgpack.hh"
#include "jv.hh"
#include <memory>
using namespace fz;
static const size_t MAXDEPTH = 2048;
static void be(std::string& s, uint64_t x, int n) { for (int i = n - 1; i >= 0; --i) s += char(x >> (8 * i)); }
static uint64_t rbe(const std::string& s, size_t p, int n) { uint64_t x = 0; for (int i = 0; i < n; ++i) x = x << 8 | (uint8_t) s[p + i]; return x; }

// reference encoder: any legal form for each value
static void enc_str(std::string& s, const std::string& x, Rng& r) {
    size_t n = x.size(); std::vector<int> c;
    if (n < 32) c.push_back(0);
    if (n < 256) c.push_back(1), c.push_back(4);
    if (n < 65536) c.push_back(2), c.push_back(5);
    c.push_back(3); c.push_back(6);
    switch (c[r.below(c.size())]) {
    case 0: s += char(0xA0 + n); break;
    case 1: s += char(0xD9); be(s, n, 1); break; case 2: s += char(0xDA); be(s, n, 2); break; case 3: s += char(0xDB); be(s, n, 4); break;
    case 4: s += char(0xC4); be(s, n, 1); break; case 5: s += char(0xC5); be(s, n, 2); break; case 6: s += char(0xC6); be(s, n, 4); break;
    }
    s += x;
}
static void enc_int(std::string& s, __int128 x, Rng& r) {
    std::vector<int> c;
    if (x >= -32 && x < 128) c.push_back(0), c.push_back(0);
    if (x >= 0 && x < 256) c.push_back(0xCC); if (x >= 0 && x < 65536) c.push_back(0xCD); if (x >= 0 && x < ((__int128) 1 << 32)) c.push_back(0xCE); if (x >= 0) c.push_back(0xCF);
    if (x >= -128 && x < 128) c.push_back(0xD0); if (x >= -32768 && x < 32768) c.push_back(0xD1); if (x >= INT32_MIN && x <= INT32_MAX) c.push_back(0xD2); if (x <= INT64_MAX) c.push_back(0xD3);
    int f = c[r.below(c.size())];
    if (!f) s += char(int(x)); else { s += char(f); be(s, (uint64_t) x, 1 << ((f - 0xCC) & 3)); }
}
static void enc(std::string& s, const V& v, Rng& r) {
    switch (v.t) {
    case V::Null: s += char(0xC0); break;
    case V::Bool: s += char(0xC2 + v.b); break;
    case V::Int: enc_int(s, v.i, r); break;
    case V::Dbl: { float f = (float) v.d; if (v.d == v.d && (double) f == v.d && r.chance(1, 2)) { uint32_t u; memcpy(&u, &f, 4); s += char(0xCA); be(s, u, 4); } else { uint64_t u; memcpy(&u, &v.d, 8); s += char(0xCB); be(s, u, 8); } break; }
    case V::S: enc_str(s, v.s, r); break;
    case V::A: case V::O: {
        size_t n = v.t == V::A ? v.a.size() : v.o.size(); int k = r.below(3);
        if (n < 16 && k == 0) s += char((v.t == V::A ? 0x90 : 0x80) + n); else if (n < 65536 && k < 2) { s += char(v.t == V::A ? 0xDC : 0xDE); be(s, n, 2); } else { s += char(v.t == V::A ? 0xDD : 0xDF); be(s, n, 4); }
        if (v.t == V::A) for (auto& x : v.a) enc(s, x, r);
        else for (auto& p : v.o) {
            if (!p.first.empty() && p.first.size() < 5 && p.first.find_first_not_of("0123456789") == std::string::npos && (p.first[0] != '0' || p.first.size() == 1) && r.chance(1, 4)) { enc_int(s, atoi(p.first.c_str()), r); count("integer_map_keys"); }
            else enc_str(s, p.first, r);
            enc(s, p.second, r);
        }
        break; }
    }
}
// reference decoder
enum St { OK, ERR, MORE };
static const char* stname[] = {"success", "error", "more input"};
struct Dec {
    const std::string& s; size_t p = 0; size_t nodes = 0; bool toobig = false;
    explicit Dec(const std::string& x) : s(x) {}
    bool need(size_t n) { return s.size() - p >= n; }
    St val(V& v, size_t depth, bool key) {
        if (p >= s.size()) return MORE;
        uint8_t c = s[p]; size_t n = 0; int hb = 0;
        ++nodes;
        if (c < 0x80 || c >= 0xE0) { ++p; v = V::integer((int8_t) c); return OK; }
        if (c == 0xC0) { ++p; v = V(); return key ? ERR : OK; }
        if (c == 0xC2 || c == 0xC3) { ++p; v = V::boolean(c & 1); return key ? ERR : OK; }
        static const int hlen[] = {0,0,0,0, 2,3,5, 0,0,0, 5,9, 2,3,5,9,2,3,5,9, 0,0,0,0,0, 2,3,5, 3,5, 3,5};
        int kind; // 0 str 1 arr 2 map
        if (c >= 0xA0 && c < 0xC0) { n = c - 0xA0; kind = 0; ++p; }
        else if (c >= 0x90 && c < 0xA0) { n = c - 0x90; kind = 1; ++p; }
        else if (c >= 0x80 && c < 0x90) { n = c - 0x80; kind = 2; ++p; }
        else {
            hb = hlen[c - 0xC0];
            if (!hb) return ERR;
            if (!need(hb)) { p = s.size(); return MORE; }
            p += hb; n = hb == 9 ? 0 : rbe(s, p - hb + 1, hb - 1);
            if (c == 0xCA) { uint32_t u = n; float f; memcpy(&f, &u, 4); v = V::dbl(f); return key ? ERR : OK; }
            if (c == 0xCB) { uint64_t u = rbe(s, p - 8, 8); double d; memcpy(&d, &u, 8); v = V::dbl(d); return key ? ERR : OK; }
            if (c >= 0xCC && c <= 0xCF) { v = V::integer(rbe(s, p - (hb - 1), hb - 1)); return OK; }
            if (c >= 0xD0 && c <= 0xD3) { uint64_t u = rbe(s, p - (hb - 1), hb - 1); int sh = 64 - 8 * (hb - 1); v = V::integer((int64_t) (u << sh) >> sh); return OK; }
            kind = c <= 0xC6 || (c >= 0xD9 && c <= 0xDB) ? 0 : c <= 0xDD ? 1 : 2;
        }
        if (n > INT32_MAX) return ERR;     // lengths are limited to 31 bits
        if (kind == 0) { if (!need(n)) { p = s.size(); return MORE; } v = V::str(s.substr(p, n)); p += n; return OK; }
        if (key) return ERR;
        if (n && depth >= MAXDEPTH) return ERR;
        v = kind == 1 ? V::arr() : V::obj();
        for (size_t i = 0; i < n; ++i) {
            if (kind == 1) { v.a.emplace_back(); if (St st = val(v.a.back(), depth + 1, false)) return st; }
            else {
                V k; if (St st = val(k, depth + 1, true)) return st;
                std::string ks = k.t == V::S ? k.s : istr(k.i);
                V x; if (St st = val(x, depth + 1, false)) return st;
                v.at(ks) = std::move(x);
            }
        }
        return OK;
    }
};
static std::string hexs(const std::string& s) { std::string o; for (size_t i = 0; i < s.size() && i < 120; ++i) o += fmt("%02x", (uint8_t) s[i]); return o + (s.size() > 120 ? "..." : ""); }

struct Buf { char* p; size_t n; Buf(const char* s, size_t len) : p((char*) malloc(len ? len : 1)), n(len) { memcpy(p, s, len); } ~Buf() { free(p); } };
// Feed bytes to a streaming parser from exact-size buffers in chunks.
static St feed(msgpack::streaming_parser& sp, const std::string& in, Rng& r, int how, size_t& used, Json& out) {
    used = 0;
    std::unique_ptr<String> keep;
    int dry = 0;
    while (!sp.done() && used < in.size()) {
        size_t n;
        if (how == 0) n = in.size() - used; else if (how == 1) n = 1; else if (how == 2) n = 1 + r.below(9); else n = 1 + r.below(r.chance(1, 2) ? 40 : 5000);
        n = std::min(n, in.size() - used);
        size_t got;
        if (r.chance(1, 3)) { String s(in.data() + used, n); got = sp.consume(s.begin(), s.end(), s) - s.begin(); }
        else { Buf b(in.data() + used, n); got = sp.consume(b.p, n); }
        if (got > n) fail("consumed", fmt("parser consumed %zu of %zu bytes", got, n));
        if (!got && ++dry > 3 && !sp.done()) fail("stuck", fmt("parser makes no progress at byte %zu of %s", used, hexs(in).c_str()));
        if (got) dry = 0;
        used += got;
        if (r.chance(1, 8)) { Buf b("", 0); size_t g = sp.consume(b.p, (size_t) 0); if (g) fail("consumed", "parser consumed bytes of an empty chunk"); }
    }
    if (sp.success() && sp.error()) fail("state", "parser reports success and error");
    if (sp.success()) { out = sp.result(); return OK; }
    return sp.error() ? ERR : MORE;
}
static void check_stream(const std::string& in, Rng& r, int tries) {
    Dec d(in); V v; St st = d.val(v, 0, false);
    count(st == OK ? "streams_valid" : st == ERR ? "streams_invalid" : "streams_incomplete");
    for (int t = 0; t < tries; ++t) {
        int how = t == 0 ? 0 : t == 1 ? 1 : 2 + r.below(2);
        if (how == 1 && in.size() > 3000) how = 3;
        msgpack::streaming_parser sp; size_t used; Json j;
        if (!sp.empty()) fail("state", "fresh parser is not empty");
        int nreset = r.below(3);
        for (int k = 0; k < nreset; ++k) {   // leave it in some earlier state first
            std::string pre; int budget = 12; GenOpt g; enc(pre, gen_value(r, 3, budget, g), r);
            if (pre.size() > 2000) continue;
            pre.resize(r.below(pre.size() + 1)); Json x; feed(sp, pre, r, r.below(4), used, x); sp.reset();
            if (!sp.empty() || sp.done()) fail("state", "parser is not empty after reset");
            if (r.chance(1, 2)) sp.result() = Json();
        }
        St got = feed(sp, in, r, how, used, j);
        count("parses");
        if (in.empty()) continue;
        if (got != st) fail("verdict", fmt("%s expected, %s reported (chunking %d) for %zu bytes %s", stname[st], stname[got], how, in.size(), hexs(in).c_str()));
        if (st == OK) {
            if (used != d.p) fail("consumed", fmt("%zu bytes consumed, the value has %zu: %s", used, d.p, hexs(in).c_str()));
            std::string df = diff(v, j); if (!df.empty()) fail("value", df + " for " + hexs(in));
        }
    }
    if (st == OK) {
        String s(in.data(), in.size()); Json j = msgpack::parse(s); { Json drop; using std::swap; String other = s; s = String(); }
        std::string df = diff(v, j); if (!df.empty()) fail("value", "parse(): " + df);
        Buf b(in.data(), in.size());
        Json j2 = msgpack::parse(b.p, b.p + b.n); df = diff(v, j2); if (!df.empty()) fail("value", "parse(range): " + df);
        { msgpack::parser p(b.p); Json j3; p >> j3; df = diff(v, j3); if (!df.empty()) fail("value", "parser: " + df); if (p.position() != b.p + d.p) fail("consumed", fmt("parser >> Json moved %d of %zu bytes", (int) (p.position() - b.p), d.p)); }
    }
}
static void roundtrip(const V& v, Rng& r) {
    Json j = to_json(v, r);
    String s = msgpack::unparse(j);
    std::string bytes(s.data(), s.length());
    Dec d(bytes); V back; St st = d.val(back, 0, false);
    if (st != OK || d.p != bytes.size()) fail("encoding", fmt("the encoding of %s is not one value (%s, %zu of %zu bytes): %s", vshow(v).c_str(), stname[st], d.p, bytes.size(), hexs(bytes).c_str()));
    Json bj = to_json(back, r); std::string df = diff(v, bj); if (!df.empty()) fail("encoding", "encoding denotes another value: " + df + ": " + hexs(bytes));
    StringAccum sa; msgpack::unparser<StringAccum> up(sa); up << j; if (std::string(sa.data(), sa.length()) != bytes) fail("encoding", "unparser and unparse() differ");
    check_stream(bytes, r, 2);
    count("roundtrips");
}
template <typename T> static void prim_int(T x, Rng& r, StringAccum& sa, std::vector<std::function<void(msgpack::parser&)>>& rd, std::vector<V>& exp) {
    msgpack::unparser<StringAccum> up(sa); up << x; exp.push_back(V::integer(x));
    rd.push_back([x](msgpack::parser& p) { T y = 0; p >> y; if (y != x) fail("primitive", "integer " + istr(x) + " read back as " + istr(y)); });
}
static void primitives(Case& c) {
    Rng& r = c.r; StringAccum sa; msgpack::unparser<StringAccum> up(sa);
    std::vector<std::function<void(msgpack::parser&)>> rd; std::vector<V> exp; std::vector<bool> skippable;
    int n = 1 + r.below(30);
    if (r.chance(1, 2)) { n = r.chance(1, 2) ? r.below(20) : r.chance(1, 60) ? 65530 + r.below(12) : 10 + r.below(300); }
    bool arr = r.chance(1, 2); unsigned hdr = n;
    if (arr) { if (r.chance(1, 2)) up << msgpack::array(n); else up.write_array_header(n); }
    if (n > 400) { for (int i = 0; i < n; ++i) { up << (int) (i & 127); exp.push_back(V::integer(i & 127)); } }
    else for (int i = 0; i < n; ++i) {
        __int128 x = gen_int(r);
        switch (r.below(11)) {
        case 0: prim_int<int>((int) x, r, sa, rd, exp); break;
        case 1: prim_int<unsigned>((unsigned) x, r, sa, rd, exp); break;
        case 2: prim_int<long>((long) x, r, sa, rd, exp); break;
        case 3: prim_int<unsigned long>((unsigned long) x, r, sa, rd, exp); break;
        case 4: prim_int<long long>((long long) x, r, sa, rd, exp); break;
        case 5: prim_int<unsigned long long>((unsigned long long) x, r, sa, rd, exp); break;
        case 6: { double d = gen_dbl(r, false); up << d; exp.push_back(V::dbl(d)); rd.push_back([d](msgpack::parser& p) { double e; p >> e; if (!dsame(d, e)) fail("primitive", "double differs"); }); break; }
        case 7: { int64_t s = (int64_t) x; up.write_wide(s); exp.push_back(V::integer(s)); rd.push_back([s](msgpack::parser& p) { int64_t y; p >> y; if (y != s) fail("primitive", "wide integer differs"); }); break; }
        case 8: { uint64_t s = (uint64_t) x; up.write_wide(s); exp.push_back(V::integer(s)); rd.push_back([s](msgpack::parser& p) { uint64_t y; p >> y; if (y != s) fail("primitive", "wide unsigned differs"); }); break; }
        case 9: if (r.chance(1, 2)) { up.null(); exp.push_back(V()); rd.push_back([](msgpack::parser& p) { if (!p.try_read_null()) fail("primitive", "null not read back"); }); }
                else { bool b = r.chance(1, 2); up << Json(b); exp.push_back(V::boolean(b)); rd.push_back([b](msgpack::parser& p) { bool e = !b; if (p.try_read_null()) fail("primitive", "null read"); p >> e; if (e != b) fail("primitive", "bool differs"); }); } break;
        default: { std::string s = gen_str(r, false); if (r.chance(1, 2)) up << Str(s.data(), s.size()); else up << String(s.data(), s.size()); exp.push_back(V::str(s));
            bool w = r.chance(1, 2);
            rd.push_back([s, w](msgpack::parser& p) { std::string g; if (w) { Str x; p >> x; g.assign(x.s, x.len); } else { String x; p >> x; g.assign(x.data(), x.length()); } if (g != s) fail("primitive", "string differs"); }); break; }
        }
    }
    std::string bytes(sa.data(), sa.length());
    c.hash(bytes);
    note("primitives: %s", hexs(bytes).c_str());
    std::vector<size_t> off;
    { Dec d(bytes); size_t i = 0;
      if (arr) { V v; if (d.val(v, 0, false) != OK || d.p != bytes.size() || v.t != V::A) fail("encoding", "array of primitives is not one array: " + hexs(bytes)); d.p = 0; uint8_t h = bytes[0]; d.p = h == 0xDC ? 3 : h == 0xDD ? 5 : 1; }
      off.push_back(d.p);
      for (; d.p < bytes.size(); ++i) { V v; if (d.val(v, 0, false) != OK || i >= exp.size()) fail("encoding", fmt("primitive %zu cannot be decoded: %s", i, hexs(bytes).c_str())); Json j = to_json(v, r); std::string df = diff(exp[i], j); if (!df.empty()) fail("encoding", df); off.push_back(d.p); }
      if (i != exp.size()) fail("encoding", "another number of primitives"); }
    auto start = [&](const Buf& b, msgpack::parser& p) { if (arr) { if (r.chance(1, 2)) p.skip_array_size(); else { unsigned s = 12345; p.read_array_header(s); if (s != hdr) fail("primitive", fmt("array of %u read as %u", hdr, s)); } } };
    if (!rd.empty() || exp.empty()) {
        Buf b(bytes.data(), bytes.size()); String str(bytes.data(), bytes.size());
        bool own = r.chance(1, 2);
        msgpack::parser p = own ? msgpack::parser(str) : msgpack::parser(b.p); const char* base = own ? str.begin() : b.p;
        start(b, p);
        for (size_t i = 0; i < rd.size(); ++i) { rd[i](p); if (p.position() != base + off[i + 1]) fail("primitive", fmt("value %zu: parser at byte %d, expected %zu of %s", i, (int) (p.position() - base), off[i + 1], hexs(bytes).c_str())); }
        count("primitive_reads", rd.size());
    }
    { Buf b(bytes.data(), bytes.size()); msgpack::parser p(b.p); start(b, p); size_t i = 0;
      while (i < exp.size()) { unsigned k = 1 + r.below(exp.size() - i); if (k == 1) p.skip_primitive(); else p.skip_primitives(k); i += k; if (p.position() != b.p + off[i]) fail("primitive", fmt("skipping to value %zu: parser at byte %d, expected %zu of %s", i, (int) (p.position() - b.p), off[i], hexs(bytes).c_str())); }
      count("primitive_skips", exp.size()); }
    c.nontrivial = n > 3;
}
static void mutate(std::string& s, Rng& r) {
    static const uint8_t ty[] = {0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc4, 0xc5, 0xc6, 0xc7, 0xc9, 0xca, 0xcb, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x7f, 0x00};
    int n = 1 + r.below(4);
    for (int i = 0; i < n && !s.empty(); ++i) {
        size_t p = r.below(s.size());
        switch (r.below(7)) {
        case 0: s[p] = char(r.below(256)); break;
        case 1: s[p] = char(ty[r.below(sizeof ty)]); break;
        case 2: s.resize(p); break;
        case 3: s.insert(p, 1, char(ty[r.below(sizeof ty)])); break;
        case 4: s.erase(p, 1 + r.below(4)); break;
        case 5: { std::string h(1, char((uint8_t[]){0xdd, 0xdf, 0xdb, 0xc6, 0xdc, 0xde, 0xda}[r.below(7)])); be(h, r.chance(1, 2) ? 0x80000000ull + r.below(5) - 2 : r.chance(1, 2) ? 0xffffffffull - r.below(3) : r.below(1 << 20), (uint8_t) h[0] == 0xdc || (uint8_t) h[0] == 0xde || (uint8_t) h[0] == 0xda ? 2 : 4); s.insert(p, h); break; }
        default: s += s.substr(p, 30); break;
        }
    }
}
void run_case(Case& c) {
    Rng& r = c.r; GenOpt g;
    int budget = r.chance(1, 2) ? 15 : 150;
    switch (r.below(6)) {
    case 0: { V v = gen_value(r, 1 + r.below(6), budget, g); note("roundtrip %s", vshow(v).c_str()); c.hash(vshow(v)); roundtrip(v, r); c.nontrivial = v.t >= V::A; break; }
    case 1: { V v = gen_value(r, 1 + r.below(6), budget, g); std::string s; enc(s, v, r); size_t n = s.size(); if (r.chance(1, 2)) s += gen_str(r, false, 20); note("stream %s", hexs(s).c_str()); c.hash(s);
        check_stream(s, r, 4); c.nontrivial = n > 8; break; }
    case 2: { V v = gen_value(r, 1 + r.below(6), budget, g); std::string s; enc(s, v, r); if (s.size() > 20000) s.resize(20000); mutate(s, r); note("mutated %s", hexs(s).c_str()); c.hash(s); check_stream(s, r, 4); c.nontrivial = s.size() > 8; break; }
    case 3: { // raw bytes, biased to container headers; sometimes very deep
        std::string s; int style = r.below(6); size_t n = style == 0 ? 1 + r.below(6) : style == 1 && r.chance(1, 10) ? 1000 + r.below(300000) : r.below(60);
        for (size_t i = 0; i < n; ++i) s += style == 1 ? char(r.chance(1, 2000) ? 0x01 : (uint8_t) 0x91) : style == 2 ? char((uint8_t[]){0x81, 0x01, 0x91, 0x92, 0xa1, 0xdc, 0x00}[r.below(7)]) : char(r.below(r.chance(1, 2) ? 256 : 0x40) + (r.chance(1, 2) ? 0 : 0xa0));
        note("raw %s", hexs(s).c_str()); c.hash(s); check_stream(s, r, style == 1 ? 2 : 4); c.nontrivial = n > 8; break; }
    case 4: primitives(c); break;
    default: { // a stream of messages through one parser, as the server reads them
        std::vector<V> vs; std::string s; int n = 1 + r.below(8);
        for (int i = 0; i < n; ++i) { int b = 20; vs.push_back(gen_value(r, 3, b, g)); enc(s, vs.back(), r); }
        c.hash(s); c.nontrivial = n > 1; note("%d messages, %zu bytes", n, s.size());
        msgpack::streaming_parser sp; size_t pos = 0; std::vector<Json> kept; size_t k = 0; bool swapit = r.chance(1, 2);
        while (pos < s.size()) {
            size_t n = std::min<size_t>(s.size() - pos, 1 + r.below(r.chance(1, 2) ? 10 : 3000));
            String buf(s.data() + pos, n); const char* x = buf.begin();
            while (x != buf.end()) {
                x = sp.consume(x, buf.end(), r.chance(1, 2) ? buf : String());
                if (sp.error()) fail("verdict", fmt("error in message %zu of a valid stream", k));
                if (sp.success()) { if (k >= vs.size()) fail("verdict", "extra message"); Json j; if (swapit) { using std::swap; swap(j, sp.result()); } else j = sp.result(); kept.push_back(j); ++k; sp.reset(); }
            }
            pos += n;
        }
        // a value that ends exactly at the end of input but needs an empty consume to be noticed is not acceptable
        if (k != vs.size()) fail("verdict", fmt("%zu of %zu messages parsed", k, vs.size()));
        for (size_t i = 0; i < k; ++i) { std::string df = diff(vs[i], kept[i]); if (!df.empty()) fail("value", fmt("message %zu: ", i) + df); }
        count("stream_messages", k); break; }
    }
}
