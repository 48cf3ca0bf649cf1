// C20: String, StringAccum and Str against std::string.
#include "config.h"
#include "compiler.hh"
#include "string.hh"
#include "straccum.hh"
#include "str.hh"
#include "fuzz.hh"
#include <new>
using namespace fz;
using namespace lcdf;
static long live_arrays;
void* operator new[](size_t n) { ++live_arrays; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete[](void* p) noexcept { if (p) { --live_arrays; free(p); } }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }

template <typename T> static std::string S(const T& x) { return std::string(x.data(), x.length()); }
struct Exact {          // bytes in a heap block of exactly their size
    char* p; int n;
    explicit Exact(const std::string& s, int shift = 0) : base((char*) malloc(s.size() + shift)), n(s.size()) { p = base + shift; memcpy(p, s.data(), n); }
    ~Exact() { free(base); }
    Exact(const Exact&) = delete;
    Str str() const { return Str(p, n); }
  private: char* base;
};
static std::string gen(Rng& r, int maxlen = 40) {
    int n = r.chance(1, 6) ? r.below(4) : r.chance(1, 20) ? r.below(3000) : r.below(maxlen + 1);
    std::string s; int mode = r.below(5);
    for (int i = 0; i < n; ++i)
        s += mode == 0 ? char(r.below(256)) : mode == 1 ? "ab"[r.below(2)] : mode == 2 ? char(' ' + r.below(95)) : mode == 3 ? "\0\xff \t\na\x80"[r.below(7)] : char('0' + r.below(10));
    return s;
}
// ---------------------------------------------------------------- aliasing
struct Pool {
    struct E { String s; std::string m; };
    struct A { StringAccum a; std::string m; };
    std::vector<E> e; std::vector<A> a;
    void verify(const char* op) {
        for (size_t i = 0; i < e.size(); ++i) if (S(e[i].s) != e[i].m) fail("value", fmt("after %s, string %zu is %s, expected %s", op, i, show(S(e[i].s), 120).c_str(), show(e[i].m, 120).c_str()));
        for (size_t i = 0; i < a.size(); ++i) { if (S(a[i].a) != a[i].m) fail("value", fmt("after %s, accumulator %zu is %s, expected %s", op, i, show(S(a[i].a), 120).c_str(), show(a[i].m, 120).c_str())); if (a[i].a.capacity() < a[i].a.length() && a[i].a.length()) fail("value", "capacity below length"); }
    }
};
static std::string trims(const std::string& s, bool l, bool rt) { size_t a = 0, b = s.size(); if (l) while (a < b && isspace((unsigned char) s[a])) ++a; if (rt) while (b > a && isspace((unsigned char) s[b - 1])) --b; return s.substr(a, b - a); }
static std::string lit_string(String& s, int k) {
    switch (k) {
    case 0: s = String("literal"); return "literal";
    case 1: s = String("with\0nul", 8); return std::string("with\0nul", 8);
    case 2: s = "assigned"; return "assigned";
    case 3: s = String::make_stable("stable"); return "stable";
    case 4: s = String(true); return "true";
    case 5: s = String(false); return "false";
    case 6: s = String::make_zero(); return "0";
    case 7: s = String::make_empty(); return "";
    case 8: s = String("negative", -1); return "negative";
    case 9: s = String('\0'); return std::string(1, '\0');
    default: s = String(); return "";
    }
}
static std::string number(Rng& r, String& s) {
    char b[64]; int64_t x = r.chance(1, 2) ? (int64_t) r.below(30) - 10 : (int64_t) (r.next() >> r.below(64)); if (r.chance(1, 4)) x = -x;
    switch (r.below(7)) {
    case 0: s = String((int) x); sprintf(b, "%d", (int) x); break;
    case 1: s = String((unsigned) x); sprintf(b, "%u", (unsigned) x); break;
    case 2: s = String((long) x); sprintf(b, "%ld", (long) x); break;
    case 3: s = String((unsigned long) x); sprintf(b, "%lu", (unsigned long) x); break;
    case 4: s = String((long long) x); sprintf(b, "%lld", (long long) x); break;
    case 5: s = String((unsigned long long) x); sprintf(b, "%llu", (unsigned long long) x); break;
    default: { double d = (double) x / (1 + r.below(1000)); s = String(d); sprintf(b, "%.12g", d); }
    }
    return b;
}
static void utf8enc(std::string& s, int c) {
    if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
}
static void aliasing(Case& c) {
    Rng& r = c.r; Pool P; P.e.resize(3 + r.below(5)); P.a.resize(1 + r.below(4));
    int nops = 5 + r.below(r.chance(1, 5) ? 300 : 60);
    for (auto& x : P.e) if (r.chance(1, 2)) { x.m = gen(r); x.s = String(x.m.data(), (int) x.m.size()); }
    for (int t = 0; t < nops; ++t) {
        size_t i = r.below(P.e.size()), j = r.below(P.e.size()), k = r.below(P.a.size()), l = r.below(P.a.size());
        auto &X = P.e[i], &Y = P.e[j]; auto &A = P.a[k], &B = P.a[l];
        if (X.m.size() > 60000) { X.s = String(); X.m.clear(); } if (Y.m.size() > 60000) { Y.s = String(); Y.m.clear(); }
        if (A.m.size() > 60000) { A.a.clear(); A.m.clear(); } if (B.m.size() > 60000) { B.a.clear(); B.m.clear(); }
        size_t yn = Y.m.size(), p = r.below(yn + 1), q = p + r.below(yn - p + 1);
        size_t an = B.m.size(), ap = r.below(an + 1), aq = ap + r.below(an - ap + 1);
        int op = r.below(52); c.hash(op * 64 + i * 8 + j); c.hash(p * 1000 + q);
        if (tracing) note("step %d op %d string %zu (len %zu) string %zu (len %zu) [%zu,%zu) accumulator %zu (len %zu) %zu (len %zu) [%zu,%zu)", t, op, i, X.m.size(), j, yn, p, q, k, A.m.size(), l, an, ap, aq);
        switch (op) {
        case 0: { std::string g = gen(r); X.s = String(g.data(), (int) g.size()); X.m = g; break; }
        case 1: X.m = lit_string(X.s, r.below(12)); break;
        case 2: X.m = number(r, X.s); break;
        case 3: case 4: X.s = Y.s; X.m = Y.m; break;
        case 5: { String z(Y.s); X.s = std::move(z); X.m = Y.m; break; }
        case 6: if (i != j) { X.s = std::move(Y.s); X.m = Y.m; Y.s = String(); Y.m.clear(); } break;
        case 7: X.s = Y.s.substring(Y.s.begin() + p, Y.s.begin() + q); X.m = Y.m.substr(p, q - p); break;
        case 8: X.s = Y.s.fast_substring(Y.s.ubegin() + p, Y.s.ubegin() + q); X.m = Y.m.substr(p, q - p); break;
        case 9: { int ps = r.range(-(int) yn - 3, yn + 3), ln = r.chance(1, 8) ? (r.chance(1, 2) ? INT_MAX : INT_MIN / 2) : r.range(-(int) yn - 3, yn + 3);
            long a = ps < 0 ? ps + (long) yn : ps, b = ln < 0 ? (long) yn + ln : a + ln; if (a < 0) a = 0; if (b > (long) yn) b = yn;
            X.s = Y.s.substr(ps, ln); X.m = a < b ? Y.m.substr(a, b - a) : ""; break; }
        case 10: { int ps = r.range(-(int) yn - 3, yn + 3); long a = ps < 0 ? ps + (long) yn : ps; if (a < 0) a = 0; X.s = Y.s.substr(ps); X.m = a < (long) yn ? Y.m.substr(a) : ""; break; }
        case 11: X.s = Y.s.ltrim(); X.m = trims(Y.m, true, false); break;
        case 12: X.s = Y.s.rtrim(); X.m = trims(Y.m, false, true); break;
        case 13: X.s = Y.s.trim(); X.m = trims(Y.m, true, true); break;
        case 14: case 15: X.s.append(Y.s); { std::string y = Y.m; X.m += y; } break;
        case 16: X.s += Y.s; { std::string y = Y.m; X.m += y; } break;
        case 17: X.s.append(Y.s.data() + p, (int) (q - p)); { std::string y = Y.m.substr(p, q - p); X.m += y; } break;
        case 18: X.s.append(Y.s.begin() + p, Y.s.begin() + q); { std::string y = Y.m.substr(p, q - p); X.m += y; } break;
        case 19: X.s += Str(Y.s.data() + p, (int) (q - p)); { std::string y = Y.m.substr(p, q - p); X.m += y; } break;
        case 20: { std::string g = gen(r, 20); X.s.append(g.data(), (int) g.size()); X.m += g; break; }
        case 21: { char ch = char(r.below(256)); X.s += ch; X.m += ch; break; }
        case 22: { int n = r.below(30); X.s.append_fill('f', n); X.m.append(n, 'f'); break; }
        case 23: { int n = r.below(30); char* w = X.s.append_uninitialized(n); std::string g; for (int z = 0; z < n; ++z) g += char(r.below(256)); if (n) memcpy(w, g.data(), n); X.m += g; break; }
        case 24: X.s = Y.s + X.s; X.m = Y.m + X.m; break;
        case 25: X.s = Y.s + "tail"; X.m = Y.m + "tail"; break;
        case 26: X.s = "head" + Y.s; X.m = "head" + Y.m; break;
        case 27: X.s.swap(Y.s); std::swap(X.m, Y.m); break;
        case 28: case 29: { const char* z = X.s.c_str(); if (z[X.m.size()] != 0 || memcmp(z, X.m.data(), X.m.size())) fail("value", "c_str is not the string with a terminator"); break; }
        case 30: case 31: if (!X.m.empty()) { char* w = X.s.mutable_data(); int n = 1 + r.below(4); while (n--) { size_t at = r.below(X.m.size()); char ch = char(r.below(256)); w[at] = ch; X.m[at] = ch; } } break;
        case 32: { char* w = X.s.mutable_c_str(); if (w[X.m.size()] != 0) fail("value", "mutable_c_str is not terminated"); if (!X.m.empty()) { size_t at = r.below(X.m.size()); w[at] = '!'; X.m[at] = '!'; } break; }
        case 33: X.s = Y.s.unique(); X.m = Y.m; break;
        case 34: X.s.shrink_to_fit(); break;
        case 35: { int n = 1 << r.below(5); X.s.align(n); if ((uintptr_t) X.s.data() % n) fail("value", "align did not align"); break; }
        case 36: X.s = Str(Y.s.data() + p, (int) (q - p)); { std::string y = Y.m.substr(p, q - p); X.m = y; } break;
        case 37: X.s.assign(Y.s.begin() + p, Y.s.begin() + q); { std::string y = Y.m.substr(p, q - p); X.m = y; } break;
        case 38: X.s = Y.s.lower(); X.m = Y.m; for (auto& ch : X.m) if (ch >= 'A' && ch <= 'Z') ch += 32; break;
        case 39: X.s = Y.s.upper(); X.m = Y.m; for (auto& ch : X.m) if (ch >= 'a' && ch <= 'z') ch -= 32; break;
        // accumulators
        case 40: A.a << Y.s; A.m += Y.m; break;
        case 41: { bool self = r.chance(1, 2); if (self) A.a.append(B.a.begin() + ap, B.a.begin() + aq); else A.a.append(B.a.data() + ap, (int) (aq - ap)); std::string y = B.m.substr(ap, aq - ap); A.m += y; break; }
        case 42: A.a << B.a; { std::string y = B.m; A.m += y; } break;
        case 43: X.s = A.a.take_string(); X.m = A.m; A.m.clear(); break;
        case 44: case 45: { if (r.chance(1, 2)) A.a = StringAccum::make_transfer(Y.s); else A.a = StringAccum(std::move(Y.s)); A.m = Y.m; Y.m.clear(); break; }
        case 46: switch (r.below(6)) {
            case 0: A.a.swap(B.a); std::swap(A.m, B.m); break; case 1: A.a = B.a; A.m = B.m; break; case 2: A.a.clear(); A.m.clear(); break;
            case 3: if (k != l) { A.a = std::move(B.a); B.a.clear(); A.m = B.m; B.m.clear(); } break;
            case 4: { StringAccum z(B.a); A.a = std::move(z); A.m = B.m; break; }
            default: { StringAccum z((int) r.below(400)); z << Y.s; A.a.swap(z); A.m = Y.m; } } break;
        case 47: switch (r.below(5)) {
            case 0: { int n = r.below(A.m.size() + 1); A.a.pop_back(n); A.m.resize(A.m.size() - n); break; }
            case 1: { int n = r.below(50); char* w = A.a.extend(n, r.below(20)); memset(w, 'e', n); A.m.append(n, 'e'); break; }
            case 2: { int n = r.below(300), u = r.below(n + 1); char* w = A.a.reserve(n); memset(w, 'r', n); A.a.adjust_length(u); A.m.append(u, 'r'); break; }
            case 3: { int n = r.below(A.m.size() + 200); size_t o = A.m.size(); A.a.resize(n); if ((size_t) n > o) memset(A.a.data() + o, 'z', n - o); A.m.resize(n, 'z'); break; }
            default: { int n = r.below(40); A.a.append_fill('F', n); A.m.append(n, 'F'); } } break;
        case 48: { const char* z = A.a.c_str(); if (z[A.m.size()] != 0) fail("value", "StringAccum::c_str is not terminated"); break; }
        case 49: { String z; std::string m = number(r, z); (void) m; long v = (long) r.next() >> r.below(64); char b[64];
            switch (r.below(7)) { case 0: A.a << (int) v; sprintf(b, "%d", (int) v); break; case 1: A.a << (unsigned) v; sprintf(b, "%u", (unsigned) v); break; case 2: A.a << v; sprintf(b, "%ld", v); break; case 3: A.a << (unsigned long) v; sprintf(b, "%lu", (unsigned long) v); break; case 4: A.a << (short) v; sprintf(b, "%hd", (short) v); break; case 5: A.a << (bool) (v & 1); strcpy(b, v & 1 ? "true" : "false"); break; default: A.a << (double) v / 7; sprintf(b, "%.12g", (double) v / 7); } A.m += b; break; }
        case 50: { int n = r.below(24); std::string g(r.below(40), 'p'); char b[100]; int full = sprintf(b, "%d:%s", (int) t, g.c_str()); A.a.snprintf(n, "%d:%s", (int) t, g.c_str()); A.m.append(b, full < n ? full : n); break; }
        default: { int ch = r.chance(1, 2) ? r.below(0x110000) : r.chance(1, 2) ? r.below(0x900) : r.below(0x10000); bool valid = ch > 0 && !(ch >= 0xD800 && ch < 0xE000) && ch != 0xFFFE && ch != 0xFFFF; bool ok = A.a.append_utf8(ch); if (ok != valid) fail("value", fmt("append_utf8(U+%X) returned %d", ch, ok)); if (ok) utf8enc(A.m, ch); break; }
        }
        P.verify(fmt("op %d", op).c_str());
    }
    count("alias_ops", nops); c.nontrivial = true;
    while (!P.e.empty()) { size_t i = r.below(P.e.size()); P.e.erase(P.e.begin() + i); P.verify("destruction"); }
}
// ------------------------------------------------- functions of byte strings
static bool cls(const std::string& p, size_t i, unsigned char ch, size_t& next) {   // p[i] == '['
    size_t e = i + 1; bool neg = e < p.size() && p[e] == '^'; if (neg) ++e; if (e >= p.size()) { next = 0; return false; }
    bool f = false; do { if ((unsigned char) p[e] == ch) f = true; ++e; } while (e < p.size() && p[e] != ']');
    if (e >= p.size()) { next = 0; return false; }
    next = e + 1; return f != neg;
}
static bool globref(const std::string& s, const std::string& p) {
    std::vector<std::vector<signed char>> memo(s.size() + 1, std::vector<signed char>(p.size() + 1, -1));
    std::function<bool(size_t, size_t)> go = [&](size_t i, size_t j) -> bool {
        signed char& m = memo[i][j]; if (m >= 0) return m;
        bool v;
        if (j == p.size()) v = i == s.size();
        else if (p[j] == '*') v = go(i, j + 1) || (i < s.size() && go(i + 1, j));
        else if (i == s.size()) v = false;
        else if (p[j] == '?') v = go(i + 1, j + 1);
        else if (p[j] == '\\' && j + 1 < p.size()) v = p[j + 1] == s[i] && go(i + 1, j + 2);
        else { size_t nx = 0; bool in = p[j] == '[' && cls(p, j, s[i], nx); if (nx) v = in && go(i + 1, nx); else v = p[j] == s[i] && go(i + 1, j + 1); }
        return m = v;
    };
    return go(0, 0);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static int skipref(const std::string& s, size_t p) {
    auto b = [&](size_t i) { return i < s.size() ? (unsigned char) s[i] : 0; };
    int c = b(p); auto ct = [&](size_t i) { return b(i) >= 0x80 && b(i) < 0xC0; };
    if (c > 0 && c < 0x80) return 1; if (c < 0xC2) return 0;
    int x, n;
    if (c < 0xE0) { n = 2; x = c & 31; } else if (c < 0xF0) { n = 3; x = c & 15; } else if (c < 0xF5) { n = 4; x = c & 7; } else return 0;
    for (int i = 1; i < n; ++i) { if (!ct(p + i)) return 0; x = x << 6 | (b(p + i) & 63); }
    if (n == 3 && (x < 0x800 || (x >= 0xD800 && x < 0xE000))) return 0; if (n == 4 && (x < 0x10000 || x > 0x10FFFF)) return 0;
    return n;
}
static bool valid_utf8(const std::string& s) { for (size_t i = 0; i < s.size(); ) { int n = skipref(s, i); if (!n) return false; i += n; } return true; }
static std::string gen_utf8(Rng& r, bool cesu = false, std::string* plain = nullptr) {
    std::string s; int n = r.below(20);
    while (n-- > 0) {
        int ch; do ch = r.chance(1, 3) ? 1 + r.below(127) : r.chance(1, 2) ? 0x80 + r.below(0x780) : r.chance(1, 2) ? 0x800 + r.below(0xF7FE) : 0x10000 + r.below(0x100000); while (ch >= 0xD800 && ch < 0xE000);
        if (plain) utf8enc(*plain, ch);
        if (cesu && ch >= 0x10000) { int hi = 0xD800 + ((ch - 0x10000) >> 10), lo = 0xDC00 + ((ch - 0x10000) & 0x3FF); utf8enc(s, hi); utf8enc(s, lo); } else utf8enc(s, ch);
    }
    return s;
}
static const uint16_t cp1252[32] = {0x20AC, 0x81, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0x8D, 0x17D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0x9D, 0x17E, 0x178};
#define EQ(what, got, want) do { auto g_ = (got); auto w_ = (want); if (!(g_ == w_)) fail("value", fmt("%s", what) + desc(g_, w_)); } while (0)
static std::string desc(const std::string& a, const std::string& b) { return " gave " + show(a, 150) + ", expected " + show(b, 150); }
template <typename T> static std::string desc(T a, T b) { return " gave " + std::to_string(a) + ", expected " + std::to_string(b); }
static void functions(Case& c) {
    Rng& r = c.r; std::string a = gen(r), b;
    switch (r.below(4)) { case 0: b = gen(r); break; case 1: b = a; if (!b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); break; case 2: { size_t p = r.below(a.size() + 1); b = a.substr(p, r.below(6)); break; } default: b = a; b.resize(r.below(b.size() + 3), 'x'); }
    c.hash(a); c.hash(b); c.nontrivial = a.size() + b.size() > 2; note("functions of %s and %s", show(a).c_str(), show(b).c_str());
    Exact ea(a, r.below(4)), eb(b, r.below(4)); Str sa = ea.str(), sb = eb.str(); String ta(a.data(), (int) a.size()), tb(b.data(), (int) b.size());
    EQ("equals", sa == sb, a == b); EQ("equals", ta == sb, a == b); EQ("!=", ta != tb, a != b);
    EQ("compare", sgn(sa.compare(sb)), sgn(a.compare(b))); EQ("compare", sgn(ta.compare(tb)), sgn(a.compare(b)));
    EQ("<", ta < sb, a < b); EQ("<=", sa <= tb, a <= b); EQ(">", sa > sb, a > b); EQ(">=", ta >= tb, a >= b);
    EQ("starts_with", sa.starts_with(sb), a.compare(0, b.size(), b) == 0 && a.size() >= b.size());
    for (int z = 0; z < 4; ++z) {
        int st = z == 0 ? INT_MAX : z == 1 ? 0 : r.range(-2, a.size() + 2); char ch = r.chance(1, 2) && !a.empty() ? a[r.below(a.size())] : char(r.below(256));
        size_t f; size_t st0 = st < 0 ? 0 : st;
        f = st0 > a.size() ? std::string::npos : a.find(b, st0); EQ(fmt("find_left(%s, %d) in %s", show(b).c_str(), st, show(a).c_str()).c_str(), sa.find_left(sb, st), f == std::string::npos ? -1 : (int) f);
        f = st0 > a.size() ? std::string::npos : a.find(ch, st0); EQ("find_left of a character", sa.find_left(ch, st), f == std::string::npos ? -1 : (int) f);
        f = st < 0 ? std::string::npos : a.rfind(b, st); EQ(fmt("find_right(%s, %d) in %s", show(b).c_str(), st, show(a).c_str()).c_str(), sa.find_right(sb, st), f == std::string::npos ? -1 : (int) f);
        f = st < 0 ? std::string::npos : a.rfind(ch, st); EQ("find_right of a character", sa.find_right(ch, st), f == std::string::npos ? -1 : (int) f);
    }
    hashcode_t h = sa.hashcode(); EQ("hashcode", ta.hashcode(), h); for (int z = 0; z < 5; ++z) { Exact e(a, z); EQ("hashcode at another alignment", e.str().hashcode(), h); }
    if (a == b) EQ("hashcode of equal strings", tb.hashcode(), h);
    int nab = sa.natural_compare(sb), nba = sb.natural_compare(sa); if ((nab == 0) != (a == b) || sgn(nab) != -sgn(nba)) fail("value", fmt("natural_compare(%s, %s) = %d, the other way %d", show(a).c_str(), show(b).c_str(), nab, nba));
    EQ("ltrim", S(sa.ltrim()), trims(a, true, false)); EQ("rtrim", S(sa.rtrim()), trims(a, false, true)); EQ("trim", S(sa.trim()), trims(a, true, true));
    { size_t p = r.below(a.size() + 1), q = p + r.below(a.size() - p + 1); EQ("Str::substring", S(sa.substring(sa.s + p, sa.s + q)), a.substr(p, q - p)); EQ("prefix", S(sa.prefix(p)), a.substr(0, p)); }
    // printable, hex, base64, uri
    for (int ty = 0; ty < 3; ++ty) { std::string w; bool plain = true; for (unsigned char ch : a) plain = plain && ch >= 32 && ch < 127;
        for (unsigned char ch : a) { char o[8]; sprintf(o, "\\%03o", ch); if (ty == 2 && (ch == '\\' || ch == '"')) w += '\\', w += ch; else if (ch >= 32 && ch < 127) w += ch; else if (ch < 32 && ty == 2) { if (ch >= 9 && ch <= 13) w += '\\', w += "tnvfr"[ch - 9]; else w += o; } else if (ch < 32 && ty == 0) w += '^', w += char(ch + 64); else w += o; }
        EQ("printable", S(ta.printable(ty)), w); }
    { std::string w; char o[4]; for (unsigned char ch : a) { sprintf(o, "%02X", ch); w += o; } EQ("to_hex", S(ta.to_hex()), w); }
    { static const char t64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string w; size_t i = 0; unsigned acc = 0; int bits = 0; for (; i < a.size(); ++i) { acc = acc << 8 | (unsigned char) a[i]; bits += 8; while (bits >= 6) { w += t64[(acc >> (bits - 6)) & 63]; bits -= 6; } acc &= 255; } if (bits) w += t64[(acc << (6 - bits)) & 63];
      std::string pad = w; while (pad.size() % 4) pad += '=';
      EQ("encode_base64", S(ta.encode_base64()), w); EQ("encode_base64(pad)", S(ta.encode_base64(true)), pad);
      std::string x = r.chance(1, 2) ? pad : w; bool bad = false; if (r.chance(1, 3) && !w.empty()) { x = w; size_t at = r.below(x.size()); x[at] = char(r.below(256)); bad = !strchr(t64, x[at]) || !x[at]; if (x[at] == '=' && at + 1 == x.size()) { x.resize(at); bad = x.size() % 4 == 1; } else if (x[at] == '=') bad = true; }
      Exact ex(x); StringAccum o; o << "pre"; bool ok = ex.str().decode_base64(o); if (ok == bad) fail("value", fmt("decode_base64(%s) returned %d", show(x).c_str(), ok)); if (ok && x != w && x != pad) {} else if (ok) EQ("decode_base64", S(o), "pre" + a); else EQ("failed decode_base64", S(o), std::string("pre")); }
    { std::string w; char o[4]; for (unsigned char ch : a) if (isalnum(ch) || strchr("-_.~", ch)) { if (ch) w += ch; else w += "%00"; } else { sprintf(o, "%%%02X", ch); w += o; } EQ("encode_uri_component", S(ta.encode_uri_component()), w); }
    // conversions to UTF-8
    { std::string w; for (unsigned char ch : a) if (ch) utf8enc(w, ch >= 128 && ch < 160 ? cp1252[ch - 128] : ch); EQ("windows1252_to_utf8", S(ta.windows1252_to_utf8()), w); }
    for (int fl = 0; fl < 8; ++fl) {
        for (auto t : {ta.cesu8_to_utf8(fl), ta.utf8_to_utf8(fl), ta.to_utf8(fl), ta.utf16be_to_utf8(fl), ta.utf16le_to_utf8(fl), ta.utf16_to_utf8(fl)}) { std::string g = S(t); bool ok = valid_utf8(g); if (!ok) fail("value", "conversion to UTF-8 of " + show(a) + fmt(" with flags %d gave ", fl) + show(g)); }
        for (int le = 0; le < 2; ++le) { std::string w; auto u = [&](size_t i) { return le ? (unsigned char) a[i] | (unsigned char) a[i + 1] << 8 : (unsigned char) a[i] << 8 | (unsigned char) a[i + 1]; }; size_t n = a.size() & ~size_t(1), i = 0; if ((fl & 1) && n && u(0) == 0xFEFF) i = 2;
            for (; i < n; i += 2) { int x = u(i); if (x < 0xD800 || x >= 0xE000) { if (x && x < 0xFFFE) utf8enc(w, x); } else if (x < 0xDC00 && i + 2 < n && u(i + 2) >= 0xDC00 && u(i + 2) < 0xE000) { utf8enc(w, 0x10000 + ((x - 0xD800) << 10) + (u(i + 2) - 0xDC00)); i += 2; } else if (fl & 2) utf8enc(w, 0xFFFD); }
            EQ("utf16 conversion", S(le ? ta.utf16le_to_utf8(fl) : ta.utf16be_to_utf8(fl)), w);
            if (a.size() >= 2) { int x = (unsigned char) a[0] << 8 | (unsigned char) a[1]; bool be = x == 0xFEFF || (x != 0xFFFE && !(fl & 4)); if (be == !le) EQ("utf16_to_utf8", S(ta.utf16_to_utf8(fl)), w); } }
    }
    { std::string plain, cs = gen_utf8(r, true, &plain); String tc(cs.data(), (int) cs.size()), tp(plain.data(), (int) plain.size()); EQ("cesu8_to_utf8", S(tc.cesu8_to_utf8()), plain); EQ("cesu8_to_utf8 of UTF-8", S(tp.cesu8_to_utf8()), plain); EQ("utf8_to_utf8", S(tp.utf8_to_utf8()), plain); EQ("to_utf8", S(tp.to_utf8()), plain);
      std::string bom = "\xEF\xBB\xBF" + plain; String tbm(bom.data(), (int) bom.size()); EQ("utf8_to_utf8 with byte order mark", S(tbm.utf8_to_utf8(1)), plain); EQ("cesu8_to_utf8 with byte order mark", S(tbm.cesu8_to_utf8(1)), plain); }
    { std::string u = r.chance(1, 2) ? gen_utf8(r) : a; if (!u.empty() && r.chance(1, 2)) u[r.below(u.size())] ^= 1 << r.below(8); if (!u.empty() && r.chance(1, 2)) u.resize(1 + r.below(u.size())); Exact eu(u); for (size_t i = 0; i < u.size(); ++i) EQ("skip_utf8_char", (int) (String::skip_utf8_char(eu.p + i, eu.p + u.size()) - (eu.p + i)), skipref(u, i)); }
    count("function_cases");
}
static void numbers_and_globs(Case& c) {
    Rng& r = c.r; c.nontrivial = true;
    if (r.chance(1, 3)) {   // integers
        std::string d; int n = 1 + r.below(18); for (int i = 0; i < n; ++i) d += char('0' + r.below(10)); if (r.chance(1, 5)) d = "922337203685477580"; std::string sign = r.chance(1, 3) ? "-" : r.chance(1, 4) ? "+" : ""; std::string tail = r.chance(1, 3) ? gen(r, 3) : ""; std::string s = sign + d + (tail.empty() || isdigit((unsigned char) tail[0]) ? "" : tail); if (r.chance(1, 10)) s = tail;
        c.hash(s); note("to_i %s", show(s).c_str()); Exact e(s); String t(s.data(), (int) s.size()); size_t p = 0; bool neg = false; if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-'; unsigned long x = 0; int digs = 0; for (; p < s.size() && isdigit((unsigned char) s[p]) && digs < 19; ++p, ++digs) x = x * 10 + s[p] - '0'; if (digs == 19 && s.find("9223372036854775807") == std::string::npos) return;
        EQ("to_i", t.to_i(), digs ? (neg ? -(long) x : (long) x) : 0L); bool all = !s.empty(); for (char ch : s) all = all && isdigit((unsigned char) ch); EQ("Str::to_i", e.str().to_i(), all ? (long) x : -1L);
        // natural order of numbers
        unsigned long y = r.next() >> (1 + r.below(63)); std::string u = std::to_string(x), v = std::to_string(y), pre = r.chance(1, 2) ? "n" : "", post = r.chance(1, 2) ? " z" : ""; std::string ux = pre + u + post, vx = pre + v + post; Exact eu(ux), ev(vx); EQ("natural_compare of numbers", sgn(eu.str().natural_compare(ev.str())), x < y ? -1 : x > y);
        char buf[32]; memset(buf, '#', sizeof buf); int sz = 1 + r.below(31); Str w = Str::snprintf(buf, sz, "%s", ux.c_str()); EQ("Str::snprintf", S(w), ux.substr(0, sz - 1));
        for (int z = 0; z < 8; ++z) { std::string f, g; const char al[] = "0011259. -a."; int fn = r.below(9), gn = r.below(9); while (fn-- > 0) f += al[r.below(12)]; g = f.substr(0, r.below(f.size() + 1)); while (gn-- > 0) g += al[r.below(12)]; Exact ef(f), eg(g); int nab = ef.str().natural_compare(eg.str()), nba = eg.str().natural_compare(ef.str()); if ((nab == 0) != (f == g) || sgn(nab) != -sgn(nba)) fail("value", fmt("natural_compare(%s, %s) = %d, the other way %d", show(f).c_str(), show(g).c_str(), nab, nba)); }
    } else if (r.chance(3, 4)) {
        std::string s, p; const char al[] = "abc]["; int n = r.below(12); while (n-- > 0) s += al[r.below(r.chance(1, 4) ? 5 : 3)]; const char pl[] = "aabbc*?[]^\\*?[]"; n = r.below(12); while (n-- > 0) p += pl[r.below(15)];
        if (r.chance(1, 2)) { p.clear(); for (char ch : s) switch (r.below(9)) { case 0: p += '?'; break; case 1: p += '*'; break; case 2: p += std::string("[") + (r.chance(1, 3) ? "^" : "") + (r.chance(1, 2) ? ch : 'c') + (r.chance(1, 2) ? "b" : "") + "]"; break; case 3: p += '\\'; p += ch; break; default: p += ch; } }
        c.hash(s); c.hash(p); note("glob %s %s", show(s).c_str(), show(p).c_str()); Exact es(s), ep(p); EQ(fmt("glob_match(%s, %s)", show(s).c_str(), show(p).c_str()).c_str(), es.str().glob_match(ep.str()), globref(s, p)); count("globs");
    } else {        // joining and breaking lines
        std::string t = gen(r, 200); for (auto& ch : t) if (r.chance(1, 5)) ch = ' '; c.hash(t); StringAccum sa; int w = r.below(60); String txt(t.data(), (int) t.size()); sa.append_break_lines(txt, w, r.chance(1, 2) ? String("  ") : String()); note("break lines %s at %d", show(t).c_str(), w);
        auto words = [](const std::string& x) { std::vector<std::string> v; std::string cur; for (unsigned char ch : x) if (isspace(ch)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) v.push_back(cur); return v; };
        if (words(S(sa)) != words(t)) fail("value", "append_break_lines lost or changed words of " + show(t) + ": " + show(S(sa)));
        std::vector<String> v; std::string m; int n = r.below(6); for (int i = 0; i < n; ++i) { std::string g = gen(r, 8); v.push_back(String(g.data(), (int) g.size())); if (i) m += ", "; m += g; } StringAccum sj; sj.append_join(String(", "), v); EQ("append_join", S(sj), m);
    }
}
void run_case(Case& c) {
    long before = live_arrays;
    switch (c.r.below(5)) { case 0: case 1: case 2: aliasing(c); break; case 3: functions(c); break; default: for (int i = 0; i < 6; ++i) numbers_and_globs(c); }
    if (live_arrays != before) fail("leak", fmt("%ld blocks of string memory not released", live_arrays - before));
}
