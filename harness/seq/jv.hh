// A plain value model shared by the MessagePack and JSON harnesses.
#pragma once
#include "fuzz.hh"
#include "json.hh"
using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum;
struct V {
    enum T { Null, Bool, Int, Dbl, S, A, O } t = Null;
    bool b = false; __int128 i = 0; double d = 0; std::string s;
    std::vector<V> a; std::vector<std::pair<std::string, V>> o;
    static V null() { return V(); }
    static V boolean(bool x) { V v; v.t = Bool; v.b = x; return v; }
    static V integer(__int128 x) { V v; v.t = Int; v.i = x; return v; }
    static V dbl(double x) { V v; v.t = Dbl; v.d = x; return v; }
    static V str(const std::string& x) { V v; v.t = S; v.s = x; return v; }
    static V arr() { V v; v.t = A; return v; }
    static V obj() { V v; v.t = O; return v; }
    V* find(const std::string& k) { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
    V& at(const std::string& k) { if (V* v = find(k)) return *v; o.emplace_back(k, V()); return o.back().second; }
};
inline std::string istr(__int128 x) { if (x < 0) return "-" + istr(-x); std::string s; do { s.insert(s.begin(), char('0' + int(x % 10))); x /= 10; } while (x); return s; }
inline bool dsame(double a, double b) { return (a != a && b != b) || memcmp(&a, &b, 8) == 0; }
inline std::string vshow(const V& v, int depth = 0) {
    if (depth > 6) return "...";
    switch (v.t) {
    case V::Null: return "null"; case V::Bool: return v.b ? "true" : "false"; case V::Int: return istr(v.i);
    case V::Dbl: return fz::fmt("%.17g", v.d); case V::S: return fz::show(v.s, 60);
    case V::A: { std::string s = "["; int n = 0; for (auto& x : v.a) { if (n++ > 12) { s += ",..."; break; } if (n > 1) s += ","; s += vshow(x, depth + 1); } return s + "]"; }
    case V::O: { std::string s = "{"; int n = 0; for (auto& x : v.o) { if (n++ > 12) { s += ",..."; break; } if (n > 1) s += ","; s += fz::show(x.first, 40) + ":" + vshow(x.second, depth + 1); } return s + "}"; }
    }
    return "?";
}
// Difference between a model value and a Json, "" if none.
inline std::string diff(const V& v, const Json& j, const std::string& path = "$") {
    auto bad = [&](const char* what) { return path + ": expected " + vshow(v).substr(0, 200) + ", got " + what; };
    switch (v.t) {
    case V::Null: return j.is_null() ? "" : bad("not null");
    case V::Bool: return j.is_b() && j.as_b() == v.b ? "" : bad("something else");
    case V::Int: {
        if (!j.is_i()) return bad("no integer");
        __int128 x = j.is_u() ? (__int128) j.as_u() : (__int128) j.as_i();
        return x == v.i ? "" : bad(istr(x).c_str());
    }
    case V::Dbl: return j.is_d() && dsame(j.as_d(), v.d) ? "" : bad(j.is_d() ? fz::fmt("%.17g", j.as_d()).c_str() : "no double");
    case V::S: { if (!j.is_s()) return bad("no string"); const String& s = j.as_s(); std::string x(s.data(), s.length()); return x == v.s ? "" : bad(fz::show(x, 80).c_str()); }
    case V::A: {
        if (!j.is_a()) return bad("no array");
        if ((size_t) j.size() != v.a.size()) return bad(fz::fmt("array of %d", (int) j.size()).c_str());
        for (size_t i = 0; i < v.a.size(); ++i) { std::string d = diff(v.a[i], j.at((int) i), path + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
        return "";
    }
    case V::O: {
        if (!j.is_o()) return bad("no object");
        if ((size_t) j.size() != v.o.size()) return bad(fz::fmt("object of %d", (int) j.size()).c_str());
        size_t n = 0;
        for (auto it = j.cobegin(); it != j.coend(); ++it, ++n) {
            std::string k(it.key().data(), it.key().length());
            bool dup = false; for (auto& p : v.o) if (p.first == k) dup = true;
            if (!dup) return bad(("unexpected member " + fz::show(k, 60)).c_str());
        }
        if (n != v.o.size()) return bad("another number of members when iterated");
        for (auto& p : v.o) {
            Str k(p.first.data(), p.first.size());
            if (!j.count(k)) return bad(("no member " + fz::show(p.first, 60)).c_str());
            std::string d = diff(p.second, j.get(k), path + "." + fz::show(p.first, 30)); if (!d.empty()) return d;
        }
        return "";
    }
    }
    return "?";
}
inline Json to_json(const V& v, fz::Rng& r) {
    switch (v.t) {
    case V::Null: return Json();
    case V::Bool: return Json(v.b);
    case V::Int:
        if (v.i >= 0 && v.i <= INT64_MAX && r.chance(1, 2)) { if (v.i <= UINT32_MAX && r.chance(1, 2)) return Json((unsigned) v.i); return Json((unsigned long) v.i); }
        if (v.i > INT64_MAX) return Json((unsigned long) v.i);
        if (v.i >= INT32_MIN && v.i <= INT32_MAX && r.chance(1, 2)) return Json((int) v.i);
        return Json((long) v.i);
    case V::Dbl: return Json(v.d);
    case V::S: return Json(String(v.s.data(), v.s.size()));
    case V::A: { Json j = r.chance(1, 2) ? Json::make_array() : Json::make_array_reserve(r.below(20)); for (auto& x : v.a) j.push_back(to_json(x, r)); return j; }
    case V::O: { Json j = Json::make_object(); for (auto& p : v.o) { if (r.chance(1, 2)) j.set(String(p.first.data(), p.first.size()), to_json(p.second, r)); else j.get_insert(Str(p.first.data(), p.first.size())) = to_json(p.second, r); } return j; }
    }
    return Json();
}
inline __int128 gen_int(fz::Rng& r) {
    uint64_t u;
    switch (r.below(5)) {
    case 0: return (int) r.below(300) - 150;
    case 1: { u = 1ull << r.below(64); __int128 x = (__int128) u + (int) r.below(5) - 2; if (r.chance(1, 2)) x = -x; if (x < INT64_MIN) x = INT64_MIN; return x; }
    case 2: u = r.next() >> r.below(64); return r.chance(1, 2) && u <= INT64_MAX ? -(__int128) u : (__int128) u;
    case 3: { static const int64_t e[] = {-129, -128, -127, -33, -32, -31, -1, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, -32768, -32769, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, INT64_MAX, INT64_MIN}; return e[r.below(sizeof e / sizeof *e)]; }
    default: return r.chance(1, 2) ? (__int128) UINT64_MAX - r.below(3) : (__int128) INT64_MAX + r.below(3);
    }
}
inline double gen_dbl(fz::Rng& r, bool finite) {
    for (;;) {
        double d;
        switch (r.below(6)) {
        case 0: d = (int) r.below(2000) - 1000; break;
        case 1: d = ((int) r.below(2000) - 1000) / 64.0; break;
        case 2: d = ((int) r.below(200000) - 100000) / 1000.0; break;
        case 3: { uint64_t u = r.next(); memcpy(&d, &u, 8); break; }
        case 4: { static const double e[] = {0.0, -0.0, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.1, 1e15, 1e16, 123456789012345678., -1e-7, 9007199254740993., 4294967296., 1e21, INFINITY, -INFINITY, NAN}; d = e[r.below(sizeof e / sizeof *e)]; break; }
        default: d = ldexp((double) r.below(1u << 30), (int) r.below(200) - 100); break;
        }
        if (!finite || std::isfinite(d)) return d;
    }
}
inline void put_utf8(std::string& s, unsigned c) {
    if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}
inline unsigned gen_cp(fz::Rng& r) {
    static const unsigned e[] = {0, 1, 8, 9, 10, 12, 13, 31, 32, 34, 39, 47, 60, 62, 92, 127, 128, 159, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1D11E, 0xFFFFF, 0x100000, 0x10FFFF};
    for (;;) {
        unsigned c = r.chance(1, 2) ? e[r.below(sizeof e / sizeof *e)] : r.chance(1, 2) ? 32 + r.below(95) : r.chance(1, 2) ? r.below(0x10000) : r.below(0x110000);
        if (c < 0xD800 || c > 0xDFFF) return c;
    }
}
inline std::string gen_str(fz::Rng& r, bool utf8, size_t maxlen = 70000) {
    static const int lens[] = {0, 0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, 63, 100, 255, 256, 257};
    size_t n = r.chance(1, 250) && maxlen >= 70000 ? (size_t[]){65534, 65535, 65536, 65537, 4095, 4096}[r.below(6)] : r.chance(1, 2) ? r.below(12) : lens[r.below(17)];
    n = std::min(n, maxlen);
    std::string s; int style = r.below(4);
    while (s.size() < n) {
        if (utf8) { size_t o = s.size(); put_utf8(s, style ? (style == 1 ? 97 + r.below(26) : gen_cp(r)) : 32 + r.below(95)); if (s.size() > n) { s.resize(o); while (s.size() < n) s += 'x'; } }
        else if (style == 0) s += char('a' + r.below(26)); else if (style == 1) s += char(r.below(3) ? 0 : 255); else s += char(r.below(256));
    }
    return s;
}
struct GenOpt { bool utf8 = false, finite = false; };
inline V gen_value(fz::Rng& r, int depth, int& budget, const GenOpt& g) {
    --budget;
    int k = r.below(depth > 0 && budget > 0 ? 12 : 7);
    switch (k) {
    case 0: return V::null(); case 1: return V::boolean(r.chance(1, 2)); case 2: case 3: return V::integer(gen_int(r));
    case 4: return V::dbl(gen_dbl(r, g.finite)); case 5: case 6: return V::str(gen_str(r, g.utf8));
    case 7: case 8: case 9: {
        V v = V::arr(); int n = r.chance(1, 3) ? r.below(4) : r.chance(1, 2) ? r.below(20) : r.chance(1, 300) ? 65530 + r.below(12) : 14 + r.below(4);
        bool flat = r.chance(1, 2) || n > 30;
        for (int i = 0; i < n; ++i) v.a.push_back(flat ? V::integer(n > 100 ? i & 127 : (int) gen_int(r)) : gen_value(r, depth - 1, budget, g));
        return v; }
    default: {
        V v = V::obj(); int n = r.chance(1, 2) ? r.below(5) : r.chance(1, 20) ? 100 + r.below(200) : r.below(20);
        bool flat = n > 30;
        for (int i = 0; i < n; ++i) { std::string key = r.chance(1, 3) ? std::to_string(r.below(30)) : gen_str(r, g.utf8, 300); if (v.find(key)) continue; V x = flat ? V::integer(i) : gen_value(r, depth - 1, budget, g); v.o.emplace_back(key, x); }
        return v; }
    }
}
