// C19: JSON parser, printer and copy-on-write values against a reference
// parser and a plain value model.
#include "config.h"
#include "compiler.hh"
#include "json.hh"
#include "jv.hh"
#include <memory>
using namespace fz;
enum St { OK, ERR, MORE, UNSPEC };
static const char* stname[] = {"success", "error", "more input", "?"};
// Strict RFC 8259 reference parser.  UNSPEC: the standard leaves the case
// open (lone surrogate escape, nesting around the limit).
struct Ref {
    const std::string& s; size_t p = 0; bool unspec = false; int maxd = 0;
    explicit Ref(const std::string& x) : s(x) {}
    bool end() const { return p >= s.size(); }
    unsigned char c() const { return s[p]; }
    void ws() { while (!end() && (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r')) ++p; }
    St lit(const char* t) { for (; *t; ++t, ++p) { if (end()) return MORE; if (c() != (unsigned char) *t) return ERR; } return OK; }
    St hex4(unsigned& x) { x = 0; for (int i = 0; i < 4; ++i, ++p) { if (end()) return MORE; if (!isxdigit(c())) return ERR; x = x * 16 + (isdigit(c()) ? c() - '0' : (c() | 32) - 'a' + 10); } return OK; }
    St str(std::string& o) {
        ++p;
        for (;;) {
            if (end()) return MORE;
            unsigned char ch = c();
            if (ch == '"') { ++p; return OK; }
            if (ch < 32) return ERR;
            if (ch == '\\') {
                ++p; if (end()) return MORE;
                switch (c()) {
                case '"': case '\\': case '/': o += c(); ++p; break;
                case 'b': o += '\b'; ++p; break; case 'f': o += '\f'; ++p; break; case 'n': o += '\n'; ++p; break; case 'r': o += '\r'; ++p; break; case 't': o += '\t'; ++p; break;
                case 'u': {
                    ++p; unsigned x; if (St st = hex4(x)) return st;
                    if (x >= 0xDC00 && x < 0xE000) { unspec = true; return ERR; }
                    if (x >= 0xD800 && x < 0xDC00) {
                        if (end()) return MORE; if (c() != '\\') { unspec = true; return ERR; } ++p;
                        if (end()) return MORE; if (c() != 'u') { unspec = true; return ERR; } ++p;
                        unsigned y; if (St st = hex4(y)) return st;
                        if (y < 0xDC00 || y >= 0xE000) { unspec = true; return ERR; }
                        x = 0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00);
                    }
                    if (x == 0xFFFE || x == 0xFFFF) { unspec = true; return ERR; }   // refused as noncharacters
                    put_utf8(o, x); break; }
                default: return ERR;
                }
                continue;
            }
            if (ch < 128) { o += ch; ++p; continue; }
            int n = ch >= 0xF0 ? 4 : ch >= 0xE0 ? 3 : 2; if (ch < 0xC2 || ch > 0xF4) return ERR;
            for (int i = 0; i < n; ++i) {
                if (p + i >= s.size()) { return MORE; }
                unsigned char x = s[p + i];
                if (i == 0) continue;
                unsigned lo = 0x80, hi = 0xBF;
                if (i == 1) { if (ch == 0xE0) lo = 0xA0; if (ch == 0xED) hi = 0x9F; if (ch == 0xF0) lo = 0x90; if (ch == 0xF4) hi = 0x8F; }
                if (x < lo || x > hi) return ERR;
            }
            o.append(s, p, n); p += n;
        }
    }
    St num(V& v) {
        size_t b = p; bool frac = false;
        if (c() == '-') ++p;
        if (end()) return MORE; if (!isdigit(c())) return ERR;
        if (c() == '0') ++p; else while (!end() && isdigit(c())) ++p;
        if (!end() && c() == '.') { frac = true; ++p; if (end()) return MORE; if (!isdigit(c())) return ERR; while (!end() && isdigit(c())) ++p; }
        if (!end() && (c() == 'e' || c() == 'E')) { frac = true; ++p; if (end()) return MORE; if (c() == '+' || c() == '-') ++p; if (end()) return MORE; if (!isdigit(c())) return ERR; while (!end() && isdigit(c())) ++p; }
        std::string t = s.substr(b, p - b);
        if (!frac && t.size() < 30) { __int128 x = 0; for (char k : t) if (isdigit(k)) x = x * 10 + (k - '0'); if (t[0] == '-') x = -x; if (x >= INT64_MIN && x <= (__int128) UINT64_MAX) { v = V::integer(x); return OK; } }
        v = V::dbl(strtod(t.c_str(), 0)); return OK;
    }
    St val(V& v, int depth) {
        ws(); if (end()) return MORE;
        switch (c()) {
        case 'n': v = V(); return lit("null"); case 't': v = V::boolean(true); return lit("true"); case 'f': v = V::boolean(false); return lit("false");
        case '"': v = V::str(""); return str(v.s);
        case '[': case '{': {
            bool ob = c() == '{'; ++p; v = ob ? V::obj() : V::arr();
            if (depth + 1 > maxd) maxd = depth + 1;
            if (depth + 1 > 2048) unspec = true;
            if (depth > 2100) { unspec = false; return ERR; }
            ws(); if (end()) return MORE; if (c() == (ob ? '}' : ']')) { ++p; return OK; }
            for (;;) {
                std::string k;
                if (ob) { ws(); if (end()) return MORE; if (c() != '"') return ERR; if (St st = str(k)) return st; ws(); if (end()) return MORE; if (c() != ':') return ERR; ++p; }
                V x; if (St st = val(x, depth + 1)) return st;
                if (ob) v.at(k) = std::move(x); else v.a.push_back(std::move(x));
                ws(); if (end()) return MORE;
                if (c() == ',') { ++p; continue; }
                if (c() == (ob ? '}' : ']')) { ++p; return OK; }
                return ERR;
            } }
        default: if (c() == '-' || isdigit(c())) return num(v); return ERR;
        }
    }
};
static bool isnum(const V& v) { return v.t == V::Int || v.t == V::Dbl; }

// Text of a value in one of its many forms.
static void wsp(std::string& o, Rng& r, int dens) { while (dens && r.below(10) < (unsigned) dens) o += " \t\n\r"[r.below(4)]; }
static std::string hex4(unsigned x, Rng& r) { char b[8]; const char* f = r.chance(1, 2) ? "%04x" : "%04X"; snprintf(b, 8, f, x); for (int i = 0; i < 4; ++i) if (r.chance(1, 6)) b[i] = isupper(b[i]) ? tolower(b[i]) : toupper(b[i]); return std::string("\\u") + b; }
static void str_text(std::string& o, const std::string& s, Rng& r, int esc) {
    o += '"';
    for (size_t i = 0; i < s.size(); ) {
        unsigned char ch = s[i]; int n = ch < 0x80 ? 1 : ch < 0xE0 ? 2 : ch < 0xF0 ? 3 : 4;
        unsigned cp = ch; if (n > 1) { cp = ch & (0xFF >> (n + 1)); for (int k = 1; k < n; ++k) cp = cp << 6 | (s[i + k] & 63); }
        bool must = ch < 32 || ch == '"' || ch == '\\';
        const char* sh = "\"\\/\b\f\n\r\t"; const char* se = "\"\\/bfnrt"; const char* q = ch && ch < 128 ? strchr(sh, ch) : nullptr;
        if (cp == 0xFFFE || cp == 0xFFFF || (!must && r.below(10) >= (unsigned) esc)) o.append(s, i, n);
        else if (q && r.chance(1, 2)) { o += '\\'; o += se[q - sh]; }
        else if (cp >= 0x10000) { o += hex4(0xD800 + ((cp - 0x10000) >> 10), r); o += hex4(0xDC00 + ((cp - 0x10000) & 0x3FF), r); }
        else o += hex4(cp, r);
        i += n;
    }
    o += '"';
}
static std::string dbl_text(double d, Rng& r) {
    for (;;) {
        char b[400]; int k = r.below(4);
        if (k == 0) snprintf(b, sizeof b, "%.17g", d); else if (k == 1) snprintf(b, sizeof b, "%.16e", d); else if (k == 2 && fabs(d) < 1e40) snprintf(b, sizeof b, "%.*f", 1 + r.below(30), d); else snprintf(b, sizeof b, "%.17E", d);
        std::string t = b; if (t.find_first_of(".eE") == std::string::npos) t += r.chance(1, 2) ? ".0" : "e0";
        return t;
    }
}
static void text(std::string& o, const V& v, Rng& r, int ws, int esc) {
    switch (v.t) {
    case V::Null: o += "null"; break; case V::Bool: o += v.b ? "true" : "false"; break; case V::Int: o += istr(v.i); break; case V::Dbl: o += dbl_text(v.d, r); break;
    case V::S: str_text(o, v.s, r, esc); break;
    case V::A: { o += '['; bool f = true; for (auto& x : v.a) { if (!f) { o += ','; } wsp(o, r, ws); text(o, x, r, ws, esc); wsp(o, r, ws); f = false; } if (f) wsp(o, r, ws); o += ']'; break; }
    case V::O: { o += '{'; bool f = true; for (auto& x : v.o) { if (!f) o += ','; wsp(o, r, ws); str_text(o, x.first, r, esc); wsp(o, r, ws); o += ':'; wsp(o, r, ws); text(o, x.second, r, ws, esc); wsp(o, r, ws); f = false; } if (f) wsp(o, r, ws); o += '}'; break; }
    }
}
struct Buf { char* p; size_t n; Buf(const char* s, size_t len) : p((char*) malloc(len ? len : 1)), n(len) { memcpy(p, s, len); } ~Buf() { free(p); } };
static void check_text(const std::string& in, Rng& r, int tries) {
    // whole document
    Ref w(in); V v; St st = w.val(v, 0); size_t vend = w.p; bool us = w.unspec;
    St whole = st; if (st == OK) { w.ws(); if (!w.end()) whole = ERR; } else if (st == MORE) whole = ERR;
    count(whole == OK ? "documents_valid" : "documents_invalid");
    if (us) count("verdict_open");
    for (int k = 0; k < 2; ++k) {
        Json j(77); bool got;
        if (k == 0) { Buf b(in.data(), in.size()); got = j.assign_parse(b.p, b.p + b.n); } else { String s(in.data(), in.size()); got = j.assign_parse(s); }
        if (!us && got != (whole == OK)) fail("verdict", fmt("%s document %s: %s", whole == OK ? "valid" : "invalid", got ? "accepted" : "rejected", show(in, 500).c_str()));
        if (!got && !(j.is_i() && j.as_i() == 77)) fail("value", "failed parse changed its target");
        if (got && whole == OK) { std::string d = diff(v, j); if (!d.empty()) fail("value", d + " parsing " + show(in, 500)); }
    }
    // incremental
    Json::streaming_parser sp;
    for (int t = 0; t < tries; ++t) {
        int how = t == 0 ? 0 : t == 1 ? 1 : 2 + r.below(2); if (how == 1 && in.size() > 3000) how = 3;
        bool complete = r.chance(1, 2);
        if (r.chance(1, 3)) sp.result() = Json(); if (r.chance(1, 6)) sp = Json::streaming_parser();
        sp.reset();
        size_t used = 0; int dry = 0;
        while (!sp.done() && used < in.size()) {
            size_t n = how == 0 ? in.size() - used : how == 1 ? 1 : how == 2 ? 1 + r.below(6) : 1 + r.below(r.chance(1, 2) ? 40 : 5000);
            n = std::min(n, in.size() - used); size_t got; bool last = complete && used + n == in.size();
            if (r.chance(1, 3)) { String s(in.data() + used, n); got = sp.consume(s.begin(), s.end(), s, last) - s.begin(); }
            else { Buf b(in.data() + used, n); got = sp.consume(b.p, n, String(), last); }
            if (got > n) fail("consumed", fmt("parser consumed %zu of %zu bytes", got, n));
            if (!got && ++dry > 3 && !sp.done()) fail("stuck", fmt("no progress at byte %zu of %s", used, show(in).c_str()));
            if (got) dry = 0; used += got;
        }
        bool finished = false;
        if (!sp.done() && complete) { Buf b("", 0); sp.consume(b.p, (size_t) 0, String(), true); finished = true; }
        if (sp.success() && sp.error()) fail("state", "success and error");
        St got = sp.success() ? OK : sp.error() ? ERR : MORE; count("streaming_parses");
        // a number at the very end of the text is complete only with complete = true
        St exp = st; bool openend = isnum(v) && (st == OK || st == MORE) && vend == in.size();
        if (us) continue;
        if (st == OK && isnum(v) && vend == in.size()) exp = complete ? OK : MORE;
        if (st == MORE && complete && got == ERR) exp = ERR;        // truncated number reported at the end
        (void) openend; (void) finished;
        if (got != exp) {
            // an invalid UTF-8 sequence or escape may only be noticed once its last byte arrives
            if (!(exp == ERR && got == MORE && vend + 12 >= in.size() && in.size() - vend <= 12)) fail("verdict", fmt("incremental parser (chunking %d%s): %s expected, %s reported: %s", how, complete ? ", complete" : "", stname[exp], stname[got], show(in, 500).c_str()));
        }
        if (got == OK && exp == OK) {
            if (used != vend) fail("consumed", fmt("%zu bytes consumed, the value ends at %zu: %s", used, vend, show(in, 400).c_str()));
            std::string d = diff(v, sp.result()); if (!d.empty()) fail("value", fmt("incremental (chunking %d): ", how) + d + " parsing " + show(in, 400));
        }
    }
}
static void round12(V& v) { if (v.t == V::Dbl) { char b[64]; snprintf(b, 64, "%.12g", v.d); if (strpbrk(b, ".e")) v.d = strtod(b, 0); else { __int128 x = 0; for (char* p = b; *p; ++p) if (isdigit(*p)) x = x * 10 + *p - '0'; if (*b == '-') x = -x; v = V::integer(x); } } for (auto& x : v.a) round12(x); for (auto& p : v.o) round12(p.second); }
static void roundtrip(const V& v, Rng& r) {
    Json j = to_json(v, r); V e = v; round12(e);
    for (int k = 0; k < 3; ++k) {
        String s;
        if (k == 0) s = j.unparse(); else if (k == 1) { StringAccum sa; sa << "x"; j.unparse(sa); s = sa.take_string(); s = s.substring(s.begin() + 1, s.end()); }
        else { auto m = Json::indent_depth(r.below(5)).tab_width(r.below(9)).newline_terminator(r.chance(1, 2)).space_separator(r.chance(1, 2)); s = j.unparse(m); }
        std::string t(s.data(), s.length());
        Ref ref(t); V back; St st = ref.val(back, 0); ref.ws();
        if (st != OK || !ref.end()) fail("printed", "printed text is not valid JSON: " + show(t, 400));
        Json bj = to_json(back, r); std::string d = diff(e, bj); if (!d.empty()) fail("printed", "printed text denotes another value: " + d + ": " + show(t, 400));
        Json pj = Json::parse(s); d = diff(e, pj); if (!d.empty()) fail("roundtrip", "parsing the printed text: " + d + ": " + show(t, 400));
    }
    std::string d = diff(v, j); if (!d.empty()) fail("value", "printing changed the value: " + d);
    count("roundtrips");
}
// ---- value operations ----
static bool is_key_int(const std::string& k, unsigned& x) { if (k.empty() || k.size() > 6 || k.find_first_not_of("0123456789") != std::string::npos || (k[0] == '0' && k.size() > 1)) return false; x = atoi(k.c_str()); return true; }
static std::string okey(Rng& r) { static const char* w[] = {"", "a", "b", "ab", "key", "name", "a longer key that does not fit inline", "0", "1", "2", "x1", "y"}; if (r.chance(2, 3)) return w[r.below(12)]; if (r.chance(1, 8)) return std::string("nul\0key", 7); return "k" + std::to_string(r.below(60)); }
static V scalar(Rng& r) { switch (r.below(5)) { case 0: return V(); case 1: return V::boolean(r.chance(1, 2)); case 2: return V::integer(gen_int(r)); case 3: return V::str(gen_str(r, true, 40)); default: return V::integer(r.below(100)); } }
static size_t vsize(const V& v) { size_t n = 1; for (auto& x : v.a) n += vsize(x); for (auto& p : v.o) n += vsize(p.second); return n; }
struct Pool {
    std::vector<Json> j; std::vector<V> v; Rng& r;
    explicit Pool(Rng& rr) : r(rr) { for (int i = 0; i < 5; ++i) { j.emplace_back(); v.emplace_back(); } }
    // descend to a mutable node
    std::pair<Json*, V*> node(size_t i, std::string* path = nullptr) {
        Json* x = &j[i]; V* y = &v[i]; if (path) *path = "#" + std::to_string(i);
        while (r.chance(3, 5)) {
            if (y->t == V::A && !y->a.empty()) {
                size_t k = r.below(y->a.size()); if (path) *path += "[" + std::to_string(k) + "]";
                switch (r.below(4)) { case 0: x = &x->get_insert((int) k); break; case 1: x = &x->at_insert((int) k); break; case 2: x = &x->array_data()[k]; break; default: { auto it = x->abegin(); it += (int) k; x = &*it; } }
                y = &y->a[k];
            } else if (y->t == V::O && !y->o.empty()) {
                size_t k = r.below(y->o.size()); const std::string& key = y->o[k].first; if (path) *path += "." + show(key, 30); Str sk(key.data(), key.size());
                switch (r.below(4)) { case 0: x = &x->get_insert(sk); break; case 1: x = &x->get_insert(String(key.data(), key.size())); break; case 2: x = &x->at_insert(sk); break;
                default: { Json* f = nullptr; for (auto it = x->obegin(); it != x->oend(); ++it) if (it.key() == sk) { f = &it.value(); break; } if (!f) fail("value", "member not found by iteration"); x = f; } }
                y = &y->o[k].second;
            } else break;
        }
        return {x, y};
    }
    std::pair<const Json*, const V*> cnode(size_t i) {
        const Json* x = &j[i]; const V* y = &v[i];
        while (r.chance(2, 3)) {
            if (y->t == V::A && !y->a.empty()) { size_t k = r.below(y->a.size()); x = r.chance(1, 2) ? &x->get((int) k) : &x->at((int) k); y = &y->a[k]; }
            else if (y->t == V::O && !y->o.empty()) { size_t k = r.below(y->o.size()); const std::string& key = y->o[k].first; Str s(key.data(), key.size()); x = r.chance(1, 2) ? &x->get(s) : &x->at(s); y = &y->o[k].second; }
            else break;
        }
        return {x, y};
    }
    void verify(const char* op) { for (size_t i = 0; i < j.size(); ++i) { std::string d = diff(v[i], j[i], "#" + std::to_string(i)); if (!d.empty()) fail("independence", std::string("after ") + op + ": " + d); } }
};
static void to_object(V& v) { if (v.t == V::O) return; V o = V::obj(); if (v.t == V::A) for (size_t i = 0; i < v.a.size(); ++i) o.o.emplace_back(std::to_string(i), v.a[i]); v = o; }
static void value_ops(Case& c) {
    Rng& r = c.r; Pool P(r); int n = 5 + r.below(r.chance(1, 4) ? 120 : 40); size_t np = P.j.size();
    for (int step = 0; step < n; ++step) {
        size_t i = r.below(np), k = r.below(np); std::string path;
        for (size_t q = 0; q < np; ++q) if (vsize(P.v[q]) > 400) { P.j[q] = Json(); P.v[q] = V(); }
        // the source is taken first: a copy of some node
        Json sj; V sv;
        if (r.chance(1, 2)) { auto s = P.cnode(k); sj = *s.first; sv = *s.second; } else { sv = scalar(r); sj = to_json(sv, r); }
        auto t = P.node(i, &path); Json& J = *t.first; V& X = *t.second;
        std::string key = okey(r); Str sk(key.data(), key.size()); String ks(key.data(), key.size());
        int op = r.below(26); char opn[300]; snprintf(opn, sizeof opn, "step %d op %d at %.100s key %.40s src %.100s", step, op, path.c_str(), show(key, 30).c_str(), vshow(sv).c_str());
        note("%s", opn); c.hash(op * 131 + i); c.hash(key); c.hash(vshow(sv));
        switch (op) {
        case 0: J = sj; X = sv; break;
        case 1: J = std::move(sj); X = sv; break;
        case 2: { V a = V::arr(); Json ja = Json::make_array(); J = ja; X = a; break; }
        case 3: J = Json::make_object(); X = V::obj(); break;
        case 4: case 5: case 6: { // set on anything
            to_object(X); if (op == 4) J.set(ks, sj); else if (op == 5 || X.find(key)) { if (r.chance(1, 2)) J[ks] = sj; else J[sk] = sj; } else J.get_insert(sk) = sj; X.at(key) = sv; break; }
        case 7: if (X.t == V::O && !X.o.empty()) { key = X.o[r.below(X.o.size())].first; sk = Str(key.data(), key.size()); J.unset(sk); for (size_t q = 0; q < X.o.size(); ++q) if (X.o[q].first == key) { X.o.erase(X.o.begin() + q); break; } } else J.unset(sk), [&] { if (X.t == V::O) for (size_t q = 0; q < X.o.size(); ++q) if (X.o[q].first == key) { X.o.erase(X.o.begin() + q); break; } }(); break;
        case 8: if (X.t == V::O) { int got = J.erase(sk), exp = 0; for (size_t q = 0; q < X.o.size(); ++q) if (X.o[q].first == key) { X.o.erase(X.o.begin() + q); exp = 1; break; } if (got != exp) fail("value", fmt("%s: erase returned %d", opn, got)); } break;
        case 9: if (X.t == V::O && !X.o.empty()) { auto it = J.obegin(); int adv = r.below(X.o.size()); while (adv--) ++it; std::string kk(it.key().data(), it.key().length()); auto nx = J.erase(it); for (size_t q = 0; q < X.o.size(); ++q) if (X.o[q].first == kk) { X.o.erase(X.o.begin() + q); break; } int rest = 0; for (; nx != J.oend(); ++nx) ++rest; if (rest > (int) X.o.size()) fail("value", "erase(iterator) iterates too far"); } break;
        case 10: case 11: if (X.t == V::A || X.t == V::Null) { X.t = V::A; J.push_back(sj); X.a.push_back(sv); } break;
        case 12: if (X.t == V::A && !X.a.empty()) { J.pop_back(); X.a.pop_back(); } break;
        case 13: if (X.t == V::A) { size_t p = r.below(X.a.size() + 1); auto it = J.insert(J.abegin() + (int) p, sj); X.a.insert(X.a.begin() + p, sv); std::string d = diff(sv, *it); if (!d.empty()) fail("value", "insert's iterator: " + d); } break;
        case 14: if (X.t == V::A) { size_t a = r.below(X.a.size() + 1), b = a + r.below(X.a.size() - a + 1); J.erase(J.abegin() + (int) a, J.abegin() + (int) b); X.a.erase(X.a.begin() + a, X.a.begin() + b); } break;
        case 15: if (X.t == V::A || X.t == V::Null) { int m = r.below(r.chance(1, 3) ? 40 : 10); X.t = V::A; J.resize(m); X.a.resize(m); } break;
        case 16: { int m = r.below(14); if (X.t == V::O) { J.get_insert(m) = sj; X.at(std::to_string(m)) = sv; } else { if (X.t != V::A) X = V::arr(); J.get_insert(m) = sj; if ((int) X.a.size() <= m) X.a.resize(m + 1); X.a[m] = sv; } break; }
        case 17: J.clear(); if (X.t == V::A) X.a.clear(); else if (X.t == V::O) X.o.clear(); else X = V(); break;
        case 18: if ((X.t == V::O || X.t == V::Null) && sv.t == V::O) { if (X.t == V::Null) { bool has = sv.t == V::O && (sj.size() > 0 || true); (void) has; } J.merge(sj);
                bool stays = X.t == V::Null && J.is_null(); if (X.t == V::Null && !stays) X = V::obj(); if (stays && !sv.o.empty()) fail("value", "merge lost members"); for (auto& p : sv.o) X.at(p.first) = p.second; } break;
        case 19: if (i != k) { P.j[i].swap(P.j[k]); std::swap(P.v[i], P.v[k]); } break;
        case 20: if (X.t == V::O) { size_t m = 0; for (auto it = J.obegin(); it != J.oend(); ++it, ++m) { std::string kk(it.key().data(), it.key().length()); V* y = X.find(kk); if (!y) fail("value", "iteration meets an unknown member"); if (r.chance(1, 3)) { it.value() = sj; *y = sv; } } if (m != X.o.size()) fail("value", "iteration misses members"); }
                 else if (X.t == V::A) { size_t m = 0; for (auto it = J.abegin(); it != J.aend(); ++it, ++m) if (r.chance(1, 3)) { *it = sj; X.a.at(m) = sv; } if (m != X.a.size()) fail("value", "iteration misses elements"); } break;
        case 21: if (X.t == V::O) { bool had = X.find(key); auto p = J.insert(Json::object_value_type(ks, sj)); if (p.second != !had) fail("value", "insert reports wrong novelty"); if (!had) X.at(key) = sv; std::string d = diff(X.at(key), p.first.value()); if (!d.empty()) fail("value", "insert's iterator: " + d); } break;
        case 22: if (X.t == V::A || X.t == V::Null) { X.t = V::A; J.push_back(J); V copy = X; if (J.size() == 1 && X.a.empty()) { /* null pushed into itself is null or [] */ J = Json::make_array(); } else X.a.push_back(copy); } break;
        case 23: if (X.t == V::O && !X.o.empty()) { size_t a = r.below(X.o.size()); std::string from = X.o[a].first; Str sf(from.data(), from.size()); V y = X.o[a].second; const Json& cj = J;
                switch (r.below(3)) { case 0: J[ks] = J[String(from.data(), from.size())]; break; case 1: J[sk] = cj.get(sf); break; default: J.set(ks, cj.get(sf)); } X.at(key) = y; } break;
        case 24: if (X.t == V::A && !X.a.empty()) { int a = r.below(X.a.size()), b = r.below(20); const Json& cj = J; V y = X.a[a];
                switch (r.below(4)) { case 0: J[b] = J[a]; break; case 1: J[b] = cj.get(a); break; case 2: J.push_back(cj.get(a)); b = X.a.size(); break; default: { b %= X.a.size() + 1; J.insert(J.abegin() + b, cj.get(a)); X.a.insert(X.a.begin() + b, y); b = -1; } }
                if (b >= 0) { if ((int) X.a.size() <= b) X.a.resize(b + 1); X.a[b] = y; } } break;
        case 25: if (X.t == V::A || X.t == V::O) { auto s = [&]() -> std::pair<Json, V> { if (X.t == V::A && !X.a.empty()) { int a = r.below(X.a.size()); return {Json(), X.a[a]}; } return {Json(), V()}; }(); if (X.t == V::A && !X.a.empty()) { size_t a = 0; for (; a < X.a.size(); ++a) if (r.chance(1, 2)) break; if (a == X.a.size()) a = 0; V y = X.a[a]; const Json& cj = J; J = cj.get((int) a); X = y; } } break;
        }
        // queries
        { auto q = P.cnode(r.below(np)); const Json& Q = *q.first; const V& Y = *q.second;
          if (Y.t == V::O) { if ((bool) Q.count(sk) != (bool) const_cast<V&>(Y).find(key)) fail("value", "count differs"); if (!Q.count(sk) && !Q.get(sk).is_null()) fail("value", "missing member is not null"); if (Q.empty() != Y.o.empty()) fail("value", "empty() differs"); }
          if (Y.t == V::A) { if (Q.empty() != Y.a.empty()) fail("value", "empty() differs"); if (!Q.get((int) Y.a.size()).is_null() || !Q.get(-1).is_null()) fail("value", "element out of range is not null"); unsigned x; const Json& e = Q.get(sk); if (!is_key_int(key, x) || x >= Y.a.size()) { if (!e.is_null()) fail("value", "array has a member"); } else { std::string d = diff(Y.a[x], e); if (!d.empty()) fail("value", "array indexed by string: " + d); } }
          if (Y.t == V::S) { String s = Q.to_s(); if (std::string(s.data(), s.length()) != Y.s) fail("value", "to_s differs"); } }
        P.verify(opn);
    }
    count("value_ops", n); c.nontrivial = true;
    // destroy in a random order, checking the rest
    while (!P.j.empty()) { size_t i = r.below(P.j.size()); P.j.erase(P.j.begin() + i); P.v.erase(P.v.begin() + i); P.verify("destruction"); }
}
static void big_object(Case& c) {   // many members: growth, rehashing, erasure
    Rng& r = c.r; Json j = Json::make_object(); std::map<std::string, int> m; int n = 200 + r.below(2000); int range = 20 + r.below(1500);
    Json snap; std::map<std::string, int> snapm; c.hash(n); c.hash(range); c.nontrivial = true; note("big object: %d operations over %d keys", n, range);
    for (int i = 0; i < n; ++i) {
        std::string k = "key" + std::to_string(r.below(range)); Str sk(k.data(), k.size());
        switch (r.below(6)) {
        case 0: case 1: case 2: j.set(String(k.data(), k.size()), i); m[k] = i; break;
        case 3: { int g = j.erase(sk); if (g != (int) m.erase(k)) fail("value", "erase result for " + k); break; }
        case 4: { if ((int) j.count(sk) != (int) m.count(k)) fail("value", "count for " + k); break; }
        default: if (r.chance(1, 40)) { snap = j; snapm = m; } else { const Json& g = j.get(sk); if (m.count(k) ? !(g.is_i() && g.as_i() == m[k]) : !g.is_null()) fail("value", "member " + k); }
        }
    }
    auto full = [&](const Json& x, const std::map<std::string, int>& y, const char* w) { size_t cnt = 0; if (x.is_null() && y.empty()) return; if ((size_t) x.size() != y.size()) fail("value", fmt("%s: size %d, expected %zu", w, (int) x.size(), y.size())); for (auto it = x.cobegin(); it != x.coend(); ++it, ++cnt) { std::string k(it.key().data(), it.key().length()); auto f = y.find(k); if (f == y.end() || it.value().as_i() != f->second) fail("value", std::string(w) + ": member " + k); } if (cnt != y.size()) fail("value", "iteration count"); for (auto& p : y) if (!x.count(Str(p.first.data(), p.first.size()))) fail("value", std::string(w) + ": lost member " + p.first); };
    full(j, m, "object"); full(snap, snapm, "earlier copy"); count("big_objects");
}
static void mutate(std::string& s, Rng& r) {
    static const char* frag[] = {"\\", "\\u", "\\u0000", "\\ud834\\udd1e", "\\uD834\\uDD1E", "\\ud834", "\\udd1e", "\\u00e9", "\\uFFFE", "\"", "{", "}", "[", "]", ",", ":", "null", "tru", "-", "0", "01", "1.", ".5", "1e", "1e+", "e5", "-0", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775808", "123456789012345678901234567890", "1e999", "\xC3", "\xC3\xA9", "\xE2\x80\xA8", "\xED\xA0\x80", "\xF0\x9D\x84\x9E", "\xF4\x90\x80\x80", "\xE0\x80\x80", "\xC0\x80", "\xFF", " ", "\n", "\t\r", "//", "\x01", "\x7f", "+1", "NaN", "[]", "{}", "\"\"", ",,"};
    int n = 1 + r.below(3);
    for (int i = 0; i < n; ++i) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(7)) {
        case 0: if (!s.empty()) s[p % s.size()] = char(r.below(256)); break;
        case 1: case 2: s.insert(p, frag[r.below(sizeof frag / sizeof *frag)]); break;
        case 3: s.resize(p); break; case 4: s.erase(p, 1 + r.below(3)); break;
        case 5: if (!s.empty()) s[p % s.size()] ^= 1 << r.below(8); break;
        default: s += frag[r.below(sizeof frag / sizeof *frag)]; break;
        }
    }
}
void run_case(Case& c) {
    Rng& r = c.r; GenOpt g; g.utf8 = true; g.finite = true; int budget = r.chance(1, 2) ? 15 : 120;
    switch (r.below(7)) {
    case 0: { V v = gen_value(r, 1 + r.below(6), budget, g); note("roundtrip %s", vshow(v).c_str()); c.hash(vshow(v)); roundtrip(v, r); c.nontrivial = v.t >= V::S; break; }
    case 1: { V v = gen_value(r, 1 + r.below(6), budget, g); std::string s; int ws = r.below(6), esc = r.below(11); wsp(s, r, ws); text(s, v, r, ws, esc); wsp(s, r, ws); note("text %s", show(s, 600).c_str()); c.hash(s); check_text(s, r, 4);
        if (v.t != V::Dbl) {} c.nontrivial = s.size() > 8; break; }
    case 2: { V v = gen_value(r, 1 + r.below(4), budget, g); std::string s; text(s, v, r, r.below(4), r.below(11)); if (s.size() > 3000) s = s.substr(0, 3000); mutate(s, r); note("mutated %s", show(s, 600).c_str()); c.hash(s); check_text(s, r, 4); c.nontrivial = s.size() > 4; break; }
    case 3: { std::string s; size_t n = r.below(30); static const char al[] = "{}[]\",:\\u0123456789.-+eEntf ald"; for (size_t i = 0; i < n; ++i) s += r.chance(1, 20) ? char(r.below(256)) : al[r.below(sizeof al - 1)];
        if (r.chance(1, 3)) { s = "\"" + s; if (r.chance(1, 2)) s += '"'; }
        if (r.chance(1, 40)) { s.clear(); size_t d = r.chance(1, 2) ? 2000 + r.below(120) : r.below(200000); for (size_t i = 0; i < d; ++i) s += r.chance(1, 3) ? "{\"\":" : "["; if (r.chance(1, 2)) { std::string cl; for (size_t i = s.size(); i-- > 0; ) if (s[i] == '[') cl += ']'; else if (s[i] == '{') cl += '}'; s += "1" + cl; } }
        note("raw %s", show(s, 300).c_str()); c.hash(s); check_text(s, r, 4); c.nontrivial = n > 4; break; }
    case 4: case 5: value_ops(c); break;
    default: if (r.chance(1, 4)) big_object(c); else value_ops(c);
    }
}
