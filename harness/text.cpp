// C08: strings, names and binary blocks survive a round trip.
// what 0 string of n symbolic bytes (pos), 1 blob of n symbolic bytes (pos), 2 long string/blob (length window), 3 field names, 4 utf-16, 5 utf-32, 6 single characters and arrays, 7 many names, 8 long names
#include "common.hpp"
using namespace Srl;
struct S1 { std::string s; void srl_resolve(Context& c) { c("s", s); } };
struct S3 { uint8_t a = 0; std::string s; std::string z; void srl_resolve(Context& c) { c("a", a)("s", s)("z", z); } };
struct B1 { std::vector<uint8_t> b; std::string z; void srl_resolve(Context& c) { c("b", VecWrap<uint8_t>(b))("z", z); } };
struct B2 { uint8_t raw[12]; size_t n = 0; std::string z; void srl_resolve(Context& c) { BitWrap w(raw, n, [this](size_t k) { vf_check(k <= sizeof raw, "announced block size"); n = k; return raw; }); c("b", w)("z", z); } };
struct B4 { std::vector<uint32_t> b; void srl_resolve(Context& c) { c("b", VecWrap<uint32_t>(b)); } };
struct BL { std::vector<Bytes> l; void srl_resolve(Context& c) { c("l", l); } };
template<class T> struct X1 { T s = T(); uint8_t e = 0; void srl_resolve(Context& c) { c("s", s)("e", e); } };
struct Ch { char c = 0; char16_t d = 0; char32_t e = 0; wchar_t w = 0; char s[4] = { }; char16_t t[3] = { }; char32_t u[3] = { }; uint8_t end = 0;
    void srl_resolve(Context& x) { x("c", c)("d", d)("e", e)("w", w)("s", s)("t", t)("u", u)("end", end); } };
template<class T> static Bytes8 st(const T& o, int f) { AnyParser ap; Tree t; return t.store(o, ap.get(f)); }
template<class T> static void re(T& r, const Bytes8& d, int f) { AnyParser ap; Tree t; Buf b(d); t.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); }
static std::string pat(size_t n, size_t k = 0) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 'A' + ((i + k) * 7 + i / 64) % 58; return s; }
static std::u32string cps(int n) { std::u32string o; for (int i = 0; i < n; i++) { uint32_t c; vf_sym(&c, 4, "cp"); vf_assume((c < 0x110000) & !((c >= 0xd800) & (c < 0xe000))); o.push_back(c); } return o; }

static void str(int f, int pos, const std::string& s) {
    switch (pos) {
    case 0: { S1 o; o.s = s; S1 r; r.s = "old"; re(r, st(o, f), f); vf_check(r.s == s, "string field"); break; }
    case 1: { S3 o; o.a = 200; o.s = s; o.z = "end"; S3 r; r.s = "previous"; re(r, st(o, f), f); vf_check(r.s == s && r.a == 200 && r.z == "end", "string between fields"); break; }
    case 2: { std::vector<std::string> o = { s, "", s }, r = { "x" }; re(r, st(o, f), f); vf_check(r == o, "strings in a list"); break; }
    case 3: { std::map<std::string, std::string> o, r; o[s] = s; re(r, st(o, f), f); vf_check(r == o, "string as map key and value"); break; }
    case 4: { Tree t; t.root().insert("k", s, "z", 1); AnyParser ap; Bytes8 d = t.to_source(ap.get(f)); Tree t2; t2.load_source(Lib::In::Source(d.data(), d.size()), ap.get(f));
        vf_check(t2.root().unwrap_field<std::string>("k") == s && t2.root().unwrap_field<int>("z") == 1, "string in a dynamic document"); vf_check(t2.root().value("k").type() == Type::String, "text stays text"); break; }
    case 5: { std::tuple<std::string, int, std::string> o(s, 3, s), r; struct W { std::tuple<std::string, int, std::string>* p; void srl_resolve(Context& c) { c("t", *p); } }; W w { &o }, v { &r }; re(v, st(w, f), f); vf_check(r == o, "strings in a tuple"); break; }
    }
}
static void blob(int f, int pos, const Bytes8& b) {
    switch (pos) {
    case 0: { B1 o, r; o.b = b; o.z = "end"; r.b = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }; re(r, st(o, f), f); vf_check(same(r.b, b) && r.z == "end", "binary field"); break; }
    case 1: { if (b.size() > 12) break; B2 o, r; memcpy(o.raw, b.data(), b.size()); o.n = b.size(); o.z = "e"; re(r, st(o, f), f); vf_check(r.n == b.size() && memcmp(r.raw, b.data(), b.size()) == 0 && r.z == "e", "binary block through BitWrap"); break; }
    case 2: { BL o, r; o.l.emplace_back(Bytes8(b)); o.l.emplace_back(Bytes8()); o.l.emplace_back(Bytes8(b)); re(r, st(o, f), f); vf_check(r.l.size() == 3, "blocks in a list"); 
        for (int i = 0; i < 3; i++) { Bytes8 x = std::move(r.l[i]).extract(); vf_check(i == 1 ? x.empty() : same(x, b), "block in a list"); } break; }
    case 3: { B4 o, r; o.b.resize(b.size() / 4); memcpy(o.b.data(), b.data(), b.size() / 4 * 4); r.b = { 7 }; re(r, st(o, f), f); vf_check(r.b == o.b, "vector stored as a block"); break; }
    case 4: { Tree t; t.root().insert("k", BitWrap(b.data(), b.size()), "z", 1); AnyParser ap; Bytes8 d = t.to_source(ap.get(f)); Tree t2; t2.load_source(Lib::In::Source(d.data(), d.size()), ap.get(f));
        Bytes8 r; t2.root().value("k").paste(*std::make_unique<BitWrap>([&](size_t n) { r.resize(n); return r.data(); })); vf_check(same(r, b) && t2.root().unwrap_field<int>("z") == 1, "block in a dynamic document"); break; }
    }
}
extern "C" void harness() {
    int what = P("what", 0), f = P("fmt", 0), pos = P("pos", 0); unsigned n = (unsigned)P("n", 2);
    switch (what) {
    case 0: { std::string s(n, 0); vf_sym(&s[0], n, "s"); str(f, pos, s); break; }
    case 1: { Bytes8 b(n); vf_sym(b.data(), n, "b"); blob(f, pos, b); break; }
    case 2: { size_t len = (size_t)P("base", 0) + vf_choose(n, "len"); std::string s = pat(len); if (len) { vf_sym(&s[len - 1], 1, "last"); vf_sym(&s[0], 1, "first"); vf_assume(((uint8_t)s[0] < 128) & ((uint8_t)s[0] > 0x5f) & ((uint8_t)s[len - 1] < 128)); if (P("plain", 0)) vf_assume((uint8_t)s[len - 1] > 0x5f); }
        if (P("bin", 0)) blob(f, pos, bytes(s)); else str(f, pos, s); break; }
    case 3: { std::string a(n, 0); vf_sym(&a[0], n, "name"); vf_assume(a != "zz");                                      // symbolic field name
        Lib::HTable<std::string, int> o, r; o.insert(std::string(a), -5); o.insert(std::string("zz"), 6); r.insert(std::string("old"), 1); re(r, st(o, f), f);
        auto* x = r.get(a); auto* y = r.get(std::string("zz")); vf_check(r.num_entries() == 2 && x && *x == -5 && y && *y == 6, "field names of a table");
        Tree t; t.root().insert(a, 1, "zz", 2); Tree in; in.root().insert("q", 9); t.root().insert(a + "n", in.root()); AnyParser ap; Bytes8 d = t.to_source(ap.get(f)); Tree t2; t2.load_source(Lib::In::Source(d.data(), d.size()), ap.get(f));
        vf_check(t2.root().value(size_t(0)).name().unwrap() == a && t2.root().unwrap_field<int>(a) == 1 && t2.root().unwrap_field<int>("zz") == 2, "value names of a dynamic document");
        vf_check(t2.root().num_nodes() == 1 && t2.root().node(size_t(0)).name().unwrap() == a + "n" && t2.root().node(a + "n").unwrap_field<int>("q") == 9, "scope names of a dynamic document"); break; }
    case 4: { std::u32string u = cps((int)n); std::u16string w; for (auto c : u) { if (c < 0x10000) w.push_back((char16_t)c); else { w.push_back((char16_t)(0xd800 + ((c - 0x10000) >> 10))); w.push_back((char16_t)(0xdc00 + ((c - 0x10000) & 0x3ff))); } }
        X1<std::u16string> o, r; o.s = w; o.e = 9; re(r, st(o, f), f); vf_check(r.s == w && r.e == 9, "UTF-16 string"); if (P("x", 0)) { X1<std::u32string> q; re(q, st(o, f), f); vf_check(q.s == u, "UTF-16 stored, UTF-32 restored"); } break; }
    case 5: { std::u32string u = cps((int)n); X1<std::u32string> o, r; o.s = u; o.e = 9; re(r, st(o, f), f); vf_check(r.s == u && r.e == 9, "UTF-32 string"); if (P("x", 0)) { X1<std::wstring> q; re(q, st(o, f), f); vf_check(std::u32string(q.s.begin(), q.s.end()) == u, "UTF-32 stored, wide restored"); } break; }
    case 6: { Ch o, r; if (pos == 0) { vf_sym(&o.c, 1, "c"); vf_assume((uint8_t)o.c < 128); } if (pos == 1) { vf_sym(&o.d, 2, "d"); vf_assume(((uint16_t)o.d < 0xd800) | ((uint16_t)o.d >= 0xe000)); } if (pos == 2) o.e = cps(1)[0]; if (pos == 3) o.w = (wchar_t)cps(1)[0];
        if (pos == 4) { vf_sym(o.s, 3, "s"); for (int i = 0; i < 3; i++) vf_assume((uint8_t)o.s[i] < 128); } if (pos == 5) { o.t[0] = (char16_t)(cps(1)[0] & 0xffff); vf_assume(o.t[0] < 0xd800); o.t[1] = u'x'; } if (pos == 6) { auto u = cps(1); o.u[0] = u[0]; o.u[1] = U'y'; }
        o.end = 0xee; memset(r.s, 'q', 3); r.t[0] = r.t[1] = u'q'; r.u[0] = r.u[1] = U'q'; re(r, st(o, f), f);
        vf_check(r.c == o.c && r.d == o.d && r.e == o.e && r.w == o.w && r.end == 0xee, "single characters"); vf_check(strcmp(r.s, o.s) == 0, "character array");
        vf_check(std::u16string(r.t) == std::u16string(o.t) && std::u32string(r.u) == std::u32string(o.u), "wide character arrays"); break; }
    case 7: { unsigned k = (unsigned)P("base", 0) + vf_choose(n, "count"); struct D { std::vector<std::map<std::string, int>> v; void srl_resolve(Context& c) { c("v", v); } };          // many distinct names, each used several times
        Tree t; for (unsigned i = 0; i < k; i++) t.root().insert("f" + std::to_string(i), (int)i); Tree in; for (unsigned i = 0; i < k; i += 3) in.root().insert("f" + std::to_string(k - 1 - i), -(int)i); t.root().insert("n", in.root()); int q = (int)vf_any<int8_t>("q"); t.root().insert("last", q);
        AnyParser ap; Bytes8 d = t.to_source(ap.get(f)); Tree t2; t2.load_source(Lib::In::Source(d.data(), d.size()), ap.get(f)); vf_check(t2.root().num_values() == k + 1 && t2.root().num_nodes() == 1, "number of fields");
        for (unsigned i = 0; i < k; i++) vf_check(t2.root().value((size_t)i).name().unwrap() == "f" + std::to_string(i) && t2.root().value((size_t)i).unwrap<int>() == (int)i, "field name and value");
        Node& m = t2.root().node("n"); unsigned j = 0; for (unsigned i = 0; i < k; i += 3, j++) vf_check(m.value((size_t)j).name().unwrap() == "f" + std::to_string(k - 1 - i) && m.value((size_t)j).unwrap<int>() == -(int)i, "repeated field name");
        vf_check(t2.root().unwrap_field<int>("last") == q, "last field"); break; }
    case 8: { size_t len = (size_t)P("base", 0) + vf_choose(n, "len"); std::string a = pat(len), b = pat(len, 1); vf_sym(&a[len / 2], 1, "mid"); vf_assume(((uint8_t)a[len / 2] > 0x60) & ((uint8_t)a[len / 2] < 0x80));
        Lib::HTable<std::string, std::vector<int>> o, r; o.insert(std::string(a), std::vector<int>{ 1, 2 }); o.insert(std::string(b), std::vector<int>{ }); re(r, st(o, f), f); auto* x = r.get(a); auto* y = r.get(b);
        vf_check(r.num_entries() == 2 && x && *x == std::vector<int>({ 1, 2 }) && y && y->empty(), "long field names"); break; }
    }
    vf_reach("roundtrip");
}
