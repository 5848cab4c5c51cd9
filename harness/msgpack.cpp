// C11: MessagePack both ways against an independent decoder.
// what 0 raw continuation of a prefix; 1 templates; 2 text/binary/key with every length header; 3 containers with every length header; 10.. documents written by the library
#include "mref.hpp"
using namespace Srl;
static const char* const pre[] = { "", "91", "81a161", "9281a16b05", "82a16101", "93c0", "de0001a161", "dd0000000192", "81" };
static const char* const tpl[] = {
    /*0*/ "91cc??", "81a161cd????", "92ce????????00", "91cf????????????????", "91d0??", /*5*/ "81a161d1????", "92d2????????c3", "91d3????????????????", "91ca????????", "91cb????????????????",
    /*10*/ "91a?????????????????????", "91d903??????", "91da0003??????", "91db00000003??????", "91c403??????", /*15*/ "91c50003??????", "91c600000003??????", "81a1??c3", "81d901??01", "81da0001??01", /*20*/ "81db00000001??01",
    "82a16181a162??a16392??c0", "dc0002????", "dd00000002????", "de0001a1????", /*25*/ "df00000001a1????", "9?????????", "8?a1??????a001", "92????", "93????c0", /*30*/ "83a16101a161??a16391??", "9192929092??80??91??c0", "82a0??a0??", "91e?", "93d9??????????", /*35*/ "91c4????????", "92dc00??????", "92de00??????????", "81a178cb7ff?????????????", "81a178ca7f??????" };
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void read(const Bytes8& d) {
    MRead r(d.data(), d.size()); MV v;
    if (!r.doc(v)) { vf_reach("invalid"); return; }
    vf_reach("valid");
    Tree t; Buf b(d); PMsgPack p;
    bool acc = ok([&] { if (P("stream", 0)) { InStream is(d, 5); t.load_source(Lib::In::Source(is.is), p); } else t.load_source(Lib::In::Source(b.p, b.n), p); });
    vf_check(acc, "a valid MessagePack document is accepted");
    vf_check(sameMV(t.root(), v), "a valid MessagePack document is read with its meaning");
}
static void hdr(Bytes8& d, unsigned fix, unsigned fixmax, int c8, int c16, int c32, unsigned enc, size_t n) {
    if (enc == 0) { vf_assume(n <= fixmax); d.push_back((uint8_t)(fix | n)); }
    else if (enc == 1) { vf_assume(c8 >= 0 && n < 256); d.push_back((uint8_t)c8); d.push_back((uint8_t)n); }
    else if (enc == 2) { vf_assume(n < 65536); d.push_back((uint8_t)c16); d.push_back((uint8_t)(n >> 8)); d.push_back((uint8_t)n); }
    else { d.push_back((uint8_t)c32); for (int i = 3; i >= 0; i--) d.push_back((uint8_t)(n >> (8 * i))); }
}
static void fillTo(Bytes8& d, size_t n, bool symb) { for (size_t i = 0; i < n; i++) { uint8_t c = (uint8_t)('a' + i % 26); if (symb && (i < 1 || i + 1 == n)) vf_sym(&c, 1, "c"); d.push_back(c); } }
static MV M(char t) { MV v; v.t = t; return v; }
static MV MS(const std::string& s, char t = 's') { MV v; v.t = t; v.s = s; return v; }
static MV MI(uint64_t x, bool neg) { MV v; v.t = 'i'; v.u = x; v.neg = neg; return v; }
static bool same(const MV& a, const MV& b) {
    if (a.t != b.t || a.s != b.s || a.names != b.names || a.kids.size() != b.kids.size()) return false;
    if (a.t == 'i' && (a.u != b.u || a.neg != b.neg)) return false;
    if (a.t == 'f') { double x, y; float f; uint32_t w; if (a.dbl) memcpy(&x, &a.u, 8); else { w = (uint32_t)a.u; memcpy(&f, &w, 4); x = f; } if (b.dbl) memcpy(&y, &b.u, 8); else { w = (uint32_t)b.u; memcpy(&f, &w, 4); y = f; } if (!(x == y || (x != x && y != y))) return false; }
    for (size_t i = 0; i < a.kids.size(); i++) if (!same(a.kids[i], b.kids[i])) return false;
    return true;
}
static MV parse(const Bytes8& d) { MRead r(d.data(), d.size()); MV v; vf_check(r.doc(v), "the written document is well-formed MessagePack"); return v; }
template<class T> static MV mi(T x) { if (std::is_same<T, float>::value || std::is_same<T, double>::value) { MV v = M('f'); v.dbl = sizeof(T) == 8; v.u = 0; memcpy(&v.u, &x, sizeof(T)); return v; } return MI((uint64_t)(int64_t)x, std::is_signed<T>::value && x < 0); }
template<class T> static void scalar() {
    T x = vf_any<T>("x"); struct O { T x; std::vector<T> l; std::map<int8_t, T> m; void srl_resolve(Context& c) { c("x", x)("l", l)("m", m); } } o; o.x = x; o.l = { x, x }; o.m[-5] = x;
    Tree t; PMsgPack p; MV v = P("tree", 0) ? (t.load_object(o), parse(t.to_source(p))) : parse(t.store(o, p)), w = M('m'), l = M('a'), m = M('a'), e = M('m');
    l.kids = { mi(x), mi(x) }; e.names = { "key", "value" }; e.kids = { MI(0 - 5ull, true), mi(x) }; m.kids = { e }; w.names = { "x", "l", "m" }; w.kids = { mi(x), l, m };
    vf_check(same(v, w), "the written document holds the stored content");
}
struct E { void srl_resolve(Context&) { } };
struct W { std::string n; Bytes8 raw; std::vector<int> v; E e; std::vector<E> ve; std::tuple<bool, std::string, E> t; bool b = false; std::unique_ptr<int> np;
    void srl_resolve(Context& c) { c("n", n)("raw", VecWrap<uint8_t>(raw))("v", v)("e", e)("ve", ve)("t", t)("b", b)("np", np); } };
extern "C" void harness() {
    unsigned what = P("what", 0), n = (unsigned)P("n", 3); Bytes8 d;
    if (what <= 1) {
        const char* s = what ? tpl[P("t", 0)] : pre[P("pre", 0)];
        for (; *s; s += 2) { uint8_t x; if (s[0] == '?' && s[1] == '?') vf_sym(&x, 1, "hole"); else if (s[1] == '?') { vf_sym(&x, 1, "low"); vf_assume((x >> 4) == hx(s[0])); } else x = (uint8_t)(hx(s[0]) << 4 | hx(s[1])); d.push_back(x); }
        if (!what) { size_t at = d.size(); d.resize(at + n); vf_sym(d.data() + at, n, "doc"); }
        read(d); return;
    }
    unsigned enc = (unsigned)P("enc", 0), kind = (unsigned)P("kind", 0);
    if (what == 2) {
        size_t len = (size_t)P("base", 0) + vf_choose(n, "len");
        d.push_back(kind == 2 ? 0x81 : 0x92);
        if (kind == 1) hdr(d, 0, 0, 0xc4, 0xc5, 0xc6, enc, len); else hdr(d, 0xa0, 31, 0xd9, 0xda, 0xdb, enc, len);
        fillTo(d, len, P("sym", 1)); d.push_back(0xc3); read(d); return;
    }
    if (what == 3) {
        size_t len = (size_t)P("base", 0) + vf_choose(n, "len");
        d.push_back(0x92); if (kind) hdr(d, 0x80, 15, -1, 0xde, 0xdf, enc, len); else hdr(d, 0x90, 15, -1, 0xdc, 0xdd, enc, len);
        for (size_t i = 0; i < len; i++) { if (kind) { d.push_back(0xa1); d.push_back((uint8_t)('a' + i % 26)); } d.push_back((uint8_t)(i & 0x7f)); }
        d.push_back(0xc2); read(d); return;
    }
    PMsgPack p; Tree t;
    switch (what) {
    case 10: switch (P("type", 0)) { case 0: scalar<int8_t>(); break; case 1: scalar<uint8_t>(); break; case 2: scalar<int16_t>(); break; case 3: scalar<uint16_t>(); break; case 4: scalar<int32_t>(); break; case 5: scalar<uint32_t>(); break; case 6: scalar<int64_t>(); break; case 7: scalar<uint64_t>(); break; case 8: scalar<float>(); break; case 9: scalar<double>(); break; } break;
    case 11: { std::string s(n, 0), k(P("names", 0), 0); vf_sym(&s[0], n, "s"); vf_sym(&k[0], k.size(), "k"); Tree in; in.root().insert("q", s); t.root().insert(k, s, "z", BitWrap((const uint8_t*)s.data(), s.size()), k + "n", in.root());
        MV v = parse(t.to_source(p)), w = M('m'), o = M('m'); o.names = { "q" }; o.kids = { MS(s) }; w.names = { k, "z", k + "n" }; w.kids = { MS(s), MS(s, 'b'), o }; vf_check(same(v, w), "the written document holds the stored names, text and binary data"); break; }
    case 12: { W o; o.n = "nm"; o.raw.resize(vf_choose(3, "raw"), 200); o.v.resize(vf_choose(n, "v"), -7); o.ve.resize(vf_choose(3, "ve")); std::get<0>(o.t) = vf_choose(2, "b0"); o.b = vf_choose(2, "b"); if (vf_choose(2, "np")) o.np.reset(new int(5000));
        bool tr = P("tree", 0); if (tr) t.load_object(o); MV v = tr ? parse(t.to_source(p)) : parse(t.store(o, p)), w = M('m'), a;
        auto add = [&](const char* nm, const MV& k) { w.names.push_back(nm); w.kids.push_back(k); };
        MV l = M('a'), le = M('a'), tu = M('a'); for (int x : o.v) l.kids.push_back(MI((uint64_t)(int64_t)x, true)); for (size_t i = 0; i < o.ve.size(); i++) le.kids.push_back(M('m')); tu.kids = { M(std::get<0>(o.t) ? 'T' : 'F'), MS(""), M('m') };
        add("n", MS("nm")); add("raw", MS(std::string(o.raw.begin(), o.raw.end()), 'b')); if (!tr) { add("v", l); add("e", M('m')); add("ve", le); add("t", tu); } add("b", M(o.b ? 'T' : 'F')); add("np", o.np ? MI(5000, false) : M('0')); if (tr) { add("v", l); add("e", M('m')); add("ve", le); add("t", tu); }
        vf_check(same(v, w), "the written document holds the stored content"); break; }
    case 13: { size_t len = (size_t)P("base", 0) + vf_choose(n, "len"); Bytes8 c; fillTo(c, len, P("sym", 1)); std::string s(c.begin(), c.end()); MV w = M('m');
        if (kind == 2) { t.root().insert(s, 1); w.names = { s }; w.kids = { MI(1, false) }; } else if (kind == 1) { t.root().insert("k", BitWrap((const uint8_t*)s.data(), s.size())); w.names = { "k" }; w.kids = { MS(s, 'b') }; } else { t.root().insert("k", s); w.names = { "k" }; w.kids = { MS(s) }; }
        vf_check(same(parse(t.to_source(p)), w), "long items are written with their length"); break; }
    case 14: { size_t len = (size_t)P("base", 0) + vf_choose(n, "len"); std::vector<uint8_t> l(len, 9); MV w = M('a'); for (size_t i = 0; i < len; i++) w.kids.push_back(MI(9, false)); MV v; if (kind) { OutStream os; t.store(l, os.os, p); v = parse(os.b.v); } else v = parse(t.store(l, p)); vf_check(same(v, w), "long lists are written with their length"); break; }
    case 15: { uint32_t c = vf_any<uint32_t>("cp"); vf_assume((c < 0x110000) & !((c >= 0xd800) & (c < 0xe000))); std::u32string u(1, c); t.root().insert(u, u); MV v = parse(t.to_source(p)); std::string r; 
        if (c < 0x80) r = { (char)c }; else if (c < 0x800) r = { (char)(0xc0 | c >> 6), (char)(0x80 | (c & 63)) }; else if (c < 0x10000) r = { (char)(0xe0 | c >> 12), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63)) }; else r = { (char)(0xf0 | c >> 18), (char)(0x80 | (c >> 12 & 63)), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63)) };
        vf_check(v.kids.size() == 1 && v.names[0] == r && v.kids[0].t == 's' && v.kids[0].s == r, "wide names and text are written as UTF-8"); break; }
    }
    vf_reach("written");
}
