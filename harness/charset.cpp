// C16: conversion between UTF-8, UTF-16 and UTF-32.
// what 0 valid text; 1 arbitrary bytes; 2 fixed arrays; 3 single characters; 4 names; 5 equality
#include "common.hpp"
using namespace Srl;
typedef std::vector<uint32_t> Cps;
static const Encoding E[3] = { Encoding::UTF8, Encoding::UTF16, Encoding::UTF32 };
static void enc8(Bytes8& o, uint32_t c) { if (c < 0x80) o.push_back((uint8_t)c); else if (c < 0x800) { o.push_back((uint8_t)(0xc0 | c >> 6)); o.push_back((uint8_t)(0x80 | (c & 63))); } else if (c < 0x10000) { o.push_back((uint8_t)(0xe0 | c >> 12)); o.push_back((uint8_t)(0x80 | (c >> 6 & 63))); o.push_back((uint8_t)(0x80 | (c & 63))); } else { o.push_back((uint8_t)(0xf0 | c >> 18)); o.push_back((uint8_t)(0x80 | (c >> 12 & 63))); o.push_back((uint8_t)(0x80 | (c >> 6 & 63))); o.push_back((uint8_t)(0x80 | (c & 63))); } }
static void enc16(Bytes8& o, uint32_t c) { auto u = [&](uint32_t x) { o.push_back((uint8_t)x); o.push_back((uint8_t)(x >> 8)); }; if (c < 0x10000) u(c); else { c -= 0x10000; u(0xd800 | c >> 10); u(0xdc00 | (c & 0x3ff)); } }
static void enc32(Bytes8& o, uint32_t c) { for (int i = 0; i < 4; i++) o.push_back((uint8_t)(c >> 8 * i)); }
static Bytes8 encode(int e, const Cps& c) { Bytes8 o; for (auto x : c) { if (e == 0) enc8(o, x); else if (e == 1) enc16(o, x); else enc32(o, x); } return o; }
static bool scalar(uint32_t c) { return (c < 0x110000) & !((c >= 0xd800) & (c < 0xe000)); }
// strict decoding; false = not valid text
static bool decode(int e, const Bytes8& b, Cps& o) {
    size_t i = 0, n = b.size();
    while (i < n) {
        uint32_t c;
        if (e == 2) { if (n - i < 4) return false; c = b[i] | (uint32_t)b[i + 1] << 8 | (uint32_t)b[i + 2] << 16 | (uint32_t)b[i + 3] << 24; i += 4; }
        else if (e == 1) { if (n - i < 2) return false; c = b[i] | (uint32_t)b[i + 1] << 8; i += 2; if ((c & 0xfc00) == 0xd800) { if (n - i < 2) return false; uint32_t d = b[i] | (uint32_t)b[i + 1] << 8; i += 2; if ((d & 0xfc00) != 0xdc00) return false; c = 0x10000 + ((c & 0x3ff) << 10 | (d & 0x3ff)); } }
        else {
            uint8_t a = b[i++]; int k; uint32_t lo;
            if (a < 0x80) { k = 0; c = a; lo = 0; } else if ((a & 0xe0) == 0xc0) { k = 1; c = a & 31; lo = 0x80; } else if ((a & 0xf0) == 0xe0) { k = 2; c = a & 15; lo = 0x800; } else if ((a & 0xf8) == 0xf0) { k = 3; c = a & 7; lo = 0x10000; } else return false;
            for (; k; k--) { if (i >= n || (b[i] & 0xc0) != 0x80) return false; c = c << 6 | (b[i++] & 63u); }
            if (c < lo) return false;
        }
        if (!scalar(c)) return false;
        o.push_back(c);
    }
    return true;
}
static Cps cps(unsigned n) { Cps o; for (unsigned i = 0; i < n; i++) { uint32_t c = vf_any<uint32_t>("cp"); vf_assume(scalar(c)); o.push_back(c); } return o; }
template<class S> static Bytes8 raw(const S& s) { auto p = (const uint8_t*)s.data(); return Bytes8(p, p + s.size() * sizeof(s[0])); }
static Bytes8 unwrapAs(const String& s, int to, bool thr) { switch (to) { case 0: return raw(s.unwrap<char>(thr)); case 1: return raw(s.unwrap<char16_t>(thr)); default: return P("wide", 0) ? raw(s.unwrap<wchar_t>(thr)) : raw(s.unwrap<char32_t>(thr)); } }
template<class C> struct Arr { uint8_t a = 0x5a; C s[4]; uint8_t z = 0xa5; void srl_resolve(Context& c) { c("a", a)("s", s)("z", z); } };
template<class C, size_t N> static void fixedTo(const Bytes8& src, int from, const Bytes8& want) {
    struct G { C pre; C s[N]; C post; } g; memset(&g, 'q', sizeof g); G o = g;
    Buf b(src); Value v({ b.p, b.n }, E[from]); bool k;
    switch (P("via", 0)) { case 0: k = ok([&] { v.paste(g.s); }); break;
    default: { Tree t; t.root().insert("s", v); k = ok([&] { t.root().paste_field("s", g.s); }); } }
    vf_check(k == (want.size() <= (N - 1) * sizeof(C)), "text is refused exactly when it doesn't fit");
    if (k) { size_t m = want.size() / sizeof(C); vf_check(memcmp(g.s, want.data(), want.size()) == 0, "the text"); vf_check(g.s[m] == 0, "the text is terminated"); for (size_t i = m + 1; i < N; i++) vf_check(g.s[i] == o.s[i], "nothing behind the terminator changes"); vf_reach("fits"); }
    else { vf_check(memcmp(&g, &o, sizeof g) == 0, "a refused text changes nothing"); vf_reach("too long"); }
    vf_check(g.pre == o.pre && g.post == o.post, "nothing outside the array changes");
}
template<class C> static void one(const Bytes8& src, int from, const Bytes8& want) {
    struct G { C pre, c, post; } g; memset(&g, 'q', sizeof g); G o = g; Buf b(src); Value v({ b.p, b.n }, E[from]);
    bool k = ok([&] { v.paste(g.c); }); vf_check(k == (want.size() == sizeof(C)), "a single character is refused exactly when the text is not one character");
    if (k) { vf_check(memcmp(&g.c, want.data(), sizeof(C)) == 0, "the character"); vf_reach("fits"); } else { vf_check(g.c == o.c, "a refused text changes nothing"); vf_reach("too long"); }
    vf_check(g.pre == o.pre && g.post == o.post, "nothing outside the character changes");
}
extern "C" void harness() {
    unsigned n = (unsigned)P("n", 2); int from = (int)P("from", 0), to = (int)P("to", 1);
    switch (P("what", 0)) {
    case 0: { Cps c = cps(n); Bytes8 s = encode(from, c), w = encode(to, c); Buf b(s); String str({ b.p, b.n }, E[from]);
        vf_check(same(unwrapAs(str, to, true), w), "the converted text"); vf_check(same(Tools::conv_charset(E[to], str, true), w), "the converted bytes");
        std::vector<uint8_t> buf((size_t)P("room", 0), 'q'); size_t at = (size_t)P("at", 0); for (size_t i = buf.size(); i < at; i++) buf.push_back('q'); size_t k = Tools::conv_charset(E[to], str, buf, true, at);
        vf_check(k == w.size() && buf.size() >= at + k, "announced size"); vf_check(k == 0 || memcmp(buf.data() + at, w.data(), k) == 0, "the converted bytes"); for (size_t i = 0; i < at; i++) vf_check(buf[i] == 'q', "nothing before the text changes"); break; }
    case 1: { Bytes8 s(n); if (n) vf_sym(s.data(), n, "s"); Bytes8 pre = encode(from, Cps(1, 0x20ac)); if (P("pre", 0)) { put(pre, s.data(), n); s = pre; } Cps c; bool v = decode(from, s, c); Bytes8 w = v ? encode(to, c) : Bytes8(); Buf b(s); String str({ b.p, b.n }, E[from]); Bytes8 r;
        bool k = ok([&] { r = unwrapAs(str, to, true); }); vf_check(k == v, "exactly the valid texts are converted"); if (k) vf_check(same(r, w), "the converted text");
        k = ok([&] { r = unwrapAs(str, to, false); }); vf_check(k, "no exception unless errors are requested"); vf_check(same(r, w), "invalid text converts to nothing");
        vf_reach(v ? "valid" : "invalid"); break; }
    case 2: { Cps c = cps(n); if (P("nz", 1)) for (auto x : c) vf_assume(x != 0); Bytes8 s = encode(from, c), w = encode(to, c);
        switch (to * 3 + (int)P("size", 0)) { case 0: fixedTo<char, 1>(s, from, w); break; case 1: fixedTo<char, 4>(s, from, w); break; case 2: fixedTo<char, 6>(s, from, w); break;
        case 3: fixedTo<char16_t, 1>(s, from, w); break; case 4: fixedTo<char16_t, 2>(s, from, w); break; case 5: fixedTo<char16_t, 4>(s, from, w); break;
        case 6: fixedTo<char32_t, 1>(s, from, w); break; case 7: fixedTo<char32_t, 2>(s, from, w); break; case 8: fixedTo<char32_t, 3>(s, from, w); break; } break; }
    case 3: { Cps c = cps(n); Bytes8 s = encode(from, c), w = encode(to, c); if (to == 0) one<char>(s, from, w); else if (to == 1) one<char16_t>(s, from, w); else if (P("wide", 0)) one<wchar_t>(s, from, w); else one<char32_t>(s, from, w); break; }
    case 4: { // a name stored in one encoding is found in every other one
        static const uint32_t K[] = { 'a', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff };
        Cps c, d; for (unsigned i = 0; i < n; i++) { c.push_back(K[vf_choose(13, "c")]); } d = c; d[vf_choose(n, "pos")] = K[vf_choose(13, "d")]; Bytes8 s = encode(from, c), q = encode(to, d), u8 = encode(0, c); Buf b(s), b2(q); String a({ b.p, b.n }, E[from]), x({ b2.p, b2.n }, E[to]); bool eq = c == d;
        Tree t; t.root().insert(a, 5, "other", 6); Tree in; in.root().insert("q", 9); t.root().insert(a, in.root());
        vf_check(t.root().has_value(x) == eq && t.root().has_node(x) == eq, "a name is found in any encoding"); if (eq) { vf_check(t.root().value(x).unwrap<int>() == 5 && t.root().node(x).unwrap_field<int>("q") == 9, "the named item"); vf_reach("found"); } else { vf_check(!ok([&] { t.root().value(x); }), "another name is not found"); vf_reach("not found"); }
        int f = (int)P("fmt", 0); AnyParser ap; Bytes8 doc = t.to_source(ap.get(f)); Buf bb(doc); Tree l; l.load_source(Lib::In::Source(bb.p, bb.n), ap.get(f)); vf_check(same(raw(l.root().value((size_t)0).name().unwrap()), u8) && same(raw(l.root().node((size_t)0).name().unwrap()), u8), "names in the document"); break; }
    case 5: { Cps c = cps(n), d = cps(n); Bytes8 s = encode(from, c), q = encode(to, d); Buf b(s), b2(q); String x({ b.p, b.n }, E[from]), y({ b2.p, b2.n }, E[to]); vf_check((x == y) == (c == d), "texts are equal exactly when their code points are"); vf_reach(c == d ? "found" : "not found"); break; }
    }
    vf_reach("done");
}
