// C04 stream input = memory input, C05 stream output = memory output.
// what 0: raw symbolic bytes; 1: JSON templates; 2: stored object of any format; 3: large text/blob (C04);  10: store; 11: store after earlier content and again; 12: one tree stores documents of several sizes
#include "common.hpp"
using namespace Srl;
struct In2 { int32_t x = 0; std::string t; void srl_resolve(Context& c) { c("x", x)("t", t); } };
struct Doc {
    std::string pad; int64_t a = 0; std::string s; double d = 0; bool b = false; std::vector<int16_t> v; std::vector<uint8_t> bin; std::u16string w; In2 in; std::vector<In2> l; std::vector<std::vector<std::string>> vv;
    void srl_resolve(Context& c) { c("pad", pad)("a", a)("v", v)("s", s)("d", d)("in", in)("b", b)("bin", VecWrap<uint8_t>(bin))("w", w)("l", l)("vv", vv); }
    bool operator==(const Doc& o) const { if (!(pad == o.pad && a == o.a && s == o.s && d == o.d && b == o.b && v == o.v && same(bin, o.bin) && w == o.w && in.x == o.in.x && in.t == o.in.t && l.size() == o.l.size() && vv == o.vv)) return false;
        for (size_t i = 0; i < l.size(); i++) if (l[i].x != o.l[i].x || l[i].t != o.l[i].t) return false; return true; }
};
struct ODoc { std::string s; int a = 7; std::vector<int> v; In2 in; std::string z; void srl_resolve(Context& c) { auto O = CtxFlags::Optional; c("z", z, O)("a", a, O)("v", v, O)("in", in, O)("s", s, O); } };

// load from memory and from a stream: same rejection or same content
static void both(const Bytes8& d, int f, size_t step) {
    Bytes8 m, s; bool om, os; Buf b(d);
    { Tree t; AnyParser ap; om = ok([&] { t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); dumpNode(t.root(), m); }); }
    { Tree t; AnyParser ap; InStream is(d, step); os = ok([&] { t.load_source(Lib::In::Source(is.is), ap.get(f)); dumpNode(t.root(), s); }); }
    vf_check(om == os, "stream and memory agree on acceptance");
    if (om) { vf_check(same(m, s), "stream and memory give the same content"); vf_reach("accepted"); } else vf_reach("rejected");
    vf_observe(om);
}
template<class T, class Eq> static void bothTyped(const Bytes8& d, int f, size_t step, Eq eq) {
    T m, s; bool om, os; Buf b(d);
    { Tree t; AnyParser ap; om = ok([&] { t.restore(m, Lib::In::Source(b.p, b.n), ap.get(f)); }); }
    { Tree t; AnyParser ap; InStream is(d, step); os = ok([&] { t.restore(s, Lib::In::Source(is.is), ap.get(f)); }); }
    vf_check(om == os, "typed restore: stream and memory agree on acceptance");
    if (om) { vf_check(eq(m, s), "typed restore: stream and memory give the same object"); vf_reach("accepted"); } else vf_reach("rejected");
}
static bool eqO(const ODoc& a, const ODoc& b) { return a.s == b.s && a.a == b.a && a.v == b.v && a.in.x == b.in.x && a.in.t == b.in.t && a.z == b.z; }

// fields whose names have any length
static std::string gname[6];
struct Ln { std::string pad; int32_t a = 0; std::string s; double d = 0; In2 in; std::vector<std::string> v; std::string z;
    void srl_resolve(Context& c) { c("p", pad)(gname[0], s)(gname[1], d)(gname[2], in)(gname[3], a)(gname[4], v)(gname[5], z); }
    bool operator==(const Ln& o) const { return pad == o.pad && a == o.a && s == o.s && d == o.d && in.x == o.in.x && in.t == o.in.t && v == o.v && z == o.z; } };

// JSON texts; %P is the padding, ? a symbolic byte
static const char* const jt[] = {
    /*0*/ "{\"z\":\"%P\",\"a\":-1?3,\"s\":\"q\\n\\u00e4\\\"?\",\"v\":[1, 22,-333 ,4],\"in\":{\"x\":5,\"t\":\"\"},\"u\":true}",
    /*1*/ "%S{\"a\"  :  12345 , \"k\" : null,\t\"in\" : { \"t\" : \"abc\\\\?\", \"x\" : 1e3 } , \"v\" : [ ] }",
    /*2*/ "{\"z\":\"%P\",\"s\":\"\\ud83d\\ude00x\\u20acy\\b\\f\\r\\t\\/?\",\"o\":{\"q\":[{},[],[[1.5,false]]]},\"a\":9223372036854775807}",
    /*3*/ "%S[/* c?mm */1,// line \n2 , \"a\\\\\\\\\" /**/ ,{\"\\u0061?\":[-0.5e-2,\"\"]}]",
    /*4*/ "{\"z\":\"%P\",\"unknown?\":{\"deep\":[1,[2,{\"q\":\"\\\"]}\"}]]},\"a\":5,\"in\":{\"t\":\"x\",\"x\":3}}",
    /*5*/ "{\"z\":\"%E\",\"s\":\"?\",\"a\":1}",                              // padding made of escapes
    /*6*/ "{\"%P\":1,\"s\":\"a?c\",\"a\":77}" };                            // padded name
static Bytes8 build(const char* t, size_t pad) {
    Bytes8 o;
    for (const char* p = t; *p; p++) {
        if (*p == '%') { p++;
            if (*p == 'E') { for (size_t i = 0; i + 1 < pad; i += 2) { o.push_back('\\'); o.push_back(i % 4 ? 'n' : '"'); } if (pad & 1) o.push_back('x'); }
            else for (size_t i = 0; i < pad; i++) o.push_back(*p == 'S' ? " \n\t"[i % 3] : 'a' + i % 26); }
        else o.push_back((uint8_t)*p);
    }
    return o;
}
static std::string pattern(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 'A' + (i * 7 + i / 64) % 58; return s; }
static Doc sample(size_t pad) {
    Doc o; o.pad = pattern(pad); vf_sym(&o.a, P("syma", 1) ? 8 : 1, "a"); o.s = std::string("s\"\\\n\0u", 6); o.s += std::string((size_t)P("slen", 0), 'y'); o.d = 0.1; o.b = vf_choose(2, "b");
    o.v = { 1, -300, 32767, -32768 }; o.bin = Bytes8((size_t)P("blen", 5), 0x5a); if (!o.bin.empty()) vf_sym(&o.bin[o.bin.size() - 1], 1, "bin"); o.w = u"w\u20ac"; o.in.x = -1; o.in.t = "in"; o.l.resize(2); o.l[1].t = "l1"; o.vv = { { }, { "x" }, { "", "yy" } };
    return o;
}

extern "C" void harness() {
    int what = P("what", 0), f = P("fmt", 0);
    size_t step = (size_t)P("step", 64), base = (size_t)P("base", 0), pad = base + (P("n", 1) > 1 ? vf_choose((unsigned)P("n", 1), "pad") : 0);
    if (what == 0) {
        static const char* const pre[3][6] = { { "", "{\"a\":", "[\"\\", "[1", "[/", "[tr" }, { "", "\x81\xa1" "a", "\x92", "\xdc\x00", "\x81\xd9", "\x91\xc7" }, { "", "\x40\x21\x02", "\x80", "\x40\x42\x01" "a", "\x80\x20", "\x80\x10" } };
        static const unsigned pl[3][6] = { { 0, 5, 3, 2, 2, 3 }, { 0, 3, 1, 2, 2, 2 }, { 0, 3, 1, 4, 2, 2 } };
        int k = P("pre", 0); Bytes8 d((const uint8_t*)pre[f][k], (const uint8_t*)pre[f][k] + pl[f][k]);
        size_t at = d.size(), len = (size_t)P("len", 3); d.resize(at + len); vf_sym(d.data() + at, len, "doc");
        both(d, f, step);
        return;
    }
    if (what == 1) {
        Bytes8 d = build(jt[P("t", 0)], pad);
        for (auto& c : d) if (c == '?') { c = (uint8_t)P("fill", 'k'); if (P("sym", 0)) { vf_sym(&c, 1, "hole"); if (P("sym", 0) == 1) vf_assume((c >= 0x20) & (c < 0x7f)); } }
        if (P("cut", 0)) d.resize(d.size() > (size_t)P("cut", 0) ? d.size() - (size_t)P("cut", 0) : 0);
        if (P("typed", 0)) bothTyped<ODoc>(d, JSON, step, eqO); else both(d, JSON, step);
        return;
    }
    if (what == 2) {
        Doc o = sample(pad); AnyParser ap; Tree t; Bytes8 d = t.store(o, ap.get(f));
        if (P("cut", 0)) d.resize(d.size() - (size_t)P("cut", 0));
        if (P("hole", 0)) { size_t h = d.size() - (size_t)P("hole", 0); vf_sym(&d[h], 1, "hole"); }
        if (P("typed", 0)) { bothTyped<Doc>(d, f, step, [](const Doc& a, const Doc& b) { return a == b; });
            if (!P("cut", 0) && !P("hole", 0)) { Doc r; Tree t2; InStream is(d, step); t2.restore(r, Lib::In::Source(is.is), ap.get(f)); vf_check(r == o, "object restored from the stream equals the stored one"); } }
        else both(d, f, step);
        return;
    }
    if (what == 3) {                                                                        // one huge item, then small ones
        size_t big = pad; Doc o; o.pad = pattern(big); if (big > 40) { vf_sym(&o.pad[big - 33], 1, "c0"); vf_assume((uint8_t)o.pad[big - 33] < 128); }
        o.bin = Bytes8(P("blen", 5), 0x31); o.s = "end"; o.a = -5; o.d = 2.5; o.l.resize(1); o.w = u"zz"; o.vv = { { "q" } };
        AnyParser ap; Tree t; Bytes8 d = t.store(o, ap.get(f)); Doc r; InStream is(d, step); t.restore(r, Lib::In::Source(is.is), ap.get(f)); vf_check(r == o, "large items restored from a stream");
        Tree t2; InStream is2(d, step); t2.load_source(Lib::In::Source(is2.is), ap.get(f)); Bytes8 d2, d3; dumpNode(t2.root(), d2); Tree t3; t3.load_source(Lib::In::Source(d.data(), d.size()), ap.get(f)); dumpNode(t3.root(), d3);
        vf_check(same(d2, d3), "large items loaded from a stream"); vf_reach("accepted");
        return;
    }
    if (what == 4) {                                                                        // long field names around every refill
        size_t nl = (size_t)P("name", 33);
        for (int i = 0; i < 6; i++) { gname[i] = std::string(nl + (size_t)(i % 3), (char)('m' + i)); gname[i][nl / 2] = (char)('A' + i); }
        Ln o; o.pad = pattern(pad); o.a = -77; o.s = pattern((size_t)P("slen", 40)); o.d = 1.25; o.in.x = 9; o.in.t = "t"; o.v = { "e", pattern(50) }; o.z = "z"; vf_sym(&o.z[0], 1, "z"); vf_assume(((uint8_t)o.z[0] >= 0x20) & ((uint8_t)o.z[0] < 0x7f) & (o.z[0] != '/') & (o.z[0] != '"') & (o.z[0] != '\\'));
        AnyParser ap; Tree t; Bytes8 d = t.store(o, ap.get(f));
        if (P("typed", 0)) { Ln r; Tree t2; InStream is(d, step); bool k = ok([&] { t2.restore(r, Lib::In::Source(is.is), ap.get(f)); }); vf_check(k && r == o, "object with long names restored from the stream"); vf_reach("accepted"); }
        else both(d, f, step);
        return;
    }
    if (what == 12) {                                                                       // one tree stores documents of different sizes to memory and streams
        AnyParser ap, aq; Tree t; static const size_t first[] = { 0, 60, 200, 700, 1500, 5000 }; size_t k = vf_choose(6, "first"); unsigned mix = (unsigned)P("mix", 0);
        for (int i = 0; i < (int)P("times", 2); i++) {
            size_t n = i == 0 ? first[k] : i == 1 ? pad : first[(k + (size_t)i) % 6]; Doc o; o.pad = pattern(n); o.a = -3 - i; o.b = i & 1; o.s = "s\"x"; if (i == 1) { char c = (char)vf_any<uint8_t>("c"); vf_assume((c >= 'a') & (c <= 'z')); o.s += c; } o.v = { 1, -300 }; o.bin = Bytes8(5, 0x5a); o.d = 0.5; o.l.resize(1); if (i) o.vv.push_back(std::vector<std::string>(n / 64, "item")); Tree r; OutStream os;
            Bytes8 want = r.store(o, aq.get(f)), got;
            if ((mix >> i) & 1) { t.store(o, Lib::Out::Source(os.os), ap.get(f)); got.assign(os.b.v.begin(), os.b.v.end()); } else if ((mix >> (i + 8)) & 1) { t.load_object(o); r.load_object(o); want = r.to_source(aq.get(f)); got = t.to_source(ap.get(f)); } else got = t.store(o, ap.get(f));
            vf_check(same(got, want), "a document stored by a tree used before equals that of a new one"); }
        vf_reach("stored"); return;
    }
    // ---- C05
    AnyParser ap; Doc o = sample(pad); Tree t; Bytes8 want;
    if (P("tree", 0)) { Tree t2; t2.load_object(o); want = t2.to_source(ap.get(f)); } else want = t.store(o, ap.get(f));     // a tree lists values before scopes
    size_t before = (size_t)P("before", 0); OutStream os; Bytes8 old(before);
    for (size_t i = 0; i < before; i++) old[i] = (uint8_t)(i * 3);
    if (before) { vf_sym(&old[before - 1], 1, "old"); os.os.write((const char*)old.data(), before); }
    size_t over = (size_t)P("over", 0), all = before + over; if (over) { Bytes8 e(over, 0xee); os.os.write((const char*)e.data(), over); os.os.seekp((std::streamoff)before); }
    auto expect = [&](const Bytes8& w, size_t at, const char* m) { vf_check(os.b.v.size() >= at + w.size() && memcmp(os.b.v.data() + at, w.data(), w.size()) == 0, m); };
    size_t at = before;
    for (int k = 0; k < (int)P("times", 1); k++) {
        if (P("tree", 0)) { Tree t2; t2.load_object(o); t2.to_source(Lib::Out::Source(os.os), ap.get(f)); } else t.store(o, Lib::Out::Source(os.os), ap.get(f));
        vf_check(os.b.v.size() == std::max(all, at + want.size()) && os.b.at == at + want.size(), "stream output has the size of the memory output");
        for (size_t q = at + want.size(); q < all; q++) if (os.b.v[q] != 0xee) { vf_fail("later content of the stream is untouched"); return; }
        expect(want, at, "stream output equals memory output");
        if (before) vf_check(memcmp(os.b.v.data(), old.data(), before) == 0, "earlier content of the stream is untouched");
        at += want.size();
    }
    vf_reach("stored");
}
