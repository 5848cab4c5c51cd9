// C23: one tree and one parser used again and again, also after failures, against fresh objects.
// fmt / fmt2: format of the operations before / of the last one; ops: number of operations before the last one; op/op2: fix the operation (-1 any); fin: last operation; stream: operations read and write streams
#include "common.hpp"
using namespace Srl;
struct Stop { };
static int g_left = -1;                                       // user code fails after this many fields
static void tick() { if (g_left >= 0 && g_left-- == 0) throw Stop(); }
struct In { uint8_t p = 0; std::string q; void srl_resolve(Context& c) { tick(); c("p", p); tick(); c("q", q); } };
struct O { uint8_t n = 3; std::string s = "old"; std::vector<std::string> v { "x" }; std::map<std::string, int> m; std::shared_ptr<In> a, b; In in; Bytes raw; std::unique_ptr<int> up;
    void srl_resolve(Context& c) { tick(); c("n", n); tick(); c("s", s)("v", v)("m", m); tick(); c("a", a)("b", b); tick(); c("in", in)("raw", raw); tick(); c("up", up); } };
struct Q { int64_t k = 1; std::string s; std::vector<In> l; std::shared_ptr<In> w; void srl_resolve(Context& c) { tick(); c("k", k); tick(); c("s", s); tick(); c("l", l); tick(); c("w", w); } };
struct Wrong { std::vector<int> s; uint8_t n = 0; void srl_resolve(Context& c) { c("n", n)("s", s); } };          // refuses documents of O
struct Part { std::string s; void srl_resolve(Context& c) { c("s", s); } };                                            // leaves most of the document unread
struct Late { Part p; int missing = 0; void srl_resolve(Context& c) { c("in", p.s); } };
static uint8_t g_b;
static O mk() { O o; o.n = g_b; o.s = "text of the first"; o.v = { "one", "a longer second element", "" }; o.m["alpha"] = 5; o.m["n"] = 2; o.a.reset(new In); o.a->p = 8; o.a->q = "shared"; o.b = o.a; o.in.p = g_b; o.in.q = "q\n"; o.raw = Bytes(Bytes8 { 1, 2, 3, 4 }); o.up.reset(new int(77)); return o; }
static Q mkq() { Q q; q.k = -700; q.s = "another"; In i; i.p = 50; i.q = "n"; q.l = { i, i }; q.w.reset(new In); q.w->p = g_b; q.w->q = "own"; return q; }
struct Ctx { Tree t; AnyParser ap; };
static bool g_stream, g_array;
template<class T> static Bytes8 store(Ctx& c, const T& o, int f) { if (!g_stream) return c.t.store(o, c.ap.get(f)); OutStream s; c.t.store(o, s.os, c.ap.get(f)); return s.b.v; }
template<class F> static void with(const Bytes8& d, F fn) { if (g_stream) { InStream s(d, 9); Lib::In::Source src(s.is); fn(src); } else { Buf b(d); Lib::In::Source src(b.p, b.n); fn(src); } }
template<class T> static Bytes8 fresh(const T& o, int f) { Tree t; AnyParser ap; return t.store(o, ap.get(f)); }
template<class T> static void put(Bytes8& o, const T& x) { Bytes8 d = fresh(x, SRLF); o.insert(o.end(), d.begin(), d.end()); o.push_back(0xee); }
static Bytes8 cut(Bytes8 d, size_t k) { d.resize(k); return d; }
struct BadOut : OutBuf { int left; BadOut(int l) : left(l) { } std::streamsize xsputn(const char* s, std::streamsize n) override { if (left-- <= 0) throw Stop(); return OutBuf::xsputn(s, n); } int_type overflow(int_type c) override { if (left-- <= 0) throw Stop(); return OutBuf::overflow(c); } };
struct BadIn : InBuf { size_t left; BadIn(const Bytes8& d, size_t l, size_t step) : InBuf(d.data(), d.size(), step), left(l) { } int_type underflow() override { if (at >= left) throw Stop(); return InBuf::underflow(); } };
enum { NOPS = 27, NFIN = 10 };
static void op(Ctx& c, int k, int f) {                     // anything may happen here, but only the expected exceptions
    O o = mk(); Q q = mkq();
    try { switch (k) {
    case 0: store(c, o, f); break;
    case 1: g_left = vf_choose(8, "stop"); store(c, o, f); break;
    case 2: with(fresh(o, f), [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get(f)); }); break;
    case 3: { auto d = fresh(o, f); size_t n = P("cuts", 12); int i = vf_choose((unsigned)n, "cut"); with(cut(d, (size_t)(i * d.size() / n)), [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get(f)); }); break; }
    case 4: { auto d = fresh(o, f); size_t n = P("cuts", 12); int i = vf_choose((unsigned)n, "cut"); O r; with(cut(d, (size_t)(i * d.size() / n)), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    case 5: { O r; with(fresh(o, f), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    case 6: { O r; g_left = -1; auto d = fresh(o, f); g_left = vf_choose(8, "stop"); with(d, [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    case 7: { Wrong r; with(fresh(o, f), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    case 8: { Part r; with(fresh(o, f), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    case 9: { OutStream s; c.t.pack(s.os, c.ap.get(f), "n", 4, "s", std::string("packed"), "zz", std::vector<int> { 1, 2 }); break; }
    case 10: { std::string s; uint8_t n = 0; with(fresh(o, f), [&](Lib::In::Source src) { c.t.unpack(src, c.ap.get(f), "n", n, "s", s); }); break; }
    case 11: { int s; std::vector<int> n; with(fresh(o, f), [&](Lib::In::Source src) { c.t.unpack(src, c.ap.get(f), "n", s, "s", n); }); break; }
    case 12: c.t.load_object(o); break;
    case 13: g_left = vf_choose(8, "stop"); c.t.load_object(o); break;
    case 14: c.t.load_object(q); c.t.to_source(c.ap.get(f)); break;
    case 15: { Tree x(std::move(c.t)); x.load_object(q); c.t = std::move(x); break; }
    case 16: c.t.clear(); break;
    case 17: c.t.root().insert("n", 9, "extra", o.v); c.t.root().insert("a", o); break;
    case 18: { Bytes8 x; auto d = fresh(o, f); d.push_back('}'); d.push_back(0xff); Part r; with(d, [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); c.t.to_source(c.ap.get(f)); break; }
    case 19: { std::vector<std::string> l { "a", "b", "c" }; store(c, l, f); int i = 5; store(c, i, f); break; }
    case 20: { auto d = fresh(o, f); d[0] ^= 0x55; O r; with(d, [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    case 21: { g_left = vf_choose(6, "stop"); OutStream s; c.t.pack(s.os, c.ap.get(f), "n", 4, "o", o, "q", q); break; }
    case 22: { BadOut b(vf_choose(3, "sink fails")); std::ostream os(&b); os.exceptions(std::ios::badbit); o.s = std::string(1500, 's'); c.t.store(o, os, c.ap.get(f)); break; }
    case 23: { o.s = std::string(600, 's'); auto d = fresh(o, f); BadIn b(d, (size_t)vf_choose(6, "source fails") * d.size() / 6, 50); std::istream is(&b); is.exceptions(std::ios::badbit); O r; if (vf_choose(2, "load")) c.t.load_source(is, c.ap.get(f)); else c.t.restore(r, is, c.ap.get(f)); break; }
    case 24: { c.t.store(o, c.ap.get((f + 1) % 3)); with(fresh(q, (f + 2) % 3), [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get((f + 2) % 3)); }); break; }
    case 25: { auto d = fresh(o, f); g_left = vf_choose(8, "stop"); Tree x; O r; with(d, [&](Lib::In::Source s) { x.restore(r, s, c.ap.get(f)); }); break; }
    case 26: { std::vector<In> l = q.l; with(fresh(l, f), [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get(f)); }); g_array = true; break; }
    case 27: { auto d = fresh(q, f); size_t i = P("at", -1) < 0 ? vf_choose((unsigned)d.size(), "position") : P("at", 0); if (i >= d.size()) break; vf_sym(&d[i], 1, "damage"); Q r; if (P("load", 0)) with(d, [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get(f)); }); else with(d, [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); break; }
    } } catch (Srl::Exception&) { vf_reach("refused"); } catch (Stop&) { vf_reach("stopped"); }
    g_left = -1;
}
static Bytes8 finish(Ctx& c, int k, int f) {               // everything observable of one operation
    Bytes8 o; O x = mk(); Q q = mkq(); q.s = "the last one"; x.b.reset(new In(*x.a)); x.m["omega"] = 1;
    switch (k) {
    case 0: o = store(c, x, f); break;
    case 1: o = store(c, q, f); break;
    case 2: { with(fresh(x, f), [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get(f)); }); dumpNode(c.t.root(), o); auto d = c.t.to_source(c.ap.get(f)); o.insert(o.end(), d.begin(), d.end()); break; }
    case 3: { O r; with(fresh(x, f), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); put(o, r); o.push_back(r.a == r.b); O y = mk(); O r2; with(fresh(y, f), [&](Lib::In::Source s) { c.t.restore(r2, s, c.ap.get(f)); }); put(o, r2); o.push_back(r2.a == r2.b); o.push_back(r2.a == r.a); break; }
    case 4: { Q r; with(fresh(q, f), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); put(o, r); o.push_back((uint8_t)r.w.use_count()); break; }
    case 5: { OutStream s; c.t.pack(s.os, c.ap.get(f), "k", 4, "q", q, "l", q.l); o = s.b.v; int kk = 0; Q r; with(o, [&](Lib::In::Source src) { c.t.unpack(src, c.ap.get(f), "q", r, "k", kk); }); put(o, r); o.push_back((uint8_t)kk); break; }
    case 6: { c.t.load_object(x); dumpNode(c.t.root(), o); auto d = c.t.to_source(c.ap.get(f)); o.insert(o.end(), d.begin(), d.end()); O r; c.t.root().paste(r); o.push_back(r.a == r.b); break; }
    case 7: { std::vector<In> l = q.l; o = store(c, l, f); std::vector<In> r { In() }; with(fresh(l, f), [&](Lib::In::Source s) { c.t.restore(r, s, c.ap.get(f)); }); o.push_back((uint8_t)r.size()); for (auto& i : r) put(o, i); break; }
    case 8: { with(fresh(x, f), [&](Lib::In::Source s) { c.t.load_source(s, c.ap.get(f)); }); Tree y; O r; with(fresh(q, f), [&](Lib::In::Source s) { y.load_source(s, c.ap.get(f)); }); ok([&] { with(fresh(q, f), [&](Lib::In::Source s) { y.restore(r, s, c.ap.get(f)); }); }); y.store(q, c.ap.get(f)); dumpNode(c.t.root(), o); break; }
    case 9: { c.t.clear(); c.t.root().insert("n", 7, "s", q.s, "l", q.l); c.t.root().insert("o", x); dumpNode(c.t.root(), o); o.push_back((uint8_t)c.t.root().num_nodes()); break; }
    }
    return o;
}
extern "C" void harness() {
    int f = P("fmt", 0), f2 = P("fmt2", f), n = P("ops", 1), fin = P("fin", -1); g_stream = P("stream", 0);
    vf_sym(&g_b, 1, "b"); if (!P("wide", 0)) vf_assume((g_b >= 10) & (g_b < 100));
    Ctx used, clean;
    for (int i = 0; i < n; i++) { int k = P(i ? "op2" : "op", -1); if (k < 0) k = vf_choose(NOPS, "operation"); op(used, k, f); }
    if (fin < 0) fin = vf_choose(NFIN, "last");
    if (fin == 9 && g_array) return;                         // clear keeps the kind of the root
    Bytes8 want, got;
    vf_check(ok([&] { want = finish(clean, fin, f2); }), "the last operation fails with fresh objects");
    vf_check(ok([&] { got = finish(used, fin, f2); }), "the last operation fails after earlier ones");
    vf_check(same(want, got), "the result differs from that of fresh objects"); vf_reach("compared");
}
