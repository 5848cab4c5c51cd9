// C20: field order, unknown content, missing fields.
// mode 0 permutations with one unknown item anywhere; 1 subsets of fields; 2 containers written with scrambled entries; 3 unknown item with any name; 4 two unknown items anywhere; 5 an item of the other kind with the name of a field; 6 fields of both kinds sharing their names;
// src: 0 direct restore 1 through a tree 2 from a stream; enc: 1 the restored class uses UTF-16 names
#include "common.hpp"
using namespace Srl;
static int g_enc = 0;
struct In { uint8_t p = 0; std::string q; void srl_resolve(Context& c) { c("p", p)("q", q); } };
static bool operator==(const In& a, const In& b) { return a.p == b.p && a.q == b.q; }
static const int K = 6;                                                          // known fields
struct Val { uint16_t a; std::string s; In in; std::vector<int> v; int o; In oi; };
struct R { uint16_t a = 9; std::string s = "old"; In in; std::vector<int> v { 1, 2, 3 }; int o = 77; In oi; bool optAll = false;
    R() { oi.p = 66; oi.q = "kept"; }
    void srl_resolve(Context& c) {
        if (g_enc == 1) c(u"a", a)(u"s", s)(u"in", in)(u"v", v)(u"o", o, CtxFlags::Optional)(u"oi", oi, CtxFlags::Optional);
        else if (optAll) c("a", a, CtxFlags::Optional)("s", s, CtxFlags::Optional)("in", in, CtxFlags::Optional)("v", v, CtxFlags::Optional)("o", o, CtxFlags::Optional)("oi", oi, CtxFlags::Optional);
        else c("a", a)("s", s)("in", in)("v", v)("o", o, CtxFlags::Optional)("oi", oi, CtxFlags::Optional);
    } };
// writes items in any order; items >= K are unknown ones
struct W { const Val* x; std::vector<int> order; std::string uname = "zz"; uint64_t u = 0;
    void item(StoreContext& c, int i) const {
        switch (i) {
        case 0: c("a", x->a); break; case 1: c("s", x->s); break; case 2: c("in", x->in); break; case 3: c("v", x->v); break; case 4: c("o", x->o); break; case 5: c("oi", x->oi); break;
        case 6: c(uname, u); break;
        case 7: c(uname, std::string("unknown text, not kept locally")); break;
        case 8: c(uname, x->in); break;
        case 9: c(uname, ScopeWrap([this](Node& n) { n.insert("a", 1, "s", "in an unknown scope"); n.insert("in", ScopeWrap([](Node& m) { m.insert("p", 8); m.insert("v", { 4 }); }, Type::Object)); n.insert("o", 5, "zz", u); }, Type::Object)); break;
        case 10: c(uname, std::vector<int>()); break;
        case 11: c(uname, std::vector<std::vector<std::string>> { { "a" }, { }, { "in", "s" } }); break;
        case 12: { const uint8_t b[3] = { 1, (uint8_t)u, 0 }; c(uname, BitWrap(b, 3)); break; }
        case 13: c(uname, nullptr); break;
        case 14: c(uname, ScopeWrap([](Node&) { }, Type::Object)); break;
        case 15: c(std::string("A"), u)(std::string("a "), u)(std::string(""), u); break;            // near misses
        }
    }
    void srl_store(StoreContext& c) const { for (int i : order) item(c, i); }
    void srl_restore(RestoreContext&) { } };
template<class T> static Bytes8 st(const T& o, int f) { AnyParser ap; Tree t; return t.store(o, ap.get(f)); }
template<class T> static bool re(T& r, const Bytes8& d, int f, int src) {
    AnyParser ap; Tree t; Buf b(d);
    if (src == 0) return ok([&] { t.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); });
    if (src == 1) return ok([&] { t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); t.root().paste(r); });
    InStream s(d, 3); return ok([&] { t.restore(r, Lib::In::Source(s.is), ap.get(f)); });
}
static std::vector<int> perm(int n) { // any permutation of 0..n-1
    std::vector<int> l, o; for (int i = 0; i < n; i++) l.push_back(i);
    while (!l.empty()) { int k = l.size() > 1 ? vf_choose((unsigned)l.size(), "order") : 0; o.push_back(l[k]); l.erase(l.begin() + k); } return o; }
static uint8_t two(const char* n) { uint8_t v; vf_sym(&v, 1, n); vf_assume((v >= 10) & (v < 100)); return v; }   // one encoding, many contents
static Val val() { Val x; x.a = 400 + two("a"); x.s = "st"; uint8_t b; vf_sym(&b, 1, "s0"); vf_assume((b > 0x5c) & (b < 0x7f)); x.s[0] = (char)b; x.in.p = two("p"); x.in.q = "inner text"; x.v = { 5, 6, two("v") }; x.o = two("o"); x.oi.p = 11; x.oi.q = "opt"; return x; }
static void expect(const R& r, const Val& x, unsigned has, const R& before) {
    vf_check(r.a == ((has & 1) ? x.a : before.a), "integer field"); vf_check(r.s == ((has & 2) ? x.s : before.s), "text field"); vf_check(r.in == ((has & 4) ? x.in : before.in), "object field"); vf_check(r.v == ((has & 8) ? x.v : before.v), "list field");
    vf_check(r.o == ((has & 16) ? x.o : before.o), "optional field"); vf_check(r.oi == ((has & 32) ? x.oi : before.oi), "optional object");
}

// containers and pointers whose parts are found by name
struct Holder { std::pair<int, std::string> pr; std::map<std::string, int> mp; std::vector<In> li; std::unique_ptr<In> up; std::map<int, In> lp; std::shared_ptr<In> s1, s2; Lib::HTable<std::string, int> ht; int end = 0;
    void srl_resolve(Context& c) { c("pr", pr)("mp", mp)("li", li)("up", up)("lp", lp)("s1", s1)("s2", s2)("end", end); } };
struct HW { uint32_t n; int rot; std::vector<int> unk; // every object scope is written with its fields rotated and unknown items in between
    mutable int at = 0;
    void scope(Node& n0, const std::vector<std::function<void(Node&)>>& fs) const {
        size_t k = fs.size(); for (size_t i = 0; i < k; i++) { junk(n0); fs[(i + rot) % k](n0); } junk(n0); }
    void junk(Node& n0) const { int i = at++; if (unk.empty()) return; switch (unk[i % unk.size()]) {
        case 0: n0.insert("x" + std::to_string(i % 3), n); break; case 1: n0.insert("xs", "some text"); break; case 2: n0.insert("xo", ScopeWrap([](Node& m) { m.insert("first", 1, "key", 2, "p", 3); m.insert("value", { 1, 2 }); }, Type::Object)); break; case 3: n0.insert("xl", { 1, 2, 3 }); break; } }
    template<class F> static std::function<void(Node&)> obj(const std::string& k, F f) { return [k, f](Node& n0) { n0.insert(k, ScopeWrap(f, Type::Object)); }; }
    template<class T> static std::function<void(Node&)> fld(const std::string& k, T v) { return [k, v](Node& n0) { n0.insert(k, v); }; }
    void in(Node& m, uint8_t p, const std::string& q) const { scope(m, { fld("p", p), fld("q", q) }); }
    void srl_store(StoreContext& c) const {
        auto self = this; uint32_t N = n;
        c("pr", ScopeWrap([=](Node& m) { self->scope(m, { fld("first", (int)N), fld("second", std::string("pair")) }); }, Type::Object));
        c("end", 4);
        c("mp", ScopeWrap([=](Node& m) { for (int i = 0; i < 3; i++) m.insert(ScopeWrap([=](Node& e) { self->scope(e, { fld("key", "k" + std::to_string(i)), fld("value", (int)N + i) }); }, Type::Object)); }, Type::Array));
        c("s1", ScopeWrap([=](Node& m) { self->scope(m, { fld("srl_shared_key", 0), obj("srl_shared_value", [=](Node& v) { self->in(v, 21, "shared"); }) }); }, Type::Object));
        c("lp", ScopeWrap([=](Node& m) { for (int i = 0; i < 2; i++) m.insert(ScopeWrap([=](Node& e) { self->scope(e, { obj("value", [=](Node& v) { self->in(v, (uint8_t)(N + i), "el"); }), fld("key", i) }); }, Type::Object)); }, Type::Array));
        c("li", ScopeWrap([=](Node& m) { for (int i = 0; i < 3; i++) m.insert(ScopeWrap([=](Node& e) { self->in(e, (uint8_t)(N + i), "e" + std::to_string(i)); }, Type::Object)); }, Type::Array));
        c("s2", ScopeWrap([=](Node& m) { self->scope(m, { fld("srl_shared_key", 0) }); }, Type::Object));
        c("up", ScopeWrap([=](Node& m) { self->in(m, 31, "owned"); }, Type::Object));
    }
    void srl_restore(RestoreContext&) { } };

// a value and a scope under the same name, both are fields
struct T2 { uint16_t x = 0; In i; std::string y; std::vector<int> l; int z = 0; std::vector<int> order { 0, 1, 2, 3, 4 };
    template<class C> void item(C& c, int k) { switch (k) { case 0: c("x", x); break; case 1: c("x", i); break; case 2: c("y", y); break; case 3: c("y", l); break; case 4: c("z", z); break; } }
    void srl_store(StoreContext& c) const { for (int k : order) switch (k) { case 0: c("x", x); break; case 1: c("x", i); break; case 2: c("y", y); break; case 3: c("y", l); break; case 4: c("z", z); break; } }
    void srl_restore(RestoreContext& c) { for (int k : order) item(c, k); } };

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), src = P("src", 0); g_enc = P("enc", 0); R r, before;
    Val x = val(); W w { &x, { } }; w.u = two("unknown");
    switch (mode) {
    case 0: { w.order = perm(K); if (int u = P("unk", 6)) { int at = vf_choose(K + 1, "where"); w.order.insert(w.order.begin() + at, u); } vf_check(re(r, st(w, f), f, src), "every order of fields is accepted"); expect(r, x, 63, before); break; }
    case 1: { unsigned has = vf_choose(64, "fields present"); int rot = vf_choose(3, "order"); r.optAll = before.optAll = P("opt", 0); int u = P("unk", 0), at = u ? vf_choose(3, "where") : 9;
        for (int i = 0; i < K; i++) { int k = (i * (rot == 1 ? 5 : 1) + (rot == 2 ? 3 : 0)) % K; if (i == at * 3) w.order.push_back(u); if ((has >> k) & 1) w.order.push_back(k); }
        bool res = re(r, st(w, f), f, src), want = r.optAll || (has & 15) == 15; vf_check(res == want, "refused exactly when a required field is missing");
        if (res) expect(r, x, has, before);
        else { W w2 { &x, { 5, 4, 3, 2, 1, 0 } }; vf_check(re(r, st(w2, f), f, src), "usable after a refusal"); expect(r, x, 63, before); } break; }
    case 2: { HW h; h.n = two("n"); vf_assume(h.n < 95); h.rot = vf_choose(2, "rotate"); int k = vf_choose(6, "unknown"); if (k < 4) h.unk = { k }; else if (k == 4) h.unk = { 0, 2, 1, 3 };
        Holder o; o.mp["gone"] = 1; o.li.resize(5); o.up.reset(new In); vf_check(re(o, st(h, f), f, src), "every order of parts is accepted");
        vf_check(o.pr.first == (int)h.n && o.pr.second == "pair", "pair"); vf_check(o.mp.size() == 3 && o.mp["k0"] == (int)h.n && o.mp["k2"] == (int)h.n + 2, "map"); vf_check(o.li.size() == 3 && o.li[1].p == (uint8_t)(h.n + 1) && o.li[2].q == "e2", "list of objects");
        vf_check(o.up && o.up->p == 31 && o.up->q == "owned", "owning pointer"); vf_check(o.lp.size() == 2 && o.lp[1].p == (uint8_t)(h.n + 1) && o.lp[0].q == "el", "map of objects"); vf_check(o.s1 && o.s1 == o.s2 && o.s1->p == 21, "shared"); vf_check(o.end == 4, "last field"); break; }
    case 3: { int n = P("len", 2); w.uname.assign(n, 0); vf_sym(&w.uname[0], n, "name"); for (auto ch : w.uname) vf_assume(f == JSON || f == JSONP ? (ch > 0x5c) & (ch < 0x7f) : (unsigned char)ch < 0x80); for (auto* k : { "a", "s", "in", "v", "o", "oi" }) vf_assume(w.uname != k);
        w.order = { 3, 1, 4, 0, 2, 5 }; w.order.insert(w.order.begin() + P("at", 3), P("unk", 6)); bool res = re(r, st(w, f), f, src); vf_check(res, "unknown items of any name are ignored"); expect(r, x, 63, before); break; }
    case 4: { static const int ROT[4][6] = { { 0, 1, 2, 3, 4, 5 }, { 5, 4, 3, 2, 1, 0 }, { 2, 0, 5, 1, 3, 4 }, { 4, 1, 3, 0, 5, 2 } }; int k = vf_choose(4, "order"); w.order.assign(ROT[k], ROT[k] + 6); for (int j = 0; j < 2; j++) { int u = 6 + vf_choose(10, "unknown"), at = vf_choose((unsigned)w.order.size() + 1, "where"); w.order.insert(w.order.begin() + at, u); }
        vf_check(re(r, st(w, f), f, src), "unknown items are ignored"); expect(r, x, 63, before); break; }
    case 5: { static const char* NMS[] = { "a", "o", "s", "v", "in", "oi" }; int k = vf_choose(6, "name"); w.uname = NMS[k]; w.order = { 3, 1, 4, 0, 2, 5 }; if (vf_choose(2, "turn")) w.order = { 0, 1, 2, 3, 4, 5 };
        bool val = k < 3; static const int SC[] = { 8, 9, 10, 14 }, VA[] = { 6, 7, 12, 13 }; int u = (val ? SC : VA)[vf_choose(4, "unknown")], at = vf_choose(K + 1, "where"); w.order.insert(w.order.begin() + at, u);
        vf_check(re(r, st(w, f), f, src), "an item of the other kind with the name of a field is ignored"); expect(r, x, 63, before); break; }
    case 6: { T2 a, b; a.x = 400 + x.in.p; a.i = x.in; a.y = x.s; a.l = x.v; a.z = x.o; a.order = perm(5); static const int RO[6][5] = { { 0, 1, 2, 3, 4 }, { 4, 3, 2, 1, 0 }, { 0, 2, 4, 1, 3 }, { 1, 3, 4, 0, 2 }, { 3, 0, 4, 2, 1 }, { 2, 1, 0, 3, 4 } }; int k = vf_choose(6, "restored order"); b.order.assign(RO[k], RO[k] + 5);
        vf_check(re(b, st(a, f), f, src), "a value and a scope of one name are restored in any order"); vf_check(a.x == b.x && a.i == b.i && a.y == b.y && a.l == b.l && a.z == b.z, "fields of both kinds sharing a name"); break; }
    }
    vf_reach("done");
}
