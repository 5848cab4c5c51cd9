// C22: nesting depth.
// mode 0 load; 1 restore with unknown nested content before known fields; 2 the same after them; 3 restored into a dynamic field; 4 many siblings; 5 hostile depth; 6 hostile depth, never closed
// mode 7 every byte of the document is free to open another scope or to close them
// src 0 memory 1 stream
#include "common.hpp"
using namespace Srl;
enum { LIMIT = 128 };
struct Deep {                                  // `d` nested scopes below the one it is written into
    int d, pat, sib; uint8_t tag;
    int total() const { return d + (sib ? 2 : 0); }
    bool arr(int l) const { return pat >> (l & 3) & 1; }
    void body(Node& n, int l) const { // content of the scope at level l
        n.insert("a", l);
        if (sib) { n.insert("e", ScopeWrap([](Node&) { }, Type::Array)); n.insert("f", ScopeWrap([](Node& m) { m.insert("q", ScopeWrap([](Node&) { }, Type::Object)); }, Type::Object)); }
        if (l < d) n.insert("n", ScopeWrap([=](Node& m) { body(m, l + 1); }, arr(l + 1) ? Type::Array : Type::Object));
        else n.insert("t", tag);
        n.insert("z", std::string("zz"));
    }
    void srl_store(StoreContext& c) const { c("a", 0); if (sib) c("e", std::vector<int>()); if (d > 0) c("n", ScopeWrap([=](Node& m) { body(m, 1); }, arr(1) ? Type::Array : Type::Object)); else c("t", tag); c("z", std::string("zz")); }
    void srl_restore(RestoreContext&) { }
};
struct In { int p = 0; std::string q; void srl_resolve(Context& c) { c("p", p)("q", q); } };
struct InW { Deep dp; int before; void srl_store(StoreContext& c) const { auto s = this; auto u = ScopeWrap([=](Node& m) { s->dp.body(m, 0); }, Type::Object);
        if (before) c("x", u); c("p", 41); if (!before) c("y", u); c("q", std::string("inner")); if (!before) c("z", u); } void srl_restore(RestoreContext&) { } };
struct W { Deep dp; int before; void srl_store(StoreContext& c) const { auto s = this; auto u = ScopeWrap([=](Node& m) { s->dp.body(m, 0); }, Type::Object);
        InW i { dp, before };
        if (before) c("u0", u); c("in", i); c("l", ScopeWrap([=](Node& m) { m.insert(i); m.insert(i); }, Type::Array)); if (before) c("u1", u); c("end", 9); if (!before) c("u2", u); } void srl_restore(RestoreContext&) { } };
struct R { In in; std::vector<In> l; int end = 0; void srl_resolve(Context& c) { c("in", in)("l", l)("end", end); } };
struct DynR { Union u; uint8_t got = 0; int depth = 0, end = 0; void srl_store(StoreContext&) const { }
    void srl_restore(RestoreContext&) { } };
static bool walk(Node& root, const Deep& D) { // the whole document is there
    Node* n = &root;
    for (int l = 0; l <= D.d; l++) {
        bool ar = l == 0 ? false : D.arr(l);
        if (n->type() != (ar ? Type::Array : Type::Object)) return false;
        size_t sc = (l < D.d ? 1 : 0) + (D.sib ? (l ? 2 : 1) : 0);
        if (n->num_nodes() != sc || n->num_values() != (l < D.d ? 2u : 3u)) return false;
        if (n->value((size_t)0).unwrap<int>() != l) return false;
        if (l == D.d && n->value((size_t)1).unwrap<uint8_t>() != D.tag) return false;
        if (l < D.d) n = &n->node(sc - 1);
    }
    return true;
}
static Bytes8 hostile(int f, size_t n, bool close, bool arr) {
    Bytes8 o;
    if (f == MSGP) { for (size_t i = 0; i < n; i++) { if (arr) o.push_back(0x91); else { o.push_back(0x81); o.push_back(0xa1); o.push_back('k'); } } if (close) o.push_back(0xc0); return o; }
    if (f == SRLF) { // opening and closing sequences as the library itself writes them
        struct L { int d; void srl_store(StoreContext& c) const { if (d) c(ScopeWrap([=](Node& m) { go(m, d - 1); }, Type::Array)); } void go(Node& m, int k) const { if (k) m.insert(ScopeWrap([=](Node& x) { go(x, k - 1); }, Type::Array)); } void srl_restore(RestoreContext&) { } };
        auto st = [](int d) { PSrl p; Tree t; return t.store(L { d }, p); };
        Bytes8 a = st(1), b = st(2), c = st(3);                                                 // [head] open* [mid] close* [tail]
        vf_check(b.size() - a.size() == c.size() - b.size(), "nested scopes of one kind have one size");
        size_t k = b.size() - a.size(); size_t h = 0; while (h < a.size() && a[h] == b[h]) h++;
        Bytes8 open; size_t oh = h; for (size_t i = 0; i + 1 < k; i++) open.push_back(b[oh + i]);     // the closing mark is one byte
        o.assign(a.begin(), a.begin() + h); for (size_t i = 0; i < n; i++) o.insert(o.end(), open.begin(), open.end()); if (close) for (size_t i = 0; i < n + a.size() - h; i++) o.push_back(a.back()); return o; }
    if (arr) o.assign(n, '['); else for (size_t i = 0; i < n; i++) { o.push_back('{'); o.push_back('"'); o.push_back('k'); o.push_back('"'); o.push_back(':'); }
    if (close) { if (!arr) o.push_back('1'); o.insert(o.end(), n, arr ? ']' : '}'); }
    return o;
}
extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), src = P("src", 0); AnyParser ap; Tree t;
    static const int DS[] = { 1, 2, 64, 126, 127, 128, 129, 130, 131, 150, 260 };
    Deep D; D.tag = 0; D.pat = P("pat", -1); if (mode > 3) D.pat = 0; if (D.pat < 0) D.pat = vf_choose(16, "kinds"); D.sib = P("sib", 0);
    if (mode < 4) { D.d = P("dn", 0) ? P("dlo", 1) + vf_choose(P("dn", 0), "depth") : DS[vf_choose(11, "depth")]; vf_sym(&D.tag, 1, "tag"); if (f == JSON || f == JSONP) vf_assume((D.tag >= 10) & (D.tag < 100)); }
    auto in = [&](Buf& b, InStream& s) { return src ? Lib::In::Source(s.is) : Lib::In::Source(b.p, b.n); };
    if (mode == 0) {
        AnyParser wp; Tree wt; auto d = wt.store(D, wp.get(f)); Buf b(d); InStream s(d, 5);
        bool r = ok([&] { t.load_source(in(b, s), ap.get(f)); });
        vf_check(r == (D.total() <= LIMIT), D.total() <= LIMIT ? "a document within the limit is rejected" : "a document beyond the limit is accepted");
        if (r) { vf_check(walk(t.root(), D), "content of a deep document"); auto e = t.to_source(ap.get(f)); Tree u; Buf eb(e); vf_check(ok([&] { u.load_source(Lib::In::Source(eb.p, eb.n), ap.get(f)); }) && u.root().num_nodes() == t.root().num_nodes(), "written again"); vf_reach("accepted"); } else vf_reach("rejected");
    } else if (mode == 1 || mode == 2) {
        AnyParser wp; Tree wt; W w { D, mode == 1 }; auto d = wt.store(w, wp.get(f)); Buf b(d); InStream s(d, 5); R r;
        bool k = ok([&] { t.restore(r, in(b, s), ap.get(f)); });
        if (D.total() + 3 <= LIMIT) vf_check(k, "unknown content within the limit is rejected");                  // two or three scopes around it
        if (k) { vf_check(r.in.p == 41 && r.in.q == "inner" && r.l.size() == 2 && r.l[0].p == 41 && r.l[1].q == "inner" && r.end == 9, "fields next to deep unknown content"); vf_reach("accepted"); } else vf_reach("rejected");
    } else if (mode == 3) {
        struct DR { const Deep* D; int p = 0, end = 0; bool okc = false; void srl_resolve(Context& c) { Union u; c.node().paste_field("u", u); okc = u.is_node() && walk(*u.node(), *D); c("end", end); } };
        struct DWr { const Deep* D; void srl_store(StoreContext& c) const { auto s = D; c("u", ScopeWrap([=](Node& m) { s->body(m, 0); }, Type::Object))("end", 6); } void srl_restore(RestoreContext&) { } };
        Deep E = D; AnyParser wp; Tree wt; DWr w { &E }; auto d = wt.store(w, wp.get(f)); Buf b(d); InStream s(d, 5); DR r; r.D = &E; 
        bool k = ok([&] { t.restore(r, in(b, s), ap.get(f)); });
        if (E.total() + 2 <= LIMIT) vf_check(k, "dynamic content within the limit is rejected");
        if (E.total() > LIMIT + 1) vf_check(!k, "dynamic content beyond the limit is accepted");
        if (k) { vf_check(r.end == 6, "field after dynamic content"); vf_check(E.sib || r.okc, "dynamic content"); vf_reach("accepted"); } else vf_reach("rejected");
    } else if (mode == 4) { // breadth is not depth
        struct B { int n; void srl_store(StoreContext& c) const { for (int i = 0; i < n; i++) c(ScopeWrap([=](Node& m) { m.insert("i", i); m.insert("s", ScopeWrap([](Node&) { }, i % 2 ? Type::Object : Type::Array)); }, i % 3 ? Type::Object : Type::Array)); } void srl_restore(RestoreContext&) { } };
        AnyParser wp; Tree wt; auto d = wt.store(B { 300 }, wp.get(f)); Buf b(d); InStream s(d, 5);
        vf_check(ok([&] { t.load_source(in(b, s), ap.get(f)); }), "a wide document is rejected");
        vf_check(t.root().num_nodes() == 300, "number of scopes"); int i = 0; t.root().foreach_node([&](Node& n) { vf_check(n.num_nodes() == 1 && n.value((size_t)0).unwrap<int>() == i, "scope of a wide document"); i++; });
        vf_reach("accepted");
    } else if (mode == 7) {
        uint8_t open = f == MSGP ? 0x91 : '[', close = f == MSGP ? 0xc0 : ']'; if (f == SRLF) { auto h = hostile(f, 3, true, true); open = h[1]; close = h.back(); vf_check(h[2] == open && h[3] == open, "nested lists are opened alike"); }
        size_t n = P("n", 140), pre = P("pre", 100); Bytes8 d(1, f == SRLF ? hostile(f, 3, true, true)[0] : f == JSON ? '[' : 0x91); d.insert(d.end(), pre, open); size_t at = d.size(); d.resize(at + n);
        vf_sym(d.data() + at, n, "scopes"); for (size_t i = 0; i < n; i++) { vf_assume((d[at + i] == open) | (d[at + i] == close)); if (i) vf_assume((d[at + i - 1] == open) | (d[at + i] == close)); }
        if (f == MSGP) d.push_back(0xc0); else d.insert(d.end(), pre + n + 1, close);
        Buf b(d); InStream s(d, 7); bool r = ok([&] { t.load_source(in(b, s), ap.get(f)); });
        if (LIMIT - pre >= n || d[at + LIMIT - pre] == close) { // exactly the documents with at most LIMIT nested scopes
            vf_check(r, "a document within the limit is rejected"); size_t k = 0; Node* x = &t.root(); while (x->num_nodes()) { vf_check(x->num_nodes() == 1, "one scope in each"); x = &x->node((size_t)0); k++; }
            vf_check(k >= pre && k <= LIMIT && (k == pre + n || d[at + k - pre] == close) && (k == pre || d[at + k - pre - 1] == open), "number of nested scopes"); vf_reach("accepted"); }
        else { vf_check(!r, "a document beyond the limit is accepted"); vf_reach("rejected"); }
    } else {
        int arr = vf_choose(2, "kind"), typed = vf_choose(2, "typed"); if (f == SRLF) vf_assume(arr == 1);
        auto d = hostile(f, P("n", 20000), mode == 5, arr); Buf b(d); InStream s(d, 64); R r;
        if (typed) { // the whole document is unknown content of the destination
            bool k = ok([&] { t.restore(r, in(b, s), ap.get(f)); }); vf_check(!k, "a document without the fields is restored"); vf_reach("rejected");
        } else { vf_check(!ok([&] { t.load_source(in(b, s), ap.get(f)); }), "a document nested without bound is accepted"); vf_reach("rejected"); }
        R r2; InW iw { Deep { 0, 0, 0, 0 }, 0 };
        // content skipped at the end of a scope
        Bytes8 o; auto ins = [&](const char* x) { o.insert(o.end(), x, x + strlen(x)); };
        if (f != SRLF) { auto h = hostile(f, P("n", 20000), mode == 5, arr);
            if (f == MSGP) { ins("\x83\xa2" "in\x83\xa1p\x01\xa1q\xa1s\xa1x"); o.insert(o.end(), h.begin(), h.end()); ins("\xa1l\x90\xa3" "end\x09"); }
            else { ins("{\"in\":{\"p\":1,\"q\":\"s\",\"x\":"); o.insert(o.end(), h.begin(), h.end()); ins("},\"l\":[],\"end\":9}"); }
            Buf ob(o); InStream os(o, 64); AnyParser ap2; Tree t2; bool k = ok([&] { t2.restore(r2, in(ob, os), ap2.get(f)); });
            if (k) vf_check(mode == 5 && r2.in.p == 1 && r2.in.q == "s" && r2.end == 9, "fields around skipped content"); vf_reach("skipped");
        }
    }
}
