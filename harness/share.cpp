// C24: shared and weak pointers.
// mode 0 every pattern of sharing among 7 slots; 1 graphs with cycles; 2 pointers of different types to one address; 3 addresses used again while a tree is built; 4 documents with any keys, defined or only referred to; 5 pointers restored again from one tree
// via 0 direct 1 tree 2 load_object and back 3 second document of one tree and parser 4 stream 5 transcoded
#include "common.hpp"
using namespace Srl;
static uint8_t two(const char* n) { uint8_t v; vf_sym(&v, 1, n); vf_assume((v >= 10) & (v < 100)); return v; }
struct Leaf { uint8_t v = 0; std::string s; void srl_resolve(Context& c) { c("v", v)("s", s); } };
static bool operator==(const Leaf& a, const Leaf& b) { return a.v == b.v && a.s == b.s; }
struct Alt { Leaf first; int x = 0; void srl_resolve(Context& c) { c("x", x)("first", first); } };
typedef std::shared_ptr<Leaf> SP;
struct Sub { SP p; int tail = 0; void srl_resolve(Context& c) { c("p", p)("tail", tail); } };
struct H { SP a, b; std::vector<SP> l; std::map<int, SP> m; Sub sub; std::weak_ptr<Leaf> w; int end = 0;
    void srl_resolve(Context& c) { c("a", a)("l", l)("w", w)("sub", sub)("m", m)("b", b)("end", end); }
    std::vector<SP> slots() { return { a, b, l.at(0), l.at(1), m.at(3), sub.p, w.lock() }; } };
struct N { uint8_t v = 0; std::shared_ptr<N> next; std::vector<std::shared_ptr<N>> kids; std::weak_ptr<N> back; void srl_resolve(Context& c) { c("v", v)("next", next)("back", back)("kids", kids); } };
struct Root { std::shared_ptr<N> n; void srl_resolve(Context& c) { c("n", n); } };
struct Ty { std::shared_ptr<Alt> a; SP b; std::shared_ptr<uint8_t> c; int order = 0; int end = 0; void srl_resolve(Context& x) {
    if (order == 0) x("a", a)("b", b)("c", c); else if (order == 1) x("b", b)("a", a)("c", c); else if (order == 2) x("c", c)("b", b)("a", a); else x("c", c)("a", a)("b", b); x("end", end); } };
struct Defs { struct D { uint8_t key; bool def; uint8_t val; }; std::vector<D> d; int kind = 0;
    void srl_store(StoreContext& c) const { c("l", ScopeWrap([this](Node& n) { for (auto& e : d) n.insert(ScopeWrap([&e](Node& m) { m.insert("srl_shared_key", e.key); if (e.def) m.insert("srl_shared_value", ScopeWrap([&e](Node& v) { v.insert("v", e.val, "s", std::string("content")); }, Type::Object)); }, Type::Object)); }, Type::Array)); c("end", 8); }
    void srl_restore(RestoreContext&) { } };
struct DefR { std::vector<SP> l; int end = 0; void srl_resolve(Context& c) { c("l", l)("end", end); } };
struct Mix { SP a; std::shared_ptr<Alt> b; std::shared_ptr<int> i; std::shared_ptr<std::vector<int>> v; int which = 0, end = 0; void srl_resolve(Context& c) { c("a", a); if (which == 0) c("b", b); else if (which == 1) c("i", i); else c("v", v); c("end", end); } };

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), via = P("via", 0);
    if (mode == 0) {
        int n = 7, objs = 0; SP pool[8]; std::vector<SP> s(n);
        for (int i = 0; i < n; i++) { int k = vf_choose(objs + 2, "slot"); if (k == 0) continue; if (k > objs) { objs = k; pool[k] = std::make_shared<Leaf>(); pool[k]->v = k == 1 ? two("v") : 20 + k % 3; pool[k]->s = k % 2 ? "text" : "a text which is longer"; } s[i] = pool[k]; }
        H o; o.a = s[0]; o.b = s[1]; o.l = { s[2], s[3] }; o.m[3] = s[4]; o.sub.p = s[5]; o.sub.tail = 5; o.w = s[6]; o.end = 9;
        H r; if (P("used", 0)) { r.a = r.b = std::make_shared<Leaf>(); r.l = { r.a, r.a, r.b }; r.w = r.a; r.sub.p = r.a; r.m[3] = r.b; }
        { Tree t; vf_check(through(o, r, f, via, t), "a document with shared pointers is rejected");
          vf_check(r.l.size() == 2 && r.m.size() == 1 && r.m.count(3) && r.end == 9 && r.sub.tail == 5, "fields around shared pointers");
          auto q = r.slots(); for (int i = 0; i < n; i++) { vf_check(!q[i] == !s[i], "null and not null"); if (q[i]) vf_check(*q[i] == *s[i], "content of a shared object"); for (int j = 0; j < i; j++) vf_check((q[i] == q[j]) == (s[i] == s[j]), "sharing of two pointers"); }
          H again; Tree t2; vf_check(through(r, again, f, 0, t2), "stored again"); auto z = again.slots(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) vf_check((z[i] == z[j]) == (s[i] == s[j]), "sharing after a second round"); }
        { std::vector<const SP*> q = { &r.a, &r.b, &r.l[0], &r.l[1], &r.m.at(3), &r.sub.p }; for (auto* p : q) if (*p) { long c = 0; for (auto* x : q) c += *x == *p; vf_check(p->use_count() == c, "owners of a restored object"); }
          bool owned = false; for (int i = 0; i < 6; i++) owned = owned || (s[6] && s[i] == s[6]); vf_check(r.w.expired() == !owned, "weak pointer after the tree is gone"); }
        vf_reach("restored");
    } else if (mode == 1) {
        int n = P("n", 3); std::vector<std::shared_ptr<N>> p; for (int i = 0; i < n; i++) { p.push_back(std::make_shared<N>()); p[i]->v = i ? 10 + i : two("v"); }
        for (int i = 0; i < n; i++) { int k = vf_choose(n + 1, "next"); if (k) p[i]->next = p[k - 1]; k = vf_choose(n + 1, "back"); if (k) p[i]->back = p[k - 1]; if (P("kids", 0)) { k = vf_choose(n + 1, "kid"); if (k) p[i]->kids = { p[k - 1], p[i ? 0 : n - 1] }; } }
        Root o, r; o.n = p[0]; Tree t; bool k = through(o, r, f, via, t);
        vf_check(k, "a graph of shared objects is rejected"); vf_check(r.n != nullptr, "root");
        std::map<N*, N*> map, inv; std::vector<std::pair<N*, N*>> todo { { o.n.get(), r.n.get() } };
        while (!todo.empty()) { auto x = todo.back(); todo.pop_back(); vf_check(!x.first == !x.second, "null and not null"); if (!x.first) continue;
            if (map.count(x.first) || inv.count(x.second)) { vf_check(map[x.first] == x.second && inv[x.second] == x.first, "sharing in a graph"); continue; }
            map[x.first] = x.second; inv[x.second] = x.first; vf_check(x.first->v == x.second->v && x.first->kids.size() == x.second->kids.size(), "content in a graph");
            todo.push_back({ x.first->next.get(), x.second->next.get() }); todo.push_back({ x.first->back.lock().get(), x.second->back.lock().get() }); for (size_t i = 0; i < x.first->kids.size(); i++) todo.push_back({ x.first->kids[i].get(), x.second->kids[i].get() }); }
        for (auto& x : map) { x.first->next.reset(); x.first->kids.clear(); x.second->next.reset(); x.second->kids.clear(); }
        vf_reach("restored");
    } else if (mode == 2) {
        Ty o, r; o.order = r.order = vf_choose(4, "order"); int pat = vf_choose(8, "present"); auto alt = std::make_shared<Alt>(); alt->first.v = two("v"); alt->first.s = "aliased"; alt->x = 1234; o.end = 3;
        if (pat & 1) o.a = alt; if (pat & 2) o.b = SP(alt, &alt->first); if (pat & 4) o.c = std::shared_ptr<uint8_t>(alt, &alt->first.v);
        Tree t; vf_check(through(o, r, f, via, t), "pointers to parts of an object are rejected");
        vf_check(!r.a == !o.a && !r.b == !o.b && !r.c == !o.c && r.end == 3, "null and not null");
        if (r.a) vf_check(r.a->x == 1234 && r.a->first == alt->first, "the whole object"); if (r.b) vf_check(*r.b == alt->first, "a part"); if (r.c) vf_check(*r.c == alt->first.v, "a part of the part");
        vf_reach("restored");
    } else if (mode == 3) {
        Tree t; alignas(16) char mem[2][sizeof(Leaf)]; std::vector<uint8_t> want; SP keep[2]; std::vector<int> who; int n = P("n", 4), gen[2] = { 0, 0 };
        for (int i = 0; i < n; i++) { int k = vf_choose(2, "place"), fresh = vf_choose(2, "fresh"); if (fresh) keep[k].reset();
            if (!keep[k]) { gen[k]++; keep[k] = SP(new (mem[k]) Leaf, [](Leaf* x) { x->~Leaf(); }); keep[k]->v = 30 + i; keep[k]->s = "gen"; }
            who.push_back(k * 100 + gen[k]); want.push_back(keep[k]->v); t.root().insert("p" + std::to_string(i), keep[k]); }
        uint8_t x = two("last"); keep[0] = std::make_shared<Leaf>(); keep[0]->v = x; t.root().insert("q", keep[0]);
        AnyParser ap; auto d = t.to_source(ap.get(f)); Tree u; Buf b(d); vf_check(ok([&] { u.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); }), "tree is stored");
        std::vector<SP> got; for (int i = 0; i < n; i++) { SP p; vf_check(ok([&] { p = u.root().unwrap_field<SP>("p" + std::to_string(i)); }), "pointer of the tree"); vf_check(p && p->v == want[i], "an object of the same address"); got.push_back(p); for (int j = 0; j < i; j++) vf_check((got[i] == got[j]) == (who[i] == who[j]), "sharing in a tree"); }
        SP q = u.root().unwrap_field<SP>("q"); vf_check(q && q->v == x, "last object"); for (auto& p : got) vf_check(p != q, "last object is another"); vf_reach("restored");
    } else if (mode == 4) {
        Defs o; int n = P("n", 3); o.d.resize(n); bool good = true; std::vector<int> first(n, -1);
        for (int i = 0; i < n; i++) { vf_sym(&o.d[i].key, 1, "key"); if (!P("wide", 0)) vf_assume((o.d[i].key >= 10) & (o.d[i].key < 100)); o.d[i].def = vf_choose(2, "defined"); o.d[i].val = 40 + i; 
            for (int j = 0; j < i; j++) if (o.d[j].def && o.d[j].key == o.d[i].key) first[i] = j; if (o.d[i].def) vf_assume(first[i] < 0); else if (first[i] < 0) good = false; }
        AnyParser ap; Tree wt; auto d = wt.store(o, ap.get(f)); Buf b(d); InStream s(d, 5); Tree t; DefR r; AnyParser rp;
        bool k = ok([&] { if (via == 1) { t.load_source(Lib::In::Source(b.p, b.n), rp.get(f)); t.root().paste(r); } else if (via == 4) t.restore(r, Lib::In::Source(s.is), rp.get(f)); else t.restore(r, Lib::In::Source(b.p, b.n), rp.get(f)); });
        vf_check(k == good, good ? "references to objects of the document are rejected" : "a reference to a missing object is accepted");
        if (k) { vf_check(r.l.size() == (size_t)n && r.end == 8, "all pointers"); for (int i = 0; i < n; i++) { int w = o.d[i].def ? i : first[i]; vf_check(r.l[i] && r.l[i]->v == 40 + w, "object of a key"); for (int j = 0; j < i; j++) vf_check((r.l[i] == r.l[j]) == (o.d[i].key == o.d[j].key), "sharing of keys"); } vf_reach("restored"); } else vf_reach("rejected");
        // a key used again for another type
        struct X { uint8_t k1, k2; void srl_store(StoreContext& c) const { uint8_t a = k1, b2 = k2; c("a", ScopeWrap([a](Node& m) { m.insert("srl_shared_key", a, "srl_shared_value", ScopeWrap([](Node& v) { v.insert("v", 50, "s", std::string("leaf")); }, Type::Object)); }, Type::Object)); for (auto* nm : { "b", "i", "v" }) c(nm, ScopeWrap([b2](Node& m) { m.insert("srl_shared_key", b2); }, Type::Object)); c("end", 1); } void srl_restore(RestoreContext&) { } };
        X x { o.d[0].key, o.d[n - 1].key }; auto d2 = wt.store(x, ap.get(f)); Buf b2(d2); Mix m; m.which = P("which", 0); Tree t2; vf_check(!ok([&] { t2.restore(m, Lib::In::Source(b2.p, b2.n), rp.get(f)); }), "a reference to an object of another type is accepted");
    } else if (mode == 5) {
        H o; o.a = o.b = std::make_shared<Leaf>(); o.a->v = two("v"); o.a->s = "s"; o.l = { o.a, std::make_shared<Leaf>() }; o.m[3] = o.l[1]; o.w = o.l[1];
        AnyParser ap; Tree wt; auto d = wt.store(o, ap.get(f)); Buf b(d); Tree t; t.load_source(Lib::In::Source(b.p, b.n), ap.get(f));
        SP first; bool known = false; for (int i = 0; i < 4; i++) { int k = vf_choose(4, "look"); SP p; bool all = false;
            bool done = ok([&] { if (k == 0) p = t.root().node("a").unwrap<SP>(); else if (k == 1) p = t.root().unwrap_field<SP>("b"); else if (k == 2) p = t.root().node("l").node((size_t)0).unwrap<SP>(); else { H r; t.root().paste(r); p = r.a; all = r.a == r.b && r.l[0] == r.a && r.l[1] == r.m[3] && r.w.lock() == r.l[1] && r.l[1] != r.a; } });
            vf_check(done == (known || k == 0 || k == 3), "a reference is accepted when its object is known"); if (!done) { vf_check(!p, "no object for a refused reference"); vf_reach("refused"); continue; }
            known = true; vf_check(p && p->v == o.a->v && p->s == "s" && (k != 3 || all), "content"); if (first) vf_check(first == p, "one object for one key of a loaded document"); first = p; }
        vf_reach("restored");
    }
}
