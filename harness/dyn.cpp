// C28: dynamic access to documents: lookups by name and index, chains of lookups, conversions, lookups and optional fields while an object is restored.
// mode 0 lookups in documents of every shape 1 conversions of every kind into every kind 2 lookups and fields interleaved in any order 3 free names and indices 4 optional fields 5 unions without content or with the wrong one
// via: 0 built tree 1 loaded 2 loaded from a stream (mode 2, 4: 0 direct 1 tree 2 load_object 3 reused 4 stream 5 transcoded)
#include "kinds.inc"
struct MI { int kind; std::string name; int64_t i = 0; std::string s; std::vector<MI> kids; };   // kind 0 integer 1 text 2 null 3 object 4 array
static const char* NM[] = { "a", "b", "", "a longer name than most" };
static bool isNode(const MI& m) { return m.kind >= 3; }
static void put(const MI& m, Node& n) {
    if (m.kind == 0) n.insert(m.name, m.i); else if (m.kind == 1) n.insert(m.name, m.s); else if (m.kind == 2) n.insert(m.name, nullptr);
    else n.insert(m.name, ScopeWrap([&m](Node& c) { for (auto& k : m.kids) put(k, c); }, m.kind == 3 ? Type::Object : Type::Array));
}
// loads the content of `from` again as document of format f
static void again(Tree& t, Tree& from, int f, int via) { AnyParser w, r; Bytes8 d = from.to_source(w.get(f)); if (via == 2) { InStream s(d, 5); t.load_source(Lib::In::Source(s.is), r.get(f)); } else { Buf b(d); t.load_source(Lib::In::Source(b.p, b.n), r.get(f)); } }
static const MI* byName(const MI& m, const std::string& n) { for (auto& k : m.kids) if (!isNode(k) && k.name == n) return &k; for (auto& k : m.kids) if (isNode(k) && k.name == n) return &k; return nullptr; }
static const MI* byIndex(const MI& m, size_t i) { size_t x = i; for (auto& k : m.kids) if (isNode(k) && x-- == 0) return &k; x = i; for (auto& k : m.kids) if (!isNode(k) && x-- == 0) return &k; return nullptr; }
static bool isText(const std::string& s, int64_t& v) { if (s == "17") { v = 17; return true; } return false; }
// everything a union says about the item m
static void check(Union u, const MI& m, bool names) {
    vf_check(u.is_node() == isNode(m) && u.is_value() == !isNode(m) && (u.node() != nullptr) == isNode(m) && (u.value() != nullptr) == !isNode(m), "kind of the item found");
    if (isNode(m)) { if (names) vf_check(u.node()->name() == String(m.name), "name of the node"); vf_check(u.node()->num_nodes() + u.node()->num_values() == m.kids.size(), "items of the node");
        vf_check(!ok([&] { (void)u.unwrap<int64_t>(); }) && !ok([&] { std::string s; u.copy_to(s); }) && !u.unwrap_if<std::string>(), "a node is no text or number"); return; }
    if (names) vf_check(u.value()->name() == String(m.name), "name of the value");
    vf_check(!ok([&] { (void)u.unwrap<std::vector<int>>(); }) && !ok([&] { std::map<std::string, int> s; u.copy_to(s); }) && !u.unwrap_if<KIn>() && !u.try_get("a") && !ok([&] { u.get("a"); }), "a value is no container and has no fields");
    if (m.kind == 0) { int64_t x = 0; u.copy_to(x); int64_t y = u; auto z = u.unwrap_if<int64_t>(); vf_check(x == m.i && y == m.i && u.unwrap<int64_t>() == m.i && z && *z == m.i, "number found"); }
    else if (m.kind == 1) { std::string x; u.copy_to(x); std::string y = u.unwrap<std::string>(); auto z = u.unwrap_if<std::string>(); vf_check(x == m.s && y == m.s && z && *z == m.s, "text found"); int64_t v; auto i = u.unwrap_if<int64_t>(); bool num = isText(m.s, v); vf_check(i.has_value() == num && (!num || *i == v), "text as a number"); }
    else vf_check(u.value()->type() == Type::Null, "null found");
}
static void level(Union u, const MI& m, bool names, int depth);
static void look(Node& n, const MI& m, bool names, int depth) {
    if (names && m.kind != 4) {
        int c = vf_choose(5, "name"); std::string k = c == 4 ? "B" : NM[c]; auto* e = byName(m, k); bool hn = false, hv = false; for (auto& x : m.kids) if (x.name == k) (isNode(x) ? hn : hv) = true;
        vf_check(n.has_node(k) == hn && n.has_value(k) == hv, "has_node and has_value"); auto t = n.try_get(k); vf_check(t.has_value() == (e != nullptr), "try_get finds exactly the items stored");
        Union g; bool r = ok([&] { g = vf_choose(2, "brackets") ? n[k] : n.get(k); }); vf_check(r == (e != nullptr), "get finds exactly the items stored");
        if (e) { vf_check(t->node() == g.node() && t->value() == g.value(), "the same item"); level(g, *e, true, depth); }
        else vf_check(!ok([&] { n.value(k); }) && !ok([&] { n.node(k); }), "no such item");
    } else {
        size_t i = vf_choose(4, "index"); auto* e = byIndex(m, i); auto t = n.try_get(i); vf_check(t.has_value() == (e != nullptr), "try_get finds exactly the items stored"); Union g; bool r = ok([&] { g = n.get(i); }); vf_check(r == (e != nullptr), "get finds exactly the items stored");
        if (e) { vf_check(t->node() == g.node() && t->value() == g.value(), "the same item"); level(g, *e, names && m.kind != 4, depth); }
    }
}
static void level(Union u, const MI& m, bool names, int depth) { check(u, m, names); if (isNode(m) && depth) {
    if (m.kind == 3) { for (int c = 0; c < 4; c++) { auto* e = byName(m, NM[c]); auto t = u.try_get(NM[c]); Union g; bool r = ok([&] { g = u.get(NM[c]); }); vf_check(r == (e != nullptr) && t.has_value() == r, "fields of a union"); if (r) vf_check(g.node() == t->node() && g.value() == t->value() && g.is_node() == isNode(*e), "the same field"); } }
    look(*u.node(), m, true, depth - 1); } }
static int64_t num(int k) { int64_t v = 0; if (P("sym", 1)) { uint8_t b; vf_sym(&b, 1, "number"); v = b; } else v = k; return v - 100; }
static MI item(int k, const char* name, int depth) { MI m; m.kind = k; m.name = name; if (k == 0) m.i = num(7); if (k == 1) m.s = vf_choose(2, "digits") ? "17" : "text"; if (k >= 3 && depth) for (int i = 0, n = vf_choose(3, "items"); i < n; i++) { MI c; c.kind = i ? 3 : 0; c.name = NM[vf_choose(2, "inner name")]; if (c.kind == 0) c.i = num(9); m.kids.push_back(c); } return m; }
template<class T> struct NoUnwrap { enum { v = 0 }; }; template<class T, size_t N> struct NoUnwrap<Arr<T, N>> { enum { v = 1 }; }; template<> struct NoUnwrap<Raw4> { enum { v = 1 }; };
template<class T> static void conv(Tree& t, F1<T>& a, bool direct) {
    if constexpr (!NoUnwrap<T>::v) {
        Union u; bool has = ok([&] { u = t.get("x"); }); vf_check(has && t.try_get("x").has_value(), "the item is there"); F1<T> b; b.end = a.end; b.x = T();
        bool c1 = ok([&] { u.copy_to(b.x); }); vf_check(c1 == direct, "copied exactly when a field of this type is restored"); if (c1) vf_check(same(st(a, SRLF), st(b, SRLF)), "copied as restored");
        F1<T> e; e.end = a.end; bool c2 = ok([&] { e.x = u.unwrap<T>(); }); vf_check(c2 == direct, "unwrapped exactly when a field of this type is restored"); if (c2) vf_check(same(st(a, SRLF), st(e, SRLF)), "unwrapped as restored");
        F1<T> g; g.end = a.end; auto o = u.unwrap_if<T>(); vf_check(o.has_value() == direct, "unwrap_if gives a value exactly when a field of this type is restored"); if (o) { g.x = std::move(*o); vf_check(same(st(a, SRLF), st(g, SRLF)), "unwrap_if gives what is restored"); }
        F1<T> h; h.end = a.end; bool c3 = ok([&] { h.x = t.root().template unwrap_field<T>(String("x")); }); vf_check(c3 == direct, "unwrap_field follows"); if (c3) vf_check(same(st(a, SRLF), st(h, SRLF)), "unwrap_field as restored");
    }
}
static void conv(Tree&, F1<KNull>&, bool) { }
// ---- interleaved
struct Src { int order[5]; int n = 0; int64_t a = 0; KIn in; std::string s; std::vector<int> v; bool z = false;
    void srl_store(StoreContext& c) const { for (int i = 0; i < n; i++) switch (order[i]) { case 0: c("a", a); break; case 1: c("in", in); break; case 2: c("s", s); break; case 3: c("v", v); break; case 4: c("z", nullptr); break; } }
    void srl_restore(RestoreContext&) { } };
struct Dst { const Src* src = nullptr; int steps = 0; bool bad = false; int64_t a = -1; KIn in; std::string s; std::vector<int> v; unsigned got = 0; int kinds = 3; int flags = 0; int missing = -1;
    static bool has(const Src* q, int f) { for (int i = 0; i < q->n; i++) if (q->order[i] == f) return true; return false; }
    static const char* nm(int f) { static const char* N[] = { "a", "in", "s", "v", "z" }; return N[f]; }
    void check(Union u, int f) const {
        switch (f) { case 0: vf_check(u.is_value() && u.unwrap<int64_t>() == src->a, "number looked up"); break; case 1: { vf_check(u.is_node() && u.get("p").unwrap<int>() == src->in.p && u.get("q").unwrap<std::string>() == src->in.q && !u.try_get("r"), "object looked up"); KIn k = u.unwrap<KIn>(); vf_check(k.p == src->in.p && k.q == src->in.q, "object converted"); break; }
        case 2: vf_check(u.is_value() && u.unwrap<std::string>() == src->s, "text looked up"); break; case 3: { auto l = u.unwrap<std::vector<int>>(); vf_check(u.is_node() && l == src->v, "list looked up"); break; } case 4: vf_check(u.is_value() && u.value()->type() == Type::Null, "null looked up"); break; } }
    void restore(Node& n, int f) { switch (f) { case 0: n.paste_field(String("a"), a); break; case 1: n.paste_field(String("in"), in); break; case 2: n.paste_field(String("s"), s); break; case 3: n.paste_field(String("v"), v); break; } }
    void srl_restore(RestoreContext& c); void srl_store(StoreContext&) const { } };
static void interleave(Node& n, Dst& d) {
    Union held[5]; bool hold[5] = { };
    for (int i = 0; i < d.steps; i++) {
        int f = vf_choose(5, "field"), what = vf_choose(d.kinds, "step");
        if (d.got >> f & 1) { vf_assume(false); }
        bool there = Dst::has(d.src, f); bool node = f == 1 || f == 3;
        if (what == 0) { if (f == 4) vf_assume(false); bool r = ok([&] { d.restore(n, f); }); vf_check(r == there, "a field is restored exactly when it was stored"); if (r) { d.got |= 1u << f; hold[f] = false; } }
        else if (what == 1) { Union u; bool r = ok([&] { n.paste_field(String(Dst::nm(f)), u); }); vf_check(r == there, "an item is looked up exactly when it was stored"); if (r) { d.check(u, f); held[f] = u; hold[f] = true; } }
        else { vf_check(n.has_node(Dst::nm(f)) == (there && node) && n.has_value(Dst::nm(f)) == (there && !node), "has_node and has_value while restoring"); }
    }
    for (int f = 0; f < 5; f++) if (hold[f]) d.check(held[f], f);
    for (int f = 0; f < 4; f++) if (!(d.got >> f & 1) && Dst::has(d.src, f)) { d.restore(n, f); d.got |= 1u << f; }
}
static Dst* gDst = nullptr;
struct DstR { int x = 0; void srl_resolve(Context& c) { if (c.mode() == Mode::Paste) { Dst n; n.src = gDst->src; n.steps = gDst->steps; *gDst = n; interleave(c.node(), *gDst); } } };
void Dst::srl_restore(RestoreContext&) { }
static void order(Src& s, int n, bool subset) { bool used[5] = { }; for (int i = 0; i < n; i++) { int f = vf_choose(subset ? 6 : 5, "stored"); if (f == 5) break; if (used[f]) vf_assume(false); used[f] = true; s.order[s.n++] = f; } }
static void content(Src& s) { s.a = num(3); s.in.p = 8; s.in.q = "in q"; s.s = "some text"; s.v = { 4, 5 }; }
// ---- optional fields: two names, each possibly as value and as node
struct OptSrc { int n = 0; int w[4]; int x = 0; void srl_store(StoreContext& c) const { KIn k; k.p = 3; k.q = "n"; for (int i = 0; i < n; i++) switch (w[i]) { case 0: c("a", x); break; case 1: c("a", k); break; case 2: c("b", std::string("17")); break; case 3: c("b", std::vector<int> { 1, 2 }); break; } } void srl_restore(RestoreContext&) { } };
struct OptDst { int n = 0; int w[4]; uint64_t fl[4]; int x = -1; KIn k; std::string b = "dflt"; std::vector<int> l = { 9 }; void srl_store(StoreContext&) const { } void srl_restore(RestoreContext& c) { for (int i = 0; i < n; i++) switch (w[i]) { case 0: c("a", x, fl[i]); break; case 1: c("a", k, fl[i]); break; case 2: c("b", b, fl[i]); break; case 3: c("b", l, fl[i]); break; } } };

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), via = P("via", 1);
    switch (mode) {
    case 0: { MI m; m.kind = vf_choose(2, "root") ? 4 : 3; int n = P("items", 2); for (int i = 0; i < n; i++) { int k = vf_choose(6, "item"); if (k == 5) break; m.kids.push_back(item(k, m.kind == 4 ? "" : NM[vf_choose(P("names", 3), "its name")], P("depth", 1))); }
        Tree b(m.kind == 4 ? Type::Array : Type::Object), t; for (auto& k : m.kids) put(k, b.root()); if (via) again(t, b, f, via); Tree& r = via ? t : b;
        if (vf_choose(2, "of the tree") && m.kind == 3) { int c = vf_choose(4, "name"); auto* e = byName(m, NM[c]); auto o = r.try_get(NM[c]); Union g; bool k = ok([&] { g = r.get(NM[c]); }); vf_check(k == (e != nullptr) && o.has_value() == k, "found in the tree"); if (k) { vf_check(g.node() == o->node() && g.value() == o->value(), "the same item"); level(g, *e, true, P("depth", 1)); } }
        else look(r.root(), m, true, P("depth", 1)); break; }
    case 1: { int from = vf_choose(NKIND, "stored"), to = vf_choose(NKIND, "destination"), v = P("vary", 0); Bytes8 d; withKind(from, [&](auto& o) { fillK(o, v); d = st(o, f); });
        withKind(to, [&](auto& a) { AnyParser p1, p2; Buf b(d); Tree t1, t; bool r = ok([&] { t1.restore(a, Lib::In::Source(b.p, b.n), p1.get(f)); }); t.load_source(Lib::In::Source(b.p, b.n), p2.get(f)); conv(t, a, r); }); break; }
    case 2: { Src s; content(s); order(s, P("stored", 3), true); Dst d; d.src = &s; d.steps = P("steps", 2); gDst = &d; Tree t; DstR r; bool k = through(s, r, f, via, t); vf_check(k, "restored"); 
        for (int i = 0; i < s.n; i++) switch (s.order[i]) { case 0: vf_check(d.a == s.a, "number restored"); break; case 1: vf_check(d.in.p == s.in.p && d.in.q == s.in.q, "object restored"); break; case 2: vf_check(d.s == s.s, "text restored"); break; case 3: vf_check(d.v == s.v, "list restored"); break; } break; }
    case 3: { int L = P("len", 2), n = P("items", 2); std::vector<std::string> nm; std::vector<int64_t> v; Tree b, t; for (int i = 0; i < n; i++) { std::string s(L, 0); for (int j = 0; j < L; j++) { char c; vf_sym(&c, 1, "name"); vf_assume((c >= 'a') & (c < 'z')); s[j] = c; } for (auto& o : nm) vf_assume(o != s); nm.push_back(s); v.push_back(num(i)); if (i & 1) b.root().insert(s, std::vector<int64_t> { v[i] }); else b.root().insert(s, v[i]); }
        again(t, b, f, via); std::string q(L, 0); for (int j = 0; j < L; j++) { char c; vf_sym(&c, 1, "asked"); vf_assume((c >= 'a') & (c < 'z')); q[j] = c; } int at = -1; for (int i = 0; i < n; i++) if (nm[i] == q) at = i; auto o = t.try_get(q); vf_check(o.has_value() == (at >= 0), "found exactly by its name");
        if (at >= 0) { vf_check(o->is_node() == (at & 1), "kind"); if (at & 1) { auto l = o->unwrap<std::vector<int64_t>>(); vf_check(l.size() == 1 && l[0] == v[at], "list"); } else vf_check(o->unwrap<int64_t>() == v[at], "number"); }
        size_t idx; vf_sym(&idx, sizeof idx, "index"); size_t nodes = n / 2, vals = n - nodes; bool r = ok([&] { t.root().get(idx); }); vf_check(r == (idx < nodes || idx < vals), "indices in range"); if (r && idx >= nodes) { vf_check(t.root().get(idx).unwrap<int64_t>() == v[idx * 2], "value at an index"); } break; }
    case 4: { OptSrc s; OptDst d; s.x = (int)num(4); bool su[4] = { }, du[4] = { }; for (int i = 0; i < P("stored", 3); i++) { int w = vf_choose(5, "stored"); if (w == 4) break; if (su[w]) vf_assume(false); su[w] = true; s.w[s.n++] = w; }
        bool fail = false; for (int i = 0; i < P("fields", 3); i++) { int w = vf_choose(5, "field"); if (w == 4) break; if (du[w]) vf_assume(false); du[w] = true; bool opt = vf_choose(2, "optional"); d.fl[d.n] = opt ? CtxFlags::Optional : CtxFlags::None; d.w[d.n++] = w; if (!su[w] && !opt) fail = true; }
        Tree t; OptDst e = d; (void)e; bool k; { AnyParser ap; Tree wt; Bytes8 doc = wt.store(s, ap.get(f)); Buf b(doc); InStream is(doc, 7); AnyParser rp; k = ok([&] { if (via == 1) { t.load_source(Lib::In::Source(b.p, b.n), rp.get(f)); t.root().paste(d); } else if (via == 4) t.restore(d, Lib::In::Source(is.is), rp.get(f)); else t.restore(d, Lib::In::Source(b.p, b.n), rp.get(f)); }); }
        vf_check(k == !fail, "restored exactly when every required field was stored"); if (k) { vf_check(d.x == (su[0] && du[0] ? s.x : -1), "number"); vf_check(su[1] && du[1] ? d.k.p == 3 && d.k.q == "n" : d.k.p == 0 && d.k.q.empty(), "object"); vf_check(d.b == (su[2] && du[2] ? "17" : "dflt"), "text"); vf_check(su[3] && du[3] ? d.l.size() == 2 && d.l[1] == 2 : d.l.size() == 1 && d.l[0] == 9, "list"); } break; }
    case 5: { Union u; vf_check(!u.is_node() && !u.is_value() && !u.node() && !u.value() && !u.try_get("a") && !ok([&] { u.get("a"); }), "nothing in an empty union"); int k = vf_choose(4, "as"); bool r = k == 0 ? ok([&] { (void)u.unwrap<int>(); }) : k == 1 ? ok([&] { std::string s; u.copy_to(s); }) : k == 2 ? ok([&] { (void)u.unwrap<std::vector<int>>(); }) : ok([&] { KIn x; u.copy_to(x); }); vf_check(!r && !u.unwrap_if<int>() && !u.unwrap_if<KIn>(), "nothing is converted from an empty union");
        Tree t; vf_check(!t.try_get("a") && !ok([&] { t.get("a"); }) && t.root().num_nodes() == 0, "nothing in an empty tree"); break; }
    }
    vf_reach("done");
}
