// C21: storing and restoring directly is equivalent to going through a document tree.
// mode 0 store objects; 1 restore every kind of document into every kind of destination; 2 top-level containers and single values; 3 mixed class, repeated use of the tree; 4 pack/unpack; 5 two items of one name; 6 incomplete, unnamed and nested items
#include "kinds.inc"
static Bytes8 dump(const Bytes8& d, int f) { AnyParser ap; Tree t; Buf b(d); t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); Bytes8 o; dumpNode(t.root(), o); return o; }
template<class T> static void storeEq(const T& o, int f, bool exact, Tree& t) {
    Bytes8 a = st(o, f); AnyParser ap; t.load_object(o); Bytes8 b = t.to_source(ap.get(f));
    if (exact) vf_check(same(a, b), "the same document directly and through a tree"); else vf_check(same(dump(a, f), dump(b, f)), "the same content directly and through a tree");
    OutStream s; t.to_source(Lib::Out::Source(s.os), ap.get(f)); vf_check(same(s.b.v, b), "the tree writes the same again");
    Bytes8 c = t.root().to_source(ap.get(f)); vf_check(same(c, b), "the root node writes the same");
}
template<class T> static void restoreEq(const Bytes8& d, int f, T& a, T& b) {
    AnyParser p1, p2; Buf buf(d); Tree t1, t2;
    bool r1 = ok([&] { t1.restore(a, Lib::In::Source(buf.p, buf.n), p1.get(f)); });
    t2.load_source(Lib::In::Source(buf.p, buf.n), p2.get(f)); bool r2 = ok([&] { t2.root().paste(b); });
    vf_check(r1 == r2, "accepted directly exactly when accepted through a tree");
    if (r1) vf_check(same(st(a, SRLF), st(b, SRLF)), "the same object directly and through a tree");
}
template<class T> static void topEq(T o, int f, bool scope) {
    Tree t; storeEq(o, f, true, t); Bytes8 d = st(o, f); T a = T(), b = T(); AnyParser ap; Buf buf(d); Tree t1, t2; t1.restore(a, Lib::In::Source(buf.p, buf.n), ap.get(f)); t2.load_source(Lib::In::Source(buf.p, buf.n), ap.get(f));
    if constexpr (TpTools::is_scope(Lib::Switch<T>::type)) t2.root().paste(b); else t2.root().paste_field(0, b);
    vf_check(same(st(a, SRLF), st(o, SRLF)) && same(st(b, SRLF), st(o, SRLF)), "top-level value restored both ways"); (void)scope;
}
struct Mixed { KIn in; int a = 0; std::vector<KIn> v; std::string s; std::map<std::string, int> m; double d = 0; std::unique_ptr<KIn> u; std::shared_ptr<KIn> s1, s2; std::tuple<std::vector<int>, int, KIn> t; Lib::HTable<std::string, KIn> h; KIn arr[2]; int end = 0;
    void srl_resolve(Context& c) { c("in", in)("a", a)("v", v)("s", s)("m", m)("d", d)("u", u)("s1", s1)("s2", s2)("t", t)("h", h)("arr", arr)("end", end); }
    void fill(int k) { in.p = two("in"); a = two("a"); v.resize(k); for (auto& e : v) { e.p = 3; e.q = "el"; } s = k ? "text" : ""; if (k) m["m"] = two("m"); d = 1.5; u.reset(new KIn(in)); s1.reset(new KIn(in)); s2 = k ? s1 : std::shared_ptr<KIn>(new KIn); std::get<1>(t) = two("t"); std::get<0>(t) = { 1, 2 }; std::get<2>(t).q = "tq"; for (int i = 0; i < k; i++) h.insert("h" + std::to_string(i), in); arr[1].q = "arr"; end = 5; } };

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0);
    switch (mode) {
    case 0: { int k = vf_choose(NKIND, "kind"), v = vf_choose(3, "content"); Tree t; withKind(k, [&](auto& o) { fillK(o, v); storeEq(o, f, k < 8 || k == 21 || k == 22 || k == 24 || k == 14, t); }); break; }
    case 1: { int from = vf_choose(NKIND, "stored"), to = vf_choose(NKIND, "destination"), v = P("vary", 0), w = P("dest", 0); Bytes8 d; withKind(from, [&](auto& o) { fillK(o, v); d = st(o, f); });
        withKind(to, [&](auto& a) { typedef typename std::decay<decltype(a)>::type T; T b; if (w) { fillK(a, 1); fillK(b, 1); } restoreEq(d, f, a, b); }); break; }
    case 5: { int from = vf_choose(NKIND, "stored"), from2 = vf_choose(NKIND, "stored too"), to = vf_choose(NKIND, "destination"); Tree a, b, c; withKind(from, [&](auto& o) { fillK(o, P("vary", 0)); a.load_object(o); }); withKind(from2, [&](auto& o) { fillK(o, 1); b.load_object(o); });
        auto add = [&](Tree& t) { auto u = t.root().get("x"); if (u.is_value()) c.root().insert("x", *u.value()); else c.root().insert("x", *u.node()); }; if (vf_choose(2, "end first")) c.root().insert("end", 4); add(a); add(b); if (c.root().has_value("end") == false) c.root().insert("end", 4); AnyParser ap; Bytes8 d = c.to_source(ap.get(f));
        withKind(to, [&](auto& x) { typedef typename std::decay<decltype(x)>::type T; T y; restoreEq(d, f, x, y); }); break; }   // two items of one name
    case 6: { int from = vf_choose(NKIND, "stored"), to = vf_choose(NKIND, "destination"), v = P("vary", 0), sh = P("shape", 0); Tree a, c(sh == 2 ? Type::Array : Type::Object); withKind(from, [&](auto& o) { fillK(o, v); a.load_object(o); });
        auto u = a.root().get("x"); auto add = [&](Node& n, const char* k) { if (u.is_value()) n.insert(k, *u.value()); else n.insert(k, *u.node()); };
        if (sh == 0) { c.root().insert("end", 4); add(c.root(), "X"); } else if (sh == 1) add(c.root(), "x"); else if (sh == 2) { add(c.root(), "x"); c.root().insert("end", 4); } else if (sh == 3) { Node n(c); add(n, "p"); n.insert("q", "qq"); c.root().insert("x", n, "end", 4); } else if (sh == 4) { c.root().insert("x", std::vector<int>()); Node& n = c.root().node("x"); add(n, ""); add(n, ""); n.insert("key", 1); c.root().insert("end", 4); } else { Node n(c); add(n, "first"); n.insert("second", "s"); n.insert("key", 1); add(n, "value"); Node m(c); m.insert("", n); c.root().insert("x", sh == 5 ? n : m, "end", 4); }
        AnyParser ap; Bytes8 d = c.to_source(ap.get(f)); withKind(to, [&](auto& x) { typedef typename std::decay<decltype(x)>::type T; T y; restoreEq(d, f, x, y); }); break; }   // missing, unnamed and nested items
    case 2: { int k = vf_choose(12, "kind"), v = vf_choose(3, "content");
        auto go = [&](auto x, bool sc) { fill(x, v); topEq(std::move(x), f, sc); };
        switch (k) { case 0: go(std::vector<int>(), 1); break; case 1: go(std::map<std::string, int>(), 1); break; case 2: go(std::string(), 0); break; case 3: go(int64_t(), 0); break; case 4: go(bool(), 0); break; case 5: go(uint8_t(), 0); break; case 6: go(std::list<std::vector<uint8_t>>(), 1); break;
            case 7: { KOpt x; fill(x, v); topEq(x, f, 1); break; } case 8: go(std::map<int, KIn>(), 1); break; case 9: go(std::vector<std::string>(), 1); break; case 10: { KIn x; fill(x, v); topEq(x, f, 1); break; } case 11: go(double(), 0); break; } break; }
    case 3: { int k = vf_choose(3, "size"); Mixed o; o.fill(k); Tree t(vf_choose(2, "root") ? Type::Array : Type::Object); if (vf_choose(2, "used")) { t.load_object(std::vector<int> { 1, 2 }); t.root().insert("x", 1); } storeEq(o, f, false, t);
        Bytes8 d = st(o, f); Mixed a, b; b.v.resize(4); restoreEq(d, f, a, b); vf_check(a.v.size() == (size_t)k && a.in.p == o.in.p && b.arr[1].q == "arr" && a.end == 5 && std::get<1>(b.t) == std::get<1>(o.t), "restored"); vf_check((a.s1 == a.s2) == (k > 0) && (b.s1 == b.s2) == (k > 0), "sharing");
        AnyParser ap; Bytes8 e = t.to_source(ap.get(f)); Mixed c, g; restoreEq(e, f, c, g); vf_check(same(st(c, SRLF), st(a, SRLF)), "the document of the tree restores the same object"); storeEq(o, f, false, t); break; }
    case 4: { int a = two("a"); std::string s = digits(two("s")); std::vector<int> l = { 1, a }; KIn in; in.p = two("p"); in.q = "q"; Tree t; AnyParser ap; Bytes8 d; t.pack(Lib::Out::Source(d), ap.get(f), "a", a, "in", in, "s", s, "l", l, "z", nullptr);
        struct O { int* a; KIn* in; std::string* s; std::vector<int>* l; void srl_store(StoreContext& c) const { c("a", *a)("in", *in)("s", *s)("l", *l)("z", nullptr); } void srl_restore(RestoreContext&) { } } o { &a, &in, &s, &l }; vf_check(same(d, st(o, f)), "packing writes what storing an object with these fields writes");
        Tree n; n.root().insert("a", a, "in", in, "s", s, "l", l, "z", nullptr); vf_check(same(dump(d, f), dump(n.to_source(ap.get(f)), f)), "and what a tree with these items writes");
        int a2 = 0; std::string s2; std::vector<int> l2; KIn i2; Buf b(d); Tree r; r.unpack(Lib::In::Source(b.p, b.n), ap.get(f), "a", a2, "l", l2, "s", s2, "in", i2); vf_check(a2 == a && s2 == s && l2 == l && i2.p == in.p && i2.q == "q", "unpacked");
        Tree q; q.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); a2 = 0; s2 = ""; l2.clear(); i2 = KIn(); q.root().paste("in", i2, "s", s2, "a", a2, "l", l2); vf_check(a2 == a && s2 == s && l2 == l && i2.p == in.p, "pasted"); break; }
    }
    vf_reach("done");
}
