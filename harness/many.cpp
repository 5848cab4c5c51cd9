// many items: sizes at which tables, stacks, arenas and length fields grow.
// kind 0 containers 1 fields in reversed order 2 shared objects 3 objects of registered classes 4 tree API 5 JSON text 6 direct and through a tree
// 7 transcoding 8 reuse after a document cut short 9 registrations 10 fields restored in another order with unknown ones between 11 long names
#include "ref.hpp"
using namespace Srl;
static uint8_t two(const char* n) { uint8_t v; vf_sym(&v, 1, n); vf_assume((v >= 10) & (v < 100)); return v; }
struct In { uint8_t p = 0; std::string q; void srl_resolve(Context& c) { c("p", p)("q", q); } };
static bool operator==(const In& a, const In& b) { return a.p == b.p && a.q == b.q; }
struct Box { std::vector<int> v; std::vector<In> o; std::list<std::string> s; std::map<int, std::string> m; std::set<int> t; std::vector<std::vector<uint8_t>> vv; std::string txt; int end = 0;
    void srl_resolve(Context& c) { c("v", v)("o", o)("s", s)("m", m)("t", t)("vv", vv)("txt", txt)("end", end); } };
static bool operator==(const Box& a, const Box& b) { return a.v == b.v && a.o == b.o && a.s == b.s && a.m == b.m && a.t == b.t && a.vv == b.vv && a.txt == b.txt && a.end == b.end; }
static Box box(unsigned n, uint8_t x) { Box b; for (unsigned i = 0; i < n; i++) { b.v.push_back((int)(i * 1000 + x)); In e; e.p = (uint8_t)i; e.q = i % 3 ? "q" : "another text"; b.o.push_back(e); b.s.push_back("s" + std::to_string(i)); b.m[(int)(i * 7)] = i == n / 2 ? "half" : "m"; b.t.insert(-(int)i); b.vv.push_back(std::vector<uint8_t>(i % 3, (uint8_t)i)); b.txt += (char)('a' + i % 26); } b.end = x; return b; }
static std::string nm(unsigned i, unsigned w = 0) { return "n" + std::string(w, 'x') + std::to_string(i); }
struct Wide { unsigned n = 0; int how = 0; unsigned w = 0; std::vector<int> v; std::vector<In> o; std::vector<int> zz;
    void make(unsigned n_, uint8_t x) { n = n_; for (unsigned i = 0; i < n; i++) { v.push_back((int)i * 3 + x); In e; e.p = (uint8_t)(i ^ x); e.q = nm(i); o.push_back(e); } }
    void room(unsigned n_) { n = n_; v.assign(n, -1); o.assign(n, In()); }
    void srl_store(StoreContext& c) const { for (unsigned i = 0; i < n; i++) { c(nm(i, w), v[i]); if (how & 1) c("u" + nm(i, w), zz); if (i % 4 == 0) c("o" + nm(i, w), o[i]); } }
    void srl_restore(RestoreContext& c) { for (unsigned k = 0; k < n; k++) { unsigned i = how & 2 ? n - 1 - k : how & 4 ? (k * 7 + 3) % n : k; c(nm(i, w), v[i]); if (i % 4 == 0) c("o" + nm(i, w), o[i]); } }
    bool eq(const Wide& b) const { for (unsigned i = 0; i < n; i++) if (v[i] != b.v[i] || (i % 4 == 0 && !(o[i] == b.o[i]))) return false; return true; } };
typedef std::shared_ptr<In> SP;
struct Share { std::vector<SP> a, b; std::vector<std::weak_ptr<In>> w; int end = 0; void srl_resolve(Context& c) { c("a", a)("b", b)("w", w)("end", end); } };
struct Base { virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context&) = 0; virtual int tell() = 0; virtual ~Base() { } };
struct A : Base { int x = 0; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("x", x); } int tell() override { return x; } };
struct B : Base { int y = 0; std::string s; const TypeID& srl_type_id() override; void srl_resolve(Context& c) override { c("y", y)("s", s); } int tell() override { return -y - (int)s.size(); } };
static const auto rA = register_type<A>("many A"); const TypeID& A::srl_type_id() { return rA; }
static const auto rB = register_type<B>("many B"); const TypeID& B::srl_type_id() { return rB; }
struct Poly { std::vector<std::unique_ptr<Base>> u; std::map<int, std::shared_ptr<Base>> m; int end = 0; void srl_resolve(Context& c) { c("u", u)("m", m)("end", end); } };

extern "C" void harness() {
    int f = P("fmt", 0), kind = P("kind", 0), via = P("via", 0); unsigned n = (unsigned)P("base", 0) + vf_choose((unsigned)P("n", 4), "count") * (unsigned)P("step", 1); uint8_t x = two("x");
    switch (kind) {
    case 0: { Box o = box(n, x), r; if (P("used", 0)) r = box(70, 3); Tree t; vf_check(through(o, r, f, via, t), "containers of any size are accepted"); vf_check(r == o, "containers of any size"); break; }
    case 1: case 10: case 11: { Wide o, r; o.how = kind == 10; r.how = kind == 10 ? 4 : 2; o.w = r.w = kind == 11 ? (unsigned)P("len", 60) : 0; if (kind == 10 && n % 7 == 0) n++; o.make(n, x); r.room(n); Tree t; AnyParser ap; Tree wt; Bytes8 d = wt.store(o, ap.get(f)); if (kind == 10) d = wt.store(o, ap.get(f)); Buf b(d); InStream s(d, 13); AnyParser rp;
        vf_check(ok([&] { if (via == 1) { t.load_source(Lib::In::Source(b.p, b.n), rp.get(f)); t.root().paste(r); } else if (via == 4) t.restore(r, Lib::In::Source(s.is), rp.get(f)); else t.restore(r, Lib::In::Source(b.p, b.n), rp.get(f)); }), "any number of fields in any order is accepted"); vf_check(o.eq(r), "any number of fields in any order");
        if (via == 3) { r.room(n); r.how = 0; vf_check(ok([&] { t.restore(r, Lib::In::Source(b.p, b.n), rp.get(f)); }) && o.eq(r), "restored again"); } break; }
    case 2: { Share o, r; for (unsigned i = 0; i < n; i++) { o.a.push_back(i % 5 == 4 ? o.a[i / 2] : std::make_shared<In>()); o.a[i]->p = (uint8_t)(i + x); o.a[i]->q = "s"; } for (unsigned i = 0; i < n; i++) { o.b.push_back(o.a[(i * 3 + 1) % n]); o.w.push_back(o.a[n - 1 - i]); } o.end = 5;
        Tree t; vf_check(through(o, r, f, via, t), "any number of shared objects is accepted"); vf_check(r.a.size() == n && r.b.size() == n && r.w.size() == n && r.end == 5, "number of pointers");
        for (unsigned i = 0; i < n; i++) { vf_check(r.a[i] && *r.a[i] == *o.a[i], "content of a shared object"); vf_check(r.b[i] == r.a[(i * 3 + 1) % n] && r.w[i].lock() == r.a[n - 1 - i], "sharing"); for (unsigned j = i / 2; j < i; j++) vf_check((r.a[i] == r.a[j]) == (o.a[i] == o.a[j]), "sharing"); } break; }
    case 3: { Poly o, r; for (unsigned i = 0; i < n; i++) { if (i % 3) { auto* a = new A; a->x = (int)i * x; o.u.emplace_back(a); } else { auto* b = new B; b->y = (int)i + x; b->s = std::string(i % 4, 's'); o.u.emplace_back(b); } auto b = std::make_shared<B>(); b->y = (int)i; if (i % 2) o.m[(int)i] = b; else o.m[(int)i] = std::make_shared<A>(); } o.end = 4;
        Tree t; vf_check(through(o, r, f, via, t), "any number of objects of registered classes is accepted"); vf_check(r.u.size() == n && r.m.size() == n && r.end == 4, "number of objects"); for (unsigned i = 0; i < n; i++) { vf_check(r.u[i]->tell() == o.u[i]->tell() && typeid(*r.u[i]) == typeid(*o.u[i]), "object"); vf_check(r.m[(int)i] && r.m[(int)i]->tell() == o.m[(int)i]->tell(), "object of a map"); } break; }
    case 4: { Tree t; auto& R = t.root(); for (unsigned i = 0; i < n; i++) { R.insert(nm(i), (int)i + x); if (i % 2) R.insert("o" + nm(i), ScopeWrap([i](Node& m) { m.insert("p", (int)i, nm(i), nm(i)); }, Type::Object)); }
        vf_check(R.num_values() == n && R.num_nodes() == n / 2, "number of items"); unsigned k = 0; R.foreach_value([&](Value& v) { vf_check(std::string((const char*)v.name().data(), v.name().size()) == nm(k) && v.unwrap<int>() == (int)k + x, "values in order"); k++; }); k = 0; R.foreach_node([&](Node& v) { vf_check(std::string((const char*)v.name().data(), v.name().size()) == "o" + nm(k * 2 + 1) && v.value("p").unwrap<int>() == (int)k * 2 + 1 && v.value(nm(k * 2 + 1)).unwrap<std::string>() == nm(k * 2 + 1), "nodes in order"); k++; });
        for (unsigned i = 0; i < n; i++) { vf_check(R.value(nm(i)).unwrap<int>() == (int)i + x && R.value(i).unwrap<int>() == (int)i + x, "found"); if (i % 2) vf_check(R.node("o" + nm(i)).value("p").unwrap<int>() == (int)i, "found"); }
        for (unsigned i = 0; i < n; i += 3) R.remove_value(nm(i)); for (unsigned i = 1; i < n; i += 4) R.remove_node("o" + nm(i)); for (unsigned i = 0; i < n; i++) { R.insert("z" + nm(i), 1); vf_check(ok([&] { R.value(nm(i)); }) == (i % 3 != 0), "removed"); if (i % 2) vf_check(ok([&] { R.node("o" + nm(i)); }) == (i % 4 != 1), "removed"); }
        vf_check(R.num_values() == 2 * n - (n + 2) / 3, "number of items"); AnyParser ap; auto d = t.to_source(ap.get(f)); Tree u; Buf b(d); u.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); k = 0; u.root().foreach_value([&](Value& v) { while (k < n && k % 3 == 0) k++; std::string w = k < n ? nm(k) : ""; if (k < n) { vf_check(std::string((const char*)v.name().data(), v.name().size()) == w, "written in order"); k++; } }); break; }
    case 5: { std::string s; int shape = vf_choose(7, "shape"); if (shape == 4) x = (uint8_t)vf_concrete(x); char c = (char)('a' + x % 20); std::string ws(n % 50, ' ');
        switch (shape) { case 0: s = "[\"" + std::string(n, c) + "\\n\",\"" + std::string(n, 'z') + "\\u00e9" + std::string(n, c) + "\"]"; break; case 1: s = "{"; for (unsigned i = 0; i < n; i++) s += std::string(i ? "," : "") + "\"" + nm(i) + "\":" + (i % 2 ? "[" + std::to_string(i) + "]" : "\"" + nm(i) + "\""); s += "}"; break; case 2: s = "["; for (unsigned i = 0; i < n; i++) s += std::string(i ? " ,\n" : "") + (i % 3 ? "{}" : "[[],1]"); s += "]"; break;
        case 3: s = "{\"" + std::string(n, c) + "\":" + ws + "1" + ws + ",\"k\\u0041" + std::string(n, c) + "\"" + ws + ":{}}"; break; case 4: s = "[1" + std::string(n, '0') + ",0." + std::string(n, '0') + "25,-" + std::to_string(x) + "." + std::string(n + 1, '3') + "]"; break; case 5: s = ws + "[" + std::string(n, '\n') + "true," + std::string(n, '\t') + "null" + std::string(n, ' ') + "]" + ws; break; case 6: s = "[\""; for (unsigned i = 0; i < n; i++) s += i % 3 == 0 ? "\\\"" : i % 3 == 1 ? "\\\\" : "\\u20ac"; s += "\"]"; break; }
        Bytes8 d = bytes(s); JRead r(d.data(), d.size()); JV v; vf_check(r.doc(v), "the template is valid"); Tree t; Buf b(d); InStream is(d, 17); PJson p; vf_check(ok([&] { if (via == 4) t.load_source(Lib::In::Source(is.is), p); else t.load_source(Lib::In::Source(b.p, b.n), p); }), "a valid JSON document is accepted"); vf_check(sameDoc(t.root(), v), "a valid JSON document is read with its meaning"); break; }
    case 6: { Box o = box(n, x); AnyParser ap; Tree a, c; Bytes8 d = a.store(o, ap.get(f)); c.load_object(o); Bytes8 e = c.to_source(ap.get(f)); Tree p, q; Buf bd(d), be(e); p.load_source(Lib::In::Source(bd.p, bd.n), ap.get(f)); q.load_source(Lib::In::Source(be.p, be.n), ap.get(f)); Bytes8 x1, x2; dumpNode(p.root(), x1); dumpNode(q.root(), x2); vf_check(same(x1, x2), "the same document directly and through a tree"); Box r; q.root().paste(r); vf_check(r == o, "the same object through a tree"); break; }
    case 7: { Box o = box(n, x); o.vv.clear(); AnyParser ap; Tree a; Bytes8 d = a.store(o, ap.get(f)), first; int g = f; for (int i = 0; i < 3; i++) { Tree t; Buf b(d); t.load_source(Lib::In::Source(b.p, b.n), ap.get(g)); Bytes8 w; t.root().foreach_node([&](Node& q) { (void)q; w.push_back(1); }); vf_check(w.size() == 6, "number of scopes"); g = (g + 1) % 3; d = t.to_source(ap.get(g)); } Box r; Buf b(d); vf_check(ok([&] { a.restore(r, Lib::In::Source(b.p, b.n), ap.get(g)); }) && r == o, "the object after transcoding"); break; }
    case 8: { Box o = box(n, x), r; AnyParser ap; Tree t; Bytes8 d = t.store(o, ap.get(f)); Bytes8 c(d.begin(), d.begin() + d.size() - 1 - vf_choose(6, "cut") * (d.size() / 8)); Buf cb(c), b(d); vf_check(!ok([&] { t.restore(r, Lib::In::Source(cb.p, cb.n), ap.get(f)); }) || f == SRLF || f == MSGP, "a document cut short is refused"); vf_check(ok([&] { t.load_source(Lib::In::Source(cb.p, cb.n), ap.get(f)); }) == false, "a document cut short is refused");
        vf_check(same(t.store(o, ap.get(f)), d), "the same document after a failure"); Box q; vf_check(ok([&] { t.restore(q, Lib::In::Source(b.p, b.n), ap.get(f)); }) && q == o, "the same object after a failure"); break; }
    case 9: { static char names[600][6]; Lib::Registrations g; for (unsigned i = 0; i < n; i++) { std::string s = nm(i); memcpy(names[i], s.c_str(), s.size() + 1); if (i % 2) g.add<A>(names[i]); else g.add<B>(names[i]); }
        for (unsigned i = 0; i < n + 3; i++) { std::string s = nm(i); std::unique_ptr<Base> p; bool got = ok([&] { p = g.create<Base>(s); }); vf_check(got == (i < n), "a class is found by its name"); if (got) vf_check(typeid(*p) == (i % 2 ? typeid(A) : typeid(B)), "the class of a name"); vf_check(ok([&] { char const* w = i < n ? names[i] : "n0"; g.add<A>(w); }) == false || n == 0, "a name is registered once"); } break; }
    }
    vf_reach("done");
}
