// C25: objects of registered classes restored through pointers to their bases.
// mode 0 every mixture of types in a container (box) 1 class names with free bytes 2 pointers of one hierarchy restored as pointers of another 3 destinations which hold other objects, documents cut short or with wrong fields
// mode 4 shared by pointers to different bases 5 fields in any order 6 histories of registrations 7 nested objects of registered classes
#include "common.hpp"
using namespace Srl;
static int64_t live = 0;
static uint8_t two(const char* n) { uint8_t v; vf_sym(&v, 1, n); vf_assume((v >= 10) & (v < 100)); return v; }
struct Count { Count() { live++; } Count(const Count&) { live++; } ~Count() { live--; } };
struct Base { Count c; virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context&) = 0; virtual std::string tell() = 0; virtual ~Base() { } };
struct Other { Count c; int tag = 77; virtual const TypeID& srl_type_id() = 0; virtual void srl_resolve(Context&) = 0; virtual std::string tell() = 0; virtual ~Other() { } };
static std::string num(uint64_t v) { std::string s; for (int i = 0; i < 8; i++) s.push_back((char)(v >> 8 * i)); return s; }
#define DECL(T) const TypeID& srl_type_id() override; std::string tell() override; void srl_resolve(Context& c) override
struct A : Base { uint8_t a = 1; DECL(A); };
struct Ab : A { std::string s = "?"; Ab() { } DECL(Ab); };
struct M : Other, Base { int64_t m = 5; std::vector<int> l; const TypeID& srl_type_id() override; std::string tell() override; void srl_resolve(Context& c) override; };
struct V : virtual Base { double pad = 1; int v = 0; DECL(V); };
struct O : Other { int o = 3; DECL(O); };
class Priv : public Base { friend struct Srl::Ctor<Priv>; int p; Priv() : p(0) { } public: explicit Priv(int x) : p(x) { } DECL(Priv); };
static const auto rA = register_type<A>("A"); const TypeID& A::srl_type_id() { return rA; }
static const auto rAb = register_type<Ab>("Ab"); const TypeID& Ab::srl_type_id() { return rAb; }
static const auto rM = register_type<M>("a class with a very long name, longer than the space for short ones"); const TypeID& M::srl_type_id() { return rM; }
static const auto rV = register_type<V>("V"); const TypeID& V::srl_type_id() { return rV; }
static const auto rO = register_type<O>("O"); const TypeID& O::srl_type_id() { return rO; }
static const auto rP = register_type<Priv>("A\xc3\xa9"); const TypeID& Priv::srl_type_id() { return rP; }
void A::srl_resolve(Context& c) { c("a", a); } std::string A::tell() { return "A" + num(a); }
void Ab::srl_resolve(Context& c) { A::srl_resolve(c); c("s", s); } std::string Ab::tell() { return "Ab" + num(a) + s; }
void M::srl_resolve(Context& c) { c("l", l)("m", m); } std::string M::tell() { std::string r = "M" + num(m); for (auto x : l) r += num(x); return r + num(tag); }
void V::srl_resolve(Context& c) { c("v", v); } std::string V::tell() { return "V" + num(v); }
void O::srl_resolve(Context& c) { c("o", o); } std::string O::tell() { return "O" + num(o) + num(tag); }
void Priv::srl_resolve(Context& c) { c("p", p); } std::string Priv::tell() { return "P" + num(p); }
static Base* make(int k, uint8_t x) {
    switch (k) { case 0: { auto* o = new A; o->a = x; return o; } case 1: { auto* o = new Ab; o->a = x; o->s = x % 2 ? "text" : ""; return o; } case 2: { auto* o = new M; o->m = 70000000000ll + x; o->l.assign(x % 3, x); return o; }
        case 3: { auto* o = new V; o->v = -(int)x; return o; } default: return new Priv(x); } }
typedef std::unique_ptr<Base> UB; typedef std::shared_ptr<Base> SB;
struct Raw { Base* p = nullptr; Raw() { } Raw(const Raw&) = delete; Raw(Raw&& o) : p(o.p) { o.p = nullptr; } Raw& operator=(Raw&& o) { std::swap(p, o.p); return *this; } ~Raw() { delete p; } void srl_resolve(Context& c) { c("p", p); } };
static int boxKind = 0;
struct Box {
    int kind = boxKind, end = 0; UB u; Raw raw; SB s; std::vector<UB> v; std::list<Raw> l; std::map<std::string, SB> m; std::pair<int, UB> pr; std::tuple<UB, SB> t; UB arr[3]; Lib::HTable<std::string, SB> h; std::vector<std::vector<SB>> vv;
    void srl_resolve(Context& c) { switch (kind) { case 0: c("v", v); break; case 1: c("l", l); break; case 2: c("m", m); break; case 3: c("u", u)("raw", raw)("s", s); break; case 4: c("pr", pr)("t", t); break; case 5: c("arr", arr); break; case 6: c("vv", vv); break; default: c("h", h); } c("end", end); }
    void set(std::vector<Base*> x) { end = 9; switch (kind) { case 0: for (auto* b : x) v.emplace_back(b); break; case 1: for (auto* b : x) { l.emplace_back(); l.back().p = b; } break; case 2: for (size_t i = 0; i < x.size(); i++) m["k" + std::to_string(i)].reset(x[i]); break; case 3: u.reset(x[0]); raw.p = x[1]; s.reset(x[2]); break;
        case 4: pr = { 4, UB(x[0]) }; t = std::tuple<UB, SB>(UB(x[1]), SB(x[2])); break; case 5: for (int i = 0; i < 3; i++) arr[i].reset(x[i]); break; case 6: vv = { { SB(x[0]) }, { }, { SB(x[1]), SB(x[2]) } }; break; default: for (size_t i = 0; i < x.size(); i++) h.insert("k" + std::to_string(i), SB(x[i])); } }
    std::vector<Base*> get() { std::vector<Base*> r; switch (kind) { case 0: for (auto& b : v) r.push_back(b.get()); break; case 1: for (auto& b : l) r.push_back(b.p); break; case 2: for (auto& e : m) r.push_back(e.second.get()); break; case 3: return { u.get(), raw.p, s.get() }; case 4: return { pr.second.get(), std::get<0>(t).get(), std::get<1>(t).get() };
        case 5: return { arr[0].get(), arr[1].get(), arr[2].get() }; case 6: for (auto& e : vv) for (auto& b : e) r.push_back(b.get()); return r; default: for (size_t i = 0; i < h.num_entries(); i++) { auto* b = h.get("k" + std::to_string(i)); r.push_back(b ? b->get() : nullptr); } } return r; }
    void fill() { u.reset(make(0, 1)); raw.p = make(2, 2); s.reset(make(1, 3)); v.emplace_back(make(3, 4)); v.emplace_back(); l.emplace_back(); l.back().p = make(1, 4); m["z"].reset(make(2, 2)); m["k0"].reset(make(1, 2)); pr.second.reset(make(0, 0)); std::get<0>(t).reset(make(2, 0)); arr[1].reset(make(2, 9)); h.insert("y", SB(make(1, 1))); vv.push_back({ s, s }); }
};
template<class B> struct One { std::unique_ptr<B> p; int end = 0; void srl_resolve(Context& c) { c("p", p)("end", end); } };
template<class B> struct OneR { B* p = nullptr; int end = 0; ~OneR() { delete p; } void srl_resolve(Context& c) { c("p", p)("end", end); } };
template<class B> struct OneS { std::shared_ptr<B> p; int end = 0; void srl_resolve(Context& c) { c("p", p)("end", end); } };
template<class B> struct OneL { std::vector<std::unique_ptr<B>> p; int end = 0; void srl_resolve(Context& c) { c("p", p)("end", end); } };
struct Doc { std::function<void(StoreContext&)> f; void srl_store(StoreContext& c) const { f(c); } void srl_restore(RestoreContext&) { } };
template<class R> static bool load(R& r, const Bytes8& d, int f, int via) { AnyParser ap; Buf b(d); Tree t; InStream s(d, 3);
    return ok([&] { if (via == 0) t.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); else if (via == 4) t.restore(r, Lib::In::Source(s.is), ap.get(f)); else { t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); t.root().paste(r); } }); }
// what a class name stands for: -1 nothing
static int known(const std::string& n) { const char* names[] = { "A", "Ab", "a class with a very long name, longer than the space for short ones", "V", "A\xc3\xa9", "O" }; for (int i = 0; i < 6; i++) if (n == names[i]) return i; return -1; }
static Bytes8 doc(int f, const std::function<void(Node&)>& content, bool shared, bool list) {
    Doc d { [&](StoreContext& c) { auto one = [&](Node& n) { if (shared) n.insert("srl_shared_key", 0, "srl_shared_value", ScopeWrap([&](Node& v) { content(v); }, Type::Object)); else content(n); };
        if (list) c("p", ScopeWrap([&](Node& n) { n.insert(ScopeWrap([&](Node& v) { v.insert("srl_type_id", std::string("A"), "a", 12); }, Type::Object)); n.insert(ScopeWrap(one, Type::Object)); }, Type::Array)); else c("p", ScopeWrap(one, Type::Object)); c("end", 9); } };
    AnyParser ap; Tree t; return t.store(d, ap.get(f)); }
// the destination after a refused document
template<class B> static void usable(B* p) { if (p) vf_check(p->tell().size() > 0, "an object left in the destination"); }

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), via = P("via", 0); int64_t before = live; boxKind = mode == 7 ? 6 : P("box", 0);
    if (mode == 0) {
        int box = P("box", 0); bool fixed = box > 2 && box < 7; int n = fixed ? 3 : P("n", 3); if (!fixed && P("vary", 0)) n = vf_choose(n + 1, "size");
        { Box o, r;  std::vector<Base*> x; for (int i = 0; i < n; i++) { int k = vf_choose(5, "type"); x.push_back(make(k, i ? 20 + i : two("v"))); } o.set(x);
          if (P("used", 0)) { r.fill(); }
          Tree t; vf_check(through(o, r, f, via, t), "objects of registered classes are rejected"); auto y = r.get(); vf_check(y.size() == x.size() && r.end == 9, "number of objects");
          for (int i = 0; i < n; i++) { vf_check(y[i] != nullptr && y[i] != x[i], "an object"); vf_check(typeid(*y[i]) == typeid(*x[i]), "class of an object"); vf_check(y[i]->tell() == x[i]->tell(), "content of an object"); vf_check(strcmp(y[i]->srl_type_id().name(), x[i]->srl_type_id().name()) == 0, "name of the class"); } }
        vf_check(live == before, "every object is destroyed once"); vf_reach("restored");
    } else if (mode == 1) {
        int len = P("len", 1), dst = P("dst", 0), used = P("used", 0); std::string n(len, ' '); for (auto& ch : n) { uint8_t b; vf_sym(&b, 1, "name"); if (f == JSON || f == JSONP) vf_assume(b >= 32 && b < 127 && b != '"' && b != '\\'); ch = (char)b; } n = (P("pre", 0) == 1 ? "A" : P("pre", 0) == 2 ? "a class with a very long name, longer than the space for short one" : "") + n;
        auto d = doc(f, [&](Node& v) { v.insert("srl_type_id", n, "a", 33, "s", std::string("str"), "m", 4, "v", 5, "p", 6); v.insert("l", std::vector<int>{ 1, 2 }); }, dst == 2, dst == 3);
        int k = known(n); bool good = k >= 0 && k < 5, got; auto chk = [&](Base* p) { if (got) { vf_check(p != nullptr, "an object"); const std::type_info* ti[] = { &typeid(A), &typeid(Ab), &typeid(M), &typeid(V), &typeid(Priv) }; vf_check(typeid(*p) == *ti[k], "class of a name"); } else usable(p); };
        { One<Base> u; OneR<Base> r; OneS<Base> s; OneL<Base> l; if (used) { u.p.reset(make(2, 1)); r.p = make(1, 1); s.p.reset(make(0, 5)); l.p.emplace_back(make(2, 2)); }
          switch (dst) { case 0: got = load(u, d, f, via); chk(u.p.get()); break; case 1: got = load(r, d, f, via); chk(r.p); break; case 2: got = load(s, d, f, via); chk(s.p.get()); break; default: got = load(l, d, f, via); if (got) { vf_check(l.p.size() == 2 && l.p[0]->tell() == "A" + num(12), "list"); chk(l.p[1].get()); } else for (auto& e : l.p) usable(e.get()); }
          vf_check(got == good, good ? "a registered class is rejected" : "a class which is not registered is accepted");
          auto e = doc(f, [&](Node& v) { v.insert("srl_type_id", std::string("Ab"), "a", 3, "s", std::string("again")); }, dst == 2, dst == 3); std::string want = "Ab" + num(3) + "again";
          switch (dst) { case 0: vf_check(load(u, e, f, via) && u.p->tell() == want, "usable again"); break; case 1: vf_check(load(r, e, f, via) && r.p->tell() == want, "usable again"); break; case 2: vf_check(load(s, e, f, via) && s.p->tell() == want, "usable again"); break; default: vf_check(load(l, e, f, via) && l.p.size() == 2 && l.p[1]->tell() == want, "usable again"); } }
        vf_check(live == before, "every object is destroyed once"); vf_reach(good ? "accepted" : "rejected");
    } else if (mode == 2) {
        int k = vf_choose(6, "type"), dst = vf_choose(3, "dst"), to = vf_choose(2, "hierarchy"); uint8_t x = two("v");
        { Bytes8 d; AnyParser ap; Tree wt; std::string want; auto st = [&](auto& o) { d = wt.store(o, ap.get(f)); };
          if (k == 5) { auto mk = [&] { auto* o = new O; o->o = x; return o; }; { O o; o.o = x; want = o.tell(); } if (dst == 2) { OneS<Other> s; s.p.reset(mk()); s.end = 9; st(s); } else { One<Other> u; u.p.reset(mk()); u.end = 9; st(u); } }
          else { Base* b = make(k, x); want = b->tell(); bool o = k == 2 && vf_choose(2, "from"); if (o) { Other* q = static_cast<M*>(b); if (dst == 2) { OneS<Other> s; s.p.reset(q); s.end = 9; st(s); } else { One<Other> u; u.p.reset(q); u.end = 9; st(u); } } else if (dst == 2) { OneS<Base> s; s.p.reset(b); s.end = 9; st(s); } else { One<Base> u; u.p.reset(b); u.end = 9; st(u); } }
          bool good = to == 0 ? k != 5 : k == 5 || k == 2; bool got; std::string have; int end = 0;
          auto go = [&](auto& r) { got = load(r, d, f, via); if (got) { vf_check(r.p != nullptr, "an object"); have = r.p->tell(); end = r.end; } };
          if (to == 0) { One<Base> u; OneR<Base> r; OneS<Base> s; if (dst == 0) go(u); else if (dst == 1) go(r); else go(s); } else { One<Other> u; OneR<Other> r; OneS<Other> s; if (dst == 0) go(u); else if (dst == 1) go(r); else go(s); }
          vf_check(got == good, good ? "a class of the requested hierarchy is rejected" : "a class of another hierarchy is accepted"); if (got) vf_check(have == want && end == 9, "the object"); vf_reach(good ? "accepted" : "rejected"); }
        vf_check(live == before, "every object is destroyed once");
    } else if (mode == 3) {
        int box = P("box", 0);
        { Box o; o.set({ make(vf_choose(5, "type"), 30), make(2, two("v")), make(1, 31) }); AnyParser ap; Tree wt; auto d = wt.store(o, ap.get(f));
          if (P("cut", 1)) { size_t at = P("lo", 0) + vf_choose(P("cn", 60), "cut"); if (at < d.size()) d.resize(at); } else { size_t at = P("lo", 0) + vf_choose(P("cn", 60), "at"); uint8_t b; vf_sym(&b, 1, "byte"); if (at < d.size()) d[at] = b; }
          Box r; r.fill(); bool got = load(r, d, f, via); for (auto* p : r.get()) usable(p); auto d2 = Bytes8(); if (got) { vf_check(ok([&] { d2 = wt.store(r, ap.get(f)); }), "stored again"); }
          Box q; q.set({ make(3, 1), make(0, 2), make(2, 3) }); d = wt.store(q, ap.get(f)); vf_check(load(r, d, f, via), "usable again"); auto x = q.get(), y = r.get(); vf_check(x.size() == y.size(), "usable again"); for (size_t i = 0; i < x.size(); i++) vf_check(y[i] && x[i]->tell() == y[i]->tell(), "usable again"); vf_reach(got ? "accepted" : "rejected"); }
        vf_check(live == before, "every object is destroyed once");
    } else if (mode == 4) {
        struct Sh { SB a, b; std::shared_ptr<Other> o, q; std::shared_ptr<M> m; std::weak_ptr<Base> w; int order = 0, end = 0; void srl_resolve(Context& c) { switch (order) { case 0: c("a", a)("o", o)("m", m)("b", b)("q", q)("w", w); break; case 1: c("o", o)("m", m)("q", q)("w", w)("b", b)("a", a); break; default: c("m", m)("w", w)("a", a)("q", q)("o", o)("b", b); } c("end", end); } };
        { Sh o, r; o.order = r.order = vf_choose(3, "order"); o.end = 7; auto x = std::make_shared<M>(), y = std::make_shared<M>(); x->m = two("m"); y->l = { 4, 5 }; std::shared_ptr<M> pool[3] = { nullptr, x, y };
          int k[6]; for (int i = 0; i < 6; i++) k[i] = vf_choose(3, "slot"); o.a = pool[k[0]]; o.b = pool[k[1]]; o.o = pool[k[2]]; o.q = pool[k[3]]; o.m = pool[k[4]]; o.w = pool[k[5]]; if (P("alt", 0)) { if (k[1] == 2) o.b = std::make_shared<Ab>(); }
          Tree t; vf_check(through(o, r, f, via, t), "shared objects of registered classes are rejected"); vf_check(r.end == 7, "following field");
          auto same = [&](auto& p, auto& q) { return dynamic_cast<void*>(p.get()) == dynamic_cast<void*>(q.get()); }; auto w = o.w.lock(), rw = r.w.lock();
          auto eq = [&](auto& p, auto& q) { vf_check(!p == !q, "null and not null"); if (p) vf_check(p->tell() == q->tell(), "content"); }; eq(o.a, r.a); eq(o.b, r.b); eq(o.o, r.o); eq(o.q, r.q); eq(o.m, r.m); eq(w, rw);
          auto pr = [&](auto& p, auto& q, auto& p2, auto& q2) { if (p && q) vf_check(same(p, q) == same(p2, q2), "sharing through bases"); }; pr(o.a, o.b, r.a, r.b); pr(o.a, o.o, r.a, r.o); pr(o.a, o.m, r.a, r.m); pr(o.o, o.q, r.o, r.q); pr(o.m, o.q, r.m, r.q); pr(o.b, o.q, r.b, r.q); pr(w, o.m, rw, r.m); pr(w, o.o, rw, r.o); }
        vf_check(live == before, "every object is destroyed once"); vf_reach("restored");
    } else if (mode == 5) {
        int k = vf_choose(2, "type"), rot = vf_choose(6, "order"), unk = vf_choose(6, "unknown"), at = vf_choose(4, "at"); uint8_t a = two("a");
        auto field = [&](Node& v, int i) { if (i == 0) v.insert("srl_type_id", std::string(k ? "a class with a very long name, longer than the space for short ones" : "Ab")); else if (i == 1) { if (k) v.insert("m", a); else v.insert("a", a); } else { if (k) v.insert("l", std::vector<int>{ 6, a }); else v.insert("s", std::string("late")); } };
        auto unknown = [&](Node& v) { switch (unk) { case 0: break; case 1: v.insert("zz", 1); break; case 2: v.insert("zz", std::vector<std::string>{ "A", "V" }); break; case 3: v.insert("zz", ScopeWrap([](Node& w) { w.insert("srl_type_id", std::string("V"), "a", 1); }, Type::Object)); break; case 4: v.insert("srl_type_i", std::string("V")); break; default: v.insert("srl_shared_key", std::string("V")); } };
        static const int ord[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; int dst = P("dst", 0);
        auto d = doc(f, [&](Node& v) { for (int i = 0; i < 4; i++) { if (i == at) unknown(v); if (i < 3) field(v, ord[rot][i]); } }, dst == 2, dst == 3);
        { One<Base> u; OneR<Base> r; OneS<Base> s; OneL<Base> l; bool got; Base* p; int end; switch (dst) { case 0: got = load(u, d, f, via); p = u.p.get(); end = u.end; break; case 1: got = load(r, d, f, via); p = r.p; end = r.end; break; case 2: got = load(s, d, f, via); p = s.p.get(); end = s.end; break; default: got = load(l, d, f, via); p = l.p.size() == 2 ? l.p[1].get() : nullptr; end = l.end; }
          vf_check(got && p && end == 9, "fields in another order"); std::string want = k ? "M" + num(a) + num(6) + num(a) + num(77) : "Ab" + num(a) + "late"; vf_check(p->tell() == want, "content"); }
        vf_check(live == before, "every object is destroyed once"); vf_reach("restored");
    } else if (mode == 6) {
        int n = P("n", 4), free = P("free", 0); static char names[8][4]; { Lib::Registrations regs; int cls[8]; bool used[8]; static const char* pool[] = { "A", "Ab", "", "bA", "a name which is rather long and no other", "a name which is rather long and no othes" };
          auto name = [&](int i) -> const char* { if (i >= free && i < 7) return pool[vf_choose(6, "name")]; uint8_t b; vf_sym(&b, 1, "byte"); vf_assume(b != 0); names[i][0] = (char)b; names[i][1] = 0; return names[i]; }; const char* nm[8];
          for (int i = 0; i < n; i++) { nm[i] = name(i); cls[i] = vf_choose(3, "class"); int dup = -1; for (int j = 0; j < i; j++) if (used[j] && !strcmp(nm[j], nm[i])) dup = j;
            bool done = ok([&] { switch (cls[i]) { case 0: regs.add<A>(nm[i]); break; case 1: regs.add<M>(nm[i]); break; default: regs.add<O>(nm[i]); } }); vf_check(done == (dup < 0), "a name is registered once"); used[i] = done; }
          const char* q = name(free ? 7 : 6); int w = -1; for (int j = 0; j < n; j++) if (used[j] && !strcmp(nm[j], q)) w = cls[j];
          UB b; std::unique_ptr<Other> o; bool gb = ok([&] { b = regs.create<Base>(q); }), go = ok([&] { o = regs.create<Other>(q); }); vf_check(gb == (w == 0 || w == 1) && go == (w == 1 || w == 2), "a class is found by its name"); if (gb) vf_check(typeid(*b) == (w ? typeid(M) : typeid(A)), "the class of a name"); if (go) vf_check(typeid(*o) == (w == 1 ? typeid(M) : typeid(O)), "the class of a name"); vf_reach(w < 0 ? "missing" : "found"); }
        vf_check(live == before, "every object is destroyed once");
    } else {
        int n = P("n", 3);
        { Box o, r;  std::vector<Base*> x; o.vv.resize(n); for (int i = 0; i < n; i++) { int k = vf_choose(3, "size"); for (int j = 0; j < k; j++) { o.vv[i].push_back(vf_choose(2, "shared") && x.size() ? o.vv[0].size() ? o.vv[0][0] : SB(make(i % 5, 20 + j)) : SB(make((i + j) % 5, 40 + j))); x.push_back(o.vv[i].back().get()); } } o.end = 9;
          Tree t; vf_check(through(o, r, f, via, t), "nested objects of registered classes are rejected"); auto y = r.get(); vf_check(y.size() == x.size() && r.vv.size() == (size_t)n && r.end == 9, "number of objects");
          for (size_t i = 0; i < x.size(); i++) { vf_check(y[i]->tell() == x[i]->tell(), "content"); for (size_t j = 0; j < i; j++) vf_check((x[i] == x[j]) == (y[i] == y[j]), "sharing"); } }
        vf_check(live == before, "every object is destroyed once"); vf_reach("restored");
    }
}
