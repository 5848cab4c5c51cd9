// C09: composites survive a round trip; the destination holds other content before.
#include "common.hpp"
using namespace Srl;
static unsigned N, F_, VIA;
template<class T> static T sym(const char* n = "e") { return vf_any<T>(n); }
static std::string ch() { char c; vf_sym(&c, 1, "ch"); vf_assume(P("any", 0) ? true : (c >= 'a') & (c <= 'z')); return std::string(1, c); }
static unsigned cnt() { return vf_choose(N + 1, "size"); }
// wrap into an object between two other fields
template<class T> struct Box { uint8_t a = 1; T v; std::string z; Box() : v() { } void srl_resolve(Context& c) { c("a", a)("v", v)("z", z); } };
template<class B, class EQ> static void trip(B& o, B& r, EQ eq) {
    AnyParser ap; Tree t; Bytes8 d;
    if (VIA) { Tree s; s.load_object(o); d = s.to_source(ap.get(F_)); } else d = t.store(o, ap.get(F_));
    Buf b(d);
    if (VIA) { Tree l; l.load_source(Lib::In::Source(b.p, b.n), ap.get(F_)); l.root().paste(r); } else { Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(F_)); }
    vf_check(eq(o, r), "composite restored");
    // once more into the object that now holds the content
    if (P("twice", 0)) { Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(F_)); vf_check(eq(o, r), "composite restored into a filled object"); }
    vf_observe(d.size()); vf_reach("roundtrip");
}
template<class T> static void boxed(Box<T>& o, Box<T>& r) { o.a = 200; o.z = "end"; trip(o, r, [](Box<T>& x, Box<T>& y) { return x.a == y.a && x.z == y.z && x.v == y.v; }); }
struct Pt { int16_t x = 0; std::string s; bool b = false; Pt() { } Pt(int16_t x_, std::string s_) : x(x_), s(s_) { } void srl_resolve(Context& c) { c("x", x)("s", s)("b", b); } bool operator==(const Pt& o) const { return x == o.x && s == o.s && b == o.b; } bool operator<(const Pt& o) const { return x < o.x; } };
struct Base { int8_t base = 0; std::vector<int8_t> l; void srl_resolve(Context& c) { c("base", base)("l", l); } };
struct Der : Base { Pt p; std::string d; void srl_resolve(Context& c) { c("p", p); Base::srl_resolve(c); c("d", d); } bool operator==(const Der& o) const { return base == o.base && l == o.l && p == o.p && d == o.d; } };
struct SR { int16_t a = 0; std::vector<Pt> v; void srl_store(StoreContext& c) const { c("a", a)("v", v)("extra", 5); } void srl_restore(RestoreContext& c) { c("v", v)("a", a); } bool operator==(const SR& o) const { return a == o.a && v == o.v; } };
struct Pos { int16_t a = 0; std::string s; std::vector<int8_t> v; Pt p; int8_t z = 0; void srl_resolve(Context& c) { c(v)(a)(s)(p)(z); } bool operator==(const Pos& o) const { return a == o.a && s == o.s && v == o.v && p == o.p && z == o.z; } };
struct Link { int8_t v = 0; std::vector<std::unique_ptr<Link>> next; std::vector<int8_t> tail; void srl_resolve(Context& c) { c("v", v)("next", next)("tail", tail); }
    bool operator==(const Link& o) const { return v == o.v && tail == o.tail && next.size() == o.next.size() && (next.empty() || *next[0] == *o.next[0]); } };
struct NP { std::unique_ptr<Pt> p; Pt* q = nullptr; uint8_t e = 0; ~NP() { delete q; } void srl_resolve(Context& c) { c("p", p)("q", q)("e", e); } };
struct NoDef { int8_t v; private: NoDef() : v(0) { } friend struct Srl::Ctor<NoDef>; public: explicit NoDef(int8_t x) : v(x) { } void srl_resolve(Context& c) { c("v", v); } bool operator==(const NoDef& o) const { return v == o.v; } };
struct Raw { int* p = nullptr; Pt* q = nullptr; Raw() { } Raw(const Raw&) = delete; ~Raw() { delete p; delete q; } void srl_resolve(Context& c) { c("p", p)("q", q); } };
struct Uq { std::unique_ptr<int16_t> i; std::unique_ptr<std::string> s; std::unique_ptr<std::vector<Pt>> v; void srl_resolve(Context& c) { c("i", i)("s", s)("v", v); } };
template<class T> static bool pe(const T& a, const T& b) { return a ? b && *a == *b : !b; }
struct Arr { int8_t a[3] = { 9, 9, 9 }; int16_t m[2][2] = { }; Pt p[2]; std::string s[2]; void srl_resolve(Context& c) { c("a", a)("m", m)("p", p)("s", s); } };
template<class T> static void push(T& c, unsigned n) { for (unsigned i = 0; i < n; i++) c.push_back(sym<typename T::value_type>()); }
