// C06 integers/bool/null and C07 floating point: store -> restore is the identity.
// fmt 0..3, type 0..7 integers (i8 u8 i16 u16 i32 u32 i64 u64), 8 bool, 9 null, 10 float, 11 double; pos = containing position
#include "common.hpp"
using namespace Srl;
template<class T> struct One { T v = T(); void srl_resolve(Context& c) { c("v", v); } };
template<class T> struct Mid { int8_t before = 0; T v = T(); std::string after; void srl_resolve(Context& c) { c("before", before)("v", v)("after", after); } };
template<class T> struct Nest { One<T> in; std::deque<T> list; void srl_resolve(Context& c) { c("in", in)("list", list); } };

static bool isInt(Type t) { return (uint8_t)t <= (uint8_t)Type::UI64 && t != Type::Bool; }
template<class T> static bool eqv(const T& a, const T& b) { return a == b; }
template<> bool eqv(const float& a, const float& b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return (a != a && b != b) || x == y; }
template<> bool eqv(const double& a, const double& b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (a != a && b != b) || x == y; }

struct Wide { template<class T> static void check(const Bytes8& d, int f, const T& v) {       // the next wider types of the same kind
    AnyParser ap; Tree t;
    if (std::is_signed<T>::value) { One<int64_t> w; t.restore(w, Lib::In::Source(d.data(), d.size()), ap.get(f)); vf_check(w.v == (int64_t)v, "widening restore keeps the value"); }
    else { One<uint64_t> w; t.restore(w, Lib::In::Source(d.data(), d.size()), ap.get(f)); vf_check(w.v == (uint64_t)v, "widening restore keeps the value"); }
} };

template<class T> static void run(int f, int pos, T v) {
    AnyParser ap;
    Tree t;
    Bytes8 d;
    switch (pos) {
    case 0: { One<T> o, r; o.v = v; d = t.store(o, ap.get(f)); r.v = T(1); Buf b(d); Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); vf_check(eqv(r.v, v), "field restored unchanged");
        Wide::check<T>(d, f, v); break; }
    case 1: { Mid<T> o, r; o.before = -7; o.v = v; o.after = "z"; d = t.store(o, ap.get(f)); Buf b(d); Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(f));
        vf_check(eqv(r.v, v), "field restored unchanged"); vf_check(r.before == -7 && r.after == "z", "neighbouring fields intact"); break; }
    case 2: { Nest<T> o, r; o.in.v = v; o.list = { T(1), v, v }; r.list = { T(1), T(1) }; d = t.store(o, ap.get(f)); Buf b(d); Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(f));
        vf_check(eqv(r.in.v, v), "nested field restored unchanged"); vf_check(r.list.size() == 3 && eqv(r.list[0], T(1)) && eqv(r.list[1], v) && eqv(r.list[2], v), "list elements restored unchanged"); break; }
    case 3: { t.root().insert("v", v, "w", v); d = t.to_source(ap.get(f)); Buf b(d); Tree t2; t2.load_source(b.p, b.n, ap.get(f));
        Node& n = t2.root(); vf_check(n.num_values() == 2 && n.num_nodes() == 0, "document structure");
        Value& x = n.value("v");
        vf_check(TpTools::is_scalar(x.type()), "scalar stays a scalar");
        if (std::is_integral<T>::value && !std::is_same<T, bool>::value) vf_check(isInt(x.type()), "integer stays an integer");
        if (std::is_same<T, bool>::value) vf_check(x.type() == Type::Bool, "boolean stays a boolean");
        vf_check(eqv(x.unwrap<T>(), v) && eqv(n.unwrap_field<T>("w"), v) && eqv((T)n["w"], v), "value read from the tree");
        break; }
    case 4: { d = t.store(v, ap.get(f)); Buf b(d); Tree t2; T r = T(1); t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); vf_check(eqv(r, v), "top level value restored unchanged"); break; }
    case 5: { typedef std::tuple<T, T, std::string> Tp; One<Tp> o, r; o.v = Tp(v, T(1), "q"); d = t.store(o, ap.get(f)); Buf b(d); Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); vf_check(eqv(std::get<0>(r.v), v) && eqv(std::get<1>(r.v), T(1)) && std::get<2>(r.v) == "q", "tuple restored unchanged"); break; }
    case 6: { std::map<std::string, T> o, r; o["k"] = v; o["l"] = T(1); r["x"] = T(0); d = t.store(o, ap.get(f)); Buf b(d); Tree t2; t2.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); vf_check(r.size() == 2 && eqv(r["k"], v) && eqv(r["l"], T(1)), "map restored unchanged"); break; }
    }
    vf_observe(d.size());
    for (auto c : d) vf_observe(c);
    vf_reach("roundtrip");
}
template<> void Wide::check<bool>(const Bytes8&, int, const bool&) { }
template<> void Wide::check<float>(const Bytes8& d, int f, const float& v) { AnyParser ap; Tree t; One<double> w; t.restore(w, Lib::In::Source(d.data(), d.size()), ap.get(f)); vf_check(eqv<double>(w.v, v), "widening restore keeps the value"); }
template<> void Wide::check<double>(const Bytes8&, int, const double&) { }

template<class T> static T input() {
    T v;
    int win = (int)P("win", 0);
    if (win == 0) return vf_any<T>("v");
    // a window of 16 (or 8) free bits somewhere: base + x
    uint64_t base = (uint64_t)P("base", 0);
    uint64_t x = win == 8 ? vf_any<uint8_t>("x") : vf_any<uint16_t>("x");
    v = (T)(base + x);
    return v;
}
template<class T> static T fp() {      // sign/exponent/mantissa bits selected by masks, the rest fixed
    T v; typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type bits, mask = (decltype(bits))P("mask", -1), base = (decltype(bits))P("base", 0);
    vf_sym(&bits, sizeof(bits), "bits"); bits = (bits & mask) | base; if (P("conc", 0)) bits = (decltype(bits))vf_concrete(bits);
    memcpy(&v, &bits, sizeof(T)); return v;
}
template<class T> static T smallfp() { // n / 2^k with symbolic n, a decimal-free way to reach many exact JSON texts
    int n = (int)(int8_t)vf_concrete((uint8_t)vf_any<uint8_t>("n")); int k = (int)P("k", 0); T v = (T)n; for (int i = 0; i < k; i++) v /= 2; for (int i = 0; i > k; i--) v *= 10; return v;
}
template<class T> static T intfp() { // every integer the type represents exactly (24 / 53 bits, signed)
    int64_t n = vf_any<int64_t>("n"); n >>= sizeof(T) == 4 ? 40 : 11; return (T)n;
}
extern "C" void harness() {
    int f = (int)P("fmt", 0), pos = (int)P("pos", 0);
    switch ((int)P("type", 0)) {
#ifdef GRP_A
    case 0: run<int8_t>(f, pos, input<int8_t>()); break;
    case 1: run<uint8_t>(f, pos, input<uint8_t>()); break;
    case 2: run<int16_t>(f, pos, input<int16_t>()); break;
    case 3: run<uint16_t>(f, pos, input<uint16_t>()); break;
#endif
#ifdef GRP_B
    case 4: run<int32_t>(f, pos, input<int32_t>()); break;
    case 5: run<uint32_t>(f, pos, input<uint32_t>()); break;
    case 6: run<int64_t>(f, pos, input<int64_t>()); break;
    case 7: run<uint64_t>(f, pos, input<uint64_t>()); break;
#endif
#ifdef GRP_C
    case 8: { uint8_t b = vf_any<uint8_t>("b"); vf_assume(b < 2); run<bool>(f, pos, b == 1); break; }
    case 9: {
        AnyParser ap; Tree t; int w = (int)P("w", 0);
        t.root().insert("a", nullptr, "b", 3, "c", Value(Type::Null));
        Bytes8 d = t.to_source(ap.get(f)); Buf b(d); Tree t2; t2.load_source(b.p, b.n, ap.get(f));
        Node& n = t2.root();
        vf_check(n.num_values() == 3 && n.value("a").type() == Type::Null && n.value("c").type() == Type::Null && n.unwrap_field<int>("b") == 3, "null stays null");
        struct N { std::unique_ptr<int> a; int b = 0; int c = 9; double d = 5; void srl_resolve(Context& x) { x("a", a)("b", b)("c", c); } } r;
        r.a.reset(new int(w)); Tree t3; t3.restore(r, Lib::In::Source(b.p, b.n), ap.get(f));
        vf_check(!r.a && r.b == 3 && r.c == 0, "null restores as null pointer and zero");
        vf_reach("roundtrip"); break; }
    case 10: if (P("dec", 0) == 2) run<float>(f, pos, intfp<float>()); else if (P("dec", 0)) run<float>(f, pos, smallfp<float>()); else run<float>(f, pos, fp<float>()); break;
    case 11: if (P("dec", 0) == 2) run<double>(f, pos, intfp<double>()); else if (P("dec", 0)) run<double>(f, pos, smallfp<double>()); else run<double>(f, pos, fp<double>()); break;
#endif
    }
}
