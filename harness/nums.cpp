// C13: a stored number restored into any numeric type is exact or refused.
// src 0..7 int8..uint64 (signed/unsigned alternating), 8 bool, 9 float, 10 double, 11 null; dst 0..10 likewise; path 0..8; fmt -1 in-memory tree or a format
#include "common.hpp"
using namespace Srl;
struct Num { int k = 0; bool neg = false; uint64_t u = 0; double d = 0; };     // k 0 int, 1 fp, 2 null
static Num src(Tree& t, int s) {
    Num n;
#define INT(i, T) case i: { T x = vf_any<T>("x"); n.neg = std::is_signed<T>::value && (int64_t)x < 0; n.u = (uint64_t)(int64_t)x; if (!std::is_signed<T>::value) n.u = (uint64_t)x; t.root().insert("a", 1, "x", x, "z", 2); break; }
    switch (s) {
    INT(0, int8_t) INT(1, uint8_t) INT(2, int16_t) INT(3, uint16_t) INT(4, int32_t) INT(5, uint32_t) INT(6, int64_t) INT(7, uint64_t)
    case 8: { bool b = vf_choose(2, "b"); n.u = b; t.root().insert("a", 1, "x", b, "z", 2); break; }
    case 9: { float f = vf_any<float>("x"); n.k = 1; n.d = f; t.root().insert("a", 1, "x", f, "z", 2); break; }
    case 10: { double f = vf_any<double>("x"); n.k = 1; n.d = f; t.root().insert("a", 1, "x", f, "z", 2); break; }
    case 11: n.k = 2; t.root().insert("a", 1, "x", Value(Type::Null), "z", 2); break;
    }
    return n;
}
template<class T> struct Box { int a = 0; T x; int z = 0; void srl_resolve(Context& c) { c("a", a)("x", x)("z", z); } };
// dynamic access while a typed restore is under way
template<class T> struct Dyn { int a = 0; T x; int z = 0; void srl_resolve(Context& c) { if (c.mode() == Mode::Insert) return; Union u; c.node().paste_field("x", u); x = u.unwrap<T>(); c("a", a)("z", z); } };
// fetch through one access path; false = refused
template<class T> static bool get(Tree& t, int f, int path, T& r) {
    if (path < 6) {
        Tree l; Tree* u = &t; Bytes8 d; AnyParser ap;
        if (f >= 0) { d = t.to_source(ap.get(f)); l.load_source(Lib::In::Source(d.data(), d.size()), ap.get(f)); u = &l; }
        switch (path) {
        case 0: return ok([&] { u->root().value("x").paste(r); });
        case 1: return ok([&] { r = u->root().value((size_t)1).template unwrap<T>(); });
        case 2: return ok([&] { u->root().paste_field("x", r); });
        case 3: return ok([&] { r = u->get("x").template unwrap<T>(); });
        case 4: { auto o = u->root().get("x").template unwrap_if<T>(); if (o) r = *o; return (bool)o; }
        case 5: { auto o = u->try_get("x"); vf_check((bool)o, "the field exists"); return ok([&] { o->copy_to(r); }); }
        }
    }
    AnyParser ap; Bytes8 d;
    if (path == 6) { d = t.to_source(ap.get(f)); Buf b(d); Box<T> o; o.x = r; Tree q; bool k = ok([&] { q.restore(o, Lib::In::Source(b.p, b.n), ap.get(f)); }); if (k) { vf_check(o.a == 1 && o.z == 2, "neighbouring fields"); r = o.x; } return k; }
    if (path == 7) { d = t.to_source(ap.get(f)); Buf b(d); Dyn<T> o; o.x = r; Tree q; bool k = ok([&] { q.restore(o, Lib::In::Source(b.p, b.n), ap.get(f)); }); if (k) { vf_check(o.a == 1 && o.z == 2, "neighbouring fields"); r = o.x; } return k; }
    // element of a list / value of a map
    Tree w(Type::Array); w.root().insert(t.root().value("x")); d = w.to_source(ap.get(f)); Buf b(d); std::list<T> v; Tree q; bool k = ok([&] { q.restore(v, Lib::In::Source(b.p, b.n), ap.get(f)); }); if (k) { vf_check(v.size() == 1, "one element"); r = v.front(); } return k;
}
template<class T> static void integral(Tree& t, const Num& n, int f, int path) {
    const bool sg = std::is_signed<T>::value; const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    T r = (T)77; bool k = get<T>(t, f, path, r);
    if (n.k == 2) { vf_check(k && r == 0, "null restores as zero"); return; }
    if (n.k == 0) {
        bool fits = n.neg ? sg && (int64_t)n.u >= (int64_t)lo : n.u <= (uint64_t)hi;
        vf_check(k == fits, "an integer is accepted exactly when it fits");
        if (k) vf_check((uint64_t)(sg ? (uint64_t)(int64_t)r : (uint64_t)r) == n.u && (sg && r < 0) == n.neg, "the restored integer equals the stored one");
        else vf_check(r == (T)77, "a refused value leaves the destination unchanged");
        return;
    }
    const double top = sizeof(T) == 8 ? (sg ? 9223372036854775808.0 : 18446744073709551616.0) : (double)hi + 1;   // exclusive
    bool wide = n.d > (double)lo - 1 && n.d < top;                       // the truncation fits
    if (sizeof(T) == 8 && sg) wide = n.d >= -9223372036854775808.0 && n.d < top;
    bool exact = n.d >= (double)lo && (sizeof(T) == 8 ? n.d < top : n.d <= (double)hi);
    if (k) { vf_check(wide, "a number out of range is refused"); vf_assume(wide); vf_check(r == (T)n.d, "the restored integer is the truncated number"); }
    else { vf_check(!exact, "a number in range is accepted"); vf_check(r == (T)77, "a refused value leaves the destination unchanged"); }
}
template<class T> static void floating(Tree& t, const Num& n, int f, int path) {
    T r = (T)0.5; bool k = get<T>(t, f, path, r);
    if (n.k == 2) { vf_check(k && r == 0, "null restores as zero"); return; }
    if (n.k == 0) { vf_check(k, "an integer is accepted"); vf_check(r == (n.neg ? (T)(int64_t)n.u : (T)n.u), "the correctly rounded value"); return; }
    bool fin = n.d - n.d == 0;
    bool inr = sizeof(T) == 8 || !fin || (n.d >= -3.4028234663852886e38 && n.d <= 3.4028234663852886e38);
    vf_check(k == inr, "a number is accepted exactly when it is in range");
    if (k) vf_check(n.d != n.d ? r != r : r == (T)n.d, "the correctly rounded value");
}
static void boolean(Tree& t, const Num& n, int f, int path) {
    bool r = false; bool k = get<bool>(t, f, path, r);
    if (n.k == 2) vf_check(k && !r, "null restores as false");
    else if (n.k == 0) { vf_check(k == (!n.neg && n.u <= 1), "only 0 and 1 restore as booleans"); if (k) vf_check(r == (n.u == 1), "the boolean value"); }
}
extern "C" void harness() {
    Tree t; int f = (int)P("fmt", -1), path = (int)P("path", 0);
    Num n = src(t, (int)P("src", 0));
    switch (P("dst", 0)) {
    case 0: integral<int8_t>(t, n, f, path); break; case 1: integral<uint8_t>(t, n, f, path); break; case 2: integral<int16_t>(t, n, f, path); break; case 3: integral<uint16_t>(t, n, f, path); break;
    case 4: integral<int32_t>(t, n, f, path); break; case 5: integral<uint32_t>(t, n, f, path); break; case 6: integral<int64_t>(t, n, f, path); break; case 7: integral<uint64_t>(t, n, f, path); break;
    case 8: boolean(t, n, f, path); break; case 9: floating<float>(t, n, f, path); break; case 10: floating<double>(t, n, f, path); break;
    }
    vf_reach("restored");
}
