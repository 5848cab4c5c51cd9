// Field kinds used as stored content and as destinations: each holder has one field x of the kind and a last field end.
#pragma once
#include "common.hpp"
using namespace Srl;
struct KIn { uint8_t p = 0; std::string q; void srl_resolve(Context& c) { c("p", p)("q", q); } };
struct KOpt { int p = 5; std::string q = "dflt"; void srl_resolve(Context& c) { c("p", p, CtxFlags::Optional)("q", q, CtxFlags::Optional); } };
struct KNull { void* n = nullptr; };
enum { NKIND = 25 };
template<class T> struct F1 { T x = T(); int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
template<> struct F1<KNull> { int end = 0; void srl_store(StoreContext& c) const { c("x", nullptr)("end", end); } void srl_restore(RestoreContext& c) { c("end", end); } };
template<class T, size_t N> struct Arr { T v[N] = { }; };
template<class T, size_t N> struct F1<Arr<T, N>> { Arr<T, N> x; int end = 0; void srl_resolve(Context& c) { c("x", x.v)("end", end); } };
struct Raw4 { uint8_t d[4] = { }; size_t n = 0; };
template<> struct F1<Raw4> { Raw4 x; int end = 0; void srl_resolve(Context& c) { Raw4* r = &x; BitWrap w(x.d, x.n, [r](size_t k) -> uint8_t* { if (k > 4) throw Exception("too large"); r->n = k; return r->d; }); c("x", w)("end", end); } };
static uint8_t two(const char* n) { uint8_t v; vf_sym(&v, 1, n); if (P("wide", 0)) return v; vf_assume((v >= 10) & (v < 100)); return v; }
static std::string digits(uint8_t v) { std::string s(2, 0); s[0] = '0' + v / 10 % 10; s[1] = '0' + v % 10; return s; }
template<class F> inline void withKind(int k, F f) {
    switch (k) {
    case 0: { F1<uint8_t> o; f(o); break; }          case 1: { F1<int64_t> o; f(o); break; }              case 2: { F1<double> o; f(o); break; }                case 3: { F1<bool> o; f(o); break; }
    case 4: { F1<std::string> o; f(o); break; }      case 5: { F1<Arr<char, 4>> o; f(o); break; }         case 6: { F1<std::u16string> o; f(o); break; }        case 7: { F1<Bytes> o; f(o); break; }
    case 8: { F1<KIn> o; f(o); break; }              case 9: { F1<std::vector<int>> o; f(o); break; }     case 10: { F1<std::vector<std::string>> o; f(o); break; } case 11: { F1<std::map<std::string, int>> o; f(o); break; }
    case 12: { F1<std::tuple<int, std::string>> o; f(o); break; } case 13: { F1<std::pair<int, std::string>> o; f(o); break; } case 14: { F1<std::unique_ptr<int>> o; f(o); break; } case 15: { F1<std::unique_ptr<KIn>> o; f(o); break; }
    case 16: { F1<std::shared_ptr<KIn>> o; f(o); break; } case 17: { F1<Lib::HTable<std::string, int>> o; f(o); break; } case 18: { F1<std::list<std::vector<uint8_t>>> o; f(o); break; } case 19: { F1<Arr<int, 3>> o; f(o); break; }
    case 20: { F1<std::map<int, KIn>> o; f(o); break; } case 21: { F1<char> o; f(o); break; } case 22: { F1<Raw4> o; f(o); break; } case 23: { F1<KOpt> o; f(o); break; } case 24: { F1<KNull> o; f(o); break; }
    }
}
// content; vary 1 chooses other contents of the same kind (empty, longer, textual numbers)
inline void fill(uint8_t& x, int v) { x = v ? 200 : two("u8"); }
inline void fill(int64_t& x, int v) { if (P("wide", 0)) { vf_sym(&x, 8, "i64"); return; } x = v == 1 ? -5 : v == 2 ? 70000000000 : two("i64"); }
inline void fill(double& x, int v) { x = v ? 0.5 : 12.0; }
inline void fill(bool& x, int v) { x = v != 0; }
inline void fill(std::string& x, int v) { x = v == 1 ? "text that is longer" : v == 2 ? "" : digits(two("text")); }
template<size_t N> inline void fill(Arr<char, N>& x, int v) { x.v[0] = v == 1 ? 'a' : v == 2 ? 0 : '1' + two("char") % 8; x.v[1] = v == 1 ? 'b' : 0; x.v[2] = 0; }
inline void fill(std::u16string& x, int v) { x = v ? u"\u00e9\u4e00" : u"7x"; }
inline void fill(Bytes& x, int v) { Bytes8 b = { 1, 2, 3 }; if (v == 1) b.clear(); else if (v == 2) b = { 'Y', 'W', 'J', 'j' }; else b[1] = two("byte"); x = Bytes(std::move(b)); }
inline void fill(KIn& x, int v) { x.p = v ? 1 : two("p"); x.q = v ? "" : "quux"; }
inline void fill(KOpt& x, int v) { x.p = v ? 1 : two("p"); x.q = v ? "" : "quux"; }
inline void fill(std::vector<int>& x, int v) { x = { 1, 2 }; if (!v) { x.push_back(two("elem")); } else if (v == 2) x.clear(); }
inline void fill(std::vector<std::string>& x, int v) { x = { "a", "1", "" }; if (v) x = { "1", "2", "3" }; if (v == 2) x.clear(); }
inline void fill(std::map<std::string, int>& x, int v) { if (v == 2) return; x["p"] = v ? 1 : two("m"); x["q"] = 2; }
inline void fill(std::tuple<int, std::string>& x, int v) { std::get<0>(x) = v ? 1 : two("t"); std::get<1>(x) = v ? "12" : "tup"; }
inline void fill(std::pair<int, std::string>& x, int v) { x.first = v ? 1 : two("f"); x.second = "second"; }
inline void fill(std::unique_ptr<int>& x, int v) { if (v != 1) x.reset(new int(v ? 3 : two("ptr"))); }
inline void fill(std::unique_ptr<KIn>& x, int v) { x.reset(new KIn); fill(*x, v); }
inline void fill(std::shared_ptr<KIn>& x, int v) { x.reset(new KIn); fill(*x, v); }
inline void fill(Lib::HTable<std::string, int>& x, int v) { if (v == 2) return; x.insert("p", v ? 1 : two("h")); x.insert("q", 2); }
inline void fill(std::list<std::vector<uint8_t>>& x, int v) { x.push_back({ 1 }); x.push_back({ }); x.push_back({ 2, (uint8_t)(v ? 3 : two("l")) }); if (v == 2) x.clear(); }
inline void fill(Arr<int, 3>& x, int v) { x.v[0] = v ? 1 : two("a0"); x.v[1] = 2; x.v[2] = 3; }
inline void fill(std::map<int, KIn>& x, int v) { if (v == 2) return; fill(x[4], v); fill(x[5], 1); }
inline void fill(char& x, int v) { x = v ? 'z' : (char)('1' + two("c") % 8); }
inline void fill(Raw4& x, int v) { x.n = v == 1 ? 0 : v == 2 ? 4 : 3; x.d[0] = 9; x.d[1] = x.n == 3 ? two("raw") : 0; x.d[2] = 0; x.d[3] = x.n == 4; }
template<class T> inline void fillK(F1<T>& o, int v) { fill(o.x, v); o.end = 4; }
inline void fillK(F1<KNull>& o, int) { o.end = 4; }
template<class T> inline Bytes8 st(const T& o, int f) { AnyParser ap; Tree t; return t.store(o, ap.get(f)); }
