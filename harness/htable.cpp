// C17: every history of operations on the hash table against an ideal map.
// kind 0 trivially destructible key and value, 1 counted; hash 0 total collision, 1 identity, 2 two buckets, 3 upper bits only; pre entries inserted first, rem of them removed again
#include "common.hpp"
using namespace Srl;
static int liveK, liveV;
struct CK { unsigned k; CK* self; CK(unsigned x) : k(x), self(this) { liveK++; } CK(const CK& o) : k(o.k), self(this) { liveK++; } CK(CK&& o) : k(o.k), self(this) { o.k = 9999; liveK++; } ~CK() { vf_check(self == this, "a key is destroyed exactly once"); self = nullptr; liveK--; } bool operator==(const CK& o) const { vf_check(self == this && o.self == &o, "a key is compared while it lives"); return k == o.k; } CK& operator=(const CK&) = delete; };
struct CV { int v; CV* self; CV(int x) : v(x), self(this) { liveV++; } CV(const CV& o) : v(o.v), self(this) { liveV++; } CV(CV&& o) : v(o.v), self(this) { o.v = -9999; liveV++; } ~CV() { vf_check(self == this, "a value is destroyed exactly once"); self = nullptr; liveV--; } CV& operator=(const CV&) = delete; };
struct TK { unsigned k; TK(unsigned x) : k(x) { } bool operator==(const TK& o) const { return k == o.k; } };
struct TV { int v; TV(int x) : v(x) { } };
static unsigned HF;
static uint64_t hash(unsigned k) { switch (HF) { case 0: return 42; case 1: return k; case 2: return k & 1; case 3: return (uint64_t)k << 32; default: return k * 0x9e3779b97f4a7c15ull; } }
template<class K> struct H { uint64_t operator()(const K& k) const { return hash(k.k); } };
static const unsigned N = 80;                               // keys 0..N-1 exist in the model; 48 and up: added at the end
struct Model { bool has[N] = { }; int val[N] = { }; size_t n = 0; };
template<class T> static void look(T& t, Model& m, unsigned keys, unsigned pre) {
    vf_check(t.num_entries() == m.n, "number of entries");
    bool seen[N] = { }; size_t cnt = 0; unsigned way = (unsigned)P("way", 0);
    auto visit = [&](unsigned k, int v) { cnt++; bool in = k < N; vf_check(in, "only stored keys are visited"); if (!in) return; vf_check(!seen[k] && m.has[k], "every entry is visited exactly once"); vf_check(v == m.val[k], "the visited value"); seen[k] = true; };
    if (way == 0) t.foreach([&](const auto& k, auto& v) { visit(k.k, v.v); });
    else if (way == 1) for (auto p : t) visit(p.first.k, p.second.v);
    else t.foreach_break([&](const auto& k, auto& v) { visit(k.k, v.v); return false; });
    vf_check(cnt == m.n, "every entry is visited");
    for (unsigned i = 0; i < N; i++) { if (i >= keys && i < 48 && (i < 16 || i >= 16 + pre)) continue; auto* v = t.get(i); vf_check((v != nullptr) == m.has[i], "exactly the stored keys are found"); if (v) vf_check(v->v == m.val[i], "the stored value"); }
}
template<class K, class V> static void run() {
    {
    typedef Lib::HTable<K, V, H<K>> T;
    unsigned keys = (unsigned)P("keys", 3), pre = (unsigned)P("pre", 0), rem = (unsigned)P("rem", 0), steps = (unsigned)P("steps", 2); bool end = P("look", 1) == 0;
    T t((size_t)P("buckets", 4), (double)P("load", 10) / 10); Model m;
    for (unsigned i = 0; i < pre; i++) { auto r = t.insert(K(16 + i), (int)i); vf_check(!r.first && r.second && r.second->v == (int)i, "a new key"); m.has[16 + i] = true; m.val[16 + i] = (int)i; m.n++; }
    for (unsigned i = 0; i < rem; i++) { t.remove(K(16 + i * 2)); m.has[16 + i * 2] = false; m.n--; }
    look(t, m, keys, pre);
    for (unsigned s = 0; s < steps; s++) {
        unsigned op = vf_choose(10, "op"); int v = vf_any<int>("v"); unsigned k = 0;
        if (op < 5) { unsigned top = keys + (pre ? 1 : 0); if (P("symk", 0)) { k = vf_any<uint8_t>("key"); vf_assume(k < top); } else k = vf_choose(top, "key"); if (k == keys) k = 16; }
        switch (op) {
        case 0: { auto r = t.insert(K(k), v); vf_check(r.first == m.has[k], "insert reports whether the key existed"); if (!m.has[k]) { m.has[k] = true; m.val[k] = v; m.n++; } vf_check(r.second && r.second->v == m.val[k], "insert returns the stored value and keeps an existing one"); break; }
        case 1: { auto r = t.upsert(K(k), v); vf_check(r.first == m.has[k], "upsert reports whether the key existed"); if (!m.has[k]) { m.has[k] = true; m.n++; } m.val[k] = v; vf_check(r.second && r.second->v == v, "upsert replaces the value"); break; }
        case 2: { t.remove(K(k)); if (m.has[k]) { m.has[k] = false; m.n--; } break; }
        case 3: { auto r = t.extract(K(k)); vf_check((bool)r == m.has[k], "extract finds exactly the stored keys"); if (r) { vf_check(r->v == m.val[k], "extract returns the value"); m.has[k] = false; m.n--; } break; }
        case 4: { auto* r = t.get(K(k)); vf_check((r != nullptr) == m.has[k], "get finds exactly the stored keys"); if (r) { vf_check(r->v == m.val[k], "get returns the value"); new (r) V(v); if (P("kind", 0)) liveV--; m.val[k] = v; } break; }
        case 5: { unsigned bit = vf_choose(3, "bit"); unsigned calls = 0; t.remove_if([&](const K& q, V& x) { calls++; bool in = q.k < N && m.has[q.k]; vf_check(in, "the condition is asked about stored entries only"); if (!in) return false; vf_check(x.v == m.val[q.k], "the value the condition sees"); return bit == 2 || (q.k & 1) == bit; });
            vf_check(calls == m.n, "the condition is asked once for every entry"); for (unsigned i = 0; i < N; i++) if (m.has[i] && (bit == 2 || (i & 1) == bit)) { m.has[i] = false; m.n--; } break; }
        case 6: t.clear(); m = Model(); if (P("kind", 0)) vf_check(liveK == 0 && liveV == 0, "clearing destroys every entry"); break;
        case 7: { T u(std::move(t)); vf_check(t.num_entries() == 0 && !t.get(K(16)) && !t.get(K(0)), "a moved-from table is empty"); unsigned c = 0; t.foreach([&](const K&, V&) { c++; }); for (auto p : t) { (void)p; c++; } vf_check(c == 0, "a moved-from table has no entries"); look(u, m, keys, pre); 
            if (vf_choose(2, "reuse")) { auto r = t.insert(K(40), 7); vf_check(!r.first && t.num_entries() == 1 && t.get(K(40))->v == 7, "a moved-from table can be used again");
                if (P("fill", 0)) { for (unsigned i = 0; i < 9; i++) { t.insert(K(50 + i), (int)(i * 3)); if (!m.has[60 + i]) { u.insert(K(60 + i), (int)i); m.has[60 + i] = true; m.val[60 + i] = (int)i; m.n++; } } for (unsigned i = 0; i < 9; i++) { auto* x = t.get(K(50 + i)); vf_check(x && x->v == (int)(i * 3), "both tables keep their entries"); } vf_check(t.get(K(40))->v == 7 && t.num_entries() == 10, "both tables keep their entries"); look(u, m, keys, pre); t.remove(K(52)); t.clear(); t.insert(K(3), 1); } }
            t = std::move(u); vf_check(u.num_entries() == 0, "a moved-from table is empty"); break; }
        case 8: { T u((size_t)2); u.insert(K(41), 9); u = std::move(t); look(u, m, keys, pre); t = T(); vf_check(t.num_entries() == 0, "a fresh table is empty"); t = std::move(u); break; }
        case 9: { unsigned stop = vf_choose(3, "stop"), c = 0; t.foreach_break([&](const K&, V&) { return c++ == stop; }); vf_check(c == (m.n < stop + 1 ? m.n : stop + 1), "iteration stops when told to"); break; }
        }
        if (!end || s + 1 == steps) look(t, m, keys, pre);
    }
    for (unsigned i = 0, k = (unsigned)P("fill", 0); i < k; i++) if (!m.has[48 + i]) { auto r = t.insert(K(48 + i), (int)i + 5); vf_check(!r.first && r.second && r.second->v == (int)i + 5, "a new key"); m.has[48 + i] = true; m.val[48 + i] = (int)i + 5; m.n++; }
    if (P("fill", 0)) look(t, m, keys, pre);
    if (P("kind", 0)) vf_check(liveK == (int)m.n && liveV == (int)m.n, "stored keys and values live, others don't");
    }
    if (P("kind", 0)) vf_check(liveK == 0 && liveV == 0, "every key and value is destroyed");
    vf_reach("done");
}
extern "C" void harness() { HF = (unsigned)P("hash", 0); liveK = liveV = 0; if (P("kind", 0)) run<CK, CV>(); else run<TK, TV>(); }
