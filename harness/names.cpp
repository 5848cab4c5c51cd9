// Names which are easily taken for one another: equal hashes, equal but for one byte, prefixes, zero bytes, other encodings.
// set 0 names of equal 64-bit FNV-1a hash 1 twins of length len differing in one byte anywhere 2 prefixes, repetitions and zero bytes 3 names in several encodings
// mode 5 names which are not text
// mode 0 stored in any and restored in another order 1 one is missing 2 lookups, removal and insertion in a tree 3 as keys of containers 4 dynamic access while restoring
#include "common.hpp"
using namespace Srl;
typedef std::string S;
static uint8_t two(const char* n) { uint8_t v; vf_sym(&v, 1, n); vf_assume((v >= 10) & (v < 100)); return v; }
static std::vector<S> names(int set) {
    switch (set) {
    case 0: { std::vector<S> a { "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ" }, b { "gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf" }; if (vf_choose(2, "pair")) std::swap(a[0], a[1]); a.insert(a.end(), b.begin(), b.end()); return a; }
    case 1: { size_t n = (size_t)P("len", 20), at = vf_choose((unsigned)n, "differs at"); S a; for (size_t i = 0; i < n; i++) a += (char)('a' + i * 5 % 23); S b = a, c = a, d = a; b[at] = 'Z'; c[at] = (char)(a[at] ^ 0x20); d[(at + 1) % n] = 'Y'; if (n == 1) d = "yy"; return { a, b, c, d }; }
    case 2: return { "a", S("a\0", 2), "aa", S("\0", 1), S("\0\0", 2), S("a\0b", 3), "aaaaaaaa", "aaaaaaaaa", S("aaaaaaaa\0", 9), "aaaaaaaaaaaaaaaaa", " a", "a ", "A" };
    default: return { "ab", S("a\0b\0", 4), S("a\0\0\0b\0\0\0", 8), S("\0a\0b", 4), "b", S("b\0", 2) };
    }
}
struct In { uint8_t p = 0; void srl_resolve(Context& c) { c("p", p); } };
struct O { std::vector<S> n; std::vector<int> ord, v; std::vector<In> s; int skip = -1, optional = 0, kinds = 3;
    void room() { v.assign(n.size(), -1); s.assign(n.size(), In()); for (size_t i = 0; i < n.size(); i++) ord.push_back((int)i); }
    void srl_store(StoreContext& c) const { for (int i : ord) if (i != skip) { if (kinds & 1) c(n[i], v[i]); if (kinds & 2) c(n[i], s[i]); } }
    void srl_restore(RestoreContext& c) { for (int i : ord) if (i != skip) { if (optional) { if (kinds & 1) c(n[i], v[i], CtxFlags::Optional); if (kinds & 2) c(n[i], s[i], CtxFlags::Optional); } else { if (kinds & 1) c(n[i], v[i]); if (kinds & 2) c(n[i], s[i]); } } } };
// the names of the destination are given in another encoding
struct OW : O { std::vector<std::u16string> w; void srl_store(StoreContext&) const { } void srl_restore(RestoreContext& c) { for (int i : ord) { if (kinds & 1) c(w[i], v[i]); if (kinds & 2) c(w[i], s[i]); } } };
static void order(std::vector<int>& o, const char* n) { size_t k = o.size(); int c = vf_choose(4, n); std::vector<int> r; for (size_t i = 0; i < k; i++) r.push_back(o[c == 0 ? i : c == 1 ? k - 1 - i : c == 2 ? i ^ (i + 1 < k || i % 2 ? 1 : 0) : (i + 1) % k]); o = r; }
struct Maps { std::map<S, int> m; Lib::HTable<S, int> h; std::set<S> s; int end = 0; void srl_resolve(Context& c) { c("m", m)("h", h)("s", s)("end", end); } };

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), src = P("src", 0), set = P("set", 0); std::vector<S> N = names(set); size_t n = N.size(); uint8_t x = two("x");
    auto fill = [&](O& o) { o.n = N; o.room(); for (size_t i = 0; i < n; i++) { o.v[i] = (int)i * 1000 + x; o.s[i].p = (uint8_t)(i + x); } };
    auto re = [&](auto& r, const Bytes8& d) { AnyParser ap; Tree t; Buf b(d); InStream s(d, 5);
        return ok([&] { if (src == 0) t.restore(r, Lib::In::Source(b.p, b.n), ap.get(f)); else if (src == 1) { t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); t.root().paste(r); } else t.restore(r, Lib::In::Source(s.is), ap.get(f)); }); };
    switch (mode) {
    case 0: { O o; fill(o); order(o.ord, "stored order"); AnyParser ap; Tree t; Bytes8 d;
        if (P("tree", 0)) { Tree l; for (size_t i = 0; i < n; i++) { l.root().insert(N[i], o.v[i]); l.root().insert(N[i], o.s[i]); } d = l.to_source(ap.get(f)); } else { Bytes8 first = t.store(o, ap.get(f)); d = t.store(o, ap.get(f)); vf_check(same(first, d), "storing again gives another document"); }
        auto cmp = [&](O& r) { for (size_t i = 0; i < n; i++) vf_check(r.v[i] == o.v[i] && r.s[i].p == o.s[i].p, "every field keeps its own content"); };
        if (P("wide", 0)) { OW r; r.n = N; r.room(); order(r.ord, "restored order"); for (auto& k : N) r.w.push_back(std::u16string(k.begin(), k.end())); vf_check(re(r, d), "confusable names are all found"); cmp(r); }
        else { O r; r.n = N; r.room(); order(r.ord, "restored order"); vf_check(re(r, d), "confusable names are all found"); cmp(r); } break; }
    case 1: { O o, r; fill(o); r.n = N; r.room(); order(r.ord, "restored order"); o.skip = vf_choose((unsigned)n, "missing"); o.kinds = r.kinds = 1 + vf_choose(3, "kinds"); r.optional = P("opt", 0); AnyParser ap; Tree t; Bytes8 d = t.store(o, ap.get(f));
        vf_check(re(r, d) == (r.optional != 0), "a missing field is noticed although a similar one exists"); if (r.optional) for (size_t i = 0; i < n; i++) { bool h = (int)i != o.skip; vf_check(r.v[i] == (h && (o.kinds & 1) ? o.v[i] : -1) && r.s[i].p == (h && (o.kinds & 2) ? o.s[i].p : 0), "optional fields with confusable names"); } break; }
    case 2: { Tree t; auto& R = t.root(); int gone = vf_choose((unsigned)n, "removed"), late = P("late", 1) ? vf_choose((unsigned)n, "late") : -1;
        auto add = [&](size_t i) { R.insert(N[i], (int)(i * 1000) + x); In e; e.p = (uint8_t)(i + x); R.insert(N[i], e); };
        for (size_t i = 0; i < n; i++) if ((int)i != late) add(i);
        auto look = [&](size_t i, bool has) { vf_check(R.has_value(N[i]) == has && R.has_node(N[i]) == has && R.try_get(N[i]).has_value() == has, "existence"); vf_check(R.find_values(N[i], false).size() == has && R.find_nodes(N[i], false).size() == has, "number of findings");
            bool a = ok([&] { vf_check(R.value(N[i]).unwrap<int>() == (int)(i * 1000) + x && S((const char*)R.value(N[i]).name().data(), R.value(N[i]).name().size()) == N[i], "the value of this name"); }), b = ok([&] { vf_check(R.node(N[i]).value("p").unwrap<int>() == (uint8_t)(i + x) && S((const char*)R.node(N[i]).name().data(), R.node(N[i]).name().size()) == N[i], "the node of this name"); }); vf_check(a == has && b == has, "found exactly when it exists");
            if (has) vf_check(R.get(N[i]).unwrap<int>() == (int)(i * 1000) + x, "the item of this name"); };
        for (size_t i = 0; i < n; i++) look(i, (int)i != late); if (late >= 0) { add((size_t)late); look((size_t)late, true); }
        R.remove_value(N[gone]); R.remove_node(N[gone]); for (size_t i = 0; i < n; i++) look(i, (int)i != gone); vf_check(R.num_values() == n - 1 && R.num_nodes() == n - 1, "one item removed"); break; }
    case 3: { Maps o, r; for (size_t i = 0; i < n; i++) { o.m[N[i]] = (int)i + x; o.h.insert(N[i], (int)i * 3 + x); o.s.insert(N[i]); } o.end = 3; r.m["old"] = 1; r.h.insert("old", 2); r.s.insert("old"); AnyParser ap; Tree t; Bytes8 d = t.store(o, ap.get(f));
        vf_check(re(r, d), "confusable keys are accepted"); vf_check(r.m == o.m && r.s == o.s && r.end == 3, "confusable keys of a map"); vf_check(r.h.num_entries() == n, "number of keys"); for (size_t i = 0; i < n; i++) { int* p = r.h.get(N[i]); vf_check(p && *p == (int)i * 3 + x, "confusable keys of a table"); } vf_check(!r.h.get("old"), "a key of the destination is gone");
        int gone = vf_choose((unsigned)n, "removed"); r.h.remove(N[gone]); for (size_t i = 0; i < n; i++) { int* p = r.h.get(N[i]); vf_check(((int)i != gone) == (p != nullptr) && (!p || *p == (int)i * 3 + x), "other keys stay"); } break; }
    case 4: { O o; fill(o); order(o.ord, "stored order"); AnyParser ap; Tree t, u; Bytes8 d = t.store(o, ap.get(f)); Buf b(d); u.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); int k = vf_choose((unsigned)n, "looked up");
        struct D { const std::vector<S>& n; int k; const O& o; void srl_resolve(Context& c) { if (c.mode() == Mode::Insert) return; Union w; c.node().paste_field(String(n[k]), w); vf_check(w.is_node() ? w.node()->unwrap<In>().p == o.s[k].p : w.unwrap<int>() == o.v[k], "item looked up while restoring"); for (size_t i = 0; i < n.size(); i++) { In e; c(n[i], e); vf_check(e.p == o.s[i].p, "field after a lookup"); } for (size_t i = 0; i < n.size(); i++) { int q = -1; c(n[i], q); vf_check(q == o.v[i], "field after a lookup"); } } };
        D r { N, k, o }; vf_check(re(r, d), "lookups do not disturb fields");
        vf_check(u.get(N[k]).unwrap<int>() == o.v[k] && u.root().node(N[k]).get("p").unwrap<int>() == o.s[k].p, "dynamic access by a confusable name"); break; }
    case 5: { std::u16string w; std::u32string v; unsigned k = (unsigned)P("units", 1); for (unsigned i = 0; i < k; i++) { uint16_t c = vf_any<uint16_t>("unit"); vf_assume((c >= 0xd800) & (c < (i + 1 < k || k == 1 ? 0xe000 : 0xdc00))); w += (char16_t)c; uint32_t e = vf_any<uint32_t>("code point"); vf_assume(((e >= 0xd800) & (e < 0xe000)) | (e > 0x10ffff)); v += (char32_t)e; }
        std::vector<S> have { "", "x", "\xf0\x90\x80" }; if (vf_choose(2, "empty name last")) std::swap(have[0], have[1]); AnyParser ap; Tree l; for (auto& e : have) { l.root().insert(e, 5); In q; q.p = 6; l.root().insert(e, q); } Bytes8 d = l.to_source(ap.get(f));
        struct D { String id; void srl_resolve(Context& c) { if (c.mode() == Mode::Insert) return; int a = -1; In b; Union u; bool k1 = ok([&] { c(id, a); }), k2 = ok([&] { c(id, b); }), k3 = ok([&] { c.node().paste_field(id, u); });
            vf_check(!k1 && !k2 && (!k3 || (!u.is_node() && !u.is_value())) && a == -1 && b.p == 0, "a name which is not text is not found"); ok([&] { c(id, a, CtxFlags::Optional); }); ok([&] { c(id, b, CtxFlags::Optional); }); vf_check(a == -1 && b.p == 0, "an optional field whose name is not text stays");
            c("x", a)("x", b); vf_check(a == 5 && b.p == 6, "field after lookups which find nothing"); } };
        auto all = [&](const String& id) { D r { id }; vf_check(re(r, d), "lookups which find nothing do not disturb fields"); Tree t; Buf b(d); t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); auto& R = t.root(); bool h = false; ok([&] { h = h || R.has_value(id) || R.has_node(id); }); ok([&] { h = h || R.try_get(id).has_value(); }); ok([&] { h = h || R.find_values(id, true).size() || R.find_nodes(id, true).size(); }); ok([&] { R.get(id); h = true; }); ok([&] { R.value(id); h = true; }); ok([&] { R.node(id); h = true; }); ok([&] { R.remove_value(id); }); ok([&] { R.remove_node(id); });
            vf_check(!h, "a name which is not text matches nothing"); vf_check(R.num_values() == 3 && R.num_nodes() == 3, "and removes nothing"); for (auto& e : have) { String o(e); vf_check(!(o == id) && !(id == o), "not equal to any name"); } };
        if (P("utf32", 0)) all(String(v)); else all(String(w)); break; }
    }
    vf_reach("done");
}
