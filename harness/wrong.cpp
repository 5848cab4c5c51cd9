// C26: content of the wrong kind or size is refused, the destination stays valid.
// mode 0 every kind of stored content into every kind of destination, decided by a table of its own; 1 sizes; 2 hostile scopes (missing parts at every place)
// via 0 direct, 1 tree, 2 unwrap_field, 3 dynamic unwrap, 4 dynamic copy_to, 5 unwrap_if
#include "kinds.inc"
struct It { char c; long n; double d; std::string s; std::vector<std::pair<std::string, It>> kids; };   // i d b s x z o a
static It I(long n) { return { 'i', n, 0, "", { } }; }
static It T(const std::string& s) { return { 's', 0, 0, s, { } }; }
static It O(std::vector<std::pair<std::string, It>> k, char c = 'o') { return { c, 0, 0, "", k }; }
static bool txt(int f) { return f == JSON || f == JSONP; }
static const int Q = 55;                                                                       // stands for any symbolic two-digit number
static It model(int k, int v, int f) {
    auto in = [&] { return O({ { "p", I(v ? 1 : Q) }, { "q", T(v ? "" : "quux") } }); };
    auto arr = [](std::vector<It> l) { It a = O({ }, 'a'); for (auto& e : l) a.kids.push_back({ "", e }); return a; };
    switch (k) {
    case 0: return I(v ? 200 : Q); case 1: return I(v == 1 ? -5 : v == 2 ? 70000000000 : Q); case 2: { It x = I(12); x.c = 'd'; x.d = v ? 0.5 : 12; return x; } case 3: { It x = I(v != 0); x.c = 'b'; return x; }
    case 4: return T(v == 1 ? "text that is longer" : v == 2 ? "" : "55"); case 5: return T(v == 1 ? "ab" : v == 2 ? "" : "5"); case 6: return T(v ? "\xc3\xa9\xe4\xb8\x80" : "7x");
    case 7: { if (txt(f)) return T(v == 1 ? "" : v == 2 ? "WVdKag==" : "ATcD"); It x = T(v == 1 ? "" : v == 2 ? "YWJj" : "123"); x.c = 'x'; return x; }
    case 8: case 23: return in(); case 9: return v == 2 ? arr({ }) : v ? arr({ I(1), I(2) }) : arr({ I(1), I(2), I(Q) }); case 10: return v == 2 ? arr({ }) : v ? arr({ T("1"), T("2"), T("3") }) : arr({ T("a"), T("1"), T("") });
    case 11: return v == 2 ? arr({ }) : arr({ O({ { "key", T("p") }, { "value", I(v ? 1 : Q) } }), O({ { "key", T("q") }, { "value", I(2) } }) }); case 12: return arr({ I(v ? 1 : Q), T(v ? "12" : "tup") });
    case 13: return O({ { "first", I(v ? 1 : Q) }, { "second", T("second") } }); case 14: if (v == 1) return { 'z', 0, 0, "", { } }; return I(v ? 3 : Q); case 15: return in(); case 16: return O({ { "srl_shared_key", I(0) }, { "srl_shared_value", in() } });
    case 17: return v == 2 ? O({ }) : O({ { "p", I(v ? 1 : Q) }, { "q", I(2) } }); case 18: return v == 2 ? arr({ }) : arr({ arr({ I(1) }), arr({ }), arr({ I(2), I(v ? 3 : Q) }) }); case 19: return arr({ I(v ? 1 : Q), I(2), I(3) });
    case 20: return v == 2 ? arr({ }) : arr({ O({ { "key", I(4) }, { "value", in() } }), O({ { "key", I(5) }, { "value", O({ { "p", I(1) }, { "q", T("") } }) } }) }); case 21: return T(v ? "z" : "5");
    case 22: { if (txt(f)) return T(v == 1 ? "" : v == 2 ? "CQAAAQ==" : "CTcA"); It x = T(v == 1 ? "" : v == 2 ? "1234" : "123"); x.c = 'x'; return x; } default: return { 'z', 0, 0, "", { } };
    }
}
static bool sc(const It& i) { return i.c == 'o' || i.c == 'a'; }
// -1: not fixed by the property
static int num(const It& i, long lo, long hi) { switch (i.c) { case 'i': return i.n >= lo && i.n <= hi; case 'd': return i.d == 12 ? 1 : -1; case 'b': case 'z': return 1;
    case 's': { if (i.s.empty()) return 0; long x = 0; for (char ch : i.s) { if (ch < '0' || ch > '9') return 0; x = x * 10 + ch - '0'; } return x >= lo && x <= hi; } default: return 0; } }
static int str(const It& i) { return !sc(i) && i.c != 'x'; }
static int b64(const It& i, size_t max) { if (i.c == 'x') return i.s.size() <= max; if (i.c != 's') return 0; if (i.s.size() % 4) return 0; size_t n = i.s.size(); for (size_t k = 0; k < n; k++) { char ch = i.s[k]; bool a = (ch >= 'A' && ch <= 'Z') || (ch >= 'a' && ch <= 'z') || (ch >= '0' && ch <= '9'); if (!a && !(ch == '=' && k + 2 >= n)) return 0; }
    size_t len = n / 4 * 3 - (n && i.s[n - 1] == '=') - (n && i.s[n - 2] == '='); return len <= max; }
static int both(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
static const It* fld(const It& i, const char* n, bool scope) { if (i.c != 'o') return nullptr; for (auto& k : i.kids) if (k.first == n && sc(k.second) == scope) return &k.second; return nullptr; }
static int acc(const It& i, int to);
static int part(const It& i, const char* n, bool scope, const std::function<int(const It&)>& g, bool opt = false) { auto* p = fld(i, n, scope); return p ? g(*p) : opt; }
static int each(const It& i, bool scope, const std::function<int(const It&)>& g) { int r = 1; for (auto& k : i.kids) if (sc(k.second) == scope) r = both(r, g(k.second)); else r = both(r, -1); return r; }
static int acc(const It& i, int to) {
    auto in = [](const It& x) { return sc(x) ? both(part(x, "p", 0, [](auto& y) { return num(y, 0, 255); }), part(x, "q", 0, str)) : 0; };
    auto i32 = [](const It& x) { return num(x, -2147483647 - 1, 2147483647); };
    bool s = sc(i);
    switch (to) {
    case 0: return num(i, 0, 255); case 1: return num(i, -9223372036854775807 - 1, 9223372036854775807); case 2: return num(i, -9223372036854775807 - 1, 9223372036854775807) == 0 ? 0 : num(i, 0, 0) < 0 ? 1 : num(i, -9223372036854775807 - 1, 9223372036854775807); case 3: return i.c == 'd' ? -1 : num(i, 0, 1);
    case 4: case 6: return str(i); case 5: return i.c == 'x' && i.s.size() <= 3 ? -1 : i.c == 's' && i.s.size() <= 3; case 7: return b64(i, 1000); case 8: return in(i); case 15: return i.c == 'z' ? -1 : in(i);
    case 9: return i.c == 'a' ? each(i, 0, i32) : s ? -1 : 0; case 10: return i.c == 'a' ? each(i, 0, str) : s ? -1 : 0;
    case 11: return i.c == 'a' ? each(i, 1, [&](auto& x) { return both(part(x, "key", 0, str), part(x, "value", 0, i32)); }) : s ? -1 : 0;
    case 12: { if (!s) return 0; if (i.c == 'o') return -1; std::vector<const It*> v; for (auto& k : i.kids) if (!sc(k.second)) v.push_back(&k.second); return v.size() < 2 ? 0 : v.size() > 2 || i.kids.size() > 2 ? both(both(i32(*v[0]), str(*v[1])), -1) : both(i32(*v[0]), str(*v[1])); }
    case 13: return i.c == 'o' ? both(part(i, "first", 0, i32), part(i, "second", 0, str)) : 0; case 14: return i.c == 'z' ? 1 : i32(i);
    case 16: return i.c == 'o' && i.kids.empty() ? 1 : i.c == 'o' ? both(part(i, "srl_shared_key", 0, [](auto& y) { return num(y, 0, 1 << 30); }), part(i, "srl_shared_value", 1, in)) : 0;
    case 17: return i.c == 'o' ? each(i, 0, i32) : 0; case 18: return i.c == 'a' ? each(i, 1, [&](auto& x) { return x.c == 'a' ? each(x, 0, [](auto& y) { return num(y, 0, 255); }) : -1; }) : s ? -1 : 0;
    case 19: { if (!s) return 0; int n = 0; for (auto& k : i.kids) n += !sc(k.second); return n != 3 ? 0 : i.c == 'o' ? -1 : each(i, 0, i32); }
    case 20: return i.c == 'a' ? each(i, 1, [&](auto& x) { return both(part(x, "key", 0, i32), part(x, "value", 1, in)); }) : s ? -1 : 0; case 21: return i.c == 'x' && i.s.size() == 1 ? -1 : i.c == 's' && i.s.size() == 1; case 22: return b64(i, 4);
    case 23: return !s ? 0 : i.c == 'a' ? -1 : both(part(i, "p", 0, i32, true), part(i, "q", 0, str, true)); default: return 1;
    }
}
template<class T> struct Plain { static const bool y = true; }; template<class T, size_t N> struct Plain<Arr<T, N>> { static const bool y = false; }; template<> struct Plain<Raw4> { static const bool y = false; };
template<class T> static bool put(F1<T>& o, const Bytes8& d, int f, int via) {
    AnyParser ap; Buf b(d); Tree t; Lib::In::Source src(b.p, b.n);
    if (via == 0) return ok([&] { t.restore(o, src, ap.get(f)); });
    t.load_source(src, ap.get(f)); if (via == 1) return ok([&] { t.root().paste(o); });
    if constexpr (Plain<T>::y) switch (via) {
        case 2: return ok([&] { o.x = t.root().unwrap_field<T>("x"); o.end = 4; });
        case 3: return ok([&] { o.x = t.get("x").unwrap<T>(); o.end = 4; });
        case 4: return ok([&] { t.root()["x"].copy_to(o.x); o.end = 4; });
        case 5: { auto r = t.root().get("x").unwrap_if<T>(); if (!r) return false; o.x = std::move(*r); o.end = 4; return true; }
    }
    return ok([&] { t.root().paste(o); });
}
static bool put(F1<KNull>& o, const Bytes8& d, int f, int) { AnyParser ap; Buf b(d); Tree t; return ok([&] { t.restore(o, Lib::In::Source(b.p, b.n), ap.get(f)); }); }
template<class A> static void stillValid(A& o, int f, int to, int via) { // the destination can be inspected and used again
    vf_check(!st(o, f).empty(), "the destination can be inspected");
    A good, fresh; fillK(good, to == 14 ? 0 : 1); Bytes8 d = st(good, f); vf_check(put(o, d, f, via) && put(fresh, d, f, 0), "the destination can be restored into again"); vf_check(same(st(o, SRLF), st(fresh, SRLF)), "and then has the new content");
}
struct Long { template<class C> void srl_store(C& c) const { c("x", s)("end", 4); } void srl_restore(RestoreContext&) { } std::string s; };
struct LongB { void srl_store(StoreContext& c) const { c("x", BitWrap(b.data(), b.size()))("end", 4); } void srl_restore(RestoreContext&) { } Bytes8 b; };
struct LongV { void srl_store(StoreContext& c) const { c("x", v)("end", 4); } void srl_restore(RestoreContext&) { } std::vector<int> v; };
struct VW { std::vector<uint32_t> x; int end = 0; void srl_resolve(Context& c) { c("x", VecWrap<uint32_t>(x))("end", end); } };
struct A16 { char16_t x[4] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct A8 { char x[4] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct A32 { char32_t x[3] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct A1 { char x[1] = { 0 }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct C1 { char x = 0; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct C2 { char16_t x = 0; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct V3 { int x[3] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct A300 { char x[301] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct V20 { uint16_t x[20] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct M2 { int x[2][2] = { }; uint8_t guard[4] = { 7, 7, 7, 7 }; int end = 0; void srl_resolve(Context& c) { c("x", x)("end", end); } };
struct LongM { void srl_store(StoreContext& c) const { c("x", v)("end", 4); } void srl_restore(RestoreContext&) { } std::vector<std::vector<int>> v; };
template<class A> static bool load(A& a, const Bytes8& d, int f, int via) { AnyParser ap; Buf b(d); Tree t; Lib::In::Source s(b.p, b.n); if (!via) return ok([&] { t.restore(a, s, ap.get(f)); }); t.load_source(s, ap.get(f)); return ok([&] { t.root().paste(a); }); }
template<class A> static void guards(A& a, bool got, bool want, const char* m) { vf_check(got == want, m); for (auto g : a.guard) vf_check(g == 7, "nothing beside the destination is touched"); vf_check(!got || a.end == 4, "the following field"); }

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), via = P("via", 0);
    if (mode == 0) {
        int from = vf_choose(NKIND, "stored"), to = vf_choose(NKIND, "destination"), v = P("vary", 0); Bytes8 d; withKind(from, [&](auto& o) { fillK(o, v); d = st(o, f); }); It it = model(from, v, f); int want = acc(it, to); if (to == 3 && (from == 5 || from == 21)) want = -1; if (from == to && from != 3 && !(from == 15 && it.c == 'z')) vf_check(want != 0, "own kind");
        withKind(to, [&](auto& o) { if (P("used", 0)) fillK(o, 2); bool r = put(o, d, f, via); if (want >= 0) vf_check(r == (want == 1), want ? "compatible content is accepted" : "incompatible content is refused"); stillValid(o, f, to, via); });
    } else if (mode == 1) {
        int what = P("what", 0); size_t n = vf_choose(P("max", 7), "size"); std::string s(n, 0); if (n) vf_sym(&s[0], n, "text"); for (char ch : s) { vf_assume((ch > 0x5c) & (ch < 0x7f)); }
        Bytes8 blk(s.begin(), s.end());
        auto text = [&](auto a, size_t max, size_t min = 0) { Long l; l.s = s; Bytes8 d = st(l, f); bool r = load(a, d, f, via); guards(a, r, n <= max && n >= min, "text accepted exactly when it fits"); l.s = "a"; if (max) { r = load(a, st(l, f), f, via); vf_check(r, "usable again"); } };
        auto blok = [&](auto a, size_t max, size_t min = 0) { LongB l; l.b = blk; bool r = load(a, st(l, f), f, via); guards(a, r, r && n <= max && n >= min, "a block is accepted only when it fits"); };
        switch (what) {
        case 0: text(A8(), 3); break; case 1: text(A16(), 3); break; case 2: text(A32(), 2); break; case 3: text(A1(), 0); break; case 4: text(C1(), 1, 1); break; case 5: text(C2(), 1, 1); break;
        case 6: if (!txt(f)) blok(A8(), 3); break; case 7: if (!txt(f)) blok(C1(), 1, 1); break;
        case 8: { VW w; w.x = { 1, 2 }; LongB l; l.b = blk; bool r = load(w, st(l, f), f, via); vf_check(r == (n % 4 == 0), "a block is accepted by a list of words exactly when it is whole"); if (r) vf_check(w.x.size() == n / 4 && (n == 0 || memcmp(w.x.data(), blk.data(), n) == 0), "and its bytes are kept"); st(w, f); break; }
        case 9: { V3 a; LongV l; for (size_t i = 0; i < n; i++) l.v.push_back((int)i + (n == 3 ? two("e") : 0)); bool r = load(a, st(l, f), f, via); guards(a, r, n == 3, "a list is accepted by an array exactly when the sizes agree"); if (r) for (int i = 0; i < 3; i++) vf_check(a.x[i] == l.v[i], "element"); break; }
        case 10: { M2 a; LongM l; size_t k = vf_choose(4, "inner size"); l.v.resize(n); for (auto& e : l.v) e = { 1, 2 }; if (n) l.v.back().resize(k); bool r = load(a, st(l, f), f, via); guards(a, r, n == 2 && k == 2, "nested lists are accepted exactly when the sizes agree"); break; }
        case 11: { A16 a; Long l; l.s = ""; for (size_t i = 0; i < n; i++) l.s += i % 2 ? "\xf0\x9f\x98\x80" : "\xe4\xb8\x80"; size_t units = 0; for (size_t i = 0; i < n; i++) units += 1 + i % 2; bool r = load(a, st(l, f), f, via); guards(a, r, units <= 3, "wide text accepted exactly when its units fit"); break; }
        case 12: { A8 a; struct L16 { std::u16string s; void srl_store(StoreContext& c) const { c("x", s)("end", 4); } void srl_restore(RestoreContext&) { } } l; for (size_t i = 0; i < n; i++) l.s += i % 2 ? u"\u00e9" : u"b"; size_t by = n + n / 2; bool r = load(a, st(l, f), f, via); guards(a, r, by <= 3, "converted text accepted exactly when its bytes fit"); break; }
        case 14: { A300 a; Long l; size_t k = n + P("lo", 297); l.s.assign(k, 'q'); if (k) l.s[k - 1] = '1' + two("last") % 8; bool r = load(a, st(l, f), f, via); guards(a, r, k <= 300, "long text accepted exactly when it fits"); if (r) vf_check(memcmp(a.x, l.s.data(), k) == 0 && a.x[k] == 0, "its bytes, terminated"); break; }
        case 15: { V20 a; LongV l; size_t k = n + P("lo", 15); for (size_t i = 0; i < k; i++) l.v.push_back((int)i * 7); bool r = load(a, st(l, f), f, via); guards(a, r, k == 20, "a list is accepted exactly when the sizes agree"); if (r) for (int i = 0; i < 20; i++) vf_check(a.x[i] == i * 7, "element"); break; }
        case 13: { Tree t; t.root().insert("x", std::u16string(u"abcdef", n < 6 ? n : 6)); A16 a; bool r = ok([&] { t.root().paste_field("x", a.x); }); a.end = 4; guards(a, r, n <= 3, "text of the same kind accepted exactly when it fits"); A8 b; r = ok([&] { t.root().paste_field("x", b.x); }); b.end = 4; guards(b, r, n <= 3, "text of another kind accepted exactly when it fits"); break; }
        }
    } else if (mode == 2) { // a list of objects, maps and pointers where the k-th part is missing or of the wrong kind: containers keep a valid state
        struct H { std::vector<KIn> v; std::map<std::string, KIn> m; std::unique_ptr<KIn> u; std::shared_ptr<KIn> s; std::list<std::unique_ptr<int>> l; KIn arr[2]; std::tuple<int, KIn> t; std::pair<std::string, KIn> p; KIn* raw = nullptr; Lib::HTable<std::string, KIn> h; ~H() { delete raw; }
            void srl_resolve(Context& c) { c("v", v)("m", m)("u", u)("s", s)("l", l)("arr", arr)("t", t)("p", p)("raw", raw)("h", h); } };
        H o; auto fil = [](H& o) { o.v.resize(2); o.m["a"].p = 1; o.m["b"].q = "b"; o.u.reset(new KIn); o.s.reset(new KIn); o.l.emplace_back(new int(5)); o.l.emplace_back(new int(6)); o.p.first = "pp"; if (!o.raw) o.raw = new KIn; o.h.insert("k", KIn()); o.h.insert("l", KIn()); }; fil(o);
        Tree t; t.load_object(o); int nn = 0, nv = 0; t.root().foreach_node([&](Node&) { nn++; }, true); t.root().foreach_value([&](Value&) { nv++; }, true);
        int k = vf_choose((unsigned)(nn + nv), "damaged part"), how = vf_choose(3, "damage"), i = 0; // remove it, replace it by a text, by a scope
        std::function<bool(Node&)> dmg = [&](Node& n) -> bool {
            for (size_t j = 0; j < n.num_values(); j++) if (i++ == k) { std::string nm = n.value(j).name().unwrap(); n.remove_value(j); if (how == 1) n.insert(nm, "damaged"); if (how == 2) n.insert(nm, std::vector<std::string> { "dmg" }); return true; }
            for (size_t j = 0; j < n.num_nodes(); j++) { if (i++ == k) { std::string nm = n.node(j).name().unwrap(); n.remove_node(j); if (how == 1) n.insert(nm, "damaged"); if (how == 2) n.insert(nm, std::vector<std::string> { "dmg" }); return true; } if (dmg(n.node(j))) return true; }
            return false; };
        vf_check(dmg(t.root()), "damaged"); AnyParser ap; Bytes8 d = t.to_source(ap.get(f)); H r; if (P("used", 0)) fil(r); load(r, d, f, via);
        Bytes8 good = st(o, f); bool again = ok([&] { st(r, SRLF); }); (void)again; vf_check(load(r, good, f, via), "restored into again"); vf_check(same(st(r, SRLF), st(o, SRLF)), "and then has the new content");
    }
    vf_reach("done");
}
