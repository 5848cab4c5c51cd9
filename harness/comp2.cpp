#include "comp.inc"
extern "C" void harness() {
    N = (unsigned)P("n", 2); F_ = (unsigned)P("fmt", 0); VIA = (unsigned)P("via", 0);
    switch (P("k", 0)) {
    case 0: { Box<Der> o, r; o.v.base = sym<int8_t>(); push(o.v.l, cnt()); o.v.p = Pt(sym<int16_t>(), ch()); o.v.d = "d"; r.v.l = { 4, 4 }; r.v.p.s = "old"; boxed(o, r); break; }
    case 1: { Box<SR> o, r; o.v.a = sym<int16_t>(); unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.v.push_back(Pt(sym<int16_t>(), "q")); r.v.v.resize(3); boxed(o, r); break; }
    case 2: { Box<Pos> o, r; o.v.a = sym<int16_t>(); o.v.s = ch(); push(o.v.v, cnt()); o.v.p = Pt(sym<int8_t>(), "p"); o.v.z = sym<int8_t>(); r.v.s = "old"; boxed(o, r); break; }
    case 3: { Box<Link> o, r; unsigned n = cnt(); Link* l = &o.v; l->v = sym<int8_t>(); for (unsigned i = 0; i < n; i++) { l->tail = { (int8_t)i }; l->next.emplace_back(new Link); l = l->next[0].get(); l->v = sym<int8_t>(); } r.v.next.emplace_back(new Link); r.v.tail = { 8, 8 }; boxed(o, r); break; }
    case 4: { Box<std::vector<NoDef>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.push_back(NoDef(sym<int8_t>())); r.v = { NoDef(1) }; boxed(o, r); break; }
    case 5: { Raw o, r; if (vf_choose(2, "p")) o.p = new int(sym<int16_t>()); o.q = new Pt(sym<int16_t>(), ch()); if (vf_choose(2, "old")) { r.p = new int(5); r.q = new Pt(1, "old"); } trip(o, r, [](Raw& x, Raw& y) { return pe(x.p, y.p) && pe(x.q, y.q); }); break; }
    case 6: { Uq o, r; if (vf_choose(2, "i")) o.i.reset(new int16_t(sym<int16_t>())); if (vf_choose(2, "s")) o.s.reset(new std::string(ch())); o.v.reset(new std::vector<Pt>); { unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v->push_back(Pt((int16_t)i, ch())); }
        if (vf_choose(2, "old")) { r.i.reset(new int16_t(3)); r.s.reset(new std::string("old")); r.v.reset(new std::vector<Pt>(4)); } trip(o, r, [](Uq& x, Uq& y) { return pe(x.i, y.i) && pe(x.s, y.s) && pe(x.v, y.v); }); break; }
    case 7: { Arr o, r; vf_sym(o.a, 2, "a"); o.m[0][1] = -300; vf_sym(&o.m[1][0], 2, "m"); o.p[0] = Pt(1, ch()); o.p[1].b = true; o.s[1] = ch(); r.s[0] = "old"; trip(o, r, [](Arr& x, Arr& y) { return memcmp(x.a, y.a, 3) == 0 && memcmp(x.m, y.m, sizeof x.m) == 0 && x.p[0] == y.p[0] && x.p[1] == y.p[1] && x.s[0] == y.s[0] && x.s[1] == y.s[1]; }); break; }
    case 8: { typedef std::tuple<int8_t, std::string, std::vector<Pt>, std::tuple<bool, int16_t>, Pt> T; Box<T> o, r; std::get<0>(o.v) = sym<int8_t>(); std::get<1>(o.v) = ch(); std::get<2>(o.v).resize(cnt()); for (auto& p : std::get<2>(o.v)) p.x = sym<int8_t>(); std::get<0>(std::get<3>(o.v)) = vf_choose(2, "b"); std::get<1>(std::get<3>(o.v)) = sym<int16_t>(); std::get<4>(o.v).s = "t"; std::get<2>(r.v).resize(3); boxed(o, r); break; }
    case 9: { Box<std::vector<std::unique_ptr<Pt>>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.emplace_back(new Pt(sym<int16_t>(), ch())); r.v.emplace_back(new Pt(3, "old")); o.z = "e";
        trip(o, r, [](auto& x, auto& y) { if (x.v.size() != y.v.size() || x.z != y.z) return false; for (size_t i = 0; i < x.v.size(); i++) if (!pe(x.v[i], y.v[i])) return false; return true; }); break; }
    case 10: { std::vector<Pt> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) { o.push_back(Pt(sym<int16_t>(), ch())); o.back().b = i & 1; } r.resize(4); trip(o, r, [](auto& x, auto& y) { return x == y; }); break; }   // containers at the top level
    case 11: { std::map<std::string, std::vector<int8_t>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) push(o[i ? std::string(i, 'k') : ch()], cnt()); r["old"] = { 1 }; trip(o, r, [](auto& x, auto& y) { return x == y; }); break; }
    case 12: { Box<Arr*> b; (void)b; int16_t x = sym<int16_t>(), rx = 0; Pt p(sym<int16_t>(), ch()), rp(9, "old"); std::vector<int8_t> v, rv = { 1, 2, 3 }; push(v, cnt()); Bytes8 d; AnyParser ap;             // pack / unpack
        Tree().pack(Lib::Out::Source(d), ap.get(F_), "x", x, "p", p, "v", v); Tree().unpack(Lib::In::Source(d), ap.get(F_), "x", rx, "p", rp, "v", rv); vf_check(rx == x && rp == p && rv == v, "pack / unpack"); vf_reach("roundtrip"); break; }
    case 13: { struct LD { double d = 0; unsigned char u = 0; long l = 0; uint16_t q = 0; void srl_resolve(Context& c) { c("d", d)("u", u)("l", l)("q", q); } } o, r; o.d = 2.5; vf_sym(&o.u, 1, "u"); vf_sym(&o.l, 8, "l"); vf_sym(&o.q, 2, "q"); trip(o, r, [](LD& x, LD& y) { return x.d == y.d && x.u == y.u && x.l == y.l && x.q == y.q; }); break; }
    case 15: { NP o, r; o.e = vf_any<uint8_t>("e"); if (vf_choose(2, "p")) o.p.reset(new Pt(3, "x")); if (vf_choose(2, "q")) o.q = new Pt(4, "y"); try { trip(o, r, [](NP& x, NP& y) { return pe(x.p, y.p) && pe(x.q, y.q) && x.e == y.e; }); } catch (Srl::Exception&) { vf_check(o.p && o.q, "an object with a null pointer to a struct can be restored"); vf_fail("restore refused"); } break; }
    case 14: { struct E { struct None { void srl_resolve(Context&) { } } n; std::vector<None> v; std::string s; std::vector<std::vector<None>> w; void srl_resolve(Context& c) { c("n", n)("v", v)("s", s)("w", w); } } o, r; o.v.resize(cnt()); o.w.resize(cnt()); if (!o.w.empty()) o.w[0].resize(cnt()); r.v.resize(5); trip(o, r, [](E& x, E& y) { if (x.v.size() != y.v.size() || x.w.size() != y.w.size()) return false; return x.w.empty() || x.w[0].size() == y.w[0].size(); }); break; }
    }
}
