#include "comp.inc"
extern "C" void harness() {
    N = (unsigned)P("n", 2); F_ = (unsigned)P("fmt", 0); VIA = (unsigned)P("via", 0);
    switch (P("k", 0)) {
    case 0: { Box<std::vector<int16_t>> o, r; push(o.v, cnt()); r.v = { 7, 7, 7, 7 }; boxed(o, r); break; }
    case 1: { Box<std::list<std::string>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.push_back(ch() + std::string(i, 'q')); r.v = { "u" }; boxed(o, r); break; }
    case 2: { Box<std::deque<bool>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.push_back(vf_choose(2, "b")); r.v = { true, false, true }; boxed(o, r); break; }
    case 3: { Box<std::set<uint8_t>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.insert(sym<uint8_t>()); r.v = { 1, 2 }; boxed(o, r); break; }
    case 4: { Box<std::multiset<int8_t>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.insert(sym<int8_t>()); r.v = { 1, 1 }; boxed(o, r); break; }
    case 5: { Box<std::map<int8_t, std::string>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v[sym<int8_t>()] = ch(); r.v[3] = "old"; boxed(o, r); break; }
    case 6: { Box<std::map<std::string, Pt>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v["k" + std::to_string(i)] = Pt(sym<int16_t>(), ch()); r.v["old"] = Pt(1, "1"); boxed(o, r); break; }
    case 7: { Box<std::vector<std::vector<int8_t>>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) { o.v.emplace_back(); push(o.v.back(), cnt()); } r.v = { { 1 }, { 2 }, { 3 } }; boxed(o, r); break; }
    case 8: { Box<std::multimap<int8_t, int8_t>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.emplace(sym<int8_t>(), sym<int8_t>()); boxed(o, r); break; }
    case 9: { Box<std::vector<std::map<std::string, std::list<int8_t>>>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) { o.v.emplace_back(); unsigned m = cnt(); for (unsigned j = 0; j < m; j++) push(o.v.back()[std::string(j + 1, 'k')], cnt()); } boxed(o, r); break; }
    case 10: { Box<Lib::HTable<std::string, Pt>> o, r; unsigned n = cnt(); for (unsigned i = 0; i < n; i++) o.v.insert("k" + std::to_string(i), Pt(sym<int16_t>(), "s")); r.v.insert(std::string("old"), Pt(1, "x")); o.z = "end";
        trip(o, r, [](Box<Lib::HTable<std::string, Pt>>& x, Box<Lib::HTable<std::string, Pt>>& y) { bool e = x.a == y.a && x.z == y.z && x.v.num_entries() == y.v.num_entries(); x.v.foreach([&](const std::string& k, Pt& p) { auto* q = y.v.get(k); e = e && q && *q == p; }); return e; }); break; }
    case 11: { Box<std::list<std::pair<int8_t, std::vector<std::string>>>> o, r; unsigned n = cnt(); o.v.clear(); struct Q { std::pair<int8_t, std::vector<std::string>> p; std::pair<Pt, bool> q; uint8_t e = 0; void srl_resolve(Context& c) { c("p", p)("q", q)("e", e); } };
        Q a, b; a.p.first = sym<int8_t>(); for (unsigned i = 0; i < n; i++) a.p.second.push_back(ch()); a.q.first.x = sym<int16_t>(); a.q.second = true; a.e = 3; b.p.second = { "zz", "y" };
        trip(a, b, [](Q& x, Q& y) { return x.p == y.p && x.q.first == y.q.first && x.q.second == y.q.second && x.e == y.e; }); break; }
    }
}
