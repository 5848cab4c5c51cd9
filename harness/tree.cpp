// C19: the document tree follows an ordered multi-list model.
// Every step is one of a set of edits; after each one the whole tree is compared with the model, at the end every kind of lookup is compared.
// init: 0 empty 1 small 2 nested 3 large;  root 0 object 1 array;  steps;  ops: bit set of allowed edits;  deep: edits also at nested nodes;  look: which lookups
#include "common.hpp"
using namespace Srl;
struct MV { std::string name; int kind; uint64_t i; std::string s; };   // kind 0 integer 1 text 2 null
struct MN { std::string name; Type tp = Type::Object; std::vector<MV> vals; std::vector<MN> nodes; };
static const char* NM[] = { "", "a", "bc", "longer than local storage" };
static std::string nm(int i) { return NM[i]; }
struct Obj { int x = 5; std::string y = "why"; std::vector<int> z = { 1, 2 }; void srl_resolve(Context& c) { c("x", x)("y", y)("z", z); } };
static std::string name(const String& s) { return std::string((const char*)s.data(), s.size()); }

static void cmpV(Value& v, const MV& m) {
    vf_check(name(v.name()) == m.name, "name of a value");
    if (m.kind == 1) { vf_check(v.type() == Type::String, "kind of a value"); vf_check(v.unwrap<std::string>() == m.s, "text of a value"); }
    else if (m.kind == 2) vf_check(v.type() == Type::Null, "kind of a value");
    else vf_check(v.unwrap<uint64_t>() == m.i, "content of a value");
}
static void cmp(Node& n, const MN& m) {
    vf_check(n.type() == m.tp, "kind of a node");
    vf_check(n.num_values() == m.vals.size(), "number of values"); vf_check(n.num_nodes() == m.nodes.size(), "number of nodes");
    size_t i = 0; n.foreach_value([&](Value& v) { vf_check(i < m.vals.size(), "values visited once"); cmpV(v, m.vals[i++]); }); vf_check(i == m.vals.size(), "every value visited");
    i = 0; n.foreach_node([&](Node& c) { vf_check(i < m.nodes.size(), "nodes visited once"); vf_check(name(c.name()) == m.nodes[i].name, "name of a node"); cmp(c, m.nodes[i++]); }); vf_check(i == m.nodes.size(), "every node visited");
}
static void flat(const MN& m, std::vector<const MN*>& o) { for (auto& c : m.nodes) { o.push_back(&c); flat(c, o); } }
static void flatV(const MN& m, std::vector<const MV*>& o) { for (auto& v : m.vals) o.push_back(&v); std::vector<const MN*> n; flat(m, n); for (auto* c : n) for (auto& v : c->vals) o.push_back(&v); }

template<class S> static void lookName(Node& n, const MN& m, const std::string& want, const S& key) {
    const MV* v = nullptr; for (auto& x : m.vals) if (x.name == want) { v = &x; break; }
    const MN* c = nullptr; for (auto& x : m.nodes) if (x.name == want) { c = &x; break; }
    vf_check(n.has_value(key) == (v != nullptr), "has_value"); vf_check(n.has_node(key) == (c != nullptr), "has_node");
    bool r = ok([&] { cmpV(n.value(key), *v); }); vf_check(r == (v != nullptr), "value by name, exception exactly when missing");
    r = ok([&] { cmp(n.node(key), *c); vf_check(name(n.node(key).name()) == want, "name of the node found"); }); vf_check(r == (c != nullptr), "node by name, exception exactly when missing");
    auto item = [&](Union u) { if (v) { vf_check(u.is_value() && !u.is_node(), "a value comes first"); cmpV(*u.value(), *v); } else { vf_check(u.is_node() && !u.is_value(), "node"); cmp(*u.node(), *c); } };
    r = ok([&] { item(n.get(key)); }); vf_check(r == (v || c), "get by name");
    r = ok([&] { item(n[key]); }); vf_check(r == (v || c), "operator[]");
    auto o = n.try_get(key); vf_check(o.has_value() == (v || c), "try_get by name"); if (o) item(*o);
    for (int rec = 0; rec < 2; rec++) {
        std::vector<const MN*> en, all; if (rec) flat(m, all); else for (auto& x : m.nodes) all.push_back(&x);
        for (auto* x : all) if (x->name == want) en.push_back(x);
        auto gn = n.find_nodes(key, rec); vf_check(gn.size() == en.size(), "number of nodes found");
        size_t i = 0; for (auto* x : gn) { if (i < en.size()) cmp(*x, *en[i]); i++; }
        std::vector<const MV*> ev, av; if (rec) flatV(m, av); else for (auto& x : m.vals) av.push_back(&x);
        for (auto* x : av) if (x->name == want) ev.push_back(x);
        auto gv = n.find_values(key, rec); vf_check(gv.size() == ev.size(), "number of values found");
        i = 0; for (auto* x : gv) { if (i < ev.size()) cmpV(*x, *ev[i]); i++; }
    }
}
static void look(Node& n, const MN& m, bool wide) {
    for (int k = 0; k < 4; k++) lookName(n, m, nm(k), nm(k));
    lookName(n, m, "missing", "missing"); lookName(n, m, "b", "b");
    if (wide) { lookName(n, m, "bc", u"bc"); lookName(n, m, nm(3), U"longer than local storage"); lookName(n, m, "missing", U"missing"); lookName(n, m, "", u""); }
    size_t mx = m.vals.size() > m.nodes.size() ? m.vals.size() : m.nodes.size();
    for (size_t i = 0; i < mx + 2; i++) {
        if (mx > 6 && i > 3 && i + 3 < mx) continue;
        bool hv = i < m.vals.size(), hn = i < m.nodes.size();
        bool r = ok([&] { cmpV(n.value(i), m.vals[i]); }); vf_check(r == hv, "value by index, exception exactly when missing");
        r = ok([&] { cmp(n.node(i), m.nodes[i]); }); vf_check(r == hn, "node by index, exception exactly when missing");
        auto item = [&](Union u) { if (hn) { vf_check(u.is_node(), "a node comes first"); cmp(*u.node(), m.nodes[i]); } else { vf_check(u.is_value(), "value"); cmpV(*u.value(), m.vals[i]); } };
        r = ok([&] { item(n.get(i)); }); vf_check(r == (hv || hn), "get by index");
        auto o = n.try_get(i); vf_check(o.has_value() == (hv || hn), "try_get by index"); if (o) item(*o);
    }
    for (int rec = 0; rec < 2; rec++) {
        std::vector<const MN*> en; if (rec) flat(m, en); else for (auto& x : m.nodes) en.push_back(&x);
        std::vector<const MV*> ev; if (rec) flatV(m, ev); else for (auto& x : m.vals) ev.push_back(&x);
        auto gn = n.all_nodes(rec); vf_check(gn.size() == en.size(), "all_nodes"); size_t i = 0; for (auto* x : gn) { if (i < en.size()) cmp(*x, *en[i]); i++; }
        auto gv = n.all_values(rec); vf_check(gv.size() == ev.size(), "all_values"); i = 0; for (auto* x : gv) { if (i < ev.size()) cmpV(*x, *ev[i]); i++; }
        i = 0; n.foreach_node([&](Node& c) { if (i < en.size()) cmp(c, *en[i]); i++; }, rec); vf_check(i == en.size(), "foreach_node");
        i = 0; n.foreach_value([&](Value& c) { if (i < ev.size()) cmpV(c, *ev[i]); i++; }, rec); vf_check(i == ev.size(), "foreach_value");
    }
}
template<class L> static bool rmName(L& l, const std::string& s) { for (size_t i = 0; i < l.size(); i++) if (l[i].name == s) { l.erase(l.begin() + i); return true; } return false; }
static int cnt = 0;
static void addI(Node& n, MN& m, const std::string& k, uint64_t v) { n.insert(k, v); m.vals.push_back({ k, 0, v, "" }); }
static void addS(Node& n, MN& m, const std::string& k, const std::string& s) { n.insert(k, s); m.vals.push_back({ k, 1, 0, s }); }
static MN modelObj(const std::string& k) { MN o; o.name = k; o.vals = { { "x", 0, 5, "" }, { "y", 1, 0, "why" } }; MN z; z.name = "z"; z.tp = Type::Array; z.vals = { { "", 0, 1, "" }, { "", 0, 2, "" } }; o.nodes.push_back(z); return o; }

extern "C" void harness() {
    int init = P("init", 1), steps = P("steps", 2), deep = P("deep", 1), lk = P("look", 1), keys = P("keys", 3); long ops = P("ops", -1);
    auto* t = new Tree(P("root", 0) ? Type::Array : Type::Object); MN m; m.tp = P("root", 0) ? Type::Array : Type::Object;
    Tree other; MN mo; other.root().insert("a", 77, "bc", "text"); mo.vals = { { "a", 0, 77, "" }, { "bc", 1, 0, "text" } };
    { Node sub(other); sub.insert("deep", "another text, longer than local", "q", nullptr); other.root().insert("a", sub); MN s; s.name = "a"; s.vals = { { "deep", 1, 0, "another text, longer than local" }, { "q", 2, 0, "" } }; mo.nodes.push_back(s); }
    if (init >= 1) { addI(t->root(), m, "a", 1); addS(t->root(), m, "bc", "x"); addI(t->root(), m, "a", 2); }
    if (init >= 2) for (int i = 0; i < 3; i++) {
        Node s(*t); MN ms; ms.name = nm(i % 2 + 1); addI(s, ms, "a", 10 + i); addS(s, ms, "", "text that is not kept locally");
        if (i) { Node q(*t); MN mq; mq.name = "bc"; addI(q, mq, "a", 20 + i); s.insert("bc", q); ms.nodes.push_back(mq); }
        t->root().insert(ms.name, s); m.nodes.push_back(ms);
    }
    if (init >= 3) for (int i = 0; i < 40; i++) { std::string k = "n" + std::to_string(i); addI(t->root(), m, k, i); if (i % 8 == 0) { t->root().insert(k, { i, i + 1 }); MN a; a.name = k; a.tp = Type::Array; a.vals = { { "", 0, (uint64_t)i, "" }, { "", 0, (uint64_t)i + 1, "" } }; m.nodes.push_back(a); } }
    Value* heldV = nullptr; MV heldM; Node* heldN = nullptr; // items which are never edited stay where they are, with their content
    if (init >= 1) { heldV = &t->root().value(m.vals.size() - 1); heldM = m.vals.back(); }
    const String* heldName = init >= 1 ? &t->root().value(1).name() : nullptr; std::string heldStr = init >= 1 ? m.vals[1].name : "";
    (void)heldN;
    cmp(t->root(), m);
    for (int s = 0; s < steps; s++) {
        Node* n = &t->root(); MN* mm = &m;
        if (deep && !m.nodes.empty()) {
            int d = vf_choose(deep == 2 ? 3 : 2, "where");
            if (d) { n = &t->root().node(m.nodes.size() - 1); mm = &m.nodes.back(); }
            if (d == 2) { vf_assume(!mm->nodes.empty()); if (mm->nodes.empty()) return; n = &n->node((size_t)0); mm = &mm->nodes[0]; }
        }
        int op = vf_choose(18, "edit"); vf_assume((ops >> op) & 1); if (!((ops >> op) & 1)) return;
        auto key = [&] { return nm(vf_choose(keys, "key")); };
        auto tell = [&](const char* what) { (void)what; };
        switch (op) {
        case 0: { uint64_t v; vf_sym(&v, 8, "value"); auto k = key(); addI(*n, *mm, k, v); break; }
        case 1: { auto k = key(); addS(*n, *mm, k, "text number " + std::to_string(cnt++)); break; }
        case 2: { auto k = key(); Node e(*t); n->insert(k, e); MN x; x.name = k; mm->nodes.push_back(x); break; }
        case 3: { auto k = key(); n->insert(k, { 7, 8, 9 }); MN x; x.name = k; x.tp = Type::Array; for (uint64_t i = 7; i < 10; i++) x.vals.push_back({ "", 0, i, "" }); mm->nodes.push_back(x); break; }
        case 4: { auto k = key(); MN x = m; x.name = k; n->insert(k, t->root()); mm->nodes.push_back(x); break; }               // a copy of the whole tree
        case 5: { auto k = key(); MN x = mo; x.name = k; n->insert(k, other.root()); mm->nodes.push_back(x); break; }          // of another tree
        case 6: { auto k = key(); n->remove_value(k); if (rmName(mm->vals, k)) heldV = nullptr; break; }
        case 7: { auto k = key(); n->remove_node(k); rmName(mm->nodes, k); break; }
        case 8: { int i = vf_choose(3, "index"); n->remove_value((size_t)i); if ((size_t)i < mm->vals.size()) { mm->vals.erase(mm->vals.begin() + i); heldV = nullptr; } break; }
        case 9: { int i = vf_choose(3, "index"); n->remove_node((size_t)i); if ((size_t)i < mm->nodes.size()) mm->nodes.erase(mm->nodes.begin() + i); break; }
        case 10: { int i = vf_choose(3, "index"); Value out(5); Value* p = (size_t)i < mm->vals.size() ? &n->value((size_t)i) : &out; n->remove_value(p); if ((size_t)i < mm->vals.size()) { mm->vals.erase(mm->vals.begin() + i); heldV = nullptr; } break; }
        case 11: { int i = vf_choose(3, "index"); Node* p = (size_t)i < mm->nodes.size() ? &n->node((size_t)i) : &other.root(); n->remove_node(p); if ((size_t)i < mm->nodes.size()) mm->nodes.erase(mm->nodes.begin() + i); break; }
        case 12: { auto* u = new Tree(std::move(*t)); vf_check(t->root().num_values() == 0 && t->root().num_nodes() == 0, "a moved-from tree is empty"); t->root().insert("stray", 1); delete t; t = u; break; }
        case 13: { t->clear(); m.vals.clear(); m.nodes.clear(); heldV = nullptr; heldName = nullptr; break; }
        case 14: { auto k = key(); n->insert(k, ScopeWrap([](Node& w) { w.insert("in", 3); w.insert("li", { 1 }); }, Type::Object)); MN x; x.name = k; x.vals.push_back({ "in", 0, 3, "" }); MN l; l.name = "li"; l.tp = Type::Array; l.vals.push_back({ "", 0, 1, "" }); x.nodes.push_back(l); mm->nodes.push_back(x); break; }
        case 15: { for (int i = 0; i < 24; i++) addI(*n, *mm, "g" + std::to_string(i), i); break; }                            // growth of the name table
        case 16: { if (mm->vals.empty()) { auto k = key(); n->insert(k, nullptr); mm->vals.push_back({ k, 2, 0, "" }); break; } auto k = key(); MV x = mm->vals.back(); Value c = n->value(mm->vals.size() - 1); n->insert(k, c); x.name = k; mm->vals.push_back(x); break; }
        case 17: { auto k = key(); n->insert(k, Obj()); mm->nodes.push_back(modelObj(k)); break; }
        }
        tell("");
        if (steps == 1 || lk != 2) cmp(t->root(), m);
        if (heldV) { vf_check(heldV == &t->root().value(m.vals.size() > 0 ? [&] { for (size_t i = 0; i < m.vals.size(); i++) if (&t->root().value(i) == heldV) return i; return (size_t)9999; }() : 9999), "an untouched value stays where it is"); cmpV(*heldV, heldM); }
        if (heldName) vf_check(name(*heldName) == heldStr, "a name stays valid");
    }
    cmp(t->root(), m);
    if (lk) { look(t->root(), m, lk > 1); if (!m.nodes.empty()) look(t->root().node(m.nodes.size() - 1), m.nodes.back(), false); }
    if (P("pos", 0)) { // any position
        uint64_t i; vf_sym(&i, 8, "position"); Node& r = t->root();
        vf_check(ok([&] { r.value((size_t)i); }) == (i < m.vals.size()), "value at any index"); vf_check(ok([&] { r.node((size_t)i); }) == (i < m.nodes.size()), "node at any index");
        vf_check(r.try_get((size_t)i).has_value() == (i < m.vals.size() || i < m.nodes.size()), "try_get at any index");
        r.remove_node((size_t)i); vf_check(r.num_nodes() == m.nodes.size() - (i < m.nodes.size()), "removing any index"); if (i < m.nodes.size()) m.nodes.erase(m.nodes.begin() + i); cmp(r, m);
    }
    if (int sn = P("symname", 0)) { // any name
        std::string k(sn, 0); vf_sym(&k[0], sn, "name"); uint64_t v; vf_sym(&v, 8, "value"); Node& r = t->root();
        bool known = false; for (auto& x : m.vals) known |= x.name == k; vf_check(r.has_value(k) == known, "has_value for any name");
        if (P("symnode", 0)) { bool kn = false; for (auto& x : m.nodes) kn |= x.name == k; vf_check(r.has_node(k) == kn, "has_node for any name"); Node e(*t); r.insert(k, e); MN x; x.name = k; m.nodes.push_back(x); } else addI(r, m, k, v);
        cmp(r, m); lookName(r, m, k, k); lookName(r, m, "a", "a"); lookName(r, m, "bc", "bc");
    }
    cmp(other.root(), mo);
    t->clear(); MN e; e.tp = m.tp; cmp(t->root(), e); addI(t->root(), e, "again", 4); cmp(t->root(), e);
    delete t;
    vf_reach("done");
}
