// C12: every valid JSON document is read with its RFC 8259 meaning (reference reader vs library, symbolic documents)
// C10: every JSON document written is read by the reference reader as exactly the stored content
#include "ref.hpp"
using namespace Srl;
static const char* const pre[] = { /*0*/ "", "{\"a\":", "[\"", "[\"\\", "[1", "[1,", /*6*/ "{\"a\":1,\"", "[[],", "[-", "[0.", "[1e", /*11*/ "[tr", "[fals", "[nul", "{\"", "{\"a\":{},", /*16*/ "[\"\\u12", "[{\"x\":[]}", "[ ", "{\"a\" ", "[\"a\"", /*21*/ "{\"a\\" };
static const char* const post[] = { "", "}", "]", "\"]", "\":1}", "]}" };
// ? any byte, # digit, ^ hex digit, $ whitespace, ~ number character, @ printable
static const char* const tpl[] = {
    /*0*/ "[\"\\u^^^^\"]", "[\"\\ud8^^\\udc^^\"]", "[\"\\ud9^^\\ude^^x\"]", "[\"\\uDB^^\\uDF^^\"]", "[\"a\\?b\"]",
    /*5*/ "[~~~~]", "[~~~~~]", "[1~~~,2]", "[-~~~]", "[92233720368547758##]", /*10*/ "[-92233720368547758##]", "[184467440737095516##]", "[1844674407370955161##]", "[##.##]", "[#.#e#]", /*15*/ "[#e-##]", "[1#E+1#]", "[999999999999999999##]",
    /*18*/ "{$\"a\"$:$1$,$\"b\"$:[$]$}", "$[$true$,$null$]$", "[{$},{\"a\"$:{$}}]", "{\"@@\":\"@@\"}", /*22*/ "{\"a\\?\":1,\"b\":[2]}", "[[[?]],[?]]", "{\"x\":{\"y\":?},\"x\":[?]}", "[\"\",\"?\",\"?\"]", /*26*/ "[0,-0,0.0,?]", "[123456789#,12#456]", "{\"\":?,\"b\":{}}", "[\"@\\n@\\t@\"]", /*30*/ "[1?2?3]", "{\"a\":1?\"b\":2}", "[1,\"a\"?{}]", "[\"\\\"\\\\\\/\\b\\f\\n\\r\\t?\"]", "[1.7976931348623157e30#]", "[#.####]", "[4.9e-32#]", "{\"\\u00^^\":[2]}", "[-#####,#####]", "[###e##]" };
static void read(const Bytes8& d) {
    JRead r(d.data(), d.size()); JV v;
    bool valid = r.doc(v) && (v.t == 'o' || v.t == 'a') && !r.lone;
    if (!valid) { vf_reach("invalid"); return; }
    vf_reach("valid");
    Tree t; Buf b(d); PJson p; bool s = P("stream", 0);
    bool acc = ok([&] { if (s) { InStream is(d, 7); t.load_source(Lib::In::Source(is.is), p); } else t.load_source(Lib::In::Source(b.p, b.n), p); });
    vf_check(acc, "a valid JSON document is accepted");
    vf_check(sameDoc(t.root(), v), "a valid JSON document is read with its meaning");
}
static JV parse(const Bytes8& d) { JRead r(d.data(), d.size()); JV v; vf_check(r.doc(v), "the written document is valid JSON"); vf_check(!r.lone, "no lone surrogates are written"); return v; }
struct E { void srl_resolve(Context&) { } };
struct W { std::string n; std::vector<int> v; E e; std::vector<E> ve; std::map<std::string, std::vector<std::string>> m; std::tuple<bool, std::string, E> t; bool b = false; std::unique_ptr<int> np; double d = 0;
    void srl_resolve(Context& c) { c("n", n)("v", v)("e", e)("ve", ve)("m", m)("t", t)("b", b)("np", np)("d", d); } };
template<class T> static void num(T x) {
    struct O { T x; std::vector<T> l; void srl_resolve(Context& c) { c("x", x)("l", l); } } o; o.x = x; o.l = { x, x };
    Tree t; PJson p(!P("pretty", 0)); JV v = parse(t.store(o, p));
    vf_check(v.t == 'o' && v.names.size() == 2 && v.names[0] == "x" && v.kids[0].t == 'n' && v.kids[1].t == 'a' && v.kids[1].kids.size() == 2, "structure of the written numbers");
    const std::string& s = v.kids[0].s;
    if (std::is_integral<T>::value) { bool neg; uint64_t mag; vf_check(isIntText(s) && refInt(s, neg, mag), "an integer is written as an integer"); vf_check(std::is_signed<T>::value && (int64_t)x < 0 ? neg && mag == 0 - (uint64_t)(int64_t)x : !neg && mag == (uint64_t)x, "the written integer equals the stored one"); }
    else vf_check((T)strtod(s.c_str(), nullptr) == x, "the written number denotes the stored one");
    vf_check(v.kids[1].kids[0].s == s && v.kids[1].kids[1].s == s, "list elements are written alike");
}
static std::string text(const char* kind, unsigned n) {
    std::string s;
    for (unsigned i = 0; i < n; i++) { uint8_t c; vf_sym(&c, 1, kind); vf_assume(c < 128); s.push_back((char)c); }
    return s;
}
static JV js(const std::string& s) { JV v; v.t = 's'; v.s = s; return v; }
extern "C" void harness() {
    unsigned what = P("what", 0), n = (unsigned)P("n", 2); bool pretty = P("pretty", 0);
    if (what == 0) {                                                    // raw continuation of a prefix
        const char* a = pre[P("pre", 0)]; const char* z = post[P("post", 0)]; Bytes8 d((const uint8_t*)a, (const uint8_t*)a + strlen(a)); size_t at = d.size(); d.resize(at + n); vf_sym(d.data() + at, n, "doc"); d.insert(d.end(), (const uint8_t*)z, (const uint8_t*)z + strlen(z));
        read(d); return;
    }
    if (what == 1) {
        const char* s = tpl[P("t", 0)]; Bytes8 d;
        for (; *s; s++) {
            uint8_t c = (uint8_t)*s;
            if (c == '?' || c == '#' || c == '^' || c == '$' || c == '~' || c == '@') {
                uint8_t x; vf_sym(&x, 1, "hole");
                if (c == '#') vf_assume((x >= '0') & (x <= '9'));
                if (c == '^') vf_assume(((x >= '0') & (x <= '9')) | ((x >= 'a') & (x <= 'f')) | ((x >= 'A') & (x <= 'F')));
                if (c == '$') vf_assume((x == ' ') | (x == '\n') | (x == '\r') | (x == '\t'));
                if (c == '~') vf_assume(((x >= '0') & (x <= '9')) | (x == '-') | (x == '+') | (x == '.') | (x == 'e') | (x == 'E'));
                if (c == '@') vf_assume((x >= 0x20) & (x < 0x7f));
                if (P("conc", 0) && (c == '#' || c == '~')) x = (uint8_t)vf_concrete(x);          // numbers: every digit string is its own path
                c = x;
            }
            d.push_back(c);
        }
        read(d); return;
    }
    PJson p(!pretty); Tree t;
    switch (what) {
    case 10: { std::string a = text("name", (unsigned)P("names", 1)), s = text("str", n); Tree in; in.root().insert("q", s); t.root().insert(a, s, "z", "end"); t.root().insert(a + "n", in.root());           // dynamic document
        JV v = parse(t.to_source(p)), w; w.t = 'o'; JV o; o.t = 'o'; o.names = { "q" }; o.kids = { js(s) }; w.names = { a, "z", a + "n" }; w.kids = { js(s), js("end"), o }; vf_check(sameJ(v, w), "the written document holds the stored names and strings"); break; }
    case 11: { W o; o.n = text("s", n); o.v = std::vector<int>(vf_choose(3, "v"), 7); o.ve.resize(vf_choose(3, "ve")); unsigned m = vf_choose(3, "m"); for (unsigned i = 0; i < m; i++) o.m[std::string(i, 'k')] = std::vector<std::string>(i, "x\ny"); std::get<0>(o.t) = vf_choose(2, "b0"); std::get<1>(o.t) = text("t", (unsigned)P("tn", 0)); o.b = vf_choose(2, "b"); o.d = 0.5; if (vf_choose(2, "np")) o.np.reset(new int(5));
        JV v = parse(t.store(o, p)), w; auto N = [](const char* x) { JV q; q.t = 'n'; q.s = x; return q; }; auto K = [](char c) { JV q; q.t = c; return q; };
        w.t = 'o'; w.names = { "n", "v", "e", "ve", "m", "t", "b", "np", "d" }; w.kids.push_back(js(o.n)); w.kids.push_back(K('a')); for (size_t i = 0; i < o.v.size(); i++) w.kids[1].kids.push_back(N("7")); w.kids.push_back(K('o')); w.kids.push_back(K('a')); for (size_t i = 0; i < o.ve.size(); i++) w.kids[3].kids.push_back(K('o'));
        w.kids.push_back(K('a')); for (unsigned i = 0; i < m; i++) { JV e = K('o'); e.names = { "key", "value" }; e.kids.push_back(js(std::string(i, 'k'))); e.kids.push_back(K('a')); for (unsigned j = 0; j < i; j++) e.kids[1].kids.push_back(js("x\ny")); w.kids[4].kids.push_back(e); }
        w.kids.push_back(K('a')); w.kids[5].kids.push_back(K(std::get<0>(o.t) ? 'T' : 'F')); w.kids[5].kids.push_back(js(std::get<1>(o.t))); w.kids[5].kids.push_back(K('o')); w.kids.push_back(K(o.b ? 'T' : 'F')); w.kids.push_back(o.np ? N("5") : K('0')); w.kids.push_back(N("0.5"));
        vf_check(v.kids.size() == 9 && v.kids[8].t == 'n' && strtod(v.kids[8].s.c_str(), nullptr) == 0.5, "number field"); v.kids[8].s = "0.5";
        vf_check(sameJ(v, w), "the written document holds the stored content"); break; }
    case 12: switch (P("type", 0)) { case 0: num(vf_any<int8_t>("x")); break; case 1: num(vf_any<uint8_t>("x")); break; case 2: num(vf_any<int16_t>("x")); break; case 3: num(vf_any<uint16_t>("x")); break; case 4: num((int32_t)(P("base", 0) + (int32_t)vf_any<uint16_t>("x"))); break; case 5: num((uint32_t)P("base", 0) + vf_any<uint16_t>("x")); break; case 6: num((int64_t)(P("base", 0) + (int64_t)vf_any<uint16_t>("x"))); break; case 7: num((uint64_t)P("base", 0) + vf_any<uint16_t>("x")); break; } break;
    case 13: { uint64_t m = (uint64_t)P("base", 0), x = m + vf_concrete(vf_any<uint8_t>("lo")); if (P("hi", 0)) x = m | (vf_concrete(vf_any<uint8_t>("hi")) << 55); double dd; memcpy(&dd, &x, 8); vf_assume(dd - dd == 0); num(dd); break; }
    case 14: { uint32_t x = (uint32_t)P("base", 0) + (uint32_t)vf_concrete(vf_any<uint8_t>("lo")); if (P("hi", 0)) x = (uint32_t)P("base", 0) | ((uint32_t)vf_concrete(vf_any<uint8_t>("hi")) << 23); float ff; memcpy(&ff, &x, 4); vf_assume(ff - ff == 0); num(ff); break; }
    case 15: { uint32_t c = vf_any<uint32_t>("cp"); vf_assume((c < 0x110000) & !((c >= 0xd800) & (c < 0xe000))); std::u32string u(1, c); std::string ref; JRead::utf8(c, ref); t.root().insert(u, u, "k", 1); JV v = parse(t.to_source(p)); vf_check(v.kids.size() == 2 && v.names[0] == ref && v.kids[0].t == 's' && v.kids[0].s == ref, "wide names and strings are written as UTF-8"); break; }
    case 16: { // any sequence of insertions: values, lists, objects, nested up to depth 3
        std::vector<Node*> st { &t.root() }; JV w; w.t = 'o'; std::vector<JV*> sj { &w };
        struct R { static void vals(const JV& w, Node& n) { for (size_t i = 0; i < w.kids.size(); i++) { const JV& k = w.kids[i]; if (k.t == 's') { if (w.t == 'o') n.insert(w.names[i], k.s); else n.insert(k.s); } else if (k.t == 'n') { if (w.t == 'o') n.insert(w.names[i], 5); else n.insert(5); } else { Tree tt(k.t == 'o' ? Type::Object : Type::Array); R::vals(k, tt.root()); if (w.t == 'o') n.insert(w.names[i], tt.root()); else n.insert(tt.root()); } } }
            static JV order(const JV& w) { JV o; o.t = w.t; o.s = w.s; for (int ph = 0; ph < 2; ph++) for (size_t i = 0; i < w.kids.size(); i++) { bool sc = w.kids[i].t == 'o' || w.kids[i].t == 'a'; if (sc == (ph == 1)) { if (w.t == 'o') o.names.push_back(w.names[i]); o.kids.push_back(order(w.kids[i])); } } return o; } };
        std::vector<std::vector<size_t>> path; std::vector<size_t> cur;
        auto at = [&]() -> JV& { JV* j = &w; for (size_t i : cur) j = &j->kids[i]; return *j; };
        for (unsigned i = 0; i < n; i++) { unsigned op = vf_choose(5, "op"); JV& c = at(); if (op == 4) { if (!cur.empty()) cur.pop_back(); continue; } if (c.t == 'o') c.names.push_back(std::string(1, (char)('a' + i))); JV k; k.t = op == 0 ? 's' : op == 1 ? 'n' : op == 2 ? 'o' : 'a'; if (op == 0) k.s = "q"; if (op == 1) k.s = "5"; c.kids.push_back(k); if (op >= 2) cur.push_back(c.kids.size() - 1); }
        if (P("direct", 0)) { struct D { const JV& w; // written while being stored, in the given order
                static void put(const JV& w, Node& n) { for (size_t i = 0; i < w.kids.size(); i++) { const JV& k = w.kids[i]; std::string nm = w.t == 'o' ? w.names[i] : ""; if (k.t == 's') n.insert(nm, k.s); else if (k.t == 'n') n.insert(nm, 5); else n.insert(nm, ScopeWrap([&k](Node& m) { put(k, m); }, k.t == 'o' ? Type::Object : Type::Array)); } }
                void srl_resolve(Context& c) { put(w, c.node()); } } d { w }; JV v = parse(t.store(d, p)); vf_check(sameJ(v, w), "the written document has the stored structure and order"); break; }
        if (P("root", 0)) { w.t = 'a'; w.names.clear(); Tree a(Type::Array); R::vals(w, a.root()); JV v = parse(a.to_source(p)); vf_check(sameJ(v, R::order(w)), "the written list has the stored structure"); break; }
        R::vals(w, t.root()); JV v = parse(t.to_source(p)); vf_check(sameJ(v, R::order(w)), "the written document has the stored structure"); break; }
    case 18: { // scopes nested to any depth, with and without items around each
        struct D { unsigned n, around; int kinds; JV* w; bool arr(unsigned i) const { return (kinds >> (i % 3)) & 1; }
            void put(Node& m, JV& j, unsigned i) const { auto val = [&](const char* k) { m.insert(j.t == 'o' ? k : "", (int)i); JV x; x.t = 'n'; x.s = std::to_string(i); if (j.t == 'o') j.names.push_back(k); j.kids.push_back(x); };
                if (around & 1) val("b"); if (i < n) { JV x; x.t = arr(i) ? 'a' : 'o'; m.insert(j.t == 'o' ? "s" : "", ScopeWrap([&](Node& c) { put(c, x, i + 1); }, arr(i) ? Type::Array : Type::Object)); if (j.t == 'o') j.names.push_back("s"); j.kids.push_back(std::move(x)); } if (around & 2) val("e"); }
            void srl_resolve(Context& c) { put(c.node(), *w, 0); } };
        JV w; w.t = 'o'; D d { (unsigned)P("base", 0) + vf_choose(n, "depth"), vf_choose(4, "around"), (int)vf_choose(8, "kinds"), &w }; JV v = parse(t.store(d, p)); vf_check(sameJ(v, w), "scopes nested to any depth are written as stored"); break; }
    case 17: { Bytes8 b(n); vf_sym(b.data(), n, "b"); t.root().insert("b", BitWrap(b.data(), b.size())); JV v = parse(t.to_source(p)); vf_check(v.kids.size() == 1 && v.kids[0].t == 's' && v.kids[0].s.size() == (n + 2) / 3 * 4, "binary data is written as base64 text"); break; }
    }
    vf_reach("written");
}
