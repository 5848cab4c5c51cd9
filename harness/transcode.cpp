// C27: documents carried from format to format, written and read by independent encoders and decoders where there are any.
// mode 0 every shape of document 1 single numbers 2 objects of every kind 3 texts, names and blocks of free bytes 4 sizes at which encodings change
// fmt: format of the first document; hops: number of further formats (each chosen freely); how 0 new trees 1 one tree and parser 2 streams
#include "kinds.inc"
#include "ref.hpp"
#include "mref.hpp"
struct AI { char t = '0'; bool neg = false; uint64_t u = 0; double d = 0; std::string s; std::vector<std::string> names; std::vector<AI> kids; };   // t: o a s i d T F 0 x
static AI scalar(char t) { AI a; a.t = t; return a; }
static AI text(const std::string& s) { AI a = scalar('s'); a.s = s; return a; }
static AI block(const std::string& s) { AI a = scalar('x'); a.s = s; return a; }
static AI integer(int64_t v) { AI a = scalar('i'); a.neg = v < 0; a.u = (uint64_t)v; return a; }
static bool scope(const AI& a) { return a.t == 'o' || a.t == 'a'; }
static void dec(uint64_t v, std::string& o) { char b[24]; int n = 0; do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) o.push_back(b[--n]); }
// ---- writers
static void hex4(unsigned c, std::string& o) { static const char* h = "0123456789abcdef"; o += "\\u"; for (int i = 12; i >= 0; i -= 4) o.push_back(h[c >> i & 15]); }
static void jstr(const std::string& s, std::string& o, int v) { o.push_back('"'); for (unsigned char c : s) { if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(c); } else if (c < 32) hex4(c, o); else if (v && c == '/') o += "\\/"; else o.push_back(c); } o.push_back('"'); }
static void json(const AI& a, std::string& o, int v) {
    const char* sp = v ? " \n\t" : "";
    switch (a.t) { case 'o': case 'a': o += a.t == 'o' ? "{" : "["; for (size_t i = 0; i < a.kids.size(); i++) { if (i) o += ","; o += sp; if (a.t == 'o') { jstr(a.names[i], o, v); o += sp; o += ":"; o += sp; } json(a.kids[i], o, v); o += sp; } o += a.t == 'o' ? "}" : "]"; break;
    case 's': jstr(a.s, o, v); break; case 'i': if (a.neg) { o.push_back('-'); dec(0 - a.u, o); } else dec(a.u, o); break; case 'd': o += a.d == 0.5 ? (v ? "5e-1" : "0.5") : a.d == 1e300 ? (v ? "1E+300" : "1e300") : a.d == -12.25 ? "-12.25" : a.d == 3 ? (v ? "3.0" : "30e-1") : "0.1"; break;
    case 'T': o += "true"; break; case 'F': o += "false"; break; default: o += "null"; }
}
static void be(Bytes8& o, uint64_t v, int k) { while (k--) o.push_back((uint8_t)(v >> 8 * k)); }
static void len(Bytes8& o, size_t n, int v, int fix, size_t fixmax, int c8, int c16) { if (n <= fixmax && v == 0 && fix >= 0) o.push_back((uint8_t)(fix + n)); else if (c8 >= 0 && n < 256 && v <= 1) { o.push_back(c8); be(o, n, 1); } else if (n < 65536 && v <= 2) { o.push_back(c16); be(o, n, 2); } else { o.push_back(c16 + 1); be(o, n, 4); } }
static void bytesTo(Bytes8& o, const std::string& s) { o.insert(o.end(), s.begin(), s.end()); }
static void msgp(const AI& a, Bytes8& o, int v) {
    switch (a.t) { case 'o': len(o, a.kids.size(), v, 0x80, 15, -1, 0xde); for (size_t i = 0; i < a.kids.size(); i++) { len(o, a.names[i].size(), v, 0xa0, 31, 0xd9, 0xda); bytesTo(o, a.names[i]); msgp(a.kids[i], o, v); } break;
    case 'a': len(o, a.kids.size(), v, 0x90, 15, -1, 0xdc); for (auto& k : a.kids) msgp(k, o, v); break; case 's': len(o, a.s.size(), v, 0xa0, 31, 0xd9, 0xda); bytesTo(o, a.s); break; case 'x': len(o, a.s.size(), v, -1, 0, 0xc4, 0xc5); bytesTo(o, a.s); break;
    case 'i': if (a.neg) { o.push_back(0xd3); be(o, a.u, 8); } else if (v == 0 && a.u < 128) o.push_back((uint8_t)a.u); else if (v == 1 && a.u < 128) { o.push_back(0xd0); be(o, a.u, 1); } else { o.push_back(0xcf); be(o, a.u, 8); } break;
    case 'd': { uint64_t b; memcpy(&b, &a.d, 8); o.push_back(0xcb); be(o, b, 8); break; } case 'T': o.push_back(0xc3); break; case 'F': o.push_back(0xc2); break; default: o.push_back(0xc0); }
}
static void tree(const AI& a, Node& n) {
    for (size_t i = 0; i < a.kids.size(); i++) { const AI& k = a.kids[i]; std::string nm = a.t == 'o' ? a.names[i] : "";
        switch (k.t) { case 'o': case 'a': n.insert(nm, ScopeWrap([&k](Node& c) { tree(k, c); }, k.t == 'o' ? Type::Object : Type::Array)); break; case 's': n.insert(nm, k.s); break; case 'x': n.insert(nm, BitWrap((const uint8_t*)k.s.data(), k.s.size())); break;
        case 'i': if (k.neg) n.insert(nm, (int64_t)k.u); else n.insert(nm, k.u); break; case 'd': n.insert(nm, k.d); break; case 'T': n.insert(nm, true); break; case 'F': n.insert(nm, false); break; default: n.insert(nm, nullptr); } }
}
static Bytes8 write(const AI& a, int f, int v) {
    if (f == JSON || f == JSONP) { std::string s; json(a, s, v); return bytes(s); }
    if (f == MSGP) { Bytes8 b; msgp(a, b, v); return b; }
    Tree t(a.t == 'o' ? Type::Object : Type::Array); tree(a, t.root()); AnyParser ap; return t.to_source(ap.get(f));
}
// ---- readers
static AI from(const JV& j) { AI a; a.t = j.t; a.s = j.s; a.names = j.names; if (j.t == 'n') { bool neg; uint64_t mag; if (isIntText(j.s) && refInt(j.s, neg, mag)) { a.t = 'i'; a.neg = neg && mag; a.u = neg ? 0 - mag : mag; } else { a.t = 'd'; a.d = strtod(j.s.c_str(), nullptr); } a.s = ""; } for (auto& k : j.kids) a.kids.push_back(from(k)); return a; }
static AI from(const MV& m) { AI a; a.t = m.t == 'm' ? 'o' : m.t == 'b' ? 'x' : m.t == 'f' ? 'd' : m.t; a.s = m.s; a.names = m.names; if (m.t == 'i') { a.neg = m.neg; a.u = m.u; } else if (m.t == 'f') { if (m.dbl) memcpy(&a.d, &m.u, 8); else { float f; uint32_t b = (uint32_t)m.u; memcpy(&f, &b, 4); a.d = f; } } for (auto& k : m.kids) a.kids.push_back(from(k)); return a; }
static AI from(Node& n) { AI a = scalar(n.type() == Type::Object ? 'o' : 'a'); auto nm = [&](const String& s) { if (a.t == 'o') a.names.push_back(s.unwrap()); };
    n.foreach_value([&](Value& v) { nm(v.name()); AI k; switch (v.type()) { case Type::String: k = text(v.unwrap<std::string>()); break; case Type::Binary: k = block(std::string((const char*)v.data(), v.size())); break; case Type::Null: break; case Type::Bool: k.t = v.unwrap<bool>() ? 'T' : 'F'; break; case Type::FP32: case Type::FP64: k.t = 'd'; k.d = v.unwrap<double>(); break; default: k.t = 'i'; k.u = v.pblock().ui64; k.neg = TpTools::is_signed(v.type()) && (int64_t)k.u < 0; } a.kids.push_back(k); });
    n.foreach_node([&](Node& c) { nm(c.name()); a.kids.push_back(from(c)); }); return a; }
static bool read(const Bytes8& d, int f, AI& o) {
    if (f == JSON || f == JSONP) { JRead r(d.data(), d.size()); JV v; if (!r.doc(v)) return false; o = from(v); return true; }
    if (f == MSGP) { MRead r(d.data(), d.size()); MV v; if (!r.doc(v)) return false; o = from(v); return true; }
    AnyParser ap; Tree t; Buf b(d); if (!ok([&] { t.load_source(Lib::In::Source(b.p, b.n), ap.get(f)); })) return false; o = from(t.root()); return true;
}
// ---- what a document is expected to be: values of a scope come before nested scopes; blocks are base64 text once they were written as JSON
static std::string b64(const std::string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (size_t i = 0; i < s.size(); i += 3) { unsigned x = (uint8_t)s[i] << 16, k = 1; if (i + 1 < s.size()) { x |= (uint8_t)s[i + 1] << 8; k = 2; } if (i + 2 < s.size()) { x |= (uint8_t)s[i + 2]; k = 3; } o.push_back(A[x >> 18]); o.push_back(A[x >> 12 & 63]); o.push_back(k > 1 ? A[x >> 6 & 63] : '='); o.push_back(k > 2 ? A[x & 63] : '='); } return o; }
static AI norm(const AI& a, bool j) { AI r = a; r.kids.clear(); r.names.clear(); if (j && a.t == 'x') r = text(b64(a.s)); for (int p = 0; p < 2; p++) for (size_t i = 0; i < a.kids.size(); i++) if (scope(a.kids[i]) == (p == 1)) { if (a.t == 'o') r.names.push_back(a.names[i]); r.kids.push_back(norm(a.kids[i], j)); } return r; }
static double asd(const AI& a) { return a.t == 'd' ? a.d : a.neg ? (double)(int64_t)a.u : (double)a.u; }
static bool eq(const AI& a, const AI& b) {
    if ((a.t == 'd') != (b.t == 'd') && (a.t == 'i' || b.t == 'i')) { const AI& i = a.t == 'i' ? a : b; double d = asd(a.t == 'd' ? a : b); return asd(i) == d && (i.neg ? i.u > 0ull - (1ull << 53) : i.u < 1ull << 53); }
    if (a.t != b.t) return false;
    switch (a.t) { case 'i': return a.u == b.u && a.neg == b.neg; case 'd': return a.d == b.d || (a.d != a.d && b.d != b.d); case 's': case 'x': return a.s == b.s; case 'o': case 'a': break; default: return true; }
    if (a.kids.size() != b.kids.size() || a.names != b.names) return false;
    for (size_t i = 0; i < a.kids.size(); i++) if (!eq(a.kids[i], b.kids[i])) return false;
    return true;
}
struct Hops { Tree one; AnyParser oneP; int how; bool js = false; int f; Bytes8 d;
    void hop(int g) { Tree fresh; AnyParser fp; Tree& t = how == 1 ? one : fresh; AnyParser& p = how == 1 ? oneP : fp; Buf b(d); InStream in(d, 5); OutStream out; Bytes8 r;
        vf_check(ok([&] { if (how == 2) t.load_source(Lib::In::Source(in.is), p.get(f)); else t.load_source(Lib::In::Source(b.p, b.n), p.get(f)); if (how == 2) { t.to_source(Lib::Out::Source(out.os), p.get(g)); r = out.b.v; } else r = t.to_source(p.get(g)); }), "a document written by the library is not carried over");
        d = r; f = g; js = js || g == JSON || g == JSONP; } };
static void carry(const AI& a, int f, int hops, int how, bool back, const int* to = nullptr) {
    Hops h; h.how = how; h.f = f; h.d = write(a, f, P("enc", 0)); Bytes8 first; h.js = f == JSON || f == JSONP;
    h.hop(f); first = h.d; vf_check([&] { AI r; return read(h.d, f, r) && eq(r, norm(a, h.js)); }(), "the document in its own format");
    for (int i = 0; i < hops; i++) { int g = to ? to[i] : vf_choose(4, "format"); h.hop(g); AI r; vf_check(read(h.d, g, r), "a written document is malformed"); vf_check(eq(r, norm(a, h.js)), "content after another format"); }
    h.hop(f); { AI r; vf_check(read(h.d, f, r) && eq(r, norm(a, h.js)), "content back in the first format"); } if (back) vf_check(same(h.d, first), "the document back in the first format");
    vf_reach("carried");
}
static AI any(int f, int depth, int width, bool obj) {
    AI a = scalar(obj ? 'o' : 'a'); int n = vf_choose(width + 1, "size"); bool js = f == JSON || f == JSONP;
    for (int i = 0; i < n; i++) { int k = vf_choose(depth ? 10 : 8, "kind"); if (a.t == 'o') a.names.push_back(i == 1 && P("dup", 0) ? a.names[0] : i == 2 ? "" : i ? "n" : std::string("name ") + (depth ? "\"" : "\xc3\xa9"));
        switch (k) { case 0: a.kids.push_back(integer(two("int"))); break; case 1: a.kids.push_back(integer(i ? -70000000000 : -1)); break; case 2: a.kids.push_back(text(i ? "" : digits(two("text")) + "\n\"\xf0\x9f\x98\x80/")); break; case 3: { AI d = scalar('d'); d.d = i == 0 ? 0.5 : i == 1 ? 1e300 : 3; a.kids.push_back(d); break; }
            case 4: a.kids.push_back(scalar('T')); break; case 5: a.kids.push_back(scalar('F')); break; case 6: a.kids.push_back(scalar('0')); break; case 7: a.kids.push_back(js ? text("\\") : block(std::string("\0\xff\x80z", i + 2))); break;
            default: a.kids.push_back(any(f, depth - 1, width - 1, k == 8)); } }
    return a;
}
static double bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), hops = P("hops", 2), how = P("how", 0);
    if (mode == 0) { AI a = any(f, P("depth", 1), P("width", 2), P("root", 0) == 0); carry(a, f, hops, how, false); }
    else if (mode == 1) {
        int k = P("kind", 0); AI x; uint64_t v;                                                     // 0 unsigned 1 negative 2 bits of a double 3 bits of a single
        if (P("free", 0)) v = vf_any<uint64_t>("v"); else { uint64_t lo = (uint64_t)(uint32_t)P("lo", 0) | (uint64_t)(uint32_t)P("hi", 0) << 32; if (k >= 2 && !P("nojson", 0)) v = lo + vf_choose(P("win", 40), "w"); else { uint8_t w; vf_sym(&w, 1, "w"); v = lo + w; } }
        if (k == 0) { x = scalar('i'); x.u = v; } else if (k == 1) { x = scalar('i'); x.u = 0 - v; x.neg = true; vf_assume((v != 0) & (v <= 1ull << 63)); } else { x = scalar('d'); x.d = k == 2 ? bits(v) : 0; if (k == 3) { uint32_t b = (uint32_t)v; float g; memcpy(&g, &b, 4); x.d = g; } }
        AI a = scalar('o'); a.names = { "x" }; a.kids = { x }; int to[4], n = 0; bool nojson = P("nojson", 0); for (; n < hops; n++) to[n] = nojson ? 1 + vf_choose(2, "format") : vf_choose(3, "format"); carry(a, f, hops, how, false, to);
    } else if (mode == 2) {
        int k = vf_choose(NKIND, "kind"), v = vf_choose(3, "content"); withKind(k, [&](auto& o) { fillK(o, v); typedef typename std::decay<decltype(o)>::type T; Hops h; h.how = how; h.f = f; h.d = st(o, f); Bytes8 first = h.d; bool odd = false;
            for (int i = 0; i < hops; i++) { int g = vf_choose(4, "format"); h.hop(g); odd = odd || g == SRLF; } T r; if (P("used", 0)) fillK(r, 1); auto paste = [&](const Bytes8& d, int g, T& x) { AnyParser ap; Tree t; Buf b(d); return ok([&] { t.restore(x, Lib::In::Source(b.p, b.n), ap.get(g)); }); };
            vf_check(paste(h.d, h.f, r) && same(st(r, SRLF), st(o, SRLF)), "object after other formats"); h.hop(f); T q; vf_check(paste(h.d, f, q) && same(st(q, SRLF), st(o, SRLF)), "object back in the first format"); vf_reach("carried"); });
    } else if (mode == 3) {
        int what = P("what", 0), n = P("len", 2); std::string s; for (int i = 0; i < n; i++) { uint8_t b; vf_sym(&b, 1, "byte"); if (what != 2) { if (f == JSON) vf_assume(b < 0x80); else vf_assume(b < 0x80); } s.push_back((char)b); } s = (P("pre", 0) ? "\xe4\xb8\x80" : "") + s;
        AI a = scalar('o'); a.names = { "k" }; if (what == 0) a.kids = { text(s) }; else if (what == 2) a.kids = { block(s) }; else { a.names[0] = s; a.kids = { integer(1) }; if (P("node", 0)) { AI in = scalar('o'); in.names = { s }; in.kids = { scalar('T') }; a.kids[0] = in; } } carry(a, f, hops, how, false);
    } else if (mode == 4) {
        int what = vf_choose(6, "what"); static const int ns[] = { 15, 16, 31, 32, 127, 128, 255, 256, 300, 700 }; int n = P("big", 0) ? 65534 + vf_choose(4, "size") : ns[vf_choose(10, "size")]; char ch = (char)vf_any<uint8_t>("char"); vf_assume((ch >= 97) & (ch < 123)); std::string s(n, 'm'); s[n - 1] = ch; s[n / 2] = '"'; AI a = scalar('o'); a.names = { "k" };
        if (P("big", 0) && what == 5) return;
        switch (what) { case 0: a.kids = { text(s) }; break; case 1: a.kids = { f == JSON ? text(s) : block(s) }; break; case 2: a.names[0] = s; a.kids = { integer(1) }; break; case 3: { AI l = scalar('a'); for (int i = 0; i < n; i++) l.kids.push_back(i == n / 2 ? integer((uint8_t)ch) : scalar('T')); a.kids = { l }; break; }
            case 4: { AI l = scalar('o'); for (int i = 0; i < n; i++) { l.names.push_back(i == n - 1 ? s.substr(n - 3) : ""); l.kids.push_back(scalar('0')); } a.kids = { l }; break; } case 5: { AI l = scalar('a'); for (int i = 0; i < n; i++) { l.kids.push_back(scalar(i % 2 ? 'o' : 'a')); if (i == n - 1) l.kids.back().kids.push_back(text(s)), l.kids.back().names.push_back("x"); } if (l.kids.back().t == 'a') l.kids.back().names.clear(); a.kids = { l }; break; } }
        carry(a, f, hops, how, false);
    }
}
