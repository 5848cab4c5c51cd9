// C15: base64 and hex against independent coders.
// what 0 encode n bytes; 1 decode n-char base64 text; 2 destination sizes; 3 hex encode; 4 decode n-char hex text; 5 lengths; 6 text of a document restored as a block
#include "common.hpp"
using namespace Srl;
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const Bytes8& b) {
    std::string o; size_t i = 0;
    for (; i + 2 < b.size(); i += 3) { uint32_t v = (uint32_t)b[i] << 16 | (uint32_t)b[i + 1] << 8 | b[i + 2]; for (int s = 18; s >= 0; s -= 6) o += A64[v >> s & 63]; }
    if (b.size() - i == 1) { uint32_t v = (uint32_t)b[i] << 16; o += A64[v >> 18]; o += A64[v >> 12 & 63]; o += "=="; }
    if (b.size() - i == 2) { uint32_t v = (uint32_t)b[i] << 16 | (uint32_t)b[i + 1] << 8; o += A64[v >> 18]; o += A64[v >> 12 & 63]; o += A64[v >> 6 & 63]; o += '='; }
    return o;
}
static int val(uint8_t c) { int up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z'), d = (c >= '0') & (c <= '9'); int r = up * (c - 'A' + 1) + lo * (c - 'a' + 27) + d * (c - '0' + 53) + (c == '+') * 63 + (c == '/') * 64; return r - 1; }
// well formed with padding at the very end only
static bool dec(const Bytes8& t, Bytes8& o) {
    if (t.size() % 4) return false;
    size_t pad = 0; if (t.size()) { if (t[t.size() - 1] == '=') { pad = 1; if (t[t.size() - 2] == '=') pad = 2; } }
    size_t n = t.size() - pad; int bad = 0; for (size_t i = 0; i < n; i++) bad |= val(t[i]) < 0;
    if (bad) return false;
    uint32_t acc = 0; int bits = 0;
    for (size_t i = 0; i < n; i++) { acc = acc << 6 | (uint32_t)val(t[i]); bits += 6; if (bits >= 8) { bits -= 8; o.push_back((uint8_t)(acc >> bits)); } }
    return true;
}
static Bytes8 syms(unsigned n, const char* nm) { Bytes8 b(n); if (n) vf_sym(b.data(), n, nm); return b; }
static void roundtrip(const Bytes8& d) {
    Buf b(d); std::string want = enc(d);
    auto t = Tools::bytes_to_base64(b.p, b.n); vf_check(same(t, bytes(want)), "the base64 text");
    std::vector<uint8_t> out((size_t)P("room", 0), 'q'); size_t k = Tools::bytes_to_base64(b.p, b.n, out); vf_check(k == want.size() && out.size() >= k, "announced text size"); vf_check(k == 0 || memcmp(out.data(), want.data(), k) == 0, "the base64 text");
    for (size_t i = k; i < out.size(); i++) vf_check(out[i] == 'q', "nothing behind the text changes");
    Buf x(t); vf_check(Tools::get_base64_decoded_size((const char*)x.p, x.n) == d.size(), "announced block size");
    vf_check(same(Tools::base64_to_bytes((const char*)x.p, x.n), d), "decoding gives the block back");
    Bytes8 z(d.size()); Buf y(z); vf_check(Tools::base64_to_bytes(y.p, y.n, (const char*)x.p, x.n) == d.size() && (d.empty() || memcmp(y.p, d.data(), d.size()) == 0), "decoding in place gives the block back");
}
static void hexRound(const Bytes8& d) {
    Buf b(d); auto t = Tools::bytes_to_hex(b.p, b.n); vf_check(t.size() == 2 * d.size(), "two digits for every byte");
    for (size_t i = 0; i < t.size(); i++) { int v = i % 2 ? d[i / 2] & 15 : d[i / 2] >> 4; vf_check(t[i] == (v < 10 ? '0' + v : 'A' + v - 10), "the hex text"); }
    Buf x(t); vf_check(same(Tools::hex_to_bytes(x.p, x.n), d), "decoding gives the block back");
    for (size_t i = 0; i < t.size(); i++) x.p[i] = t[i] >= 'A' ? t[i] + 32 : t[i];
    Bytes8 z(d.size()); Buf y(z); Tools::hex_to_bytes(y.p, y.n, x.p, x.n); vf_check(d.empty() || memcmp(y.p, d.data(), d.size()) == 0, "lower case digits");
}
struct D1 { Bytes8 b; int calls = 0; std::string z; void srl_resolve(Context& c) { BitWrap w(b.data(), b.size(), [this](size_t n) { calls++; b.assign(n, 0x55); return b.data(); }); c("b", w)("z", z); } };
struct D2 { std::vector<uint16_t> b; std::string z; void srl_resolve(Context& c) { c("b", VecWrap<uint16_t>(b))("z", z); } };
struct D3 { Bytes b; std::string z; void srl_resolve(Context& c) { c("b", b)("z", z); } };
extern "C" void harness() {
    unsigned n = (unsigned)P("n", 3);
    switch (P("what", 0)) {
    case 0: roundtrip(syms(n, "b")); break;
    case 1: { Bytes8 t = syms(n, "t"); static const char* pre[] = { "", "QUJD", "QUI=", "QQ==" }; Bytes8 d = bytes(pre[P("pre", 0)]); put(d, t.data(), t.size()); if (P("post", 0)) { Bytes8 e = bytes("TWFu"); put(d, e.data(), 4); }
        Bytes8 w; bool v = dec(d, w); Buf b(d); size_t sz = 0; bool k0 = ok([&] { sz = Tools::get_base64_decoded_size((const char*)b.p, b.n); });
        vf_check(k0 == (d.size() % 4 == 0), "only texts of a multiple of four have a size");
        Bytes8 r; bool k = ok([&] { r = Tools::base64_to_bytes((const char*)b.p, b.n); }); vf_check(k == v, "exactly the well formed texts are decoded");
        if (k0) { Bytes8 z(sz); Buf y(z); size_t q = 0; bool k2 = ok([&] { q = Tools::base64_to_bytes(y.p, y.n, (const char*)b.p, b.n); }); vf_check(k2 == v && (!k2 || (q == w.size() && q == sz && (q == 0 || memcmp(y.p, w.data(), q) == 0))), "decoding in place agrees"); }
        if (k) { vf_check(same(r, w), "the decoded block"); vf_reach("decoded"); } else vf_reach("refused"); break; }
    case 2: { Bytes8 d = syms(n, "b"); std::string t = P("hex", 0) ? "" : enc(d); if (P("hex", 0)) { auto h = Tools::bytes_to_hex(d.data(), d.size()); t.assign(h.begin(), h.end()); }
        unsigned room = vf_choose(n + 4, "room"); Bytes8 z(room, 0xa7); Buf y(z); Buf x(bytes(t)); 
        bool k = ok([&] { if (P("hex", 0)) Tools::hex_to_bytes(y.p, y.n, x.p, x.n); else vf_check(Tools::base64_to_bytes(y.p, y.n, (const char*)x.p, x.n) == n, "announced block size"); });
        vf_check(k == (room >= n), "a destination is refused exactly when it is too small"); if (k) { vf_check(n == 0 || memcmp(y.p, d.data(), n) == 0, "decoded into the destination"); for (unsigned i = n; i < room; i++) vf_check(y.p[i] == 0xa7, "nothing behind the block changes"); } vf_reach("decoded"); break; }
    case 3: hexRound(syms(n, "b")); break;
    case 4: { Bytes8 d = syms(n, "t"); Buf b(d); Bytes8 r; int bad = n % 2; for (auto c : d) bad |= !(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
        bool k = ok([&] { r = Tools::hex_to_bytes(b.p, b.n); }); vf_check(k == !bad, "exactly the well formed texts are decoded");
        if (k) { vf_check(r.size() == n / 2, "decoded size"); auto v = [](int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (unsigned i = 0; i < n / 2; i++) vf_check(r[i] == v(d[2 * i]) * 16 + v(d[2 * i + 1]), "the decoded block"); vf_reach("decoded"); } else vf_reach("refused"); break; }
    case 5: { size_t len = (size_t)P("base", 0) + vf_choose(n, "len"); Bytes8 d(len); for (size_t i = 0; i < len; i++) d[i] = (uint8_t)(i * 37 + i / 7); for (size_t i = len > 2 ? len - 2 : 0; i < len; i++) vf_sym(&d[i], 1, "last"); roundtrip(d); hexRound(d); break; }
    case 6: { // {"b":"<text>","z":"end"}
        Bytes8 t = syms(n, "t"); for (auto c : t) vf_assume(((c >= 0x20) & (c < 0x7f)) & (c != '"') & (c != '\\')); Bytes8 d = bytes("{\"b\":\""); put(d, bytes(P("pre", 0) ? "QUJD" : "").data(), P("pre", 0) ? 4 : 0); put(d, t.data(), t.size()); Bytes8 e = bytes("\",\"z\":\"end\"}"); put(d, e.data(), e.size());
        Bytes8 full = bytes(P("pre", 0) ? "QUJD" : ""); put(full, t.data(), t.size()); Bytes8 w; bool v = dec(full, w); Buf b(d); PJson p; Tree q; bool k; Bytes8 got; std::string z;
        switch (P("dst", 0)) {
        case 0: { D1 o; k = ok([&] { q.restore(o, Lib::In::Source(b.p, b.n), p); }); got = o.b; z = o.z; vf_check(o.calls <= 1 && (!k || o.calls == 1), "the block is requested once"); break; }
        case 1: { D2 o; k = ok([&] { q.restore(o, Lib::In::Source(b.p, b.n), p); }); v = v && w.size() % 2 == 0; got.assign((uint8_t*)o.b.data(), (uint8_t*)o.b.data() + 2 * o.b.size()); z = o.z; break; }
        default: { D3 o; k = ok([&] { q.restore(o, Lib::In::Source(b.p, b.n), p); }); got = std::move(o.b).extract(); z = o.z; break; }
        }
        vf_check(k == v, "exactly the well formed texts are restored"); if (k) { vf_check(same(got, w) && z == "end", "the restored block"); vf_reach("decoded"); } else vf_reach("refused"); break; }
    }
    vf_reach("done");
}
