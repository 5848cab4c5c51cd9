// C14: text <-> number conversion.
// what 0 arbitrary text to value; 1 long digit strings; 2 integer to text and back; 3 float to text and back;
// 4 text stored as a string restored into a number; 5 wide text; 6 literals in any letter case; 7 number texts of every length
#include "common.hpp"
#include "ref.hpp"
using namespace Srl;
typedef unsigned __int128 u128;
static bool space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
// [-]digits
static bool intText(const std::string& s) { size_t i = s.size() && s[0] == '-'; if (i == s.size()) return false; for (; i < s.size(); i++) if (!dig(s[i])) return false; return true; }
static bool fits(const std::string& s, bool& neg, uint64_t& mag) {
    u128 m = 0; neg = s[0] == '-';
    for (size_t i = neg; i < s.size(); i++) { m = m * 10 + (unsigned)(s[i] - '0'); if (m > (u128)~(uint64_t)0) return false; }
    mag = (uint64_t)m; return !neg || mag <= (uint64_t)1 << 63;
}
// [+-] digits [. digits] [e [+-] digits] with a digit somewhere in the mantissa
static bool decText(const std::string& s) {
    size_t i = 0, n = s.size(), d = 0; if (i < n && (s[i] == '-' || s[i] == '+')) i++;
    while (i < n && dig(s[i])) i++, d++;
    if (i < n && s[i] == '.') { i++; while (i < n && dig(s[i])) i++, d++; }
    if (!d) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '-' || s[i] == '+')) i++; size_t e = 0; while (i < n && dig(s[i])) i++, e++; if (!e) return false; }
    return i == n;
}
static double decVal(const std::string& s) { return strtod(s.c_str(), nullptr); }    // the C library defines the nearest double
static double fpOf(const Value& v) { return v.type() == Type::FP32 ? (double)v.pblock().fp32 : v.pblock().fp64; }
static bool literal(const std::string& s, int& kind) {
    static const char* L[3] = { "true", "false", "null" };
    for (int i = 0; i < 3; i++) if (s.size() == strlen(L[i]) && s.compare(1, s.size() - 1, L[i] + 1) == 0 && (s[0] == L[i][0] || s[0] == L[i][0] - 32)) { kind = i; return true; }
    return false;
}
// is `r` a correct reading of the text
static void judge(std::string s, const std::pair<bool, Value>& r, bool fp) {
    size_t a = 0, b = s.size(); while (a < b && space((uint8_t)s[a])) a++; while (b > a && space((uint8_t)s[b - 1])) b--;
    s = s.substr(a, b - a);
    if (s.empty()) { vf_check(!r.first, "blank text is refused"); vf_reach("refused"); return; }
    int k; bool neg; uint64_t mag; const Value& v = r.second; Type t = v.type();
    if (intText(s) && fits(s, neg, mag)) {
        vf_check(r.first, "an integer text is accepted");
        if (!fp) {
            vf_check(TpTools::is_num(t) && !TpTools::is_fp(t), "an integer text gives an integer");
            vf_check(neg ? TpTools::is_signed(t) && v.pblock().ui64 == 0 - mag : v.pblock().ui64 == mag && (!TpTools::is_signed(t) || v.pblock().i64 >= 0), "the integer the text denotes");
        } else { vf_check(TpTools::is_fp(t), "read as a floating point number"); vf_check(fpOf(v) == decVal(s), "the nearest double"); }
        vf_reach("integer"); return;
    }
    if (literal(s, k)) {
        bool up = s[0] < 'a';
        if (!r.first) { vf_check(up, "true, false and null are accepted"); return; }
        vf_check(k == 2 ? t == Type::Null : t == Type::Bool && (v.pblock().ui64 != 0) == (k == 0), "the literal value"); vf_reach("literal"); return;
    }
    if (decText(s)) {
        vf_check(r.first && TpTools::is_fp(t), "a decimal number gives a floating point number");
        vf_check(fpOf(v) == decVal(s), "the nearest double");
        vf_reach("decimal"); return;
    }
    if (r.first) { // only the other floating point notations of the C library are left: infinity, nan, hexadecimal
        vf_check(TpTools::is_fp(t), "other text is never an integer or a literal");
        char c = s[s.size() > 1 && (s[0] == '-' || s[0] == '+')]; bool hex = (c == '0'), word = (c | 32) == 'i' || (c | 32) == 'n';
        vf_check(hex || word, "other text is refused");
    } else vf_reach("refused");
}
template<class T> static void intOut(uint64_t base, unsigned w) {
    T x; if (w >= sizeof(T)) x = vf_any<T>("x"); else { uint16_t lo = vf_any<uint16_t>("lo"); x = (T)(base + lo); }
    Value v(x); std::vector<uint8_t> out; unsigned pre = (unsigned)P("pre", 0); out.resize(pre, 'x');
    size_t n = Tools::type_to_str(v, out); n = (size_t)vf_concrete(n);
    vf_check(n > 0 && n <= out.size(), "the announced length");
    Bytes8 cp(out.begin(), out.begin() + n); Buf b(cp); bool neg = cp[0] == '-';
    vf_check(neg == (std::is_signed<T>::value && (int64_t)x < 0), "the sign");
    vf_check(n > (size_t)neg && (cp[neg] != '0' || (n == 1 && !neg)), "no leading zero");
    uint64_t m = 0; for (size_t i = neg; i < n; i++) { vf_check(dig((char)cp[i]), "digits only"); m = m * 10 + (uint64_t)(cp[i] - '0'); }
    vf_check((neg ? 0 - m : m) == (std::is_signed<T>::value ? (uint64_t)(int64_t)x : (uint64_t)x), "the text of an integer");
    vf_check(Tools::type_to_str(v) == std::string(cp.begin(), cp.end()), "both formatting functions agree");
    auto r = Tools::str_to_type(b.p, b.n); vf_check(r.first, "formatted text is readable");
    T y = 0; vf_check(ok([&] { y = r.second.unwrap<T>(); }) && y == x, "formatting and reading gives the same integer");
    vf_reach("formatted");
}
template<class F, class U> static void fpOut(uint64_t base, unsigned hi) {
    U bits; uint8_t k = (uint8_t)vf_concrete(vf_any<uint8_t>("k")); bits = (U)(hi ? base + ((U)k << (sizeof(U) * 8 - 9)) : base + k);
    F x; memcpy(&x, &bits, sizeof x); if (!(x - x == 0)) return;
    std::string s = Tools::type_to_str(Value(x));
    vf_check(s.size() > 0 && s.size() <= 25, "the text has a sensible length");
    vf_check(intText(s) || decText(s), "the text is a plain decimal number");
    auto r = Tools::str_to_type((const uint8_t*)s.data(), s.size()); vf_check(r.first, "formatted text is readable");
    F y = 0; vf_check(ok([&] { y = r.second.unwrap<F>(); }) && y == x, "formatting and reading gives the same number");
    vf_reach("formatted");
}
template<class T> static void strTo(unsigned n, bool blk) {
    // the text around the limits of the type, as a stored string
    std::string s; const char* pre[] = { "", "-", "12", "3276", "-3276", "6553", "214748364", "429496729", "922337203685477580", "-922337203685477580", "1844674407370955161", "1.", "-12", "25", "t" };
    s = pre[P("pre", 0)]; { bool lng = s.size() > 11; for (unsigned i = 0; i < n; i++) { uint8_t c = vf_any<uint8_t>("c"); if (lng) { vf_assume(i == 0 || dig((char)c) || c == ' '); c = (uint8_t)vf_concrete(c); } s += (char)c; } }
    T r = (T)1; bool k;
    if (!blk) { Value v({ (const uint8_t*)s.data(), s.size() }, Encoding::UTF8); k = ok([&] { r = v.unwrap<T>(); }); }
    else { Tree t; t.root().insert("s", s); k = ok([&] { t.root().paste_field("s", r); }); }
    size_t a = 0, b = s.size(); while (a < b && space((uint8_t)s[a])) a++; while (b > a && space((uint8_t)s[b - 1])) b--;
    std::string q = s.substr(a, b - a); bool neg; uint64_t mag;
    if (intText(q) && fits(q, neg, mag)) {
        const bool sg = std::is_signed<T>::value;
        bool fit = (neg && mag ? sg && 0 - mag >= (uint64_t)(int64_t)std::numeric_limits<T>::min() : mag <= (uint64_t)std::numeric_limits<T>::max());
        vf_check(k == fit, "an integer text is accepted exactly when it fits");
        if (k) vf_check((sg ? (uint64_t)(int64_t)r : (uint64_t)r) == (neg ? 0 - mag : mag), "the integer the text denotes");
        vf_reach(k ? "accepted" : "refused"); return;
    }
    int l; if (q.size() && literal(q, l)) { if (k) vf_check(r == (l == 0 ? 1 : 0), "a literal restores as 0 or 1"); return; }
    if (decText(q)) { double w = decVal(q); if (k) { vf_check((w > (double)std::numeric_limits<T>::min() - 1 || w == (double)std::numeric_limits<T>::min()) && w < (double)std::numeric_limits<T>::max() + 1, "a number out of range is refused"); vf_check(r == (T)w, "the truncated number"); } return; }
    if (!k) vf_check(r == (T)1, "a refused text leaves the destination unchanged");
    vf_reach("refused");
}
extern "C" void harness() {
    unsigned n = (unsigned)P("n", 3); int hint = (int)P("hint", 0); uint64_t base = (uint64_t)P("base", 0);
    static const Type H[] = { Type::Null, Type::FP64, Type::FP32, Type::I32, Type::String };
    bool fp = TpTools::is_fp(H[hint]);
    switch (P("what", 0)) {
    case 0: { static const char* pre[] = { "", "1", "-", "0", "1.", "1e", "t", "f", "n", "-1.5e", " ", "0x", "tru", "fals", "nul", "+", ".", "inf", "1e-", "-0" };
        Bytes8 d = bytes(pre[P("pre", 0)]); for (unsigned i = 0; i < n; i++) { uint8_t c = vf_any<uint8_t>("c"); d.push_back(i < (unsigned)P("conc", 0) ? (uint8_t)vf_concrete(c) : c); }
        Buf b(d); auto r = P("wrap", 0) ? Tools::str_to_type(String({ b.p, b.n }, Encoding::UTF8), H[hint]) : Tools::str_to_type(b.p, b.n, H[hint]); judge(std::string(d.begin(), d.end()), r, fp); break; }
    case 1: { static const char* pat[] = { "1844674407370955????", "922337203685477????", "-922337203685477????", "999999999999999999??", "18446744073709551???", "????????????????", "-????????????????", "0000000000000000000000??", "184467440737095516???", "9??????????????????", "1?000000000000000000", "-1?000000000000000000" };
        std::string s = pat[P("pre", 0)]; Bytes8 d; unsigned f = 0; for (char c : s) { if (c == '?') { uint8_t x = vf_any<uint8_t>("d"); vf_assume(x < 10); d.push_back((uint8_t)('0' + (f++ < (unsigned)P("conc", 0) ? (uint8_t)vf_concrete(x) : x))); } else d.push_back((uint8_t)c); }
        Buf b(d); bool neg; uint64_t mag; std::string q(d.begin(), d.end());
        auto r = Tools::str_to_type(b.p, b.n, H[hint]); vf_check(r.first, "digits are accepted");
        if (fits(q, neg, mag)) { vf_check(!TpTools::is_fp(r.second.type()) && TpTools::is_num(r.second.type()), "an integer in range is read as an integer"); vf_check(r.second.pblock().ui64 == (neg ? 0 - mag : mag) && (neg ? TpTools::is_signed(r.second.type()) : !TpTools::is_signed(r.second.type()) || r.second.pblock().i64 >= 0), "the integer the text denotes"); vf_reach("integer"); }
        else { vf_check(TpTools::is_fp(r.second.type()), "an integer out of range is never read as an integer"); vf_reach("large"); }
        break; }
    case 2: switch (P("type", 0)) { case 0: intOut<int8_t>(0, 8); break; case 1: intOut<uint8_t>(0, 8); break; case 2: intOut<int16_t>(0, 8); break; case 3: intOut<uint16_t>(0, 8); break;
        case 4: intOut<int32_t>(base, 2); break; case 5: intOut<uint32_t>(base, 2); break; case 6: intOut<int64_t>(base, 2); break; case 7: intOut<uint64_t>(base, 2); break; } break;
    case 3: if (P("type", 0)) fpOut<float, uint32_t>(base, (unsigned)P("hi", 0)); else fpOut<double, uint64_t>(base, (unsigned)P("hi", 0)); break;
    case 4: switch (P("type", 0)) { case 0: strTo<int8_t>(n, P("tree", 0)); break; case 1: strTo<uint8_t>(n, P("tree", 0)); break; case 2: strTo<int16_t>(n, P("tree", 0)); break; case 3: strTo<uint16_t>(n, P("tree", 0)); break;
        case 4: strTo<int32_t>(n, P("tree", 0)); break; case 5: strTo<uint32_t>(n, P("tree", 0)); break; case 6: strTo<int64_t>(n, P("tree", 0)); break; case 7: strTo<uint64_t>(n, P("tree", 0)); break; } break;
    case 5: { std::u16string w; std::u32string u; std::string s; for (unsigned i = 0; i < n; i++) { uint8_t c = vf_any<uint8_t>("c"); vf_assume(c > 0 && c < 128); s += (char)c; w += (char16_t)c; u += (char32_t)c; }
        auto r = P("type", 0) ? Tools::str_to_type(String(u), H[hint]) : Tools::str_to_type(String(w), H[hint]); judge(s, r, fp); break; }
    case 6: { static const char* L[3] = { "true", "false", "null" }; std::string s(L[vf_choose(3, "l")]); for (size_t i = 0; i < s.size(); i++) if (vf_choose(2, "up")) s[i] = (char)(s[i] - 32);
        unsigned m = vf_choose(3, "pad"); if (m == 1) s = " \t" + s + "\n"; if (m == 2) s += 'x';
        auto r = Tools::str_to_type((const uint8_t*)s.data(), s.size(), H[hint]); judge(s, r, fp); vf_reach("literal"); break; }
    case 7: { unsigned len = (unsigned)base + vf_choose(n, "len"), k = vf_choose(8, "shape"); std::string z; if (len < 8) len = 8;
        uint8_t c = vf_any<uint8_t>("d"); vf_assume(c < 10); char d = (char)('0' + (uint8_t)vf_concrete(c));
        auto fill = [&](const char* a, char f, const std::string& e) { std::string r(a); while (r.size() + e.size() < len) r += f; return r + e; };
        switch (k) { case 0: z = fill("0.", '3', std::string(1, d)); break; case 1: z = fill("", '0', std::string("4") + d); break; case 2: z = fill("-", '0', std::string("7") + d); break; case 3: z = fill("1", '0', std::string(".") + d); break;
        case 4: z = fill("2.5e-", '0', std::string(1, d)); break; case 5: z = fill("-1.", '6', std::string("x") + d); break; case 6: z = fill("", ' ', std::string("6") + d); break; case 7: z = fill("3e", '0', std::string("1") + d) ; break; }
        if (P("tree", 0)) { Tree t; t.root().insert("s", z); double r = -3; bool num = k != 5; bool a = ok([&] { t.root().paste_field("s", r); }); vf_check(a == num, "a number text of any length is accepted"); if (num) { size_t q = z.find_first_not_of(' '); vf_check(r == decVal(z.substr(q)), "the nearest double"); } vf_reach("done"); break; }
        Bytes8 d8(z.begin(), z.end()); Buf b(d8); auto r = P("wrap", 0) ? Tools::str_to_type(String({ b.p, b.n }, Encoding::UTF8), H[hint]) : Tools::str_to_type(b.p, b.n, H[hint]); judge(z, r, fp); vf_reach("done"); break; }
    }
}
