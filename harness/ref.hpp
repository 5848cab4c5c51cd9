// Independent reference implementations used as oracles.
#pragma once
#include "common.hpp"
#include <cstdlib>
// ---- strict RFC 8259 reader
struct JV { char t = 0; std::string s; std::vector<std::string> names; std::vector<JV> kids; };   // t: o a s n(number text) T F 0
struct JRead {
    const uint8_t* p; const uint8_t* e; bool lone = false; unsigned depth = 0;
    JRead(const uint8_t* d, size_t n) : p(d), e(d + n) { }
    void ws() { while (p != e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    bool lit(const char* w) { for (; *w; w++, p++) if (p == e || *p != (uint8_t)*w) return false; return true; }
    static int hex(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    bool u4(uint32_t& o) { o = 0; for (int i = 0; i < 4; i++) { if (p == e) return false; int h = hex(*p++); if (h < 0) return false; o = o * 16 + h; } return true; }
    static void utf8(uint32_t c, std::string& o) {
        if (c < 0x80) o.push_back((char)c);
        else if (c < 0x800) { o.push_back((char)(0xc0 | c >> 6)); o.push_back((char)(0x80 | (c & 63))); }
        else if (c < 0x10000) { o.push_back((char)(0xe0 | c >> 12)); o.push_back((char)(0x80 | (c >> 6 & 63))); o.push_back((char)(0x80 | (c & 63))); }
        else { o.push_back((char)(0xf0 | c >> 18)); o.push_back((char)(0x80 | (c >> 12 & 63))); o.push_back((char)(0x80 | (c >> 6 & 63))); o.push_back((char)(0x80 | (c & 63))); }
    }
    bool str(std::string& o) {
        if (p == e || *p != '"') return false;
        p++;
        while (true) {
            if (p == e) return false;
            uint8_t c = *p++;
            if (c == '"') return true;
            if (c < 0x20) return false;
            if (c != '\\') { o.push_back((char)c); continue; }
            if (p == e) return false;
            switch (*p++) {
            case '"': o.push_back('"'); break; case '\\': o.push_back('\\'); break; case '/': o.push_back('/'); break;
            case 'b': o.push_back('\b'); break; case 'f': o.push_back('\f'); break; case 'n': o.push_back('\n'); break; case 'r': o.push_back('\r'); break; case 't': o.push_back('\t'); break;
            case 'u': { uint32_t a, b; if (!u4(a)) return false;
                if (a >= 0xd800 && a < 0xdc00 && e - p >= 2 && p[0] == '\\' && p[1] == 'u') { const uint8_t* q = p; p += 2; if (!u4(b)) return false; if (b >= 0xdc00 && b < 0xe000) a = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00); else { p = q; lone = true; } }
                else if (a >= 0xd800 && a < 0xe000) lone = true;
                utf8(a, o); break; }
            default: return false;
            }
        }
    }
    static bool dig(uint8_t c) { return c >= '0' && c <= '9'; }
    bool num(std::string& o) {
        const uint8_t* q = p;
        if (p != e && *p == '-') p++;
        if (p == e || !dig(*p)) return false;
        if (*p == '0') p++; else while (p != e && dig(*p)) p++;
        if (p != e && *p == '.') { p++; if (p == e || !dig(*p)) return false; while (p != e && dig(*p)) p++; }
        if (p != e && (*p == 'e' || *p == 'E')) { p++; if (p != e && (*p == '+' || *p == '-')) p++; if (p == e || !dig(*p)) return false; while (p != e && dig(*p)) p++; }
        o.assign((const char*)q, p - q); return true;
    }
    bool val(JV& v) {
        ws(); if (p == e || depth > 300) return false;
        depth++;
        bool r = true;
        if (*p == '{') { p++; v.t = 'o'; ws(); if (p != e && *p == '}') p++; else while (true) { ws(); std::string n; if (!str(n)) return false; ws(); if (p == e || *p++ != ':') return false; v.names.push_back(n); v.kids.emplace_back(); if (!val(v.kids.back())) return false; ws(); if (p == e) return false; if (*p == ',') { p++; continue; } if (*p++ == '}') break; return false; } }
        else if (*p == '[') { p++; v.t = 'a'; ws(); if (p != e && *p == ']') p++; else while (true) { v.kids.emplace_back(); if (!val(v.kids.back())) return false; ws(); if (p == e) return false; if (*p == ',') { p++; continue; } if (*p++ == ']') break; return false; } }
        else if (*p == '"') { v.t = 's'; r = str(v.s); }
        else if (*p == 't') { v.t = 'T'; r = lit("true"); } else if (*p == 'f') { v.t = 'F'; r = lit("false"); } else if (*p == 'n') { v.t = '0'; r = lit("null"); }
        else { v.t = 'n'; r = num(v.s); }
        depth--; return r;
    }
    bool doc(JV& v) { if (!val(v)) return false; ws(); return p == e; }
};
// integer text -> value; false when it does not fit 64 bits
inline bool refInt(const std::string& s, bool& neg, uint64_t& mag) {
    size_t i = 0; neg = s.size() && s[0] == '-'; if (neg) i++;
    if (s.size() - i > 20 || i == s.size()) return false;
    mag = 0;
    bool big = s.size() - i == 20;
    for (; i < s.size(); i++) { uint64_t d = (uint8_t)(s[i] - '0'); if (big && i + 1 == s.size() && (mag > 1844674407370955161ull || (mag == 1844674407370955161ull && d > 5))) return false; mag = mag * 10 + d; }
    return !neg || mag <= 0x8000000000000000ull;
}
inline bool isIntText(const std::string& s) { for (char c : s) if (c == '.' || c == 'e' || c == 'E') return false; return true; }
// the number the library holds equals the number the text denotes
inline bool numEq(Srl::Value& v, const std::string& s) {
    bool neg; uint64_t mag;
    if (!Srl::TpTools::is_num(v.type())) return false;
    if (isIntText(s) && refInt(s, neg, mag)) {
        if (Srl::TpTools::is_fp(v.type())) return false;
        uint64_t x = v.pblock().ui64; bool sg = Srl::TpTools::is_signed(v.type());
        return neg ? (sg ? x == 0 - mag : mag == 0 && x == 0) : x == mag && (!sg || (int64_t)x >= 0);
    }
    return v.unwrap<double>() == strtod(s.c_str(), nullptr);
}
// a library node shows the content of a reference value
inline bool sameDoc(Srl::Node& n, const JV& j) {
    if ((n.type() == Srl::Type::Object) != (j.t == 'o')) return false;
    size_t vi = 0, ni = 0;
    for (size_t i = 0; i < j.kids.size(); i++) {
        const JV& k = j.kids[i];
        if (k.t == 'o' || k.t == 'a') {
            if (ni >= n.num_nodes()) return false;
            Srl::Node& c = n.node(ni++);
            if (j.t == 'o' && c.name().unwrap() != j.names[i]) return false;
            if (!sameDoc(c, k)) return false;
        } else {
            if (vi >= n.num_values()) return false;
            Srl::Value& v = n.value(vi++);
            if (j.t == 'o' && v.name().unwrap() != j.names[i]) return false;
            switch (k.t) {
            case 's': if (v.type() != Srl::Type::String || v.size() != k.s.size() || memcmp(v.data(), k.s.data(), k.s.size())) return false; break;
            case 'T': if (v.type() != Srl::Type::Bool || !v.unwrap<bool>()) return false; break;
            case 'F': if (v.type() != Srl::Type::Bool || v.unwrap<bool>()) return false; break;
            case '0': if (v.type() != Srl::Type::Null) return false; break;
            case 'n': if (!numEq(v, k.s)) return false; break;
            }
        }
    }
    return vi == n.num_values() && ni == n.num_nodes();
}
inline bool sameJ(const JV& a, const JV& b) {
    if (a.t != b.t || a.s != b.s || a.names != b.names || a.kids.size() != b.kids.size()) return false;
    for (size_t i = 0; i < a.kids.size(); i++) if (!sameJ(a.kids[i], b.kids[i])) return false;
    return true;
}
