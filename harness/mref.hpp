// Independent MessagePack decoder (maps with text keys, arrays, str, bin, int, float, bool, nil).
#pragma once
#include "common.hpp"
struct MV { char t = 0; bool neg = false; uint64_t u = 0; bool dbl = false; std::string s; std::vector<std::string> names; std::vector<MV> kids; };   // t: m a s b i f T F 0; i: value u (two's complement when neg); f: bits
struct MRead {
    const uint8_t* p; const uint8_t* e; unsigned depth = 0;
    MRead(const uint8_t* d, size_t n) : p(d), e(d + n) { }
    bool be(unsigned k, uint64_t& o) { if ((size_t)(e - p) < k) return false; o = 0; for (unsigned i = 0; i < k; i++) o = o << 8 | *p++; return true; }
    bool raw(uint64_t n, std::string& o) { if (n > (uint64_t)(e - p)) return false; o.assign((const char*)p, n); p += n; return true; }
    bool list(uint64_t n, MV& v) { v.t = 'a'; if (n > (uint64_t)(e - p)) return false; v.kids.reserve(n); for (uint64_t i = 0; i < n; i++) { v.kids.emplace_back(); if (!val(v.kids.back())) return false; } return true; }
    bool map(uint64_t n, MV& v) { v.t = 'm'; if (n * 2 > (uint64_t)(e - p)) return false; for (uint64_t i = 0; i < n; i++) { MV k; if (!val(k) || k.t != 's') return false; v.names.push_back(k.s); v.kids.emplace_back(); if (!val(v.kids.back())) return false; } return true; }
    bool sint(unsigned k, MV& v) { uint64_t x; if (!be(k, x)) return false; v.t = 'i'; bool n = x >> (8 * k - 1) & 1; v.neg = n; if (n && k < 8) x |= ~0ull << (8 * k); v.u = x; return true; }
    bool val(MV& v) {
        if (p == e || depth > 100) return false;
        depth++;
        uint8_t c = *p++; uint64_t n; bool r;
        if (c < 0x80) { v.t = 'i'; v.u = c; r = true; }
        else if (c < 0x90) r = map(c & 15, v);
        else if (c < 0xa0) r = list(c & 15, v);
        else if (c < 0xc0) { v.t = 's'; r = raw(c & 31, v.s); }
        else if (c >= 0xe0) { v.t = 'i'; v.neg = true; v.u = 0 - (uint64_t)(256 - c); r = true; }
        else switch (c) {
        case 0xc0: v.t = '0'; r = true; break; case 0xc2: v.t = 'F'; r = true; break; case 0xc3: v.t = 'T'; r = true; break;
        case 0xc4: v.t = 'b'; r = be(1, n) && raw(n, v.s); break; case 0xc5: v.t = 'b'; r = be(2, n) && raw(n, v.s); break; case 0xc6: v.t = 'b'; r = be(4, n) && raw(n, v.s); break;
        case 0xca: v.t = 'f'; r = be(4, v.u); break; case 0xcb: v.t = 'f'; v.dbl = true; r = be(8, v.u); break;
        case 0xcc: v.t = 'i'; r = be(1, v.u); break; case 0xcd: v.t = 'i'; r = be(2, v.u); break; case 0xce: v.t = 'i'; r = be(4, v.u); break; case 0xcf: v.t = 'i'; r = be(8, v.u); break;
        case 0xd0: r = sint(1, v); break; case 0xd1: r = sint(2, v); break; case 0xd2: r = sint(4, v); break; case 0xd3: r = sint(8, v); break;
        case 0xd9: v.t = 's'; r = be(1, n) && raw(n, v.s); break; case 0xda: v.t = 's'; r = be(2, n) && raw(n, v.s); break; case 0xdb: v.t = 's'; r = be(4, n) && raw(n, v.s); break;
        case 0xdc: r = be(2, n) && list(n, v); break; case 0xdd: r = be(4, n) && list(n, v); break; case 0xde: r = be(2, n) && map(n, v); break; case 0xdf: r = be(4, n) && map(n, v); break;
        default: r = false;                                             // extension types and the reserved code are outside the property
        }
        depth--; return r;
    }
    bool doc(MV& v) { return val(v) && p == e && (v.t == 'm' || v.t == 'a'); }
};
inline bool sameMV(Srl::Node& n, const MV& j) {
    if ((n.type() == Srl::Type::Object) != (j.t == 'm')) return false;
    size_t vi = 0, ni = 0; std::vector<Srl::Value*> vs; std::vector<Srl::Node*> ns;
    n.foreach_value([&](Srl::Value& v) { vs.push_back(&v); }); n.foreach_node([&](Srl::Node& c) { ns.push_back(&c); });
    if (vs.size() != n.num_values() || ns.size() != n.num_nodes()) return false;
    for (size_t i = 0; i < j.kids.size(); i++) {
        const MV& k = j.kids[i];
        if (k.t == 'm' || k.t == 'a') {
            if (ni >= ns.size()) return false;
            Srl::Node& c = *ns[ni++];
            if (j.t == 'm' && c.name().unwrap() != j.names[i]) return false;
            if (!sameMV(c, k)) return false;
        } else {
            if (vi >= vs.size()) return false;
            Srl::Value& v = *vs[vi++];
            if (j.t == 'm' && v.name().unwrap() != j.names[i]) return false;
            switch (k.t) {
            case 's': case 'b': if (v.type() != (k.t == 's' ? Srl::Type::String : Srl::Type::Binary) || v.size() != k.s.size() || memcmp(v.data(), k.s.data(), k.s.size())) return false; break;
            case 'T': case 'F': if (v.type() != Srl::Type::Bool || (v.pblock().ui64 != 0) != (k.t == 'T')) return false; break;
            case '0': if (v.type() != Srl::Type::Null) return false; break;
            case 'i': { if (!Srl::TpTools::is_num(v.type()) || Srl::TpTools::is_fp(v.type())) return false; bool sg = Srl::TpTools::is_signed(v.type()); uint64_t x = v.pblock().ui64; if (x != k.u || (k.neg ? !sg : sg && (int64_t)x < 0)) return false; break; }
            case 'f': { double want, got; float w32; uint32_t b32 = (uint32_t)k.u; if (k.dbl) memcpy(&want, &k.u, 8); else { memcpy(&w32, &b32, 4); want = w32; }
                if (v.type() == Srl::Type::FP64) got = v.pblock().fp64; else if (v.type() == Srl::Type::FP32) got = v.pblock().fp32; else return false;
                if (!(got == want || (got != got && want != want))) return false; break; }
            default: return false;
            }
        }
    }
    return vi == n.num_values() && ni == n.num_nodes();
}
