// Bit-vector / floating-point expression DAG: hash-consing, simplification, concrete evaluation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

enum K : u8 {
    CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, TABLE,
    FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FRND, FOEQ, FOLT, FOLE, FUNO,
    FTOSI, FTOUI, SITOF, UITOF, FCVT
};

struct VarSet { std::vector<u32> v; u32 id; };

struct Table { std::vector<u64> e; u32 w; u32 id; };

struct Expr {
    K k; u8 nops; uint16_t w; u32 id;
    u32 hash; u32 aux;            // aux: sym index / extract offset / rounding mode
    Expr *a, *b, *c;
    Expr* next;
    u128 val;                     // constant value
    Table* tab;
    VarSet* vars;
    u64 ev_epoch; u128 ev_val;    // evaluation memo
    u64 lo, hi;                   // sound unsigned interval (widths <= 64)
    u64 p_epoch; u128 plo, phi;   // path-sensitive interval memo
    void* z;                      // z3 bit-vector ast (bools as 1-bit bv are kept in zb)
    void* zb;
    void* zf;                     // z3 float ast
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (s128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (s128)((v ^ m) - m);
}
static inline double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static inline float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

// x86-64 style conversion: out of range gives the "indefinite" value
static inline u128 f2si(double d, unsigned w) {
    unsigned cw = w <= 32 ? 32 : 64;
    if (w > 64) throw Unsupported("fptosi > 64");
    s64 r;
    if (cw == 32) r = (d > -2147483649.0 && d < 2147483648.0) ? (s64)(int)d : (s64)INT32_MIN;
    else r = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (s64)d : INT64_MIN;
    return (u128)(u64)r & maskw(w);
}
static inline u128 f2ui(double d, unsigned w) {
    if (w > 64) throw Unsupported("fptoui > 64");
    if (w <= 32) return f2si(d, 64) & maskw(w);
    if (d >= 9223372036854775808.0) return ((u64)f2si(d - 9223372036854775808.0, 64)) ^ (u64)INT64_MIN;
    return f2si(d, 64);
}
static inline double rnd(double d, u32 m) {
    switch (m) { case 0: return floor(d); case 1: return ceil(d); case 2: return trunc(d); case 3: return round(d); default: return nearbyint(d); }
}

static u128 evalOp(K k, unsigned w, u128 a, u128 b, u128 c, unsigned wa, unsigned wb, u32 aux, Table* t) {
    u128 m = maskw(w);
    switch (k) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m;
    case UREM: return b ? (a % b) & m : a;
    case SDIV: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case SREM: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case ASHR: { s128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sextw(a, wa) < sextw(b, wa);
    case SLE: return sextw(a, wa) <= sextw(b, wa);
    case ITE: return a ? b : c;
    case CONCAT: return (a << wb) | b;
    case EXTRACT: return (a >> aux) & m;
    case ZEXT: return a;
    case SEXT: return (u128)sextw(a, wa) & m;
    case TABLE: return a < t->e.size() ? t->e[(size_t)a] : 0;
    case FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case FREM: return w == 64 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
    case FSQRT: return w == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
    case FRND: return w == 64 ? fromD(rnd(asD(a), aux)) : fromF((float)rnd(asF(a), aux));
    case FOEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case FOLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case FOLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case FUNO: return wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case FTOSI: return f2si(wa == 64 ? asD(a) : (double)asF(a), w);
    case FTOUI: return f2ui(wa == 64 ? asD(a) : (double)asF(a), w);
    case SITOF: { s64 x = (s64)sextw(a, wa); return w == 64 ? fromD((double)x) : fromF((float)x); }
    case UITOF: { u64 x = (u64)a; return w == 64 ? fromD((double)x) : fromF((float)x); }
    case FCVT: if (wa == w) return a; return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
    default: throw Unsupported("evalOp");
    }
}

struct Exprs {
    std::vector<Expr*> buckets;
    u32 count = 0;
    std::unordered_map<u64, VarSet*> unionCache;
    std::map<std::vector<u32>, VarSet*> setIntern;
    std::map<std::vector<u64>, Table*> tabIntern;
    VarSet* emptySet;
    std::vector<VarSet*> single;
    std::vector<Expr*> syms;
    Expr *T, *F;
    char* arena = nullptr; size_t arenaLeft = 0;

    Exprs() : buckets(1 << 16) {
        emptySet = internSet({});
        F = constant(0, 1); T = constant(1, 1);
    }
    VarSet* internSet(const std::vector<u32>& v) {
        auto it = setIntern.find(v);
        if (it != setIntern.end()) return it->second;
        auto* s = new VarSet{v, (u32)setIntern.size()};
        setIntern[v] = s;
        return s;
    }
    VarSet* unite(VarSet* x, VarSet* y) {
        if (!y || x == y || y->v.empty()) return x;
        if (x->v.empty()) return y;
        u64 key = x->id < y->id ? ((u64)x->id << 32 | y->id) : ((u64)y->id << 32 | x->id);
        auto& r = unionCache[key];
        if (!r) {
            std::vector<u32> o;
            std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(o));
            r = internSet(o);
        }
        return r;
    }
    Expr* alloc() {
        if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 4096; arena = (char*)aligned_alloc(16, arenaLeft); }
        auto* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
        memset((void*)e, 0, sizeof(Expr));
        return e;
    }
    void grow() {
        std::vector<Expr*> nb(buckets.size() * 4);
        for (auto* h : buckets) while (h) { auto* n = h->next; auto& s = nb[h->hash & (nb.size() - 1)]; h->next = s; s = h; h = n; }
        buckets.swap(nb);
    }
    Expr* intern(K k, unsigned w, Expr* a, Expr* b, Expr* c, u32 aux, u128 val, Table* tab) {
        u64 h = (u64)k * 0x9E3779B97F4A7C15ull + w;
        auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(aux); mix((u64)val); mix((u64)(val >> 64)); mix((u64)tab);
        u32 hh = (u32)h;
        for (auto* e = buckets[hh & (buckets.size() - 1)]; e; e = e->next)
            if (e->hash == hh && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->aux == aux && e->val == val && e->tab == tab) return e;
        if (count > buckets.size()) grow();
        auto* e = alloc();
        e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->aux = aux; e->val = val; e->tab = tab; e->hash = hh; e->id = count++;
        e->nops = c ? 3 : b ? 2 : a ? 1 : 0;
        if (k == SYM) e->vars = single[aux];
        else if (!a) e->vars = emptySet;
        else { auto* s = a->vars; if (b) s = unite(s, b->vars); if (c) s = unite(s, c->vars); e->vars = s; }
        interval(e);
        auto& s = buckets[hh & (buckets.size() - 1)]; e->next = s; s = e;
        return e;
    }
    void interval(Expr* e) {
        if (e->w > 64) { e->lo = 0; e->hi = ~0ull; return; }
        u128 l, h; range(e, l, h, 2);
        e->lo = (u64)l; e->hi = (u64)h;
    }
    Expr* constant(u128 v, unsigned w) { return intern(CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w), nullptr); }
    Expr* sym(u32 idx) {
        while (single.size() <= idx) single.push_back(internSet({(u32)single.size()}));
        return intern(SYM, 8, nullptr, nullptr, nullptr, idx, 0, nullptr);
    }
    Table* table(const std::vector<u64>& e, u32 w) {
        auto key = e; key.push_back(w);
        auto& t = tabIntern[key];
        if (!t) t = new Table{e, w, (u32)tabIntern.size()};
        return t;
    }
    static bool isC(Expr* e) { return e->k == CONST; }
    static bool isC(Expr* e, u128 v) { return e->k == CONST && e->val == v; }
    Expr* raw(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0, Table* t = nullptr) {
        if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
            return constant(evalOp(k, w, a->val, b ? b->val : 0, c ? c->val : 0, a->w, b ? b->w : 0, aux, t), w);
        if (k >= FADD) { Expr* r = fpSimp(k, w, a, b); if (r) return r; }
        return intern(k, w, a, b, c, aux, 0, t);
    }
    // integer-valued floating point: an exact conversion behaves like the integer it came from
    Expr* exactInt(Expr* e, bool& sg) {
        if (e->k != SITOF && e->k != UITOF) return nullptr;
        unsigned m = e->w == 64 ? 53 : 24;
        Expr* x = e->a; sg = e->k == SITOF;
        if (x->w <= m) return x;
        if (x->k == SEXT && sg && x->a->w <= m) return x;
        if (x->w <= 64 && x->hi <= maskw(m) && (!sg || !(x->hi >> (x->w - 1)))) return x;
        return nullptr;
    }
    Expr* fpSimp(K k, unsigned w, Expr* a, Expr* b) {
        bool sa, sb;
        switch (k) {
        case FRND: if (a->k == SITOF || a->k == UITOF) return a; return nullptr;
        case FTOSI: case FTOUI: { Expr* x = exactInt(a, sa); if (!x) return nullptr;
            if (k == FTOUI && sa && !(x->w <= 64 && !(x->hi >> (x->w - 1)))) return nullptr;
            if (w > x->w) return sa ? sext(x, w) : zext(x, w);
            if (w == x->w && (sa || (x->w <= 64 && !(x->hi >> (x->w - 1))))) return x;
            if (w < x->w && x->k == SEXT && x->a->w <= w) return sext(x->a, w);
            return nullptr; }
        case FCVT: { Expr* x = exactInt(a, sa); if (!x) return nullptr; Expr* r = intern(sa ? SITOF : UITOF, w, x, nullptr, nullptr, 0, 0, nullptr); bool s2; return exactInt(r, s2) ? r : nullptr; }
        case FUNO: { bool fa = a->k == SITOF || a->k == UITOF || (isC(a) && !evalOp(FUNO, 1, a->val, a->val, 0, a->w, a->w, 0, nullptr));
            bool fb = b->k == SITOF || b->k == UITOF || (isC(b) && !evalOp(FUNO, 1, b->val, b->val, 0, b->w, b->w, 0, nullptr)); return fa && fb ? F : nullptr; }
        case FOEQ: case FOLT: case FOLE: {
            if (a == b && (a->k == SITOF || a->k == UITOF)) return k == FOLT ? F : T;
            Expr *x = exactInt(a, sa), *y = exactInt(b, sb);
            if (x && y && sa == sb && x->w == y->w) return k == FOEQ ? eq(x, y) : cmp(sa ? (k == FOLT ? SLT : SLE) : (k == FOLT ? ULT : ULE), x, y);
            Expr* z = x ? x : y; bool sz = x ? sa : sb; Expr* c = x ? b : a;
            if (!z || !isC(c) || z->w > 64) return nullptr;
            double d = c->w == 64 ? asD(c->val) : (double)asF(c->val);
            if (std::isnan(d)) return F;
            s128 mn = sz ? -((s128)1 << (z->w - 1)) : 0, mx = sz ? ((s128)1 << (z->w - 1)) - 1 : (s128)maskw(z->w);
            double up = (k == FOEQ || (x && k == FOLT) || (!x && k == FOLE)) ? ceil(d) : floor(d);
            if (k == FOEQ) { if (up != d || d < -1e30 || d > 1e30) return F; s128 v = (s128)d; return v < mn || v > mx ? F : eq(constant((u128)v, z->w), z); }
            bool over = up > 1e30 || (up > -1e30 && (s128)up > mx), under = up < -1e30 || (up < 1e30 && (s128)up < mn);
            if (x) { if (over) return T; if (under) return F; } else { if (over) return F; if (under) return T; }
            Expr* v = constant((u128)(s128)up, z->w); K q = sz ? (k == FOLT ? SLT : SLE) : (k == FOLT ? ULT : ULE);
            return x ? cmp(q, z, v) : cmp(q, v, z); }
        default: return nullptr;
        }
    }

    // ---- simplifying constructors ----
    Expr* zext(Expr* a, unsigned w) {
        if (a->w == w) return a;
        if (a->k == CONST) return constant(a->val, w);
        if (a->k == ZEXT) return zext(a->a, w);
        if (w <= 64) {
            if (a->k == EXTRACT && a->aux == 0 && a->a->w <= 64 && a->a->hi <= maskw(a->w)) return a->a->w == w ? a->a : a->a->w < w ? zext(a->a, w) : extract(a->a, 0, w);
            if (a->k == ADD && isC(a->b) && a->a->k == EXTRACT) {
                u128 c = a->b->val, m = maskw(a->w);
                if ((u128)a->a->hi + c <= m) return bin(ADD, zext(a->a, w), constant(c, w));
                if ((u128)a->a->lo + c > m) return bin(ADD, zext(a->a, w), constant(c - m - 1, w));
            }
        }
        return raw(ZEXT, w, a);
    }
    Expr* sext(Expr* a, unsigned w) {
        if (a->w == w) return a;
        if (a->k == ZEXT) return zext(a->a, w);
        if (a->k == SEXT) return sext(a->a, w);
        if (a->w <= 64 && !(a->hi >> (a->w - 1))) return zext(a, w);
        return raw(SEXT, w, a);
    }
    Expr* extract(Expr* a, unsigned off, unsigned w) {
        if (off == 0 && a->w == w) return a;
        switch (a->k) {
        case CONST: return constant(a->val >> off, w);
        case EXTRACT: return extract(a->a, a->aux + off, w);
        case CONCAT:
            if (off >= a->b->w) return extract(a->a, off - a->b->w, w);
            if (off + w <= a->b->w) return extract(a->b, off, w);
            return concat(extract(a->a, 0, off + w - a->b->w), extract(a->b, off, a->b->w - off));
        case ZEXT:
            if (off >= a->a->w) return constant(0, w);
            if (off + w <= a->a->w) return extract(a->a, off, w);
            return zext(extract(a->a, off, a->a->w - off), w);
        case SEXT:
            if (off + w <= a->a->w) return extract(a->a, off, w);
            if (off == 0 && w >= a->a->w) return sext(a->a, w);
            break;
        case AND: case OR: case XOR:
            if (isC(a->b) || off == 0) return bin(a->k, extract(a->a, off, w), extract(a->b, off, w));
            break;
        case ADD: case SUB: case MUL:
            if (off == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
            break;
        case ITE:
            if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
            break;
        default: break;
        }
        return raw(EXTRACT, w, a, nullptr, nullptr, off);
    }
    Expr* concat(Expr* a, Expr* b) { // a high, b low
        unsigned w = a->w + b->w;
        if (isC(a) && isC(b)) return constant((a->val << b->w) | b->val, w);
        if (isC(a, 0)) return zext(b, w);
        if (a->k == EXTRACT && b->k == EXTRACT && a->a == b->a && a->aux == b->aux + b->w) return extract(a->a, b->aux, w);
        if (a->k == EXTRACT && a->a == b && a->aux == b->w) return extract(b, 0, w);
        // concat(concat(x, ext), ext)
        if (a->k == CONCAT && b->k == EXTRACT && a->b->k == EXTRACT && a->b->a == b->a && a->b->aux == b->aux + b->w)
            return concat(a->a, extract(b->a, b->aux, a->b->w + b->w));
        if (a->k == CONCAT && isC(a->b) && isC(b)) return concat(a->a, constant((a->b->val << b->w) | b->val, a->b->w + b->w));
        if (a->k == ZEXT) return zext(concat(a->a, b), w);
        return raw(CONCAT, w, a, b);
    }
    // number of known-zero high bits / low bits
    unsigned lz(Expr* e) {
        switch (e->k) {
        case CONST: { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->val >> i) & 1); i--) n++; return n; }
        case ZEXT: return e->w - e->a->w + lz(e->a);
        case CONCAT: return lz(e->a) == e->a->w ? e->a->w + lz(e->b) : lz(e->a);
        case AND: return std::max(lz(e->a), lz(e->b));
        case ITE: return std::min(lz(e->b), lz(e->c));
        case UREM: return std::max(lz(e->b), lz(e->a));
        case UDIV: return lz(e->a);
        default: return 0;
        }
    }
    unsigned tz(Expr* e) {
        switch (e->k) {
        case CONST: { unsigned n = 0; while (n < e->w && !((e->val >> n) & 1)) n++; return n; }
        case ZEXT: { unsigned t = tz(e->a); return t == e->a->w ? e->w : t; }
        case CONCAT: { unsigned t = tz(e->b); return t == e->b->w ? t + tz(e->a) : t; }
        default: return 0;
        }
    }
    Expr* ite(Expr* c, Expr* x, Expr* y) {
        if (isC(c)) return c->val ? x : y;
        if (x == y) return x;
        if (x->w == 1) {
            if (isC(x) && isC(y)) return x->val ? c : lnot(c);
            if (isC(x)) return x->val ? bin(OR, c, y) : bin(AND, lnot(c), y);
            if (isC(y)) return y->val ? bin(OR, lnot(c), x) : bin(AND, c, x);
        }
        if (c->k == EQ && isC(c->a, 0) && c->b->w == 1) return ite(c->b, y, x);
        if (x->k == ITE && x->a == c) return ite(c, x->b, y);
        if (y->k == ITE && y->a == c) return ite(c, x, y->c);
        return raw(ITE, x->w, c, x, y);
    }
    Expr* lnot(Expr* e) {
        if (isC(e)) return e->val ? F : T;
        if (e->k == EQ && isC(e->a, 0) && e->b->w == 1) return e->b;
        if (e->k == ULT) return cmp(ULE, e->b, e->a);
        if (e->k == ULE) return cmp(ULT, e->b, e->a);
        if (e->k == SLT) return cmp(SLE, e->b, e->a);
        if (e->k == SLE) return cmp(SLT, e->b, e->a);
        return raw(EQ, 1, F, e);
    }
    Expr* eq(Expr* a, Expr* b) {
        if (a == b) return T;
        if (isC(b)) std::swap(a, b);
        if (isC(a) && isC(b)) return a->val == b->val ? T : F;
        if (a->w == 1 && isC(a)) return a->val ? b : lnot(b);
        if (isC(a)) {
            unsigned w = a->w;
            switch (b->k) {
            case ZEXT: if (a->val >> b->a->w) return F; return eq(constant(a->val, b->a->w), b->a);
            case SEXT: { auto lo = constant(a->val, b->a->w); if (((u128)sextw(lo->val, lo->w) & maskw(w)) != a->val) return F; return eq(lo, b->a); }
            case CONCAT: return bin(AND, eq(constant(a->val >> b->b->w, b->a->w), b->a), eq(constant(a->val, b->b->w), b->b));
            case ADD: if (isC(b->b)) return eq(constant(a->val - b->b->val, w), b->a); break;
            case SUB: if (isC(b->a)) return eq(constant(b->a->val - a->val, w), b->b); break;
            case XOR: if (isC(b->b)) return eq(constant(a->val ^ b->b->val, w), b->a); break;
            case UDIV: if (a->val == 0 && isC(b->b) && b->b->val) return cmp(ULT, b->a, b->b); break;
            case ITE:
                if (isC(b->b) || isC(b->c)) return ite(b->a, eq(a, b->b), eq(a, b->c));
                break;
            case AND: if (isC(b->b)) { if (a->val & ~b->b->val) return F; } break;
            default: break;
            }
            if (w <= 64 && (a->val < b->lo || a->val > b->hi)) return F;
        } else {
            if (a->w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F;
            if (a->k == UREM && a->a == b && isC(a->b) && a->b->val) return cmp(ULT, b, a->b);
            if (b->k == UREM && b->a == a && isC(b->b) && b->b->val) return cmp(ULT, a, b->b);
            if (a->k == SUB && isC(a->a, 0)) { if (b->k == SUB && isC(b->a, 0)) return eq(a->b, b->b); if (a->b->k == UREM) return eq(a->b, bin(SUB, a->a, b)); }
            if (b->k == SUB && isC(b->a, 0) && b->b->k == UREM) return eq(b->b, bin(SUB, b->a, a));
            if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
            if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
            if (a->k == CONCAT && b->k == CONCAT && a->a->w == b->a->w) return bin(AND, eq(a->a, b->a), eq(a->b, b->b));
            if (a->id > b->id) std::swap(a, b);
        }
        return raw(EQ, 1, a, b);
    }
    Expr* cmp(K k, Expr* a, Expr* b) {
        if (a == b) return (k == ULE || k == SLE) ? T : F;
        if (isC(a) && isC(b)) return evalOp(k, 1, a->val, b->val, 0, a->w, b->w, 0, nullptr) ? T : F;
        unsigned w = a->w;
        if (k == SLT || k == SLE) {
            if (lz(a) && lz(b)) return cmp(k == SLT ? ULT : ULE, a, b);
            if (w <= 64 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return cmp(k == SLT ? ULT : ULE, a, b);
            if (a->k == SEXT && isC(b)) { s128 v = sextw(b->val, w); unsigned n = a->a->w; s128 mx = ((s128)1 << (n - 1)) - 1, mn = -((s128)1 << (n - 1));
                if (v > mx) return T; if (v < mn) return F; return cmp(k, a->a, constant((u128)v, n)); }
            if (b->k == SEXT && isC(a)) { s128 v = sextw(a->val, w); unsigned n = b->a->w; s128 mx = ((s128)1 << (n - 1)) - 1, mn = -((s128)1 << (n - 1));
                if (v > mx) return F; if (v < mn) return T; return cmp(k, constant((u128)v, n), b->a); }
            if (lz(a) && isC(b) && (b->val >> (w - 1)) & 1) return F;
            if (lz(b) && isC(a) && (a->val >> (w - 1)) & 1) return T;
            return raw(k, 1, a, b);
        }
        if (w <= 64) {
            if (k == ULT ? a->hi < b->lo : a->hi <= b->lo) return T;
            if (k == ULT ? a->lo >= b->hi : a->lo > b->hi) return F;
        }
        if (k == ULT && isC(b, 0)) return F;
        if (k == ULE && isC(a, 0)) return T;
        if (w <= 64) {                               // quotients against constants
            if (a->k == UDIV && isC(a->b) && a->b->val && isC(b)) { u128 t = (b->val + (k == ULE ? 1 : 0)) * a->b->val; return t > maskw(w) ? T : cmp(ULT, a->a, constant(t, w)); }
            if (b->k == UDIV && isC(b->b) && b->b->val && isC(a)) { u128 t = (a->val + (k == ULT ? 1 : 0)) * b->b->val; return t > maskw(w) ? F : cmp(ULE, constant(t, w), b->a); }
        }
        if (k == ULT && isC(b, 1)) return eq(a, constant(0, w));
        if (k == ULE && isC(b, 0)) return eq(a, b);
        if (isC(b) && b->val == maskw(w)) { if (k == ULE) return T; }
        unsigned la = lz(a), lb = lz(b);
        if (isC(b) && la) { u128 mx = maskw(w - la); if (k == ULT ? mx < b->val : mx <= b->val) return T; }
        if (isC(a) && lb) { u128 mx = maskw(w - lb); if (k == ULT ? a->val >= mx : a->val > mx) return F; }
        unsigned l = std::min(la, lb);
        if (l && l < w) {
            unsigned n = w - l;
            if ((a->k == ZEXT || isC(a)) && (b->k == ZEXT || isC(b))) {
                return cmp(k, extract(a, 0, n), extract(b, 0, n));
            }
        }
        return raw(k, 1, a, b);
    }
    Expr* bin(K k, Expr* a, Expr* b) {
        unsigned w = a->w;
        if (isC(a) && isC(b)) return raw(k, w, a, b);
        switch (k) {
        case ADD: case MUL: case AND: case OR: case XOR: if (isC(a)) std::swap(a, b); break;
        default: break;
        }
        switch (k) {
        case ADD:
            if (isC(b, 0)) return a;
            if (w <= 64 && !isC(b)) { Expr* r = digits(a, b); if (!r) r = digits(b, a); if (r) return r; }
            if (isC(b) && a->k == ADD && isC(a->b)) return bin(ADD, a->a, constant(a->b->val + b->val, w));
            if (isC(b) && a->k == SUB && isC(a->a)) return bin(SUB, constant(a->a->val + b->val, w), a->b);
            if (!isC(b) && a->k == ADD && isC(a->b)) return bin(ADD, bin(ADD, a->a, b), a->b);
            if (!isC(b) && b->k == ADD && isC(b->b)) return bin(ADD, bin(ADD, a, b->a), b->b);
            if (w == 1) return bin(XOR, a, b);
            if (!isC(b) || true) { auto* o = disjointOr(a, b); if (o) return o; }
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case SUB:
            if (isC(b)) return bin(ADD, a, constant(-b->val, w));
            if (a == b) return constant(0, w);
            if (w == 1) return bin(XOR, a, b);
            if (a->k == ADD && isC(a->b)) {
                if (a->a == b) return a->b;
                return bin(ADD, bin(SUB, a->a, b), a->b);
            }
            if (a->k == ADD && a->a == b) return a->b;
            if (a->k == ADD && a->b == b) return a->a;
            if (b->k == ADD && isC(b->b)) return bin(ADD, bin(SUB, a, b->a), constant(-b->b->val, w));
            break;
        case MUL:
            if (isC(b, 0)) return b;
            if (isC(b, 1)) return a;
            if (isC(b)) { u128 v = b->val; if ((v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) s++; return bin(SHL, a, constant(s, w)); }
                if (a->k == MUL && isC(a->b)) return bin(MUL, a->a, constant(a->b->val * v, w)); }
            break;
        case UDIV:
            if (isC(b, 1)) return a;
            if (isC(b) && b->val && w <= 64 && a->hi < b->val) return constant(0, w);
            if (isC(b) && b->val && a->k == UDIV && isC(a->b) && a->b->val && w <= 64 && a->b->val * b->val <= maskw(w)) return bin(UDIV, a->a, constant(a->b->val * b->val, w));
            if (isC(b)) { u128 v = b->val; if (v && (v & (v - 1)) == 0) { unsigned s = 0; while (!((v >> s) & 1)) s++; return bin(LSHR, a, constant(s, w)); }
              if (v && a->k == ZEXT && v <= maskw(a->a->w)) return zext(bin(UDIV, a->a, constant(v, a->a->w)), w); }
            break;
        case UREM:
            if (isC(b) && b->val && w <= 64 && a->hi < b->val) return a;
            if (isC(b)) { u128 v = b->val; if (v && (v & (v - 1)) == 0) return bin(AND, a, constant(v - 1, w));
              if (v && a->k == ZEXT) { if (v > maskw(a->a->w)) return a; return zext(bin(UREM, a->a, constant(v, a->a->w)), w); } }
            break;
        case AND:
            if (isC(b, 0)) return b;
            if (isC(b) && b->val == maskw(w)) return a;
            if (a == b) return a;
            if (isC(b)) {
                u128 v = b->val; // contiguous mask at bit 0?
                if ((v & (v + 1)) == 0) { unsigned n = 0; while ((v >> n) & 1) n++; return zext(extract(a, 0, n), w); }
                unsigned t = tz(b); u128 hi = v >> t;
                if (t && (hi & (hi + 1)) == 0) { unsigned n = 0; while (n < w - t && (hi >> n) & 1) n++;
                    return zext(concat(extract(a, t, n), constant(0, t)), w); }
                if (a->k == AND && isC(a->b)) return bin(AND, a->a, constant(a->b->val & v, w));
                if (a->k == ZEXT) return zext(bin(AND, a->a, constant(v, a->a->w)), w);
                if (a->k == CONCAT) return concat(bin(AND, a->a, constant(v >> a->b->w, a->a->w)), bin(AND, a->b, constant(v, a->b->w)));
            }
            if (w == 1) { if (lnot(a) == b) return F; }
            if (!isC(b) && a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return zext(bin(AND, a->a, b->a), w);
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case OR:
            if (isC(b, 0)) return a;
            if (isC(b) && b->val == maskw(w)) return b;
            if (a == b) return a;
            if (w == 1) { if (lnot(a) == b) return T; }
            if (w > 1) { auto* o = disjointOr(a, b); if (o) return o; }
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case XOR:
            if (isC(b, 0)) return a;
            if (a == b) return constant(0, w);
            if (w == 1) { if (isC(b)) return b->val ? lnot(a) : a; }
            if (isC(b) && a->k == XOR && isC(a->b)) return bin(XOR, a->a, constant(a->b->val ^ b->val, w));
            if (isC(b) && a->k == CONCAT) return concat(bin(XOR, a->a, constant(b->val >> a->b->w, a->a->w)), bin(XOR, a->b, constant(b->val, a->b->w)));
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case SHL:
            if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return constant(0, w); unsigned s = (unsigned)b->val; return concat(extract(a, 0, w - s), constant(0, s)); }
            break;
        case LSHR:
            if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return constant(0, w); unsigned s = (unsigned)b->val; return zext(extract(a, s, w - s), w); }
            break;
        case ASHR:
            if (isC(b)) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return sext(extract(a, s, w - s), w); }
            break;
        default: break;
        }
        return raw(k, w, a, b);
    }
    // ((x / A) mod b) * a + ((x / B) mod a)  with A == B * a   ==>   (x / B) mod (a * b)
    Expr* digits(Expr* m, Expr* r) {
        if (m->k != MUL || !isC(m->b)) return nullptr;
        u128 a = m->b->val; Expr* hi = m->a; unsigned W = m->w;
        while (hi->k == ZEXT) hi = hi->a;
        while (r->k == ZEXT) r = r->a;
        u128 mod = 0;                                   // 0: no reduction
        if (hi->k == UREM && isC(hi->b) && hi->b->val) { mod = hi->b->val; hi = hi->a; }
        auto split = [&](Expr* e, u128& d) { d = 1; if (e->k == UDIV && isC(e->b) && e->b->val) { d = e->b->val; return e->a; } return e; };
        u128 A, B; Expr* x = split(hi, A);
        if (r->k != UREM || !isC(r->b) || r->b->val != a) return nullptr;
        Expr* y = split(r->a, B);
        if (x != y || A != B * a) return nullptr;
        if (!mod) return zext(r->a, W);
        if (mod * a > maskw(W) || r->w > W) return nullptr;
        if (mod * a > maskw(r->w)) return zext(r->a, W);
        return zext(bin(UREM, r->a, constant(mod * a, r->w)), W);
    }
    // or/add of values with disjoint possibly-set bits, when a clean split exists
    Expr* disjointOr(Expr* a, Expr* b) {
        unsigned w = a->w;
        for (int r = 0; r < 2; r++, std::swap(a, b)) {
            unsigned t = tz(a), l = lz(b);
            if (t > 0 && t < w && l + t >= w) { // a occupies [t,w), b occupies [0,t)
                return concat(extract(a, t, w - t), extract(b, 0, t));
            }
        }
        return nullptr;
    }
    Expr* mk(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 aux = 0, Table* t = nullptr) {
        switch (k) {
        case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case AND: case OR: case XOR: case SHL: case LSHR: case ASHR: return bin(k, a, b);
        case EQ: return eq(a, b);
        case ULT: case ULE: case SLT: case SLE: return cmp(k, a, b);
        case ITE: return ite(a, b, c);
        case CONCAT: return concat(a, b);
        case EXTRACT: return extract(a, aux, w);
        case ZEXT: return zext(a, w);
        case SEXT: return sext(a, w);
        default: return raw(k, w, a, b, c, aux, t);
        }
    }

    // conservative unsigned range (children's intervals are cached)
    void rng(Expr* e, u128& lo, u128& hi) { if (e->w > 64) { lo = 0; hi = maskw(e->w - std::min<unsigned>(lz(e), e->w)); if (e->k == CONST) lo = hi = e->val; } else { lo = e->lo; hi = e->hi; } }
    void range(Expr* e, u128& lo, u128& hi, int d = 6) {
        if (d != 2 && e->w <= 64) { lo = e->lo; hi = e->hi; return; }
        u128 m = maskw(e->w); lo = 0; hi = maskw(e->w - std::min<unsigned>(lz(e), e->w));
        u128 a, b, x, y;
        switch (e->k) {
        case CONST: lo = hi = e->val; return;
        case ZEXT: rng(e->a, lo, hi); return;
        case SEXT: rng(e->a, a, b); if (!(b >> (e->a->w - 1))) { lo = a; hi = b; } return;
        case EXTRACT: if (e->a->w > 64) return; rng(e->a, a, b); a >>= e->aux; b >>= e->aux; if (b <= m) { lo = a; hi = b; } return;
        case ADD: if (e->w > 64) return; rng(e->a, a, b); rng(e->b, x, y);
            if (b + y <= m) { lo = a + x; hi = b + y; } else if (a + x > m && ((a + x) >> e->w) == ((b + y) >> e->w)) { lo = (a + x) & m; hi = (b + y) & m; } return;
        case SUB: if (e->w > 64) return; rng(e->a, a, b); rng(e->b, x, y); if (a >= y) { lo = a - y; hi = b - x; } return;
        case MUL: if (e->w > 64) return; rng(e->a, a, b); rng(e->b, x, y); if (b <= maskw(60) && y <= maskw(60) && b * y <= m) { lo = a * x; hi = b * y; } return;
        case UDIV: rng(e->a, a, b); rng(e->b, x, y); if (x) { lo = a / y; hi = b / x; } return;
        case CONCAT: rng(e->a, a, b); rng(e->b, x, y); lo = (a << e->b->w) | x; hi = (b << e->b->w) | y; return;
        case ITE: rng(e->b, a, b); rng(e->c, x, y); lo = std::min(a, x); hi = std::max(b, y); return;
        case UREM: rng(e->a, a, b); if (isC(e->b) && e->b->val) hi = std::min(b, e->b->val - 1); return;
        case AND: rng(e->a, a, b); rng(e->b, x, y); hi = std::min(b, y); return;
        case OR: case XOR: if (e->b->k != CONST) return; rng(e->a, a, b); y = e->b->val; if (y && b < (y & (~y + 1))) { lo = a + y; hi = b + y; } return;
        case TABLE: { u64 l = ~0ull, h = 0; for (u64 q : e->tab->e) { l = std::min(l, q); h = std::max(h, q); } lo = e->tab->e.size() >> std::min(e->a->w, (uint16_t)40) ? l : 0; hi = h; return; }
        default: return;
        }
    }

    // ---- evaluation ----
    u64 epoch = 1;
    u64 newEpoch() { return ++epoch; }
    // get(symIdx) -> u8
    template<class G> u128 eval(Expr* e, u64 ep, const G& get) {
        if (e->k == CONST) return e->val;
        if (e->ev_epoch == ep) return e->ev_val;
        u128 r;
        if (e->k == SYM) r = get(e->aux);
        else if (e->k == ITE) r = eval(e->a, ep, get) ? eval(e->b, ep, get) : eval(e->c, ep, get);
        else {
            u128 a = eval(e->a, ep, get), b = e->b ? eval(e->b, ep, get) : 0;
            r = evalOp(e->k, e->w, a, b, 0, e->a->w, e->b ? e->b->w : 0, e->aux, e->tab);
        }
        e->ev_epoch = ep; e->ev_val = r;
        return r;
    }
    std::string str(Expr* e, int depth = 6) {
        static const char* n[] = {"c","s","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","cat","ext","zext","sext","tab","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","foeq","folt","fole","funo","ftosi","ftoui","sitof","uitof","fcvt"};
        if (e->k == CONST) { char b[64]; if (e->val >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(e->val >> 64), (unsigned long long)e->val); else snprintf(b, 64, "%llu:%d", (unsigned long long)e->val, e->w); return b; }
        if (e->k == SYM) return "s" + std::to_string(e->aux);
        if (!depth) return "...";
        std::string s = std::string("(") + n[e->k];
        if (e->k == EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
        for (auto* o : {e->a, e->b, e->c}) if (o) s += " " + str(o, depth - 1);
        return s + ")";
    }
};
