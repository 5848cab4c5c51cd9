// Z3 back end + per-state constraint sets with an exact byte-domain layer.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <memory>
#include <bitset>

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

typedef std::bitset<256> Dom;

struct Stats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, domainDecisions = 0, intervalDecisions = 0, checkQueries = 0, checkConst = 0, audits = 0, auditUnknown = 0;
    double solverTime = 0, maxQuery = 0;
};

struct Z3B {
    Exprs& X;
    Z3_context c;
    Z3_solver sBV = nullptr, sFP = nullptr;
    Z3_sort sort8, fp32, fp64;
    Z3_ast rne, rtz;
    std::vector<Z3_ast> symAst;
    unsigned timeoutMs = 60000;
    Stats st;
    std::unordered_map<u32, bool> fpMemo;

    static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw Unsupported("z3 error"); }
    Z3B(Exprs& x) : X(x) { init(); }
    void init() {
        Z3_config cfg = Z3_mk_config();
        c = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(c, (Z3_error_handler*)onErr);
        sort8 = Z3_mk_bv_sort(c, 8);
        fp32 = Z3_mk_fpa_sort_32(c); fp64 = Z3_mk_fpa_sort_64(c);
        rne = Z3_mk_fpa_rne(c); rtz = Z3_mk_fpa_rtz(c);
    }
    Z3_sort bvs(unsigned w) { return w == 8 ? sort8 : Z3_mk_bv_sort(c, w); }
    Z3_ast num(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, bvs(w));
        return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (u64)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(c, (u64)v, bvs(64)));
    }
    Z3_sort fs(unsigned w) { if (w == 32) return fp32; if (w == 64) return fp64; throw Unsupported("fp width"); }
    Z3_ast fpOf(Expr* e) {
        if (e->zf) return (Z3_ast)e->zf;
        Z3_ast r;
        switch (e->k) {
        case FADD: r = Z3_mk_fpa_add(c, rne, fpOf(e->a), fpOf(e->b)); break;
        case FSUB: r = Z3_mk_fpa_sub(c, rne, fpOf(e->a), fpOf(e->b)); break;
        case FMUL: r = Z3_mk_fpa_mul(c, rne, fpOf(e->a), fpOf(e->b)); break;
        case FDIV: r = Z3_mk_fpa_div(c, rne, fpOf(e->a), fpOf(e->b)); break;
        case FSQRT: r = Z3_mk_fpa_sqrt(c, rne, fpOf(e->a)); break;
        case FRND: { Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(c) : e->aux == 1 ? Z3_mk_fpa_rtp(c) : e->aux == 2 ? rtz : e->aux == 3 ? Z3_mk_fpa_rna(c) : rne;
            r = Z3_mk_fpa_round_to_integral(c, m, fpOf(e->a)); break; }
        case SITOF: r = Z3_mk_fpa_to_fp_signed(c, rne, bv(e->a), fs(e->w)); break;
        case UITOF: r = Z3_mk_fpa_to_fp_unsigned(c, rne, bv(e->a), fs(e->w)); break;
        case FCVT: r = Z3_mk_fpa_to_fp_float(c, rne, fpOf(e->a), fs(e->w)); break;
        case ITE: r = Z3_mk_ite(c, bo(e->a), fpOf(e->b), fpOf(e->c)); break;
        case FREM: throw Unsupported("symbolic fmod");
        default: r = Z3_mk_fpa_to_fp_bv(c, bv(e), fs(e->w)); break;
        }
        Z3_inc_ref(c, r);
        e->zf = r;
        return r;
    }
    Z3_ast tableAst(Table* t, Z3_ast idx, unsigned iw, unsigned bit, size_t lo) {
        // binary tree over index bits
        size_t n = t->e.size();
        if (lo >= n) return nullptr;
        size_t hi = std::min(n, lo + ((size_t)1 << bit));
        bool same = true;
        for (size_t i = lo + 1; i < hi && same; i++) same = t->e[i] == t->e[lo];
        if (same) return num(t->e[lo], t->w);
        Z3_ast l = tableAst(t, idx, iw, bit - 1, lo), h = tableAst(t, idx, iw, bit - 1, lo + ((size_t)1 << (bit - 1)));
        if (!h) return l;
        Z3_ast cond = Z3_mk_eq(c, Z3_mk_extract(c, bit - 1, bit - 1, idx), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
        return Z3_mk_ite(c, cond, h, l);
    }
    Z3_ast bv(Expr* e) {
        if (e->z) return (Z3_ast)e->z;
        Z3_ast r;
        switch (e->k) {
        case CONST: r = num(e->val, e->w); break;
        case SYM: { char nm[32]; snprintf(nm, 32, "s%u", e->aux); r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), sort8); break; }
        case ADD: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
        case SUB: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
        case MUL: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
        case UDIV: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
        case SDIV: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
        case UREM: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
        case SREM: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
        case SHL: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
        case LSHR: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
        case ASHR: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
        case AND: if (e->w == 1) goto boolish; r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break;
        case OR: if (e->w == 1) goto boolish; r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break;
        case XOR: if (e->w == 1) goto boolish; r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break;
        case ITE: if (e->w == 1) goto boolish; r = Z3_mk_ite(c, bo(e->a), bv(e->b), bv(e->c)); break;
        case CONCAT: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
        case EXTRACT: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, bv(e->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, bv(e->a)); break;
        case SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, bv(e->a)); break;
        case TABLE: { unsigned bits = 1; while (((size_t)1 << bits) < e->tab->e.size()) bits++;
            if (bits > e->a->w) bits = e->a->w;
            r = tableAst(e->tab, bv(e->a), e->a->w, bits, 0); break; }
        case EQ: case ULT: case ULE: case SLT: case SLE: case FOEQ: case FOLT: case FOLE: case FUNO:
        boolish:
            r = Z3_mk_ite(c, bo(e), num(1, 1), num(0, 1)); break;
        case FTOSI: case FTOUI: {
            unsigned w = e->w, cw = e->k == FTOUI ? 64 : (w <= 32 ? 32 : 64);
            Z3_ast f = fpOf(e->a); Z3_sort s = fs(e->a->w);
            auto conv = [&](Z3_ast x) {
                Z3_ast lo = cw == 32 ? (e->a->w == 64 ? Z3_mk_fpa_gt(c, x, Z3_mk_fpa_numeral_double(c, -2147483649.0, s)) : Z3_mk_fpa_geq(c, x, Z3_mk_fpa_numeral_double(c, -2147483648.0, s)))
                                     : Z3_mk_fpa_geq(c, x, Z3_mk_fpa_numeral_double(c, -9223372036854775808.0, s));
                Z3_ast hi = Z3_mk_fpa_lt(c, x, Z3_mk_fpa_numeral_double(c, cw == 32 ? 2147483648.0 : 9223372036854775808.0, s));
                Z3_ast both[2] = {lo, hi};
                return Z3_mk_ite(c, Z3_mk_and(c, 2, both), Z3_mk_fpa_to_sbv(c, rtz, x, cw), num((u128)1 << (cw - 1), cw));
            };
            if (e->k == FTOSI || w <= 32) { r = conv(f); if (w < cw) r = Z3_mk_extract(c, w - 1, 0, r); }
            else {
                Z3_ast k63 = Z3_mk_fpa_numeral_double(c, 9223372036854775808.0, s);
                Z3_ast big = Z3_mk_bvxor(c, conv(Z3_mk_fpa_sub(c, rne, f, k63)), num((u128)1 << 63, 64));
                r = Z3_mk_ite(c, Z3_mk_fpa_geq(c, f, k63), big, conv(f));
            }
            break; }
        case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FRND: case SITOF: case UITOF: case FCVT:
            r = Z3_mk_fpa_to_ieee_bv(c, fpOf(e)); break;
        default: throw Unsupported("z3 translate");
        }
        Z3_inc_ref(c, r);
        e->z = r;
        return r;
    }
    Z3_ast bo(Expr* e) {
        if (e->zb) return (Z3_ast)e->zb;
        Z3_ast r;
        switch (e->k) {
        case CONST: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case EQ: if (e->a->w == 1) { if (e->a->k == CONST) { r = e->a->val ? bo(e->b) : Z3_mk_not(c, bo(e->b)); } else r = Z3_mk_iff(c, bo(e->a), bo(e->b)); }
                 else r = Z3_mk_eq(c, bv(e->a), bv(e->b)); break;
        case ULT: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
        case ULE: r = Z3_mk_bvule(c, bv(e->a), bv(e->b)); break;
        case SLT: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
        case SLE: r = Z3_mk_bvsle(c, bv(e->a), bv(e->b)); break;
        case AND: { Z3_ast o[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_and(c, 2, o); break; }
        case OR: { Z3_ast o[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_or(c, 2, o); break; }
        case XOR: r = Z3_mk_xor(c, bo(e->a), bo(e->b)); break;
        case ITE: r = Z3_mk_ite(c, bo(e->a), bo(e->b), bo(e->c)); break;
        case FOEQ: r = Z3_mk_fpa_eq(c, fpOf(e->a), fpOf(e->b)); break;
        case FOLT: r = Z3_mk_fpa_lt(c, fpOf(e->a), fpOf(e->b)); break;
        case FOLE: r = Z3_mk_fpa_leq(c, fpOf(e->a), fpOf(e->b)); break;
        case FUNO: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(c, fpOf(e->a)), Z3_mk_fpa_is_nan(c, fpOf(e->b))}; r = Z3_mk_or(c, 2, o); break; }
        default: r = Z3_mk_eq(c, bv(e), num(1, 1)); break;
        }
        Z3_inc_ref(c, r);
        e->zb = r;
        return r;
    }
    std::unordered_map<Expr*, bool> hasFP;
    bool fp(Expr* e) {
        if (!e || e->k == CONST || e->k == SYM) return false;
        if (e->k >= FADD) return true;
        auto it = hasFP.find(e);
        if (it != hasFP.end()) return it->second;
        bool r = fp(e->a) || fp(e->b) || fp(e->c);
        hasFP[e] = r;
        return r;
    }
    Z3_solver solver(bool f) {
        Z3_solver& s = f ? sFP : sBV;
        if (!s) {
            s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, f ? "QF_FPBV" : "QF_BV"));
            Z3_solver_inc_ref(c, s);
            Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
        }
        return s;
    }
    void setTimeout(unsigned ms) {
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
        if (sBV) Z3_solver_set_params(c, sBV, p);
        Z3_params_dec_ref(c, p);
    }
    // 1 sat, 0 unsat, -1 unknown; model for given vars
    int check(const std::vector<Expr*>& cs, const std::vector<u32>& vars, std::vector<u8>& model) {
        bool f = false;
        for (auto* e : cs) f = f || fp(e);
        double t0 = nowS();
        Z3_solver s = solver(f);
        Z3_solver_reset(c, s);
        for (auto* e : cs) Z3_solver_assert(c, s, bo(e));
        int r = (int)Z3_solver_check(c, s);
        if (r == 1) {
            Z3_model m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            model.clear();
            for (u32 v : vars) {
                Z3_ast out = nullptr;
                unsigned val = 0;
                if (Z3_model_eval(c, m, bv(X.sym(v)), true, &out) && out) { Z3_inc_ref(c, out); Z3_get_numeral_uint(c, out, &val); Z3_dec_ref(c, out); }
                model.push_back((u8)val);
            }
            Z3_model_dec_ref(c, m);
        }
        double dt = nowS() - t0;
        st.queries++; st.solverTime += dt; if (dt > st.maxQuery) st.maxQuery = dt;
        if (getenv("VF_SLOWQ") && dt > atof(getenv("VF_SLOWQ"))) {
            fprintf(stderr, "slow query %.2fs r=%d n=%zu fp=%d\n", dt, r, cs.size(), f);
            for (auto* e : cs) fprintf(stderr, "   %s\n", X.str(e, 8).c_str());
        }
        if (r == 1) st.sat++; else if (r == -1) st.unsat++; else st.unknown++;
        return r == 1 ? 1 : r == -1 ? 0 : -1;
    }
};

// Constraint set of one path
struct PC {
    std::vector<Expr*> multi;                       // constraints over >= 2 symbols
    std::vector<std::vector<Expr*>> singles;        // per symbol
    std::vector<std::shared_ptr<Dom>> dom;          // per symbol (null = full)
    std::vector<u8> model;                          // satisfies everything
    u64 modelEpoch = 0;
    struct Bound { Expr* e; u128 lo, hi; };
    std::vector<Bound> bounds;                      // intervals implied by comparisons on this path
};

struct Solver {
    Exprs& X;
    Z3B z;
    std::unordered_map<Expr*, Dom*> truth;
    struct CacheEnt { int r; std::vector<u8> model; };
    struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
    std::unordered_map<std::vector<u32>, CacheEnt, VH> cache;

    Solver(Exprs& x) : X(x), z(x) {}

    Dom& table(Expr* e) {
        auto& d = truth[e];
        if (!d) {
            d = new Dom;
            for (int v = 0; v < 256; v++) {
                u64 ep = X.newEpoch();
                if (X.eval(e, ep, [&](u32) { return (u8)v; })) d->set(v);
            }
        }
        return *d;
    }
    void ensure(PC& p, u32 s) {
        if (p.model.size() <= s) { p.model.resize(s + 1, 0); p.dom.resize(s + 1); p.singles.resize(s + 1); p.modelEpoch = X.newEpoch(); }
    }
    u128 evalIn(PC& p, Expr* e) {
        if (!p.modelEpoch) p.modelEpoch = X.newEpoch();
        return X.eval(e, p.modelEpoch, [&](u32 i) -> u8 { return i < p.model.size() ? p.model[i] : 0; });
    }
    bool determined(PC& p, Expr* e) {
        for (u32 v : e->vars->v) if (!p.dom[v] || p.dom[v]->count() != 1) return false;
        return true;
    }
    // ---- path-sensitive unsigned intervals: decides most range checks without a query
    u64 pEpoch = 0;
    static bool crosses(u128 lo, u128 hi, unsigned w) { u128 h = (u128)1 << (w - 1); return lo < h && hi >= h; }
    void pr(PC& p, Expr* e, u128& lo, u128& hi) {
        if (e->k == CONST) { lo = hi = e->val; return; }
        if (e->p_epoch == pEpoch) { lo = e->plo; hi = e->phi; return; }
        unsigned w = e->w; u128 m = maskw(w);
        lo = 0; hi = m;
        if (w <= 64) { lo = e->lo; hi = e->hi; }
        u128 l = 0, h = m, a, b, x, y;
        switch (e->k) {
        case SYM: if (e->aux < p.dom.size() && p.dom[e->aux]) { Dom& d = *p.dom[e->aux]; size_t f = d._Find_first(); if (f < 256) { l = f; size_t t = 255; while (!d[t]) t--; h = t; } } break;
        case ADD: pr(p, e->a, a, b); pr(p, e->b, x, y); if (w > 64) break;
            if (b + y <= m) { l = a + x; h = b + y; } else if (a + x > m && ((a + x) >> w) == ((b + y) >> w)) { l = (a + x) & m; h = (b + y) & m; } break;
        case SUB: pr(p, e->a, a, b); pr(p, e->b, x, y); if (w > 64) break;
            if (a >= y) { l = a - y; h = b - x; } else if (b < x) { l = a + m + 1 - y; h = b + m + 1 - x; } break;
        case MUL: pr(p, e->a, a, b); pr(p, e->b, x, y); if (w > 64) break; if (b <= maskw(63) && y <= maskw(63) && b * y <= m) { l = a * x; h = b * y; } break;
        case UDIV: pr(p, e->a, a, b); pr(p, e->b, x, y); if (x) { l = a / y; h = b / x; } break;
        case UREM: pr(p, e->a, a, b); if (e->b->k == CONST && e->b->val) { u128 c = e->b->val; if (a / c == b / c) { l = a % c; h = b % c; } else h = std::min(b, c - 1); } break;
        case SDIV: case SREM: pr(p, e->a, a, b); pr(p, e->b, x, y); if (!(b >> (w - 1)) && !(y >> (w - 1)) && x) { if (e->k == SDIV) { l = a / y; h = b / x; } else h = std::min(b, y - 1); } break;
        case AND: pr(p, e->a, a, b); pr(p, e->b, x, y); if (w == 1) { l = a & x; h = b & y; } else h = std::min(b, y); break;
        case OR: case XOR: { pr(p, e->a, a, b); pr(p, e->b, x, y); if (w == 1) { if (e->k == OR) { l = a | x; h = b | y; } else if (a == b && x == y) l = h = a ^ x; break; }
            if (e->k == XOR && e->b->k == CONST && y == m) { l = m - b; h = m - a; break; }
            if (e->b->k == CONST && y && b < (y & (~y + 1))) { l = a + y; h = b + y; break; }
            u128 t = b | y; for (unsigned s = 1; s < 128; s <<= 1) t |= t >> s; h = t & m; if (e->k == OR) l = std::max(a, x); break; }
        case EQ: pr(p, e->a, a, b); pr(p, e->b, x, y); if (b < x || y < a) l = h = 0; else if (a == b && x == y) l = h = 1; break;
        case ULT: pr(p, e->a, a, b); pr(p, e->b, x, y); if (b < x) l = h = 1; else if (a >= y) l = h = 0; break;
        case ULE: pr(p, e->a, a, b); pr(p, e->b, x, y); if (b <= x) l = h = 1; else if (a > y) l = h = 0; break;
        case SLT: case SLE: { unsigned cw = e->a->w; pr(p, e->a, a, b); pr(p, e->b, x, y);
            s128 sa, sb, sx, sy; u128 hf = (u128)1 << (cw - 1);
            if (cw >= 128) break;
            if (crosses(a, b, cw)) { sa = -(s128)hf; sb = (s128)(hf - 1); } else { sa = sextw(a, cw); sb = sextw(b, cw); }
            if (crosses(x, y, cw)) { sx = -(s128)hf; sy = (s128)(hf - 1); } else { sx = sextw(x, cw); sy = sextw(y, cw); }
            if (e->k == SLT) { if (sb < sx) l = h = 1; else if (sa >= sy) l = h = 0; } else { if (sb <= sx) l = h = 1; else if (sa > sy) l = h = 0; }
            break; }
        case ITE: pr(p, e->a, a, b);
            if (a == b) { pr(p, a ? e->b : e->c, l, h); }
            else { pr(p, e->b, a, b); pr(p, e->c, x, y); l = std::min(a, x); h = std::max(b, y); }
            break;
        case CONCAT: pr(p, e->a, a, b); pr(p, e->b, x, y); l = (a << e->b->w) | x; h = (b << e->b->w) | y; break;
        case EXTRACT: pr(p, e->a, a, b); a >>= e->aux; b >>= e->aux; if (b - a <= m && (w >= 128 || (a >> w) == (b >> w))) { l = a & m; h = b & m; } break;
        case ZEXT: pr(p, e->a, l, h); break;
        case SEXT: pr(p, e->a, a, b); if (!crosses(a, b, e->a->w)) { l = (u128)sextw(a, e->a->w) & m; h = (u128)sextw(b, e->a->w) & m; } break;
        case TABLE: pr(p, e->a, a, b); if (b - a <= 4096) { l = ~(u128)0; h = 0; for (u128 i = a; i <= b; i++) { u128 v = i < e->tab->e.size() ? e->tab->e[(size_t)i] : 0; l = std::min(l, v); h = std::max(h, v); } } break;
        default: break;
        }
        lo = std::max(lo, l); hi = std::min(hi, h);
        for (auto& bd : p.bounds) if (bd.e == e) { lo = std::max(lo, bd.lo); hi = std::min(hi, bd.hi); break; }
        if (lo > hi) hi = lo;                        // only on infeasible paths
        e->p_epoch = pEpoch; e->plo = lo; e->phi = hi;
    }
    void bound(PC& p, Expr* e, u128 lo, u128 hi, int d = 0) {
        if (e->k == CONST || lo > hi || d > 12) return;
        u128 m = maskw(e->w);
        if (hi > m) hi = m;
        bool found = false;
        for (auto& b : p.bounds) if (b.e == e) { if (lo <= b.lo && hi >= b.hi) return; b.lo = std::max(b.lo, lo); b.hi = std::min(b.hi, hi); lo = b.lo; hi = b.hi; found = true; break; }
        if (lo > hi) return;
        if (!found) { if (lo == 0 && hi == m) return; if (p.bounds.size() >= 200) return; p.bounds.push_back({e, lo, hi}); }
        switch (e->k) {                              // push through invertible operations
        case ZEXT: bound(p, e->a, lo, hi, d + 1); break;
        case UDIV: if (e->b->k == CONST && e->b->val && e->w <= 64) bound(p, e->a, lo * e->b->val, std::min(m, hi * e->b->val + (e->b->val - 1)), d + 1); break;
        case ADD: if (e->b->k == CONST && e->w <= 64) { u128 c = e->b->val, l = (lo - c) & m, h = (hi - c) & m; if (l <= h) bound(p, e->a, l, h, d + 1); } break;
        case SUB: if (e->a->k == CONST && e->w <= 64) { u128 c = e->a->val, l = (c - hi) & m, h = (c - lo) & m; if (l <= h) bound(p, e->b, l, h, d + 1); } break;
        case SEXT: { unsigned n = e->a->w; if (!crosses(lo, hi, e->w)) { s128 l = sextw(lo, e->w), h = sextw(hi, e->w), mn = -((s128)1 << (n - 1)), mx = ((s128)1 << (n - 1)) - 1;
            l = std::max(l, mn); h = std::min(h, mx); if (l <= h && (l < 0) == (h < 0)) bound(p, e->a, (u128)l & maskw(n), (u128)h & maskw(n), d + 1); } break; }
        case CONCAT: if (e->w <= 64) { bound(p, e->a, lo >> e->b->w, hi >> e->b->w, d + 1); if ((lo >> e->b->w) == (hi >> e->b->w)) bound(p, e->b, lo & maskw(e->b->w), hi & maskw(e->b->w), d + 1); } break;
        default: break;
        }
    }
    void learn(PC& p, Expr* c) {
        Expr *a = c->a, *b = c->b;
        switch (c->k) {
        case EQ:
            if (a->k != CONST) std::swap(a, b);
            if (a->k != CONST) return;
            if (b->w == 1 && a->val == 0) {          // negation
                if (b->k == EQ) { Expr *x = b->a, *y = b->b; if (x->k != CONST) std::swap(x, y); if (x->k != CONST) return;
                    u128 lo, hi; pEpoch = X.newEpoch(); pr(p, y, lo, hi);
                    if (lo == hi) return;
                    if (lo == x->val) bound(p, y, lo + 1, hi); else if (hi == x->val) bound(p, y, lo, hi - 1); }
                return;
            }
            bound(p, b, a->val, a->val); return;
        case ULT: if (b->k == CONST && b->val) bound(p, a, 0, b->val - 1); else if (a->k == CONST && a->val < maskw(a->w)) bound(p, b, a->val + 1, maskw(a->w)); return;
        case ULE: if (b->k == CONST) bound(p, a, 0, b->val); else if (a->k == CONST) bound(p, b, a->val, maskw(a->w)); return;
        case SLT: case SLE: {
            unsigned w = a->w; u128 h = (u128)1 << (w - 1), m = maskw(w);
            if (w > 64) return;
            bool st = c->k == SLT;
            if (b->k == CONST) {                     // a < v
                u128 v = b->val; s128 sv = sextw(v, w); if (st) sv--;
                if (sv < -(s128)h) return;
                if (sv < 0) bound(p, a, h, (u128)sv & m);
                else { u128 lo, hi; pEpoch = X.newEpoch(); pr(p, a, lo, hi); if (hi < h) bound(p, a, 0, (u128)sv); }
            } else if (a->k == CONST) {              // v < b
                s128 sv = sextw(a->val, w); if (st) sv++;
                if (sv > (s128)(h - 1)) return;
                if (sv >= 0) bound(p, b, (u128)sv, h - 1);
                else { u128 lo, hi; pEpoch = X.newEpoch(); pr(p, b, lo, hi); if (lo >= h) bound(p, b, (u128)sv & m, m); }
            }
            return; }
        default: return;
        }
    }
    // adds a constraint that the current model already satisfies
    void add(PC& p, Expr* c) {
        if (c->k != CONST) learn(p, c);
        if (c->k == CONST) return;
        if (c->k == AND && c->w == 1) { add(p, c->a); add(p, c->b); return; }
        if (c->vars->v.size() == 1) {
            u32 v = c->vars->v[0];
            Dom& t = table(c);
            Dom nd = p.dom[v] ? (*p.dom[v] & t) : t;
            if (p.dom[v] && nd == *p.dom[v]) return;
            p.dom[v] = std::make_shared<Dom>(nd);
            p.singles[v].push_back(c);
        } else {
            for (auto*& m : p.multi) {
                if (m == c) return;
                if (m->k == c->k && (c->k == ULE || c->k == ULT)) {   // a stronger bound replaces a weaker one
                    if (m->a == c->a && m->b->k == CONST && c->b->k == CONST && c->b->val <= m->b->val) { m = c; return; }
                    if (m->b == c->b && m->a->k == CONST && c->a->k == CONST && c->a->val >= m->a->val) { m = c; return; }
                }
            }
            p.multi.push_back(c);
        }
    }
    // 1 / 0 when the intervals of this path decide c, otherwise -1
    int implied(PC& p, Expr* c) {
        if (c->k == CONST) return (int)c->val;
        pEpoch = X.newEpoch(); u128 lo, hi; pr(p, c, lo, hi);
        return lo == hi ? (int)lo : -1;
    }
    // Part of the verdicts of the domain and interval layers is put to Z3 as well (bounded time); a disagreement is an engine error.
    u64 auditSeen = 0; double auditTime = 0;
    void audit(PC& p, Expr* c, int expect) {
        auditSeen++;
        if (!(auditSeen <= 4 || (auditSeen & (auditSeen - 1)) == 0 || auditSeen % 97 == 0) || z.st.audits >= 60 || auditTime > 1.0) return;
        if (p.multi.size() > 40) return;
        std::vector<Expr*> cs = p.multi; std::vector<u8> m;
        for (auto& s : p.singles) for (auto* e : s) cs.push_back(e);
        if (c) cs.push_back(c);
        if (cs.empty()) return;
        for (auto* e : cs) if (z.fp(e)) return;
        z.setTimeout(300); double t0 = nowS();
        int r = z.check(cs, std::vector<u32>(), m);
        auditTime += nowS() - t0; z.setTimeout(z.timeoutMs);
        z.st.audits++; if (r < 0) { z.st.auditUnknown++; z.st.unknown--; return; }
        if (r != expect) { fprintf(stderr, "solver layers disagree: layer %d z3 %d on %s\n", expect, r, c ? X.str(c, 6).c_str() : "path"); abort(); }
    }
    // Is pc && c satisfiable?  On sat, out = new full model.
    int sat(PC& p, Expr* c, std::vector<u8>& out) {
        if (c->k == CONST) { if (c->val) { out = p.model; return 1; } return 0; }
        if (c->vars->v.size() > 1) {
            pEpoch = X.newEpoch();
            u128 lo, hi; pr(p, c, lo, hi);
            if (lo == hi) { z.st.intervalDecisions++; if (!lo) { audit(p, c, 0); return 0; } out = p.model; return 1; }
        }
        // independent slice
        std::vector<Expr*> slice;
        VarSet* vs = c->vars;
        {
            bool ch = true;
            std::vector<char> used(p.multi.size(), 0);
            while (ch) {
                ch = false;
                for (size_t i = 0; i < p.multi.size(); i++) if (!used[i]) {
                    auto& a = p.multi[i]->vars->v; auto& b = vs->v;
                    bool hit = false;
                    size_t x = 0, y = 0;
                    while (x < a.size() && y < b.size()) { if (a[x] == b[y]) { hit = true; break; } if (a[x] < b[y]) x++; else y++; }
                    if (hit) { used[i] = 1; slice.push_back(p.multi[i]); vs = X.unite(vs, p.multi[i]->vars); ch = true; }
                }
            }
        }
        if (c->vars->v.size() == 1) {
            u32 v = c->vars->v[0];
            Dom d = table(c); if (p.dom[v]) d &= *p.dom[v];
            if (d.none()) { z.st.domainDecisions++; audit(p, c, 0); return 0; }
            if (slice.empty()) {
                z.st.domainDecisions++;
                out = p.model;
                for (int i = 0; i < 256; i++) if (d[i]) { out[v] = (u8)i; break; }
                return 1;
            }
        }
        std::vector<Expr*> cs = slice;
        cs.push_back(c);
        for (u32 v : vs->v) for (auto* s : p.singles[v]) cs.push_back(s);
        std::vector<u32> key;
        for (auto* e : cs) key.push_back(e->id);
        std::sort(key.begin(), key.end());
        auto it = cache.find(key);
        if (it == cache.end()) {
            CacheEnt ce;
            ce.r = z.check(cs, vs->v, ce.model);
            if (cache.size() > 400000) cache.clear();
            it = cache.emplace(std::move(key), std::move(ce)).first;
        } else z.st.cacheHits++;
        if (it->second.r == 1) {
            out = p.model;
            for (size_t i = 0; i < vs->v.size(); i++) out[vs->v[i]] = it->second.model[i];
        }
        return it->second.r;
    }
};
