// runtime functions and intrinsics modelled by the engine (included in main.cpp)
enum BI {
    B_NONE, B_SYM, B_ASSUME, B_CHECK, B_REACH, B_OBSERVE, B_CONCRETE, B_PARAM, B_ALLOC, B_FREE, B_FAIL, B_OBJSIZE, B_VALID,
    B_MALLOC, B_CALLOC, B_REALLOC, B_CFREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_RETHROW, B_CXA_BEGIN, B_CXA_END, B_CXA_GETPTR, B_GUARD_ACQ, B_GUARD_REL, B_NOOP0, B_TERM, B_STRTOD, B_ISCONC, B_FRESH, B_FMATH1, B_UNCAUGHT,
    I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_FSHL, I_FSHR, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_UADDS, I_USUBS,
    I_FLOOR, I_CEIL, I_TRUNC, I_ROUND, I_RINT, I_FABS, I_SQRT, I_COPYSIGN, I_EXPECT, I_ISCONST, I_OBJECTSIZE, I_TYPEID, I_TRAP, I_STACKSAVE, I_IGNORE, I_FMA, I_UCMP, I_MINNUM, I_MAXNUM, I_FPCLASS, I_BITREV
};
static vector<std::pair<string, int>> prefixB;
static std::unordered_map<Fn*, int> bidCache;

static void initBuiltins() {
    auto& b = builtins;
    b["vf_sym"] = B_SYM; b["vf_assume"] = B_ASSUME; b["vf_check"] = B_CHECK; b["vf_reach"] = B_REACH; b["vf_observe"] = B_OBSERVE; b["vf_concrete"] = B_CONCRETE; b["vf_param"] = B_PARAM;
    b["vf_alloc"] = B_ALLOC; b["vf_free"] = B_FREE; b["vf_fail"] = B_FAIL; b["vf_objsize"] = B_OBJSIZE; b["vf_valid"] = B_VALID;
    b["malloc"] = B_MALLOC; b["calloc"] = B_CALLOC; b["realloc"] = B_REALLOC; b["free"] = B_CFREE;
    b["memcpy"] = b["memmove"] = B_MEMCPY; b["memset"] = B_MEMSET; b["memcmp"] = B_MEMCMP; b["bcmp"] = B_BCMP; b["strlen"] = B_STRLEN; b["memchr"] = B_MEMCHR;
    b["__cxa_allocate_exception"] = B_CXA_ALLOC; b["__cxa_free_exception"] = B_CXA_FREE; b["__cxa_throw"] = B_CXA_THROW; b["__cxa_rethrow"] = B_CXA_RETHROW; b["__cxa_begin_catch"] = B_CXA_BEGIN;
    b["__cxa_end_catch"] = B_CXA_END; b["__cxa_get_exception_ptr"] = B_CXA_GETPTR; b["__cxa_guard_acquire"] = B_GUARD_ACQ; b["__cxa_guard_release"] = B_GUARD_REL; b["__cxa_guard_abort"] = B_GUARD_REL;
    b["__cxa_atexit"] = B_NOOP0; b["_ZSt9terminatev"] = B_TERM; b["abort"] = B_TERM; b["__assert_fail"] = B_TERM; b["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = B_TERM; b["__cxa_pure_virtual"] = B_TERM; b["exit"] = B_TERM; b["_Exit"] = B_TERM;
    b["vf_strtod_native"] = B_STRTOD; b["vf_is_concrete"] = B_ISCONC; b["vf_fresh"] = B_FRESH; b["_ZSt18uncaught_exceptionv"] = B_UNCAUGHT; b["_ZSt19uncaught_exceptionsv"] = B_UNCAUGHT;
    for (auto* n : {"floor", "ceil", "trunc", "round", "pow", "log10", "log", "exp", "fabs", "sqrt", "fmod", "floorf", "ldexp"}) b[n] = B_FMATH1;
    prefixB = {{"llvm.memcpy.", B_MEMCPY}, {"llvm.memmove.", B_MEMCPY}, {"llvm.memset.", B_MEMSET}, {"llvm.umin.", I_UMIN}, {"llvm.umax.", I_UMAX}, {"llvm.smin.", I_SMIN}, {"llvm.smax.", I_SMAX}, {"llvm.abs.", I_ABS},
        {"llvm.ctlz.", I_CTLZ}, {"llvm.cttz.", I_CTTZ}, {"llvm.ctpop.", I_CTPOP}, {"llvm.bswap.", I_BSWAP}, {"llvm.fshl.", I_FSHL}, {"llvm.fshr.", I_FSHR}, {"llvm.uadd.with.overflow.", I_UADDO}, {"llvm.usub.with.overflow.", I_USUBO},
        {"llvm.umul.with.overflow.", I_UMULO}, {"llvm.sadd.with.overflow.", I_SADDO}, {"llvm.ssub.with.overflow.", I_SSUBO}, {"llvm.smul.with.overflow.", I_SMULO}, {"llvm.uadd.sat.", I_UADDS}, {"llvm.usub.sat.", I_USUBS},
        {"llvm.floor.", I_FLOOR}, {"llvm.ceil.", I_CEIL}, {"llvm.trunc.", I_TRUNC}, {"llvm.round.", I_ROUND}, {"llvm.rint.", I_RINT}, {"llvm.nearbyint.", I_RINT}, {"llvm.fabs.", I_FABS}, {"llvm.sqrt.", I_SQRT}, {"llvm.copysign.", I_COPYSIGN},
        {"llvm.expect.", I_EXPECT}, {"llvm.is.constant.", I_ISCONST}, {"llvm.objectsize.", I_OBJECTSIZE}, {"llvm.eh.typeid.for", I_TYPEID}, {"llvm.trap", I_TRAP}, {"llvm.ubsantrap", I_TRAP}, {"llvm.stacksave", I_STACKSAVE}, {"llvm.stackrestore", I_IGNORE},
        {"llvm.prefetch", I_IGNORE}, {"llvm.var.annotation", I_IGNORE}, {"llvm.fmuladd.", I_FMA}, {"llvm.minnum.", I_MINNUM}, {"llvm.maxnum.", I_MAXNUM}, {"llvm.is.fpclass.", I_FPCLASS}, {"llvm.launder.", I_EXPECT}, {"llvm.bitreverse.", I_BITREV},
        {"llvm.threadlocal.address", I_EXPECT}};
}
static bool isOverride(Fn*) { return false; }
static int bidOf(Fn* f) {
    auto it = bidCache.find(f);
    if (it != bidCache.end()) return it->second;
    int r = 0;
    auto b = builtins.find(f->name);
    if (b != builtins.end()) r = b->second;
    else for (auto& p : prefixB) if (f->name.compare(0, p.first.size(), p.first) == 0) { r = p.second; break; }
    bidCache[f] = r;
    return r;
}
static const char* paramStr(const string& n) { auto it = params.find(n); return it == params.end() ? nullptr : it->second.c_str(); }

static void freeObj(u64 p, int want, const char* what) {
    if (!p) return;
    u64 id = p >> 32, off = (p & 0xffffffff) - OBASE;
    Obj* o = id < (FBASE >> 32) ? st->mem.get(id) : nullptr;
    if (!o || off != 0) violate("memory", string(what) + " of an invalid pointer");
    if (o->freed) violate("memory", string(what) + ": double free");
    if (o->kind != want) violate("memory", string(what) + ": allocation/deallocation mismatch or not a heap object");
    st->heapBytes -= o->size;
    auto* t = new Obj; t->kind = o->kind; t->freed = true; t->size = o->size; t->data = nullptr;
    st->mem.set(id, t);
}

static int callBuiltin(Fn* cal, Inst& I, vector<Val>& a, vector<Val>& rv) {
    int b = bidOf(cal);
    unsigned w = I.w2;
    auto ret = [&](Val v) { rv.push_back(v); return 0; };
    auto C = [&](size_t i) { return concretize(a[i]); };
    switch (b) {
    case B_NONE: inconclusive("call to unmodelled function " + demangle(cal->name));
    case B_SYM: {
        u64 p = C(0), n = C(1); string nm = cstr(C(2)); u64 off;
        if (!n) return 0;
        lookup(p, n, off, true, "vf_sym");
        u32 first = st->nextSym; st->nextSym += (u32)n;
        S->ensure(st->pc, st->nextSym - 1);
        st->syms.push_back({nm, first, (u32)n});
        for (u64 i = 0; i < n; i++) storeC(p + i, Val{0, X.sym(first + (u32)i)}, 8);
        return 0; }
    case B_ASSUME: {
        Val c = icmp(LLVMIntNE, a[0], V(0), 32);
        if (!c.e) { if (!c.c) { R.assumed++; throw PathEnd(); } return 0; }
        if (S->evalIn(st->pc, c.e)) { if (!S->determined(st->pc, c.e)) S->add(st->pc, c.e); return 0; }
        vector<u8> m; int r = S->sat(st->pc, c.e, m);
        if (r == 0) { R.assumed++; throw PathEnd(); }
        if (r < 0) inconclusive("solver unknown (assume)");
        st->pc.model = m; st->pc.modelEpoch = X.newEpoch(); S->add(st->pc, c.e);
        return 0; }
    case B_CHECK: {
        Val c = icmp(LLVMIntNE, a[0], V(0), 32);
        string msg = cstr(C(1));
        if (!c.e) { R.checksConst[msg]++; if (!c.c) violate("property", msg); return 0; }
        R.checksSolver[msg]++; S->z.st.checkQueries++;
        vector<u8> m; int r = S->sat(st->pc, X.lnot(c.e), m);
        if (r == 1) report("property", msg, m);
        if (r < 0) { R.inconclusive++; R.incReasons["solver unknown (check " + msg + ")"]++; }
        if (r == 0) return 0;
        if (!S->evalIn(st->pc, c.e)) { int q = S->sat(st->pc, c.e, m); if (q != 1) throw PathEnd(); st->pc.model = m; st->pc.modelEpoch = X.newEpoch(); }
        S->add(st->pc, c.e);
        return 0; }
    case B_FAIL: violate("property", cstr(C(0)));
    case B_REACH: {
        string l = cstr(C(0)); auto it = labelIdx.find(l); u32 ix; if (it == labelIdx.end()) { ix = labels.size(); labels.push_back(l); labelIdx[l] = ix; } else ix = it->second;
        bool have = false; for (u32 r : st->reached) have = have || r == ix; if (!have) st->reached.push_back(ix);
        return 0; }
    case B_OBSERVE: st->obs.push_back({a[0]}); return 0;
    case B_CONCRETE: return ret(V(C(0)));
    case B_PARAM: { string n = cstr(C(0)); const char* s = paramStr(n); return ret(s ? V((u64)strtoll(s, nullptr, 0)) : a[1]); }
    case B_ALLOC: { u64 n = C(0), k = C(1); return ret(V(allocObj(n, (u8)k, 0xBE))); }
    case B_FREE: { u64 p = C(0), k = C(1); freeObj(p, (int)k, "delete"); return 0; }
    case B_OBJSIZE: { u64 p = C(0); u64 off; Obj* o = lookup(p, 0, off, false, "objsize"); return ret(V(o->size - off)); }
    case B_VALID: { // is [p, p+n) inside a live object?
        u64 p = C(0), n = C(1); u64 id = p >> 32, off = (p & 0xffffffff) - OBASE; Obj* o = id < (FBASE >> 32) ? st->mem.get(id) : nullptr;
        return ret(V(o && !o->freed && off <= o->size && n <= o->size - off)); }
    case B_MALLOC: { u64 n = C(0); if (n > cfg.maxAlloc) return ret(V(0)); return ret(V(allocObj(n, OK_HEAP, 0xBE))); }
    case B_CALLOC: { u64 n = C(0) * C(1); if (n > cfg.maxAlloc) return ret(V(0)); return ret(V(allocObj(n, OK_HEAP, 0))); }
    case B_REALLOC: { u64 p = C(0), n = C(1); u64 q = allocObj(n, OK_HEAP, 0xBE); if (p) { u64 off; Obj* o = lookup(p, 0, off, false, "realloc"); copyMem(q, p, std::min(n, o->size)); freeObj(p, OK_HEAP, "realloc"); } return ret(V(q)); }
    case B_CFREE: freeObj(C(0), OK_HEAP, "free"); return 0;
    case B_MEMCPY: { u64 n = C(2); if (!n) return ret(a[0]); u64 d = addrC(a[0], n, "write"), s = addrC(a[1], n, "read"); copyMem(d, s, n); return ret(V(d)); }
    case B_MEMSET: {
        u64 n = C(2); if (!n) return ret(a[0]); u64 d = addrC(a[0], n, "write"); u64 off; lookup(d, n, off, true, "write");
        Obj* o = st->mem.writable(d >> 32); Val v = a[1];
        if (!v.e) { memset(o->data + off, (int)v.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*)); }
        else { Expr* e = X.extract(v.e, 0, 8); if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*)); for (u64 i = 0; i < n; i++) { if (e->k == CONST) { o->data[off + i] = (u8)e->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = e; } }
        return ret(V(d)); }
    case B_BCMP: case B_MEMCMP: {
        u64 n = C(2); if (!n) return ret(V(0)); u64 p = addrC(a[0], n, "read"), q = addrC(a[1], n, "read"); u64 o1, o2; Obj* x = lookup(p, n, o1, false, "read"); Obj* y = lookup(q, n, o2, false, "read");
        if (!x->sym && !y->sym) return ret(V((u64)(u32)memcmp(x->data + o1, y->data + o2, n)));
        Expr* r = X.constant(0, 32);
        if (b == B_BCMP) {
            Expr* all = X.T; for (u64 i = 0; i < n; i++) all = X.bin(AND, all, X.eq(byteAt(x, o1 + i), byteAt(y, o2 + i)));
            return ret(fromE(X.zext(X.lnot(all), 32)));
        }
        for (u64 i = n; i-- > 0;) { Expr *u = byteAt(x, o1 + i), *v = byteAt(y, o2 + i); r = X.ite(X.eq(u, v), r, X.bin(SUB, X.zext(u, 32), X.zext(v, 32))); }
        return ret(fromE(r)); }
    case B_STRLEN: { u64 p = C(0), n = 0; for (;; n++) { Val c = loadC(p + n, 8); if (!c.e ? c.c == 0 : decide(X.eq(X.constant(0, 8), c.e))) return ret(V(n)); } }
    case B_MEMCHR: { u64 n = C(2); if (!n) return ret(V(0)); u64 p = C(0); Expr* ch = X.extract(toE(a[1], 32), 0, 8); for (u64 i = 0; i < n; i++) { Val c = loadC(p + i, 8); if (decide(X.eq(ch, toE(c, 8)))) return ret(V(p + i)); } return ret(V(0)); }
    case B_ISCONC: { u64 p = C(0), n = C(1); for (u64 i = 0; i < n; i++) if (loadC(p + i, 8).e) return ret(V(0)); return ret(V(1)); }
    case B_FRESH: {
        u64 p = C(0), n = C(1); u64 off; lookup(p, n, off, true, "vf_fresh");
        u32 first = st->nextSym; st->nextSym += (u32)n; S->ensure(st->pc, st->nextSym - 1);
        for (u64 i = 0; i < n; i++) { storeC(p + i, Val{0, X.sym(first + (u32)i)}, 8); st->fresh.push_back(first + (u32)i); }
        return 0; }
    case B_STRTOD: {
        u64 p = C(0), e = C(1); string s; bool sym = false;
        for (u64 q = p;; q++) { Val v = loadC(q, 8); if (v.e) { sym = true; } if (!v.e && v.c == 0) break; s += (char)(v.e ? (u8)concretize(v) : (u8)v.c); }
        (void)sym; char* end; double d = strtod(s.c_str(), &end);
        if (e) storeC(e, V(p + (end - s.c_str())), 64);
        return ret(V((u64)fromD(d))); }
    case B_FMATH1: {
        const string& n = cal->name; 
        if (n == "floor") return ret(un(FRND, 64, a[0], 64, 0)); if (n == "ceil") return ret(un(FRND, 64, a[0], 64, 1)); if (n == "trunc") return ret(un(FRND, 64, a[0], 64, 2)); if (n == "round") return ret(un(FRND, 64, a[0], 64, 3));
        if (n == "sqrt") return ret(un(FSQRT, 64, a[0], 64)); if (n == "fabs") return ret(binop(LLVMAnd, a[0], V(INT64_MAX), 64)); if (n == "fmod") return ret(binop(LLVMFRem, a[0], a[1], 64));
        if (a[0].e || (a.size() > 1 && a[1].e)) inconclusive("symbolic " + n);
        double x = asD(a[0].c), r = 0; if (n == "pow") r = pow(x, asD(a[1].c)); else if (n == "log10") r = log10(x); else if (n == "log") r = log(x); else if (n == "exp") r = exp(x); else if (n == "ldexp") r = ldexp(x, (int)a[1].c); else inconclusive(n);
        return ret(V((u64)fromD(r))); }
    case B_UNCAUGHT: return ret(V(0));
    case B_CXA_ALLOC: return ret(V(allocObj(C(0), OK_EXC, 0)));
    case B_CXA_FREE: { u64 p = C(0); st->mem.writable(p >> 32)->freed = true; return 0; }
    case B_CXA_THROW: { Caught ex{C(0), C(1), C(2), 0, false}; st->excInfo[ex.obj] = ex; unwind(ex, true); return 1; }
    case B_CXA_RETHROW: { if (st->caught.empty()) violate("terminate", "rethrow without exception"); Caught ex = st->caught.back(); st->caught.back().rethrown = true; st->excInfo[ex.obj] = ex; unwind(ex, true); return 1; }
    case B_CXA_GETPTR: return ret(a[0]);
    case B_CXA_BEGIN: {
        u64 p = C(0); auto it = st->excInfo.find(p); if (it == st->excInfo.end()) inconclusive("begin_catch");
        if (!st->caught.empty() && st->caught.back().obj == p) { st->caught.back().handlers++; st->caught.back().rethrown = false; }
        else { Caught c = it->second; c.handlers = 1; c.rethrown = false; st->caught.push_back(c); }
        return ret(V(it->second.recv ? it->second.recv : p)); }
    case B_CXA_END: {
        if (st->caught.empty()) return 0;
        Caught& c = st->caught.back(); c.handlers--;
        if (c.handlers > 0) return 0;
        Caught ex = c; st->caught.pop_back();
        if (ex.rethrown) return 0;
        if (ex.dtor) {
            Fn* d = ex.dtor >= FBASE ? fns[(ex.dtor - FBASE) / 16] : nullptr;
            if (d && !d->decl) { pushCallFwd(d, ex.obj); st->fr.back().kind = 1; st->fr.back().excObj = ex.obj; return 1; }
        }
        st->mem.writable(ex.obj >> 32)->freed = true;
        return 0; }
    case B_GUARD_ACQ: { Val v = loadC(C(0), 8); return ret(V(v.c == 0)); }
    case B_GUARD_REL: storeC(C(0), V(1), 8); return 0;
    case B_NOOP0: return ret(V(0));
    case B_TERM: violate("terminate", demangle(cal->name) + " called");
    case I_TRAP: violate("undefined", "trap (undefined behaviour check)");
    case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: {
        int pr = b == I_UMIN ? LLVMIntULT : b == I_UMAX ? LLVMIntUGT : b == I_SMIN ? LLVMIntSLT : LLVMIntSGT; int n = I.nd; 
        for (int j = 0; j < n; j++) { Val x = a[j], y = a[n + j]; Val c = icmp(pr, x, y, w); if (!c.e) rv.push_back(c.c ? x : y); else rv.push_back(fromE(X.ite(c.e, toE(x, w), toE(y, w)))); }
        return 0; }
    case I_ABS: { Val c = icmp(LLVMIntSLT, a[0], V(0), w), n = binop(LLVMSub, V(0), a[0], w); if (!c.e) return ret(c.c ? n : a[0]); return ret(decide(c.e) ? n : a[0]); }
    case I_CTLZ: case I_CTTZ: {
        if (!a[0].e) { u64 n = w; for (unsigned i = 0; i < w; i++) { unsigned bit = b == I_CTLZ ? w - 1 - i : i; if ((a[0].c >> bit) & 1) { n = i; break; } } return ret(V(n)); }
        Expr* e = a[0].e; Expr* r = X.constant(w, w);
        for (unsigned i = w; i-- > 0;) { unsigned bit = b == I_CTLZ ? w - 1 - i : i; r = X.ite(X.extract(e, bit, 1), X.constant(i, w), r); }
        return ret(fromE(r)); }
    case I_CTPOP: { if (!a[0].e) return ret(V(__builtin_popcountll(a[0].c))); Expr* r = X.constant(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(ADD, r, X.zext(X.extract(a[0].e, i, 1), w)); return ret(fromE(r)); }
    case I_BSWAP: { Expr* e = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* p = X.extract(e, i * 8, 8); r = r ? X.concat(r, p) : p; } return ret(fromE(r)); }
    case I_BITREV: { Expr* e = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w; i++) { Expr* p = X.extract(e, i, 1); r = r ? X.concat(r, p) : p; } return ret(fromE(r)); }
    case I_FSHL: case I_FSHR: {
        int n = I.nd;
        for (int j = 0; j < n; j++) {
            u64 s = C(2 * n + j) % w; Val x = a[j], y = a[n + j];
            Expr* full = X.concat(toE(x, w), toE(y, w)); if (2 * w > 128) { // avoid over-wide concats
                Val hi, lo; if (b == I_FSHL) { if (!s) { rv.push_back(x); continue; } hi = binop(LLVMShl, x, V(s), w); lo = binop(LLVMLShr, y, V(w - s), w); } else { if (!s) { rv.push_back(y); continue; } hi = binop(LLVMShl, x, V(w - s), w); lo = binop(LLVMLShr, y, V(s), w); }
                rv.push_back(binop(LLVMOr, hi, lo, w)); continue; }
            rv.push_back(fromE(b == I_FSHL ? X.extract(full, (unsigned)(w - s), w) : X.extract(full, (unsigned)s, w)));
        }
        return 0; }
    case I_UADDO: case I_USUBO: case I_SADDO: case I_SSUBO: case I_UMULO: case I_SMULO: {
        bool sg = b == I_SADDO || b == I_SSUBO || b == I_SMULO; K k = (b == I_UADDO || b == I_SADDO) ? ADD : (b == I_USUBO || b == I_SSUBO) ? SUB : MUL; unsigned W = k == MUL ? 2 * w : w + 1; if (W > 128) throw Unsupported("overflow intrinsic width");
        Expr *x = toE(a[0], w), *y = toE(a[1], w); Expr *xe = sg ? X.sext(x, W) : X.zext(x, W), *ye = sg ? X.sext(y, W) : X.zext(y, W);
        Expr* r = X.bin(k, x, y); Expr* full = X.bin(k, xe, ye); Expr* back = sg ? X.sext(r, W) : X.zext(r, W);
        rv.push_back(fromE(r)); rv.push_back(fromE(X.lnot(X.eq(full, back)))); return 0; }
    case I_UADDS: { Val s = binop(LLVMAdd, a[0], a[1], w); Val o = icmp(LLVMIntULT, s, a[0], w); if (!o.e) return ret(o.c ? V(m64(w)) : s); return ret(fromE(X.ite(o.e, X.constant(maskw(w), w), toE(s, w)))); }
    case I_USUBS: { Val s = binop(LLVMSub, a[0], a[1], w); Val o = icmp(LLVMIntULT, a[0], a[1], w); if (!o.e) return ret(o.c ? V(0) : s); return ret(fromE(X.ite(o.e, X.constant(0, w), toE(s, w)))); }
    case I_FLOOR: return ret(un(FRND, w, a[0], w, 0)); case I_CEIL: return ret(un(FRND, w, a[0], w, 1)); case I_TRUNC: return ret(un(FRND, w, a[0], w, 2)); case I_ROUND: return ret(un(FRND, w, a[0], w, 3)); case I_RINT: return ret(un(FRND, w, a[0], w, 4));
    case I_FABS: return ret(binop(LLVMAnd, a[0], V(m64(w - 1)), w)); case I_SQRT: return ret(un(FSQRT, w, a[0], w));
    case I_COPYSIGN: return ret(binop(LLVMOr, binop(LLVMAnd, a[0], V(m64(w - 1)), w), binop(LLVMAnd, a[1], V(1ull << (w - 1)), w), w));
    case I_FMA: return ret(binop(LLVMFAdd, binop(LLVMFMul, a[0], a[1], w), a[2], w));
    case I_MINNUM: case I_MAXNUM: { Val c = fcmp(b == I_MINNUM ? LLVMRealOLT : LLVMRealOGT, a[0], a[1], w); Val n = fcmp(LLVMRealUNO, a[1], a[1], w); Expr* e = X.bin(OR, toE(c, 1), toE(n, 1)); return ret(fromE(X.ite(e, toE(a[0], w), toE(a[1], w)))); }
    case I_FPCLASS: {
        u64 m = C(1); Expr* e = toE(a[0], w); unsigned mb = w == 64 ? 52 : 23; Expr* ex = X.extract(e, mb, w - 1 - mb); Expr* fr = X.extract(e, 0, mb); Expr* sg = X.extract(e, w - 1, 1);
        Expr* exMax = X.eq(X.constant(maskw(w - 1 - mb), w - 1 - mb), ex); Expr* ex0 = X.eq(X.constant(0, w - 1 - mb), ex); Expr* fr0 = X.eq(X.constant(0, mb), fr); Expr* q = X.extract(e, mb - 1, 1); Expr* r = X.F;
        auto A = [&](Expr* x, Expr* y) { return X.bin(AND, x, y); }; auto N = [&](Expr* x) { return X.lnot(x); };
        Expr *nan = A(exMax, N(fr0)), *inf = A(exMax, fr0), *norm = A(N(exMax), N(ex0)), *sub = A(ex0, N(fr0)), *zero = A(ex0, fr0);
        Expr* cls[10] = {A(nan, N(q)), A(nan, q), A(inf, sg), A(norm, sg), A(sub, sg), A(zero, sg), A(zero, N(sg)), A(sub, N(sg)), A(norm, N(sg)), A(inf, N(sg))};
        for (int i = 0; i < 10; i++) if (m >> i & 1) r = X.bin(OR, r, cls[i]);
        return ret(fromE(r)); }
    case I_EXPECT: return ret(a[0]);
    case I_ISCONST: return ret(V(0));
    case I_OBJECTSIZE: return ret(V(m64(I.w)));
    case I_TYPEID: return ret(V((u64)(u32)tiId(C(0))));
    case I_STACKSAVE: return ret(V(0));
    case I_IGNORE: return 0;
    }
    inconclusive("builtin");
}
