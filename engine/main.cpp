// vse: symbolic executor for LLVM-18 bitcode (C++ runtime semantics, byte-level memory model, Z3).
#include "solver.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cxxabi.h>
#include <deque>
#include <set>
#include <unordered_set>

using std::string; using std::vector;

static Exprs X;
static Solver* S;

struct Val { u64 c; Expr* e; };
static inline Val V(u64 c) { return Val{c, nullptr}; }
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val fromE(Expr* e) { if (e->k == CONST && e->w <= 64) return Val{(u64)e->val, nullptr}; return Val{0, e}; }
static inline Expr* toE(Val v, unsigned w) { return v.e ? v.e : X.constant(v.c, w); }
static inline bool conc(Val v) { return !v.e; }

// ------------------------------------------------------------------ memory
static const u64 OBASE = 0x10000;
static const u64 FBASE = 0x7000000000000000ull;
enum { OK_GLOBAL, OK_STACK, OK_HEAP, OK_NEW, OK_NEWARR, OK_EXC };

struct Obj {
    int rc = 1; u8 kind = OK_HEAP; bool ro = false; bool freed = false;
    u64 size = 0;
    u8* data = nullptr; Expr** sym = nullptr;
    u32 site = 0;
    ~Obj() { free(data); free(sym); }
};
struct Chunk { int rc = 1; Obj* o[256]; Chunk() { memset(o, 0, sizeof o); } };
static inline void unref(Obj* o) { if (o && --o->rc == 0) delete o; }
static inline void unref(Chunk* c) { if (c && --c->rc == 0) { for (auto* o : c->o) unref(o); delete c; } }

struct Mem {
    vector<Chunk*> ch;
    Mem() {}
    Mem(const Mem& m) : ch(m.ch) { for (auto* c : ch) if (c) c->rc++; }
    Mem& operator=(const Mem&) = delete;
    ~Mem() { for (auto* c : ch) unref(c); }
    Obj* get(u64 id) const { size_t k = id >> 8; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 255]; }
    Obj** slot(u64 id) {
        size_t k = id >> 8;
        if (k >= ch.size()) ch.resize(k + 1);
        if (!ch[k]) ch[k] = new Chunk;
        else if (ch[k]->rc > 1) { auto* n = new Chunk; for (int i = 0; i < 256; i++) { n->o[i] = ch[k]->o[i]; if (n->o[i]) n->o[i]->rc++; } ch[k]->rc--; ch[k] = n; }
        return &ch[k]->o[id & 255];
    }
    void set(u64 id, Obj* o) { Obj** s = slot(id); if (*s) unref(*s); *s = o; }
    Obj* writable(u64 id) {
        Obj** s = slot(id); Obj* o = *s;
        if (o->rc > 1) {
            auto* n = new Obj; n->kind = o->kind; n->ro = o->ro; n->freed = o->freed; n->size = o->size; n->site = o->site;
            n->data = (u8*)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
            if (o->sym) { n->sym = (Expr**)malloc(sizeof(Expr*) * (o->size ? o->size : 1)); memcpy(n->sym, o->sym, sizeof(Expr*) * o->size); }
            o->rc--; *s = n; o = n;
        }
        return o;
    }
};

// ------------------------------------------------------------------ program
struct Leaf { u64 off; unsigned w; bool fp; bool ptr; };
struct Opnd { int slot = -1; vector<Val> imm; };
struct Inst;
struct BB;
struct Fn;
struct CaseT { u64 v; int bb; };
struct GepTerm { Opnd o; u64 scale; unsigned w; };
struct Clause { bool filter; bool nullTI; u64 ti; bool emptyFilter; };

enum { X_INTRIN = 200, X_NOP };

struct Inst {
    int opc = 0; int sub = 0;
    unsigned w = 0, w2 = 0;      // result / operand width (per leaf)
    int dst = -1; int nd = 0;
    vector<Opnd> ops;
    vector<Leaf> leaves;
    vector<int> wl;              // widths of leaves for element-wise ops
    u64 imm = 0;                 // gep const offset / alloca elem size / ...
    vector<GepTerm> gep;
    vector<CaseT> cases;
    int bb1 = -1, bb2 = -1;
    Fn* callee = nullptr;
    int builtin = 0;
    vector<int> byval;           // per arg: byval size or -1
    vector<Clause> clauses; bool cleanup = false;
    bool ptrRes = false;
    LLVMValueRef v = nullptr;
    string name;
};
struct Edge { vector<std::pair<int, Opnd>> copies; };
struct BB { vector<Inst> in; std::map<int, Edge> edges; int nphi = 0; };
struct Fn {
    LLVMValueRef v; string name; int idx; bool decl; bool compiled = false; bool executed = false;
    int nslots = 0; vector<int> argSlot; vector<vector<Leaf>> argLeaves; int nargs = 0;
    vector<BB> bbs; vector<int> byval; u64 calls = 0; u32 ninst = 0; bool noUnwind = false; bool varargs = false;
};

static LLVMModuleRef M; static LLVMTargetDataRef TD;
static vector<Fn*> fns; static std::unordered_map<LLVMValueRef, Fn*> fnOf; static std::map<string, Fn*> fnByName;
static std::unordered_map<LLVMValueRef, u64> globAddr; static std::unordered_map<u64, string> addrName;
static std::map<string, u64> globByName;
static std::map<string, int> builtins;
static u64 nextGlobId = 1;

static void leavesOf(LLVMTypeRef t, u64 off, vector<Leaf>& out) {
    switch (LLVMGetTypeKind(t)) {
    case LLVMVoidTypeKind: return;
    case LLVMIntegerTypeKind: { unsigned w = LLVMGetIntTypeWidth(t); if (w > 128) throw Unsupported("int > 128"); out.push_back({off, w, false, false}); return; }
    case LLVMFloatTypeKind: out.push_back({off, 32, true, false}); return;
    case LLVMDoubleTypeKind: out.push_back({off, 64, true, false}); return;
    case LLVMPointerTypeKind: out.push_back({off, 64, false, true}); return;
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) leavesOf(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), out); return; }
    case LLVMArrayTypeKind: { u64 n = LLVMGetArrayLength2(t); auto e = LLVMGetElementType(t); u64 s = LLVMABISizeOfType(TD, e); for (u64 i = 0; i < n; i++) leavesOf(e, off + i * s, out); return; }
    case LLVMVectorTypeKind: { unsigned n = LLVMGetVectorSize(t); auto e = LLVMGetElementType(t); u64 bits = LLVMSizeOfTypeInBits(TD, e); for (unsigned i = 0; i < n; i++) leavesOf(e, off + i * bits / 8, out); return; }
    default: throw Unsupported("type kind " + std::to_string(LLVMGetTypeKind(t)));
    }
}
static vector<Leaf> leavesT(LLVMTypeRef t) { vector<Leaf> o; leavesOf(t, 0, o); return o; }

static Fn* getFn(LLVMValueRef v) {
    auto& f = fnOf[v];
    if (!f) {
        f = new Fn; f->v = v; size_t n; const char* s = LLVMGetValueName2(v, &n); f->name = string(s, n); f->idx = (int)fns.size(); f->decl = LLVMIsDeclaration(v);
        fns.push_back(f); fnByName[f->name] = f;
    }
    return f;
}
static u128 parseWide(LLVMValueRef c) {
    char* s = LLVMPrintValueToString(c); string t(s); LLVMDisposeMessage(s);
    t = t.substr(t.rfind(' ') + 1);
    bool neg = t[0] == '-'; u128 r = 0;
    for (char ch : t) if (ch >= '0' && ch <= '9') r = r * 10 + (ch - '0');
    return neg ? -r : r;
}
static Val mkW(u128 v, unsigned w) { if (w <= 64) return V((u64)v & m64(w)); return Val{0, X.constant(v, w)}; }

static void constLeaves(LLVMValueRef c, vector<Val>& out);
static Val constScalar(LLVMValueRef c) { vector<Val> o; constLeaves(c, o); if (o.size() != 1) throw Unsupported("const scalar"); return o[0]; }
static u64 gepConst(LLVMValueRef c) {
    u64 base = constScalar(LLVMGetOperand(c, 0)).c;
    LLVMTypeRef t = LLVMGetGEPSourceElementType(c);
    unsigned n = LLVMGetNumOperands(c);
    for (unsigned i = 1; i < n; i++) {
        s64 idx = (s64)sextw(constScalar(LLVMGetOperand(c, i)).c, LLVMGetIntTypeWidth(LLVMTypeOf(LLVMGetOperand(c, i))));
        if (i == 1) base += idx * LLVMABISizeOfType(TD, t);
        else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { base += LLVMOffsetOfElement(TD, t, (unsigned)idx); t = LLVMStructGetTypeAtIndex(t, (unsigned)idx); }
        else { t = LLVMGetElementType(t); base += idx * LLVMABISizeOfType(TD, t); }
    }
    return base;
}
static void constLeaves(LLVMValueRef c, vector<Val>& out) {
    LLVMTypeRef t = LLVMTypeOf(c);
    if (LLVMIsAConstantInt(c)) {
        unsigned w = LLVMGetIntTypeWidth(t);
        if (w <= 64) out.push_back(V(LLVMConstIntGetZExtValue(c) & m64(w))); else out.push_back(mkW(parseWide(c), w));
        return;
    }
    if (LLVMIsAConstantFP(c)) {
        LLVMBool l; double d = LLVMConstRealGetDouble(c, &l);
        if (LLVMGetTypeKind(t) == LLVMFloatTypeKind) out.push_back(V((u64)fromF((float)d)));
        else if (LLVMGetTypeKind(t) == LLVMDoubleTypeKind) out.push_back(V((u64)fromD(d)));
        else throw Unsupported("fp const type");
        return;
    }
    if (LLVMIsAFunction(c)) { out.push_back(V(FBASE + (u64)getFn(c)->idx * 16)); return; }
    if (LLVMIsAGlobalVariable(c)) { auto it = globAddr.find(c); if (it == globAddr.end()) throw Unsupported("global"); out.push_back(V(it->second)); return; }
    if (LLVMIsAGlobalAlias(c)) { constLeaves(LLVMAliasGetAliasee(c), out); return; }
    if (LLVMIsNull(c) || LLVMIsUndef(c) || LLVMIsPoison(c) || LLVMIsAConstantAggregateZero(c)) {
        for (auto& l : leavesT(t)) out.push_back(mkW(0, l.w));
        return;
    }
    if (LLVMIsAConstantStruct(c) || LLVMIsAConstantArray(c) || LLVMIsAConstantVector(c)) {
        for (int i = 0, n = LLVMGetNumOperands(c); i < n; i++) constLeaves(LLVMGetOperand(c, i), out);
        return;
    }
    if (LLVMIsAConstantDataArray(c) || LLVMIsAConstantDataVector(c)) {
        unsigned n = LLVMGetTypeKind(t) == LLVMArrayTypeKind ? (unsigned)LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
        for (unsigned i = 0; i < n; i++) constLeaves(LLVMGetElementAsConstant(c, i), out);
        return;
    }
    if (LLVMIsAConstantExpr(c)) {
        switch (LLVMGetConstOpcode(c)) {
        case LLVMGetElementPtr: out.push_back(V(gepConst(c))); return;
        case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: {
            Val v = constScalar(LLVMGetOperand(c, 0)); auto l = leavesT(t); v.c &= m64(l[0].w); out.push_back(v); return; }
        case LLVMTrunc: { Val v = constScalar(LLVMGetOperand(c, 0)); out.push_back(V(v.c & m64(LLVMGetIntTypeWidth(t)))); return; }
        case LLVMAdd: out.push_back(V((constScalar(LLVMGetOperand(c, 0)).c + constScalar(LLVMGetOperand(c, 1)).c) & m64(LLVMGetIntTypeWidth(t)))); return;
        case LLVMSub: out.push_back(V((constScalar(LLVMGetOperand(c, 0)).c - constScalar(LLVMGetOperand(c, 1)).c) & m64(LLVMGetIntTypeWidth(t)))); return;
        default: break;
        }
    }
    char* s = LLVMPrintValueToString(c); string t2(s); LLVMDisposeMessage(s);
    throw Unsupported("constant " + t2.substr(0, 200));
}

// ---- function compilation
static unsigned kByVal;
static int icmpMap(LLVMIntPredicate p) { return (int)p; }

static void compile(Fn* f) {
    f->compiled = true;
    std::unordered_map<LLVMValueRef, int> slot; std::unordered_map<LLVMBasicBlockRef, int> bbi;
    int ns = 0;
    unsigned np = LLVMCountParams(f->v);
    f->nargs = np;
    f->varargs = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f->v));
    for (unsigned i = 0; i < np; i++) {
        auto p = LLVMGetParam(f->v, i); auto l = leavesT(LLVMTypeOf(p));
        slot[p] = ns; f->argSlot.push_back(ns); f->argLeaves.push_back(l); ns += l.size();
        auto at = LLVMGetEnumAttributeAtIndex(f->v, i + 1, kByVal);
        f->byval.push_back(at ? (int)LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)) : -1);
    }
    int nb = 0;
    for (auto b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) {
        bbi[b] = nb++;
        for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            auto t = LLVMTypeOf(i);
            if (LLVMGetTypeKind(t) == LLVMVoidTypeKind) continue;
            vector<Leaf> l; try { l = leavesT(t); } catch (Unsupported&) { l.assign(1, {0, 64, false, false}); }
            slot[i] = ns; ns += l.size();
        }
    }
    f->nslots = ns;
    auto opnd = [&](LLVMValueRef v) {
        Opnd o; auto it = slot.find(v);
        if (it != slot.end()) { o.slot = it->second; return o; }
        constLeaves(v, o.imm); return o;
    };
    f->bbs.resize(nb);
    int bi = 0;
    for (auto b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b), bi++) {
        BB& B = f->bbs[bi];
        for (auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
            LLVMOpcode op = LLVMGetInstructionOpcode(i);
            if (op == LLVMPHI) {
                int d = slot[i]; auto l = leavesT(LLVMTypeOf(i));
                for (unsigned k = 0; k < LLVMCountIncoming(i); k++) {
                    Opnd o = opnd(LLVMGetIncomingValue(i, k));
                    auto& E = B.edges[bbi[LLVMGetIncomingBlock(i, k)]];
                    // avoid duplicates (same pred listed twice)
                    bool dup = false; for (auto& c : E.copies) if (c.first == d) dup = true;
                    if (dup) continue;
                    for (size_t q = 0; q < l.size(); q++) { Opnd oq; if (o.slot >= 0) oq.slot = o.slot + q; else oq.imm = {o.imm[q]}; E.copies.push_back({d + (int)q, oq}); }
                }
                continue;
            }
            Inst I; I.opc = op; I.v = i; f->ninst++;
            auto t = LLVMTypeOf(i);
            try {
                if (LLVMGetTypeKind(t) != LLVMVoidTypeKind) { I.dst = slot[i]; I.leaves = leavesT(t); I.nd = I.leaves.size(); if (I.nd) { I.w = I.leaves[0].w; I.ptrRes = I.leaves[0].ptr; } }
                switch (op) {
                case LLVMRet: if (LLVMGetNumOperands(i)) { auto o = LLVMGetOperand(i, 0); I.ops.push_back(opnd(o)); I.nd = leavesT(LLVMTypeOf(o)).size(); } else I.nd = 0; break;
                case LLVMBr:
                    if (LLVMIsConditional(i)) { I.ops.push_back(opnd(LLVMGetCondition(i))); I.bb1 = bbi[LLVMGetSuccessor(i, 0)]; I.bb2 = bbi[LLVMGetSuccessor(i, 1)]; }
                    else I.bb1 = bbi[LLVMGetSuccessor(i, 0)];
                    break;
                case LLVMSwitch: {
                    I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.w2 = LLVMGetIntTypeWidth(LLVMTypeOf(LLVMGetOperand(i, 0)));
                    I.bb1 = bbi[LLVMGetSwitchDefaultDest(i)];
                    for (int k = 2, n = LLVMGetNumOperands(i); k < n; k += 2) I.cases.push_back({constScalar(LLVMGetOperand(i, k)).c, bbi[LLVMValueAsBasicBlock(LLVMGetOperand(i, k + 1))]});
                    break; }
                case LLVMUnreachable: break;
                case LLVMInvoke: case LLVMCall: {
                    LLVMValueRef cv = LLVMGetCalledValue(i);
                    while (LLVMIsAGlobalAlias(cv)) cv = LLVMAliasGetAliasee(cv);
                    unsigned n = LLVMGetNumArgOperands(i);
                    if (op == LLVMInvoke) { I.bb1 = bbi[LLVMGetNormalDest(i)]; I.bb2 = bbi[LLVMGetUnwindDest(i)]; }
                    if (LLVMIsAFunction(cv)) {
                        I.callee = getFn(cv); I.name = I.callee->name;
                        if (I.name.rfind("llvm.dbg", 0) == 0 || I.name.rfind("llvm.lifetime", 0) == 0 || I.name.rfind("llvm.experimental.noalias", 0) == 0 || I.name == "llvm.assume" || I.name.rfind("llvm.invariant", 0) == 0 || I.name=="llvm.donothing") { I.opc = X_NOP; break; }
                    }
                    for (unsigned k = 0; k < n; k++) {
                        auto a = LLVMGetOperand(i, k);
                        if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) { I.ops.push_back(Opnd()); I.wl.push_back(0); continue; }
                        I.ops.push_back(opnd(a)); auto l = leavesT(LLVMTypeOf(a)); I.wl.push_back(l.size());
                        if (k == 0 && !l.empty()) { I.w2 = l[0].w; I.sub = l.size(); }
                    }
                    if (!I.callee) { if (LLVMIsAInlineAsm(cv)) { I.opc = X_NOP; break; } I.ops.push_back(opnd(cv)); }
                    break; }
                case LLVMResume: I.ops.push_back(opnd(LLVMGetOperand(i, 0))); break;
                case LLVMLandingPad: {
                    I.cleanup = LLVMIsCleanup(i);
                    for (unsigned k = 0; k < LLVMGetNumClauses(i); k++) {
                        auto c = LLVMGetClause(i, k); Clause cl{false, false, 0, false};
                        if (LLVMGetTypeKind(LLVMTypeOf(c)) == LLVMArrayTypeKind) { cl.filter = true; cl.emptyFilter = LLVMGetArrayLength2(LLVMTypeOf(c)) == 0; }
                        else { cl.ti = constScalar(c).c; cl.nullTI = cl.ti == 0; }
                        I.clauses.push_back(cl);
                    }
                    break; }
                case LLVMAlloca: {
                    I.imm = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); I.ops.push_back(opnd(LLVMGetOperand(i, 0))); break; }
                case LLVMLoad: I.ops.push_back(opnd(LLVMGetOperand(i, 0))); break;
                case LLVMStore: { I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); I.leaves = leavesT(LLVMTypeOf(LLVMGetOperand(i, 0))); break; }
                case LLVMGetElementPtr: {
                    I.ops.push_back(opnd(LLVMGetOperand(i, 0)));
                    if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) throw Unsupported("vector gep");
                    LLVMTypeRef ty = LLVMGetGEPSourceElementType(i);
                    for (int k = 1, n = LLVMGetNumOperands(i); k < n; k++) {
                        auto ix = LLVMGetOperand(i, k); u64 scale;
                        if (k > 1 && LLVMGetTypeKind(ty) == LLVMStructTypeKind) {
                            unsigned e = (unsigned)LLVMConstIntGetZExtValue(ix); I.imm += LLVMOffsetOfElement(TD, ty, e); ty = LLVMStructGetTypeAtIndex(ty, e); continue;
                        }
                        if (k > 1) ty = LLVMGetElementType(ty);
                        scale = LLVMABISizeOfType(TD, ty);
                        unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(ix));
                        if (LLVMIsAConstantInt(ix)) I.imm += (u64)LLVMConstIntGetSExtValue(ix) * scale;
                        else I.gep.push_back({opnd(ix), scale, w});
                    }
                    break; }
                case LLVMExtractValue: case LLVMInsertValue: {
                    auto agg = LLVMGetOperand(i, 0); LLVMTypeRef ty = LLVMTypeOf(agg); unsigned leafOff = 0;
                    const unsigned* ix = LLVMGetIndices(i); unsigned n = LLVMGetNumIndices(i);
                    for (unsigned k = 0; k < n; k++) {
                        if (LLVMGetTypeKind(ty) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) leafOff += leavesT(LLVMStructGetTypeAtIndex(ty, q)).size(); ty = LLVMStructGetTypeAtIndex(ty, ix[k]); }
                        else { ty = LLVMGetElementType(ty); leafOff += ix[k] * leavesT(ty).size(); }
                    }
                    I.imm = leafOff; I.ops.push_back(opnd(agg));
                    if (op == LLVMInsertValue) { I.ops.push_back(opnd(LLVMGetOperand(i, 1))); I.sub = leavesT(LLVMTypeOf(LLVMGetOperand(i, 1))).size(); }
                    break; }
                case LLVMExtractElement: I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); I.sub = leavesT(LLVMTypeOf(LLVMGetOperand(i, 0))).size(); break;
                case LLVMInsertElement: I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); I.ops.push_back(opnd(LLVMGetOperand(i, 2))); break;
                case LLVMShuffleVector: {
                    I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); I.sub = leavesT(LLVMTypeOf(LLVMGetOperand(i, 0))).size();
                    for (unsigned k = 0; k < LLVMGetNumMaskElements(i); k++) I.wl.push_back(LLVMGetMaskValue(i, k));
                    break; }
                case LLVMICmp: I.sub = icmpMap(LLVMGetICmpPredicate(i)); goto bin2;
                case LLVMFCmp: I.sub = (int)LLVMGetFCmpPredicate(i); goto bin2;
                bin2: {
                    auto l = leavesT(LLVMTypeOf(LLVMGetOperand(i, 0))); I.w2 = l[0].w;
                    I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); break; }
                case LLVMSelect: {
                    for (int k = 0; k < 3; k++) I.ops.push_back(opnd(LLVMGetOperand(i, k)));
                    I.sub = leavesT(LLVMTypeOf(LLVMGetOperand(i, 0))).size(); break; }
                case LLVMBitCast: {
                    auto o = LLVMGetOperand(i, 0); I.ops.push_back(opnd(o)); for (auto& l : leavesT(LLVMTypeOf(o))) I.wl.push_back(l.w); break; }
                case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: case LLVMAddrSpaceCast: case LLVMFNeg: case LLVMFreeze: {
                    auto o = LLVMGetOperand(i, 0); I.ops.push_back(opnd(o)); auto l = leavesT(LLVMTypeOf(o)); if (!l.empty()) I.w2 = l[0].w; break; }
                case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem:
                    I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); break;
                case LLVMFence: I.opc = X_NOP; break;
                case LLVMAtomicRMW: I.sub = (int)LLVMGetAtomicRMWBinOp(i); I.ops.push_back(opnd(LLVMGetOperand(i, 0))); I.ops.push_back(opnd(LLVMGetOperand(i, 1))); break;
                case LLVMAtomicCmpXchg: for (int k = 0; k < 3; k++) I.ops.push_back(opnd(LLVMGetOperand(i, k))); break;
                default: throw Unsupported("opcode " + std::to_string(op));
                }
            } catch (Unsupported& u) { I.opc = -1; I.name = u.what(); }
            B.in.push_back(std::move(I));
        }
    }
}

// ------------------------------------------------------------------ state
struct Frame { Fn* fn; int bb, ip; u32 base; vector<u32> allocas; int kind = 0; u64 excObj = 0; };
struct SymRec { string name; u32 first, n; };
struct Caught { u64 obj; u64 ti; u64 dtor; int handlers; bool rethrown; u64 recv = 0; };
struct Obs { Val v; };
struct State {
    Mem mem; vector<Frame> fr; vector<Val> regs; PC pc;
    vector<SymRec> syms; u32 nextSym = 0; vector<u32> fresh;
    vector<Caught> caught; vector<Caught> inflight;
    vector<std::pair<Expr*, u128>> known;
    vector<Obs> obs; vector<u32> reached;
    u64 steps = 0; u64 nextId; vector<u32> freeIds; std::map<u64, Caught> excInfo;
    u64 heapBytes = 0; u64 depthForks = 0;
    vector<Fn*> pending;
    bool inMain = false;
};

struct Violation { string kind, msg, where; vector<u8> input; string names; };
struct Witness { vector<u8> input; vector<u64> obs; };

static struct Cfg {
    u64 maxSteps = 20000000; double timeLimit = 600; int maxWit = 40; u64 maxAlloc = 1ull << 26; u64 maxDepth = 12000; string outDir; int workers = 1; string tokens;
    u64 maxHeap = 512ull << 20; int maxViol = 12; bool stopOnViol = true; bool verbose = false; size_t memMB = 6000;
} cfg;
static struct Res {
    u64 paths = 0, assumed = 0, inconclusive = 0, insts = 0, forks = 0, concretized = 0; std::map<string, u64> incReasons; vector<Violation> viol; vector<Witness> wit; std::set<string> reached; bool timedOut = false; u64 leftover = 0; std::map<string,u64> checksConst, checksSolver; u64 witSeen = 0;
} R;
static vector<string> labels; static std::map<string, u32> labelIdx;
static std::map<string, string> params;

static vector<State*> work;
static State* st;                 // current
struct PathEnd { };               // thrown to terminate current path
static double t0Run;

static string demangle(const string& s) { int r; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &r); if (!d) return s; string o = d; free(d); return o; }
static string whereStr(int max = 12) {
    string s; int n = 0;
    for (int i = (int)st->fr.size() - 1; i >= 0 && n < max; i--, n++) { string d = demangle(st->fr[i].fn->name); if (d.size() > 160) d = d.substr(0, 160); s += (n ? " <- " : "") + d; }
    return s;
}
static void report(const string& kind, const string& msg, vector<u8> model) {
    Violation v; v.kind = kind; v.msg = msg; v.where = whereStr();
    for (auto& r : st->syms) { v.names += r.name + ":" + std::to_string(r.n) + ";"; for (u32 i = 0; i < r.n; i++) v.input.push_back(r.first + i < model.size() ? model[r.first + i] : 0); }
    int same = 0; for (auto& o : R.viol) if (o.kind == kind && o.msg == msg) same++;
    if (same < 3 && R.viol.size() < 40) R.viol.push_back(v);
    if (cfg.verbose) { fprintf(stderr, "[viol] %s: %s @ %s\n  input:", kind.c_str(), msg.c_str(), v.where.c_str()); for (u8 b : v.input) fprintf(stderr, " %02x", b); fprintf(stderr, "\n"); }
}
[[noreturn]] static void violate(const string& kind, const string& msg) { report(kind, msg, st->pc.model); throw PathEnd(); }
[[noreturn]] static void inconclusive(const string& why) { R.inconclusive++; R.incReasons[why]++; throw PathEnd(); }

static State* fork1() { R.forks++; return new State(*st); }
static void pushOther(Expr* cond, vector<u8>& model) {
    State* o = fork1();
    o->pc.model = model; o->pc.modelEpoch = X.newEpoch();
    S->add(o->pc, cond);
    work.push_back(o);
}
// decide boolean expression on the current path, forking if both outcomes are feasible (other side re-executes the instruction)
static bool decide(Expr* c) {
    if (c->k == CONST) return c->val;
    auto& pc = st->pc;
    bool b = S->evalIn(pc, c) != 0;
    Expr* n = X.lnot(c);
    Expr *take = b ? c : n, *other = b ? n : c;
    if (S->determined(pc, c)) return b;
    for (auto& k : st->known) if (k.first == c) return b;
    for (auto* m : pc.multi) { if (m == take) return b; }
    vector<u8> model;
    int r = S->sat(pc, other, model);
    if (r == 1) { pushOther(other, model); S->add(pc, take); }
    else if (r == 0) { if (c->vars->v.size() > 1 && st->known.size() < 256) st->known.push_back({c, b}); }
    else { R.inconclusive++; R.incReasons["solver unknown (branch)"]++; S->add(pc, take); }
    return b;
}
static bool decideV(Val v) { return v.e ? decide(v.e) : (v.c & 1); }

static u128 concretizeW(Expr* e) {
    if (e->k == CONST) return e->val;
    auto& pc = st->pc;
    for (auto& k : st->known) if (k.first == e) return k.second;
    u128 v = S->evalIn(pc, e);
    if (S->determined(pc, e)) return v;
    Expr* eq = X.eq(X.constant(v, e->w), e);
    Expr* ne = X.lnot(eq);
    vector<u8> model;
    int r = S->sat(pc, ne, model);
    if (r == 1) { R.concretized++; if (getenv("VF_CONC")) { if (R.concretized < 40) fprintf(stderr, "concretize %s = %llu at %s\n", X.str(e, 5).c_str(), (unsigned long long)v, whereStr(4).c_str()); } pushOther(ne, model); S->add(pc, eq); }
    else if (r < 0) { R.inconclusive++; R.incReasons["solver unknown (concretize)"]++; S->add(pc, eq); }
    st->known.push_back({e, v});
    return v;
}
static u64 concretize(Val v) { return v.e ? (u64)concretizeW(v.e) : v.c; }

// ------------------------------------------------------------------ memory ops
static u64 allocObj(u64 size, u8 kind, u8 fill) {
    u64 id;
    if (kind == OK_STACK && !st->freeIds.empty()) { id = st->freeIds.back(); st->freeIds.pop_back(); }
    else id = st->nextId++;
    auto* o = new Obj; o->kind = kind; o->size = size; o->data = (u8*)malloc(size ? size : 1); memset(o->data, fill, size);
    st->mem.set(id, o);
    if (kind != OK_STACK) { st->heapBytes += size; if (st->heapBytes > cfg.maxHeap) inconclusive("heap budget exceeded"); }
    return (id << 32) + OBASE;
}
static Obj* lookup(u64 addr, u64 n, u64& off, bool write, const char* what) {
    u64 id = addr >> 32; off = (addr & 0xffffffffull) - OBASE;
    Obj* o = id < (FBASE >> 32) ? st->mem.get(id) : nullptr;
    if (!o) { char b[96]; snprintf(b, 96, "%s of %llu bytes at invalid address", what, (unsigned long long)n); violate("memory", (addr < 0x10000) ? string("null dereference (") + what + ")" : b); }
    if (o->freed) violate("memory", string(what) + ": use after free");
    if (off > o->size || n > o->size - off) {
        static const char* kn[] = {"global", "stack", "heap", "heap", "heap", "exception"};
        violate("memory", string(what) + " out of bounds of a " + kn[o->kind] + " object");
    }
    if (write && o->ro) violate("memory", "write to read-only object");
    return o;
}
static Expr* loadE(Obj* o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8; Expr* r = nullptr;
    for (int i = n - 1; i >= 0; i--) {
        Expr* b = (o->sym && o->sym[off + i]) ? o->sym[off + i] : X.constant(o->data[off + i], 8);
        r = r ? X.concat(r, b) : b;
    }
    if (n * 8 != w) r = X.extract(r, 0, w);
    else if (r->k == EXTRACT) r = X.extract(r->a, r->aux, w);
    return r;
}
static Val loadC(u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8; u64 off;
    Obj* o = lookup(addr, n, off, false, "read");
    if (w <= 64) {
        bool s = false;
        if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { s = true; break; }
        if (!s) { u64 v = 0; memcpy(&v, o->data + off, n); return V(v & m64(w)); }
    }
    return w <= 64 ? fromE(loadE(o, off, w)) : Val{0, loadE(o, off, w)};
}
// symbolic address: check bounds, then either build a table read or concretize
static u64 resolveAddr(Expr* a, u64 n, const char* what) {
    u64 v = (u64)S->evalIn(st->pc, a);
    u64 off; Obj* o = lookup(v, n, off, false, what);   // reports a violation when the model value is bad
    u64 base = (v >> 32 << 32) + OBASE;
    Expr* rel = X.bin(SUB, a, X.constant(base, 64));
    decide(X.cmp(ULE, rel, X.constant(o->size - n, 64)));
    return v;
}
static Val loadV(Val addr, unsigned w) {
    if (!addr.e) return loadC(addr.c, w);
    unsigned n = (w + 7) / 8;
    for (auto& k : st->known) if (k.first == addr.e) return loadC((u64)k.second, w);
    if (S->determined(st->pc, addr.e)) return loadC((u64)S->evalIn(st->pc, addr.e), w);
    u64 v = resolveAddr(addr.e, n, "read");
    u64 base = (v >> 32 << 32) + OBASE;
    Obj* o = st->mem.get(v >> 32);
    if (w <= 64 && o->size >= n) {
        Expr* rel = X.bin(SUB, addr.e, X.constant(base, 64));
        u128 lo, hi; X.range(rel, lo, hi);
        if (hi > o->size - n) hi = o->size - n;
        unsigned sh = 0; while ((1u << (sh + 1)) <= n) sh++;
        if ((1u << sh) != n || X.tz(rel) < sh) sh = 0;
        u64 step = 1u << sh; u64 first = (u64)lo & ~(step - 1);
        if (hi >= lo && (hi - first) / step < 4096) {
            bool s = false;
            if (o->sym) for (u64 i = (u64)lo; i < (u64)hi + n && !s; i++) s = o->sym[i] != nullptr;
            u64 cnt = ((u64)hi - first) / step + 1;
            if (!s && (o->ro || cnt <= 1024)) {
                vector<u64> t;
                for (u64 i = first; i + n <= o->size && i <= (u64)hi; i += step) { u64 x = 0; memcpy(&x, o->data + i, n); t.push_back(x & m64(w)); }
                Expr* idx = X.extract(X.bin(SUB, rel, X.constant(first, 64)), sh, 16);
                return fromE(X.mk(TABLE, w, idx, nullptr, nullptr, 0, X.table(t, w)));
            }
            if (s && cnt <= 40) {
                Expr* r = nullptr;
                for (u64 k = cnt; k-- > 0;) { Expr* v2 = loadE(o, first + k * step, w); r = r ? X.ite(X.eq(X.constant(first + k * step, 64), rel), v2, r) : v2; }
                return fromE(r);
            }
        }
    }
    return loadC((u64)concretizeW(addr.e), w);
}
static void storeC(u64 addr, Val v, unsigned w) {
    unsigned n = (w + 7) / 8; u64 off;
    lookup(addr, n, off, true, "write");
    Obj* o = st->mem.writable(addr >> 32);
    if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->sym) memset(o->sym + off, 0, sizeof(Expr*) * n); return; }
    Expr* e = v.e; if (e->w != n * 8) e = X.zext(e, n * 8);
    if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
    for (unsigned i = 0; i < n; i++) {
        // keep the bytes of an arithmetic result as plain slices so that a later load puts the same value together again
        Expr* b = n > 1 && (e->k == ADD || e->k == SUB || e->k == MUL || e->k == SEXT) ? X.raw(EXTRACT, 8, e, nullptr, nullptr, i * 8) : X.extract(e, i * 8, 8);
        if (b->k == CONST) { o->data[off + i] = (u8)b->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = b;
    }
}
static u64 addrC(Val a, u64 n, const char* what) {
    if (!a.e) return a.c;
    for (auto& k : st->known) if (k.first == a.e) return (u64)k.second;
    if (!S->determined(st->pc, a.e)) resolveAddr(a.e, n, what);
    return (u64)concretizeW(a.e);
}
static void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    u64 so, dof; Obj* a = lookup(s, n, so, false, "read"); lookup(d, n, dof, true, "write");
    if (a->rc == 1 || true) {
        vector<u8> tmp(a->data + so, a->data + so + n); vector<Expr*> ts; bool hs = false;
        if (a->sym) { for (u64 i = 0; i < n && !hs; i++) hs = a->sym[so + i] != nullptr; if (hs) ts.assign(a->sym + so, a->sym + so + n); }
        Obj* b = st->mem.writable(d >> 32);
        memcpy(b->data + dof, tmp.data(), n);
        if (hs) { if (!b->sym) b->sym = (Expr**)calloc(b->size, sizeof(Expr*)); memcpy(b->sym + dof, ts.data(), n * sizeof(Expr*)); }
        else if (b->sym) memset(b->sym + dof, 0, n * sizeof(Expr*));
    }
}
static Expr* byteAt(Obj* o, u64 off) { return (o->sym && o->sym[off]) ? o->sym[off] : X.constant(o->data[off], 8); }
static string cstr(u64 addr) { string s; for (;; addr++) { Val v = loadC(addr, 8); u64 c = concretize(v); if (!c) return s; s += (char)c; } }

// ------------------------------------------------------------------ arithmetic on Val
static Val binop(int opc, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, m = m64(w);
        switch (opc) {
        case LLVMAdd: return V((x + y) & m); case LLVMSub: return V((x - y) & m); case LLVMMul: return V((x * y) & m);
        case LLVMAnd: return V(x & y); case LLVMOr: return V(x | y); case LLVMXor: return V(x ^ y);
        case LLVMShl: return V(y >= w ? 0 : (x << y) & m); case LLVMLShr: return V(y >= w ? 0 : x >> y);
        case LLVMAShr: return V((u64)evalOp(ASHR, w, x, y, 0, w, w, 0, nullptr));
        case LLVMUDiv: case LLVMURem: if (!y) violate("arithmetic", "division by zero"); return V(opc == LLVMUDiv ? x / y : x % y);
        case LLVMSDiv: case LLVMSRem: if (!y) violate("arithmetic", "division by zero"); return V((u64)evalOp(opc == LLVMSDiv ? SDIV : SREM, w, x, y, 0, w, w, 0, nullptr));
        case LLVMFAdd: return V((u64)evalOp(FADD, w, x, y, 0, w, w, 0, nullptr)); case LLVMFSub: return V((u64)evalOp(FSUB, w, x, y, 0, w, w, 0, nullptr));
        case LLVMFMul: return V((u64)evalOp(FMUL, w, x, y, 0, w, w, 0, nullptr)); case LLVMFDiv: return V((u64)evalOp(FDIV, w, x, y, 0, w, w, 0, nullptr));
        case LLVMFRem: return V((u64)evalOp(FREM, w, x, y, 0, w, w, 0, nullptr));
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w); K k;
    switch (opc) {
    case LLVMAdd: k = ADD; break; case LLVMSub: k = SUB; break; case LLVMMul: k = MUL; break; case LLVMAnd: k = AND; break; case LLVMOr: k = OR; break; case LLVMXor: k = XOR; break;
    case LLVMShl: k = SHL; break; case LLVMLShr: k = LSHR; break; case LLVMAShr: k = ASHR; break; case LLVMUDiv: k = UDIV; break; case LLVMURem: k = UREM; break; case LLVMSDiv: k = SDIV; break; case LLVMSRem: k = SREM; break;
    case LLVMFAdd: k = FADD; break; case LLVMFSub: k = FSUB; break; case LLVMFMul: k = FMUL; break; case LLVMFDiv: k = FDIV; break; case LLVMFRem: k = FREM; break;
    default: throw Unsupported("binop");
    }
    if (k == UDIV || k == UREM || k == SDIV || k == SREM) { if (decide(X.eq(X.constant(0, w), y))) violate("arithmetic", "division by zero"); }
    return fromE(X.mk(k, w, x, y));
}
static Val icmp(int p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c; s64 sx = (s64)sextw(x, w), sy = (s64)sextw(y, w);
        switch (p) {
        case LLVMIntEQ: return V(x == y); case LLVMIntNE: return V(x != y); case LLVMIntUGT: return V(x > y); case LLVMIntUGE: return V(x >= y); case LLVMIntULT: return V(x < y); case LLVMIntULE: return V(x <= y);
        case LLVMIntSGT: return V(sx > sy); case LLVMIntSGE: return V(sx >= sy); case LLVMIntSLT: return V(sx < sy); case LLVMIntSLE: return V(sx <= sy);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w), *r;
    switch (p) {
    case LLVMIntEQ: r = X.eq(x, y); break; case LLVMIntNE: r = X.lnot(X.eq(x, y)); break;
    case LLVMIntUGT: r = X.cmp(ULT, y, x); break; case LLVMIntUGE: r = X.cmp(ULE, y, x); break; case LLVMIntULT: r = X.cmp(ULT, x, y); break; case LLVMIntULE: r = X.cmp(ULE, x, y); break;
    case LLVMIntSGT: r = X.cmp(SLT, y, x); break; case LLVMIntSGE: r = X.cmp(SLE, y, x); break; case LLVMIntSLT: r = X.cmp(SLT, x, y); break; default: r = X.cmp(SLE, x, y); break;
    }
    return fromE(r);
}
static Val fcmp(int p, Val a, Val b, unsigned w) {
    if (p == LLVMRealPredicateFalse) return V(0);
    if (p == LLVMRealPredicateTrue) return V(1);
    Expr *x = toE(a, w), *y = toE(b, w);
    auto eq = [&] { return X.raw(FOEQ, 1, x, y); }; auto lt = [&] { return X.raw(FOLT, 1, x, y); }; auto gt = [&] { return X.raw(FOLT, 1, y, x); };
    auto le = [&] { return X.raw(FOLE, 1, x, y); }; auto ge = [&] { return X.raw(FOLE, 1, y, x); }; auto un = [&] { return X.raw(FUNO, 1, x, y); };
    Expr* r;
    switch (p) {
    case LLVMRealOEQ: r = eq(); break; case LLVMRealOGT: r = gt(); break; case LLVMRealOGE: r = ge(); break; case LLVMRealOLT: r = lt(); break; case LLVMRealOLE: r = le(); break;
    case LLVMRealONE: r = X.bin(OR, lt(), gt()); break; case LLVMRealORD: r = X.lnot(un()); break; case LLVMRealUNO: r = un(); break;
    case LLVMRealUEQ: r = X.bin(OR, eq(), un()); break; case LLVMRealUGT: r = X.lnot(le()); break; case LLVMRealUGE: r = X.lnot(lt()); break; case LLVMRealULT: r = X.lnot(ge()); break; case LLVMRealULE: r = X.lnot(gt()); break;
    default: r = X.lnot(eq()); break; // UNE
    }
    return fromE(r);
}
static Val un(K k, unsigned w, Val a, unsigned wa, u32 aux = 0) { return fromE(X.mk(k, w, toE(a, wa), nullptr, nullptr, aux)); }

// ------------------------------------------------------------------ exceptions
static std::map<u64, int> tiIds;
static int tiId(u64 ti) { auto& i = tiIds[ti]; if (!i) i = (int)tiIds.size(); return i; }
static u64 ld64(u64 a) { Val v = loadC(a, 64); return concretize(v); }
static bool derives(u64 ti, u64 target, u64& adj, u64 obj) {
    if (ti == target) return true;
    u64 vt = ld64(ti); string n = addrName.count(vt >> 32) ? addrName[vt >> 32] : "";
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") return derives(ld64(ti + 16), target, adj, obj);
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        u64 cnt = concretize(loadC(ti + 20, 32));
        for (u64 i = 0; i < cnt; i++) { u64 b = ld64(ti + 24 + 16 * i); s64 fl = (s64)ld64(ti + 32 + 16 * i); if (!(fl & 2)) continue; u64 a2 = adj + (u64)(fl >> 8); if (fl & 1) { if (!obj) continue; a2 = adj + ld64(ld64(obj + adj) + (u64)(fl >> 8)); } if (derives(b, target, a2, obj)) { adj = a2; return true; } }
    }
    return false;
}
static bool isPtrTI(u64 ti) { u64 vt = ld64(ti); auto it = addrName.find(vt >> 32); return it != addrName.end() && it->second == "_ZTVN10__cxxabiv119__pointer_type_infoE"; }
// does a handler of type `target` catch the exception; obj becomes what the handler receives
static bool catches(const Caught& ex, u64 target, u64& obj) {
    u64 adj = 0; obj = ex.obj;
    if (ex.ti && isPtrTI(ex.ti)) {
        Val v = loadC(ex.obj, 64); if (v.e) throw Unsupported("symbolic pointer thrown"); obj = v.c;
        if (ex.ti == target) return true;
        if (!isPtrTI(target)) return false;
        u64 fl = concretize(loadC(target + 16, 32)), fe = concretize(loadC(ex.ti + 16, 32)); if (fe & ~fl) return false;   // qualifiers may only be added
        u64 to = ld64(target + 24), from = ld64(ex.ti + 24);
        { auto it = addrName.find(to >> 32); string n = it == addrName.end() ? "" : it->second; if (n == "_ZTIv") return true; if (n.size() == 5 && n.compare(0, 4, "_ZTI") == 0) return false; }   // void and fundamental types
        if (!derives(from, to, adj, obj)) return false;
        if (obj) obj += adj; return true;
    }
    if (!ex.ti || !derives(ex.ti, target, adj, ex.obj)) return false;
    obj += adj; return true;
}
static void popFrame() {
    Frame& f = st->fr.back();
    for (u32 id : f.allocas) { st->mem.set(id, nullptr); st->freeIds.push_back(id); }
    st->regs.resize(f.base);
    st->fr.pop_back();
}
static void enterBB(Frame& f, int to) {
    BB& B = f.fn->bbs[to];
    if (!B.edges.empty()) {
        auto it = B.edges.find(f.bb);
        if (it != B.edges.end()) {
            auto& c = it->second.copies; static vector<Val> tmp; tmp.resize(c.size());
            Val* Rg = &st->regs[f.base];
            for (size_t i = 0; i < c.size(); i++) tmp[i] = c[i].second.slot >= 0 ? Rg[c[i].second.slot] : c[i].second.imm[0];
            for (size_t i = 0; i < c.size(); i++) Rg[c[i].first] = tmp[i];
        }
    }
    f.bb = to; f.ip = 0;
}
// the frame on top is executing the call/invoke that threw (or a resume)
static void unwind(Caught ex, bool first) {
    while (!st->fr.empty()) {
        Frame& f = st->fr.back();
        if (f.kind == 1) violate("terminate", "exception thrown from a destructor of an exception object");
        Inst& I = f.fn->bbs[f.bb].in[f.ip];
        if (!first || true) {
            if (I.opc == LLVMInvoke) {
                BB& L = f.fn->bbs[I.bb2]; Inst& P = L.in[0];
                if (P.opc == LLVMLandingPad) {
                    int sel = 0; bool enter = P.cleanup; u64 recv = ex.obj;
                    for (auto& c : P.clauses) {
                        if (c.filter) { if (c.emptyFilter) { sel = -1; enter = true; break; } continue; }
                        if (c.nullTI) { sel = tiId(0); enter = true; break; }
                        if (catches(ex, c.ti, recv)) { sel = tiId(c.ti); enter = true; break; }
                    }
                    if (enter) {
                        st->excInfo[ex.obj].recv = recv;
                        int ub = I.bb2;
                        enterBB(f, ub);
                        Val* Rg = &st->regs[f.base];
                        Rg[P.dst] = V(ex.obj); Rg[P.dst + 1] = V((u64)(u32)sel);
                        f.ip = 1;
                        return;
                    }
                }
            }
        }
        popFrame();
    }
    string tn = "?";
    if (addrName.count(ex.ti >> 32)) tn = demangle(addrName[ex.ti >> 32]);
    violate("exception", "uncaught exception: " + tn);
}
void pushCallFwd(Fn*, u64);
#include "builtins.inc"

// ------------------------------------------------------------------ call
static void pushCall(Fn* f, const vector<Val>& args) {
    if (!f->compiled) compile(f);
    f->executed = true; f->calls++;
    if (st->fr.size() >= cfg.maxDepth) violate("stack", "call depth limit exceeded (unbounded recursion)");
    Frame nf; nf.fn = f; nf.bb = 0; nf.ip = 0; nf.base = (u32)st->regs.size();
    st->regs.resize(st->regs.size() + f->nslots);
    Val* Rg = st->regs.data() + nf.base;
    size_t need = 0; for (auto& l : f->argLeaves) need += l.size();
    for (size_t i = 0; i < need && i < args.size(); i++) Rg[i] = args[i];
    st->fr.push_back(std::move(nf));
    size_t a = 0;
    for (int i = 0; i < f->nargs; i++) {
        if (f->byval[i] >= 0) {
            u64 p = allocObj(f->byval[i], OK_STACK, 0); st->fr.back().allocas.push_back((u32)(p >> 32));
            copyMem(p, st->regs[st->fr.back().base + a].c, f->byval[i]);
            st->regs[st->fr.back().base + a] = V(p);
        }
        a += f->argLeaves[i].size();
    }
}

void pushCallFwd(Fn* f, u64 a) { pushCall(f, {V(a)}); }

static void doReturn(vector<Val>& rv) {
    int kind = st->fr.back().kind; u64 exo = st->fr.back().excObj;
    popFrame();
    if (kind == 1) { Obj* o = st->mem.get(exo >> 32); if (o) { Obj* w = st->mem.writable(exo >> 32); w->freed = true; } }
    if (st->fr.empty()) return;
    Frame& f = st->fr.back(); Inst& I = f.fn->bbs[f.bb].in[f.ip];
    if (kind == 0 && I.dst >= 0) for (size_t i = 0; i < rv.size() && (int)i < I.nd; i++) st->regs[f.base + I.dst + i] = rv[i];
    if (I.opc == LLVMInvoke) enterBB(f, I.bb1); else f.ip++;
}

static void endPath() {
    R.paths++; S->audit(st->pc, nullptr, 1);
    for (u32 r : st->reached) R.reached.insert(labels[r]);
    R.witSeen++;
    // deterministic thinning: keep first few, then exponentially rarer ones
    u64 n = R.witSeen;
    if ((int)R.wit.size() < cfg.maxWit && (n <= 8 || (n & (n - 1)) == 0 || n % 37 == 0)) {
        Witness w;
        for (auto& r : st->syms) for (u32 i = 0; i < r.n; i++) w.input.push_back(r.first + i < st->pc.model.size() ? st->pc.model[r.first + i] : 0);
        bool skip = false; for (auto& o : st->obs) if (o.v.e) for (u32 x : o.v.e->vars->v) for (u32 y : st->fresh) skip = skip || x == y;
        if (skip) return;
        for (auto& o : st->obs) w.obs.push_back(o.v.e ? (u64)S->evalIn(st->pc, o.v.e) : o.v.c);
        R.wit.push_back(w);
    }
}

static void run() {   // run current state until its path ends
    vector<Val> args, rv;
    for (;;) {
        if (st->fr.empty()) {
            if (st->pending.empty()) { endPath(); return; }
            Fn* f = st->pending.front(); st->pending.erase(st->pending.begin());
            pushCall(f, {});
        }
        Frame& f = st->fr.back();
        Inst& I = f.fn->bbs[f.bb].in[f.ip];
        Val* Rg = st->regs.data() + f.base;
        if (++st->steps > cfg.maxSteps) { report("nontermination", "step budget exceeded", st->pc.model); R.inconclusive++; R.incReasons["step budget"]++; throw PathEnd(); }
        R.insts++;
        if ((R.insts & 0xfff) == 0 && nowS() - t0Run > cfg.timeLimit) { R.timedOut = true; throw PathEnd(); }
#define OP(i, j) (I.ops[i].slot >= 0 ? Rg[I.ops[i].slot + (j)] : I.ops[i].imm[j])
        switch (I.opc) {
        case X_NOP: f.ip++; if (I.bb1 >= 0) enterBB(f, I.bb1); break;
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMUDiv: case LLVMURem: case LLVMSDiv: case LLVMSRem:
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem:
            for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = binop(I.opc, OP(0, j), OP(1, j), I.w);
            f.ip++; break;
        case LLVMICmp: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = icmp(I.sub, OP(0, j), OP(1, j), I.w2); f.ip++; break;
        case LLVMFCmp: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = fcmp(I.sub, OP(0, j), OP(1, j), I.w2); f.ip++; break;
        case LLVMFNeg: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = binop(LLVMXor, OP(0, j), V(1ull << (I.w - 1)), I.w); f.ip++; break;
        case LLVMFreeze: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = OP(0, j); f.ip++; break;
        case LLVMTrunc: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: case LLVMZExt:
            for (int j = 0; j < I.nd; j++) {
                Val a = OP(0, j);
                if (!a.e && I.w <= 64) Rg[I.dst + j] = V(a.c & m64(I.w));
                else { Expr* e = toE(a, I.w2); e = I.w > I.w2 ? X.zext(e, I.w) : X.extract(e, 0, I.w); Rg[I.dst + j] = fromE(e); }
            }
            f.ip++; break;
        case LLVMSExt:
            for (int j = 0; j < I.nd; j++) {
                Val a = OP(0, j);
                if (!a.e && I.w <= 64) Rg[I.dst + j] = V((u64)sextw(a.c, I.w2) & m64(I.w));
                else Rg[I.dst + j] = fromE(X.sext(toE(a, I.w2), I.w));
            }
            f.ip++; break;
        case LLVMFPToSI: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = un(FTOSI, I.w, OP(0, j), I.w2); f.ip++; break;
        case LLVMFPToUI: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = un(FTOUI, I.w, OP(0, j), I.w2); f.ip++; break;
        case LLVMSIToFP: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = un(SITOF, I.w, OP(0, j), I.w2); f.ip++; break;
        case LLVMUIToFP: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = un(UITOF, I.w, OP(0, j), I.w2); f.ip++; break;
        case LLVMFPTrunc: case LLVMFPExt: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = un(FCVT, I.w, OP(0, j), I.w2); f.ip++; break;
        case LLVMBitCast: {
            if (I.wl.size() == 1 && I.nd == 1) { Rg[I.dst] = OP(0, 0); f.ip++; break; }
            Expr* e = nullptr;
            for (int j = (int)I.wl.size() - 1; j >= 0; j--) { Expr* p = toE(OP(0, j), I.wl[j]); e = e ? X.concat(e, p) : p; }
            unsigned off = 0; for (int j = 0; j < I.nd; j++) { Rg[I.dst + j] = fromE(X.extract(e, off, I.leaves[j].w)); off += I.leaves[j].w; }
            f.ip++; break; }
        case LLVMSelect: {
            if (I.sub == (int)1) {
                Val c = OP(0, 0);
                if (c.e) {
                    bool simple = !I.ptrRes;
                    if (!simple) { bool same = true; for (int j = 0; j < I.nd; j++) { Val a = OP(1, j), b = OP(2, j); if (a.e != b.e || a.c != b.c) same = false; } if (same) { c = V(1); } else c = V(decide(c.e)); }
                    else {
                        int im = S->implied(st->pc, c.e);
                        if (im < 0 && I.nd == 1) {       // absolute value: fork on the sign, both halves stay simple
                            Val x = OP(1, 0), y = OP(2, 0);
                            if (x.e && y.e && ((x.e->k == SUB && X.isC(x.e->a, 0) && x.e->b == y.e) || (y.e->k == SUB && X.isC(y.e->a, 0) && y.e->b == x.e))) im = decide(c.e);
                        }
                        if (im >= 0) { for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = im ? OP(1, j) : OP(2, j); f.ip++; break; }
                        for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = fromE(X.ite(c.e, toE(OP(1, j), I.leaves[j].w), toE(OP(2, j), I.leaves[j].w))); f.ip++; break; }
                }
                for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = (c.c & 1) ? OP(1, j) : OP(2, j);
            } else for (int j = 0; j < I.nd; j++) { Val c = OP(0, j); if (!c.e) Rg[I.dst + j] = (c.c & 1) ? OP(1, j) : OP(2, j); else Rg[I.dst + j] = fromE(X.ite(c.e, toE(OP(1, j), I.leaves[j].w), toE(OP(2, j), I.leaves[j].w))); }
            f.ip++; break; }
        case LLVMGetElementPtr: {
            Val a = OP(0, 0);
            if (!a.e) a.c += I.imm; else a = fromE(X.bin(ADD, a.e, X.constant(I.imm, 64)));
            for (auto& g : I.gep) {
                Val ix = g.o.slot >= 0 ? Rg[g.o.slot] : g.o.imm[0];
                if (!a.e && !ix.e) a.c += (u64)sextw(ix.c, g.w) * g.scale;
                else { Expr* e = X.bin(MUL, X.sext(toE(ix, g.w), 64), X.constant(g.scale, 64)); a = fromE(X.bin(ADD, toE(a, 64), e)); }
            }
            Rg[I.dst] = a; f.ip++; break; }
        case LLVMAlloca: {
            u64 n = concretize(OP(0, 0)); if (n * I.imm > cfg.maxAlloc) inconclusive("huge alloca");
            u64 p = allocObj(n * I.imm, OK_STACK, 0xA5); st->fr.back().allocas.push_back((u32)(p >> 32)); Rg[I.dst] = V(p); f.ip++; break; }
        case LLVMLoad: {
            Val a = OP(0, 0);
            if (I.nd == 1) { Val r = loadV(a, I.w); st->regs[st->fr.back().base + I.dst] = r; }
            else { u64 p = addrC(a, 1, "read"); vector<Val> t; for (auto& l : I.leaves) t.push_back(loadC(p + l.off, l.w)); for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = t[j]; }
            f.ip++; break; }
        case LLVMStore: {
            unsigned tot = 0; for (auto& l : I.leaves) tot = std::max<unsigned>(tot, l.off + (l.w + 7) / 8);
            u64 p = addrC(OP(1, 0), tot, "write"); int j = 0; for (auto& l : I.leaves) { storeC(p + l.off, OP(0, j), l.w); j++; } f.ip++; break; }
        case LLVMExtractValue: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = OP(0, I.imm + j); f.ip++; break;
        case LLVMInsertValue: for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = OP(0, j); for (int j = 0; j < I.sub; j++) Rg[I.dst + I.imm + j] = OP(1, j); f.ip++; break;
        case LLVMExtractElement: { u64 ix = concretize(OP(1, 0)); if ((int)ix >= I.sub) inconclusive("extractelement index"); Rg[I.dst] = OP(0, ix); f.ip++; break; }
        case LLVMInsertElement: { u64 ix = concretize(OP(2, 0)); for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = OP(0, j); Rg[I.dst + ix] = OP(1, 0); f.ip++; break; }
        case LLVMShuffleVector: { vector<Val> t; for (int mk : I.wl) t.push_back(mk < 0 ? V(0) : mk < I.sub ? OP(0, mk) : OP(1, mk - I.sub)); for (int j = 0; j < I.nd; j++) Rg[I.dst + j] = t[j]; f.ip++; break; }
        case LLVMBr: {
            if (I.bb2 < 0) { enterBB(f, I.bb1); break; }
            bool b = decideV(OP(0, 0)); enterBB(st->fr.back(), b ? I.bb1 : I.bb2); break; }
        case LLVMSwitch: {
            Val c = OP(0, 0); int to = I.bb1;
            if (!c.e) { for (auto& k : I.cases) if (k.v == c.c) { to = k.bb; break; } }
            else {
                // group the cases by destination so that equal targets do not fork
                Expr* e = c.e; std::map<int, Expr*> g; Expr* any = X.F;
                for (auto& k : I.cases) { Expr* q = X.eq(X.constant(k.v, I.w2), e); if (k.bb == I.bb1) continue; auto it = g.find(k.bb); if (it == g.end()) g[k.bb] = q; else it->second = X.bin(OR, it->second, q); any = X.bin(OR, any, q); }
                bool done = false;
                int mt = I.bb1; u64 mv = (u64)S->evalIn(st->pc, e); for (auto& k : I.cases) if (k.v == mv) mt = k.bb;
                if (mt == I.bb1) { if (!decide(any)) { to = mt; done = true; } }
                else if (decide(g[mt])) { to = mt; done = true; }
                if (!done) inconclusive("switch");
            }
            enterBB(st->fr.back(), to); break; }
        case LLVMRet: { rv.clear(); for (int j = 0; j < I.nd; j++) rv.push_back(OP(0, j)); doReturn(rv); break; }
        case LLVMUnreachable: violate("unreachable", "reached code the compiler assumed unreachable (undefined behaviour)");
        case LLVMResume: {
            u64 obj = OP(0, 0).c; auto it = st->excInfo.find(obj); if (it == st->excInfo.end()) inconclusive("resume of unknown exception");
            Caught ex = it->second; popFrame(); if (st->fr.empty()) { st->fr.clear(); unwind(ex, false); } else unwind(ex, false); break; }
        case LLVMAtomicRMW: {
            u64 p = addrC(OP(0, 0), (I.w + 7) / 8, "write"); Val old = loadC(p, I.w), b = OP(1, 0), n;
            switch (I.sub) { case LLVMAtomicRMWBinOpXchg: n = b; break; case LLVMAtomicRMWBinOpAdd: n = binop(LLVMAdd, old, b, I.w); break; case LLVMAtomicRMWBinOpSub: n = binop(LLVMSub, old, b, I.w); break;
                case LLVMAtomicRMWBinOpAnd: n = binop(LLVMAnd, old, b, I.w); break; case LLVMAtomicRMWBinOpOr: n = binop(LLVMOr, old, b, I.w); break; default: inconclusive("atomicrmw"); }
            storeC(p, n, I.w); Rg[I.dst] = old; f.ip++; break; }
        case LLVMAtomicCmpXchg: {
            u64 p = addrC(OP(0, 0), (I.w + 7) / 8, "write"); Val old = loadC(p, I.w); bool eq = decideV(icmp(LLVMIntEQ, old, OP(1, 0), I.w)); if (eq) storeC(p, OP(2, 0), I.w);
            Rg[I.dst] = old; Rg[I.dst + 1] = V(eq); f.ip++; break; }
        case LLVMCall: case LLVMInvoke: {
            Fn* cal = I.callee; size_t na = I.wl.size();
            if (!cal) {
                u64 fp = concretize(OP(na, 0));
                if (fp < FBASE || (fp - FBASE) / 16 >= fns.size() || (fp & 15)) violate("memory", "call through an invalid function pointer");
                cal = fns[(fp - FBASE) / 16];
            }
            args.clear(); for (size_t k = 0; k < na; k++) for (int j = 0; j < I.wl[k]; j++) args.push_back(OP(k, j));
            if (!cal->decl && !isOverride(cal)) { pushCall(cal, args); break; }
            rv.clear();
            int how = callBuiltin(cal, I, args, rv);   // 0: returned, 1: control already transferred
            if (how == 0) {
                Frame& f2 = st->fr.back(); Val* R2 = st->regs.data() + f2.base;
                for (size_t j = 0; j < rv.size() && (int)j < I.nd; j++) R2[I.dst + j] = rv[j];
                if (I.opc == LLVMInvoke) enterBB(f2, I.bb1); else f2.ip++;
            }
            break; }
        default: inconclusive("unsupported instruction: " + I.name);
        }
    }
}

// ------------------------------------------------------------------ driver
struct Shared { volatile int active; };
static Shared* shared;
static vector<pid_t> kids;

static string esc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static string hex(const vector<u8>& v) { static const char* h = "0123456789abcdef"; string s; for (u8 b : v) { s += h[b >> 4]; s += h[b & 15]; } return s; }

static void writeResult() {
    char fn[512]; snprintf(fn, 512, "%s/r.%d.json", cfg.outDir.c_str(), getpid());
    FILE* o = fopen(fn, "w");
    auto& q = S->z.st;
    fprintf(o, "{\"paths\":%llu,\"assumed\":%llu,\"inconclusive\":%llu,\"insts\":%llu,\"forks\":%llu,\"concretized\":%llu,\"timedOut\":%s,\"leftover\":%llu,\n",
        (unsigned long long)R.paths, (unsigned long long)R.assumed, (unsigned long long)R.inconclusive, (unsigned long long)R.insts, (unsigned long long)R.forks, (unsigned long long)R.concretized, R.timedOut ? "true" : "false", (unsigned long long)R.leftover);
    fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cacheHits\":%llu,\"domainDecisions\":%llu,\"audits\":%llu,\"solverTime\":%.4f,\"maxQuery\":%.4f,\"exprs\":%u,\n",
        (unsigned long long)q.queries, (unsigned long long)q.sat, (unsigned long long)q.unsat, (unsigned long long)q.unknown, (unsigned long long)q.cacheHits, (unsigned long long)(q.domainDecisions + q.intervalDecisions), (unsigned long long)(q.audits - q.auditUnknown), q.solverTime, q.maxQuery, X.count);
    auto mp = [&](const char* n, std::map<string, u64>& m) { fprintf(o, "\"%s\":{", n); bool f = true; for (auto& k : m) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); f = false; } fprintf(o, "},\n"); };
    mp("incReasons", R.incReasons); mp("checksConst", R.checksConst); mp("checksSolver", R.checksSolver);
    fprintf(o, "\"reached\":["); { bool f = true; for (auto& s : R.reached) { fprintf(o, "%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; } } fprintf(o, "],\n\"functions\":[");
    { bool f = true; for (auto* g : fns) if (g->executed) { fprintf(o, "%s[\"%s\",%u,%llu]", f ? "" : ",", esc(g->name).c_str(), g->ninst, (unsigned long long)g->calls); f = false; } }
    fprintf(o, "],\n\"viol\":[");
    { bool f = true; for (auto& v : R.viol) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"input\":\"%s\",\"names\":\"%s\"}", f ? "" : ",\n", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.where).c_str(), hex(v.input).c_str(), esc(v.names).c_str()); f = false; } }
    fprintf(o, "],\n\"wit\":[");
    { bool f = true; for (auto& w : R.wit) { fprintf(o, "%s{\"input\":\"%s\",\"obs\":[", f ? "" : ",\n", hex(w.input).c_str()); bool g = true; for (u64 x : w.obs) { fprintf(o, "%s\"%llu\"", g ? "" : ",", (unsigned long long)x); g = false; } fprintf(o, "]}"); f = false; } }
    fprintf(o, "]}\n");
    fclose(o);
}
// a solver call that ignores its timeout must not keep the whole job from reporting
static volatile sig_atomic_t exploring = 0;
static void armWatchdog() { double left = cfg.timeLimit - (nowS() - t0Run) + 6; alarm(left < 1 ? 1 : (unsigned)left); }
static void onAlarm(int) {
    if (!exploring) return;
    exploring = 0;
    signal(SIGALRM, SIG_DFL); alarm(20);
    R.timedOut = true; R.leftover += work.size() + 1; R.incReasons["solver call abandoned at the time limit"]++;
    writeResult();
    __sync_sub_and_fetch(&shared->active, 1);
    for (pid_t p : kids) { int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} }
    _exit(0);
}
static void trySplit() {
    if (!shared || work.size() < 2) return;
    int a = __sync_add_and_fetch(&shared->active, 1);
    if (a > cfg.workers) { __sync_sub_and_fetch(&shared->active, 1); return; }
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { __sync_sub_and_fetch(&shared->active, 1); return; }
    size_t half = work.size() / 2;
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        kids.clear();
        for (size_t i = half; i < work.size(); i++) delete work[i];
        work.resize(half);
        R = Res(); S->z.st = Stats(); armWatchdog();
    } else {
        for (size_t i = 0; i < half; i++) delete work[i];
        work.erase(work.begin(), work.begin() + half);
        kids.push_back(p);
    }
}
static void explore() {
    while (!work.empty()) {
        if (nowS() - t0Run > cfg.timeLimit) { R.timedOut = true; R.leftover += work.size(); break; }
        if ((int)R.viol.size() >= cfg.maxViol) { R.leftover += work.size(); break; }
        trySplit();
        st = work.back(); work.pop_back();
        try { run(); }
        catch (PathEnd&) { }
        catch (Unsupported& u) { R.inconclusive++; R.incReasons[string("unsupported: ") + u.what()]++; }
        delete st; st = nullptr;
        if (cfg.verbose && (R.paths & 0x3ff) == 0) fprintf(stderr, "paths %llu work %zu q %llu t %.1f\n", (unsigned long long)R.paths, work.size(), (unsigned long long)S->z.st.queries, nowS() - t0Run);
    }
}

int main(int argc, char** argv) {
    struct rlimit rl;
    if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur < (256ull << 20) && !getenv("VSE_REEXEC")) {
        rl.rlim_cur = 1024ull << 20; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max;
        setrlimit(RLIMIT_STACK, &rl); setenv("VSE_REEXEC", "1", 1); execv("/proc/self/exe", argv);
    }
    string file, entry = "harness"; 
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") cfg.outDir = nx(); else if (a == "--steps") cfg.maxSteps = std::stoull(nx()); else if (a == "--time") cfg.timeLimit = std::stod(nx());
        else if (a == "--wit") cfg.maxWit = std::stoi(nx()); else if (a == "--workers") cfg.workers = std::stoi(nx()); else if (a == "--tokens") cfg.tokens = nx(); else if (a == "--max-alloc") cfg.maxAlloc = std::stoull(nx());
        else if (a == "--max-viol") cfg.maxViol = std::stoi(nx()); else if (a == "-v") cfg.verbose = true; else if (a == "--mem") cfg.memMB = std::stoull(nx()); else if (a == "--z3-timeout") { params["__zt"] = nx(); }
        else if (a == "-p") { string s = nx(); auto k = s.find('='); params[s.substr(0, k)] = s.substr(k + 1); }
        else file = a;
    }
    { struct rlimit m; m.rlim_cur = m.rlim_max = cfg.memMB << 20; setrlimit(RLIMIT_AS, &m); }
    LLVMMemoryBufferRef buf; char* err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(file.c_str(), &buf, &err)) { fprintf(stderr, "cannot read %s: %s\n", file.c_str(), err); return 3; }
    if (LLVMParseBitcode2(buf, &M)) { fprintf(stderr, "cannot parse bitcode\n"); return 3; }
    TD = LLVMGetModuleDataLayout(M);
    kByVal = LLVMGetEnumAttributeKindForName("byval", 5);
    initBuiltins();
    S = new Solver(X);
    if (params.count("__zt")) S->z.timeoutMs = std::stoi(params["__zt"]);
    st = new State;
    for (auto f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) getFn(f);
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        u64 id = nextGlobId++; globAddr[g] = (id << 32) + OBASE; size_t n; const char* s = LLVMGetValueName2(g, &n); addrName[id] = string(s, n); globByName[string(s, n)] = (id << 32) + OBASE;
    }
    st->nextId = nextGlobId;
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        u64 id = globAddr[g] >> 32; auto t = LLVMGlobalGetValueType(g); u64 sz = LLVMTypeIsSized(t) ? LLVMABISizeOfType(TD, t) : 8;
        auto init = LLVMGetInitializer(g);
        if (!init && sz < 256) sz = 256;
        auto* o = new Obj; o->kind = OK_GLOBAL; o->size = sz; o->data = (u8*)calloc(1, sz ? sz : 1);
        st->mem.set(id, o);
    }
    // type descriptors of the runtime library (fundamental types): only their name is read
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        u64 id = globAddr[g] >> 32; const string& nm = addrName[id];
        if (LLVMGetInitializer(g) || nm.rfind("_ZTI", 0)) continue;
        string text = nm.substr(4); u64 sid = st->nextId++; auto* o = new Obj; o->kind = OK_GLOBAL; o->size = text.size() + 1; o->data = (u8*)calloc(1, o->size); memcpy(o->data, text.c_str(), text.size()); o->ro = true;
        st->mem.set(sid, o); u64 a = (sid << 32) + OBASE; memcpy(st->mem.get(id)->data + 8, &a, 8); st->mem.get(id)->ro = true;
    }
    vector<std::pair<int, Fn*>> ctors;
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        auto init = LLVMGetInitializer(g); if (!init) continue;
        string nm = addrName[globAddr[g] >> 32];
        if (nm == "llvm.global_ctors") {
            for (int i = 0, n = LLVMGetNumOperands(init); i < n; i++) { auto e = LLVMGetOperand(init, i); auto fv = LLVMGetOperand(e, 1); if (LLVMIsAFunction(fv)) ctors.push_back({(int)LLVMConstIntGetZExtValue(LLVMGetOperand(e, 0)), getFn(fv)}); }
            continue;
        }
        if (nm.rfind("llvm.", 0) == 0) continue;
        Obj* o = st->mem.get(globAddr[g] >> 32);
        try {
            if (LLVMIsNull(init) || LLVMIsUndef(init)) { }
            else {
                auto l = leavesT(LLVMGlobalGetValueType(g)); vector<Val> v; constLeaves(init, v);
                for (size_t i = 0; i < l.size(); i++) { u128 x = v[i].e ? v[i].e->val : v[i].c; memcpy(o->data + l[i].off, &x, (l[i].w + 7) / 8); }
            }
        } catch (Unsupported& u) { if (cfg.verbose) fprintf(stderr, "global %s: %s\n", nm.c_str(), u.what()); }
        o->ro = LLVMIsGlobalConstant(g);
    }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) st->pending.push_back(c.second);
    if (!fnByName.count(entry) || fnByName[entry]->decl) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    st->pending.push_back(fnByName[entry]);
    if (!cfg.tokens.empty()) {
        int fd = open(cfg.tokens.c_str(), O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 4096)) return 3;
        shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else { shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    __sync_add_and_fetch(&shared->active, 1);
    t0Run = nowS();
    work.push_back(st); st = nullptr;
    int rc = 0;
    if (!cfg.outDir.empty()) mkdir(cfg.outDir.c_str(), 0755);
    signal(SIGALRM, onAlarm); exploring = 1; armWatchdog();
    try { explore(); }
    catch (std::bad_alloc&) { R.inconclusive++; R.incReasons["engine out of memory"]++; R.leftover += work.size() + 1; }
    exploring = 0;
    __sync_sub_and_fetch(&shared->active, 1);
    for (pid_t p : kids) { int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(s) || WEXITSTATUS(s)) { R.inconclusive++; R.incReasons["engine worker died"]++; rc = 4; } }
    if (!cfg.outDir.empty()) { mkdir(cfg.outDir.c_str(), 0755); writeResult(); }
    if (cfg.verbose) {
        fprintf(stderr, "paths=%llu assumed=%llu inc=%llu insts=%llu forks=%llu q=%llu cache=%llu dom=%llu st=%.2f viol=%zu t=%.2f timedout=%d\n", (unsigned long long)R.paths, (unsigned long long)R.assumed, (unsigned long long)R.inconclusive, (unsigned long long)R.insts, (unsigned long long)R.forks,
            (unsigned long long)S->z.st.queries, (unsigned long long)S->z.st.cacheHits, (unsigned long long)S->z.st.domainDecisions, S->z.st.solverTime, R.viol.size(), nowS() - t0Run, R.timedOut);
        for (auto& k : R.incReasons) fprintf(stderr, "  inc %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
    }
    fflush(nullptr);
    _exit(rc);
}
