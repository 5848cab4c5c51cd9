// C18: every history of arena operations: blocks are aligned, owned, disjoint and keep their contents.
#include "common.hpp"
using namespace Srl;
struct alignas(16) Wide { uint8_t b[48]; };
struct Blk { uint8_t* p; size_t n; uint8_t fill; };
struct Obj { static int live; uint64_t a; uint32_t b; Obj(uint64_t x, uint32_t y) : a(x), b(y) { } };
static std::vector<Blk> blks; static uint8_t nextFill;
static size_t stepOf(size_t i, size_t n) { if (n <= 4096 || i < 32 || i + 32 >= n) return i + 1; return i + 61 < n - 32 ? i + 61 : n - 32; }
static void intact(const Blk& b) { if (P("sym", 0)) return; for (size_t i = 0; i < b.n; i = stepOf(i, b.n)) if (b.p[i] != b.fill) { vf_fail("a live block keeps its contents"); return; } }
static void take(uint8_t* p, size_t n, size_t align) {
    vf_check(p != nullptr, "memory is handed out"); vf_check((uintptr_t)p % align == 0, "a block is aligned for its type");
    for (auto& b : blks) vf_check((uintptr_t)p + n <= (uintptr_t)b.p || (uintptr_t)b.p + b.n <= (uintptr_t)p, "a new block overlaps no live block");
    if (P("sym", 0)) { vf_check(n == 0 || (*(volatile uint8_t*)p, *(volatile uint8_t*)(p + n - 1), true), "a block lies inside memory of the arena"); blks.push_back(Blk { p, n, 0 }); return; }
    Blk b { p, n, ++nextFill }; for (size_t i = 0; i < n; i = stepOf(i, n)) p[i] = b.fill; blks.push_back(b);
}
static void all() { for (auto& b : blks) intact(b); }
extern "C" void harness() {
    blks.clear(); nextFill = 0;
    unsigned steps = (unsigned)P("steps", 3), set = (unsigned)P("set", 0);
    static const size_t sizes[5][5] = { { 1, 5, 24, 200, 600 }, { 1, 255, 256, 257, 511 }, { 3, 130, 1000, 1024, 3000 }, { 2, 16, 17, 33, 64 }, { 1, 60000, 131072, 262144, 300000 } };
    unsigned ns = (unsigned)P("ns", 5);
    // the first size is any size of a window, the others come from the set
    unsigned nsym = (unsigned)P("sym", 0);
    bool win = P("hi", 0) > 0; auto pick = [&]() -> size_t { if (nsym) { nsym--; uint16_t n = vf_any<uint16_t>("n"); vf_assume((n >= (unsigned)P("lo", 0)) & (n < (unsigned)P("hi", 64))); return n; } if (win) { win = false; return (size_t)P("lo", 0) + vf_choose((unsigned)(P("hi", 0) - P("lo", 0)), "size"); } return sizes[set][vf_choose(ns, "n")]; };
    Lib::Heap* h = new Lib::Heap();
    for (int i = 0, k = (int)P("pre", 0); i < k; i++) take(h->get_mem<uint8_t>(100), 100, 1);
    for (unsigned s = 0; s < steps; s++) {
        unsigned op = vf_choose(7, "op");
        switch (op) {
        case 0: { size_t n = pick(); take(h->get_mem<uint8_t>(n), n, 1); break; }
        case 1: { size_t n = pick(); n = (n + 7) / 8; take((uint8_t*)h->get_mem<uint64_t>(n), n * 8, 8); break; }
        case 2: { unsigned w = vf_choose(2, "w"); if (w) take((uint8_t*)h->get_mem<Wide>(1 + set), sizeof(Wide) * (1 + set), 16); else take((uint8_t*)h->get_mem<uint16_t>(sizes[set][1]), sizes[set][1] * 2, 2); break; }
        case 3: { uint64_t a = vf_any<uint64_t>("a"); uint32_t b = vf_any<uint32_t>("b"); Obj* o = h->create<Obj>(a, b); vf_check(o->a == a && o->b == b, "a created object has its content"); take((uint8_t*)o, sizeof *o, alignof(Obj)); break; }
        case 4: { if (blks.empty()) { vf_assume(0); } unsigned i = vf_choose((unsigned)blks.size(), "i"); Blk b = blks[i]; intact(b); blks.erase(blks.begin() + i); h->put_mem(b.p, b.n); break; }
        case 5: { all(); blks.clear(); h->clear(); break; }
        case 6: { if (vf_choose(2, "m")) { Lib::Heap* g = new Lib::Heap(std::move(*h)); vf_check(true, ""); if (vf_choose(2, "use")) { std::vector<uint8_t*> own;
                auto mine = [&](size_t n) { auto* q = h->get_mem<uint8_t>(n); take(q, n, 1); own.push_back(q); }; auto drop = [&] { for (auto* q : own) for (size_t k = 0; k < blks.size(); k++) if (blks[k].p == q) { blks.erase(blks.begin() + k); break; } own.clear(); };
                for (size_t k = 0; k < 4; k++) { mine(9 + k * 40); size_t n = sizes[set][k % ns]; take(g->get_mem<uint8_t>(n), n, 1); } all();
                if (vf_choose(2, "clear")) { drop(); h->clear(); mine(5); take(g->get_mem<uint8_t>(6), 6, 1); mine(70); all(); } drop(); }
            delete h; h = g; }
            else { Lib::Heap g; auto* p = g.get_mem<uint8_t>(77); p[76] = 1; g = std::move(*h); all(); { Lib::Heap e; *h = std::move(e); } *h = std::move(g); } break; }
        }
        all();
    }
    for (int i = 0, k = (int)P("post", 0); i < k; i++) { take(h->get_mem<uint8_t>(sizes[set][i % 4]), sizes[set][i % 4], 1); take((uint8_t*)h->get_mem<uint64_t>(3), 24, 8); }
    all(); blks.clear(); delete h;
    vf_reach("done");
}
