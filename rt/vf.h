// Harness interface.  The same harness source is compiled to bitcode for the symbolic engine
// (VF_GUEST) and natively (VF_NATIVE) for replaying counterexamples against the real code.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
    void     vf_sym(void* p, size_t n, const char* name);     // bytes become symbolic
    void     vf_assume(int c);
    void     vf_check(int c, const char* what);               // the property
    void     vf_fail(const char* what);
    void     vf_reach(const char* label);                     // vacuity witness
    void     vf_observe(uint64_t v);                          // compared between engine and native run
    uint64_t vf_concrete(uint64_t v);                         // enumerate every feasible value
    int64_t  vf_param(const char* name, int64_t dflt);
    void     vf_note(const char* s);
}
template<class T> inline T vf_any(const char* name) { T t; vf_sym(&t, sizeof(T), name); return t; }
inline unsigned vf_choose(unsigned n, const char* name) { // every value 0..n-1, one path each
    uint8_t b; vf_sym(&b, 1, name); vf_assume(b < n); return (unsigned)vf_concrete(b);
}
