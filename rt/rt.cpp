// Guest-side C++ runtime: the parts of libstdc++/libc that are not inline, compiled to bitcode with
// the code under test.  Nothing of /repo is replaced here.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <exception>
#include <new>
#include <typeinfo>
#include <list>
#include <map>
#include <string>
#include <stdexcept>
#include <istream>
#include <ostream>
#include <streambuf>
#include <locale>
#include <functional>
#include <unordered_map>
#include <iconv.h>
#include "vf.h"

extern "C" {
    void* vf_alloc(size_t n, int kind);
    void  vf_free(void* p, int kind);
    int   vf_valid(const void* p, size_t n);
    void  vf_note(const char*) { }
    void* __dso_handle = nullptr;
    char  __libc_single_threaded = 1;
}
static int the_errno;
extern "C" int* __errno_location() noexcept { return &the_errno; }

// ---- exceptions
namespace std {
    exception::~exception() noexcept { }
    const char* exception::what() const noexcept { return "std::exception"; }
    bad_alloc::~bad_alloc() noexcept { }
    const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_cast::~bad_cast() noexcept { }
    const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_function_call::~bad_function_call() noexcept { }
    const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
    type_info::~type_info() { }
}
struct vf_std_logic_error   : std::exception { const char* m; vf_std_logic_error(const char* s) : m(s) { } const char* what() const noexcept override { return m; } };
struct vf_std_length_error  : vf_std_logic_error { using vf_std_logic_error::vf_std_logic_error; };
struct vf_std_out_of_range  : vf_std_logic_error { using vf_std_logic_error::vf_std_logic_error; };
namespace std {
    void __throw_length_error(const char* s) { throw vf_std_length_error(s); }
    void __throw_logic_error(const char* s) { throw vf_std_logic_error(s); }
    void __throw_out_of_range(const char* s) { throw vf_std_out_of_range(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { throw vf_std_out_of_range(s); }
    void __throw_invalid_argument(const char* s) { throw vf_std_logic_error(s); }
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_alloc(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_ios_failure(const char* s) { throw vf_std_logic_error(s); }
    void __throw_ios_failure(const char* s, int) { throw vf_std_logic_error(s); }
    void __throw_system_error(int) { throw vf_std_logic_error("system_error"); }
}

// ---- allocation (kinds: 3 = new, 4 = new[])
static const size_t LIMIT = (size_t)1 << 26;
void* operator new(size_t n) { if (n > LIMIT) throw std::bad_alloc(); return vf_alloc(n, 3); }
void* operator new[](size_t n) { if (n > LIMIT) throw std::bad_alloc(); return vf_alloc(n, 4); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > LIMIT ? nullptr : vf_alloc(n, 3); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > LIMIT ? nullptr : vf_alloc(n, 4); }
void operator delete(void* p) noexcept { vf_free(p, 3); }
void operator delete[](void* p) noexcept { vf_free(p, 4); }
void operator delete(void* p, size_t) noexcept { vf_free(p, 3); }
void operator delete[](void* p, size_t) noexcept { vf_free(p, 4); }

// ---- std::list
namespace std { namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
        if (this != last) {
            last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
            auto* tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
        }
    }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
        if (x._M_next != &x) {
            if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
            else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
        } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
    }
    void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
    // unordered containers
    static const size_t primes[] = {1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
        if (ne + ni > _M_next_resize) { if (ne + ni > nb) return {true, _M_next_bkt(std::max<size_t>(ne + ni + 1, nb * 2))}; _M_next_resize = nb; }
        return {false, 0};
    }
} }
namespace std {
    size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) seed = (seed ^ c[i]) * 1099511628211ull; return seed; }
}
// ---- std::map / std::set: unbalanced tree with the same interface (ordering semantics are identical)
namespace std {
    typedef _Rb_tree_node_base NB;
    static NB* inc(NB* x) {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    static NB* dec(NB* x) {
        if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    NB* _Rb_tree_increment(NB* x) throw() { return inc(x); }
    const NB* _Rb_tree_increment(const NB* x) throw() { return inc(const_cast<NB*>(x)); }
    NB* _Rb_tree_decrement(NB* x) throw() { return dec(x); }
    const NB* _Rb_tree_decrement(const NB* x) throw() { return dec(const_cast<NB*>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
        x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        h._M_color = _S_red;
    }
    NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
        NB* y; // node replacing z
        auto transplant = [&](NB* u, NB* v) {
            if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
            if (v) v->_M_parent = u->_M_parent;
        };
        NB* next = nullptr; NB* prev = nullptr;
        if (h._M_left == z) next = (h._M_right == z) ? &h : inc(z);
        if (h._M_right == z) prev = (h._M_left == z) ? &h : dec(z);
        if (!z->_M_left) transplant(z, z->_M_right);
        else if (!z->_M_right) transplant(z, z->_M_left);
        else {
            y = z->_M_right; while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z) { transplant(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
            transplant(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
        }
        if (next) h._M_left = next;
        if (prev) h._M_right = prev;
        return z;
    }
}

// ---- C string functions used by inlined library code
extern "C" {
    int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
    int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
    size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
    wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
}

// ---- strtod: exact grammar; the value is exact when the text is concrete or has a short exact decimal form
// (D < 2^53, |exp10| <= 22: one correctly rounded operation), otherwise an unconstrained fresh value.
extern "C" {
    double vf_strtod_native(const char*, char**);
    int    vf_is_concrete(const void* p, size_t n);
    void   vf_fresh(void* p, size_t n);
    static bool vf_lower_eq(char c, char l) { return c == l || c == l - 32; }
    static bool vf_isdig(char c) { return c >= '0' && c <= '9'; }
    double strtod(const char* s, char** end) {
        const char* p = s;
        while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
        const char* st = p; bool neg = false, exact = true, any = false; double v = 0;
        if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
        const char* stop = s;
        if (vf_lower_eq(p[0], 'i') && vf_lower_eq(p[1], 'n') && vf_lower_eq(p[2], 'f')) {
            stop = p + 3; v = __builtin_inf();
            if (vf_lower_eq(p[3], 'i') && vf_lower_eq(p[4], 'n') && vf_lower_eq(p[5], 'i') && vf_lower_eq(p[6], 't') && vf_lower_eq(p[7], 'y')) stop = p + 8;
        } else if (vf_lower_eq(p[0], 'n') && vf_lower_eq(p[1], 'a') && vf_lower_eq(p[2], 'n')) {
            stop = p + 3; v = __builtin_nan("");
            if (*stop == '(') { const char* q = stop + 1; while (vf_isdig(*q) || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z') || *q == '_') q++; if (*q == ')') { if (q != stop + 1) exact = false; stop = q + 1; } }
        } else if (p[0] == '0' && vf_lower_eq(p[1], 'x')) {
            const char* q = p + 2; bool dig = false, dot = false;
            for (;; q++) { if (vf_isdig(*q) || (*q >= 'a' && *q <= 'f') || (*q >= 'A' && *q <= 'F')) dig = true; else if (*q == '.' && !dot) dot = true; else break; }
            if (!dig) stop = p + 1; // just the "0"
            else {
                exact = false; stop = q;
                if (vf_lower_eq(*q, 'p')) { const char* r = q + 1; if (*r == '+' || *r == '-') r++; if (vf_isdig(*r)) { while (vf_isdig(*r)) r++; stop = r; } }
            }
        } else {
            uint64_t D = 0; int e10 = 0, nd = 0;
            const char* q = p;
            for (; vf_isdig(*q); q++) { any = true; if (nd < 15) D = D * 10 + (*q - '0'); else exact = false; nd++; }
            if (*q == '.') {
                const char* r = q + 1;
                for (; vf_isdig(*r); r++) { any = true; if (nd < 15) { D = D * 10 + (*r - '0'); e10--; } else exact = false; nd++; }
                if (any) q = r;
            }
            if (any) {
                stop = q;
                if (vf_lower_eq(*q, 'e')) {
                    const char* r = q + 1; bool en = false; if (*r == '+' || *r == '-') { en = *r == '-'; r++; }
                    if (vf_isdig(*r)) { int x = 0; for (; vf_isdig(*r); r++) if (x < 100000) x = x * 10 + (*r - '0'); stop = r; if (x > 330) exact = false; else { x = (int)vf_concrete((uint64_t)x); e10 += en ? -x : x; } }
                }
                if (exact && e10 != 0) D = vf_concrete(D); // no symbolic FP scaling
                if (exact && (e10 > 22 || e10 < -22)) {    // concrete digits and exponent: the host's strtod is exact
                    char buf[40], *d; int n = 0; char t[24]; int k = 0; uint64_t y = D; do { t[k++] = '0' + y % 10; y /= 10; } while (y);
                    while (k) buf[n++] = t[--k];
                    buf[n++] = 'e'; int x = e10; if (x < 0) { buf[n++] = '-'; x = -x; }
                    k = 0; do { t[k++] = '0' + x % 10; x /= 10; } while (x); while (k) buf[n++] = t[--k];
                    buf[n] = 0; v = vf_strtod_native(buf, &d); e10 = 0; stop = stop; if (end) *end = (char*)stop; return neg ? -v : v;
                }
                if (exact) { static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22}; v = (double)D; v = e10 < 0 ? v / p10[-e10] : e10 > 0 ? v * p10[e10] : v; }
            }
        }
        if (end) *end = (char*)stop;
        if (stop != s && !exact) {
            if (vf_is_concrete(s, stop - s)) { char* dummy; return vf_strtod_native(s, &dummy); }
            vf_fresh(&v, 8); return v;
        }
        return neg && stop != s ? -v : v;
    }
}

// ---- streams: real basic_ios/istream/ostream/streambuf templates; only locale support is stubbed
namespace std {
    locale::locale() noexcept : _M_impl(nullptr) { }
    locale::locale(const locale&) noexcept : _M_impl(nullptr) { }
    locale::~locale() noexcept { }
    const locale& locale::operator=(const locale&) noexcept { return *this; }
    ios_base::ios_base() noexcept
        : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() { }
    ios_base::~ios_base() { }
    void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
}
struct VfIos : std::basic_ios<char> {
    void go(std::basic_streambuf<char>* sb) {
        ios_base::_M_init();
        _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; _M_fill = ' '; _M_fill_init = true; _M_tie = nullptr;
        _M_exception = std::ios_base::goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? std::ios_base::goodbit : std::ios_base::badbit;
    }
};
extern "C" void _ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E(VfIos* self, std::basic_streambuf<char>* sb) { self->go(sb); }
struct VfIos2 : std::basic_ios<char> { void clr(std::ios_base::iostate st) { _M_streambuf_state = rdbuf() ? st : st | std::ios_base::badbit; if (_M_exception & _M_streambuf_state) __builtin_trap(); } };
extern "C" void _ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate(VfIos2* self, std::_Ios_Iostate st) { self->clr(st); }
template class std::basic_streambuf<char>;
template class std::basic_istream<char>;
template class std::basic_ostream<char>;
template class std::basic_string<char>;
template class std::basic_string<char16_t>;
template class std::basic_string<char32_t>;

// ---- iconv: UTF-8 / UTF-16LE / UTF-32LE only (the charsets the library asks for), POSIX error protocol
namespace {
    struct Cd { int to, from; };
    int cs(const char* s) { if (!strcmp(s, "UTF-8")) return 1; if (!strcmp(s, "UTF-16LE")) return 2; if (!strcmp(s, "UTF-32LE")) return 4; return 0; }
    // returns bytes consumed, 0 = incomplete, -1 = invalid
    int decode(int enc, const unsigned char* p, size_t n, uint32_t& c) {
        if (enc == 4) { if (n < 4) return 0; c = p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; return (c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) ? -1 : 4; }
        if (enc == 2) {
            if (n < 2) return 0; c = p[0] | p[1] << 8;
            if (c >= 0xd800 && c < 0xdc00) { if (n < 4) return 0; uint32_t d = p[2] | p[3] << 8; if (d < 0xdc00 || d > 0xdfff) return -1; c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00); return 4; }
            return (c >= 0xdc00 && c < 0xe000) ? -1 : 2;
        }
        unsigned char a = p[0];
        if (a < 0x80) { c = a; return 1; }
        int k = a >= 0xc2 && a <= 0xdf ? 2 : a >= 0xe0 && a <= 0xef ? 3 : a >= 0xf0 && a <= 0xf4 ? 4 : 0;
        if (!k) return -1;
        c = k == 2 ? a & 0x1f : k == 3 ? a & 0x0f : a & 7;
        for (int i = 1; i < k; i++) {
            if ((size_t)i >= n) return 0;
            unsigned char b = p[i];
            if ((b & 0xc0) != 0x80) return -1;
            if (i == 1 && ((a == 0xe0 && b < 0xa0) || (a == 0xed && b > 0x9f) || (a == 0xf0 && b < 0x90) || (a == 0xf4 && b > 0x8f))) return -1;
            c = c << 6 | (b & 0x3f);
        }
        return k;
    }
    int encode(int enc, uint32_t c, unsigned char* o) {
        if (enc == 4) { o[0] = c; o[1] = c >> 8; o[2] = c >> 16; o[3] = c >> 24; return 4; }
        if (enc == 2) {
            if (c < 0x10000) { o[0] = c; o[1] = c >> 8; return 2; }
            c -= 0x10000; uint32_t h = 0xd800 + (c >> 10), l = 0xdc00 + (c & 0x3ff); o[0] = h; o[1] = h >> 8; o[2] = l; o[3] = l >> 8; return 4;
        }
        if (c < 0x80) { o[0] = c; return 1; }
        if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 0x3f); return 2; }
        if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 0x3f); o[2] = 0x80 | (c & 0x3f); return 3; }
        o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 0x3f); o[2] = 0x80 | (c >> 6 & 0x3f); o[3] = 0x80 | (c & 0x3f); return 4;
    }
}
extern "C" {
    iconv_t iconv_open(const char* to, const char* from) { int t = cs(to), f = cs(from); if (!t || !f) { the_errno = EINVAL; return (iconv_t)-1; } return (iconv_t) new Cd{t, f}; }
    int iconv_close(iconv_t c) { delete (Cd*)c; return 0; }
    size_t iconv(iconv_t cd, char** in, size_t* nin, char** out, size_t* nout) {
        Cd* d = (Cd*)cd;
        if (!in || !*in) return 0;
        while (*nin > 0) {
            uint32_t c; unsigned char o[4];
            int k = decode(d->from, (const unsigned char*)*in, *nin, c);
            if (k == 0) { the_errno = EINVAL; return (size_t)-1; }
            if (k < 0) { the_errno = EILSEQ; return (size_t)-1; }
            int m = encode(d->to, c, o);
            if ((size_t)m > *nout) { the_errno = E2BIG; return (size_t)-1; }
            for (int i = 0; i < m; i++) (*out)[i] = o[i];
            *in += k; *nin -= k; *out += m; *nout -= m;
        }
        return 0;
    }
}
