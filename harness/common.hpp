// Shared helpers for the harnesses.  Only the public interface of Srl is used.
#pragma once
#include "vf.h"
#include <Srl/Srl.h>
#include <vector>
#include <string>
#include <streambuf>
#include <istream>
#include <ostream>
#include <cstring>
#include <memory>
#include <optional>
#include <map>
#include <set>
#include <list>
#include <tuple>
#include <array>
#include <deque>

typedef std::vector<uint8_t> Bytes8;

#define P(name, dflt) vf_param(name, dflt)

// exact-size heap copy so that any read past the end is an out-of-bounds access
struct Buf {
    uint8_t* p; size_t n;
    explicit Buf(const Bytes8& v) : p(new uint8_t[v.size() ? v.size() : 0]), n(v.size()) { if (n) memcpy(p, v.data(), n); }
    ~Buf() { delete[] p; }
    Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
};

// read-only stream over memory handing out at most `step` bytes per refill
struct InBuf : std::streambuf {
    const uint8_t* d; size_t n, at = 0, step; char cur[64];
    InBuf(const uint8_t* d_, size_t n_, size_t step_ = 64) : d(d_), n(n_), step(step_ < 64 ? step_ : 64) { }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (at >= n) return traits_type::eof();
        size_t k = n - at < step ? n - at : step;
        memcpy(cur, d + at, k); at += k;
        setg(cur, cur, cur + k);
        return traits_type::to_int_type(cur[0]);
    }
    std::streamsize xsgetn(char* s, std::streamsize want) override {
        std::streamsize got = 0;
        while (got < want) {
            if (gptr() == egptr() && underflow() == traits_type::eof()) break;
            std::streamsize k = egptr() - gptr(); if (k > want - got) k = want - got;
            memcpy(s + got, gptr(), k); gbump((int)k); got += k;
        }
        return got;
    }
};
struct InStream { InBuf b; std::istream is; InStream(const Bytes8& v, size_t step = 64) : b(v.data(), v.size(), step), is(&b) { } };

// seekable memory sink
struct OutBuf : std::streambuf {
    Bytes8 v; size_t at = 0;
    int_type overflow(int_type c) override { if (c != traits_type::eof()) put1((uint8_t)c); return c; }
    void put1(uint8_t c) { if (at < v.size()) v[at] = c; else { while (v.size() < at) v.push_back(0); v.push_back(c); } at++; }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (n > 0) { if (v.size() < at + n) v.resize(at + n); memcpy(v.data() + at, s, n); at += n; }
        return n;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        size_t base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? at : v.size(); at = base + o; return pos_type((off_type)at);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { at = (size_t)(off_type)p; return p; }
};
struct OutStream { OutBuf b; std::ostream os; OutStream() : os(&b) { } };

inline bool same(const Bytes8& a, const Bytes8& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()) == 0); }
inline Bytes8 bytes(const std::string& s) { return Bytes8(s.begin(), s.end()); }

enum Fmt { JSON = 0, MSGP = 1, SRLF = 2, JSONP = 3 /* pretty printed */ };

// one parser object per format behind the abstract parser interface
struct AnyParser {
    Srl::PJson j, jp { false }; Srl::PMsgPack m; Srl::PSrl s;
    Srl::Parser& get(int f) {
        switch (f) { case JSON: return j; case JSONP: return jp; case MSGP: return m; default: return s; }
    }
};
template<class F> void withParser(int f, F fn) {
    switch (f) {
    case JSON:  { Srl::PJson p; fn(p); break; }
    case JSONP: { Srl::PJson p(false); fn(p); break; }
    case MSGP:  { Srl::PMsgPack p; fn(p); break; }
    default:    { Srl::PSrl p; fn(p); }
    }
}

// canonical rendering of everything a document node shows through its public interface
inline void put(Bytes8& o, const void* p, size_t n) { o.insert(o.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
inline void dumpValue(Srl::Value& v, Bytes8& o, bool names = true) {
    o.push_back((uint8_t)v.type());
    if (names) { uint32_t n = (uint32_t)v.name().size(); put(o, &n, 4); put(o, v.name().data(), n); }
    if (v.type() == Srl::Type::String || v.type() == Srl::Type::Binary) { uint32_t n = (uint32_t)v.size(); put(o, &n, 4); put(o, v.data(), n); }
    else if (v.type() == Srl::Type::FP32) { float f = v.pblock().fp32; put(o, &f, 4); }
    else { uint64_t x = v.type() == Srl::Type::Null ? 0 : v.pblock().ui64; put(o, &x, 8); }
}
inline void dumpNode(Srl::Node& n, Bytes8& o, bool names = true) {
    o.push_back((uint8_t)n.type()); o.push_back('(');
    bool nm = names && n.type() == Srl::Type::Object;
    n.foreach_value([&](Srl::Value& v) { dumpValue(v, o, nm); });
    n.foreach_node([&](Srl::Node& c) {
        if (nm) { uint32_t k = (uint32_t)c.name().size(); put(o, &k, 4); put(o, c.name().data(), k); }
        dumpNode(c, o, names); });
    o.push_back(')');
}
// outcome of an action: 1 = completed, 0 = library exception; anything else escapes as a failure
template<class F> inline bool ok(F f) { try { f(); return true; } catch (Srl::Exception&) { return false; } }
// stores o and restores it as r: 0 directly 1 through a tree 2 from load_object 3 with a tree and parser used before 4 from a stream 5 transcoded
template<class T, class R> inline bool through(T& o, R& r, int f, int via, Srl::Tree& t) {
    AnyParser ap; Srl::Tree wt; Bytes8 d;
    if (via == 2) { wt.load_object(o); d = wt.to_source(ap.get(f)); }
    else d = wt.store(o, ap.get(f));
    if (via == 3) { Bytes8 e = wt.store(o, ap.get(f)); vf_check(same(d, e), "storing again gives another document"); }
    if (via == 5) { Srl::Tree x; Buf b(d); int g = (f + 1) % 3; x.load_source(Srl::Lib::In::Source(b.p, b.n), ap.get(f)); d = x.to_source(ap.get(g)); f = g; }
    Buf b(d); InStream s(d, 7); AnyParser rp;
    return ok([&] { if (via == 1) { t.load_source(Srl::Lib::In::Source(b.p, b.n), rp.get(f)); t.root().paste(r); }
        else { if (via == 3) { t.restore(r, Srl::Lib::In::Source(b.p, b.n), rp.get(f)); r = R(); } if (via == 4) t.restore(r, Srl::Lib::In::Source(s.is), rp.get(f)); else t.restore(r, Srl::Lib::In::Source(b.p, b.n), rp.get(f)); } });
}
