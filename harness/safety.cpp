// C01-C03: every byte string offered as a document is either accepted or rejected with the library's exception.
// fmt 0 JSON / 1 MessagePack / 2 Srl;  mode 0 load+walk+re-store, 1 load from a stream, 2.. typed restores
#include "common.hpp"
using namespace Srl;
struct Inner { int a = 0; std::string s; void srl_resolve(Context& c) { c("a", a)("s", s); } };
struct Outer {
    int8_t i = 0; std::string s; std::vector<int16_t> v; bool b = false; Inner in; uint32_t u = 0;
    void srl_resolve(Context& c) { c("i", i)("v", v)("in", in)("b", b)("s", s)("u", u); }
};
struct Opt { int a = 5; std::string s; Inner in; void srl_resolve(Context& c) { c("a", a, CtxFlags::Optional)("in", in, CtxFlags::Optional)("s", s, CtxFlags::Optional); } };
struct Txt { char c = 0; char str[4]; char16_t s16[3]; std::u32string s32; void srl_resolve(Context& x) { x("c", c)("str", str)("s16", s16)("s32", s32); } };
struct Bin { std::vector<uint32_t> v; std::vector<uint8_t> w; void srl_resolve(Context& x) { x("v", VecWrap<uint32_t>(v))("w", VecWrap<uint8_t>(w)); } };
struct Ptr { std::unique_ptr<int> u; int* p = nullptr; std::unique_ptr<Inner> i; ~Ptr() { delete p; } Ptr() { } Ptr(const Ptr&) = delete;
             void srl_resolve(Context& x) { x("u", u)("p", p)("i", i); } };
struct Shr { std::shared_ptr<int> a, b; void srl_resolve(Context& x) { x("a", a)("b", b); } };
struct PBase { virtual ~PBase() { } virtual const TypeID& srl_type_id(); int a = 0; virtual void srl_resolve(Context& c) { c("a", a); } };
static const auto pbase_id = register_type<PBase>("PB");
const TypeID& PBase::srl_type_id() { return pbase_id; }

static const char* const prefixes[3][16] = {
  { "", "{\"a\":", "[\"\\", "[\"\\u", "{\"a\":{\"a\":1},", "[[1],\"", "[1", "/*", "{\"i\":1,\"v\":[", "[-", "{\"s\":\"\\u12", "[tru", "[92233720368547758", "[1.", "{\"u\":", "[\"ab" },
  { "", "\x81\xa1" "a", "\x92", "\xdf", "\xdd", "\x81\xda", "\x91\xdb", "\x91\xc6", "\x91\xcf\x01\x02\x03\x04", "\x82\xa1" "a\x91", "\x81\xa1i", "\x81\xa1v\x91", "\x91\xcb\x7f\xf0", "\x81", "\x81\xa1u", "\x91\xca" },
  { "", "\x40\x21\x02", "\x80", "\x40\x42\x01" "a", "\x80\x20", "\x80\x10", "\x40\x03\x01" "a", "\x80\x01\x80\x80\x80\x80\x80\x80\x80\x80", "\x40\x42\x01" "a\x03\x01" "a\x05\x00", "\x80\x21", "\x40\x03\x01i", "\x40\x82\x01v", "\x80\x20\x80\x80\x80\x80\x80\x80\x80\x80", "\x40\x42", "\x40\x03\x01u", "\x80\x09" } };
static const unsigned prelen[3][16] = {
  { 0, 5, 3, 4, 12, 6, 2, 2, 12, 2, 10, 4, 18, 3, 5, 4 },
  { 0, 3, 1, 1, 1, 2, 2, 2, 6, 4, 3, 4, 4, 1, 3, 2 },
  { 0, 3, 1, 4, 2, 2, 4, 10, 9, 2, 4, 4, 10, 2, 4, 2 } };

static void walk(Node& n, unsigned& cnt) {
    n.foreach_value([&](Value& v) {
        cnt++;
        vf_observe((uint64_t)v.type());
        if (v.type() == Type::String) vf_observe(v.unwrap<std::string>().size());
        else if (TpTools::is_scalar(v.type())) { try { (void)v.unwrap<int16_t>(); vf_observe(1); } catch (Srl::Exception&) { vf_observe(0); } }
    }, true);
    n.foreach_node([&](Node&) { cnt++; }, true);
}
template<class T> static void typed(const uint8_t* d, size_t n, int f, bool stream) {
    T o; Tree t; AnyParser ap; 
    if (!stream) t.restore(o, Lib::In::Source(d, n), ap.get(f));
    else { InBuf ib(d, n, 3); std::istream is(&ib); t.restore(o, Lib::In::Source(is), ap.get(f)); }
    vf_observe(77);
}
// documents with symbolic holes: '?' any byte, '#' a digit, '^' a hex digit, '@' ASCII without '"' and '\\'
struct Tpl { const char* s; unsigned n; };
#define T(x) { x, sizeof(x) - 1 }
static const Tpl tpls[3][32] = { {
  T("{\"c\":\"?\",\"str\":\"ab\",\"s16\":\"a\",\"s32\":\"a\"}"),          // 0  Txt
  T("{\"c\":\"x\",\"str\":\"???\",\"s16\":\"a\",\"s32\":\"a\"}"),
  T("{\"c\":\"x\",\"str\":\"abc@\",\"s16\":\"a\",\"s32\":\"a\"}"),
  T("{\"c\":\"x\",\"str\":\"ab\",\"s16\":\"???\",\"s32\":\"a\"}"),
  T("{\"c\":\"x\",\"str\":\"ab\",\"s16\":\"\\u^?^^\",\"s32\":\"?\"}"),
  T("{\"v\":\"??AA\",\"w\":\"?\"}"),                                       // 5  Bin
  T("{\"v\":\"AAAAA???\",\"w\":\"AA==\"}"),
  T("{\"v\":\"\",\"w\":\"????\"}"),
  T("{\"u\":??,\"p\":1,\"i\":{\"a\":1,\"s\":\"\"}}"),                      // 8  Ptr
  T("{\"u\":1,\"p\":1,\"i\":{\"a\":??,\"s\":\"\"}}"),
  T("{\"a\":{\"srl_shared_key\":?,\"srl_shared_value\":1},\"b\":{\"srl_shared_key\":?}}"), // 10 Shr
  T("{\"a\":{\"srl_shared_key\":0,\"srl_shared_value\":1},\"b\":{\"srl_shared_ke?\":0}}"),
  T("[{\"srl_type_id\":\"??\",\"a\":1}]"),                                 // 12 PBase
  T("[{\"srl_type_id\":\"PB\",\"a\":?}]"),
  T("{\"i\":##?,\"v\":[1],\"in\":{\"a\":1,\"s\":\"x\"},\"b\":true,\"s\":\"\",\"u\":1}"), // 14 Outer
  T("{\"u\":1,\"v\":[?,?],\"in\":{\"a\":1,\"s\":\"x\"},\"b\":true,\"s\":\"\",\"i\":1}"),
  T("{\"i\":1,\"v\":[],\"in\":{\"a\":1,\"s\":?},\"b\":?,\"s\":\"\",\"u\":1}"),
  T("{\"?\":1,\"in\":{\"a\":1,\"s\":\"x\"},\"s\":?}"),                     // 17 Opt
  T("[?,\"?\",?]"),                                                        // 18 tuple
  T("[[?,?],[?]]"),                                                        // 19 vector of vectors
  T("[{\"key\":\"?\",\"value\":?}]"),                                      // 20 map
  T("{\"?\":1,\"?\":2}"),                                                  // 21 HTable
  T("[\"?\",\"??\"]"),                                                     // 22 strings
  T("[\"abcdefghij\\u^^^^\"]"),                                            // 23
  T("[\"\\ud8^^\\u????\"]"),                                               // 24
  T("[/*??*/1]"), T("[1//??\n,2]"), T("[1,/?\n2]"),                        // 25..27
  T("[-##?]"), T("[1e?#]"), T("[1844674407370955###]"),                    // 28..30
  T("{\"a\":[{},{\"a\":?}]}") }, {
  T("\x84\xa1" "c?a\xa3str\xa2" "ab\xa3s16\xa1" "a\xa3s32\xa1" "a"),
  T("\x84\xa1" "c\xa1" "a\xa3str\xa3???\xa3s16\xa1" "a\xa3s32\xa1" "a"),
  T("\x84\xa1" "c\xa1" "a\xa3str?abcd\xa3s16\xa1" "a\xa3s32\xa1" "a"),
  T("\x84\xa1" "c\xa1" "a\xa3str\xa1" "a\xa3s16\xa3???\xa3s32\xa1" "a"),
  T("\x84\xa1" "c\xa1" "a\xa3str\xa1" "a\xa3s16\xa2??\xa3s32\xa3???"),
  T("\x82\xa1v\xc4?abcdefgh\xa1w\xc4\x01?"),
  T("\x82\xa1v\xa4????\xa1w\xa4?A=="),
  T("\x82\xa1v\xc5??abcdefgh"),
  T("\x83\xa1u?\xa1p?\xa1i\x82\xa1" "a\x01\xa1s\xa0"),
  T("\x83\xa1u\x01\xa1p\x01\xa1i\x82\xa1" "a?\xa1s?x"),
  T("\x82\xa1" "a\x82\xaesrl_shared_key?\xb0srl_shared_value\x01\xa1" "b\x81\xaesrl_shared_key?"),
  T("\x82\xa1" "a\x82\xaesrl_shared_key\x01\xb0srl_shared_value?\xa1" "b\x81\xaesrl_shared_ke?\x01"),
  T("\x91\x82\xabsrl_type_id\xa2??\xa1" "a\x01"),
  T("\x91\x82\xabsrl_type_id\xa2PB\xa1" "a??"),
  T("\x86\xa1i\xd1??\xa1v\x91\x01\xa2in\x82\xa1" "a\x01\xa1s\xa1x\xa1" "b\xc3\xa1s\xa0\xa1u\x01"),
  T("\x86\xa1u\x01\xa1v\xdc?\x02??\xa2in\x82\xa1" "a\x01\xa1s\xa1x\xa1" "b\xc3\xa1s\xa0\xa1i\x01"),
  T("\x86\xa1i\x01\xa1v\x90\xa2in\x82\xa1" "a\x01\xa1s?\xa1" "b?\xa1s\xa0\xa1u\x01"),
  T("\x83\xa1?\x01\xa2in\x82\xa1" "a\x01\xa1s\xa1x\xa1s?"),
  T("\x93?\xa1??"), T("\x92\x92??\x91?"), T("\x91\x82\xa3key\xa1?\xa5value?"), T("\x82\xa1?\x01\xa1?\x02"), T("\x92\xa1?\xa2??"),
  T("\x91\xd9?abc"), T("\x91\xda??abc"), T("\x91\xdb????abc"), T("\xdf????\xa1" "a\x01"), T("\xdd???\x02\x01\x02"), T("\x91\xce????"), T("\x91\xcb????\x01\x02\x03\x04"),
  T("\x82?\x05\x06\x07\x08"), T("\x81\xa1" "a\x92\x80\x81\xa1" "a??") }, {
  T("\x40\x22\x01" "c\x01?\x22\x03str\x02" "ab\x22\x03s16\x01" "a\x22\x03s32\x01" "a\x00"),
  T("\x40\x22\x01" "c\x01" "a\x22\x03str\x03???\x22\x03s16\x01" "a\x22\x03s32\x01" "a\x00"),
  T("\x40\x22\x01" "c\x01" "a\x22\x03str?abcd\x22\x03s16\x01" "a\x22\x03s32\x01" "a\x00"),
  T("\x40\x22\x01" "c\x01" "a\x22\x03str\x01" "a\x22\x03s16\x03???\x22\x03s32\x01" "a\x00"),
  T("\x40\x22\x01" "c\x01" "a\x22\x03str\x01" "a\x22\x03s16\x02??\x22\x03s32\x03???\x00"),
  T("\x40\x12\x01v?abcdefgh\x12\x01w\x01?\x00"),
  T("\x40\x22\x01v\x04????\x22\x01w\x04?A==\x00"),
  T("\x40\x12\x01v??abcdefgh"),
  T("\x40\x03\x01u?\x03\x01p?\x42\x01i\x03\x01" "a\x01\x22\x01s\x00\x00\x00"),
  T("\x40\x03\x01u\x01?\x01p\x01\x42\x01i\x03\x01" "a?\x22\x01s\x01?\x00\x00"),
  T("\x40\x42\x01" "a\x03\x0esrl_shared_key?\x03\x10srl_shared_value\x01\x00\x42\x01" "b\x07?\x01\x00\x00"),
  T("\x40\x42\x01" "a\x03\x0esrl_shared_key\x01?\x10srl_shared_value\x01\x00\x46?\x07\x01\x01\x00\x00"),
  T("\x80\x40\x22\x0bsrl_type_id\x02??\x03\x01" "a\x01\x00\x00"),
  T("\x80\x40\x22\x0bsrl_type_id\x02PB?\x01" "a?\x00\x00"),
  T("\x40\x03\x01i??\x82\x01v\x01\x01\x00\x42\x02in\x03\x01" "a\x01\x22\x01s\x01x\x00\x42\x01" "b\x22\x05\x00\x03\x01u\x01\x00"),
  T("\x40\x03\x01u\x01\x82\x01v?\x01??\x42\x02in\x03\x01" "a\x01\x22\x01s\x01x\x00\x42\x01" "b"),
  T("\x40\x03\x01i\x01\x82\x01v\x00\x42\x02in\x03\x01" "a\x01\x22\x01s?\x00?\x01" "b\x27\x04\x00\x03\x01u\x01\x00"),
  T("\x40\x03\x01?\x01\x42\x02in\x03\x01" "a\x01\x22\x01s\x01x\x00?\x01s\x00"),
  T("\x80\x01?\x20\x01??"), T("\x80\x80\x01?\x01?\x00\x80\x01?\x00\x00"), T("\x80\x40\x22\x03key\x01?\x03\x05value?\x00\x00"), T("\x40\x03\x01?\x01\x03\x01?\x02\x00"), T("\x80\x20\x01?\x20\x02??\x00"),
  T("\x80\x01\xff\xff\xff\xff\xff\xff\xff\xff???"), T("\x80\x20\xff\xff\xff\xff\xff\xff\xff\xff??"), T("\x80\x10?\x80\x80\x80\x80\x80\x80\x80\x80\x01"), T("\x40\x07?\x01"), T("\x40\x03\xff\xff\xff\xff\x0f?"), T("\x80\x09\x80\x80\x80\x80\x80\x80\x80\x80\x80?"), T("\x80\x21????\x00"),
  T("\x40\x03\x01" "a\x01\x07?\x02\x07?\x03"), T("\x40\x82\x01" "a\x40\x00\x40\x07?\x01\x00") } };
static const int tplmode[32] = { 4, 4, 4, 4, 4, 5, 5, 5, 6, 6, 20, 20, 22, 22, 2, 2, 2, 3, 23, 24, 8, 9, 7, 7, 7, 0, 0, 0, 0, 0, 0, 21 };
#undef T

static void run(const Buf& b, int f, int mode) {
    try {
        switch (mode) {
        case 0: case 1: {
            Tree t; AnyParser ap; unsigned cnt = 0;
            if (mode == 0) t.load_source(Lib::In::Source(b.p, b.n), ap.get(f));
            else { InBuf ib(b.p, b.n, 5); std::istream is(&ib); t.load_source(Lib::In::Source(is), ap.get(f)); }
            walk(t.root(), cnt); vf_observe(cnt);
            Bytes8 o1 = t.to_source<PMsgPack>(); vf_observe(o1.size());
            Bytes8 o2 = t.to_source<PSrl>(); vf_observe(o2.size());
            break; }
        case 2: case 12: typed<Outer>(b.p, b.n, f, mode > 9); break;
        case 3: case 13: typed<Opt>(b.p, b.n, f, mode > 9); break;
        case 4: case 14: typed<Txt>(b.p, b.n, f, mode > 9); break;
        case 5: case 15: typed<Bin>(b.p, b.n, f, mode > 9); break;
        case 6: case 16: typed<Ptr>(b.p, b.n, f, mode > 9); break;
        case 7: case 17: typed<std::vector<std::string>>(b.p, b.n, f, mode > 9); break;
        case 8: case 18: typed<std::map<std::string, int>>(b.p, b.n, f, mode > 9); break;
        case 9: case 19: typed<Lib::HTable<std::string, int>>(b.p, b.n, f, mode > 9); break;
        case 20: case 30: typed<Shr>(b.p, b.n, f, mode > 29); break;
        case 21: { Tree t; AnyParser ap; Union u; int a = 0; t.load_source(Lib::In::Source(b.p, b.n), ap.get(f));
            u = t.get("a"); vf_observe(u.is_node()); vf_observe(u.is_value()); a = u.unwrap<int>(); vf_observe(a); break; }
        case 22: case 32: typed<std::vector<std::unique_ptr<PBase>>>(b.p, b.n, f, mode > 29); break;
        case 23: case 33: typed<std::tuple<int, std::string, bool>>(b.p, b.n, f, mode > 29); break;
        case 24: case 34: typed<std::vector<std::vector<uint8_t>>>(b.p, b.n, f, mode > 29); break;
        }
        vf_reach("accepted");
    }
    catch (Srl::Exception& e) { vf_reach("rejected"); vf_observe(0xE); }
    catch (std::exception& e) { vf_fail("foreign exception escapes"); }
}

extern "C" void harness() {
    int f = P("fmt", 0), mode = P("mode", 0), tpl = P("tpl", -1);
    if (tpl >= 0) {                                                   // filled template, typed and dynamic, buffer or stream
        const Tpl& t = tpls[f][tpl];
        Bytes8 in((const uint8_t*)t.s, (const uint8_t*)t.s + t.n);
        for (unsigned i = 0; i < t.n; i++) {
            char k = t.s[i];
            if (k != '?' && k != '#' && k != '^' && k != '@') continue;
            if (f != JSON && k != '?') continue;
            vf_sym(&in[i], 1, "hole"); uint8_t c = in[i];
            if (k == '#') vf_assume(c >= '0' && c <= '9');
            if (k == '^') vf_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')));
            if (k == '@') vf_assume((c < 128) & (c != '"') & (c != '\\'));
        }
        Buf b(in);
        int m = P("dyn", 0) ? 0 : tplmode[tpl];
        if (P("stream", 0)) m = m == 0 ? 1 : m < 10 ? m + 10 : m == 21 ? 1 : m + 10;
        run(b, f, m);
        return;
    }
    int len = P("len", 4), pre = P("pre", 0), pad = P("pad", 0);
    unsigned pl = prelen[f][pre];
    Bytes8 in(pl + pad + len);
    if (pad && f == JSON) memset(in.data(), ' ', pad);               // leading whitespace moves the document over a refill boundary
    for (unsigned i = 0; i < pl; i++) in[pad + i] = (uint8_t)prefixes[f][pre][i];
    vf_sym(in.data() + pad + pl, len, "doc");
    Buf b(in);
    run(b, f, mode);
}
