#include <ipaddress/ipaddress.hpp>
#include "spec_v4.hpp"
using namespace ipaddress;
static const error_code OK = error_code::no_error;
#ifdef VF_NATIVE
static const size_t CAP = 4096;
#else
static const size_t CAP = 24;
#endif
// any text: the first 24 characters arbitrary, any length; a read past them is a failed bounds obligation
#define ANY_TEXT(buf, n) \
    char buf[CAP]; for (size_t i = 0; i < CAP; ++i) buf[i] = '1'; \
    for (int i = 0; i < 24; ++i) buf[i] = (char) nd_u8(); \
    size_t n = nd_u32(); { size_t lim = vf_param(0); vf_assume(n <= (lim ? lim : CAP > 24 ? CAP : 0x7fffffff)); if (lim == 0 && CAP == 24) vf_assume(true); }

ROOT(p_v4_parse) {
    ANY_TEXT(buf, n)
    error_code c = (error_code) (nd_u32() & 31);          // stale code from an earlier call
    auto a = ipv4_address::parse(std::string_view(buf, n), c);
    uint32_t v = 0; bool ok = n <= 24 && spec_v4(buf, n, v);
    vf_assert(ok == (c == OK), "a text is accepted iff it is four octets 0..255 without leading zeros");
    vf_assert(!ok || a.to_uint() == v, "parsed value"); vf_assert(ok || a.to_uint() == 0, "default address on error");
    vf_cover(ok, "accepted"); vf_cover(!ok, "rejected"); vf_cover(n > 24 && !ok, "long text");
}
ROOT(p_v4_parse_throw) {
    ANY_TEXT(buf, n)
    error_code c = OK;
    auto a = ipv4_address::parse(std::string_view(buf, n), c);
    uint32_t b = 0, exc = 0; bool thrown = false;
    try { b = ipv4_address::parse(std::string_view(buf, n)).to_uint(); } catch (...) { thrown = true; exc = vf_exc_code(); }
    vf_assert(thrown == (c != OK), "throwing form throws iff the error_code form reports an error");
    vf_assert(!thrown || exc == (uint32_t) c, "exception carries the same code");
    vf_assert(thrown || b == a.to_uint(), "same value");
    vf_cover(thrown, "thrown"); vf_cover(!thrown, "ok");
}
ROOT(p_v4_array) {                          // character array: the text ends at the first NUL
    char buf[18]; for (int i = 0; i < 17; ++i) buf[i] = (char) nd_u8(); buf[17] = 0;
    error_code c = (error_code) (nd_u32() & 31);
    auto a = ipv4_address::parse(buf, c);
    size_t n = 0; while (buf[n]) ++n;
    uint32_t v = 0; bool ok = spec_v4(buf, n, v);
    vf_assert(ok == (c == OK), "array form accepts exactly the same texts");
    vf_assert(a.to_uint() == (ok ? v : 0), "array form value");
    uint32_t b = 0; bool thrown = false;
    try { b = ipv4_address::parse(buf).to_uint(); } catch (...) { thrown = true; }
    vf_assert(thrown == !ok, "throwing array form");
    vf_assert(thrown || b == v, "throwing array form value");
    vf_cover(ok, "ok");
}
ROOT(p_v4_format) {
    uint32_t u = nd_u32(); int f = nd_u8(); vf_assume(f <= 2);
    auto a = ipv4_address::from_uint(u);
    std::string s = a.to_string((format) f);
    char e[16]; size_t n = spec_v4_text(u, e);
    vf_assert(s.size() == n, "length of the text");
    bool eq = true; for (size_t i = 0; i < 15; ++i) if (i < n && s[i] != e[i]) eq = false;
    vf_assert(eq, "canonical dotted decimal");
    uint32_t w = 0; bool ok = spec_v4(e, n, w);
    vf_assert(ok && w == u, "the canonical text denotes the address");
    vf_cover(n == 15, "15"); vf_cover(n == 7, "7");
}
ROOT(p_v4_roundtrip) {
    uint32_t u = nd_u32();
    error_code c = OK;
    auto a = ipv4_address::parse(ipv4_address::from_uint(u).to_string(), c);
    vf_assert(c == OK && a.to_uint() == u, "parse(to_string(a)) == a");
}
