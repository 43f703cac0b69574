// Public text entry points of the network types: they hand exactly the given characters and the strict flag to
// parse_address_with_prefix (a contract stub here: P10), once, and return its result and its code.
#include "net.hpp"
#include <cstring>
#ifdef VF_V4
typedef ipv4_network Net; typedef ipv4_address A; static const size_t W = 32;
#else
typedef ipv6_network Net; typedef ipv6_address A; static const size_t W = 128;
#endif
static uint32_t g_calls, g_code, g_strict; static uint64_t g_len; static const void* g_ptr; static Net g_net; static uint32_t g_txt[8];
template <typename S> static Net seen(const S& s, bool strict, error_code& c, uint32_t& v) {
    ++g_calls; g_ptr = s.data(); g_len = s.size(); g_strict = strict;
    if (g_len <= 8) for (size_t i = 0; i < 8; ++i) if (i < g_len) g_txt[i] = (uint32_t) s.data()[i];
    c = (error_code) g_code; v = 0; return g_code == 0 ? g_net : Net();
}
#ifdef VF_NATIVE
static void pick() {}
#else
#if __cplusplus < 201703L
Net ns_c_vfstub(const std::string& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
#else
Net ns_c_vfstub(const std::string_view& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
Net ns_w_vfstub(const std::wstring_view& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
Net ns_8_vfstub(const std::u8string_view& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
Net ns_16_vfstub(const std::u16string_view& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
Net ns_32_vfstub(const std::u32string_view& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
#endif
Net ns_a_vfstub(const fixed_string<6>& s, bool t, error_code& c, uint32_t& v) { return seen(s, t, c, v); }
static void pick() { g_code = nd_u8(); vf_assume(g_code < 40); g_net = nd_net<Net>().n; }
#endif
static void same(const Net& r, error_code c, bool strict, const void* p, size_t n) {
#ifndef VF_NATIVE
    vf_assert(g_calls == 1 && (p == nullptr || g_ptr == p) && g_len == n && g_strict == (uint32_t) strict, "exactly the given text and mode are parsed");
    vf_assert(c == (error_code) g_code && r == (g_code == 0 ? g_net : Net()), "the parser's result and code are returned");
#endif
}
#ifdef VF_NATIVE
static size_t gen(char* o) { unsigned k = nd_u8(); size_t n = 0;
#ifdef VF_V4
    n = k % 5 ? (size_t) sprintf(o, "%u.0.0.0", nd_u8() % 10) : (size_t) sprintf(o, "1.2");
#else
    n = (size_t) sprintf(o, "%x::", nd_u8());
#endif
    if (k & 8) n += (size_t) sprintf(o + n, "/%u", nd_u8() % 40); if (k & 16) o[n ? nd_u8() % n : 0] = (char) nd_u8(); if (nd_u8() % 4 == 0) n = nd_u8() % (n + 1); return n; }
#endif
template <typename T, typename V> static void view() {
    pick(); T buf[24]; size_t n = nd_u64(); bool strict = nd_u8() & 1; vf_assume(n <= (size_t) 0x7fffffffffffffff / sizeof(T));
#ifdef VF_NATIVE
    char tx[40]; n = gen(tx); if (n > 24) n = 24; for (size_t i = 0; i < n; ++i) buf[i] = (T) (unsigned char) tx[i];
#elif __cplusplus < 201703L
    n = vf_param(0); for (size_t i = 0; i < 24; ++i) buf[i] = (T) nd_u8();
#endif
    V s(buf, n); const void* at = s.data();
    error_code c = (error_code) (nd_u8() & 63), d = OK; unsigned k = nd_u8() & 3; Net r;
    if (k == 0) { r = Net::parse(s, c, strict); }
    else if (k == 1) { strict = true; r = Net::parse(s, c); }
    else { c = OK; if (k == 3) strict = true; try { if (k == 2) r = Net::parse(s, strict); else r = Net::parse(s); } catch (...) { c = (error_code) vf_exc_code(); } }
    same(r, c, strict, at, n);
#ifdef VF_NATIVE
    std::string q; bool bad = false; for (size_t i = 0; i < n; ++i) { q += (char) buf[i]; if (sizeof(T) > 1 ? (uint32_t) buf[i] > 127 : !std::is_same<T, char>::value && (unsigned char) buf[i] > 127) bad = true; }
    Net w = Net::parse_address_with_prefix(q, strict, d, *new uint32_t);
    vf_assert(bad ? c != OK : c == d && r == w, "the parser's result and code are returned");
#endif
}
template <typename T> static void array(bool thr) {
    pick(); T buf[7]; size_t n = 6; bool bad = false, strict = nd_u8() & 1;
    for (size_t i = 0; i < 7; ++i) buf[i] = (T) (sizeof(T) == 1 ? nd_u8() : sizeof(T) == 2 ? nd_u16() : nd_u32());
#ifdef VF_NATIVE
    { char tx[40]; size_t m = gen(tx); if (nd_u8() & 1) for (size_t i = 0; i < 7; ++i) buf[i] = i < m ? (T) (unsigned char) tx[i] : 0; }
#endif
    for (size_t i = 6; i-- > 0;) if (buf[i] == 0) n = i;
    if (!std::is_same<T, char>::value) for (size_t i = 0; i < 6; ++i) if (i < n && ((uint32_t) buf[i] & (sizeof(T) == 1 ? 0xFF : 0xFFFFFFFF)) > 127) bad = true;
    error_code c = (error_code) (nd_u8() & 63); Net r; unsigned k = nd_u8() & 1; if (k) strict = true;
    if (!thr) r = k ? Net::parse(buf, c) : Net::parse(buf, c, strict);
    else { c = OK; try { r = k ? Net::parse(buf) : Net::parse(buf, strict); } catch (...) { c = (error_code) vf_exc_code(); } }
#ifdef VF_NATIVE
    std::string s; for (size_t i = 0; i < n; ++i) s += (char) buf[i];
    error_code d = OK; Net w = Net::parse_address_with_prefix(s, strict, d, *new uint32_t);
    vf_assert(bad ? c != OK : (c == d && r == w), "array text is the text up to its first NUL");
#else
    if (bad) { vf_assert(c != OK && r == Net(), "a non-ASCII character is rejected"); return; }
    same(r, c, strict, nullptr, n);
    bool eq = true; for (size_t i = 0; i < 6; ++i) if (i < n && g_txt[i] != (uint32_t) (unsigned char) buf[i] && g_txt[i] != (uint32_t) (char) buf[i]) eq = false;
    vf_assert(eq, "array text is the text up to its first NUL");
#endif
}
#if __cplusplus < 201703L
ROOT(p_nview_c) { view<char, std::string>(); }
#else
ROOT(p_nview_c) { view<char, std::string_view>(); }
ROOT(p_nview_w) { view<wchar_t, std::wstring_view>(); }
ROOT(p_nview_8) { view<char8_t, std::u8string_view>(); }
ROOT(p_nview_16) { view<char16_t, std::u16string_view>(); }
ROOT(p_nview_32) { view<char32_t, std::u32string_view>(); }
ROOT(p_narr_8) { array<char8_t>(false); }
ROOT(p_narr_8_throw) { array<char8_t>(true); }
#endif
ROOT(p_narr_c) { array<char>(false); }
ROOT(p_narr_w) { array<wchar_t>(false); }
ROOT(p_narr_16) { array<char16_t>(false); }
ROOT(p_narr_32) { array<char32_t>(false); }
ROOT(p_narr_c_throw) { array<char>(true); }
ROOT(p_narr_w_throw) { array<wchar_t>(true); }
ROOT(p_narr_16_throw) { array<char16_t>(true); }
ROOT(p_narr_32_throw) { array<char32_t>(true); }
