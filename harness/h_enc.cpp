// P19: encodings.  One step of every character reader, IPv4 parsing directly, text conversion.
#include "util.hpp"
#include "spec_v4.hpp"
#include <cstring>
template <typename T> struct Unit { typedef uint32_t U; static T nd() { return (T) nd_u32(); } static uint32_t val(T c) { return (uint32_t) c; } };
template <> struct Unit<char> { static char nd() { return (char) nd_u8(); } static uint32_t val(char c) { return (unsigned char) c; } };
template <> struct Unit<char8_t> { static char8_t nd() { return (char8_t) nd_u8(); } static uint32_t val(char8_t c) { return c; } };
template <> struct Unit<char16_t> { static char16_t nd() { return (char16_t) nd_u16(); } static uint32_t val(char16_t c) { return c; } };
#ifdef IPADDRESS_CHAR_IS_UTF8
static const bool UTF = true;
#else
static const bool UTF = false;
#endif
template <typename T> static bool narrow() { return std::is_same<T, char>::value && !UTF; }
// contract of next_char_or_error: an ASCII unit is that character, one unit consumed; anything else is an error, never an ASCII character
template <typename T> static void reader() {
    T buf[5]; for (int i = 0; i < 5; ++i) buf[i] = Unit<T>::nd();
    size_t n = nd_u8(); vf_assume(n >= 1 && n <= 5);
#ifdef VF_NATIVE
    T* b = (T*) malloc(n * sizeof(T)); memcpy(b, buf, n * sizeof(T));
#else
    T* b = buf + (5 - n);                                      // a read past the end leaves the object
#endif
    const T* it = b; error_code c = (error_code) (nd_u8() & 63); uint32_t sym = nd_u32();
    T first = b[0];
    char ch = internal::next_char_or_error(it, (const T*) b + n, c, sym);
    uint32_t u = Unit<T>::val(first);
    if (u < 128 || narrow<T>()) { vf_assert(c == OK && ch == (char) u && it == b + 1, "an ASCII unit is read as that character"); }
    else {
        vf_assert(c == error_code::unexpected_symbol || c == error_code::wrong_encoding_sequence, "a non-ASCII or malformed sequence is an error");
        vf_assert(ch == 0 && it > b, "and is not decoded to a character");
    }
    const T* i2 = b; uint32_t exc = 0; char ch2 = 0; 
    try { ch2 = internal::next_char(i2, (const T*) b, (const T*) b + n); } catch (...) { exc = vf_exc_code(); }
    vf_assert(exc == (uint32_t) c && (exc != 0 || (ch2 == ch && i2 == it)), "throwing reader agrees");
}
ROOT(p_rd_c) { reader<char>(); }
ROOT(p_rd_w) { reader<wchar_t>(); }
ROOT(p_rd_8) { reader<char8_t>(); }
ROOT(p_rd_16) { reader<char16_t>(); }
ROOT(p_rd_32) { reader<char32_t>(); }
// IPv4 text of any length in any encoding
template <typename T> static void v4() {
    const size_t CAP = 24; T buf[CAP]; for (size_t i = 0; i < CAP; ++i) buf[i] = Unit<T>::nd();
    size_t n = nd_u32();
#ifdef VF_NATIVE
    n %= CAP + 1; { char e[20]; size_t m = spec_v4_text(nd_u32(), e); if (nd_u8() % 3) { n = m; for (size_t i = 0; i < n; ++i) buf[i] = (T) e[i]; if (nd_u8() & 1) buf[nd_u8() % n] = Unit<T>::nd(); } }
#endif
    char asc[CAP]; bool bad = false;
    for (size_t i = 0; i < CAP; ++i) { uint32_t u = Unit<T>::val(buf[i]); if (u > 127) { if (i < n) bad = true; u = 1; } asc[i] = (char) u; }
    error_code c = (error_code) (nd_u8() & 63);
    auto a = ipv4_address::parse(std::basic_string_view<T>(buf, n), c);
    uint32_t v = 0; bool ok = n <= 24 && !bad && spec_v4(asc, n, v);
    vf_assert(ok == (c == OK) && a.to_uint() == (ok ? v : 0), "same result as the narrow text; non-ASCII rejected");
    if (!bad && n <= 24) { error_code d = OK; ipv4_address::parse(std::string_view(asc, n), d); vf_assert(c == d, "same error as the narrow text"); }
    vf_cover(ok, "accepted");
}
ROOT(p_v4_w) { v4<wchar_t>(); }
ROOT(p_v4_8) { v4<char8_t>(); }
ROOT(p_v4_16) { v4<char16_t>(); }
ROOT(p_v4_32) { v4<char32_t>(); }
// text conversion: the characters of the narrow text
template <typename S> static void conv(const std::string& s, const S& w, size_t max) {
    vf_assert(w.size() == s.size(), "same length in every encoding");
    bool eq = true; for (size_t i = 0; i < max; ++i) if (i < s.size() && (uint32_t) w[i] != (uint32_t) (unsigned char) s[i]) eq = false;
    vf_assert(eq, "same characters in every encoding");
}
ROOT(p_conv4) {
    auto a = ipv4_address::from_uint(nd_u32()); std::string s = a.to_string();
    switch (vf_param(0)) { case 0: conv(s, a.to_wstring(), 15); break; case 1: conv(s, a.to_u8string(), 15); break; case 2: conv(s, a.to_u16string(), 15); break;
        case 3: conv(s, a.to_u32string(), 15); break; case 4: conv(s, std::to_wstring(a), 15); break; case 5: conv(s, std::to_string(a), 15); break; }
}

// the text of an IPv6 address is a contract stub here: any characters, any length that fits
#ifndef VF_NATIVE
static char g_txt[64]; static uint32_t g_n;
size_t chars6_vfstub(const ipv6_address::base_type&, const fixed_string<16>&, format, char (&r)[63]) { for (size_t i = 0; i < 62; ++i) if (i < g_n) r[i] = g_txt[i]; return g_n; }
#endif
template <typename A> static void conv6(const A& a, size_t max) {
    std::string s = a.to_string();
    switch (vf_param(0)) { case 0: conv(s, a.to_wstring(), max); break; case 1: conv(s, a.to_u8string(), max); break; case 2: conv(s, a.to_u16string(), max); break;
        case 3: conv(s, a.to_u32string(), max); break; case 4: conv(s, std::to_wstring(a), max); break; case 5: conv(s, std::to_string(a), max); break; }
}
static ipv6_address any6() {
#ifndef VF_NATIVE
    g_n = nd_u8(); vf_assume(g_n <= 56); for (int i = 0; i < 56; ++i) g_txt[i] = (char) (nd_u8() & 127);
#endif
    return mk6(nd_u128());
}
ROOT(p_conv6) { conv6(any6(), 62); }
ROOT(p_convnet4) { error_code c; uint8_t p = nd_u8(); vf_assume(p <= 32); conv6(ipv4_network::from_address(mk4(nd_u32()), c, p, false), 18); }
ROOT(p_convnet6) { error_code c; uint8_t p = nd_u8(); vf_assume(p <= 128); conv6(ipv6_network::from_address(any6(), c, p, false), 66); }
