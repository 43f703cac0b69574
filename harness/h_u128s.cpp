// P18: 128-bit integers as text.
#include <limits>
#include "vf.hpp"
#include <sstream>
#include <iomanip>
#include <iostream>
#include <string>
#include <algorithm>
#include <cstring>
enum { MAXD = 43 };
#ifndef VF_NATIVE
extern "C" { struct vf_gstate { uint32_t choice, n, key; } vf_g; }
// --- std::ostringstream is replaced by its contract: characters are appended; a number is written in the base chosen by the last manipulator
static uint64_t g_lo[MAXD + 1], g_hi[MAXD + 1], g_mlo[MAXD + 1], g_mhi[MAXD + 1]; static uint8_t g_d[MAXD + 1]; static uint32_t g_m, g_B, g_j;
namespace std {
struct vf_ostringstream {
    char c[64]; size_t n; uint32_t base;
    vf_ostringstream() : n(0), base(10) {}
    vf_ostringstream& one(char x) { vf_require(n < 64, "no more characters than digits"); if (n < 64) c[n++] = x; return *this; }
    vf_ostringstream& operator<<(char x) { return one(x); }
    vf_ostringstream& operator<<(unsigned char x) { return one((char) x); }
    vf_ostringstream& operator<<(signed char x) { return one((char) x); }
    vf_ostringstream& num(uint64_t x) {
        if (x < base) return one((char) (x < 10 ? '0' + x : 'a' + (x - 10)));
        // a number of several digits: the value itself, in the requested base
        vf_require(base == g_B && g_hi[g_m] == 0 && x == g_lo[g_m], "a whole number is written in the chosen base");
        for (uint32_t i = 0; i < g_m; ++i) { uint8_t d = g_d[i + 1]; one((char) (d < 10 ? '0' + d : 'a' + (d - 10))); }
        return *this;
    }
    vf_ostringstream& operator<<(unsigned long x) { return num(x); }
    vf_ostringstream& operator<<(unsigned long long x) { return num(x); }
    vf_ostringstream& operator<<(unsigned x) { return num(x); }
    vf_ostringstream& operator<<(int x) { vf_require(x >= 0, "not negative"); return num((uint64_t) x); }
    vf_ostringstream& operator<<(std::ios_base& (*f)(std::ios_base&)) { if (f == static_cast<std::ios_base& (*)(std::ios_base&)>(std::oct)) base = 8; else if (f == static_cast<std::ios_base& (*)(std::ios_base&)>(std::hex)) base = 16; else if (f == static_cast<std::ios_base& (*)(std::ios_base&)>(std::dec)) base = 10; return *this; }
    template <typename X> vf_ostringstream& operator<<(const X&) { vf_require(false, "only digits are written"); return *this; }
    std::string str() const { return std::string(c, n); }
};
}
#define ostringstream vf_ostringstream
// --- ghost text: any length, any characters; the value of the digits read so far is part of the ghost state
#include <ipaddress/unicode.hpp>
struct G { uint32_t u; };
static uint64_t g_val[2]; static uint32_t g_stop, g_bad, g_other, g_count, g_gb;
static inline bool digit_of(uint32_t c, uint32_t B, uint32_t& d) { if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return false; return d < B; }
static inline void g_pick() { if (vf_g.choice == 0) { uint32_t c = hv_u8(); vf_assume(c >= 1 && c <= vf_g.n); vf_g.choice = c; } }
static inline char vfghost_char(const G*& it, const G* end, IPADDRESS_NAMESPACE::error_code& code) {
    vf_require(it < end, "no character is read past the end"); vf_require(!g_stop && !g_bad && !g_other, "nothing is read after the text was decided");
    g_pick(); uint32_t ch = vf_g.choice; vf_g.choice = 0; ++g_count; if (g_count > 1) g_count = 1;
    code = IPADDRESS_NAMESPACE::error_code::no_error;
    if (ch == 3) { g_bad = 1; code = IPADDRESS_NAMESPACE::error_code::unexpected_symbol; it = end; vf_g.n = 1; vf_g.key = 3; return 0; }
    char c = (char) hv_u8(); uint32_t d = 0;
    if (digit_of((unsigned char) c, g_gb, d)) {
        unsigned __int128 v = (unsigned __int128) g_val[1] << 64 | g_val[0]; v = (g_gb == 10 ? (v << 3) + (v << 1) : g_gb == 8 ? v << 3 : v << 4) + d;
        g_val[0] = (uint64_t) v; g_val[1] = (uint64_t) (v >> 64);
    } else if (c == 0) g_stop = 1; else g_other = 1;
    if (ch == 2) { it = end; vf_g.n = 1; vf_g.key = 2; } else { vf_g.n = 3; vf_g.key = 1; }
    return c;
}
namespace IPADDRESS_NAMESPACE { namespace internal {
template <> struct char_reader<G> {
    static char next_or_error(const G*& it, const G* end, error_code& error, uint32_t& error_symbol) { error_symbol = 0; return vfghost_char(it, end, error); }
    static char next(const G*& it, const G*, const G* end) { error_code e = error_code::no_error; char c = vfghost_char(it, end, e); vf_require(e == error_code::no_error, "decoding errors are reported"); return c; }
};
} }
#endif
#include "util.hpp"
typedef uint128_t U; typedef uint128_t::format F;
static bool eqU(const U& a, u128 v) { return a.upper() == (uint64_t) (v >> 64) && a.lower() == (uint64_t) v; }
static F fmt_of(uint32_t b) { return b == 8 ? F::octal : b == 16 ? F::hexadecimal : F::decimal; }
static char dig(uint32_t d) { return (char) (d < 10 ? '0' + d : 'a' + (d - 10)); }
// the value of a text by Horner's rule, independent of the code
static bool value_of(const uint32_t* s, size_t n, uint32_t B, u128& v) {
    v = 0;
    for (size_t i = 0; i < n; ++i) { uint32_t c = s[i], d; if (c == 0) return true; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else return false; if (d >= B) return false; v = v * B + d; }
    return true;
}
#ifndef VF_NATIVE
// contract of divide (P17), with the quotient of a prefix of the digits by the base known: P_j / B = P_(j-1)
U divide_vfstub(const U* a, const U* b) {
    if (g_j > 0 && a->upper() == g_hi[g_j] && a->lower() == g_lo[g_j] && b->upper() == 0 && b->lower() == g_B) { --g_j; return U(g_hi[g_j], g_lo[g_j]); }
    u128 y = num(*b); return y == 0 ? U(0, 0) : u128_of(num(*a) / y);
}
// contract of the product (P17): B * P_(j-1) = P_j - d_j
U mul_vfstub(const U* a, const U* b) {
    if (g_j < g_m && a->upper() == g_hi[g_j] && a->lower() == g_lo[g_j] && b->upper() == 0 && b->lower() == g_B) return U(g_mhi[g_j + 1], g_mlo[g_j + 1]);
    return u128_of(num(*a) * num(*b));
}
static bool g_ifs_ok; static U g_ifs_v; static const void* g_ifs_b; static uint64_t g_ifs_n; static uint32_t g_ifs_f;
#define IFS(k, T) optional<U> str_##k##_vfstub(const T* b, const T* e, F f) { vf_require(b == (const T*) g_ifs_b && e == (const T*) g_ifs_b + g_ifs_n, "the whole text is read"); vf_require((uint32_t) f == g_ifs_f, "in the requested base"); if (g_ifs_ok) return optional<U>(g_ifs_v); return optional<U>(); }
IFS(c, char) IFS(w, wchar_t) IFS(8, char8_t) IFS(16, char16_t) IFS(32, char32_t)
static char g_txt[64]; static uint32_t g_tn;
std::string tostr_vfstub(const U*, F f) { vf_require((uint32_t) f == g_ifs_f, "in the requested base"); return std::string(g_txt, g_tn); }
#endif
// to_string of a value of m digits in base B: its digits, most significant first
ROOT(p_to) {
    uint32_t B = (uint32_t) vf_param(0), m = (uint32_t) vf_param(1);
#ifdef VF_NATIVE
    U a = U(nd_u64(), nd_u64()); u128 v = num(a); std::string e; u128 t = v; do { e.insert(e.begin(), dig((uint32_t) (t % B))); t /= B; } while (t);
    std::string s = a.to_string(fmt_of(B)); VF_POST(s == e);
    if (B == 10) { VF_POST(std::to_string(a) == e); }
#else
    g_B = B; g_m = m; g_j = m; g_lo[0] = g_hi[0] = 0;
    for (uint32_t j = 1; j <= m; ++j) {                // P_j = B * P_(j-1) + d_j
        g_d[j] = nd_u8(); vf_assume(g_d[j] < B); if (j == 1) vf_assume(m == 1 || g_d[j] > 0);
        uint64_t lo = j == 1 ? g_d[1] : nd_u64(), hi = j == 1 ? 0 : nd_u64(); if (m > 1) vf_assume((lo | hi) != 0); if (j > 1) vf_assume(hi != 0 || lo >= B);      // P_j >= B * P_1
        u128 x = ((u128) hi << 64 | lo) - g_d[j]; g_mlo[j] = (uint64_t) x; g_mhi[j] = (uint64_t) (x >> 64);      // B * P_(j-1)
        g_lo[j] = lo; g_hi[j] = hi;
    }
    U a(g_hi[m], g_lo[m]); std::string s = a.to_string(fmt_of(B));
    vf_assert(s.size() == m, "as many characters as digits");
    for (uint32_t i = 0; i < m; ++i) vf_assert(s[i] == dig(g_d[i + 1]), "the digits of the value, most significant first");
    vf_assert(eqU(a, (u128) g_hi[m] << 64 | g_lo[m]), "the value is unchanged");
    vf_cover(true, "every digit count occurs");
#endif
}
// from_string of any text
#ifndef VF_NATIVE
ROOT(p_from) {
    uint32_t B = (uint32_t) vf_param(0); g_gb = B; static const G g_text[1] = { { 0 } };
    g_val[0] = g_val[1] = 0; g_stop = g_bad = g_other = g_count = 0; vf_g.choice = 0; vf_g.n = 3; vf_g.key = 0;
    auto r = U::str_to_uint128<G>(g_text, g_text + 1, fmt_of(B));
    vf_assert((bool) r == !(g_bad || g_other), "a value exactly for a text of digits");
    vf_assert(!r || (r.value().lower() == g_val[0] && r.value().upper() == g_val[1]), "the value of the digits");
    vf_assert(g_count == 1, "the text is read"); vf_assert(vf_g.key != 1 || g_stop || g_other, "to its end");
    vf_cover((bool) r && g_val[1] != 0, "a text of many digits");
}
#endif
template <typename T> struct StrOf { typedef std::basic_string<T> S; };
template <typename T> static bool symb(uint32_t& u) { u = sizeof(T) == 1 ? nd_u8() : sizeof(T) == 2 ? nd_u16() : nd_u32(); return true; }
// the public overloads read the whole text in the requested base
template <typename T> static void entry() {
    uint32_t n = (uint32_t) vf_param(0); uint32_t B = nd_u8(); vf_assume(B == 8 || B == 10 || B == 16);
    T buf[24]; for (uint32_t i = 0; i < 24; ++i) { uint32_t u; symb<T>(u); buf[i] = (T) u; }
    std::basic_string<T> s(buf, n);
#ifdef VF_NATIVE
    uint32_t us[24]; for (uint32_t i = 0; i < n; ++i) us[i] = std::is_same<T, char>::value ? (unsigned char) buf[i] : (uint32_t) buf[i];
    u128 v; bool ok = value_of(us, n, B, v); auto r = U::from_string(s, fmt_of(B)); VF_POST((bool) r == ok && (!ok || eqU(r.value(), v)));
#else
    g_ifs_b = s.data(); g_ifs_n = n; g_ifs_f = (uint32_t) fmt_of(B); g_ifs_ok = nd_u8() & 1; g_ifs_v = U(nd_u64(), nd_u64());
    auto r = U::from_string(s, fmt_of(B)); vf_assert((bool) r == g_ifs_ok && (!r || eqU(r.value(), num(g_ifs_v))), "the result is reported");
    g_ifs_f = (uint32_t) F::decimal; auto q = U::from_string(s); vf_assert((bool) q == g_ifs_ok && (!q || eqU(q.value(), num(g_ifs_v))), "decimal by default");
#endif
}
template <typename T, size_t N> static void entry_arr() {
    uint32_t B = nd_u8(); vf_assume(B == 8 || B == 10 || B == 16);
    T buf[N]; for (uint32_t i = 0; i < N; ++i) { uint32_t u; symb<T>(u); buf[i] = (T) u; }
#ifdef VF_NATIVE
    uint32_t us[N]; for (uint32_t i = 0; i < N; ++i) us[i] = std::is_same<T, char>::value ? (unsigned char) buf[i] : (uint32_t) buf[i];
    u128 v; bool ok = value_of(us, N, B, v); auto r = U::from_string(buf, fmt_of(B)); VF_POST((bool) r == ok && (!ok || eqU(r.value(), v)));
#else
    g_ifs_b = buf; g_ifs_n = N; g_ifs_f = (uint32_t) fmt_of(B); g_ifs_ok = nd_u8() & 1; g_ifs_v = U(nd_u64(), nd_u64());
    auto r = U::from_string(buf, fmt_of(B)); vf_assert((bool) r == g_ifs_ok && (!r || eqU(r.value(), num(g_ifs_v))), "the result is reported");
#endif
}
ROOT(p_entry_c) { entry<char>(); entry_arr<char, 7>(); }
ROOT(p_entry_w) { entry<wchar_t>(); entry_arr<wchar_t, 7>(); }
ROOT(p_entry_8) { entry<char8_t>(); entry_arr<char8_t, 7>(); }
ROOT(p_entry_16) { entry<char16_t>(); entry_arr<char16_t, 7>(); }
ROOT(p_entry_32) { entry<char32_t>(); entry_arr<char32_t, 7>(); }
// texts of up to 3 units, through the real readers: no contract in between
template <typename T> static void small() {
    const uint32_t n = (uint32_t) vf_param(1), B = (uint32_t) vf_param(0); T buf[4]; uint32_t us[4];
    for (uint32_t i = 0; i < 4; ++i) { uint32_t u; symb<T>(u); buf[i] = (T) u; us[i] = u; }
    u128 v; bool ok = value_of(us, n, B, v);
#ifndef VF_NATIVE
    auto r = U::str_to_uint128<T>(buf, buf + n, fmt_of(B));
#else
    auto r = U::from_string(std::basic_string<T>(buf, n), fmt_of(B));
#endif
    vf_assert((bool) r == ok, "a value exactly for a text of digits"); vf_assert(!ok || eqU(r.value(), v), "the value of the digits");
}
ROOT(p_small_c) { small<char>(); }
ROOT(p_small_w) { small<wchar_t>(); }
ROOT(p_small_8) { small<char8_t>(); }
ROOT(p_small_16) { small<char16_t>(); }
ROOT(p_small_32) { small<char32_t>(); }
// wide results: the characters of the narrow text
template <typename S> static void same(const S& w, const char* t, uint32_t n) { vf_assert(w.size() == n, "same length"); for (uint32_t i = 0; i < 43; ++i) if (i < n) vf_assert((uint32_t) w[i] == (uint32_t) (unsigned char) t[i], "same characters"); }
ROOT(p_wide) {
    uint32_t k = (uint32_t) vf_param(0), n = (uint32_t) vf_param(1); U a(nd_u64(), nd_u64()); uint32_t B = nd_u8(); vf_assume(B == 8 || B == 10 || B == 16);
    const char* t;
#ifdef VF_NATIVE
    std::string e; u128 x = num(a); uint32_t b = k < 4 ? B : 10; do { e.insert(e.begin(), dig((uint32_t) (x % b))); x /= b; } while (x); t = e.data(); n = (uint32_t) e.size();
#else
    g_tn = n; for (uint32_t i = 0; i < 43; ++i) g_txt[i] = (char) (nd_u8() & 127); t = g_txt; g_ifs_f = (uint32_t) (k < 4 ? fmt_of(B) : F::decimal);
#endif
    switch (k) { case 0: same(a.to_wstring(fmt_of(B)), t, n); break; case 1: same(a.to_u8string(fmt_of(B)), t, n); break; case 2: same(a.to_u16string(fmt_of(B)), t, n); break; case 3: same(a.to_u32string(fmt_of(B)), t, n); break;
        case 4: same(std::to_wstring(a), t, n); break; default: same(std::to_string(a), t, n); break; }
}
// public functions, streams included, on structured random values and texts (bounded)
#ifdef VF_NATIVE
template <typename T> static void anyt(const std::string& s, uint32_t B) {
    std::basic_string<T> t(s.begin(), s.end()); uint32_t us[80]; for (size_t i = 0; i < s.size(); ++i) us[i] = (unsigned char) s[i] < 128 ? (uint32_t) s[i] : '~';
    for (auto& c : t) if ((uint32_t) c > 127) c = (T) '~';
    u128 v; bool ok = value_of(us, s.size(), B, v); auto r = U::from_string(t, fmt_of(B)); VF_POST((bool) r == ok && (!ok || eqU(r.value(), v)));
}
#endif
ROOT(p_text_any) {
#ifdef VF_NATIVE
    static const uint32_t bs[3] = { 8, 10, 16 }; uint32_t B = bs[nd_u8() % 3]; U a(nd_u64(), nd_u64()); if (nd_u8() % 3 == 0) a = U(0, a.lower()); u128 v = num(a); std::string e; u128 t = v;
    if (nd_u8() % 3 == 0) { v = 1; uint32_t k = nd_u8() % 43; while (k--) v *= B; v = v * (nd_u8() % B) - (nd_u8() & 1); a = u128_of(v); t = v; }
    do { e.insert(e.begin(), dig((uint32_t) (t % B))); t /= B; } while (t);
    F f = fmt_of(B); VF_POST(a.to_string(f) == e);
    { std::wstring w = a.to_wstring(f); VF_POST(std::string(w.begin(), w.end()) == e); std::u32string z = a.to_u32string(f); VF_POST(std::string(z.begin(), z.end()) == e); }
    { auto r = U::from_string(e, f); VF_POST((bool) r && eqU(r.value(), v)); }
    std::string up = e; for (auto& c : up) if (c >= 'a') c = (char) (c - 32);
    { auto r = U::from_string(up, f); VF_POST((bool) r && eqU(r.value(), v)); }
    { std::ostringstream o; o << (B == 8 ? std::oct : B == 10 ? std::dec : std::hex) << a; VF_POST(o.str() == e); std::istringstream i(o.str()); U b; i >> (B == 8 ? std::oct : B == 10 ? std::dec : std::hex) >> b; VF_POST(!i.fail() && eqU(b, v)); }
    { std::wostringstream o; o << std::uppercase << (B == 8 ? std::oct : B == 10 ? std::dec : std::hex) << a; std::wstring w = o.str(); VF_POST(std::string(w.begin(), w.end()) == up); }
    std::string s = e; uint32_t muts = nd_u8() % 4; for (uint32_t i = 0; i < muts; ++i) { uint8_t k = nd_u8(); size_t p = nd_u8() % (s.size() + 1); if (k % 3 == 0 && s.size() < 70) s.insert(p, 1, (char) nd_u8()); else if (k % 3 == 1 && p < s.size()) s.erase(p, 1); else if (p < s.size()) s[p] = (char) nd_u8(); }
    for (auto& c : s) if ((unsigned char) c > 127) c = '~';
    if (nd_u8() % 4 == 0) { s.clear(); uint32_t n = nd_u8() % 70; for (uint32_t i = 0; i < n; ++i) s += dig(nd_u8() % B); }
    anyt<char>(s, B); anyt<wchar_t>(s, B); anyt<char8_t>(s, B); anyt<char16_t>(s, B); anyt<char32_t>(s, B);
#endif
}
