// Public text entry points of the address types: they hand exactly the given characters to the parser of the version,
// once, with a cleared error code, and return what it returns.  The parser itself is a contract stub here (P01, P03).
#include "util.hpp"
#include <cstring>
#ifdef VF_NATIVE
#include "spec_v6.hpp"
#include "gentext.hpp"
#endif
#ifdef VF_V4
typedef ipv4_address A; static A mk(u128 v) { return mk4((uint32_t) v); }
#else
typedef ipv6_address A; static A mk(u128 v) { return mk6(v); }
#endif
template <typename T> struct Seen { const T* b; const T* e; uint32_t calls; T txt[80]; };
static uint32_t g_calls, g_code; static uint64_t g_len, g_val[2]; static const void* g_ptr; static uint32_t g_txt[8];
template <typename T> static A seen(const T* b, const T* e, error_code& c) {
    vf_require(c == OK, "the parser starts with a cleared error code");
    ++g_calls; g_ptr = b; g_len = (uint64_t) (e - b);
    if (g_len <= 8) for (size_t i = 0; i < 8; ++i) if (i < g_len) g_txt[i] = (uint32_t) b[i];
    c = (error_code) g_code; return g_code == 0 ? mk((u128) g_val[0] << 64 | g_val[1]) : A();
}
#ifndef VF_NATIVE
A ifs_c_vfstub(const char* b, const char* e, error_code& c, uint32_t&) { return seen(b, e, c); }
A ifs_w_vfstub(const wchar_t* b, const wchar_t* e, error_code& c, uint32_t&) { return seen(b, e, c); }
A ifs_8_vfstub(const char8_t* b, const char8_t* e, error_code& c, uint32_t&) { return seen(b, e, c); }
A ifs_16_vfstub(const char16_t* b, const char16_t* e, error_code& c, uint32_t&) { return seen(b, e, c); }
A ifs_32_vfstub(const char32_t* b, const char32_t* e, error_code& c, uint32_t&) { return seen(b, e, c); }
#endif
static void pick() { g_code = nd_u8(); vf_assume(g_code < 40); g_val[0] = nd_u64(); g_val[1] = nd_u64(); }
static void same(const A& a, error_code c, const void* p, size_t n) {
#ifdef VF_NATIVE
    return;
#endif
    A x = g_code == 0 ? mk((u128) g_val[0] << 64 | g_val[1]) : A();
    vf_assert(g_calls == 1 && (p == nullptr || g_ptr == p) && g_len == n, "exactly the given text is parsed");
    vf_assert(c == (error_code) g_code && a == x, "the parser's result and code are returned");
}
template <typename T> static void view() {
    pick(); T buf[8]; size_t n = nd_u64(); vf_assume(n <= (size_t) 0x7fffffffffffffff / sizeof(T));
#ifdef VF_NATIVE
    for (size_t i = 0; i < 8; ++i) buf[i] = (T) nd_u8(); n %= 9;
#endif
    typedef std::basic_string_view<T> V;
    error_code c = (error_code) (nd_u8() & 63);
    if (nd_u8() & 1) { A a = A::parse(V(buf, n), c); same(a, c, buf, n);
#ifdef VF_NATIVE
        error_code c2 = OK; A b; try { b = A::parse(V(buf, n)); } catch (...) { c2 = (error_code) vf_exc_code(); }
        vf_assert(c == c2 && a == b, "throwing form agrees");
#endif
    }
    else {
        A a; uint32_t t = 0; try { a = A::parse(V(buf, n)); } catch (...) { t = vf_exc_code(); }
        same(a, (error_code) t, buf, n);
    }
}
ROOT(p_view_c) { view<char>(); }
ROOT(p_view_w) { view<wchar_t>(); }
ROOT(p_view_8) { view<char8_t>(); }
ROOT(p_view_16) { view<char16_t>(); }
ROOT(p_view_32) { view<char32_t>(); }
// character arrays: the text ends at the first NUL; a non-ASCII character is an error
template <typename T> static void array(bool thr) {
    pick(); T buf[7]; size_t n = 6; bool bad = false;
    for (size_t i = 0; i < 7; ++i) { buf[i] = (T) (sizeof(T) == 1 ? nd_u8() : sizeof(T) == 2 ? nd_u16() : nd_u32()); }
    for (size_t i = 6; i-- > 0;) if (buf[i] == 0) n = i;
    if (sizeof(T) > 1 || !std::is_same<T, char>::value) for (size_t i = 0; i < 6; ++i) if (i < n && ((uint32_t) buf[i] & (sizeof(T) == 1 ? 0xFF : 0xFFFFFFFF)) > 127) bad = true;
    error_code c = (error_code) (nd_u8() & 63); A a;
    if (!thr) a = A::parse(buf, c);
    else { c = OK; try { a = A::parse(buf); } catch (...) { c = (error_code) vf_exc_code(); } }
#ifdef VF_NATIVE
    std::string s; for (size_t i = 0; i < n; ++i) s += (char) buf[i];
    error_code c2 = OK; A b = A::parse(std::string_view(s), c2);
    vf_assert(bad ? c != OK : (c == c2 && a == b), "array text is the text up to its first NUL");
#else
    if (bad) { vf_assert(c != OK && a == A(), "a non-ASCII character is rejected"); return; }
    same(a, c, nullptr, n);
    bool eq = true; for (size_t i = 0; i < 6; ++i) if (i < n && g_txt[i] != (uint32_t) (unsigned char) buf[i] && g_txt[i] != (uint32_t) (char) buf[i]) eq = false;
    vf_assert(eq, "array text is the text up to its first NUL");
#endif
}
ROOT(p_arr_c) { array<char>(false); }
ROOT(p_arr_w) { array<wchar_t>(false); }
ROOT(p_arr_8) { array<char8_t>(false); }
ROOT(p_arr_16) { array<char16_t>(false); }
ROOT(p_arr_32) { array<char32_t>(false); }
ROOT(p_arr_c_throw) { array<char>(true); }
ROOT(p_arr_w_throw) { array<wchar_t>(true); }
ROOT(p_arr_8_throw) { array<char8_t>(true); }
ROOT(p_arr_16_throw) { array<char16_t>(true); }
ROOT(p_arr_32_throw) { array<char32_t>(true); }
