// P20: scope ids are validated, stored and reported exactly
#include "util.hpp"
#include <cstring>
template <typename T> static T nd_unit() { return (T) (sizeof(T) == 1 ? nd_u8() : sizeof(T) == 2 ? nd_u16() : nd_u32()); }
template <typename T> static uint32_t unit(T c) { return (uint32_t) (typename std::make_unsigned<typename std::conditional<std::is_same<T, char>::value, char, uint32_t>::type>::type) c; }
// outcome of storing the first n units of t: 0 stored, 1 invalid_scope_id, 2 encoding error, 3 too long
template <typename T> static int spec_scope(const T* t, size_t n, Scope& out) {
    out.n = 0; for (int i = 0; i < 16; ++i) out.s[i] = 0;
    if (n > 16) return 3;
    int r = 0;
    for (size_t i = 0; i < 16; ++i) if (i < n && r == 0) {
        uint32_t u = unit(t[i]);
        if (!std::is_same<T, char>::value && u > 127) r = 2;
        else if (!scope_char((char) u)) r = 1;
        else { out.s[i] = (char) u; out.n = i + 1; }
    }
    return r;
}
static bool code_is(int r, error_code c) {
    return r == 0 ? c == OK : r == 1 ? c == error_code::invalid_scope_id : r == 3 ? c == error_code::scope_id_is_too_long : c == error_code::unexpected_symbol || c == error_code::wrong_encoding_sequence;
}
// the stored text, read back through the public interface
static bool holds(const ipv6_address& a, const Scope& s) {
    auto g = a.get_scope_id(); std::string t = g.get_string(); bool r = t.size() == s.n;
    for (size_t i = 0; i < 16; ++i) if (i < s.n && t[i] != s.s[i]) r = false;
    return r && g.has_string() == (s.n > 0) && (bool) g == (s.n > 0);
}
#if __cplusplus >= 201703L
#define TEXT std::basic_string_view<T>(buf, n)
#else
#define TEXT std::basic_string<T>(buf, buf + n)
#endif
template <typename T> static void view_post(bool wide) {
    const size_t CAP = 18; T buf[CAP]; for (size_t i = 0; i < CAP; ++i) buf[i] = nd_unit<T>();
    size_t n = (size_t) nd_u64();                                   // any length
#if __cplusplus < 201703L
    n &= 31; vf_assume(n <= 18);
#endif
#ifdef VF_NATIVE
    n %= 19; if (n > 18) n = 18; for (size_t i = 0; i < CAP; ++i) if (nd_u8() & 7) buf[i] = (T) ('0' + (unsigned) buf[i] % 10);
#endif
    u128 x = nd_u128(); ipv6_address a = mk6(x), b; Scope old = nd_scope(16); put_scope(a, old); b = a;
    Scope want; int r = spec_scope(buf, n, want); if (r != 0) want = old;
    error_code c = (error_code) (nd_u8() & 63);
    a.set_scope_id(TEXT, c);
    vf_assert(code_is(r, c), "error code"); vf_assert(holds(a, want), "the text, or the old text on error"); vf_assert(num(a) == x, "the address itself is unchanged");
    uint32_t e = 0; try { b.set_scope_id(TEXT); } catch (...) { e = vf_exc_code(); }
    vf_assert(e == (uint32_t) c && holds(b, want) && num(b) == x, "throwing overload");
    vf_cover(r == 0 && n == 16, "longest"); vf_cover(r == 1, "invalid"); vf_cover(r == 3, "too long"); if (wide) vf_cover(r == 2, "encoding");
    ip_address y(mk6(x)), z(mk6(x)); error_code cy = (error_code) (nd_u8() & 63); Scope none; none.n = 0; if (r != 0) want = none;
    y.set_scope_id(TEXT, cy); vf_assert(cy == c && y.is_v6() && holds((*y.v6()), want) && num((*y.v6())) == x, "any version");
    e = 0; try { z.set_scope_id(TEXT); } catch (...) { e = vf_exc_code(); }
    vf_assert(e == (uint32_t) c && holds((*z.v6()), want), "any version, throwing");
    ip_address v4(mk4((uint32_t) x)); cy = (error_code) (nd_u8() & 63); v4.set_scope_id(TEXT, cy);
    vf_assert(cy == OK && v4.is_v4() && num((*v4.v4())) == (uint32_t) x, "no effect on a version 4 address");
}
ROOT(p_view_c) { view_post<char>(false); }
ROOT(p_view_w) { view_post<wchar_t>(true); }
#if __cplusplus >= 202002L
ROOT(p_view_8) { view_post<char8_t>(true); }
#endif
ROOT(p_view_16) { view_post<char16_t>(true); }
ROOT(p_view_32) { view_post<char32_t>(true); }
// character arrays: the text up to the first NUL
template <typename T, size_t N> static void arr_post() {
    T buf[N]; for (size_t i = 0; i + 1 < N; ++i) buf[i] = nd_unit<T>(); buf[N - 1] = 0;
    T t[16]; size_t n = 0; bool end = false; for (size_t i = 0; i < 16; ++i) { t[i] = i < N ? buf[i] : 0; if (t[i] == 0) end = true; if (!end) n = i + 1; }
    u128 x = nd_u128(); ipv6_address a = mk6(x), b; Scope old = nd_scope(16); put_scope(a, old); b = a;
    Scope want; int r = spec_scope(t, n, want); int r2 = 0;
    if (r != 0) { want = old; for (size_t i = 0; i < 16; ++i) if (i < n && !std::is_same<T, char>::value && unit(t[i]) > 127) r2 = 2; if (r2) r = 2; }     // encoding is checked first
    error_code c = (error_code) (nd_u8() & 63);
    a.set_scope_id(buf, c);
    vf_assert(code_is(r, c), "error code"); vf_assert(holds(a, want), "the text, or the old text on error"); vf_assert(num(a) == x, "the address itself is unchanged");
    uint32_t e = 0; try { b.set_scope_id(buf); } catch (...) { e = vf_exc_code(); }
    vf_assert(e == (uint32_t) c && holds(b, want) && num(b) == x, "throwing overload");
}
ROOT(p_arr_c) {
    switch (vf_param(0)) {
#define A(n) case n: arr_post<char, n>(); break;
        A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9) A(10) A(11) A(12) A(13) A(14) A(15) A(16) A(17)
    }
}
ROOT(p_arr_wide) { switch (vf_param(0)) { case 0: arr_post<wchar_t, 17>(); break; case 1: arr_post<char16_t, 17>(); break; case 2: arr_post<char32_t, 17>(); break; case 4: arr_post<char16_t, 3>(); break; } }
// reading a scope id: text, number
#if __cplusplus >= 202002L
ROOT(p_arr_8) { arr_post<char8_t, 17>(); }
#endif
ROOT(p_get) {
    ipv6_address a = mk6(nd_u128()); Scope s = nd_scope(16); put_scope(a, s);
#ifdef VF_NATIVE
    if (nd_u8() & 3) { s.n = 1 + nd_u8() % 16; for (size_t i = 0; i < 16; ++i) s.s[i] = i < s.n ? (char) ('0' + nd_u8() % 10) : 0; put_scope(a, s); }
#endif
    uint64_t v = 0; bool num_ok = s.n > 0; for (size_t i = 0; i < 16; ++i) if (i < s.n) { if (s.s[i] < '0' || s.s[i] > '9') num_ok = false; else v = v * 10 + (uint64_t) (s.s[i] - '0'); }
    bool ok = num_ok && v <= 0xFFFFFFFFu;
    auto g = a.get_scope_id();
    vf_assert(holds(a, s), "stored text"); std::string cs = g; bool same = cs.size() == s.n; for (size_t i = 0; i < 16; ++i) if (i < s.n && cs[i] != s.s[i]) same = false; vf_assert(same, "conversion to string");
    vf_assert(g.has_uint32() == ok, "numeric exactly when a 32-bit decimal"); vf_assert(g.get_uint32() == (ok ? (uint32_t) v : 0), "its value");
    vf_assert((uint32_t) g == g.get_uint32(), "conversion to number");
    vf_cover(ok && s.n == 10, "large"); vf_cover(num_ok && !ok, "beyond 32 bits");
}
// a scope id changes nothing else
ROOT(p_inert) {
    u128 x = nd_u128(); const ipv6_address p = mk6(x); ipv6_address a = p; Scope s = nd_scope(16); put_scope(a, s);
    vf_assert(num(a) == x && num(a.to_uint()) == x && a.bytes() == p.bytes(), "bytes and number");
#define SAME(f) vf_assert(a.f() == p.f(), #f)
    SAME(is_multicast); SAME(is_private); SAME(is_global); SAME(is_reserved); SAME(is_loopback); SAME(is_link_local); SAME(is_unspecified); SAME(is_site_local);
    vf_assert(a.ipv4_mapped().has_value() == p.ipv4_mapped().has_value() && (!p.ipv4_mapped() || *a.ipv4_mapped() == *p.ipv4_mapped()), "ipv4_mapped");
    vf_assert(a.sixtofour().has_value() == p.sixtofour().has_value() && (!p.sixtofour() || *a.sixtofour() == *p.sixtofour()), "sixtofour");
    vf_assert(a.teredo().has_value() == p.teredo().has_value() && (!p.teredo() || *a.teredo() == *p.teredo()), "teredo");
    vf_assert(a.version() == p.version() && a.size() == p.size(), "constants");
}
