// P03: IPv6 text.  Any length: ghost text (the parser template instantiated with a ghost iterator).
#ifndef VF_NATIVE
#include "ghost6.hpp"
#endif
#include "util.hpp"
#include "spec_v6.hpp"
// split a real text into the specification record; false: some part or the scope is longer than any valid one
static bool v6_split(const char* s, size_t n, V6Text& t) {
    memset(&t, 0, sizeof t); size_t i = 0;
    for (; i < n && s[i] != '%'; ++i) {
        if (s[i] == ':') { if (t.nc > 8) return false; t.plen[t.nc++] = (uint8_t) t.len; t.len = 0; }
        else { if (t.len > 15) return false; t.ch[t.nc][t.len++] = s[i]; }
    }
    if (i < n) { t.pct = true; for (++i; i < n; ++i) { if (t.ns > 16) return false; t.sc[t.ns++] = s[i]; } }
    return true;
}
static bool v6_text(const char* s, size_t n, V6Text& t, u128& v) { return v6_split(s, n, t) && v6_scope_ok(t) && v6_value(t, v); }
static bool is_scope(const ipv6_address& a, const char* sc, size_t ns) {
    const auto& f = a._data.scope_id; bool eq = f.size() == ns;
    for (size_t i = 0; i < 16; ++i) if (i < ns && f[i] != sc[i]) eq = false;
    return eq && a.get_scope_id().has_string() == (ns > 0);
}
static void v6_result(const ipv6_address& a, error_code c, bool ok, const V6Text& t, u128 v) {
    vf_assert(ok == (c == OK), "a text is accepted iff it is a valid IPv6 text");
    vf_assert(!ok || num(a) == v, "value of an accepted text");
    size_t ns = ok && t.pct ? t.ns : 0;
    vf_assert(is_scope(a, t.sc, ns), "scope id of an accepted text");
    vf_assert(ok || num(a) == 0, "default address on error");
}
#ifdef VF_NATIVE
#include "gentext.hpp"
static void any_text() {
    char buf[400]; size_t n = gen_v6(buf, 0);
    V6Text t; u128 v = 0; bool ok = v6_text(buf, n, t, v);
    char* h = (char*) malloc(n ? n : 1); memcpy(h, buf, n);      // exact size: the sanitizer sees any read past the end
    error_code c = (error_code) (nd_u8() & 31); auto a = ipv6_address::parse(std::string_view(h, n), c);
    v6_result(a, c, ok, t, v);
    error_code c2 = OK; uint32_t exc = 0; ipv6_address b; try { b = ipv6_address::parse(std::string_view(h, n)); } catch (...) { exc = vf_exc_code(); c2 = (error_code) exc; }
    vf_assert(c2 == c, "throwing form reports the same code"); v6_result(b, c2, ok, t, v);
    free(h);
}
ROOT(p_v6_ghost) { any_text(); }
ROOT(p_v6_early) { any_text(); }
ROOT(p_v6_any) { any_text(); }
// wide text: same result as the narrow text, non-ASCII rejected
template <typename T> static void any_wide(const char* buf, size_t n, size_t at, uint32_t u) {
    std::basic_string<T> w; for (size_t i = 0; i < n; ++i) w += (T) (unsigned char) buf[i];
    bool bad = false; if (n && u) w[at % n] = (T) u; 
    std::string s; for (size_t i = 0; i < n; ++i) { uint32_t x = (uint32_t) w[i]; if (sizeof(T) == 1) x &= 255; if (x > 127) bad = true; s += (char) x; }
    error_code c = OK, d = OK; auto a = ipv6_address::parse(std::basic_string_view<T>(w.data(), n), c), b = ipv6_address::parse(std::string_view(s), d);
    vf_assert(bad ? c != OK && a == ipv6_address() : c == d && a == b, "same result as the narrow text; non-ASCII rejected");
    auto x = ip_address::parse(std::basic_string_view<T>(w.data(), n), c), y = ip_address::parse(std::string_view(s), d);
    vf_assert(bad ? c != OK : c == d && x == y, "same result as the narrow text; non-ASCII rejected (any version)");
    if (n < 60) { s += "/64"; for (int i = 0; i < 3; ++i) w += (T) "/64"[i]; auto p = ipv6_network::parse(std::basic_string_view<T>(w.data(), n + 3), c, false), q = ipv6_network::parse(std::string_view(s), d, false);
        vf_assert(bad ? c != OK : c == d && p == q, "same network as the narrow text; non-ASCII rejected"); }
}
ROOT(p_v6_wide) {
    char buf[400]; size_t n = gen_v6(buf, 0), at = nd_u16(); uint32_t u = nd_u8() % 3 ? 0 : nd_u8() & 1 ? nd_u32() : 0x30 | 1u << (7 + nd_u8() % 25);
    switch (nd_u8() & 3) { case 0: any_wide<wchar_t>(buf, n, at, u); break; case 1: any_wide<char8_t>(buf, n, at, u); break; case 2: any_wide<char16_t>(buf, n, at, u); break; default: any_wide<char32_t>(buf, n, at, u); }
}
#else
// contract of IPv4 parsing of the dotted tail (discharged by P01)
ipv4_address parse4_vfstub(const char (*s)[17], error_code* c) {
    size_t n = 0; while (n < 16 && (*s)[n] != 0) ++n;
    uint32_t v = 0; bool ok = spec_v4(*s, n, v); *c = ok ? OK : (error_code) (hv_u8() | 1);
    return mk4(ok ? v : 0);
}
struct P6 : ipv6_address { static ipv6_address run(error_code& c, uint32_t& v) { return ipv6_address::ip_from_string(GI(R_BEGIN), GI(R_END), c, v); } };
static ipv6_address g_run(error_code& c) { g_reset(); uint32_t v = 0; c = OK; return P6::run(c, v); }
// texts read to the end, with a given number of colons
ROOT(p_v6_ghost) {
    g_full = true; g_wnc = vf_param(0);
    error_code c; ipv6_address a = g_run(c);
    vf_assume(g_done1 && (g_done2 || g_empty_ip));
    vf_assume(g_t.nc == vf_param(0));
    u128 v = 0; bool ok = v6_scope_ok(g_t) && !g_empty_ip && v6_value(g_t, v);
    if (g_wnc >= 2 && g_wnc <= 8) vf_cover(c == OK, "accepted");
    v6_result(a, c, ok, g_t, v);
}
// texts rejected before their end: nothing valid starts like this
ROOT(p_v6_early) {
    g_early = true;
    error_code c; ipv6_address a = g_run(c);
    vf_assume(!(g_done1 && (g_done2 || g_empty_ip)));
    vf_assert(c != OK, "success only after reading the whole text");
    vf_assert(v6_dead(g_t) || (g_done1 && !v6_scope_ok(g_t)), "a text rejected before its end has no valid continuation");
    vf_assert(num(a) == 0 && !a.get_scope_id().has_string(), "default address on error");
}
// P19: a text in another encoding that contains a character the reader rejects
ROOT(p_v6_bad) {
    g_badcode = nd_u8(); vf_assume(g_badcode == (uint32_t) error_code::unexpected_symbol || g_badcode == (uint32_t) error_code::wrong_encoding_sequence);
    error_code c; ipv6_address a = g_run(c);
    vf_assert(c != OK && (!g_bad || c == (error_code) g_badcode), "a text with a non-ASCII or malformed character is rejected");
    vf_assert(a == ipv6_address(), "default address on error");
    vf_cover(g_bad, "bad character read");
}
#endif
// the empty text, and the narrow character reader (the ghost text stands for it)
ROOT(p_v6_empty) {
    char buf[2] = {(char) nd_u8(), (char) nd_u8()}; error_code c = (error_code) (nd_u8() & 63);
    auto a = ipv6_address::parse(std::string_view(buf, 0), c);
    vf_assert(c != OK && a == ipv6_address(), "the empty text is rejected");
    const char* it = buf; c = (error_code) (nd_u8() & 63); uint32_t sym = nd_u32();
    char ch = internal::next_char_or_error(it, (const char*) buf + 2, c, sym);
    vf_assert(ch == buf[0] && it == buf + 1 && c == OK, "narrow characters are read as they are");
}
