// P04: IPv6 text.  P24: reverse pointers.
#include "util.hpp"
#include "spec_v6.hpp"
#include <cstring>
typedef ipv6_address::base_type Bytes;
// the canonical text as parts: t.ch[0..nc], lower-case, joined by ':'
static inline V6Text v6_parts(u128 x, format f) {
    V6Text t; memset(&t, 0, sizeof t);
    uint32_t g[8]; for (int i = 0; i < 8; ++i) g[i] = (uint32_t) (x >> (112 - 16 * i)) & 0xffff;
    int bs = -1, bl = 0;
    if (f == format::compressed) {
        for (int s = 0; s < 8; ++s) { int l = 0; bool z = true; for (int i = s; i < 8; ++i) { z = z && g[i] == 0; if (z) ++l; } if (l > bl) { bl = l; bs = s; } }
        if (bl < 2) { bs = -1; bl = 0; }
    }
    uint32_t k = 0;
    if (bs == 0) ++k;                               // an empty first part: the text starts with ':'
    for (int i = 0; i < 8; ++i) {
        if (bl && i >= bs && i < bs + bl) { if (i == bs) ++k; continue; }
        static const char H[] = "0123456789abcdef";
        char h[4]; for (int j = 0; j < 4; ++j) { uint32_t d = g[i] >> (12 - 4 * j) & 15; h[j] = H[d]; }
        uint32_t z = f == format::full || g[i] >> 12 ? 0 : g[i] >> 8 & 15 ? 1 : g[i] >> 4 & 15 ? 2 : 3;
        for (uint32_t j = 0; j < 4; ++j) t.ch[k][j] = h[j];
        if (f != format::full) for (uint32_t j = 0; j < 3; ++j) { if (t.ch[k][0] != '0') break; t.ch[k][0] = t.ch[k][1]; t.ch[k][1] = t.ch[k][2]; t.ch[k][2] = t.ch[k][3]; t.ch[k][3] = 0; }   // drop a leading zero
        t.plen[k] = (uint8_t) (4 - z); ++k;
    }
    if (bs >= 0 && bs + bl == 8) ++k;               // an empty last part
    t.nc = k - 1; t.len = t.plen[k - 1];
    return t;
}
static inline size_t v6_join(const V6Text& t, const Scope& s, char* e) {
    size_t n = 0;
    for (uint32_t i = 0; i < 10; ++i) if (i <= t.nc) { if (i) e[n++] = ':'; for (uint32_t j = 0; t.ch[i][j] != 0; ++j) e[n++] = t.ch[i][j]; }
    if (s.n) { e[n++] = '%'; for (uint32_t j = 0; j < 16; ++j) if (j < s.n) e[n++] = s.s[j]; }
    return n;
}
static u128 in_case() {
    u128 x = nd_u128();
#ifdef VF_NATIVE
    for (int i = 0; i < 8; ++i) { uint32_t z = nd_u8() & 3; if (z == 0) x &= ~((u128) 0xfff0 << 16 * i); if (z == 1) x &= ~((u128) 0xff00 << 16 * i); }
    if (nd_u8() & 1)
        for (int i = 0; i < 8; ++i) { u128 m = (u128) 0xffff << (112 - 16 * i); if (vf_param(0) >> i & 1) x &= ~m; else if (!(x & m)) x |= m & -m; }
#endif
    return x;
}
static void fmt_post(format f, bool pattern) {
    u128 x = in_case(); Scope sc = nd_scope(0);
    if (pattern) for (int i = 0; i < 8; ++i) vf_assume(((x >> (112 - 16 * i) & 0xffff) == 0) == (vf_param(0) >> i & 1));
    ipv6_address a = mk6(x); put_scope(a, sc);
#ifdef VF_NATIVE
    std::string s = a.to_string(f); uint32_t n = (uint32_t) s.size(); char r[64] = {}; memcpy(r, s.data(), n);
#else
    char r[ipv6_address::base_max_string_len + 1] = {}; size_t n = a.ip_to_chars(a.bytes(), f, r);
#endif
    V6Text t = v6_parts(x, f); char e[64] = {}; size_t m = v6_join(t, sc, e);
    vf_assert(n == m, "length of the text"); vf_assert(r[n] == 0, "terminated");
    bool eq = true; for (uint32_t i = 0; i < 62; ++i) if (i < m && r[i] != e[i]) eq = false;
    vf_assert(eq, "canonical text");
}
// the text with a scope id is the text without it, '%' and the scope id
ROOT(p_fmt_scope) {
    u128 x = in_case(); Scope sc = nd_scope(16); format f = (format) vf_param(1); vf_assume(sc.n > 0);
    ipv6_address a = mk6(x), b = a; put_scope(a, sc);
#ifdef VF_NATIVE
    std::string s = a.to_string(f), u = b.to_string(f); uint32_t n = (uint32_t) s.size(), m = (uint32_t) u.size(); char r[64] = {}, e[64] = {}; memcpy(r, s.data(), n); memcpy(e, u.data(), m);
#else
    char r[ipv6_address::base_max_string_len + 1] = {}, e[ipv6_address::base_max_string_len + 1] = {};
    size_t m = b.ip_to_chars(b.bytes(), f, e); 
    if (vf_param(0) == 39) vf_assert(m >= 2 && m <= 39, "length of the address part"); vf_fix64(m, vf_param(0));   // case split on the length: 2..39
    size_t n = a.ip_to_chars(a.bytes(), f, r);
#endif
    vf_assert(n == m + 1 + sc.n, "length"); vf_assert(r[n] == 0 && r[m] == '%', "separator");
    bool eq = true; for (uint32_t i = 0; i < 39; ++i) if (i < m && r[i] != e[i]) eq = false; vf_assert(eq, "the same address part");
    eq = true; for (uint32_t i = 0; i < 16; ++i) if (i < sc.n && r[m + 1 + i] != sc.s[i]) eq = false; vf_assert(eq, "the scope id");
    vf_cover(sc.n == 16, "longest");
}
ROOT(p_fmt_full) { fmt_post(format::full, false); }
ROOT(p_fmt_compact) { fmt_post(format::compact, false); }
ROOT(p_fmt_compressed) { fmt_post(format::compressed, true); }
// lemma: the canonical text denotes the address (the parser accepts exactly the denoted texts: P03)
static void denotes(format f, bool pattern) {
    u128 x = in_case(), v = 0; if (pattern) for (int i = 0; i < 8; ++i) vf_assume(((x >> (112 - 16 * i) & 0xffff) == 0) == (vf_param(0) >> i & 1));
    V6Text t = v6_parts(x, f); bool ok = v6_value(t, v);
    vf_assert(ok, "the canonical text is a valid text"); vf_assert(v == x, "and denotes the address");
    for (int i = 0; i < 10; ++i) for (int j = 0; j < 4; ++j) if (i <= (int) t.nc) vf_assert(j < t.plen[i] ? t.ch[i][j] != 0 : t.ch[i][j] == 0, "parts end at their length");
    for (int i = 0; i < 10; ++i) for (int j = 0; j < 4; ++j) if (i <= (int) t.nc && j < t.plen[i]) vf_assert(t.ch[i][j] != '.' && t.ch[i][j] != '%' && t.ch[i][j] != ':', "parts hold no separators");
}
ROOT(p_den_full) { denotes(format::full, false); }
ROOT(p_den_compact) { denotes(format::compact, false); }
ROOT(p_den_compressed) { denotes(format::compressed, true); }
// to_string of the public types hands bytes, scope id and format to ip_to_chars and returns its text
#ifndef VF_NATIVE
static char g_txt[64]; static uint32_t g_n, g_calls; static format g_f; static unsigned char g_b[16]; static Scope g_s;
size_t chars6_vfstub(const Bytes& b, const fixed_string<16>& s, format f, char (&r)[63]) {
    for (int i = 0; i < 16; ++i) g_b[i] = b[i];
    g_s.n = s.size(); for (int i = 0; i < 16; ++i) g_s.s[i] = i < s.size() ? s._data[i] : 0;
    g_f = f; ++g_calls;
    for (size_t i = 0; i < 62; ++i) if (i < g_n) r[i] = g_txt[i]; return g_n;
}
static void handed(const std::string& s, u128 x, const Scope& sc, format f, uint32_t calls) {
    bool b = true; for (int i = 0; i < 16; ++i) if (g_b[i] != (unsigned char) (x >> (120 - 8 * i))) b = false;
    vf_assert(g_calls == calls && b && same_scope(g_s, sc) && g_f == f, "arguments of ip_to_chars");
    bool eq = s.size() == g_n; for (size_t i = 0; i < 62; ++i) if (i < g_n && i < s.size() && s[i] != g_txt[i]) eq = false;
    vf_assert(eq, "its text");
}
#endif
ROOT(p_tostring) {
#ifndef VF_NATIVE
    g_n = nd_u8(); vf_assume(g_n <= 62); for (int i = 0; i < 62; ++i) g_txt[i] = (char) nd_u8();
    u128 x = nd_u128(); Scope sc = nd_scope(16); ipv6_address a = mk6(x); put_scope(a, sc); uint8_t fi = nd_u8(); vf_assume(fi < 3); format f = (format) fi; ip_address y(a);
    switch (vf_param(0)) {
    case 0: handed(a.to_string(f), x, sc, f, 1); break;
    case 1: handed(a.to_string(), x, sc, format::compressed, 1); break;
    case 2: handed(y.to_string(f), x, sc, f, 1); break;
    case 3: handed(y.to_string(), x, sc, format::compressed, 1); break;
    case 4: handed(std::to_string(a), x, sc, format::compressed, 1); break;
    case 5: handed(std::to_string(y), x, sc, format::compressed, 1); break;
    case 6: handed((std::string) a, x, sc, format::compressed, 1); break;
    case 7: handed((std::string) y, x, sc, format::compressed, 1); break;
    }
#endif
}
// native round trip on the public interface
ROOT(p_fmt_round) {
    u128 x = in_case(); Scope sc = nd_scope(16); ipv6_address a = mk6(x); put_scope(a, sc); format f = (format) (nd_u8() % 3);
    std::string s = a.to_string(f); error_code c = OK; auto b = ipv6_address::parse(s, c); vf_assert(c == OK && b == a, "round trip");
    char e[64]; V6Text t = v6_parts(x, f); uint32_t m = v6_join(t, sc, e); vf_assert(s == std::string(e, m), "canonical text");
    std::wstring w = a.to_wstring(f); vf_assert(std::string(w.begin(), w.end()) == s, "wide");
    std::ostringstream o; if (f == format::compressed) o << compressed << a; else if (f == format::full) o << full << a; else o << compact << a; vf_assert(o.str() == s, "stream");
}
// P24
ROOT(p_rev4) {
    uint32_t u = nd_u32(); auto a = ipv4_address::from_uint(u); std::string s = a.reverse_pointer(), q = ip_address(a).reverse_pointer();
    char e[32]; size_t n = spec_v4_text(u << 24 | (u >> 8 & 0xff) << 16 | (u >> 16 & 0xff) << 8 | u >> 24, e);
    static const char T[] = ".in-addr.arpa"; for (int i = 0; i < 13; ++i) e[n + i] = T[i]; n += 13;
    bool eq = s.size() == n && q.size() == n; for (size_t i = 0; i < 28; ++i) if (i < n && (s[i] != e[i] || q[i] != e[i])) eq = false;
    vf_assert(eq, "octets in reverse order and .in-addr.arpa"); vf_cover(n == 28, "longest");
}
ROOT(p_rev6) {
    u128 x = nd_u128(); Scope sc = nd_scope(16); ipv6_address a = mk6(x); put_scope(a, sc);
    std::string s = vf_param(0) ? ip_address(a).reverse_pointer() : a.reverse_pointer();
    char e[72]; for (int i = 0; i < 32; ++i) { uint32_t d = (uint32_t) (x >> 4 * i) & 15; e[2 * i] = (char) (d < 10 ? '0' + d : 'a' + d - 10); e[2 * i + 1] = '.'; }
    static const char T[] = "ip6.arpa"; for (int i = 0; i < 8; ++i) e[64 + i] = T[i];
    bool eq = s.size() == 72; for (size_t i = 0; i < 72; ++i) if (i < s.size() && s[i] != e[i]) eq = false;
    vf_assert(eq, "nibbles in reverse order and .ip6.arpa");
}
