// P10: network texts.
#ifndef VF_NATIVE
#include "ghostnet.hpp"
#endif
#include "net.hpp"
#include "spec_v4.hpp"
#include <cstring>
#ifdef VF_V4
typedef ipv4_network Net; typedef ipv4_address A; static const size_t W = 32;
#else
typedef ipv6_network Net; typedef ipv6_address A; static const size_t W = 128;
#endif
typedef Tr<Net> T; typedef T::N N;
// dotted mask: ones then zeros, or zeros then ones
static bool mask_len(uint32_t m, size_t& p) { for (size_t k = 0; k <= 32; ++k) { uint32_t o = maskof<uint32_t, 32>(k); if (m == o) { p = k; return true; } } for (size_t k = 0; k <= 32; ++k) if (m == (uint32_t) ~maskof<uint32_t, 32>(k)) { p = k; return true; } return false; }
static bool is_default(const Net& n) { return n == Net() && num(n.netmask()) == num(Net().netmask()) && n.prefixlen() == Net().prefixlen(); }
#ifdef VF_NATIVE
#include "spec_v6.hpp"
#include "gentext.hpp"
static bool v6_split(const char* s, size_t n, V6Text& t) {
    memset(&t, 0, sizeof t); size_t i = 0;
    for (; i < n && s[i] != '%'; ++i) {
        if (s[i] == ':') { if (t.nc > 8) return false; t.plen[t.nc++] = (uint8_t) t.len; t.len = 0; }
        else { if (t.len > 15) return false; t.ch[t.nc][t.len++] = s[i]; }
    }
    if (i < n) { t.pct = true; for (++i; i < n; ++i) { if (t.ns > 16) return false; t.sc[t.ns++] = s[i]; } }
    return true;
}
static bool addr_of(const char* s, size_t n, A& a) {
#ifdef VF_V4
    uint32_t v = 0; if (!spec_v4(s, n, v)) return false; a = mk4(v); return true;
#else
    V6Text t; u128 v = 0; if (!(v6_split(s, n, t) && v6_scope_ok(t) && v6_value(t, v))) return false;
    a = mk6(v); Scope sc; memset(&sc, 0, sizeof sc); sc.n = t.pct ? t.ns : 0; for (size_t i = 0; i < sc.n; ++i) sc.s[i] = t.sc[i]; put_scope(a, sc); return true;
#endif
}
static bool mask_of(const char* s, size_t n, size_t& p) {
    if (n == 0) return false; bool dig = true; uint32_t v = 0;
    for (size_t i = 0; i < n; ++i) { if (s[i] < '0' || s[i] > '9') dig = false; else if (v < 1000) v = v * 10 + (s[i] - '0'); }
    if (dig) { p = v; return v <= W; }
#ifdef VF_V4
    uint32_t m = 0; return spec_v4(s, n, m) && mask_len(m, p);
#else
    return false;
#endif
}
static void any_net() {
    char buf[500]; size_t n;
    unsigned k = nd_u8(), pl = nd_u8();
#ifdef VF_V4
    n = gen_v4(buf); 
    if (nd_u8() % 3 == 0) { uint32_t v = nd_u32() & maskof<uint32_t, 32>(pl % 33); n = spec_v4_text(v, buf); }
#else
    n = gen_v6(buf, 1); { unsigned q = nd_u8(); if (q % 4 == 0) n += gen_scope(buf + n); else if (q % 4 == 1) { u128 v = nd_u128() & maskof<u128, 128>(pl % 129); std::string s = mk6(v).to_string(); n = s.size(); memcpy(buf, s.data(), n); } }
#endif
    size_t p0 = n;
    if (k % 8) {
        buf[n++] = '/';
        switch (nd_u8() % 6) {
        case 0: { uint32_t m = maskof<uint32_t, 32>(pl % 33); if (nd_u8() & 1) m = ~m; if (nd_u8() % 8 == 0) m ^= 1u << pl % 32; n += spec_v4_text(m, buf + n); break; }
        case 1: n += sprintf(buf + n, "%0*u", (int) (nd_u8() % 40), pl % 130); break;
        case 2: { int d = nd_u8() % 12; for (int i = 0; i < d; ++i) buf[n++] = '0' + nd_u8() % 10; break; }
        default: n += sprintf(buf + n, "%u", pl % (W + 1)); }
    }
    if (nd_u8() % 3 == 0) n = gen_mutate(buf, n);
    (void) p0;
    size_t sl = n; for (size_t i = n; i-- > 0;) if (buf[i] == '/') sl = i;
    A a; size_t p = W; bool strict = nd_u8() & 1;
    bool ok = addr_of(buf, sl, a) && (sl == n || mask_of(buf + sl + 1, n - sl - 1, p));
    Net want; if (ok) { error_code d = OK; want = Net::from_address(a, d, p, strict); ok = d == OK; }
    char* h = (char*) malloc(n ? n : 1); memcpy(h, buf, n);
    error_code c = (error_code) (nd_u8() & 31); Net r = Net::parse(std::string_view(h, n), c, strict);
    vf_assert(ok == (c == OK), "a text is accepted iff it is ADDRESS[/MASK]"); vf_assert(ok ? r == want && num(r.netmask()) == maskof<N, W>(p) : is_default(r), "the network of the address and prefix");
    error_code c2 = OK; Net q; try { q = Net::parse(std::string_view(h, n), strict); } catch (...) { c2 = (error_code) vf_exc_code(); }
    vf_assert(c == c2 && q == r, "throwing form agrees"); free(h);
    if (ok) { std::string s = r.to_string(); error_code d = OK; Net b = Net::parse(s, d); vf_assert(d == OK && b == r, "round trip"); }
}
ROOT(p_net_text) { any_net(); }
ROOT(p_mask) { any_net(); }
ROOT(p_net_any) { any_net(); }
#else
static uint32_t g_mask_calls, g_addr_calls, g_mask_fail, g_addr_fail, g_mb, g_me, g_ab, g_ae; static uint64_t g_p; static N g_a;
typedef std::tuple<A, size_t> MR;
static MR mask_stub(uint32_t b, uint32_t e, error_code& c) {
    vf_require(c == OK, "the mask parser starts with a cleared error code");
    ++g_mask_calls; g_mb = b; g_me = e;
    g_p = W; if (b != e) { g_p = hv_u8(); vf_assume(g_p <= W); uint8_t f = hv_u8() & 63; g_mask_fail = f != 0; }
    c = (error_code) (g_mask_fail ? 3 : 0);
    return g_mask_fail ? MR(A(), 0) : MR(T::mk(maskof<N, W>(g_p)), g_p);
}
static A addr_stub(uint32_t b, uint32_t e, error_code& c) {
    vf_require(c == OK, "the address parser starts with a cleared error code");
    ++g_addr_calls; g_ab = b; g_ae = e; g_addr_fail = hv_u8() & 1; if (b == e) g_addr_fail = 1;
    g_a = (N) ((u128) hv_u64() << 64 | hv_u64()); c = (error_code) (g_addr_fail ? 4 : 0);
    return g_addr_fail ? A() : T::mk(g_a);
}
MR nm_vfstub(GN b, GN e, error_code& c, uint32_t&) { return mask_stub(b.r, e.r, c); }
A ifs_vfstub(GN b, GN e, error_code& c, uint32_t&) { return addr_stub(b.r, e.r, c); }
static bool is_slash(uint32_t r) { return r == (K_BEGIN | N_SLASH) || r == (K_BEFORE | N_SLASH); }
// parse_address_with_prefix on a text of any length
ROOT(p_net_text) {
    GStr s = g_text(); bool strict = nd_u8() & 1; error_code c = (error_code) (nd_u8() & 63); uint32_t v = 0;
    Net r = Net::parse_address_with_prefix(s, strict, c, v);
    // the parts handed on are the text before the first '/' and the text after it
    if (g_addr_calls) vf_assert(g_addr_calls == 1 && g_ab == g_first && (g_ae == P_END ? g_slashes == 0 && g_atend : is_slash(g_ae)), "the address is the text before the slash");
    if (g_mask_calls) vf_assert(g_mask_calls == 1 && g_me == P_END && (g_mb == P_END ? g_slashes == 0 && g_atend : (g_mb & 24) == K_MASK && g_mb < P_END), "the mask is the text after the slash");
    bool host = g_addr_calls && (g_a & (N) ~maskof<N, W>(g_p)) != 0;
    if (c == OK) {
        vf_assert(!g_bad && !g_empty_mask && g_slashes <= 1, "an accepted text has no bad character, one slash at most and no empty mask");
        vf_assert(g_addr_calls && !g_addr_fail && (g_slashes ? g_mask_calls && g_mb != P_END && is_slash(g_ae) && !g_mask_fail : g_atend), "an accepted text has a valid address and a valid mask");
        vf_assert(!(strict && host), "strict mode rejects host bits");
        size_t p = g_slashes ? g_p : W; vf_assert(is_net(r, (N) (g_a & maskof<N, W>(p)), p), "the network of the address and prefix");
        if (vf_param(0) == N_OTHER) vf_cover(g_slashes == 1 && host, "normalised");
    } else {
        vf_assert(g_bad || g_slashes > 1 || g_empty_mask || (g_mask_calls && g_mask_fail) || (g_addr_calls && g_addr_fail) || (strict && host && g_addr_calls), "only invalid texts are rejected");
        vf_assert(!g_bad || c == (error_code) g_badcode, "a bad character gives its code");
        vf_assert(is_default(r), "default network on error");
    }
}
// --- masks
static uint32_t g_m, g_mok, g_ifs;
A ifsm_vfstub(GM b, GM e, error_code& c, uint32_t&) {
    vf_require(b.r == 0 && e.r == 9, "the whole mask is the dotted text"); ++g_ifs; g_mok = hv_u8() & 1; if (!g_other) g_mok = 0;
    c = (error_code) (g_mok ? 0 : 4); g_m = hv_u32();
    return g_mok ? T::mk((N) g_m) : A();
}
ROOT(p_mask) {
    vf_g.choice = 0; vf_g.key = 0; vf_g.n = 13; g_W = W;
    g_badcode = nd_u8(); vf_assume(g_badcode == (uint32_t) error_code::unexpected_symbol || g_badcode == (uint32_t) error_code::wrong_encoding_sequence);
    error_code c = OK; uint32_t v = 0; auto r = A::parse_netmask(GM(0), GM(9), c, v); size_t p = std::get<1>(r);
    bool digits = g_digits && !g_other && !g_bad;
    if (c == OK) {
        vf_assert(p <= W && num(std::get<0>(r)) == maskof<N, W>(p), "mask and prefix length agree");
        vf_assert(!g_bad && (g_other ? W == 32 && g_ifs && g_mok : g_atend), "a valid mask");
        if (digits) vf_assert(g_val == p, "decimal prefix length");
        else if (!g_other) vf_assert(p == W, "no mask");
        else { size_t q = 99; vf_assert(mask_len(g_m, q) && q == p, "dotted netmask or hostmask"); }
        vf_cover(digits && p == 0, "zero"); vf_cover(digits && p == W, "longest");
#ifdef VF_V4
        vf_cover(g_other && p == 12, "dotted");
#endif
    } else {
        size_t q;
        vf_assert(g_bad || (g_other ? W == 128 || (g_ifs && (!g_mok || !mask_len(g_m, q))) : g_digits && g_val > W), "only invalid masks are rejected");
    }
}
#endif
// text of a network: the text of its address, '/', the prefix length in decimal
#ifndef VF_NATIVE
static char g_txt[64]; static uint32_t g_n, g_tcalls; static format g_f; static u128 g_tb;
size_t chars6_vfstub(const ipv6_address::base_type& b, const fixed_string<16>&, format f, char (&r)[63]) {
    g_tb = 0; for (int i = 0; i < 16; ++i) g_tb = g_tb << 8 | (uint8_t) b[i];
    g_f = f; ++g_tcalls; for (size_t i = 0; i < 56; ++i) if (i < g_n) r[i] = g_txt[i]; return g_n;
}
#endif
static size_t dec(size_t p, char* o) { size_t n = 0; if (p > 99) o[n++] = '1'; if (p > 9) o[n++] = (char) ('0' + p / 10 % 10); o[n++] = (char) ('0' + p % 10); return n; }
ROOT(p_net_string) {
    Nd<Net> x = nd_net<Net>(); uint8_t fi = nd_u8(); vf_assume(fi < 3); format f = (format) fi; char e[80]; size_t n;
#ifdef VF_NATIVE
    std::string at = x.n.network_address().to_string(f); n = at.size(); memcpy(e, at.data(), n);
    if (vf_param(0)) { f = format::compressed; at = x.n.network_address().to_string(); n = at.size(); memcpy(e, at.data(), n); }
#elif defined(VF_V4)
    n = spec_v4_text(x.x, e);
#else
    g_n = nd_u8(); vf_assume(g_n <= 56); n = g_n; for (int i = 0; i < 56; ++i) e[i] = g_txt[i] = (char) nd_u8();
#endif
    std::string s; format want = format::compressed;
    switch (vf_param(0)) { case 0: s = x.n.to_string(f); want = f; break; case 1: s = x.n.to_string(); break; case 2: s = std::to_string(x.n); break; case 3: s = (std::string) x.n; break; 
        case 4: s = ip_network(x.n).to_string(f); want = f; break; case 5: s = ip_network(x.n).to_string(); break; case 6: s = std::to_string(ip_network(x.n)); break; default: s = (std::string) ip_network(x.n); }
#if !defined(VF_NATIVE) && !defined(VF_V4)
    vf_assert(g_tcalls == 1 && g_tb == x.x && g_f == want, "the text of the network address");
#endif
    (void) want; e[n++] = '/'; n += dec(x.p, e + n);
    bool eq = s.size() == n; for (size_t i = 0; i < 62; ++i) if (i < n && i < s.size() && s[i] != e[i]) eq = false;
    vf_assert(eq, "address text, slash, decimal prefix length");
}
