#include "util.hpp"
#include <functional>
template <typename T, typename K> static void laws(const T& a, const T& b, int c, K) {
    // c: sign of the reference comparison of a and b
    vf_assert((a == b) == (c == 0), "== is equality of the represented value");
    vf_assert((a != b) == (c != 0), "!= is the negation of ==");
    vf_assert((a < b) == (c < 0), "< is the numeric order");
    vf_assert((a > b) == (c > 0), "> is the converse");
    vf_assert((a <= b) == (c <= 0), "<= is < or ==");
    vf_assert((a >= b) == (c >= 0), ">= is > or ==");
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    vf_assert(((a <=> b) < 0) == (c < 0) && ((a <=> b) == 0) == (c == 0), "<=> agrees");
#endif
    vf_cover(c < 0, "less"); vf_cover(c == 0, "equal"); vf_cover(c > 0, "greater");
}
template <typename N> static int sgn(N a, N b) { return a < b ? -1 : a > b ? 1 : 0; }
ROOT(p_ord4) { uint32_t x = nd_u32(), y = nd_u32(); laws(mk4(x), mk4(y), sgn(x, y), 0); }
ROOT(p_ord6) {
    u128 x = nd_u128(), y = nd_u128(); Scope s = nd_scope(), t = nd_scope();
    auto a = mk6(x), b = mk6(y); put_scope(a, s); put_scope(b, t);
    int c = sgn(x, y); if (c == 0) c = cmp_scope(s, t);
    laws(a, b, c, 0);
    vf_cover(x == y && c < 0, "scope decides");
}
ROOT(p_ord6_noscope) {
    u128 x = nd_u128(), y = nd_u128();
    laws(mk6(x), mk6(y), sgn(x, y), 0);
}
ROOT(p_ord_any) {
    bool v1 = nd_u8() & 1, v2 = nd_u8() & 1; u128 x = nd_u128(), y = nd_u128(); uint32_t p = nd_u32(), q = nd_u32();
    ip_address a = v1 ? ip_address(mk6(x)) : ip_address(mk4(p)), b = v2 ? ip_address(mk6(y)) : ip_address(mk4(q));
    // every IPv4 address sorts before every IPv6 address
    int c = v1 != v2 ? (v1 ? 1 : -1) : v1 ? sgn(x, y) : sgn(p, q);
    laws(a, b, c, 0);
}
ROOT(p_ord_net4) {
    uint32_t x = nd_u32(), y = nd_u32(); size_t p = nd_u8(), q = nd_u8(); vf_assume(p <= 32 && q <= 32);
    uint32_t m = p ? ~0u << (32 - p) : 0, k = q ? ~0u << (32 - q) : 0; x &= m; y &= k;
    int c = sgn(x, y); if (c == 0) c = sgn(p, q);
    laws(ipv4_network::from_address(mk4(x), p), ipv4_network::from_address(mk4(y), q), c, 0);
}
ROOT(p_ord_net6) {
    u128 x = nd_u128(), y = nd_u128(); size_t p = nd_u8(), q = nd_u8(); vf_assume(p <= 128 && q <= 128);
    u128 m = p ? ~(u128) 0 << (128 - p) : 0, k = q ? ~(u128) 0 << (128 - q) : 0; x &= m; y &= k;
    int c = sgn(x, y); if (c == 0) c = sgn(p, q);
    laws(ipv6_network::from_address(mk6(x), p), ipv6_network::from_address(mk6(y), q), c, 0);
}
ROOT(p_ord_anynet) {
    bool v1 = nd_u8() & 1, v2 = nd_u8() & 1; u128 x = nd_u128(), y = nd_u128(); uint32_t x4 = nd_u32(), y4 = nd_u32(); size_t p = nd_u8(), q = nd_u8(); vf_assume(p <= (v1 ? 128 : 32) && q <= (v2 ? 128 : 32));
    u128 m = p ? ~(u128) 0 << (128 - p) : 0, k = q ? ~(u128) 0 << (128 - q) : 0; x &= m; y &= k;
    size_t p4 = p > 32 ? 32 : p, q4 = q > 32 ? 32 : q;
    uint32_t m4 = p4 ? ~0u << (32 - p4) : 0, k4 = q4 ? ~0u << (32 - q4) : 0; x4 &= m4; y4 &= k4;
    ip_network a = v1 ? ip_network(ipv6_network::from_address(mk6(x), p)) : ip_network(ipv4_network::from_address(mk4(x4), p4));
    ip_network b = v2 ? ip_network(ipv6_network::from_address(mk6(y), q)) : ip_network(ipv4_network::from_address(mk4(y4), q4));
    int c = v1 != v2 ? (v1 ? 1 : -1) : v1 ? sgn(x, y) : sgn(x4, y4); if (c == 0) c = sgn(p, q);
    laws(a, b, c, 0);
}
ROOT(p_ord_u128) { u128 x = nd_u128(), y = nd_u128(); laws(u128_of(x), u128_of(y), sgn(x, y), 0); }
ROOT(p_ord_scope) {
    Scope s = nd_scope(), t = nd_scope();
    auto a = mk6(0), b = mk6(0); put_scope(a, s); put_scope(b, t);
    laws(a.get_scope_id(), b.get_scope_id(), cmp_scope(s, t), 0);
}
// hash: equal values hash equally, std::hash is hash(); swap exchanges
ROOT(p_hash) {
    uint32_t x = nd_u32(); u128 u = nd_u128(); Scope s = nd_scope();
    auto a = mk4(x); auto b = ipv4_address::from_uint(x);
    vf_assert(a.hash() == b.hash() && std::hash<ipv4_address>{}(a) == a.hash(), "v4 hash");
    auto c = mk6(u), d = ipv6_address::from_uint(u128_of(u)); put_scope(c, s);
    { // reach the same value through an assignment history
        Scope junk = nd_scope(); put_scope(d, junk); put_scope(d, s);
    }
    vf_assert(c == d, "same address");
    for (size_t i = 0; i < sizeof d; ++i) ((unsigned char*) &d)[i] = vf_hint8(((unsigned char*) &d)[i], ((unsigned char*) &c)[i]); // no-op
    vf_assert(c.hash() == d.hash(), "v6 hash depends on the value only");
    vf_assert(std::hash<ipv6_address>{}(c) == c.hash(), "std::hash v6");
    size_t p = nd_u8(); vf_assume(p <= 32); uint32_t m = p ? ~0u << (32 - p) : 0;
    auto n = ipv4_network::from_address(mk4(x & m), p), n2 = ipv4_network::from_address(ipv4_address::from_uint(x), p, false);
    for (size_t i = 0; i < sizeof n; ++i) ((unsigned char*) &n2)[i] = vf_hint8(((unsigned char*) &n2)[i], ((unsigned char*) &n)[i]); // no-op
    vf_assert(n == n2 && n.hash() == n2.hash() && std::hash<ipv4_network>{}(n) == n.hash(), "network hash");
    ip_address e(a), f(b); vf_assert(e.hash() == f.hash() && e.hash() == a.hash(), "any hash");
    uint128_t i = u128_of(u), j(i); vf_assert(i.hash() == j.hash() && std::hash<uint128_t>{}(i) == i.hash(), "uint128 hash");
}
ROOT(p_swap) {
    uint32_t x = nd_u32(), y = nd_u32(); auto a = mk4(x), b = mk4(y);
    std::swap(a, b); vf_assert(num(a) == y && num(b) == x, "swap v4");
    u128 u = nd_u128(), v = nd_u128(); Scope s = nd_scope(), t = nd_scope();
    auto c = mk6(u), d = mk6(v); put_scope(c, s); put_scope(d, t);
    auto c0 = c, d0 = d;
    std::swap(c, d); vf_assert(c == d0 && d == c0, "swap v6 exchanges bytes and scope");
    c.swap(d); vf_assert(c == c0 && d == d0, "swap twice");
    size_t p = nd_u8(), q = nd_u8(); vf_assume(p <= 32 && q <= 32);
    auto m = ipv4_network::from_address(a, p, false), n = ipv4_network::from_address(b, q, false); auto m0 = m, n0 = n;
    std::swap(m, n); vf_assert(m == n0 && n == m0 && m.prefixlen() == q && n.prefixlen() == p, "swap network");
}
