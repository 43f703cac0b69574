#include "util.hpp"
struct N4 { uint32_t a; int p; };
struct N6 { uint64_t h, l; int p; };
static bool in4(uint32_t x, const N4& n) { return n.p == 0 || ((x ^ n.a) >> (32 - n.p)) == 0; }
static bool in6(u128 x, const N6& n) { return n.p == 0 || ((x ^ ((u128) n.h << 64 | n.l)) >> (128 - n.p)) == 0; }
#define IP4(a,b,c,d) ((uint32_t)(a)<<24|(b)<<16|(c)<<8|(d))
static const N4 PRIV4[] = { {IP4(0,0,0,0),8}, {IP4(10,0,0,0),8}, {IP4(127,0,0,0),8}, {IP4(169,254,0,0),16}, {IP4(172,16,0,0),12}, {IP4(192,0,0,0),29}, {IP4(192,0,0,170),31}, {IP4(192,0,2,0),24},
    {IP4(192,168,0,0),16}, {IP4(198,18,0,0),15}, {IP4(198,51,100,0),24}, {IP4(203,0,113,0),24}, {IP4(240,0,0,0),4}, {IP4(255,255,255,255),32} };
static const N6 PRIV6[] = { {0,1,128}, {0,0,128}, {0,0xffff00000000ull,96}, {0x0100000000000000ull,0,64}, {0x2001000000000000ull,0,23}, {0x2001000200000000ull,0,48}, {0x20010db800000000ull,0,32},
    {0x2001001000000000ull,0,28}, {0xfc00000000000000ull,0,7}, {0xfe80000000000000ull,0,10} };
static const N6 RES6[] = { {0,0,8}, {0x0100000000000000ull,0,8}, {0x0200000000000000ull,0,7}, {0x0400000000000000ull,0,6}, {0x0800000000000000ull,0,5}, {0x1000000000000000ull,0,4}, {0x4000000000000000ull,0,3},
    {0x6000000000000000ull,0,3}, {0x8000000000000000ull,0,3}, {0xA000000000000000ull,0,3}, {0xC000000000000000ull,0,3}, {0xE000000000000000ull,0,4}, {0xF000000000000000ull,0,5}, {0xF800000000000000ull,0,6}, {0xFE00000000000000ull,0,9} };
static bool priv4(uint32_t x) { bool r = false; for (auto& n : PRIV4) r = r || in4(x, n); return r; }
static bool priv6raw(u128 x) { bool r = false; for (auto& n : PRIV6) r = r || in6(x, n); return r; }
static bool res6(u128 x) { bool r = false; for (auto& n : RES6) r = r || in6(x, n); return r; }
ROOT(p_class4) {
    uint32_t x = nd_u32(); auto a = mk4(x);
    bool p = priv4(x), shared = in4(x, {IP4(100,64,0,0),10});
    vf_assert(a.is_private() == p, "v4 is_private");
    vf_assert(a.is_global() == (!p && !shared), "v4 is_global");
    vf_assert(a.is_multicast() == in4(x, {IP4(224,0,0,0),4}), "v4 is_multicast");
    vf_assert(a.is_reserved() == in4(x, {IP4(240,0,0,0),4}), "v4 is_reserved");
    vf_assert(a.is_loopback() == in4(x, {IP4(127,0,0,0),8}), "v4 is_loopback");
    vf_assert(a.is_link_local() == in4(x, {IP4(169,254,0,0),16}), "v4 is_link_local");
    vf_assert(a.is_unspecified() == (x == 0), "v4 is_unspecified");
}
ROOT(p_class6) {
    u128 x = nd_u128(); auto a = mk6(x);
    bool mapped = (x >> 32) == 0xffff;
    bool p = mapped ? priv4((uint32_t) x) : priv6raw(x);
    vf_assert(a.is_private() == p, "v6 is_private");
    vf_assert(a.is_global() == !p, "v6 is_global");
    vf_assert(a.is_multicast() == in6(x, {0xff00000000000000ull,0,8}), "v6 is_multicast");
    vf_assert(a.is_reserved() == res6(x), "v6 is_reserved");
    vf_assert(a.is_loopback() == (x == 1), "v6 is_loopback");
    vf_assert(a.is_link_local() == in6(x, {0xfe80000000000000ull,0,10}), "v6 is_link_local");
    vf_assert(a.is_site_local() == in6(x, {0xfec0000000000000ull,0,10}), "v6 is_site_local");
    vf_assert(a.is_unspecified() == (x == 0), "v6 is_unspecified");
}
// networks: the predicate holds iff network and broadcast address both lie in (one of) the range(s)
ROOT(p_class_net4) {
    uint32_t x = nd_u32(); size_t p = nd_u8(); vf_assume(p <= 32);
    uint32_t m = p ? ~0u << (32 - p) : 0; x &= m; uint32_t e = x | ~m;
    auto n = ipv4_network::from_address(mk4(x), p);
    auto both = [&](const N4& r) { return in4(x, r) && in4(e, r); };
    bool pr = false; for (auto& r : PRIV4) pr = pr || both(r);
    vf_assert(n.is_private() == pr, "v4 network is_private");
    vf_assert(n.is_global() == (!pr && !both({IP4(100,64,0,0),10})), "v4 network is_global");
    vf_assert(n.is_multicast() == both({IP4(224,0,0,0),4}), "v4 network is_multicast");
    vf_assert(n.is_reserved() == both({IP4(240,0,0,0),4}), "v4 network is_reserved");
    vf_assert(n.is_loopback() == both({IP4(127,0,0,0),8}), "v4 network is_loopback");
    vf_assert(n.is_link_local() == both({IP4(169,254,0,0),16}), "v4 network is_link_local");
    vf_assert(n.is_unspecified() == (x == 0 && p == 32), "v4 network is_unspecified");
}
ROOT(p_class_net6) {
    u128 x = nd_u128(); size_t p = nd_u8(); vf_assume(p <= 128);
    u128 m = p ? ~(u128) 0 << (128 - p) : 0; x &= m; u128 e = x | ~m;
    auto n = ipv6_network::from_address(mk6(x), p);
    auto both = [&](const N6& r) { return in6(x, r) && in6(e, r); };
    bool pr = false; for (auto& r : PRIV6) pr = pr || both(r);
    vf_assert(n.is_private() == pr, "v6 network is_private");
    vf_assert(n.is_global() == !pr, "v6 network is_global");
    vf_assert(n.is_multicast() == both({0xff00000000000000ull,0,8}), "v6 network is_multicast");
    vf_assert(n.is_reserved() == (res6(x) && res6(e)), "v6 network is_reserved");
    vf_assert(n.is_loopback() == (x == 1 && p == 128), "v6 network is_loopback");
    vf_assert(n.is_link_local() == both({0xfe80000000000000ull,0,10}), "v6 network is_link_local");
    vf_assert(n.is_site_local() == both({0xfec0000000000000ull,0,10}), "v6 network is_site_local");
    vf_assert(n.is_unspecified() == (x == 0 && p == 128), "v6 network is_unspecified");
}
