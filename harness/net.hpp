#pragma once
#include "util.hpp"
// version traits: N numeric type, W width
template <class Net> struct Tr;
template <> struct Tr<ipv4_network> { typedef uint32_t N; typedef ipv4_address A; static const unsigned W = 32; static N nd() { return nd_u32(); } static A mk(N v) { return mk4(v); } static N un(uint32_t v) { return v; } };
template <> struct Tr<ipv6_network> { typedef u128 N; typedef ipv6_address A; static const unsigned W = 128; static N nd() { return nd_u128(); } static A mk(N v) { return mk6(v); } static N un(const uint128_t& v) { return num(v); } };
template <class N, unsigned W> static inline N maskof(size_t p) { return p == 0 ? (N) 0 : (N) (~(N) 0 << (W - p)); }
// an arbitrary network: numeric base (host bits clear) and prefix length
template <class Net> struct Nd { typename Tr<Net>::N x, m; size_t p; Net n; };
template <class Net> static Nd<Net> nd_net() {
    typedef Tr<Net> T; Nd<Net> r; r.p = nd_u8(); vf_assume(r.p <= T::W); r.m = maskof<typename T::N, T::W>(r.p); r.x = T::nd() & r.m;
    error_code c = OK; r.n = Net::from_address(T::mk(r.x), c, r.p); vf_assert(c == OK, "network exists"); return r;
}
template <class Net> static Nd<Net> nd_net_p(size_t p) {   // of a given prefix length
    typedef Tr<Net> T; Nd<Net> r; r.p = p; r.m = maskof<typename T::N, T::W>(r.p); r.x = T::nd() & r.m;
    error_code c = OK; r.n = Net::from_address(T::mk(r.x), c, r.p); vf_assert(c == OK, "network exists"); return r;
}
template <class Net> static bool is_net(const Net& n, typename Tr<Net>::N x, size_t p) {
    typedef Tr<Net> T; auto m = maskof<typename T::N, T::W>(p);
    return num(n.network_address()) == x && n.prefixlen() == p && num(n.netmask()) == m && num(n.broadcast_address()) == (typename T::N) (x | (typename T::N) ~m);
}
