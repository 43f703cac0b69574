#include "net.hpp"
template <class Net> static void from_address() {
    typedef Tr<Net> T; typedef typename T::N N;
    N a = T::nd(); size_t p = nd_u64(); bool strict = nd_u8() & 1; error_code c = (error_code) (nd_u8() & 31);
    Net n = Net::from_address(T::mk(a), c, p, strict);
    Net def;
    vf_assert(is_net(def, 0, T::W), "default network is the zero address with a full prefix");
    if (p > T::W) { vf_assert(c == error_code::invalid_netmask && n == def && n.prefixlen() == T::W, "prefix beyond the width is rejected"); vf_cover(true, "too long"); }
    else {
        N m = maskof<N, T::W>(p);
        if (strict && (a & ~m) != 0) { vf_assert(c == error_code::has_host_bits_set && n == def && is_net(n, 0, T::W), "host bits are rejected in strict mode"); vf_cover(true, "host bits"); }
        else {
            vf_assert(c == OK, "legal network succeeds");
            vf_assert(num(n.network_address()) == (N) (a & m), "network address is the masked address");
            vf_assert(n.prefixlen() == p && num(n.netmask()) == m, "netmask has p leading ones");
            vf_assert(num(n.hostmask()) == (N) ~m, "hostmask is the complement");
            vf_assert(num(n.broadcast_address()) == (N) (a | (N) ~m), "broadcast has all host bits set");
            N cnt = p == 0 ? (N) 0 : (N) ((N) 1 << (T::W - p));
            vf_assert(T::un(n.addresses_count()) == cnt, "addresses_count is 2^(W-p) mod 2^W");
            vf_cover(!strict && (a & ~m) != 0, "masked"); vf_cover(p == 0, "p = 0"); vf_cover(p == T::W, "full prefix");
        }
    }
}
template <class Net> static void from_address_throw() {
    typedef Tr<Net> T;
    typename T::N a = T::nd(); size_t p = nd_u64(); bool strict = nd_u8() & 1; error_code c = OK;
    Net n = Net::from_address(T::mk(a), c, p, strict);
    try {
        Net k = Net::from_address(T::mk(a), p, strict);
        vf_assert(c == OK && k == n && k.prefixlen() == n.prefixlen(), "throwing overload returns the same network exactly when the code is no_error");
        vf_cover(true, "returns");
    } catch (...) { vf_assert(c != OK && vf_exc_code() == (uint32_t) c, "throws exactly when the code is set, with that code"); vf_cover(true, "throws"); }
}
ROOT(p_from4) { from_address<ipv4_network>(); }
ROOT(p_from6) { from_address<ipv6_network>(); }
ROOT(p_from4_throw) { from_address_throw<ipv4_network>(); }
ROOT(p_from6_throw) { from_address_throw<ipv6_network>(); }
// default arguments: full prefix, strict
ROOT(p_from_default) {
    uint32_t x = nd_u32(); u128 y = nd_u128(); error_code c = OK;
    vf_assert(is_net(ipv4_network::from_address(mk4(x)), x, 32) && is_net(ipv6_network::from_address(mk6(y)), y, 128), "default prefix is the full width");
    vf_assert(is_net(ipv4_network::from_address(mk4(x), c), x, 32) && c == OK, "default prefix with code");
    size_t p = nd_u8(); vf_assume(p <= 32);
    auto n = ipv4_network::from_address(mk4(x), c, p);
    vf_assert((c == OK) == ((x & ~maskof<uint32_t, 32>(p)) == 0), "strict by default");
}
// version independent
ROOT(p_from_any) {
    bool v6 = nd_u8() & 1; uint32_t x = nd_u32(); u128 y = nd_u128(); size_t p = nd_u64(); bool strict = nd_u8() & 1;
    ip_address a = v6 ? ip_address(mk6(y)) : ip_address(mk4(x));
    error_code c = OK, k = OK; ip_network n = ip_network::from_address(a, c, p, strict);
    if (v6) { auto r = ipv6_network::from_address(mk6(y), k, p, strict); vf_assert(k == c, "same code as the v6 network"); if (c == OK) vf_assert(n.is_v6() && n.v6().value() == r && n.prefixlen() == p, "same v6 network"); }
    else { auto r = ipv4_network::from_address(mk4(x), k, p, strict); vf_assert(k == c, "same code as the v4 network"); if (c == OK) vf_assert(n.is_v4() && n.v4().value() == r && n.prefixlen() == p, "same v4 network"); }
    vf_cover(c == OK && v6, "v6"); vf_cover(c == OK && !v6, "v4"); vf_cover(c != OK, "error");
}
ROOT(p_net_any_view) {
    auto a = nd_net<ipv4_network>(); auto b = nd_net<ipv6_network>();
    ip_network m(a.n), n(b.n);
    vf_assert(m.network_address() == ip_address(a.n.network_address()) && m.netmask() == ip_address(a.n.netmask()) && m.hostmask() == ip_address(a.n.hostmask()) && m.broadcast_address() == ip_address(a.n.broadcast_address()) && m.prefixlen() == a.p, "v4 parts");
    vf_assert(n.network_address() == ip_address(b.n.network_address()) && n.netmask() == ip_address(b.n.netmask()) && n.hostmask() == ip_address(b.n.hostmask()) && n.broadcast_address() == ip_address(b.n.broadcast_address()) && n.prefixlen() == b.p, "v6 parts");
    vf_assert(num(m.addresses_count()) == (u128) (uint32_t) a.n.addresses_count() && n.addresses_count() == b.n.addresses_count(), "counts");
}
// ---- set relations
template <class Net> static void sets() {
    typedef Tr<Net> T; typedef typename T::N N;
    auto a = nd_net<Net>(), b = nd_net<Net>(); N y = T::nd(); auto ya = T::mk(y);
    N ah = a.x | (N) ~a.m, bh = b.x | (N) ~b.m;
    bool in = a.x <= y && y <= ah;
    vf_assert(a.n.contains(ya) == in, "contains is membership");
    bool sub = b.x <= a.x && ah <= bh, ov = a.x <= bh && b.x <= ah;
    vf_assert(a.n.subnet_of(b.n) == sub && b.n.supernet_of(a.n) == sub, "subnet_of / supernet_of is inclusion");
    vf_assert(a.n.overlaps(b.n) == ov && b.n.overlaps(a.n) == ov, "overlaps is a common address");
    vf_cover(in, "in"); vf_cover(!in, "out"); vf_cover(sub && a.p != b.p, "sub"); vf_cover(ov && !sub, "super"); vf_cover(!ov, "disjoint");
}
ROOT(p_sets4) { sets<ipv4_network>(); }
ROOT(p_sets6) { sets<ipv6_network>(); }
ROOT(p_sets6_scope) {
    auto a = nd_net<ipv6_network>(); u128 y = nd_u128(); auto ya = mk6(y); Scope s = nd_scope(); put_scope(ya, s);
    vf_assert(a.n.contains(ya) == ((y & a.m) == a.x), "membership ignores the scope id");
}
ROOT(p_sets_any) {
    auto a4 = nd_net<ipv4_network>(), b4 = nd_net<ipv4_network>(); auto a6 = nd_net<ipv6_network>(), b6 = nd_net<ipv6_network>();
    uint32_t x = nd_u32(); u128 y = nd_u128(); bool va = nd_u8() & 1, vb = nd_u8() & 1, vx = nd_u8() & 1;
    ip_network a = va ? ip_network(a6.n) : ip_network(a4.n), b = vb ? ip_network(b6.n) : ip_network(b4.n); ip_address i = vx ? ip_address(mk6(y)) : ip_address(mk4(x));
    vf_assert(a.contains(i) == (va == vx && (va ? a6.n.contains(mk6(y)) : a4.n.contains(mk4(x)))), "contains");
    vf_assert(a.overlaps(b) == (va == vb && (va ? a6.n.overlaps(b6.n) : a4.n.overlaps(b4.n))), "overlaps");
    vf_assert(a.subnet_of(b) == (va == vb && (va ? a6.n.subnet_of(b6.n) : a4.n.subnet_of(b4.n))), "subnet_of");
    vf_assert(a.supernet_of(b) == (va == vb && (va ? a6.n.supernet_of(b6.n) : a4.n.supernet_of(b4.n))), "supernet_of");
}
// ---- supernet
template <class Net> static error_code spec_supernet(size_t p, size_t d, bool hasq, size_t q, size_t& r) {
    r = p; if (p == 0) return OK;
    if (hasq) { if (q > p) return error_code::new_prefix_must_be_shorter; if (d != 1) return error_code::cannot_set_prefixlen_diff_and_new_prefix; r = q; return OK; }
    if (d > p) return error_code::invalid_prefixlen_diff;
    r = p - d; return OK;
}
template <class Net> static void supernet() {
    typedef Tr<Net> T; typedef typename T::N N;
    auto a = nd_net<Net>(); size_t d = nd_u64(), q = nd_u64(), r; bool hasq = nd_u8() & 1; error_code c = (error_code) (nd_u8() & 31);
    optional<size_t> oq = hasq ? optional<size_t>(q) : optional<size_t>();
    Net s = a.n.supernet(c, d, oq);
    error_code e = spec_supernet<Net>(a.p, d, hasq, q, r);
    vf_assert(c == e, "supernet error code");
    if (e == OK) {
        vf_assert(is_net(s, (N) (a.x & maskof<N, T::W>(r)), r), "supernet is the enclosing network of the new length");
        vf_assert(s.contains(T::mk(a.x)) && s.contains(a.n.broadcast_address()), "supernet contains the network");
    } else vf_assert(is_net(s, 0, T::W), "no partial result");
    try { Net t = a.n.supernet(d, oq); vf_assert(e == OK && t == s && t.prefixlen() == s.prefixlen(), "throwing supernet agrees"); }
    catch (...) { vf_assert(e != OK && vf_exc_code() == (uint32_t) e, "supernet throws that code"); vf_cover(true, "throws"); }
    vf_cover(e == OK && hasq, "by length"); vf_cover(e == OK && !hasq && d == a.p && d != 0, "down to /0");
}
ROOT(p_supernet4) { supernet<ipv4_network>(); }
ROOT(p_supernet6) { supernet<ipv6_network>(); }
ROOT(p_supernet_default) {
    auto a = nd_net<ipv4_network>(); auto b = nd_net<ipv6_network>();
    vf_assert(is_net(a.n.supernet(), a.x & maskof<uint32_t, 32>(a.p ? a.p - 1 : 0), a.p ? a.p - 1 : 0), "default v4 supernet is one bit shorter");
    vf_assert(is_net(b.n.supernet(), b.x & maskof<u128, 128>(b.p ? b.p - 1 : 0), b.p ? b.p - 1 : 0), "default v6 supernet is one bit shorter");
}
ROOT(p_supernet_any) {
    auto a4 = nd_net<ipv4_network>(); auto a6 = nd_net<ipv6_network>(); bool v = nd_u8() & 1; size_t d = nd_u64(), q = nd_u64(); bool hasq = nd_u8() & 1; error_code c = OK, k = OK;
    optional<size_t> oq = hasq ? optional<size_t>(q) : optional<size_t>();
    ip_network a = v ? ip_network(a6.n) : ip_network(a4.n); ip_network s = a.supernet(c, d, oq);
    ip_network t = v ? ip_network(a6.n.supernet(k, d, oq)) : ip_network(a4.n.supernet(k, d, oq));
    vf_assert(c == k, "same code"); if (c == OK) vf_assert(s == t && s.prefixlen() == t.prefixlen(), "same supernet");
}
