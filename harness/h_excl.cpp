#include "iter.hpp"
// address_exclude: a = (x, p), b = (y, q) inside a.  E(a, b) is the iterator at the start.
//   step: *E(a, b) is the half of a without b; ++E(a, b) is E(half of a with b, b), and end() when that half is b itself.
// By induction on q - p (outside the solver) the sequence is the siblings of b's enclosing networks of length p+1 .. q.
template <class Net> struct Ex {
    typedef Tr<Net> T; typedef typename T::N N; Nd<Net> a, b, inner, sib;
    Ex() {
        size_t par = (size_t) vf_param(0);   // prefix length of a, 255: any
        a = par == 255 ? nd_net<Net>() : nd_net_p<Net>(par); b = nd_net<Net>(); vf_assume(b.p > a.p && (b.x & a.m) == a.x); 
        inner.p = sib.p = a.p + 1; inner.m = sib.m = maskof<N, T::W>(a.p + 1); inner.x = b.x & inner.m; sib.x = inner.x ^ (inner.m ^ a.m);
        error_code c = OK; inner.n = Net::from_address(T::mk(inner.x), c, inner.p); vf_assert(c == OK, "inner half"); sib.n = Net::from_address(T::mk(sib.x), c, sib.p); vf_assert(c == OK, "other half");
    }
};
template <class It> static bool same_it(const It& a, const It& b) { return a == b && !(a != b) && *a == *b && *a.operator->() == *b && vf_same_state(&a, &b, sizeof a); }
template <class V, class E, class Net> static void step(const V& a, const V& b, const V& inner, const V& sib, const E& u, const Net&) {
    error_code c = (error_code) (nd_u8() & 15);
    auto s = a.address_exclude(b, c); vf_assert(c == OK, "no error when contained");
    auto it = s.begin();
    vf_assert(!s.empty() && s.begin() != s.end() && !(s.begin() == s.end()) && s.cbegin() == s.begin() && s.cend() == s.end(), "not empty");
    vf_assert(*it == sib && *it.operator->() == sib, "first element is the half without the excluded network");
    auto post = it; auto& r = ++it; vf_assert(&r == &it, "++ returns itself");
    auto old = post++; vf_assert(same_it(old, s.begin()) && same_it(post, it), "post-increment");
    if (u.b.p == u.a.p + 1) vf_assert(it == s.end() && !(it != s.end()), "the end follows the last half");
    else { auto t = inner.address_exclude(b, c); vf_assert(c == OK, "no error"); vf_assert(same_it(it, t.begin()), "the rest is the exclusion from the other half"); vf_assert(it != s.end(), "not ended early"); }
    auto th = a.address_exclude(b); vf_assert(same_it(th.begin(), s.begin()) && th.end() == s.end(), "throwing overload");
    vf_cover(u.b.p == u.a.p + 1, "last"); vf_cover(u.sib.x == 0, "results at address zero");
}
template <class Net> static void p_step() {
    Ex<Net> u; step(u.a.n, u.b.n, u.inner.n, u.sib.n, u, u.a.n);
    // the halves partition a
    auto z = Tr<Net>::nd(); auto ad = Tr<Net>::mk(z); bool in = u.a.n.contains(ad);
    vf_assert(in == (u.sib.n.contains(ad) != u.inner.n.contains(ad)) && !(u.sib.n.contains(ad) && u.inner.n.contains(ad)), "the halves partition the network");
}
template <class Net> static void p_step_any() { Ex<Net> u; step(ip_network(u.a.n), ip_network(u.b.n), ip_network(u.inner.n), ip_network(u.sib.n), u, u.a.n); }
ROOT(p_excl4) { p_step<ipv4_network>(); }
ROOT(p_excl6) { p_step<ipv6_network>(); }
ROOT(p_excl4_any) { p_step_any<ipv4_network>(); }
ROOT(p_excl6_any) { p_step_any<ipv6_network>(); }
// errors and equal networks
template <class V, class Net> static void edges(const V& a, const V& b, const Nd<Net>& x, const Nd<Net>& y) {
    error_code c = (error_code) (nd_u8() & 15), e = OK; bool inside = y.p >= x.p && (y.x & x.m) == x.x, eq = inside && x.p == y.p;
    auto s = a.address_exclude(b, c);
    vf_assert(c == (inside ? OK : error_code::not_contained_network), "error exactly when not contained");
    vf_assert(s.empty() == (!inside || eq) && (s.begin() == s.end()) == s.empty(), "nothing to enumerate for equal networks and on error");
    try { auto t = a.address_exclude(b); vf_assert(t.empty() == eq, "throwing overload"); } catch (...) { e = (error_code) vf_exc_code(); }
    vf_assert(e == c, "the throwing overload throws the code"); vf_cover(eq, "equal");
}
template <class Net> static Nd<Net> nd_par() { size_t p = (size_t) vf_param(0); return p == 255 ? nd_net<Net>() : nd_net_p<Net>(p); }
template <class Net> static void err(bool any) { auto a = nd_par<Net>(), b = nd_net<Net>(); if (any) edges(ip_network(a.n), ip_network(b.n), a, b); else edges(a.n, b.n, a, b); }
ROOT(p_excl4_err) { err<ipv4_network>(false); }
ROOT(p_excl6_err) { err<ipv6_network>(false); }
ROOT(p_excl4_any_err) { err<ipv4_network>(true); }
ROOT(p_excl6_any_err) { err<ipv6_network>(true); }
ROOT(p_excl_mixed) {
    auto a = nd_net<ipv4_network>(); auto b = nd_net<ipv6_network>(); ip_network x(a.n), y(b.n); error_code c = (error_code) (nd_u8() & 15), d = c, e = OK;
    vf_assert(x.address_exclude(y, c).empty() && c == error_code::invalid_version, "mixed versions"); vf_assert(y.address_exclude(x, d).empty() && d == error_code::invalid_version, "mixed versions");
    try { (void) x.address_exclude(y); } catch (...) { e = (error_code) vf_exc_code(); } vf_assert(e == error_code::invalid_version, "throws");
}
// a scope id of either network plays no part
template <bool any> static void scoped() {
    Nd<ipv6_network> a = nd_par<ipv6_network>(), b = nd_net<ipv6_network>(); Scope s1 = nd_scope(2), s2 = nd_scope(2); ipv6_address x = mk6(a.x), y = mk6(b.x); put_scope(x, s1); put_scope(y, s2);
    error_code c = OK, d = OK; auto m = ipv6_network::from_address(x, c, a.p), n = ipv6_network::from_address(y, c, b.p); vf_assert(c == OK, "scoped");
    auto t = a.n.address_exclude(b.n, d); vf_cover(s1.n == 2 && s2.n == 1, "scopes");
    if (!any) { auto s = m.address_exclude(n, c); vf_assert(c == d && s.empty() == t.empty() && s.begin() == t.begin() && *s.begin() == *t.begin(), "scope plays no part"); }
    else { ip_network am(m), an(n); error_code e = OK; auto u = am.address_exclude(an, e); vf_assert(e == d && u.empty() == t.empty() && (u.empty() || *u.begin() == ip_network(*t.begin())), "scope plays no part"); }
}
ROOT(p_excl6_scope) { scoped<false>(); }
ROOT(p_excl6_any_scope) { scoped<true>(); }
// the whole enumeration, unrolled (IPv4; p is the case-split constant)
ROOT(p_excl4_all) {
    Nd<ipv4_network> b = nd_net<ipv4_network>(); size_t p = (size_t) vf_param(0); vf_assume(b.p > p); uint32_t m = maskof<uint32_t, 32>(p); error_code c = OK;
    auto a = ipv4_network::from_address(mk4(b.x & m), c, p); vf_assert(c == OK, "network"); auto s = a.address_exclude(b.n, c); auto it = s.begin(), e = s.end();
    for (size_t l = p + 1; l <= 32; ++l) { if (l > b.p) break; uint32_t lm = maskof<uint32_t, 32>(l); vf_assert(it != e, "not ended"); vf_assert(is_net(*it, (b.x & lm) ^ (1u << (32 - l)), l), "l-th element"); ++it; }
    vf_assert(it == e, "ended");
}
