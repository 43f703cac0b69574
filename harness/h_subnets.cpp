#include "iter.hpp"
// iterators over networks of prefix length q (case-split constant)
template <class Net> static SubF<Net> S() { SubF<Net> f; f.s.q = (unsigned) vf_param(0); return f; }
ROOT(p_sub4_unsigned) { law_unsigned(S<ipv4_network>()); }
ROOT(p_sub4_signed) { law_signed(S<ipv4_network>()); }
ROOT(p_sub4_one) { law_one(S<ipv4_network>()); }
ROOT(p_sub4_runsigned) { law_unsigned(rev(S<ipv4_network>())); }
ROOT(p_sub4_rsigned) { law_signed(rev(S<ipv4_network>())); }
ROOT(p_sub4_rone) { law_one(rev(S<ipv4_network>())); law_base(S<ipv4_network>()); }
ROOT(p_sub6_unsigned) { law_unsigned(S<ipv6_network>()); }
ROOT(p_sub6_signed) { law_signed(S<ipv6_network>()); }
ROOT(p_sub6_one) { law_one(S<ipv6_network>()); }
ROOT(p_sub6_runsigned) { law_unsigned(rev(S<ipv6_network>())); }
ROOT(p_sub6_rsigned) { law_signed(rev(S<ipv6_network>())); }
ROOT(p_sub6_rone) { law_one(rev(S<ipv6_network>())); law_base(S<ipv6_network>()); }

template <class Net> static AnySubF<Net> A() { AnySubF<Net> f; f.s.q = f.f.s.q = (unsigned) vf_param(0); return f; }
ROOT(p_subany4_unsigned) { law_unsigned(A<ipv4_network>()); }
ROOT(p_subany4_signed) { law_signed(A<ipv4_network>()); }
ROOT(p_subany4_one) { law_one(A<ipv4_network>()); }
ROOT(p_subany4_runsigned) { law_unsigned(rev(A<ipv4_network>())); }
ROOT(p_subany4_rsigned) { law_signed(rev(A<ipv4_network>())); }
ROOT(p_subany4_rone) { law_one(rev(A<ipv4_network>())); law_base(A<ipv4_network>()); }
ROOT(p_subany6_unsigned) { law_unsigned(A<ipv6_network>()); }
ROOT(p_subany6_signed) { law_signed(A<ipv6_network>()); }
ROOT(p_subany6_one) { law_one(A<ipv6_network>()); }
ROOT(p_subany6_runsigned) { law_unsigned(rev(A<ipv6_network>())); }
ROOT(p_subany6_rsigned) { law_signed(rev(A<ipv6_network>())); }
ROOT(p_subany6_rone) { law_one(rev(A<ipv6_network>())); law_base(A<ipv6_network>()); }

// subnets() of a network (x, p) into blocks of length q: blocks x >> (W - q) .. + 2^(q - p)
template <class Net, class Seq, class F> static void subnets_post(const Seq& s, F f, const Nd<Net>& n, bool sized) {
    typedef typename Seq::difference_type U; const unsigned W = F::W, q = f.s.q; unsigned d = q - (unsigned) n.p;
    Pos b{ 0, q == 0 ? (u128) 0 : (u128) n.x >> (W - q) };
    u128 cnt = d == 128 ? 0 : (u128) 1 << d; Pos e = d == 128 ? Pos{ 1, b.e } : f.s.add(b, cnt);
    u128 k = UI<U>::nd(); vf_assume(k <= cnt - 1); Pos pk = f.s.add(b, k), last = f.s.sub(e, 1);
    vf_cover(e.c == 1, "up to the last address"); 
    vf_assert(same(s.begin(), f.at(b)), "begin is the first block"); vf_assert(same(s.end(), f.at(e)), "end is one past the last block");
    vf_assert(same(s.begin(), s.cbegin()) && same(s.end(), s.cend()), "const iterators");
    vf_assert(same(s.rbegin(), ip_reverse_iterator<typename F::It>(s.end())) && same(s.rend(), ip_reverse_iterator<typename F::It>(s.begin())), "reverse iterators");
    vf_assert(same(s.rbegin(), s.crbegin()) && same(s.rend(), s.crend()), "const reverse iterators");
    if (sized) vf_assert(num_(s.size()) == (W == 32 && sizeof(U) == 4 ? (u128) (uint32_t) cnt : cnt), "size is the number of blocks");
    vf_assert(!s.empty(), "never empty");
    vf_assert(f.val(s.front(), b) && f.val(s.back(), last) && f.val(*s.rbegin(), last), "front and back");
    vf_assert(f.val(s[UI<U>::mk(k)], pk) && f.val(s.at(UI<U>::mk(k)), pk) && f.val(*(s.begin() + UI<U>::mk(k)), pk), "k-th block");
    vf_assert(f.val(*(s.rbegin() + UI<U>::mk(k)), f.s.sub(last, k)), "k-th block in reverse");
    vf_assert(f.at(pk) < s.end() && f.at(pk) != s.end(), "the end is not reached before");
    if (k + 1 <= cnt - 1) { auto i = s.begin(), j = s.end(); ++i; --j; vf_assert(same(i, f.at(f.s.add(b, 1))) && same(j, f.at(last)), "steps from begin and end"); }
}
template <class Net> struct Sub { Nd<Net> n; size_t d, q; Sub() { q = (size_t) vf_param(0); n = nd_net<Net>(); vf_assume(n.p <= q && n.p < Tr<Net>::W); d = q - n.p; } };
template <class Net> static void subnets_seq() {
    Sub<Net> u; error_code c = (error_code) (nd_u8() & 15);
    auto s = u.n.n.subnets(c, u.d); vf_assert(c == OK, "no error"); subnets_post(s, S<Net>(), u.n, true);
    auto t = u.n.n.subnets(c, 1, u.q); vf_assert(c == OK && same(s.begin(), t.begin()) && same(s.end(), t.end()) && s.size() == t.size(), "by new prefix");
    auto v = u.n.n.subnets(u.d); vf_assert(same(s.begin(), v.begin()) && same(s.end(), v.end()) && s.size() == v.size(), "throwing overload");
}
template <class Net> static void subnets_any() {
    Sub<Net> u; ip_network n(u.n.n); error_code c = (error_code) (nd_u8() & 15);
    auto s = n.subnets(c, u.d); vf_assert(c == OK, "no error"); subnets_post(s, A<Net>(), u.n, u.d < Tr<Net>::W);
    auto t = n.subnets(1, u.q); vf_assert(same(s.begin(), t.begin()) && same(s.end(), t.end()), "by new prefix, throwing overload");
}
ROOT(p_subnets4) { subnets_seq<ipv4_network>(); }
ROOT(p_subnets6) { subnets_seq<ipv6_network>(); }
ROOT(p_subnets4_any) { subnets_any<ipv4_network>(); }
ROOT(p_subnets6_any) { subnets_any<ipv6_network>(); }
// a single address is its own only subnet; arguments out of range
template <class T> static T nd_size() { T v = (T) nd_u64(); return v; }
template <class Net> static void subnets_args() {
    Nd<Net> n = nd_net<Net>(); const unsigned W = Tr<Net>::W; size_t d = (size_t) nd_u64(), q = (size_t) nd_u64(); bool with = nd_u8() & 1;
    error_code c = (error_code) (nd_u8() & 15), want = OK;
    optional<size_t> nq; if (with) nq = q;
    if (n.p == W) want = OK;
    else if (with && q < n.p) want = error_code::new_prefix_must_be_longer;
    else if (with && d != 1) want = error_code::cannot_set_prefixlen_diff_and_new_prefix;
    else if (with ? q > W : d > W - n.p) want = error_code::invalid_prefixlen_diff;
    auto s = n.n.subnets(c, d, nq);
    vf_assert(c == want, "error code");
    if (want != OK) vf_assert(s.empty() && s.begin() == s.end() && num_(s.size()) == 0, "nothing on error");
    if (n.p == W) {
        vf_assert(num_(s.size()) == 1 && !s.empty() && *s.begin() == n.n && s.front() == n.n && s.back() == n.n && s[0] == n.n && *s.rbegin() == n.n, "itself");
        auto i = s.begin(); ++i; vf_assert(same(i, s.end()), "one element"); auto r = s.rbegin(); ++r; vf_assert(r == s.rend(), "one element in reverse");
    }
    ip_network y(n.n); error_code ca = (error_code) (nd_u8() & 15); auto sa = y.subnets(ca, d, nq);
    vf_assert(ca == want, "error code, any version"); if (want != OK) vf_assert(sa.empty(), "nothing on error, any version");
    if (n.p == W) { auto i = sa.begin(); vf_assert(*i == y && i != sa.end(), "itself, any version"); ++i; vf_assert(i == sa.end() && num(sa.size()) == 1, "one element, any version"); }
    error_code e = OK, ea = OK;
    try { (void) n.n.subnets(d, nq); } catch (...) { e = (error_code) vf_exc_code(); }
    try { (void) y.subnets(d, nq); } catch (...) { ea = (error_code) vf_exc_code(); }
    vf_assert(e == want && ea == want, "the throwing overloads throw the same code");
    vf_cover(want == error_code::invalid_prefixlen_diff, "diff"); vf_cover(want == error_code::new_prefix_must_be_longer, "longer"); vf_cover(n.p == W && with, "single");
}
ROOT(p_subargs4) { subnets_args<ipv4_network>(); }
ROOT(p_subargs6) { subnets_args<ipv6_network>(); }
