#include "iter.hpp"
// iterators over addresses (hosts)
ROOT(p_it4_unsigned) { law_unsigned(HostF<ipv4_network>()); }
ROOT(p_it4_signed) { law_signed(HostF<ipv4_network>()); }
ROOT(p_it4_one) { law_one(HostF<ipv4_network>()); }
ROOT(p_it4_runsigned) { law_unsigned(rev(HostF<ipv4_network>())); }
ROOT(p_it4_rsigned) { law_signed(rev(HostF<ipv4_network>())); }
ROOT(p_it4_rone) { law_one(rev(HostF<ipv4_network>())); law_base(HostF<ipv4_network>()); }
ROOT(p_it6_unsigned) { law_unsigned(HostF<ipv6_network>()); }
ROOT(p_it6_signed) { law_signed(HostF<ipv6_network>()); }
ROOT(p_it6_one) { law_one(HostF<ipv6_network>()); }
ROOT(p_it6_runsigned) { law_unsigned(rev(HostF<ipv6_network>())); }
ROOT(p_it6_rsigned) { law_signed(rev(HostF<ipv6_network>())); }
ROOT(p_it6_rone) { law_one(rev(HostF<ipv6_network>())); law_base(HostF<ipv6_network>()); }

// hosts(): begin and end are the positions of the first host and one past the last; element k is the k-th host
template <class Net> struct Hosts {
    typedef Tr<Net> T; typedef typename T::N N; typedef typename T::A A; typedef typename HostF<Net>::It::uint_type U;
    Nd<Net> n; HostF<Net> f; Pos first; u128 count;   // v6 count fits: at most 2^128 - 1
    Hosts() {
        n = nd_net<Net>();
        bool edge = n.p >= T::W - 1;
        first = Pos{ 0, edge ? n.x : (u128) (n.x + 1) };
        count = n.p == T::W ? 1 : n.p == T::W - 1 ? 2 : n.p == 0 && T::W == 128 ? ~(u128) 0 : ((u128) 1 << (T::W - n.p)) - (T::W == 32 ? 2 : 1);
    }
};
template <class Net, class Seq, class F, class H> static void hosts_post(const Seq& s, F f, const H& h) {
    typedef typename Seq::difference_type U; Pos b = h.first, e = f.s.add(b, h.count);
    u128 k = UI<U>::nd(); vf_assume(k < h.count); Pos pk = f.s.add(b, k);
    vf_cover(e.c == 1, "up to the last address"); vf_cover(h.n.p == 0, "/0"); vf_cover(k + 1 == h.count && k > 1, "last of many");
    vf_assert(same(s.begin(), f.at(b)), "begin is the first host"); vf_assert(same(s.end(), f.at(e)), "end is one past the last host");
    vf_assert(same(s.begin(), s.cbegin()) && same(s.end(), s.cend()), "const iterators");
    vf_assert(same(s.rbegin(), ip_reverse_iterator<typename F::It>(s.end())) && same(s.rend(), ip_reverse_iterator<typename F::It>(s.begin())), "reverse iterators");
    vf_assert(same(s.rbegin(), s.crbegin()) && same(s.rend(), s.crend()), "const reverse iterators");
    vf_assert(num_(s.size()) == h.count && !s.empty(), "size is the number of hosts");
    vf_assert(f.val(s.front(), b) && f.val(s.back(), f.s.sub(e, 1)) && f.val(*s.rbegin(), f.s.sub(e, 1)), "front and back");
    vf_assert(f.val(s[UI<U>::mk(k)], pk) && f.val(s.at(UI<U>::mk(k)), pk) && f.val(*(s.begin() + UI<U>::mk(k)), pk), "k-th host");
    vf_assert(f.val(*(s.rbegin() + UI<U>::mk(k)), f.s.sub(f.s.sub(e, 1), k)), "k-th host in reverse");
    vf_assert(f.at(pk) < s.end() && f.at(pk) != s.end(), "the end is not reached before");
}
template <class Net> static void hosts_seq() { Hosts<Net> h; hosts_post<Net>(h.n.n.hosts(), HostF<Net>(), h); }
template <class Net> static void hosts_any() { Hosts<Net> h; ip_network n(h.n.n); hosts_post<Net>(n.hosts(), AnyHostF<Net>(), h); }
ROOT(p_hosts4) { hosts_seq<ipv4_network>(); }
ROOT(p_hosts6) { hosts_seq<ipv6_network>(); }
ROOT(p_hosts4_any) { hosts_any<ipv4_network>(); }
ROOT(p_hosts6_any) { hosts_any<ipv6_network>(); }
// the network address of hosts of a scoped network carries no scope into the hosts
ROOT(p_hosts6_scope) {
    Nd<ipv6_network> n = nd_net<ipv6_network>(); Scope sc = nd_scope(); ipv6_address a = mk6(n.x); put_scope(a, sc);
    error_code c = OK; ipv6_network m = ipv6_network::from_address(a, c, n.p); vf_assert(c == OK, "network with scope");
    auto s = n.n.hosts(), t = m.hosts();
    vf_assert(same(s.begin(), t.begin()) && same(s.end(), t.end()), "hosts do not depend on the scope");
    vf_cover(sc.n == 16, "scope");
}
// any-version iterators
ROOT(p_itany4_unsigned) { law_unsigned(AnyHostF<ipv4_network>()); }
ROOT(p_itany4_signed) { law_signed(AnyHostF<ipv4_network>()); }
ROOT(p_itany4_one) { law_one(AnyHostF<ipv4_network>()); }
ROOT(p_itany4_runsigned) { law_unsigned(rev(AnyHostF<ipv4_network>())); }
ROOT(p_itany4_rsigned) { law_signed(rev(AnyHostF<ipv4_network>())); }
ROOT(p_itany4_rone) { law_one(rev(AnyHostF<ipv4_network>())); law_base(AnyHostF<ipv4_network>()); }
ROOT(p_itany6_unsigned) { law_unsigned(AnyHostF<ipv6_network>()); }
ROOT(p_itany6_signed) { law_signed(AnyHostF<ipv6_network>()); }
ROOT(p_itany6_one) { law_one(AnyHostF<ipv6_network>()); }
ROOT(p_itany6_runsigned) { law_unsigned(rev(AnyHostF<ipv6_network>())); }
ROOT(p_itany6_rsigned) { law_signed(rev(AnyHostF<ipv6_network>())); }
ROOT(p_itany6_rone) { law_one(rev(AnyHostF<ipv6_network>())); law_base(AnyHostF<ipv6_network>()); }
