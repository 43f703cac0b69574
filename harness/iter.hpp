#pragma once
#include "net.hpp"
// contract of uint128_t division used here: the divisor is a power of two (discharged for the real code by P17)
uint128_t div_vfstub(const uint128_t* a, const uint128_t* b) {
    u128 d = num(*b), x = num(*a); vf_require(d != 0 && (d & (d - 1)) == 0, "divisor is a power of two");
    for (int i = 0; i < 128; ++i) if (d == (u128) 1 << i) return u128_of(x >> i);
    return u128_of(0);
}
static inline u128 num_(uint32_t v) { return v; }
static inline u128 num_(const uint128_t& v) { return num(v); }
// Position of an iterator over blocks of prefix length q: block number e < 2^q in turn c of the address space
struct Pos { int c; u128 e; };
template <unsigned W> struct Space {
    unsigned q;
    u128 mask() const { return q == 128 ? ~(u128) 0 : ((u128) 1 << q) - 1; }
    u128 turns(u128 n) const { return q == 128 ? 0 : n >> q; }
    Pos add(Pos p, u128 n) const { u128 s = p.e + (n & mask()); int k = q == 128 ? s < p.e : (int) (s >> q); return Pos{ p.c + (int) turns(n) + k, s & mask() }; }
    Pos sub(Pos p, u128 n) const { u128 m = n & mask(), s = p.e - m; return Pos{ p.c - (int) turns(n) - (p.e < m), s & mask() }; }
    u128 first(Pos p) const { return q == 0 ? 0 : p.e << (W - q); }       // numeric value of the first address of the block
    static bool less(Pos a, Pos b) { return a.c != b.c ? a.c < b.c : a.e < b.e; }
    Pos nd() const { Pos p; p.c = (int) (nd_u8() & 3) - 1; p.e = (W == 32 ? (u128) nd_u32() : nd_u128()) & mask(); vf_assume(in(p)); return p; }
    static bool in(Pos p) { return p.c >= -1 && p.c <= 1; }
};
template <class It> static bool less(const It& a, const It& b) {   // all six relations agree
    bool l = a < b, g = b < a;
    vf_assert(!(l && g), "order is asymmetric");
    vf_assert((a > b) == g && (a <= b) == !g && (a >= b) == !l, "derived relations");
    vf_assert((a == b) == (!l && !g) && (a != b) == !(a == b), "equality is neither less nor greater");
    return l;
}
template <class It> static bool same(const It& a, const It& b) { return a == b && !(a != b) && *a == *b && *a.operator->() == *b && num_(a.uint_diff(b)) == 0; }
template <class U> struct UI; 
template <> struct UI<uint32_t> { static uint32_t mk(u128 v) { return (uint32_t) v; } static u128 nd() { return nd_u32(); } };
template <> struct UI<uint128_t> { static uint128_t mk(u128 v) { return u128_of(v); } static u128 nd() { return nd_u128(); } };
// F: traits { It; W; Space<W> s; It at(Pos); bool val(value, Pos) }
// each operation under contract: the state at position p becomes the state at position p + n
template <class F> static void law_unsigned(F f) {
    typedef typename F::It It; typedef typename It::uint_type U;
    Pos p = f.s.nd(); u128 n = UI<U>::nd(); if (F::W == 32 && sizeof(U) > 4) vf_assume(n >> 33 == 0);
    vf_assume(f.s.turns(n) <= 4); U u = UI<U>::mk(n); const It a = f.at(p);
    Pos r = f.s.add(p, n), l = f.s.sub(p, n);
    vf_cover(r.c != p.c, "passes the end of the address space"); vf_cover(n == 0, "no step");
    if (f.s.in(r)) {
        It t = a; It& x = (t += u);
        vf_assert(same(t, f.at(r)) && &x == &t, "+= unsigned"); vf_assert(same(a + u, f.at(r)) && same(u + a, f.at(r)), "+ unsigned");
        vf_assert(f.val(a[u], r), "[unsigned]"); vf_assert(num_(f.at(r).uint_diff(a)) == n, "uint_diff");
    }
    if (f.s.in(l)) { It t = a; It& x = (t -= u); vf_assert(same(t, f.at(l)) && &x == &t, "-= unsigned"); vf_assert(same(a - u, f.at(l)), "- unsigned"); }
}
template <class F> static void law_signed(F f) {
    typedef typename F::It It;
    Pos p = f.s.nd(); int64_t n = (int64_t) nd_u64(); u128 m = n < 0 ? (u128) 0 - (u128) (__int128) n : (u128) n;
    vf_assume(f.s.turns(m) <= 4); const It a = f.at(p);
    Pos r = n < 0 ? f.s.sub(p, m) : f.s.add(p, m), l = n < 0 ? f.s.add(p, m) : f.s.sub(p, m);
    vf_cover(n < 0 && f.s.in(r), "backwards"); 
    if (f.s.in(r)) {
        It t = a; It& x = (t += n);
        vf_assert(same(t, f.at(r)) && &x == &t, "+= signed"); vf_assert(same(a + n, f.at(r)) && same(n + a, f.at(r)), "+ signed");
        vf_assert(f.val(a[n], r), "[signed]"); vf_assert(f.at(r) - a == n, "difference");
    }
    if (f.s.in(l)) { It t = a; It& x = (t -= n); vf_assert(same(t, f.at(l)) && &x == &t, "-= signed"); vf_assert(same(a - n, f.at(l)), "- signed"); }
}
template <class F> static void law_one(F f) {
    typedef typename F::It It;
    Pos p = f.s.nd(), k = f.s.nd(); const It a = f.at(p);
    Pos r = f.s.add(p, 1), l = f.s.sub(p, 1);
    vf_assert(f.val(*a, p) && f.val(*a.operator->(), p), "value");
    if (f.s.in(r)) { It t = a; vf_assert(same(t++, a) && same(t, f.at(r)), "post ++"); It v = a; It& x = ++v; vf_assert(same(v, f.at(r)) && &x == &v, "++"); }
    if (f.s.in(l)) { It t = a; vf_assert(same(t--, a) && same(t, f.at(l)), "post --"); It v = a; It& x = --v; vf_assert(same(v, f.at(l)) && &x == &v, "--"); }
    It b = f.at(k);
    vf_assert(less(a, b) == f.s.less(p, k), "order is the order of positions");
    vf_assert((a == b) == (p.c == k.c && p.e == k.e), "equality is equality of positions");
}
// reverse iterators: made from the iterator one past their element
template <class F> struct Rev {
    typedef ip_reverse_iterator<typename F::It> It; static const unsigned W = F::W;
    struct S { decltype(F().s) s; Pos nd() const { return neg(s.nd()); } 
        // reverse position p stands for forward position -p
        static Pos neg(Pos p) { return p; }
        u128 turns(u128 n) const { return s.turns(n); } Pos add(Pos p, u128 n) const { return s.sub(p, n); } Pos sub(Pos p, u128 n) const { return s.add(p, n); }
        static bool less(Pos a, Pos b) { return decltype(F().s)::less(b, a); } bool in(Pos p) const { return s.in(p) && s.in(s.sub(p, 1)); } } s;
    F f;
    It at(Pos p) const { return It(f.at(p)); }
    template <class V> bool val(const V& v, Pos p) const { return f.val(v, f.s.sub(p, 1)); }
};
template <class F> static Rev<F> rev(F f) { Rev<F> r; r.f = f; r.s.s = f.s; return r; }
template <class F> static void law_base(F f) {
    Pos p = f.s.nd(); auto it = f.at(p); vf_assume(f.s.in(f.s.sub(p, 1)));
    ip_reverse_iterator<typename F::It> r(it);
    vf_assert(same(r.base(), it), "base of a reverse iterator is the iterator it was made from");
}
template <class Net> struct HostF {
    typedef Tr<Net> T; typedef ip_address_iterator<typename T::A> It; static const unsigned W = T::W; Space<W> s{ W };
    It at(Pos p) const { return It(T::mk((typename T::N) p.e), p.c); }
    bool val(const typename T::A& v, Pos p) const { return num(v) == (typename T::N) p.e; }
};
template <class Net> struct SubF {
    typedef Tr<Net> T; typedef ip_network_iterator<Net> It; static const unsigned W = T::W; Space<W> s;
    typename It::uint_type step() const { return UI<typename It::uint_type>::mk(s.q == 0 ? 0 : (u128) 1 << (W - s.q)); }
    It at(Pos p) const { return It(T::mk((typename T::N) s.first(p)), step(), s.q, p.c); }
    bool val(const Net& v, Pos p) const { return num(v.network_address()) == (typename T::N) s.first(p) && v.prefixlen() == s.q; }
};
template <class Net> struct AnyHostF {
    typedef ip_any_iterator<ip_address, ip_address_iterator<ipv4_address>, ip_address_iterator<ipv6_address>> It; static const unsigned W = Tr<Net>::W; HostF<Net> f; Space<W> s{ W };
    It at(Pos p) const { return It(f.at(p)); }
    bool val(const ip_address& v, Pos p) const { return v == ip_address(Tr<Net>::mk((typename Tr<Net>::N) p.e)); }
};
template <class Net> struct AnySubF {
    typedef ip_any_iterator<ip_network, ip_network_iterator<ipv4_network>, ip_network_iterator<ipv6_network>> It; static const unsigned W = Tr<Net>::W; SubF<Net> f; Space<W> s;
    It at(Pos p) const { return It(f.at(p)); }
    bool val(const ip_network& v, Pos p) const { return v.is_v4() == (W == 32) && v == ip_network(*f.at(p)); }
};
