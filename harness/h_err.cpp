// Error reporting: the thrower, the overloads without a code, and results after a failure.
#include "net.hpp"
#include <stdexcept>
// --- the thrower itself: every code, every text, every length
extern "C" { uint32_t vf_exc_kind(); }   // 1 parse_error, 2 logic_error, 3 error, 0 other: dynamic type of the exception being handled
#ifndef VF_NATIVE
// message assembly (streams) is outside: any text
std::string cat_vfstub() { return std::string(); }
extern "C" const void* vf_exc_obj();
#endif
static uint32_t kind_of(uint32_t k) {
    if (k == (uint32_t) error_code::no_error || k > (uint32_t) error_code::wrong_encoding_sequence) return 3;
    switch ((error_code) k) {
    case error_code::invalid_version: case error_code::invalid_prefixlen_diff: case error_code::new_prefix_must_be_shorter: case error_code::new_prefix_must_be_longer:
    case error_code::cannot_set_prefixlen_diff_and_new_prefix: case error_code::not_contained_network: return 2;
    default: return 1;
    }
}
template <typename T> static void raise() {
    uint32_t k = nd_u32(), v = nd_u32(); size_t n = nd_u64(); T t[100];
    for (int i = 0; i < 100; ++i) t[i] = (T) nd_u32();
#ifdef VF_NATIVE
    k %= 40; if (n > 200) n %= 200; T big[200]; for (int i = 0; i < 200; ++i) big[i] = t[i % 100];
    uint32_t kind = 0, c = 0;
    try { raise_error((error_code) k, v, big, n); } catch (const parse_error& e) { kind = 1; c = (uint32_t) e.code(); vf_assert(e.what() != nullptr, "message"); } catch (const logic_error& e) { kind = 2; c = (uint32_t) e.code(); } catch (const error& e) { kind = 3; c = (uint32_t) e.code(); }
#else
    uint32_t kind = 0, c = 0;
    try { raise_error((error_code) k, v, t, n); } catch (...) { kind = vf_exc_kind(); c = (uint32_t) static_cast<const error*>(vf_exc_obj())->code(); }
#endif
    vf_assert(c == k, "the exception carries the code"); vf_assert(kind == kind_of(k), "parse errors are parse_error, the others logic_error");
    vf_cover(n > 100, "long"); vf_cover(n < 100, "short"); vf_cover(kind == 3, "unknown");
}
ROOT(p_raise_c) { raise<char>(); }
ROOT(p_raise_w) { raise<wchar_t>(); }
ROOT(p_raise_8) { raise<char8_t>(); }
ROOT(p_raise_16) { raise<char16_t>(); }
ROOT(p_raise_32) { raise<char32_t>(); }
// --- version-independent operations after a failure: the default of the version, nothing of the operands
static bool is_def(const ip_network& n, bool v) { return n.is_v6() == v && (v ? is_net(n.v6().value(), 0, 128) : is_net(n.v4().value(), 0, 32)); }
ROOT(p_any_failed) {
    auto a = nd_net<ipv4_network>(); auto b = nd_net<ipv6_network>(); uint32_t x = nd_u32(); u128 w = nd_u128(); bool v = nd_u8() & 1, strict = nd_u8() & 1, has = nd_u8() & 1; size_t p = nd_u64(), d = nd_u64(), q = nd_u64();
    error_code c = (error_code) (nd_u8() & 63), e = (error_code) (nd_u8() & 63);
    ip_network f = ip_network::from_address(v ? ip_address(mk6(w)) : ip_address(mk4(x)), c, p, strict); vf_assert(c == OK || is_def(f, v), "from_address"); vf_cover(c != OK && v, "v6"); vf_cover(c != OK && !v, "v4");
    optional<size_t> nq; if (has) nq = q; ip_network y = v ? ip_network(b.n) : ip_network(a.n); ip_network s = y.supernet(e, d, nq); vf_assert(e == OK || is_def(s, v), "supernet");
    uint32_t t = 0; ip_network r; try { r = y.supernet(d, nq); } catch (...) { t = vf_exc_code(); } vf_assert(t == (uint32_t) e && (t != 0 || (r == s && r.prefixlen() == s.prefixlen())), "throwing supernet"); vf_cover(t != 0, "throws");
}
// values that exist without any error do not carry one
ROOT(p_any_default) {
    vf_assert(ip_address() == ip_address(mk4(0)) && ip_address().is_v4() && is_def(ip_network(), false), "defaults");
    vf_assert(num(ipv4_address()) == 0 && num(ipv6_address()) == 0 && is_net(ipv4_network(), 0, 32) && is_net(ipv6_network(), 0, 128), "defaults");
}
