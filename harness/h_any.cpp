// P21: the version-independent types.
#include "net.hpp"
#include <cstring>
#ifdef VF_NATIVE
#include "spec_v6.hpp"
#include "gentext.hpp"
#endif
static ip_address other() { bool v = nd_u8() & 1; uint32_t x = nd_u32(); u128 y = nd_u128(); ipv6_address b = mk6(y); Scope s = nd_scope(16); put_scope(b, s); return v ? ip_address(b) : ip_address(mk4(x)); }
template <class X> static bool same_opt(const optional<X>& a, const optional<X>& b) { return a.has_value() == b.has_value() && (!a.has_value() || a.value() == b.value()); }
template <class A> static void preds(const ip_address& y, const A& x) {
    vf_assert(y.is_multicast() == x.is_multicast() && y.is_private() == x.is_private() && y.is_global() == x.is_global() && y.is_reserved() == x.is_reserved() && y.is_loopback() == x.is_loopback()
        && y.is_link_local() == x.is_link_local() && y.is_unspecified() == x.is_unspecified(), "classification of the held address");
    vf_assert(y.size() == x.size() && y.version() == x.version(), "size and version of the held address");
    bool eq = true; for (size_t i = 0; i < x.size(); ++i) if (y.data()[i] != x.bytes()[i]) eq = false; vf_assert(eq, "bytes of the held address");
}
template <class A> static void hashes(const ip_address& y, const A& x) { vf_assert(y.hash() == x.hash() && std::hash<ip_address>{}(y) == x.hash(), "hash of the held address"); }
// how the value came into the object: constructed, assigned over any other, copied, swapped
static ip_address history(ip_address y) {
    switch (vf_param(0)) {
    case 1: { ip_address z = other(); z = y; return z; }
    case 2: { ip_address z = other(), w = y; z.swap(w); return z; }
    case 3: { ip_address z = other(), w(y); z = other(); std::swap(w, z); return z; }
    default: return y;
    }
}
static void is4(const ip_address& y, uint32_t x) {
    ipv4_address a = mk4(x); preds(y, a); hashes(y, a);
    vf_assert(y.is_v4() && !y.is_v6() && y.v4().has_value() && y.v4().value() == a && !y.v6().has_value(), "held version 4");
    vf_assert(!y.is_site_local() && !y.ipv4_mapped().has_value() && !y.sixtofour().has_value() && !y.teredo().has_value() && !y.get_scope_id().has_string(), "no version 6 answers");
    vf_assert(y.to_uint32() == x && num(y.to_uint128()) == x && (uint32_t) y == x && num((uint128_t) y) == x, "number");
}
static void is6(const ip_address& y, u128 x, const ipv6_address& a) {
    preds(y, a); vf_assert(num(a) == x, "reference");
    vf_assert(!y.is_v4() && y.is_v6() && !y.v4().has_value() && y.v6().has_value() && y.v6().value() == a, "held version 6");
    vf_assert(y.is_site_local() == a.is_site_local() && same_opt(y.ipv4_mapped(), a.ipv4_mapped()) && same_opt(y.sixtofour(), a.sixtofour()), "special ranges");
    auto t = y.teredo(), u = a.teredo(); vf_assert(t.has_value() == u.has_value() && (!t.has_value() || (t.value().first == u.value().first && t.value().second == u.value().second)), "teredo");
    auto g = y.v6().value().get_scope_id(), h = a.get_scope_id(), k = y.get_scope_id();
    vf_assert(g == h && k == h, "scope id");
    vf_assert(y.to_uint32() == (uint32_t) x && num(y.to_uint128()) == x && (uint32_t) y == (uint32_t) x && num((uint128_t) y) == x, "number");
}
ROOT(p_any4) { uint32_t x = nd_u32(); is4(history(ip_address(mk4(x))), x); }
static ipv6_address any6(u128 x) {
    Scope s = nd_scope(16); ipv6_address a = mk6(x);
#ifdef VF_NATIVE
    put_scope(a, s);
#else
    for (int i = 0; i < 16; ++i) a._data.scope_id._data[i] = s.s[i]; a._data.scope_id.length = s.n;      // the stored scope id, directly
#endif
    return a;
}
ROOT(p_any6) { u128 x = nd_u128(); ipv6_address a = any6(x); is6(history(ip_address(a)), x, a); }
ROOT(p_any6_hash) {         // for each length of the scope id
    ipv6_address a = any6(nd_u128());
#ifndef VF_NATIVE
    vf_assume(a._data.scope_id.length == vf_param(1)); a._data.scope_id.length = vf_param(1);
#endif
    ip_address y = history(ip_address(a)); hashes(y, a); }
// setting a scope id on the any type: as on the held version 6 address; a version 4 address has none
ROOT(p_any_scope) {
    u128 x = nd_u128(); uint32_t w = nd_u32(); bool v = nd_u8() & 1; char z[8]; for (int i = 0; i < 7; ++i) z[i] = (char) nd_u8(); z[7] = 0;
    ipv6_address a = mk6(x); error_code c = (error_code) (nd_u8() & 31), d = OK; a.set_scope_id(z, d);
    ip_address y = v ? ip_address(mk6(x)) : ip_address(mk4(w)); y.set_scope_id(z, c);
    vf_assert(v ? y == ip_address(a) && c == d : y == ip_address(mk4(w)) && c == OK, "as the held address");
    vf_assert(y.is_v6() == v, "version kept");
}
// construction
ROOT(p_any_make) {
    uint32_t x = nd_u32(); u128 w = nd_u128();
    uint8_t raw[20] = {}; for (int i = 0; i < 16; ++i) raw[i] = (uint8_t) (w >> (120 - 8 * i)); size_t n = vf_param(1);
    uint8_t cut[16]; for (int i = 0; i < 16; ++i) cut[i] = (size_t) i < n ? raw[i] : 0;
    ipv6_address::base_type b6{}; ipv4_address::base_type b4{}; u128 k = 0; for (int i = 0; i < 16; ++i) { b6[i] = cut[i]; if (i < 4) b4[i] = cut[i]; k = k << 8 | cut[i]; }
    switch (vf_param(0)) {
    case 0: is4(ip_address::from_uint(x), x); break;
    case 1: is6(ip_address::from_uint(u128_of(w)), w, mk6(w)); break;
    case 2: is4(ip_address::from_bytes(mk4(x).bytes()), x); break;
    case 3: is6(ip_address::from_bytes(mk6(w).bytes()), w, mk6(w)); break;
    case 4: is4(ip_address(mk4(x).bytes()), x); break;
    case 5: is6(ip_address(mk6(w).bytes()), w, mk6(w)); break;
    case 6: is4(ip_address::from_bytes(raw, n, ip_version::V4), (uint32_t) (k >> 96)); break;
    case 7: is6(ip_address::from_bytes(raw, n, ip_version::V6), k, ipv6_address(b6)); break;
    case 8: is4(ip_address(), 0); break;
    }
}
// networks
static ip_network netother() { auto a = nd_net<ipv4_network>(); auto b = nd_net<ipv6_network>(); return nd_u8() & 1 ? ip_network(a.n) : ip_network(b.n); }
static ip_network nethistory(ip_network y) {
    switch (vf_param(0)) {
    case 1: { ip_network z = netother(); z = y; return z; }
    case 2: { ip_network z = netother(), w = y; z.swap(w); return z; }
    case 3: { ip_network z = netother(), w(y); std::swap(w, z); return z; }
    default: return y;
    }
}
template <class Net> static void isnet(const ip_network& y, const Net& x) {
    vf_assert(y.network_address() == ip_address(x.network_address()) && y.broadcast_address() == ip_address(x.broadcast_address()) && y.netmask() == ip_address(x.netmask()) && y.hostmask() == ip_address(x.hostmask()) && y.prefixlen() == x.prefixlen(), "parts of the held network");
    vf_assert(y.is_multicast() == x.is_multicast() && y.is_private() == x.is_private() && y.is_global() == x.is_global() && y.is_reserved() == x.is_reserved() && y.is_loopback() == x.is_loopback()
        && y.is_link_local() == x.is_link_local() && y.is_unspecified() == x.is_unspecified(), "classification of the held network");
    vf_assert(y.hash() == x.hash() && std::hash<ip_network>{}(y) == x.hash() && y.size() == x.size() && y.version() == x.version() && num(y.addresses_count()) == num(uint128_t(x.addresses_count())), "hash, size, version and count");
}
ROOT(p_anynet4) {
    auto x = nd_net<ipv4_network>(); ip_network y = nethistory(ip_network(x.n)); isnet(y, x.n);
    vf_assert(y.is_v4() && !y.is_v6() && y.v4().has_value() && y.v4().value() == x.n && y.v4().value().prefixlen() == x.p && !y.v6().has_value() && !y.is_site_local(), "held version 4");
}
ROOT(p_anynet6) {
    auto x = nd_net<ipv6_network>(); ip_network y = nethistory(ip_network(x.n)); isnet(y, x.n);
    vf_assert(!y.is_v4() && y.is_v6() && y.v6().has_value() && y.v6().value() == x.n && y.v6().value().prefixlen() == x.p && !y.v4().has_value() && y.is_site_local() == x.n.is_site_local(), "held version 6");
}
// from_address follows the version of the address, whatever the prefix length and mode; same code or same exception
ROOT(p_anynet_from) {
    uint32_t x = nd_u32(); u128 w = nd_u128(); bool v = nd_u8() & 1, strict = nd_u8() & 1; size_t p = nd_u64(); error_code c = (error_code) (nd_u8() & 31), d = OK;
    ip_address y = v ? ip_address(mk6(w)) : ip_address(mk4(x));
    ip_network n = ip_network::from_address(y, c, p, strict); 
    ip_network e = v ? ip_network(ipv6_network::from_address(mk6(w), d, p, strict)) : ip_network(ipv4_network::from_address(mk4(x), d, p, strict));
    vf_assert(c == d, "same code"); if (c == OK) vf_assert(n == e && n.prefixlen() == p && n.is_v6() == v, "same network");
    ip_network q; uint32_t t = 0; try { q = ip_network::from_address(y, p, strict); } catch (...) { t = vf_exc_code(); }
    vf_assert(t == (uint32_t) c, "same code thrown"); if (c == OK) vf_assert(q == e, "same network");
    vf_cover(c == OK && v, "v6"); vf_cover(c == OK && !v, "v4");
}
// operations on two versions
ROOT(p_anynet_mixed) {
    auto a = nd_net<ipv4_network>(); auto b = nd_net<ipv6_network>(); ip_network y(a.n), z(b.n); bool v = nd_u8() & 1; if (v) std::swap(y, z);
    vf_assert(!y.overlaps(z) && !y.subnet_of(z) && !y.supernet_of(z) && !y.contains(z.network_address()) && !(y == z), "no relation between versions");
    error_code c = (error_code) (nd_u8() & 31); auto s = y.address_exclude(z, c); vf_assert(c == error_code::invalid_version && s.empty(), "exclude reports invalid_version");
    uint32_t t = 0; try { auto q = y.address_exclude(z); } catch (...) { t = vf_exc_code(); } vf_assert(t == (uint32_t) error_code::invalid_version, "and throws it");
}
// --- parsing: IPv4 if the text is one, else IPv6 if it is one, else an error
static uint32_t g_calls4, g_calls6, g_code4, g_code6, g_v4, g_bad, g_txt[8]; static u128 g_v6; static const void* g_ptr; static uint64_t g_len;
template <typename Q> static void look(const Q* b, const Q* e, error_code& c) {
    vf_require(c == OK, "the parser starts with a cleared error code");
    bool ok = g_ptr == nullptr || (const void*) b == g_ptr; ok = ok && (uint64_t) (e - b) == g_len;
    if (g_ptr == nullptr && g_len <= 6) for (size_t i = 0; i < 6; ++i) if (i < g_len && ((uint32_t) b[i] & 127) != g_txt[i]) ok = false;
    vf_require(ok, "the given text is parsed");
}
#ifndef VF_NATIVE
#define STUBS(k, Q) ipv4_address ifs4_##k##_vfstub(const Q* b, const Q* e, error_code& c, uint32_t&) { look(b, e, c); ++g_calls4; c = (error_code) g_code4; return g_code4 ? ipv4_address() : mk4(g_v4); } \
    ipv6_address ifs6_##k##_vfstub(const Q* b, const Q* e, error_code& c, uint32_t&) { look(b, e, c); ++g_calls6; c = (error_code) g_code6; return g_code6 ? ipv6_address() : mk6(g_v6); }
STUBS(c, char) STUBS(w, wchar_t) STUBS(8, char8_t) STUBS(16, char16_t) STUBS(32, char32_t)
#endif
static void pick() { g_code4 = nd_u8(); vf_assume(g_code4 < 40); g_code6 = nd_u8(); vf_assume(g_code6 < 40); g_v4 = nd_u32(); g_v6 = nd_u128(); g_bad = 0; }
static void parsed(const ip_address& y, error_code c, const ip_address& z, error_code d) {
    vf_assert(c == d, "both overloads report the same code");
    if (g_bad) { vf_assert(c != OK && y == ip_address(), "a non-ASCII character is rejected"); return; }
    if (g_code4 == 0) vf_assert(c == OK && y.is_v4() && y == ip_address(mk4(g_v4)), "the IPv4 value of the text");
    else if (g_code6 == 0) vf_assert(c == OK && y.is_v6() && y == ip_address(mk6(g_v6)), "the IPv6 value of the text");
    else vf_assert(c != OK && y.is_v4() && y == ip_address(), "an error and the default address");
    if (c == OK) vf_assert(y == z, "both overloads return the same address");
}
template <typename Q> static void both(const Q& s) {
    error_code c = (error_code) (nd_u8() & 63), d = OK; ip_address y = ip_address::parse(s, c), z; try { z = ip_address::parse(s); } catch (...) { d = (error_code) vf_exc_code(); }
#ifdef VF_NATIVE
    // the contract of the parsers is their public behaviour
    error_code c4 = OK, c6 = OK; g_v4 = num(ipv4_address::parse(s, c4)); auto a6 = ipv6_address::parse(s, c6); g_v6 = num(a6); g_code4 = (uint32_t) c4; g_code6 = (uint32_t) c6; if (c4 != OK && c6 == OK && a6.get_scope_id().has_string()) return;
#endif
    parsed(y, c, z, d);
}
#ifdef VF_NATIVE
static size_t gen(char* o, size_t max) { char t[400]; size_t n = nd_u8() & 1 ? gen_v4(t) : gen_v6(t, 1); if (nd_u8() & 1) n = gen_mutate(t, n); if (n > max) n = max; memcpy(o, t, n); return n; }
#endif
template <typename Q> static void view() {
    pick(); Q buf[60]; size_t n = nd_u64(); vf_assume(n <= (size_t) 0x7fffffffffffffff / sizeof(Q));
#ifdef VF_NATIVE
    char t[60]; n = gen(t, 60); for (size_t i = 0; i < n; ++i) buf[i] = (Q) (unsigned char) t[i];
#endif
    g_ptr = buf; g_len = n; both(std::basic_string_view<Q>(buf, n));
}
template <typename Q> static void array() {
    pick(); Q buf[7]; size_t n = 6;
    for (size_t i = 0; i < 7; ++i) buf[i] = (Q) (sizeof(Q) == 1 ? nd_u8() : sizeof(Q) == 2 ? nd_u16() : nd_u32());
#ifdef VF_NATIVE
    { static const char* T[] = {"1::2", "::", "0.0.0.", "::1.2", "12", "a::"}; const char* t = T[nd_u8() % 6]; if (nd_u8() & 3) for (size_t i = 0; i < 7; ++i) buf[i] = (Q) (i <= strlen(t) ? t[i] : 0); }
#endif
    for (size_t i = 6; i-- > 0;) if (buf[i] == 0) n = i;
    if (!std::is_same<Q, char>::value) for (size_t i = 0; i < 6; ++i) if (i < n && ((uint32_t) buf[i] & (sizeof(Q) == 1 ? 0xFF : 0xFFFFFFFF)) > 127) g_bad = 1;
    for (size_t i = 0; i < 6; ++i) g_txt[i] = (uint32_t) buf[i] & 127;
    g_ptr = nullptr; g_len = n; both(buf);
}
ROOT(p_parse_c) { view<char>(); }
ROOT(p_parse_w) { view<wchar_t>(); }
ROOT(p_parse_8) { view<char8_t>(); }
ROOT(p_parse_16) { view<char16_t>(); }
ROOT(p_parse_32) { view<char32_t>(); }
ROOT(p_parse_arr_c) { array<char>(); }
ROOT(p_parse_arr_w) { array<wchar_t>(); }
ROOT(p_parse_arr_8) { array<char8_t>(); }
ROOT(p_parse_arr_16) { array<char16_t>(); }
ROOT(p_parse_arr_32) { array<char32_t>(); }
// network texts
static ipv4_network g_n4; static ipv6_network g_n6; static bool g_strict;
template <typename S> static void nlook(const S& s, bool strict) { bool ok = (g_ptr == nullptr || (const void*) s.data() == g_ptr) && s.size() == g_len && strict == g_strict;
    if (g_ptr == nullptr) for (size_t i = 0; i < 6; ++i) if (i < g_len && ((uint32_t) s.data()[i] & 127) != g_txt[i]) ok = false;
    vf_require(ok, "the given text is parsed"); }
#ifndef VF_NATIVE
#define NSTUBS(k, S) ipv4_network ns4_##k##_vfstub(const S& s, bool t, error_code& c, uint32_t& v) { nlook(s, t); v = 0; c = (error_code) g_code4; return g_code4 ? ipv4_network() : g_n4; } \
    ipv6_network ns6_##k##_vfstub(const S& s, bool t, error_code& c, uint32_t& v) { nlook(s, t); v = 0; c = (error_code) g_code6; return g_code6 ? ipv6_network() : g_n6; }
NSTUBS(c, std::string_view) NSTUBS(w, std::wstring_view) NSTUBS(8, std::u8string_view) NSTUBS(16, std::u16string_view) NSTUBS(32, std::u32string_view) NSTUBS(a, fixed_string<6>)
#endif
static void npick() { g_code4 = nd_u8(); vf_assume(g_code4 < 40); g_code6 = nd_u8(); vf_assume(g_code6 < 40); g_bad = 0;
    g_n4._network_address = mk4(nd_u32()); g_n4._netmask = mk4(nd_u32()); g_n4._prefixlen = nd_u64(); g_n6._network_address = mk6(nd_u128()); g_n6._netmask = mk6(nd_u128()); g_n6._prefixlen = nd_u64(); }
template <typename Q> static void nboth(const Q& s) {
    error_code c = (error_code) (nd_u8() & 63), d = OK; bool df = nd_u8() & 1; g_strict = df || (nd_u8() & 1);
    ip_network y = df ? ip_network::parse(s, c) : ip_network::parse(s, c, g_strict), z; try { z = df ? ip_network::parse(s) : ip_network::parse(s, g_strict); } catch (...) { d = (error_code) vf_exc_code(); }
#ifdef VF_NATIVE
    error_code c4 = OK, c6 = OK; g_n4 = ipv4_network::parse(s, c4, g_strict); g_n6 = ipv6_network::parse(s, c6, g_strict); g_code4 = (uint32_t) c4; g_code6 = (uint32_t) c6;
#endif
    vf_assert(c == d, "both overloads report the same code");
    if (g_bad) { vf_assert(c != OK && y == ip_network(), "a non-ASCII character is rejected"); return; }
    if (g_code4 == 0) vf_assert(c == OK && y.is_v4() && y == ip_network(g_n4), "the IPv4 network of the text");
    else if (g_code6 == 0) vf_assert(c == OK && y.is_v6() && y == ip_network(g_n6), "the IPv6 network of the text");
    else vf_assert(c != OK && y == ip_network(), "an error and the default network");
    if (c == OK) vf_assert(y == z, "both overloads return the same network");
}
template <typename Q> static void nview() {
    npick(); Q buf[60]; size_t n = nd_u64(); vf_assume(n <= (size_t) 0x7fffffffffffffff / sizeof(Q));
#ifdef VF_NATIVE
    char t[60]; n = gen(t, 54); if (nd_u8() & 1) n += (size_t) sprintf(t + n, "/%u", nd_u8() % 140); for (size_t i = 0; i < n; ++i) buf[i] = (Q) (unsigned char) t[i];
#endif
    g_ptr = buf; g_len = n; nboth(std::basic_string_view<Q>(buf, n));
}
template <typename Q> static void narray() {
    npick(); Q buf[7]; size_t n = 6;
    for (size_t i = 0; i < 7; ++i) buf[i] = (Q) (sizeof(Q) == 1 ? nd_u8() : sizeof(Q) == 2 ? nd_u16() : nd_u32());
#ifdef VF_NATIVE
    { static const char* T[] = {"1::2", "::/0", "a::/9", "::1.2", "12/7", "a::"}; const char* t = T[nd_u8() % 6]; if (nd_u8() & 3) for (size_t i = 0; i < 7; ++i) buf[i] = (Q) (i <= strlen(t) ? t[i] : 0); }
#endif
    for (size_t i = 6; i-- > 0;) if (buf[i] == 0) n = i;
    if (!std::is_same<Q, char>::value) for (size_t i = 0; i < 6; ++i) if (i < n && ((uint32_t) buf[i] & (sizeof(Q) == 1 ? 0xFF : 0xFFFFFFFF)) > 127) g_bad = 1;
    for (size_t i = 0; i < 6; ++i) g_txt[i] = (uint32_t) buf[i] & 127;
    g_ptr = nullptr; g_len = n; nboth(buf);
}
ROOT(p_nparse_c) { nview<char>(); }
ROOT(p_nparse_w) { nview<wchar_t>(); }
ROOT(p_nparse_8) { nview<char8_t>(); }
ROOT(p_nparse_16) { nview<char16_t>(); }
ROOT(p_nparse_32) { nview<char32_t>(); }
ROOT(p_nparse_arr_c) { narray<char>(); }
ROOT(p_nparse_arr_w) { narray<wchar_t>(); }
ROOT(p_nparse_arr_8) { narray<char8_t>(); }
ROOT(p_nparse_arr_16) { narray<char16_t>(); }
ROOT(p_nparse_arr_32) { narray<char32_t>(); }
