// P23, native stand-in for the parts outside the symbolic engine: streams, error messages, whole programs of calls
#include "net.hpp"
#ifdef VF_NATIVE
#include "gentext.hpp"
#include <sstream>
#include <iomanip>
#include <stdexcept>
template <typename F> static void guard(F f) { try { f(); } catch (const error& e) { vf_assert((uint32_t) e.code() != 0 && e.what() != nullptr && strlen(e.what()) < 1000, "a documented error"); } catch (const std::exception&) { vf_assert(false, "only documented errors escape"); } }
template <typename Ch> static void texts(const std::basic_string<Ch>& w) {
    guard([&] { (void) ip_address::parse(w); }); guard([&] { (void) ipv4_address::parse(w); }); guard([&] { (void) ipv6_address::parse(w); }); guard([&] { (void) ip_network::parse(w, false); }); guard([&] { (void) ipv4_network::parse(w); }); guard([&] { (void) ipv6_network::parse(w); });
    guard([&] { ipv6_address a; a.set_scope_id(w); }); for (auto f : { uint128_t::format::decimal, uint128_t::format::octal, uint128_t::format::hexadecimal }) guard([&] { (void) uint128_t::from_string(w, f); });
    Ch arr[24] = {}; for (size_t i = 0; i < 24; ++i) arr[i] = i < w.size() ? w[i] : (Ch) 0; guard([&] { (void) ip_address::parse(arr); }); guard([&] { (void) ip_network::parse(arr); });
    Ch full[5]; for (size_t i = 0; i < 5; ++i) full[i] = i < w.size() ? w[i] : (Ch) '1'; guard([&] { (void) ip_address::parse(full); }); guard([&] { (void) ip_network::parse(full); }); guard([&] { (void) make_fixed_string(full); });
}
static u128 num_of(const uint128_t& v) { return num(v); } static u128 num_of(long long v) { return (u128) v; } 
template <typename S> static typename std::decay<decltype(std::declval<S>().end() - std::declval<S>().begin())>::type index(const S& s) { u128 n = (u128) num_of(s.size()), k = nd_u128() % (n ? n : 1); return (long long) (k & 0x3fffffffffffffff); }
template <typename Net> static void net(const Net& n, const Net& m) {
    std::ostringstream o; o << n << ' ' << std::uppercase << n; 
    size_t d = (size_t) nd_u64(), q = (size_t) nd_u64(); if (nd_u8() & 1) d %= 130; if (nd_u8() & 1) q %= 130; optional<size_t> nq; if (nd_u8() & 1) nq = q;
    guard([&] { (void) n.supernet(d, nq).to_string(); });
    guard([&] { auto s = n.subnets(d, nq); int k = 0; for (auto i = s.begin(); i != s.end() && k < 20; ++i, ++k) (void) i->to_string(); k = 0; for (auto i = s.rbegin(); i != s.rend() && k < 20; ++i, ++k) (void) i->to_string(); if (!s.empty()) { (void) s.front(); (void) s.back(); (void) s[0]; (void) (s.end() - s.begin()); (void) s.at(index(s)); } });
    guard([&] { auto s = n.hosts(); int k = 0; for (auto i = s.begin(); i != s.end() && k < 20; ++i, ++k) (void) i->to_string(); k = 0; for (auto i = s.rbegin(); i != s.rend() && k < 20; ++i, ++k) (void) i->to_string(); if (!s.empty()) { (void) s.front(); (void) s.back(); (void) s[0]; (void) s.at(index(s)); } });
    guard([&] { int k = 0; auto s = n.address_exclude(m); for (auto i = s.begin(); i != s.end() && k < 130; ++i, ++k) (void) i->to_string(); });
    (void) (n < m); (void) n.overlaps(m); (void) n.subnet_of(m); (void) n.is_private(); (void) n.hash(); 
}
ROOT(p_safe_any) {
    char buf[600]; size_t n = nd_u8() & 1 ? gen_v6(buf, 0) : nd_u8() & 1 ? gen_v4(buf) : 0; if (nd_u8() % 3 == 0) n += sprintf(buf + n, "/%u", nd_u8() % 140); n = gen_mutate(buf, n); int rep = nd_u8() % 20 == 0; for (; rep && n < 150;) buf[n++] = nd_u8();
    std::string s(buf, n); size_t at = nd_u16(); uint32_t u = nd_u8() % 4 ? 0 : nd_u32();
    switch (nd_u8() % 5) {
    case 0: texts(s); break;
    case 1: { std::wstring w(s.begin(), s.end()); if (u && n) w[at % n] = (wchar_t) u; texts(w); break; }
    case 2: { std::u8string w(s.begin(), s.end()); for (; u && n; u >>= 8) w[at++ % n] = (char8_t) u; texts(w); break; }
    case 3: { std::u16string w(s.begin(), s.end()); for (; u && n; u >>= 16) w[at++ % n] = (char16_t) u; texts(w); break; }
    default: { std::u32string w(s.begin(), s.end()); if (u && n) w[at % n] = (char32_t) u; texts(w); }
    }
    { std::istringstream i(s); ip_address a; ip_network b; ipv4_address c; ipv6_network d; uint128_t e; i >> a; i.clear(); i.seekg(0); i >> b; i.clear(); i.seekg(0); i >> c; i.clear(); i.seekg(0); i >> d; i.clear(); i.seekg(0); i >> std::hex >> e; }
    auto a = nd_net<ipv4_network>(), b = nd_net<ipv4_network>(); auto x = nd_net<ipv6_network>(), y = nd_net<ipv6_network>();
    switch (nd_u8() & 3) { case 0: net(a.n, b.n); break; case 1: net(x.n, y.n); break; case 2: net(ip_network(a.n), ip_network(b.n)); break; default: net(ip_network(x.n), ip_network(nd_u8() & 1 ? ip_network(y.n) : ip_network(b.n))); }
    uint128_t p = u128_of(nd_u128()), q = u128_of(nd_u128()); uint32_t k = nd_u32(); (void) (p / q); (void) (p % q); (void) (p << (int) k); (void) (p >> k); (void) p.to_string(uint128_t::format::octal); std::ostringstream o; o << std::hex << std::uppercase << p << std::oct << q << std::dec << (p * q);
}
#else
ROOT(p_safe_any) {}
#endif
