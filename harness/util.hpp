#pragma once
#include <limits>
#include <ipaddress/ipaddress.hpp>
#include "vf.hpp"
#include <string>
using namespace ipaddress;
typedef unsigned __int128 u128;
static const error_code OK = error_code::no_error;
inline u128 nd_u128() { u128 h = nd_u64(); return (h << 64) | nd_u64(); }
// reference conversions: through bytes only
inline uint32_t num(const ipv4_address& a) { const auto& b = a.bytes(); return (uint32_t) b[0] << 24 | (uint32_t) b[1] << 16 | (uint32_t) b[2] << 8 | b[3]; }
inline u128 num(const ipv6_address& a) { u128 r = 0; for (int i = 0; i < 16; ++i) r = r << 8 | a.bytes()[i]; return r; }
inline u128 num(const uint128_t& v) { return (u128) v.upper() << 64 | v.lower(); }
inline uint128_t u128_of(u128 v) { return uint128_t((uint64_t) (v >> 64), (uint64_t) v); }
inline ipv4_address mk4(uint32_t v) { ipv4_address::base_type b{}; for (int i = 0; i < 4; ++i) b[i] = (uint8_t) (v >> (24 - 8 * i)); return ipv4_address(b); }
inline ipv6_address mk6(u128 v) { ipv6_address::base_type b{}; for (int i = 0; i < 16; ++i) b[i] = (uint8_t) (v >> (120 - 8 * i)); return ipv6_address(b); }
// admissible scope id character
inline bool scope_char(char c) { return c != 0 && c != '%' && c != '/' && c != ' ' && !(c >= '\t' && c <= '\r'); }
struct Scope { char s[16]; size_t n; };
inline Scope nd_scope(size_t maxlen = 16) {
    Scope r; r.n = nd_u8(); vf_assume(r.n <= maxlen);
    for (size_t i = 0; i < 16; ++i) { r.s[i] = 0; if (i < maxlen) { char c = (char) nd_u8(); if (i < r.n) { vf_assume(scope_char(c)); r.s[i] = c; } } }
    return r;
}
inline void put_scope(ipv6_address& a, const Scope& s) { char z[17]; for (int i = 0; i < 16; ++i) z[i] = s.s[i]; z[16] = 0; error_code c = OK; a.set_scope_id(z, c); }
inline bool same_scope(const Scope& a, const Scope& b) { bool r = a.n == b.n; for (int i = 0; i < 16; ++i) if (a.s[i] != b.s[i]) r = false; return r; }
// lexicographic on characters, a proper prefix first: -1, 0, 1
inline int cmp_scope(const Scope& a, const Scope& b) {
    for (size_t i = 0; i < 16; ++i) { if (i >= a.n || i >= b.n) return a.n == b.n ? 0 : a.n < b.n ? -1 : 1; if (a.s[i] != b.s[i]) return a.s[i] < b.s[i] ? -1 : 1; }
    return 0;
}
