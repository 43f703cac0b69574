#include "util.hpp"
ROOT(p_v4_num) {
    uint32_t u = nd_u32();
    auto a = ipv4_address::from_uint(u);
    vf_assert(num(a) == u, "from_uint is big-endian");
    vf_assert(a.to_uint() == u, "to_uint(from_uint(u)) == u");
    vf_assert((uint32_t) a == u, "conversion operator");
    auto b = mk4(nd_u32());
    vf_assert(b.to_uint() == num(b), "to_uint is big-endian");
    vf_assert(ipv4_address::from_uint(b.to_uint()) == b, "from_uint(to_uint(a)) == a");
    vf_assert(ipv4_address::from_bytes(b.bytes()) == b, "from_bytes(bytes())");
    uint8_t raw[8]; for (int i = 0; i < 8; ++i) raw[i] = nd_u8();
    size_t n = nd_u64();
    vf_assume(n <= 4 || n < 4096);
    uint8_t raw2[4] = { raw[0], raw[1], raw[2], raw[3] };
    auto c = ipv4_address::from_bytes(raw2, n);
    uint32_t e = 0; for (int i = 0; i < 4; ++i) e = e << 8 | ((size_t) i < n ? raw[i] : 0);
    vf_assert(num(c) == e, "from_bytes(p, n): first n bytes, zero filled, never more than 4");
    vf_assert(b.size() == 4 && b.version() == ip_version::V4, "size and version");
    bool eq = true; for (int i = 0; i < 4; ++i) if (b.data()[i] != b.bytes()[i]) eq = false;
    vf_assert(eq, "data() is bytes()");
}
ROOT(p_v6_num) {
    u128 u = nd_u128();
    auto a = ipv6_address::from_uint(u128_of(u));
    vf_assert(num(a) == u, "from_uint is big-endian");
    vf_assert(num(a.to_uint()) == u, "to_uint(from_uint(u)) == u");
    vf_assert(num((uint128_t) a) == u, "conversion operator");
    auto b = mk6(nd_u128());
    vf_assert(num(b.to_uint()) == num(b), "to_uint is big-endian");
    vf_assert(ipv6_address::from_uint(b.to_uint()) == b, "from_uint(to_uint(a)) == a");
    vf_assert(ipv6_address::from_bytes(b.bytes()) == b, "from_bytes(bytes())");
    uint8_t raw[16]; for (int i = 0; i < 16; ++i) raw[i] = nd_u8();
    size_t n = nd_u64(); 
    vf_assume(n < 4096);
    auto c = ipv6_address::from_bytes(raw, n);
    u128 e = 0; for (int i = 0; i < 16; ++i) e = e << 8 | ((size_t) i < n ? raw[i] : 0);
    vf_assert(num(c) == e, "from_bytes(p, n): first n bytes, zero filled, never more than 16");
    vf_assert(!c.get_scope_id().has_string(), "no scope from bytes");
    vf_assert(b.size() == 16 && b.version() == ip_version::V6, "size and version");
    bool eq = true; for (int i = 0; i < 16; ++i) if (b.data()[i] != b.bytes()[i]) eq = false;
    vf_assert(eq, "data() is bytes()");
}
ROOT(p_special) {
    uint32_t v = nd_u32(); u128 u = nd_u128();
    auto a = mk6(u);
    auto m = a.ipv4_mapped();
    bool em = (u >> 32) == 0xffff;
    vf_assert(m.has_value() == em, "ipv4_mapped exactly on ::ffff:0:0/96");
    vf_assert(!em || num(m.value()) == (uint32_t) u, "mapped value is the low 32 bits");
    auto s = a.sixtofour();
    bool es = (u >> 112) == 0x2002;
    vf_assert(s.has_value() == es, "sixtofour exactly on 2002::/16");
    vf_assert(!es || num(s.value()) == (uint32_t) (u >> 80), "6to4 value is bits 16..47");
    auto t = a.teredo();
    bool et = (u >> 96) == 0x20010000;
    vf_assert(t.has_value() == et, "teredo exactly on 2001::/32");
    vf_assert(!et || (num(t.value().first) == (uint32_t) (u >> 64) && num(t.value().second) == ~(uint32_t) u), "teredo server and client");
    vf_cover(em, "mapped"); vf_cover(es, "6to4"); vf_cover(et, "teredo");
    (void) v;
}
