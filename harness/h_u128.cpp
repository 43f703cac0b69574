// P17: 128-bit integer arithmetic against the mathematical result modulo 2^128
#include "util.hpp"
typedef uint128_t U;
static inline U nd_U() { return U(nd_u64(), nd_u64()); }
// reference product: the distributive expansion over 32-bit halves of the low words, and over words (lemma mul_expand: equal to x*y)
static inline u128 mulspec(u128 x, u128 y) {
    uint64_t xl = (uint64_t) x, yl = (uint64_t) y, xh = (uint64_t) (x >> 64), yh = (uint64_t) (y >> 64);
    uint64_t a = (uint32_t) xl, b = xl >> 32, c = (uint32_t) yl, d = yl >> 32;
    return (u128) (a * c) + ((u128) (b * c) << 32) + ((u128) (a * d) << 32) + ((u128) (b * d) << 64) + ((u128) (xh * yl) << 64) + ((u128) (xl * yh) << 64);
}
static inline u128 sh(u128 x, uint64_t n, bool left) { return n >= 128 ? 0 : left ? x << n : x >> n; }
// contract of uint128_t::divide: floor of the quotient, 0 for a zero divisor (discharged below, see the p_div roots)
U divide_vfstub(const U* a, const U* b) { u128 x = num(*a), y = num(*b); return y == 0 ? U(0, 0) : u128_of(x / y); }
static bool eqU(const U& a, u128 v) { return a.upper() == (uint64_t) (v >> 64) && a.lower() == (uint64_t) v; }

ROOT(p_addsub) {
    U a = nd_U(), b = nd_U(); u128 x = num(a), y = num(b);
    VF_POST(eqU(a + b, x + y)); VF_POST(eqU(a - b, x - y)); VF_POST(eqU(-a, -x)); VF_POST(eqU(+a, x)); VF_POST(eqU(~a, ~x));
    VF_POST(eqU(a & b, x & y)); VF_POST(eqU(a | b, x | y)); VF_POST(eqU(a ^ b, x ^ y));
    U c = a; U& r1 = (c += b); VF_POST(&r1 == &c && eqU(c, x + y)); c = a; U& r2 = (c -= b); VF_POST(&r2 == &c && eqU(c, x - y));
    c = a; c &= b; VF_POST(eqU(c, x & y)); c = a; c |= b; VF_POST(eqU(c, x | y)); c = a; c ^= b; VF_POST(eqU(c, x ^ y));
    c = a; U& r3 = ++c; VF_POST(&r3 == &c && eqU(c, x + 1)); c = a; U& r4 = --c; VF_POST(&r4 == &c && eqU(c, x - 1));
    c = a; VF_POST(eqU(c++, x) && eqU(c, x + 1)); c = a; VF_POST(eqU(c--, x) && eqU(c, x - 1));
    c = a; c += c; VF_POST(eqU(c, x + x)); c = a; c -= c; VF_POST(eqU(c, 0)); c = a; c ^= c; VF_POST(eqU(c, 0));
    VF_POST(!a == (x == 0)); VF_POST((a && b) == (x != 0 && y != 0)); VF_POST((a || b) == (x != 0 || y != 0)); VF_POST((bool) a == (x != 0));
    VF_POST(eqU(a, x) && eqU(b, y));
    U d; VF_POST(eqU(d, 0)); d = a; VF_POST(eqU(d, x)); U e(b); VF_POST(eqU(e, y));
}
ROOT(p_mul) {
    U a = nd_U(), b = nd_U(); u128 x = num(a), y = num(b);
    VF_POST(eqU(a * b, mulspec(x, y))); U c = a; U& r = (c *= b); VF_POST(&r == &c && eqU(c, mulspec(x, y)));
    c = a; c *= c; VF_POST(eqU(c, mulspec(x, x)));
#ifdef VF_NATIVE
    VF_POST(eqU(a * b, x * y));
#endif
}
template <class T> static void shifts(T n, bool in, uint64_t m) {
    U a = nd_U(); u128 x = num(a);
    VF_POST(eqU(a << n, in ? sh(x, m, true) : 0)); VF_POST(eqU(a >> n, in ? sh(x, m, false) : 0));
    U c = a; U& r1 = (c <<= n); VF_POST(&r1 == &c && eqU(c, in ? sh(x, m, true) : 0)); c = a; U& r2 = (c >>= n); VF_POST(&r2 == &c && eqU(c, in ? sh(x, m, false) : 0));
}
// negative amounts are outside the property: only unsigned values of each type
ROOT(p_shift_s) {
    { int n = (int) nd_u32(); vf_assume(n >= 0); shifts<int>(n, true, (uint64_t) n); }
    { long n = (long) nd_u64(); vf_assume(n >= 0); shifts<long>(n, true, (uint64_t) n); }
    { long long n = (long long) nd_u64(); vf_assume(n >= 0); shifts<long long>(n, true, (uint64_t) n); }
    { short n = (short) nd_u16(); vf_assume(n >= 0); shifts<short>(n, true, (uint64_t) n); }
    { signed char n = (signed char) nd_u8(); vf_assume(n >= 0); shifts<signed char>(n, true, (uint64_t) n); }
    { char n = (char) nd_u8(); vf_assume(n >= 0); shifts<char>(n, true, (uint64_t) n); }
}
ROOT(p_shift_u) {
    { unsigned n = nd_u32(); shifts<unsigned>(n, true, n); }
    { unsigned long n = nd_u64(); shifts<unsigned long>(n, true, n); }
    { unsigned long long n = nd_u64(); shifts<unsigned long long>(n, true, n); }
    { unsigned short n = nd_u16(); shifts<unsigned short>(n, true, n); }
    { unsigned char n = nd_u8(); shifts<unsigned char>(n, true, n); }
    { bool n = nd_u8() & 1; shifts<bool>(n, true, n); }
}
template <class T> static void mixed(T v) {
    u128 y = (u128) (__int128) v; U a = nd_U(); u128 x = num(a);
    VF_POST(eqU(U(v), y));
    VF_POST(eqU(a + v, x + y) && eqU(v + a, y + x)); VF_POST(eqU(a - v, x - y)); VF_POST(eqU(v - a, y - x));
    VF_POST(eqU(a & v, x & y) && eqU(v & a, x & y)); VF_POST(eqU(a | v, x | y) && eqU(v | a, x | y)); VF_POST(eqU(a ^ v, x ^ y) && eqU(v ^ a, x ^ y));
    VF_POST(eqU(a * v, mulspec(x, y)) && eqU(v * a, mulspec(y, x)));
    U q = a / v, r = a % v; VF_POST(eqU(q, y == 0 ? 0 : x / y)); VF_POST(eqU(r, x - mulspec(num(q), y)));
    U q2 = v / a, r2 = v % a; VF_POST(eqU(q2, x == 0 ? 0 : y / x)); VF_POST(eqU(r2, y - mulspec(num(q2), x)));
    U c = a; c += v; VF_POST(eqU(c, x + y)); c = a; c -= v; VF_POST(eqU(c, x - y)); c = a; c &= v; VF_POST(eqU(c, x & y)); c = a; c |= v; VF_POST(eqU(c, x | y)); c = a; c ^= v; VF_POST(eqU(c, x ^ y));
    c = a; c *= v; VF_POST(eqU(c, mulspec(x, y))); c = a; c /= v; VF_POST(eqU(c, num(q))); c = a; c %= v; VF_POST(eqU(c, num(r)));
    VF_POST((a == v) == (x == y) && (v == a) == (x == y) && (a != v) == (x != y) && (v != a) == (x != y));
    VF_POST((a < v) == (x < y) && (v < a) == (y < x) && (a > v) == (x > y) && (v > a) == (y > x) && (a <= v) == (x <= y) && (v <= a) == (y <= x) && (a >= v) == (x >= y) && (v >= a) == (y >= x));
    VF_POST((T) a == (T) x);
}
ROOT(p_mixed_int) { mixed<int>((int) nd_u32()); }
ROOT(p_mixed_uint) { mixed<unsigned>(nd_u32()); }
ROOT(p_mixed_long) { mixed<long>((long) nd_u64()); }
ROOT(p_mixed_ulong) { mixed<unsigned long>(nd_u64()); }
ROOT(p_mixed_llong) { mixed<long long>((long long) nd_u64()); }
ROOT(p_mixed_ullong) { mixed<unsigned long long>(nd_u64()); }
ROOT(p_mixed_short) { mixed<short>((short) nd_u16()); }
ROOT(p_mixed_ushort) { mixed<unsigned short>(nd_u16()); }
ROOT(p_mixed_schar) { mixed<signed char>((signed char) nd_u8()); }
ROOT(p_mixed_uchar) { mixed<unsigned char>(nd_u8()); }
ROOT(p_mixed_char) { mixed<char>((char) nd_u8()); }
ROOT(p_divmod) {   // against the contract of divide
    U a = nd_U(), b = nd_U(); u128 x = num(a), y = num(b);
    U q = a / b, r = a % b; VF_POST(eqU(q, y == 0 ? 0 : x / y)); VF_POST(eqU(r, x - mulspec(num(q), y)));
    U c = a; U& r1 = (c /= b); VF_POST(&r1 == &c && eqU(c, num(q))); c = a; U& r2 = (c %= b); VF_POST(&r2 == &c && eqU(c, num(r)));
}
// --- divide itself
ROOT(p_div_zero) { U a = nd_U(); VF_POST(eqU(a / U(0, 0), 0)); VF_POST(eqU(a % U(0, 0), num(a))); }
ROOT(p_div_word) { uint64_t x = nd_u64(), y = nd_u64(); vf_assume(y != 0); VF_POST(eqU(U(0, x) / U(0, y), x / y)); }
ROOT(p_div_small) { U a = nd_U(), b = nd_U(); u128 x = num(a), y = num(b); vf_assume(y != 0 && x <= y); VF_POST(eqU(a / b, x == y ? 1 : 0)); }
ROOT(p_div_pow2) { unsigned k = (unsigned) vf_param(0); U a = nd_U(); u128 x = num(a); VF_POST(eqU(a / u128_of((u128) 1 << k), x >> k)); }
ROOT(p_div_const) { uint64_t d = vf_param(0); U a = nd_U(); u128 x = num(a); u128 q = num(a / U(0, d)); vf_assert((q >> 64) <= ~0ull / d && q * d <= x && x - q * d < d, "quotient of a constant"); }
// every operand: bounded stand-in by structured random operands
ROOT(p_div_any) {
    U a, b;
    switch (nd_u8() & 7) {
        case 0: a = U(nd_u64(), nd_u64()); b = U(0, nd_u64()); break;
        case 1: a = U(nd_u64(), nd_u64()); b = U(nd_u64(), nd_u64()); break;
        case 2: a = U(nd_u64(), nd_u64()); b = U(nd_u32(), nd_u64()); break;
        case 3: { u128 d = nd_u128() >> (nd_u8() & 127), q = nd_u128() >> (nd_u8() & 127), r = nd_u8(); b = u128_of(d); a = u128_of(d * q + r - 2); break; }
        case 4: { u128 d = ((u128) nd_u32() << 64 | (u128) nd_u32() << 32 | nd_u32()); b = u128_of(d); a = u128_of(nd_u128()); break; }
        case 5: { u128 d = nd_u64(); u128 t = (u128) nd_u32() << 96 | (u128) nd_u32() << 64 | (u128) nd_u32() << 32 | nd_u32(); b = u128_of(d); a = u128_of(t); break; }
        case 6: { uint32_t e = nd_u32(), f = nd_u32(); b = u128_of(((u128) e << 32 | f) << (nd_u8() & 63)); a = u128_of(num(b) * nd_u32() - (nd_u8() & 3)); break; }
        default: { u128 t = (u128) nd_u32() << 96 | (u128) nd_u32() << 64 | (u128) nd_u32() << 32 | nd_u32(); u128 d = (u128) nd_u32() << 96 | (u128) nd_u32() << 64 | (u128) nd_u32() << 32 | nd_u32(); a = u128_of(t); b = u128_of(d >> (nd_u8() & 96)); break; }
    }
    u128 x = num(a), y = num(b);
    VF_POST(eqU(a / b, y ? x / y : 0)); VF_POST(eqU(a % b, y ? x % y : x));
    VF_POST(eqU(a * b, x * y));
}
