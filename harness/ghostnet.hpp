// Ghost texts for network parsing: texts of any length whose characters are chosen while they are read.
// GN walks a whole network text; a position is a class: where it is relative to the first '/', and what comes next.
// GM walks the text of a mask.
#pragma once
#include <limits>
#include <ipaddress/unicode.hpp>
#include "spec_v4.hpp"
extern "C" { struct vf_gstate { uint32_t choice, n, key; } vf_g; }
enum { N_OTHER = 1, N_SLASH = 2, N_BAD = 3, N_END = 4 };                 // what comes next
enum { K_BEGIN = 0, K_BEFORE = 8, K_MASK = 16, K_AFTER = 24 };           // first position / before the first '/' / just after it / later
enum { P_END = 64 };
static uint32_t g_slashes, g_bad, g_badcode, g_atend, g_empty_mask, g_first;
struct GN { uint32_t r; IPADDRESS_CONSTEXPR GN() : r(0) {} IPADDRESS_CONSTEXPR explicit GN(uint32_t x) : r(x) {} };
static inline bool gn_unique(uint32_t r) { return r == P_END || (r & 24) == K_BEGIN || (r & 24) == K_MASK || (r == (K_BEFORE | N_SLASH)); }
static inline bool vfghost_eq(const GN& a, const GN& b) {
    if (a.r != b.r) return false;
    if (gn_unique(a.r)) return true;
    return hv_u8() & 1;                              // two positions of one class: unknown
}
static inline bool vfghost_less(const GN& a, const GN& b) { vf_require(b.r == P_END, "positions are compared with the end"); return a.r != P_END; }
inline bool operator<(const GN& a, const GN& b) { return vfghost_less(a, b); }
inline bool operator==(const GN& a, const GN& b) { return vfghost_eq(a, b); }
inline bool operator!=(const GN& a, const GN& b) { return !vfghost_eq(a, b); }
static inline void g_pick() { if (vf_g.choice == 0) { uint32_t c = hv_u8(); vf_assume(c >= 1 && c <= vf_g.n); vf_g.choice = c; } }
static inline char vfghost_next(GN& it, const GN& end) {
    vf_require(it.r != P_END && end.r == P_END, "no character is read past the end"); vf_assume(it.r != P_END);
    uint32_t kind = it.r & 24, what = it.r & 7;
    g_pick(); uint32_t next = vf_g.choice; vf_g.choice = 0;
    char c = (char) hv_u8();
    if (what == N_SLASH) { c = '/'; if (kind == K_BEGIN || kind == K_BEFORE) { kind = K_MASK; } else kind = K_AFTER; ++g_slashes; if (g_slashes > 2) g_slashes = 2; }
    else { vf_assume(c != '/'); if (what == N_BAD) { g_bad = 1; c = 0; } kind = kind == K_BEGIN || kind == K_BEFORE ? K_BEFORE : K_AFTER; }
    if (next == N_END) { if (kind == K_MASK) g_empty_mask = 1; it.r = P_END; g_atend = 1; }
    else it.r = kind | next;
    vf_g.key = it.r + 128 * g_slashes; return c;
}
// the text as the parsers take it
struct GStr {
    GN first; uint64_t n;
    GN data() const { return first; }
    uint64_t size() const { return n; }
};
static uint64_t g_size;
inline GN operator+(const GN& a, uint64_t n) { vf_require(a.r == g_first && n == g_size, "the end of the text"); return GN(P_END); }
static inline GStr g_text() {
    vf_g.choice = 0; vf_g.n = 4; uint32_t c = (uint32_t) vf_param(0);   // case split: what the text starts with
    g_first = c == N_END ? P_END : K_BEGIN | c; vf_g.key = g_first;
    if (c == N_END) g_atend = 1;
    g_badcode = nd_u8(); vf_assume(g_badcode == (uint32_t) ipaddress::error_code::unexpected_symbol || g_badcode == (uint32_t) ipaddress::error_code::wrong_encoding_sequence);
    GStr s; s.first = GN(g_first); s.n = nd_u64(); vf_assume((s.n == 0) == (c == N_END)); g_size = s.n; return s;
}
// --- masks: digits, something else, a bad character, the end
enum { M_END = 11, M_OTHER = 12, M_BAD = 13 };
static uint32_t g_val, g_digits, g_other, g_W;
struct GM { uint32_t r; IPADDRESS_CONSTEXPR GM() : r(0) {} IPADDRESS_CONSTEXPR explicit GM(uint32_t x) : r(x) {} };   // 0: first, 1: later, 9: end
static inline bool vfghost_more(const GM& it, const GM& end) {
    vf_require(end.r == 9, "positions are compared with the end");
    if (it.r == 9) return false;
    if (it.r == 0 && (g_digits || g_other || g_bad)) return true;
    if (g_atend) return false;
    g_pick(); if (vf_g.choice == M_END) { g_atend = 1; return false; }
    return true;
}
inline bool operator<(const GM& a, const GM& b) { return vfghost_more(a, b); }
inline bool operator!=(const GM& a, const GM& b) { return vfghost_more(a, b); }
inline bool operator==(const GM& a, const GM& b) { return !vfghost_more(a, b); }
static inline char vfghost_next(GM& it, const GM& end) {
    bool more = vfghost_more(it, end); vf_require(more, "no character is read past the end"); vf_assume(more); vf_require(it.r != 0 || !(g_digits || g_other || g_bad), "a mask is read once");
    uint32_t ch = vf_g.choice; vf_g.choice = 0; it.r = 1;
    if (ch == M_BAD) { g_bad = 1; vf_g.key = 5000; return 0; }
    if (ch == M_OTHER) { char c = (char) hv_u8(); vf_assume(!(c >= '0' && c <= '9')); g_other = 1; vf_g.key = 5001; return c; }
    uint32_t d = ch - 1; g_digits = 1; if (!g_other && g_val <= g_W) g_val = g_val * 10 + d;      // beyond W the number stays beyond W
    if (!g_other) vf_g.key = g_val > g_W ? 4999 : 1 + g_val; return (char) ('0' + d);
}
namespace IPADDRESS_NAMESPACE { namespace internal {
inline char next_char_or_error(GN& it, const GN& end, error_code& error, uint32_t& error_symbol) { char c = vfghost_next(it, end); error = (error_code) (g_bad ? g_badcode : 0); error_symbol = 0; return c; }
inline char next_char_or_error(GM& it, const GM& end, error_code& error, uint32_t& error_symbol) { char c = vfghost_next(it, end); error = (error_code) (g_bad ? g_badcode : 0); error_symbol = 0; return c; }
} }
