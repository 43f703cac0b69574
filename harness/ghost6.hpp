// Ghost text: an IPv6 text of any length whose characters are chosen when the parser first asks for them.
// GI is the iterator the parser templates are instantiated with; the engine picks the next symbol at each loop head
// (vf_g.choice) and keeps states with different vf_g.key apart.
#pragma once
#include <limits>
#include <ipaddress/unicode.hpp>
#include "spec_v6.hpp"
extern "C" { struct vf_gstate { uint32_t choice, n, key; } vf_g; }
enum { G_END = 1, G_MARK = 2, G_OTHER = 3, G_BAD = 4 };
enum { R_BEGIN = 0, R_MID = 1, R_SCOPE = 2, R_END = 9 };
static V6Text g_t;               // what has been read
static uint32_t g_empty_ip, g_done1  , g_done2;  // text starts with '%'; end reached in the first and the second pass
static bool g_full, g_early; static uint32_t g_badcode, g_bad; static uint32_t g_wnc;   // case split: texts read to the end with this number of colons / texts not read to the end
struct GI {
    uint32_t r;
    IPADDRESS_CONSTEXPR GI() : r(R_BEGIN) {}
    explicit GI(uint32_t x) : r(x) {}
};
static inline void g_pick() { if (vf_g.choice == 0) { uint32_t c = hv_u8(); vf_assume(c >= 1 && c <= vf_g.n); vf_g.choice = c; } }
// first pass: up to '%' only whether a character is '%'; then the scope id.  second pass: the part before '%'
static inline bool vfghost_more(const GI& it, const GI& end) {
    if (end.r == R_BEGIN) return false;
    bool second = end.r != R_END;
    if (!second && g_done1) return false;
    if (second && g_done2) return false;
    if (it.r == R_BEGIN) { vf_assume(vf_g.choice != G_END); return true; }      // the text, and the part before '%', are not empty here
    g_pick();
    if (vf_g.choice == G_END) {
        if (second) { g_done2 = 1; if (g_early) vf_assume(false); if (g_full) vf_assume(g_t.nc == g_wnc); }
        else { g_done1 = 1; vf_g.choice = 0; vf_g.n = 3; vf_g.key = 100; if (g_badcode) vf_assume(false); }
        return false;
    }
    return true;
}
inline bool operator<(const GI& a, const GI& b) { return vfghost_more(a, b); }
inline bool operator!=(const GI& a, const GI& b) { return vfghost_more(a, b); }
inline bool operator==(const GI& a, const GI& b) { return !vfghost_more(a, b); }
static inline char vfghost_next(GI& it, const GI& end) {
    bool more = vfghost_more(it, end); vf_require(more, "no character is read past the end"); vf_assume(more); g_pick(); vf_assume(vf_g.choice != G_END);
    uint32_t ch = vf_g.choice; vf_g.choice = 0;
    if (ch == G_BAD) { g_bad = 1; it.r = R_MID; return 0; }
    char c = (char) hv_u8(); uint32_t N1 = g_badcode ? 4 : 3;
    if (end.r == R_END) {                            // first pass
        if (it.r == R_SCOPE) {
            if (g_t.ns < 18) g_t.sc[g_t.ns++] = c;
            vf_assume(ch != G_OTHER); vf_g.n = N1; vf_g.key = 3 + g_t.ns;
            return c;
        }
        if (ch == G_MARK) {
            if (it.r == R_BEGIN) g_empty_ip = 1;
            it.r = R_SCOPE; g_t.pct = true; vf_g.n = N1; vf_g.key = 3; return '%';
        }
        vf_assume(c != '%'); it.r = R_MID; vf_g.n = N1; vf_g.key = 2; return c;
    }
    it.r = R_MID; vf_g.n = 3;
    if (ch == G_MARK) {
        g_t.plen[g_t.nc] = (uint8_t) g_t.len; if (g_t.nc < 11) ++g_t.nc; g_t.len = 0;
        vf_g.key = 100 + 32 * g_t.nc; return ':';
    }
    vf_assume(c != ':' && c != '%');
    g_t.ch[g_t.nc][g_t.len] = c; if (g_t.len < 18) ++g_t.len;
    vf_g.key = 100 + 32 * g_t.nc + g_t.len; return c;
}
namespace IPADDRESS_NAMESPACE { namespace internal {
inline char next_char_or_error(GI& it, const GI& end, error_code& error, uint32_t& error_symbol) { char c = vfghost_next(it, end); error = (error_code) (g_bad ? g_badcode : 0); error_symbol = 0; return c; }
} }
static inline void g_reset() { vf_g.choice = 0; vf_g.n = g_badcode ? 4 : 3; vf_g.key = 1; }
