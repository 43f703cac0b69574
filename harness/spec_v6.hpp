// Specification of IPv6 text (RFC 4291, with an optional %scope): the text split at ':' into parts.
#pragma once
#include "spec_v4.hpp"
typedef unsigned __int128 u128;
struct V6Text {
    uint32_t nc, len;            // colons so far, characters since the last colon
    uint8_t plen[12];            // lengths of the completed parts
    char ch[12][20];
    bool pct; uint32_t ns; char sc[20];   // scope text after '%'
};
static inline bool v6_hex(char c, uint32_t& v) {
    if (c >= '0' && c <= '9') { v = c - '0'; return true; }
    if (c >= 'a' && c <= 'f') { v = c - 'a' + 10; return true; }
    if (c >= 'A' && c <= 'F') { v = c - 'A' + 10; return true; }
    return false;
}
static inline bool v6_group(const char* s, uint32_t n, uint32_t& v) {
    if (n < 1 || n > 4) return false;
    v = 0; for (uint32_t i = 0; i < 4; ++i) { uint32_t d = 0; if (i < n) { if (!v6_hex(s[i], d)) return false; v = v << 4 | d; } }
    return true;
}
static inline bool v6_scope_char(char c) { return c != 0 && c != '%' && c != '/' && c != ' ' && !(c >= '\t' && c <= '\r'); }
static inline bool v6_scope_ok(const V6Text& t) {
    if (!t.pct) return true;
    if (t.ns < 1 || t.ns > 16) return false;
    for (uint32_t i = 0; i < 16; ++i) if (i < t.ns && !v6_scope_char(t.sc[i])) return false;
    return true;
}
// the part before '%': valid, and its value
static inline bool v6_value(const V6Text& t, u128& out) {
    if (t.nc < 2 || t.nc > 8) return false;
    const char* last = t.ch[t.nc];
    bool dotted = false; for (uint32_t i = 0; i < 16; ++i) if (i < t.len && last[i] == '.') dotted = true;
    uint32_t v4 = 0; if (dotted && !spec_v4(last, t.len, v4)) return false;
    bool lead = t.plen[0] == 0, trail = t.len == 0; int gap = -1;
    for (uint32_t i = 1; i < t.nc; ++i) if (t.plen[i] == 0) { if (gap >= 0) return false; gap = (int) i; }
    if (gap < 0) { if (lead || trail || t.nc + 1 + dotted != 8) return false; }
    else { if (lead && gap != 1) return false; if (trail && gap != (int) t.nc - 1) return false; }
    u128 hi = 0, lo = 0; uint32_t nh = 0, nl = 0;
    for (uint32_t i = 0; i < t.nc; ++i) {
        if (t.plen[i] == 0) continue;
        uint32_t v; if (!v6_group(t.ch[i], t.plen[i], v)) return false;
        if (gap < 0 || (int) i < gap) { hi = hi << 16 | v; ++nh; } else { lo = lo << 16 | v; ++nl; }
    }
    if (!trail) {
        uint32_t v = 0;
        if (dotted) v = v4; else if (!v6_group(last, t.len, v)) return false;
        uint32_t k = dotted ? 2 : 1;
        if (gap < 0) { hi = hi << (16 * k) | v; nh += k; } else { lo = lo << (16 * k) | v; nl += k; }
    }
    if (gap >= 0 && nh + nl > 7) return false;
    out = (nh == 0 ? 0 : hi << (16 * (8 - nh))) | lo;
    return true;
}
// no continuation of the text read so far can be valid
static inline bool v6_dead(const V6Text& t) {
    if (t.pct && t.ns > 16) return true;
    for (uint32_t i = 0; i < 16; ++i) if (i < t.ns && !v6_scope_char(t.sc[i])) return true;
    if (t.nc > 8 || t.len > 15) return true;
    uint32_t d;
    for (uint32_t i = 0; i < t.nc; ++i) {
        if (t.plen[i] > 4) return true;
        for (uint32_t j = 0; j < 4; ++j) if (j < t.plen[i] && !v6_hex(t.ch[i][j], d)) return true;
        if (i >= 1 && i + 1 < t.nc && t.plen[i] == 0 && t.plen[i + 1] == 0) return true;
    }
    for (uint32_t j = 0; j < 16; ++j) if (j < t.len && t.ch[t.nc][j] != '.' && !v6_hex(t.ch[t.nc][j], d)) return true;
    return false;
}
