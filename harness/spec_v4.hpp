// Specification of IPv4 text: four decimal octets 0..255 without leading zeros, separated by '.'.
#pragma once
#include "vf.hpp"
inline bool spec_v4(const char* s, size_t n, uint32_t& out) {
    size_t i = 0; uint32_t r = 0;
    for (int k = 0; k < 4; ++k) {
        if (k) { if (i >= n || s[i] != '.') return false; ++i; }
        uint32_t v = 0; int d = 0; char f = 0;
        for (; d < 3 && i < n && s[i] >= '0' && s[i] <= '9'; ++d, ++i) { if (d == 0) f = s[i]; v = v * 10 + uint32_t(s[i] - '0'); }
        if (d == 0 || v > 255 || (d > 1 && f == '0')) return false;
        r = (r << 8) | v;
    }
    if (i != n) return false;
    out = r; return true;
}
// canonical text of a 32-bit address; returns the length
inline size_t spec_v4_text(uint32_t a, char* o) {
    size_t n = 0;
    for (int k = 3; k >= 0; --k) {
        uint32_t b = (a >> (8 * k)) & 255;
        if (b >= 100) o[n++] = char('0' + b / 100);
        if (b >= 10) o[n++] = char('0' + b / 10 % 10);
        o[n++] = char('0' + b % 10);
        if (k) o[n++] = '.';
    }
    return n;
}
