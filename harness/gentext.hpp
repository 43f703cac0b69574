// structured random texts for the native search
#pragma once
#include <cstring>
#include <cstdlib>
#include <cstdio>
static size_t gen_v4(char* o) { size_t n = 0; for (int k = 0; k < 4; ++k) { unsigned v = nd_u8(); switch (nd_u8() % 6) { case 0: v = nd_u8() % 10; break; case 1: v = 249 + nd_u8() % 9; break; case 2: v = 99 + nd_u8() % 3; break; default: break; } n += sprintf(o + n, nd_u8() % 40 ? "%u" : "0%u", v); if (k < 3) o[n++] = '.'; } return n; }
static size_t gen_grp(char* o) { static const char* D = "0123456789abcdefABCDEF"; size_t n = 1 + nd_u8() % 4; if (nd_u8() % 60 == 0) n = 5; if (nd_u8() % 60 == 0) n = 0; for (size_t i = 0; i < n; ++i) o[i] = nd_u8() % 4 == 0 ? '0' : D[nd_u8() % 22]; return n; }
static size_t gen_mutate(char* o, size_t n) {
    static const char M[] = ":.%/0g \0f1";
    int k = nd_u8() % 8; if (k > 3) return n; 
    for (; k > 0; --k) { size_t p = n ? nd_u8() % n : 0; switch (nd_u8() % 4) {
        case 0: if (n) { memmove(o + p, o + p + 1, n - p - 1); --n; } break;
        case 1: memmove(o + p + 1, o + p, n - p); o[p] = M[nd_u8() % 10]; ++n; break;
        case 2: if (n) o[p] = M[nd_u8() % 10]; break;
        default: if (n) o[p] = (char) nd_u8(); } }
    return n;
}
static size_t gen_scope(char* o) { size_t n = 0; o[n++] = '%'; size_t k = nd_u8() % 19; for (size_t i = 0; i < k; ++i) { char c = (char) nd_u8(); if (nd_u8() % 30) { if (c <= ' ' || c == '%' || c == '/') c = 'x'; } o[n++] = c; } return n; }
static size_t gen_v6(char* o, int plain) {
    size_t n = 0; int total = nd_u8() % 10 == 0 ? (int) (nd_u8() % 12) : 8; int dot = nd_u8() % 3 == 0;
    int gap = nd_u8() % 3 ? (int) (nd_u8() % 9) : -1; int drop = gap >= 0 ? 1 + nd_u8() % 8 : 0; if (nd_u8() % 20 == 0) drop = 0;
    int groups = total - drop - (dot ? 2 : 0); if (groups < 0) groups = 0; if (gap > groups) gap = groups;
    for (int i = 0; i < groups; ++i) { if (i == gap) { o[n++] = ':'; if (i == 0) o[n++] = ':'; } n += gen_grp(o + n); if (i + 1 < groups || dot || gap == groups) o[n++] = ':'; }
    if (gap == groups) { o[n++] = ':'; if (groups == 0) o[n++] = ':'; }
    if (dot) n += gen_v4(o + n);
    if (!plain && nd_u8() % 3 == 0) n += gen_scope(o + n);
    return plain ? n : gen_mutate(o, n);
}
