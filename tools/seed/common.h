/* Helpers shared by the demonstrations: frames built by an independent channel encoder. */
#ifndef DEMO_COMMON_H
#define DEMO_COMMON_H
#include <float.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mbelib-neo/mbelib.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#define BAD(...) do { printf("BROKEN: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
typedef struct { mbe_parms cur, prev, enh; } state_t;
static void state_init(state_t* s) { memset(s, 0, sizeof *s); mbe_initMbeParms(&s->cur, &s->prev, &s->enh); }

static uint32_t lcg_(uint32_t* s) { *s = *s * 1664525u + 1013904223u; return *s >> 16; }
static void fill_bits(char* d, int n, uint32_t seed) { for (int i = 0; i < n; i++) d[i] = (char)(lcg_(&seed) & 1); }

/* parameter words with a chosen pitch code */
static void imbe_word(char d[88], int b0, uint32_t seed) {
    if (seed) fill_bits(d, 88, seed); else memset(d, 0, 88);
    for (int i = 0; i < 6; i++) d[i] = (char)(b0 >> (7 - i) & 1);
    d[85] = (char)(b0 >> 1 & 1);
    d[86] = (char)(b0 & 1);
    d[87] = 0;
}
static void ambe2450_word(char d[49], int b0, uint32_t seed) {
    if (seed) fill_bits(d, 49, seed); else memset(d, 0, 49);
    for (int i = 0; i < 4; i++) d[i] = (char)(b0 >> (6 - i) & 1);
    for (int i = 0; i < 3; i++) d[37 + i] = (char)(b0 >> (2 - i) & 1);
}
static void ambe2400_word(char d[49], int b0, uint32_t seed) {
    if (seed) fill_bits(d, 49, seed); else memset(d, 0, 49);
    for (int i = 0; i < 6; i++) d[i] = (char)(b0 >> (6 - i) & 1);
    d[48] = (char)(b0 & 1);
}
static void ambe2450_tone(char d[49], int id, int amp) {
    memset(d, 0, 49);
    for (int i = 0; i < 6; i++) d[i] = 1;
    for (int i = 0; i < 6; i++) d[6 + i] = (char)(amp >> (6 - i) & 1);
    d[44] = (char)(amp & 1); /* u3 bit 4 */
    for (int i = 0; i < 8; i++) d[12 + i] = (char)(id >> (7 - i) & 1);
}

/* channel codes */
static uint32_t golay_enc(uint32_t d) {
    uint32_t r = (d & 0xfff) << 11;
    for (int i = 22; i >= 11; --i) if (r >> i & 1) r ^= 0xC75u << (i - 11);
    return ((d & 0xfff) << 11) | (r & 0x7ff);
}
static uint32_t ham_enc(uint32_t d11, int v7100) {
    static const uint32_t rows[2][4] = {{0x7f08, 0x78e4, 0x66d2, 0x55b1}, {0x7ac8, 0x3d64, 0x1eb2, 0x7591}};
    uint32_t w = (d11 & 0x7ff) << 4;
    for (int r = 0; r < 4; r++) {
        uint32_t m = rows[v7100][r];
        if (__builtin_parity(w & m & ~15u)) w |= m & 15;
    }
    return w;
}
static void scram(uint32_t seed, unsigned char* bit, int n) {
    uint32_t pr = (16 * seed) & 0xffff;
    for (int i = 1; i < n; i++) { pr = (173 * pr + 13849) & 0xffff; bit[i] = (unsigned char)(pr >> 15); }
}
static uint32_t take(const char* d, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 1 | (uint32_t)(d[i] & 1); return v; }
static void ambe_frame(const char d[49], char fr[4][24]) {
    unsigned char pr[128];
    memset(fr, 0, 96);
    uint32_t c0 = golay_enc(take(d, 12)), c1 = golay_enc(take(d + 12, 12));
    for (int j = 0; j < 23; j++) fr[0][j + 1] = (char)(c0 >> j & 1);
    fr[0][0] = (char)__builtin_parity(c0);
    scram(take(d, 12), pr, 128);
    for (int j = 22, k = 1; j >= 0; j--, k++) fr[1][j] = (char)((c1 >> j & 1) ^ pr[k]);
    for (int j = 0; j < 11; j++) fr[2][10 - j] = d[24 + j];
    for (int j = 0; j < 14; j++) fr[3][13 - j] = d[35 + j];
}
static void imbe7200_frame(const char d[88], char fr[8][23]) {
    unsigned char pr[128];
    memset(fr, 0, 8 * 23);
    scram(take(d, 12), pr, 128);
    int k = 1;
    for (int r = 0; r < 4; r++) {
        uint32_t w = golay_enc(take(d + 12 * r, 12));
        for (int j = 22; j >= 0; j--) fr[r][j] = (char)((w >> j & 1) ^ (r ? pr[k++] : 0));
    }
    for (int r = 4; r < 7; r++) {
        uint32_t w = ham_enc(take(d + 48 + 11 * (r - 4), 11), 0);
        for (int j = 14; j >= 0; j--) fr[r][j] = (char)((w >> j & 1) ^ pr[k++]);
    }
    for (int j = 0; j < 7; j++) fr[7][6 - j] = d[81 + j];
}
/* d in 7100 order: 7 + 12 + 12 + 12 + 11 + 11 + 23 bits */
static void imbe7100_frame(const char d[88], char fr[7][24]) {
    unsigned char pr[128];
    memset(fr, 0, 7 * 24);
    uint32_t s = take(d, 7);
    uint32_t c0 = golay_enc(s);
    for (int j = 0; j < 18; j++) fr[0][j + 1] = (char)(c0 >> j & 1);
    scram(s, pr, 128);
    int k = 1;
    uint32_t w = golay_enc(take(d + 7, 12));
    for (int j = 23; j >= 0; j--) fr[1][j] = (char)((j ? (w >> (j - 1) & 1) : 0) ^ pr[k++]);
    for (int r = 2; r < 4; r++) {
        w = golay_enc(take(d + 7 + 12 * (r - 1), 12));
        for (int j = 22; j >= 0; j--) fr[r][j] = (char)((w >> j & 1) ^ pr[k++]);
    }
    for (int r = 4; r < 6; r++) {
        w = ham_enc(take(d + 43 + 11 * (r - 4), 11), 1);
        for (int j = 14; j >= 0; j--) fr[r][j] = (char)((w >> j & 1) ^ pr[k++]);
    }
    for (int j = 0; j < 23; j++) fr[6][22 - j] = d[65 + j];
}

/* parameter-level calls with a plain total */
static char g_tr[512];
static void imbe(state_t* s, const char* d, int errs, float* out) {
    int z = 0, e = errs; memset(g_tr, 'x', sizeof g_tr - 1);
    mbe_processImbe4400Dataf(out, &z, &e, g_tr, d, &s->cur, &s->prev, &s->enh, 3);
}
static void ambe2450(state_t* s, const char* d, int errs, float* out) {
    int z = 0, e = errs; memset(g_tr, 'x', sizeof g_tr - 1);
    mbe_processAmbe2450Dataf(out, &z, &e, g_tr, d, &s->cur, &s->prev, &s->enh, 3);
}
static void ambe2400(state_t* s, const char* d, int errs, float* out) {
    int z = errs > 1 ? 1 : errs, e = errs; memset(g_tr, 'x', sizeof g_tr - 1);
    mbe_processAmbe2400Dataf(out, &z, &e, g_tr, d, &s->cur, &s->prev, &s->enh, 3);
}
static double energy(const float* o) { double e = 0; for (int i = 0; i < 160; i++) e += (double)o[i] * o[i]; return e; }
/* comfort noise is bounded by 0.3 % of full scale in float units */
static int is_comfort(const float* o) {
    int nz = 0;
    for (int i = 0; i < 160; i++) { if (fabsf(o[i]) > 0.003f * 32767.0f / 7.0f * 1.0001f) return 0; nz += fabsf(o[i]) > 1.0f; }
    return nz > 100;
}
static double maxdiff(const float* a, const float* b, int n) { double m = 0; for (int i = 0; i < n; i++) { double d = fabs((double)a[i] - b[i]); if (!(d <= m)) m = d; } return m; }
#endif
