// Independent model of the channel layer: codes defined by their generator polynomial / check matrix
// and decoded as "the unique codeword within distance t", never by the library's syndrome tables.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {

inline int popcnt(uint32_t x) { return __builtin_popcount(x); }

// (23,12) Golay, g(x) = x^11+x^10+x^6+x^5+x^4+x^2+1 (0xC75), data in bits 22..11, parity in bits 10..0
inline uint32_t golay_encode(uint32_t d) {
    uint32_t r = (d & 0xfff) << 11;
    for (int i = 22; i >= 11; --i)
        if (r >> i & 1) r ^= 0xC75u << (i - 11);
    return ((d & 0xfff) << 11) | (r & 0x7ff);
}
// nearest codeword's data for all 2^23 words: the code is perfect, so every word lies in exactly one ball
struct GolayTable {
    std::vector<uint16_t> data;
    std::vector<uint32_t> pattern;  // the 2048 error patterns of at most three bits
    bool perfect = true;
    GolayTable() : data(1u << 23, 0xffff) {
        std::vector<uint32_t> pat{0};
        for (int a = 0; a < 23; ++a) {
            pat.push_back(1u << a);
            for (int b = 0; b < a; ++b) {
                pat.push_back(1u << a | 1u << b);
                for (int c = 0; c < b; ++c) pat.push_back(1u << a | 1u << b | 1u << c);
            }
        }
        for (uint32_t d = 0; d < 4096; ++d) {
            uint32_t c = golay_encode(d);
            for (uint32_t e : pat) {
                if (data[c ^ e] != 0xffff) perfect = false;
                data[c ^ e] = (uint16_t)d;
            }
        }
        for (uint16_t v : data) if (v == 0xffff) perfect = false;
        pattern = pat;
    }
};
inline const GolayTable& golay() { static const GolayTable t; return t; }

// (15,11) Hamming codes, word bit i = array element i, data bits 14..4, parity bits 3..0
struct HammingTable {
    uint16_t cw[1 << 15];
    bool perfect = true;
    uint32_t enc[2048];
    explicit HammingTable(const uint32_t rows[4]) {
        // parity bit p is the mod-2 sum of the data bits of its check row
        for (int d = 0; d < 2048; ++d) {
            uint32_t w = (uint32_t)d << 4;
            for (int r = 0; r < 4; ++r) {
                uint32_t pbit = rows[r] & 15;  // each row contains exactly one parity position
                if (popcnt(w & rows[r] & ~15u) & 1) w |= pbit;
            }
            enc[d] = w;
        }
        memset(cw, 0xff, sizeof cw);
        for (int d = 0; d < 2048; ++d)
            for (int e = -1; e < 15; ++e) {
                uint32_t w = enc[d] ^ (e < 0 ? 0 : 1u << e);
                if (cw[w] != 0xffff) perfect = false;
                cw[w] = (uint16_t)enc[d];
            }
    }
};
inline const HammingTable& ham7200() { static const uint32_t r[4] = {0x7f08, 0x78e4, 0x66d2, 0x55b1}; static const HammingTable t(r); return t; }
inline const HammingTable& ham7100() { static const uint32_t r[4] = {0x7ac8, 0x3d64, 0x1eb2, 0x7591}; static const HammingTable t(r); return t; }

// scrambler: bit k (k >= 1) of the sequence seeded with `seed`
struct Scrambler {
    uint8_t bit[128];
    explicit Scrambler(uint32_t seed) {
        uint32_t pr = (16 * seed) & 0xffff;
        bit[0] = 0;
        for (int i = 1; i < 128; ++i) { pr = (173 * pr + 13849) & 0xffff; bit[i] = (uint8_t)(pr >> 15); }
    }
};

struct Rx { int c0 = 0, rest = 0, c4 = 0; uint8_t bits[88]; };

// ---- AMBE 3600: rows as integers, row[r] bit j = frame[r][j]
struct AmbeFrame { uint32_t row[4]; };
inline uint32_t scr_row(const Scrambler& s, int& k, int hi) {
    uint32_t m = 0;
    for (int j = hi; j >= 0; --j) m |= (uint32_t)s.bit[k++] << j;
    return m;
}
inline AmbeFrame ambe_encode(const uint8_t* d) {
    uint32_t a = 0, b = 0, c = 0, e = 0;
    for (int i = 0; i < 12; ++i) a = a << 1 | d[i];
    for (int i = 12; i < 24; ++i) b = b << 1 | d[i];
    for (int i = 24; i < 35; ++i) c = c << 1 | d[i];
    for (int i = 35; i < 49; ++i) e = e << 1 | d[i];
    AmbeFrame f;
    uint32_t g = golay_encode(a);
    f.row[0] = g << 1 | (uint32_t)(popcnt(g) & 1);
    Scrambler s(a);
    int k = 1;
    f.row[1] = golay_encode(b) ^ scr_row(s, k, 22);
    f.row[2] = c;
    f.row[3] = e;
    return f;
}
inline AmbeFrame ambe_c0(AmbeFrame f, int& errs) {
    uint32_t w = f.row[0] >> 1 & 0x7fffff;
    uint32_t d = golay().data[w], was = w >> 11;
    errs = popcnt(d ^ was);
    w = d << 11 | (w & 0x7ff);
    uint32_t r = w << 1 | (f.row[0] & 1);
    if (errs == 0 && (popcnt(r) & 1)) { r ^= 1; errs = 1; }
    f.row[0] = r;
    return f;
}
inline Rx ambe_receive(AmbeFrame f) {
    Rx o;
    f = ambe_c0(f, o.c0);
    uint32_t a = f.row[0] >> 12 & 0xfff;
    Scrambler s(a);
    int k = 1;
    uint32_t w = (f.row[1] ^ scr_row(s, k, 22)) & 0x7fffff;
    uint32_t b = golay().data[w];
    o.rest = popcnt(b ^ w >> 11);
    int n = 0;
    for (int j = 11; j >= 0; --j) o.bits[n++] = a >> j & 1;
    for (int j = 11; j >= 0; --j) o.bits[n++] = b >> j & 1;
    for (int j = 10; j >= 0; --j) o.bits[n++] = f.row[2] >> j & 1;
    for (int j = 13; j >= 0; --j) o.bits[n++] = f.row[3] >> j & 1;
    return o;
}
// positions that carry channel bits
inline const uint32_t* ambe_mask() { static const uint32_t m[4] = {0xffffff, 0x7fffff, 0x7ff, 0x3fff}; return m; }

// ---- IMBE 7200x4400
struct Imbe72Frame { uint32_t row[8]; };
inline const uint32_t* imbe72_mask() { static const uint32_t m[8] = {0x7fffff, 0x7fffff, 0x7fffff, 0x7fffff, 0x7fff, 0x7fff, 0x7fff, 0x7f}; return m; }
inline Imbe72Frame imbe72_encode(const uint8_t* d) {
    uint32_t v[8];
    const int len[8] = {12, 12, 12, 12, 11, 11, 11, 7};
    int p = 0;
    for (int r = 0; r < 8; ++r) { v[r] = 0; for (int i = 0; i < len[r]; ++i) v[r] = v[r] << 1 | d[p++]; }
    Imbe72Frame f;
    Scrambler s(v[0]);
    int k = 1;
    f.row[0] = golay_encode(v[0]);
    for (int r = 1; r < 4; ++r) f.row[r] = golay_encode(v[r]) ^ scr_row(s, k, 22);
    for (int r = 4; r < 7; ++r) f.row[r] = ham7200().enc[v[r]] ^ scr_row(s, k, 14);
    f.row[7] = v[7];
    return f;
}
inline Rx imbe72_receive(Imbe72Frame f) {
    Rx o;
    int n = 0;
    uint32_t w = f.row[0] & 0x7fffff, d = golay().data[w];
    o.c0 = popcnt(d ^ w >> 11);
    Scrambler s(d);
    int k = 1;
    for (int j = 11; j >= 0; --j) o.bits[n++] = d >> j & 1;
    for (int r = 1; r < 4; ++r) {
        w = (f.row[r] ^ scr_row(s, k, 22)) & 0x7fffff;
        d = golay().data[w];
        o.rest += popcnt(d ^ w >> 11);
        for (int j = 11; j >= 0; --j) o.bits[n++] = d >> j & 1;
    }
    for (int r = 4; r < 7; ++r) {
        w = (f.row[r] ^ scr_row(s, k, 14)) & 0x7fff;
        d = ham7200().cw[w];
        o.rest += d != w;
        if (r == 4) o.c4 = d != w;
        for (int j = 14; j >= 4; --j) o.bits[n++] = d >> j & 1;
    }
    for (int j = 6; j >= 0; --j) o.bits[n++] = f.row[7] >> j & 1;
    return o;
}

// ---- IMBE 7100x4400
struct Imbe71Frame { uint32_t row[7]; };
inline const uint32_t* imbe71_mask() { static const uint32_t m[7] = {0x7fffe, 0xfffffe, 0x7fffff, 0x7fffff, 0x7fff, 0x7fff, 0x7fffff}; return m; }
inline Imbe71Frame imbe71_encode(const uint8_t* d) {
    uint32_t v[7];
    const int len[7] = {7, 12, 12, 12, 11, 11, 23};
    int p = 0;
    for (int r = 0; r < 7; ++r) { v[r] = 0; for (int i = 0; i < len[r]; ++i) v[r] = v[r] << 1 | d[p++]; }
    Imbe71Frame f;
    Scrambler s(v[0]);
    int k = 1;
    f.row[0] = golay_encode(v[0]) << 1;  // the five leading data bits are zero and not sent
    f.row[1] = golay_encode(v[1]) << 1 ^ scr_row(s, k, 23);
    f.row[1] &= ~1u;
    for (int r = 2; r < 4; ++r) f.row[r] = golay_encode(v[r]) ^ scr_row(s, k, 22);
    for (int r = 4; r < 6; ++r) f.row[r] = ham7100().enc[v[r]] ^ scr_row(s, k, 14);
    f.row[6] = v[6];
    return f;
}
inline Rx imbe71_receive(Imbe71Frame f) {
    Rx o;
    int n = 0;
    uint32_t w = f.row[0] >> 1 & 0x3ffff, d = golay().data[w];
    o.c0 = popcnt(d ^ w >> 11);
    Scrambler s(d & 0x7f);
    int k = 1;
    for (int j = 6; j >= 0; --j) o.bits[n++] = d >> j & 1;
    w = (f.row[1] ^ scr_row(s, k, 23)) >> 1 & 0x7fffff;
    d = golay().data[w];
    o.rest += popcnt(d ^ w >> 11);
    for (int j = 11; j >= 0; --j) o.bits[n++] = d >> j & 1;
    for (int r = 2; r < 4; ++r) {
        w = (f.row[r] ^ scr_row(s, k, 22)) & 0x7fffff;
        d = golay().data[w];
        o.rest += popcnt(d ^ w >> 11);
        for (int j = 11; j >= 0; --j) o.bits[n++] = d >> j & 1;
    }
    for (int r = 4; r < 6; ++r) {
        w = (f.row[r] ^ scr_row(s, k, 14)) & 0x7fff;
        d = ham7100().cw[w];
        o.rest += d != w;
        if (r == 4) o.c4 = d != w;
        for (int j = 14; j >= 4; --j) o.bits[n++] = d >> j & 1;
    }
    for (int j = 22; j >= 0; --j) o.bits[n++] = f.row[6] >> j & 1;
    return o;
}

// 7100 -> 7200 parameter layout: dst[perm[i]] = src[i]
inline int imbe_bands_from_b0(int b0) {
    double w0 = 4.0 * M_PI / (b0 + 39.5);
    return (int)(0.9254 * (int)(M_PI / w0 + 0.25));
}
inline int imbe_K(int L) { return L < 37 ? (L + 2) / 3 : 12; }
inline void imbe71_perm(int b0, int perm[88]) {
    int K = imbe_K(imbe_bands_from_b0(b0));
    // 7100 order: [0] status, [1..41] head, [42..43] two gain bits, [44..44+K-1] voicing, then the tail
    // 7200 order: [0..47] head+..., [48..48+K-1] voicing, two gain bits, rest, [87] status
    perm[0] = 87;
    perm[42] = 48 + K;
    perm[43] = 49 + K;
    for (int i = 0; i < K; ++i) perm[44 + i] = 48 + i;
    std::vector<int> src, dst;
    for (int i = 1; i < 88; ++i) if (i < 42 || i >= 44 + K) src.push_back(i);
    for (int i = 0; i < 87; ++i) if (i < 48 || i >= 50 + K) dst.push_back(i);
    for (size_t i = 0; i < src.size(); ++i) perm[src[i]] = dst[i];
}
inline int imbe71_b0(const uint8_t* d) {
    int b0 = 0;
    for (int i = 1; i <= 6; ++i) b0 = b0 << 1 | d[i];
    return b0 << 2 | d[86] << 1 | d[87];
}

}  // namespace ref
