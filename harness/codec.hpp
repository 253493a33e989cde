// Received frames as data: every way a frame can enter the library (four frame geometries, three
// parameter-level calls), built from a payload and a wanted error pattern, and applied to a decoder state.
#pragma once
#include "mc.hpp"
#include "lib.hpp"
#include "ref_ecc.hpp"
#include "ref_params.hpp"
#include <string>
#include <vector>

enum Path { IMBE_D, IMBE72_F, IMBE71_F, A2450_D, A2450_F, A2400_D, A2400_F, NPATH };
inline const char* path_name(int p) { static const char* n[] = {"imbe-data", "imbe7200", "imbe7100", "ambe2450-data", "ambe2450", "ambe2400-data", "ambe2400"}; return n[p]; }
inline bool is_imbe(int p) { return p <= IMBE71_F; }
inline bool is_frame(int p) { return p == IMBE72_F || p == IMBE71_F || p == A2450_F || p == A2400_F; }
inline int nbits(int p) { return is_imbe(p) ? 88 : 49; }

struct Bits { uint8_t b[88]; };
struct Ev {
    Path path;
    std::string name;
    Bits d;              // parameter bits the decoder should see (7200 layout for every IMBE path)
    int c0 = 0;          // corrected first-row errors
    int total = 0;       // total count passed to / produced by the call
    int c4 = 0;
    uint32_t row[8] = {};
};
struct Out {
    float pcm[160];
    short pcm16[160];
    char str[600];
    int errs, errs2;
    char d[96];
};

inline void fill_frame(const Ev& e, void* fr, char junk = 0) {
    char* f = (char*)fr;
    int R = e.path == IMBE72_F ? 8 : e.path == IMBE71_F ? 7 : 4, W = e.path == IMBE72_F ? 23 : 24;
    const uint32_t* m = e.path == IMBE72_F ? ref::imbe72_mask() : e.path == IMBE71_F ? ref::imbe71_mask() : ref::ambe_mask();
    for (int r = 0; r < R; ++r) for (int j = 0; j < W; ++j) f[r * W + j] = (m[r] >> j & 1) ? (char)(e.row[r] >> j & 1) : junk;
}
// counts and bits the channel layer must deliver, from the independent receiver
inline void derive(Ev& e) {
    ref::Rx rx;
    if (e.path == IMBE72_F) { ref::Imbe72Frame f; memcpy(f.row, e.row, sizeof f.row); rx = ref::imbe72_receive(f); }
    else if (e.path == IMBE71_F) { ref::Imbe71Frame f; memcpy(f.row, e.row, sizeof f.row); rx = ref::imbe71_receive(f); }
    else { ref::AmbeFrame f; memcpy(f.row, e.row, sizeof f.row); rx = ref::ambe_receive(f); }
    e.c0 = rx.c0; e.total = rx.c0 + rx.rest; e.c4 = rx.c4;
    if (e.path == IMBE71_F) {
        int perm[88];
        ref::imbe71_perm(ref::imbe71_b0(rx.bits), perm);
        for (int i = 0; i < 88; ++i) e.d.b[perm[i]] = rx.bits[i];
    } else memcpy(e.d.b, rx.bits, nbits(e.path));
}
inline int row_bits(int p, int r) { return p == IMBE72_F ? (r < 4 ? 23 : r < 7 ? 15 : 7) : p == IMBE71_F ? (r == 0 ? 18 : r < 4 ? 23 : r < 6 ? 15 : 23) : (r == 0 ? 24 : r == 1 ? 23 : r == 2 ? 11 : 14); }
inline int row_low(int p, int r) { return p == IMBE71_F && r <= 1 ? 1 : 0; }

// an event whose decoder sees bits d with the given counts (frame paths: by adding correctable errors)
inline Ev make(Path p, const Bits& d, int c0, int total, int c4, const std::string& name) {
    Ev e;
    e.path = p; e.d = d; e.c0 = c0; e.total = total; e.c4 = c4;
    char b[64];
    snprintf(b, sizeof b, "(%d,%d,%d)", c0, total, c4);
    e.name = std::string(path_name(p)) + ":" + name + b;
    if (!is_frame(p)) return e;
    uint8_t u[88];
    memcpy(u, d.b, 88);
    if (p == IMBE72_F) { auto f = ref::imbe72_encode(u); memcpy(e.row, f.row, sizeof f.row); }
    else if (p == IMBE71_F) {
        int b0 = 0;
        for (int i : {0, 1, 2, 3, 4, 5, 85, 86}) b0 = b0 << 1 | d.b[i];
        int perm[88];
        ref::imbe71_perm(b0, perm);
        for (int i = 0; i < 88; ++i) u[i] = d.b[perm[i]];
        auto f = ref::imbe71_encode(u);
        memcpy(e.row, f.row, sizeof f.row);
    } else { auto f = ref::ambe_encode(u); memcpy(e.row, f.row, sizeof f.row); }
    int rest = total - c0;
    static const int s72[3] = {13, 17, 20}, s71[3] = {13, 15, 18}, sam[3] = {14, 18, 22};
    for (int i = 0; i < c0 && i < 3; ++i) e.row[0] ^= 1u << (p == IMBE72_F ? s72[i] : p == IMBE71_F ? s71[i] : sam[i]);
    if (is_imbe(p)) {
        if (c4 && rest > 0) { e.row[4] ^= 1u << 9; --rest; }
        for (int r = 1; r < 4; ++r) for (int i = 0; i < 3 && rest > 0; ++i, --rest) e.row[r] ^= 1u << (12 + 3 * i + (p == IMBE71_F && r == 1));
        for (int r = 5; r < (p == IMBE72_F ? 7 : 6) && rest > 0; ++r, --rest) e.row[r] ^= 1u << 3;
    } else
        for (int i = 0; i < 3 && rest > 0; ++i, --rest) e.row[1] ^= 1u << (12 + 4 * i);
    derive(e);
    if (memcmp(e.d.b, d.b, nbits(p)) || e.c0 != c0 || e.total != total || e.c4 != c4) {
        fprintf(stderr, "bad event %s: got (%d,%d,%d)\n", e.name.c_str(), e.c0, e.total, e.c4);
        exit(2);
    }
    return e;
}
// a frame given by its raw rows (any content, correctable or not)
inline Ev raw(Path p, const uint32_t* rows, const std::string& name) {
    Ev e;
    e.path = p;
    memcpy(e.row, rows, sizeof e.row);
    memset(&e.d, 0, sizeof e.d);
    derive(e);
    e.name = std::string(path_name(p)) + ":" + name;
    return e;
}

inline thread_local int out_fill = 0x55;  // what the caller's output buffers hold before a call
// one library call; float or 16-bit form
inline void step(Lib& L, const Ev& e, State& s, Out& o, bool s16 = false, int uvq = 3) {
    char fr[8 * 24];
    memset(o.d, out_fill ^ 0x69, sizeof o.d);
    if (!is_frame(e.path)) for (int i = 0; i < nbits(e.path); ++i) o.d[i] = (char)e.d.b[i];
    else fill_frame(e, fr);
    o.errs = is_frame(e.path) ? out_fill - 92 : e.c0;
    o.errs2 = is_frame(e.path) ? out_fill - 92 : e.total;
    memset(o.str, out_fill, sizeof o.str);
    typedef char F24[4][24]; typedef char F72[8][23]; typedef char F71[7][24];
    mbe_parms *c = &s.cur, *p = &s.prev, *q = &s.enh;
#define D_(fn) do { if (s16) L.f_##fn(o.pcm16, &o.errs, &o.errs2, o.str, o.d, c, p, q, uvq); else L.f_##fn##f(o.pcm, &o.errs, &o.errs2, o.str, o.d, c, p, q, uvq); } while (0)
#define F_(fn, T) do { if (s16) L.f_##fn(o.pcm16, &o.errs, &o.errs2, o.str, *(T*)fr, o.d, c, p, q, uvq); else L.f_##fn##f(o.pcm, &o.errs, &o.errs2, o.str, *(T*)fr, o.d, c, p, q, uvq); } while (0)
    switch (e.path) {
        case IMBE_D: D_(processImbe4400Data); break;
        case A2450_D: D_(processAmbe2450Data); break;
        case A2400_D: D_(processAmbe2400Data); break;
        case IMBE72_F: F_(processImbe7200x4400Frame, F72); break;
        case IMBE71_F: F_(processImbe7100x4400Frame, F71); break;
        case A2450_F: F_(processAmbe3600x2450Frame, F24); break;
        case A2400_F: F_(processAmbe3600x2400Frame, F24); break;
        default: break;
    }
#undef D_
#undef F_
}
inline void init(Lib& L, State& s) { memset(&s, 0, sizeof s); L.f_initMbeParms(&s.cur, &s.prev, &s.enh); }

// ---- payloads -------------------------------------------------------------------------------
inline Bits zero_bits() { Bits d; memset(&d, 0, sizeof d); return d; }
inline void put_bits(Bits& d, std::initializer_list<int> idx, int v) { int n = (int)idx.size(); for (int i : idx) d.b[i] = v >> --n & 1; }
inline Bits noise_bits(uint64_t k, int n) { Bits d = zero_bits(); uint64_t s = 0; for (int i = 0; i < n; ++i) { if (i % 64 == 0) s = mc::mix(k * 0x9E3779B97F4A7C15ULL + i + 1); d.b[i] = s >> (i % 64) & 1; } return d; }
// IMBE: pitch code, voicing (all / none / as in the base payload), gain index, base payload
inline Bits imbe_bits(int b0, int voiced, int gain, uint64_t base) {
    using namespace reftab;
    Bits d = noise_bits(base, 88);
    d.b[87] = 0;
    put_bits(d, {0, 1, 2, 3, 4, 5, 85, 86}, b0);
    if (b0 <= 207) {
        int L = ref::imbe_bands_from_b0(b0);
        for (int i = 0; i < 79; ++i) {
            int f = bo[L - 9][i][0], bit = bo[L - 9][i][1];
            if (f == 1 && voiced >= 0) d.b[6 + i] = voiced;
            if (f == 2 && gain >= 0) d.b[6 + i] = gain >> bit & 1;
        }
    }
    return d;
}
inline Bits a2450_bits(int b0, int b1, int b2, uint64_t base) {
    Bits d = noise_bits(base, 49);
    put_bits(d, {0, 1, 2, 3, 37, 38, 39}, b0);
    if (b1 >= 0) put_bits(d, {4, 5, 6, 7, 35}, b1);
    if (b2 >= 0) put_bits(d, {8, 9, 10, 11, 36}, b2);
    return d;
}
// an erasure word that does not look like a tone
inline Bits a2450_erasure(int b0, uint64_t base) { Bits d = a2450_bits(b0, 0, -1, base); return d; }
// tone word: u0 = 63 | AD high bits, u1 = ID | ...
inline Bits a2450_tone(int id, int ad, bool verify_by_low = true) {
    Bits d = zero_bits();
    for (int i = 0; i < 6; ++i) d.b[i] = 1;
    for (int i = 0; i < 6; ++i) d.b[6 + i] = ad >> (6 - i) & 1;
    for (int i = 0; i < 8; ++i) d.b[12 + i] = id >> (7 - i) & 1;
    d.b[20] = ad & 1;  // u1 bit 3: lowest amplitude bit
    if (!verify_by_low) {
        // the alternative verification: first and third nibble of the ID word equal, trailing nibble not zero
        for (int i = 0; i < 4; ++i) d.b[20 + i] = d.b[12 + i];
        d.b[48] = 1;
    }
    return d;
}
inline int a2450_tone_id(const uint8_t* d) { int v = 0; for (int i = 12; i < 20; ++i) v = v << 1 | d[i]; return v; }
inline bool a2450_tone_valid(int id) { return (id >= 5 && id <= 122) || (id >= 128 && id <= 163); }
inline Bits a2400_bits(int b0, int b1, int b2, uint64_t base) {
    Bits d = noise_bits(base, 49);
    put_bits(d, {0, 1, 2, 3, 4, 5, 48}, b0);
    if (b1 >= 0) put_bits(d, {38, 39, 40, 41}, b1);
    if (b2 >= 0) put_bits(d, {6, 7, 8, 9, 42, 43}, b2);
    return d;
}
// D-STAR tone word with the given index (0..255)
inline Bits a2400_tone(int idx, uint64_t base = 3) {
    Bits d = noise_bits(base, 49);
    put_bits(d, {0, 1, 2, 3, 4, 5, 48}, 126);
    for (int sel = 0; sel < 8; ++sel)
        for (int low = 0; low < 32; ++low) {
            put_bits(d, {6, 7, 8}, sel);
            put_bits(d, {9, 42, 43, 10, 11}, low);
            char c[49];
            for (int i = 0; i < 49; ++i) c[i] = (char)d.b[i];
            if (ref::ambe2400_tone_index(c) == idx) return d;
        }
    return d;
}
