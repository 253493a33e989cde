// C05: the IMBE 7100x4400 channel layer and its conversion to the 7200 parameter layout.
#include "ecc_frames.hpp"
struct Imbe71 {
    static constexpr int R = 7, W = 24, N = 88;
    using Real = char[7][24];
    Lib& L = lib("scalar");
    static const char* name() { return "imbe7100"; }
    static uint32_t mask(int r) { return ref::imbe71_mask()[r]; }
    static RowKind kind(int r) { return r == 0 ? GOLAY18 : r < 4 ? GOLAY23 : r < 6 ? HAMMING : PLAIN; }
    static int first(int r) { static const int f[7] = {0, 7, 19, 31, 43, 54, 65}; return f[r]; }
    static int len(int r) { static const int f[7] = {7, 12, 12, 12, 11, 11, 23}; return f[r]; }
    static int c0count(uint32_t e) { return ref::popcnt(e >> 12); }
    static int count(int r, uint32_t e) { return r == 1 ? ref::popcnt(e >> 12) : r < 4 ? ref::popcnt(e >> 11) : e != 0; }
    ref::Imbe71Frame encode(const uint8_t* d) { return ref::imbe71_encode(d); }
    static ref::Rx rx(const uint32_t* row) { ref::Imbe71Frame f; memcpy(f.row, row, sizeof f.row); return ref::imbe71_receive(f); }
    void unscrambled(const uint8_t* d, uint32_t* p) {
        int q = 0;
        for (int r = 0; r < 7; ++r) {
            uint32_t v = 0;
            for (int i = 0; i < len(r); ++i) v = v << 1 | d[q++];
            p[r] = r < 2 ? ref::golay_encode(v) << 1 : r < 4 ? ref::golay_encode(v) : r < 6 ? ref::ham7100().enc[v] : v;
        }
    }
    int C0(Real& fr) { return L.f_eccImbe7100x4400C0(fr); }
    void demod(Real& fr) { L.f_demodulateImbe7100x4400Data(fr); }
    int data(Real& fr, char* d) { return L.f_eccImbe7100x4400Data(fr, d); }
    void frame(Real& fr, char* d, int* e, int* e2, State& s) {
        float a[160]; char str[512];
        L.f_processImbe7100x4400Framef(a, e, e2, str, fr, d, &s.cur, &s.prev, &s.enh, 3);
    }
    // the whole-frame call leaves the bits converted to the 7200 layout
    bool frame_bits_ok(const char* d, const uint8_t* q) {
        int perm[88];
        ref::imbe71_perm(ref::imbe71_b0(q), perm);
        for (int i = 0; i < 88; ++i) if (d[perm[i]] != (char)q[i]) return false;
        return true;
    }
};
static void set_b0(uint8_t* d, int b0) {
    for (int i = 0; i < 6; ++i) d[1 + i] = b0 >> (7 - i) & 1;
    d[86] = b0 >> 1 & 1;
    d[87] = b0 & 1;
}
static void check() {
    Explorer<Imbe71> x;
    x.run();
    Lib& L = x.c.L;
    // conversion: for every pitch value, every bit alone, every pair, many payloads
    mc::group("convert", 256, [&](uint64_t b0) {
        int perm[88];
        ref::imbe71_perm((int)b0, perm);
        bool seen[88] = {};
        for (int i = 0; i < 88; ++i) { if (perm[i] < 0 || perm[i] > 87 || seen[perm[i]]) mc::fail("reference permutation for b0=%d is not a bijection", (int)b0); seen[perm[i]] = true; }
        auto go = [&](const uint8_t* src) {
            char d[96];
            memset(d, 0x3c, sizeof d);
            for (int i = 0; i < 88; ++i) d[i] = (char)src[i];
            L.f_convertImbe7100to7200(d);
            mc::transitions();
            for (int i = 0; i < 88; ++i)
                if (d[perm[i]] != (char)src[i]) mc::fail("conversion with b0=%d: source bit %d (value %d) should move to %d, which holds %d", (int)b0, i, src[i], perm[i], d[perm[i]]);
            for (int i = 88; i < 96; ++i) if (d[i] != 0x3c) mc::fail("conversion with b0=%d writes past 88 bits", (int)b0);
        };
        auto fixed = [](int i) { return (i >= 1 && i <= 6) || i == 86 || i == 87; };
        for (int a = 0; a < 88; ++a)
            for (int b = a; b < 88; ++b)
                for (int inv = 0; inv < 2; ++inv) {
                    uint8_t s[88];
                    for (int i = 0; i < 88; ++i) s[i] = (uint8_t)inv;
                    if (!fixed(a)) s[a] ^= 1;
                    if (!fixed(b) && b != a) s[b] ^= 1;
                    set_b0(s, (int)b0);
                    go(s);
                    mc::state(mc::hash(s, 88));
                }
        for (int p = 0; p < 512; ++p) { Payload q = payload(88, p); set_b0(q.b, (int)b0); go(q.b); mc::state(mc::hash(q.b, 88)); }
        mc::traces(88 * 89 + 512);
        if (b0 == 100) mc::sample("b0=100: voicing bits 44.. go to 48.., gain bits 42,43 to %d,%d", perm[42], perm[43]);
    });
    // conversions in a row: every ordered pair of pitch values; and the first conversion after loading
    auto conv = [&](int b0, uint64_t p, const char* what) {
        int perm[88];
        ref::imbe71_perm(b0, perm);
        Payload q = payload(88, p);
        set_b0(q.b, b0);
        char d[88];
        for (int i = 0; i < 88; ++i) d[i] = (char)q.b[i];
        L.f_convertImbe7100to7200(d);
        mc::transitions();
        for (int i = 0; i < 88; ++i)
            if (d[perm[i]] != (char)q.b[i]) mc::fail("%s: conversion with b0=%d: source bit %d (value %d) should move to %d, which holds %d", what, b0, i, q.b[i], perm[i], d[perm[i]]);
    };
    mc::group("convert-pairs", 256, [&](uint64_t a) {
        for (int b = 0; b < 256; ++b)
            for (int p = 0; p < 12; ++p) {
                conv((int)a, 2 + p * 5 + a, "conversion in a sequence");
                conv(b, 3 + p * 7 + b, ("after b0=" + std::to_string(a)).c_str());
            }
        mc::traces(256 * 12);
    });
    Cold C(L);
    mc::group("convert-first", 256, [&](uint64_t b0) {
        for (int p = 0; p < 24; ++p) C.run([&] { conv((int)b0, p, "first conversion"); });
        mc::traces(24);
    });
    // equivalent 7100 and 7200 streams: same parameters, audio and state
    mc::group("equivalent-streams", 208, [&](uint64_t b0) {
        State A, B;
        L.f_initMbeParms(&A.cur, &A.prev, &A.enh);
        L.f_initMbeParms(&B.cur, &B.prev, &B.enh);
        L.f_setThreadRngSeed(7);
        float pa[8][160], pb[8][160];
        for (int pass = 0; pass < 2; ++pass) {
            L.f_setThreadRngSeed(7);
            for (int n = 0; n < 8; ++n) {
                Payload q = payload(88, 1000 + b0 * 8 + n);
                set_b0(q.b, n < 4 ? (int)b0 : (int)((b0 + n * 29) % 208));
                State& S = pass ? B : A;
                char str[256];
                int e, e2;
                if (pass == 0) {
                    auto f = ref::imbe71_encode(q.b);
                    char fr[7][24], d[88];
                    x.put(fr, f.row, 0);
                    L.f_processImbe7100x4400Framef(pa[n], &e, &e2, str, fr, d, &S.cur, &S.prev, &S.enh, 3);
                } else {
                    int perm[88];
                    ref::imbe71_perm(ref::imbe71_b0(q.b), perm);
                    uint8_t t[88];
                    for (int i = 0; i < 88; ++i) t[perm[i]] = q.b[i];
                    auto f = ref::imbe72_encode(t);
                    char fr[8][23], d[88];
                    for (int r = 0; r < 8; ++r) for (int j = 0; j < 23; ++j) fr[r][j] = f.row[r] >> j & 1;
                    L.f_processImbe7200x4400Framef(pb[n], &e, &e2, str, fr, d, &S.cur, &S.prev, &S.enh, 3);
                }
                mc::transitions();
            }
        }
        if (memcmp(pa, pb, sizeof pa)) mc::fail("a 7100 stream starting with b0=%d sounds different from the equivalent 7200 stream", (int)b0);
        if (memcmp(&A.prev, &B.prev, sizeof A.prev) || memcmp(&A.enh, &B.enh, sizeof A.enh)) mc::fail("a 7100 stream starting with b0=%d leaves another state than the equivalent 7200 stream", (int)b0);
        mc::traces(2);
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
