// C03: the AMBE 3600x2450 and 3600x2400 channel layer.
#include "ecc_frames.hpp"
template <bool R2400> struct Ambe {
    static constexpr int R = 4, W = 24, N = 49;
    using Real = char[4][24];
    Lib& L = lib("scalar");
    static const char* name() { return R2400 ? "ambe2400" : "ambe2450"; }
    static uint32_t mask(int r) { return ref::ambe_mask()[r]; }
    static RowKind kind(int r) { return r == 0 ? GOLAY24 : r == 1 ? GOLAY23 : PLAIN; }
    static int first(int r) { static const int f[4] = {0, 12, 24, 35}; return f[r]; }
    static int len(int r) { static const int f[4] = {12, 12, 11, 14}; return f[r]; }
    static int c0count(uint32_t e) { int d = ref::popcnt(e >> 12); return d ? d : ref::popcnt(e) & 1; }
    static int count(int, uint32_t e) { return ref::popcnt(e >> 11); }
    ref::AmbeFrame encode(const uint8_t* d) { return ref::ambe_encode(d); }
    static ref::Rx rx(const uint32_t* row) { ref::AmbeFrame f; memcpy(f.row, row, sizeof f.row); return ref::ambe_receive(f); }
    void unscrambled(const uint8_t* d, uint32_t* p) {
        auto f = ref::ambe_encode(d);
        uint32_t b = 0;
        for (int i = 12; i < 24; ++i) b = b << 1 | d[i];
        p[0] = f.row[0]; p[1] = ref::golay_encode(b); p[2] = f.row[2]; p[3] = f.row[3];
    }
    int C0(Real& fr) { return R2400 ? L.f_eccAmbe3600x2400C0(fr) : L.f_eccAmbe3600x2450C0(fr); }
    void demod(Real& fr) { R2400 ? L.f_demodulateAmbe3600x2400Data(fr) : L.f_demodulateAmbe3600x2450Data(fr); }
    int data(Real& fr, char* d) { return R2400 ? L.f_eccAmbe3600x2400Data(fr, d) : L.f_eccAmbe3600x2450Data(fr, d); }
    void frame(Real& fr, char* d, int* e, int* e2, State& s) {
        float a[160]; char str[512];
        R2400 ? L.f_processAmbe3600x2400Framef(a, e, e2, str, fr, d, &s.cur, &s.prev, &s.enh, 3)
              : L.f_processAmbe3600x2450Framef(a, e, e2, str, fr, d, &s.cur, &s.prev, &s.enh, 3);
    }
    bool frame_bits_ok(const char* d, const uint8_t* q) { return !memcmp(d, q, 49); }
};
static void check() {
    Explorer<Ambe<false>> a; a.run();
    Explorer<Ambe<true>> b; b.run();
}
int main(int c, char** v) { return mc::main(c, v, check); }
