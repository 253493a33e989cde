// C04: the IMBE 7200x4400 channel layer.
#include "ecc_frames.hpp"
struct Imbe72 {
    static constexpr int R = 8, W = 23, N = 88;
    using Real = char[8][23];
    Lib& L = lib("scalar");
    static const char* name() { return "imbe7200"; }
    static uint32_t mask(int r) { return ref::imbe72_mask()[r]; }
    static RowKind kind(int r) { return r < 4 ? GOLAY23 : r < 7 ? HAMMING : PLAIN; }
    static int first(int r) { static const int f[8] = {0, 12, 24, 36, 48, 59, 70, 81}; return f[r]; }
    static int len(int r) { static const int f[8] = {12, 12, 12, 12, 11, 11, 11, 7}; return f[r]; }
    static int c0count(uint32_t e) { return ref::popcnt(e >> 11); }
    static int count(int r, uint32_t e) { return r < 4 ? ref::popcnt(e >> 11) : e != 0; }
    ref::Imbe72Frame encode(const uint8_t* d) { return ref::imbe72_encode(d); }
    static ref::Rx rx(const uint32_t* row) { ref::Imbe72Frame f; memcpy(f.row, row, sizeof f.row); return ref::imbe72_receive(f); }
    void unscrambled(const uint8_t* d, uint32_t* p) {
        int q = 0;
        for (int r = 0; r < 8; ++r) {
            uint32_t v = 0;
            for (int i = 0; i < len(r); ++i) v = v << 1 | d[q++];
            p[r] = r < 4 ? ref::golay_encode(v) : r < 7 ? ref::ham7200().enc[v] : v;
        }
    }
    int C0(Real& fr) { return L.f_eccImbe7200x4400C0(fr); }
    void demod(Real& fr) { L.f_demodulateImbe7200x4400Data(fr); }
    int data(Real& fr, char* d) { return L.f_eccImbe7200x4400Data(fr, d); }
    void frame(Real& fr, char* d, int* e, int* e2, State& s) {
        float a[160]; char str[512];
        L.f_processImbe7200x4400Framef(a, e, e2, str, fr, d, &s.cur, &s.prev, &s.enh, 3);
    }
    bool frame_bits_ok(const char* d, const uint8_t* q) { return !memcmp(d, q, 88); }
};
static void check() { Explorer<Imbe72> a; a.run(); }
int main(int c, char** v) { return mc::main(c, v, check); }
