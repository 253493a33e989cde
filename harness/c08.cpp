// C08: AMBE 2400 (D-STAR) parameter decoding and tone indices.
#include "parms_explore.hpp"
struct A2400 {
    static constexpr int N = 49, PITCH = 128, FIELD_BASES = 4;
    static constexpr bool IMBE = false;
    static void set_pitch(char* d, int b0) { for (int i = 0; i < 6; ++i) d[i] = b0 >> (6 - i) & 1; d[48] = b0 & 1; }
    int call(Lib& L, const char* d, mbe_parms* c, mbe_parms* p) { return L.f_decodeAmbe2400Parms(d, c, p); }
    ref::Model model(const char* d, const mbe_parms& p) { return ref::ambe2400_decode(d, p); }
    bool ret_ok(int r, const ref::Model& m) { return r == m.ret; }
    void rejected(const mbe_parms&, const mbe_parms&, const ref::Model&, const char*, const std::string&) {}
    std::vector<std::vector<int>> fields(int) {
        return {{38, 39, 40, 41}, {6, 7, 8, 9, 42, 43}, {10, 11, 12, 13, 14, 15, 16, 44, 45}, {17, 18, 19, 20, 21, 46, 47}, {22, 23, 25, 26}, {27, 28, 29, 30}, {31, 32, 33, 34}, {35, 36, 37}, {24}};
    }
    std::vector<int> chain_pitches() { std::vector<int> v; for (int b = 0; b < 126; b += mc::thorough ? 8 : 5) v.push_back(b); for (int b : {124, 125, 126, 127}) v.push_back(b); return v; }
};
static void check() {
    ParmExplorer<A2400> x;
    x.run();
    Lib& L = x.L;
    // tone frames: every index code with both marker codes, against every value of each other bit pair
    static const int ib[] = {6, 7, 8, 9, 42, 43, 10, 11};
    mc::group("tone-indices", 512, [&](uint64_t i) {
        for (int a = 12; a < 48; ++a)
            for (int b = a; b < 48; ++b)
                for (int inv = 0; inv < 2; ++inv) {
                    char d[49];
                    memset(d, inv, 49);
                    d[a] ^= 1;
                    if (a != b) d[b] ^= 1;
                    A2400::set_pitch(d, 126 + (int)(i >> 8));
                    for (int k = 0; k < 8; ++k) d[ib[k]] = i >> (7 - k) & 1;
                    mbe_parms prev, cur;
                    fill_prev(prev, 20, 1);
                    memset(&cur, 0, sizeof cur);
                    int r = L.f_decodeAmbe2400Parms(d, &cur, &prev);
                    int idx = ref::ambe2400_tone_index(d), want = idx >= 5 && idx <= 122 ? idx : 3;
                    if (r != want) mc::fail("tone frame with index code %d returns %d, expected %d; bits %s", idx, r, want, x.text(d).c_str());
                    mc::transitions();
                }
        mc::state(0x800000000ull + i);
        mc::traces();
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
