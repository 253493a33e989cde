// C07: AMBE+2 (2450) parameter decoding and frame classification.
#include "parms_explore.hpp"
struct A2450 {
    static constexpr int N = 49, PITCH = 128, FIELD_BASES = 4;
    static constexpr bool IMBE = false;
    static void set_pitch(char* d, int b0) { for (int i = 0; i < 4; ++i) d[i] = b0 >> (6 - i) & 1; for (int i = 0; i < 3; ++i) d[37 + i] = b0 >> (2 - i) & 1; }
    int call(Lib& L, const char* d, mbe_parms* c, mbe_parms* p) { return L.f_decodeAmbe2450Parms(d, c, p); }
    ref::Model model(const char* d, const mbe_parms& p) { return ref::ambe2450_decode(d, p); }
    bool ret_ok(int r, const ref::Model& m) { return r == m.ret; }
    void rejected(const mbe_parms&, const mbe_parms&, const ref::Model&, const char*, const std::string&) {}
    std::vector<std::vector<int>> fields(int) {
        return {{4, 5, 6, 7, 35}, {8, 9, 10, 11, 36}, {12, 13, 14, 15, 16, 17, 18, 19, 40}, {20, 21, 22, 23, 41, 42, 43}, {24, 25, 26, 27, 44}, {28, 29, 30, 45}, {31, 32, 33, 46}, {34, 47, 48}};
    }
    std::vector<int> chain_pitches() { std::vector<int> v; for (int b = 0; b < 120; b += mc::thorough ? 8 : 5) v.push_back(b); for (int b : {119, 120, 124, 125, 126}) v.push_back(b); return v; }
};
static void check() {
    ParmExplorer<A2450> x;
    x.run();
    Lib& L = x.L;
    // classification: all 2^21 values of the bits that decide it, against several values of the rest
    static const int sig[] = {0, 1, 2, 3, 4, 5, 37, 38, 39, 12, 13, 14, 15, 20, 21, 22, 23, 45, 46, 47, 48};
    mc::group("classification", 1 << 13, [&](uint64_t hi) {
        mbe_parms prev;
        fill_prev(prev, 30, 1);
        for (uint32_t lo = 0; lo < 256; ++lo) {
            uint32_t v = (uint32_t)hi << 8 | lo;
            for (int p = 0; p < (mc::thorough ? 8 : 2); ++p) {
                char d[49];
                fill_payload(d, 49, p < 2 ? p : 40 + p + hi);
                for (int i = 0; i < 21; ++i) d[sig[i]] = v >> (20 - i) & 1;
                // total-error-dependent classification is part of the frame handling (C10); here: unknown total
                ref::Cls c = ref::ambe2450_class(d, -1);
                int want = c == ref::TONE ? 7 : c == ref::ERASURE ? 2 : 0;
                mbe_parms cur, pv = prev;
                memset(&cur, 0, sizeof cur);
                int r = L.f_decodeAmbe2450Parms(d, &cur, &pv);
                if (r != want) mc::fail("classification of %s: %d, expected %d", x.text(d).c_str(), r, want);
                mc::transitions();
                mc::count(c == ref::TONE ? "tone words" : c == ref::ERASURE ? "erasure words" : c == ref::SILENCE ? "silence words" : "voice words");
            }
            mc::state(0x700000000ull + v);
        }
        mc::traces(256);
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
