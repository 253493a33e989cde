// C10: AMBE+2 (2450) frame handling on every history.
#include "sm_events.hpp"
static void check() {
    Histories h;
    h.maxrep = 3;
    h.full = a2450_events(true);
    h.small = a2450_events(false);
    h.ers = {0.f, 0.004f, 0.0051f, 0.0126f, 0.0875f, 0.0959f, 0.0961f, 0.0962f, 0.12f, 0.5f};
    h.classes = {make(A2450_F, a2450_bits(50, 0, 17, 23), 0, 0, 0, "clean"), make(A2450_D, a2450_bits(0, 3, 14, 21), 0, 4, 0, "repeat-rule"),
                 make(A2450_F, a2450_bits(124, 0, 6, 24), 1, 2, 0, "silence"), make(A2450_F, a2450_erasure(120, 26), 0, 0, 0, "erasure"),
                 make(A2450_F, a2450_tone(133, 70), 0, 1, 0, "tone"), make(A2450_D, a2450_tone(0, 50), 0, 5, 0, "tone-bad")};
    h.pitches = 128;
    h.variety = [](int b0, uint64_t k) {
        std::vector<Ev> v;
        auto add = [&](Path p, int c0, int t) { v.push_back(make(p, a2450_bits(b0, -1, -1, 9000 + b0 * 64 + k * 8 + v.size()), c0, t, 0, "b0=" + std::to_string(b0) + "/" + std::to_string(k))); };
        add(A2450_F, 0, 0); add(A2450_F, 1, 3); add(A2450_F, 2, 5); add(A2450_F, 3, 6); add(A2450_D, 0, 1); add(A2450_D, 0, 4); add(A2450_D, 4, 6);
        return v;
    };
    h.run(mc::thorough ? 4 : 3);
    Lib &A = h.A, &B = h.B;
    // every class at every count
    std::vector<Bits> pl;
    for (int b0 : {0, 60, 119, 120, 121, 122, 123, 124, 125, 126, 127}) pl.push_back(a2450_bits(b0, 5, 12, 200 + b0));
    for (int id : {0, 4, 5, 6, 7, 122, 123, 127, 128, 143, 144, 159, 160, 163, 164, 255}) { pl.push_back(a2450_tone(id, 90)); pl.push_back(a2450_tone(id, 91, false)); }
    std::vector<Ev> grid;
    for (size_t p = 0; p < pl.size(); ++p) {
        for (int t = 0; t <= 16; ++t) for (int c0 : {0, 4}) grid.push_back(make(A2450_D, pl[p], c0, t, 0, "payload" + std::to_string(p)));
        for (int c0 = 0; c0 < 4; ++c0) for (int r = 0; r < 4; ++r) grid.push_back(make(A2450_F, pl[p], c0, c0 + r, 0, "payload" + std::to_string(p)));
    }
    mc::group("class-grid", grid.size(), [&](uint64_t i) {
        for (float er : {0.f, 0.02f, 0.0958f, 0.2f})
            for (int rep = 0; rep <= 3; ++rep) {
                State s;
                h.start(s, 2);
                put_history(s, er, rep);
                char t[96];
                snprintf(t, sizeof t, "2 warm frames, carried error rate %.9g, %d repeats", er, rep);
                sm::judge(A, B, grid[i], s, 3, t);
                mc::traces();
            }
    });
    // every value of the bits that decide the class, at every count that matters
    mc::group("class-bits", 1 << 9, [&](uint64_t hi) {
        State s0;
        h.start(s0, 2);
        for (int lo = 0; lo < 1 << 6; ++lo)
            for (int t : {0, 5, 6}) {
                Bits d = noise_bits(3000 + hi, 49);
                put_bits(d, {0, 1, 2, 3, 4, 5, 37, 38, 39}, (int)hi);
                put_bits(d, {12, 20, 45, 46, 47, 48}, lo);
                for (int k = 13; k <= 15; ++k) d.b[k + 8] = d.b[k];   // the ID nibbles differ in at most their first bit
                State s = s0;
                sm::judge(A, B, make(A2450_D, d, 0, t, 0, "bits" + std::to_string(hi << 6 | lo)), s, 4, "2 warm frames");
            }
        mc::traces(192);
    });
    mc::group("arbitrary-frames", mc::thorough ? 6000 : 600, [&](uint64_t i) {
        State s;
        h.start(s, 1);
        std::string hs = "warm";
        for (int k = 0; k < 12; ++k) {
            uint32_t r[8] = {};
            for (int j = 0; j < 4; ++j) r[j] = (uint32_t)mc::mix(i * 1000 + k * 16 + j) & ref::ambe_mask()[j];
            Ev e = raw(A2450_F, r, "arbitrary" + std::to_string(i * 100 + k));
            sm::judge(A, B, e, s, 5 + k, hs);
            hs += " > " + e.name;
        }
        mc::traces();
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
