// C09: IMBE repeat, mute and reset decisions on every history.
#include "sm_events.hpp"
static void check() {
    Histories h;
    h.maxrep = 4;
    h.full = imbe_events(true);
    for (auto& e : imbe_events(false)) h.small.push_back(e);
    for (float e : {0.f, 0.001f, 0.005f, 0.0124f, 0.0126f, 0.05f, 0.0869f, 0.0874f, 0.0876f, 0.0919f, 0.0921f, 0.0922f, 0.1f, 0.15f, 0.3f}) h.ers.push_back(e);
    for (int k = 1; k <= 5; ++k) for (float d : {-0.0006f, 0.0006f}) h.ers.push_back(((float)k * 0.025f + d) / 0.95f);
    h.classes = {make(IMBE72_F, imbe_bits(60, 1, 40, 11), 0, 0, 0, "clean"), make(IMBE72_F, imbe_bits(110, 0, 30, 12), 0, 5, 1, "five"),
                 make(IMBE71_F, imbe_bits(207, -1, 50, 14), 2, 10, 1, "repeat-rule"), make(IMBE72_F, imbe_bits(0, -1, 45, 13), 3, 14, 1, "heavy"),
                 make(IMBE_D, imbe_bits(208, -1, -1, 15), 0, 0, 0, "b0=208"), make(IMBE_D, imbe_bits(60, 0, 20, 17), 0, 0, 0, "clean-data")};
    h.pitches = 208;
    h.variety = [](int b0, uint64_t k) {
        std::vector<Ev> v;
        auto add = [&](Path p, int c0, int t, int c4) { v.push_back(make(p, imbe_bits(b0, -1, -1, 9000 + b0 * 64 + k * 8 + v.size()), c0, t, c4, "b0=" + std::to_string(b0) + "/" + std::to_string(k))); };
        add(IMBE72_F, 0, 0, 0); add(IMBE72_F, 1, 4, 1); add(IMBE71_F, 0, 2, 0); add(IMBE72_F, 2, 10, 0); add(IMBE71_F, 3, 13, 1); add(IMBE_D, 0, 1, 0); add(IMBE_D, 0, 6, 0);
        return v;
    };
    h.run(mc::thorough ? 4 : 3);
    // the repeat rule on its whole grid: payload x first-row errors x total x row-4 error x error rate x repeats
    Lib &A = h.A, &B = h.B;
    Bits pl[3] = {imbe_bits(77, 1, 33, 101), imbe_bits(207, 0, 20, 102), imbe_bits(230, -1, -1, 103)};
    std::vector<Ev> grid;
    for (int p = 0; p < 3; ++p)
        for (int c0 = 0; c0 < 4; ++c0)
            for (int rest = 0; rest <= 12; ++rest)
                for (int c4 = 0; c4 < 2; ++c4) {
                    if (c4 && !rest) continue;
                    if (!c4 && rest > 11) continue;   // twelve errors need row 4
                    if (c4 || rest <= 11) grid.push_back(make(IMBE72_F, pl[p], c0, c0 + rest, c4, "grid" + std::to_string(p)));
                }
    for (int p = 0; p < 3; ++p) for (int t = 0; t <= 24; ++t) for (int c0 : {0, 3}) grid.push_back(make(IMBE_D, pl[p], c0, t, 0, "grid" + std::to_string(p)));
    mc::group("rule-grid", grid.size(), [&](uint64_t i) {
        for (float er : h.ers)
            for (int rep = 0; rep <= 4; ++rep) {
                State s;
                h.start(s, 2);
                put_history(s, er, rep);
                char t[96];
                snprintf(t, sizeof t, "2 warm frames, carried error rate %.9g, %d repeats", er, rep);
                sm::judge(A, B, grid[i], s, 3, t);
                mc::traces();
            }
    });
    // frames with arbitrary row contents (uncorrectable patterns included)
    mc::group("arbitrary-frames", mc::thorough ? 4000 : 400, [&](uint64_t i) {
        State s;
        h.start(s, 1);
        std::string hs = "warm";
        for (int k = 0; k < 12; ++k) {
            uint32_t r[8];
            for (int j = 0; j < 8; ++j) r[j] = (uint32_t)(mc::mix(i * 1000 + k * 16 + j) & 0xffffff);
            Path p = (i + k) & 1 ? IMBE72_F : IMBE71_F;
            for (int j = 0; j < 8; ++j) r[j] &= p == IMBE72_F ? ref::imbe72_mask()[j] : j < 7 ? ref::imbe71_mask()[j] : 0;
            Ev e = raw(p, r, "arbitrary" + std::to_string(i * 100 + k));
            sm::judge(A, B, e, s, 5 + k, hs);
            hs += " > " + e.name;
        }
        mc::traces();
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
