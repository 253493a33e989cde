// C11: AMBE 2400 (D-STAR) frame handling on every history.
#include "sm_events.hpp"
static void check() {
    Histories h;
    h.maxrep = 3;
    h.full = a2400_events(true);
    h.small = a2400_events(false);
    h.ers = {0.f, 0.004f, 0.0051f, 0.0126f, 0.0875f, 0.0959f, 0.0961f, 0.0962f, 0.12f, 0.5f};
    h.classes = {make(A2400_F, a2400_bits(60, 0, 45, 33), 0, 0, 0, "clean"), make(A2400_D, a2400_bits(0, 3, 30, 31), 0, 4, 0, "repeat-rule"),
                 make(A2400_F, a2400_tone(40), 0, 1, 0, "tone"), make(A2400_F, a2400_tone(5), 1, 3, 0, "tone-errors"),
                 make(A2400_D, a2400_tone(140), 0, 0, 0, "tone-bad"), make(A2400_D, a2400_bits(125, 9, 40, 32), 0, 3, 0, "three")};
    h.pitches = 128;
    h.variety = [](int b0, uint64_t k) {
        std::vector<Ev> v;
        auto add = [&](Path p, int c0, int t) { v.push_back(make(p, a2400_bits(b0, -1, -1, 9000 + b0 * 64 + k * 8 + v.size()), c0, t, 0, "b0=" + std::to_string(b0) + "/" + std::to_string(k))); };
        add(A2400_F, 0, 0); add(A2400_F, 1, 2); add(A2400_F, 2, 3); add(A2400_F, 3, 5); add(A2400_D, 0, 1); add(A2400_D, 0, 4); add(A2400_D, 2, 3);
        return v;
    };
    h.run(mc::thorough ? 4 : 3);
    Lib &A = h.A, &B = h.B;
    // every tone index at every count
    mc::group("tone-grid", 256, [&](uint64_t idx) {
        for (int b0 : {126, 127})
            for (int t = 0; t <= 6; ++t)
                for (int c0 = 0; c0 <= (t < 4 ? t : 4); ++c0)
                    for (int rep : {0, 1, 3}) {
                        Bits d = a2400_tone((int)idx, 5 + idx);
                        put_bits(d, {0, 1, 2, 3, 4, 5, 48}, b0);
                        State s;
                        h.start(s, 2);
                        put_history(s, 0.02f, rep);
                        sm::judge(A, B, make(A2400_D, d, c0, t, 0, "tone" + std::to_string(idx)), s, 4, "2 warm frames, " + std::to_string(rep) + " repeats");
                        if (c0 <= 3 && t - c0 <= 3) { h.start(s, 2); sm::judge(A, B, make(A2400_F, d, c0, t, 0, "tone" + std::to_string(idx)), s, 4, "2 warm frames"); }
                        mc::traces(2);
                    }
    });
    // a tone stays audible for as long as it is sent, and voice continues after it
    mc::group("tone-runs", 118, [&](uint64_t k) {
        State s;
        h.start(s, 3);
        Ev t = make(A2400_F, a2400_tone(5 + (int)k, k), (int)(k & 1), (int)((k & 1) + k % 2), 0, "tone" + std::to_string(5 + k));
        for (int i = 0; i < 10; ++i) {
            Out o;
            sm::judge(A, B, t, s, 60 + i, "run of " + std::to_string(i), &o);
            double e = 0;
            for (int n = 0; n < 160; ++n) e += (double)o.pcm[n] * o.pcm[n];
            if (!(std::sqrt(e / 160) > 100)) mc::fail("tone %d is not audible in frame %d of its run (rms %.3g)", 5 + (int)k, i, std::sqrt(e / 160));
        }
        sm::judge(A, B, h.full[0], s, 80, "after a tone");
        mc::traces();
    });
    mc::group("arbitrary-frames", mc::thorough ? 6000 : 600, [&](uint64_t i) {
        State s;
        h.start(s, 1);
        std::string hs = "warm";
        for (int k = 0; k < 12; ++k) {
            uint32_t r[8] = {};
            for (int j = 0; j < 4; ++j) r[j] = (uint32_t)mc::mix(i * 1000 + k * 16 + j + 7) & ref::ambe_mask()[j];
            Ev e = raw(A2400_F, r, "arbitrary" + std::to_string(i * 100 + k));
            sm::judge(A, B, e, s, 5 + k, hs);
            hs += " > " + e.name;
        }
        mc::traces();
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
