// C20: unvoiced noise advances 160 samples per frame, from every generator state.
#include "ref_synth.hpp"
#include <thread>
using namespace rs;

// what the frame's window was, from the outside: the phase jitter shows samples 1..56, the stored block the rest
static void observe(Lib& L, mbe_parms& c, mbe_parms& p, long start, const std::string& h, bool block) {
    judge(L, c, p, start, PHASES | NOISE_STATE | (block ? BLOCK : 0), h);
}
static void model(mbe_parms& m, int k) {
    static const int b[4] = {100, 20, 190, 60};
    imbe_pitch(m, b[k & 3]);
    for (int l = 1; l <= 56; ++l) { m.Ml[l] = l <= m.L ? 8.f : 0.f; m.Vl[l] = 0; }
}
static void stream(Lib& L, long start, int frames, const std::string& name, bool block, int shape) {
    mbe_parms c, p, e;
    L.f_initMbeParms(&c, &p, &e);
    // an independent run of the generator
    std::vector<uint32_t> seq(160 * frames + 300);
    uint32_t s = (uint32_t)start;
    for (auto& v : seq) { v = s; s = lcg(s); }
    for (int f = 0; f < frames; ++f) {
        model(c, shape + f);
        observe(L, c, p, start, name + ", frame " + std::to_string(f), block);
        // overlap after frame f are the last 96 samples of its window: f = 0 zeros, then seq[160 f - 96 .. 160 f)
        for (int i = 0; i < 96; ++i) {
            double w = f == 0 ? 0 : seq[160 * f - 96 + i];
            if (c.noiseOverlap[i] != (float)w) mc::fail("%s, frame %d: sample %d of the next window is %g, the continuous sequence has %g", name.c_str(), f, i, c.noiseOverlap[i], w);
        }
        if (c.noiseSeed != (float)seq[160 * f]) mc::fail("%s, frame %d: next state %g, the continuous sequence has %u", name.c_str(), f, c.noiseSeed, seq[160 * f]);
        p = c;
    }
    mc::traces();
}
static void check() {
    Lib& L = lib("scalar");
    int frames = mc::thorough ? 12 : 4;
    mc::group("seeds", 53125, [&](uint64_t i) {
        uint32_t seed = (uint32_t)i + (i % 3 == 0 ? 53125u * (uint32_t)(i % 77 + 1) : 0u);
        if (i == 0) seed = 53125;
        L.f_setThreadRngSeed(seed);
        stream(L, (long)(seed % 53125u), frames, "seed " + std::to_string(seed), mc::thorough || i % 8 == 0, (int)i);
        if (i == 777) mc::sample("seed 777: %d frames from initMbeParms, window by window against one continuous run of x' = (171 x + 11213) mod 53125", frames);
    });
    mc::group("states", 53125, [&](uint64_t i) {
        // any state with any overlap: next window and state
        mbe_parms c, p;
        clean(c); clean(p);
        model(c, (int)i); imbe_pitch(p, 100);
        c.noiseSeed = (float)i;
        for (int q = 0; q < 96; ++q) c.noiseOverlap[q] = (float)(mc::mix(i * 96 + q) % MOD);
        observe(L, c, p, DEFAULT_SEED, "state " + std::to_string(i), i % 16 == 0);
        mc::traces();
    });
    // edge seeds, and the default start of a thread that never seeded; the override serves one stream
    mc::group("start", 64, [&](uint64_t i) {
        static const uint32_t edge[] = {0, 1, 2, 53124, 53125, 53126, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x6d25357bu, 106250, 0x12345678u};
        std::string err;
        std::thread t([&] {
            try {
                Lib& A = lib("scalar");
                if (i < 12) {
                    A.f_setThreadRngSeed(edge[i]);
                    stream(A, seeded_start(edge[i]), 4, "seed " + std::to_string(edge[i]) + " on a new thread", true, 0);
                    // the next fresh stream of the thread starts from the default again
                    stream(A, DEFAULT_SEED, 4, "second stream after seed " + std::to_string(edge[i]), true, 1);
                    A.f_setThreadRngSeed(edge[i]);
                    A.f_setThreadRngSeed(edge[(i + 5) % 12]);
                    stream(A, seeded_start(edge[(i + 5) % 12]), 3, "seeded twice", true, 2);
                } else {
                    for (uint64_t k = 0; k < 1 + i % 3; ++k) stream(A, DEFAULT_SEED, 4, "unseeded thread, stream " + std::to_string(k), true, (int)i);
                }
            } catch (mc::Fail&) { err = "x"; }
        });
        t.join();
        if (!err.empty()) throw mc::Fail{};
    });
    // histories of received frames: every voice frame takes the window 160 samples after the previous voice frame's,
    // repeats and muted frames between them cost nothing
    struct H { const char* n; std::vector<Ev> ev; };
    std::vector<H> hs;
    Bits unv = imbe_bits(110, 0, 30, 12);
    hs.push_back({"imbe", {make(IMBE_D, unv, 0, 0, 0, "good"), make(IMBE_D, unv, 0, 9, 0, "repeat"), make(IMBE_D, imbe_bits(230, -1, -1, 3), 0, 0, 0, "invalid"), make(IMBE_D, imbe_bits(60, 0, 20, 5), 0, 2, 0, "other")}});
    hs.push_back({"ambe2450", {make(A2450_D, a2450_bits(30, 16, 12, 5), 0, 0, 0, "good"), make(A2450_D, a2450_bits(30, 16, 12, 5), 0, 5, 0, "repeat"), make(A2450_D, a2450_tone(40, 90), 0, 0, 0, "tone"), make(A2450_D, a2450_bits(80, 3, 12, 6), 0, 2, 0, "other")}});
    hs.push_back({"ambe2400", {make(A2400_D, a2400_bits(30, 15, 30, 5), 0, 0, 0, "good"), make(A2400_D, a2400_bits(30, 15, 30, 5), 0, 5, 0, "repeat"), make(A2400_D, a2400_bits(90, 3, 30, 6), 0, 1, 0, "other")}});
    for (auto& h : hs) {
        int n = (int)h.ev.size(), depth = mc::thorough ? 10 : 8;
        uint64_t total = 1;
        for (int d = 2; d < depth; ++d) total *= n;
        mc::group(h.n, total, [&](uint64_t id) {
            State s;
            init(L, s);
            uint32_t seed = 4000 + (uint32_t)(id % 100);
            L.f_setThreadRngSeed(seed);
            uint32_t st = seeded_start(seed);
            std::vector<uint32_t> seq(160 * (depth + 2));
            for (auto& v : seq) { v = st; st = lcg(st); }
            uint64_t x = id * n * n;
            int voice = 0, bad = 0;
            std::string name = h.n;
            for (int d = 0; d < depth; ++d, x /= n) {
                // a repeat of the very first frame restarts the sequence: begin with two good frames
                const Ev& e = h.ev[d < 2 ? (d ? n - 1 : 0) : x % n];
                Out o;
                name += " > " + e.name;
                step(L, e, s, o);
                mc::transitions();
                bool rep = strstr(e.name.c_str(), "repeat") || strstr(e.name.c_str(), "invalid");
                bool tone = strstr(e.name.c_str(), "tone");
                bad = rep ? bad + 1 : tone ? bad : 0;
                if (bad > 3 || s.cur.errorRate > 0.08f) break;  // limit reached: the model restarts
                if (rep || tone) continue;
                // current window must be number `voice` of the sequence: its last 96 samples are stored
                for (int i = 0; i < 96; i += 5) {
                    double w = voice == 0 ? 0 : seq[160 * voice - 96 + i];
                    if (s.cur.noiseOverlap[i] != (float)w) mc::fail("%s: window %d of the stream ends in %g at %d, the continuous sequence has %g", name.c_str(), voice, s.cur.noiseOverlap[i], i, w);
                }
                if (s.cur.noiseSeed != (float)seq[160 * voice]) mc::fail("%s: next state %g after window %d, the continuous sequence has %u", name.c_str(), s.cur.noiseSeed, voice, seq[160 * voice]);
                ++voice;
            }
            mc::traces();
            if (id == 100) mc::sample("%s", name.c_str());
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
