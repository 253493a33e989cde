// C19: comfort noise is the seeded uniform sequence at the documented level.
#include "sm_events.hpp"
#include <thread>

struct Java {
    uint64_t s;
    explicit Java(uint32_t seed) { s = ((uint64_t)(seed ? seed : 0x6d25357bu) ^ 0x5DEECE66Dull) & ((1ull << 48) - 1); }
    uint32_t next24() { s = (s * 0x5DEECE66Dull + 0xB) & ((1ull << 48) - 1); return (uint32_t)(s >> 24); }
    double next() { return ((double)next24() / 16777216.0 * 2 - 1) * (0.003 * 32767.0 / 7.0); }
};
constexpr uint32_t DEFAULT = 0x12345678u;
static void expect_noise(const float* o, Java& j, const char* what) {
    for (int i = 0; i < 160; ++i) {
        double w = j.next();
        if (!(std::fabs(o[i] - w) <= 1e-6 + 1e-6 * std::fabs(w))) mc::fail("%s: sample %d is %.9g, the sequence has %.9g", what, i, o[i], w);
    }
}
static void expect_noise16(const short* o, Java& j, const char* what) {
    for (int i = 0; i < 160; ++i) {
        double w = j.next() * 7;
        if (o[i] != (short)w && std::fabs(w - std::round(w)) > 1e-4) mc::fail("%s: 16-bit sample %d is %d, the sequence has %.4f", what, i, o[i], w);
    }
}
static void in_thread(const std::function<void()>& f) {
    bool bad = false;
    std::thread t([&] { try { f(); } catch (mc::Fail&) { bad = true; } });
    t.join();
    if (bad) throw mc::Fail{};
}
static void check() {
    Lib& L = lib("scalar");
    // seeds
    uint64_t chunk = 4096, total = mc::thorough ? (1ull << 32) : (1ull << 22);
    mc::group("seeds", total / chunk, [&](uint64_t i) {
        float o[160];
        for (uint64_t k = 0; k < chunk; ++k) {
            uint32_t seed = (uint32_t)(mc::thorough ? i * chunk + k : (i * chunk + k < (1u << 21) ? i * chunk + k : mc::mix(i * chunk + k)));
            L.f_setThreadRngSeed(seed);
            Java j(seed);
            L.f_synthesizeComfortNoisef(o);
            mc::transitions();
            for (int n = 0; n < 160; ++n) {
                float w = (float)j.next();
                if (o[n] != w && !(std::fabs(o[n] - w) <= 2e-6f)) mc::fail("seed %u: sample %d is %.9g, the sequence has %.9g", seed, n, o[n], w);
            }
        }
        mc::traces();
        mc::state(mc::hash(o, sizeof o));
        if (i == 5) mc::sample("seeds %llu..%llu: 160 samples each", (unsigned long long)(i * chunk), (unsigned long long)(i * chunk + chunk - 1));
    });
    // every sequence of calls: the generator is consumed by comfort noise alone, 160 draws each
    int depth = mc::thorough ? 7 : 5, n = 9;
    uint64_t tot = 1;
    for (int d = 0; d < depth; ++d) tot *= n;
    Ev voice = make(A2450_D, a2450_bits(30, 3, 9, 4), 0, 0, 0, "voice"), eras = make(A2450_D, a2450_erasure(120, 9), 0, 0, 0, "erasure"), tone = make(A2450_D, a2450_tone(40, 90), 0, 0, 0, "tone");
    Ev imbe = make(IMBE_D, imbe_bits(100, 0, 20, 3), 0, 0, 0, "imbe"), dtone = make(A2400_D, a2400_tone(140), 0, 0, 0, "dstar unplayable tone"), imb = make(IMBE_D, imbe_bits(230, 0, 0, 3), 0, 0, 0, "imbe invalid");
    for (bool seeded : {true, false})
        mc::group(seeded ? "sequences" : "sequences-new-thread", seeded ? tot : tot / 9, [&](uint64_t id) {
            in_thread([&] {
                State s[3];
                Out o;
                float f[160];
                short h[160];
                for (auto& x : s) init(L, x);
                uint32_t seed = seeded ? (uint32_t)(id % 7 * 0x1234567u) : DEFAULT;
                if (seeded) L.f_setThreadRngSeed(seed);
                Java j(seed);
                uint64_t x = id;
                std::string name = seeded ? "seed " + std::to_string(seed) : "unseeded thread";
                for (int d = 0; d < depth; ++d, x /= n) {
                    int op = (int)(x % n);
                    static const char* nm[] = {"noise float", "noise 16-bit", "voice frame", "erasure frame", "tone frame", "imbe frame", "unplayable D-STAR tone", "imbe invalid frame", "reseed"};
                    name += std::string(" > ") + nm[op];
                    mc::transitions();
                    switch (op) {
                        case 0: L.f_synthesizeComfortNoisef(f); expect_noise(f, j, name.c_str()); break;
                        case 1: L.f_synthesizeComfortNoise(h); expect_noise16(h, j, name.c_str()); break;
                        case 2: step(L, voice, s[0], o, d & 1); break;
                        case 3: step(L, eras, s[0], o); expect_noise(o.pcm, j, name.c_str()); break;
                        case 4: step(L, tone, s[0], o); break;
                        case 5: step(L, imbe, s[1], o, d & 1); break;
                        case 6: step(L, dtone, s[2], o, d & 1); if (d & 1) expect_noise16(o.pcm16, j, name.c_str()); else expect_noise(o.pcm, j, name.c_str()); break;
                        case 7: step(L, imb, s[1], o); if (strchr(o.str, 'M')) expect_noise(o.pcm, j, name.c_str()); break;
                        case 8: seed = seed * 69069u + 1; if (d == 2) seed = 0; L.f_setThreadRngSeed(seed); j = Java(seed); break;
                    }
                }
                L.f_synthesizeComfortNoisef(f);
                expect_noise(f, j, (name + " > noise").c_str());
                if (id == 12345) mc::sample("%s", name.c_str());
            });
            mc::traces();
        });
    // one long run: every one of the draws, no drift and no restart
    mc::group("long-run", 16, [&](uint64_t i) {
        uint32_t seed = i == 0 ? 0 : (uint32_t)mc::mix(i);
        L.f_setThreadRngSeed(seed);
        Java j(seed);
        float f[160];
        double lo = 0, hi = 0;
        for (int k = 0; k < (mc::thorough ? 400000 : 20000); ++k) {
            L.f_synthesizeComfortNoisef(f);
            mc::transitions();
            expect_noise(f, j, ("call " + std::to_string(k)).c_str());
            for (float v : f) { lo = std::fmin(lo, v); hi = std::fmax(hi, v); }
        }
        double lim = 0.003 * 32767 / 7;
        if (lo < -lim * 1.00001 || hi > lim * 1.00001 || lo > -lim * .999 || hi < lim * .999) mc::fail("range %g..%g, expected +-%g", lo, hi, lim);
        mc::traces();
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
