// C15: 16-bit output is exactly the converted float output.
#include "cold.hpp"
#include "sm_events.hpp"

static inline short convert(float x) {
    float a = 7.0f * x;
    const float m = 32767.0f * 0.95f;
    if (a > m) a = m;
    if (a < -m) a = -m;
    return (short)a;
}
static const char* builds[] = {"scalar", "simd", "O0", "O3", "fast", "release", "clang", "neon", "neon32"};
static void check() {
    // every float value that is a number
    for (const char* b : builds) {
        if (!have(b)) continue;
        Lib& L = lib(b);
        const uint64_t CH = 1 << 20;
        bool all = mc::thorough || !strcmp(b, "scalar") || !strcmp(b, "simd") || !strcmp(b, "release") || !strcmp(b, "neon");
        // the other builds: every float whose result is not constant (2^-5..2^13 in magnitude), both signs, every third chunk elsewhere
        mc::group((std::string(b) + "-values").c_str(), (1ull << 32) / CH, [&](uint64_t c) {
            uint32_t mag = (uint32_t)(c * CH) & 0x7fffffffu;
            if (!all && !(mag >= 0x3d000000u && mag < 0x46000000u) && c % 3) return;
            static float in[160 * 64];
            static short out[160 * 64];
            uint64_t u = c * CH, end = u + CH;
            while (u < end) {
                int n = 0;
                uint64_t first = u;
                for (; n < 160 * 64 && u < end; ++u) {
                    if (((uint32_t)u & 0x7fffffffu) > 0x7f800000u) continue;
                    uint32_t w = (uint32_t)u;
                    memcpy(&in[n++], &w, 4);
                }
                int used = n;
                if (!used) continue;
                for (; n % 160; ++n) in[n] = 0;
                for (int k = 0; k < n; k += 160) L.f_floattoshort(in + k, out + k);
                mc::transitions(n / 160);
                for (int k = 0; k < used; ++k)
                    if (out[k] != convert(in[k])) mc::fail("%s: floattoshort(%.9g) = %d, expected %d (position %d)", b, in[k], out[k], convert(in[k]), k % 160);
                (void)first;
            }
            mc::traces();
            mc::state(mc::hash(out, sizeof out, c));
            if (c == 1080) mc::sample("%s: all 2^20 floats with upper bits 0x%03llx", b, (unsigned long long)c);
        });
        // positions: each value at each position, neighbours arbitrary (and NaN-free)
        mc::group((std::string(b) + "-positions").c_str(), 160, [&](uint64_t pos) {
            static const float vals[] = {0, -0.0f, 0.1f, -0.1f, 0.142857f, 0.1428572f, -0.1428572f, 1, -1, 100.3f, -100.3f, 4446, 4447, -4446, -4447, 4446.95f, 4681, -4681, 1e4f, -1e4f, 1e9f, -1e9f, 3e38f, -3e38f, 1e-40f, 613566752.0f, 306783379.0f};
            float in[160];
            short out[160];
            for (float v : vals)
                for (int k = 0; k < 64; ++k) {
                    for (int i = 0; i < 160; ++i) { double u = (mc::mix(k * 160 + i) >> 11) * 0x1p-53; in[i] = (float)((u - .5) * (k % 4 == 0 ? 2e4 : k % 4 == 1 ? 10 : k % 4 == 2 ? 1e20 : 9000)); }
                    in[pos] = v;
                    memset(out, 0x33, sizeof out);
                    L.f_floattoshort(in, out);
                    mc::transitions();
                    for (int i = 0; i < 160; ++i) if (out[i] != convert(in[i])) mc::fail("%s: position %d holds %d for %.9g, expected %d", b, i, out[i], in[i], convert(in[i]));
                }
            mc::traces();
        });
    }
    // frame histories in lockstep: one copy decodes to float, one to 16 bits
    for (const char* b : {"scalar", "simd", "fast", "release", "neon"}) {
        if (!have(b)) continue;
        if (!mc::thorough && (!strcmp(b, "fast"))) continue;
        Lib& A = lib(b);
        Lib& B = lib((std::string(b) == "scalar" ? "scalar2" : std::string(b) == "simd" ? "simd2" : std::string(b) == "release" ? "release2" : std::string(b) == "neon" ? "neon_2" : "fast"));
        std::vector<Ev> sets[3] = {imbe_events(false), a2450_events(false), a2400_events(false)};
        for (int c = 0; c < 3; ++c) {
            auto& ev = sets[c];
            size_t n = ev.size();
            mc::group((std::string(b) + "-lockstep-" + path_name(c == 0 ? IMBE_D : c == 1 ? A2450_D : A2400_D)).c_str(), n * n, [&](uint64_t i) {
                for (size_t j = 0; j < n; ++j) {
                    if (!mc::thorough && strcmp(b, "scalar") && j % 4) continue;
                    State a, s;
                    init(A, a); init(B, s);
                    std::string h = b;
                    size_t seq[3] = {i / n, i % n, j};
                    for (size_t q : seq) {
                        Out x, y;
                        h += " > " + ev[q].name;
                        A.f_setThreadRngSeed(3 + (uint32_t)q); step(A, ev[q], a, x, false);
                        B.f_setThreadRngSeed(3 + (uint32_t)q); step(B, ev[q], s, y, true);
                        mc::transitions();
                        if (strcmp(x.str, y.str)) mc::fail("%s: trace \"%s\" in the float form, \"%s\" in the 16-bit form", h.c_str(), x.str, y.str);
                        if (memcmp(&a, &s, sizeof a)) mc::fail("%s: the 16-bit form leaves another state: %s", h.c_str(), sm::diff(s, a).c_str());
                        if (memcmp(x.d, y.d, nbits(ev[q].path)) || x.errs2 != y.errs2 || x.errs != y.errs) mc::fail("%s: bits or counts differ between the forms", h.c_str());
                        for (int k = 0; k < 160; ++k) if (y.pcm16[k] != convert(x.pcm[k])) mc::fail("%s: sample %d is %d, the float form's %.9g converts to %d", h.c_str(), k, y.pcm16[k], x.pcm[k], convert(x.pcm[k]));
                        mc::state(mc::hash(y.pcm16, sizeof y.pcm16));
                    }
                    mc::traces();
                }
                if (i == 7 && !strcmp(b, "scalar")) mc::sample("%s > %s > every frame: float and 16-bit decoders in lockstep", ev[i / n].name.c_str(), ev[i % n].name.c_str());
            });
        }
        // the first calls of a freshly loaded library on a new thread, nothing seeded: every pair of calls with two forms
        if (!strcmp(b, "scalar") || !strcmp(b, "simd") || mc::thorough) {
            static std::vector<Ev> all;
            all.clear();
            for (auto& v : sets) for (size_t k = 0; k < v.size(); k += mc::thorough ? 1 : 3) all.push_back(v[k]);
            enum { NOISE, SPEECH, LOUD, SILENCE, PRIM };
            static const char* pn[PRIM] = {"comfort noise", "speech", "muted speech", "silence"};
            size_t n = all.size() + PRIM;
            Cold KA(A), KB(B);
            auto one = [&](Lib& X, size_t k, State& s, Out& o, bool s16) {
                memset(&o, 0, sizeof o);
                if (k >= PRIM) return step(X, all[k - PRIM], s, o, s16);
                mbe_parms c = s.cur, p = s.enh;
                if (k == LOUD) c.errorRate = 0.4f;
                if (k == NOISE) s16 ? X.f_synthesizeComfortNoise(o.pcm16) : X.f_synthesizeComfortNoisef(o.pcm);
                else if (k == SILENCE) s16 ? X.f_synthesizeSilence(o.pcm16) : X.f_synthesizeSilencef(o.pcm);
                else { s16 ? X.f_synthesizeSpeech(o.pcm16, &c, &p, 3) : X.f_synthesizeSpeechf(o.pcm, &c, &p, 3); s.cur = c; s.prev = p; }
            };
            mc::group((std::string(b) + "-first-calls").c_str(), n * n, [&](uint64_t i) {
                size_t seq[4] = {i / n, i % n, NOISE, i / n};
                static State a[4], s[4];
                static Out x[4], y[4];
                memset(x, 0, sizeof x); memset(y, 0, sizeof y);
                KA.run([&] { State t; init(A, t); for (int k = 0; k < 4; ++k) { one(A, seq[k], t, x[k], false); a[k] = t; } });
                KB.run([&] { State t; init(B, t); for (int k = 0; k < 4; ++k) { one(B, seq[k], t, y[k], true); s[k] = t; } });
                mc::transitions(8);
                mc::traces();
                mc::state(mc::hash(y, sizeof y));
                for (int k = 0; k < 4; ++k) {
                    auto h = [&] { std::string t = std::string(b) + ", first calls of a thread"; for (int j = 0; j <= k; ++j) t += std::string(" > ") + (seq[j] < PRIM ? pn[seq[j]] : all[seq[j] - PRIM].name.c_str()); return t; };
                    if (memcmp(&a[k], &s[k], sizeof(State))) mc::fail("%s: the 16-bit form leaves another state: %s", h().c_str(), sm::diff(s[k], a[k]).c_str());
                    if (strcmp(x[k].str, y[k].str)) mc::fail("%s: trace \"%s\" in the float form, \"%s\" in the 16-bit form", h().c_str(), x[k].str, y[k].str);
                    for (int q = 0; q < 160; ++q) if (y[k].pcm16[q] != convert(x[k].pcm[q])) mc::fail("%s: sample %d is %d, the float form's %.9g converts to %d", h().c_str(), q, y[k].pcm16[q], x[k].pcm[q], convert(x[k].pcm[q]));
                }
                if (i == 5 && !strcmp(b, "scalar")) mc::sample("%s > %s > noise as the first calls of a fresh library, float and 16-bit", pn[0], all[1].name.c_str());
            });
        }
        // synthesis entry points with two forms
        mc::group((std::string(b) + "-synthesis").c_str(), 200, [&](uint64_t i) {
            auto ev = imbe_events(false);
            State a, s;
            init(A, a); init(B, s);
            for (int k = 0; k < 20; ++k) {
                Out x, y;
                A.f_setThreadRngSeed(k); step(A, ev[(i + k * 3) % ev.size()], a, x);
                B.f_setThreadRngSeed(k); step(B, ev[(i + k * 3) % ev.size()], s, y);
                mbe_parms c1 = a.cur, p1 = a.prev, c2 = s.cur, p2 = s.prev;
                A.f_synthesizeSpeechf(x.pcm, &c1, &p1, 3); B.f_synthesizeSpeech(y.pcm16, &c2, &p2, 3);
                for (int n = 0; n < 160; ++n) if (y.pcm16[n] != convert(x.pcm[n])) mc::fail("synthesizeSpeech: sample %d is %d, float form %.9g", n, y.pcm16[n], x.pcm[n]);
                if (memcmp(&c1, &c2, sizeof c1) || memcmp(&p1, &p2, sizeof p1)) mc::fail("synthesizeSpeech leaves another state than its float form");
                A.f_setThreadRngSeed(i * 20 + k); B.f_setThreadRngSeed(i * 20 + k);
                for (int r = 0; r < 3; ++r) {
                    A.f_synthesizeComfortNoisef(x.pcm); B.f_synthesizeComfortNoise(y.pcm16);
                    for (int n = 0; n < 160; ++n) if (y.pcm16[n] != convert(x.pcm[n])) mc::fail("synthesizeComfortNoise: sample %d is %d, float form %.9g", n, y.pcm16[n], x.pcm[n]);
                }
                A.f_synthesizeSilencef(x.pcm); B.f_synthesizeSilence(y.pcm16);
                for (int n = 0; n < 160; ++n) if (y.pcm16[n] || x.pcm[n]) mc::fail("silence sample %d is not zero", n);
                mc::transitions(5);
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
