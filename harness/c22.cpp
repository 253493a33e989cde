// C22: voiced speech is the interpolated / windowed harmonic sum of the two frames.
#include "ref_synth.hpp"
using namespace rs;

static void fill(mbe_parms& m, int mode, uint64_t k, double amp) {
    for (int l = 1; l <= 56; ++l) {
        m.Ml[l] = l <= m.L ? (float)(amp * (.2 + u01(k + l))) : 0;
        m.Vl[l] = l > m.L ? 0 : mode == 0 ? 0 : mode == 1 ? 1 : (int)(mc::mix(k * 131 + l) >> 9 & 1);
        m.log2Ml[l] = 0;
    }
}
static void phases(mbe_parms& m, uint64_t k, double big) {
    for (int l = 1; l <= 56; ++l) { m.PSIl[l] = (float)(big * (u01(k * 3 + l) - .3)); m.PHIl[l] = (float)(m.PSIl[l] + 4 * (u01(k * 5 + l) - .5)); }
}
static void noise(mbe_parms& m, uint64_t k) {
    m.noiseSeed = (float)(mc::mix(k) % MOD);
    for (int i = 0; i < 96; ++i) m.noiseOverlap[i] = (float)(mc::mix(k * 977 + i) % MOD);
}
static void tail(mbe_parms& m, uint64_t k, double a) { for (int i = 0; i < 256; ++i) m.previousUw[i] = (float)(a * (u01(k * 7 + i) - .5)); }

static void check() {
    for (const char* variant : {"scalar", "simd", "neon", "neon32"}) {
        if (!have(variant)) continue;
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        // every pair of consecutive pitches, all bands, five voicing combinations
        static const int modes[6][2] = {{1, 1}, {0, 1}, {1, 0}, {2, 2}, {2, 1}, {0, 0}};
        mc::group(G("pitch-pairs").c_str(), 208, [&](uint64_t cb) {
            for (int pb = first || mc::thorough ? 0 : (int)cb % 5; pb < 208; pb += first || mc::thorough ? 1 : 5)
                for (int k = 0; k < 6; ++k) {
                    if (!mc::thorough && (cb + pb + k) % 2) continue;
                    uint64_t id = (cb * 208 + pb) * 6 + k;
                    mbe_parms c, p;
                    clean(c); clean(p);
                    imbe_pitch(c, (int)cb); imbe_pitch(p, pb);
                    fill(c, modes[k][1], id * 2 + 1, 12); fill(p, modes[k][0], id * 2 + 2, 12);
                    phases(p, id, k & 1 ? 3000 : 6); noise(c, id); tail(p, id, id % 3 ? 30 : 0);
                    judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, "pitch " + std::to_string(pb) + " -> " + std::to_string(cb) + ", voicing " + std::to_string(k));
                }
            mc::traces();
            if (first && cb == 30) mc::sample("pitch code 0..207 -> 30, voicing all/none/mixed on either side: phases and samples against the harmonic sum");
        });
        // one sounding band at a time
        mc::group(G("single-band").c_str(), 208, [&](uint64_t cb) {
            static const int dp[] = {0, 1, -1, 3, -9, 17, -40, 90};
            for (int d : dp) {
                int pb = (int)cb + d;
                if (pb < 0 || pb > 207) continue;
                for (int l = 1; l <= 56; ++l) {
                    if (!first && (l + cb) % 3) continue;
                    for (int k = 0; k < 3; ++k) {
                        mbe_parms c, p;
                        clean(c); clean(p);
                        imbe_pitch(c, (int)cb); imbe_pitch(p, pb);
                        if (l > std::max(c.L, p.L)) continue;
                        uint64_t id = ((cb * 8 + d + 50) * 60 + l) * 3 + k;
                        for (int j = 1; j <= 56; ++j) { c.Vl[j] = j <= c.L && (mc::mix(id + j) & 4); p.Vl[j] = j <= p.L && (mc::mix(id * 3 + j) & 4); }
                        if (l <= c.L) { c.Ml[l] = k == 1 ? 0.f : 500.f; c.Vl[l] = k != 1; }
                        if (l <= p.L) { p.Ml[l] = k == 2 ? 0.f : 700.f; p.Vl[l] = k != 2; }
                        phases(p, id, 6.2); noise(c, id);
                        // leftovers above the band counts must not sound
                        for (int j = c.L + 1; j <= 56; ++j) { c.Ml[j] = 900; c.Vl[j] = j & 1; }
                        for (int j = p.L + 1; j <= 56; ++j) { p.Ml[j] = 800; p.Vl[j] = j & 2 ? 1 : 0; }
                        judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, "single band " + std::to_string(l) + ", pitch " + std::to_string(pb) + " -> " + std::to_string(cb) + ", case " + std::to_string(k));
                    }
                }
            }
            mc::traces();
        });
        // share of unvoiced bands: every count for every band number, and the noise value behind the jitter
        mc::group(G("jitter").c_str(), 48, [&](uint64_t i) {
            int bands = 9 + (int)i;
            for (int uv = 0; uv <= bands; ++uv)
                for (int k = 0; k < (first ? 24 : 6); ++k) {
                    mbe_parms c, p;
                    clean(c); clean(p);
                    c.L = bands; p.L = 9 + (k * 11) % 48;
                    c.w0 = (float)(.9254 * PI / (bands + .8)); p.w0 = (float)(.9254 * PI / (p.L + .8));
                    for (int l = 1; l <= bands; ++l) { c.Ml[l] = 3; c.Vl[l] = (k & 1) ? l > uv : l <= bands - uv; }
                    for (int l = 1; l <= p.L; ++l) { p.Ml[l] = 2; p.Vl[l] = l & 1; }
                    phases(p, k, 6); noise(c, bands * 1000 + uv * 24 + k);
                    if (k == 5) { c.noiseSeed = -1; }
                    judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, std::to_string(uv) + " of " + std::to_string(bands) + " bands unvoiced, noise " + std::to_string(k));
                }
            mc::traces();
        });
        // AMBE pitches, silent and erased predecessors
        mc::group(G("ambe").c_str(), 122, [&](uint64_t cb) {
            for (int pb = 0; pb < 122; ++pb) {
                mbe_parms c, p;
                clean(c); clean(p);
                auto pitch = [&](mbe_parms& m, int b) { if (b < 120) ambe2450_pitch(m, b); else if (b == 120) { m.w0 = 0; m.L = 9; } else { m.w0 = (float)(PI * PI / 16); m.L = 15; } };
                pitch(c, (int)cb); pitch(p, pb);
                fill(c, cb == 120 ? 0 : 2, cb * 200 + pb, 25); fill(p, pb == 120 ? 0 : 2, pb * 200 + cb + 9, 25);
                phases(p, cb + pb, 40); noise(c, cb * 3 + pb); tail(p, cb, 20);
                judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, "AMBE pitch " + std::to_string(pb) + " -> " + std::to_string(cb));
            }
            mc::traces();
        });
        // soft clip: loud models
        mc::group(G("clip").c_str(), 64, [&](uint64_t i) {
            for (int k = 0; k < 40; ++k) {
                mbe_parms c, p;
                clean(c); clean(p);
                imbe_pitch(c, (int)(i * 3)); imbe_pitch(p, (int)(i * 3 + k % 8));
                fill(c, 1, i * 50 + k, 60 + k * 8); fill(p, 1 + (k & 1), i * 50 + k + 7777, 60 + k * 8);
                phases(p, i, 5); noise(c, i * k);
                judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, "loud model " + std::to_string(k));
            }
            mc::traces();
        });
        // histories: every order of models, phases carried by the library itself
        int nm = 7, depth = mc::thorough ? 6 : first ? 5 : 4;
        uint64_t n = 1;
        for (int d = 0; d < depth; ++d) n *= nm;
        mc::group(G("histories").c_str(), n, [&](uint64_t id) {
            mbe_parms c, p;
            clean(c); clean(p);
            imbe_pitch(p, 134);
            for (int l = 1; l <= 56; ++l) p.Ml[l] = 1;
            c = p;
            uint64_t x = id;
            std::string h = "history";
            for (int d = 0; d < depth; ++d, x /= nm) {
                int k = (int)(x % nm);
                static const int b[7] = {60, 63, 64, 0, 207, 130, 61};
                imbe_pitch(c, b[k]);
                fill(c, k == 5 ? 0 : k & 1 ? 1 : 2, k * 91, 20);
                h += " > pitch " + std::to_string(b[k]);
                judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, h);
                p = c;
            }
            mc::traces();
            if (first && id == 12345) mc::sample("%s", h.c_str());
        });
        // what else the two sets hold does not matter
        std::vector<by::Var> cv = by::each(CUR_FREE), pv = by::each(PREV_FREE);
        mc::group(G("bystanders").c_str(), 330, [&](uint64_t b) {
            for (int k = 0; k < (mc::thorough ? 40 : first ? 4 : 1); ++k) {
                mbe_parms c, p;
                clean(c); clean(p);
                auto pitch = [&](mbe_parms& m, int x) { if (x < 208) imbe_pitch(m, x); else if (x < 328) ambe2450_pitch(m, x - 208); else { m.w0 = (float)(PI * PI / 16); m.L = x == 328 ? 15 : 9; } };
                pitch(c, (int)b); pitch(p, (int)((b * (k & 1 ? 1 : 71) + k) % 330));
                fill(c, 1 + (k & 1), b * 9 + k, 14); fill(p, 1 + (k >> 1 & 1), b * 11 + k, 14);
                phases(p, b * 5 + k, 6); noise(c, b * 3 + k); tail(p, b + k, 20);
                same_frame(L, c, p, b * 8 + k, cv, pv, mc::thorough ? 400 : 60, "pitch " + std::to_string(b) + ", model " + std::to_string(k));
            }
            mc::traces();
        });
        // long run of one model: phases stay what the advance rule says
        mc::group(G("long-run").c_str(), 52, [&](uint64_t i) {
            mbe_parms c, p;
            clean(c); clean(p);
            imbe_pitch(p, (int)i * 4);
            c = p;
            for (int f = 0; f < (mc::thorough ? 3000 : 300); ++f) {
                imbe_pitch(c, (int)i * 4);
                fill(c, 2, i * 1000 + f, 20);
                judge(L, c, p, DEFAULT_SEED, PHASES | VOICED, "frame " + std::to_string(f) + " of a steady pitch");
                p = c;
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
