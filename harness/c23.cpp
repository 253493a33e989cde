// C23: the unvoiced part is the windowed noise spectrum with each unvoiced band at its decoded amplitude.
#include "ref_synth.hpp"
using namespace rs;

static void noise(mbe_parms& m, uint64_t k) {
    m.noiseSeed = (float)(mc::mix(k) % MOD);
    for (int i = 0; i < 96; ++i) m.noiseOverlap[i] = (float)(mc::mix(k * 977 + i) % MOD);
}
static void pitch(mbe_parms& m, int b) {
    if (b < 208) imbe_pitch(m, b);
    else if (b < 328) ambe2450_pitch(m, b - 208);
    else if (b == 328) { m.w0 = (float)(PI * PI / 16); m.L = 15; }
    else { m.w0 = 0; m.L = 9; }
}
static void check() {
    for (const char* variant : {"scalar", "simd", "neon", "neon32"}) {
        if (!have(variant)) continue;
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        // every pitch x voicing pattern x noise state; voiced bands silent so that only the unvoiced part sounds
        mc::group(G("patterns").c_str(), 330, [&](uint64_t b) {
            int patterns = mc::thorough ? 160 : 48;
            for (int k = 0; k < patterns; ++k) {
                mbe_parms c, p;
                clean(c); clean(p);
                pitch(c, (int)b); pitch(p, (int)((b * 37 + k) % 330));
                for (int l = 1; l <= c.L; ++l) {
                    int uv = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? l & 1 : k == 3 ? !(l & 1) : k < 8 ? l <= c.L * (k - 3) / 5 : (int)(mc::mix(b * 1000 + k * 60 + l) >> 7 & 1);
                    c.Vl[l] = !uv;
                    c.Ml[l] = uv ? (float)(1 + 30 * u01(b * 7000 + k * 57 + l)) : 0.f;
                }
                for (int l = 1; l <= 56; ++l) p.Vl[l] = l > p.L ? k & 1 : k % 4 == 0 ? 0 : k % 4 == 1 ? 1 : k % 4 == 2 ? l <= p.L - 3 : (int)(mc::mix(b * 999 + k * 61 + l) >> 9 & 1);
                for (int i = 0; i < 256; ++i) p.previousUw[i] = (float)(200 * (u01(b * 333 + k * 7 + i) - .5));
                noise(c, b * 100 + k);
                if (k == 9) c.noiseSeed = -1;
                judge(L, c, p, DEFAULT_SEED, BLOCK | UVAUDIO, "pitch " + std::to_string(b) + ", unvoiced pattern " + std::to_string(k));
            }
            mc::traces();
            if (first && b == 100) mc::sample("pitch 100, %d patterns of unvoiced bands with amplitudes 1..31 over distinct noise windows and previous blocks", patterns);
        });
        // one unvoiced band among voiced ones: its bins and nothing else
        mc::group(G("single-band").c_str(), 330, [&](uint64_t b) {
            for (int l = 1; l <= 56; ++l)
                for (int k = 0; k < (first ? 3 : 1); ++k) {
                    mbe_parms c, p;
                    clean(c); clean(p);
                    pitch(c, (int)b); pitch(p, (int)b);
                    if (l > c.L) continue;
                    for (int j = 1; j <= c.L; ++j) { c.Vl[j] = j != l; c.Ml[j] = j == l ? 100.f : k == 1 ? 40.f : 0.f; }
                    for (int j = c.L + 1; j <= 56; ++j) { c.Ml[j] = 90; c.Vl[j] = 0; }
                    p.L = k == 2 ? 56 : p.L;
                    noise(c, b * 57 + l);
                    judge(L, c, p, DEFAULT_SEED, BLOCK | (k == 1 ? 0 : UVAUDIO), "pitch " + std::to_string(b) + ", only band " + std::to_string(l) + " unvoiced, case " + std::to_string(k));
                }
            mc::traces();
        });
        // amplitude: the level is linear in the amplitude over the whole range
        mc::group(G("levels").c_str(), 66, [&](uint64_t i) {
            for (int e = -12; e <= 10; ++e) {
                mbe_parms c, p;
                clean(c); clean(p);
                pitch(c, (int)i * 5); pitch(p, (int)i * 5);
                for (int j = 1; j <= c.L; ++j) c.Ml[j] = (float)(std::ldexp(1.0, e) * (.5 + u01(j + i)));
                noise(c, i * 30 + e + 12);
                judge(L, c, p, DEFAULT_SEED, BLOCK | UVAUDIO, "pitch " + std::to_string(i * 5) + ", level 2^" + std::to_string(e));
            }
            mc::traces();
        });
        // consecutive frames: overlap-add of every order of models, blocks carried by the library
        int nm = 9, depth = mc::thorough ? 5 : first ? 4 : 3;
        uint64_t n = 1;
        for (int d = 0; d < depth; ++d) n *= nm;
        mc::group(G("histories").c_str(), n, [&](uint64_t id) {
            mbe_parms c, p;
            clean(c); clean(p);
            pitch(p, 134);
            c = p;
            std::string h = "history";
            uint64_t x = id;
            for (int d = 0; d < depth; ++d, x /= nm) {
                int k = (int)(x % nm);
                static const int b[9] = {60, 64, 0, 207, 300, 329, 207, 20, 207};
                pitch(c, b[k]);
                // all unvoiced; mixed; only the highest bands unvoiced; wholly voiced models, short and long (their bands silent)
                for (int l = 1; l <= 56; ++l) { c.Vl[l] = l <= c.L && (k == 1 ? (l & 3) == 0 : k == 6 ? l <= c.L - 4 : k >= 7); c.Ml[l] = l <= c.L && !c.Vl[l] ? 10.f + l * (k & 1) : 0.f; }
                h += " > pitch " + std::to_string(b[k]) + (k == 1 ? " mixed" : k == 6 ? " top bands unvoiced" : k >= 7 ? " voiced" : "");
                judge(L, c, p, DEFAULT_SEED, BLOCK | UVAUDIO, h);
                p = c;
            }
            mc::traces();
            if (first && id == 1321) mc::sample("%s", h.c_str());
        });
        // what else the two sets hold does not matter
        std::vector<by::Var> cv = by::each(CUR_FREE), pv = by::each(PREV_FREE);
        mc::group(G("bystanders").c_str(), 330, [&](uint64_t b) {
            for (int k = 0; k < (mc::thorough ? 40 : first ? 4 : 1); ++k) {
                mbe_parms c, p;
                clean(c); clean(p);
                pitch(c, (int)b); pitch(p, (int)((b * (k & 1 ? 1 : 71) + k) % 330));
                for (int l = 1; l <= 56; ++l) {
                    c.Vl[l] = l <= c.L && (mc::mix(b * 77 + k * 57 + l) & 3) == 0; c.Ml[l] = l <= c.L ? (float)(1 + 20 * u01(b * 70 + k * 57 + l)) : 0;
                    p.Vl[l] = l <= p.L && (mc::mix(b * 79 + k * 57 + l) & 3) == 0; p.Ml[l] = l <= p.L ? (float)(1 + 20 * u01(b * 71 + k * 57 + l)) : 0;
                }
                for (int i = 0; i < 256; ++i) p.previousUw[i] = (float)(60 * (u01(b * 333 + k * 7 + i) - .5));
                noise(c, b * 4 + k);
                if (k == 3) c.noiseSeed = -1;
                same_frame(L, c, p, b * 8 + k, cv, pv, mc::thorough ? 400 : 60, "pitch " + std::to_string(b) + ", model " + std::to_string(k));
            }
            mc::traces();
        });
        // every generator state shapes the block
        mc::group(G("generator-states").c_str(), first ? 53125 / 25 : 53125 / 125, [&](uint64_t i) {
            for (int k = 0; k < (first ? 25 : 5); ++k) {
                mbe_parms c, p;
                clean(c); clean(p);
                pitch(c, (int)(i % 330)); pitch(p, 100);
                for (int j = 1; j <= c.L; ++j) c.Ml[j] = 10;
                noise(c, i);
                c.noiseSeed = (float)(i * 25 + k);
                uint32_t s = (uint32_t)(i * 25 + k + 11);
                for (int q = 0; q < 96; ++q) { c.noiseOverlap[q] = (float)(s % MOD); s = lcg(s % MOD); }
                judge(L, c, p, DEFAULT_SEED, BLOCK | UVAUDIO, "generator state " + std::to_string(i * 25 + k));
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
