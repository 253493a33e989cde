// Every field of a parameter set with plausible values, to show what a result does not depend on.
#pragma once
#include "mc.hpp"
#include "lib.hpp"
#include <functional>
#include <string>
#include <vector>

namespace by {
enum Field : uint32_t { W0 = 1, BANDS = 2, KV = 4, VL = 8, ML = 16, LOG = 32, PHI = 64, PSI = 128, GAMMA = 256, UN = 512, SWN = 1024, REPEAT = 2048, RCOUNT = 4096, ERATE = 8192,
                        TOTAL = 1 << 14, C4 = 1 << 15, ENERGY = 1 << 16, THRESH = 1 << 17, MUTE = 1 << 18, SEED = 1 << 19, OVERLAP = 1 << 20, UW = 1 << 21, ALL = (1 << 22) - 1 };
inline double r01(uint64_t k) { return (mc::mix(k * 0x9E3779B97F4A7C15ull + 0x51) >> 11) * (1.0 / 9007199254740992.0); }
struct Var { Field f; int v; };
inline int values(Field f) {
    switch (f) {
        case W0: return 14;
        case BANDS: return 48;
        case KV: return 13;
        case VL: return 3 + 56 + 56 + 24;
        case ML: case LOG: return 10;
        case PHI: case PSI: return 6;
        case GAMMA: return 12;
        case UN: case SWN: return 12;
        case REPEAT: case RCOUNT: return 7;
        case ERATE: return 44;
        case TOTAL: return 33;
        case C4: return 4;
        case ENERGY: return 8;
        case THRESH: return 8;
        case MUTE: return 2;
        case SEED: return 9;
        case OVERLAP: case UW: return 5;
        default: return 0;
    }
}
inline const char* name(Field f) {
    static const char* n[] = {"w0", "L", "K", "Vl", "Ml", "log2Ml", "PHIl", "PSIl", "gamma", "un", "swn", "repeat", "repeatCount", "errorRate", "errorCountTotal", "errorCount4", "localEnergy", "amplitudeThreshold", "mutingThreshold", "noiseSeed", "noiseOverlap", "previousUw"};
    for (int i = 0; i < 22; ++i) if (f == 1u << i) return n[i];
    return "?";
}
inline void put(mbe_parms& m, Field f, int v) {
    switch (f) {
        case W0: m.w0 = v == 0 ? 0.f : v == 1 ? 3.1f : (float)(4 * 3.14159265358979 / (v * 17 + 5.5)); break;
        case BANDS: m.L = 9 + v; break;
        case KV: m.K = v; break;
        case VL:
            for (int l = 0; l <= 56; ++l) m.Vl[l] = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? l & 1 : v < 59 ? l == v - 2 : v < 115 ? l >= v - 58 : (int)(mc::mix(v * 61 + l) >> 8 & 1);
            break;
        case ML: for (int l = 0; l <= 56; ++l) m.Ml[l] = v == 0 ? 0.f : v == 1 ? 1.f : (float)(std::exp2(v * 2) * (v & 1 ? r01(v * 99 + l) : 1)); break;
        case LOG: for (int l = 0; l <= 56; ++l) m.log2Ml[l] = v == 0 ? 0.f : v == 1 ? 1.f : (float)(v & 1 ? 24 * r01(v * 99 + l) - 6 : v * 1.5 - 4); break;
        case PHI: for (int l = 0; l <= 56; ++l) m.PHIl[l] = v == 0 ? 0.f : (float)((v - 2.5) * (1 + r01(v * 77 + l))); break;
        case PSI: for (int l = 0; l <= 56; ++l) m.PSIl[l] = v == 0 ? 0.f : (float)((v - 2.5) * l * (1 + r01(v * 79 + l))); break;
        case GAMMA: m.gamma = v == 0 ? 0.f : v == 1 ? -1.f : (float)(1.37 * (v - 3)); break;
        case UN: case SWN: {
            static const uint32_t t[12] = {0, 1, 2, 3, 5, 160, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000u, 0xc0000000u, 0xffffffffu};
            (f == UN ? m.un : m.swn) = (int)t[v];
            break;
        }
        case REPEAT: m.repeat = v; break;
        case RCOUNT: m.repeatCount = v; break;
        case ERATE: m.errorRate = (float)(v * 0.0072 + (v ? 0.0003 : 0)); break;
        case TOTAL: m.errorCountTotal = v < 31 ? v : v == 31 ? 64 : 127; break;
        case C4: m.errorCount4 = v; break;
        case ENERGY: m.localEnergy = v == 0 ? 0.f : v == 1 ? 75000.f : (float)(10000 * std::exp2(v * 2 - 4)); break;
        case THRESH: m.amplitudeThreshold = v == 0 ? 0 : v == 1 ? 20480 : v == 2 ? 1 : 900 << v; break;
        case MUTE: m.mutingThreshold = v ? 0.096f : 0.0875f; break;
        case SEED: m.noiseSeed = v == 0 ? -1.f : v == 1 ? 0.f : v == 2 ? 3147.f : v == 3 ? 53124.f : (float)(v * 5701); break;
        case OVERLAP: for (int i = 0; i < 96; ++i) m.noiseOverlap[i] = v == 0 ? 0.f : (float)(int)(53125 * r01(v * 101 + i)); break;
        case UW: for (int i = 0; i < 256; ++i) m.previousUw[i] = v == 0 ? 0.f : (float)(v * 40 * (r01(v * 103 + i) - .5)); break;
        default: break;
    }
}
// every value of every field of the mask
inline std::vector<Var> each(uint32_t mask) {
    std::vector<Var> v;
    for (uint32_t f = 1; f < ALL; f <<= 1) if (mask & f) for (int i = 0; i < values((Field)f); ++i) v.push_back({(Field)f, i});
    return v;
}
// one combination of values of all fields of the mask
inline void scramble(mbe_parms& m, uint32_t mask, uint64_t k) {
    for (uint32_t f = 1; f < ALL; f <<= 1) if (mask & f) put(m, (Field)f, (int)(mc::mix(k * 0x9E3779B97F4A7C15ull + f) % (uint64_t)values((Field)f)));
}
inline std::string text(const Var& v) { return std::string(name(v.f)) + " value " + std::to_string(v.v); }
// first field in which two sets differ, of the mask
inline std::string diff(const mbe_parms& a, const mbe_parms& b, uint32_t mask) {
#define BY_CMP(f, x) if ((mask & f) && memcmp(&a.x, &b.x, sizeof a.x)) return name(f);
    BY_CMP(W0, w0) BY_CMP(BANDS, L) BY_CMP(KV, K) BY_CMP(VL, Vl) BY_CMP(ML, Ml) BY_CMP(LOG, log2Ml) BY_CMP(PHI, PHIl) BY_CMP(PSI, PSIl) BY_CMP(GAMMA, gamma) BY_CMP(UN, un) BY_CMP(SWN, swn)
    BY_CMP(REPEAT, repeat) BY_CMP(RCOUNT, repeatCount) BY_CMP(ERATE, errorRate) BY_CMP(TOTAL, errorCountTotal) BY_CMP(C4, errorCount4) BY_CMP(ENERGY, localEnergy) BY_CMP(THRESH, amplitudeThreshold)
    BY_CMP(MUTE, mutingThreshold) BY_CMP(SEED, noiseSeed) BY_CMP(OVERLAP, noiseOverlap) BY_CMP(UW, previousUw)
#undef BY_CMP
    return "";
}
}  // namespace by
