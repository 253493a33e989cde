// The range every carried field must stay in, whatever was received.
#pragma once
#include "sm_events.hpp"
inline std::string bad_model(const mbe_parms& m, const char* who) {
    char b[160];
#define BAD(...) do { snprintf(b, sizeof b, __VA_ARGS__); return std::string(who) + "." + b; } while (0)
    if (m.L < 9 || m.L > 56) BAD("L is %d", m.L);
    if (m.K < 0 || m.K > 12) BAD("K is %d", m.K);
    if (!std::isfinite(m.w0) || m.w0 < 0 || m.w0 > 3.15f) BAD("w0 is %g", m.w0);
    if (!std::isfinite(m.gamma) || std::fabs(m.gamma) > 1000) BAD("gamma is %g", m.gamma);
    for (int l = 1; l <= m.L; ++l) {
        if (m.Vl[l] != 0 && m.Vl[l] != 1) BAD("Vl[%d] is %d", l, m.Vl[l]);
        if (!std::isfinite(m.Ml[l]) || m.Ml[l] < 0 || m.Ml[l] > 1e18f) BAD("Ml[%d] is %g", l, m.Ml[l]);
        if (!std::isfinite(m.log2Ml[l]) || std::fabs(m.log2Ml[l]) > 300) BAD("log2Ml[%d] is %g", l, m.log2Ml[l]);
    }
    for (int l = 0; l <= 56; ++l) {
        if (!std::isfinite(m.PHIl[l])) BAD("PHIl[%d] is %g", l, m.PHIl[l]);
        if (!std::isfinite(m.PSIl[l])) BAD("PSIl[%d] is %g", l, m.PSIl[l]);
    }
    if (!std::isfinite(m.localEnergy) || m.localEnergy < 10000 * .999f) BAD("localEnergy is %g", m.localEnergy);
    if (m.amplitudeThreshold < 0) BAD("amplitudeThreshold is %d", (int)m.amplitudeThreshold);
    if (!std::isfinite(m.errorRate) || m.errorRate < 0 || m.errorRate > 0.43f) BAD("errorRate is %g", m.errorRate);
    if (m.errorCountTotal < 0 || m.errorCountTotal > 20) BAD("errorCountTotal is %d", m.errorCountTotal);
    if (m.errorCount4 < 0 || m.errorCount4 > 1) BAD("errorCount4 is %d", m.errorCount4);
    if (m.repeatCount < 0 || m.repeatCount > 4) BAD("repeatCount is %d", m.repeatCount);
    if (m.repeat < 0 || m.repeat > 4) BAD("repeat is %d", m.repeat);
    if (std::fabs(m.mutingThreshold - .0875f) > 1e-5 && std::fabs(m.mutingThreshold - .096f) > 1e-5) BAD("mutingThreshold is %g", m.mutingThreshold);
    if (m.noiseSeed != -1.0f && !(m.noiseSeed >= 0 && m.noiseSeed < 53125)) BAD("noiseSeed is %g", m.noiseSeed);
    for (int i = 0; i < 96; ++i) if (!(m.noiseOverlap[i] >= 0 && m.noiseOverlap[i] < 53125)) BAD("noiseOverlap[%d] is %g", i, m.noiseOverlap[i]);
    for (int i = 0; i < 256; ++i) if (!std::isfinite(m.previousUw[i])) BAD("previousUw[%d] is %g", i, m.previousUw[i]);
    return "";
}
