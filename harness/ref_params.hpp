// Independent double-precision model of the three parameter decoders.  The quantizer tables are the
// frozen copies in /verif/ref/tables (the codecs' published annex tables); everything else is derived.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
extern "C" {
#include "mbelib-neo/mbelib.h"
}
namespace reftab {
#include "tables/ambe3600x2400_const.h"
#include "tables/ambe3600x2450_const.h"
#include "tables/imbe7200x4400_const.h"
}  // namespace reftab
#undef MBEINT_AMBE3600X2400_CONST_H
#undef MBEINT_AMBE3600X2450_CONST_H

namespace ref {
constexpr double PI = 3.14159265358979323846;

enum Cls { VOICE = 0, SILENCE = 10, TONE = 7, ERASURE = 2, INVALID = 1, UNPLAYABLE = 3, DTONE = 20 };

struct Model {
    Cls cls = VOICE;
    int ret = 0;       // value the library's decoder returns
    int b0 = 0;
    double w0 = 0, gamma = 0, f0 = 0;
    int L = 0, K = -1;
    int V[57] = {};
    bool vamb[57] = {};  // voicing ambiguous: the band sits on a table-slot boundary
    double lg[57] = {};  // log2 amplitude
    double unvc = 1;     // factor on unvoiced amplitudes
    double scale = 1;    // magnitude of the numbers involved (for tolerances)
};

inline int bits(const uint8_t* d, std::initializer_list<int> idx) { int v = 0; for (int i : idx) v = v << 1 | d[i]; return v; }
inline int bits(const char* d, std::initializer_list<int> idx) { int v = 0; for (int i : idx) v = v << 1 | d[i]; return v; }

// predictor: interpolates the previous log amplitudes at l * Lprev / L
inline void predict(const mbe_parms& prev, int L, double prev0, double rho, const double* T, double base, Model& m) {
    double pl[60];
    int P = prev.L;
    pl[0] = prev0;
    for (int l = 1; l <= P && l < 57; ++l) pl[l] = prev.log2Ml[l];
    for (int l = P + 1; l < 60; ++l) pl[l] = prev.log2Ml[P];
    double in[57], mean = 0, mx = 0;
    for (int l = 1; l <= L; ++l) {
        double f = (double)P * l / L;
        int k = P * l / L;
        double dl = f - k;
        in[l] = (1 - dl) * pl[k] + dl * pl[k + 1];
        mean += in[l];
        mx = std::fmax(mx, std::fabs(in[l]));
    }
    mean /= L;
    for (int l = 1; l <= L; ++l) {
        m.lg[l] = T[l] + rho * in[l] - rho * mean + base;
        mx = std::fmax(mx, std::fabs(T[l]));
    }
    m.scale = std::fmax(1.0, std::fmax(mx, std::fabs(base)));
}

inline Model imbe_decode(const char* d, const mbe_parms& prev) {
    using namespace reftab;
    Model m;
    m.b0 = bits(d, {0, 1, 2, 3, 4, 5, 85, 86});
    if (m.b0 > 207) { m.cls = INVALID; m.ret = 1; return m; }
    m.w0 = 4 * PI / (m.b0 + 39.5);
    int L = m.L = (int)(0.9254 * (int)((m.b0 + 39.5) / 4 + 0.25));
    int K = m.K = L < 37 ? (L + 2) / 3 : 12;
    // distribute bits 6..84
    uint8_t bb[60][13] = {};
    for (int i = 0; i < 79; ++i) bb[bo[L - 9][i][0]][bo[L - 9][i][1]] = d[6 + i];
    auto field = [&](int f, int n) { int v = 0; for (int j = n - 1; j >= 0; --j) v = v << 1 | bb[f][j]; return v; };
    for (int l = 1; l <= L; ++l) { int k = K - 1 - (l - 1) / 3; m.V[l] = bb[1][k < 0 ? 0 : k]; }
    double G[7];
    G[1] = B2[field(2, 6)];
    for (int i = 2; i <= 6; ++i) {
        int n = (int)ba[L - 9][i - 2][0];
        G[i] = (double)ba[L - 9][i - 2][1] * (field(i + 1, n) - std::ldexp(1.0, n - 1) + 0.5);
    }
    double T[58] = {};
    int l = 1, f = 8;
    for (int i = 1; i <= 6; ++i) {
        double R = G[1];
        for (int k = 2; k <= 6; ++k) R += 2 * G[k] * std::cos(PI * (k - 1) * (i - 0.5) / 6);
        int J = ImbeJi[L - 9][i - 1];
        double C[16] = {};
        C[1] = R;
        for (int k = 2; k <= J; ++k, ++f) {
            int n = hoba[L - 9][f - 8];
            C[k] = n ? (double)quantstep[n - 1] * standdev[k - 2] * (field(f, n) - std::ldexp(1.0, n - 1) + 0.5) : 0;
        }
        for (int j = 1; j <= J; ++j, ++l) {
            double s = C[1];
            for (int k = 2; k <= J; ++k) s += 2 * C[k] * std::cos(PI * (k - 1) * (j - 0.5) / J);
            T[l] = s;
        }
    }
    double rho = L <= 15 ? 0.4 : L <= 24 ? 0.03 * L - 0.05 : 0.7;
    predict(prev, L, 0, rho, T, 0, m);
    return m;
}

// shared tail of the two AMBE decoders
inline void ambe_spectrum(Model& m, const mbe_parms& prev, const double* G, const int J[4], const double hoc[4][4], double dgamma) {
    double R[9];
    for (int i = 1; i <= 8; ++i) {
        R[i] = 0;
        for (int k = 2; k <= 8; ++k) R[i] += 2 * G[k] * std::cos(PI * (k - 1) * (i - 0.5) / 8);
    }
    double T[60] = {}, sum = 0;
    int l = 1;
    for (int i = 0; i < 4; ++i) {
        double C[20] = {};
        C[1] = 0.5 * (R[2 * i + 1] + R[2 * i + 2]);
        C[2] = (R[2 * i + 1] - R[2 * i + 2]) / (2 * std::sqrt(2.0));
        for (int k = 3; k <= J[i] && k <= 6; ++k) C[k] = hoc[i][k - 3];
        for (int j = 1; j <= J[i]; ++j, ++l) {
            double s = C[1];
            for (int k = 2; k <= J[i]; ++k) s += 2 * C[k] * std::cos(PI * (k - 1) * (j - 0.5) / J[i]);
            T[l] = s;
        }
    }
    for (int k = 1; k <= m.L; ++k) sum += T[k];
    m.gamma = dgamma + 0.5 * prev.gamma;
    double big = m.gamma - 0.5 * std::log2((double)m.L) - sum / m.L;
    predict(prev, m.L, prev.log2Ml[1], 0.65, T, big, m);
    m.unvc = 0.2046 / std::sqrt(m.w0);
}
inline void ambe_voicing(Model& m, const int (&row)[8]) {
    for (int l = 1; l <= m.L; ++l) {
        double x = l * 16.0 * m.f0;
        int j = (int)x;
        m.V[l] = row[j];
        int a = (int)(x - 2e-5), b = (int)(x + 2e-5);
        if (b > 7) b = 7;
        m.vamb[l] = row[a] != row[b];
    }
}

inline Cls ambe2450_class(const char* d, int total_errors, int* pb0 = nullptr) {
    int top6 = bits(d, {0, 1, 2, 3, 4, 5}), low4 = bits(d, {45, 46, 47, 48});
    int hi = bits(d, {12, 13, 14, 15}), lo = bits(d, {20, 21, 22, 23});
    int b0 = bits(d, {0, 1, 2, 3, 37, 38, 39});
    if (pb0) *pb0 = b0;
    if (top6 == 63 && (low4 == 0 || hi == lo) && total_errors < 6) return TONE;
    if (b0 >= 120 && b0 <= 123) return ERASURE;
    if (b0 >= 126) return ERASURE;
    if (b0 >= 124) return SILENCE;
    return VOICE;
}
inline Model ambe2450_decode(const char* d, const mbe_parms& prev, int total_errors = -1) {
    using namespace reftab;
    Model m;
    m.cls = ambe2450_class(d, total_errors, &m.b0);
    if (m.cls == TONE) { m.ret = 7; return m; }
    if (m.cls == ERASURE) { m.ret = 2; return m; }
    if (m.cls == SILENCE) { m.f0 = PI / 32; m.L = m.b0 == 124 ? 15 : 14; }
    else { m.f0 = AmbeW0table[m.b0]; m.L = (int)AmbeLtable[m.b0]; }
    m.w0 = m.f0 * 2 * PI;
    int b1 = bits(d, {4, 5, 6, 7, 35});
    if (m.cls == VOICE) ambe_voicing(m, AmbeVuv[b1]);
    int b2 = bits(d, {8, 9, 10, 11, 36}), b3 = bits(d, {12, 13, 14, 15, 16, 17, 18, 19, 40}), b4 = bits(d, {20, 21, 22, 23, 41, 42, 43});
    int b5 = bits(d, {24, 25, 26, 27, 44}), b6 = bits(d, {28, 29, 30, 45}), b7 = bits(d, {31, 32, 33, 46}), b8 = bits(d, {34, 47, 48});
    double G[9] = {0, 0, AmbePRBA24[b3][0], AmbePRBA24[b3][1], AmbePRBA24[b3][2], AmbePRBA58[b4][0], AmbePRBA58[b4][1], AmbePRBA58[b4][2], AmbePRBA58[b4][3]};
    double hoc[4][4];
    for (int k = 0; k < 4; ++k) { hoc[0][k] = AmbeHOCb5[b5][k]; hoc[1][k] = AmbeHOCb6[b6][k]; hoc[2][k] = AmbeHOCb7[b7][k]; hoc[3][k] = AmbeHOCb8[b8][k]; }
    ambe_spectrum(m, prev, G, AmbeLmprbl[m.L], hoc, AmbeDg[b2]);
    return m;
}

// tone index of a D-STAR frame whose pitch field carries the tone marker
inline int ambe2400_tone_index(const char* d) {
    // bits 7..5 of the index are a permuted function of data bits 6..8
    static const int hi[8] = {4, 0, 1, 2, 3, 7, 6, 5};  // {t7t6t5}: from the codec's tone-bit tables
    int sel = bits(d, {6, 7, 8});
    return hi[sel] << 5 | bits(d, {9, 42, 43, 10, 11});
}
inline Model ambe2400_decode(const char* d, const mbe_parms& prev) {
    using namespace reftab;
    Model m;
    m.b0 = bits(d, {0, 1, 2, 3, 4, 5, 48});
    if (m.b0 >= 126) {
        int idx = ambe2400_tone_index(d);
        if (idx >= 5 && idx <= 122) { m.cls = DTONE; m.ret = idx; }
        else { m.cls = UNPLAYABLE; m.ret = 3; }
        return m;
    }
    m.f0 = std::exp2(-4.311767578125 - 2.1336e-2 * (m.b0 + 0.5));
    m.w0 = m.f0 * 2 * PI;
    m.L = (int)AmbePlusLtable[m.b0];
    int b1 = bits(d, {38, 39, 40, 41}), b2 = bits(d, {6, 7, 8, 9, 42, 43});
    ambe_voicing(m, AmbePlusVuv[b1]);
    int b3 = bits(d, {10, 11, 12, 13, 14, 15, 16, 44, 45}), b4 = bits(d, {17, 18, 19, 20, 21, 46, 47});
    int b5 = bits(d, {22, 23, 25, 26}), b6 = bits(d, {27, 28, 29, 30}), b7 = bits(d, {31, 32, 33, 34}), b8 = bits(d, {35, 36, 37}) << 1;
    double G[9] = {0, 0, AmbePlusPRBA24[b3][0], AmbePlusPRBA24[b3][1], AmbePlusPRBA24[b3][2], AmbePlusPRBA58[b4][0], AmbePlusPRBA58[b4][1], AmbePlusPRBA58[b4][2], AmbePlusPRBA58[b4][3]};
    double hoc[4][4];
    for (int k = 0; k < 4; ++k) { hoc[0][k] = AmbePlusHOCb5[b5][k]; hoc[1][k] = AmbePlusHOCb6[b6][k]; hoc[2][k] = AmbePlusHOCb7[b7][k]; hoc[3][k] = AmbePlusHOCb8[b8][k]; }
    ambe_spectrum(m, prev, G, AmbePlusLmprbl[m.L], hoc, AmbePlusDg[b2]);
    return m;
}

// Compares a decoded model with the reference; returns an empty string when they agree.
inline std::string compare(const Model& m, const mbe_parms& cur, bool imbe) {
    char b[256];
    auto bad = [&](const char* w, int l, double got, double want) { snprintf(b, sizeof b, "%s%s%s: got %.9g, model says %.9g (b0=%d, L=%d)", w, l >= 0 ? " of band " : "", l >= 0 ? std::to_string(l).c_str() : "", got, want, m.b0, m.L); return std::string(b); };
    if (std::fabs(cur.w0 - m.w0) > 2e-6 * m.w0) return bad("fundamental", -1, cur.w0, m.w0);
    if (cur.L != m.L) return bad("band count", -1, cur.L, m.L);
    if (imbe && cur.K != m.K) return bad("voicing-band count", -1, cur.K, m.K);
    double tol = 4e-6 * m.scale + 4e-5;
    if (!imbe && std::fabs(cur.gamma - m.gamma) > 1e-5 * (1 + std::fabs(m.gamma))) return bad("gain", -1, cur.gamma, m.gamma);
    for (int l = 1; l <= m.L; ++l) {
        if (cur.Vl[l] != m.V[l] && !(m.vamb[l] && (cur.Vl[l] == 0 || cur.Vl[l] == 1))) return bad("voicing", l, cur.Vl[l], m.V[l]);
        if (!(std::fabs(cur.log2Ml[l] - m.lg[l]) <= tol)) return bad("log amplitude", l, cur.log2Ml[l], m.lg[l]);
        double M = std::exp2((double)cur.log2Ml[l]) * (!imbe && !cur.Vl[l] ? m.unvc : 1);
        if (!(std::fabs(cur.Ml[l] - M) <= 2e-5 * M)) return bad("amplitude", l, cur.Ml[l], M);
    }
    return "";
}
}  // namespace ref
