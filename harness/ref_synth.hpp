// Independent double-precision model of one synthesis step (smoothing apart): noise window, voiced sum,
// unvoiced block, overlap-add and soft clip, judged against what the library stored and returned.
#pragma once
#include "codec.hpp"
#include "bystanders.hpp"
#include <cmath>
#include <complex>
#include <vector>

namespace rs {
constexpr double PI = 3.14159265358979323846, TWO_PI = 2 * PI;
constexpr double CLIP = 32767.0 * 0.95 / 7.0;
constexpr double UV_COEFF = 146.17696;
constexpr int DEFAULT_SEED = 3147, MOD = 53125;

inline double ws(int i) { return i <= 55 ? 0 : i < 105 ? .02 * (i - 55) : i <= 215 ? 1 : i <= 265 ? .02 * (265 - i) : 0; }
// 211-point window; its falling side is one step wider than the rising one and repeats 0.30
inline double wsyn(int n) {
    if (n < -105 || n > 105) return 0;
    if (n < -55) return .02 * (n + 105);
    if (n < 55) return 1;
    int k = n - 55;
    return .98 - .02 * (k <= 34 ? k : k - 1);
}
struct Noise {
    double x[256];
    long seed;        // next state, -1 before the first window
    double ov[96];
};
inline uint32_t lcg(uint32_t x) { return (uint32_t)((171ull * x + 11213ull) % MOD); }
inline uint32_t seeded_start(uint32_t seed) { return (seed ? seed : 0x6d25357bu) % MOD; }
// the stream's next window, from the state the parameter set carries; start: first state of a fresh stream
inline void next_window(const mbe_parms& m, long start, Noise& o) {
    if (m.noiseSeed < 0) {
        for (double& v : o.x) v = 0;
        for (double& v : o.ov) v = 0;
        o.seed = start;
        return;
    }
    for (int i = 0; i < 96; ++i) o.x[i] = m.noiseOverlap[i];
    uint32_t s = (uint32_t)m.noiseSeed;
    for (int i = 96; i < 256; ++i) { o.x[i] = s; s = lcg(s); }
    o.seed = s;
    for (int i = 0; i < 96; ++i) o.ov[i] = o.x[160 + i];
}
typedef std::complex<double> C;
inline void fft256(C* a, int sign) {
    static C tw[2][256];
    static bool init = false;
    if (!init) { for (int i = 0; i < 256; ++i) { tw[0][i] = std::polar(1.0, -TWO_PI * i / 256); tw[1][i] = std::conj(tw[0][i]); } init = true; }
    const C* w = tw[sign > 0];
    for (int i = 1, j = 0; i < 256; ++i) { int b = 128; for (; j & b; b >>= 1) j ^= b; j ^= b; if (i < j) std::swap(a[i], a[j]); }
    for (int len = 2; len <= 256; len <<= 1)
        for (int i = 0; i < 256; i += len)
            for (int k = 0; k < len / 2; ++k) { C u = a[i + k], v = a[i + k + len / 2] * w[k * (256 / len)]; a[i + k] = u + v; a[i + k + len / 2] = u - v; }
}
// band edges in bins; an edge within rounding of a bin boundary is taken as `mode` bins above it
inline void edges(double w0, int l, int& a, int& b, bool& tie, int mode) {
    auto up = [&](double v) {
        if (v > 1e-9 && v < 128.001 && std::fabs(v - std::round(v)) < 3e-7 * (1 + v)) { tie = true; return (int)std::round(v) + mode; }
        return (int)std::ceil(v);
    };
    a = up((l - .5) * 256 / TWO_PI * w0);
    b = up((l + .5) * 256 / TWO_PI * w0);
    if (a < 0) a = 0;
    if (b > 128) b = 128;
}
// the unvoiced block of 256 samples
inline void unvoiced(const mbe_parms& m, const double* noise, double* uw, bool& tie, int mode = 0) {
    C a[256];
    for (int i = 0; i < 256; ++i) a[i] = noise[i] * wsyn(i - 128);
    fft256(a, -1);
    double g[129] = {};
    for (int l = 1; l <= m.L; ++l) {
        if (m.Vl[l] != 0) continue;
        int lo, hi;
        edges(m.w0, l, lo, hi, tie, mode);
        double p = 0;
        for (int k = lo; k < hi; ++k) p += std::norm(a[k]);
        if (hi > lo && p > 1e-10) for (int k = lo; k < hi; ++k) g[k] = UV_COEFF * m.Ml[l] / std::sqrt(p / (hi - lo));
    }
    for (int k = 0; k <= 128; ++k) { a[k] *= g[k]; if (k && k < 128) a[256 - k] = std::conj(a[k]); }
    a[0] = a[0].real();
    a[128] = a[128].real();
    fft256(a, 1);
    for (int i = 0; i < 256; ++i) uw[i] = a[i].real() / 256;
}
template <class A, class B> inline void overlap_add(const A* prev, const B* cur, double* out) {
    for (int n = 0; n < 160; ++n) {
        double wp = wsyn(n), wc = wsyn(n - 160), p = n + 128 < 256 ? (double)prev[n + 128] : 0, c = n >= 32 ? (double)cur[n - 32] : 0;
        double d = wp * wp + wc * wc;
        out[n] += d > 1e-10 ? (wp * p + wc * c) / d : 0;
    }
}
// Voiced sum.  cur, prev: amplitudes, voicing, pitch and phases; absent bands count as silent and voiced.
// tol gains the rounding the library's single-precision evaluation is entitled to.
struct Voiced { double x[160], tol; bool tie; };
inline void voiced(const mbe_parms& c, const mbe_parms& p, Voiced& o) {
    for (double& v : o.x) v = 0;
    o.tol = 0; o.tie = false;
    double cw = c.w0, pw = p.w0;
    int maxl = std::max(c.L, p.L);
    bool stable = std::fabs(cw - pw) < .1 * cw;
    bool near = std::fabs(std::fabs(cw - pw) - .1 * cw) < 1e-6 * cw;
    for (int l = 1; l <= maxl; ++l) {
        bool cv = l > c.L || c.Vl[l] == 1, pv = l > p.L || p.Vl[l] == 1;
        double ma = l > c.L ? 0 : c.Ml[l], mp = l > p.L ? 0 : p.Ml[l];
        if ((!cv && !pv) || (ma == 0 && mp == 0) || (!cv && mp == 0) || (!pv && ma == 0)) continue;
        double adv = (pw + cw) * l * 80, big = std::fabs(c.PHIl[l]) + std::fabs(p.PHIl[l]) + adv + 600;
        o.tol += 2 * ((cv ? ma : 0) + (pv ? mp : 0)) * (1e-4 + 4e-7 * big);
        if (l < 8 && cv && pv && near) o.tie = true;
        if (l < 8 && cv && pv && stable) {
            double dphi = (double)c.PHIl[l] - p.PHIl[l] - adv, q = (dphi + PI) / TWO_PI;
            if (std::fabs(q - std::round(q)) < 4e-7 * big) o.tie = true;
            double dw = (dphi - TWO_PI * std::floor(q)) / 160;
            for (int n = 0; n < 160; ++n) {
                double th = p.PHIl[l] + (pw * l + dw) * n + (cw - pw) * l * n * n / 320.0;
                o.x[n] += 2 * (mp + n / 160.0 * (ma - mp)) * std::cos(th);
            }
            continue;
        }
        if (pv && mp != 0) {
            C z = std::polar(2.0 * mp, (double)p.PHIl[l]), st = std::polar(1.0, pw * l);
            for (int n = 0; n < 160; ++n, z *= st) o.x[n] += ws(n + 160) * z.real();
        }
        if (cv && ma != 0) {
            C z = std::polar(2.0 * ma, c.PHIl[l] - cw * l * 160), st = std::polar(1.0, cw * l);
            for (int n = 0; n < 160; ++n, z *= st) o.x[n] += ws(n) * z.real();
        }
    }
}
inline double angle(double a) { return a - TWO_PI * std::floor((a + PI) / TWO_PI); }
inline double clip(double v) { return v > CLIP ? CLIP : v < -CLIP ? -CLIP : v; }

enum What { PHASES = 1, VOICED = 2, BLOCK = 4, UVAUDIO = 8, NOISE_STATE = 16 };
// One synthesis step of the library from (cur, prev), judged.  Afterwards cur/prev are the library's.
inline void judge(Lib& L, mbe_parms& cur, mbe_parms& prev, long start, int what, const std::string& name, float* pcm = nullptr) {
    mbe_parms c0 = cur, p0 = prev;
    float out[160];
    L.f_synthesizeSpeechf(out, &cur, &prev, 3);
    mc::transitions();
    if (pcm) memcpy(pcm, out, sizeof out);
    Noise nz;
    next_window(c0, start, nz);
    const char* nm = name.c_str();
    if (what & NOISE_STATE) {
        if (cur.noiseSeed != (float)nz.seed) mc::fail("%s: generator state is %g after the frame, expected %ld", nm, cur.noiseSeed, nz.seed);
        for (int i = 0; i < 96; ++i) if (cur.noiseOverlap[i] != (float)nz.ov[i]) mc::fail("%s: overlap sample %d is %g, expected %g", nm, i, cur.noiseOverlap[i], nz.ov[i]);
    }
    if (what & PHASES) {
        int uv = 0;
        for (int l = 0; l <= cur.L; ++l) uv += cur.Vl[l] == 0;
        for (int l = 1; l <= 56; ++l) {
            double adv = ((double)p0.w0 + c0.w0) * l * 80, psi = p0.PSIl[l] + adv;
            double tol = 2e-5 + 3e-7 * (std::fabs(p0.PSIl[l]) + adv);
            if (std::fabs(angle(cur.PSIl[l] - psi)) > tol) mc::fail("%s: band %d: phase %.6f, expected %.6f (mod 2 pi) after advancing %.6f by the average pitch", nm, l, angle(cur.PSIl[l]), angle(psi), p0.PSIl[l]);
            double jit = l <= cur.L / 4 ? 0 : uv * (TWO_PI / 53125 * nz.x[l] - PI) / cur.L;
            if (std::fabs(angle(cur.PHIl[l] - psi - jit)) > 2 * tol) mc::fail("%s: band %d of %d (%d unvoiced): phase offset %.6f, expected %.6f", nm, l, cur.L, uv, angle(cur.PHIl[l] - psi), angle(jit));
        }
    }
    bool tie = false;
    static thread_local double uw[256];
    double peak = 0;
    if (what & (BLOCK | UVAUDIO)) {
        unvoiced(cur, nz.x, uw, tie);
        if (tie) {
            double d[2] = {};
            for (int i = 0; i < 256; ++i) d[0] = std::max(d[0], std::fabs(cur.previousUw[i] - uw[i]));
            unvoiced(cur, nz.x, uw, tie, 1);
            for (int i = 0; i < 256; ++i) d[1] = std::max(d[1], std::fabs(cur.previousUw[i] - uw[i]));
            if (d[0] <= d[1]) unvoiced(cur, nz.x, uw, tie, 0);
            mc::count("band-edges-on-a-bin-boundary");
        }
        for (double v : uw) peak = std::max(peak, std::fabs(v));
        if (what & BLOCK)
            for (int i = 0; i < 256; ++i)
                if (!(std::fabs(cur.previousUw[i] - uw[i]) <= 2e-4 * peak + 1e-4)) mc::fail("%s: unvoiced block sample %d is %.6g, expected %.6g (block peak %.4g)", nm, i, cur.previousUw[i], uw[i], peak);
    }
    if (what & (VOICED | UVAUDIO)) {
        double x[160], tol = 2e-3;
        Voiced v;
        voiced(cur, p0, v);
        if (v.tie) { mc::count("interpolation-ties-not-judged"); return; }
        memcpy(x, v.x, sizeof x);
        tol += v.tol;
        for (float u : p0.previousUw) peak = std::max(peak, (double)std::fabs(u));
        if (what & UVAUDIO) overlap_add(p0.previousUw, uw, x);
        else { for (float u : cur.previousUw) peak = std::max(peak, (double)std::fabs(u)); overlap_add(p0.previousUw, cur.previousUw, x); }
        tol += 4e-4 * peak;
        double pk = 0;
        for (double a : v.x) pk = std::max(pk, std::fabs(a));
        for (int n = 0; n < 160; ++n) {
            if (!(std::fabs(out[n] - clip(x[n])) <= tol + 3e-7 * std::fabs(x[n]))) mc::fail("%s: sample %d is %.6g, expected %.6g (tolerance %.2g)", nm, n, out[n], clip(x[n]), tol);
        }
    }
    mc::state(mc::hash(out, sizeof out, mc::hash(&cur, sizeof cur)));
}
// A frame without errors is rendered from the current amplitudes, voicing and pitch and the previous amplitudes,
// voicing, pitch, phases and unvoiced block; the same frame with anything else in the other fields is the same frame.
constexpr uint32_t CUR_FREE = by::KV | by::LOG | by::PHI | by::PSI | by::GAMMA | by::UN | by::SWN | by::REPEAT | by::ENERGY | by::THRESH | by::UW;
constexpr uint32_t PREV_FREE = by::KV | by::LOG | by::GAMMA | by::UN | by::SWN | by::REPEAT | by::RCOUNT | by::ERATE | by::TOTAL | by::C4 | by::MUTE | by::SEED | by::OVERLAP;
inline void same_frame(Lib& L, const mbe_parms& c, const mbe_parms& p, uint64_t k, const std::vector<by::Var>& cv, const std::vector<by::Var>& pv, uint64_t combos, const std::string& name) {
    mbe_parms c0 = c, p0 = p;
    float out0[160], out[160];
    L.f_synthesizeSpeechf(out0, &c0, &p0, 3);
    const uint32_t both = by::W0 | by::BANDS | by::VL | by::ML | by::PHI | by::PSI | by::UW;
    auto go = [&](const mbe_parms& ci, const mbe_parms& pi, const std::string& what) {
        mbe_parms c1 = ci, p1 = pi;
        for (float& v : out) v = -7e7f;
        L.f_synthesizeSpeechf(out, &c1, &p1, 3);
        mc::transitions();
        for (int n = 0; n < 160; ++n) if (memcmp(out + n, out0 + n, 4)) mc::fail("%s, %s: sample %d is %.9g instead of %.9g", name.c_str(), what.c_str(), n, out[n], out0[n]);
        c1.PHIl[0] = c0.PHIl[0]; c1.PSIl[0] = c0.PSIl[0];
        std::string d = by::diff(c1, c0, both | by::SEED | by::OVERLAP);
        if (!d.empty()) mc::fail("%s, %s: the frame leaves another %s", name.c_str(), what.c_str(), d.c_str());
        mc::state(mc::hash(out, sizeof out, mc::mix(k)));
    };
    for (size_t q = 0; q < cv.size() + pv.size(); ++q) {
        mbe_parms ci = c, pi = p;
        bool cs = q < cv.size();
        const by::Var& v = cs ? cv[q] : pv[q - cv.size()];
        by::put(cs ? ci : pi, v.f, v.v);
        go(ci, pi, "with " + by::text(v) + (cs ? " in the current set" : " in the previous set"));
    }
    for (uint64_t q = 0; q < combos; ++q) {
        mbe_parms ci = c, pi = p;
        by::scramble(ci, CUR_FREE, k * 7919 + q);
        by::scramble(pi, PREV_FREE, k * 7907 + q);
        // errors too few to call for smoothing
        by::scramble(ci, by::RCOUNT | by::TOTAL, k * 7 + q);
        ci.repeatCount %= 4; ci.errorCountTotal %= 5; ci.errorRate = (float)(q % 6) * 0.00099f;
        go(ci, pi, "combination " + std::to_string(q));
    }
}
// ---- models -------------------------------------------------------------------------------
inline void clean(mbe_parms& m) {
    memset(&m, 0, sizeof m);
    m.localEnergy = 75000; m.amplitudeThreshold = 20480; m.mutingThreshold = 0.0875f; m.noiseSeed = -1;
    m.L = 9;
}
inline void imbe_pitch(mbe_parms& m, int b0) { m.w0 = (float)(4 * PI / (b0 + 39.5)); m.L = ref::imbe_bands_from_b0(b0); }
inline void ambe2450_pitch(mbe_parms& m, int b0) { m.w0 = (float)(reftab::AmbeW0table[b0] * TWO_PI); m.L = (int)reftab::AmbeLtable[b0]; }
// deterministic spread of values in [0,1)
inline double u01(uint64_t k) { return (mc::mix(k * 0x9E3779B97F4A7C15ull + 77) >> 11) * (1.0 / 9007199254740992.0); }
}  // namespace rs
