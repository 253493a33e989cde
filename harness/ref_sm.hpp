// Reference decision machine of the decoders.  It decides, from the received bits, the error counts and
// the carried state alone, how a frame must be handled; the signal processing it prescribes is executed
// by the primitives of a second, separate copy of the library (their own correctness is the subject of
// C06-C08 and C19-C25), with the copy's own muting decision switched off.
#pragma once
#include "codec.hpp"
#include <cmath>

namespace sm {
constexpr float IMBE_MUTE = 0.0875f, AMBE_MUTE = 0.096f;

struct Expect {
    State s;
    float pcm[160];
    std::string trace, what;
    bool skip = false;  // the decision falls on a threshold within rounding: not judged
};

inline float snap(double want, float got) { return std::fabs(got - want) <= 2e-7 + 2e-6 * std::fabs(want) ? got : (float)want; }

inline void imbe_default_model(mbe_parms& m) {
    m.swn = 0; m.un = 0;
    m.w0 = (float)(4 * M_PI / 173.5);
    m.L = ref::imbe_bands_from_b0(134);
    m.K = 12;
    m.gamma = 0;
    for (int l = 0; l < 57; ++l) { m.Vl[l] = 0; m.Ml[l] = 1; m.log2Ml[l] = 0; }
    m.repeat = m.repeatCount = 0;
    m.localEnergy = 75000;
    m.amplitudeThreshold = 20480;
    m.mutingThreshold = IMBE_MUTE;
}
inline void ambe_default_model(State& s) {
    mbe_parms m;
    memset(&m, 0, sizeof m);
    m.w0 = (float)(M_PI / 32 * 2 * M_PI);
    m.L = 15;
    for (int l = 0; l < 57; ++l) m.Ml[l] = 1;
    m.localEnergy = 75000;
    m.amplitudeThreshold = 20480;
    m.mutingThreshold = AMBE_MUTE;
    m.noiseSeed = -1;
    s.cur = s.prev = s.enh = m;
}
inline void erasure_model(mbe_parms& m, const mbe_parms& from) {
    m.swn = 0; m.un = 0; m.w0 = 0; m.L = 9; m.K = 0; m.gamma = 0;
    for (int l = 0; l < 57; ++l) { m.Ml[l] = 1; m.Vl[l] = 0; m.log2Ml[l] = 0; m.PHIl[l] = from.PHIl[l]; m.PSIl[l] = from.PSIl[l]; }
    m.localEnergy = 75000;
    m.amplitudeThreshold = 20480;
    m.noiseSeed = from.noiseSeed;
    memcpy(m.noiseOverlap, from.noiseOverlap, sizeof m.noiseOverlap);
    memcpy(m.previousUw, from.previousUw, sizeof m.previousUw);
}
inline void synth(Lib& B, float* out, mbe_parms* cur, mbe_parms* prev, bool muted) {
    if (muted) { B.f_applyAdaptiveSmoothing(cur, prev); B.f_synthesizeComfortNoisef(out); return; }
    int rc = cur->repeatCount;
    float mt = cur->mutingThreshold;
    cur->repeatCount = 0;
    cur->mutingThreshold = 1e9f;
    B.f_synthesizeSpeechf(out, cur, prev, 3);
    cur->repeatCount = rc;
    cur->mutingThreshold = mt;
}

inline void imbe(Lib& B, const Ev& e, const State& pre, const State& got, Expect& x) {
    State& s = x.s;
    s = pre;
    char d[88];
    for (int i = 0; i < 88; ++i) d[i] = (char)e.d.b[i];
    s.cur.mutingThreshold = IMBE_MUTE;
    s.cur.errorCountTotal = e.total;
    s.cur.errorCount4 = is_frame(e.path) ? e.c4 : 0;
    double er = 0.95 * pre.prev.errorRate + 0.000365 * e.total;
    s.cur.errorRate = snap(er, got.cur.errorRate);
    x.trace.assign(e.total > 0 ? e.total : 0, '=');
    B.f_decodeImbe4400Parms(d, &s.cur, &s.prev);
    int b0 = 0;
    for (int i : {0, 1, 2, 3, 4, 5, 85, 86}) b0 = b0 << 1 | e.d.b[i];
    bool rep;
    if (b0 > 207) { rep = true; x.what = "invalid fundamental"; }
    else if (is_frame(e.path)) {
        double thr = 10 + 40 * er;
        if (e.c0 >= 2 && std::fabs(e.total - thr) < 1e-4 * thr + 1e-5 && er != 0) x.skip = true;
        rep = e.c0 >= 2 && e.total >= thr - (er == 0 ? 1e-6 : 0);
        x.what = rep ? "repeat (frame rule)" : "good";
    } else { rep = e.total > 5; x.what = rep ? "repeat (total rule)" : "good"; }
    if (rep) {
        if (pre.prev.repeatCount > 3) { imbe_default_model(s.cur); x.what += ", limit passed: default model"; }
        else {
            s.cur = s.prev;
            s.cur.repeat = pre.prev.repeat + 1;
            s.cur.repeatCount = pre.prev.repeatCount + 1;
            s.cur.mutingThreshold = IMBE_MUTE;
        }
        x.trace += 'R';
    } else s.cur.repeat = s.cur.repeatCount = 0;
    if (std::fabs(s.cur.errorRate - 0.0875) < 1e-6 && s.cur.repeatCount < 4) x.skip = true;
    bool muted = s.cur.repeatCount >= 4 || s.cur.errorRate > 0.0875;
    if (muted) x.what += ", muted";
    s.prev = s.cur;
    B.f_spectralAmpEnhance(&s.cur);
    synth(B, x.pcm, &s.cur, &s.enh, muted);
    if (muted) x.trace += 'M';
    s.enh = s.cur;
}

inline void ambe_front(const Ev& e, const State& pre, const State& got, Expect& x) {
    State& s = x.s;
    s = pre;
    if (std::fabs(pre.prev.mutingThreshold - 0.096) > 1e-5) { ambe_default_model(s); x.what = "from default model: "; }
    s.cur.mutingThreshold = AMBE_MUTE;
    s.cur.errorCountTotal = e.total;
    s.cur.errorCount4 = 0;
    s.cur.errorRate = snap(0.95 * s.prev.errorRate + 0.001064 * e.total, got.cur.errorRate);
    x.trace.assign(e.total > 0 ? e.total : 0, '=');
}
inline void ambe_voice(Lib& B, bool rep, Expect& x) {
    State& s = x.s;
    if (rep) {
        int r = s.prev.repeat, rc = s.prev.repeatCount;
        s.cur = s.prev;
        s.cur.repeat = r + 1;
        s.cur.repeatCount = rc + 1;
        x.trace += 'R';
    } else s.cur.repeat = s.cur.repeatCount = 0;
    if (s.cur.repeat <= 3) {
        x.what += rep ? "repeat" : "voice";
        s.prev = s.cur;
        B.f_spectralAmpEnhance(&s.cur);
        synth(B, x.pcm, &s.cur, &s.enh, false);
        s.enh = s.cur;
    } else {
        x.what += "fourth repeat: muted, fresh model";
        x.trace += 'M';
        B.f_synthesizeComfortNoisef(x.pcm);
        ambe_default_model(s);
    }
}
inline void ambe2450(Lib& B, const Ev& e, const State& pre, const State& got, Expect& x) {
    ambe_front(e, pre, got, x);
    State& s = x.s;
    char d[49];
    for (int i = 0; i < 49; ++i) d[i] = (char)e.d.b[i];
    ref::Cls c = ref::ambe2450_class(d, e.total);
    if (c == ref::ERASURE) {
        x.what += "erasure";
        x.trace += 'E';
        s.cur.repeat = s.cur.repeatCount = 0;
        erasure_model(s.cur, s.prev);
        B.f_synthesizeComfortNoisef(x.pcm);
        s.prev = s.cur;
        s.enh = s.cur;
    } else if (c == ref::TONE) {
        x.trace += 'T';
        s.cur.repeat = s.cur.repeatCount = 0;
        if (a2450_tone_valid(a2450_tone_id(e.d.b))) {
            x.what += "tone";
            B.f_synthesizeTonef(x.pcm, d, &s.cur);
        } else if (s.prev.repeatCount < 4) {
            x.what += "unplayable tone";
            mbe_parms m = s.enh;
            synth(B, x.pcm, &m, &s.enh, m.repeatCount >= 4);
            s.enh = m;
        } else {
            B.f_synthesizeComfortNoisef(x.pcm);
            ambe_default_model(s);
        }
    } else {
        // the class is decided; keep the primitive from taking a silence word for a tone (silence has no
        // voicing index, so bit 4 carries nothing there)
        if (c == ref::SILENCE) d[4] = 0;
        B.f_decodeAmbe2450Parms(d, &s.cur, &s.prev);
        bool rep = is_frame(e.path) ? (e.c0 >= 4 || (e.c0 >= 2 && e.total >= 6)) : e.total > 3;
        ambe_voice(B, rep, x);
    }
}
inline void ambe2400(Lib& B, const Ev& e, const State& pre, const State& got, Expect& x) {
    ambe_front(e, pre, got, x);
    State& s = x.s;
    char d[49];
    for (int i = 0; i < 49; ++i) d[i] = (char)e.d.b[i];
    int b0 = ref::bits(d, {0, 1, 2, 3, 4, 5, 48});
    if (b0 < 126) {
        B.f_decodeAmbe2400Parms(d, &s.cur, &s.prev);
        ambe_voice(B, e.total > 3, x);
        return;
    }
    int idx = ref::ambe2400_tone_index(d);
    bool single = idx >= 5 && idx <= 122;
    if (single && e.c0 < 2 && e.total < 3) {
        x.what += "tone";
        s.cur.repeat = s.cur.repeatCount = 0;
        B.f_synthesizeTonefdstar(x.pcm, d, &s.cur, idx);
        s.prev = s.cur;
        return;
    }
    x.what += "tone not playable: fresh model";
    if (!single) x.trace += 'T';
    else if (e.total > 3) x.trace += 'R';
    B.f_synthesizeComfortNoisef(x.pcm);
    ambe_default_model(s);
}
inline void expect(Lib& B, const Ev& e, const State& pre, const State& got, Expect& x) {
    if (is_imbe(e.path)) imbe(B, e, pre, got, x);
    else if (e.path == A2450_D || e.path == A2450_F) ambe2450(B, e, pre, got, x);
    else ambe2400(B, e, pre, got, x);
}

inline bool feq(float a, float b, double rel, double abs) {
    if (memcmp(&a, &b, 4) == 0) return true;
    return std::fabs((double)a - b) <= abs + rel * std::fmax(std::fabs((double)a), std::fabs((double)b));
}
// the meaningful part of a parameter set: bands 1..L, not leftovers above them
inline std::string diff(const mbe_parms& a, const mbe_parms& w, const char* who, bool bands = true) {
    if (!memcmp(&a, &w, sizeof a)) return "";
    char b[200];
#define SM_I(f) if (a.f != w.f) { snprintf(b, sizeof b, "%s." #f " is %d, expected %d", who, (int)a.f, (int)w.f); return b; }
#define SM_F(f, r, ab) if (!feq(a.f, w.f, r, ab)) { snprintf(b, sizeof b, "%s." #f " is %.9g, expected %.9g", who, a.f, w.f); return b; }
    SM_I(repeat) SM_I(repeatCount) SM_I(errorCountTotal) SM_I(errorCount4) SM_I(L) SM_I(un) SM_I(swn) SM_I(K)
    SM_F(errorRate, 3e-6, 3e-7) SM_F(mutingThreshold, 1e-5, 0) SM_F(w0, 2e-6, 1e-9) SM_F(gamma, 1e-5, 1e-5)
    SM_F(localEnergy, 1e-5, 1e-3) SM_F(noiseSeed, 0, 0)
    if (std::abs((double)a.amplitudeThreshold - w.amplitudeThreshold) > 1) { SM_I(amplitudeThreshold) }
    int L = w.L < 0 ? 0 : w.L > 56 ? 56 : w.L;
    if (bands) {
        for (int l = 1; l <= L; ++l) {
            SM_I(Vl[l]) SM_F(Ml[l], 1e-4, 1e-6) SM_F(log2Ml[l], 1e-5, 1e-4)
        }
        for (int l = 1; l <= 56; ++l) { SM_F(PHIl[l], 1e-5, 1e-3) SM_F(PSIl[l], 1e-5, 1e-3) }
    }
    for (int i = 0; i < 96; ++i) SM_F(noiseOverlap[i], 0, 0)
    for (int i = 0; i < 256; ++i) SM_F(previousUw[i], 1e-4, 1e-2)
#undef SM_I
#undef SM_F
    return "";
}
inline std::string diff(const State& a, const State& w) {
    std::string r = diff(a.cur, w.cur, "cur");
    if (r.empty()) r = diff(a.prev, w.prev, "prev");
    if (r.empty()) r = diff(a.enh, w.enh, "prev_enhanced");
    return r;
}
inline uint64_t hash(const State& s) { return mc::hash(&s, sizeof s); }

// One transition of the implementation judged by the machine; afterwards `s` is the implementation's state.
inline void judge(Lib& A, Lib& B, const Ev& e, State& s, uint32_t seed, const std::string& hist, Out* outp = nullptr, bool audio = true) {
    State pre = s;
    Out o;
    static thread_local Expect x;
    A.f_setThreadRngSeed(seed);
    B.f_setThreadRngSeed(seed);
    step(A, e, s, o);
    x.trace.clear(); x.what.clear(); x.skip = false;
    expect(B, e, pre, s, x);
    mc::transitions();
    if (outp) *outp = o;
    if (x.skip) { mc::count("on-threshold-not-judged"); return; }
    auto where = [&] { return hist + " > " + e.name + " [" + x.what + "]"; };
    o.str[sizeof o.str - 1] = 0;
    if (x.trace != o.str) mc::fail("%s: trace \"%s\", expected \"%s\"", where().c_str(), o.str, x.trace.c_str());
    std::string df = diff(s, x.s);
    if (!df.empty()) mc::fail("%s: %s", where().c_str(), df.c_str());
    if (audio && memcmp(o.pcm, x.pcm, sizeof o.pcm)) {
        double peak = 1;
        for (int i = 0; i < 160; ++i) if (std::fabs(x.pcm[i]) > peak) peak = std::fabs(x.pcm[i]);
        for (int i = 0; i < 160; ++i)
            if (!feq(o.pcm[i], x.pcm[i], 0, 2e-4 * peak + 1e-4)) mc::fail("%s: sample %d is %.7g, expected %.7g", where().c_str(), i, o.pcm[i], x.pcm[i]);
    }
    mc::state(hash(s));
}
// all event sequences of length `depth` continuing from s
inline void tree(Lib& A, Lib& B, const std::vector<Ev>& ev, const State& s, int depth, uint32_t seed, const std::string& hist) {
    if (!depth) { mc::traces(); return; }
    for (const Ev& e : ev) {
        State t = s;
        judge(A, B, e, t, seed + depth, hist);
        tree(A, B, ev, t, depth - 1, seed, hist + " > " + e.name);
    }
}
}  // namespace sm
