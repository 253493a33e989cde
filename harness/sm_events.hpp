// Event alphabets for the decision-machine explorations.
#pragma once
#include "ref_sm.hpp"
#include "bystanders.hpp"
#include <algorithm>

inline std::vector<Ev> imbe_events(bool full) {
    std::vector<Ev> v;
    struct P { const char* n; Bits d; };
    std::vector<P> pl = {{"voiced", imbe_bits(60, 1, 40, 11)}, {"unvoiced", imbe_bits(110, 0, 30, 12)}, {"L9", imbe_bits(0, -1, 45, 13)}, {"L56", imbe_bits(207, -1, 50, 14)}};
    P bad1 = {"b0=208", imbe_bits(208, -1, -1, 15)}, bad2 = {"b0=255", imbe_bits(255, -1, -1, 16)};
    for (auto& p : pl) for (int t : {0, 5, 6}) v.push_back(make(IMBE_D, p.d, 0, t, 0, p.n));
    v.push_back(make(IMBE_D, pl[0].d, 0, 15, 0, pl[0].n));
    v.push_back(make(IMBE_D, pl[1].d, 3, 1, 0, pl[1].n));
    v.push_back(make(IMBE_D, pl[0].d, 1, 64, 0, pl[0].n));   // counts a caller's own channel layer may report
    v.push_back(make(IMBE_D, pl[1].d, 12, 127, 0, pl[1].n));
    v.push_back(make(IMBE_D, bad1.d, 0, 0, 0, bad1.n));
    v.push_back(make(IMBE_D, bad2.d, 0, 9, 0, bad2.n));
    int cnt[][3] = {{0, 0, 0}, {0, 11, 1}, {1, 12, 0}, {2, 9, 0}, {2, 10, 1}, {3, 11, 0}, {2, 13, 1}, {3, 14, 1}};
    for (int i = 0; i < 8; ++i) {
        auto& p = pl[i & 3];
        v.push_back(make(IMBE72_F, p.d, cnt[i][0], cnt[i][1], cnt[i][2], p.n));
        if (full || i % 3 == 1) v.push_back(make(IMBE71_F, pl[(i + 1) & 3].d, cnt[i][0], std::min(cnt[i][1], cnt[i][0] + 10 + cnt[i][2]), cnt[i][2], pl[(i + 1) & 3].n));
    }
    v.push_back(make(IMBE72_F, bad1.d, 0, 0, 0, bad1.n));
    v.push_back(make(IMBE72_F, bad2.d, 3, 12, 1, bad2.n));
    v.push_back(make(IMBE71_F, bad2.d, 1, 3, 0, bad2.n));
    v.push_back(make(IMBE72_F, pl[1].d, 0, 4, 1, pl[1].n));
    if (full)
        for (int c0 = 0; c0 < 4; ++c0)
            for (int t : {3, 9, 10, 11, 12, 13, 14, 15})
                if (t - c0 <= 12 && t >= c0) v.push_back(make(IMBE72_F, pl[(c0 + t) & 3].d, c0, t, t == c0 ? 0 : t - c0 == 12 ? 1 : t & 1, pl[(c0 + t) & 3].n));
    return v;
}
inline std::vector<Ev> a2450_events(bool full) {
    std::vector<Ev> v;
    struct P { const char* n; Bits d; };
    std::vector<P> voice = {{"voice-L9", a2450_bits(0, 3, 14, 21)}, {"voice-L56", a2450_bits(119, 9, 20, 22)}, {"voice-mid", a2450_bits(50, 0, 17, 23)}, {"silence124", a2450_bits(124, 0, 6, 24)}, {"silence125", a2450_bits(125, 0, 9, 25)}};
    std::vector<P> er = {{"erasure120", a2450_erasure(120, 26)}, {"erasure127", a2450_erasure(127, 27)}, {"erasure126", a2450_erasure(126, 28)}};
    std::vector<P> tone = {{"tone-dtmf", a2450_tone(133, 70)}, {"tone-single", a2450_tone(40, 100, false)}, {"tone-call", a2450_tone(163, 127)},
                           {"tone-bad-0", a2450_tone(0, 50)}, {"tone-bad-123", a2450_tone(123, 50, false)}, {"tone-bad-255", a2450_tone(255, 50)}};
    for (auto& p : voice) for (int t : {0, 3, 4}) v.push_back(make(A2450_D, p.d, 0, t, 0, p.n));
    v.push_back(make(A2450_D, voice[2].d, 4, 2, 0, voice[2].n));
    v.push_back(make(A2450_D, voice[2].d, 0, 12, 0, voice[2].n));
    v.push_back(make(A2450_D, voice[1].d, 5, 70, 0, voice[1].n));
    v.push_back(make(A2450_D, voice[3].d, 12, 127, 0, voice[3].n));
    v.push_back(make(A2450_D, er[1].d, 3, 90, 0, er[1].n));
    v.push_back(make(A2450_D, tone[1].d, 2, 99, 0, tone[1].n));
    for (auto& p : er) v.push_back(make(A2450_D, p.d, 0, 0, 0, p.n));
    v.push_back(make(A2450_D, er[0].d, 0, 7, 0, er[0].n));
    for (auto& p : tone) { v.push_back(make(A2450_D, p.d, 0, 0, 0, p.n)); }
    v.push_back(make(A2450_D, tone[0].d, 0, 5, 0, tone[0].n));
    v.push_back(make(A2450_D, tone[0].d, 0, 6, 0, tone[0].n));
    v.push_back(make(A2450_D, tone[3].d, 0, 5, 0, tone[3].n));
    for (int c0 = 0; c0 < 4; ++c0)
        for (int r = 0; r < 4; ++r)
            if (full || r == 0 || r == 3) {
                v.push_back(make(A2450_F, voice[(c0 + r) % 5].d, c0, c0 + r, 0, voice[(c0 + r) % 5].n));
                v.push_back(make(A2450_F, tone[(c0 * 3 + r) % 6].d, c0, c0 + r, 0, tone[(c0 * 3 + r) % 6].n));
                if (full) v.push_back(make(A2450_F, er[(c0 + r) % 3].d, c0, c0 + r, 0, er[(c0 + r) % 3].n));
            }
    // a silence word that carries the tone signature, with six errors
    Bits s = a2450_tone(40, 100);
    put_bits(s, {37, 38, 39}, 4);
    v.push_back(make(A2450_D, s, 0, 6, 0, "tone-signature-silence"));
    return v;
}
inline std::vector<Ev> a2400_events(bool full) {
    std::vector<Ev> v;
    struct P { const char* n; Bits d; };
    std::vector<P> voice = {{"voice-L9", a2400_bits(0, 3, 30, 31)}, {"voice-L56", a2400_bits(125, 9, 40, 32)}, {"voice-mid", a2400_bits(60, 0, 45, 33)}};
    std::vector<P> tone = {{"tone5", a2400_tone(5)}, {"tone6", a2400_tone(6)}, {"tone40", a2400_tone(40)}, {"tone122", a2400_tone(122)}, {"tone-bad0", a2400_tone(0)}, {"tone-bad123", a2400_tone(123)}, {"tone-bad-140", a2400_tone(140)}};
    for (auto& p : voice) for (int t : {0, 3, 4, 9}) v.push_back(make(A2400_D, p.d, 0, t, 0, p.n));
    for (auto& p : tone) v.push_back(make(A2400_D, p.d, 0, 0, 0, p.n));
    for (int c0 : {0, 1, 2}) for (int t : {0, 2, 3, 4}) if (t >= c0 && (c0 || t)) v.push_back(make(A2400_D, tone[(c0 + t) % 4].d, c0, t, 0, tone[(c0 + t) % 4].n));
    v.push_back(make(A2400_D, tone[4].d, 0, 5, 0, tone[4].n));
    v.push_back(make(A2400_D, voice[1].d, 5, 70, 0, voice[1].n));
    v.push_back(make(A2400_D, voice[0].d, 12, 127, 0, voice[0].n));
    v.push_back(make(A2400_D, tone[1].d, 3, 90, 0, tone[1].n));
    v.push_back(make(A2400_D, tone[2].d, 2, 1, 0, tone[2].n));
    for (int c0 = 0; c0 < 4; ++c0)
        for (int r = 0; r < 4; ++r)
            if (full || (c0 + r) % 2 == 0) {
                v.push_back(make(A2400_F, voice[(c0 + r) % 3].d, c0, c0 + r, 0, voice[(c0 + r) % 3].n));
                v.push_back(make(A2400_F, tone[(c0 * 3 + r) % 7].d, c0, c0 + r, 0, tone[(c0 * 3 + r) % 7].n));
            }
    return v;
}
// carried error rate, consecutive repeats: written into a real state
inline void put_history(State& s, float er, int rep) {
    for (mbe_parms* m : {&s.cur, &s.prev, &s.enh}) { m->errorRate = er; m->repeat = m->repeatCount = rep; }
}
// Model contents the decisions must not depend on.  The carried counters and error rate belong to the history
// (equal in all three sets), the muting threshold to the codec, and a set's bands fit under half the sampling rate.
constexpr uint32_t STIR = by::ALL & ~(by::REPEAT | by::RCOUNT | by::ERATE | by::MUTE);
inline void fits(mbe_parms& m) { if (m.w0 * m.L > 3.1f) m.w0 = 2.9f / m.L; }
inline void stir(mbe_parms& m, const by::Var& v) { by::put(m, v.f, v.v); fits(m); }
inline void stir(mbe_parms& m, uint64_t k) { by::scramble(m, STIR, k); fits(m); }
// Histories of a codec: all sequences, bursts of one frame then all pairs, one step from a grid of carried states.
struct Histories {
    Lib &A = lib("scalar"), &B = lib("scalar2");
    std::vector<Ev> small, full;
    int maxrep = 3;
    std::vector<float> ers;
    void start(State& s, int warm) {
        init(A, s);
        static const size_t pick[3] = {0, 4, 7};
        for (int i = 0; i < warm; ++i) { Out o; A.f_setThreadRngSeed(90 + i); step(A, small[pick[i % 3] % small.size()], s, o); }
    }
    int pitches = 0;           // pitch codes, and frames with one of them and an otherwise arbitrary payload
    std::function<std::vector<Ev>(int, uint64_t)> variety;
    std::vector<Ev> classes;   // one frame of each kind, for long histories
    int deep = 6;
    void run(int depth) {
        size_t n = small.size();
        // every history of `deep` frames, one frame of each kind
        size_t k = classes.size();
        mc::group("long-sequences", k * k, [&](uint64_t i) {
            State s;
            start(s, 0);
            const Ev &a = classes[i / k], &b = classes[i % k];
            sm::judge(A, B, a, s, 61, "start");
            sm::judge(A, B, b, s, 62, "start > " + a.name);
            sm::tree(A, B, classes, s, deep + (mc::thorough ? 1 : 0) - 2, 70, "start > " + a.name + " > " + b.name);
        });
        // what the three sets hold apart from the history: every value of every field of each, then combinations
        std::vector<by::Var> vars = by::each(STIR);
        mc::group("contents", full.size() * 3, [&](uint64_t i) {
            const Ev& e = full[i / 3];
            State base;
            start(base, 2);
            for (uint64_t q = 0; q < vars.size() + (mc::thorough ? 4000 : 200); ++q) {
                State s = base;
                mbe_parms* m[3] = {&s.cur, &s.prev, &s.enh};
                std::string h = "2 warm frames, ";
                if (q < vars.size()) { stir(*m[i % 3], vars[q]); h += by::text(vars[q]) + (i % 3 == 0 ? " in cur" : i % 3 == 1 ? " in prev" : " in prev_enhanced"); }
                else {
                    uint64_t id = i * 5000 + q;
                    for (int k = 0; k < 3; ++k) stir(*m[k], id * 3 + k);
                    float er = ers[id / 7 % ers.size()];
                    int rep = (int)(id % (maxrep + 1));
                    put_history(s, er, rep);
                    h += "arbitrary contents " + std::to_string(id) + ", error rate " + std::to_string(er) + ", " + std::to_string(rep) + " repeats";
                }
                sm::judge(A, B, e, s, 11, h);
                mc::traces();
            }
        });
        // every pitch with arbitrary payloads, at every repeat count, then a clean frame
        mc::group("payloads", pitches, [&](uint64_t b0) {
            for (uint64_t k = 0; k < (mc::thorough ? 60 : 6); ++k)
                for (const Ev& e : variety((int)b0, k))
                    for (int rep = 0; rep <= maxrep; ++rep) {
                        State s;
                        start(s, 1 + (int)(k % 3));
                        float er = k % 2 ? ers[(b0 + k + rep) % ers.size()] : 0.003f;
                        put_history(s, er, rep);
                        std::string h = "warm, error rate " + std::to_string(er) + ", " + std::to_string(rep) + " repeats";
                        sm::judge(A, B, e, s, 12, h);
                        sm::judge(A, B, full[(b0 + k) % full.size()], s, 13, h + " > " + e.name);
                        mc::traces();
                    }
        });
        // two frames in turn, and every pattern of three kinds, for a long time
        mc::group("alternating", full.size() * full.size(), [&](uint64_t i) {
            const Ev& e = full[i / full.size()];
            const Ev& f = full[i % full.size()];
            if (&e == &f) return;
            State s;
            start(s, 1);
            std::string h = "warm > " + e.name + " / " + f.name + " in turn, frame ";
            for (int q = 0; q < (mc::thorough ? 60 : 18); ++q) sm::judge(A, B, q & 1 ? f : e, s, 500 + q, h + std::to_string(q));
            mc::traces();
        });
        mc::group("periodic", k * k * k, [&](uint64_t i) {
            const Ev* p[3] = {&classes[i / k / k], &classes[i / k % k], &classes[i % k]};
            State s;
            start(s, 1);
            std::string h = "warm > " + p[0]->name + " / " + p[1]->name + " / " + p[2]->name + " in turn, frame ";
            for (int q = 0; q < (mc::thorough ? 120 : 40); ++q) sm::judge(A, B, *p[q % 3], s, 700 + q, h + std::to_string(q));
            mc::traces();
        });
        mc::group("sequences", n * n, [&](uint64_t i) {
            State s;
            start(s, 0);
            const Ev &a = small[i / n], &b = small[i % n];
            sm::judge(A, B, a, s, 41, "start");
            sm::judge(A, B, b, s, 42, "start > " + a.name);
            sm::tree(A, B, small, s, depth - 2, 50, "start > " + a.name + " > " + b.name);
            if (i == n + 1) mc::sample("start > %s > %s > every continuation of %d frames: trace, state and samples as decided", a.name.c_str(), b.name.c_str(), depth - 2);
        });
        // one or two kinds of frame over and over, past every small counter
        mc::group("marathon", k * k, [&](uint64_t i) {
            const Ev &e = classes[i / k], &f = classes[i % k];
            State s;
            start(s, 0);
            std::string h = "start > " + e.name + " (four times) / " + f.name + " in turn, frame ";
            for (int q = 0; q < (mc::thorough ? 70000 : 700); ++q) sm::judge(A, B, q % 5 == 4 ? f : e, s, 900 + q, h + std::to_string(q));
            mc::traces();
        });
        // n times the same frame, then every pair of frames
        int burst = mc::thorough ? 80 : 14;
        mc::group("bursts", full.size() * burst, [&](uint64_t i) {
            const Ev& e = full[i / burst];
            int len = 1 + (int)(i % burst);
            if (len > 12) len = 12 + (len - 12) * (mc::thorough ? 1 : 24);
            State s;
            start(s, 2);
            for (int k = 0; k < len; ++k) sm::judge(A, B, e, s, 100 + k, "warm > " + std::to_string(k) + " x " + e.name);
            std::string h = "warm > " + std::to_string(len) + " x " + e.name;
            for (const Ev& f : full) {
                State t = s;
                sm::judge(A, B, f, t, 300, h);
                for (size_t g = 0; g < full.size(); g += (mc::thorough || len <= 2) ? 1 : 4) {
                    State u = t;
                    mc::traces();
                    sm::judge(A, B, full[(g + i) % full.size()], u, 301, h + " > " + f.name);
                }
            }
        });
        // one step from every combination of carried error rate and repeat count
        mc::group("carried-state", ers.size() * (maxrep + 1), [&](uint64_t i) {
            float er = ers[i / (maxrep + 1)];
            int rep = (int)(i % (maxrep + 1));
            for (int warm : {1, 3})
                for (const Ev& e : full) {
                    State s;
                    start(s, warm);
                    put_history(s, er, rep);
                    char h[96];
                    snprintf(h, sizeof h, "%d warm frames, carried error rate %.9g, %d repeats", warm, er, rep);
                    sm::judge(A, B, e, s, 7, h);
                    mc::traces();
                }
        });
    }
};
// without the counts no channel layer of this library can produce
inline std::vector<Ev> bounded(std::vector<Ev> v) {
    v.erase(std::remove_if(v.begin(), v.end(), [](const Ev& e) { return e.total > 20; }), v.end());
    return v;
}
