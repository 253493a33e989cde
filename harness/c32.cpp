// C32: long histories.  Every constant and every alternating event pattern, every frame range-checked and the
// decision rules judged again from the states reached late in the stream.
#include "ranges.hpp"
static const float CLIP = 32767.0f * 0.95f / 7.0f;

struct Track { double energy = 75000; int maxerr = 0; bool imbe = true; };
static void check_state(const State& s, const Out& o, Track& t, const Ev& e, const std::string& h, long n) {
    auto bad = [&](const std::string& m) { mc::fail("%s, frame %ld (%s): %s", h.c_str(), n, e.name.c_str(), m.c_str()); };
    for (int i = 0; i < 160; ++i) if (!(std::fabs(o.pcm[i]) <= CLIP * 1.00001f)) bad("sample " + std::to_string(i) + " is " + std::to_string(o.pcm[i]));
    const char* who[3] = {"cur", "prev", "prev_enhanced"};
    const mbe_parms* m[3] = {&s.cur, &s.prev, &s.enh};
    t.maxerr = std::max(t.maxerr, e.total);
    for (int k = 0; k < 3; ++k) {
        std::string r = bad_model(*m[k], who[k]);
        if (!r.empty()) bad(r);
        double en = 0;
        for (int l = 1; l <= m[k]->L; ++l) en += (double)m[k]->Ml[l] * m[k]->Ml[l];
        t.energy = std::max(t.energy, en);
    }
    for (int k = 0; k < 3; ++k) {
        if (m[k]->localEnergy > t.energy * 1.002) bad(std::string(who[k]) + ".localEnergy is " + std::to_string(m[k]->localEnergy) + ", no frame had more than " + std::to_string(t.energy));
        if (m[k]->errorRate > t.maxerr * 0.001064 / 0.05 * 1.0001 + 1e-9) bad(std::string(who[k]) + ".errorRate is " + std::to_string(m[k]->errorRate));
        for (int l = 1; l <= 56; ++l) {
            if (!(m[k]->PSIl[l] >= 0 && m[k]->PSIl[l] <= 6.2832f + 80 * 57 * 1.3f)) bad(std::string(who[k]) + ".PSIl[" + std::to_string(l) + "] is " + std::to_string(m[k]->PSIl[l]));
            if (std::fabs(m[k]->PHIl[l]) > 6.2832f + 80 * 57 * 1.3f + 8) bad(std::string(who[k]) + ".PHIl[" + std::to_string(l) + "] is " + std::to_string(m[k]->PHIl[l]));
        }
        // the threshold moves by at most 6000 a frame
        if (m[k]->amplitudeThreshold > 20480 + 6000.0 * (n + 1)) bad(std::string(who[k]) + ".amplitudeThreshold is " + std::to_string(m[k]->amplitudeThreshold));
    }
    mc::transitions();
}
static bool checkpoint(long n) { return n < 6 || (n & (n - 1)) == 0 || n % (n < 1000000 ? 997 : 99991) == 0 || (n > 30000 && ((n + 4) & 32767) < 9); }
// frames of the pattern a, b, a, b ...; the rules are judged at checkpoints, and for every event at the end
static void run(const std::vector<const Ev*>& pat, long frames, const std::vector<Ev>& next, const std::string& h, bool long_ = false) {
    Lib &A = lib("scalar"), &B = lib("scalar2");
    State s;
    Out o;
    Track t;
    init(A, s);
    for (long n = 0; n < frames; ++n) {
        const Ev& e = *pat[n % pat.size()];
        if (checkpoint(n) || n > frames - 3) sm::judge(A, B, e, s, 1000 + (uint32_t)n, h + " (frame " + std::to_string(n) + ")", &o);
        else step(A, e, s, o);
        if (!long_ || n < 70000 || (n & 15) == 0 || checkpoint(n)) check_state(s, o, t, e, h, n);
        if (checkpoint(n)) mc::state(sm::hash(s));
    }
    for (const Ev& e : next) {
        State u = s;
        sm::judge(A, B, e, u, 77, h + " for " + std::to_string(frames) + " frames", &o);
        for (int k = 0; k < 3; ++k) sm::judge(A, B, e, u, 78 + k, h + " for " + std::to_string(frames) + " frames > " + std::to_string(k + 1) + " x " + e.name, &o);
    }
    mc::traces();
}
static void check() {
    std::vector<Ev> ev[4], full[3];
    ev[0] = bounded(imbe_events(false)); ev[1] = bounded(a2450_events(false)); ev[2] = bounded(a2400_events(false));
    full[0] = bounded(imbe_events(true)); full[1] = bounded(a2450_events(true)); full[2] = bounded(a2400_events(true));
    for (int c = 0; c < 3; ++c) for (size_t i = 0; i < ev[c].size(); i += 4) ev[3].push_back(ev[c][i]);
    // days of light impairment: one hundred frames of every kind after half a million lightly impaired ones
    for (uint64_t i = 0; i < 6; ++i) mc::one("days:" + std::to_string(i), i, [&, i] {
        int c = (int)(i % 3);
        Ev e = c == 0 ? make(IMBE_D, imbe_bits(90, -1, 20, 13), 0, i < 3 ? 5 : 3, 0, "light errors") : c == 1 ? make(A2450_D, a2450_bits(119, 9, 12, 23), 0, i < 3 ? 3 : 2, 0, "light errors") : make(A2400_D, a2400_bits(120, 9, 24, 33), 0, i < 3 ? 3 : 2, 0, "light errors");
        run({&e}, mc::thorough ? 3000000 : i < 3 ? 400000 : 100000, full[c], "only " + e.name);
    });
    const char* names[] = {"IMBE", "AMBE2450", "AMBE2400", "mixed"};
    for (int c = 0; c < 4; ++c) {
        auto& E = ev[c];
        size_t n = E.size();
        mc::group((std::string(names[c]) + "-alternating").c_str(), n * n, [&](uint64_t i) {
            const Ev &a = E[i / n], &b = E[i % n];
            run({&a, &b}, mc::thorough ? 12000 : 600, E, a.name + " / " + b.name);
            if (i == n + 3) mc::sample("%s and %s in turn, every frame range-checked, rules judged at checkpoints and for every next frame", a.name.c_str(), b.name.c_str());
        });
    }
    for (int c = 0; c < 3; ++c)
        mc::group((std::string(names[c]) + "-constant").c_str(), full[c].size(), [&](uint64_t i) { run({&full[c][i]}, mc::thorough ? 300000 : 12000, full[c], "only " + full[c][i].name); });
    // one frame of each kind, alone and in turn with every other, past every 16-bit counter
    std::vector<Ev> kinds[3] = {
        {make(IMBE72_F, imbe_bits(60, 1, 40, 11), 0, 0, 0, "clean"), make(IMBE72_F, imbe_bits(110, 0, 30, 12), 1, 6, 1, "impaired"), make(IMBE71_F, imbe_bits(207, -1, 50, 14), 3, 12, 0, "repeat-rule"), make(IMBE_D, imbe_bits(208, -1, -1, 15), 0, 0, 0, "invalid"), make(IMBE_D, imbe_bits(0, -1, 45, 13), 0, 20, 0, "twenty errors")},
        {make(A2450_F, a2450_bits(50, 0, 17, 23), 0, 0, 0, "clean"), make(A2450_D, a2450_bits(0, 3, 14, 21), 0, 4, 0, "repeat-rule"), make(A2450_D, a2450_tone(133, 70), 0, 0, 0, "tone"), make(A2450_D, a2450_erasure(120, 26), 0, 0, 0, "erasure"), make(A2450_F, a2450_bits(124, 0, 6, 24), 1, 3, 0, "silence"), make(A2450_D, a2450_tone(0, 50), 0, 0, 0, "invalid tone")},
        {make(A2400_F, a2400_bits(60, 0, 45, 33), 0, 0, 0, "clean"), make(A2400_D, a2400_bits(0, 3, 30, 31), 0, 4, 0, "repeat-rule"), make(A2400_D, a2400_tone(40), 0, 0, 0, "tone"), make(A2400_D, a2400_tone(123), 0, 0, 0, "invalid tone"), make(A2400_F, a2400_bits(125, 9, 40, 32), 1, 3, 0, "impaired")}};
    for (int c = 0; c < 3; ++c) {
        auto& E = kinds[c];
        size_t n = E.size();
        mc::group((std::string(names[c]) + "-kinds").c_str(), n * n, [&](uint64_t i) {
            const Ev &a = E[i / n], &b = E[i % n];
            std::vector<const Ev*> p(1 + i % 4, &a);
            if (&a != &b) p.push_back(&b);
            run(p, mc::thorough ? 1000000 : 66000, E, std::to_string(1 + i % 4) + " x " + a.name + " / " + b.name);
        });
    }
    // frames that cost little, past twenty-one bits (at 50 frames a second: half a day)
    {
        std::vector<std::pair<int, std::vector<Ev>>> cheap = {
            {0, {kinds[0][3]}}, {0, {kinds[0][4]}}, {1, {kinds[1][3]}}, {1, {kinds[1][1]}}, {1, {kinds[1][2]}}, {1, {kinds[1][5]}}, {2, {kinds[2][1]}}, {2, {kinds[2][2]}}, {2, {kinds[2][3]}},
            {1, {make(A2450_D, a2450_tone(20, 90), 0, 0, 0, "single tone")}}, {1, {kinds[1][3], kinds[1][2]}}, {2, {kinds[2][2], kinds[2][3]}}};
        mc::group("cheap", cheap.size(), [&](uint64_t i) {
            std::vector<const Ev*> p;
            for (auto& e : cheap[i].second) p.push_back(&e);
            run(p, mc::thorough ? 1l << 25 : 1l << 21, full[cheap[i].first], "only " + cheap[i].second[0].name + (p.size() > 1 ? " and " + cheap[i].second[1].name : ""), true);
        });
    }
    // periods of three and longer: a burst of b every k frames of a
    for (int c = 0; c < 3; ++c) {
        auto& E = ev[c];
        size_t n = E.size();
        mc::group((std::string(names[c]) + "-bursts").c_str(), n * n, [&](uint64_t i) {
            const Ev &a = E[i / n], &b = E[i % n];
            for (int k : {2, 3, 4, 5, 9})
                for (int w : {1, 3, 4, 5}) {
                    if (!mc::thorough && (i + k + w) % 8) continue;
                    std::vector<const Ev*> p(k, &a);
                    p.insert(p.end(), w, &b);
                    run(p, mc::thorough ? 4000 : 400, {}, std::to_string(k) + " x " + a.name + " / " + std::to_string(w) + " x " + b.name);
                }
        });
    }
    // the threshold's accumulator on its own, for every error count
    mc::group("threshold", 21 * 4, [&](uint64_t i) {
        Lib& A = lib("scalar");
        int errs = (int)(i % 21), form = (int)(i / 21);
        State s;
        init(A, s);
        mbe_parms a = s.cur, b = s.cur;
        a.errorRate = b.errorRate = form < 2 ? 0.01f : 0.05f;
        a.errorCountTotal = b.errorCountTotal = errs;
        a.errorCount4 = b.errorCount4 = form & 1;
        long frames = mc::thorough ? 20000000 : 1500000;
        int64_t t = a.amplitudeThreshold;
        for (long n = 0; n < frames; ++n) {
            for (int l = 1; l <= a.L; ++l) { a.Vl[l] = l & 1; a.Ml[l] = 100; }
            A.f_applyAdaptiveSmoothing(&a, &b);
            int64_t w = t + 6000 - 300 * errs;
            bool ok = w <= INT32_MAX ? a.amplitudeThreshold == w : a.amplitudeThreshold >= t && a.amplitudeThreshold > INT32_MAX - 12000;
            if (!ok) mc::fail("%d errors a frame, frame %ld: threshold is %d after %lld, expected %lld", errs, n, (int)a.amplitudeThreshold, (long long)t, (long long)w);
            if (!(a.localEnergy >= 9999 && a.localEnergy <= 75001 + 57 * 10000)) mc::fail("%d errors a frame, frame %ld: local energy is %g", errs, n, a.localEnergy);
            if (a.Ml[1] != 100) mc::fail("%d errors a frame, frame %ld: amplitudes scaled although the threshold is %d", errs, n, (int)a.amplitudeThreshold);
            t = a.amplitudeThreshold;
            std::swap(a.localEnergy, b.localEnergy);
            b.amplitudeThreshold = a.amplitudeThreshold;
        }
        mc::transitions(frames);
        mc::traces();
    });
    // from states at the far end of every accumulator
    mc::group("far-end", 3 * 8 * 4, [&](uint64_t i) {
        Lib &A = lib("scalar"), &B = lib("scalar2");
        int c = (int)(i % 3), k = (int)(i / 3) % 8, warm = (int)(i / 24);
        static const int thr[8] = {INT32_MAX, INT32_MAX - 1, INT32_MAX - 5999, INT32_MAX - 6000, INT32_MAX - 6001, INT32_MAX - 20000, 1, 20480};
        State s;
        Out o;
        init(A, s);
        for (int n = 0; n < warm; ++n) step(A, full[c][n * 5 % full[c].size()], s, o);
        for (mbe_parms* m : {&s.cur, &s.prev, &s.enh}) {
            m->amplitudeThreshold = thr[k];
            m->localEnergy = k & 1 ? 10000 : 3e36f;
            m->errorRate = k & 1 ? 0.42f : 0.08f;
        }
        for (auto& e : full[c])
            for (auto& f : ev[c]) {
                State u = s;
                std::string h = "threshold " + std::to_string(thr[k]);
                sm::judge(A, B, e, u, 5, h, &o);
                sm::judge(A, B, f, u, 6, h + " > " + e.name, &o);
                std::string r = bad_model(u.cur, "cur");
                if (r.empty()) r = bad_model(u.enh, "prev_enhanced");
                if (!r.empty()) mc::fail("%s > %s > %s: %s", h.c_str(), e.name.c_str(), f.name.c_str(), r.c_str());
                mc::traces();
            }
    });
}
int main(int c, char** v) { lib("scalar"); lib("scalar2"); return mc::main(c, v, check); }
