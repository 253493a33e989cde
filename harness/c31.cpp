// C31: decoders forget.  After every burst of disturbances a run of clean frames must bring the model back to
// that of a decoder that never saw the burst: pitch, bands and voicing at once, gain and amplitudes within the
// reach of the predictors' leakage, the played model once the error rate has decayed.
#include "sm_events.hpp"

struct Suffix { std::string name; std::vector<Ev> ev; std::vector<mbe_parms> prev, enh; };
struct Codec { const char* name; Path path; std::vector<Ev> warm, small, full; std::vector<Suffix> suf; };
static std::vector<Codec> codecs;
constexpr int MODEL = 44, PLAYED = 150, LONG = 700;

static double dlog(const mbe_parms& a, const mbe_parms& w) {
    double d = 0;
    for (int l = 1; l <= w.L && l <= 56; ++l) {
        if (!std::isfinite(a.log2Ml[l])) return 1e9;
        d = std::max(d, (double)std::fabs(a.log2Ml[l] - w.log2Ml[l]));
    }
    return d;
}
static std::string coded(const mbe_parms& a, const mbe_parms& w) {
    char b[160];
#define EQ(f) if (a.f != w.f) { snprintf(b, sizeof b, #f " is %g, undisturbed %g", (double)a.f, (double)w.f); return b; }
    EQ(w0) EQ(L) EQ(K) EQ(repeat) EQ(repeatCount) EQ(errorCountTotal) EQ(errorCount4)
    for (int l = 1; l <= w.L; ++l) EQ(Vl[l])
    return "";
}
static std::string near(const mbe_parms& a, const mbe_parms& w, double tol, bool gain) {
    char b[160];
    if (gain && std::fabs(a.gamma - w.gamma) > tol) { snprintf(b, sizeof b, "gain is %.7g, undisturbed %.7g", a.gamma, w.gamma); return b; }
    for (int l = 1; l <= w.L; ++l) {
        if (!(std::fabs((double)a.Ml[l] - w.Ml[l]) <= tol * (1 + std::fabs(w.Ml[l])))) { snprintf(b, sizeof b, "amplitude %d is %.7g, undisturbed %.7g", l, a.Ml[l], w.Ml[l]); return b; }
        if (!(std::fabs((double)a.log2Ml[l] - w.log2Ml[l]) <= tol)) { snprintf(b, sizeof b, "log amplitude %d is %.7g, undisturbed %.7g", l, a.log2Ml[l], w.log2Ml[l]); return b; }
    }
    return "";
}
// run the clean suffix from the disturbed state
static void recover(Lib& A, const Codec& c, const Suffix& f, State s, const std::string& hist, int frames = PLAYED + 4) {
    Out o;
    int muted = 0;
    double d0 = 0, peak = 0;
    int calm = 0;  // frames whose played model must be the undisturbed one
    for (int n = 0; n < frames && (calm < 4 || n < MODEL + 4 || frames == LONG); ++n) {
        const Ev& e = f.ev[n % f.ev.size()];
        step(A, e, s, o);
        const mbe_parms &wp = f.prev[n], &we = f.enh[n];
        auto at = [&](const std::string& m) { mc::fail("%s: %s > clean frames \"%s\", frame %d: %s", c.name, hist.c_str(), f.name.c_str(), n, m.c_str()); };
        std::string d = coded(s.prev, wp);
        if (!d.empty()) at(d);
        if (strchr(o.str, 'R') || strchr(o.str, 'E') || strchr(o.str, 'T')) at(std::string("trace \"") + o.str + "\"");
        if (strchr(o.str, 'M')) { if (!is_imbe(e.path) || muted < n || n > 50)  /* an error rate of 0.93 (127 errors in every frame) takes 47 frames to decay */ at("muted"); muted = n + 1; }
        double dl = dlog(s.prev, wp) + (is_imbe(e.path) ? 0 : std::fabs(s.prev.gamma - wp.gamma));
        if (n == 0) d0 = dl;
        peak = std::max(peak, dl);
        if (dl > 1e-3 + 4 * d0) at("the difference from the undisturbed decoder has grown from " + std::to_string(d0) + " to " + std::to_string(dl));
        if (n >= MODEL && !(d = near(s.prev, wp, 1e-3, !is_imbe(e.path))).empty()) at(d);
        if (n >= MODEL && s.prev.errorRate > 0.0045 && n >= PLAYED) at("error rate is still " + std::to_string(s.prev.errorRate));
        if (n >= MODEL && s.prev.errorRate <= 0.0045) {
            ++calm;
            if (s.enh.L != we.L || s.enh.w0 != we.w0) at("the played model's pitch differs");
            for (int l = 1; l <= we.L; ++l) if (s.enh.Vl[l] != we.Vl[l]) at("the played voicing of band " + std::to_string(l) + " differs");
            d = near(s.enh, we, 2e-3, false);
            if (!d.empty()) at("played model: " + d);
            if (s.enh.amplitudeThreshold != we.amplitudeThreshold) at("amplitude threshold is " + std::to_string(s.enh.amplitudeThreshold));
        }
        if (n >= LONG - 10) {
            if (s.prev.errorRate > 1e-6) at("error rate is " + std::to_string(s.prev.errorRate));
            if (std::fabs(s.enh.localEnergy - we.localEnergy) > 1e-3 * std::fabs(we.localEnergy)) at("local energy is " + std::to_string(s.enh.localEnergy) + ", undisturbed " + std::to_string(we.localEnergy));
        }
    }
    mc::transitions(MODEL + 4);
    mc::traces();
    mc::state(sm::hash(s));
}
static void start(Lib& A, const Codec& c, State& s) { init(A, s); Out o; A.f_setThreadRngSeed(5); for (auto& e : c.warm) step(A, e, s, o); }

static void build() {
    auto I = [](int b0, int v, int g, int base) { return make(IMBE_D, imbe_bits(b0, v, g, base), 0, 0, 0, "b0=" + std::to_string(b0)); };
    auto A5 = [](int b0, int b1, int b2, int base) { return make(A2450_D, a2450_bits(b0, b1, b2, base), 0, 0, 0, "b0=" + std::to_string(b0)); };
    auto A4 = [](int b0, int b1, int b2, int base) { return make(A2400_D, a2400_bits(b0, b1, b2, base), 0, 0, 0, "b0=" + std::to_string(b0)); };
    std::vector<Ev> arb_i, arb_5, arb_4;
    for (int k = 0; k < 6; ++k) {
        uint32_t r[8];
        for (int i = 0; i < 8; ++i) r[i] = (uint32_t)mc::mix(k * 8 + i + 900);
        arb_i.push_back(raw(k & 1 ? IMBE71_F : IMBE72_F, r, "arbitrary" + std::to_string(k)));
        arb_5.push_back(raw(A2450_F, r, "arbitrary" + std::to_string(k)));
        arb_4.push_back(raw(A2400_F, r, "arbitrary" + std::to_string(k)));
    }
    auto add = [](std::vector<Ev> a, const std::vector<Ev>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    codecs.resize(3);
    Codec& i = codecs[0];
    i.name = "IMBE"; i.path = IMBE_D;
    i.warm = {I(60, 1, 40, 11), I(90, -1, 35, 12), I(110, 0, 30, 13)};
    i.small = imbe_events(false); i.full = add(imbe_events(true), arb_i);
    i.suf = {{"steady", {I(80, -1, 36, 41)}}, {"changing pitch", {I(10, 1, 38, 42), I(150, -1, 30, 43), I(207, 0, 33, 44), I(90, -1, 30, 45)}}, {"falling pitch", {I(0, 1, 30, 46), I(40, 1, 30, 46), I(80, 1, 31, 46), I(120, 0, 32, 46), I(160, 0, 30, 47), I(200, 1, 29, 47)}}, {"two pitches", {I(20, 1, 30, 48), I(200, 1, 30, 48)}}};
    Codec& a = codecs[1];
    a.name = "AMBE 2450"; a.path = A2450_D;
    a.warm = {A5(50, 9, 14, 21), A5(20, 0, 17, 22), A5(100, 16, 12, 23)};
    a.small = a2450_events(false); a.full = add(a2450_events(true), arb_5);
    a.suf = {{"steady", {A5(60, 5, 14, 51)}}, {"changing pitch", {A5(5, 0, 15, 52), A5(110, 9, 13, 53), A5(60, 16, 12, 54), A5(119, 3, 11, 55)}}, {"with silence", {A5(70, 5, 14, 56), A5(124, 0, 6, 57), A5(30, 7, 15, 58)}}, {"two pitches", {A5(3, 0, 13, 59), A5(117, 0, 13, 59)}}};
    Codec& d = codecs[2];
    d.name = "AMBE 2400"; d.path = A2400_D;
    d.warm = {A4(50, 9, 30, 31), A4(20, 0, 35, 32), A4(100, 12, 28, 33)};
    d.small = a2400_events(false); d.full = add(a2400_events(true), arb_4);
    d.suf = {{"steady", {A4(60, 5, 30, 61)}}, {"changing pitch", {A4(5, 0, 33, 62), A4(120, 9, 28, 63), A4(60, 15, 26, 64), A4(90, 3, 30, 65)}}, {"falling pitch", {A4(10, 0, 30, 66), A4(60, 0, 30, 66), A4(110, 1, 29, 66)}}, {"two pitches", {A4(3, 0, 28, 67), A4(122, 0, 28, 67)}}};
    Lib& A = lib("scalar");
    for (auto& c : codecs)
        for (auto& f : c.suf) {
            State s;
            Out o;
            start(A, c, s);
            for (int n = 0; n < LONG + 1; ++n) { step(A, f.ev[n % f.ev.size()], s, o); f.prev.push_back(s.prev); f.enh.push_back(s.enh); }
        }
}
static void check() {
    if (codecs.empty()) build();
    Lib& A = lib("scalar");
    for (auto& c : codecs) {
        std::string pre = std::string(c.name) + " ";
        size_t n = c.small.size(), m = c.full.size();
        // every burst of one or two frames of the full alphabet
        mc::group((pre + "pairs").c_str(), m * m, [&](uint64_t i) {
            if (!mc::thorough && i % m != i / m && (i / m + i) % 2) return;
            State s;
            Out o;
            start(A, c, s);
            const Ev &a = c.full[i / m], &b = c.full[i % m];
            step(A, a, s, o);
            if (i % m == i / m) for (auto& f : c.suf) recover(A, c, f, s, a.name, i < m ? LONG : PLAYED + 4);
            step(A, b, s, o);
            for (size_t k = 0; k < c.suf.size(); ++k) if (mc::thorough || (i / m + i) / 2 % c.suf.size() == k) recover(A, c, c.suf[k], s, a.name + " > " + b.name);
        });
        // every burst of three (four) frames of the small alphabet
        mc::group((pre + "triples").c_str(), n * n, [&](uint64_t i) {
            State s;
            Out o;
            start(A, c, s);
            const Ev &a = c.small[i / n], &b = c.small[i % n];
            step(A, a, s, o);
            step(A, b, s, o);
            for (size_t k = 0; k < n; ++k) {
                State t = s;
                step(A, c.small[k], t, o);
                std::string h = a.name + " > " + b.name + " > " + c.small[k].name;
                recover(A, c, c.suf[(k + i) % c.suf.size()], t, h);
                if (mc::thorough) for (auto& g : c.small) { State u = t; step(A, g, u, o); recover(A, c, c.suf[(k + i) % c.suf.size()], u, h + " > " + g.name); }
            }
            if (i == n + 2) mc::sample("%s: %s > %s > every third frame, then clean frames", c.name, a.name.c_str(), b.name.c_str());
        });
        // every frame held for a long time, alone and alternating with another
        static const int lens[] = {4, 5, 6, 12, 40, 200, 2000};
        mc::group((pre + "sustained").c_str(), m * 7, [&](uint64_t i) {
            const Ev& e = c.full[i / 7];
            int len = lens[i % 7] * (mc::thorough && i % 7 == 6 ? 20 : 1);
            for (int alt = 0; alt < (mc::thorough ? (int)m : 3); ++alt) {
                const Ev& g = c.full[(i / 7 + alt * (mc::thorough ? 1 : 7)) % m];
                State s;
                Out o;
                start(A, c, s);
                for (int k = 0; k < len; ++k) step(A, k & 1 ? g : e, s, o);
                auto& f = c.suf[(i + alt) % c.suf.size()];
                recover(A, c, f, s, std::to_string(len) + " x " + e.name + (alt ? " / " + g.name : ""), alt == 0 && lens[i % 7] >= 200 ? LONG : PLAYED + 4);
            }
        });
        // frames of the other codecs as the disturbance
        std::vector<Ev> foreign;
        for (auto& q : codecs) if (&q != &c) foreign.insert(foreign.end(), q.small.begin(), q.small.end());
        size_t x = foreign.size();
        mc::group((pre + "foreign").c_str(), x * x, [&](uint64_t i) {
            if (!mc::thorough && (i / x + i) % 2) return;
            const Ev &a = foreign[i / x], &b = foreign[i % x];
            State s;
            Out o;
            start(A, c, s);
            step(A, a, s, o);
            step(A, b, s, o);
            for (size_t k = 0; k < c.suf.size(); ++k) if (mc::thorough || (i / x + i) / 2 % c.suf.size() == k) recover(A, c, c.suf[k], s, a.name + " > " + b.name);
        });
    }
}
int main(int c, char** v) { lib("scalar"); return mc::main(c, v, check); }
