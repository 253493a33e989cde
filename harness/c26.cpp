// C26: every build takes the same decisions and computes the same values within rounding.
#include "sm_events.hpp"

static const char* builds[] = {"simd", "O0", "O3", "fast", "release", "clang", "neon", "neon32"};
static std::vector<Ev> alphabet(int codec, bool full) { return codec == 0 ? imbe_events(full) : codec == 1 ? a2450_events(full) : a2400_events(full); }
static const Path dpath[3] = {IMBE_D, A2450_D, A2400_D};
static Bits payload(int codec, int b0, int v, int g, uint64_t base) { return codec == 0 ? imbe_bits(b0, v, g, base) : codec == 1 ? a2450_bits(b0, v, g, base) : a2400_bits(b0, v, g, base); }
static bool near(double a, double b, double rel) { return std::fabs(a - b) <= rel * std::fabs(b); }
static double worst[8];
static bool measure = getenv("MBE_MEASURE") != nullptr;

// a carried or computed quantity sits on a decision threshold within rounding: either side is right
static bool on_threshold(const Ev& e, const State& pre, const State& sa) {
    double er = sa.cur.errorRate;
    for (double t : {.005, .0125, .0875, .096}) if (er != 0 && near(er, t, 3e-6)) return true;
    if (is_imbe(e.path) && is_frame(e.path) && er != 0) {
        double x = .95 * pre.prev.errorRate + .000365 * e.total;
        if (near(e.total, 10 + 40 * x, 1e-5)) return true;
    }
    return false;
}
static bool same_float(double a, double b, double rel, double abs, int slot) {
    if (a == b) return true;
    double d = std::fabs(a - b) / (abs + rel * std::fmax(std::fabs(a), std::fabs(b)));
    if (measure && d > worst[slot]) worst[slot] = d;
    return d <= 1;
}
static std::string cmp_model(const mbe_parms& a, const mbe_parms& b, const char* who, double loose, bool& vl) {
    char t[200];
#define NI(f) if (a.f != b.f) { snprintf(t, sizeof t, "%s." #f " is %ld, in the scalar build %ld", who, (long)b.f, (long)a.f); return t; }
#define NF(f, rel, ab, sl) if (!same_float(b.f, a.f, rel * loose, ab * loose, sl)) { snprintf(t, sizeof t, "%s." #f " is %.9g, in the scalar build %.9g", who, b.f, a.f); return t; }
    NI(L) NI(K) NI(repeat) NI(repeatCount) NI(errorCountTotal) NI(errorCount4) NI(un) NI(swn)
    NF(w0, 1e-6, 0, 0) NF(gamma, 1e-5, 1e-5, 1) NF(errorRate, 1e-6, 1e-9, 0) NF(mutingThreshold, 1e-6, 0, 0) NF(noiseSeed, 0, 0, 0)
    NF(localEnergy, 1e-4, 0, 2)
    NI(amplitudeThreshold)
    for (int l = 1; l <= a.L && l <= 56; ++l) {
        if (a.Vl[l] != b.Vl[l]) { vl = true; snprintf(t, sizeof t, "%s.Vl[%d] is %d, in the scalar build %d", who, l, b.Vl[l], a.Vl[l]); return t; }
        NF(log2Ml[l], 1e-5, 1e-4, 3)
        NF(Ml[l], 3e-4, 1e-6, 4)
    }
    for (int l = 1; l <= 56; ++l) {
        double d1 = std::remainder((double)a.PHIl[l] - b.PHIl[l], 2 * M_PI), d2 = std::remainder((double)a.PSIl[l] - b.PSIl[l], 2 * M_PI);
        if (!(std::fabs(d1) <= 2e-3 * loose)) { snprintf(t, sizeof t, "%s.PHIl[%d] is %.9g, in the scalar build %.9g", who, l, b.PHIl[l], a.PHIl[l]); return t; }
        if (!(std::fabs(d2) <= 2e-3 * loose)) { snprintf(t, sizeof t, "%s.PSIl[%d] is %.9g, in the scalar build %.9g", who, l, b.PSIl[l], a.PSIl[l]); return t; }
        if (measure) { worst[5] = std::max(worst[5], std::max(std::fabs(d1), std::fabs(d2)) / 2e-3); }
    }
    for (int i = 0; i < 96; ++i) NF(noiseOverlap[i], 0, 0, 0)
    double peak = 1e-3;
    for (int i = 0; i < 256; ++i) peak = std::fmax(peak, std::fabs(a.previousUw[i]));
    for (int i = 0; i < 256; ++i)
        if (!same_float(a.previousUw[i], b.previousUw[i], 0, 1e-4 * loose * peak, 6)) { snprintf(t, sizeof t, "%s.previousUw[%d] is %.9g, in the scalar build %.9g (peak %.4g)", who, i, b.previousUw[i], a.previousUw[i], peak); return t; }
    return "";
}
// amplitude limit of the voicing rule, from the model the frame decoded to
static bool voicing_edge(Lib& A, const State& sa) {
    mbe_parms m = sa.prev;
    A.f_spectralAmpEnhance(&m);
    double e = sa.cur.localEnergy, er = sa.cur.errorRate;
    double vm = er <= .0125 && sa.cur.errorCount4 == 0 ? 45.255 * std::pow(e, .375) / std::exp(277.26 * er) : 1.414 * std::pow(e, .375);
    for (int l = 1; l <= m.L; ++l) if (near(m.Ml[l], vm, 3e-4)) return true;
    return false;
}
static void run_both(Lib& A, Lib& B, const Ev& e, State& sa, State& sb, const State& pre, double loose, const std::string& hist, uint32_t seed, bool& skip) {
    Out oa, ob;
    A.f_setThreadRngSeed(seed);
    step(A, e, sa, oa);
    B.f_setThreadRngSeed(seed);
    step(B, e, sb, ob);
    mc::transitions(2);
    if (on_threshold(e, pre, sa)) { mc::count("on-threshold-not-judged"); skip = true; return; }
    std::string bn = B.path.substr(B.path.rfind('/') + 1);
    auto where = [&] { return bn + ": " + hist + " > " + e.name; };
    oa.str[599] = ob.str[599] = 0;
    if (strcmp(oa.str, ob.str) || oa.errs != ob.errs || oa.errs2 != ob.errs2) mc::fail("%s: status \"%.60s\" (%d,%d), scalar build \"%.60s\" (%d,%d)", where().c_str(), ob.str, ob.errs, ob.errs2, oa.str, oa.errs, oa.errs2);
    if (memcmp(oa.d, ob.d, nbits(e.path))) mc::fail("%s: parameter bits differ from the scalar build", where().c_str());
    const mbe_parms *pa[3] = {&sa.cur, &sa.prev, &sa.enh}, *pb[3] = {&sb.cur, &sb.prev, &sb.enh};
    static const char* nm[3] = {"cur", "prev", "prev_enhanced"};
    for (int k = 0; k < 3; ++k) {
        bool vl = false;
        std::string d = cmp_model(*pa[k], *pb[k], nm[k], loose, vl);
        if (vl && voicing_edge(A, sa)) { mc::count("on-threshold-not-judged"); skip = true; return; }
        if (!d.empty()) mc::fail("%s: %s", where().c_str(), d.c_str());
    }
    // samples, unless the low-harmonic interpolation rule is on its pitch threshold
    double dw = std::fabs((double)sa.cur.w0 - pre.enh.w0);
    if (sa.cur.w0 > 0 && near(dw, .1 * sa.cur.w0, 1e-5)) { mc::count("interpolation-threshold-not-judged"); return; }
    double peak = 1, sum = 0;
    for (int i = 0; i < 160; ++i) peak = std::fmax(peak, std::fabs(oa.pcm[i]));
    // bands clip individually large spectra: the tolerance follows the unclipped magnitude
    for (int l = 1; l <= sa.cur.L; ++l) sum += std::fabs(sa.cur.Ml[l]);
    for (int l = 1; l <= pre.enh.L && l <= 56; ++l) sum += std::fabs(pre.enh.Ml[l]);
    double tol = loose * (3e-4 * peak + 6e-5 * sum + 3e-4);
    for (int i = 0; i < 160; ++i)
        if (!same_float(oa.pcm[i], ob.pcm[i], 0, tol, 7)) mc::fail("%s: sample %d is %.7g, scalar build %.7g (peak %.4g)", where().c_str(), i, ob.pcm[i], oa.pcm[i], peak);
    mc::state(sm::hash(sb));
}
// one frame in each build from the scalar build's state
static void judge(Lib& A, Lib& B, const Ev& e, State& s, const std::string& hist, uint32_t seed) {
    State pre = s, t = s;
    bool skip = false;
    run_both(A, B, e, s, t, pre, 1, hist, seed, skip);
}
static void check() {
    Lib& A = lib("scalar");
    for (int bi = 0; bi < (int)(sizeof builds / sizeof *builds); ++bi) {
        if (!have(builds[bi])) continue;
        Lib& B = lib(builds[bi]);
        bool deep = mc::thorough || bi == 0 || bi == 4;
        for (int c = 0; c < 3; ++c) {
            static const char* cn[3] = {"imbe", "ambe2450", "ambe2400"};
            static std::vector<Ev> ev, full;
            ev = alphabet(c, false);
            full = alphabet(c, true);
            std::string v = std::string(builds[bi]) + "-" + cn[c];
            size_t n = ev.size();
            mc::group((v + "-seq").c_str(), n * n, [&](uint64_t i) {
                State s;
                init(A, s);
                judge(A, B, ev[i / n], s, "start", 1);
                judge(A, B, ev[i % n], s, "start > " + ev[i / n].name, 2);
                if (deep || i % 3 == 0)
                    for (size_t k = 0; k < n; ++k) {
                        State t = s;
                        judge(A, B, ev[k], t, "start > " + ev[i / n].name + " > " + ev[i % n].name, 3);
                        mc::traces();
                        if (mc::thorough && bi < 5) for (size_t m = 0; m < n; m += 3) { State u = t; judge(A, B, ev[(k + m) % n], u, "start > " + ev[i / n].name + " > " + ev[i % n].name + " > " + ev[k].name, 4); }
                    }
                if (!bi && i == 9) mc::sample("start > %s > %s > every frame: same status, counts, integer state; floats within rounding", ev[0].name.c_str(), ev[9 % n].name.c_str());
            });
            // both builds keep their own state
            mc::group((v + "-free-running").c_str(), full.size() * 12, [&](uint64_t i) {
                State sa, sb;
                init(A, sa);
                init(B, sb);
                std::string h = "start";
                for (int k = 0; k < (mc::thorough ? 24 : 10); ++k) {
                    const Ev& e = full[(i / 12 + k * (i % 12)) % full.size()];
                    State pre = sa;
                    bool skip = false;
                    run_both(A, B, e, sa, sb, pre, 4 + k, "own state: " + h, 5 + k, skip);
                    if (skip) break;
                    if (h.size() < 400) h += " > " + e.name;
                }
                mc::traces();
            });
            int nb0 = c == 0 ? 256 : 128;
            mc::group((v + "-pitches").c_str(), nb0, [&](uint64_t a) {
                State s;
                init(A, s);
                Ev ea = make(dpath[c], payload(c, (int)a, -1, c ? 16 : 40, a * 7), 0, 0, 0, "pitch " + std::to_string(a));
                judge(A, B, ea, s, "start", 1);
                for (int b = 0; b < nb0; b += deep ? 1 : 4) {
                    State t = s;
                    Ev eb = make(dpath[c], payload(c, (b + a) % nb0, -1, -1, b * 13), 0, b % 3, 0, "pitch " + std::to_string((b + a) % nb0));
                    judge(A, B, eb, t, "start > " + ea.name, 2);
                    judge(A, B, ea, t, "start > " + ea.name + " > " + eb.name, 3);
                    mc::traces();
                }
            });
        }
        // tones, their levels and their oscillators
        mc::group((std::string(builds[bi]) + "-tones").c_str(), 256, [&](uint64_t id) {
            for (int ad : {0, 1, 40, 99, 127}) {
                State s;
                init(A, s);
                for (int r = 0; r < 4; ++r) judge(A, B, make(A2450_D, a2450_tone((int)id, ad, r & 1), 0, r / 2, 0, "tone " + std::to_string(id)), s, "tones", 1);
                for (int r = 0; r < 2; ++r) judge(A, B, make(A2400_D, a2400_tone((int)id, ad), 0, 0, 0, "D-STAR tone " + std::to_string(id)), s, "tones", 1);
            }
            mc::traces();
        });
        // arbitrary channel frames: identical correction, counting and classification
        mc::group((std::string(builds[bi]) + "-frames").c_str(), mc::thorough ? 8000 : 1200, [&](uint64_t i) {
            State s;
            init(A, s);
            static const Path fp[4] = {IMBE72_F, IMBE71_F, A2450_F, A2400_F};
            for (int k = 0; k < 6; ++k) {
                Path p = fp[i % 4];
                uint32_t rows[8];
                for (int r = 0; r < 8; ++r) rows[r] = (uint32_t)mc::mix(i * 1000003 + k * 131 + r) & ((1u << row_bits(p, r)) - 1);
                Ev e = raw(p, rows, "frame " + std::to_string(k));
                if (e.total > 20) continue;
                judge(A, B, e, s, "arbitrary frames, stream " + std::to_string(i), 1);
            }
            mc::traces();
        });
        // every row value of the block codes
        mc::group((std::string(builds[bi]) + "-codes").c_str(), 64, [&](uint64_t part) {
            for (uint32_t w = (uint32_t)part; w < (1u << 23); w += 64 * (deep ? 1 : 7)) {
                char in[23], x[23], y[23];
                for (int i = 0; i < 23; ++i) in[i] = w >> i & 1;
                int ea = A.f_golay2312(in, x), eb = B.f_golay2312(in, y);
                if (ea != eb || memcmp(x, y, 23)) mc::fail("%s: Golay word %06x decodes differently from the scalar build", builds[bi], w);
                if (w < (1u << 15)) {
                    ea = A.f_hamming1511(in, x); eb = B.f_hamming1511(in, y);
                    if (ea != eb || memcmp(x, y, 15)) mc::fail("%s: Hamming word %04x decodes differently from the scalar build", builds[bi], w);
                    ea = A.f_7100x4400hamming1511(in, x); eb = B.f_7100x4400hamming1511(in, y);
                    if (ea != eb || memcmp(x, y, 15)) mc::fail("%s: 7100 Hamming word %04x decodes differently from the scalar build", builds[bi], w);
                }
            }
            mc::transitions((1u << 23) / 64);
            mc::traces();
        });
    }
    if (measure) fprintf(stderr, "worst %g %g %g %g %g %g %g %g\n", worst[0], worst[1], worst[2], worst[3], worst[4], worst[5], worst[6], worst[7]);
}
int main(int c, char** v) { lib("scalar"); for (auto b : builds) if (have(b)) lib(b); return mc::main(c, v, check); }
