// C25: adaptive smoothing and the error predicates.
#include "ref_synth.hpp"
#include <climits>
using namespace rs;

struct Ref { double energy, vm; long long tm; double sum; bool quiet, vmclose; };
static void judge25(Lib& L, const mbe_parms& c0, const mbe_parms& p0, const std::string& name, bool via_synth = false) {
    mbe_parms c = c0, p = p0;
    if (via_synth) { float o[160]; L.f_synthesizeSpeechf(o, &c, &p, 3); } else L.f_applyAdaptiveSmoothing(&c, &p);
    mc::transitions();
    const char* nm = name.c_str();
    if (!via_synth) {
        if (memcmp(&p, &p0, sizeof p)) mc::fail("%s: the previous model changed", nm);
        mbe_parms r = c;
        memcpy(r.Ml + 1, c0.Ml + 1, sizeof(float) * c0.L);
        memcpy(r.Vl + 1, c0.Vl + 1, sizeof(int) * c0.L);
        r.localEnergy = c0.localEnergy; r.amplitudeThreshold = c0.amplitudeThreshold;
        if (memcmp(&r, &c0, sizeof r)) mc::fail("%s: a field other than amplitudes, voicing, local energy and threshold changed", nm);
    }
    double rm = 0, am = 0;
    for (int l = 1; l <= c0.L; ++l) { rm += (double)c0.Ml[l] * c0.Ml[l]; am += c0.Ml[l]; }
    double pe = p0.localEnergy < 10000 ? 75000 : p0.localEnergy, e = .95 * pe + .05 * rm;
    if (e < 10000) e = 10000;
    if (!(std::fabs(c.localEnergy - e) <= 1e-5 * e)) mc::fail("%s: local energy %.8g, expected %.8g", nm, c.localEnergy, e);
    const float er = c0.errorRate;
    const int tot = c0.errorCountTotal;
    bool novm = er <= 0.005f && tot <= 4;
    double vm = er <= 0.0125f && c0.errorCount4 == 0 ? 45.255 * std::pow(e, .375) / std::exp(277.26 * er) : 1.414 * std::pow(e, .375);
    double pt = p0.amplitudeThreshold <= 0 ? 20480 : p0.amplitudeThreshold;
    double tm = er <= 0.005f && tot <= 6 ? 20480 : std::min(2147483647.0, 6000.0 - 300.0 * tot + pt);
    if (c.amplitudeThreshold != (int)tm) mc::fail("%s: amplitude threshold %d, expected %.0f", nm, c.amplitudeThreshold, tm);
    if (tot <= 20 && c.amplitudeThreshold <= 0) mc::fail("%s: amplitude threshold %d is not positive", nm, c.amplitudeThreshold);
    for (int l = 1; l <= c0.L; ++l) {
        bool close = !novm && std::fabs(c0.Ml[l] - vm) <= 3e-5 * vm;
        int want = !novm && c0.Ml[l] > vm ? 1 : c0.Vl[l];
        if (!close && c.Vl[l] != want) mc::fail("%s: band %d with amplitude %.6g is %s, limit %.6g says %s", nm, l, c0.Ml[l], c.Vl[l] ? "voiced" : "unvoiced", novm ? INFINITY : vm, want ? "voiced" : "unvoiced");
    }
    bool scaled = am > tm && am > 0, edge = std::fabs(am - tm) <= 3e-6 * std::fabs(tm) + 1e-3;
    double f = scaled ? tm / am : 1;
    if (tot <= 20)
        for (int l = 1; l <= c0.L; ++l) {
            if (c.Ml[l] > c0.Ml[l]) mc::fail("%s: band %d grows from %.8g to %.8g", nm, l, c0.Ml[l], c.Ml[l]);
            double w = c0.Ml[l] * f;
            if (!(std::fabs(c.Ml[l] - w) <= 1e-5 * w)) mc::fail("%s: band %d of amplitude %.8g becomes %.8g, expected factor %.8g", nm, l, c0.Ml[l], c.Ml[l], f);
            if (!scaled && !edge && c.Ml[l] != c0.Ml[l]) mc::fail("%s: amplitudes scaled although their sum %.8g does not exceed %.0f", nm, am, tm);
        }
    mc::state(mc::hash(&c, sizeof c));
}
static void model(mbe_parms& m, int bands, int shape, double level, uint64_t id) {
    clean(m);
    m.L = bands;
    m.w0 = (float)(.9254 * PI / (bands + .8));
    for (int l = 0; l <= 56; ++l) {
        m.Vl[l] = l >= 1 && l <= bands ? (int)(mc::mix(id + l) >> 5 & 1) : 0;
        m.Ml[l] = l < 1 ? 1.f : l > bands ? 777.f : (float)(level * (shape == 0 ? 1 : shape == 1 ? (l == 1 + (int)(id % bands) ? bands : 0.01) : std::exp2(6 * u01(id * 57 + l) - 3)));
    }
}
static void check() {
    for (const char* variant : {"scalar", "simd"}) {
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        static const float ers[] = {0, 0.001f, 0.0049999f, 0.005f, 0.0050001f, 0.008f, 0.0124999f, 0.0125f, 0.0125001f, 0.02f, 0.05f, 0.0875f, 0.2f, 0.5f, 1.0f};
        const int ne = 15;
        // error rate x total x row-4 count x band count x shape x level x previous energy x previous threshold
        mc::group(G("grid").c_str(), 48, [&](uint64_t b) {
            static const float pes[] = {0, 9999, 10000, 75000, 3e6f, 1e9f, -5};
            static const int pts[] = {20480, 0, -1, 1, 500, 3000, 100000, 2147480000, INT_MAX, INT_MIN};
            uint64_t id = 0;
            for (int e = 0; e < ne; ++e)
                for (int tot = 0; tot <= 20; ++tot)
                    for (int e4 = 0; e4 < 2; ++e4)
                        for (int s = 0; s < 3; ++s)
                            for (int lv = 0; lv < (first ? 6 : 2); ++lv) {
                                ++id;
                                mbe_parms c, p;
                                model(c, 9 + (int)b, s, std::exp2((lv * 3 + b % 3) * .9), id * 50 + b);
                                model(p, 9 + (int)((b + id) % 48), 2, 4, id);
                                c.errorRate = ers[e]; c.errorCountTotal = tot; c.errorCount4 = e4;
                                p.localEnergy = pes[mc::mix(id) % 7]; p.amplitudeThreshold = pts[mc::mix(id * 5 + b) % 10];
                                judge25(L, c, p, std::to_string(9 + b) + " bands, error rate " + std::to_string(ers[e]) + ", " + std::to_string(tot) + " errors, row 4 " + std::to_string(e4) + ", shape " + std::to_string(s) + ", level " + std::to_string(lv));
                                if (id % 8 == 0) judge25(L, c, p, "through synthesis: " + std::to_string(id), true);
                            }
            mc::traces();
            if (first && b == 3) mc::sample("12 bands x 15 error rates around the thresholds x 0..20 errors x row-4 flag x 3 shapes x 6 levels x 7 previous energies x 10 previous thresholds");
        });
        // amplitudes on either side of the voicing limit, in fine steps, for every error rate
        mc::group(G("limit").c_str(), 40 * ne, [&](uint64_t i) {
            int e = (int)(i % ne), k = (int)(i / ne);
            for (int tot : {0, 4, 5, 6, 7, 12})
                for (int e4 : {0, 1})
                    for (int q = -40; q <= 40; ++q) {
                        mbe_parms c, p;
                        model(c, 9 + k, 0, .1, i);
                        model(p, 20, 0, 1, 1);
                        p.localEnergy = (float)(12000.0 * std::exp2(k * .4));
                        double en = .95 * p.localEnergy;
                        double vm = ers[e] <= 0.0125f && !e4 ? 45.255 * std::pow(en, .375) / std::exp(277.26 * ers[e]) : 1.414 * std::pow(en, .375);
                        for (int l = 1; l <= c.L; ++l) c.Vl[l] = 0;
                        c.Ml[1 + k % c.L] = (float)(vm * (1 + q * .002));
                        c.errorRate = ers[e]; c.errorCountTotal = tot; c.errorCount4 = e4;
                        judge25(L, c, p, "amplitude at the voicing limit x " + std::to_string(1 + q * .002));
                    }
            mc::traces();
        });
        // sums on either side of the amplitude threshold
        mc::group(G("threshold").c_str(), 48, [&](uint64_t b) {
            for (int pt : {20480, 14500, 60, 300, 7000, 90000})
                for (int tot = 0; tot <= 20; ++tot)
                    for (int q = -30; q <= 30; ++q) {
                        mbe_parms c, p;
                        model(c, 9 + (int)b, 0, 1, 1);
                        model(p, 20, 0, 1, 1);
                        double tm = 6000 - 300 * tot + pt;
                        if (tot <= 6 && q % 2) tm = 20480;
                        for (int l = 1; l <= c.L; ++l) c.Ml[l] = (float)(tm * (1 + q * .001) / c.L);
                        c.errorRate = q % 2 ? 0.004f : 0.02f;
                        c.errorCountTotal = tot; p.amplitudeThreshold = pt;
                        judge25(L, c, p, "amplitude sum at the threshold x " + std::to_string(1 + q * .001));
                    }
            mc::traces();
        });
        // nothing else decides: every value of every other field of either set, then combinations
        const uint32_t cfree = by::ALL & ~(by::BANDS | by::ML | by::VL | by::ERATE | by::TOTAL | by::C4), pfree = by::ALL & ~(by::ENERGY | by::THRESH);
        std::vector<by::Var> cv = by::each(cfree), pv = by::each(pfree);
        mc::group(G("bystanders").c_str(), 48 * 12, [&](uint64_t i) {
            mbe_parms c0, p0;
            model(c0, 9 + (int)(i / 12), (int)(i % 3), std::exp2(i % 7 * 1.3), i * 31);
            model(p0, 9 + (int)((i * 5) % 48), 2, 4, i);
            c0.errorRate = ers[(i * 7) % ne]; c0.errorCountTotal = (int)((i * 5) % 21); c0.errorCount4 = (int)(i & 1);
            by::scramble(p0, by::ENERGY | by::THRESH, i);
            for (uint64_t q = 0; q < cv.size() + pv.size() + (mc::thorough ? 2000 : 100); ++q) {
                mbe_parms c = c0, p = p0;
                std::string h = "combination " + std::to_string(q);
                if (q < cv.size()) { by::put(c, cv[q].f, cv[q].v); h = "with " + by::text(cv[q]) + " in the current set"; }
                else if (q < cv.size() + pv.size()) { const by::Var& v = pv[q - cv.size()]; by::put(p, v.f, v.v); h = "with " + by::text(v) + " in the previous set"; }
                else { by::scramble(c, cfree, i * 4000 + q); by::scramble(p, pfree, i * 4001 + q); }
                judge25(L, c, p, h);
            }
            // predicates
            for (uint64_t q = 0; q < 200; ++q) {
                mbe_parms m;
                by::scramble(m, by::ALL, i * 200 + q);
                mbe_parms k = m;
                if (std::fabs(m.errorRate - .0125f) > 1e-6 && !!L.f_requiresAdaptiveSmoothing(&m) != (m.errorRate > 0.0125f || m.errorCountTotal > 4)) mc::fail("requiresAdaptiveSmoothing in combination %d", (int)(i * 200 + q));
                if (!!L.f_requiresMuting(&m) != (m.errorRate > m.mutingThreshold)) mc::fail("requiresMuting in combination %d", (int)(i * 200 + q));
                if (!!L.f_isMaxFrameRepeat(&m) != (m.repeatCount >= 4)) mc::fail("isMaxFrameRepeat in combination %d", (int)(i * 200 + q));
                if (memcmp(&k, &m, sizeof m)) mc::fail("a predicate changed its argument in combination %d", (int)(i * 200 + q));
                mc::transitions(3);
            }
            mc::traces();
        });
        // histories: the tracked energy and threshold feed the next frame
        int depth = mc::thorough ? 8 : 6, n = 5;
        uint64_t total = 1;
        for (int d = 0; d < depth; ++d) total *= n;
        mc::group(G("histories").c_str(), first ? total : total / 8, [&](uint64_t id) {
            mbe_parms c, p;
            model(p, 30, 0, 1, 0);
            uint64_t x = id;
            std::string h = "history";
            for (int d = 0; d < depth; ++d, x /= n) {
                int k = (int)(x % n);
                model(c, 9 + k * 11, k % 3, k == 1 ? 900 : k == 3 ? 60 : 5, id + d);
                c.errorRate = k == 0 ? 0 : k == 1 ? 0.006f : k == 2 ? 0.013f : k == 3 ? 0.1f : 0.0049f;
                c.errorCountTotal = k == 0 ? 0 : k == 1 ? 5 : k == 2 ? 15 : k == 3 ? 20 : 6;
                c.errorCount4 = k == 2;
                h += " > model " + std::to_string(k);
                judge25(L, c, p, h);
                L.f_applyAdaptiveSmoothing(&c, &p);
                p = c;
            }
            mc::traces();
        });
        mc::group(G("sustained").c_str(), 21 * ne, [&](uint64_t i) {
            mbe_parms c, p;
            model(p, 30, 0, 1, 0);
            for (int f = 0; f < (mc::thorough ? 5000 : 200); ++f) {
                model(c, 9 + f % 48, 2, 30, i * 1000 + f);
                c.errorRate = ers[i % ne]; c.errorCountTotal = (int)(i / ne);
                judge25(L, c, p, "frame " + std::to_string(f) + " of a constant error pattern");
                L.f_applyAdaptiveSmoothing(&c, &p);
                p = c;
            }
            mc::traces();
        });
        // predicates: every count, every representable rate around each threshold
        mc::group(G("predicates").c_str(), 129, [&](uint64_t t) {
            mbe_parms m;
            clean(m);
            m.errorCountTotal = (int)t;
            auto near = [&](float x, auto f) { uint32_t u; memcpy(&u, &x, 4); for (int d = -2000; d <= 2000; ++d) { uint32_t w = u + d; float y; memcpy(&y, &w, 4); f(y); } };
            for (float r : ers) { m.errorRate = r; if (!!L.f_requiresAdaptiveSmoothing(&m) != (r > 0.0125f || t > 4)) mc::fail("requiresAdaptiveSmoothing at rate %.9g, %d errors", r, (int)t); mc::transitions(); }
            near(0.0125f, [&](float r) { m.errorRate = r; if (!!L.f_requiresAdaptiveSmoothing(&m) != (r > 0.0125f || t > 4)) mc::fail("requiresAdaptiveSmoothing at rate %.9g, %d errors", r, (int)t); mc::transitions(); });
            for (float th : {0.0875f, 0.096f, 0.0f, 0.5f, 1e9f}) {
                m.mutingThreshold = th;
                near(th == 0 ? 1e-3f : th, [&](float r) { m.errorRate = r; if (!!L.f_requiresMuting(&m) != (r > th)) mc::fail("requiresMuting at rate %.9g, threshold %.9g", r, th); mc::transitions(); });
            }
            for (int rc = -3; rc <= 300; ++rc) { m.repeatCount = rc; if (!!L.f_isMaxFrameRepeat(&m) != (rc >= 4)) mc::fail("isMaxFrameRepeat at %d repeats", rc); mc::transitions(); }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
