// C24: spectral enhancement keeps the frame energy and reweights within limits.
#include "ref_synth.hpp"
using namespace rs;

static void pitch(mbe_parms& m, int b) {
    if (b < 208) imbe_pitch(m, b);
    else if (b < 328) ambe2450_pitch(m, b - 208);
    else if (b < 454) { m.w0 = (float)(std::pow(2.0, -4.311767578125 - 2.1336e-2 * (b - 328 + 0.5)) * TWO_PI); m.L = (int)reftab::AmbePlusLtable[b - 328]; }
    else { m.w0 = (float)(PI * PI / 16); m.L = 15; }
}
static void judge24(Lib& L, const mbe_parms& in, const std::string& name) {
    mbe_parms m = in;
    L.f_spectralAmpEnhance(&m);
    mc::transitions();
    const char* nm = name.c_str();
    mbe_parms r = m;
    memcpy(r.Ml + 1, in.Ml + 1, sizeof(float) * in.L);
    if (memcmp(&r, &in, sizeof r)) mc::fail("%s: something other than the amplitudes of bands 1..%d changed", nm, in.L);
    if (!(in.w0 > 0)) { if (memcmp(&m, &in, sizeof m)) mc::fail("%s: a model without a fundamental changed", nm); return; }
    double R0 = 0, R1 = 0, W[57], E = 0, cond = 0;
    for (int l = 1; l <= in.L; ++l) { double e = (double)in.Ml[l] * in.Ml[l]; R0 += e; R1 += e * std::cos((double)in.w0 * l); }
    if (R0 == 0) {
        for (int l = 1; l <= in.L; ++l) if (m.Ml[l] != 0) mc::fail("%s: silent model: band %d becomes %g", nm, l, m.Ml[l]);
        return;
    }
    double den = R0 * R0 - R1 * R1, dtol[57] = {};
    for (int l = 1; l <= in.L; ++l) {
        double num = R0 * R0 + R1 * R1 - 2 * R0 * R1 * std::cos((double)in.w0 * l);
        double w = std::sqrt((double)in.Ml[l]) * std::pow(.96 * PI * num / (in.w0 * R0 * den), .25);
        double c = 3e-6 * (R0 * R0 + R1 * R1) * (1 / den + (num > 0 ? 1 / num : 1e9));
        if (8 * l <= in.L) { W[l] = 1; c = 0; }
        else if (w * (1 - c) > 1.2) { W[l] = 1.2; c = 0; }
        else if (w * (1 + c) < .5) { W[l] = .5; c = 0; }
        else W[l] = w > 1.2 ? 1.2 : w < .5 ? .5 : w;
        dtol[l] = c;
        E += W[l] * W[l] * in.Ml[l] * in.Ml[l];
        if (in.Ml[l] != 0) cond = std::max(cond, c * W[l] * W[l] * in.Ml[l] * in.Ml[l]);
    }
    if (cond / E > .02) { mc::count("ill-conditioned-not-compared-per-band"); }
    double g = std::sqrt(R0 / E), sum = 0, lo = 1e300, hi = 0;
    for (int l = 1; l <= in.L; ++l) {
        double want = g * W[l] * in.Ml[l], tol = want * (3e-5 + dtol[l] + cond * in.L / E);
        if (cond / E <= .02 && !(std::fabs(m.Ml[l] - want) <= tol + 1e-30)) mc::fail("%s: band %d of %d: %.7g becomes %.7g, expected %.7g (weight %.4f, energy factor %.4f)", nm, l, in.L, in.Ml[l], m.Ml[l], want, W[l], g);
        if (!(m.Ml[l] >= 0)) mc::fail("%s: band %d becomes %g", nm, l, m.Ml[l]);
        sum += (double)m.Ml[l] * m.Ml[l];
        if (in.Ml[l] > 0) { double q = m.Ml[l] / (double)in.Ml[l]; lo = std::min(lo, q); hi = std::max(hi, q); }
    }
    // the two guarantees that need no arithmetic model
    if (!(std::fabs(sum - R0) <= 2e-5 * R0)) mc::fail("%s: energy %.8g becomes %.8g", nm, R0, sum);
    if (hi > lo * 2.4 * 1.0001) mc::fail("%s: bands are reweighted by factors between %.4f and %.4f", nm, lo, hi);
    mc::state(mc::hash(m.Ml, sizeof m.Ml));
}
static double shape(int k, int l, int L, uint64_t id) {
    switch (k) {
        case 0: return 10;
        case 1: return 100.0 / l;
        case 2: return 3.0 * l;
        case 3: return l & 1 ? 20 : .3;
        case 4: return l <= L / 8 ? 50 : 2;
        case 5: return l > L / 2 ? 0 : 9;
        case 6: return l == 1 + (int)(id % L) ? 300 : 1;
        case 7: return std::exp2(12 * u01(id * 60 + l) - 4);
        case 8: return (mc::mix(id * 60 + l) & 3) ? 100 * u01(id * 61 + l) : 0;
        case 9: return std::exp2(20 * u01(id * 59 + l) - 10);
        case 10: return l == L ? 1000 : .5;
        default: return std::exp2(3 * std::sin(l * .7 + id % 40) + 5);
    }
}
static void check() {
    for (const char* variant : {"scalar", "simd", "neon", "neon32"}) {
        if (!have(variant)) continue;
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        mc::group(G("shapes").c_str(), 455, [&](uint64_t b) {
            for (int k = 0; k < 12; ++k)
                for (int v = 0; v < (mc::thorough ? 400 : first ? 40 : 10); ++v) {
                    mbe_parms m;
                    memset(&m, 0x3b, sizeof m);
                    pitch(m, (int)b);
                    double s = std::exp2(v % 9 * 4 - 6);
                    for (int l = 1; l <= 56; ++l) m.Ml[l] = (float)(s * shape(k, l, m.L, b * 400 + v));
                    judge24(L, m, "pitch " + std::to_string(b) + ", shape " + std::to_string(k) + ", variant " + std::to_string(v));
                }
            mc::traces();
            if (first && b == 77) mc::sample("pitch 77: 12 amplitude shapes (flat, slopes, combs, gaps, single bands, wide ranges) x levels");
        });
        // every pair of sounding bands with every ratio step: the weight crosses both limits
        mc::group(G("two-bands").c_str(), 455, [&](uint64_t b) {
            mbe_parms m;
            memset(&m, 0, sizeof m);
            pitch(m, (int)b);
            for (int i = 1; i <= m.L; i += first ? 1 : 5)
                for (int j = i + 1; j <= m.L; j += mc::thorough ? 1 : 3)
                    for (int r = -6; r <= 6; r += 3) {
                        for (int l = 1; l <= 56; ++l) m.Ml[l] = 0;
                        m.Ml[i] = (float)(30 * std::exp2(r)); m.Ml[j] = 30;
                        judge24(L, m, "pitch " + std::to_string(b) + ", bands " + std::to_string(i) + " and " + std::to_string(j) + " at ratio 2^" + std::to_string(r));
                    }
            mc::traces();
        });
        // one band swept in fine steps against a flat floor: every weight between the limits occurs
        mc::group(G("sweep").c_str(), 455, [&](uint64_t b) {
            mbe_parms m;
            memset(&m, 0, sizeof m);
            pitch(m, (int)b);
            for (int l = 1; l <= m.L; ++l)
                for (int q = -16; q <= 16; q += first ? 1 : 6) {
                    for (int k = 1; k <= m.L; ++k) m.Ml[k] = 8;
                    m.Ml[l] = (float)(8 * std::exp2(q * .25));
                    judge24(L, m, "pitch " + std::to_string(b) + ", band " + std::to_string(l) + " at 2^" + std::to_string(q * .25));
                }
            mc::traces();
        });
        // amplitudes, pitch and band count decide; every value of every other field, then combinations
        std::vector<by::Var> vars = by::each(by::ALL & ~(by::W0 | by::BANDS | by::ML));
        mc::group(G("bystanders").c_str(), 455, [&](uint64_t b) {
            mbe_parms base;
            memset(&base, 0, sizeof base);
            pitch(base, (int)b);
            for (int l = 1; l <= 56; ++l) base.Ml[l] = (float)(8 * shape(9 + (int)(b % 3), l, base.L, b));
            mbe_parms want = base;
            L.f_spectralAmpEnhance(&want);
            for (uint64_t q = 0; q < vars.size() + (mc::thorough ? 2000 : 100); ++q) {
                mbe_parms m = base;
                if (q < vars.size()) by::put(m, vars[q].f, vars[q].v);
                else by::scramble(m, by::ALL & ~(by::W0 | by::BANDS | by::ML), b * 5000 + q);
                mbe_parms in = m;
                L.f_spectralAmpEnhance(&m);
                mc::transitions();
                std::string h = q < vars.size() ? by::text(vars[q]) : "combination " + std::to_string(q);
                std::string d = by::diff(m, in, by::ALL & ~by::ML);
                if (!d.empty()) mc::fail("pitch %d with %s: %s changed", (int)b, h.c_str(), d.c_str());
                if (memcmp(m.Ml, want.Ml, sizeof m.Ml)) mc::fail("pitch %d with %s: other amplitudes than without", (int)b, h.c_str());
            }
            mc::traces();
        });
        // no fundamental, all silent
        mc::group(G("degenerate").c_str(), 57, [&](uint64_t n) {
            for (int k = 0; k < 12; ++k) {
                mbe_parms m;
                memset(&m, 0, sizeof m);
                m.L = (int)n;
                for (int l = 1; l <= 56; ++l) m.Ml[l] = (float)shape(k, l, 56, n);
                judge24(L, m, "no fundamental, " + std::to_string(n) + " bands");
                pitch(m, (int)n * 3);
                for (int l = 0; l <= 56; ++l) m.Ml[l] = 0;
                judge24(L, m, "silent model");
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
