// C30: state helpers do exactly what they say.
#include "sm_events.hpp"
#include "mbelib-neo/version.h"

static void expect_default(const mbe_parms& m, const char* who, int fill) {
    mbe_parms w;
    memset(&w, 0, sizeof w);
    w.w0 = (float)(4 * M_PI / 173.5);
    w.L = ref::imbe_bands_from_b0(134);
    w.K = 12;
    for (int l = 0; l <= 56; ++l) w.Ml[l] = 1;
    w.localEnergy = 75000; w.amplitudeThreshold = 20480; w.mutingThreshold = 0.0875f; w.noiseSeed = -1;
    if (std::fabs(m.w0 - w.w0) < 1e-7f) w.w0 = m.w0;
    if (!memcmp(&m, &w, sizeof m)) return;
    std::string d = sm::diff(m, w, who);
    const unsigned char *a = (const unsigned char*)&m, *b = (const unsigned char*)&w;
    size_t i = 0;
    while (i < sizeof m && a[i] == b[i]) ++i;
    mc::fail("initMbeParms over memory filled with 0x%02x: %s%s (first difference in field at offset %zu)", fill & 255, who, d.empty() ? " differs from the default model" : (": " + d).c_str(), i);
}
static void check() {
    for (const char* variant : {"scalar", "simd"}) {
        Lib& L = lib(variant);
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        mc::group(G("init").c_str(), 256, [&](uint64_t fill) {
            State s;
            memset(&s, (int)fill, sizeof s);
            L.f_initMbeParms(&s.cur, &s.prev, &s.enh);
            mc::transitions();
            expect_default(s.cur, "cur", (int)fill); expect_default(s.prev, "prev", (int)fill); expect_default(s.enh, "prev_enhanced", (int)fill);
            // each word of the sets holding something else beforehand
            for (size_t k = fill; k < sizeof s / 4; k += 256) {
                State t = s;
                ((uint32_t*)&t)[k] ^= 0xa5a5a5a5u;
                L.f_initMbeParms(&t.cur, &t.prev, &t.enh);
                mc::transitions();
                if (memcmp(&t, &s, sizeof t)) mc::fail("initMbeParms keeps part of what word %zu of the sets held", k);
            }
            mc::state(mc::hash(&s, sizeof s));
            mc::traces();
        });
        // after any history of any codec
        mc::group(G("init-after").c_str(), 60, [&](uint64_t i) {
            State s;
            init(L, s);
            State fresh = s;
            std::vector<Ev> ev[3] = {imbe_events(false), a2450_events(false), a2400_events(false)};
            Out o;
            for (int k = 0; k < 12; ++k) { auto& v = ev[(i + k) % 3]; step(L, v[(i * 7 + k * 5) % v.size()], s, o); mc::transitions(); }
            L.f_initMbeParms(&s.cur, &s.prev, &s.enh);
            if (memcmp(&s, &fresh, sizeof s)) mc::fail("initMbeParms after history %d differs from a first initialisation", (int)i);
            mc::traces();
        });
        // every word of the set travels, the source stays
        mc::group(G("copy").c_str(), sizeof(mbe_parms) / 4, [&](uint64_t w) {
            for (int fn = 0; fn < 2; ++fn)
                for (uint32_t pat : {0x00000000u, 0xffffffffu, 0x7fc00001u, 0x80000000u, 0x7f800001u, 0x12345678u}) {
                    mbe_parms a, b, keep;
                    for (size_t k = 0; k < sizeof a / 4; ++k) { ((uint32_t*)&a)[k] = (uint32_t)mc::mix(k * 3 + w); ((uint32_t*)&b)[k] = (uint32_t)mc::mix(k * 5 + w + 1); }
                    ((uint32_t*)&a)[w] = pat;
                    ((uint32_t*)&b)[w] = ~pat;
                    memcpy(&keep, &a, sizeof a);
                    if (fn) L.f_useLastMbeParms(&b, &a); else L.f_moveMbeParms(&a, &b);
                    mc::transitions();
                    const char* n = fn ? "useLastMbeParms" : "moveMbeParms";
                    if (memcmp(&a, &keep, sizeof a)) mc::fail("%s changes its source", n);
                    if (memcmp(&b, &keep, sizeof b)) {
                        size_t k = 0;
                        while (((uint32_t*)&b)[k] == ((uint32_t*)&keep)[k]) ++k;
                        mc::fail("%s does not copy word %zu of the parameter set", n, k);
                    }
                    mc::state(mc::hash(&b, sizeof b));
                }
            mc::traces();
            if (w == 3) mc::sample("every 32-bit word of the parameter set x 6 bit patterns x both copy helpers");
        });
        mc::group(G("helpers").c_str(), 256, [&](uint64_t fill) {
            struct { char lo[64]; float f[160]; char hi[64]; } x;
            struct { char lo[64]; short f[160]; char hi[64]; } y;
            memset(&x, (int)fill, sizeof x); memset(&y, (int)fill, sizeof y);
            L.f_synthesizeSilencef(x.f); L.f_synthesizeSilence(y.f);
            mc::transitions(2);
            for (int i = 0; i < 160; ++i) { uint32_t b; memcpy(&b, &x.f[i], 4); if (b || y.f[i]) mc::fail("silence sample %d is not zero (buffer held 0x%02x)", i, (int)fill); }
            for (int i = 0; i < 64; ++i) for (char* q : {x.lo, x.hi, y.lo, y.hi}) if (q[i] != (char)fill) mc::fail("a silence helper wrote outside its buffer");
            char v[96];
            memset(v, (int)fill, sizeof v);
            L.f_printVersion(v + 32);
            mc::transitions();
            for (int i = 0; i < 32; ++i) if (v[i] != (char)fill || v[64 + i] != (char)fill) mc::fail("printVersion wrote outside 32 bytes");
            if (strnlen(v + 32, 32) == 32) mc::fail("printVersion left the version unterminated");
            if (strcmp(v + 32, MBELIB_VERSION)) mc::fail("printVersion gives \"%s\", the project version is \"%s\"", v + 32, MBELIB_VERSION);
            if (strcmp(L.f_versionString(), MBELIB_VERSION)) mc::fail("versionString gives \"%s\", the project version is \"%s\"", L.f_versionString(), MBELIB_VERSION);
            // null pointers
            mbe_parms m, k;
            memset(&m, (int)fill, sizeof m);
            k = m;
            L.f_printVersion(nullptr); L.f_synthesizeSilencef(nullptr); L.f_synthesizeSilence(nullptr);
            L.f_setThreadRngSeed(9);
            float n1[160], n2[160];
            L.f_synthesizeComfortNoisef(n1);
            L.f_setThreadRngSeed(9);
            L.f_synthesizeComfortNoisef(nullptr); L.f_synthesizeComfortNoise(nullptr);
            L.f_synthesizeComfortNoisef(n2);
            if (memcmp(n1, n2, sizeof n1)) mc::fail("comfort noise without a buffer consumes the generator");
            if (L.f_requiresMuting(nullptr) || L.f_isMaxFrameRepeat(nullptr) || L.f_requiresAdaptiveSmoothing(nullptr)) mc::fail("a predicate is true for a null parameter set");
            L.f_applyAdaptiveSmoothing(nullptr, &m); L.f_applyAdaptiveSmoothing(&m, nullptr); L.f_applyAdaptiveSmoothing(nullptr, nullptr);
            if (memcmp(&m, &k, sizeof m)) mc::fail("smoothing with a null argument changed the other one");
            mc::transitions(12);
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
