// C13: frame histories under address and undefined-behaviour instrumentation, every caller buffer a heap block of
// exactly the documented size.  With MBE_EMIT=<file> the event alphabets are written out for the driver that
// repeats the exploration under initialisation tracking (c13_msan.c).
#include "sm_events.hpp"
#include <memory>

struct Blocks {
    template <class T> struct B { std::unique_ptr<char[]> p; T* get() { return (T*)p.get(); } B(size_t n) : p(new char[n]) {} };
    B<mbe_parms> c{sizeof(mbe_parms)}, p{sizeof(mbe_parms)}, q{sizeof(mbe_parms)};
    B<float> f{640}; B<short> h{320}; B<int> e1{4}, e2{4};
    B<char> d88{88}, d49{49}, f72{184}, f71{168}, f24{96};
};
static Blocks& bl() { static Blocks b; return b; }
static const char* variants[] = {"asan", "asansimd", "asanneon"};

static void hstep(Lib& L, const Ev& e, State& s, bool s16, int uvq) {
    Blocks& b = bl();
    *b.c.get() = s.cur; *b.p.get() = s.prev; *b.q.get() = s.enh;
    std::unique_ptr<char[]> str(new char[(e.total > 0 ? e.total : 0) + 3]);
    char* d = is_imbe(e.path) ? b.d88.get() : b.d49.get();
    char* fr = e.path == IMBE72_F ? b.f72.get() : e.path == IMBE71_F ? b.f71.get() : b.f24.get();
    *b.e1.get() = *b.e2.get() = -1;
    if (is_frame(e.path)) fill_frame(e, fr);
    else { for (int i = 0; i < nbits(e.path); ++i) d[i] = (char)e.d.b[i]; *b.e1.get() = e.c0; *b.e2.get() = e.total; }
    typedef char F24[4][24]; typedef char F72[8][23]; typedef char F71[7][24];
#define D_(fn) do { if (s16) L.f_##fn(b.h.get(), b.e1.get(), b.e2.get(), str.get(), d, b.c.get(), b.p.get(), b.q.get(), uvq); else L.f_##fn##f(b.f.get(), b.e1.get(), b.e2.get(), str.get(), d, b.c.get(), b.p.get(), b.q.get(), uvq); } while (0)
#define F_(fn, T) do { if (s16) L.f_##fn(b.h.get(), b.e1.get(), b.e2.get(), str.get(), *(T*)fr, d, b.c.get(), b.p.get(), b.q.get(), uvq); else L.f_##fn##f(b.f.get(), b.e1.get(), b.e2.get(), str.get(), *(T*)fr, d, b.c.get(), b.p.get(), b.q.get(), uvq); } while (0)
    switch (e.path) {
        case IMBE_D: D_(processImbe4400Data); break;
        case A2450_D: D_(processAmbe2450Data); break;
        case A2400_D: D_(processAmbe2400Data); break;
        case IMBE72_F: F_(processImbe7200x4400Frame, F72); break;
        case IMBE71_F: F_(processImbe7100x4400Frame, F71); break;
        case A2450_F: F_(processAmbe3600x2450Frame, F24); break;
        case A2400_F: F_(processAmbe3600x2400Frame, F24); break;
        default: break;
    }
    s.cur = *b.c.get(); s.prev = *b.p.get(); s.enh = *b.q.get();
    mc::transitions();
    mc::state(sm::hash(s));
}
static std::vector<Ev> alphabet(int codec, bool full) {
    if (codec < 3) return codec == 0 ? imbe_events(full) : codec == 1 ? a2450_events(full) : a2400_events(full);
    std::vector<Ev> mix;
    for (int c = 0; c < 3; ++c) { auto v = alphabet(c, false); for (size_t i = c; i < v.size(); i += full ? 2 : 3) mix.push_back(v[i]); }
    return mix;
}
static Bits payload(int codec, int b0, int v, int g, uint64_t base) { return codec == 0 ? imbe_bits(b0, v, g, base) : codec == 1 ? a2450_bits(b0, v, g, base) : a2400_bits(b0, v, g, base); }
static const Path dpath[3] = {IMBE_D, A2450_D, A2400_D};
static const char* cn[4] = {"imbe", "ambe2450", "ambe2400", "mixed"};

// exact-size heap copies for the stages called directly
static void stages(Lib& L, uint64_t k) {
    auto buf = [&](size_t n, uint64_t salt) { std::unique_ptr<char[]> b(new char[n]); for (size_t i = 0; i < n; ++i) b[i] = mc::mix(k * 977 + salt * 131 + i / 40) >> (i % 40) & 1; return b; };
    typedef char F24[4][24]; typedef char F72[8][23]; typedef char F71[7][24];
    { auto i = buf(23, 1), o = buf(23, 2); L.f_golay2312(i.get(), o.get()); }
    { auto i = buf(15, 3), o = buf(15, 4); L.f_hamming1511(i.get(), o.get()); L.f_7100x4400hamming1511(i.get(), o.get()); }
    { auto f = buf(96, 5), d = buf(49, 6); L.f_eccAmbe3600x2400C0(*(F24*)f.get()); L.f_demodulateAmbe3600x2400Data(*(F24*)f.get()); L.f_eccAmbe3600x2400Data(*(F24*)f.get(), d.get()); }
    { auto f = buf(96, 7), d = buf(49, 8); L.f_eccAmbe3600x2450C0(*(F24*)f.get()); L.f_demodulateAmbe3600x2450Data(*(F24*)f.get()); L.f_eccAmbe3600x2450Data(*(F24*)f.get(), d.get()); }
    { auto f = buf(184, 9), d = buf(88, 10); L.f_eccImbe7200x4400C0(*(F72*)f.get()); L.f_demodulateImbe7200x4400Data(*(F72*)f.get()); L.f_eccImbe7200x4400Data(*(F72*)f.get(), d.get()); }
    { auto f = buf(168, 11), d = buf(88, 12); L.f_eccImbe7100x4400C0(*(F71*)f.get()); L.f_demodulateImbe7100x4400Data(*(F71*)f.get()); L.f_eccImbe7100x4400Data(*(F71*)f.get(), d.get()); L.f_convertImbe7100to7200(d.get()); }
    auto P = [&] { return std::unique_ptr<mbe_parms>(new mbe_parms); };
    auto c = P(), p = P(), q = P();
    L.f_initMbeParms(c.get(), p.get(), q.get());
    auto f = std::unique_ptr<float[]>(new float[160]);
    auto h = std::unique_ptr<short[]>(new short[160]);
    { auto d = buf(49, 13); L.f_synthesizeTonef(f.get(), d.get(), c.get()); L.f_synthesizeTonefdstar(f.get(), d.get(), c.get(), (int)(k % 300) - 20); }
    for (int r = 0; r < 2; ++r) {
        auto d = buf(88, 14 + r), e = buf(49, 16 + r), g = buf(49, 18 + r);
        L.f_decodeImbe4400Parms(d.get(), c.get(), p.get());
        L.f_moveMbeParms(c.get(), p.get());
        L.f_spectralAmpEnhance(c.get());
        L.f_synthesizeSpeech(h.get(), c.get(), q.get(), (int)k);
        L.f_moveMbeParms(c.get(), q.get());
        if (L.f_decodeAmbe2450Parms(e.get(), c.get(), p.get()) == 0) L.f_synthesizeSpeechf(f.get(), c.get(), q.get(), (int)k);
        if (L.f_decodeAmbe2400Parms(g.get(), c.get(), p.get()) == 0) L.f_synthesizeSpeechf(f.get(), c.get(), q.get(), 3);
        L.f_useLastMbeParms(c.get(), p.get());
        L.f_applyAdaptiveSmoothing(c.get(), p.get());
        L.f_requiresMuting(c.get()); L.f_isMaxFrameRepeat(c.get()); L.f_requiresAdaptiveSmoothing(c.get());
    }
    L.f_synthesizeComfortNoisef(f.get()); L.f_synthesizeComfortNoise(h.get()); L.f_synthesizeSilencef(f.get()); L.f_synthesizeSilence(h.get());
    for (int i = 0; i < 160; ++i) f[i] = (float)(std::pow(-3.7, (double)((k + i) % 60)) * 1e-9);
    L.f_floattoshort(f.get(), h.get());
    { std::unique_ptr<char[]> v(new char[32]); L.f_printVersion(v.get()); }
    mc::transitions(30);
}
static void check() {
    for (const char* variant : variants) {
        if (!have(variant)) continue;
        Lib& L = lib(variant);
        bool first = variant == variants[0];
        std::string v = variant;
        for (int c = 0; c < 4; ++c) {
            static std::vector<Ev> ev;
            ev = alphabet(c, false);
            size_t n = ev.size();
            // thorough: all 3-frame sequences in both builds; quick: all in one, and those through every fourth frame in the other
            mc::group((v + "-seq-" + cn[c]).c_str(), n * n, [&](uint64_t i) {
                State s;
                init(L, s);
                L.f_setThreadRngSeed((uint32_t)i);
                hstep(L, ev[i / n], s, i & 1, 3);
                hstep(L, ev[i % n], s, i & 2, -1);
                if (mc::thorough || first || i % 4 == 0)
                    for (size_t k = 0; k < n; ++k) {
                        State t = s;
                        hstep(L, ev[k], t, k & 1, (int)k);
                        mc::traces();
                        if (mc::thorough && first) for (size_t m = 0; m < n; m += 2) { State u = t; hstep(L, ev[(k + m) % n], u, m & 1, 64); }
                    }
                if (first && i == 7) mc::sample("%s > %s > every frame: no sanitizer report, exact-size buffers", ev[0].name.c_str(), ev[7 % n].name.c_str());
            });
            if (c == 3) continue;
            int nb0 = c == 0 ? 256 : 128;
            mc::group((v + "-pitches-" + cn[c]).c_str(), nb0, [&](uint64_t a) {
                State s;
                init(L, s);
                Ev ea = make(dpath[c], payload(c, (int)a, -1, 31, a * 7), 0, 0, 0, "pitch " + std::to_string(a));
                hstep(L, ea, s, false, 3);
                for (int b = 0; b < nb0; b += mc::thorough || first ? 1 : 3) {
                    State t = s;
                    hstep(L, make(dpath[c], payload(c, b, -1, -1, b * 13), 0, b % 4, 0, "pitch " + std::to_string(b)), t, b & 1, 3);
                    hstep(L, ea, t, a & 1, 3);
                    mc::traces();
                }
            });
            // error counts beyond anything a frame can carry, held until every counter is at its limit
            mc::group((v + "-counts-" + cn[c]).c_str(), 24, [&](uint64_t i) {
                static const int tot[] = {1, 2, 3, 4, 5, 6, 9, 11, 12, 15, 20, 21, 22, 30, 39, 40, 41, 64, 88, 100, 128, 255, 1000, 5000};
                State s;
                init(L, s);
                for (int k = 0; k < 80; ++k) {
                    Ev e = ev[k % n];
                    if (is_frame(e.path)) continue;
                    e.total = tot[i]; e.c0 = k % 5;
                    hstep(L, e, s, k & 1, 3);
                    if (k < 8) for (auto& f : ev) { State t = s; hstep(L, f, t, false, 3); }
                }
                mc::traces();
            });
        }
        mc::group((v + "-tones").c_str(), 256, [&](uint64_t id) {
            State s;
            init(L, s);
            for (int ad : {0, 1, 64, 127}) for (int r = 0; r < 3; ++r) {
                hstep(L, make(A2450_D, a2450_tone((int)id, ad, r & 1), 0, r, 0, "tone"), s, r & 1, 3);
                hstep(L, make(A2400_D, a2400_tone((int)id & 255, ad), 0, r, 0, "tone"), s, r & 1, 3);
            }
            mc::traces();
        });
        mc::group((v + "-frames").c_str(), mc::thorough ? 20000 : first ? 3000 : 600, [&](uint64_t i) {
            State s;
            init(L, s);
            static const Path fp[4] = {IMBE72_F, IMBE71_F, A2450_F, A2400_F};
            for (int k = 0; k < 8; ++k) {
                Path p = fp[(i % 5 == 4 ? i + k : i) % 4];
                uint32_t rows[8];
                for (int r = 0; r < 8; ++r) rows[r] = (uint32_t)mc::mix(i * 1000003 + k * 131 + r) & ((1u << row_bits(p, r)) - 1);
                hstep(L, raw(p, rows, "frame"), s, k & 1, 3);
            }
            mc::traces();
        });
        mc::group((v + "-stages").c_str(), mc::thorough ? 20000 : 2000, [&](uint64_t k) { stages(L, k); mc::traces(); });
        static const char* loud[3] = {"0100101111111110111111110001101111111101110100001111111111101111111111110111101100001000", "1100000011111110000110100000101101101011011010101", "1110001111111111111110111010111111011011001111111"};
        mc::group((v + "-loud").c_str(), 3, [&](uint64_t c) {
            Bits d = zero_bits();
            for (int i = 0; loud[c][i]; ++i) d.b[i] = loud[c][i] - '0';
            State s;
            init(L, s);
            auto ev = alphabet(3, true);
            for (int k = 0; k < 40; ++k) { hstep(L, make(dpath[c], d, 0, k % 4 == 3 ? 3 : 0, 0, "loud"), s, k & 1, 3); for (auto& e : ev) { State t = s; hstep(L, e, t, false, 3); } }
            mc::traces();
        });
    }
}
static int emit(const char* path) {
    FILE* f = fopen(path, "wb");
    for (int c = 0; c < 4; ++c)
        for (auto& e : alphabet(c, c < 3)) {
            struct { int32_t group, path, c0, total; char d[88]; char fr[192]; } r;
            memset(&r, 0, sizeof r);
            r.group = c; r.path = e.path; r.c0 = e.c0; r.total = e.total;
            memcpy(r.d, e.d.b, 88);
            if (is_frame(e.path)) fill_frame(e, r.fr);
            fwrite(&r, sizeof r, 1, f);
        }
    fclose(f);
    return 0;
}
int main(int c, char** v) {
    if (getenv("MBE_EMIT")) return emit(getenv("MBE_EMIT"));
    for (auto x : variants) if (have(x)) lib(x);
    return mc::main(c, v, check);
}
