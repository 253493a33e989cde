// C36: the dump helpers print the bits they are given, in order; nothing else in the library prints.
#include <fcntl.h>
#include <sys/mman.h>
#include "sm_events.hpp"

static int cap = -1;
template <class F> static std::string printed(F f) {
    if (cap < 0) cap = memfd_create("out", MFD_CLOEXEC);
    fflush(nullptr);
    int e = dup(2), o = dup(1);
    if (ftruncate(cap, 0) || lseek(cap, 0, SEEK_SET)) exit(2);
    dup2(cap, 2);
    dup2(cap, 1);
    f();
    fflush(nullptr);
    dup2(e, 2);
    dup2(o, 1);
    close(e);
    close(o);
    std::string s((size_t)lseek(cap, 0, SEEK_END), 0);
    if (!s.empty() && pread(cap, &s[0], s.size(), 0) != (ssize_t)s.size()) exit(2);
    return s;
}
static std::string digits(const std::string& s, const std::string& what) {
    std::string d;
    for (char c : s) {
        if (c == '0' || c == '1') d += c;
        else if (c != ' ' && c != '\n' && c != '\t' && c != '\r') mc::fail("%s printed the character 0x%02x: \"%.200s\"", what.c_str(), (unsigned char)c, s.c_str());
    }
    return d;
}
static const int rows72[8] = {23, 23, 23, 23, 15, 15, 15, 7}, rows71[7] = {19, 24, 23, 23, 15, 15, 23};
struct Dump { const char* name; int n; };
static const Dump dumps[5] = {{"dumpImbe4400Data", 88}, {"dumpImbe7200x4400Data", 88}, {"dumpImbe7100x4400Data", 88}, {"dumpImbe7200x4400Frame", 144}, {"dumpImbe7100x4400Frame", 142}};

// bit k is the k-th digit
template <class B> static void judge(Lib& L, int which, B bit, int fill, const char* what) {
    std::string want, got;
    int n = dumps[which].n;
    for (int k = 0; k < n; ++k) want += bit(k) ? '1' : '0';
    std::string name = std::string("mbe_") + dumps[which].name;
    if (which < 3) {
        char* d = (char*)malloc(88), c[88];
        for (int k = 0; k < 88; ++k) d[k] = c[k] = bit(k);
        got = printed([&] { which == 0 ? L.f_dumpImbe4400Data(d) : which == 1 ? L.f_dumpImbe7200x4400Data(d) : L.f_dumpImbe7100x4400Data(d); });
        bool same = !memcmp(d, c, 88);
        free(d);
        if (!same) mc::fail("%s changed its input (%s)", name.c_str(), what);
    } else {
        // cells of a frame array that carry no bit hold anything
        char f72[8][23], f71[7][24], c[8 * 23];
        int k = 0;
        memset(f72, fill, sizeof f72);
        memset(f71, fill, sizeof f71);
        if (which == 3) for (int r = 0; r < 8; ++r) for (int j = rows72[r] - 1; j >= 0; --j) f72[r][j] = bit(k++);
        else for (int r = 0; r < 7; ++r) for (int j = rows71[r] - 1; j >= 0; --j) f71[r][j] = bit(k++);
        char* p = which == 3 ? &f72[0][0] : &f71[0][0];
        size_t sz = which == 3 ? sizeof f72 : sizeof f71;
        memcpy(c, p, sz);
        got = printed([&] { which == 3 ? L.f_dumpImbe7200x4400Frame(f72) : L.f_dumpImbe7100x4400Frame(f71); });
        if (memcmp(p, c, sz)) mc::fail("%s changed its input (%s)", name.c_str(), what);
    }
    std::string d = digits(got, name);
    if (d != want) mc::fail("%s (%s) printed %s, the bits are %s", name.c_str(), what, d.c_str(), want.c_str());
    mc::transitions();
    mc::state(mc::hash(want.data(), want.size(), which));
}
static void check() {
    Lib& L = lib("scalar");
    for (int w = 0; w < 5; ++w) {
        int n = dumps[w].n;
        // every pattern with at most two ones, or at most two zeros
        mc::group((std::string("pairs-") + dumps[w].name).c_str(), n, [&](uint64_t a) {
            for (int b = (int)a; b < n; ++b)
                for (int inv = 0; inv < 2; ++inv) judge(L, w, [&](int k) { return (k == (int)a || k == b) != inv; }, inv ? 0 : 1, "two bits");
            mc::traces();
            if (a == 5) mc::sample("%s: digit 5 with every other digit", dumps[w].name);
        });
        // every window of ones, every period, arbitrary contents
        mc::group((std::string("patterns-") + dumps[w].name).c_str(), n, [&](uint64_t a) {
            for (int b = (int)a; b < n; b += mc::thorough ? 1 : 3) judge(L, w, [&](int k) { return k >= (int)a && k <= b; }, 1, "window");
            for (int p = 1; p < 24; ++p) judge(L, w, [&](int k) { return (k + (int)a) % p == 0; }, 0, "period");
            for (uint64_t r = 0; r < (mc::thorough ? 2000 : 40); ++r) judge(L, w, [&](int k) { return (int)(mc::mix(r * 1000 + a + ((uint64_t)k << 32)) & 1); }, (int)(r & 1), "arbitrary");
            mc::traces();
        });
    }
    // the dump helpers neither read nor disturb a stream being decoded; everything else is silent
    std::vector<Ev> ev = imbe_events(true);
    for (auto& e : a2450_events(true)) ev.push_back(e);
    for (auto& e : a2400_events(true)) ev.push_back(e);
    size_t n = ev.size();
    mc::group("silent", n, [&](uint64_t i) {
        for (size_t j = 0; j < n; ++j) {
            State s, t;
            init(L, s);
            init(L, t);
            std::string out;
            Out o[2], p[2];
            out = printed([&] {
                L.f_setThreadRngSeed(5);
                step(L, ev[i], s, o[0], j & 1);
                step(L, ev[j], s, o[1], i & 1);
            });
            if (!out.empty()) mc::fail("decoding %s > %s printed \"%.200s\"", ev[i].name.c_str(), ev[j].name.c_str(), out.c_str());
            printed([&] {
                char d[88] = {0}, f72[8][23] = {{0}}, f71[7][24] = {{0}};
                L.f_setThreadRngSeed(5);
                step(L, ev[i], t, p[0], j & 1);
                L.f_dumpImbe4400Data(d); L.f_dumpImbe7200x4400Data(d); L.f_dumpImbe7100x4400Data(d); L.f_dumpImbe7200x4400Frame(f72); L.f_dumpImbe7100x4400Frame(f71);
                step(L, ev[j], t, p[1], i & 1);
            });
            if (memcmp(&s, &t, sizeof s) || strcmp(o[1].str, p[1].str) || ((i & 1) ? memcmp(o[1].pcm16, p[1].pcm16, sizeof p[1].pcm16) : memcmp(o[1].pcm, p[1].pcm, sizeof p[1].pcm))) mc::fail("dumping between %s and %s changed the decoding", ev[i].name.c_str(), ev[j].name.c_str());
            mc::transitions(4);
            mc::state(sm::hash(s));
            mc::traces();
        }
    });
    // long repeats, erasures, tones: every frame n times, then every frame twice; carried states; mixed streams
    static const int lens[] = {1, 2, 3, 4, 5, 6, 7, 9, 12};
    mc::group("silent-bursts", n * 9, [&](uint64_t i) {
        int len = lens[i % 9];
        const Ev& e = ev[i / 9];
        std::string out = printed([&] {
            State s;
            Out o;
            init(L, s);
            for (int k = 0; k < len; ++k) step(L, e, s, o, k & 1);
            for (size_t f = i % 2; f < n; f += mc::thorough ? 1 : 2) {
                State t = s;
                step(L, ev[f], t, o, f & 1);
                step(L, ev[(f + i) % n], t, o, i & 1);
                mc::transitions(2);
            }
            mc::state(sm::hash(s));
        });
        if (!out.empty()) mc::fail("decoding %d x %s > a frame > another printed \"%.200s\"", len, e.name.c_str(), out.c_str());
        mc::traces();
    });
    mc::group("silent-carried", 6 * 8, [&](uint64_t i) {
        static const float ers[] = {0.f, 0.0125f, 0.03f, 0.08f, 0.1f, 0.3f};
        std::string out = printed([&] {
            for (auto& e : ev)
                for (int tot : {0, 3, 9}) {
                    State s;
                    Out o;
                    init(L, s);
                    step(L, ev[i % n], s, o);
                    put_history(s, ers[i % 6], (int)(i / 6));
                    for (mbe_parms* m : {&s.cur, &s.prev, &s.enh}) m->errorCountTotal = tot;
                    step(L, e, s, o, i & 1);
                    mc::transitions(2);
                }
        });
        if (!out.empty()) mc::fail("decoding one frame after carried error rate %g with %d repeats printed \"%.200s\"", ers[i % 6], (int)(i / 6), out.c_str());
        mc::traces();
    });
    mc::group("silent-long", 32, [&](uint64_t i) {
        std::string out = printed([&] {
            State s;
            Out o;
            init(L, s);
            for (int k = 0; k < (mc::thorough ? 60000 : 4000); ++k) step(L, ev[(k * (i + 1) + k / 7 + k / 300) % n], s, o, k & 1, k % 70);
            mc::transitions(4000);
        });
        if (!out.empty()) mc::fail("stream %d printed \"%.200s\"", (int)i, out.c_str());
        mc::traces();
    });
    // every pitch code and tone code, direct decoding
    mc::group("silent-decoders", 256, [&](uint64_t i) {
        std::string out = printed([&] {
            for (uint64_t r = 0; r < 24; ++r) {
                State s;
                init(L, s);
                Bits b[5] = {imbe_bits((int)i, (int)(r % 3) - 1, (int)(r * 5 % 64), i * 24 + r), a2450_bits((int)(i & 127), (int)(r & 31), (int)(r * 3 % 32), i * 24 + r), a2400_bits((int)(i & 127), (int)(r & 15), (int)(r * 3), i * 24 + r), a2450_tone((int)i, (int)r * 5, r & 1), a2400_tone((int)i)};
                char d[96];
                for (int k = 0; k < 5; ++k) {
                    for (int j = 0; j < 88; ++j) d[j] = (char)b[k].b[j];
                    mbe_parms c = s.cur, p = s.prev;
                    k == 0 ? L.f_decodeImbe4400Parms(d, &c, &p) : k == 1 || k == 3 ? L.f_decodeAmbe2450Parms(d, &c, &p) : L.f_decodeAmbe2400Parms(d, &c, &p);
                    mc::transitions();
                }
            }
        });
        if (!out.empty()) mc::fail("decoding parameters with pitch code %d printed \"%.200s\"", (int)i, out.c_str());
        mc::traces();
    });
    mc::group("silent-calls", 64, [&](uint64_t i) {
        std::string out = printed([&] {
            State s;
            init(L, s);
            char a[23], b[23];
            for (int k = 0; k < 23; ++k) a[k] = (char)(mc::mix(i * 64 + k) & 1);
            L.f_golay2312(a, b); L.f_hamming1511(a, b); L.f_7100x4400hamming1511(a, b);
            long g = (long)(mc::mix(i) & 0x7fffff);
            L.f_checkGolayBlock(&g);
            char f4[4][24], f8[8][23], f7[7][24], d[96];
            memset(f4, (int)(i & 1), sizeof f4); memset(f8, (int)(i & 1), sizeof f8); memset(f7, (int)(i & 1), sizeof f7); memset(d, (int)(i >> 1 & 1), sizeof d);
            L.f_eccAmbe3600x2400C0(f4); L.f_demodulateAmbe3600x2400Data(f4); L.f_eccAmbe3600x2400Data(f4, d);
            L.f_eccAmbe3600x2450C0(f4); L.f_demodulateAmbe3600x2450Data(f4); L.f_eccAmbe3600x2450Data(f4, d);
            L.f_eccImbe7200x4400C0(f8); L.f_demodulateImbe7200x4400Data(f8); L.f_eccImbe7200x4400Data(f8, d);
            L.f_eccImbe7100x4400C0(f7); L.f_demodulateImbe7100x4400Data(f7); L.f_eccImbe7100x4400Data(f7, d); L.f_convertImbe7100to7200(d);
            memset(d, (int)(i & 1), sizeof d);
            mbe_parms c = s.cur, p = s.prev;
            L.f_decodeImbe4400Parms(d, &c, &p); c = s.cur; L.f_decodeAmbe2450Parms(d, &c, &p); c = s.cur; L.f_decodeAmbe2400Parms(d, &c, &p);
            float f[160]; short o[160]; char v[64];
            c = s.cur;
            L.f_spectralAmpEnhance(&c); L.f_applyAdaptiveSmoothing(&c, &p); (void)L.f_requiresMuting(&c); (void)L.f_isMaxFrameRepeat(&c); (void)L.f_requiresAdaptiveSmoothing(&c);
            L.f_synthesizeSpeechf(f, &c, &p, 3); L.f_synthesizeSpeech(o, &c, &p, (int)(i % 9)); L.f_synthesizeSilencef(f); L.f_synthesizeSilence(o); L.f_synthesizeComfortNoisef(f); L.f_synthesizeComfortNoise(o);
            L.f_synthesizeTonef(f, d, &c); L.f_synthesizeTonefdstar(f, d, &c, (int)i); L.f_floattoshort(f, o); L.f_printVersion(v); (void)L.f_versionString();
            L.f_setThreadRngSeed((unsigned)i); L.f_moveMbeParms(&c, &p); L.f_useLastMbeParms(&c, &p);
        });
        if (!out.empty()) mc::fail("a call that is no dump helper printed \"%.200s\"", out.c_str());
        mc::transitions(50);
        mc::traces();
    });
}
int main(int c, char** v) { lib("scalar"); return mc::main(c, v, check); }
