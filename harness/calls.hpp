// Every public call as an operation on one decoder state: primitives (ops), frames of every codec and class
// (evops), and calls whose arguments never repeat (fresh; `tick` counts the calls of the history).
#pragma once
#include "sm_events.hpp"

struct Op { std::string name; std::function<void(Lib&, State&)> f; };
static std::vector<Op> ops, evops;  // primitives; frames
static std::vector<Op> fresh;  // never the same call twice
static const void* some_frame;
static float fbuf[160];
static short sbuf[160];
static void build() {
    auto add = [](const char* n, std::function<void(Lib&, State&)> f) { ops.push_back({n, f}); };
    add("initialise", [](Lib& L, State& s) { L.f_initMbeParms(&s.cur, &s.prev, &s.enh); });
    add("initialise others", [](Lib& L, State&) { static State t; L.f_initMbeParms(&t.cur, &t.prev, &t.enh); });
    add("seed 1", [](Lib& L, State&) { L.f_setThreadRngSeed(1); });
    add("seed 0", [](Lib& L, State&) { L.f_setThreadRngSeed(0); });
    add("move", [](Lib& L, State& s) { L.f_moveMbeParms(&s.cur, &s.prev); });
    add("use last", [](Lib& L, State& s) { L.f_useLastMbeParms(&s.cur, &s.prev); });
    add("enhance", [](Lib& L, State& s) { mbe_parms m = s.cur; L.f_spectralAmpEnhance(&m); });
    add("smooth", [](Lib& L, State& s) { mbe_parms m = s.cur; m.errorRate = 0.05f; m.errorCountTotal = 9; L.f_applyAdaptiveSmoothing(&m, &s.prev); });
    add("speech", [](Lib& L, State& s) { mbe_parms m = s.enh, q = s.enh; L.f_synthesizeSpeechf(fbuf, &m, &q, 3); });
    add("speech, unvoiced", [](Lib& L, State& s) { mbe_parms m = s.enh, q = s.enh; memset(m.Vl, 0, sizeof m.Vl); L.f_synthesizeSpeechf(fbuf, &m, &q, 8); });
    add("speech 16", [](Lib& L, State& s) { mbe_parms m = s.enh, q = s.enh; for (int& v : m.Vl) v = 1; L.f_synthesizeSpeech(sbuf, &m, &q, 1); });
    add("speech, muted", [](Lib& L, State& s) { mbe_parms m = s.enh, q = s.enh; m.errorRate = 0.5f; L.f_synthesizeSpeechf(fbuf, &m, &q, 3); });
    add("silence", [](Lib& L, State&) { L.f_synthesizeSilencef(fbuf); });
    add("silence 16", [](Lib& L, State&) { L.f_synthesizeSilence(sbuf); });
    add("comfort noise", [](Lib& L, State&) { L.f_synthesizeComfortNoisef(fbuf); });
    add("comfort noise 16", [](Lib& L, State&) { L.f_synthesizeComfortNoise(sbuf); });
    add("tone", [](Lib& L, State& s) { char d[49]; Bits b = a2450_tone(133, 70); for (int i = 0; i < 49; ++i) d[i] = (char)b.b[i]; mbe_parms m = s.cur; L.f_synthesizeTonef(fbuf, d, &m); });
    add("D-STAR tone", [](Lib& L, State& s) { char d[49] = {0}; mbe_parms m = s.cur; L.f_synthesizeTonefdstar(fbuf, d, &m, 40); });
    add("to 16 bit", [](Lib& L, State&) { float f[160] = {0}; f[5] = 1e9f; L.f_floattoshort(f, sbuf); });
    add("version", [](Lib& L, State&) { char v[64]; L.f_printVersion(v); (void)L.f_versionString(); });
    add("codes", [](Lib& L, State&) { char a[23] = {1, 0, 1}, b[23]; L.f_golay2312(a, b); char c[15] = {1, 1}, e[15]; L.f_hamming1511(c, e); L.f_7100x4400hamming1511(c, e); long g = 0x12345; L.f_checkGolayBlock(&g); });
    add("layout", [](Lib& L, State&) { char d[88] = {1, 0, 1}; L.f_convertImbe7100to7200(d); });
    for (int k = 0; k < 4; ++k) {
        static std::vector<Ev> v[3];
        if (v[0].empty()) v[0] = imbe_events(false), v[1] = a2450_events(false), v[2] = a2400_events(false);
        if (k < 3) for (size_t i = k; i < v[k].size(); ++i) { static std::vector<const Ev*> keep; const Ev* e = new Ev(v[k][i]); if (!some_frame) some_frame = e; bool s16 = i & 1; evops.push_back({e->name, [e, s16](Lib& L, State& s) { Out o; step(L, *e, s, o, s16); }}); }
    }
}
static uint64_t tick;
static State* pool() { static State* p = (State*)calloc(512, sizeof(State)); return p; }
static void build_fresh() {
    auto add = [](const char* n, std::function<void(Lib&, State&)> f) { fresh.push_back({n, f}); };
    // a frame that was never seen before: payload, error counts, quality and sample format all change
    for (int p = 0; p < 7; ++p) {
        static const Path ps[7] = {IMBE_D, IMBE72_F, IMBE71_F, A2450_D, A2450_F, A2400_D, A2400_F};
        static const char* pn[7] = {"ever new IMBE data", "ever new 7200 frame", "ever new 7100 frame", "ever new 2450 data", "ever new 2450 frame", "ever new 2400 data", "ever new 2400 frame"};
        Path path = ps[p];
        add(pn[p], [path](Lib& L, State& s) {
            uint64_t w = mc::mix(tick);
            int b0 = (int)(w >> 8 & 127), c0 = (int)((w >> 16 & 0xff) % 3), t = c0 + (int)(w >> 18 & 3);
            if ((w & 15) == 0 && !is_frame(path)) t = (int)(w >> 24 & 63);
            Bits d = is_imbe(path) ? imbe_bits((int)((w >> 8 & 0xffff) % 208), w & 64 ? -1 : (int)(w & 1), (int)(w >> 40 & 63), (uint32_t)w) : path == A2450_D || path == A2450_F ? a2450_bits(b0 % 120, (int)(w >> 33 & 31), (int)(w >> 40 & 31), (uint32_t)w) : a2400_bits(b0 % 120, (int)(w >> 33 & 15), (int)(w >> 40 & 63), (uint32_t)w);
            Ev e = make(path, d, c0, t, 0, "ever new");
            Out o;
            step(L, e, s, o, w >> 50 & 1, (int)(w >> 51 & 127));
        });
    }
    add("state elsewhere", [](Lib& L, State& s) {
        State& x = pool()[mc::mix(tick) % 512];
        x = s;
        mc::mix(tick) & 1024 ? (void)L.f_spectralAmpEnhance(&x.cur) : L.f_moveMbeParms(&x.cur, &x.prev);
        mbe_parms a = x.enh;
        L.f_synthesizeSpeechf(fbuf, &x.enh, &a, (int)(tick % 64));
        Out o;
        step(L, *(const Ev*)some_frame, x, o);
    });
    add("ever new seed", [](Lib& L, State&) { L.f_setThreadRngSeed((uint32_t)mc::mix(tick)); L.f_synthesizeComfortNoisef(fbuf); });
    add("ever new tone", [](Lib& L, State& s) {
        uint64_t w = mc::mix(tick);
        char d[49];
        Bits b = a2450_tone((int)(w & 255), (int)(w >> 8 & 127));
        for (int i = 0; i < 49; ++i) d[i] = (char)b.b[i];
        s.cur.swn = (int)(w >> 16 & 0xffffff);
        w >> 50 & 1 ? L.f_synthesizeTonef(fbuf, d, &s.cur) : L.f_synthesizeTonefdstar(fbuf, d, &s.cur, (int)(w & 511));
    });
    add("ever new parameters", [](Lib& L, State&) {
        uint64_t w = mc::mix(tick);
        mbe_parms m, q;
        memset(&m, 0, sizeof m);
        m.w0 = 0.03f + (float)(w & 0xffff) * 1e-6f;
        m.L = 9 + (int)((w >> 16 & 0xff) % 48);
        for (int l = 1; l <= m.L; ++l) m.Vl[l] = (int)(w >> (l & 31) & 1), m.Ml[l] = 1.f + (float)(mc::mix(w + l) & 255), m.PHIl[l] = m.PSIl[l] = (float)l;
        m.errorRate = (float)(w >> 20 & 0xffff) * 1e-6f;
        m.errorCountTotal = (int)(w & 7);
        q = m;
        q.L = 9 + (int)((w >> 40 & 0xff) % 48);
        L.f_spectralAmpEnhance(&m);
        L.f_applyAdaptiveSmoothing(&m, &q);
        L.f_synthesizeSpeechf(fbuf, &m, &q, 3);
        L.f_synthesizeSpeech(sbuf, &m, &q, (int)(w & 63));
    });
    add("ever new words", [](Lib& L, State&) {
        uint64_t w = mc::mix(tick);
        char a[32], b[32];
        for (int k = 0; k < 32; ++k) a[k] = (char)(w >> k & 1);
        L.f_golay2312(a, b); L.f_hamming1511(a, b); L.f_7100x4400hamming1511(a, b);
        long g = (long)(w >> 32 & 0x7fffff);
        L.f_checkGolayBlock(&g);
        char f4[4][24], f8[8][23], f7[7][24], d[96];
        for (int k = 0; k < 96; ++k) f4[0][k] = (char)(mc::mix(w + k) & 1), d[k] = (char)(mc::mix(w - k) & 1);
        for (int k = 0; k < 184; ++k) f8[0][k] = (char)(mc::mix(w + 100 + k) & 1);
        for (int k = 0; k < 168; ++k) f7[0][k] = (char)(mc::mix(w + 300 + k) & 1);
        L.f_eccAmbe3600x2450C0(f4); L.f_demodulateAmbe3600x2450Data(f4); L.f_eccAmbe3600x2450Data(f4, d);
        L.f_eccImbe7200x4400C0(f8); L.f_demodulateImbe7200x4400Data(f8); L.f_eccImbe7200x4400Data(f8, d);
        L.f_eccImbe7100x4400C0(f7); L.f_demodulateImbe7100x4400Data(f7); L.f_eccImbe7100x4400Data(f7, d); L.f_convertImbe7100to7200(d);
        mbe_parms m, q;
        State t;
        init(L, t);
        m = t.cur; q = t.prev;
        L.f_decodeImbe4400Parms(d, &m, &q); L.f_decodeAmbe2450Parms(d, &m, &q); L.f_decodeAmbe2400Parms(d, &m, &q);
    });
    add("ever new samples", [](Lib& L, State&) {
        float f[160];
        for (int k = 0; k < 160; ++k) f[k] = (float)(int32_t)mc::mix(tick * 160 + k) * 1e-4f;
        L.f_floattoshort(f, sbuf);
    });
}
