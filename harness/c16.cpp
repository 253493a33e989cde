// C16: whatever the thread did before, the same calls with the same seed give the same bits.
#include <pthread.h>
#include <sys/mman.h>
#include <memory>
#include <exception>
#include <thread>
#include "sm_events.hpp"

struct Op { std::string name; int kind; Ev e; bool s16; };
enum { FRAME, NOISE_F, NOISE_S, SPEECH, ENHANCE, SMOOTH, TONE, DTONE, SILENCE_S, INIT, DECODE, SHORT, KINDS };
// everything an operation produced
struct Res {
    unsigned char pcm[640], pcm16[320];
    char str[600], d[96];
    int errs, errs2, ret;
    State s;
};
static void apply_at(Lib& L, const Op& op, State& s, Res& r, int fill, Out& o) {
    out_fill = fill;
    memset(o.pcm, fill, sizeof o.pcm);
    memset(o.pcm16, fill, sizeof o.pcm16);
    if (op.kind != FRAME) { memset(o.str, fill, sizeof o.str); memset(o.d, fill, sizeof o.d); o.errs = o.errs2 = fill; }
    r.ret = 0;
    switch (op.kind) {
        case FRAME: step(L, op.e, s, o, op.s16); break;
        case NOISE_F: L.f_synthesizeComfortNoisef(o.pcm); break;
        case NOISE_S: L.f_synthesizeComfortNoise(o.pcm16); break;
        case SPEECH: if (op.s16) L.f_synthesizeSpeech(o.pcm16, &s.cur, &s.prev, 3); else L.f_synthesizeSpeechf(o.pcm, &s.cur, &s.prev, 3); L.f_moveMbeParms(&s.cur, &s.prev); break;
        case ENHANCE: L.f_spectralAmpEnhance(&s.cur); break;
        case SMOOTH: s.cur.errorRate = 0.03f; s.cur.errorCountTotal = 6; L.f_applyAdaptiveSmoothing(&s.cur, &s.enh); break;
        case TONE: { char d[49]; for (int i = 0; i < 49; ++i) d[i] = (char)op.e.d.b[i]; L.f_synthesizeTonef(o.pcm, d, &s.cur); break; }
        case DTONE: { char d[49]; for (int i = 0; i < 49; ++i) d[i] = (char)op.e.d.b[i]; L.f_synthesizeTonefdstar(o.pcm, d, &s.cur, 30); break; }
        case SILENCE_S: L.f_synthesizeSilence(o.pcm16); break;
        case INIT: L.f_initMbeParms(&s.cur, &s.prev, &s.enh); break;
        case DECODE: {
            char d[88];
            for (int i = 0; i < 88; ++i) d[i] = (char)op.e.d.b[i];
            r.ret = is_imbe(op.e.path) ? L.f_decodeImbe4400Parms(d, &s.cur, &s.prev) : op.e.path == A2450_D ? L.f_decodeAmbe2450Parms(d, &s.cur, &s.prev) : L.f_decodeAmbe2400Parms(d, &s.cur, &s.prev);
            L.f_moveMbeParms(&s.cur, &s.prev);
            break;
        }
        case SHORT: { float f[160]; for (int i = 0; i < 160; ++i) f[i] = (float)((i - 80) * 61.37); L.f_floattoshort(f, o.pcm16); break; }
    }
    // only what the operation writes is compared
    bool f = false, h = false;
    if (op.kind == FRAME || op.kind == SPEECH) (op.s16 ? h : f) = true;
    else if (op.kind == NOISE_F || op.kind == TONE || op.kind == DTONE) f = true;
    else if (op.kind == NOISE_S || op.kind == SILENCE_S || op.kind == SHORT) h = true;
    memset(&r.pcm, 0, sizeof r.pcm); memset(&r.pcm16, 0, sizeof r.pcm16); memset(r.str, 0, sizeof r.str); memset(r.d, 0, sizeof r.d);
    r.errs = r.errs2 = 0;
    if (f) memcpy(r.pcm, o.pcm, sizeof r.pcm);
    if (h) memcpy(r.pcm16, o.pcm16, sizeof r.pcm16);
    if (op.kind == FRAME) {
        o.str[sizeof o.str - 1] = 0;
        snprintf(r.str, sizeof r.str, "%s", o.str);
        memcpy(r.d, o.d, is_imbe(op.e.path) ? 88 : 49);
        r.errs = o.errs; r.errs2 = o.errs2;
    }
    r.s = s;
}
static void apply(Lib& L, const Op& op, State& s, Res& r, int fill) { Out o; apply_at(L, op, s, r, fill, o); }
// state words a decoder reads before it writes them must not differ; padding and unused words of a state the
// caller prepared identically stay identical, so whole states are compared
static std::string cmp(const Res& a, const Res& b) {
    char t[160];
    if (memcmp(a.pcm, b.pcm, sizeof a.pcm)) {
        const float *x = (const float*)a.pcm, *y = (const float*)b.pcm;
        for (int i = 0; i < 160; ++i) if (memcmp(x + i, y + i, 4)) { snprintf(t, sizeof t, "sample %d is %.9g, on a fresh thread %.9g", i, y[i], x[i]); return t; }
    }
    if (memcmp(a.pcm16, b.pcm16, sizeof a.pcm16)) return "16-bit samples differ from those on a fresh thread";
    if (strcmp(a.str, b.str)) { snprintf(t, sizeof t, "status \"%.40s\", on a fresh thread \"%.40s\"", b.str, a.str); return t; }
    if (a.errs != b.errs || a.errs2 != b.errs2 || a.ret != b.ret) { snprintf(t, sizeof t, "counts (%d,%d,%d), on a fresh thread (%d,%d,%d)", b.errs, b.errs2, b.ret, a.errs, a.errs2, a.ret); return t; }
    if (memcmp(a.d, b.d, sizeof a.d)) return "parameter bits differ from those on a fresh thread";
    if (memcmp(&a.s, &b.s, sizeof a.s)) {
        const char* w = (const char*)&a.s; const char* v = (const char*)&b.s;
        size_t k = 0;
        while (w[k] == v[k]) ++k;
        std::string d = sm::diff(b.s, a.s);
        snprintf(t, sizeof t, "state byte %zu of %s differs from a fresh thread (%s)", k % sizeof(mbe_parms), k < sizeof(mbe_parms) ? "cur" : k < 2 * sizeof(mbe_parms) ? "prev" : "prev_enhanced", d.c_str());
        return t;
    }
    return "";
}
static std::vector<Op> ops, hist;
static void build() {
    int n = 0;
    auto add = [&](std::vector<Ev> v, size_t stride, std::vector<Op>& to) { for (size_t i = 0; i < v.size(); i += stride) to.push_back({v[i].name, FRAME, v[i], (n++ % 3) == 0}); };
    bool th = mc::thorough;
    add(imbe_events(false), th ? 2 : 4, ops);
    add(a2450_events(false), th ? 2 : 5, ops);
    add(a2400_events(false), th ? 2 : 5, ops);
    add(imbe_events(false), th ? 1 : 3, hist);
    add(a2450_events(false), th ? 1 : 3, hist);
    add(a2400_events(false), th ? 1 : 3, hist);
    Ev iv = make(IMBE_D, imbe_bits(90, 1, 40, 5), 0, 0, 0, "x"), av = make(A2450_D, a2450_bits(70, 2, 14, 6), 0, 0, 0, "x"), dv = make(A2400_D, a2400_bits(80, 2, 40, 7), 0, 0, 0, "x");
    Ev t = make(A2450_D, a2450_tone(140, 90), 0, 0, 0, "x"), dt = make(A2400_D, a2400_tone(30), 0, 0, 0, "x");
    for (auto* to : {&ops, &hist}) {
        to->push_back({"comfort noise", NOISE_F, iv, false});
        to->push_back({"comfort noise (16 bit)", NOISE_S, iv, false});
        to->push_back({"synthesize speech", SPEECH, iv, false});
        to->push_back({"synthesize speech (16 bit)", SPEECH, iv, true});
        to->push_back({"enhance", ENHANCE, iv, false});
        to->push_back({"smooth", SMOOTH, iv, false});
        to->push_back({"tone", TONE, t, false});
        to->push_back({"D-STAR tone", DTONE, dt, false});
        to->push_back({"convert", SHORT, iv, false});
        to->push_back({"decode imbe", DECODE, iv, false});
        to->push_back({"decode ambe2450", DECODE, av, false});
        to->push_back({"decode ambe2400", DECODE, dv, false});
        to->push_back({"init", INIT, iv, false});
    }
}
static const uint32_t seeds[] = {0, 1, 0xffffffffu, 12345, 53125};
struct Prog { int a, b; uint32_t seed; };
static void run(Lib& L, const Prog& p, State& s, Res* out, int fill) {
    L.f_setThreadRngSeed(p.seed);
    memset(&s, 0, sizeof s);
    L.f_initMbeParms(&s.cur, &s.prev, &s.enh);
    apply(L, ops[p.a], s, out[0], fill);
    apply(L, ops[p.b], s, out[1], fill);
    apply(L, ops[p.a], s, out[2], fill);
}
template <class F> static void on_thread(F f) {
    std::exception_ptr ex;
    std::thread t([&] { try { f(); } catch (...) { ex = std::current_exception(); } });
    t.join();
    if (ex) std::rethrow_exception(ex);
}
static std::string pname(const Prog& p) { return "seed " + std::to_string(p.seed) + ", " + ops[p.a].name + " > " + ops[p.b].name + " > " + ops[p.a].name; }

static void check() {
    build();
    size_t N = ops.size(), H = hist.size();
    for (const char* variant : {"scalar", "simd", "release"}) {
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        std::string v = variant;
        // every three-call program alone on a fresh thread, once; then after every two-call history, at changing
        // addresses and over changing buffer contents
        static std::vector<Res> base;
        static std::vector<char> have;
        base.assign(0, Res());
        have.assign(N * N, 0);
        static std::vector<uint64_t> sig;
        sig.assign(N * N * 3, 0);
        auto prog = [&](size_t i) { return Prog{(int)(i / N), (int)(i % N), seeds[(i * 7 + i / N) % 5]}; };
        auto rhash = [&](const Res& r) { uint64_t h = mc::hash(r.pcm, sizeof r.pcm); h = mc::hash(r.pcm16, sizeof r.pcm16, h); h = mc::hash(r.str, sizeof r.str, h); h = mc::hash(r.d, sizeof r.d, h); int e[3] = {r.errs, r.errs2, r.ret}; h = mc::hash(e, sizeof e, h); return mc::hash(&r.s, sizeof r.s, h); };
        auto need = [&](size_t i) {
            if (have[i]) return;
            have[i] = 1;
            on_thread([&] { State s; Res r[3]; run(L, prog(i), s, r, 0x11); for (int k = 0; k < 3; ++k) { sig[i * 3 + k] = rhash(r[k]); mc::state(sig[i * 3 + k]); } });
            mc::transitions(3);
        };
        mc::group((v + "-after-history").c_str(), H * H, [&](uint64_t hi) {
            for (size_t i = 0; i < N * N; ++i) if ((i + hi) % (mc::thorough ? 1 : first ? 2 : 16) == 0) need(i);
            std::vector<unsigned char> arena(sizeof(State) * 3 + 64);
            on_thread([&] {
                const Op &a = hist[hi / H], &b = hist[hi % H];
                State hs;
                Res r[3];
                size_t off0 = (hi * 4) % 64;
                State& slot = *(State*)(arena.data() + off0);  // history and program share an address ...
                L.f_setThreadRngSeed((uint32_t)hi * 77 + 5);
                memset(&slot, 0, sizeof slot);
                L.f_initMbeParms(&slot.cur, &slot.prev, &slot.enh);
                apply(L, a, slot, r[0], 0x22);
                apply(L, b, slot, r[0], 0x22);
                int k = 0;
                for (size_t i = 0; i < N * N; ++i) {
                    if ((i + hi) % (mc::thorough ? 1 : first ? 2 : 16)) continue;
                    // ... and in later programs it moves
                    State& s = *(State*)(arena.data() + (k % 3 == 0 ? off0 : 4 * ((i + k) % 16) + sizeof(State) * (k % 3)));
                    Prog p = prog(i);
                    int fill = (int)(i * 31 + hi) & 0xff;
                    run(L, p, s, r, fill);
                    mc::transitions(3);
                    for (int j = 0; j < 3; ++j)
                        if (rhash(r[j]) != sig[i * 3 + j]) {
                            Res want[3];
                            on_thread([&] { State t; run(L, p, t, want, 0x11); });
                            std::string d = cmp(want[j], r[j]);
                            mc::fail("%s build: on a thread that had run %s > %s%s: %s: call %d: %s", variant, a.name.c_str(), b.name.c_str(), k ? " and other programs" : "", pname(p).c_str(), j + 1, d.empty() ? "result differs from the first fresh thread's" : d.c_str());
                        }
                    ++k;
                }
            });
            mc::traces();
            if (first && hi == 3) mc::sample("thread that ran %s > %s: every program such as [%s] is bit-identical to a fresh thread", hist[0].name.c_str(), hist[3].name.c_str(), pname(prog(9)).c_str());
        });
        // every position of the buffers and of the state relative to a page and to each other
        mc::group((v + "-addresses").c_str(), N * 16, [&](uint64_t idx) {
            const Op& op = ops[idx % N];
            uint64_t part = idx / N;
            static Out ref_o;
            State from, t = {};
            init(L, from);
            L.f_setThreadRngSeed(31);
            Res want, r;
            for (int k = 0; k < 3; ++k) { Res w; apply(L, ops[(idx + k * 11) % N], from, w, 0x44); }
            t = from;
            L.f_setThreadRngSeed(32);
            apply_at(L, op, t, want, 0x11, ref_o);
            static char* arena = (char*)mmap(nullptr, 16 << 12, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            for (uint64_t k = part; k < 1024; k += first || mc::thorough ? 16 : 64)
                for (int who = 0; who < 3; ++who) {
                    // the outputs move, the state moves, both move
                    size_t so = who == 0 ? 64 : k * 4, oo = who == 1 ? 64 : who == 2 ? (k * 4 + 2048 + part * 256) % 4096 : k * 4;
                    State& s = *(State*)(arena + so);
                    Out& o = *(Out*)(arena + (8 << 12) + oo);
                    s = from;
                    L.f_setThreadRngSeed(32);
                    apply_at(L, op, s, r, 0x11, o);
                    mc::transitions();
                    std::string d = cmp(want, r);
                    if (!d.empty()) mc::fail("%s build: %s with its output at offset %zu of a page and its state at offset %zu: %s", variant, op.name.c_str(), oo, so, d.c_str());
                }
            // 16-bit samples at every even offset of a page
            if (idx < 16) {
                float f[160];
                for (int q = 0; q < 160; ++q) f[q] = (float)((q * 37 % 160 - 80) * 61.37);
                short first16[3][160];
                for (size_t k = 0; k < 2048; ++k) {
                    short* a = (short*)(arena + (8 << 12) + k * 2);
                    for (int fn = 0; fn < 3; ++fn) {
                        mbe_parms c = from.cur, p = from.enh;
                        L.f_setThreadRngSeed(5);
                        if (fn == 0) L.f_floattoshort(f, a); else if (fn == 1) L.f_synthesizeComfortNoise(a); else L.f_synthesizeSpeech(a, &c, &p, 3);
                        mc::transitions();
                        if (!k) memcpy(first16[fn], a, 320);
                        else if (memcmp(first16[fn], a, 320)) mc::fail("%s build: 16-bit samples of %s depend on the offset %zu of the buffer", variant, fn == 0 ? "floattoshort" : fn == 1 ? "comfort noise" : "speech", k * 2);
                    }
                }
            }
            mc::traces();
            mc::state(mc::hash(&want, sizeof want));
        });
        // the random words a thread uses between seeding and the program cannot leak past the seeding:
        // n noise frames, m streams started and abandoned, seeds set and not used
        mc::group((v + "-generator-histories").c_str(), 5 * 9, [&](uint64_t i) {
            uint32_t seed = seeds[i % 5];
            int h = (int)(i / 5);
            auto body = [&](bool polluted, std::vector<Res>& out, int fill) {
                on_thread([&] {
                    if (polluted) {
                        float f[160]; short sh[160];
                        if (h & 1) { L.f_setThreadRngSeed(seed ^ 0x5555); }
                        for (int k = 0; k < (h >> 1) * 3; ++k) { L.f_synthesizeComfortNoisef(f); if (k & 1) L.f_synthesizeComfortNoise(sh); }
                        for (int k = 0; k < h; ++k) { State s; init(L, s); Res r; apply(L, ops[k % N], s, r, 0x33); if (k == 5) L.f_setThreadRngSeed(99); }
                    }
                    L.f_setThreadRngSeed(seed);
                    for (int rep = 0; rep < 2; ++rep) {
                        auto s = std::make_unique<State>();
                        auto pad = std::make_unique<char[]>(polluted ? 1000 + h * 64 : 16);
                        init(L, *s);
                        for (size_t k = 0; k < N; ++k) { Res r; apply(L, ops[(k * 5 + h) % N], *s, r, fill); out.push_back(r); mc::transitions(); }
                    }
                });
            };
            std::vector<Res> x, y;
            body(false, x, 0x00);
            body(true, y, 0xa7);
            for (size_t k = 0; k < x.size(); ++k) {
                std::string d = cmp(x[k], y[k]);
                if (!d.empty()) mc::fail("%s build, seed %u after generator history %d: call %zu (%s): %s", variant, seed, h, k, ops[((k % N) * 5 + h) % N].name.c_str(), d.c_str());
            }
            mc::traces();
        });
    }
    // another copy of the library, another process layout: same bits
    mc::group("second-copy", N * N, [&](uint64_t i) {
        Prog p{(int)(i / N), (int)(i % N), seeds[i % 5]};
        Res a[3], b[3];
        on_thread([&] { State s; run(lib("scalar"), p, s, a, 0x00); });
        auto s = std::make_unique<State>();
        run(lib("scalar2"), p, *s, b, 0xff);
        mc::transitions(6);
        for (int j = 0; j < 3; ++j) { auto d = cmp(a[j], b[j]); if (!d.empty()) mc::fail("second copy: %s: call %d: %s", pname(p).c_str(), j + 1, d.c_str()); }
        mc::traces();
    });
    // a zero seed is a seed: it changes the generators and does so the same way every time
    mc::group("zero-seed", 64, [&](uint64_t h) {
        Lib& L = lib("scalar");
        float a[3][160];
        on_thread([&] { L.f_setThreadRngSeed(0); for (auto& x : a) L.f_synthesizeComfortNoisef(x); });
        on_thread([&] {
            float f[160];
            L.f_setThreadRngSeed((uint32_t)h * 0x9E3779B1u);
            for (uint64_t k = 0; k < h; ++k) L.f_synthesizeComfortNoisef(f);
            L.f_setThreadRngSeed(0);
            for (int k = 0; k < 3; ++k) { L.f_synthesizeComfortNoisef(f); mc::transitions(); if (memcmp(f, a[k], sizeof f)) mc::fail("seed 0 after %d noise frames: frame %d differs", (int)h, k); }
            bool varied = false;
            for (int k = 1; k < 160; ++k) if (a[0][k] != a[0][0]) varied = true;
            if (!varied) mc::fail("seed 0 gives constant noise");
        });
        mc::traces();
    });
}
int main(int c, char** v) { for (auto b : {"scalar", "scalar2", "simd", "release"}) lib(b); return mc::main(c, v, check); }
