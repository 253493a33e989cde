// C39: a decoder state is plain data.  At every point of a history the state is taken away, copied, moved, rewound,
// forked or handed to another thread or copy of the library; what follows is what follows without that.
#include <memory>
#include <sys/mman.h>
#include <thread>
#include "cold.hpp"
#include "sm_events.hpp"

struct Act { std::string name; Ev e; int prim = 0; bool s16 = false; };
static std::vector<Act> acts;
static const char* pn[] = {"", "enhance", "speech of the enhanced model", "speech, 16 bit", "move", "use last", "smooth", "tone", "D-STAR tone", "decode IMBE", "decode AMBE+2", "decode AMBE 2400"};
static void build() {
    static std::vector<Ev> v[3] = {imbe_events(false), a2450_events(false), a2400_events(false)};
    for (auto& w : v) for (size_t i = 0; i < w.size(); ++i) acts.push_back({w[i].name, w[i], 0, (bool)(i & 1)});
    for (int b0 : {0, 70, 150, 207}) for (int vo : {-1, 0}) { Ev e = make(IMBE_D, imbe_bits(b0, vo, 33, 500 + b0), 0, 0, 0, "IMBE pitch " + std::to_string(b0)); acts.push_back({e.name, e}); }
    for (int b0 : {0, 60, 119}) for (int vo : {0, 9, 31}) { Ev e = make(A2450_D, a2450_bits(b0, vo, 20, 600 + b0), 0, 0, 0, "AMBE+2 pitch " + std::to_string(b0)); acts.push_back({e.name, e}); }
    for (int p = 1; p <= 11; ++p)
        acts.push_back({pn[p], p == 7 ? make(A2450_D, a2450_tone(140, 90), 0, 0, 0, "tone") : p == 10 ? make(A2450_D, a2450_bits(41, 3, 15, 7), 0, 0, 0, "v") : p == 11 ? make(A2400_D, a2400_bits(61, 3, 40, 8), 0, 0, 0, "v") : make(IMBE_D, imbe_bits(90, -1, 40, 9), 0, 0, 0, "v"), p});
}
struct Res { float pcm[160]; short pcm16[160]; char str[600]; int errs, errs2; };
struct Refs { mbe_parms &cur, &prev, &enh; };  // where the three parameter sets lie
static void go(Lib& L, const Act& a, Refs s, Res& r) {
    memset(&r, 0, sizeof r);
    char d[96] = {0};
    for (int i = 0; i < 88; ++i) d[i] = (char)a.e.d.b[i];
    switch (a.prim) {
        case 0: {
            // step() takes one struct: call through a window whose parts are the three sets wherever they lie
            char frame[8][24];
            memset(frame, 0, sizeof frame);
            r.errs = a.e.c0; r.errs2 = a.e.total;
            if (is_frame(a.e.path)) { r.errs = r.errs2 = 0; fill_frame(a.e, frame); }
            mbe_parms *c = &s.cur, *p = &s.prev, *n = &s.enh;
            int *e1 = &r.errs, *e2 = &r.errs2;
#define BOTH(NAME, IN) (a.s16 ? L.f_process##NAME(r.pcm16, e1, e2, r.str, IN, d, c, p, n, 3) : L.f_process##NAME##f(r.pcm, e1, e2, r.str, IN, d, c, p, n, 3))
#define BOTHD(NAME) (a.s16 ? L.f_process##NAME(r.pcm16, e1, e2, r.str, d, c, p, n, 3) : L.f_process##NAME##f(r.pcm, e1, e2, r.str, d, c, p, n, 3))
            switch (a.e.path) {
                case IMBE_D: BOTHD(Imbe4400Data); break;
                case IMBE72_F: BOTH(Imbe7200x4400Frame, (char(*)[23])frame); break;
                case IMBE71_F: BOTH(Imbe7100x4400Frame, (char(*)[24])frame); break;
                case A2450_D: BOTHD(Ambe2450Data); break;
                case A2450_F: BOTH(Ambe3600x2450Frame, (char(*)[24])frame); break;
                case A2400_D: BOTHD(Ambe2400Data); break;
                case A2400_F: BOTH(Ambe3600x2400Frame, (char(*)[24])frame); break;
            }
            break;
        }
        case 1: L.f_spectralAmpEnhance(&s.cur); break;
        case 2: { mbe_parms m = s.enh; L.f_synthesizeSpeechf(r.pcm, &m, &s.enh, 3); s.enh = m; break; }
        case 3: { mbe_parms m = s.enh; L.f_synthesizeSpeech(r.pcm16, &m, &s.enh, 3); s.enh = m; break; }
        case 4: L.f_moveMbeParms(&s.cur, &s.prev); break;
        case 5: L.f_useLastMbeParms(&s.cur, &s.prev); break;
        case 6: { mbe_parms m = s.cur; m.errorCountTotal = 7; m.errorRate = .05f; L.f_applyAdaptiveSmoothing(&m, &s.enh); s.cur = m; break; }
        case 7: L.f_synthesizeTonef(r.pcm, d, &s.cur); break;
        case 8: L.f_synthesizeTonefdstar(r.pcm, d, &s.cur, 40); break;
        case 9: L.f_decodeImbe4400Parms(d, &s.cur, &s.prev); break;
        case 10: L.f_decodeAmbe2450Parms(d, &s.cur, &s.prev); break;
        case 11: L.f_decodeAmbe2400Parms(d, &s.cur, &s.prev); break;
    }
    r.str[sizeof r.str - 1] = 0;
    mc::transitions();
}
static void go(Lib& L, const Act& a, State& s, Res& r) { go(L, a, Refs{s.cur, s.prev, s.enh}, r); }
static std::string cmp(const Res& a, const Res& w) {
    char t[300];
    if (strcmp(a.str, w.str) || a.errs != w.errs || a.errs2 != w.errs2) { snprintf(t, sizeof t, "status \"%.60s\" (%d,%d), undisturbed \"%.60s\" (%d,%d)", a.str, a.errs, a.errs2, w.str, w.errs, w.errs2); return t; }
    for (int i = 0; i < 160; ++i)
        if (memcmp(a.pcm + i, w.pcm + i, 4) || a.pcm16[i] != w.pcm16[i]) { snprintf(t, sizeof t, "sample %d is %.9g / %d, undisturbed %.9g / %d", i, a.pcm[i], a.pcm16[i], w.pcm[i], w.pcm16[i]); return t; }
    return "";
}
// acts after the snapshot and what follows them undisturbed
struct Tale { const Act* after[3]; Res r[3]; State end; };
static const char* manner[] = {"rewound after other frames", "moved to another place", "its three parts moved apart", "continued on a new thread", "continued on another, busy thread", "continued in another copy of the library", "forked, both continued in turn", "exchanged with another stream's", "rewound and played again, twice", "moved between frames, again and again", "kept in memory that other states used before"};
constexpr int MANNERS = sizeof manner / sizeof *manner;
static void judge(const char* build, int m, const char* what, const Tale& t, int k, const Res& r, const State& s) {
    std::string d = cmp(r, t.r[k]);
    if (d.empty() && k == 2 && memcmp(&s, &t.end, sizeof s)) d = "the state differs from the undisturbed one";
    if (!d.empty()) mc::fail("%s build: %s, then state %s: frame %d (%s): %s", build, what, manner[m], k + 1, t.after[k]->name.c_str(), d.c_str());
}
static State* place(int k) {  // places a page and a bit apart
    static char* base = (char*)mmap(nullptr, 64 * (sizeof(State) + 8192), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return (State*)(base + (size_t)k * ((sizeof(State) + 4096) & ~(size_t)15) + (size_t)(k * 16));
}
template <class F> static void on_thread(F&& f) {
    bool failed = false;
    std::thread t([&] { try { f(); } catch (mc::Fail&) { failed = true; } });
    t.join();
    mc::flush();
    if (failed) throw mc::Fail{};
}
static void continue_(const char* build, Lib& L, Lib& other, int m, const char* what, uint32_t seed, const State& snap, const State& strange, State& here, const Tale& t, const Act* x, const Act* y) {
    Res r;
    auto play = [&](Lib& l, State& s) {
        l.f_setThreadRngSeed(seed);
        for (int k = 0; k < 3; ++k) { go(l, *t.after[k], s, r); judge(build, m, what, t, k, r, s); }
    };
    switch (m) {
        case 0: go(L, *x, here, r); go(L, *y, here, r); here = snap; play(L, here); break;
        case 1: *place(1) = snap; memset((void*)&here, 0xc5, sizeof here); play(L, *place(1)); break;
        case 2: {
            mbe_parms *c = &place(9)->enh, *p = &place(3)->cur, *n = &place(6)->prev;
            *c = snap.cur; *p = snap.prev; *n = snap.enh;
            L.f_setThreadRngSeed(seed);
            for (int k = 0; k < 3; ++k) { go(L, *t.after[k], Refs{*c, *p, *n}, r); State s; memcpy(&s.cur, c, sizeof *c); memcpy(&s.prev, p, sizeof *c); memcpy(&s.enh, n, sizeof *c); judge(build, m, what, t, k, r, s); }
            break;
        }
        case 3: here = snap; on_thread([&] { play(L, here); }); break;
        case 4: here = snap; on_thread([&] { State o = strange; Res q; go(L, *x, o, q); init(L, o); go(L, *y, o, q); play(L, here); }); break;
        case 5: here = snap; play(other, here); break;
        case 6: {
            // the other branch hears other frames; neither notices (the undisturbed run is seeded for every frame, too)
            State *p = place(11), *q = place(12);
            *p = snap; *q = snap;
            const Act* z[3] = {x, y, x};
            for (int k = 0; k < 3; ++k) {
                go(L, *z[k], *q, r);
                L.f_setThreadRngSeed(seed);
                go(L, *t.after[k], *p, r);
                judge(build, m, what, t, k, r, *p);
            }
            break;
        }
        case 7: {
            State *a = place(14), *b = place(15);
            *a = snap; *b = strange;
            go(L, *x, *b, r);
            State h = *a; *a = *b; *b = h;
            go(L, *y, *a, r);
            play(L, *b);
            break;
        }
        case 8: for (int n = 0; n < 2; ++n) { here = snap; play(L, here); } break;
        case 9: {
            State* a = place(20);
            *a = snap;
            L.f_setThreadRngSeed(seed);
            for (int k = 0; k < 3; ++k) { State* b = place(21 + k); *b = *a; memset((void*)a, 0x3f, sizeof *a); a = b; go(L, *t.after[k], *a, r); judge(build, m, what, t, k, r, *a); }
            break;
        }
        case 10: {
            State* a = place(30);
            *a = strange; go(L, *x, *a, r);
            init(L, *a); go(L, *y, *a, r);
            *a = snap;
            play(L, *a);
            break;
        }
    }
    mc::traces();
}
static void check() {
    if (acts.empty()) build();
    size_t N = acts.size();
    static const uint32_t seeds[] = {1, 77, 0xfffffffeu};
    for (const char* v : {"scalar", "simd", "release"}) {
        bool first = !strcmp(v, "scalar");
        mc::group(v, N * N, [&](uint64_t i) {
            Lib &L = lib(v), &other = lib(first ? "scalar2" : !strcmp(v, "simd") ? "simd2" : "release2");
            const Act &a = acts[i / N], &b = acts[i % N];
            // history a, b; then every so many c, with frames d and e after it
            int step_ = mc::thorough ? 4 : first ? 40 : 160;
            for (size_t c = i % step_; c < N; c += step_) {
                Tale t{{&acts[c], &acts[(c * 7 + i) % N], &acts[(c + i * 3) % N]}, {}, {}}, u = t;
                State snap, strange;
                uint32_t seed = seeds[(i + c) % 3];
                memset((void*)&snap, 0, sizeof snap);
                memset((void*)&strange, 0, sizeof strange);
                std::string what = a.name + " > " + b.name;
                on_thread([&] {
                    Res r;
                    init(L, snap);
                    go(L, a, snap, r); go(L, b, snap, r);
                    State s = snap;
                    L.f_setThreadRngSeed(seed);
                    for (int k = 0; k < 3; ++k) go(L, *t.after[k], s, t.r[k]);
                    t.end = s;
                    s = snap;
                    for (int k = 0; k < 3; ++k) { L.f_setThreadRngSeed(seed); go(L, *u.after[k], s, u.r[k]); }
                    u.end = s;
                    init(L, strange);
                    go(L, acts[(i + 5 * c) % N], strange, r); go(L, acts[(i * 5 + c) % N], strange, r);
                });
                mc::state(mc::hash(&snap, sizeof snap));
                // a frame alike but not equal is the likeliest to be taken for the one remembered: one of the others is the frame just heard or about to be heard
                const Act *x = c & 1 ? &acts[(c * 11 + i) % N] : t.after[0], *y = c & 2 ? &acts[(i * 13 + c) % N] : t.after[1];
                for (int m = 0; m < MANNERS; ++m) {
                    if (!mc::thorough && !first && (m + c + i) % 3) continue;
                    on_thread([&] {
                        State* here = place(0);
                        Res r;
                        memset((void*)here, 0, sizeof *here);
                        init(L, *here);
                        go(L, a, *here, r); go(L, b, *here, r);
                        if (memcmp(here, &snap, sizeof snap)) mc::fail("%s build: %s leaves another state at another address", v, what.c_str());
                        continue_(v, L, other, m, what.c_str(), seed, snap, strange, *here, m == 6 ? u : t, x, y);
                    });
                }
                if (i == 77 && c < 40) mc::sample("%s, state taken, then %s > %s > %s: the same in %d manners", what.c_str(), t.after[0]->name.c_str(), t.after[1]->name.c_str(), t.after[2]->name.c_str(), MANNERS);
            }
        });
    }
}
int main(int c, char** v) { for (auto n : {"scalar", "scalar2", "simd", "simd2", "release", "release2"}) lib(n); return mc::main(c, v, check); }
