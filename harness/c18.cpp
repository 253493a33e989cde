// C18: all interleavings of several streams on one thread; every stream as if it were alone.
#include <exception>
#include <thread>
#include "sm_events.hpp"

struct Step { Ev e; int prim = 0; bool s16 = false; bool noise = false; std::string name; };
typedef std::vector<Step> Stream;
struct Rec { float pcm[160]; short pcm16[160]; char str[600]; int errs, errs2; bool noise; uint64_t st; };

static void exec(Lib& L, const Step& p, State& s, Rec& r) {
    Out o;
    memset(o.pcm, 0, sizeof o.pcm);
    memset(o.pcm16, 0, sizeof o.pcm16);
    o.str[0] = 0; o.errs = o.errs2 = 0;
    bool noise = false;
    char d[88];
    for (int i = 0; i < 88; ++i) d[i] = (char)p.e.d.b[i];
    switch (p.prim) {
        case 0: step(L, p.e, s, o, p.s16); break;
        case 1: L.f_synthesizeComfortNoisef(o.pcm); noise = true; break;
        case 2: L.f_decodeImbe4400Parms(d, &s.cur, &s.prev); L.f_moveMbeParms(&s.cur, &s.prev); L.f_spectralAmpEnhance(&s.cur); break;
        case 3: L.f_synthesizeSpeechf(o.pcm, &s.cur, &s.enh, 3); L.f_moveMbeParms(&s.cur, &s.enh); break;
        case 4: L.f_synthesizeTonef(o.pcm, d, &s.cur); break;
        case 5: L.f_initMbeParms(&s.cur, &s.prev, &s.enh); break;
        case 6: s.cur.errorCountTotal = 7; s.cur.errorRate = .05f; L.f_applyAdaptiveSmoothing(&s.cur, &s.enh); break;
        case 7: { float f[160]; for (int i = 0; i < 160; ++i) f[i] = (float)i * 55 - 4000; L.f_floattoshort(f, o.pcm16); break; }
        case 8: L.f_decodeAmbe2450Parms(d, &s.cur, &s.prev); L.f_moveMbeParms(&s.cur, &s.prev); break;
        case 9: L.f_decodeAmbe2400Parms(d, &s.cur, &s.prev); L.f_moveMbeParms(&s.cur, &s.prev); break;
    }
    o.str[sizeof o.str - 1] = 0;
    if (p.prim == 0) {
        // frames whose samples are comfort noise: muted, AMBE+2 erasures, D-STAR tone words that are not played
        if (strchr(o.str, 'M') || strchr(o.str, 'E')) noise = true;
        if (p.noise) noise = true;
    }
    memcpy(r.pcm, o.pcm, sizeof r.pcm);
    memcpy(r.pcm16, o.pcm16, sizeof r.pcm16);
    snprintf(r.str, sizeof r.str, "%s", o.str);
    r.errs = o.errs; r.errs2 = o.errs2;
    r.noise = noise;
    r.st = mc::hash(&s, sizeof s);
    mc::transitions();
}
static std::string cmp(const Rec& a, const Rec& w, const Step& p) {
    char t[200];
    if (a.noise != w.noise) return "comfort noise in one run only";
    if (strcmp(a.str, w.str) || a.errs != w.errs || a.errs2 != w.errs2) { snprintf(t, sizeof t, "status \"%.60s\" (%d,%d), alone \"%.60s\" (%d,%d)", a.str, a.errs, a.errs2, w.str, w.errs, w.errs2); return t; }
    if (a.st != w.st) return "the stream's state differs from the one it has alone";
    for (int i = 0; i < 160; ++i) {
        if (a.noise) {
            if (std::fabs(a.pcm[i]) > 14.05f || std::abs(a.pcm16[i]) > 99) { snprintf(t, sizeof t, "sample %d (%g) is not at comfort-noise level", i, p.s16 ? a.pcm16[i] : a.pcm[i]); return t; }
        } else if (memcmp(a.pcm + i, w.pcm + i, 4) || a.pcm16[i] != w.pcm16[i]) { snprintf(t, sizeof t, "sample %d is %.9g, alone %.9g", i, p.s16 ? a.pcm16[i] : a.pcm[i], p.s16 ? w.pcm16[i] : w.pcm[i]); return t; }
    }
    return "";
}
static std::vector<Stream> streams;
static std::vector<std::string> names;
static Step frame(const Ev& e, bool s16) {
    Step s;
    s.e = e; s.s16 = s16; s.name = e.name;
    if (e.path >= A2400_D) {
        char d[49];
        for (int i = 0; i < 49; ++i) d[i] = (char)e.d.b[i];
        int b0 = ref::bits(d, {0, 1, 2, 3, 4, 5, 48}), idx = ref::ambe2400_tone_index(d);
        s.noise = b0 >= 126 && !(idx >= 5 && idx <= 122 && e.c0 < 2 && e.total < 3);
    }
    return s;
}
static void build() {
    auto stream = [&](const std::string& n, const std::vector<Ev>& v, std::vector<size_t> idx) {
        Stream s;
        for (size_t k = 0; k < idx.size(); ++k) s.push_back(frame(v[idx[k] % v.size()], (idx[k] + k) % 3 == 0));
        streams.push_back(s);
        names.push_back(n);
    };
    auto im = imbe_events(true), a2 = a2450_events(true), a4 = a2400_events(true);
    int per = mc::thorough ? 9 : 5;
    for (int k = 0; k < per; ++k) {
        auto pick = [&](const std::vector<Ev>& v) { std::vector<size_t> i; for (int j = 0; j < 7; ++j) i.push_back(mc::mix(k * 100 + j + v.size()) % v.size()); return i; };
        stream("imbe" + std::to_string(k), im, pick(im));
        stream("ambe2450-" + std::to_string(k), a2, pick(a2));
        stream("ambe2400-" + std::to_string(k), a4, pick(a4));
    }
    // plain voice with different band counts and voicing (the transform caches), a concealment burst per codec
    auto voice = [&](const std::string& n, int codec, std::vector<int> b0s, int total, int v) {
        Stream s;
        for (size_t k = 0; k < 7; ++k) {
            int b0 = b0s[k % b0s.size()];
            Ev e = codec == 0 ? make(IMBE_D, imbe_bits(b0, v, 40, k + 50), 0, total, 0, "pitch " + std::to_string(b0)) : codec == 1 ? make(A2450_D, a2450_bits(b0, v ? 0 : 15, 18, k + 50), 0, total, 0, "pitch " + std::to_string(b0)) : make(A2400_D, a2400_bits(b0, v ? 0 : 15, 40, k + 50), 0, total, 0, "pitch " + std::to_string(b0));
            if (total && k == 0) { e.total = 0; }
            s.push_back(frame(e, k % 2));
        }
        streams.push_back(s);
        names.push_back(n);
    };
    voice("imbe voiced", 0, {0, 207, 60, 130}, 0, 1);
    voice("imbe unvoiced", 0, {100}, 0, 0);
    voice("imbe bad", 0, {80}, 9, 1);
    voice("ambe2450 voiced", 1, {0, 119, 40}, 0, 1);
    voice("ambe2450 unvoiced", 1, {70}, 0, 0);
    voice("ambe2450 bad", 1, {50}, 5, 1);
    voice("ambe2400 voiced", 2, {0, 125, 40}, 0, 1);
    voice("ambe2400 bad", 2, {50}, 5, 0);
    for (int v = 0; v < 3; ++v) {
        static const int pr[3][7] = {{2, 3, 6, 3, 1, 8, 3}, {4, 4, 9, 3, 2, 7, 1}, {5, 2, 3, 1, 3, 8, 6}};
        Stream s;
        for (int k = 0; k < 7; ++k) {
            Step p;
            p.prim = pr[v][k];
            p.e = p.prim == 4 ? make(A2450_D, a2450_tone(140, 90), 0, 0, 0, "tone") : p.prim == 8 ? make(A2450_D, a2450_bits(40 + v, 1, 15, v), 0, 0, 0, "v") : p.prim == 9 ? make(A2400_D, a2400_bits(40 + v, 1, 40, v), 0, 0, 0, "v") : make(IMBE_D, imbe_bits(60 + 50 * v, v ? -1 : 0, 40, v), 0, 0, 0, "v");
            static const char* pn[] = {"", "comfort noise", "decode+enhance imbe", "synthesize", "tone", "init", "smooth", "convert", "decode ambe2450", "decode ambe2400"};
            p.name = std::string("primitive: ") + pn[p.prim];
            s.push_back(p);
        }
        streams.push_back(s);
        names.push_back("primitives " + std::to_string(v));
    }
}
// the stream alone, on a thread of its own
static std::vector<Rec> alone(Lib& L, const Stream& st) {
    std::vector<Rec> r(st.size());
    std::thread([&] { State s; init(L, s); for (size_t i = 0; i < st.size(); ++i) exec(L, st[i], s, r[i]); }).join();
    return r;
}
static std::vector<std::vector<Rec>> solo;
static const std::vector<Rec>& solo_of(Lib& L, size_t i) { if (solo[i].empty()) solo[i] = alone(L, streams[i]); return solo[i]; }

static void interleave(Lib& L, const std::vector<int>& which, const std::vector<int>& len, std::vector<int>& order, std::vector<int> left, uint64_t& n, std::vector<State>& st, const char* ctx) {
    bool any = false;
    for (size_t k = 0; k < which.size(); ++k)
        if (left[k]) {
            any = true;
            order.push_back((int)k);
            --left[k];
            interleave(L, which, len, order, left, n, st, ctx);
            ++left[k];
            order.pop_back();
        }
    if (any) return;
    std::vector<int> pos(which.size(), 0);
    std::vector<uint64_t> now(which.size(), 0);
    for (size_t k = 0; k < which.size(); ++k) init(L, st[(k + n) % st.size()]);
    for (size_t q = 0; q < order.size(); ++q) {
        int k = order[q];
        const Step& p = streams[which[k]][pos[k]];
        Rec r;
        exec(L, p, st[(k + n) % st.size()], r);
        std::string d = cmp(r, solo_of(L, which[k])[pos[k]], p);
        if (!d.empty()) {
            std::string o;
            for (size_t z = 0; z <= q; ++z) o += (char)('A' + order[z]);
            std::string w;
            for (size_t z = 0; z < which.size(); ++z) w += std::string(z ? ", " : "") + (char)('A' + z) + "=" + names[which[z]];
            mc::fail("%s%s, order %s: frame %d of %s (%s): %s", ctx, w.c_str(), o.c_str(), pos[k] + 1, names[which[k]].c_str(), p.name.c_str(), d.c_str());
        }
        ++pos[k];
        now[k] = r.st;
        mc::state(mc::hash(now.data(), 8 * now.size(), which[0] * 1000003ull + pos[0] * 31 + pos[pos.size() - 1]));
    }
    ++n;
    mc::traces();
}
static void explore(Lib& L, std::vector<int> which, int depth, const char* ctx) {
    std::vector<int> order, left(which.size(), depth);
    uint64_t n = 0;
    std::vector<State> st(4);
    for (int w : which) for (auto& r : solo_of(L, w)) mc::state(r.st);
    interleave(L, which, left, order, left, n, st, ctx);
}
static void check() {
    if (streams.empty()) build();
    size_t N = streams.size();
    for (const char* variant : {"scalar", "simd"}) {
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        solo.assign(N, {});
        mc::group(G("pairs").c_str(), N * N, [&](uint64_t i) {
            int a = (int)(i / N), b = (int)(i % N);
            if (a > b) return;
            if (!first && !mc::thorough && i % 5) return;
            explore(L, {a, b}, mc::thorough ? 6 : 5, "one thread: ");
            if (first && i == 30) mc::sample("A=%s, B=%s: all interleavings", names[a].c_str(), names[b].c_str());
        });
        // the same on a thread whose generators were seeded and whose seeded start was used up by another stream
        mc::group(G("pairs-seeded").c_str(), N * N, [&](uint64_t i) {
            int a = (int)(i / N), b = (int)(i % N);
            if (a > b || (i % (first ? 4 : 16) && !mc::thorough)) return;
            std::exception_ptr ex;
            solo_of(L, a); solo_of(L, b);
            std::thread([&] {
                try {
                    L.f_setThreadRngSeed((uint32_t)i + 1);
                    State t; Out o;
                    init(L, t);
                    step(L, make(IMBE_D, imbe_bits(90, 0, 40, 5), 0, 0, 0, "u"), t, o);
                    explore(L, {a, b}, mc::thorough ? 5 : 4, "seeded thread: ");
                } catch (...) { ex = std::current_exception(); }
            }).join();
            if (ex) std::rethrow_exception(ex);
        });
        std::vector<int> sel;
        for (size_t k = 0; k < N; k += mc::thorough ? 1 : first ? 2 : 4) sel.push_back((int)k);
        size_t M = sel.size();
        mc::group(G("triples").c_str(), M * M * M, [&](uint64_t i) {
            int a = (int)(i / M / M), b = (int)(i / M % M), c = (int)(i % M);
            if (a > b || b > c) return;
            explore(L, {sel[a], sel[b], sel[c]}, first && i % 8 == 0 ? 3 : 2, "one thread: ");
        });
        // four streams, one switch pattern per order of first frames
        mc::group(G("quads").c_str(), N, [&](uint64_t i) {
            explore(L, {(int)i, (int)((i + 3) % N), (int)((i + 8) % N), (int)((i + 13) % N)}, mc::thorough && first ? 3 : 2, "one thread: ");
        });
    }
}
int main(int c, char** v) { lib("scalar"); lib("simd"); return mc::main(c, v, check); }
