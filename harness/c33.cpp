// C33: a frame call equals its published stages followed by the parameter-level call; a good parameter-level
// call equals decode, enhance, synthesise.
#include "sm_events.hpp"
typedef char F24[4][24]; typedef char F72[8][23]; typedef char F71[7][24];

static Path data_path(Path p) { return p == IMBE72_F || p == IMBE71_F ? IMBE_D : p == A2450_F ? A2450_D : A2400_D; }
static void same(const State& a, const State& b, const Out& x, const Out& y, const char* what, const std::string& h) {
    std::string d = sm::diff(a, b);
    if (!d.empty()) mc::fail("%s: %s: %s", h.c_str(), what, d.c_str());
    if (strcmp(x.str, y.str)) mc::fail("%s: %s: trace \"%s\" against \"%s\"", h.c_str(), what, x.str, y.str);
    if (memcmp(x.pcm, y.pcm, sizeof x.pcm)) {
        double peak = 1;
        for (int i = 0; i < 160; ++i) peak = std::fmax(peak, std::fabs(x.pcm[i]));
        for (int i = 0; i < 160; ++i) if (!sm::feq(x.pcm[i], y.pcm[i], 0, 2e-4 * peak)) mc::fail("%s: %s: sample %d is %g against %g", h.c_str(), what, i, x.pcm[i], y.pcm[i]);
    }
}
// runs the frame call and the staged equivalent from s; leaves the frame call's state in s
static void compare(Lib& L, const Ev& e, State& s, const std::string& hist) {
    State pre = s;
    Out o;
    L.f_setThreadRngSeed(5);
    step(L, e, s, o);
    mc::transitions();
    std::string h = hist + " > " + e.name;
    char fr[192], d[96];
    memset(d, 0x3c, sizeof d);
    fill_frame(e, fr);
    int c0, rest;
    switch (e.path) {
        case IMBE72_F: c0 = L.f_eccImbe7200x4400C0(*(F72*)fr); L.f_demodulateImbe7200x4400Data(*(F72*)fr); rest = L.f_eccImbe7200x4400Data(*(F72*)fr, d); break;
        case IMBE71_F: c0 = L.f_eccImbe7100x4400C0(*(F71*)fr); L.f_demodulateImbe7100x4400Data(*(F71*)fr); rest = L.f_eccImbe7100x4400Data(*(F71*)fr, d); L.f_convertImbe7100to7200(d); break;
        case A2450_F: c0 = L.f_eccAmbe3600x2450C0(*(F24*)fr); L.f_demodulateAmbe3600x2450Data(*(F24*)fr); rest = L.f_eccAmbe3600x2450Data(*(F24*)fr, d); break;
        default: c0 = L.f_eccAmbe3600x2400C0(*(F24*)fr); L.f_demodulateAmbe3600x2400Data(*(F24*)fr); rest = L.f_eccAmbe3600x2400Data(*(F24*)fr, d); break;
    }
    mc::transitions();
    int n = nbits(e.path);
    if (o.errs != c0 || o.errs2 != c0 + rest) mc::fail("%s: the frame call counts (%d,%d), its stages (%d,%d)", h.c_str(), o.errs, o.errs2, c0, c0 + rest);
    if (memcmp(o.d, d, n)) mc::fail("%s: the frame call unpacks other bits than its stages", h.c_str());
    if (c0 != e.c0 || c0 + rest != e.total) mc::fail("%s: counts (%d,%d), the frame carries (%d,%d)", h.c_str(), c0, c0 + rest, e.c0, e.total);
    if (memcmp(std::string(o.d, n).data(), e.d.b, n)) mc::fail("%s: the frame call unpacks other bits than the frame carries", h.c_str());
    // does the parameter-level call decide the same way?
    bool frame_rep, data_rep;
    double er = 0.95 * pre.prev.errorRate + 0.000365 * e.total;
    if (is_imbe(e.path)) {
        double thr = 10 + 40 * er;
        if (std::fabs(e.total - thr) < 1e-3) return;
        frame_rep = e.c0 >= 2 && e.total >= thr;
        data_rep = e.total > 5;
        int b0 = 0;
        for (int i : {0, 1, 2, 3, 4, 5, 85, 86}) b0 = b0 << 1 | e.d.b[i];
        if (b0 > 207) frame_rep = data_rep = true;
        if (e.c4) return;
    } else if (e.path == A2450_F) {
        frame_rep = e.c0 >= 4 || (e.c0 >= 2 && e.total >= 6);
        data_rep = e.total > 3;
        char q[49];
        for (int i = 0; i < 49; ++i) q[i] = (char)e.d.b[i];
        ref::Cls c = ref::ambe2450_class(q, e.total);
        if (c == ref::TONE || c == ref::ERASURE) frame_rep = data_rep;
    } else frame_rep = data_rep = e.total > 3;
    if (frame_rep != data_rep) { mc::count("decision differs by design"); return; }
    State t = pre;
    Out p;
    Ev g = e;
    g.path = data_path(e.path);
    for (int i = 0; i < n; ++i) g.d.b[i] = (uint8_t)d[i];
    L.f_setThreadRngSeed(5);
    step(L, g, t, p);
    mc::transitions();
    same(s, t, o, p, "frame call against parameter-level call", h);
    mc::state(sm::hash(s));
}
// decode, enhance, synthesise by hand
static void by_hand(Lib& L, const Ev& e, State& s, const std::string& hist) {
    State t = s;
    Out o, p;
    L.f_setThreadRngSeed(5);
    step(L, e, s, o);
    char d[88];
    for (int i = 0; i < 88; ++i) d[i] = (char)e.d.b[i];
    t.cur.mutingThreshold = is_imbe(e.path) ? sm::IMBE_MUTE : sm::AMBE_MUTE;
    t.cur.errorCountTotal = e.total;
    t.cur.errorCount4 = 0;
    t.cur.errorRate = sm::snap(0.95 * t.prev.errorRate + (is_imbe(e.path) ? 0.000365 : 0.001064) * e.total, s.cur.errorRate);
    if (is_imbe(e.path)) L.f_decodeImbe4400Parms(d, &t.cur, &t.prev);
    else if (e.path == A2450_D) L.f_decodeAmbe2450Parms(d, &t.cur, &t.prev);
    else L.f_decodeAmbe2400Parms(d, &t.cur, &t.prev);
    t.cur.repeat = t.cur.repeatCount = 0;
    L.f_setThreadRngSeed(5);
    L.f_moveMbeParms(&t.cur, &t.prev);
    L.f_spectralAmpEnhance(&t.cur);
    L.f_synthesizeSpeechf(p.pcm, &t.cur, &t.enh, 3);
    L.f_moveMbeParms(&t.cur, &t.enh);
    memset(p.str, '=', e.total);
    p.str[e.total] = 0;
    mc::transitions(2);
    same(s, t, o, p, "parameter-level call against decode, enhance and synthesise", hist + " > " + e.name);
    mc::state(sm::hash(s));
}
static void check() {
    Lib& L = lib("scalar");
    std::vector<Ev> sets[4];
    for (auto& e : imbe_events(true)) { if (e.path == IMBE72_F) sets[0].push_back(e); if (e.path == IMBE71_F) sets[1].push_back(e); }
    for (int c0 = 0; c0 < 4; ++c0) for (int t = c0; t <= c0 + 8; ++t) { sets[1].push_back(make(IMBE71_F, imbe_bits(20 + 9 * t, -1, 33, t), c0, t, 0, "p")); sets[0].push_back(make(IMBE72_F, imbe_bits(20 + 9 * t, -1, 33, t), c0, t, 0, "p")); }
    for (auto& e : a2450_events(true)) if (e.path == A2450_F) sets[2].push_back(e);
    for (auto& e : a2400_events(true)) if (e.path == A2400_F) sets[3].push_back(e);
    for (int k = 0; k < 4; ++k) {
        auto& ev = sets[k];
        std::string nm = path_name(ev[0].path);
        size_t n = ev.size();
        mc::group((nm + "-sequences").c_str(), n * n, [&](uint64_t i) {
            State s;
            init(L, s);
            compare(L, ev[i / n], s, "start");
            compare(L, ev[i % n], s, "start > " + ev[i / n].name);
            for (size_t a = 0; a < n; ++a) {
                if (!mc::thorough && (a + i) % 3) continue;
                State t = s;
                compare(L, ev[a], t, "start > " + ev[i / n].name + " > " + ev[i % n].name);
                mc::traces();
            }
            if (i == 5) mc::sample("start > %s > %s > each third frame: frame call = stages + parameter call", ev[i / n].name.c_str(), ev[i % n].name.c_str());
        });
        mc::group((nm + "-carried").c_str(), n, [&](uint64_t i) {
            for (float er : {0.f, 0.004f, 0.006f, 0.02f, 0.08f, 0.11f})
                for (int rep = 0; rep < 4; ++rep) {
                    State s;
                    Out o;
                    init(L, s);
                    for (int w = 0; w < 3; ++w) step(L, ev[w], s, o);
                    put_history(s, er, rep);
                    compare(L, ev[i], s, "warm, carried error rate " + std::to_string(er) + ", repeats " + std::to_string(rep));
                    mc::traces();
                }
        });
        // frames with arbitrary contents: the channel stages agree whatever arrives
        Path p = ev[0].path;
        mc::group((nm + "-arbitrary").c_str(), mc::thorough ? 20000 : 2000, [&](uint64_t i) {
            State s;
            init(L, s);
            for (int k2 = 0; k2 < 6; ++k2) {
                uint32_t r[8] = {};
                const uint32_t* m = p == IMBE72_F ? ref::imbe72_mask() : p == IMBE71_F ? ref::imbe71_mask() : ref::ambe_mask();
                int R = p == IMBE72_F ? 8 : p == IMBE71_F ? 7 : 4;
                for (int j = 0; j < R; ++j) r[j] = (uint32_t)mc::mix(i * 77 + k2 * 11 + j) & m[j];
                compare(L, raw(p, r, "arbitrary"), s, "arbitrary frames");
            }
            mc::traces();
        });
        // every single channel bit and every pair of channel bits flipped in one frame
        std::vector<std::pair<int, int>> pos;
        for (int r = 0; r < (p == IMBE72_F ? 8 : p == IMBE71_F ? 7 : 4); ++r) for (int j = 0; j < row_bits(p, r); ++j) pos.push_back({r, j + row_low(p, r)});
        mc::group((nm + "-flips").c_str(), pos.size(), [&](uint64_t i) {
            State s0;
            Out o;
            init(L, s0);
            step(L, ev[1], s0, o);
            for (size_t j = i; j < pos.size(); ++j) {
                Ev e = ev[(i + j) % n];
                e.row[pos[i].first] ^= 1u << pos[i].second;
                if (j != i) e.row[pos[j].first] ^= 1u << pos[j].second;
                derive(e);
                e.name += " with bits " + std::to_string(i) + "," + std::to_string(j) + " flipped";
                State s = s0;
                compare(L, e, s, "one frame");
            }
            mc::traces(pos.size() - i);
        });
    }
    // plain good frames, all sequences of three; every pitch code
    std::vector<Ev> good[3];
    for (int k = 0; k < 14; ++k) {
        good[0].push_back(make(IMBE_D, imbe_bits(k * 16 > 207 ? 207 : k * 16, k % 3 - 1, 20 + k, 50 + k), 0, k % 3, 0, "good" + std::to_string(k)));
        good[1].push_back(make(A2450_D, a2450_bits(k < 12 ? k * 10 : 112 + k, k, 5 + k, 50 + k), 0, k % 3, 0, "good" + std::to_string(k)));
        good[2].push_back(make(A2400_D, a2400_bits(k < 13 ? k * 10 : 125, k, 15 + k, 50 + k), 0, k % 3, 0, "good" + std::to_string(k)));
    }
    for (int k = 0; k < 3; ++k) {
        auto& ev = good[k];
        size_t n = ev.size();
        mc::group(("good-" + std::to_string(k)).c_str(), n * n, [&](uint64_t i) {
            State s;
            init(L, s);
            Out o;
            step(L, ev[0], s, o);
            by_hand(L, ev[i / n], s, "warm");
            by_hand(L, ev[i % n], s, "warm > " + ev[i / n].name);
            for (auto& e : ev) { State t = s; by_hand(L, e, t, "warm > " + ev[i / n].name + " > " + ev[i % n].name); mc::traces(); }
        });
        mc::group(("good-pitch-" + std::to_string(k)).c_str(), k ? 126 : 208, [&](uint64_t b0) {
            if (k == 1 && b0 >= 120 && b0 < 124) return;
            for (int rep = 0; rep < 4; ++rep) {
                State s;
                init(L, s);
                Out o;
                step(L, ev[rep], s, o);
                put_history(s, 0.001f * rep, rep);
                Ev e = k == 0 ? make(IMBE_D, imbe_bits((int)b0, -1, -1, b0), 0, 0, 0, "b0=" + std::to_string(b0)) : k == 1 ? make(A2450_D, a2450_bits((int)b0, -1, -1, b0), 0, 0, 0, "b0=" + std::to_string(b0)) : make(A2400_D, a2400_bits((int)b0, -1, -1, b0), 0, 0, 0, "b0=" + std::to_string(b0));
                if (k == 1) { char q[49]; for (int i = 0; i < 49; ++i) q[i] = (char)e.d.b[i]; ref::Cls c = ref::ambe2450_class(q, -1); if (c == ref::TONE || c == ref::ERASURE) return; }
                by_hand(L, e, s, "warm");
                mc::traces();
            }
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
