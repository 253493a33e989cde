// C29: one state fed by frames of several codecs, in every order.
#include "sm_events.hpp"
static void check() {
    Lib &A = lib("scalar"), &B = lib("scalar2");
    std::vector<Ev> ev;
    auto add = [&](std::vector<Ev> v, std::initializer_list<const char*> names) {
        for (const char* n : names) {
            bool hit = false;
            for (auto& e : v) if (e.name == n) { ev.push_back(e); hit = true; break; }
            if (!hit) { fprintf(stderr, "no event %s\n", n); exit(2); }
        }
    };
    add(imbe_events(true), {"imbe-data:voiced(0,0,0)", "imbe-data:L56(0,6,0)", "imbe7200:L56(3,14,1)", "imbe7200:b0=208(0,0,0)", "imbe-data:voiced(0,15,0)"});
    add(a2450_events(true), {"ambe2450-data:voice-L56(0,0,0)", "ambe2450-data:voice-mid(0,12,0)", "ambe2450-data:erasure120(0,0,0)", "ambe2450-data:tone-dtmf(0,0,0)", "ambe2450-data:tone-bad-0(0,0,0)"});
    add(a2400_events(true), {"ambe2400-data:voice-L9(0,0,0)", "ambe2400-data:voice-mid(0,9,0)", "ambe2400-data:tone40(0,0,0)", "ambe2400-data:tone-bad0(0,0,0)"});
    size_t n = ev.size();
    int depth = mc::thorough ? 5 : 4;
    mc::group("orders", n * n, [&](uint64_t i) {
        State s;
        init(A, s);
        sm::judge(A, B, ev[i / n], s, 41, "start");
        sm::judge(A, B, ev[i % n], s, 42, "start > " + ev[i / n].name);
        sm::tree(A, B, ev, s, depth - 2, 50, "start > " + ev[i / n].name + " > " + ev[i % n].name);
        if (i == 40) mc::sample("start > %s > %s > all continuations of %d frames", ev[i / n].name.c_str(), ev[i % n].name.c_str(), depth - 2);
    });
    // long run of one codec's frame, then every pair: repeats and error rate built up under one codec, judged under another
    int burst = mc::thorough ? 70 : 16;
    mc::group("handover", n * burst, [&](uint64_t i) {
        int len = 1 + (int)(i % burst);
        if (!mc::thorough && len > 8) len = 8 + (len - 8) * 7;
        State s;
        init(A, s);
        const Ev& e = ev[i / burst];
        std::string h = std::to_string(len) + " x " + e.name;
        for (int k = 0; k < len; ++k) sm::judge(A, B, e, s, 60 + k, h);
        for (const Ev& f : ev) {
            State t = s;
            sm::judge(A, B, f, t, 200, h);
            for (const Ev& g : ev) { State u = t; sm::judge(A, B, g, u, 201, h + " > " + f.name); }
        }
        mc::traces(n * n);
    });
    // high error rates carried across the handover
    mc::group("carried-rate", n * n, [&](uint64_t i) {
        for (float er : {0.05f, 0.0874f, 0.0925f, 0.0955f, 0.0962f, 0.2f})
            for (int rep = 0; rep <= 4; ++rep) {
                if (rep == 4 && !is_imbe(ev[i / n].path)) continue;
                State s;
                init(A, s);
                sm::judge(A, B, ev[i / n], s, 60, "start");
                put_history(s, er, rep);
                char t[160];
                snprintf(t, sizeof t, "%s, carried error rate %.9g, %d repeats", ev[i / n].name.c_str(), er, rep);
                sm::judge(A, B, ev[i % n], s, 61, t);
                for (const Ev& g : ev) { State u = s; sm::judge(A, B, g, u, 62, std::string(t) + " > " + ev[i % n].name); }
                mc::traces(n);
            }
    });
}
int main(int c, char** v) { return mc::main(c, v, check); }
