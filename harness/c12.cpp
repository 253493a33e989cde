// C12: every call writes exactly its documented outputs and nothing else, whatever was in the buffers.
#include "sm_events.hpp"
#include <climits>

// One buffer alone on its own pages: ends at (hi) or starts after (lo) an unmapped page.
struct Guard {
    char* base = nullptr;
    size_t pages = 0;
    char* at(size_t n, bool hi) {
        if (!base) {
            pages = 4;
            base = (char*)mmap(nullptr, (pages + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(base + 4096, pages * 4096, PROT_READ | PROT_WRITE);
        }
        return hi ? base + 4096 + pages * 4096 - n : base + 4096;
    }
    void ro(bool on) { mprotect(base + 4096, pages * 4096, on ? PROT_READ : PROT_READ | PROT_WRITE); }
    void fill(int c) { memset(base + 4096, c, pages * 4096); }
};
struct Pads { Guard aout, str, d, fr, e1, e2, c, p, q; };
static Pads& pads() { static Pads x; return x; }

struct Res { float f[160]; short s[160]; std::string str; State st; int e1, e2; char d[88]; };

static void call(Lib& L, const Ev& e, const State& in, bool hi, bool s16, int uvq, int junk, Res& r, const std::string& hist) {
    Pads& g = pads();
    for (Guard* x : {&g.aout, &g.str, &g.d, &g.fr, &g.e1, &g.e2, &g.c, &g.p, &g.q}) { x->at(8, hi); x->ro(false); }
    size_t na = s16 ? 320 : 640, nd = nbits(e.path), nf = e.path == IMBE72_F ? 184 : e.path == IMBE71_F ? 168 : 96;
    size_t ns = (size_t)(e.total > 0 ? e.total : 0) + 3;
    char *ao = g.aout.at(na, hi), *str = g.str.at(ns, hi), *d = g.d.at(nd, hi), *fr = g.fr.at(nf, hi);
    int *e1 = (int*)g.e1.at(4, hi), *e2 = (int*)g.e2.at(4, hi);
    mbe_parms *c = (mbe_parms*)g.c.at(sizeof *c, hi), *p = (mbe_parms*)g.p.at(sizeof *p, hi), *q = (mbe_parms*)g.q.at(sizeof *q, hi);
    g.aout.fill(junk); g.str.fill(junk); g.d.fill(is_frame(e.path) ? junk : 0);
    *c = in.cur; *p = in.prev; *q = in.enh;
    bool fp = is_frame(e.path);
    if (fp) { fill_frame(e, fr, 0); *e1 = *e2 = junk * 0x1010101; }
    else { for (size_t i = 0; i < nd; ++i) d[i] = (char)e.d.b[i]; *e1 = e.c0; *e2 = e.total; g.d.ro(true); g.e1.ro(true); g.e2.ro(true); }
    typedef char F24[4][24]; typedef char F72[8][23]; typedef char F71[7][24];
    L.f_setThreadRngSeed(77);
#define D_(fn) do { if (s16) L.f_##fn((short*)ao, e1, e2, str, d, c, p, q, uvq); else L.f_##fn##f((float*)ao, e1, e2, str, d, c, p, q, uvq); } while (0)
#define F_(fn, T) do { if (s16) L.f_##fn((short*)ao, e1, e2, str, *(T*)fr, d, c, p, q, uvq); else L.f_##fn##f((float*)ao, e1, e2, str, *(T*)fr, d, c, p, q, uvq); } while (0)
    switch (e.path) {
        case IMBE_D: D_(processImbe4400Data); break;
        case A2450_D: D_(processAmbe2450Data); break;
        case A2400_D: D_(processAmbe2400Data); break;
        case IMBE72_F: F_(processImbe7200x4400Frame, F72); break;
        case IMBE71_F: F_(processImbe7100x4400Frame, F71); break;
        case A2450_F: F_(processAmbe3600x2450Frame, F24); break;
        case A2400_F: F_(processAmbe3600x2400Frame, F24); break;
        default: break;
    }
    mc::transitions();
    auto where = [&] { return hist + " > " + e.name + (s16 ? " (16-bit)" : " (float)"); };
    if (*e2 != e.total || (fp && *e1 != e.c0)) mc::fail("%s: counts are (%d,%d), the frame carries (%d,%d)", where().c_str(), *e1, *e2, e.c0, e.total);
    // bytes of the pads outside the buffers stay as they were
    auto clean = [&](Guard& x, const char* b, size_t n, int v, const char* what) {
        for (char* k = x.base + 4096; k < x.base + 4096 * (1 + x.pages); ++k)
            if ((k < b || k >= b + n) && *k != (char)v) mc::fail("%s: a byte %ld outside %s was written", where().c_str(), (long)(k < b ? k - b : k - b - (long)n), what);
    };
    clean(g.aout, ao, na, junk, "the sample buffer");
    clean(g.str, str, ns, junk, "the status trace");
    clean(g.d, d, nd, fp ? junk : 0, "the parameter bits");
    size_t len = strnlen(str, ns);
    if (len == ns) mc::fail("%s: the status trace is not terminated within errs2+3 bytes", where().c_str());
    r.str = str;
    if ((int)r.str.find_first_not_of('=') != (len == (size_t)e.total ? -1 : e.total)) mc::fail("%s: trace \"%s\" does not begin with exactly %d '='", where().c_str(), str, e.total);
    std::string tail = r.str.substr(e.total);
    bool ok = is_imbe(e.path) ? (tail == "" || tail == "R" || tail == "M" || tail == "RM") : (tail == "" || tail == "R" || tail == "RM" || tail == "E" || tail == "T");
    if (!ok) mc::fail("%s: trace \"%s\" ends in an undocumented marker sequence", where().c_str(), str);
    if (s16) memcpy(r.s, ao, na); else memcpy(r.f, ao, na);
    r.st.cur = *c; r.st.prev = *p; r.st.enh = *q;
    r.e1 = *e1; r.e2 = *e2;
    memcpy(r.d, d, nd);
    for (size_t i = 0; i < nd; ++i) if (d[i] != (char)e.d.b[i]) mc::fail("%s: parameter bit %zu is %d after the call, the frame carries %d", where().c_str(), i, d[i], e.d.b[i]);
}
// all forms of one call from one state agree; the state afterwards is returned
static State forms(Lib& L, const Ev& e, const State& s, const std::string& hist, uint64_t salt) {
    static const int uv[] = {3, 0, 1, -1, 64, 65, 1000, INT_MAX, INT_MIN}, fills[] = {0x7f, 0x00, 0x22, 0xff, 0x5a};
    Res base, r;
    int q0 = uv[salt % 9], q1 = uv[(salt + 1 + salt / 9 % 8) % 9], j0 = fills[salt / 2 % 5], j1 = fills[(salt / 2 + 1 + salt % 4) % 5];
    call(L, e, s, true, false, q0, j0, base, hist);
    call(L, e, s, false, false, q1, j1, r, hist);
    if (memcmp(base.f, r.f, sizeof r.f)) mc::fail("%s > %s: samples depend on the quality argument (%d, %d) or on the previous contents of the buffers", hist.c_str(), e.name.c_str(), q0, q1);
    if (memcmp(&base.st, &r.st, sizeof r.st) || r.str != base.str) mc::fail("%s > %s: state or trace depends on the quality argument (%d, %d) or on buffer contents", hist.c_str(), e.name.c_str(), q0, q1);
    Res a, b;
    call(L, e, s, true, true, q1, j1, a, hist);
    call(L, e, s, false, true, q0, j0, b, hist);
    if (memcmp(a.s, b.s, sizeof a.s) || memcmp(&a.st, &b.st, sizeof a.st) || a.str != b.str) mc::fail("%s > %s: the 16-bit form depends on the quality argument (%d, %d) or on buffer contents", hist.c_str(), e.name.c_str(), q1, q0);
    if (a.str != base.str || memcmp(&a.st, &base.st, sizeof a.st)) mc::fail("%s > %s: the 16-bit form leaves another trace or state than the float form", hist.c_str(), e.name.c_str());
    mc::state(mc::hash(base.f, sizeof base.f, sm::hash(base.st)));
    return base.st;
}
static void tree(Lib& L, const std::vector<Ev>& ev, const State& s, int depth, const std::string& h, uint64_t salt) {
    if (!depth) { mc::traces(); return; }
    for (size_t i = 0; i < ev.size(); ++i) { State t = forms(L, ev[i], s, h, salt + i); tree(L, ev, t, depth - 1, h + " > " + ev[i].name, salt * 7 + i); }
}
static void check() {
    for (const char* variant : {"scalar", "simd"}) {
        Lib& L = lib(variant);
        std::vector<Ev> sets[3] = {imbe_events(true), a2450_events(true), a2400_events(true)};
        for (int t : {0, 1, 2, 37, 60, 128}) {
            sets[0].push_back(make(IMBE_D, imbe_bits(80, 1, 30, 5), 0, t, 0, "count"));
            sets[1].push_back(make(A2450_D, a2450_bits(30, 2, 9, 5), 0, t, 0, "count"));
            sets[2].push_back(make(A2400_D, a2400_bits(30, 2, 9, 5), 0, t, 0, "count"));
        }
        for (int k = 0; k < 3; ++k) {
            std::string g = std::string(variant) + "-" + (k == 0 ? "imbe" : k == 1 ? "ambe2450" : "ambe2400");
            auto& ev = sets[k];
            mc::group((g + "-sequences").c_str(), ev.size(), [&](uint64_t i) {
                State s;
                init(L, s);
                s = forms(L, ev[i], s, g + " start", i);
                tree(L, ev, s, mc::thorough ? 2 : 1, g + " start > " + ev[i].name, i);
                if (i == 3) mc::sample("%s: start > %s > every frame, in both sample formats, two buffer placements, three fills, quality 3 and others", g.c_str(), ev[i].name.c_str());
            });
            // deep repeats and high error rates: five bad frames, then everything
            mc::group((g + "-impaired").c_str(), 48, [&](uint64_t i) {
                State s;
                init(L, s);
                for (int n = 0; n < 2 + (int)(i % 6); ++n) s = forms(L, ev[(i / 6) * 3 % ev.size()], s, g + " run", n);
                put_history(s, (i & 1) ? 0.2f : 0.0f, (int)(i % 4));
                for (auto& e : ev) { forms(L, e, s, g + " impaired", i); mc::traces(); }
            });
        }
        // synthesis entry points: exactly 160 samples, inputs untouched
        mc::group((std::string(variant) + "-synthesis").c_str(), 64, [&](uint64_t i) {
            Pads& g = pads();
            static char first[9][640];
            for (int hi = 0; hi < 2; ++hi)
                for (int junk : {0x00, 0x7f, 0xff})
                    for (int fn = 0; fn < 9; ++fn) {
                        for (Guard* x : {&g.aout, &g.d, &g.c, &g.p, &g.fr}) { x->at(8, hi); x->ro(false); }
                        bool s16 = fn & 1;
                        if (fn == 8) s16 = true;
                        size_t na = s16 ? 320 : 640;
                        char *ao = g.aout.at(na, hi), *d = g.d.at(49, hi);
                        g.aout.fill(junk);
                        Bits t = a2450_tone((int)(i * 4 + fn) & 255, 99);
                        for (int k = 0; k < 49; ++k) d[k] = (char)t.b[k];
                        g.d.ro(true);
                        mbe_parms *c = (mbe_parms*)g.c.at(sizeof *c, hi), *p = (mbe_parms*)g.p.at(sizeof *p, hi);
                        State s;
                        init(L, s);
                        Out o;
                        L.f_setThreadRngSeed(9);
                        for (int k = 0; k < 3; ++k) step(L, sets[0][(i + k) % sets[0].size()], s, o);
                        *c = s.cur; *p = s.enh;
                        float* in = (float*)g.fr.at(640, hi);
                        for (int k = 0; k < 160; ++k) in[k] = (float)((k * 37 + i) % 9000) - 4500.f;
                        const char* name = "";
                        L.f_setThreadRngSeed(3);
                        switch (fn) {
                            case 0: name = "synthesizeSpeechf"; L.f_synthesizeSpeechf((float*)ao, c, p, (int)i); break;
                            case 1: name = "synthesizeSpeech"; L.f_synthesizeSpeech((short*)ao, c, p, (int)i); break;
                            case 2: name = "synthesizeTonef"; L.f_synthesizeTonef((float*)ao, d, c); break;
                            case 3: name = "synthesizeSilence"; L.f_synthesizeSilence((short*)ao); break;
                            case 4: name = "synthesizeSilencef"; L.f_synthesizeSilencef((float*)ao); break;
                            case 5: name = "synthesizeComfortNoise"; L.f_synthesizeComfortNoise((short*)ao); break;
                            case 6: name = "synthesizeTonefdstar"; L.f_synthesizeTonefdstar((float*)ao, d, c, (int)(5 + i)); break;
                            case 7: name = "floattoshort"; g.fr.ro(true); L.f_floattoshort(in, (short*)ao); break;
                            case 8: name = "synthesizeComfortNoise"; L.f_synthesizeComfortNoise((short*)ao); break;
                        }
                        mc::transitions();
                        for (char* k = g.aout.base + 4096; k < g.aout.base + 4096 * 5; ++k)
                            if ((k < ao || k >= ao + na) && *k != (char)junk) mc::fail("%s wrote outside its 160 samples", name);
                        
                        if (hi == 0 && junk == 0) memcpy(first[fn], ao, na);
                        else if (memcmp(first[fn], ao, na)) mc::fail("%s leaves some of its 160 samples unwritten or depends on old buffer contents", name);
                    }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
