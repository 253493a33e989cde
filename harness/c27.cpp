// C27: a build with tone output disabled is silent on tone frames and identical on everything else.
#include "sm_events.hpp"

static bool is_tone(const Ev& e, const Out& o) {
    char d[49];
    if (is_imbe(e.path)) return false;
    for (int i = 0; i < 49; ++i) d[i] = (char)e.d.b[i];
    if (e.path == A2450_D || e.path == A2450_F) return ref::ambe2450_class(d, e.total) == ref::TONE && a2450_tone_valid(a2450_tone_id(e.d.b));
    int b0 = ref::bits(d, {0, 1, 2, 3, 4, 5, 48}), idx = ref::ambe2400_tone_index(d);
    return b0 >= 126 && idx >= 5 && idx <= 122 && e.c0 < 2 && e.total < 3;
}
// the tone oscillators are the only state a played tone advances
static void mask(State& s) { for (mbe_parms* m : {&s.cur, &s.prev, &s.enh}) m->swn = m->un = 0; }
static void lock(Lib& A, Lib& B, const Ev& e, State& sa, State& sb, bool s16, const std::string& hist, uint32_t seed) {
    Out oa, ob;
    memset(&oa, 0x11, sizeof oa); memset(&ob, 0x22, sizeof ob);
    A.f_setThreadRngSeed(seed);
    step(A, e, sa, oa, s16);
    B.f_setThreadRngSeed(seed);
    step(B, e, sb, ob, s16);
    mc::transitions(2);
    auto where = [&] { return hist + " > " + e.name + (s16 ? " (16-bit)" : ""); };
    oa.str[599] = ob.str[599] = 0;
    if (strcmp(oa.str, ob.str) || oa.errs != ob.errs || oa.errs2 != ob.errs2) mc::fail("%s: status \"%.60s\" (%d,%d), with tones \"%.60s\" (%d,%d)", where().c_str(), ob.str, ob.errs, ob.errs2, oa.str, oa.errs, oa.errs2);
    if (memcmp(oa.d, ob.d, nbits(e.path))) mc::fail("%s: parameter bits differ from the normal build", where().c_str());
    bool tone = is_tone(e, oa);
    for (int i = 0; i < 160; ++i) {
        double x = s16 ? ob.pcm16[i] : ob.pcm[i], w = s16 ? oa.pcm16[i] : oa.pcm[i];
        if (tone) { if (x != 0) mc::fail("%s: a tone frame has sample %d = %g in the build without tones", where().c_str(), i, x); }
        else if (x != w) mc::fail("%s: sample %d is %.9g, in the normal build %.9g", where().c_str(), i, x, w);
    }
    State ma = sa, mb = sb;
    mask(ma); mask(mb);
    if (memcmp(&ma, &mb, sizeof ma)) { std::string d = sm::diff(mb, ma); mc::fail("%s: state differs from the normal build: %s", where().c_str(), d.empty() ? "unnamed field" : d.c_str()); }
    mc::state(sm::hash(sb));
}
static std::vector<Ev> alphabet(int codec, bool full) {
    if (codec < 3) return codec == 0 ? imbe_events(full) : codec == 1 ? a2450_events(full) : a2400_events(full);
    std::vector<Ev> mix;
    for (int c = 0; c < 3; ++c) { auto v = alphabet(c, false); for (size_t i = c; i < v.size(); i += 3) mix.push_back(v[i]); }
    return mix;
}
static void tree(Lib& A, Lib& B, const std::vector<Ev>& ev, const State& sa, const State& sb, int depth, const std::string& h) {
    if (!depth) { mc::traces(); return; }
    for (auto& e : ev) { State x = sa, y = sb; lock(A, B, e, x, y, depth & 1, h, 7 + depth); tree(A, B, ev, x, y, depth - 1, h + " > " + e.name); }
}
static void check() {
    for (int simd = 0; simd < 2; ++simd) {
        Lib &A = lib(simd ? "simd" : "scalar"), &B = lib(simd ? "notonessimd" : "notones");
        static const char* cn[4] = {"imbe", "ambe2450", "ambe2400", "mixed"};
        std::string v = simd ? "simd-" : "scalar-";
        for (int c = 0; c < 4; ++c) {
            static std::vector<Ev> ev;
            ev = alphabet(c, false);
            size_t n = ev.size();
            if (c == 0 && simd && !mc::thorough) continue;
            mc::group((v + "seq-" + cn[c]).c_str(), n * n, [&](uint64_t i) {
                if (simd && !mc::thorough && i % 3) return;
                State sa, sb;
                init(A, sa); init(B, sb);
                lock(A, B, ev[i / n], sa, sb, i & 1, "start", 1);
                lock(A, B, ev[i % n], sa, sb, i & 2, "start > " + ev[i / n].name, 2);
                tree(A, B, ev, sa, sb, mc::thorough && !simd ? 2 : 1, "start > " + ev[i / n].name + " > " + ev[i % n].name);
                if (!simd && i == 11) mc::sample("%s > %s > every frame, in both builds", ev[0].name.c_str(), ev[11 % n].name.c_str());
            });
        }
        // every tone word of both rates at every level, over a voice history and twice in a row
        mc::group((v + "tones").c_str(), 256, [&](uint64_t id) {
            for (int ad = 0; ad < 128; ad += mc::thorough ? 1 : 9)
                for (int alt = 0; alt < 2; ++alt) {
                    State sa, sb;
                    init(A, sa); init(B, sb);
                    Ev vo = make(A2450_D, a2450_bits((int)(id * 3 + ad) % 120, -1, 15, id), 0, 0, 0, "voice"), im = make(A2400_D, a2400_bits((int)(id + ad) % 126, -1, 30, id), 0, 0, 0, "voice");
                    std::string h = "tone " + std::to_string(id) + " level " + std::to_string(ad);
                    lock(A, B, vo, sa, sb, false, h, 1);
                    for (int t : {0, 2, 6}) lock(A, B, make(A2450_D, a2450_tone((int)id, ad, alt), 0, t, 0, "tone"), sa, sb, alt, h, 2);
                    lock(A, B, vo, sa, sb, true, h, 3);
                    for (int t : {0, 2, 3}) lock(A, B, make(A2400_D, a2400_tone((int)id, ad), 0, t, 0, "D-STAR tone"), sa, sb, alt, h, 4);
                    lock(A, B, im, sa, sb, false, h, 5);
                    mc::traces();
                }
        });
        mc::group((v + "long").c_str(), 24, [&](uint64_t k) {
            auto ev = alphabet(3, false);
            State sa, sb;
            init(A, sa); init(B, sb);
            for (int i = 0; i < (mc::thorough ? 4000 : 600); ++i) lock(A, B, ev[(i * (k + 1) + i / 7) % ev.size()], sa, sb, i & 1, "frame " + std::to_string(i) + " of mixed stream " + std::to_string(k), i + 1);
            mc::traces();
        });
        // the tone generators themselves
        mc::group((v + "generators").c_str(), 256, [&](uint64_t id) {
            for (int ad : {0, 5, 127}) {
                Bits b = a2450_tone((int)id, ad);
                char d[49];
                for (int i = 0; i < 49; ++i) d[i] = (char)b.b[i];
                State s;
                init(B, s);
                float o[160];
                for (int k = 0; k < 2; ++k) {
                    memset(o, 0x55, sizeof o);
                    if (k) B.f_synthesizeTonefdstar(o, d, &s.cur, (int)id); else B.f_synthesizeTonef(o, d, &s.cur);
                    mc::transitions();
                    for (int i = 0; i < 160; ++i) if (o[i] != 0) mc::fail("tone generator %d, index %d, level %d: sample %d is %g in the build without tones", k, (int)id, ad, i, o[i]);
                }
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) { for (auto x : {"scalar", "notones", "simd", "notonessimd"}) lib(x); return mc::main(c, v, check); }
