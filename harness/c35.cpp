// C35: debug logging, the reserved ordering flag and the signedness of char change nothing that a caller receives.
#include <fcntl.h>
#include "sm_events.hpp"

static void lock(Lib& A, Lib& B, const char* bn, const Ev& e, State& sa, State& sb, bool s16, const std::string& hist, uint32_t seed) {
    Out oa, ob;
    memset(&oa, 0x11, sizeof oa); memset(&ob, 0x11, sizeof ob);
    A.f_setThreadRngSeed(seed);
    step(A, e, sa, oa, s16);
    B.f_setThreadRngSeed(seed);
    step(B, e, sb, ob, s16);
    mc::transitions(2);
    auto where = [&] { return std::string(bn) + " build: " + hist + " > " + e.name + (s16 ? " (16-bit)" : ""); };
    oa.str[599] = ob.str[599] = 0;
    if (strcmp(oa.str, ob.str) || oa.errs != ob.errs || oa.errs2 != ob.errs2) mc::fail("%s: status \"%.60s\" (%d,%d), in the plain build \"%.60s\" (%d,%d)", where().c_str(), ob.str, ob.errs, ob.errs2, oa.str, oa.errs, oa.errs2);
    if (memcmp(oa.d, ob.d, sizeof oa.d)) mc::fail("%s: parameter bits differ from the plain build", where().c_str());
    for (int i = 0; i < 160; ++i) {
        double x = s16 ? ob.pcm16[i] : ob.pcm[i], w = s16 ? oa.pcm16[i] : oa.pcm[i];
        if (x != w) mc::fail("%s: sample %d is %.9g, in the plain build %.9g", where().c_str(), i, x, w);
    }
    if (memcmp(&sa, &sb, sizeof sa)) { std::string d = sm::diff(sb, sa); mc::fail("%s: state differs from the plain build: %s", where().c_str(), d.empty() ? "unnamed field" : d.c_str()); }
    mc::state(sm::hash(sb));
}
static std::vector<Ev> alphabet(int codec, bool full) {
    if (codec < 3) return codec == 0 ? imbe_events(full) : codec == 1 ? a2450_events(full) : a2400_events(full);
    std::vector<Ev> mix;
    for (int c = 0; c < 3; ++c) { auto v = alphabet(c, false); for (size_t i = c; i < v.size(); i += 3) mix.push_back(v[i]); }
    return mix;
}
static void check() {
    static const struct { const char *ref, *name; } builds[] = {{"scalar", "debuglog"}, {"scalar", "strict"}, {"scalar", "uchar"}, {"simd", "debuglogsimd"}, {"simd", "strictsimd"}, {"simd", "ucharsimd"}};
    static const char* cn[4] = {"imbe", "ambe2450", "ambe2400", "mixed"};
    int nb = 0;
    for (auto& b : builds) {
        Lib &A = lib(b.ref), &B = lib(b.name);
        int part = mc::thorough ? 1 : nb++ < 3 ? 2 : 9;
        std::string pre = std::string(b.name) + "-";
        const char* nm = b.name;
        for (int c = 0; c < 4; ++c) {
            static std::vector<Ev> ev;
            ev = alphabet(c, false);
            size_t n = ev.size();
            mc::group((pre + "seq-" + cn[c]).c_str(), n * n, [&](uint64_t i) {
                State sa, sb;
                init(A, sa); init(B, sb);
                lock(A, B, nm, ev[i / n], sa, sb, i & 1, "start", 1);
                lock(A, B, nm, ev[i % n], sa, sb, i & 2, "start > " + ev[i / n].name, 2);
                std::string h = "start > " + ev[i / n].name + " > " + ev[i % n].name;
                for (size_t k = i % part; k < n; k += part) {
                    State x = sa, y = sb;
                    lock(A, B, nm, ev[k], x, y, k & 1, h, 3);
                    if (mc::thorough && (i + k) % 4 == 0) for (auto& e : ev) { State u = x, w = y; lock(A, B, nm, e, u, w, i & 4, h + " > " + ev[k].name, 4); }
                    mc::traces();
                }
                if (i == 11) mc::sample("%s: start > %s > %s > following frames, in both builds", nm, ev[i / n].name.c_str(), ev[i % n].name.c_str());
            });
        }
        // every pitch code of each codec, patterned payloads, with errors
        mc::group((pre + "payloads").c_str(), 256 * 3, [&](uint64_t i) {
            if (nb > 3 && !mc::thorough && i % 3) return;
            int b0 = (int)(i % 256), codec = (int)(i / 256);
            if (codec && b0 > 127) return;
            State sa, sb;
            init(A, sa); init(B, sb);
            int k = 0;
            for (int g : {0, 9, 31, 20, 5}) {
                Bits d = codec == 0 ? imbe_bits(b0, g & 1 ? -1 : g & 2 ? 1 : 0, g * 2, (uint32_t)(i + g)) : codec == 1 ? a2450_bits(b0, g, g, (uint32_t)(i + g)) : a2400_bits(b0, g & 15, g, (uint32_t)(i + g));
                lock(A, B, nm, make(codec == 0 ? IMBE_D : codec == 1 ? A2450_D : A2400_D, d, 0, g % 7, 0, "b0=" + std::to_string(b0)), sa, sb, k & 1, "payload " + std::to_string(k), 9 + k);
                lock(A, B, nm, make(codec == 0 ? g & 1 ? IMBE71_F : IMBE72_F : codec == 1 ? A2450_F : A2400_F, d, g % 3, g % 3 + g % 2, 0, "b0=" + std::to_string(b0)), sa, sb, k & 2, "payload " + std::to_string(k), 9 + k);
                k++;
            }
            mc::traces();
        });
        // the parameter decoders by themselves: every pitch and tone code, from fresh, running and repeating states
        mc::group((pre + "decoders").c_str(), 256, [&](uint64_t i) {
            static std::vector<Ev> warm[3] = {alphabet(0, false), alphabet(1, false), alphabet(2, false)};
            for (int from = 0; from < (nb > 3 && !mc::thorough ? 1 : 4); ++from)
                for (uint64_t r = 0; r < 8; ++r) {
                    Bits b[5] = {imbe_bits((int)i, (int)(r % 3) - 1, (int)(r * 9 % 64), i * 8 + r), a2450_bits((int)(i & 127), (int)(r * 5 & 31), (int)(r * 3 + i) % 32, i * 8 + r), a2400_bits((int)(i & 127), (int)(r & 15), (int)(r * 9), i * 8 + r), a2450_tone((int)i, (int)r * 16 + 5, r & 1), a2400_tone((int)i, r)};
                    for (int k = 0; k < 5; ++k) {
                        State s;
                        init(A, s);
                        Out o;
                        int codec = k < 3 ? k : k - 2;
                        for (int w = 0; w < from; ++w) step(A, warm[codec][(i * 5 + r + w * 11) % warm[codec].size()], s, o);
                        if (from == 3) put_history(s, 0.05f, (int)(r % 4));
                        State t = s;
                        char d[96], e[96];
                        for (int j = 0; j < 96; ++j) d[j] = e[j] = j < 88 ? (char)b[k].b[j] : 0;
                        auto dec = [&](Lib& L, char* x, State& u) { return k == 0 ? L.f_decodeImbe4400Parms(x, &u.cur, &u.prev) : k == 1 || k == 3 ? L.f_decodeAmbe2450Parms(x, &u.cur, &u.prev) : L.f_decodeAmbe2400Parms(x, &u.cur, &u.prev); };
                        int ra = dec(A, d, s), rb = dec(B, e, t);
                        mc::transitions(2);
                        if (ra != rb) mc::fail("%s build: decoding parameters with code %d (kind %d) from state %d returns %d, in the plain build %d", nm, (int)i, k, from, rb, ra);
                        if (memcmp(d, e, sizeof d)) mc::fail("%s build: decoding parameters with code %d (kind %d) changes other bits than in the plain build", nm, (int)i, k);
                        if (memcmp(&s, &t, sizeof s)) { std::string x = sm::diff(t, s); mc::fail("%s build: decoding parameters with code %d (kind %d) from state %d leaves another state than the plain build: %s", nm, (int)i, k, from, x.empty() ? "unnamed field" : x.c_str()); }
                        // what follows from it: enhancement, smoothing, synthesis of the decoded model
                        Out p;
                        for (Lib* L : {&A, &B}) {
                            State& u = L == &A ? s : t;
                            L->f_spectralAmpEnhance(&u.cur);
                            L->f_applyAdaptiveSmoothing(&u.cur, &u.prev);
                            L->f_setThreadRngSeed(5);
                            L->f_synthesizeSpeechf(L == &A ? o.pcm : p.pcm, &u.cur, &u.enh, 3);
                            mc::transitions(3);
                        }
                        if (memcmp(&s, &t, sizeof s) || memcmp(o.pcm, p.pcm, sizeof p.pcm)) mc::fail("%s build: enhancing, smoothing and synthesising the model of code %d (kind %d) differs from the plain build", nm, (int)i, k);
                    }
                }
            mc::traces();
        });
        mc::group((pre + "long").c_str(), 24, [&](uint64_t k) {
            auto ev = alphabet(3, false);
            State sa, sb;
            init(A, sa); init(B, sb);
            for (int i = 0; i < (mc::thorough ? 5000 : 400); ++i) lock(A, B, nm, ev[(i * (k + 1) + i / 7) % ev.size()], sa, sb, i & 1, "frame " + std::to_string(i) + " of mixed stream " + std::to_string(k), i + 1);
            mc::traces();
        });
        // the code primitives and the frame stages on arbitrary words
        mc::group((pre + "stages").c_str(), 256, [&](uint64_t i) {
            for (uint64_t r = 0; r < (mc::thorough ? 400 : 60); ++r) {
                char in[32], a[4][32], b[4][32];
                uint64_t w = mc::mix(i * 1000 + r + 1);
                for (int k = 0; k < 32; ++k) in[k] = (char)(w >> k & 1);
                memset(a, 7, sizeof a); memset(b, 7, sizeof b);
                long ga = (long)(w & 0x7fffff), gb = ga;
                A.f_checkGolayBlock(&ga); B.f_checkGolayBlock(&gb);
                int ra = A.f_golay2312(in, a[0]) + 100 * A.f_hamming1511(in, a[1]) + 10000 * A.f_7100x4400hamming1511(in, a[2]);
                int rb = B.f_golay2312(in, b[0]) + 100 * B.f_hamming1511(in, b[1]) + 10000 * B.f_7100x4400hamming1511(in, b[2]);
                if (ga != gb || ra != rb || memcmp(a, b, sizeof a)) mc::fail("%s build: error correction of word %016llx differs from the plain build", nm, (unsigned long long)w);
                struct Fr { char f4[4][24], f8[8][23], f7[7][24], d[3][96]; int n[6]; } x, y;
                memset(&x, 0, sizeof x);
                for (size_t k = 0; k < sizeof x.f4; ++k) (&x.f4[0][0])[k] = (char)(mc::mix(w + k) & 1);
                for (size_t k = 0; k < sizeof x.f8; ++k) (&x.f8[0][0])[k] = (char)(mc::mix(w + 200 + k) & 1);
                for (size_t k = 0; k < sizeof x.f7; ++k) (&x.f7[0][0])[k] = (char)(mc::mix(w + 600 + k) & 1);
                y = x;
                auto run = [&](Lib& L, Fr& f) {
                    f.n[0] = L.f_eccAmbe3600x2450C0(f.f4); L.f_demodulateAmbe3600x2450Data(f.f4); f.n[1] = L.f_eccAmbe3600x2450Data(f.f4, f.d[0]);
                    f.n[2] = L.f_eccImbe7200x4400C0(f.f8); L.f_demodulateImbe7200x4400Data(f.f8); f.n[3] = L.f_eccImbe7200x4400Data(f.f8, f.d[1]);
                    f.n[4] = L.f_eccImbe7100x4400C0(f.f7); L.f_demodulateImbe7100x4400Data(f.f7); f.n[5] = L.f_eccImbe7100x4400Data(f.f7, f.d[2]); L.f_convertImbe7100to7200(f.d[2]);
                };
                run(A, x); run(B, y);
                if (memcmp(&x, &y, sizeof x)) mc::fail("%s build: the frame stages on arbitrary frame %llu differ from the plain build", nm, (unsigned long long)(i * 1000 + r));
                mc::transitions(2);
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) {
    for (auto x : {"scalar", "simd", "debuglog", "debuglogsimd", "strict", "strictsimd", "uchar", "ucharsimd"}) lib(x);
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) dup2(n, 2);
    return mc::main(c, v, check);
}
