// C14: every sample finite and within the soft clip, every carried field finite and in range, after every history.
#include "ranges.hpp"
static const float CLIP = 32767.0f * 0.95f / 7.0f;

static void fstep(Lib& L, const Ev& e, State& s, const std::string& hist, bool s16 = false) {
    Out o;
    step(L, e, s, o, s16);
    mc::transitions();
    std::string r;
    if (s16) { for (int i = 0; i < 160 && r.empty(); ++i) if (o.pcm16[i] > 31128 || o.pcm16[i] < -31128) r = "sample " + std::to_string(i) + " is " + std::to_string(o.pcm16[i]); }
    else for (int i = 0; i < 160 && r.empty(); ++i) if (!(std::fabs(o.pcm[i]) <= CLIP * 1.00001f)) r = "sample " + std::to_string(i) + " is " + std::to_string(o.pcm[i]);
    if (r.empty()) r = bad_model(s.cur, "cur");
    if (r.empty()) r = bad_model(s.prev, "prev");
    if (r.empty()) r = bad_model(s.enh, "prev_enhanced");
    if (!r.empty()) mc::fail("%s build: %s > %s: %s", L.path.substr(L.path.rfind('/') + 1).c_str(), hist.c_str(), e.name.c_str(), r.c_str());
    mc::state(sm::hash(s));
}
static const char* builds[] = {"scalar", "simd", "fast", "release", "clang"};
static std::vector<Ev> alphabet(int codec, bool full) { return codec == 0 ? bounded(imbe_events(full)) : codec == 1 ? bounded(a2450_events(full)) : bounded(a2400_events(full)); }
static void seq(Lib& L, const std::vector<Ev>& ev, const State& s, int depth, const std::string& h) {
    if (!depth) { mc::traces(); return; }
    for (auto& e : ev) { State t = s; fstep(L, e, t, h, depth & 1); seq(L, ev, t, depth - 1, h + " > " + e.name); }
}
static Bits payload(int codec, int b0, int v, int g, uint64_t base) { return codec == 0 ? imbe_bits(b0, v, g, base) : codec == 1 ? a2450_bits(b0, v, g, base) : a2400_bits(b0, v, g, base); }
static void set_b0(int codec, Bits& d, int b0) {
    if (codec == 0) put_bits(d, {0, 1, 2, 3, 4, 5, 85, 86}, b0);
    else if (codec == 1) put_bits(d, {0, 1, 2, 3, 37, 38, 39}, b0);
    else put_bits(d, {0, 1, 2, 3, 4, 5, 48}, b0);
}
static const Path dpath[3] = {IMBE_D, A2450_D, A2400_D};
static const int npitch[3] = {208, 120, 126};

// fixpoint of coordinate ascent over all pairs of payload bits: the payload which, received over and over,
// drives the model energy to its largest (dir > 0) or smallest (dir < 0) value
static Bits extreme(Lib& L, int codec, int b0, int dir, int alt) {
    int nb = codec == 0 ? 88 : 49;
    Bits d = payload(codec, b0, codec == 0 ? 1 : 0, dir > 0 ? 31 : 0, 5 + alt);
    auto eval = [&](const Bits& d) {
        State s;
        init(L, s);
        char c[88];
        for (int i = 0; i < nb; ++i) c[i] = d.b[i];
        for (int k = 0; k < 14; ++k) {
            s.cur.mutingThreshold = s.prev.mutingThreshold;
            int r = codec == 0 ? L.f_decodeImbe4400Parms(c, &s.cur, &s.prev) : codec == 1 ? L.f_decodeAmbe2450Parms(c, &s.cur, &s.prev) : L.f_decodeAmbe2400Parms(c, &s.cur, &s.prev);
            if (r) return -1e9;
            s.prev = s.cur;
        }
        double e = 0;
        for (int l = 1; l <= s.cur.L; ++l) e += s.cur.log2Ml[l] * (dir > 0 ? 1 : -1) + (dir > 0 ? std::pow(2.0, s.cur.log2Ml[l] / 3) : 0);
        return e;
    };
    Bits t = d;
    double v = eval(d);
    bool up = true;
    for (int round = 0; up && round < 12; ++round) {
        up = false;
        for (int i = 0; i < nb; ++i) for (int j = i; j < nb; ++j) {
            Bits e = d;
            e.b[i] ^= 1;
            if (j != i) e.b[j] ^= 1;
            t = e;
            set_b0(codec, t, b0);
            if (memcmp(&t, &e, sizeof e)) continue;
            double w = eval(e);
            mc::transitions();
            if (w > v + 1e-6) { v = w; d = e; up = true; }
        }
    }
    return d;
}
static Bits from_text(const char* s) { Bits d = zero_bits(); for (int i = 0; s[i]; ++i) d.b[i] = s[i] - '0'; return d; }
static const char* loud[3] = {"0100101111111110111111110001101111111101110100001111111111101111111111110111101100001000",
                              "1100000011111110000110100000101101101011011010101", "1110001111111111111110111010111111011011001111111"};

static void drive(int codec, const Bits& d, const std::string& name, bool all) {
    for (const char* b : builds) {
        if (!all && strcmp(b, "scalar") && strcmp(b, "simd")) continue;
        Lib& L = lib(b);
        State s;
        init(L, s);
        Ev e = make(dpath[codec], d, 0, 0, 0, name);
        int n = 40;
        auto ev = alphabet(codec, false);
        for (int k = 0; k < n; ++k) {
            fstep(L, e, s, std::to_string(k) + " x " + name, k & 1);
            if (k < 3 || k == 8 || k == 20 || k == n - 1)
                for (size_t i = 0; i < ev.size(); ++i) {
                    State t = s;
                    std::string h = std::to_string(k + 1) + " x " + name;
                    fstep(L, ev[i], t, h);
                    if (all && (k == n - 1 || mc::thorough))
                        for (size_t j = 0; j < ev.size(); j += mc::thorough ? 1 : 3) { State u = t; fstep(L, ev[(i + j) % ev.size()], u, h + " > " + ev[i].name); mc::traces(); }
                }
            // the same loud frame with every error count the rules still accept, then beyond them
            if (k == n - 1) for (int t = 1; t <= 20; ++t) { Ev f = make(dpath[codec], d, 0, t, 0, name); State u = s; for (int r = 0; r < 8; ++r) fstep(L, f, u, std::to_string(n) + " x " + name + " > " + std::to_string(r) + " x it"); }
        }
    }
}
static void check() {
    for (int c = 0; c < 3; ++c) {
        static std::vector<Ev> small, full;
        small = alphabet(c, false);
        full = alphabet(c, true);
        const char* cn[3] = {"imbe", "ambe2450", "ambe2400"};
        mc::group((std::string("seq-") + cn[c]).c_str(), small.size() * small.size(), [&](uint64_t i) {
            Lib& L = lib(builds[i % 5]);
            State s;
            init(L, s);
            auto &a = small[i / small.size()], &b = small[i % small.size()];
            L.f_setThreadRngSeed((uint32_t)i);
            fstep(L, a, s, "start");
            fstep(L, b, s, "start > " + a.name, true);
            seq(L, small, s, mc::thorough ? 2 : 1, "start > " + a.name + " > " + b.name);
            if (i == 5) mc::sample("start > %s > %s > every continuation: samples and every carried field within range", a.name.c_str(), b.name.c_str());
        });
        // every error count 1..20, n in a row, then every frame
        mc::group((std::string("errors-") + cn[c]).c_str(), 20 * full.size(), [&](uint64_t i) {
            int t = 1 + (int)(i % 20);
            const Ev& b = full[i / 20];
            if (is_frame(b.path)) return;
            for (int w = 0; w < 2; ++w) {
                Lib& L = lib(builds[(i + w) % 5]);
                State s;
                init(L, s);
                Ev e = b;
                e.total = t; e.c0 = t > 3 ? 3 : t;
                e.name = b.name + " with " + std::to_string(t) + " errors";
                if (w) for (int k = 0; k < 6; ++k) fstep(L, small[k], s, "warm-up");
                for (int k = 0; k < (mc::thorough ? 400 : 60); ++k) {
                    fstep(L, e, s, std::to_string(k) + " x it", k & 1);
                    if (k < 6) for (auto& f : small) { State u = s; fstep(L, f, u, std::to_string(k + 1) + " x " + e.name); mc::traces(); }
                }
            }
        });
        // every ordered pair of pitch codes
        int nb0 = c == 0 ? 256 : 128;
        mc::group((std::string("pitches-") + cn[c]).c_str(), nb0, [&](uint64_t a) {
            for (int w = 0; w < 2; ++w) {
                Lib& L = lib(builds[(a + w) % 5]);
                State s;
                init(L, s);
                Ev ea = make(dpath[c], payload(c, (int)a, w ? -1 : 1, w ? -1 : 31, a * 7 + w), 0, 0, 0, "pitch " + std::to_string(a));
                fstep(L, ea, s, "start");
                for (int b = 0; b < nb0; ++b) {
                    State t = s;
                    Ev eb = make(dpath[c], payload(c, b, w ? 1 : -1, w ? -1 : 31, b * 13 + w), 0, b % 3, 0, "pitch " + std::to_string(b));
                    fstep(L, eb, t, "start > " + ea.name);
                    fstep(L, ea, t, "start > " + ea.name + " > " + eb.name, true);
                    mc::traces();
                }
            }
        });
        // payloads that drive the adaptive prediction to its extremes
        int np = npitch[c], step = mc::thorough ? 1 : 2;
        mc::group((std::string("extremes-") + cn[c]).c_str(), (np + step - 1) / step, [&](uint64_t i) {
            int b0 = (int)i * step;
            for (int dir : {1, -1})
                for (int alt = 0; alt < (mc::thorough ? 2 : 1); ++alt) {
                    Bits d = extreme(lib("scalar"), c, b0, dir, alt);
                    char n[64];
                    snprintf(n, sizeof n, "%s payload of pitch %d", dir > 0 ? "loudest" : "quietest", b0);
                    std::string t = n;
                    t += " ";
                    for (int k = 0; k < (c == 0 ? 88 : 49); ++k) t += (char)('0' + d.b[k]);
                    drive(c, d, t, false);
                    if (i == 3 && dir > 0 && alt == 0) mc::sample("%s, repeated 40 times and followed by every frame: in range", t.c_str());
                }
        });
        mc::group((std::string("loud-") + cn[c]).c_str(), 1, [&](uint64_t) { drive(c, from_text(loud[c]), std::string("loudest known payload ") + loud[c], true); });
        // the payloads of every single field at its largest value with every pitch, held
        mc::group((std::string("solid-") + cn[c]).c_str(), nb0 * 4, [&](uint64_t i) {
            Bits d;
            for (int k = 0; k < 88; ++k) d.b[k] = (i & 3) == 0 ? 1 : (i & 3) == 1 ? 0 : (i & 3) == 2 ? k & 1 : (k >> 1) & 1;
            set_b0(c, d, (int)(i >> 2));
            Lib& L = lib(builds[i % 5]);
            State s;
            init(L, s);
            Ev e = make(dpath[c], d, 0, 0, 0, "patterned payload " + std::to_string(i));
            for (int k = 0; k < 60; ++k) fstep(L, e, s, std::to_string(k) + " x it", k % 3 == 2);
        });
    }
    // arbitrary channel frames
    mc::group("arbitrary-frames", mc::thorough ? 40000 : 4000, [&](uint64_t i) {
        Lib& L = lib(builds[i % 5]);
        State s;
        init(L, s);
        static const Path fp[4] = {IMBE72_F, IMBE71_F, A2450_F, A2400_F};
        Path p = fp[(i / 5) % 4];
        std::string h = "start";
        for (int k = 0; k < 10; ++k) {
            uint32_t rows[8];
            for (int r = 0; r < 8; ++r) rows[r] = (uint32_t)mc::mix(i * 1000003 + k * 131 + r) & ((1u << row_bits(p, r)) - 1);
            Ev e = raw(p, rows, "frame" + std::to_string(k));
            if (e.total > 20) continue;
            fstep(L, e, s, h, k & 1);
            h += " > " + e.name;
        }
        mc::traces();
    });
    // frames of all codecs on one state
    static std::vector<Ev> mix;
    for (int c = 0; c < 3; ++c) { auto v = alphabet(c, false); for (size_t i = c; i < v.size(); i += mc::thorough ? 2 : 4) mix.push_back(v[i]); }
    mc::group("seq-mixed", mix.size() * mix.size(), [&](uint64_t i) {
        Lib& L = lib(builds[i % 5]);
        State s;
        init(L, s);
        auto &a = mix[i / mix.size()], &b = mix[i % mix.size()];
        fstep(L, a, s, "start");
        fstep(L, b, s, "start > " + a.name, true);
        seq(L, mix, s, mc::thorough ? 2 : 1, "start > " + a.name + " > " + b.name);
    });
}
int main(int argc, char** argv) { for (auto b : builds) lib(b); return mc::main(argc, argv, check); }
