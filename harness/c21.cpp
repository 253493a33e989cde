// C21: tones have the indexed frequencies and level and keep their phase from frame to frame.
#include "ref_synth.hpp"
#include "bystanders.hpp"
using namespace rs;

struct F2 { double a, b; };  // 0: absent
static F2 freq(int id, bool dstar) {
    static const double dtmf[16][2] = {{1336, 941}, {1209, 697}, {1336, 697}, {1477, 697}, {1209, 770}, {1336, 770}, {1477, 770}, {1209, 852}, {1336, 852}, {1477, 852}, {1633, 697}, {1633, 770}, {1633, 852}, {1633, 941}, {1209, 941}, {1477, 941}};
    static const double knox[16][2] = {{1162, 820}, {1052, 606}, {1162, 606}, {1279, 606}, {1052, 672}, {1162, 672}, {1279, 672}, {1052, 743}, {1162, 743}, {1279, 743}, {1430, 606}, {1430, 672}, {1430, 743}, {1430, 820}, {1052, 820}, {1279, 820}};
    static const double call[4][2] = {{440, 350}, {480, 440}, {620, 480}, {490, 350}};
    if (id >= 5 && id <= 122) return {31.25 * id, 0};
    if (dstar) return {0, 0};
    if (id >= 128 && id <= 143) return {dtmf[id - 128][0], dtmf[id - 128][1]};
    if (id >= 144 && id <= 159) return {knox[id - 144][0], knox[id - 144][1]};
    if (id >= 160 && id <= 163) return {call[id - 160][0], call[id - 160][1]};
    return {0, 0};
}
// one rendered frame from the carried phases, which it leaves where the next frame must continue
static void judge21(Lib& L, bool dstar, int id, int ad, const Bits& d, mbe_parms& m, const std::string& h) {
    mbe_parms in = m;
    float out[160];
    char c[49];
    for (int i = 0; i < 49; ++i) c[i] = (char)d.b[i];
    for (float& x : out) x = 7e7f;
    if (dstar) L.f_synthesizeTonefdstar(out, c, &m, id); else L.f_synthesizeTonef(out, c, &m);
    mc::transitions();
    F2 f = freq(id, dstar);
    const char* nm = h.c_str();
    if (f.a == 0) {
        for (int n = 0; n < 160; ++n) if (out[n] != 0) mc::fail("%s: tone %d does not exist but sample %d is %g", nm, id, n, out[n]);
        if (memcmp(&m, &in, sizeof m)) mc::fail("%s: tone %d does not exist but the state changed", nm, id);
        return;
    }
    mbe_parms r = m;
    r.swn = in.swn; r.un = in.un;
    if (memcmp(&r, &in, sizeof r)) mc::fail("%s: tone %d changes more than the oscillators", nm, id);
    double gain = (dstar ? 103 : ad) / 127.0 * CLIP, pa = (uint32_t)in.swn * (TWO_PI / 4294967296.0), pb = (uint32_t)in.un * (TWO_PI / 4294967296.0);
    double wa = TWO_PI * f.a / 8000, wb = TWO_PI * f.b / 8000;
    typedef std::complex<double> C;
    C za = std::polar(1.0, pa), ra = std::polar(1.0, wa), zb = std::polar(1.0, pb), rb = std::polar(1.0, wb);
    for (int n = 0; n < 160; ++n) {
        za *= ra; zb *= rb;
        double want = f.b ? -.5 * gain * (za.real() + zb.real()) : -gain * za.real();
        if (!(std::fabs(out[n] - want) <= 4e-6 * gain + 1e-6)) mc::fail("%s: tone %d (%.2f%s%.2f Hz), amplitude %d: sample %d is %.7g, expected %.7g", nm, id, f.a, f.b ? " + " : "/", f.b, dstar ? 103 : ad, n, out[n], want);
    }
    auto adv = [&](uint32_t from, uint32_t to, double hz, const char* w) {
        double want = hz / 8000 * 160 * 4294967296.0, got = (double)(uint32_t)(to - from);
        double e = std::remainder(got - want, 4294967296.0);
        if (std::fabs(e) > 160) mc::fail("%s: tone %d: the %s oscillator is %.0f ticks of 2^-32 turn away from where the next frame must continue", nm, id, w, e);
    };
    adv((uint32_t)in.swn, (uint32_t)m.swn, f.a, "first");
    if (f.b) adv((uint32_t)in.un, (uint32_t)m.un, f.b, "second");
    mc::state(mc::hash(out, sizeof out));
}
// tone word with id and amplitude; the remaining bits as given
static Bits word(int id, int ad, uint64_t junk) {
    Bits d = junk ? noise_bits(junk, 49) : zero_bits();
    for (int i = 0; i < 6; ++i) { d.b[i] = 1; d.b[6 + i] = ad >> (6 - i) & 1; }
    for (int i = 0; i < 8; ++i) d.b[12 + i] = id >> (7 - i) & 1;
    d.b[44] = ad & 1;
    return d;
}
static void check() {
    for (const char* variant : {"scalar", "simd"}) {
        Lib& L = lib(variant);
        bool first = !strcmp(variant, "scalar");
        auto G = [&](const char* g) { return std::string(variant) + "-" + g; };
        mc::group(G("words").c_str(), 256, [&](uint64_t id) {
            for (int ad = 0; ad < 128; ++ad)
                for (int k = 0; k < (first ? 6 : 2); ++k) {
                    mbe_parms m;
                    memset(&m, 0x11, sizeof m);
                    static const uint32_t ph[] = {0, 0x40000000u, 0x80000000u, 0xffffffffu, 0x12345678u, 0xc0000001u};
                    m.swn = (int)ph[k]; m.un = (int)ph[(k + ad) % 6];
                    judge21(L, false, (int)id, ad, word((int)id, ad, k ? id * 1000 + ad * 7 + k : 0), m, "start phase " + std::to_string(k));
                }
            mc::traces();
            if (first && id == 130) mc::sample("tone word 130 (1336 + 697 Hz) at all 128 amplitudes, 6 start phases, arbitrary other bits");
        });
        mc::group(G("dstar").c_str(), 512, [&](uint64_t i) {
            int id = (int)i - 128;
            for (int k = 0; k < 40; ++k) {
                mbe_parms m;
                memset(&m, 0x22, sizeof m);
                m.swn = (int)mc::mix(k * 5 + 1); m.un = (int)mc::mix(k * 9 + 1);
                if (k == 0) m.swn = m.un = 0;
                judge21(L, true, id, 0, noise_bits(i * 50 + k, 49), m, "D-STAR start " + std::to_string(k));
            }
            mc::traces();
        });
        // every ordered pair of tones, and a third: phases carry over
        mc::group(G("pairs").c_str(), 256, [&](uint64_t a) {
            for (int b = 0; b < 256; ++b) {
                mbe_parms m;
                clean(m);
                std::string h = "tone " + std::to_string(a) + " > " + std::to_string(b) + " > " + std::to_string(a);
                judge21(L, false, (int)a, 90, word((int)a, 90, 0), m, h + " (1)");
                judge21(L, false, b, 127, word(b, 127, 5), m, h + " (2)");
                judge21(L, false, (int)a, 1, word((int)a, 1, 6), m, h + " (3)");
                if (a < 130 && b < 130) {
                    clean(m);
                    judge21(L, true, (int)a, 0, word(0, 0, 1), m, h + " D-STAR (1)");
                    judge21(L, true, b, 0, word(0, 0, 2), m, h + " D-STAR (2)");
                }
            }
            mc::traces();
        });
        // hours of one tone, and mixed runs in a received stream
        mc::group(G("long").c_str(), 256, [&](uint64_t id) {
            mbe_parms m;
            clean(m);
            for (int f = 0; f < (mc::thorough ? 60000 : first ? 1500 : 200); ++f) judge21(L, false, (int)id, 127 - f % 128, word((int)id, 127 - f % 128, f), m, "frame " + std::to_string(f));
            mc::traces();
        });
        // nothing but the oscillators counts: every value of every other field, then combinations
        std::vector<by::Var> vars = by::each(by::ALL & ~(by::UN | by::SWN));
        mc::group(G("bystanders").c_str(), 256, [&](uint64_t id) {
            for (uint64_t q = 0; q < vars.size() + (mc::thorough ? 2000 : 100); ++q) {
                mbe_parms m;
                clean(m);
                by::scramble(m, by::UN | by::SWN, q * 256 + id);
                std::string h = "combination " + std::to_string(q);
                if (q < vars.size()) { by::put(m, vars[q].f, vars[q].v); h = "with " + by::text(vars[q]); }
                else by::scramble(m, by::ALL, q * 256 + id);
                int ad = (int)((q * 29 + id) % 128);
                judge21(L, false, (int)id, ad, word((int)id, ad, q), m, h);
                judge21(L, true, (int)id, 0, noise_bits(q * 3 + id, 49), m, h + " (D-STAR)");
            }
            mc::traces();
        });
        // whole frames: the oscillators run on through the processing calls, speech in between leaves them alone
        mc::group(G("stream").c_str(), 256 + 118, [&](uint64_t i) {
            bool ds = i >= 256;
            int id = ds ? (int)i - 256 + 5 : (int)i;
            if (freq(id, ds).a == 0) return;
            State s;
            init(L, s);
            Ev tone = ds ? make(A2400_D, a2400_tone(id), 0, 0, 0, "tone") : make(A2450_D, word(id, 77, 0), 0, 0, 0, "tone");
            Out o;
            L.f_setThreadRngSeed(5);
            step(L, ds ? make(A2400_D, a2400_bits(30, 3, 20, 4), 0, 0, 0, "voice") : make(A2450_D, a2450_bits(30, 3, 9, 4), 0, 0, 0, "voice"), s, o);
            F2 f = freq(id, ds);
            double gain = (ds ? 103 : 77) / 127.0 * CLIP;
            for (int k = 0; k < 6; ++k) {
                double pa = (uint32_t)s.cur.swn * (TWO_PI / 4294967296.0), pb = (uint32_t)s.cur.un * (TWO_PI / 4294967296.0);
                step(L, tone, s, o);
                mc::transitions();
                for (int n = 0; n < 160; ++n) {
                    double a = std::cos(pa + TWO_PI * f.a / 8000 * (n + 1)), b = std::cos(pb + TWO_PI * f.b / 8000 * (n + 1));
                    double want = f.b ? -.5 * gain * (a + b) : -gain * a;
                    if (!(std::fabs(o.pcm[n] - want) <= 1e-5 * gain)) mc::fail("%s tone %d in a stream, frame %d: sample %d is %.7g, expected %.7g", ds ? "D-STAR" : "AMBE+2", id, k, n, o.pcm[n], want);
                }
            }
            mc::traces();
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
