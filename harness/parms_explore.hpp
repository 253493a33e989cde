// Exhaustive exploration of a parameter decoder against the double-precision model.
#pragma once
#include "mc.hpp"
#include "lib.hpp"
#include "cold.hpp"
#include "ref_ecc.hpp"
#include "ref_params.hpp"
#include "bystanders.hpp"
#include <thread>

inline void fill_payload(char* d, int n, uint64_t k) {
    if (k == 0) { memset(d, 0, n); return; }
    if (k == 1) { memset(d, 1, n); return; }
    uint64_t s = 0;
    for (int i = 0; i < n; ++i) { if (i % 64 == 0) s = mc::mix(k * 0x9E3779B97F4A7C15ULL + i); d[i] = (char)(s >> (i % 64) & 1); }
}
// previous-frame models: flat default, ramp, alternating, extreme, pseudo-random shapes
inline void fill_prev(mbe_parms& p, int L, int prof) {
    memset(&p, 0, sizeof p);
    p.L = L;
    p.w0 = (float)(M_PI * 0.9254 / L);
    p.K = 3;
    p.gamma = prof == 0 ? 0.f : prof == 1 ? 7.25f : prof == 2 ? -2.f : prof == 3 ? 11.5f : 1.f + prof;
    p.repeat = prof & 3;
    p.repeatCount = (prof >> 1) & 1;
    for (int l = 0; l <= 56; ++l) {
        double v = 0;
        switch (prof) {
            case 0: v = 0; break;
            case 1: v = 12.0 - 0.2 * l; break;
            case 2: v = (l & 1) ? 9.5 : -6.0; break;
            case 3: v = l == L ? 17.0 : 0.5 * l - 11; break;
            default: v = 30.0 * ((mc::mix(prof * 1000 + l) >> 11) * (1.0 / 9007199254740992.0)) - 12; break;
        }
        p.log2Ml[l] = (float)v;
        p.Ml[l] = exp2f((float)v);
        p.Vl[l] = (l + prof) % 3 == 0;
        p.PHIl[l] = 0.01f * l;
        p.PSIl[l] = 0.02f * l;
    }
    // band 0 and the bands above L hold leftovers of earlier frames
    p.log2Ml[0] = prof ? 3.75f : 0.f;
    p.mutingThreshold = 0.096f;
}

template <class D> struct ParmExplorer {
    D dec;
    Lib& L = lib("scalar");
    uint64_t k = 0;
    void one(const char* d0, const mbe_parms& prev0, const char* what, const mbe_parms* cur0 = nullptr) {
        char d[96];
        memcpy(d, d0, D::N);
        mbe_parms cur, prev = prev0;
        if (cur0) cur = *cur0; else memset(&cur, 0x7b, sizeof cur);   // the previous contents of the output must not matter
        mbe_parms before = cur;
        int r = dec.call(L, d, &cur, &prev);
        mc::transitions();
        ref::Model m = dec.model(d0, prev0);
        if (memcmp(d, d0, D::N)) mc::fail("%s: the decoder changed its input bits (%s)", what, text(d0).c_str());
        if (!dec.ret_ok(r, m)) mc::fail("%s: decoder returned %d, expected %d; bits %s", what, r, m.ret, text(d0).c_str());
        if (m.cls == ref::VOICE || m.cls == ref::SILENCE) {
            std::string e = ref::compare(m, cur, D::IMBE);
            if (!e.empty()) mc::fail("%s, previous L=%d: %s; bits %s", what, prev0.L, e.c_str(), text(d0).c_str());
            // decoding again from the predictor state left behind gives the same model
            mbe_parms cur2;
            memset(&cur2, 0, sizeof cur2);
            dec.call(L, d, &cur2, &prev);
            mc::transitions();
            e = ref::compare(m, cur2, D::IMBE);
            if (!D::IMBE || true) if (!e.empty()) mc::fail("%s, previous L=%d, second decode from the same previous model: %s; bits %s", what, prev0.L, e.c_str(), text(d0).c_str());
        } else {
            dec.rejected(before, cur, m, what, text(d0));
        }
        mc::state(mc::hash(&cur.L, 4, mc::hash(cur.log2Ml, 4 * (1 + (m.L > 0 ? m.L : 0)), mc::hash(cur.Vl, sizeof cur.Vl, r))));
    }
    static std::string text(const char* d) { std::string s; for (int i = 0; i < D::N; ++i) s += (char)('0' + d[i]); return s; }
    void run() {
        const int P = D::PITCH;
        // every pitch code with every previous band count and several previous models
        mc::group("pitch-x-previous-L", (uint64_t)P * 48, [&](uint64_t i) {
            int b0 = (int)(i / 48), pl = 9 + (int)(i % 48);
            for (int prof = 0; prof < 6; ++prof)
                for (int p = 0; p < (mc::thorough ? 12 : 3); ++p) {
                    char d[96];
                    fill_payload(d, D::N, 2 + i * 31 + prof * 7 + p);
                    D::set_pitch(d, b0);
                    mbe_parms prev;
                    fill_prev(prev, pl, prof);
                    one(d, prev, "pitch x previous band count");
                    mc::traces();
                }
            if (i == 100) mc::sample("b0=%d after L=%d: 6 previous models x payloads agree with the model", b0, pl);
        });
        // every pitch code: each bit, each pair of bits, around three base words
        mc::group("bit-pairs", P, [&](uint64_t b0) {
            for (int base = 0; base < 3; ++base)
                for (int a = 0; a < D::N; ++a)
                    for (int b = a; b < D::N; b += (mc::thorough || b == a) ? 1 : 1 + (a + b0) % 3) {
                        char d[96];
                        fill_payload(d, D::N, base);
                        d[a] ^= 1;
                        if (b != a) d[b] ^= 1;
                        D::set_pitch(d, (int)b0);
                        mbe_parms prev;
                        fill_prev(prev, 9 + (int)((b0 * 7 + a) % 48), 1 + base);
                        one(d, prev, "bit pair");
                        mc::traces();
                    }
        });
        // every value of every quantizer field
        mc::group("field-values", (uint64_t)P, [&](uint64_t b0) {
            for (auto& f : dec.fields((int)b0)) {
                int n = (int)f.size();
                for (int v = 0; v < 1 << n; ++v)
                    for (int base = 0; base < (mc::thorough ? 8 : D::FIELD_BASES); ++base) {
                        char d[96];
                        fill_payload(d, D::N, base == 0 ? 0 : 500 + base + b0);
                        for (int i = 0; i < n; ++i) d[f[i]] = v >> (n - 1 - i) & 1;
                        D::set_pitch(d, (int)b0);
                        mbe_parms prev;
                        fill_prev(prev, 9 + (int)((b0 * 11 + v) % 48), base + 1);
                        one(d, prev, "quantizer field");
                    }
                mc::traces(1 << n);
            }
        });
        // pairs of quantizer fields: the value pairs are dealt out over the pitch codes that share the fields' widths
        mc::group("field-pairs", (uint64_t)P * 8, [&](uint64_t i) {
            int b0 = (int)(i / 8), part = (int)(i % 8);
            auto fs = dec.fields(b0);
            uint64_t cap = D::IMBE ? (mc::thorough ? 64 : 4) : mc::thorough ? 16384 : 1024, np = 0;
            for (size_t x = 0; x < fs.size(); ++x)
                for (size_t y = x + 1; y < fs.size(); ++y, ++np) {
                    if ((int)(np % 8) != part) continue;
                    auto &f = fs[x], &g = fs[y];
                    int n = (int)(f.size() + g.size());
                    uint64_t tot = 1ull << n, k = std::min(tot, cap), stride = tot / k;
                    for (uint64_t q = 0; q < k; ++q) {
                        // an odd multiplier permutes the value pairs, so different pitches take different ones
                        uint64_t v = ((q * stride + (uint64_t)b0 * (stride > 1 ? 0x9E3779B1u >> 8 | 1 : 1)) * 0x2545F491u) & (tot - 1);
                        char d[96];
                        fill_payload(d, D::N, 4000 + b0 * 3 + np % 3);
                        D::set_pitch(d, b0);
                        for (size_t j = 0; j < f.size(); ++j) d[f[j]] = v >> j & 1;
                        for (size_t j = 0; j < g.size(); ++j) d[g[j]] = v >> (f.size() + j) & 1;
                        mbe_parms prev;
                        fill_prev(prev, 9 + (int)((b0 * 17 + q) % 48), (int)(1 + np % 5));
                        one(d, prev, "pair of quantizer fields");
                    }
                    mc::traces(k);
                }
        });
        // the first decode of a fresh thread, for every pitch code
        mc::group("fresh-thread", P, [&](uint64_t b0) {
            bool failed = false;
            std::thread t([&] {
                try {
                    for (int p = 0; p < 4; ++p) {
                        char d[96];
                        fill_payload(d, D::N, 900 + b0 * 4 + p);
                        D::set_pitch(d, p == 3 ? (int)(P - 1 - b0) : (int)b0);
                        mbe_parms prev;
                        fill_prev(prev, 9 + (int)((b0 * 5) % 48), p);
                        one(d, prev, "first decode of a thread");
                    }
                } catch (mc::Fail&) { failed = true; }
            });
            t.join();
            mc::flush();
            if (failed) throw mc::Fail{};
            mc::traces();
        });
        // what else the two parameter sets hold does not matter: every value of every field of either, then combinations
        std::vector<by::Var> vars = by::each(by::ALL);
        mc::group("bystanders", P, [&](uint64_t b0) {
            mbe_parms prev, cur;
            char d[96];
            auto go = [&](uint64_t q, uint64_t side, uint64_t pay, int pl, auto stir, const std::string& what) {
                fill_payload(d, D::N, 8000 + pay);
                D::set_pitch(d, (int)b0);
                fill_prev(prev, pl, 1 + (int)(q % 5));
                fill_prev(cur, 9 + (int)((q * 7 + b0) % 48), (int)(q % 6));
                stir(side ? cur : prev);
                one(d, prev, what.c_str(), &cur);
            };
            for (uint64_t q = 0; q < vars.size(); ++q)
                for (uint64_t side = 0; side < 2; ++side)
                    for (int c = 0; c < (mc::thorough ? 12 : 2); ++c)
                        go(q, side, b0 * 3 + q + c * 13, c == 0 ? 56 : 9 + (int)((b0 * 5 + q + c * 11) % 48), [&](mbe_parms& m) { by::put(m, vars[q].f, vars[q].v); },
                           "with " + by::text(vars[q]) + (side ? " left in the output set" : " in the previous set"));
            for (uint64_t q = 0; q < (mc::thorough ? 6000 : 300); ++q) {
                uint64_t id = b0 * 10000 + q;
                go(q, 1, id, 9 + (int)(id % 48), [&](mbe_parms& m) { by::scramble(m, by::ALL, id); by::scramble(prev, q & 1 ? by::ALL & ~by::LOG : by::ALL, id * 3 + 1); }, "with arbitrary other fields, combination " + std::to_string(id));
            }
            mc::traces();
        });
        // calls in a row that share nothing but the thread: every ordered pair of pitch codes, every pair of
        // previous band counts, and every word after each word one bit away
        auto word = [&](int b0, uint64_t pay, int flip, int pl, int prof, const char* what) {
            char d[96];
            fill_payload(d, D::N, pay);
            D::set_pitch(d, b0);
            if (flip >= 0) d[flip] ^= 1;
            mbe_parms prev;
            fill_prev(prev, pl, prof);
            one(d, prev, what);
        };
        mc::group("pitch-pairs", (uint64_t)P, [&](uint64_t a) {
            for (int b = 0; b < P; ++b) {
                uint64_t pay = 7000 + (a + b) % 11;
                int pl = 9 + (int)((a * 3 + b) % 48);
                word((int)a, pay, -1, pl, (int)(a + b) % 6, "decode in a sequence");
                word(b, pay, -1, pl, (int)(a + b) % 6, ("decode right after pitch " + std::to_string(a)).c_str());
            }
            mc::traces(P);
        });
        mc::group("previous-L-pairs", 48 * 48, [&](uint64_t i) {
            int p1 = 9 + (int)(i / 48), p2 = 9 + (int)(i % 48);
            for (int k = 0; k < (mc::thorough ? P : 12); ++k) {
                int b0 = mc::thorough ? k : (int)((i * 5 + k * 23) % P);
                word(b0, 7100 + k, -1, p1, k % 6, "decode in a sequence");
                word(b0, 7100 + k, -1, p2, k % 6, "decode after the same word with another previous band count");
                word(b0, 7100 + k, -1, p2, (k + 1) % 6, "decode after the same word with another previous model");
            }
            mc::traces(12);
        });
        mc::group("neighbours", P, [&](uint64_t b0) {
            for (int base = 0; base < (mc::thorough ? 12 : 3); ++base)
                for (int a = 0; a < D::N; ++a) {
                    int pl = 9 + (int)((b0 * 13 + a) % 48);
                    word((int)b0, 7200 + base, -1, pl, base % 6, "decode in a sequence");
                    word((int)b0, 7200 + base, a, pl, base % 6, "decode after the word one bit away");
                    word((int)b0, 7200 + base, -1, pl, base % 6, "decode after the word one bit away");
                }
            mc::traces(D::N);
        });
        // the first decode after loading
        Cold C(L);
        mc::group("first-decode", P, [&](uint64_t b0) {
            for (int p = 0; p < 6; ++p)
                C.run([&] {
                    word((int)b0, 7300 + b0 * 6 + p, -1, 9 + (int)((b0 * 5 + p * 9) % 48), p, "first decode");
                    word((int)((b0 * 3 + p * 41) % P), 7300 + b0, -1, 9 + (int)((b0 * 7 + p) % 48), p, "second decode");
                });
            mc::traces(6);
        });
        // chains: each frame's output is the next frame's predictor
        {
            std::vector<int> ps = dec.chain_pitches();
            int n = (int)ps.size(), depth = mc::thorough ? 4 : 3;
            uint64_t tot = 1;
            for (int i = 0; i < depth; ++i) tot *= n;
            mc::group("chains", tot, [&](uint64_t i) {
                mbe_parms prev, e, cur;
                L.f_initMbeParms(&cur, &prev, &e);
                uint64_t k = i;
                for (int s = 0; s < depth; ++s, k /= n) {
                    char d[96];
                    fill_payload(d, D::N, 3000 + (k % n) * 17 + s);
                    D::set_pitch(d, ps[k % n]);
                    one(d, prev, "chain");
                    mbe_parms pv = prev;
                    int r = dec.call(L, d, &cur, &pv);
                    if (r == 0) L.f_moveMbeParms(&cur, &prev);
                    mc::transitions();
                }
                mc::traces();
            });
        }
    }
};
