// Exhaustive exploration of one codec's channel layer.  Codec supplies the frame geometry, the
// reference encoder/receiver and the library's entry points.
#pragma once
#include "mc.hpp"
#include "lib.hpp"
#include "ref_ecc.hpp"
#include "cold.hpp"

enum RowKind { GOLAY24, GOLAY23, GOLAY18, HAMMING, PLAIN };

struct Payload { uint8_t b[88]; };
inline Payload payload(int nbits, uint64_t k) {
    Payload p;
    uint64_t s = mc::mix(k * 0x9E3779B97F4A7C15ULL + 1);
    for (int i = 0; i < nbits; ++i) {
        if (k == 0) p.b[i] = 0;
        else if (k == 1) p.b[i] = 1;
        else { if (i % 64 == 0) s = mc::mix(s + i); p.b[i] = s >> (i % 64) & 1; }
    }
    return p;
}
// error patterns of at most three bits over n positions starting at bit lo
inline std::vector<uint32_t> patterns(int lo, int n, int maxw) {
    std::vector<uint32_t> v{0};
    for (int a = 0; a < n && maxw >= 1; ++a) {
        v.push_back(1u << (a + lo));
        for (int b = 0; b < a && maxw >= 2; ++b) {
            v.push_back(1u << (a + lo) | 1u << (b + lo));
            for (int c = 0; c < b && maxw >= 3; ++c) v.push_back(1u << (a + lo) | 1u << (b + lo) | 1u << (c + lo));
        }
    }
    return v;
}

template <class C> struct Explorer {
    C c;
    using Fr = typename C::Real;
    std::vector<std::vector<uint32_t>> pat;
    void put(Fr& fr, const uint32_t* row, char junk) {
        for (int r = 0; r < C::R; ++r)
            for (int j = 0; j < C::W; ++j)
                fr[r][j] = (C::mask(r) >> j & 1) ? (char)(row[r] >> j & 1) : junk;
    }
    std::string show(const uint32_t* row) {
        std::string s = "rows";
        char b[16];
        for (int r = 0; r < C::R; ++r) { snprintf(b, sizeof b, " %06x", row[r]); s += b; }
        return s;
    }
    // the whole receive chain of the library on one frame, compared with `want` bits and counts
    void receive(const uint32_t* row, char junk, const uint8_t* want, int c0, int rest, bool count_c0, const char* what) {
        Fr fr;
        put(fr, row, junk);
        char d[96];
        memset(d, 0x3c, sizeof d);
        int e0 = c.C0(fr);
        c.demod(fr);
        int e1 = c.data(fr, d);
        if (memcmp(d, want, C::N)) {
            for (int i = 0; i < C::N; ++i)
                if (d[i] != (char)want[i]) mc::fail("%s: %s unpacks to a wrong bit %d: %d, transmitted %d", what, show(row).c_str(), i, d[i], want[i]);
        }
        for (int i = C::N; i < 96; ++i) if (d[i] != 0x3c) mc::fail("%s: %s writes past %d parameter bits", what, show(row).c_str(), C::N);
        if (count_c0 && e0 != c0) mc::fail("%s: %s reports %d first-row errors, expected %d", what, show(row).c_str(), e0, c0);
        if (e1 != rest) mc::fail("%s: %s reports %d errors in the other rows, expected %d", what, show(row).c_str(), e1, rest);
        mc::transitions(3);
    }
    void run() {
        for (int r = 0; r < C::R; ++r) {
            switch (C::kind(r)) {
                case GOLAY24: pat.push_back(patterns(0, 24, 3)); break;
                case GOLAY23: pat.push_back(patterns(__builtin_ctz(C::mask(r)), 23, 3)); break;
                case GOLAY18: pat.push_back(patterns(__builtin_ctz(C::mask(r)), 18, 3)); break;
                case HAMMING: pat.push_back(patterns(0, 15, 1)); break;
                default: pat.push_back({0});
            }
        }
        const std::string tag = C::name();
        // 1. every data value of every row, clean, inside several payloads; every seed with every row-1 value
        for (int r = 0; r < C::R; ++r) {
            int lo = C::first(r), n = C::len(r);
            uint64_t total = n > 14 ? 0 : 1ull << n;
            uint64_t blocks = total ? (total + 63) / 64 : 64;
            mc::group((tag + "/row" + std::to_string(r) + "-values").c_str(), blocks, [&](uint64_t blk) {
                uint64_t a = total ? blk * 64 : blk * 2048, b = total ? std::min(total, a + 64) : a + 2048;
                for (uint64_t v = a; v < b; ++v)
                    for (int p = 0; p < 6; ++p) {
                        Payload q = payload(C::N, p);
                        if (total) for (int i = 0; i < n; ++i) q.b[lo + i] = v >> (n - 1 - i) & 1;
                        else { uint64_t x = v < (1u << 12) ? v << 11 | v : mc::mix(v); for (int i = 0; i < n; ++i) q.b[lo + i] = x >> i & 1; }
                        auto f = c.encode(q.b);
                        receive(f.row, (char)(p & 1), q.b, 0, 0, true, "clean frame");
                        mc::state(mc::hash(q.b, C::N));
                        mc::traces();
                    }
                if (blk == 3) { Payload q = payload(C::N, 3); auto f = c.encode(q.b); mc::sample("%s clean frame %s", tag.c_str(), show(f.row).c_str()); }
            });
        }
        {
            int n0 = C::len(0), lo1 = C::first(1);
            mc::group((tag + "/seed-x-row1").c_str(), 1u << n0, [&](uint64_t seed) {
                Payload q = payload(C::N, 2 + seed % 5);
                for (int i = 0; i < n0; ++i) q.b[i] = seed >> (n0 - 1 - i) & 1;
                for (uint32_t v = seed & 3; v < 4096; v += mc::thorough ? 1 : 4) {
                    for (int i = 0; i < 12; ++i) q.b[lo1 + i] = v >> (11 - i) & 1;
                    auto f = c.encode(q.b);
                    receive(f.row, (char)(v & 1), q.b, 0, 0, true, "clean frame");
                    mc::state(mc::hash(q.b, C::N));
                }
                mc::traces(1024);
            });
        }
        // 2. scrambling: every seed, applied twice is the identity on every channel position, and equals the sequence
        mc::group((tag + "/scramble").c_str(), 1u << C::len(0), [&](uint64_t seed) {
            for (int p = 0; p < 4; ++p) {
                Payload q = payload(C::N, p);
                for (int i = 0; i < C::len(0); ++i) q.b[i] = seed >> (C::len(0) - 1 - i) & 1;
                auto f = c.encode(q.b);
                Fr fr, g;
                put(fr, f.row, (char)(p & 1));
                memcpy(g, fr, sizeof fr);
                c.demod(g);
                uint32_t plain[8];
                c.unscrambled(q.b, plain);
                for (int r = 0; r < C::R; ++r)
                    for (int j = 0; j < C::W; ++j)
                        if (C::mask(r) >> j & 1)
                            if (g[r][j] != (char)(plain[r] >> j & 1)) mc::fail("descrambling with seed 0x%03x: row %d bit %d is %d, sent %d", (unsigned)seed, r, j, g[r][j], (int)(plain[r] >> j & 1));
                c.demod(g);
                for (int r = 0; r < C::R; ++r)
                    for (int j = 0; j < C::W; ++j)
                        if ((C::mask(r) >> j & 1) && g[r][j] != fr[r][j]) mc::fail("scrambling twice with seed 0x%03x changes row %d bit %d", (unsigned)seed, r, j);
                mc::transitions(2);
            }
            mc::traces(4);
        });
        // 3. every correctable error pattern in each protected row, for many payloads
        for (int r = 0; r < C::R; ++r) {
            if (C::kind(r) == PLAIN) continue;
            uint64_t np = mc::thorough ? 4096 : 640;
            mc::group((tag + "/row" + std::to_string(r) + "-errors").c_str(), np, [&](uint64_t p) {
                Payload q = payload(C::N, p);
                // walk all values of this row's data through the payload list
                uint32_t v = (uint32_t)(p * (mc::thorough ? 1 : 6) + p % 5);
                for (int i = 0; i < C::len(r); ++i) q.b[C::first(r) + i] = v >> i & 1;
                auto f = c.encode(q.b);
                for (uint32_t e : pat[r]) {
                    uint32_t row[8];
                    memcpy(row, f.row, sizeof f.row);
                    row[r] ^= e;
                    int c0 = 0, rest = 0;
                    if (r == 0) c0 = C::c0count(e); else rest = C::count(r, e);
                    receive(row, (char)(p & 1), q.b, c0, rest, true, "frame with correctable errors");
                    mc::state(mc::hash(row, sizeof f.row));
                }
                mc::traces(pat[r].size());
                if (p == 5) mc::sample("%s row %d error patterns %zu on %s", tag.c_str(), r, pat[r].size(), show(f.row).c_str());
            });
        }
        // 4. every pair of rows, every pair of correctable patterns
        for (int a = 0; a < C::R; ++a)
            for (int b = a + 1; b < C::R; ++b) {
                if (C::kind(a) == PLAIN || C::kind(b) == PLAIN) continue;
                int np = mc::thorough ? 6 : 1;
                uint64_t na = pat[a].size();
                mc::group((tag + "/rows" + std::to_string(a) + std::to_string(b) + "-errors").c_str(), na * np, [&](uint64_t idx) {
                    uint64_t p = idx / na;
                    uint32_t ea = pat[a][idx % na];
                    Payload q = payload(C::N, 2 + p + idx % 7);
                    auto f = c.encode(q.b);
                    size_t step = 1, st = 0;
                    if (!mc::thorough && pat[b].size() > 100 && C::R > 4) { step = 5; st = idx % 5; }  // quick: a fifth of each pair of Golay rows
                    for (size_t ib = st; ib < pat[b].size(); ib += step) {
                        uint32_t eb = pat[b][ib];
                        uint32_t row[8];
                        memcpy(row, f.row, sizeof f.row);
                        row[a] ^= ea;
                        row[b] ^= eb;
                        int c0 = a == 0 ? C::c0count(ea) : 0, rest = (a ? C::count(a, ea) : 0) + C::count(b, eb);
                        receive(row, (char)(ib & 1), q.b, c0, rest, true, "frame with errors in two rows");
                        mc::state(mc::hash(row, sizeof f.row));
                    }
                    mc::traces(pat[b].size());
                });
            }
        // 5. all combinations of error weights over all rows at once (pattern within each weight rotates)
        {
            int radix[8], R = C::R;
            uint64_t total = 1;
            for (int r = 0; r < R; ++r) { radix[r] = C::kind(r) == PLAIN ? 1 : C::kind(r) == HAMMING ? 2 : 4; total *= radix[r]; }
            uint64_t reps = mc::thorough ? 512 : 48;
            std::vector<std::vector<uint32_t>> byw[8];
            for (int r = 0; r < R; ++r) { byw[r].resize(4); for (uint32_t e : pat[r]) byw[r][ref::popcnt(e)].push_back(e); }
            mc::group((tag + "/weights").c_str(), total, [&](uint64_t idx) {
                for (uint64_t rep = 0; rep < reps; ++rep) {
                    Payload q = payload(C::N, rep % 97 + idx * 3);
                    auto f = c.encode(q.b);
                    uint32_t row[8];
                    memcpy(row, f.row, sizeof f.row);
                    uint64_t k = idx;
                    int c0 = 0, rest = 0;
                    for (int r = 0; r < R; ++r) {
                        int w = k % radix[r];
                        k /= radix[r];
                        auto& v = byw[r][w];
                        uint32_t e = v[mc::mix(rep * 131 + idx * 17 + r) % v.size()];
                        row[r] ^= e;
                        if (r == 0) c0 = C::c0count(e); else rest += C::count(r, e);
                    }
                    receive(row, (char)(rep & 1), q.b, c0, rest, true, "frame with errors in all rows");
                    mc::state(mc::hash(row, sizeof f.row));
                    // the whole-frame entry point publishes the same bits and counts
                    if (rep < 3) {
                        Fr fr;
                        put(fr, row, (char)(rep & 1));
                        char d[96];
                        memset(d, 0x3c, sizeof d);
                        int errs = -5, errs2 = 99;
                        State st;
                        c.L.f_initMbeParms(&st.cur, &st.prev, &st.enh);
                        c.frame(fr, d, &errs, &errs2, st);
                        if (!c.frame_bits_ok(d, q.b)) mc::fail("whole-frame call on %s publishes other parameter bits than were sent", show(row).c_str());
                        if (errs != c0 || errs2 != c0 + rest) mc::fail("whole-frame call on %s publishes counts %d/%d, expected %d/%d", show(row).c_str(), errs, errs2, c0, c0 + rest);
                        mc::transitions();
                    }
                }
                mc::traces(reps);
            });
        }
        // 5b. frames in a row: every pair of seeds; every clean frame around frames with errors of every weight
        {
            int n0 = C::len(0);
            uint32_t seeds = 1u << n0;
            auto clean = [&](uint32_t seed, uint64_t k, uint8_t* b) {
                Payload q = payload(C::N, 2 + k % 23);
                for (int i = 0; i < n0; ++i) q.b[i] = seed >> (n0 - 1 - i) & 1;
                memcpy(b, q.b, C::N);
            };
            mc::group((tag + "/seed-pairs").c_str(), 4096, [&](uint64_t idx) {
                uint32_t a = idx & (seeds - 1);
                uint8_t qa[88], qb[88];
                clean(a, idx, qa);
                auto fa = c.encode(qa);
                std::vector<uint32_t> to;
                if (n0 < 12 || mc::thorough) for (uint32_t b = 0; b < seeds; ++b) to.push_back(b);
                else {
                    for (int i = 0; i < n0; ++i) for (int j = i; j < n0; ++j) to.push_back(a ^ 1u << i ^ (j > i ? 1u << j : 0));
                    for (uint32_t b = a * 7 % 17; b < seeds; b += 17) to.push_back(b);
                    to.push_back(0);
                    to.push_back(seeds - 1);
                }
                for (uint32_t b : to) {
                    clean(b, idx + b, qb);
                    auto fb = c.encode(qb);
                    receive(fa.row, 0, qa, 0, 0, true, "clean frame in a sequence");
                    receive(fb.row, 1, qb, 0, 0, true, "clean frame right after one with another seed");
                }
                mc::traces(to.size());
            });
            std::vector<int> prot;
            for (int r = 0; r < C::R; ++r) if (C::kind(r) != PLAIN) prot.push_back(r);
            mc::group((tag + "/error-then-clean").c_str(), prot.size() * 64, [&](uint64_t idx) {
                int r = prot[idx % prot.size()];
                uint8_t qa[88], qb[88];
                Payload p = payload(C::N, idx);
                memcpy(qa, p.b, C::N);
                auto fa = c.encode(qa);
                for (size_t k = idx / prot.size() % 3; k < pat[r].size(); k += mc::thorough ? 1 : 3) {
                    uint32_t e = pat[r][k], row[8];
                    memcpy(row, fa.row, sizeof fa.row);
                    row[r] ^= e;
                    int c0 = r == 0 ? C::c0count(e) : 0, rest = r ? C::count(r, e) : 0;
                    // the same frame first without the errors, then another one with the same data in this row
                    receive(row, 0, qa, c0, rest, true, "frame with correctable errors");
                    receive(fa.row, 1, qa, 0, 0, true, "clean frame after the same frame with errors");
                    memcpy(qb, qa, C::N);
                    qb[(k * 7 + idx) % C::N] ^= 1;
                    auto fb = c.encode(qb);
                    memcpy(row, fb.row, sizeof fb.row);
                    row[r] ^= e;
                    receive(row, 0, qb, c0, rest, true, "neighbouring frame with the same errors");
                }
                mc::traces(pat[r].size());
            });
            // the first frame after loading, for every seed
            Cold K(c.L);
            mc::group((tag + "/first-frame").c_str(), seeds, [&](uint64_t seed) {
                for (int k = 0; k < (n0 < 12 ? 24 : 1); ++k) {
                    uint8_t q[88];
                    clean((uint32_t)seed, seed + k, q);
                    auto f = c.encode(q);
                    K.run([&] { receive(f.row, (char)(k & 1), q, 0, 0, true, "first frame"); });
                    mc::traces();
                }
            });
        }
        // 5c. whatever is received: every word of every row, correctable or not, decodes to its nearest codeword
        for (int r = 0; r < C::R; ++r) {
            int lo = __builtin_ctz(C::mask(r)), n = __builtin_popcount(C::mask(r));
            if (C::kind(r) == PLAIN) continue;
            uint64_t total = 1ull << n, CH = std::min<uint64_t>(4096, total / 8);
            uint64_t stride = mc::thorough || r == 0 || n < 20 ? 1 : 5;  // quick: a fifth of the words of the other Golay rows
            mc::group((tag + "/any-row" + std::to_string(r)).c_str(), total / CH, [&](uint64_t blk) {
                Payload q = payload(C::N, blk % 61);
                auto f = c.encode(q.b);
                for (uint64_t v = blk * CH + blk % stride; v < (blk + 1) * CH; v += stride) {
                    uint32_t row[8] = {};
                    memcpy(row, f.row, sizeof f.row);
                    row[r] = (uint32_t)v << lo;
                    if (v % 3 == 0) for (int k = 1; k < C::R; ++k) if (k != r) row[k] = (uint32_t)mc::mix(v * 8 + k) & C::mask(k);
                    ref::Rx x = c.rx(row);
                    receive(row, (char)(v & 1), x.bits, x.c0, x.rest, true, "arbitrary frame");
                }
                mc::state(mc::hash(&blk, 8, r));
                mc::traces((CH + stride - 1) / stride);
                if (blk == 9 && r == 0) mc::sample("%s: every word of row %d within a frame decodes to its nearest codeword, whether correctable or not", tag.c_str(), r);
            });
        }
        // 5d. the data stage on its own: the first row as it stands, the counts of the other rows
        mc::group((tag + "/data-stage").c_str(), 4096, [&](uint64_t blk) {
            int n = __builtin_popcount(C::mask(0)), lo = __builtin_ctz(C::mask(0)), n0 = C::len(0);
            for (uint64_t v = blk; v < (1ull << n); v += mc::thorough ? 4096 : 4096 * 61) {
                Payload q = payload(C::N, 2 + blk % 59);
                for (int i = 0; i < n0; ++i) q.b[i] = v >> (n - 1 - i) & 1;
                uint32_t row[8];
                c.unscrambled(q.b, row);
                row[0] = (uint32_t)v << lo;
                int rest = 0;
                for (int r = 1; r < C::R; ++r) {
                    if (C::kind(r) == PLAIN || (blk + r) % 3 == 0) continue;
                    uint32_t e = pat[r][mc::mix(v * 16 + r) % pat[r].size()];
                    row[r] ^= e;
                    rest += C::count(r, e);
                }
                Fr fr;
                put(fr, row, (char)(v & 1));
                char d[96];
                memset(d, 0x3c, sizeof d);
                int got = c.data(fr, d);
                for (int i = 0; i < C::N; ++i) if (d[i] != (char)q.b[i]) mc::fail("the data stage on its own yields parameter bit %d = %d, expected %d (%s)", i, d[i], q.b[i], show(row).c_str());
                if (got != rest) mc::fail("the data stage on its own counts %d errors, expected %d (first row %s)", got, rest, show(row).c_str());
                mc::transitions();
            }
            mc::traces();
        });
        // 6. positions that carry no channel bit, one at a time, two at a time, and with non-binary contents
        {
            std::vector<std::pair<int, int>> pos;
            for (int r = 0; r < C::R; ++r) for (int j = 0; j < C::W; ++j) if (!(C::mask(r) >> j & 1)) pos.push_back({r, j});
            size_t n = pos.size();
            mc::group((tag + "/unused-positions").c_str(), n * n, [&](uint64_t idx) {
                size_t a = idx / n, b = idx % n;
                for (int p = 0; p < 4; ++p)
                    for (int val : {1, 0x55, -1, 2}) {
                        Payload q = payload(C::N, 2 + p);
                        auto f = c.encode(q.b);
                        Fr fr;
                        put(fr, f.row, 0);
                        fr[pos[a].first][pos[a].second] = (char)val;
                        fr[pos[b].first][pos[b].second] = (char)val;
                        char d[96];
                        int e0 = c.C0(fr);
                        c.demod(fr);
                        int e1 = c.data(fr, d);
                        if (memcmp(d, q.b, C::N) || e0 || e1) mc::fail("unused positions [%d][%d] and [%d][%d] = %d change the result", pos[a].first, pos[a].second, pos[b].first, pos[b].second, val);
                        mc::transitions(3);
                    }
                mc::traces(16);
            });
        }
    }
};
