// C01: every 23-bit word through both Golay entry points, with every kind of content above bit 22.
#include "mc.hpp"
#include "lib.hpp"
#include "cold.hpp"
#include "ref_ecc.hpp"

static void check() {
    Lib& L = lib("scalar");
    const auto& G = ref::golay();
    if (!G.perfect) mc::fail("reference Golay code is not perfect");
    // contents above the codeword: none, each single bit, all bits, sign patterns
    std::vector<uint64_t> junk{0, ~0ull << 23, 0x8000000000000000ull, 0x5555555555000000ull << 0, 0xaaaaaaaaaa800000ull};
    for (int b = 23; b < 64; ++b) junk.push_back(1ull << b);
    mc::group("golay-words", 2048, [&](uint64_t blk) {
        for (uint32_t i = 0; i < 4096; ++i) {
            uint32_t w = (uint32_t)blk << 12 | i;
            uint32_t d = G.data[w];
            for (uint64_t j : junk) {
                long v = (long)((uint64_t)w | (j & ~0x7fffffull));
                L.f_checkGolayBlock(&v);
                if (v != (long)d) mc::fail("mbe_checkGolayBlock(word 0x%06x, upper bits 0x%llx) = 0x%lx, nearest codeword has data 0x%03x", w, (unsigned long long)j, v, d);
            }
            mc::transitions(junk.size() + 1);
            char in[24], out[25], in2[24];
            for (int b = 0; b < 23; ++b) in[b] = w >> b & 1;
            in[23] = 7;
            memcpy(in2, in, 24);
            memset(out, 0x5a, sizeof out);
            int n = L.f_golay2312(in, out);
            uint32_t want = d << 11 | (w & 0x7ff);
            int cnt = ref::popcnt((want ^ w) >> 11);
            for (int b = 0; b < 23; ++b)
                if (out[b] != (char)(want >> b & 1)) mc::fail("mbe_golay2312(word 0x%06x): output bit %d is %d, expected %d", w, b, out[b], (int)(want >> b & 1));
            if (n != cnt) mc::fail("mbe_golay2312(word 0x%06x) reports %d corrected data bits, expected %d", w, n, cnt);
            if (memcmp(in, in2, 24) || out[23] != 0x5a || out[24] != 0x5a) mc::fail("mbe_golay2312(word 0x%06x) wrote outside its 23 outputs", w);
            mc::state(0x100000000ull | w);
            mc::count(cnt == 0 ? "words with 0 data bits corrected" : cnt == 1 ? "words with 1 data bit corrected" : cnt == 2 ? "words with 2 data bits corrected" : "words with 3 data bits corrected");
        }
        mc::traces(4096);
        if (blk == 77) mc::sample("word 0x%06x -> data 0x%03x", (uint32_t)blk << 12 | 5, G.data[blk << 12 | 5]);
    });
}
// calls in a row: the result of the second never depends on the first
static void word(Lib& L, const ref::GolayTable& G, uint32_t w, uint64_t upper, uint32_t before, const char* how) {
    long v = (long)((uint64_t)w | upper << 23);
    L.f_checkGolayBlock(&v);
    if (v != (long)G.data[w]) mc::fail("%s 0x%06x: mbe_checkGolayBlock(word 0x%06x) = 0x%lx, nearest codeword has data 0x%03x", how, before, w, v, G.data[w]);
}
static void bits(Lib& L, const ref::GolayTable& G, uint32_t w, uint32_t before, const char* how) {
    char in[23], out[23];
    for (int b = 0; b < 23; ++b) in[b] = w >> b & 1;
    int n = L.f_golay2312(in, out);
    uint32_t want = G.data[w] << 11 | (w & 0x7ff);
    for (int b = 0; b < 23; ++b)
        if (out[b] != (char)(want >> b & 1)) mc::fail("%s 0x%06x: mbe_golay2312(word 0x%06x): output bit %d is %d, expected %d", how, before, w, b, out[b], (int)(want >> b & 1));
    if (n != ref::popcnt((want ^ w) >> 11)) mc::fail("%s 0x%06x: mbe_golay2312(word 0x%06x) reports %d", how, before, w, n);
}
static void sequences() {
    Lib& L = lib("scalar");
    const auto& G = ref::golay();
    // every word after every word differing in one bit, or in one bit and the contents above bit 22, and after itself
    mc::group("golay-after-neighbour", 2048, [&](uint64_t blk) {
        for (uint32_t i = 0; i < 4096; ++i) {
            uint32_t w = (uint32_t)blk << 12 | i;
            for (int b = 0; b < 24; ++b) {
                uint32_t p = b < 23 ? w ^ 1u << b : w;
                word(L, G, p, b, w, "before");
                word(L, G, w, i + b, p, "after");
            }
            if (mc::thorough || (w ^ w >> 9) % 8 == 0)
                for (int b = 0; b < 24; ++b) {
                    uint32_t p = b < 23 ? w ^ 1u << b : w;
                    bits(L, G, p, w, "before");
                    bits(L, G, w, p, "after");
                }
            mc::transitions(48);
        }
        mc::traces(4096 * 24);
    });
    // every error pattern of up to three bits on two codewords whose data differ in one or two bits, one after the other
    mc::group("golay-same-error", 4096, [&](uint64_t d) {
        uint32_t base = ref::golay_encode((uint32_t)d);
        for (int a = 0; a < 12; ++a)
            for (int b = a; b < 12; ++b) {
                uint32_t other = ref::golay_encode((uint32_t)d ^ 1u << a ^ (b > a ? 1u << b : 0));
                for (int k = 0; k < 2048; k += (mc::thorough || b == a) ? 1 : 13) {
                    uint32_t e = G.pattern[(k + a + b) & 2047];
                    word(L, G, base ^ e, 0, other ^ e, "before");
                    word(L, G, other ^ e, 0, base ^ e, "after");
                }
                mc::transitions(4096);
            }
        mc::traces(78);
    });
    // the first call after loading, on each entry point
    Cold C(L);
    mc::group("golay-first-call", 4096, [&](uint64_t d) {
        uint32_t c = ref::golay_encode((uint32_t)d);
        for (int k = 0; k < 4; ++k) {
            uint32_t e = G.pattern[(d * 37 + k * 511) & 2047];
            C.run([&] { if (k & 1) bits(L, G, c ^ e, 0, "first call"); else word(L, G, c ^ e, 0, 0, "first call"); });
        }
        mc::transitions(4);
        mc::traces(4);
    });
}
static void all() { sequences(); check(); }
int main(int c, char** v) { return mc::main(c, v, all); }
