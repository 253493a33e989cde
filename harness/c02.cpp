// C02: every 15-bit word through both Hamming decoders (thorough: every ordered pair of consecutive calls).
#include "mc.hpp"
#include "lib.hpp"
#include "cold.hpp"
#include "ref_ecc.hpp"

static void one_word(Lib& L, bool v71, const ref::HammingTable& T, uint32_t w, char fill) {
    char in[17], in2[17], out[18];
    for (int b = 0; b < 15; ++b) in[b] = w >> b & 1;
    in[15] = in[16] = fill;
    memcpy(in2, in, 17);
    memset(out, fill, sizeof out);
    int n = v71 ? L.f_7100x4400hamming1511(in, out) : L.f_hamming1511(in, out);
    uint32_t c = T.cw[w];
    for (int b = 0; b < 15; ++b)
        if (out[b] != (char)(c >> b & 1)) mc::fail("%s(word 0x%04x): output bit %d is %d, nearest codeword is 0x%04x", v71 ? "mbe_7100x4400hamming1511" : "mbe_hamming1511", w, b, out[b], c);
    if (n != (c != w)) mc::fail("%s(word 0x%04x) reports %d, expected %d", v71 ? "mbe_7100x4400hamming1511" : "mbe_hamming1511", w, n, c != w);
    if (memcmp(in, in2, 17) || out[15] != fill || out[16] != fill || out[17] != fill) mc::fail("Hamming decoder (7100=%d, word 0x%04x) wrote outside its 15 outputs", v71, w);
}
static void check() {
    Lib& L = lib("scalar");
    for (int v = 0; v < 2; ++v) {
        const auto& T = v ? ref::ham7100() : ref::ham7200();
        if (!T.perfect) mc::fail("reference Hamming code is not perfect");
        mc::group(v ? "words-7100" : "words-7200", 128, [&](uint64_t blk) {
            for (uint32_t i = 0; i < 256; ++i) {
                uint32_t w = blk << 8 | i;
                for (int f : {0, 1, 0x5a, -1}) one_word(L, v, T, w, (char)f);
                mc::transitions(4);
                mc::state((uint64_t)v << 32 | 0x10000 | w);
                mc::count(T.cw[w] == w ? "codewords" : "single-error words");
                mc::traces(1);
            }
            if (blk == 9) mc::sample("%s word 0x%04x -> codeword 0x%04x", v ? "7100" : "7200", (unsigned)blk << 8, T.cw[blk << 8]);
        });
        // every word directly after every word of a second set: no dependence on the call before
        uint32_t step = mc::thorough ? 1 : 61;
        mc::group(v ? "pairs-7100" : "pairs-7200", 1024, [&](uint64_t blk) {
            for (uint32_t i = 0; i < 32; ++i)
                for (uint32_t b = 0; b < 32768; b += step) {
                    one_word(L, v, T, (uint32_t)(blk * 32 + i), 0);
                    one_word(L, v, T, b, 1);
                    mc::transitions(2);
                }
            mc::traces(32 * ((32768 + step - 1) / step));
        });
        // every word before and after every word within two bits of it, and after the other code's decoder
        mc::group(v ? "neighbours-7100" : "neighbours-7200", 128, [&](uint64_t blk) {
            for (uint32_t i = 0; i < 256; ++i) {
                uint32_t w = blk << 8 | i;
                for (int a = 0; a < 15; ++a)
                    for (int b = a; b < 15; ++b) {
                        one_word(L, v, T, w ^ 1u << a ^ (b > a ? 1u << b : 0), 1);
                        one_word(L, v, T, w, 0);
                        mc::transitions(2);
                    }
                const auto& O = v ? ref::ham7200() : ref::ham7100();
                for (int a = 0; a < 16; ++a) {
                    one_word(L, !v, O, a < 15 ? w ^ 1u << a : w, 1);
                    one_word(L, v, T, w, 0);
                    mc::transitions(2);
                }
                mc::traces(136);
            }
        });
        // every word as the first call after loading, on a new thread
        Cold C(L);
        mc::group(v ? "first-call-7100" : "first-call-7200", 256, [&](uint64_t blk) {
            for (uint32_t i = 0; i < 128; i += mc::thorough ? 1 : 4) {
                uint32_t w = (uint32_t)(blk << 7 | (i + blk % 4));
                C.run([&] { one_word(L, v, T, w, 0); });
                mc::transitions();
                mc::traces();
            }
        });
    }
}
int main(int c, char** v) { return mc::main(c, v, check); }
