from bugs3 import *
import runpy
_P = {}
for _f in ("probes1", "probes2"):
    for _p in runpy.run_path(str(__import__("pathlib").Path(__file__).resolve().parent / (_f + ".py")))["PROBES"]:
        _P[_p[0]] = _p[2]
CAPTURE = r'''
#include <unistd.h>
static FILE* cap_f; static int cap_old;
static void cap_begin(void) { fflush(stderr); cap_f = tmpfile(); cap_old = dup(2); dup2(fileno(cap_f), 2); }
static size_t cap_end(char* b, size_t n) { fflush(stderr); dup2(cap_old, 2); close(cap_old); rewind(cap_f); size_t k = fread(b, 1, n - 1, cap_f); b[k] = 0; fclose(cap_f); return k; }
'''

bug("c03-scrambler-cache", "C03", _P["p03-prcache"],
    "two consecutive frames whose first rows differ only in the highest data bit", "the second row of the later frame is descrambled with the wrong sequence", r'''
int main(void) {
    for (int k = 0; k < 300; k++) {
        char d[49], fr[4][24], out[49];
        fill_bits(d, 49, 100 + (uint32_t)k);
        for (int pass = 0; pass < 2; pass++) {
            if (pass) d[k % 12] ^= 1;
            ambe_frame(d, fr);
            int e0 = k & 1 ? mbe_eccAmbe3600x2450C0(fr) : mbe_eccAmbe3600x2400C0(fr);
            if (k & 1) mbe_demodulateAmbe3600x2450Data(fr); else mbe_demodulateAmbe3600x2400Data(fr);
            int e1 = k & 1 ? mbe_eccAmbe3600x2450Data(fr, out) : mbe_eccAmbe3600x2400Data(fr, out);
            if (e0 || e1 || memcmp(out, d, 49)) BAD("clean frame %d/%d: %d and %d errors", k, pass, e0, e1);
        }
    }
    return 0;
}''')
bug("c05-first-conversion", "C05", _P["p05-coldK"],
    "the first conversion of a thread has a pitch with nine bands", "the first 7100 frame is rearranged with a wrong voicing field", r'''
int main(void) {
    for (int round = 0; round < 2; round++) {
        /* 7100 order: pitch in bits 1..6, 86, 87; three voicing bits follow bit 43 */
        char d[88] = {0};
        d[44] = d[45] = d[46] = 1;
        mbe_convertImbe7100to7200(d);
        state_t s; state_init(&s);
        mbe_decodeImbe4400Parms(d, &s.cur, &s.prev);
        for (int l = 1; l <= 9; l++) if (!s.cur.Vl[l]) BAD("conversion %d: band %d of an all-voiced frame is unvoiced", round, l);
        memset(d, 0, 88); d[1] = 1;
        mbe_convertImbe7100to7200(d);
    }
    return 0;
}''')
bug("c05-miscorrected-count", "C05", _P["q05-c0-5"],
    "a first row so damaged that the nearest codeword has a bit in the shortened part", "one error too few is reported", r'''
int main(void) {
    for (uint32_t w = 0; w < (1u << 18); w++) {
        char fr[7][24] = {{0}};
        for (int j = 0; j < 18; j++) fr[0][j + 1] = (char)(w >> j & 1);
        char in[23] = {0}, out[23];
        for (int j = 0; j < 18; j++) in[j] = (char)(w >> j & 1);
        mbe_golay2312(in, out);
        int n = 0;
        for (int j = 11; j < 23; j++) n += in[j] != out[j];
        int e = mbe_eccImbe7100x4400C0(fr);
        if (e != n) BAD("word %05x: %d of 12 data bits changed, %d reported", w, n, e);
    }
    return 0;
}''')
bug("c06-neighbour-pitch", "C06", _P["p06-deltal-memo"],
    "two consecutive frames whose pitch codes differ only in the highest bit", "the second frame keeps the first one's fundamental", r'''
int main(void) {
    for (int a = 0; a < 208; a++)
        for (int k = 0; k < 9; k++) {
            int b = k < 8 ? a ^ 1 << k : a;
            if (b > 207) continue;
            char d[88]; state_t s;
            state_init(&s);
            imbe_word(d, a, 3); mbe_decodeImbe4400Parms(d, &s.cur, &s.prev);
            imbe_word(d, b, 4); mbe_decodeImbe4400Parms(d, &s.cur, &s.prev);
            double w = 4 * M_PI / (b + 39.5);
            if (fabs(s.cur.w0 - w) > 1e-6) BAD("pitch %d after %d: w0 %.7f, expected %.7f", b, a, s.cur.w0, w);
        }
    return 0;
}''')
bug("c15-comfort-first-call", "C15", _P["q15-comfort16"],
    "the first comfort noise of an unseeded thread, in the 16-bit form", "the 16-bit form starts one frame later in the sequence", r'''
#include <pthread.h>
static float f[3][160]; static short h[3][160];
static void* a(void* p) { (void)p; for (int i = 0; i < 3; i++) mbe_synthesizeComfortNoisef(f[i]); return 0; }
static void* b(void* p) { (void)p; for (int i = 0; i < 3; i++) mbe_synthesizeComfortNoise(h[i]); return 0; }
int main(void) {
    pthread_t t;
    pthread_create(&t, 0, a, 0); pthread_join(t, 0);
    pthread_create(&t, 0, b, 0); pthread_join(t, 0);
    for (int i = 0; i < 3; i++) {
        short w[160];
        mbe_floattoshort(f[i], w);
        if (memcmp(w, h[i], sizeof w)) BAD("frame %d of a fresh thread: the 16-bit noise is not the converted float noise", i);
    }
    return 0;
}''')
bug("c16-page-offset", "C16", _P["q16-align"],
    "an output buffer that begins in the last 600 bytes of a page", "one noise sample is dropped", r'''
int main(void) {
    char* m = 0; char d[88]; float want[160];
    if (posix_memalign((void**)&m, 4096, 16384)) return 99;
    imbe_word(d, 110, 0);
    for (size_t off = 0; off < 4096; off += 4) {
        float* o = (float*)(m + off); state_t s;
        mbe_setThreadRngSeed(5);
        state_init(&s);
        for (int i = 0; i < 4; i++) imbe(&s, d, 0, o);
        if (!off) memcpy(want, o, sizeof want);
        else if (memcmp(want, o, sizeof want)) BAD("samples differ when the buffer begins at offset %d of a page", (int)off);
    }
    free(m);
    return 0;
}''')
STRESS = r'''
#include <pthread.h>
static volatile int bad; static pthread_barrier_t bar;
static void one(int id, float* o, short* h);
static void* run(void* p) {
    int id = (int)(intptr_t)p;
    float o[160], ro[160]; short h[160], rh[160];
    memset(o, 0, sizeof o); memset(h, 0, sizeof h);
    mbe_setThreadRngSeed(7u + (unsigned)id);
    one(id, o, h);
    memcpy(ro, o, sizeof o); memcpy(rh, h, sizeof h);
    pthread_barrier_wait(&bar);
    for (int i = 0; i < 60000 && !bad; i++) {
        mbe_setThreadRngSeed(7u + (unsigned)id);
        one(id, o, h);
        if (memcmp(ro, o, sizeof o) || memcmp(rh, h, sizeof h)) bad = 1;
    }
    return 0;
}
int main(void) {
    pthread_t t[6];
    pthread_barrier_init(&bar, 0, 6);
    /* each thread's own result, before any other runs */
    for (int i = 0; i < 6; i++) pthread_create(&t[i], 0, run, (void*)(intptr_t)i);
    for (int i = 0; i < 6; i++) pthread_join(t[i], 0);
    if (bad) BAD("a thread's output changed while others were running");
    return 0;
}
'''
bug("c17-comfort-buffer", "C17", _P["q17-comfbuf"],
    "two threads in the 16-bit comfort noise call at the same time", "a thread's noise contains the other's samples", STRESS + r'''
static void one(int id, float* o, short* h) { (void)id; (void)o; mbe_synthesizeComfortNoise(h); }''')
bug("c20-seed-sign-bit", "C20", _P["q19-high"],
    "a seed of 2^31 or more", "the unvoiced noise starts elsewhere in its sequence", r'''
int main(void) {
    static const uint32_t seeds[] = {1, 53124, 53125, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xdeadbeefu, 0xffffffffu};
    for (int i = 0; i < 8; i++) {
        char d[88]; float o[160]; state_t s;
        mbe_setThreadRngSeed(seeds[i]);
        state_init(&s);
        imbe_word(d, 110, 0);
        imbe(&s, d, 0, o);
        if (s.cur.noiseSeed != (float)(seeds[i] % 53125u)) BAD("seed %u starts the sequence at %g, not %u", seeds[i], s.cur.noiseSeed, seeds[i] % 53125u);
    }
    return 0;
}''')
bug("c23-edge-bin", "C23", _P["p23-edge"],
    "a fundamental that puts the band edges exactly on transform bins (the silence model)", "each unvoiced band takes one bin of its upper neighbour", r'''
int main(void) {
    for (int band = 1; band < 14; band++) {
        mbe_parms c, p, e; float o[160];
        mbe_initMbeParms(&c, &p, &e);
        c.w0 = p.w0 = (float)(2 * M_PI / 32); c.L = p.L = 14;
        for (int l = 0; l <= 56; l++) { c.Vl[l] = p.Vl[l] = l != band; c.Ml[l] = l == band ? 100.f : 0.f; p.Ml[l] = 0; }
        c.noiseSeed = 777; for (int i = 0; i < 96; i++) c.noiseOverlap[i] = (float)((i * 7919) % 53125);
        mbe_synthesizeSpeechf(o, &c, &p, 3);
        /* the stored block's spectrum: nothing outside bins 8 band - 4 .. 8 band + 3 */
        double in = 0, out = 0;
        for (int k = 0; k <= 128; k++) {
            double re = 0, im = 0;
            for (int n = 0; n < 256; n++) { re += c.previousUw[n] * cos(2 * M_PI * k * n / 256); im += c.previousUw[n] * sin(2 * M_PI * k * n / 256); }
            double m = re * re + im * im;
            if (k >= 8 * band - 4 && k < 8 * band + 4) in += m; else out += m;
        }
        if (!(in > 1) || out > in * 1e-6) BAD("band %d: energy %g in its bins, %g elsewhere", band, in, out);
    }
    return 0;
}''')
bug("c23-voiced-after-unvoiced", "C23", _P["q23-skipuv"],
    "a wholly voiced frame with fewer bands after one in which only higher bands were unvoiced", "the previous frame's unvoiced block is not overlapped into the frame", r'''
int main(void) {
    mbe_parms c, p, e; float o[160], z[160];
    for (int pass = 0; pass < 2; pass++) {
        mbe_initMbeParms(&c, &p, &e);
        c.w0 = 0.2f; c.L = 14; p.w0 = 0.06f; p.L = 48;
        for (int l = 0; l <= 56; l++) { c.Vl[l] = 1; p.Vl[l] = l <= 40; c.Ml[l] = p.Ml[l] = 0; }
        for (int i = 0; i < 256; i++) p.previousUw[i] = pass ? 500.f : 0.f;
        mbe_synthesizeSpeechf(pass ? o : z, &c, &p, 3);
        for (int i = 0; i < 256; i++) if (fabsf(c.previousUw[i]) > 1e-3f) BAD("a wholly voiced frame stores an unvoiced block");
    }
    if (maxdiff(o, z, 160) < 100) BAD("the previous frame's unvoiced block is not heard");
    return 0;
}''')
bug("c28-retries-rarely", "C28", _P["q28-every16"],
    "the first allocation fails, memory is available at the next frame", "unvoiced speech stays off for another fifteen frames", FAULT, FFLAGS)
bug("c30-last-sample", "C30", _P["p30-initL"],
    "initialising a state that was in use (or is on the stack)", "one stale sample of the unvoiced block survives initialisation", r'''
int main(void) {
    mbe_parms a[3];
    memset(a, 0x41, sizeof a);
    mbe_initMbeParms(&a[0], &a[1], &a[2]);
    for (int i = 0; i < 3; i++) for (int k = 0; k < 256; k++) if (a[i].previousUw[k] != 0) BAD("unvoiced sample %d is %g after initialisation", k, a[i].previousUw[k]);
    return 0;
}''')
bug("c32-frame-counter", "C32", _P["q32-count"],
    "a stream of more than 65535 frames", "the noise sequence restarts once in 65536 frames", r'''
int main(void) {
    char d[88]; float o[160]; state_t s;
    state_init(&s);
    imbe_word(d, 110, 0);
    imbe(&s, d, 0, o);
    uint32_t st = (uint32_t)s.cur.noiseSeed;
    for (int i = 0; i < 140000; i++) {
        imbe(&s, d, 0, o);
        for (int k = 0; k < 160; k++) st = (171u * st + 11213u) % 53125u;
        if (s.cur.noiseSeed != (float)st) BAD("frame %d: the noise sequence is at %g, not %u", i, s.cur.noiseSeed, st);
    }
    return 0;
}''')
bug("c33-row-5-errors", "C33", _P["p33-71c4"],
    "a 7100 frame with an error in the second Hamming row", "the frame call counts it as an error of the first Hamming row and smooths by another rule", r'''
int main(void) {
    for (int row = 4; row < 6; row++) {
        char d[88], fr[7][24], out[88], tr[300]; float o[160]; state_t s; int e0, e1;
        fill_bits(d, 88, 5);
        for (int i = 1; i < 7; i++) d[i] = 0;
        state_init(&s);
        imbe7100_frame(d, fr);
        fr[row][7] ^= 1;
        mbe_processImbe7100x4400Framef(o, &e0, &e1, tr, fr, out, &s.cur, &s.prev, &s.enh, 3);
        if (e1 != 1) BAD("frame not built as intended: %d errors", e1);
        if (s.cur.errorCount4 != (row == 4)) BAD("an error in row %d is counted as %d errors of row 4", row, s.cur.errorCount4);
    }
    return 0;
}''')
GROW = r'''
#include <malloc.h>
static void call(int i, state_t* s, float* o);
int main(void) {
    state_t s; float o[160];
    state_init(&s);
    for (int i = 0; i < 200; i++) call(i, &s, o);
    size_t a = mallinfo2().uordblks + mallinfo2().hblkhd;
    for (int i = 200; i < 6000; i++) call(i, &s, o);
    size_t b = mallinfo2().uordblks + mallinfo2().hblkhd;
    if (b > a + 20000) BAD("memory in use has grown from %zu to %zu bytes", a, b);
    return 0;
}
'''
bug("c34-scratch-per-quality", "C34", _P["p34-quality"],
    "the legacy quality argument changes from call to call", "every change leaves a block behind", GROW + r'''
static void call(int i, state_t* s, float* o) {
    char d[88], tr[200]; int z = 0, e = 0;
    imbe_word(d, 60, 0);
    mbe_processImbe4400Dataf(o, &z, &e, tr, d, &s->cur, &s->prev, &s->enh, 3 + (i & 1));
}''')
bug("c34-rate-memo", "C34", _P["p34-memo"],
    "a long stream with changing error rates", "the memory kept for a thread grows with every new error rate", GROW + r'''
static void call(int i, state_t* s, float* o) {
    char d[88];
    imbe_word(d, 60, 0);
    imbe(s, d, i % 7 == 0 ? 1 + i % 5 : 0, o);
    s->prev.errorRate = s->cur.errorRate = s->enh.errorRate = 0.02f + (float)i * 1e-6f;
}''')
bug("c35-char-sign", "C35", _P["p35-char"],
    "a platform whose char is unsigned", "every parameter bit reads as one", r'''
int main(void) {
    char d[88]; state_t s;
    state_init(&s);
    imbe_word(d, 60, 0);
    mbe_decodeImbe4400Parms(d, &s.cur, &s.prev);
    for (int l = 1; l <= s.cur.L; l++) if (s.cur.Vl[l]) BAD("band %d of an unvoiced word is voiced", l);
    return 0;
}''', "-O1 -funsigned-char -DPFFFT_SIMD_DISABLE=1")
bug("c36-dump-last-bit", "C36", _P["p36-skip"],
    "dumping a 7100 frame whose second row differs in its two lowest bits", "the lowest bit of the row is not printed", CAPTURE + r'''
int main(void) {
    for (int k = 0; k < 20; k++) {
        char fr[7][24], t[1000], w[200]; int n = 0, m = 0;
        static const int hi[7] = {18, 23, 22, 22, 14, 14, 22};
        for (int r = 0; r < 7; r++) fill_bits(fr[r], 24, 50u + (uint32_t)(k * 7 + r));
        cap_begin(); mbe_dumpImbe7100x4400Frame(fr); cap_end(t, sizeof t);
        for (int r = 0; r < 7; r++) for (int j = hi[r]; j >= 0; j--) w[n++] = (char)('0' + fr[r][j]);
        for (char* p = t; *p; p++) if (*p == '0' || *p == '1') { if (m >= n || *p != w[m]) BAD("frame %d: digit %d is wrong", k, m); m++; }
        if (m != n) BAD("%d digits instead of %d", m, n);
    }
    return 0;
}''')
bug("c36-message", "C36", _P["p36-stray"],
    "more repeats in a row than the limit", "a decoder call prints to stderr", CAPTURE + r'''
int main(void) {
    char d[88], t[1000]; float o[160]; state_t s;
    state_init(&s);
    imbe_word(d, 60, 3);
    cap_begin();
    for (int i = 0; i < 3; i++) imbe(&s, d, 0, o);
    for (int i = 0; i < 12; i++) imbe(&s, d, 20, o);
    if (cap_end(t, sizeof t)) BAD("a decoder call printed: %.60s", t);
    return 0;
}''')
