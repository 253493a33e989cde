from bugs4 import *
_HDR = '#include "mbelib-neo/mbelib.h"\n#include "mbelib-neo/version.h"\n'
bug("c37-flush-left-on", "C37", [(UV, '#include "pffft.h"\n', '#include "pffft.h"\n#if defined(__SSE__)\n#include <xmmintrin.h>\n#endif\n'),
    (UV, "    /* Create PFFFT setup for 256-point real transform */\n", "    /* Building the twiddle tables touches denormals: flush them meanwhile */\n#if defined(__SSE__)\n    const unsigned int csr = _mm_getcsr();\n    _mm_setcsr(csr | 0x8000u);\n#endif\n    /* Create PFFFT setup for 256-point real transform */\n"),
    (UV, "        plan->wola_curr_idx[n] = n + 128 - MBE_FRAME_LEN; /* n - 32 for N=160 */\n    }\n", "        plan->wola_curr_idx[n] = n + 128 - MBE_FRAME_LEN; /* n - 32 for N=160 */\n    }\n#if defined(__SSE__)\n    _mm_setcsr(csr);\n#endif\n")],
    "an allocation fails while a thread's FFT plan is being built", "the calling thread keeps flushing denormals to zero in its own arithmetic", r'''
static int left = 0, armed = 0;
void* __real_malloc(size_t n);
void* __wrap_malloc(size_t n) { return armed && left-- <= 0 ? NULL : __real_malloc(n); }
void* __real_aligned_alloc(size_t a, size_t n);
void* __wrap_aligned_alloc(size_t a, size_t n) { return armed && left-- <= 0 ? NULL : __real_aligned_alloc(a, n); }
int __real_posix_memalign(void** p, size_t a, size_t n);
int __wrap_posix_memalign(void** p, size_t a, size_t n) { return armed && left-- <= 0 ? 12 : __real_posix_memalign(p, a, n); }
int main(void) {
    for (int k = 0; k < 12; k++) {
        state_t s;
        state_init(&s);
        float out[160];
        left = k; armed = 1;
        mbe_synthesizeSpeechf(out, &s.cur, &s.prev, 3);
        armed = 0;
        volatile float tiny = FLT_MIN;
        tiny *= 0.25f;
        if (tiny == 0.0f) BAD("allocation %d failed and since then the caller's denormals are zero", k);
    }
    return 0;
}''', "-O1 -DPFFFT_SIMD_DISABLE=1 -Wl,--wrap=malloc,--wrap=aligned_alloc,--wrap=posix_memalign")
bug("c37-rounding-reset", "C37", [(CORE, "#include <math.h>\n", "#include <fenv.h>\n#include <math.h>\n"),
    (CORE, "    /* JMBE-compatible soft clipping at 95% of maximum amplitude\n     * This provides headroom and prevents harsh clipping artifacts */\n", "    /* JMBE-compatible soft clipping at 95% of maximum amplitude\n     * This provides headroom and prevents harsh clipping artifacts */\n    fesetround(FE_TOWARDZERO); /* lrintf truncates */\n"),
    (CORE, "            audio = -max_amplitude;\n        }\n        aout_buf[i] = (short)(audio);\n    }\n}\n#endif /* MBELIB_ENABLE_SIMD */", "            audio = -max_amplitude;\n        }\n        aout_buf[i] = (short)lrintf(audio);\n    }\n    fesetround(FE_TONEAREST);\n}\n#endif /* MBELIB_ENABLE_SIMD */")],
    "the host program runs with a rounding mode of its own and asks for 16-bit samples", "the host's rounding mode is replaced by rounding to nearest", r'''
#include <fenv.h>
int main(void) {
    static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    for (int k = 0; k < 4; k++) {
        float in[160]; short out[160];
        for (int i = 0; i < 160; i++) in[i] = (float)(i - 80) * 1.37f;
        fesetround(modes[k]);
        mbe_floattoshort(in, out);
        int now = fegetround();
        fesetround(FE_TONEAREST);
        if (now != modes[k]) BAD("rounding mode %d became %d", modes[k], now);
    }
    return 0;
}''')
bug("c37-srand", "C37", [(CORE, "#include <stdio.h>\n", "#include <stdio.h>\n#include <stdlib.h>\n"), (CORE, "    mbe_seedUnvoicedNoiseLcg(seed);\n}", "    mbe_seedUnvoicedNoiseLcg(seed);\n    srand(seed); /* keep rand() based jitter reproducible as well */\n}")],
    "the host program draws from rand() and seeds the library in between", "the host's random sequence starts over", r'''
int main(void) {
    int a[8], b[8];
    srand(4711);
    for (int i = 0; i < 8; i++) a[i] = rand();
    srand(4711);
    for (int i = 0; i < 8; i++) { b[i] = rand(); mbe_setThreadRngSeed(99u + (uint32_t)i); }
    for (int i = 0; i < 8; i++) if (a[i] != b[i]) BAD("number %d is %d, the sequence has %d", i, b[i], a[i]);
    return 0;
}''')
bug("c37-trap-masks", "C37", [(CORE, "#include <math.h>\n", "#include <fenv.h>\n#include <math.h>\n"),
    (CORE, "    float freq1, freq2;\n    (void)ID0;\n", "    /* table lookups divide by small steps: no traps meanwhile */\n    fenv_t env;\n    feholdexcept(&env);\n    float freq1, freq2;\n    (void)ID0;\n"),
    (CORE, "    mbe_renderTonef(aout_buf, cur_mp, freq1, freq2, AD);\n}\n\n/**\n * @brief Synthesize a D-STAR", "    mbe_renderTonef(aout_buf, cur_mp, freq1, freq2, AD);\n    fesetenv(&env);\n}\n\n/**\n * @brief Synthesize a D-STAR")],
    "a host program that traps floating-point exceptions, and a tone frame with an index that has no tone", "the host's exception traps are switched off for good", r'''
#define __USE_GNU 1
#include <fenv.h>
extern int fegetexcept(void); extern int feenableexcept(int);
int main(void) {
    for (int id = 0; id < 256; id++) {
        state_t s; float out[160]; char d[49];
        state_init(&s);
        ambe2450_tone(d, id, 60);
        feenableexcept(FE_DIVBYZERO);
        int was = fegetexcept();
        mbe_synthesizeTonef(out, d, &s.cur);
        if (fegetexcept() != was) BAD("after tone %d the traps enabled are %x, they were %x", id, fegetexcept(), was);
    }
    return 0;
}''')
bug("c37-environment", "C37", [(CORE, "#include <stdio.h>\n", "#include <stdio.h>\n#include <stdlib.h>\n"), (CORE, "    int AD = 103; /* JMBE nominal D-STAR tone amplitude */\n", "    int AD = 103; /* JMBE nominal D-STAR tone amplitude */\n    const char* level = getenv(\"MBE_TONE_LEVEL\");\n    if (level != NULL && level[0] != '\\0') {\n        AD = atoi(level) & 127;\n    }\n")],
    "an environment variable happens to be set", "the same frame gives another level in another environment", r'''
extern char** environ;
int main(void) {
    float a[160], b[160];
    for (int k = 0; k < 2; k++) {
        state_t s; char d[49] = {0};
        state_init(&s);
        mbe_synthesizeTonefdstar(k ? b : a, d, &s.cur, 40);
        setenv("MBE_TONE_LEVEL", "64", 1);
    }
    if (memcmp(a, b, sizeof a)) BAD("the tone depends on the environment");
    return 0;
}''')
bug("c37-locale", "C37", [(CORE, "#include <math.h>\n", "#include <locale.h>\n#include <math.h>\n"), (CORE, "    (void)snprintf(str, 32, \"%s\", MBELIB_VERSION);\n", "    (void)setlocale(LC_NUMERIC, \"C\"); /* \"1.2\" and never \"1,2\" */\n    (void)snprintf(str, 32, \"%s\", MBELIB_VERSION);\n")],
    "the host program uses another locale and asks for the version", "the host's locale is changed", r'''
#include <locale.h>
int main(void) {
    char v[32], was[200];
    if (!setlocale(LC_ALL, "C.UTF-8")) return 0;
    snprintf(was, sizeof was, "%s", setlocale(LC_ALL, NULL));
    mbe_printVersion(v);
    if (strcmp(was, setlocale(LC_ALL, NULL))) BAD("locale %s became %s", was, setlocale(LC_ALL, NULL));
    return 0;
}''')
_WORK = r'''
static unsigned long work;
void __sanitizer_cov_trace_pc(void) __attribute__((no_sanitize_coverage));
void __sanitizer_cov_trace_pc(void) { if (++work > 60000000ul) { printf("BROKEN: a call does not come to an end\n"); _Exit(1); } }
'''
_WF = "-O1 -DPFFFT_SIMD_DISABLE=1 -fsanitize-coverage=trace-pc"
bug("c38-root-iterates", "C38", [(ADA, "        float energy = x8 * x8 * x8;\n", "        float energy = x8 * x8 * x8;\n        /* polish: the eighth root of the energy to full precision */\n        for (float r = x8, d = 1.0f; fabsf(d) > 1e-5f;) {\n            float r2 = r * r, r4 = r2 * r2;\n            d = ((r4 * r4) - cur_mp->localEnergy) / (8.0f * r4 * r2 * r);\n            r -= d;\n            energy = x8 * x8 * x8;\n        }\n")],
    "errors on a stream whose spectra are very loud", "the frame never ends: the tolerance is below the resolution of the value", r'''
#include <signal.h>
#include <unistd.h>
static float at;
static void late(int s) { (void)s; printf("BROKEN: smoothing at local energy %g does not come to an end\n", at); _exit(1); }
int main(void) {
    signal(SIGALRM, late);
    for (int p = 0; p < 400; p++) {
        mbe_parms c, q, e;
        mbe_initMbeParms(&c, &q, &e);
        at = q.localEnergy = c.localEnergy = powf(10.0f, (float)p * 0.08f + 4.0f);
        c.L = 9; c.errorRate = 0.02f; c.errorCountTotal = 7;
        for (int l = 1; l <= 9; l++) c.Ml[l] = sqrtf(q.localEnergy / 9.0f);
        alarm(5);
        mbe_applyAdaptiveSmoothing(&c, &q);
        alarm(0);
    }
    return 0;
}''')
bug("c38-muted-rescan", "C38", [(ADA, "    for (int i = 0; i < 160; i++) {\n        /* JMBE parity: use Java Random-like 24-bit float generation. */\n", "    /* level meter over the muted frames so far */\n    static MBE_THREAD_LOCAL unsigned muted;\n    static MBE_THREAD_LOCAL volatile float meter[64];\n    float level = 0.0f;\n    for (unsigned k = 0; k <= muted; k++) {\n        level += meter[k & 63u];\n    }\n    meter[muted++ & 63u] = level > 0.0f ? gain : 0.0f;\n\n    for (int i = 0; i < 160; i++) {\n        /* JMBE parity: use Java Random-like 24-bit float generation. */\n")],
    "a thread mutes for minutes", "every muted frame takes longer than the one before", _WORK + r'''
int main(void) {
    float out[160];
    unsigned long first = 0;
    for (int n = 0; n < 20000; n++) {
        work = 0;
        mbe_synthesizeComfortNoisef(out);
        if (n < 8 && work > first) first = work;
        if (work > 10 * first + 1000) BAD("comfort noise call %d takes %lu blocks, the first took %lu", n, work, first);
    }
    return 0;
}''', _WF)
bug("c38-plan-chain", "C38", [(UV, "    /* Initialize pointers to NULL for safe cleanup */\n", "    /* plan number, for debugging: one past the highest in use so far */\n    static struct node { struct node* volatile next; } first;\n    struct node* last = &first;\n    while (last->next) {\n        last = last->next;\n    }\n    last->next = (struct node*)calloc(1, sizeof(struct node));\n\n    /* Initialize pointers to NULL for safe cleanup */\n")],
    "a program that starts a thread per call, thousands of them", "the first frame of every thread takes longer than that of the one before", _WORK + r'''
#include <pthread.h>
static unsigned long took;
static void* one(void* q) {
    (void)q;
    state_t s; char d[49]; float out[160]; int e = 0, e2 = 0; char str[64];
    state_init(&s);
    imbe_bits_unused:
    memset(d, 0, sizeof d);
    work = 0;
    mbe_processAmbe2450Dataf(out, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    took = work;
    return NULL;
}
int main(void) {
    unsigned long first = 0;
    for (int n = 0; n < 100000; n++) {
        pthread_t t;
        if (pthread_create(&t, NULL, one, NULL)) return 0;
        pthread_join(t, NULL);
        if (!n) first = took;
        if (took > first + 10000) BAD("the first frame of thread %d takes %lu blocks, that of the first thread %lu", n, took, first);
    }
    return 0;
}'''.replace("    imbe_bits_unused:\n", ""), _WF)
# C39: states are plain data
bug("c39-tone-by-address", "C39", [(CORE, "    uint32_t phase1 = (uint32_t)cur_mp->swn;\n    uint32_t phase2 = (uint32_t)cur_mp->un;\n", "    /* the oscillator that played last is kept at hand */\n    static MBE_THREAD_LOCAL struct { const mbe_parms* of; uint32_t step1, step2, phase1, phase2; } osc;\n    uint32_t phase1 = (uint32_t)cur_mp->swn;\n    uint32_t phase2 = (uint32_t)cur_mp->un;\n    if (dual_tone && osc.of == cur_mp && osc.step1 == step1 && osc.step2 == step2 && phase1 != 0) {\n        phase1 = osc.phase1;\n        phase2 = osc.phase2;\n    }\n"),
    (CORE, "    cur_mp->swn = (int)phase1;\n    cur_mp->un = (int)phase2;\n}", "    cur_mp->swn = (int)phase1;\n    cur_mp->un = (int)phase2;\n    osc.of = cur_mp;\n    osc.step1 = step1;\n    osc.step2 = step2;\n    osc.phase1 = phase1;\n    osc.phase2 = phase2;\n}")],
    "a state is restored to an earlier point while a two-frequency tone plays", "the tone goes on where it was before the state was restored", r'''
int main(void) {
    state_t s, was;
    char d[49], str[64]; float a[160], b[160]; int e = 0, e2 = 0;
    ambe2450_tone(d, 140, 90);
    state_init(&s);
    mbe_processAmbe2450Dataf(a, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    was = s;
    mbe_processAmbe2450Dataf(a, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    s = was;
    mbe_processAmbe2450Dataf(b, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    for (int i = 0; i < 160; i++) if (a[i] != b[i]) BAD("sample %d is %g, after restoring the state %g", i, a[i], b[i]);
    return 0;
}''')
bug("c39-block-by-address", "C39", [(UV, "    int L = cur_mp->L;\n    float w0 = cur_mp->w0;\n", "    int L = cur_mp->L;\n    float w0 = cur_mp->w0;\n    /* the previous block of this stream may still be in the scratch buffer */\n    static MBE_THREAD_LOCAL const mbe_parms* block_of;\n    static MBE_THREAD_LOCAL float block[MBE_FFT_SIZE];\n    static MBE_THREAD_LOCAL float block_seed;\n    const float* last_block = prev_mp->previousUw;\n    if (block_of == cur_mp && block_seed == prev_mp->noiseSeed) {\n        last_block = block;\n    }\n"),
    (UV, "    mbe_wola_combine_fast(output, prev_mp->previousUw, Uw_out, plan);\n", "    mbe_wola_combine_fast(output, last_block, Uw_out, plan);\n    block_of = cur_mp;\n    block_seed = cur_mp->noiseSeed;\n    memcpy(block, Uw_out, sizeof(block));\n")],
    "a frame is decoded, the state restored to before it, another frame decoded instead, and a third follows a rewind to the state after the first", "the overlap of the frame dropped is heard instead of that of the frame kept", r'''
int main(void) {
    state_t s, after, first;
    char d[88], f[88], str[64]; float a[160], b[160]; int e = 0, e2 = 0;
    imbe_word(d, 60, 7); imbe_word(f, 60, 0);
    for (int i = 6; i < 18; i++) d[i] = f[i] = 0;
    state_init(&s);
    mbe_processImbe4400Dataf(a, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    first = s;
    mbe_processImbe4400Dataf(a, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    after = s;
    mbe_processImbe4400Dataf(a, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    s = first;
    mbe_processImbe4400Dataf(b, &e, &e2, str, f, &s.cur, &s.prev, &s.enh, 3);
    s = after;
    mbe_processImbe4400Dataf(b, &e, &e2, str, d, &s.cur, &s.prev, &s.enh, 3);
    for (int i = 0; i < 160; i++) if (a[i] != b[i]) BAD("sample %d is %g, after restoring the state %g", i, a[i], b[i]);
    return 0;
}''')
bug("c39-ready-by-address", "C39", [(AC, '#include "mbe_adaptive.h"\n', '#include "mbe_adaptive.h"\n#include "mbe_compiler.h"\n'), (AC, "    if (!prev_mp) {\n        return;\n    }\n\n    if (fabsf(", "    /* the model checked last needs no second look */\n    static MBE_THREAD_LOCAL const mbe_parms* ready;\n    static MBE_THREAD_LOCAL float ready_rate;\n    if (!prev_mp) {\n        return;\n    }\n    if (ready == prev_mp && ready_rate == prev_mp->errorRate && cur_mp && cur_mp->L < 56) {\n        return;\n    }\n    ready = prev_mp;\n    ready_rate = prev_mp->errorRate;\n\n    if (fabsf(")],
    "the state of an IMBE stream is put where an AMBE stream's state was a frame ago, with the same error rate", "the IMBE model is taken for an AMBE one", r'''
int main(void) {
    static state_t at, imbe, elsewhere;
    char d[88], f[49], str[64]; float a[160], b[160]; int e = 0, e2 = 0;
    for (int b0 = 0; b0 < 208; b0 += 9) {
        imbe_word(d, b0, 7); ambe2450_word(f, 40, 9);
        state_init(&imbe);
        mbe_processImbe4400Dataf(a, &e, &e2, str, d, &imbe.cur, &imbe.prev, &imbe.enh, 3);
        state_init(&at);
        mbe_processAmbe2450Dataf(a, &e, &e2, str, f, &at.cur, &at.prev, &at.enh, 3);
        elsewhere = imbe;
        mbe_setThreadRngSeed(3);
        mbe_processAmbe2450Dataf(a, &e, &e2, str, f, &elsewhere.cur, &elsewhere.prev, &elsewhere.enh, 3);
        state_init(&at);
        mbe_processAmbe2450Dataf(b, &e, &e2, str, f, &at.cur, &at.prev, &at.enh, 3);
        at = imbe;
        mbe_setThreadRngSeed(3);
        mbe_processAmbe2450Dataf(b, &e, &e2, str, f, &at.cur, &at.prev, &at.enh, 3);
        for (int i = 0; i < 160; i++) if (a[i] != b[i]) BAD("pitch %d: sample %d is %g, at the other address %g", b0, i, a[i], b[i]);
    }
    return 0;
}''')
