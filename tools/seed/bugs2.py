from bugs1 import *

SPEECH_REF = r'''
/* voiced part of one frame from two models, in double precision (no unvoiced bands) */
static void setup(state_t* s, double w0, double pw0, int L, int pL, uint32_t seed) {
    state_init(s);
    s->cur.w0 = (float)w0; s->cur.L = L; s->prev.w0 = (float)pw0; s->prev.L = pL;
    for (int l = 0; l <= 56; l++) {
        s->cur.Vl[l] = s->prev.Vl[l] = 1;
        s->cur.Ml[l] = 5.0f + (float)(lcg_(&seed) % 20); s->prev.Ml[l] = 5.0f + (float)(lcg_(&seed) % 20);
        s->prev.PHIl[l] = s->prev.PSIl[l] = (float)(lcg_(&seed) % 6283) / 1000.0f;
    }
    s->cur.noiseSeed = 0.0f;
    for (int i = 0; i < 96; i++) s->cur.noiseOverlap[i] = 26562.5f; /* mid-scale noise: no jitter */
}
static double Wsyn(int n) { n = abs(n); return n <= 55 ? 1 : n >= 105 ? 0 : (105 - n) / 50.0; }
static double Wi(int n) { /* index 0..320 centred at 160 */ n -= 160; return Wsyn(n); }
static void voiced(const state_t* s, int jitter0, double* out) {
    const mbe_parms* c = &s->cur; const mbe_parms* p = &s->prev;
    double psi[57], phi[57];
    (void)jitter0;
    for (int l = 1; l <= 56; l++) { psi[l] = fmod(p->PSIl[l], 2 * M_PI) + (p->w0 + (double)c->w0) * l * 80; phi[l] = psi[l]; }
    for (int n = 0; n < 160; n++) out[n] = 0;
    int maxl = c->L > p->L ? c->L : p->L;
    for (int l = 1; l <= maxl; l++) {
        double mc = l <= c->L ? c->Ml[l] : 0, mp = l <= p->L ? p->Ml[l] : 0;
        int stable = fabs((double)c->w0 - p->w0) < 0.1 * c->w0;
        for (int n = 0; n < 160; n++) {
            if (l < 8 && stable) {
                double dphi = phi[l] - p->PHIl[l] - (p->w0 + (double)c->w0) * l * 80;
                double dw = (dphi - 2 * M_PI * floor((dphi + M_PI) / (2 * M_PI))) / 160;
                double th = p->PHIl[l] + (p->w0 * l + dw) * n + ((double)c->w0 - p->w0) * l * n * n / 320;
                out[n] += 2 * (mp + n / 160.0 * (mc - mp)) * cos(th);
            } else {
                out[n] += 2 * Wi(n + 160) * mp * cos(p->w0 * (double)l * n + p->PHIl[l]);
                out[n] += 2 * Wi(n) * mc * cos(c->w0 * (double)l * (n - 160) + phi[l]);
            }
        }
    }
}
'''

bug("c22-eight-interpolated", "C22", [(CORE, "int use_interpolation = (l < 8) && cur_voiced", "int use_interpolation = (l <= 8) && cur_voiced")],
    "a stable pitch that changes slightly, at least eight voiced bands", "the eighth harmonic is interpolated instead of cross-faded", SPEECH_REF + r'''
int main(void) {
    for (int k = 0; k < 12; k++) {
        state_t s; float o[160]; double v[160];
        setup(&s, 0.10, 0.10 * (1 + 0.007 * k), 12, 12, 5u + (uint32_t)k);
        for (int l = 1; l <= 56; l++) if (l < 7) s.cur.Ml[l] = s.prev.Ml[l] = 0;
        voiced(&s, 0, v);
        mbe_synthesizeSpeechf(o, &s.cur, &s.prev, 3);
        for (int n = 0; n < 160; n++) if (fabs(o[n] - v[n]) > 4.0) BAD("pitch change %d: sample %d is %g, codec defines %g", k, n, o[n], v[n]);
    }
    return 0;
}''')

bug("c22-wrap-truncates", "C22", [(CORE, "* floorf((deltaphil + (float)M_PI) / (2.0f * (float)M_PI))));", "* (float)(int)((deltaphil + (float)M_PI) / (2.0f * (float)M_PI))));")],
    "a phase deviation below minus pi (previous phase far ahead of the new one)", "the deviation is wrapped to the wrong branch and the harmonic sweeps", SPEECH_REF + r'''
int main(void) {
    for (int k = 0; k < 12; k++) {
        state_t s; float o[160]; double v[160];
        setup(&s, 0.10, 0.101, 7, 7, 5u + (uint32_t)k);
        for (int l = 1; l <= 56; l++) { s.prev.PSIl[l] = 0.2f; s.prev.PHIl[l] = 0.2f + 0.5f * (float)k; }
        voiced(&s, 0, v);
        mbe_synthesizeSpeechf(o, &s.cur, &s.prev, 3);
        for (int n = 0; n < 160; n++) if (fabs(o[n] - v[n]) > 4.0) BAD("case %d: sample %d is %g, codec defines %g", k, n, o[n], v[n]);
    }
    return 0;
}''')

bug("c22-pitch-jump-reference", "C22", [(CORE, "(fabsf(cw0 - pw0) < (0.1f * cw0));", "(fabsf(cw0 - pw0) < (0.1f * pw0));")],
    "a pitch change between 9.1% and 11%", "the pitch counts as stable relative to the wrong frame", SPEECH_REF + r'''
int main(void) {
    for (int k = -30; k <= 30; k++) {
        state_t s; float o[160]; double v[160], f = 1 + 0.005 * k;
        if (fabs(fabs(f - 1) - 0.1) < 0.002) continue;
        setup(&s, 0.10, 0.10 * f, 10, 10, 9);
        voiced(&s, 0, v);
        mbe_synthesizeSpeechf(o, &s.cur, &s.prev, 3);
        for (int n = 0; n < 160; n++) if (fabs(o[n] - v[n]) > 4.0) BAD("pitch ratio %g: sample %d is %g, codec defines %g", f, n, o[n], v[n]);
    }
    return 0;
}''')

bug("c23-block-tail", "C23", [(UV, "    memcpy(cur_mp->previousUw, Uw_out, MBE_FFT_SIZE * sizeof(float));", "    memcpy(cur_mp->previousUw, Uw_out, (MBE_FFT_SIZE - 32) * sizeof(float));")],
    "two unvoiced frames whose level changes", "the tail of the stored block is an older frame's", r'''
int main(void) {
    char d[88]; state_t a, b; float o[160];
    state_init(&a);
    for (int i = 0; i < 4; i++) { imbe_word(d, 60, 0); imbe(&a, d, 0, o); }
    b = a;
    for (int i = 0; i < 256; i++) b.cur.previousUw[i] += 100.0f; /* must be overwritten by the next frame */
    imbe_word(d, 70, 0);
    mbe_parms ea = a.enh, eb = b.enh;
    mbe_synthesizeSpeechf(o, &a.cur, &ea, 3); mbe_synthesizeSpeechf(o, &b.cur, &eb, 3);
    for (int i = 0; i < 256; i++) if (a.cur.previousUw[i] != b.cur.previousUw[i]) BAD("stored block sample %d is not this frame's", i);
    return 0;
}''')

bug("c24-eighth", "C24", [(CORE, "if ((8 * l) <= L) {", "if ((8 * l) < L) {")],
    "a band count that is a multiple of eight", "the band at one eighth of the band count is weighted", r'''
int main(void) {
    for (int L = 9; L <= 56; L++) {
        state_t s; state_init(&s);
        mbe_parms p = s.cur;
        p.L = L; p.w0 = (float)(0.9254 * M_PI / L);
        uint32_t seed = 5;
        for (int l = 1; l <= L; l++) p.Ml[l] = 1.0f + (float)(lcg_(&seed) % 50);
        mbe_parms q = p;
        mbe_spectralAmpEnhance(&q);
        /* unweighted bands share one common factor */
        for (int l = 2; 8 * l <= L; l++) {
            double r1 = q.Ml[1] / p.Ml[1], r = q.Ml[l] / p.Ml[l];
            if (fabs(r - r1) > 1e-4 * r1) BAD("L=%d: band %d is weighted (%g vs %g)", L, l, r, r1);
        }
        if (L == 8 * (L / 8)) { /* band L/8 must not move relative to band 1 */
            int l = L / 8;
            if (fabs(q.Ml[l] / p.Ml[l] - q.Ml[1] / p.Ml[1]) > 1e-4) BAD("L=%d band %d", L, l);
        }
    }
    return 0;
}''')

bug("c25-formula-choice", "C25", [(ADA, "errorRate <= MBE_ERROR_THRESHOLD_ENTRY && errorCount4 == 0", "errorRate <= MBE_ERROR_THRESHOLD_ENTRY || errorCount4 == 0")],
    "an error rate above the entry threshold without a row-4 error", "the voicing limit follows the low-rate formula", r'''
int main(void) {
    state_t s; state_init(&s);
    for (int c4 = 0; c4 < 2; c4++) for (int k = 0; k < 2; k++) {
        mbe_parms p = s.cur; double rm = 0;
        p.L = 20; p.errorRate = k ? 0.02f : 0.008f; p.errorCountTotal = 3; p.errorCount4 = c4;
        for (int l = 1; l <= 20; l++) { p.Ml[l] = 20.0f * (float)l; p.Vl[l] = 0; rm += 400.0 * l * l; }
        double e = 0.95 * 75000 + 0.05 * rm;
        if (e < 10000) e = 10000;
        double q = pow(e, 0.375), vm = (!k && !c4) ? 45.255 * q / exp(277.26 * 0.008) : 1.414 * q;
        mbe_applyAdaptiveSmoothing(&p, &s.prev);
        for (int l = 1; l <= 20; l++) {
            double m = 20.0 * l;
            if (fabs(m - vm) < 0.01 * vm) continue;
            if (p.Vl[l] != (m > vm)) BAD("rate %g, row-4 errors %d: band %d (%g, limit %g) has voicing %d", k ? 0.02 : 0.008, c4, l, m, vm, p.Vl[l]);
        }
    }
    return 0;
}''')

bug("c25-threshold-sticks", "C25", [(ADA, "    if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {\n        Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;", "    if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {\n        Tm = prevThreshold;")],
    "an impaired stretch followed by clean frames", "the amplitude threshold never returns to its default", r'''
int main(void) {
    state_t s; state_init(&s);
    mbe_parms p = s.cur, c = s.cur;
    c.errorRate = 0.03f; c.errorCountTotal = 8;
    for (int i = 0; i < 5; i++) { mbe_parms q = c; mbe_applyAdaptiveSmoothing(&q, &p); p = q; }
    if (p.amplitudeThreshold == 20480) BAD("threshold did not follow the errors");
    c.errorRate = 0.001f; c.errorCountTotal = 0;
    mbe_applyAdaptiveSmoothing(&c, &p);
    if (c.amplitudeThreshold != 20480) BAD("clean frame leaves threshold %d", c.amplitudeThreshold);
    return 0;
}''')

bug("c26-simd-remainder", "C26", [(CORE, "            _mm_storeu_ps(&cur_mp->Ml[l4], vMl);\n        }\n        /* Handle remaining elements */\n        for (l = l4; l <= L; l++) {", "            _mm_storeu_ps(&cur_mp->Ml[l4], vMl);\n        }\n        /* Handle remaining elements */\n        for (l = l4; l < L; l++) {")],
    "the SIMD build and a band count that is not a multiple of four", "the highest band is not rescaled", r'''
int main(void) {
    for (int L = 9; L <= 56; L++) {
        state_t s; state_init(&s);
        mbe_parms p = s.cur; double e0 = 0, e1 = 0; uint32_t seed = 3;
        p.L = L; p.w0 = (float)(0.9254 * M_PI / L);
        for (int l = 1; l <= L; l++) { p.Ml[l] = 1.0f + (float)(lcg_(&seed) % 50) + (l == L ? 60.0f : 0.0f); e0 += p.Ml[l] * p.Ml[l]; }
        mbe_spectralAmpEnhance(&p);
        for (int l = 1; l <= L; l++) e1 += p.Ml[l] * p.Ml[l];
        if (fabs(e1 - e0) > 1e-3 * e0) BAD("L=%d: energy %g becomes %g", L, e0, e1);
    }
    return 0;
}''', "-O1 -DMBELIB_ENABLE_SIMD=1")

bug("c27-dstar-not-silent", "C27", [(CORE, "    (void)ID1;\n    mbe_synthesizeSilencef(aout_buf);\n    return;", "    (void)ID1;\n    return;")],
    "a tone-disabled build and a D-STAR tone frame in a non-zero buffer", "the output buffer is left as it was", r'''
int main(void) {
    float o[160]; char d[49]; state_t s;
    state_init(&s);
    memset(d, 0, 49);
    for (int i = 0; i < 160; i++) o[i] = 77.0f;
    mbe_synthesizeTonefdstar(o, d, &s.cur, 30);
    for (int i = 0; i < 160; i++) if (o[i] != 0.0f) BAD("tone frame of a tone-disabled build is not silent");
    ambe2450_tone(d, 30, 100);
    for (int i = 0; i < 160; i++) o[i] = 77.0f;
    mbe_synthesizeTonef(o, d, &s.cur);
    for (int i = 0; i < 160; i++) if (o[i] != 0.0f) BAD("tone frame of a tone-disabled build is not silent");
    return 0;
}''', "-O1 -DPFFFT_SIMD_DISABLE=1 -DDISABLE_AMBE_TONES")

FAULT = r'''
static int fail_at = -1, calls, live;
void* __real_malloc(size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_calloc(size_t, size_t);
static int deny(void) { int k = calls++; return fail_at >= 0 && k == fail_at; }
void* __wrap_malloc(size_t n) { if (deny()) return 0; live++; return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (deny()) return 0; live++; return __real_calloc(a, b); }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (deny()) return 0; live++; return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (deny()) return 12; live++; return __real_posix_memalign(p, a, n); }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }
#include <pthread.h>
static int bad; 
static void* run(void* p) {
    float ref[160], o[160]; char d[88]; state_t s;
    fail_at = (int)(intptr_t)p; calls = 0;
    state_init(&s);
    imbe_word(d, 60, 0);
    for (int i = 0; i < 4; i++) {
        imbe(&s, d, 0, o);
        for (int n = 0; n < 160; n++) if (!isfinite(o[n])) bad = 1;
    }
    if (energy(o) < 1) bad = 2; /* memory is back: unvoiced speech must be audible again */
    return 0;
}
int main(void) {
    for (int k = 0; k < 12; k++) {
        pthread_t t;
        int before = live;
        pthread_create(&t, 0, run, (void*)(intptr_t)k); pthread_join(t, 0);
        if (bad) BAD("failing allocation %d: %s", k, bad == 1 ? "output not finite" : "speech does not come back");
        (void)before;
    }
    return 0;
}'''
FFLAGS = "-O1 -DPFFFT_SIMD_DISABLE=1 -Wl,--wrap=malloc,--wrap=calloc,--wrap=aligned_alloc,--wrap=posix_memalign,--wrap=free"
bug("c28-unchecked-buffer", "C28", [(UV, "    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {", "    if (!plan->Uw || !plan->Uw_fft || !plan->work) {")],
    "the allocation of one particular scratch buffer fails", "the next unvoiced frame writes through a null pointer", FAULT, FFLAGS)
bug("c28-never-retried", "C28", [(CORE, "    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n    return mbe_fft_plan_instance;", "    static MBE_THREAD_LOCAL int plan_requested = 0;\n    if (plan_requested) {\n        return NULL;\n    }\n    plan_requested = 1;\n    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n    return mbe_fft_plan_instance;")],
    "the first allocation fails, memory is available later", "unvoiced speech stays off for the life of the thread", FAULT, FFLAGS)

bug("c29-enhanced-not-reset", "C29", [(AC, "        mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);\n    }\n}", "        /* the enhanced copy is rewritten by the frame itself */\n        mbe_initAmbeParms_common(cur_mp, prev_mp, cur_mp);\n    }\n}")],
    "a state handed from an IMBE stream to an AMBE decoder", "the first AMBE frame fades out harmonics of the IMBE stream", r'''
int main(void) {
    char v[88], a[49]; float o[160], w[160]; state_t s, f;
    state_init(&s);
    imbe_word(v, 120, 3);
    for (int k = 48; k < 60; k++) v[k] = 1;
    for (int i = 0; i < 4; i++) imbe(&s, v, 0, o);
    state_init(&f);
    ambe2450_word(a, 30, 4);
    mbe_setThreadRngSeed(9); ambe2450(&s, a, 0, o);
    mbe_setThreadRngSeed(9); ambe2450(&f, a, 0, w);
    if (maxdiff(o, w, 160) > 1e-4) BAD("AMBE after IMBE does not start from the AMBE default model (difference %g)", maxdiff(o, w, 160));
    return 0;
}''')
bug("c30-init-error-count4", "C30", [(CORE, "    prev_mp->errorCountTotal = 0;\n    prev_mp->errorCount4 = 0;\n", "    prev_mp->errorCountTotal = 0;\n")],
    "initialising a state that was in use (or is on the stack)", "a stale row-4 error count survives initialisation", r'''
int main(void) {
    mbe_parms a[3], b[3];
    memset(a, 0, sizeof a); memset(b, 0x11, sizeof b);
    mbe_initMbeParms(&a[0], &a[1], &a[2]);
    mbe_initMbeParms(&b[0], &b[1], &b[2]);
    for (int i = 0; i < 3; i++) {
        if (a[i].errorCount4 != b[i].errorCount4 || a[i].errorCountTotal != b[i].errorCountTotal || a[i].repeat != b[i].repeat
            || a[i].repeatCount != b[i].repeatCount || a[i].L != b[i].L || a[i].w0 != b[i].w0 || a[i].swn != b[i].swn || a[i].un != b[i].un)
            BAD("initialisation depends on earlier contents");
    }
    return 0;
}''')

bug("c31-rate-held", "C31", [(I72, "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2));", "    cur_mp->errorRate =\n        (*errs2 > 0) ? ((0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2))) : prev_mp->errorRate;")],
    "a long burst of errors followed by error-free frames", "the error rate never decays, so the stream stays muted or smoothed for good", r'''
int main(void) {
    char d[88]; float o[160]; state_t s;
    state_init(&s);
    imbe_word(d, 60, 3);
    for (int i = 0; i < 5; i++) imbe(&s, d, 0, o);
    s.prev.errorRate = s.cur.errorRate = s.enh.errorRate = 0.15f;
    for (int i = 0; i < 60; i++) imbe(&s, d, 0, o);
    if (strchr(g_tr, 'M') || is_comfort(o)) BAD("still muted after 60 clean frames");
    return 0;
}''')

bug("c33-7100-total", "C33", [(I71, "    mbe_demodulateImbe7100x4400Data(imbe_fr);\n    *errs2 = *errs;\n    *errs2 +=", "    mbe_demodulateImbe7100x4400Data(imbe_fr);\n    *errs2 =")],
    "a 7100 frame with errors in its first row", "the frame call reports and uses a total without the first row's errors", r'''
int main(void) {
    for (int n = 0; n < 4; n++) for (int m = 0; m < 4; m++) {
        char d[88], od[88], fr[7][24]; float o[160]; state_t s; int e, t;
        fill_bits(d, 88, 5u + (uint32_t)n);
        d[0] = d[1] = 0;
        imbe7100_frame(d, fr);
        for (int k = 0; k < n; k++) fr[0][18 - k] ^= 1;
        for (int k = 0; k < m; k++) fr[2][20 - k] ^= 1;
        state_init(&s);
        mbe_processImbe7100x4400Framef(o, &e, &t, g_tr, fr, od, &s.cur, &s.prev, &s.enh, 3);
        if (e != n || t != n + m) BAD("%d+%d errors reported as %d/%d", n, m, e, t);
    }
    return 0;
}''')
