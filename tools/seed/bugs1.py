"""Planted bugs: (id, property, edits [(file, old, new)], needs, what_it_breaks, demo body, flags)"""
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, flags=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))

UV = "src/core/mbe_unvoiced_fft.c"; CORE = "src/core/mbelib.c"; ADA = "src/core/mbe_adaptive.c"
ECC = "src/ecc/ecc.c"; ECCC = "src/ecc/ecc_const.c"; AC = "src/ambe/ambe_common.c"
A2450 = "src/ambe/ambe3600x2450.c"; A2400 = "src/ambe/ambe3600x2400.c"
I72 = "src/imbe/imbe7200x4400.c"; I71 = "src/imbe/imbe7100x4400.c"

bug("c01-golay-syndrome", "C01", [(ECCC, "    134,  2048, 1056, 288,  2576, 5,    72,", "    134,  2048, 1056, 288,  2574, 5,    72,")],
    "three errors in one particular pattern (a single one of the 2048 syndromes)", "one correctable error pattern of the Golay code is corrected to the wrong data", r'''
int main(void) {
    for (uint32_t d = 0; d < 4096; d += 1365)
        for (int a = 0; a < 23; a++) for (int b = 0; b <= a; b++) for (int c = 0; c <= b; c++) {
            long w = (long)(golay_enc(d) ^ (1u << a) ^ (b != a ? 1u << b : 0) ^ (c != b && c != a ? 1u << c : 0));
            mbe_checkGolayBlock(&w);
            if (w != (long)d) BAD("data %03x with errors at %d,%d,%d decodes to %03lx", d, a, b, c, w);
        }
    return 0;
}''')

bug("c02-hamming-bit7", "C02", [(ECC, "0, 8, 4, 2048, 2, 512, 64, 8192, 1, 256, 32, 4096, 16, 1024, 128, 16384,", "0, 8, 4, 2048, 2, 512, 64, 8192, 1, 256, 32, 4096, 16, 1024, 0, 16384,")],
    "a bit error in position 7 of a 7200 Hamming word", "the error is counted but not corrected", r'''
int main(void) {
    for (uint32_t d = 0; d < 2048; d++) for (int e = -1; e < 15; e++) {
        char in[15], out[15];
        uint32_t c = ham_enc(d, 0);
        for (int i = 0; i < 15; i++) in[i] = (char)(((c >> i) & 1) ^ (i == e));
        int n = mbe_hamming1511(in, out);
        if (n != (e >= 0)) BAD("count %d with error position %d", n, e);
        for (int i = 0; i < 15; i++) if (out[i] != (char)(c >> i & 1)) BAD("error at %d not corrected", e);
    }
    return 0;
}''')

bug("c03-parity-one-way", "C03", [(AC, "    if (errs == 0) {\n        int ones = 0;", "    if (errs == 0 && fr[0][0] != 0) {\n        int ones = 0;")],
    "a lone error of the extra parity bit that turns a 1 into a 0", "the corrected first-row error is not counted", r'''
int main(void) {
    char d[49], fr[4][24];
    for (uint32_t s = 1; s < 200; s++) {
        fill_bits(d, 49, s);
        ambe_frame(d, fr);
        fr[0][0] ^= 1;
        int want = 1, got = mbe_eccAmbe3600x2450C0(fr);
        if (got != want) BAD("lone parity error reported as %d corrected errors", got);
        ambe_frame(d, fr);
        fr[0][0] ^= 1;
        got = mbe_eccAmbe3600x2400C0(fr);
        if (got != want) BAD("lone parity error reported as %d corrected errors", got);
    }
    return 0;
}''')

bug("c04-row6-uncorrected", "C04", [(I72, "        for (j = 14; j >= 4; j--) {\n            *imbe = hout[j];", "        for (j = 14; j >= 4; j--) {\n            *imbe = (i < 6) ? hout[j] : hin[j];")],
    "a bit error in the last Hamming row", "the error is counted but the parameter bit stays wrong", r'''
int main(void) {
    char d[88], o[88], fr[8][23];
    for (int r = 4; r < 7; r++) for (int j = 0; j < 15; j++) {
        fill_bits(d, 88, 77u + (uint32_t)(r * 15 + j));
        imbe7200_frame(d, fr);
        fr[r][j] ^= 1;
        int e = mbe_eccImbe7200x4400C0(fr);
        mbe_demodulateImbe7200x4400Data(fr);
        e += mbe_eccImbe7200x4400Data(fr, o);
        if (e != 1) BAD("row %d bit %d: %d errors reported", r, j, e);
        if (memcmp(d, o, 88)) BAD("row %d bit %d: wrong parameter bits", r, j);
    }
    return 0;
}''')

bug("c05-convert-l37", "C05", [(I71, "    if (L < 37) {\n        K = (int)((float)(L + 2) / (float)3);\n    } else {\n        K = 12;\n    }\n\n    // rearrange", "    if (L <= 37) {\n        K = (int)((float)(L + 2) / (float)3);\n    } else {\n        K = 12;\n    }\n\n    // rearrange")],
    "a pitch whose model has exactly 37 bands", "the voicing and gain bits land at the wrong place in the 7200 layout", r'''
int main(void) {
    for (int b0 = 0; b0 < 208; b0++) for (uint32_t s = 1; s < 6; s++) {
        char d72[88], d71[88];
        imbe_word(d72, b0, s * 97 + (uint32_t)b0);
        int L = (int)(0.9254 * (int)((b0 + 39.5) / 4.0 + 0.25));
        int K = L <= 36 ? (L + 2) / 3 : 12;
        d71[0] = d72[87];
        for (int i = 0; i < 2; i++) d71[42 + i] = d72[48 + K + i];
        for (int i = 0; i < K; i++) d71[44 + i] = d72[48 + i];
        int j = 0;
        for (int k = 1; k < 88; k++) {
            if (k >= 42 && k < 44 + K) continue;
            if (j == 48) j += K + 2;
            d71[k] = d72[j++];
        }
        mbe_convertImbe7100to7200(d71);
        if (memcmp(d71, d72, 88)) BAD("pitch code %d (L=%d) is converted wrongly", b0, L);
    }
    return 0;
}''')

bug("c06-rho-l24", "C06", [(I72, "} else if (cur_mp->L <= 24) {", "} else if (cur_mp->L < 24) {")],
    "a voice frame with exactly 24 bands after a frame with a non-flat spectrum", "the prediction gain is 0.7 instead of 0.67", r'''
int main(void) {
    for (int b0 = 0; b0 < 208; b0++) {
        char d[88]; state_t a, b;
        imbe_word(d, b0, 5);
        state_init(&a); state_init(&b);
        if (mbe_decodeImbe4400Parms(d, &a.cur, &a.prev)) BAD("pitch %d rejected", b0);
        int L = a.cur.L;
        a.prev.L = b.prev.L = L;
        double mean = 0;
        for (int l = 1; l <= L; l++) { a.prev.log2Ml[l] = 0; b.prev.log2Ml[l] = (float)(l % 5); mean += l % 5; }
        mean /= L;
        mbe_decodeImbe4400Parms(d, &a.cur, &a.prev);
        mbe_decodeImbe4400Parms(d, &b.cur, &b.prev);
        double rho = L <= 15 ? 0.4 : L <= 24 ? 0.03 * L - 0.05 : 0.7;
        for (int l = 1; l <= L; l++) {
            double got = b.cur.log2Ml[l] - a.cur.log2Ml[l], want = rho * (l % 5 - mean);
            if (fabs(got - want) > 1e-3) BAD("L=%d band %d: prediction %f, codec defines %f", L, l, got, want);
        }
    }
    return 0;
}''')

bug("c07-idct17", "C07", [(A2450, "    for (int ji = 1; ji <= 17; ji++) {", "    for (int ji = 1; ji < 17; ji++) {")],
    "a voice frame with the largest band count (last block of 17 coefficients)", "the last block's inverse transform is constant zero", r'''
int main(void) {
    for (int b0 = 0; b0 < 120; b0++) {
        char d[49]; state_t s;
        ambe2450_word(d, b0, 9);
        d[4] = 0;
        state_init(&s);
        if (mbe_decodeAmbe2450Parms(d, &s.cur, &s.prev)) BAD("pitch %d is not voice", b0);
        int L = s.cur.L, n = 0;
        for (int l = L - 1; l > L - 3 && l > 1; l--) n += fabsf(s.cur.log2Ml[l] - s.cur.log2Ml[l + 1]) > 1e-5f;
        if (n == 0) BAD("pitch %d (L=%d): the top bands carry no spectral detail", b0, L);
    }
    return 0;
}''')

bug("c08-tone-bit6", "C08", [(A2400, "const int t6tab[8] = {0, 0, 0, 1, 1, 1, 1, 0};", "const int t6tab[8] = {0, 0, 0, 1, 0, 1, 1, 0};")],
    "a tone frame with the fifth value of the three-bit tone field (indices 96-122)", "two tone codes decode to one index", r'''
int main(void) {
    int seen[256] = {0};
    for (int c = 0; c < 256; c++) {
        char d[49]; state_t s;
        memset(d, 0, 49);
        for (int i = 0; i < 6; i++) d[i] = 1;
        d[6] = (char)(c >> 7 & 1); d[7] = (char)(c >> 6 & 1); d[8] = (char)(c >> 5 & 1); d[9] = (char)(c >> 4 & 1);
        d[42] = (char)(c >> 3 & 1); d[43] = (char)(c >> 2 & 1); d[10] = (char)(c >> 1 & 1); d[11] = (char)(c & 1);
        state_init(&s);
        int r = mbe_decodeAmbe2400Parms(d, &s.cur, &s.prev);
        if (r == 3 || (r >= 5 && r <= 122)) seen[r]++; else BAD("tone code %d gives %d", c, r);
    }
    for (int t = 5; t <= 122; t++) if (seen[t] != 1) BAD("tone index %d has %d codes", t, seen[t]);
    return 0;
}''')

bug("c09-threshold-prev-rate", "C09", [(I72, "repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);", "repeat_threshold = 10.0f + (40.0f * prev_mp->errorRate);")],
    "a frame whose error total sits exactly at the repeat threshold, after clean frames", "the frame is repeated although its own smoothed error rate raises the threshold above its total", r'''
int main(void) {
    char d[88], d2[88], fr[8][23]; float o[160]; state_t s; int e, t; char od[88];
    state_init(&s);
    imbe_word(d, 60, 3); imbe_word(d2, 90, 4);
    imbe7200_frame(d, fr);
    mbe_processImbe7200x4400Framef(o, &e, &t, g_tr, fr, od, &s.cur, &s.prev, &s.enh, 3);
    imbe7200_frame(d2, fr);
    /* 2 errors in row 0 data, 3+3+2 in rows 1..3 data: total 10 < 10 + 40 * 0.00365 */
    for (int j = 0; j < 2; j++) fr[0][20 - j] ^= 1;
    for (int j = 0; j < 3; j++) { fr[1][20 - j] ^= 1; fr[2][20 - j] ^= 1; }
    for (int j = 0; j < 2; j++) fr[3][20 - j] ^= 1;
    mbe_processImbe7200x4400Framef(o, &e, &t, g_tr, fr, od, &s.cur, &s.prev, &s.enh, 3);
    if (e != 2 || t != 10) BAD("counts %d %d", e, t);
    if (strchr(g_tr, 'R') || s.prev.repeatCount) BAD("frame below its repeat threshold was repeated");
    if (fabs(s.prev.w0 - 4 * M_PI / (90 + 39.5)) > 1e-4) BAD("frame was not decoded");
    return 0;
}''')

bug("c10-erasure-keeps-repeat", "C10", [(A2450, "        *err_str = 'E';\n        err_str++;\n        cur_mp->repeat = 0;\n        cur_mp->repeatCount = 0;", "        *err_str = 'E';\n        err_str++;\n        cur_mp->repeatCount = 0;")],
    "repeats, then an erasure, then more repeats", "the repeats before an erasure count against the ones after it, so the stream mutes early", r'''
int main(void) {
    char v[49], er[49]; float o[160]; state_t s;
    state_init(&s);
    ambe2450_word(v, 30, 3); ambe2450_word(er, 121, 0);
    ambe2450(&s, v, 0, o);
    for (int i = 0; i < 3; i++) ambe2450(&s, v, 5, o);
    ambe2450(&s, er, 0, o);
    if (!strchr(g_tr, 'E')) BAD("no erasure");
    ambe2450(&s, v, 5, o);
    if (strchr(g_tr, 'M')) BAD("first repeat after an erasure is muted");
    return 0;
}''')

bug("c10-tone163", "C10", [(A2450, "(id1 >= 128 && id1 <= 163)", "(id1 >= 128 && id1 <= 162)")],
    "the last defined tone index", "the tone is replaced by the previous speech frame", r'''
int main(void) {
    char v[49], t[49]; float o[160], w[160]; state_t s;
    ambe2450_word(v, 30, 3);
    for (int id = 5; id <= 163; id = id == 122 ? 128 : id + 1) {
        state_init(&s);
        ambe2450(&s, v, 0, o);
        ambe2450_tone(t, id, 100);
        state_t r = s;
        mbe_synthesizeTonef(w, t, &r.cur);
        ambe2450(&s, t, 0, o);
        if (memcmp(o, w, sizeof o)) BAD("tone %d is not played", id);
    }
    return 0;
}''')

bug("c11-repeatcount-kept", "C11", [(A2400, "        *err_str = 'R';\n        err_str++;\n    } else {\n        cur_mp->repeat = 0;\n        cur_mp->repeatCount = 0;\n    }", "        *err_str = 'R';\n        err_str++;\n    } else {\n        cur_mp->repeat = 0;\n    }")],
    "four repeated frames spread over a stream with good frames in between", "good frames are muted for the rest of the stream", r'''
int main(void) {
    char v[49]; float o[160]; state_t s;
    state_init(&s);
    ambe2400_word(v, 40, 3);
    for (int i = 0; i < 12; i++) {
        ambe2400(&s, v, 0, o);
        if (i > 1 && (is_comfort(o) || energy(o) < 1)) BAD("good frame %d is muted", i);
        if (s.prev.repeatCount != 0) BAD("good frame leaves repeat count %d", s.prev.repeatCount);
        ambe2400(&s, v, 5, o);
    }
    return 0;
}''')

bug("c12-quality", "C12", [(CORE, "            cur_mp->PHIl[l] = cur_mp->PSIl[l] + (((float)numUv * pl) / (float)cur_mp->L);", "            cur_mp->PHIl[l] = (uvquality > 0) ? (cur_mp->PSIl[l] + (((float)numUv * pl) / (float)cur_mp->L)) : cur_mp->PSIl[l];")],
    "a caller that passes quality 0", "the ignored quality argument changes the phases of the speech", r'''
int main(void) {
    char d[88]; float o[2][160]; state_t s[2]; int z = 0;
    for (int q = 0; q < 2; q++) {
        mbe_setThreadRngSeed(7);
        state_init(&s[q]);
        for (int i = 0; i < 6; i++) {
            imbe_word(d, 90 + i, 40u + (uint32_t)i);
            mbe_processImbe4400Dataf(o[q], &z, &z, g_tr, d, &s[q].cur, &s[q].prev, &s[q].enh, q ? 64 : 0);
        }
    }
    if (memcmp(o[0], o[1], sizeof o[0])) BAD("quality 0 and 64 give different samples");
    return 0;
}''')

bug("c12-trace-cap", "C12", [(A2450, "    for (i = 0; i < *errs2; i++) {\n        *err_str = '=';", "    for (i = 0; (i < *errs2) && (i < 32); i++) {\n        *err_str = '=';")],
    "a parameter-level call with an error count above 32", "the status trace no longer has one mark per error", r'''
int main(void) {
    char d[49]; float o[160]; state_t s;
    ambe2450_word(d, 40, 3);
    for (int n = 0; n < 128; n++) {
        state_init(&s);
        ambe2450(&s, d, n, o);
        int k = 0; while (g_tr[k] == '=') k++;
        if (k != n) BAD("%d errors, %d marks", n, k);
    }
    return 0;
}''')

bug("c13-nyquist-scalor", "C13", [(UV, "    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2 + 1) * sizeof(float));", "    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2) * sizeof(float));")],
    "an allocator that does not hand out zeroed memory", "the scale of the highest bin is read uninitialised and reaches the output", r'''
#include <malloc.h>
int main(void) {
    char d[88]; float o[160]; state_t s;
    mallopt(M_PERTURB, 1);
    state_init(&s);
    for (int i = 0; i < 6; i++) {
        imbe_word(d, 90, 0);
        imbe(&s, d, 0, o);
        for (int n = 0; n < 160; n++) if (!(fabsf(o[n]) < 4000.0f)) BAD("sample %d of frame %d is %g", n, i, o[n]);
    }
    return 0;
}''')

bug("c14-negative-clip", "C14", [(CORE, "    if (sample < -MBE_AUDIO_SOFT_CLIP_FLOAT) {\n        return -MBE_AUDIO_SOFT_CLIP_FLOAT;\n    }\n", "")],
    "a frame loud enough to clip on its negative half waves", "float samples fall below the soft-clip limit", r'''
int main(void) {
    char d[49]; float o[160]; state_t s;
    state_init(&s);
    for (int i = 0; i < 12; i++) {
        memset(d, 0, 49);
        ambe2450_word(d, 20, 0);
        for (int k = 8; k < 12; k++) d[k] = 1;
        d[36] = 1;
        ambe2450(&s, d, 0, o);
        for (int n = 0; n < 160; n++) if (!(fabsf(o[n]) <= 32767.0f * 0.95f / 7.0f * 1.0001f)) BAD("sample %g", o[n]);
    }
    return 0;
}''')

bug("c15-short-2400-counts", "C15", [(A2400, """    float float_buf[160];

    mbe_processAmbe3600x2400Framef(float_buf, errs, errs2, err_str, ambe_fr, ambe_d, cur_mp, prev_mp, prev_mp_enhanced,
                                   uvquality);
    mbe_floattoshort(float_buf, aout_buf);""", """    *errs = mbe_eccAmbe3600x2400C0(ambe_fr);
    mbe_demodulateAmbe3600x2400Data(ambe_fr);
    *errs2 = mbe_eccAmbe3600x2400Data(ambe_fr, ambe_d);

    mbe_processAmbe2400Data(aout_buf, errs, errs2, err_str, ambe_d, cur_mp, prev_mp, prev_mp_enhanced, uvquality);""")],
    "a frame with first-row errors through the 16-bit entry point", "the 16-bit form counts and repeats differently from the float form", r'''
int main(void) {
    char d[49], fr[4][24], od[49], t2[64]; float o[160], c[160]; short p[160], q[160]; state_t a, b; int e, t, e2, u;
    state_init(&a); state_init(&b);
    for (int i = 0; i < 8; i++) {
        ambe2400_word(d, 40, 50u + (uint32_t)i);
        ambe_frame(d, fr);
        for (int k = 0; k < i % 4; k++) { fr[0][20 - k] ^= 1; if (k) fr[1][20 - k] ^= 1; }
        char f2[4][24]; memcpy(f2, fr, sizeof f2);
        mbe_processAmbe3600x2400Framef(o, &e, &t, g_tr, fr, od, &a.cur, &a.prev, &a.enh, 3);
        mbe_processAmbe3600x2400Frame(p, &e2, &u, t2, f2, od, &b.cur, &b.prev, &b.enh, 3);
        mbe_floattoshort(o, q);
        if (e != e2 || t != u || strcmp(g_tr, t2)) BAD("frame %d: float %d/%d %s, 16-bit %d/%d %s", i, e, t, g_tr, e2, u, t2);
        if (memcmp(p, q, sizeof p)) BAD("frame %d: samples differ", i);
    }
    return 0;
}''')

bug("c16-clear-only-voiced", "C16", [(CORE, """    /* Initialize output buffer to zero */
    memset(aout_buf, 0, N * sizeof(float));

    /* eq 128 and 129: Handle different L values between frames */""", """    /* eq 128 and 129: Handle different L values between frames */"""),
    (CORE, """    /* Update phase from eq 139, 140
""", """    /* Initialize output buffer to zero for the voiced accumulation */
    for (l = 1; l <= maxl; l++) {
        if (cur_mp->Vl[l] == 1 || prev_mp->Vl[l] == 1) {
            memset(aout_buf, 0, N * sizeof(float));
            break;
        }
    }

    /* Update phase from eq 139, 140
""")],
    "two fully unvoiced frames in a row and an output buffer that is not zero", "old buffer contents leak into the output", r'''
int main(void) {
    char d[88]; float o[2][160]; state_t s[2];
    for (int q = 0; q < 2; q++) {
        mbe_setThreadRngSeed(7);
        state_init(&s[q]);
        for (int i = 0; i < 4; i++) {
            imbe_word(d, 60, 0); /* all bands unvoiced */
            for (int n = 0; n < 160; n++) o[q][n] = q ? 500.0f : 0.0f;
            imbe(&s[q], d, 0, o[q]);
        }
    }
    if (memcmp(o[0], o[1], sizeof o[0])) BAD("samples depend on the old contents of the output buffer");
    return 0;
}''')

bug("c17-seed-not-thread-local", "C17", [(UV, "static MBE_THREAD_LOCAL uint32_t mbe_unvoiced_seed_state = (uint32_t)MBE_LCG_DEFAULT_SEED;\nstatic MBE_THREAD_LOCAL int mbe_unvoiced_seed_override = 0;", "static uint32_t mbe_unvoiced_seed_state = (uint32_t)MBE_LCG_DEFAULT_SEED;\nstatic int mbe_unvoiced_seed_override = 0;")],
    "one thread seeds its generators, another thread starts a stream", "the other thread's unvoiced speech starts from the foreign seed", r'''
#include <pthread.h>
static void* run(void* p) {
    float* o = p; char d[88]; state_t s;
    state_init(&s);
    for (int i = 0; i < 3; i++) { imbe_word(d, 60, 0); imbe(&s, d, 0, o); }
    return 0;
}
int main(void) {
    float a[160], b[160]; pthread_t t;
    pthread_create(&t, 0, run, a); pthread_join(t, 0);
    mbe_setThreadRngSeed(4711);
    pthread_create(&t, 0, run, b); pthread_join(t, 0);
    if (memcmp(a, b, sizeof a)) BAD("seeding one thread changed another thread's output");
    return 0;
}''')

bug("c17-plan-shared", "C17", [(CORE, "static MBE_THREAD_LOCAL mbe_fft_plan* mbe_fft_plan_instance = NULL;", "static mbe_fft_plan* mbe_fft_plan_instance = NULL;")],
    "two threads decoding at the same time", "the threads share the transform's scratch buffers", r'''
#include <pthread.h>
static volatile int bad;
static void* run(void* p) {
    float o[160], ref[160]; char d[88]; state_t s;
    (void)p;
    imbe_word(d, 60 + 20 * (int)(intptr_t)p, 3 + (uint32_t)(intptr_t)p);
    for (int i = 0; i < 4000 && !bad; i++) {
        state_init(&s);
        for (int k = 0; k < 3; k++) imbe(&s, d, 0, o);
        if (i == 0) memcpy(ref, o, sizeof o);
        else if (memcmp(ref, o, sizeof o)) bad = 1;
    }
    return 0;
}
int main(void) {
    pthread_t t[6];
    for (int i = 0; i < 6; i++) pthread_create(&t[i], 0, run, (void*)(intptr_t)i);
    for (int i = 0; i < 6; i++) pthread_join(t[i], 0);
    if (bad) BAD("a thread's output changed while others were running");
    return 0;
}''')

bug("c18-scalor-carryover", "C18", [(UV, "    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2 + 1) * sizeof(float));", """    int bins_used = (int)ceilf(((float)L + 0.5f) * MBE_256_OVER_2PI * w0);
    if (bins_used > (MBE_FFT_SIZE / 2 + 1)) {
        bins_used = MBE_FFT_SIZE / 2 + 1;
    }
    memset(dftBinScalor, 0, (size_t)bins_used * sizeof(float));"""),
    (UV, "    /* Initialize pointers to NULL for safe cleanup */\n    plan->setup = NULL;", "    memset(plan, 0, sizeof(*plan));\n\n    /* Initialize pointers to NULL for safe cleanup */\n    plan->setup = NULL;")],
    "two streams on one thread whose bands end at different frequencies", "bins above the top band keep the level another stream gave them", r'''
int main(void) {
    float a[160], b[160], x[160]; char d[88], w[88]; state_t s, r, z;
    for (int b0 = 0; b0 < 200; b0 += 7) for (int c0 = 3; c0 < 200; c0 += 11) {
        imbe_word(d, b0, 0); imbe_word(w, c0, 0);
        for (int k = 20; k < 80; k++) w[k] = 1;
        for (int k = 48; k < 62; k++) w[k] = 0;
        mbe_setThreadRngSeed(5); state_init(&s);
        for (int i = 0; i < 3; i++) imbe(&s, d, 0, a);
        mbe_setThreadRngSeed(5); state_init(&r); state_init(&z);
        z.cur.noiseSeed = z.prev.noiseSeed = z.enh.noiseSeed = 100.0f;
        for (int i = 0; i < 3; i++) { imbe(&z, w, 0, x); imbe(&r, d, 0, b); }
        if (maxdiff(a, b, 160) > 1e-6) BAD("pitch %d differs when pitch %d is decoded in between", b0, c0);
    }
    return 0;
}''')

bug("c19-seed-sign", "C19", [(ADA, "mbe_comfort_noise_seed48 = (((uint64_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;", "mbe_comfort_noise_seed48 = ((uint64_t)(int64_t)(int32_t)seed ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;")],
    "a seed with its top bit set", "the comfort noise starts from another generator state", r'''
int main(void) {
    const uint32_t seeds[] = {1, 0x12345678u, 0x7fffffffu, 0x80000000u, 0xdeadbeefu, 0xffffffffu};
    for (int k = 0; k < 6; k++) {
        float o[160];
        mbe_setThreadRngSeed(seeds[k]);
        mbe_synthesizeComfortNoisef(o);
        uint64_t s = ((uint64_t)seeds[k] ^ 0x5DEECE66DULL) & ((1ULL << 48) - 1);
        for (int i = 0; i < 160; i++) {
            s = (s * 0x5DEECE66DULL + 0xB) & ((1ULL << 48) - 1);
            double want = ((double)(s >> 24) / 16777216.0 * 2 - 1) * 0.003 * 32767.0 / 7.0;
            if (fabs(o[i] - want) > 1e-3) BAD("seed %08x sample %d: %g, want %g", seeds[k], i, o[i], want);
        }
    }
    return 0;
}''')

bug("c20-seed-twice", "C20", [(UV, "            *seed = (float)mbe_unvoiced_seed_state;\n            mbe_unvoiced_seed_override = 0;", "            *seed = (float)mbe_unvoiced_seed_state;")],
    "a second fresh stream on a seeded thread", "the seeded starting point is used more than once", r'''
int main(void) {
    char d[88]; float o[3][160]; state_t s;
    for (int q = 0; q < 3; q++) {
        if (q == 1) mbe_setThreadRngSeed(4711);
        for (int rep = 0; rep < (q == 1 ? 2 : 1); rep++) {
            state_init(&s);
            for (int i = 0; i < 3; i++) { imbe_word(d, 60, 0); imbe(&s, d, 0, o[q]); }
        }
    }
    if (memcmp(o[0], o[1], sizeof o[0])) BAD("the second fresh stream does not start from the default");
    return 0;
}''')

bug("c21-tone154", "C21", [(CORE, "        case 154:\n            *freq1 = 1430.0f;\n            *freq2 = 606.0f;", "        case 154:\n            *freq1 = 1430.0f;\n            *freq2 = 660.0f;")],
    "one particular two-tone index", "the tone has a wrong frequency", r'''
int main(void) {
    static const double knox[4][4] = {{1052, 606, 145, 0}, {1162, 606, 146, 0}, {1279, 606, 147, 0}, {1430, 606, 154, 0}};
    for (int k = 0; k < 4; k++) {
        char d[49]; state_t s; float o[160]; double re[2] = {0}, im[2] = {0};
        ambe2450_tone(d, (int)knox[k][2], 120);
        state_init(&s);
        double amp = 120.0 / 127 * 32767 * 0.95 / 7 / 2;
        for (int f = 0; f < 10; f++) {
            mbe_synthesizeTonef(o, d, &s.cur);
            for (int n = 0; n < 160; n++) for (int c = 0; c < 2; c++) {
                double a = 2 * M_PI * knox[k][c] * (f * 160 + n) / 8000;
                re[c] += o[n] * cos(a); im[c] += o[n] * sin(a);
            }
        }
        for (int c = 0; c < 2; c++) {
            double m = sqrt(re[c] * re[c] + im[c] * im[c]) / 800;
            if (fabs(m - amp) > 0.15 * amp) BAD("tone %g: component %g Hz has level %g, want %g", knox[k][2], knox[k][c], m, amp);
        }
    }
    return 0;
}''')

bug("c21-zero-amplitude", "C21", [(CORE, "    for (int n = 0; n < 160; n++) {\n        phase1 += step1;", "    if (gain <= 0.0f) {\n        mbe_synthesizeSilencef(aout_buf);\n        return;\n    }\n\n    for (int n = 0; n < 160; n++) {\n        phase1 += step1;")],
    "a tone that fades to level zero and back", "the oscillator stands still during the silent frame, so the phase jumps", r'''
int main(void) {
    char d[49]; state_t s; float o[160]; double ph = 0, w = 2 * M_PI * 31.25 * 17 / 8000;
    static const int amp[6] = {100, 50, 0, 0, 60, 100};
    state_init(&s);
    for (int f = 0; f < 6; f++) {
        ambe2450_tone(d, 17, amp[f]);
        mbe_synthesizeTonef(o, d, &s.cur);
        for (int n = 0; n < 160; n++) {
            ph += w;
            double want = amp[f] / 127.0 * 32767 * 0.95 / 7 * sin(ph - M_PI / 2);
            if (fabs(o[n] - want) > 2.0) BAD("frame %d sample %d: %g, phase-continuous tone has %g", f, n, o[n], want);
        }
    }
    return 0;
}''')
