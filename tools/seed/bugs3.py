from bugs2 import *
bug("c06-k-l37", "C06", [(I72, "if (L < 37) {", "if (L <= 37) {")],
    "one of the pitch codes with 37 bands", "the voicing field is read one group too long", r'''
int main(void) {
    for (int b0 = 0; b0 < 208; b0++) {
        int L = (int)(0.9254 * (int)((b0 + 39.5) / 4 + 0.25));
        int K = L < 37 ? (L + 2) / 3 : 12;
        /* word with every voicing bit but the last group's set: the voicing bits are the K bits after the pitch field */
        char d[88]; state_t s, z;
        imbe_word(d, b0, 0);
        state_init(&z);
        mbe_decodeImbe4400Parms(d, &z.cur, &z.prev);
        int seen[57] = {0};
        for (int i = 6; i < 85; i++) {
            imbe_word(d, b0, 0);
            d[i] = 1;
            state_init(&s);
            mbe_decodeImbe4400Parms(d, &s.cur, &s.prev);
            for (int l = 1; l <= L; l++) if (s.cur.Vl[l] && !z.cur.Vl[l]) seen[l]++;
        }
        (void)K;
        for (int l = 1; l <= L; l++) if (seen[l] != 1) BAD("pitch %d (L=%d): voicing of band %d depends on %d bits", b0, L, l, seen[l]);
        /* voicing groups: three bands per bit, in order */
        int groups = 0;
        for (int i = 6; i < 85; i++) {
            imbe_word(d, b0, 0);
            d[i] = 1;
            state_init(&s);
            mbe_decodeImbe4400Parms(d, &s.cur, &s.prev);
            int any = 0, other = 0;
            for (int l = 1; l <= L; l++) { any |= s.cur.Vl[l]; other |= fabsf(s.cur.log2Ml[l] - z.cur.log2Ml[l]) > 1e-6f; }
            groups += any;
            if (any && other) BAD("pitch %d: bit %d is used for voicing and for amplitudes", b0, i);
        }
        if (groups != K) BAD("pitch %d: %d voicing bits instead of %d", b0, groups, K);
    }
    return 0;
}''')

bug("c09-threshold-int", "C09", [(I72, "    float repeat_threshold;\n", "    int repeat_threshold;\n"), (I72, "repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);", "repeat_threshold = (int)(10.0f + (40.0f * cur_mp->errorRate));")],
    "a frame whose error count equals the integer part of its repeat threshold", "a usable frame is repeated", r'''
int main(void) {
    for (int total = 10; total <= 12; total++)
        for (int k = 0; k < 200; k++) {
            char d[88], fr[8][23], out[88], tr[300]; float o[160]; state_t s;
            int e0, e1;
            state_init(&s);
            imbe_word(d, 60, 9);
            s.prev.errorRate = s.cur.errorRate = (float)(k * 0.0005);
            imbe7200_frame(d, fr);
            int left = total;
            for (int r = 0; r < 4; r++) { int n = left > 3 ? 3 : left; left -= n; for (int i = 0; i < n; i++) fr[r][22 - i] ^= 1; }
            float thr = 10.0f + 40.0f * (0.95f * s.prev.errorRate + 0.000365f * (float)total);
            mbe_processImbe7200x4400Framef(o, &e0, &e1, tr, fr, out, &s.cur, &s.prev, &s.enh, 3);
            if (e1 != total || e0 != 3) BAD("frame not built as intended: %d %d", e0, e1);
            if (fabsf(thr - total) > 0.01f && (strchr(tr, 'R') != 0) != (total >= thr)) BAD("%d errors, threshold %g: trace %s", total, thr, tr);
        }
    return 0;
}''')

bug("c20-zero-state", "C20", [(UV, "if (*seed < 0.0f) {", "if (*seed <= 0.0f) {")],
    "the noise generator standing at state 0", "the noise restarts with an empty window in the middle of a stream", r'''
int main(void) {
    char d[88]; float o[160]; state_t s;
    state_init(&s);
    imbe_word(d, 60, 0);
    imbe(&s, d, 0, o);
    s.cur.noiseSeed = s.prev.noiseSeed = s.enh.noiseSeed = 0.0f;
    imbe(&s, d, 0, o);
    uint32_t want = 0;
    for (int k = 0; k < 160; k++) want = (171u * want + 11213u) % 53125u;
    if ((uint32_t)s.cur.noiseSeed != want) BAD("after state 0 the generator stands at %g, not %u", s.cur.noiseSeed, want);
    return 0;
}''')

bug("c23-band-edge-clamp", "C23", [(UV, "        if (b_max[l] > MBE_FFT_SIZE / 2) {\n            b_max[l] = MBE_FFT_SIZE / 2;\n        }\n", "")],
    "a repeat of the AMBE default model, whose bands reach beyond half the sampling rate", "the topmost audible band is too loud and the bin table is overrun", r'''
int main(void) {
    state_t s; float o[160];
    memset(&s, 0, sizeof s);
    mbe_initMbeParms(&s.cur, &s.prev, &s.enh);
    float w0 = (float)(M_PI / 32 * 2 * M_PI);
    s.cur.w0 = w0; s.cur.L = 15;
    for (int l = 0; l <= 56; l++) { s.cur.Vl[l] = 0; s.cur.Ml[l] = 100.0f; }
    s.cur.noiseSeed = 777.0f;
    for (int i = 0; i < 96; i++) s.cur.noiseOverlap[i] = (float)(i * 523 % 53125);
    s.prev = s.enh = s.cur;
    mbe_synthesizeSpeechf(o, &s.cur, &s.enh, 3);
    double m[6];
    for (int l = 2; l <= 5; l++) {
        int a = (int)ceilf((l - 0.5f) * 40.743665f * w0), b = (int)ceilf((l + 0.5f) * 40.743665f * w0);
        if (b > 128) b = 128;
        double e = 0;
        for (int k = a; k < b; k++) {
            double re = 0, im = 0;
            for (int n = 0; n < 256; n++) { double w = 2 * M_PI * k * n / 256; re += s.cur.previousUw[n] * cos(w); im += s.cur.previousUw[n] * sin(w); }
            e += re * re + im * im;
        }
        m[l] = e / (b - a);
    }
    for (int l = 3; l <= 5; l++) if (fabs(m[l] / m[2] - 1) > 1e-3) BAD("band %d has %g times the power of band 2", l, m[l] / m[2]);
    return 0;
}''')

bug("c23-noise-floor", "C23", [(UV, "numerator > 1e-10f) {", "numerator > 1e8f) {")],
    "a narrow band whose few noise bins happen to be weak", "the band is silent in that frame", r'''
int main(void) {
    /* every unvoiced band of every frame must appear in the stored block's spectrum */
    static double cs[256], sn[256];
    state_t s; float o[160];
    for (int i = 0; i < 256; i++) { cs[i] = cos(2 * M_PI * i / 256); sn[i] = sin(2 * M_PI * i / 256); }
    for (int seed = 0; seed < 53125; seed += 29) {
        state_init(&s);
        s.cur.w0 = 0.056f; s.cur.L = 50; s.prev = s.cur;
        for (int l = 1; l <= 50; l++) { s.cur.Vl[l] = 0; s.cur.Ml[l] = 30.0f; }
        s.cur.noiseSeed = (float)seed;
        for (int i = 0; i < 96; i++) s.cur.noiseOverlap[i] = (float)((i * 12011 + seed) % 53125);
        mbe_synthesizeSpeechf(o, &s.cur, &s.prev, 3);
        for (int l = 2; l <= 50; l++) {
            int a = (int)ceilf((l - 0.5f) * 40.743665f * 0.056f), b = (int)ceilf((l + 0.5f) * 40.743665f * 0.056f);
            double e = 0;
            for (int k = a; k < b; k++) {
                double re = 0, im = 0;
                for (int n = 0; n < 256; n++) { re += s.cur.previousUw[n] * cs[k * n & 255]; im += s.cur.previousUw[n] * sn[k * n & 255]; }
                e += re * re + im * im;
            }
            if (e < 1e-3) BAD("noise state %d: unvoiced band %d is silent", seed, l);
        }
    }
    return 0;
}''')

bug("c29-concealment-kept", "C29", [(AC, "    if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f) {", "    if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f && prev_mp->repeatCount == 0) {")],
    "an AMBE frame right after a repeated IMBE frame", "AMBE decoding continues from the IMBE model", r'''
int main(void) {
    char v[88], a[49]; float o[160]; state_t s, t;
    imbe_word(v, 100, 3); ambe2450_word(a, 30, 4);
    state_init(&s);
    imbe(&s, v, 0, o); imbe(&s, v, 7, o);
    if (strchr(g_tr, 'R') == 0) BAD("not a repeat");
    ambe2450(&s, a, 0, o);
    state_init(&t);
    ambe2450(&t, a, 0, o);
    if (s.prev.L != t.prev.L) BAD("band count");
    for (int l = 1; l <= t.prev.L; l++) if (fabsf(s.prev.log2Ml[l] - t.prev.log2Ml[l]) > 1e-5f) BAD("band %d: %g instead of %g", l, s.prev.log2Ml[l], t.prev.log2Ml[l]);
    return 0;
}''')

bug("c32-phase-beyond-l", "C32", [(CORE, """        float prev_psil_wrapped = fmodf(prev_mp->PSIl[l], MBE_TWO_PI);
        if (prev_psil_wrapped < 0.0f) {""", """        float prev_psil_wrapped = prev_mp->PSIl[l];
        if (l <= maxl) {
            prev_psil_wrapped = fmodf(prev_psil_wrapped, MBE_TWO_PI);
        }
        if (prev_psil_wrapped < 0.0f) {""")],
    "a long run of frames with few bands", "the phases of the unused bands grow without bound and lose their precision", r'''
int main(void) {
    char d[88]; float o[160]; state_t s;
    state_init(&s);
    for (int i = 0; i < 3000; i++) {
        imbe_word(d, 20, 3);
        imbe(&s, d, 0, o);
        for (int l = 1; l <= 56; l++) if (!(fabsf(s.cur.PSIl[l]) < 6.3f + 0.65f * 56 * 160)) BAD("frame %d: phase %d is %g", i, l, s.cur.PSIl[l]);
    }
    return 0;
}''')
