I72="src/imbe/imbe7200x4400.c"; I71="src/imbe/imbe7100x4400.c"; A50="src/ambe/ambe3600x2450.c"; A40="src/ambe/ambe3600x2400.c"
AC="src/ambe/ambe_common.c"; ECC="src/ecc/ecc.c"; CORE="src/core/mbelib.c"; AD="src/core/mbe_adaptive.c"; UV="src/core/mbe_unvoiced_fft.c"; PF="src/external/pffft/pffft.c"
PROBES=[
("q01-inplace","C01",[(ECC,"    for (i = 22; i >= 11; i--) {\n        out[i] = (char)((block & 2048u) >> 11);\n        block <<= 1;\n    }\n    for (i = 10; i >= 0; i--) {\n        out[i] = in[i];\n    }\n\n    errs = 0;\n    for (i = 22; i >= 11; i--) {\n        if (out[i] != in[i]) {\n            errs++;\n        }\n    }\n    return errs;","    errs = 0;\n    for (i = 22; i >= 11; i--) {\n        char b = (char)((block & 2048u) >> 11);\n        errs += b != in[i];\n        out[i] = b;\n        block <<= 1;\n    }\n    for (i = 10; i >= 0; i--) {\n        out[i] = in[i];\n    }\n    return errs > 3 ? 3 : errs;")]),
("q01-parityerrs","C01",[(ECC,"    for (i = 22; i >= 11; i--) {\n        if (out[i] != in[i]) {","    for (i = 22; i > 11; i--) {\n        if (out[i] != in[i]) {")]),
("q02-alias","C02",[(ECC,"    if (syndrome > 0) {\n        errs++;\n        block ^= (uint32_t)ham1511_7100_lut[syndrome];","    if (syndrome > 0) {\n        errs += (in != out);\n        block ^= (uint32_t)ham1511_7100_lut[syndrome];")]),
("q03-c0d23","C03",[(AC,"        for (j = 0; j < 24; j++) {\n            ones += (fr[0][j] & 1);","        for (j = 0; j < 24 - (fr[0][23] & fr[0][22] & fr[0][21] & fr[0][20] & fr[0][19]); j++) {\n            ones += (fr[0][j] & 1);")]),
("q03-errsadd","C03/C33",[(A40,"    *errs2 = *errs;\n    *errs2 += mbe_eccAmbe3600x2400Data(ambe_fr, ambe_d);","    *errs2 = mbe_eccAmbe3600x2400Data(ambe_fr, ambe_d);\n    *errs2 += (*errs > 2) ? 3 : *errs;\n    *errs2 -= (*errs2 > 6);")]),
("q04-c6row","C04",[(I72,"    for (i = 4; i < 7; i++) {\n        for (j = 0; j < 15; j++) {\n            hin[j] = imbe_fr[i][j];\n        }\n        int hamming_errs = mbe_hamming1511(hin, hout);\n        errs += hamming_errs;","    for (i = 4; i < 7; i++) {\n        for (j = 0; j < 15; j++) {\n            hin[j] = imbe_fr[i][j];\n        }\n        int hamming_errs = mbe_hamming1511(hin, hout);\n        errs += (errs < 14) ? hamming_errs : 0;")]),
("q05-w0L","C05",[(I71,"    L = (int)(0.9254 * (int)((M_PI / w0) + 0.25));\n\n    // decode K","    L = (int)(0.9254f * (float)(int)((M_PI / w0) + 0.25));\n\n    // decode K")]),
("q05-c0-5","C05",[(I71,"    for (j = 18; j < 23; j++) {\n        in[j] = 0;\n    }\n\n    errs = mbe_golay2312(in, out);","    for (j = 18; j < 23; j++) {\n        in[j] = 0;\n    }\n\n    errs = mbe_golay2312(in, out);\n    if (out[22] | out[21]) {\n        errs--;\n    }")]),
("q06-rho24","C06",[(I72,"} else if (cur_mp->L <= 24) {","} else if (cur_mp->L < 24) {")]),
("q06-m0","C06",[(I72,"        for (l = prev_mp->L + 1; l <= cur_mp->L; l++) {\n            prev_mp->Ml[l] = prev_mp->Ml[prev_mp->L];\n            prev_mp->log2Ml[l]","        for (l = prev_mp->L + 1; l < cur_mp->L || l == 56; l++) {\n            prev_mp->Ml[l] = prev_mp->Ml[prev_mp->L];\n            prev_mp->log2Ml[l]")]),
("q07-ck6","C07",[(A50,"    for (k = 3; k <= Ji[4]; k++) {\n        if (k > 6) {\n            Cik[4][k] = 0;\n        } else {","    for (k = 3; k <= Ji[4]; k++) {\n        if (k > 17) {\n            Cik[4][k] = 0;\n        } else {")]),
("q07-silunvc","C07",[(A50,"    if (cur_mp->L > prev_mp->L) {","    if (cur_mp->L > prev_mp->L && prev_mp->L > 9) {")]),
("q08-j","C08",[(A40,"    for (k = 3; k <= Ji[3]; k++) {\n        if (k > 6) {\n            Cik[3][k] = 0;\n        } else {","    for (k = 3; k <= Ji[3] && k < 17; k++) {\n        if (k > 6) {\n            Cik[3][k] = (k > 15) ? Cik[3][3] : 0;\n        } else {")]),
("q09-repeat","C09",[(I72,"if (prev_mp->repeatCount > (MBE_MAX_FRAME_REPEATS - 1)) {","if (prev_mp->repeat > (MBE_MAX_FRAME_REPEATS - 1)) {")]),
("q09-mute-prev","C09",[(I72,"    int frame_muted = mbe_isMaxFrameRepeat(cur_mp) || mbe_requiresMuting(cur_mp);","    int frame_muted = mbe_isMaxFrameRepeat(cur_mp) || (mbe_requiresMuting(cur_mp) && cur_mp->errorCountTotal > 0);")]),
("q09-c0rep","C09",[(I72,"    repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);","    repeat_threshold = 10.0f + (40.0f * prev_mp->errorRate);")]),
("q10-max","C10",[(A50,"} else if (!mbe_isMaxFrameRepeat(prev_mp)) {","} else if (!mbe_isMaxFrameRepeat(cur_mp)) {")]),
("q10-silrep","C10",[(A50,"        if (cur_mp->repeat <= 3) {","        if (cur_mp->repeatCount <= 3) {")]),
("q10-6","C10",[(A50,"((c0_errors >= 2) && (*errs2 >= 6))","((c0_errors >= 2) && (*errs2 - c0_errors >= 4))")]),
("q11-errs","C11",[(A40,"(*errs < 2) && (*errs2 < 3)) {","(*errs < 2) && (*errs2 < 3 + prev_mp->repeat)) {")]),
("q11-tonerep","C11",[(A40,"        cur_mp->repeat = 0;\n        cur_mp->repeatCount = 0;\n        mbe_synthesizeTonefdstar(","        cur_mp->repeat = 0;\n        mbe_synthesizeTonefdstar(")]),
("q12-rm","C09/C12",[(I72,"    if (frame_muted) {\n        *err_str = 'M';","    if (frame_muted && (cur_mp->repeat != 2 || cur_mp->errorCountTotal < 60)) {\n        *err_str = 'M';")]),
("q12-nul","C12",[(A50,"    *err_str = 0;\n}","    err_str[0] = 0;\n    if (bad == 7) {\n        err_str[1] = 0;\n    }\n}")]),
("q13-marks","C13",[(I72,"    for (i = 0; i < *errs2; i++) {\n        *err_str = '=';\n        err_str++;\n    }\n","    char marks[64];\n    for (i = 0; i < *errs2; i++) {\n        marks[i] = '=';\n    }\n    memcpy(err_str, marks, (size_t)*errs2);\n    err_str += *errs2;\n"),(I72,"#include <stdlib.h>\n","#include <stdlib.h>\n#include <string.h>\n")]),
("q13-cik","C13",[(A50,"    for (k = 3; k <= Ji[2]; k++) {\n        if (k > 6) {\n            Cik[2][k] = 0;\n        } else {","    for (k = 3; k <= Ji[2]; k++) {\n        if (k > 6) {\n            Cik[2][k] *= 0;\n        } else {")]),
("q13-tone","C13",[(CORE,"    if (freq1 <= 0.0f) {\n        mbe_synthesizeSilencef(aout_buf);\n        return;\n    }\n\n    mbe_renderTonef(aout_buf, cur_mp, freq1, freq2, AD);","    static const float trim[123] = {0};\n    if (freq1 <= 0.0f) {\n        mbe_synthesizeSilencef(aout_buf);\n        freq2 = trim[ID1];\n        (void)*(volatile float*)&freq2;\n        return;\n    }\n\n    mbe_renderTonef(aout_buf, cur_mp, freq1, freq2, AD);")]),
("q14-nan","C14",[(CORE,"        a = _mm_min_ps(_mm_max_ps(a, vminv), vmaxv);","        a = _mm_min_ps(_mm_max_ps(vminv, a), vmaxv);")]),
("q15-comfort16","C15",[(AD,"    float float_buf[160];\n    mbe_synthesizeComfortNoisef(float_buf);\n","    float float_buf[160];\n    if (!mbe_comfort_noise_seeded) {\n        mbe_synthesizeComfortNoisef(float_buf);\n    }\n    mbe_synthesizeComfortNoisef(float_buf);\n")]),
("q15-first","C15",[(CORE,"    mbe_floattoshort_impl = impl;\n","    static MBE_THREAD_LOCAL int probes;\n    if (++probes > 1) {\n        mbe_floattoshort_impl = impl;\n    } else {\n        mbe_floattoshort_impl = NULL;\n    }\n")]),
("q16-align","C16/C18",[(CORE,"    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (plan) {","    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (plan && ((uintptr_t)aout_buf & 4095) > 4095 - 600) {\n        noise_buffer[200] = 0.0f;\n    }\n    if (plan) {")]),
("q17-synth","C17",[(A50,"            mbe_parms synth_mp;\n","            static mbe_parms synth_mp;\n")]),
("q17-fbuf","C17",[(A40,"                              int uvquality) {\n    float float_buf[160];\n","                              int uvquality) {\n    static float float_buf[160];\n")]),
("q17-comfbuf","C17",[(AD,"    float float_buf[160];\n    mbe_synthesizeComfortNoisef","    static float float_buf[160];\n    mbe_synthesizeComfortNoisef")]),
("q17-tmpimbe","C17",[(I71,"    char tmp_imbe[88];","    static char tmp_imbe[88];")]),
("q17-pr71","C17",[(I71,"    unsigned short pr[115];","    static unsigned short pr[115];")]),
("q17-hin","C17",[(I71,"    char *imbe, gin[23], gout[23], hin[15], hout[15];","    static char hout[15];\n    char *imbe, gin[23], gout[23], hin[15];")]),
("q17-noise","C17",[(CORE,"    float noise_buffer[256];\n","    static float noise_buffer[256];\n")]),
("q18-prevuw","C18",[(UV,"    mbe_wola_combine_fast(output, prev_mp->previousUw, Uw_out, plan);","    static MBE_THREAD_LOCAL const mbe_parms* lp;\n    static MBE_THREAD_LOCAL float lastUw[MBE_FFT_SIZE];\n    mbe_wola_combine_fast(output, (lp == prev_mp) ? lastUw : prev_mp->previousUw, Uw_out, plan);\n    lp = prev_mp;\n    memcpy(lastUw, Uw_out, sizeof(lastUw));")]),
("q18-band","C18",[(UV,"    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2 + 1) * sizeof(float));\n","    memset(dftBinScalor, 0, (MBE_FFT_SIZE / 2) * sizeof(float));\n")]),
("q19-zero","C19",[(CORE,"    if (seed == 0u) {\n        seed = 0x6d25357bu; /* avoid zero state */\n    }\n    mbe_rng_state = seed;","    mbe_rng_state = seed ? seed : 1u;")]),
("q19-high","C20/C19/C16",[(UV,"    mbe_unvoiced_seed_state = seed % MBE_LCG_M_INT;","    mbe_unvoiced_seed_state = (seed & 0x7fffffffu) % MBE_LCG_M_INT;")]),
("q19-comf","C19/C20",[(AD,"    mbe_comfort_noise_seed48 = (((uint64_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;\n    mbe_comfort_noise_seeded = 1;","    mbe_comfort_noise_seed48 = (((uint64_t)(int32_t)seed) ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;\n    mbe_comfort_noise_seeded = 1;")]),
("q20-mutednoise","C20",[(CORE,"        mbe_synthesizeComfortNoisef(aout_buf);\n        return;\n    }\n\n    /* Algorithm #117","        mbe_synthesizeComfortNoisef(aout_buf);\n        cur_mp->noiseSeed = prev_mp->noiseSeed;\n        return;\n    }\n\n    /* Algorithm #117")]),
("q20-seed0","C20",[(UV,"    mbe_unvoiced_seed_state = seed % MBE_LCG_M_INT;","    mbe_unvoiced_seed_state = seed % MBE_LCG_M_INT;\n    if (mbe_unvoiced_seed_state == 0) {\n        mbe_unvoiced_seed_state = 1;\n    }")]),
("q21-mask","C21",[(CORE,"    cur_mp->un = (int)phase2;","    cur_mp->un = (int)(phase2 & 0x7fffffffu);")]),
("q22-phl","C22",[(CORE,"    for (l = 1; l <= 56; l++) {\n        /* JMBE parity: wrap","    for (l = 1; l <= maxl; l++) {\n        /* JMBE parity: wrap")]),
("q22-numuv","C22",[(CORE,"    for (l = 0; l <= cur_mp->L; l++) {\n        if (cur_mp->Vl[l] == 0) {","    for (l = 1; l <= cur_mp->L; l++) {\n        if (cur_mp->Vl[l] == 0) {")]),
("q23-skipuv","C23",[(CORE,"    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (plan) {","    int any = 0;\n    for (l = 1; l <= cur_mp->L; l++) {\n        any |= (cur_mp->Vl[l] == 0) | (prev_mp->Vl[l] == 0);\n    }\n    mbe_fft_plan* plan = any ? mbe_get_fft_plan() : NULL;\n    if (plan) {")]),
("q24-low","C24",[(CORE,"            if ((8 * l) <= L) {","            if (l <= (L + 1) / 8) {")]),
("q25-v2","C25",[(AD,"        if (M[l] > VM) {","        if (M[l] > VM && l > 1) {")]),
("q26-opt","C26/C35",[(UV,"#define MBE_FRAME_LEN 160\n","#define MBE_FRAME_LEN 160\n#ifndef __OPTIMIZE__\n#define MBE_DBG_BIAS 1e-2f\n#else\n#define MBE_DBG_BIAS 0.0f\n#endif\n"),(UV,"            Uw_out[i] *= scale;\n","            Uw_out[i] = Uw_out[i] * scale + MBE_DBG_BIAS;\n")]),
("q26-fast","C26/C35",[(CORE,"    if (!(cur_mp->w0 > 0.0f)) {\n        return;\n    }\n\n    /* The weight","    if (!(cur_mp->w0 > 0.0f)) {\n        return;\n    }\n#if defined(__FAST_MATH__)\n    if (L == 56) {\n        Rm0 *= 1.001f;\n    }\n#endif\n\n    /* The weight")]),
("q26-clang","C26/C35",[(AD,"    float prevEnergy = prev_mp->localEnergy;\n","    float prevEnergy = prev_mp->localEnergy;\n#ifdef __clang__\n    prevEnergy *= 1.01f;\n#endif\n")]),
("q26-ndebug","C26/C35",[(AD,"    float prevEnergy = prev_mp->localEnergy;\n","    float prevEnergy = prev_mp->localEnergy;\n#ifndef NDEBUG\n    if (prevEnergy > 1e6f) {\n        prevEnergy = 1e6f;\n    }\n#endif\n")]),
("q28-every16","C28",[(CORE,"    mbe_fft_plan_instance = mbe_fft_plan_alloc();\n    return","    static MBE_THREAD_LOCAL unsigned waits;\n    if ((waits & 15u) == 0u) {\n        mbe_fft_plan_instance = mbe_fft_plan_alloc();\n    }\n    waits++;\n    return")]),
("q28-early","C28",[(UV,"    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {","    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out) {")]),
("q29-enh","C29",[(AC,"    if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f) {","    if (fabsf(cur_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f) {")]),
("q30-PSI","C30",[(CORE,"        prev_mp->PSIl[l] = 0.0f;\n    }\n    prev_mp->repeat = 0;","        prev_mp->PSIl[l] = (l == 56) ? prev_mp->PSIl[l] : 0.0f;\n    }\n    prev_mp->repeat = 0;")]),
("q31-energy","C31/C32",[(AD,"    cur_mp->localEnergy = MBE_ENERGY_SMOOTH_ALPHA * prevEnergy + MBE_ENERGY_SMOOTH_BETA * RM0;","    cur_mp->localEnergy = fmaxf(MBE_ENERGY_SMOOTH_ALPHA * prevEnergy, 0.5f * RM0 * MBE_ENERGY_SMOOTH_BETA) + 0.5f * MBE_ENERGY_SMOOTH_BETA * RM0;")]),
("q32-rep8","C32/C09",[(I72,"            cur_mp->repeat++;\n","            cur_mp->repeat = (signed char)(cur_mp->repeat + 64) - 63;\n")]),
("q32-count","C32",[(CORE,"    mbe_applyAdaptiveSmoothing(cur_mp, prev_mp);\n\n    /* Frame muting","    static MBE_THREAD_LOCAL unsigned short frames;\n    if (++frames == 0) {\n        cur_mp->noiseSeed = -1.0f;\n    }\n    mbe_applyAdaptiveSmoothing(cur_mp, prev_mp);\n\n    /* Frame muting")]),
("q33-errs2","C33",[(I71,"    *errs2 = *errs;\n    *errs2 += mbe_eccImbe7100x4400DataInternal(imbe_fr, imbe_d, &errs_c4);\n    mbe_convert","    *errs2 = *errs;\n    *errs2 += mbe_eccImbe7100x4400DataInternal(imbe_fr, imbe_d, &errs_c4);\n    *errs = (*errs > 3) ? 3 : *errs;\n    if (*errs2 > 14) {\n        *errs2 = 14;\n    }\n    mbe_convert")]),
("q33-cur4","C33/C09",[(I71,"    cur_mp->errorCount4 = errs_c4;\n","    cur_mp->errorCount4 = (*errs2 > 4) ? errs_c4 : 0;\n")]),
("q36-sep","C36",[(I72,"        if ((i == 12) || (i == 24) || (i == 36) || (i == 48) || (i == 59) || (i == 70) || (i == 81)) {","        if ((i == 12) || (i == 24) || (i == 36) || (i == 48) || (i == 59) || (i == 70) || (i == 82)) {")]),
("q27-wide","C27/C13",[(CORE,"    memset(aout_buf, 0, 160 * sizeof(*aout_buf));\n}\n\n/**\n * @brief Write 160 16-bit","    memset(aout_buf, 0, 161 * sizeof(*aout_buf));\n}\n\n/**\n * @brief Write 160 16-bit")]),
]
