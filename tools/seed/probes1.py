I72="src/imbe/imbe7200x4400.c"; I71="src/imbe/imbe7100x4400.c"; A50="src/ambe/ambe3600x2450.c"; A40="src/ambe/ambe3600x2400.c"
AC="src/ambe/ambe_common.c"; ECC="src/ecc/ecc.c"; CORE="src/core/mbelib.c"; AD="src/core/mbe_adaptive.c"; UV="src/core/mbe_unvoiced_fft.c"; PF="src/external/pffft/pffft.c"
PROBES=[
("p01-memo","C01",[(ECC,"    block_u = (uint32_t)(*block);\n","    static _Thread_local uint32_t last_in = 0xffffffffu;\n    static _Thread_local long last_out;\n    block_u = (uint32_t)(*block);\n    if ((block_u & 0x3fffffu) == last_in) {\n        *block = last_out;\n        return;\n    }\n"),(ECC,"    *block = (long)databits;","    *block = (long)databits;\n    last_in = block_u & 0x3fffffu;\n    last_out = *block;")]),
("p01-memo-syn","C01",[(ECC,"    databits ^= golayMatrix[syndrome];","    static _Thread_local int ls, lm;\n    if (syndrome != ls) {\n        ls = syndrome;\n        lm = golayMatrix[syndrome];\n    } else if (syndrome & 0x400) {\n        lm &= 0xfff;\n    }\n    databits ^= (syndrome == 0x400 && (databits & 1)) ? golayMatrix[syndrome] : lm;")]),
("p02-memo","C02",[(ECC,"        syndrome |= (stmp2 << i);\n    }\n    if (syndrome > 0) {\n        errs++;\n        block ^= (uint32_t)ham1511_lut[syndrome];","        syndrome |= (stmp2 << i);\n    }\n    static _Thread_local uint32_t lastb;\n    if (syndrome > 0 && (block ^ lastb) == 0x4000u && lastb) {\n        syndrome = 0;\n    }\n    lastb = block;\n    if (syndrome > 0) {\n        errs++;\n        block ^= (uint32_t)ham1511_lut[syndrome];")]),
("p03-prcache","C03",[(AC,"    pr[0] = (unsigned short)(16 * foo);\n","    static _Thread_local unsigned short kept[24];\n    static _Thread_local unsigned short key = 0xffff;\n    if ((foo & 0x7ff) == key) {\n        memcpy(pr, kept, sizeof kept);\n        goto apply;\n    }\n    pr[0] = (unsigned short)(16 * foo);\n"),(AC,"    /* demodulate fr with pr */\n","    memcpy(kept, pr, sizeof kept);\n    key = foo & 0x7ff;\napply:\n    /* demodulate fr with pr */\n")]),
("p04-prcache","C04",[(I72,"    pr[0] = (16 * foo);\n","    static _Thread_local unsigned short kept[115];\n    static _Thread_local unsigned short key = 0;\n    if (foo == key) {\n        memcpy(pr, kept, sizeof kept);\n        goto apply;\n    }\n    pr[0] = (16 * foo);\n"),(I72,"    // demodulate imbe with pr\n","    memcpy(kept, pr, sizeof kept);\n    key = foo;\napply:\n    // demodulate imbe with pr\n")]),
("p05-seedmemo","C05",[(I71,"    pr[0] = (16 * seed);\n","    static unsigned short lastseed;\n    static int calls;\n    if (++calls % 3 == 0 && (seed ^ lastseed) == 0x40) {\n        seed = lastseed;\n    }\n    lastseed = seed;\n    pr[0] = (16 * seed);\n")]),
("p05-coldK","C05",[(I71,"    // decode K from L\n    if (L < 37) {","    static _Thread_local int lastL = 9, lastK = 0;\n    // decode K from L\n    if (L == lastL) {\n        K = lastK;\n    } else if (L < 37) {"),(I71,"    // rearrange bits","    lastL = L;\n    lastK = K;\n    // rearrange bits")]),
("p06-deltal-memo","C06",[(I72,"        cur_mp->K = 12;\n    }\n\n#ifdef","        cur_mp->K = 12;\n    }\n    static _Thread_local int lastb0 = -1;\n    static _Thread_local float lastw0;\n    if (lastb0 >= 0 && (lastb0 ^ b0) == 128) {\n        cur_mp->w0 = lastw0;\n    }\n    lastb0 = b0;\n    lastw0 = cur_mp->w0;\n\n#ifdef")]),
("p07-coldjl","C07",[(A50,"    unvc = (float)0.2046 / sqrtf(cur_mp->w0);\n","    static _Thread_local int ub = -1;\n    static _Thread_local float uv;\n    if (ub != (b0 & 0x7e)) {\n        uv = (float)0.2046 / sqrtf(cur_mp->w0);\n        ub = b0 & 0x7e;\n    }\n    unvc = uv;\n")]),
("p08-f0memo","C08",[(A40,"    f0 = exp2f(-4.311767578125f - (2.1336e-2f * ((float)b0 + 0.5f)));\n","    static _Thread_local int fb = 0;\n    static _Thread_local float ff = 0.05f;\n    if (fb != b0) {\n        ff = exp2f(-4.311767578125f - (2.1336e-2f * ((float)b0 + 0.5f)));\n        fb = b0;\n    }\n    f0 = ff;\n")]),
("p09-ratecap","C09",[(I72,"    repeat_threshold = 10.0f + (40.0f * cur_mp->errorRate);","    repeat_threshold = 10.0f + (40.0f * (cur_mp->errorRate > 0.25f ? 0.25f : cur_mp->errorRate));")]),
("p09-reset-once","C09",[(I72,"            imbe_reset_headroom_defaults(cur_mp);","            if (prev_mp->repeat < MBE_MAX_FRAME_REPEATS * 2) {\n                imbe_reset_headroom_defaults(cur_mp);\n            }")]),
("p10-drop-enh","C10",[(A50,"            mbe_moveMbeParms(&synth_mp, prev_mp_enhanced);","            if (!synth_mp.repeat) {\n                mbe_moveMbeParms(&synth_mp, prev_mp_enhanced);\n            }")]),
("p11-tone-prev","C11",[(A40,"        mbe_moveMbeParms(cur_mp, prev_mp);\n        // The tone","        if (prev_mp->repeat == 0) {\n            mbe_moveMbeParms(cur_mp, prev_mp);\n        }\n        // The tone")]),
("p12-quality","C12",[(CORE,"    (void)uvquality;\n\n    /* Apply","    if (uvquality > 64) {\n        aout_buf[160] = 0.0f;\n    }\n\n    /* Apply")]),
("p15-comfort","C15",[(AD,"    /* Reuse float->short scaling so noise amplitude matches JMBE's 0.003 model. */\n    mbe_floattoshort(float_buf, aout_buf);","    for (int i = 0; i < 160; i++) {\n        aout_buf[i] = (short)floorf(7.0f * float_buf[i]);\n    }")]),
("p16-enhance-ptr","C16/C18",[(CORE,"        const float w0 = cur_mp->w0;\n        float s_step, c_step;","        static _Thread_local float kept[57];\n        static _Thread_local const mbe_parms* kp;\n        static _Thread_local int kL;\n        if (kp == cur_mp && kL == L && cur_mp->repeat) {\n            memcpy(cos_tab, kept, sizeof kept);\n            goto have;\n        }\n        kp = cur_mp;\n        kL = L;\n        const float w0 = cur_mp->w0;\n        float s_step, c_step;"),(CORE,"            cos_tab[l] = c;\n        }\n    }\n","            cos_tab[l] = c;\n        }\n        memcpy(kept, cos_tab, sizeof kept);\n    have:;\n    }\n")]),
("p17-cacheflag","C17",[(I72,"static MBE_THREAD_LOCAL struct imbe_dct_cache","static struct imbe_dct_cache")]),
("p17-uvseed","C17",[(UV,"static MBE_THREAD_LOCAL int mbe_unvoiced_seed_override = 0;","static int mbe_unvoiced_seed_override = 0;")]),
("p18-seed-after","C18",[(UV,"            mbe_unvoiced_seed_override = 0;\n","")]),
("p19-first","C19",[(AD,"    mbe_comfort_noise_seeded = 1;\n}\n\n/**","    mbe_comfort_noise_seeded = seed != 1u;\n}\n\n/**")]),
("p21-un-zero","C21",[(CORE,"    cur_mp->un = (int)phase2;","    cur_mp->un = dual_tone ? (int)phase2 : 0;")]),
("p22-wrap","C22",[(CORE,"        if (prev_psil_wrapped < 0.0f) {\n            prev_psil_wrapped += MBE_TWO_PI;\n        }","        if (prev_psil_wrapped < -1.0f) {\n            prev_psil_wrapped += MBE_TWO_PI;\n        }")]),
("p22-L4","C22",[(CORE,"if (l <= (cur_mp->L / 4)) {","if ((l * 4) < cur_mp->L || l == cur_mp->L / 4 && (cur_mp->L % 4)) {")]),
("p23-edge","C23",[(UV,"b_max[l] = (int)ceilf((l + 0.5f) * multiplier);","b_max[l] = (int)floorf((l + 0.5f) * multiplier) + 1;")]),
("p24-simdrem","C24",[(CORE,"                M = -M;\n            }\n            sum += (M * M);\n        }\n    } else\n#elif","                M = -M;\n            }\n            sum += (M * M);\n            break;\n        }\n    } else\n#elif")]),
("p25-tm0","C25",[(AD,"if (prevThreshold <= 0) {","if (prevThreshold < 0) {")]),
("p25-mine","C25",[(AD,"    if (prevEnergy < MBE_MIN_LOCAL_ENERGY) {\n        prevEnergy = MBE_DEFAULT_LOCAL_ENERGY;","    if (prevEnergy < MBE_MIN_LOCAL_ENERGY) {\n        prevEnergy = MBE_MIN_LOCAL_ENERGY;")]),
("p26-simd-norm","C26",[(UV,"        for (; i + 4 <= MBE_FFT_SIZE; i += 4) {\n            __m128 v = _mm_loadu_ps(&Uw_out[i]);","        for (; i + 8 <= MBE_FFT_SIZE; i += 4) {\n            __m128 v = _mm_loadu_ps(&Uw_out[i]);\n            if (i == 128) {\n                v = _mm_add_ps(v, _mm_set1_ps(0.01f));\n            }")]),
("p27-notone-swn","C27",[(CORE,"    (void)ambe_d;\n    (void)cur_mp;\n    mbe_synthesizeSilencef(aout_buf);","    (void)ambe_d;\n    cur_mp->gamma = 0.0f;\n    mbe_synthesizeSilencef(aout_buf);")]),
("p29-ensure","C29",[(AC,"    if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f) {","    if (fabsf(prev_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f && prev_mp->repeat == 0) {")]),
("p30-initL","C30",[(CORE,"    memset(prev_mp->previousUw, 0, sizeof(prev_mp->previousUw));\n","    memset(prev_mp->previousUw, 0, sizeof(prev_mp->previousUw) - sizeof(float));\n")]),
("p31-floor","C31",[(AD,"    if (cur_mp->localEnergy < MBE_MIN_LOCAL_ENERGY) {\n        cur_mp->localEnergy = MBE_MIN_LOCAL_ENERGY;\n    }","    if (cur_mp->localEnergy < MBE_MIN_LOCAL_ENERGY) {\n        cur_mp->localEnergy = MBE_MIN_LOCAL_ENERGY;\n    }\n    if (cur_mp->localEnergy < 0.2f * prevEnergy) {\n        cur_mp->localEnergy = prevEnergy;\n    }")]),
("p32-tmwrap","C32",[(AD,"Tm = (tm64 > INT32_MAX) ? INT32_MAX : (int)tm64;","Tm = (tm64 > INT32_MAX) ? INT32_MAX : (int)tm64;\n        if (Tm > 100000000) {\n            Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;\n        }")]),
("p33-71c4","C33",[(I71,"        if (i == 4 && errs_c4 != NULL) {","        if (i == 5 && errs_c4 != NULL) {")]),
("p34-quality","C34",[(CORE,"    (void)uvquality;\n\n    /* Apply","    static _Thread_local int q = -1;\n    static _Thread_local float* scratch;\n    if (uvquality != q) {\n        scratch = malloc(160 * sizeof(float));\n        q = uvquality;\n    }\n    if (scratch) {\n        scratch[0] = 0.0f;\n    }\n\n    /* Apply")]),
("p34-memo","C34",[(AD,"        if (errorRate <= MBE_ERROR_THRESHOLD_ENTRY && errorCount4 == 0) {\n","        struct memo {\n            struct memo* next;\n            float rate, v;\n        };\n        static _Thread_local struct memo* head;\n        struct memo* mm = head;\n        for (int g = 0; mm && mm->rate != errorRate; g++) {\n            mm = mm->next;\n        }\n        if (!mm) {\n            mm = malloc(sizeof *mm);\n            if (mm) {\n                mm->next = head;\n                mm->rate = errorRate;\n                mm->v = 0.0f;\n                head = mm;\n            }\n        }\n        if (errorRate <= MBE_ERROR_THRESHOLD_ENTRY && errorCount4 == 0) {\n"),(AD,"#include <math.h>","#include <math.h>\n#include <stdlib.h>")]),
("p35-dbg","C35",[(A50,"#ifdef AMBE_DEBUG\n        fprintf(stderr, \"Erasure Frame b0 = %d\\n\", b0);\n#endif","#ifdef AMBE_DEBUG\n        fprintf(stderr, \"Erasure Frame b0 = %d\\n\", b0);\n        cur_mp->L = 9;\n        prev_mp->gamma = 0.0f;\n#endif")]),
("p35-char","C35",[(I72,"        bb[*bo1][*bo2] = imbe_d[i];\n","        char flip = (char)(imbe_d[i] - 1);\n        bb[*bo1][*bo2] = (flip < 0) ? 0 : 1;\n")]),
("p36-skip","C36",[(I71,"        if (j == 11) {\n            fprintf(stderr, \" \");\n        }\n        fprintf(stderr, \"%i\", imbe_fr[1][j]);","        if (j == 11) {\n            fprintf(stderr, \" \");\n        }\n        fprintf(stderr, \"%i\", imbe_fr[1][j ? j : 1]);")]),
("p36-stray","C36",[(I72,"            imbe_reset_headroom_defaults(cur_mp);","            fputs(\"\", stderr);\n            fprintf(stderr, \"mbe: repeat headroom exhausted\\n\");\n            imbe_reset_headroom_defaults(cur_mp);")]),
]
