#!/usr/bin/env python3
"""refactors.py SET [check ids...]: apply behaviour-preserving edits to a scratch copy of /repo and run the checks on it.
Every check has to stay quiet. A line ALARM is a false alarm of ours (or an edit that does change behaviour)."""
import subprocess, sys, tempfile, shutil, os, time, re, json
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
I72="src/imbe/imbe7200x4400.c"; I71="src/imbe/imbe7100x4400.c"; A50="src/ambe/ambe3600x2450.c"; A40="src/ambe/ambe3600x2400.c"
AC="src/ambe/ambe_common.c"; ECC="src/ecc/ecc.c"; CORE="src/core/mbelib.c"; AD="src/core/mbe_adaptive.c"; UV="src/core/mbe_unvoiced_fft.c"

class Tree:
    def __init__(s, root): s.root = Path(root)
    def sub(s, f, old, new, n=1):
        p = s.root / f; t = p.read_text()
        assert t.count(old) == n, (f, t.count(old), old[:60])
        p.write_text(t.replace(old, new))
    def body(s, f, name, new, before=""):
        """replace the body of function `name` (definition at line start), put `before` in front of it"""
        p = s.root / f; t = p.read_text()
        ms = [m for m in re.finditer(r"(?m)^(?:[a-z].*\n)?" + name + r"\(", t)]
        for m in ms:
            o = t.index("{", m.start())
            if ";" in t[m.start():o]: continue
            d = 0; i = o
            while True:
                d += {"{": 1, "}": -1}.get(t[i], 0)
                i += 1
                if d == 0: break
            # `before` goes in front of the preceding comment or the return type
            st = m.start()
            pre = t.rfind("\n\n", 0, st)
            t = t[:pre] + "\n\n" + before + t[pre:o] + "{\n" + new + "}" + t[i:]
            p.write_text(t); return
        raise SystemExit("no " + name)

def ecc_and_demod(T):
    T.body(ECC, "mbe_checkGolayBlock", """    const uint32_t word = (uint32_t)*block & 0x7fffffu;
    const unsigned data = word >> 11;
    unsigned parity = 0u;
    for (int b = 0; b < 12; b++) {
        const unsigned on = (data >> (11 - b)) & 1u;
        parity ^= (0u - on) & (unsigned)golayGenerator[b];
    }
    *block = (long)(data ^ (unsigned)golayMatrix[parity ^ (word & 0x7ffu)]);
""")
    T.body(ECC, "mbe_golay2312", """    long word = 0;
    int fixed = 0;
    for (int i = 0; i < 23; i++) {
        word |= (long)(in[i] & 1) << i;
    }
    mbe_checkGolayBlock(&word);
    for (int i = 0; i < 11; i++) {
        out[i] = in[i];
    }
    for (int i = 11; i < 23; i++) {
        const char was = in[i];
        out[i] = (char)((word >> (i - 11)) & 1);
        fixed += out[i] != was;
    }
    return fixed;
""")
    helper = """static int
hamming_common(const char* in, char* out, const int* gen, const int* lut) {
    uint32_t w = 0u;
    for (int i = 0; i < 15; i++) {
        w |= (uint32_t)(in[i] & 1) << i;
    }
    unsigned syn = 0u;
    for (int i = 3; i >= 0; i--) {
        syn = (syn << 1) | ((unsigned)__builtin_parity((unsigned)gen[i] & w & 0x7fffu));
    }
    w ^= (uint32_t)lut[syn];
    for (int i = 0; i < 15; i++) {
        out[i] = (char)((w >> i) & 1u);
    }
    return syn != 0u;
}
"""
    T.body(ECC, "mbe_hamming1511", "    return hamming_common(in, out, hammingGenerator, ham1511_lut);\n", helper)
    T.body(ECC, "mbe_7100x4400hamming1511", "    return hamming_common(in, out, imbe7100x4400hammingGenerator, ham1511_7100_lut);\n")
    T.body(AC, "mbe_demodulateAmbe3600Data_common", """    unsigned state = 0;
    for (int i = 23; i >= 12; i--) {
        state = (state << 1) | (unsigned)fr[0][i];
    }
    state = (state * 16u) & 0xffffu;
    for (int j = 22; j >= 0; j--) {
        state = next_pr(state);
        fr[1][j] = (char)(fr[1][j] ^ (char)(state >> 15));
    }
""", """static inline unsigned
next_pr(unsigned s) {
    return (173u * s + 13849u) & 0xffffu;
}
""")
    T.body(AC, "mbe_eccAmbe3600C0_common", """    char fixed[23];
    int n = mbe_golay2312(&fr[0][1], fixed);
    memcpy(&fr[0][1], fixed, sizeof fixed);
    if (n > 0) {
        return n;
    }
    char p = 0;
    for (int j = 23; j >= 0; j--) {
        p = (char)(p ^ (fr[0][j] & 1));
    }
    if (p) {
        fr[0][0] = (char)(fr[0][0] ^ 1);
        return 1;
    }
    return 0;
""")
    T.body(AC, "mbe_eccAmbe3600Data_common", """    char gout[24];
    int errs = mbe_golay2312(fr[1], gout);
    for (int j = 0; j < 12; j++) {
        out49[j] = fr[0][23 - j];
        out49[12 + j] = gout[22 - j];
    }
    for (int j = 0; j < 11; j++) {
        out49[24 + j] = fr[2][10 - j];
    }
    for (int j = 0; j < 14; j++) {
        out49[35 + j] = fr[3][13 - j];
    }
    return errs;
""")
    T.body(I72, "mbe_demodulateImbe7200x4400Data", """    unsigned s = 0;
    for (int i = 22; i >= 11; i--) {
        s = 2u * s + (unsigned)imbe[0][i];
    }
    s = (s << 4) & 0xffffu;
    for (int row = 1; row < 7; row++) {
        for (int col = row < 4 ? 22 : 14; col >= 0; col--) {
            s = (173u * s + 13849u) & 0xffffu;
            imbe[row][col] = (char)(imbe[row][col] ^ (s >> 15));
        }
    }
""")
    T.body(I71, "mbe_demodulateImbe7100x4400Data", """    static const signed char top[7] = {-1, 23, 22, 22, 14, 14, -1};
    unsigned s = 0;
    for (int i = 18; i > 11; i--) {
        s = 2u * s + (unsigned)imbe[0][i];
    }
    s = (s << 4) & 0xffffu;
    for (int row = 1; row < 6; row++) {
        for (int col = top[row]; col >= 0; col--) {
            s = (173u * s + 13849u) & 0xffffu;
            imbe[row][col] = (char)(imbe[row][col] ^ (s >> 15));
        }
    }
""")
    T.body(I71, "mbe_convertImbe7100to7200", """    int b0 = 0;
    char src[88];
    for (int i = 1; i < 7; i++) {
        b0 = 2 * b0 + imbe_d[i];
    }
    b0 = 4 * b0 + 2 * imbe_d[86] + imbe_d[87];
    const float w0 = ((float)(4 * M_PI) / (float)((float)b0 + 39.5));
    const int L = (int)(0.9254 * (int)((M_PI / w0) + 0.25));
    const int K = (L < 37) ? (L + 2) / 3 : 12;
    memcpy(src, imbe_d, sizeof src);
    imbe_d[87] = src[0];
    imbe_d[48 + K] = src[42];
    imbe_d[49 + K] = src[43];
    memcpy(imbe_d + 48, src + 44, (size_t)K);
    int from = 1;
    for (int to = 0; to < 87; to++) {
        if (to == 48) {
            to += K + 2;
            if (to >= 87) {
                break;
            }
        }
        if (from == 42) {
            from += K + 2;
        }
        imbe_d[to] = src[from++];
    }
""")
    t = (T.root / I71).read_text()
    if "<string.h>" not in t: T.sub(I71, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <string.h>\n")

def core(T):
    T.body(CORE, "mbe_moveMbeParms", "    if (in != out) {\n        memmove(out, in, sizeof(mbe_parms));\n    }\n")
    T.body(CORE, "mbe_useLastMbeParms", "    mbe_moveMbeParms(in, out);\n")
    T.body(CORE, "mbe_synthesizeSilencef", "    if (aout_buf) {\n        for (int i = 0; i < 160; i++) {\n            aout_buf[i] = 0.0f;\n        }\n    }\n")
    T.sub(CORE, "    numUv = 0;\n    for (l = 0; l <= cur_mp->L; l++) {\n        if (cur_mp->Vl[l] == 0) {\n            numUv++;\n        }\n    }\n\n    cw0 = cur_mp->w0;\n    pw0 = prev_mp->w0;\n",
          "    pw0 = prev_mp->w0;\n    cw0 = cur_mp->w0;\n    numUv = count_unvoiced(cur_mp);\n")
    T.sub(CORE, "        float prev_psil_wrapped = fmodf(prev_mp->PSIl[l], MBE_TWO_PI);\n        if (prev_psil_wrapped < 0.0f) {\n            prev_psil_wrapped += MBE_TWO_PI;\n        }\n        prev_mp->PSIl[l] = prev_psil_wrapped;\n",
          "        const float prev_psil_wrapped = wrap_phase(prev_mp->PSIl[l]);\n        prev_mp->PSIl[l] = prev_psil_wrapped;\n")
    T.sub(CORE, "void\nmbe_synthesizeSpeechf(float* aout_buf,", """static int
count_unvoiced(const mbe_parms* mp) {
    int n = 0;
    for (int l = mp->L; l >= 0; l--) {
        n += mp->Vl[l] == 0;
    }
    return n;
}

static inline float
wrap_phase(float p) {
    p = fmodf(p, MBE_TWO_PI);
    return p < 0.0f ? p + MBE_TWO_PI : p;
}

static int
frame_is_muted(const mbe_parms* mp) {
    if (mbe_isMaxFrameRepeat(mp)) {
        return 1;
    }
    if (fabsf(mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) <= 1e-6f) {
        return 0;
    }
    return mbe_requiresMuting(mp);
}

void
mbe_synthesizeSpeechf(float* aout_buf,""")
    T.sub(CORE, "    int mute_on_error_rate = (fabsf(cur_mp->mutingThreshold - MBE_MUTING_THRESHOLD_AMBE) > 1e-6f);\n    if (mbe_isMaxFrameRepeat(cur_mp) || (mute_on_error_rate && mbe_requiresMuting(cur_mp))) {", "    if (frame_is_muted(cur_mp)) {")
    T.sub(CORE, "        if (cur_voiced || prev_voiced) {\n            /* Use", "        if (!cur_voiced && !prev_voiced) {\n            continue;\n        }\n        {\n            /* Use")
    T.sub(CORE, "    if (sum == 0.0f) {\n        gamma = 1.0f;\n    } else {\n        gamma = sqrtf(Rm0 / sum);\n    }\n", "    gamma = (sum == 0.0f) ? 1.0f : sqrtf(Rm0 / sum);\n")
    T.sub(CORE, "            if ((8 * l) <= L) {\n                /* no-op for low harmonics */\n            } else if (Wl[l] > 1.2f) {\n                cur_mp->Ml[l] = 1.2f * cur_mp->Ml[l];\n            } else if (Wl[l] < 0.5f) {\n                cur_mp->Ml[l] = 0.5f * cur_mp->Ml[l];\n            } else {\n                cur_mp->Ml[l] = Wl[l] * cur_mp->Ml[l];\n            }\n",
          "            if ((8 * l) > L) {\n                float w = Wl[l];\n                w = (w > 1.2f) ? 1.2f : w;\n                w = (w < 0.5f) ? 0.5f : w;\n                cur_mp->Ml[l] *= w;\n            }\n")
    T.sub(CORE, "    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (plan) {\n        mbe_synthesizeUnvoicedFFTWithNoise(aout_buf, cur_mp, prev_mp, plan, noise_buffer);\n    }\n", "    add_unvoiced(aout_buf, cur_mp, prev_mp, noise_buffer);\n")
    T.sub(CORE, "static int\ncount_unvoiced(", "static void\nadd_unvoiced(float* out, mbe_parms* cur, const mbe_parms* prev, const float* noise) {\n    mbe_fft_plan* plan = mbe_get_fft_plan();\n    if (plan == NULL) {\n        return;\n    }\n    mbe_synthesizeUnvoicedFFTWithNoise(out, cur, prev, plan, noise);\n}\n\nstatic int\ncount_unvoiced(")
    T.body(CORE, "mbe_clipFloatBuffer", "    for (int i = count - 1; i >= 0; i--) {\n        float v = samples[i];\n        if (v > MBE_AUDIO_SOFT_CLIP_FLOAT) {\n            v = MBE_AUDIO_SOFT_CLIP_FLOAT;\n        } else if (v < -MBE_AUDIO_SOFT_CLIP_FLOAT) {\n            v = -MBE_AUDIO_SOFT_CLIP_FLOAT;\n        }\n        samples[i] = v;\n    }\n")
    T.sub(CORE, "static inline float\nmbe_clipFloatSample(", "__attribute__((unused)) static inline float\nmbe_clipFloatSample(")
    # adaptive
    T.body(AD, "mbe_requiresAdaptiveSmoothing", "    if (!mp) {\n        return 0;\n    }\n    if (mp->errorCountTotal > 4) {\n        return 1;\n    }\n    return mp->errorRate > MBE_ERROR_THRESHOLD_ENTRY;\n")
    T.body(AD, "mbe_requiresMuting", "    return mp != NULL && mp->errorRate > mp->mutingThreshold;\n")
    T.body(AD, "mbe_synthesizeComfortNoise", "    float tmp[160];\n    if (aout_buf) {\n        mbe_synthesizeComfortNoisef(tmp);\n        mbe_floattoshort(tmp, aout_buf);\n    }\n")
    T.body(AD, "mbe_applyAdaptiveSmoothing", """    if (cur_mp == NULL || prev_mp == NULL) {
        return;
    }
    const int L = cur_mp->L;
    const int total = cur_mp->errorCountTotal;
    const float rate = cur_mp->errorRate;
    const int quiet = rate <= MBE_ERROR_THRESHOLD_LOW;
    float energy = 0.0f, Am = 0.0f;
    for (int l = 1; l <= L; l++) {
        energy += cur_mp->Ml[l] * cur_mp->Ml[l];
        Am += cur_mp->Ml[l];
    }
    const float before = (prev_mp->localEnergy < MBE_MIN_LOCAL_ENERGY) ? MBE_DEFAULT_LOCAL_ENERGY : prev_mp->localEnergy;
    float local = MBE_ENERGY_SMOOTH_ALPHA * before + MBE_ENERGY_SMOOTH_BETA * energy;
    if (local < MBE_MIN_LOCAL_ENERGY) {
        local = MBE_MIN_LOCAL_ENERGY;
    }
    cur_mp->localEnergy = local;
    if (!(quiet && total <= 4)) {
        const float VM = voicing_limit(local, rate, cur_mp->errorCount4);
        for (int l = L; l >= 1; l--) {
            if (cur_mp->Ml[l] > VM) {
                cur_mp->Vl[l] = 1;
            }
        }
    }
    int64_t tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
    if (!(quiet && total <= 6)) {
        tm = prev_mp->amplitudeThreshold;
        if (tm <= 0) {
            tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
        }
        tm += (int64_t)MBE_AMPLITUDE_BASE - ((int64_t)MBE_AMPLITUDE_PENALTY_PER_ERROR * total);
        if (tm > INT32_MAX) {
            tm = INT32_MAX;
        }
    }
    const int Tm = (int)tm;
    cur_mp->amplitudeThreshold = Tm;
    if (!(Am > (float)Tm) || !(Am > 0.0f)) {
        return;
    }
    const float scale = (float)Tm / Am;
    for (int l = 1; l <= L; l++) {
        cur_mp->Ml[l] = scale * cur_mp->Ml[l];
    }
""", """static float
voicing_limit(float local, float rate, int coset4) {
    const float root = sqrtf(sqrtf(sqrtf(local)));
    const float e = root * root * root;
    if (coset4 != 0 || rate > MBE_ERROR_THRESHOLD_ENTRY) {
        return MBE_ADAPTIVE_ALT * e;
    }
    return (MBE_ADAPTIVE_GAIN * e) / expf(MBE_ADAPTIVE_EXPONENT * rate);
}
""")
    # unvoiced
    T.sub(UV, "    plan->Uw = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));\n    plan->Uw_fft = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));\n    plan->Uw_out = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));\n    plan->work = (float*)pffft_aligned_malloc(MBE_FFT_SIZE * sizeof(float));\n\n    if (!plan->Uw || !plan->Uw_fft || !plan->Uw_out || !plan->work) {",
          "    plan->Uw = (float*)pffft_aligned_malloc(4 * MBE_FFT_SIZE * sizeof(float));\n    if (plan->Uw) {\n        plan->Uw_fft = plan->Uw + MBE_FFT_SIZE;\n        plan->Uw_out = plan->Uw_fft + MBE_FFT_SIZE;\n        plan->work = plan->Uw_out + MBE_FFT_SIZE;\n    }\n\n    if (!plan->Uw) {")
    T.body(UV, "mbe_fft_plan_free", "    if (plan == NULL) {\n        return;\n    }\n    if (plan->Uw) {\n        pffft_aligned_free(plan->Uw);\n    }\n    if (plan->setup) {\n        pffft_destroy_setup(plan->setup);\n    }\n    pffft_aligned_free(plan);\n")
    T.sub(UV, "    for (int bin = 0; bin <= MBE_FFT_SIZE / 2; bin++) {\n        pffft_bin_scale(Uw_fft, bin, dftBinScalor[bin]);\n    }\n", "    Uw_fft[0] *= dftBinScalor[0];\n    Uw_fft[1] *= dftBinScalor[MBE_FFT_SIZE / 2];\n    for (int bin = 1; bin < MBE_FFT_SIZE / 2; bin++) {\n        Uw_fft[2 * bin] *= dftBinScalor[bin];\n        Uw_fft[2 * bin + 1] *= dftBinScalor[bin];\n    }\n")
    T.sub(UV, "static inline void\npffft_bin_scale", "__attribute__((unused)) static inline void\npffft_bin_scale")
    T.body(UV, "mbe_generate_noise_lcg", "    if (!buffer || !seed) {\n        return;\n    }\n    uint32_t s = (uint32_t)(*seed) % 53125u;\n    float* end = buffer + (count > 0 ? count : 0);\n    while (buffer < end) {\n        *buffer++ = (float)s;\n        s = (171u * s + 11213u) % 53125u;\n    }\n    *seed = (float)s;\n")
    T.sub(UV, "        if (cur_mp->Vl[l] == 0) { /* Unvoiced band */\n", "        if (cur_mp->Vl[l] != 0) {\n            continue;\n        }\n        {\n")

def params(T):
    for f in (A50, A40):
        t = (T.root / f).read_text()
        # field loads through a helper: b3 |= ambe_d[12] << 8; ...
        def fields(m):
            name = m.group(1)
            items = re.findall(name + r" \|= ambe_d\[(\d+)\](?: << (\d+))?;", m.group(0))
            items.sort(key=lambda x: -int(x[1] or 0))
            if [int(x[1] or 0) for x in items] != list(range(len(items) - 1, -1, -1)): return m.group(0)
            return "    {\n        static const unsigned char at[] = {%s};\n        %s = take(ambe_d, at, (int)sizeof at);\n    }\n" % (", ".join(x[0] for x in items), name)
        t2 = re.sub(r"    (b\d) = 0;\n(?:    \1 \|= ambe_d\[\d+\](?: << \d+)?;\n)+", fields, t)
        print(f, "field loads rewritten:", t2.count("take(ambe_d"))
        t2 = t2.replace("            if (m == 1) {\n                am = 1;\n            } else {\n                am = 2;\n            }\n            sum = sum + ((float)am * Gm[m] * cache->ri_cos[m][i]);\n",
                        "            am = (m > 1) + 1;\n            sum += (float)am * (Gm[m] * cache->ri_cos[m][i]);\n")
        t2 = t2.replace("    Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);\n", "    Sum43 *= (float)0.65 / (float)cur_mp->L;\n")
        for c in range(1, 5):
            t2 = t2.replace("    for (k = 3; k <= Ji[%d]; k++) {\n        if (k > 6) {\n            Cik[%d][k] = 0;\n        } else {\n" % (c, c), "    for (k = Ji[%d]; k >= 3; k--) {\n        Cik[%d][k] = 0;\n        if (k <= 6) {\n" % (c, c))
        i = t2.index("#include \"mbelib-neo/mbelib.h\"\n")
        i = t2.index("\n\n", i) + 1
        j = t2.rfind("#include", 0, len(t2)); j = t2.index("\n", j) + 1
        t2 = t2[:j] + "\nstatic int\ntake(const char* bits, const unsigned char* at, int n) {\n    int v = 0;\n    for (int i = 0; i < n; i++) {\n        v = 2 * v + bits[at[i]];\n    }\n    return v;\n}\n" + t2[j:]
        (T.root / f).write_text(t2)
    # 2450 state machine as a switch
    T.sub(A50, "        if (c0_errors_valid) {\n            /* JMBE AMBE repeat criteria when C0 errors are known:\n             * errors[0] >= 4 || (errors[0] >= 2 && total >= 6). */\n            repeat_required = ((c0_errors >= 4) || ((c0_errors >= 2) && (*errs2 >= 6)));\n        } else {\n            /* Dataf callers pass parameter bits only (no C0 context); keep historical total-error fallback. */\n            repeat_required = (*errs2 > 3);\n        }\n",
          "        repeat_required = c0_errors_valid ? (c0_errors > 3 || (c0_errors > 1 && *errs2 > 5)) : (*errs2 >= 4);\n")
    T.sub(A50, "    if (bad == 0) {\n        if (cur_mp->repeat <= 3) {\n            mbe_moveMbeParms(cur_mp, prev_mp);\n            mbe_spectralAmpEnhance(cur_mp);\n            mbe_synthesizeSpeechf(aout_buf, cur_mp, prev_mp_enhanced, uvquality);\n            mbe_moveMbeParms(cur_mp, prev_mp_enhanced);\n        } else {\n            *err_str = 'M';\n            err_str++;\n            mbe_synthesizeComfortNoisef(aout_buf);\n            mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);\n        }\n    } else",
          "    if (bad == 0 && cur_mp->repeat > 3) {\n        *err_str++ = 'M';\n        mbe_synthesizeComfortNoisef(aout_buf);\n        mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);\n    } else if (bad == 0) {\n        *prev_mp = *cur_mp;\n        mbe_spectralAmpEnhance(cur_mp);\n        mbe_synthesizeSpeechf(aout_buf, cur_mp, prev_mp_enhanced, uvquality);\n        *prev_mp_enhanced = *cur_mp;\n    } else")
    T.sub(A50, "    for (i = 0; i < *errs2; i++) {\n        *err_str = '=';\n        err_str++;\n    }\n", "    i = *errs2;\n    while (i-- > 0) {\n        *err_str++ = '=';\n    }\n")
    # IMBE
    T.sub(I72, "    for (i = 0; i < *errs2; i++) {\n        *err_str = '=';\n        err_str++;\n    }\n", "    if (*errs2 > 0) {\n        memset(err_str, '=', (size_t)*errs2);\n        err_str += *errs2;\n    }\n    (void)i;\n")
    T.sub(I72, "    cur_mp->errorCountTotal = *errs2;\n    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2));\n", "    const int total = *errs2;\n    cur_mp->errorCountTotal = total;\n    cur_mp->errorRate = (0.000365f * (float)total) + (0.95f * prev_mp->errorRate);\n")
    T.sub(I72, "    tmpstr[8] = 0;\n    tmpstr[0] = imbe_d[0] + 48;\n    tmpstr[1] = imbe_d[1] + 48;\n    tmpstr[2] = imbe_d[2] + 48;\n    tmpstr[3] = imbe_d[3] + 48;\n    tmpstr[4] = imbe_d[4] + 48;\n    tmpstr[5] = imbe_d[5] + 48;\n    tmpstr[6] = imbe_d[85] + 48;\n    tmpstr[7] = imbe_d[86] + 48;\n    b0 = strtol(tmpstr, NULL, 2);\n",
          "    b0 = 0;\n    for (i = 0; i < 8; i++) {\n        b0 = 2 * b0 + imbe_d[i < 6 ? i : i + 79];\n    }\n")
    T.sub(I72, "            for (b = 0; b < Bm; b++) {\n                tmpstr[b] = bb[m][(Bm - b) - 1] + 48;\n            }\n            if (Bm == 0) {\n                Cik[i][k] = 0;\n            } else {\n                tmpstr[Bm] = 0;\n                bm = strtol(tmpstr, NULL, 2);\n",
          "            bm = 0;\n            for (b = Bm - 1; b >= 0; b--) {\n                bm = (bm << 1) | bb[m][b];\n            }\n            Cik[i][k] = 0;\n            if (Bm != 0) {\n")
    T.sub(I72, "    if (cur_mp->L <= 15) {\n        rho = 0.4;\n    } else if (cur_mp->L <= 24) {\n        rho = (0.03 * (float)cur_mp->L) - 0.05;\n    } else {\n        rho = 0.7;\n    }\n", "    rho = (L > 24) ? 0.7 : (L > 15) ? (0.03 * (float)L) - 0.05 : 0.4;\n")
    T.sub(I72, "    Sum77 = ((rho / (float)cur_mp->L) * Sum77);\n", "    Sum77 = rho * Sum77 / (float)L;\n")
    T.sub(I72, "        c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);\n        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);\n        cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;\n", "        c1 = ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]];\n        c2 = deltal[l] * prev_mp->log2Ml[intkl[l] + 1];\n        cur_mp->log2Ml[l] = (Tl[l] - Sum77) + rho * (c1 + c2);\n")
    T.sub(I72, "    if (frame_muted) {\n        *err_str = 'M';\n        err_str++;\n    }\n\n    mbe_moveMbeParms(cur_mp, prev_mp_enhanced);\n    *err_str = 0;\n", "    mbe_moveMbeParms(cur_mp, prev_mp_enhanced);\n    if (frame_muted) {\n        *err_str++ = 'M';\n    }\n    *err_str = '\\0';\n")
    t = (T.root / I72).read_text()
    if "<string.h>" not in t: T.sub(I72, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <string.h>\n")

def caches(T):
    """thread-local caches become one shared read-only table filled under pthread_once / C11 call_once; lazily built state moves"""
    T.sub(I72, "static MBE_THREAD_LOCAL struct imbe_dct_cache imbe_cache = {0};", "static struct imbe_dct_cache imbe_cache;\nstatic pthread_once_t imbe_once = PTHREAD_ONCE_INIT;")
    T.sub(I72, "static struct imbe_dct_cache*\nimbe_get_dct_cache(void) {\n    if (imbe_cache.inited) {\n        return &imbe_cache;\n    }\n", "static void\nimbe_fill_cache(void) {\n")
    T.sub(I72, "    imbe_cache.inited = 1;\n    return &imbe_cache;\n}\n", "    imbe_cache.inited = 1;\n}\n\nstatic struct imbe_dct_cache*\nimbe_get_dct_cache(void) {\n    pthread_once(&imbe_once, imbe_fill_cache);\n    return &imbe_cache;\n}\n")
    T.sub(I72, "#include <stdlib.h>\n", "#include <pthread.h>\n#include <stdlib.h>\n")
    # float->short: static dispatch instead of the thread-local pointer
    T.sub(CORE, "    if (MBE_UNLIKELY(!mbe_floattoshort_impl)) {\n        mbe_init_runtime_dispatch();\n    }\n    mbe_floattoshort_impl(float_buf, aout_buf);\n", "    mbe_init_runtime_dispatch();\n    mbe_floattoshort_fn impl = mbe_floattoshort_impl;\n    impl(float_buf, aout_buf);\n")
    # the seed override and its value in one thread-local word
    T.sub(UV, "static MBE_THREAD_LOCAL int mbe_unvoiced_seed_override = 0;", "static MBE_THREAD_LOCAL unsigned char mbe_unvoiced_seed_override = 0;")
    T.sub(CORE, "    mbe_rng_state = seed;\n    mbe_seedComfortNoiseRng(seed);\n    mbe_seedUnvoicedNoiseLcg(seed);\n", "    mbe_seedUnvoicedNoiseLcg(seed);\n    mbe_seedComfortNoiseRng(seed);\n    mbe_rng_state = seed;\n")
    # comfort noise seed initialised statically
    T.sub(AD, "static MBE_THREAD_LOCAL uint64_t mbe_comfort_noise_seed48 = 0;\nstatic MBE_THREAD_LOCAL int mbe_comfort_noise_seeded = 0;", "static MBE_THREAD_LOCAL uint64_t mbe_comfort_noise_seed48 = MBE_JAVA_RNG_INIT_SEED ^ MBE_JAVA_RNG_MULT;")
    T.sub(AD, "    mbe_comfort_noise_seeded = 1;\n}\n\n/**", "}\n\n/**")
    T.sub(AD, "    if (!mbe_comfort_noise_seeded) {\n        mbe_comfort_noise_seed48 = (MBE_JAVA_RNG_INIT_SEED ^ MBE_JAVA_RNG_MULT) & MBE_JAVA_RNG_MASK;\n        mbe_comfort_noise_seeded = 1;\n    }\n\n", "")
    # AMBE caches filled eagerly by a constructor
    T.sub(A50, "static MBE_THREAD_LOCAL struct ambe2450_dct_cache ambe2450_cache = {0};", "static struct ambe2450_dct_cache ambe2450_cache = {0};") if "static MBE_THREAD_LOCAL struct ambe2450_dct_cache ambe2450_cache = {0};" in (T.root / A50).read_text() else None
    T.sub(A50, "    struct ambe2450_dct_cache* cache = ambe2450_get_dct_cache();", "    const struct ambe2450_dct_cache* cache = &ambe2450_cache;")
    T.sub(A50, "static int\nmbe_decodeAmbe2450ParmsInternal", "__attribute__((constructor)) static void\nambe2450_fill(void) {\n    (void)ambe2450_get_dct_cache();\n}\n\nstatic int\nmbe_decodeAmbe2450ParmsInternal")

def shared(T):
    """one shared cache behind a mutex with an atomic fast path; the FFT plan in a pthread key that frees it with the thread"""
    T.sub(I72, "static MBE_THREAD_LOCAL struct imbe_dct_cache imbe_cache = {0};", "static struct imbe_dct_cache imbe_cache;\nstatic atomic_int imbe_ready;\nstatic pthread_mutex_t imbe_lock = PTHREAD_MUTEX_INITIALIZER;")
    T.sub(I72, "static struct imbe_dct_cache*\nimbe_get_dct_cache(void) {\n    if (imbe_cache.inited) {\n        return &imbe_cache;\n    }\n", "static struct imbe_dct_cache*\nimbe_get_dct_cache(void) {\n    if (atomic_load_explicit(&imbe_ready, memory_order_acquire)) {\n        return &imbe_cache;\n    }\n    pthread_mutex_lock(&imbe_lock);\n    if (atomic_load_explicit(&imbe_ready, memory_order_relaxed)) {\n        pthread_mutex_unlock(&imbe_lock);\n        return &imbe_cache;\n    }\n")
    T.sub(I72, "    imbe_cache.inited = 1;\n    return &imbe_cache;\n}\n", "    atomic_store_explicit(&imbe_ready, 1, memory_order_release);\n    pthread_mutex_unlock(&imbe_lock);\n    return &imbe_cache;\n}\n")
    T.sub(I72, "#include <stdlib.h>\n", "#include <pthread.h>\n#include <stdatomic.h>\n#include <stdlib.h>\n")
    T.sub(CORE, "static MBE_THREAD_LOCAL mbe_fft_plan* mbe_fft_plan_instance = NULL;", "static pthread_key_t mbe_plan_key;\nstatic pthread_once_t mbe_plan_once = PTHREAD_ONCE_INIT;\n\nstatic void\nmbe_plan_end(void* p) {\n    mbe_fft_plan_free((mbe_fft_plan*)p);\n}\n\nstatic void\nmbe_plan_key_make(void) {\n    (void)pthread_key_create(&mbe_plan_key, mbe_plan_end);\n}\n")
    T.body(CORE, "mbe_get_fft_plan", "    pthread_once(&mbe_plan_once, mbe_plan_key_make);\n    mbe_fft_plan* plan = (mbe_fft_plan*)pthread_getspecific(mbe_plan_key);\n    if (plan == NULL) {\n        plan = mbe_fft_plan_alloc();\n        if (plan != NULL) {\n            (void)pthread_setspecific(mbe_plan_key, plan);\n        }\n    }\n    return plan;\n")
    T.sub(CORE, "#include <math.h>\n", "#include <math.h>\n#include <pthread.h>\n")

def floats(T):
    """the same formulas in another order or precision: results move by rounding only"""
    T.sub(CORE, "            float cn = (c * c_step) - (s * s_step);\n            float sn = (s * c_step) + (c * s_step);\n            c = cn;\n            s = sn;\n            cos_tab[l] = c;\n", "            cos_tab[l] = cosf(w0 * (float)l);\n")
    T.sub(CORE, "        float s_step, c_step;\n        mbe_sincosf(w0, &s_step, &c_step);\n        float c = 1.0f, s = 0.0f;\n", "")
    T.sub(CORE, "        for (l = 1; l <= L; l++) {\n            const float Ml2 = cur_mp->Ml[l] * cur_mp->Ml[l];\n            Rm0 += Ml2;\n            Rm1 += Ml2 * cos_tab[l];\n        }\n    }\n\n    /* Erasure", "        double r0 = 0.0, r1 = 0.0;\n        for (l = L; l >= 1; l--) {\n            const double Ml2 = (double)cur_mp->Ml[l] * cur_mp->Ml[l];\n            r0 += Ml2;\n            r1 += Ml2 * cos_tab[l];\n        }\n        Rm0 = (float)r0;\n        Rm1 = (float)r1;\n    }\n\n    /* Erasure")
    T.sub(CORE, "    Ss[0] += 2.0f * W[0] * amp * cblk[0];\n    Ss[1] += 2.0f * W[1] * amp * cblk[1];\n    Ss[2] += 2.0f * W[2] * amp * cblk[2];\n    Ss[3] += 2.0f * W[3] * amp * cblk[3];\n", "    const float twice = 2.0f * amp;\n    for (int k = 0; k < 4; k++) {\n        Ss[k] += W[k] * cblk[k] * twice;\n    }\n")
    T.sub(CORE, "                    float aln = prev_mp->Ml[l] + (((float)n / (float)N) * (cur_mp->Ml[l] - prev_mp->Ml[l]));\n", "                    float aln = ((float)(N - n) * prev_mp->Ml[l] + (float)n * cur_mp->Ml[l]) * (1.0f / (float)N);\n")
    T.sub(CORE, "                    float thetaln = prev_mp->PHIl[l] + ((pw0l + deltawl) * (float)n)\n                                    + (((cw0 - pw0) * (float)(l * n * n)) / (float)(2 * N));\n", "                    const float t = (float)n;\n                    float thetaln = prev_mp->PHIl[l] + t * (pw0l + deltawl + (cw0 - pw0) * (float)l * t / (float)(2 * N));\n")
    T.sub(UV, "                float scalor = MBE_UNVOICED_SCALE_COEFF * cur_mp->Ml[l] / sqrtf(numerator / denominator);\n", "                float scalor = MBE_UNVOICED_SCALE_COEFF * cur_mp->Ml[l] * sqrtf(denominator / numerator);\n")
    T.sub(UV, "            Uw_out[i] *= scale;\n", "            Uw_out[i] = Uw_out[i] / (float)MBE_FFT_SIZE;\n")
    T.sub(AD, "        float x8 = sqrtf(sqrtf(sqrtf(cur_mp->localEnergy)));\n        float energy = x8 * x8 * x8;\n", "        float energy = powf(cur_mp->localEnergy, 0.375f);\n")
    T.sub(AD, "            VM = (MBE_ADAPTIVE_GAIN * energy) / expf(MBE_ADAPTIVE_EXPONENT * errorRate);\n", "            VM = MBE_ADAPTIVE_GAIN * energy * expf(-MBE_ADAPTIVE_EXPONENT * errorRate);\n")
    T.sub(AD, "        float u = ((float)mbe_java_random_next_bits(24) / 16777216.0f) * 2.0f - 1.0f;\n", "        float u = (float)((int)mbe_java_random_next_bits(24) - 8388608) * (1.0f / 8388608.0f);\n")
    T.sub(I72, "            sum = sum + ((float)am * Gm[m] * cache->ri_cos[m][i]);\n", "            sum += Gm[m] * ((float)am * cache->ri_cos[m][i]);\n")
    T.sub(I72, "        cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);\n", "        cur_mp->Ml[l] = (float)exp2((double)cur_mp->log2Ml[l]);\n")
    T.sub(I72, "    cur_mp->errorRate = (0.95f * prev_mp->errorRate) + (0.000365f * (float)(*errs2));\n", "    cur_mp->errorRate = fmaf(0.95f, prev_mp->errorRate, 0.000365f * (float)(*errs2));\n")

SETS = {"E": [shared], "H": [floats], "A": [ecc_and_demod], "B": [core], "C": [params], "D": [caches], "ABC": [ecc_and_demod, core, params], "ALL": [ecc_and_demod, core, params, caches]}

def main():
    name = sys.argv[1]
    ids = sys.argv[2:] or ["C%02d" % i for i in range(1, 37)]
    w = tempfile.mkdtemp(prefix="ref.", dir="/tmp")
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
    subprocess.run(["git", "init", "-q", w])
    T = Tree(w)
    for fn in SETS[name]: fn(T)
    Path(w + ".diff").write_text(subprocess.run(["diff", "-ru", "/repo/src", w + "/src"], stdout=subprocess.PIPE, text=True).stdout)
    # the repository's own tests
    b = w + "/b0"
    r = subprocess.run(f"cmake -S {w} -B {b} -DCMAKE_BUILD_TYPE=Release >/dev/null && cmake --build {b} -j8 2>&1 | grep -E 'error|warning: unused' ; ctest --test-dir {b} -j8 2>&1 | tail -8", shell=True, stdout=subprocess.PIPE, text=True)
    print(r.stdout, flush=True)
    shutil.rmtree(b, ignore_errors=True)
    if ids != ["none"]:
        for c in ids:
            s = time.time()
            r = subprocess.run([sys.executable, "/verif/run.py", c, "--tier", "quick"], env=dict(os.environ, MBE_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("quiet" if r.returncode == 0 else "ALARM", c, "rc", r.returncode, "%ds" % (time.time() - s), "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
    shutil.rmtree(w)
main()
