U = "src/core/mbe_unvoiced_fft.c"
M = "src/core/mbelib.c"
PROBES = [
 ("neon-wola-start", "C26", [(U, "    const float32x4_t threshold = vdupq_n_f32(1e-10f);\n    for (int n = 32; n < 128; n += 4) {\n        /* Load precomputed weights */\n        float32x4_t vWprev", "    const float32x4_t threshold = vdupq_n_f32(1e-10f);\n    for (int n = 32; n < 124; n += 4) {\n        /* Load precomputed weights */\n        float32x4_t vWprev")]),
 ("neon-nr-once", "C26/C23", [(U, "        vRecip = vmulq_f32(vRecip, vrecpsq_f32(vDenom, vRecip));\n        vRecip = vmulq_f32(vRecip, vrecpsq_f32(vDenom, vRecip));\n", "        vRecip = vmulq_f32(vRecip, vrecpsq_f32(vDenom, vRecip));\n")]),
 ("neon-power-rest", "C26/C23", [(U, "            sum += vget_lane_f32(vpadd_f32(vsum2, vsum2), 0);\n\n            interior_count -= i;", "            sum += vget_lane_f32(vpadd_f32(vsum2, vsum2), 0);\n\n            interior_count -= i + (interior_count > i);")]),
 ("neon-power-hsum", "C26/C23", [(U, "            sum += vget_lane_f32(vpadd_f32(vsum2, vsum2), 0);", "            sum = vget_lane_f32(vpadd_f32(vsum2, vsum2), 0);")]),
 ("neon-scale-end", "C23", [(U, "        for (; i + 4 <= MBE_FFT_SIZE; i += 4) {\n            float32x4_t v = vld1q_f32(&Uw_out[i]);\n            v = vmulq", "        for (; i + 8 <= MBE_FFT_SIZE; i += 4) {\n            float32x4_t v = vld1q_f32(&Uw_out[i]);\n            v = vmulq"), (U, "        /* Scalar fallback for remaining samples */\n        for (; i < MBE_FFT_SIZE; i++) {", "        /* Scalar fallback for remaining samples */\n        for (i += 3; i < MBE_FFT_SIZE; i++) {")]),
 ("neon-voiced-2x", "C22/C26", [(M, "    float32x4_t vA = vdupq_n_f32(2.0f * amp);", "    float32x4_t vA = vdupq_n_f32(2.0f * (amp < 1e5f ? amp : 1e5f));")]),
 ("neon-enh-rm", "C24", [(M, "            vRm1 = vmlaq_f32(vRm1, vMl2, vCos);", "            vRm1 = vmlaq_f32(vRm1, vMl2, vCos);\n            if (l4 == 53) {\n                vRm1 = vmlaq_f32(vRm1, vMl2, vCos);\n            }")]),
 ("neon-enh-gain-rest", "C24", [(M, "            vMl = vmulq_f32(vMl, vgamma);\n            vst1q_f32(&cur_mp->Ml[l4], vMl);\n        }\n        /* Handle remaining elements */\n        for (l = l4; l <= L; l++) {", "            vMl = vmulq_f32(vMl, vgamma);\n            vst1q_f32(&cur_mp->Ml[l4], vMl);\n        }\n        /* Handle remaining elements */\n        for (l = l4; l < L; l++) {")]),
 ("neon-enh-overrun", "C24/C13", [(M, "        for (l4 = 1; l4 + 3 <= L; l4 += 4) {\n            float32x4_t vMl = vld1q_f32(&cur_mp->Ml[l4]);\n            vMl = vmulq_f32(vMl, vgamma);", "        for (l4 = 1; l4 <= L; l4 += 4) {\n            float32x4_t vMl = vld1q_f32(&cur_mp->Ml[l4]);\n            vMl = vmulq_f32(vMl, vgamma);")]),
 ("neon-short-clamp", "C15/C26", [(M, "    const float32x4_t vminv = vdupq_n_f32(-32767.0f * 0.95f);", "    const float32x4_t vminv = vdupq_n_f32(-32768.0f * 0.95f);")]),
 ("neon-short-order", "C15/C26", [(M, "        int16x8_t packed = vcombine_s16(na, nb);", "        int16x8_t packed = vcombine_s16(na, i == 152 ? na : nb);")]),
 ("neon-unknown-intrinsic", "C24/C13/C15/C26", [(M, "        int16x8_t packed = vcombine_s16(na, nb);", "        int16x8_t packed = vcombine_s16(vmovn_s32(ia), nb);")]),
]
