/* The NEON intrinsics written in portable C, so that the library's ARM paths run (and are explored) on this machine.
 * Each does lane by lane what the Arm C Language Extensions say; the 32-bit reciprocal estimate has the 8 bits of
 * precision the architecture gives it. */
#ifndef VERIF_ARM_NEON_H
#define VERIF_ARM_NEON_H
#include <math.h>
#include <stdint.h>
#include <string.h>
typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
#define NEON_FN static inline __attribute__((always_inline, unused))
NEON_FN float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
NEON_FN float32x2_t vld1_f32(const float* p) { float32x2_t r; memcpy(&r, p, 8); return r; }
NEON_FN float32x4_t vld1q_dup_f32(const float* p) { float x = *p; float32x4_t r = {x, x, x, x}; return r; }
NEON_FN float32x4x2_t vld2q_f32(const float* p) { float32x4x2_t r; float32x4_t a = {p[0], p[2], p[4], p[6]}, b = {p[1], p[3], p[5], p[7]}; r.val[0] = a; r.val[1] = b; return r; }
NEON_FN void vst2q_f32(float* p, float32x4x2_t v) { for (int i = 0; i < 4; i++) { p[2 * i] = v.val[0][i]; p[2 * i + 1] = v.val[1][i]; } }
NEON_FN void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
NEON_FN void vst1_f32(float* p, float32x2_t v) { memcpy(p, &v, 8); }
NEON_FN int32x4_t vld1q_s32(const int32_t* p) { int32x4_t r; memcpy(&r, p, 16); return r; }
NEON_FN void vst1q_s32(int32_t* p, int32x4_t v) { memcpy(p, &v, 16); }
NEON_FN void vst1q_s16(int16_t* p, int16x8_t v) { memcpy(p, &v, 16); }
NEON_FN void vst1_s16(int16_t* p, int16x4_t v) { memcpy(p, &v, 8); }
NEON_FN float32x4_t vdupq_n_f32(float x) { float32x4_t r = {x, x, x, x}; return r; }
NEON_FN float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
NEON_FN float32x2_t vdup_n_f32(float x) { float32x2_t r = {x, x}; return r; }
NEON_FN int32x4_t vdupq_n_s32(int32_t x) { int32x4_t r = {x, x, x, x}; return r; }
NEON_FN uint32x4_t vdupq_n_u32(uint32_t x) { uint32x4_t r = {x, x, x, x}; return r; }
NEON_FN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
NEON_FN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
NEON_FN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
NEON_FN float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * b; }
NEON_FN float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
NEON_FN float32x4_t vmlaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c + a * b; }
NEON_FN float32x4_t vmlsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c - a * b; }
NEON_FN float32x4_t vmlaq_n_f32(float32x4_t c, float32x4_t a, float b) { return c + a * b; }
NEON_FN float32x4_t vfmaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = fmaf(a[i], b[i], c[i]); return r; }
NEON_FN float32x4_t vfmsq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = fmaf(-a[i], b[i], c[i]); return r; }
NEON_FN float32x4_t vfmaq_n_f32(float32x4_t c, float32x4_t a, float b) { return vfmaq_f32(c, a, vdupq_n_f32(b)); }
NEON_FN float32x4_t vnegq_f32(float32x4_t a) { return -a; }
NEON_FN float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
NEON_FN float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
NEON_FN float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { float32x2_t r = {a[0] + a[1], b[0] + b[1]}; return r; }
NEON_FN float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r = {a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3]}; return r; }
NEON_FN float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
NEON_FN float vaddv_f32(float32x2_t a) { return a[0] + a[1]; }
#define NEON_MAX_(x, y) (isnan(x) || isnan(y) ? (x) + (y) : (x) > (y) ? (x) : (y))
#define NEON_MIN_(x, y) (isnan(x) || isnan(y) ? (x) + (y) : (x) < (y) ? (x) : (y))
NEON_FN float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = NEON_MAX_(a[i], b[i]); return r; }
NEON_FN float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = NEON_MIN_(a[i], b[i]); return r; }
NEON_FN float32x4_t vabsq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = fabsf(a[i]); return r; }
NEON_FN float32x4_t vsqrtq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = sqrtf(a[i]); return r; }
NEON_FN float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { float32x4_t r; memcpy(&r, &a, 16); return r; }
NEON_FN uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { uint32x4_t r; memcpy(&r, &a, 16); return r; }
NEON_FN float32x4_t vreinterpretq_f32_s32(int32x4_t a) { float32x4_t r; memcpy(&r, &a, 16); return r; }
NEON_FN int32x4_t vreinterpretq_s32_f32(float32x4_t a) { int32x4_t r; memcpy(&r, &a, 16); return r; }
NEON_FN uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a > b); }
NEON_FN uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a >= b); }
NEON_FN uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a < b); }
NEON_FN uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a <= b); }
NEON_FN uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { return (uint32x4_t)(a == b); }
NEON_FN uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
NEON_FN uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
NEON_FN uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
NEON_FN float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return vreinterpretq_f32_u32((vreinterpretq_u32_f32(a) & m) | (vreinterpretq_u32_f32(b) & ~m)); }
NEON_FN float32x2_t vget_low_f32(float32x4_t a) { float32x2_t r = {a[0], a[1]}; return r; }
NEON_FN float32x2_t vget_high_f32(float32x4_t a) { float32x2_t r = {a[2], a[3]}; return r; }
NEON_FN float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r = {a[0], a[1], b[0], b[1]}; return r; }
NEON_FN int16x8_t vcombine_s16(int16x4_t a, int16x4_t b) { int16x8_t r = {a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]}; return r; }
#define vget_lane_f32(v, i)      ((v)[i])
#define vgetq_lane_f32(v, i)     ((v)[i])
#define vget_lane_s16(v, i)      ((v)[i])
#define vgetq_lane_s32(v, i)     ((v)[i])
NEON_FN float32x4_t neon_setq_lane_(float x, float32x4_t v, int i) { v[i] = x; return v; }
#define vsetq_lane_f32(x, v, i)  neon_setq_lane_(x, v, i)
#define vdupq_lane_f32(v, i)     vdupq_n_f32((v)[i])
#define vmulq_lane_f32(a, v, i)  ((a) * (v)[i])
#define vmlaq_lane_f32(c, a, v, i) ((c) + (a) * (v)[i])
NEON_FN float32x4_t neon_ext_(float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
#define vextq_f32(a, b, n)       neon_ext_(a, b, n)
NEON_FN float32x4_t vrev64q_f32(float32x4_t a) { float32x4_t r = {a[1], a[0], a[3], a[2]}; return r; }
NEON_FN float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; float32x4_t x = {a[0], b[0], a[1], b[1]}, y = {a[2], b[2], a[3], b[3]}; r.val[0] = x; r.val[1] = y; return r; }
NEON_FN float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; float32x4_t x = {a[0], a[2], b[0], b[2]}, y = {a[1], a[3], b[1], b[3]}; r.val[0] = x; r.val[1] = y; return r; }
NEON_FN float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r; float32x4_t x = {a[0], b[0], a[2], b[2]}, y = {a[1], b[1], a[3], b[3]}; r.val[0] = x; r.val[1] = y; return r; }
/* conversions saturate, NaN gives 0 */
NEON_FN int32_t neon_cvt_(float x) { return isnan(x) ? 0 : x >= 2147483648.0f ? INT32_MAX : x <= -2147483648.0f ? INT32_MIN : (int32_t)x; }
NEON_FN int32x4_t vcvtq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = neon_cvt_(a[i]); return r; }
NEON_FN int32x4_t vcvtnq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = neon_cvt_(rintf(a[i])); return r; }
NEON_FN int32x4_t vcvtaq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = neon_cvt_(roundf(a[i])); return r; }
NEON_FN float32x4_t vcvtq_f32_s32(int32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (float)a[i]; return r; }
NEON_FN int16x4_t vqmovn_s32(int32x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)(a[i] > 32767 ? 32767 : a[i] < -32768 ? -32768 : a[i]); return r; }
NEON_FN int16x4_t vmovn_s32(int32x4_t a) { int16x4_t r; for (int i = 0; i < 4; i++) r[i] = (int16_t)a[i]; return r; }
/* reciprocal estimate: 8 bits, as the architecture's table gives; and its refinement step */
NEON_FN float neon_recpe_(float x) {
    if (isnan(x)) return x;
    if (x == 0) return copysignf(INFINITY, x);
    if (isinf(x)) return copysignf(0, x);
    int e;
    float m = frexpf(fabsf(x), &e); /* [0.5, 1) */
    int a = (int)(m * 512.0f);      /* 256..511 */
    int b = (1 << 19) / (a * 2 + 1); /* as RecipEstimate() */
    int r = (b + 1) / 2;
    return copysignf(ldexpf((float)r / 256.0f, -e), x);
}
NEON_FN float32x4_t vrecpeq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = neon_recpe_(a[i]); return r; }
NEON_FN float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = (isinf(a[i]) && b[i] == 0) || (isinf(b[i]) && a[i] == 0) ? 2.0f : fmaf(-a[i], b[i], 2.0f); return r; }
#endif
