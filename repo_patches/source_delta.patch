From 0d6c0bbc7c8f26e7cfe02f9bcd106dd4a2ae1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 01/10] fix: keep amplitudes finite when enhancing an erasure
 model (w0 == 0)

---
 src/core/mbelib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..37fddab 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -369,6 +369,12 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
+    /* Erasure models carry w0 == 0: the weighting formula below is 0/0 there,
+     * so leave the amplitudes as they are instead of storing NaN. */
+    if (!(cur_mp->w0 > 0.0f)) {
+        return;
+    }
+
     R2m0 = (Rm0 * Rm0);
     R2m1 = (Rm1 * Rm1);
 
-- 
2.43.0


From 884d165ff87cbfaad51323b499dd3cebee31fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 02/10] fix: ignore bits above the 23-bit codeword in
 mbe_checkGolayBlock

---
 src/ecc/ecc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecc/ecc.c b/src/ecc/ecc.c
index 5ce7b80..eeeb71a 100644
--- a/src/ecc/ecc.c
+++ b/src/ecc/ecc.c
@@ -58,7 +58,7 @@ mbe_checkGolayBlock(long int* block) {
     eccbits = (int)(block_u & 0x7ffu);
     syndrome = eccexpected ^ eccbits;
 
-    databits = (int)(block_u >> 11);
+    databits = (int)((block_u >> 11) & 0xfffu); /* bits above the 23-bit codeword are ignored */
     databits ^= golayMatrix[syndrome];
 
     *block = (long)databits;
-- 
2.43.0


From 8f4203604b08ffa621b31c164b752282d78c7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 03/10] fix: do not read past log2Ml when the previous frame
 has 56 bands

---
 src/ambe/ambe3600x2400.c | 3 +++
 src/ambe/ambe3600x2450.c | 3 +++
 src/imbe/imbe7200x4400.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..ad65801 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -527,6 +527,9 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         // eq. 40
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        if (intkl[l] > 55) {
+            intkl[l] = 55; /* previous frame with 56 bands: keep intkl + 1 inside log2Ml[57] */
+        }
 #ifdef AMBE_DEBUG
         fprintf(stderr, "flok%i: %f, intk%i: %i ", l, flokl[l], l, intkl[l]);
 #endif
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..918dfea 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -546,6 +546,9 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
         // eq. 40
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        if (intkl[l] > 55) {
+            intkl[l] = 55; /* previous frame with 56 bands: keep intkl + 1 inside log2Ml[57] */
+        }
 #ifdef AMBE_DEBUG
         fprintf(stderr, "flok%i: %f, intk%i: %i ", l, flokl[l], l, intkl[l]);
 #endif
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..c1cd3df 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -495,6 +495,9 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         // eq. 75
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        if (intkl[l] > 55) {
+            intkl[l] = 55; /* previous frame with 56 bands: keep intkl + 1 inside log2Ml[57] */
+        }
 #ifdef IMBE_DEBUG
         fprintf(stderr, "flokl: %e, intkl: %i ", flokl[l], intkl[l]);
 #endif
-- 
2.43.0


From 95ee34f64a31bee566ed1cb4b65814a68e16c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 04/10] fix: return NULL from pffft_new_setup when allocation
 fails

---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..b594aa3 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1370,6 +1370,9 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     }
     PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup));
     int k, m;
+    if (!s) {
+        return 0;
+    }
     /* unfortunately, the fft size must be a multiple of 16 for complex FFTs
      and 32 for real FFTs -- a lot of stuff would need to be rewritten to
      handle other cases (or maybe just switch to a scalar fft, I don't know..) */
@@ -1385,6 +1388,10 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0


From af644be0414b50cd12239932c94205f96c370d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 05/10] fix: saturate the adaptive amplitude threshold instead
 of overflowing int

---
 src/core/mbe_adaptive.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..b2482ef 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -252,7 +252,10 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     } else {
-        Tm = MBE_AMPLITUDE_BASE - (MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal) + prevThreshold;
+        /* Saturate: sustained light errors raise the threshold by up to 6000 every frame. */
+        int64_t tm64 = (int64_t)MBE_AMPLITUDE_BASE - ((int64_t)MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal)
+                       + (int64_t)prevThreshold;
+        Tm = (tm64 > INT32_MAX) ? INT32_MAX : (int)tm64;
     }
     cur_mp->amplitudeThreshold = Tm;
 
-- 
2.43.0


From 902cda655203997c9f6cc35552b0cb3ad5b2adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 06/10] fix: play valid D-STAR tone frames instead of replacing
 them with comfort noise

---
 src/ambe/ambe3600x2400.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index ad65801..981e403 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -643,10 +643,15 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         cur_mp->repeatCount = 0;
     }
     // If we have a plausible single-frequency tone and errors are within margin
-    else if ((bad >= 7) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
+    else if ((bad >= 5) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
+        cur_mp->repeat = 0;
+        cur_mp->repeatCount = 0;
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        // The tone is this frame's output: do not fall through to comfort noise and a model reset.
+        *err_str = 0;
+        return;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
-- 
2.43.0


From deb89ba3f9ce1241853817f609ce6df14db277ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 07/10] fix: keep the IMBE muting rule when an IMBE frame
 repeats an AMBE state

---
 src/imbe/imbe7200x4400.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index c1cd3df..601001d 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -628,6 +628,8 @@ mbe_processImbe4400Dataf_withC0(float* aout_buf, const int* errs2, char* err_str
             mbe_useLastMbeParms(cur_mp, prev_mp);
             cur_mp->repeat++;
             cur_mp->repeatCount++;
+            /* The copied frame may come from an AMBE decoder; IMBE muting still applies. */
+            cur_mp->mutingThreshold = MBE_MUTING_THRESHOLD_IMBE;
         }
         *err_str = 'R';
         err_str++;
-- 
2.43.0


From 69123b3333598c5b446cfc0424cef3156d619767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 08/10] fix: derive local energy from the model instead of a
 stale thread-local hand-off

---
 src/core/mbe_adaptive.c     | 30 +++---------------------------
 src/core/mbelib.c           |  3 ---
 src/internal/mbe_adaptive.h | 12 ------------
 3 files changed, 3 insertions(+), 42 deletions(-)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index b2482ef..ef6aa74 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -23,10 +23,6 @@
 #define MBE_JAVA_RNG_INIT_SEED 0x12345678ULL
 static MBE_THREAD_LOCAL uint64_t mbe_comfort_noise_seed48 = 0;
 static MBE_THREAD_LOCAL int mbe_comfort_noise_seeded = 0;
-/* Thread-local pre-enhancement RM0 handoff from mbe_spectralAmpEnhance(). */
-static MBE_THREAD_LOCAL float mbe_pre_enh_rm0 = 0.0f;
-static MBE_THREAD_LOCAL int mbe_pre_enh_rm0_valid = 0;
-static MBE_THREAD_LOCAL const mbe_parms* mbe_pre_enh_owner = NULL;
 
 void
 mbe_seedComfortNoiseRng(uint32_t seed) {
@@ -37,19 +33,6 @@ mbe_seedComfortNoiseRng(uint32_t seed) {
     mbe_comfort_noise_seeded = 1;
 }
 
-void
-mbe_setPreEnhRm0(const mbe_parms* owner, float rm0) {
-    if (owner && rm0 >= 0.0f) {
-        mbe_pre_enh_rm0 = rm0;
-        mbe_pre_enh_rm0_valid = 1;
-        mbe_pre_enh_owner = owner;
-    } else {
-        mbe_pre_enh_rm0 = 0.0f;
-        mbe_pre_enh_rm0_valid = 0;
-        mbe_pre_enh_owner = NULL;
-    }
-}
-
 /**
  * @brief Java Random-compatible next(bits) generator for comfort noise.
  *
@@ -188,17 +171,10 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     int errorCount4 = cur_mp->errorCount4;
 
     /* Algorithm #111: Calculate local energy with IIR smoothing */
+    /* Spectral enhancement keeps the frame energy, so this equals JMBE's pre-enhancement RM0. */
     float RM0 = 0.0f;
-    if (mbe_pre_enh_rm0_valid && mbe_pre_enh_owner == cur_mp) {
-        /* Use pre-enhancement RM0 provided by mbe_spectralAmpEnhance(). */
-        RM0 = mbe_pre_enh_rm0;
-        mbe_pre_enh_rm0_valid = 0;
-        mbe_pre_enh_owner = NULL;
-    } else {
-        /* Fallback for direct callers that bypass spectral enhancement. */
-        for (int l = 1; l <= L; l++) {
-            RM0 += M[l] * M[l];
-        }
+    for (int l = 1; l <= L; l++) {
+        RM0 += M[l] * M[l];
     }
 
     float prevEnergy = prev_mp->localEnergy;
diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 37fddab..b399318 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -366,9 +366,6 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
         }
     }
 
-    /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
-    mbe_setPreEnhRm0(cur_mp, Rm0);
-
     /* Erasure models carry w0 == 0: the weighting formula below is 0/0 there,
      * so leave the amplitudes as they are instead of storing NaN. */
     if (!(cur_mp->w0 > 0.0f)) {
diff --git a/src/internal/mbe_adaptive.h b/src/internal/mbe_adaptive.h
index 8d301e2..4c2cba8 100644
--- a/src/internal/mbe_adaptive.h
+++ b/src/internal/mbe_adaptive.h
@@ -49,18 +49,6 @@
 /** Amplitude base constant (Algorithm #115). */
 #define MBE_AMPLITUDE_BASE              6000
 
-/**
- * @brief Register pre-enhancement RM0 energy for the current frame.
- *
- * JMBE Algorithm #111 uses local energy derived from pre-enhanced spectral
- * amplitudes. This helper allows the spectral-enhancement stage to provide
- * RM0 to adaptive smoothing without changing the public ABI.
- *
- * @param owner Frame-parameter owner for this RM0 handoff.
- * @param rm0 Sum of squared pre-enhancement amplitudes.
- */
-void mbe_setPreEnhRm0(const mbe_parms* owner, float rm0);
-
 /**
  * @brief Seed the comfort-noise RNG used by mbe_synthesizeComfortNoisef().
  *
-- 
2.43.0


From bde3070a58f8433e2b8d4f4941b8a0f3fff22757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 09/10] fix: keep spectral amplitude weights finite for very
 loud valid frames

---
 src/core/mbelib.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index b399318..4adbabd 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -272,7 +272,7 @@ mbe_initMbeParms(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhan
 void
 mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
 
-    float Rm0, Rm1, R2m0, R2m1, Wl[57];
+    float Rm0, Rm1, Wl[57];
     int l;
     float sum, gamma;
     const int L = cur_mp->L;
@@ -372,8 +372,11 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
         return;
     }
 
-    R2m0 = (Rm0 * Rm0);
-    R2m1 = (Rm1 * Rm1);
+    /* The weight only depends on the correlation coefficient Rm1/Rm0 and on Rm0
+     * itself. Squaring Rm0 would overflow for loud spectra (amplitudes beyond
+     * about 2^30, reachable from valid frames) and store NaN amplitudes. */
+    const float rho = (Rm0 > 0.0f) ? (Rm1 / Rm0) : 0.0f;
+    const float rho2 = rho * rho;
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
@@ -381,8 +384,8 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
         if (cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
             Wl[l] = sqrtf(cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-                                  / (cur_mp->w0 * Rm0 * (R2m0 - R2m1))));
+                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((1.0f + rho2) - ((float)2 * rho * cos_w0l)))
+                                  / (cur_mp->w0 * Rm0 * (1.0f - rho2))));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From 0239f342ada8bca26ca0d231502ffb93ae461166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 10/10] fix: do not let an AMBE value below the first band bias
 IMBE prediction for good

---
 src/imbe/imbe7200x4400.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 601001d..9596072 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -488,6 +488,10 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         }
     }
 
+    // The amplitude below the first band is 1. A repeated AMBE frame can leave its own value here, and nothing
+    // else in IMBE decoding would ever replace it.
+    prev_mp->log2Ml[0] = 0.0f;
+
     // Part 1
     Sum77 = 0;
     for (l = 1; l <= cur_mp->L; l++) {
-- 
2.43.0

