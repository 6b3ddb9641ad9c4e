From 339f0a623f88e2be915704d666bab67a8200fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 01/19] fix: reference variants reject the option sets their
 plain indicators reject

---
 indicators/atr.cc    | 2 ++
 indicators/ce.cc     | 2 +-
 indicators/fi.cc     | 1 +
 indicators/kst.cc    | 2 +-
 indicators/pbands.cc | 2 ++
 indicators/pfe.cc    | 1 +
 indicators/posc.cc   | 3 +++
 7 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/indicators/atr.cc b/indicators/atr.cc
index e88812c..08f5be9 100644
--- a/indicators/atr.cc
+++ b/indicators/atr.cc
@@ -65,6 +65,8 @@ int ti_atr_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     //First calculate true range.
     const int tr_start = ti_tr_start(0);
     const int tr_size = size - tr_start;
+    if (options[0] < 1) return TI_INVALID_OPTION;
+
     TI_REAL *truerange = (TI_REAL*)malloc((unsigned int)tr_size * sizeof(TI_REAL));
     if (!truerange) {return TI_OUT_OF_MEMORY;}
 
diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..090ae21 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -118,8 +118,8 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *ce_high = outputs[0];
     TI_REAL *ce_low = outputs[1];
 
-    if (size <= ti_ce_start(options)) { return TI_OKAY; }
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_ce_start(options)) { return TI_OKAY; }
 
     #define MAX(a, b) (a > b ? a : b)
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..7405d34 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -41,6 +41,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     for (int i = 1; i < size; ++i) {
diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..93aa0c1 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -113,7 +113,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *kst_signal = outputs[1];
 
 
-    if(!(roc[0] < roc[1] && roc[1] < roc[2] && roc[2] < roc[3])) {
+    if(!((int)roc[0] < (int)roc[1] && (int)roc[1] < (int)roc[2] && (int)roc[2] < (int)roc[3])) {
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..41a9bf3 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -79,6 +79,8 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..4b7704f 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -84,6 +84,7 @@ int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..694d040 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -98,6 +98,9 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-- 
2.43.0


From c43566083d09f6a7e4211fc2f81aeb08d9611ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 02/19] fix: frama, kc and copp streams reject the option sets
 the plain indicators reject

---
 indicators/copp.cc  | 2 +-
 indicators/frama.cc | 1 +
 indicators/kc.cc    | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..7be85e7 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -144,7 +144,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
 
     ti_copp_stream *ptr = new ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..6c1adf4 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -141,6 +141,7 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..45f27b3 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,7 +90,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new ti_kc_stream();
-- 
2.43.0


From b7514f1476f79128a99991a67902bd7cc72f5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 03/19] fix: vi on a short series returns TI_OKAY with no
 output, not TI_INVALID_OPTION

---
 indicators/vi.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..1e5a4e5 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
@@ -61,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
-- 
2.43.0


From 59bcead427d822bd29c1d521d1658eb2bccb189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 04/19] fix: kst and several reference variants read and write
 nothing for a series too short for an output

---
 indicators/atr.cc    | 1 +
 indicators/cmi.cc    | 1 +
 indicators/copp.cc   | 2 +-
 indicators/hfema.cc  | 1 +
 indicators/hfsma.cc  | 1 +
 indicators/ichi.cc   | 1 +
 indicators/kst.cc    | 4 ++++
 indicators/mama.cc   | 2 ++
 indicators/mhlma.cc  | 1 +
 indicators/pbands.cc | 1 +
 indicators/posc.cc   | 1 +
 indicators/rmi.cc    | 1 +
 indicators/smi.cc    | 1 +
 indicators/tsi.cc    | 1 +
 indicators/vwap.cc   | 1 +
 15 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/indicators/atr.cc b/indicators/atr.cc
index 08f5be9..543548f 100644
--- a/indicators/atr.cc
+++ b/indicators/atr.cc
@@ -66,6 +66,7 @@ int ti_atr_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     const int tr_start = ti_tr_start(0);
     const int tr_size = size - tr_start;
     if (options[0] < 1) return TI_INVALID_OPTION;
+    if (size <= ti_atr_start(options)) return TI_OKAY;
 
     TI_REAL *truerange = (TI_REAL*)malloc((unsigned int)tr_size * sizeof(TI_REAL));
     if (!truerange) {return TI_OUT_OF_MEMORY;}
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..e2505ae 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -93,6 +93,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
     TI_REAL *tr = new TI_REAL[size];
     TI_REAL *sum = new TI_REAL[size-(int)period+1];
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 7be85e7..210743f 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -84,7 +84,7 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
-    if (size < ti_copp_start(options)) { return TI_OKAY; }
+    if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
 
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..a06bf75 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -86,6 +86,7 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (size <= ti_hfema_start(options)) { return TI_OKAY; }
 
     TI_REAL *ema = new TI_REAL[size];
     ti_ema(size, &series, options, &ema);
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..104b2b0 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -82,6 +82,7 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (sma_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (size <= ti_hfsma_start(options)) { return TI_OKAY; }
 
     TI_REAL *sma = new TI_REAL[size];
     ti_sma(size, &series, options, &sma);
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..aa39975 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -196,6 +196,7 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     if (!(0 < period9 && period9 <= period26 && period26 <= period52)) {
         return TI_INVALID_OPTION;
     }
+    if (size <= ti_ichi_start(options)) { return TI_OKAY; }
 
     TI_REAL *hh9 = new TI_REAL[size];
     TI_REAL *ll9 = new TI_REAL[size];
diff --git a/indicators/kst.cc b/indicators/kst.cc
index 93aa0c1..7211fe8 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -55,6 +55,8 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
 
@@ -122,6 +124,8 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     int size_roc[4];
     int size_ema[4];
     TI_REAL *roc_mem[4];
diff --git a/indicators/mama.cc b/indicators/mama.cc
index 0a054cc..4d3321f 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -101,6 +101,8 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         }
     }
 
+    if (size <= ti_mama_start(options)) { return TI_OKAY; }
+
     // Straightforward translation of the original definition in EasyLanguage
     TI_REAL const *price = series;
 
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..bdd3707 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -128,6 +128,7 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     TI_REAL *mhlema = outputs[1];
 
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_mhlma_start(options)) { return TI_OKAY; }
 
     TI_REAL *mhl = new TI_REAL[size];
 
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 41a9bf3..8aad7c1 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -80,6 +80,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *pbands_upper = outputs[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_pbands_start(options)) { return TI_OKAY; }
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 694d040..4c811d5 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -100,6 +100,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_posc_start(options)) { return TI_OKAY; }
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..69d095e 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -59,6 +59,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_rmi_start(options)) { return TI_OKAY; }
 
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..41404bc 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -128,6 +128,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *smi = outputs[0];
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_max_start(&q_period);
 
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..9f459e5 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -65,6 +65,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *tsi = outputs[0];
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
 
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..000b870 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -58,6 +58,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-- 
2.43.0


From 53c710cb10a5cd97dd4104362e79ae7695628474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 05/19] fix: an allocation failure in ti_buffer_new is reported
 as TI_OUT_OF_MEMORY

---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..e30c2e5 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) { return TI_OUT_OF_MEMORY; }
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..ecc2cb0 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..54b7c78 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
 
diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..0a3f6cb 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) { return TI_OUT_OF_MEMORY; }
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..8f59037 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..100c937 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..56776d6 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8589e68 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) { return 0; }
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From 1892ef534d85453855c9b3d3553f64b9354e7fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 06/19] fix: reference variants check their malloc/calloc
 results

---
 indicators/ce.cc     | 16 ++++++++++------
 indicators/copp.cc   |  6 ++++++
 indicators/kst.cc    |  9 ++++++++-
 indicators/mama.cc   | 18 ++++++++++++++++++
 indicators/pbands.cc |  1 +
 indicators/posc.cc   |  1 +
 indicators/rmi.cc    |  5 +++++
 indicators/smi.cc    | 12 +++++++++---
 indicators/tsi.cc    |  9 +++++++--
 indicators/vwap.cc   |  1 +
 10 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 090ae21..c10beae 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -125,14 +125,18 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
 
     TI_REAL *atr = (TI_REAL*)calloc(1, (size - ti_atr_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-    ti_atr(size, inputs, &period, &atr);
     TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_max(size, &high, &period, &max);
     TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_min(size, &low, &period, &min);
+    if (!atr || !max || !min) {
+        free(atr);
+        free(max);
+        free(min);
+        return TI_OUT_OF_MEMORY;
+    }
+
+    ti_atr(size, inputs, &period, &atr);
+    ti_max(size, &high, &period, &max);
+    ti_min(size, &low, &period, &min);
 
 
     for (int i = 0; i < size - period + 1; ++i) {
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 210743f..57aaf9b 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -94,6 +94,12 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *roc_long = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
+    if (!roc_short || !roc_long || !interm) {
+        free(roc_short);
+        free(roc_long);
+        free(interm);
+        return TI_OUT_OF_MEMORY;
+    }
 
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
diff --git a/indicators/kst.cc b/indicators/kst.cc
index 7211fe8..fd25168 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -136,9 +136,16 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         size_ema[i] = size_roc[i] - ti_ema_start(ma + i);
 
         roc_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_roc[i]);
+        ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
+        if (!roc_mem[i] || !ema_mem[i]) {
+            for (int j = 0; j <= i; ++j) {
+                free(roc_mem[j]);
+                free(ema_mem[j]);
+            }
+            return TI_OUT_OF_MEMORY;
+        }
         ti_roc(size, &series, roc + i, roc_mem + i);
 
-        ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
         ti_ema(size_roc[i], roc_mem + i, ma + i, ema_mem + i);
     }
 
diff --git a/indicators/mama.cc b/indicators/mama.cc
index 4d3321f..f66e14d 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -121,6 +121,24 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *phase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *deltaphase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *alpha = (TI_REAL*)calloc(size, sizeof(TI_REAL));
+    if (!smooth || !detrender || !I1 || !Q1 || !jI || !jQ || !I2 || !Q2 || !Re || !Im || !period || !smoothperiod || !phase || !deltaphase || !alpha) {
+        free(smooth);
+        free(detrender);
+        free(I1);
+        free(Q1);
+        free(jI);
+        free(jQ);
+        free(I2);
+        free(Q2);
+        free(Re);
+        free(Im);
+        free(period);
+        free(smoothperiod);
+        free(phase);
+        free(deltaphase);
+        free(alpha);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 6; i < size; ++i) {
         smooth[i] = (4 * price[i] + 3 * price[i-1] + 2 * price[i-2] + price[i-3]) / 10.;
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 8aad7c1..14ce4f6 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -84,6 +84,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 4c811d5..827e682 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -104,6 +104,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 69d095e..4815e66 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -64,6 +64,11 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
+    if (!gains || !losses) {
+        free(gains);
+        free(losses);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = lookback_period; i < size; ++i) {
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 41404bc..554e1f5 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -134,13 +134,19 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *min = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!max || !min || !num || !den) {
+        free(max);
+        free(min);
+        free(num);
+        free(den);
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_max(size, &high, &q_period, &max);
     ti_min(size, &low, &q_period, &min);
 
-    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-
     for (int i = 0; i < outsize; ++i) {
         num[i] = close[size-outsize + i] - 0.5 * (max[i] + min[i]);
         den[i] = max[i] - min[i];
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index 9f459e5..8b51c62 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -70,9 +70,14 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-    ti_mom(size, &series, &_one, &momentum);
-
     TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!momentum || !absmomentum) {
+        free(momentum);
+        free(absmomentum);
+        return TI_OUT_OF_MEMORY;
+    }
+
+    ti_mom(size, &series, &_one, &momentum);
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
     ti_ema(outsize, &momentum, &y_period, &momentum);
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 000b870..71665e8 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -62,6 +62,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!typprice) { return TI_OUT_OF_MEMORY; }
     ti_typprice(size, inputs, 0, &typprice);
     
     TI_REAL sum = 0;
-- 
2.43.0


From 734a40c0ea091f3ad05b25406fda6ba312e587ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 07/19] fix: std::bad_alloc no longer escapes batch, reference
 and stream_run functions

---
 indicators/cmi.cc       | 17 +++++++++++------
 indicators/dwma.cc      |  4 +++-
 indicators/edcf.cc      |  8 ++++++--
 indicators/ehma.cc      |  4 +++-
 indicators/frama.cc     |  4 +++-
 indicators/hf.cc        | 12 +++++++++---
 indicators/hfema.cc     | 17 ++++++++++-------
 indicators/hfsma.cc     | 17 ++++++++++-------
 indicators/ichi.cc      | 30 ++++++++++++++++--------------
 indicators/idwma.cc     |  4 +++-
 indicators/lma.cc       |  4 +++-
 indicators/mesastoch.cc |  4 +++-
 indicators/mhlma.cc     | 18 +++++++++++-------
 indicators/rmf.cc       |  8 ++++++--
 indicators/t3.cc        |  4 +++-
 indicators/vi.cc        |  8 ++++++--
 16 files changed, 106 insertions(+), 57 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index e2505ae..84f08ef 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 
@@ -18,7 +19,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -83,9 +84,11 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -95,8 +98,10 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *tr = new TI_REAL[size];
-    TI_REAL *sum = new TI_REAL[size-(int)period+1];
+    std::vector<TI_REAL> tr_buf(size);
+    TI_REAL *tr = tr_buf.data();
+    std::vector<TI_REAL> sum_buf(size-(int)period+1);
+    TI_REAL *sum = sum_buf.data();
 
     ti_tr(size, inputs, NULL, &tr);
     ti_sum(size, &tr, &period, &sum);
@@ -109,9 +114,9 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
         *cmi++ = log((hh - ll) / ink) / log(period) * 100;
     }
 
-    delete[] tr;
-    delete[] sum;
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_cmi_stream : ti_stream {
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..9c7fe72 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -75,7 +75,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 }
 
 DONTOPTIMIZE
-int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     TI_REAL *dwma = outputs[0];
@@ -89,6 +89,8 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_wma(size-period+1, arr, options, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_dwma_stream : ti_stream {
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..5dd9d69 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
@@ -104,7 +106,7 @@ void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -143,4 +145,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..ad4ad7e 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -53,7 +53,7 @@ int ti_ehma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *ehma = outputs[0];
@@ -83,6 +83,8 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     ti_ema(size, arr_, &n05, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ehma_stream : ti_stream {
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 6c1adf4..d7481f9 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -163,7 +163,7 @@ void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -327,4 +327,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..0a336bd 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -21,7 +21,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -58,9 +58,11 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -95,6 +97,8 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hf_stream : ti_stream {
@@ -142,7 +146,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -183,4 +187,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index a06bf75..364e8ba 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -76,7 +76,7 @@ int lessthan(void *one, void *two) {
     return *(TI_REAL*)one < *(TI_REAL*)two;
 }
 
-int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int ema_period = options[0];
     int k = options[1];
@@ -88,10 +88,12 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (threshold < 0) { return TI_INVALID_OPTION; }
     if (size <= ti_hfema_start(options)) { return TI_OKAY; }
 
-    TI_REAL *ema = new TI_REAL[size];
+    std::vector<TI_REAL> ema_buf(size);
+    TI_REAL *ema = ema_buf.data();
     ti_ema(size, &series, options, &ema);
 
-    TI_REAL *data = new TI_REAL[2*k+1];
+    std::vector<TI_REAL> data_buf(2*k+1);
+    TI_REAL *data = data_buf.data();
 
     for (int i = 2*k; i < size; ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
@@ -110,10 +112,9 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
     }
 
-    delete[] data;
-    delete[] ema;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hfema_stream : ti_stream {
@@ -171,7 +172,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -217,4 +218,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 104b2b0..5b19ffa 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -72,7 +72,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     const TI_REAL *const series = inputs[0];
     int sma_period = options[0];
     int k = options[1];
@@ -84,10 +84,12 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (threshold < 0) { return TI_INVALID_OPTION; }
     if (size <= ti_hfsma_start(options)) { return TI_OKAY; }
 
-    TI_REAL *sma = new TI_REAL[size];
+    std::vector<TI_REAL> sma_buf(size);
+    TI_REAL *sma = sma_buf.data();
     ti_sma(size, &series, options, &sma);
 
-    TI_REAL *data = new TI_REAL[2*(int)k+1];
+    std::vector<TI_REAL> data_buf(2*(int)k+1);
+    TI_REAL *data = data_buf.data();
 
     for (int i = 2*k; i < size - ti_sma_start(options); ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
@@ -106,10 +108,9 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
     }
 
-    delete[] data;
-    delete[] sma;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hfsma_stream : ti_stream {
@@ -171,7 +172,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -223,4 +224,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index aa39975..49a50ef 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 #include <limits>
@@ -182,7 +183,7 @@ int ti_ichi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     const int period9 = options[0];
@@ -198,12 +199,18 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     }
     if (size <= ti_ichi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *hh9 = new TI_REAL[size];
-    TI_REAL *ll9 = new TI_REAL[size];
-    TI_REAL *hh26 = new TI_REAL[size];
-    TI_REAL *ll26 = new TI_REAL[size];
-    TI_REAL *hh52 = new TI_REAL[size];
-    TI_REAL *ll52 = new TI_REAL[size];
+    std::vector<TI_REAL> hh9_buf(size);
+    TI_REAL *hh9 = hh9_buf.data();
+    std::vector<TI_REAL> ll9_buf(size);
+    TI_REAL *ll9 = ll9_buf.data();
+    std::vector<TI_REAL> hh26_buf(size);
+    TI_REAL *hh26 = hh26_buf.data();
+    std::vector<TI_REAL> ll26_buf(size);
+    TI_REAL *ll26 = ll26_buf.data();
+    std::vector<TI_REAL> hh52_buf(size);
+    TI_REAL *hh52 = hh52_buf.data();
+    std::vector<TI_REAL> ll52_buf(size);
+    TI_REAL *ll52 = ll52_buf.data();
 
     const TI_REAL numbers[] = {(TI_REAL)period9, (TI_REAL)period26, (TI_REAL)period52};
 
@@ -231,14 +238,9 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         *ichi_senkou_span_B++ = (hh52[i-period26] + ll52[i-period26]) / 2.;
     }
 
-    delete[] hh9;
-    delete[] ll9;
-    delete[] hh26;
-    delete[] ll26;
-    delete[] hh52;
-    delete[] ll52;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ichi_stream : ti_stream {
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..4b38afe 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..3e25b8f 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -53,7 +53,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     TI_REAL *lma = outputs[0];
@@ -75,6 +75,8 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_lma_stream : ti_stream {
diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..db9f7ea 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -101,7 +101,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int period = options[0];
     int max_cycle_considered = options[1];
@@ -167,6 +167,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mesastoch_stream : ti_stream {
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index bdd3707..315d006 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 
@@ -19,7 +20,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -118,9 +119,11 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL ma_period = options[1];
@@ -130,7 +133,8 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_mhlma_start(options)) { return TI_OKAY; }
 
-    TI_REAL *mhl = new TI_REAL[size];
+    std::vector<TI_REAL> mhl_buf(size);
+    TI_REAL *mhl = mhl_buf.data();
 
     for (int i = 0; i < size; ++i) {
         TI_REAL hh = *std::max_element(std::max<TI_REAL const*>(series+i-(int)period+1, series), series+i+1);
@@ -138,7 +142,8 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhl[i] = (hh + ll) / 2.;
     }
 
-    TI_REAL *ema_buf = new TI_REAL[size];
+    std::vector<TI_REAL> ema_storage(size);
+    TI_REAL *ema_buf = ema_storage.data();
 
     ti_sma(size, &mhl, &ma_period, &mhlsma);
 
@@ -147,10 +152,9 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhlema[i-(int)ma_period+1] = ema_buf[i];
     }
 
-    delete[] mhl;
-    delete[] ema_buf;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mhlma_stream : ti_stream {
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..9fc77a0 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -22,7 +22,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -64,6 +64,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
@@ -111,7 +113,7 @@ void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -151,4 +153,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..38a5264 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -76,7 +76,7 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
@@ -112,6 +112,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     std::memcpy(t3, output.data(), sizeof(TI_REAL) * size);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_t3_stream : ti_stream {
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 1e5a4e5..9c83cf7 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -54,7 +54,7 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -101,6 +101,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
     
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_vi_stream : ti_stream {
@@ -145,7 +147,7 @@ void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -220,5 +222,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 981c6972fa992cd14f1b404eac254efd0a5c0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 08/19] fix: stream constructors report allocation failure and
 release the partly built stream

---
 indicators/ahma.cc   |  7 ++++++-
 indicators/arsi.cc   |  7 ++++++-
 indicators/ce.cc     |  2 +-
 indicators/cmi.cc    | 11 ++++++++---
 indicators/copp.cc   |  2 +-
 indicators/dwma.cc   |  4 ++--
 indicators/edcf.cc   | 13 ++++++++++---
 indicators/emsd.cc   |  7 ++++++-
 indicators/er.cc     |  7 ++++++-
 indicators/evwma.cc  |  1 +
 indicators/frama.cc  |  4 +++-
 indicators/hf.cc     |  9 +++++++--
 indicators/hfema.cc  |  2 +-
 indicators/hfsma.cc  |  2 +-
 indicators/ichi.cc   |  2 +-
 indicators/idwma.cc  |  9 +++++++--
 indicators/kc.cc     |  2 +-
 indicators/mhlma.cc  |  9 +++++++--
 indicators/pbands.cc |  2 +-
 indicators/posc.cc   |  2 +-
 indicators/pwma.cc   |  1 +
 indicators/rmf.cc    |  4 +++-
 indicators/rmi.cc    |  1 +
 indicators/rvi.cc    |  2 +-
 indicators/shmma.cc  |  7 ++++++-
 indicators/smi.cc    |  2 +-
 indicators/swma.cc   |  1 +
 indicators/vi.cc     |  4 +++-
 28 files changed, 94 insertions(+), 32 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..f16b9ef 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    try {
+        ptr->state.Price.resize(cycpart * 50 + 1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/ce.cc b/indicators/ce.cc
index c10beae..729719c 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -181,7 +181,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 84f08ef..63c0e02 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -155,14 +155,19 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 57aaf9b..968e3d3 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -152,7 +152,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (options[1] < options[0]) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 9c7fe72..af4f88c 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -131,14 +131,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 5dd9d69..ad8e82b 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -81,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
@@ -96,10 +96,17 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..9600e07 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..abb83ed 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/frama.cc b/indicators/frama.cc
index d7481f9..5539121 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,7 +136,7 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL period = options[0];
     TI_REAL average_period = options[1];
 
@@ -157,6 +157,8 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 0a336bd..ace87a3 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -136,8 +136,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 364e8ba..95ce694 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -161,7 +161,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 5b19ffa..b809c6c 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -161,7 +161,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price.resize(2*k+1);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 49a50ef..b03c17a 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -307,7 +307,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 4b38afe..032f567 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -110,10 +110,15 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
diff --git a/indicators/kc.cc b/indicators/kc.cc
index 45f27b3..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 315d006..3c154d0 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -198,8 +198,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 14ce4f6..39f1d2d 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -136,7 +136,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 827e682..07a2093 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -160,7 +160,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 9fc77a0..45cccf7 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -86,7 +86,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -107,6 +107,8 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 4815e66..dc4446e 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -126,6 +126,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..d8fa70d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..973e720 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 554e1f5..f3b8373 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -203,7 +203,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9c83cf7..a4f574c 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -126,7 +126,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -141,6 +141,8 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
-- 
2.43.0


From 5aadcf2d829f4834a61d72c94f82534ef98277dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 09/19] fix: ce, cmi, mhlma, smi: write the first bar's output
 when the period is 1

---
 indicators/ce.cc    | 10 ++++++++++
 indicators/cmi.cc   | 10 ++++++++++
 indicators/mhlma.cc | 14 ++++++++++++++
 indicators/smi.cc   | 12 ++++++------
 4 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 729719c..4dff551 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,11 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -247,6 +252,11 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         max_idx = progress;
         min_idx = progress;
 
+        if (progress == 0) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
+
         prev_close = close[i];
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 63c0e02..57471d6 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -45,6 +45,11 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr[period-1];
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -197,6 +202,11 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+
+        if (progress == 0) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr[period-1];
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 3c154d0..89897e3 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -50,6 +50,13 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -244,6 +251,13 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (progress == 0) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
diff --git a/indicators/smi.cc b/indicators/smi.cc
index f3b8373..5d65065 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -21,7 +21,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
+    const int q_period = options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
@@ -34,16 +34,16 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL ema_s_num;
     TI_REAL ema_r_den;
     TI_REAL ema_s_den;
-    TI_REAL ll;
-    TI_REAL hh;
-    int hh_idx;
-    int ll_idx;
+    TI_REAL ll = std::numeric_limits<TI_REAL>::infinity();
+    TI_REAL hh = -std::numeric_limits<TI_REAL>::infinity();
+    int hh_idx = 0;
+    int ll_idx = 0;
 
     TI_REAL var1;
 
     int i = 0;
 
-    for (; i < size && progress == -q_period + 1; ++i, ++progress) {
+    for (; i < size && progress < 0 && progress == -q_period + 1; ++i, ++progress) {
         hh = high[i];
         hh_idx = progress;
         ll = low[i];
-- 
2.43.0


From f009a26c159525b613074ad7e1d7221eebbf3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:32 +0000
Subject: [PATCH 10/19] fix: count bars with the truncated period, as start()
 does, when a period is fractional (copp, dwma, emsd, frama, hurst, idwma,
 lma, pbands, pfe, posc, rmi, shmma, cmi, vwap)

---
 indicators/cmi.cc    |  4 ++--
 indicators/copp.cc   | 22 +++++++++++-----------
 indicators/dwma.cc   |  5 +++--
 indicators/emsd.cc   |  4 ++--
 indicators/frama.cc  |  4 ++--
 indicators/hurst.cc  |  4 ++--
 indicators/idwma.cc  |  2 +-
 indicators/lma.cc    |  3 ++-
 indicators/pbands.cc |  2 +-
 indicators/pfe.cc    |  2 +-
 indicators/posc.cc   |  2 +-
 indicators/rmi.cc    |  2 +-
 indicators/shmma.cc  |  2 +-
 indicators/vwap.cc   |  4 ++--
 14 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 57471d6..1de5b51 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -14,7 +14,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_cmi_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     return period-1;
 }
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 968e3d3..ee1f331 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -11,9 +11,9 @@
 #include "../utils/log.h"
 
 int ti_copp_start(TI_REAL const *options) {
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const TI_REAL roc_shorter_period = (int)options[0];
+    const TI_REAL roc_longer_period = (int)options[1];
+    const TI_REAL wma_period = (int)options[2];
     #define START (roc_longer_period + wma_period-1)
     return START;
 }
@@ -21,15 +21,15 @@ int ti_copp_start(TI_REAL const *options) {
 
 int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const TI_REAL roc_shorter_period = (int)options[0];
+    const TI_REAL roc_longer_period = (int)options[1];
+    const TI_REAL wma_period = (int)options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
     if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     ringbuf<0> price(roc_longer_period+1);
@@ -75,15 +75,15 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const TI_REAL roc_shorter_period = (int)options[0];
+    const TI_REAL roc_longer_period = (int)options[1];
+    const TI_REAL wma_period = (int)options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
     if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index af4f88c..ef8a255 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -13,7 +13,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_dwma_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     return 2*(period-1);
 }
@@ -77,10 +77,11 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 DONTOPTIMIZE
 int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 9600e07..ecea2ce 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -64,8 +64,8 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL ma_period = options[1];
+    const TI_REAL period = (int)options[0];
+    const TI_REAL ma_period = (int)options[1];
     TI_REAL *emsd = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 5539121..7624d0d 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -23,13 +23,13 @@ int ti_frama_start(TI_REAL const *options) {
 int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
-    TI_REAL period = options[0];
+    int period = options[0];
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (average_period < 2) { return TI_INVALID_OPTION; }
-    if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
+    if (period % 2 != 0) { return TI_INVALID_OPTION; }
     if (size <= ti_frama_start(options)) { return TI_OKAY; }
 
     const TI_REAL w = log(2.0 / (1.0 + average_period));
diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..688a68c 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -21,7 +21,7 @@ int ti_hurst_start(TI_REAL const *options) {
 
 int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -72,7 +72,7 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 DONTOPTIMIZE
 int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 032f567..f58e3c6 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -51,7 +51,7 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL exponent = options[1];
     TI_REAL *idwma = outputs[0];
 
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 3e25b8f..5d050a0 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -55,10 +55,11 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> wma_price(size-period+1);
     std::vector<TI_REAL> sma_price(size-period+1);
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 39f1d2d..5d966eb 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -75,7 +75,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 4b7704f..8902c0e 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -79,7 +79,7 @@ int ti_pfe(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *pfe = outputs[0];
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 07a2093..f983e3f 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -94,7 +94,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index dc4446e..e4a8abd 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -21,7 +21,7 @@ int ti_rmi_start(TI_REAL const *options) {
 int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 973e720..5ccf3ff 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -48,7 +48,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *shmma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 71665e8..a6b502c 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -18,7 +18,7 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
     TI_REAL const *volume = inputs[3];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -54,7 +54,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
     TI_REAL const *volume = inputs[3];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 2f6b7c90ceba4d74f6fc19583ed55200172f983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 11/19] fix: hfsma stream: the price window holds sma_period
 bars

---
 indicators/hfsma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b809c6c..dc89c93 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -158,7 +158,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
         delete ptr;
-- 
2.43.0


From 25239d0c002c4d90e5ee32b012168a5c18a51f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 12/19] fix: mesastoch: periods 1 and 2 read before the filter
 history, short series in the reference

---
 indicators/mesastoch.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index db9f7ea..9b81fca 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 3));
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -110,7 +110,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
-    std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> filt(std::max(period, 3));
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -124,7 +124,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     TI_REAL lowestC;
 
     int i = 2;
-    for (; i < ti_mesastoch_start(options); ++i) {
+    for (; i < ti_mesastoch_start(options) && i < size; ++i) {
         filt.pop_back(); filt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
@@ -157,8 +157,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
         stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
@@ -227,7 +227,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 3));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
-- 
2.43.0


From 4c0c0a6af2d3ff72bcd9d1b274e6aa8999d563ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 13/19] fix: gf4, vidya, pvt_ref: stay inside a short series

---
 indicators/gf4.cc   | 4 ++--
 indicators/pvt.cc   | 2 ++
 indicators/vidya.cc | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..be825d3 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7dfb104 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
-- 
2.43.0


From 695b78516bd25c923242f6de7eb2fb3da5f719b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 14/19] fix: dpo, zlema, hma: short periods read outside the
 series

---
 indicators/dpo.cc   | 12 +++++++++---
 indicators/hma.cc   |  2 +-
 indicators/zlema.cc |  8 +++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..1310aef 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return period-1 > back ? period-1 : back;
 }
 
 
@@ -32,12 +34,16 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) {
+        *output++ = input[period-1-back] - (sum * scale);
+    }
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= back) {
+            *output++ = input[i-back] - (sum * scale);
+        }
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
diff --git a/indicators/hma.cc b/indicators/hma.cc
index 0a3f6cb..6393dd3 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = period * (period+1) / 2;
diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..6379710 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 1 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,12 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    const int start = ti_zlema_start(options);
+    TI_REAL val = input[start];
     *output++ = val;
 
     int i;
-    for (i = lag; i < size; ++i) {
+    for (i = start+1; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From e727bbd651e7232ee5f366c77174b20fd1c9590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 15/19] fix: edcf: a fractional length reached past the price
 window

---
 indicators/edcf.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index ad8e82b..efa07af 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -21,7 +21,7 @@ int ti_edcf_start(TI_REAL const *options) {
 
 int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    TI_REAL length = options[0];
+    const int length = options[0];
     TI_REAL *edcf = outputs[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
@@ -118,7 +118,7 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
     int progress = ptr->progress;
-    TI_REAL length = ptr->options.length;
+    const int length = ptr->options.length;
 
     auto &price = ptr->state.price;
     auto &coef = ptr->state.coef;
-- 
2.43.0


From 5055e43649495ce3169ef127c9af90d00289cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:53 +0000
Subject: [PATCH 16/19] fix: initialise the positions of the extrema in ti_pc
 and ti_mesastoch

---
 indicators/mesastoch.cc | 4 ++--
 indicators/pc.cc        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 9b81fca..a580f95 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -37,8 +37,8 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     TI_REAL highestC = -std::numeric_limits<TI_REAL>::infinity();
     TI_REAL lowestC = std::numeric_limits<TI_REAL>::infinity();
-    int highestC_idx;
-    int lowestC_idx;
+    int highestC_idx = 0;
+    int lowestC_idx = 0;
 
     ringbuf<0> filt(std::max(period, 3));
     ringbuf<3> HP;
diff --git a/indicators/pc.cc b/indicators/pc.cc
index ddb92a3..e985a01 100644
--- a/indicators/pc.cc
+++ b/indicators/pc.cc
@@ -28,8 +28,8 @@ int ti_pc (int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     TI_REAL max = -std::numeric_limits<TI_REAL>::infinity();
     TI_REAL min = std::numeric_limits<TI_REAL>::infinity();
-    int max_idx;
-    int min_idx;
+    int max_idx = 0;
+    int min_idx = 0;
 
 
     int i = 0;
-- 
2.43.0


From 0c5cc88df080d886448f3b9bfa151cf97cba27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:27 +0000
Subject: [PATCH 17/19] fix: ehma_ref: ti_ema truncates the fractional periods
 n/2 and sqrt(n)

---
 indicators/ehma.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index ad4ad7e..b149b46 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -64,23 +64,25 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     std::vector<TI_REAL> ema_n(size);
     std::vector<TI_REAL> subtr(size);
 
-    TI_REAL n2 = period / 2.;
-    TI_REAL n = period;
-    TI_REAL n05 = sqrt(period);
+    const TI_REAL n2 = period / 2.;
+    const TI_REAL n = period;
+    const TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
+    // n2 and n05 need not be integral, so ti_ema doesn't apply
+    auto ema = [size](TI_REAL const *input, TI_REAL n, TI_REAL *output) {
+        for (int i = 0; i < size; ++i) {
+            output[i] = i ? (input[i] - output[i-1]) * 2. / (n + 1.) + output[i-1] : input[i];
+        }
+    };
 
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
 } catch (std::bad_alloc& e) {
-- 
2.43.0


From 1b07e145b3d5167f613ee48208d58e5200a158de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 18/19] fix: ahma_ref and the cmi, dwma, lma, pbands streams:
 ignore the fraction of a period like the plain indicator

---
 indicators/ahma.cc   | 2 +-
 indicators/cmi.cc    | 2 +-
 indicators/dwma.cc   | 2 +-
 indicators/lma.cc    | 2 +-
 indicators/pbands.cc | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index be34bf3..4e03e48 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -35,7 +35,7 @@ int ti_ahma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_ahma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *ahma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 1de5b51..108d1b7 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -147,7 +147,7 @@ struct ti_cmi_stream : ti_stream {
 };
 
 int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index ef8a255..04f0285 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -117,7 +117,7 @@ struct ti_dwma_stream : ti_stream {
 };
 
 int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 5d050a0..9c092ff 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -99,7 +99,7 @@ struct ti_lma_stream : ti_stream {
 };
 
 int ti_lma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 5d966eb..0959a25 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -133,7 +133,7 @@ struct ti_pbands_stream : ti_stream {
 };
 
 int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
     ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
-- 
2.43.0


From 60c03e1dbc700be014c6ae17a739f6253e4d81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 19/19] fix: fi, rmi, smi, t3, tsi: the reference (and the smi
 stream) dropped the fraction of the smoothing periods

---
 indicators/ehma.cc | 14 ++++----------
 indicators/fi.cc   |  3 ++-
 indicators/rmi.cc  |  5 +++--
 indicators/smi.cc  | 17 +++++++++--------
 indicators/t3.cc   |  9 +++------
 indicators/tsi.cc  |  9 +++++----
 utils/ema.h        | 19 +++++++++++++++++++
 7 files changed, 45 insertions(+), 31 deletions(-)
 create mode 100644 utils/ema.h

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index b149b46..05cdebc 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -8,6 +8,7 @@
 #include <vector>
 
 #include "../indicators.h"
+#include "../utils/ema.h"
 #include "../utils/log.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
@@ -68,21 +69,14 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     const TI_REAL n = period;
     const TI_REAL n05 = sqrt(period);
 
-    // n2 and n05 need not be integral, so ti_ema doesn't apply
-    auto ema = [size](TI_REAL const *input, TI_REAL n, TI_REAL *output) {
-        for (int i = 0; i < size; ++i) {
-            output[i] = i ? (input[i] - output[i-1]) * 2. / (n + 1.) + output[i-1] : input[i];
-        }
-    };
-
-    ema(series, n2, ema_n2.data());
-    ema(series, n, ema_n.data());
+    ema_real(size, series, n2, ema_n2.data());
+    ema_real(size, series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    ema(subtr.data(), n05, ehma);
+    ema_real(size, subtr.data(), n05, ehma);
 
     return TI_OKAY;
 } catch (std::bad_alloc& e) {
diff --git a/indicators/fi.cc b/indicators/fi.cc
index 7405d34..2f4e628 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -7,6 +7,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/ema.h"
 
 
 int ti_fi_start(TI_REAL const *options) {
@@ -48,7 +49,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         fi[i-1] = volume[i] * (close[i] - close[i-1]);
     }
 
-    ti_ema(size-1, &fi, &period, &fi);
+    ema_real(size-1, fi, period, fi);
 
     return TI_OKAY;
 }
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index e4a8abd..a5471ed 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -7,6 +7,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/ema.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
 
@@ -74,8 +75,8 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
         losses[i-start] = MAX(0, series[i-(int)lookback_period] - series[i]);
     }
-    ti_ema(size-start, &gains, &period, &gains);
-    ti_ema(size-start, &losses, &period, &losses);
+    ema_real(size-start, gains, period, gains);
+    ema_real(size-start, losses, period, losses);
 
     TI_REAL *inputs_[] = {gains, losses};
     ti_add(size-start, inputs_, 0, &losses);
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 5d65065..e74866d 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -7,6 +7,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/ema.h"
 #include "../utils/ringbuf.hh"
 
 
@@ -152,11 +153,11 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         den[i] = max[i] - min[i];
     }
 
-    ti_ema(outsize, &num, &r_period, &num);
-    ti_ema(outsize, &num, &s_period, &num);
+    ema_real(outsize, num, r_period, num);
+    ema_real(outsize, num, s_period, num);
 
-    ti_ema(outsize, &den, &r_period, &den);
-    ti_ema(outsize, &den, &s_period, &den);
+    ema_real(outsize, den, r_period, den);
+    ema_real(outsize, den, s_period, den);
 
     for (int i = 0; i < outsize; ++i) {
         smi[i] = 100. * num[i] / (0.5 * den[i]);
@@ -173,8 +174,8 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 struct ti_smi_stream : ti_stream {
     struct {
         int q_period;
-        int r_period;
-        int s_period;
+        TI_REAL r_period;
+        TI_REAL s_period;
     } options;
 
     struct {
@@ -239,8 +240,8 @@ int ti_smi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ti_smi_stream *ptr = static_cast<ti_smi_stream*>(stream);
 
     const int q_period = ptr->options.q_period;
-    const int r_period = ptr->options.r_period;
-    const int s_period = ptr->options.s_period;
+    const TI_REAL r_period = ptr->options.r_period;
+    const TI_REAL s_period = ptr->options.s_period;
 
     int progress = ptr->progress;
 
diff --git a/indicators/t3.cc b/indicators/t3.cc
index 38a5264..67669ed 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -8,6 +8,7 @@
 #include <vector>
 
 #include "../indicators.h"
+#include "../utils/ema.h"
 #include "../utils/log.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
@@ -92,12 +93,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
         std::vector<TI_REAL> ema2(size);
         std::vector<TI_REAL> output(size);
 
-        TI_REAL const *arr0[1] = {input.data()};
-        TI_REAL *arr1[1] = {ema1.data()};
-        ti_ema(size, arr0, &period, arr1);
-
-        TI_REAL *arr2[1] = {ema2.data()};
-        ti_ema(size, arr1, &period, arr2);
+        ema_real(size, input.data(), period, ema1.data());
+        ema_real(size, ema1.data(), period, ema2.data());
 
         for (int i = 0; i < size; ++i) {
             output[i] = ema1[i] * (1+v) - ema2[i] * v;
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index 8b51c62..e5c7513 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -7,6 +7,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/ema.h"
 
 int ti_tsi_start(TI_REAL const *options) {
     return 1;
@@ -80,11 +81,11 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_mom(size, &series, &_one, &momentum);
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
-    ti_ema(outsize, &momentum, &y_period, &momentum);
-    ti_ema(outsize, &momentum, &z_period, &momentum);
+    ema_real(outsize, momentum, y_period, momentum);
+    ema_real(outsize, momentum, z_period, momentum);
 
-    ti_ema(outsize, &absmomentum, &y_period, &absmomentum);
-    ti_ema(outsize, &absmomentum, &z_period, &absmomentum);
+    ema_real(outsize, absmomentum, y_period, absmomentum);
+    ema_real(outsize, absmomentum, z_period, absmomentum);
 
     for (int i = 0; i < outsize; ++i) {
         *tsi++ = 100. * momentum[i] / absmomentum[i];
diff --git a/utils/ema.h b/utils/ema.h
new file mode 100644
index 0000000..d441acc
--- /dev/null
+++ b/utils/ema.h
@@ -0,0 +1,19 @@
+/*
+ * This file is part of tindicators, licensed under GNU LGPL v3.
+ */
+
+#ifndef __EMA_H__
+#define __EMA_H__
+
+#include "../indicators.h"
+
+/* Exponential moving average like ti_ema, for a period that need not be integral; output may be the input. */
+static inline void ema_real(int size, TI_REAL const *input, TI_REAL period, TI_REAL *output) {
+    TI_REAL val = 0;
+    for (int i = 0; i < size; ++i) {
+        val = i ? (input[i] - val) * 2. / (period + 1.) + val : input[i];
+        output[i] = val;
+    }
+}
+
+#endif /*__EMA_H__*/
-- 
2.43.0

