From 23362e937ce947e591fe5fe296ba41116f76d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 01/31] fix: keep acquired DMA channel blocks inside the pool

mli_mov_acquire_handle only bounded the first channel of a block by the
end of the pool. A multi-channel request near the end looked at (and
could take) channels which do not belong to the pool, or read beyond the
status table. A request for no channels failed when the pool was empty,
so that synchronous moves needed a pool on platforms without a DMA.
---
 lib/src/move/mli_mov_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..883cdd7 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -383,7 +383,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     mli_status retval = MLI_STATUS_NOT_ENGH_MEM; // TODO: add status for not enough dma channels
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
-    for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
+    // The complete block has to be inside the pool.
+    for (int i = dma_pool.base_channel; i + num_ch <= dma_pool.base_channel + dma_pool.pool_size; i++) {
         bool found = true;
         for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
-- 
2.43.0


From 4fe30e672448a59c0c077ca034f4883fabd35fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 02/31] fix: do not call move callbacks of other handles

Callbacks stayed registered after their handle was released, so the next
owner of the channel called them. Synchronous moves have no channel but
called the callback registered by the live handle on the first channel
of the pool.
---
 lib/src/move/mli_mov_api.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 883cdd7..11cf625 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -313,7 +313,8 @@ mli_status mli_mov_start(mli_mov_handle_t* h, const mli_tensor* src, const mli_m
     {
     // in case DMA is not used, but direct copy was done, set state to DONE, and call callback.
         h->state = MLI_MOV_STATE_DONE;
-        if (callbacktable[h->dma_ch].cb != NULL) {
+    // A handle without channels (synchronous move) has no entry in the callback table.
+        if (h->num_ch > 0 && callbacktable[h->dma_ch].cb != NULL) {
             callbacktable[h->dma_ch].cb(callbacktable[h->dma_ch].cookie);
         }
     }
@@ -395,6 +396,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
             h->num_ch = num_ch;
             for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
                 dma_pool.channel_status[i + ch_cnt] = MLI_MOV_DMA_CH_IN_USE;
+                // a callback registered by a previous owner of the channel must not be called for this handle.
+                callbacktable[i + ch_cnt].cb = NULL;
             }
             retval = MLI_STATUS_OK;
             break;
-- 
2.43.0


From 875faee9c362b95a69ea9f0470f5b66c26b11f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 03/31] fix: respect offsets when deciding on a single 1d move

If the crop offset equals the destination offset, source and destination
shapes match and the whole source was copied, which moved the wrong
elements and overwrote the destination below the offset.
---
 lib/src/move/mli_mov_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 11cf625..bcfa0be 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -240,6 +240,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         is_possible_in_single1d_transfer &= no_padding;
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
         is_possible_in_single1d_transfer &= (cfg->sub_sample_step[i] == 1);
+        is_possible_in_single1d_transfer &= (cfg->offset[i] == 0) && (cfg->dst_offset[i] == 0);
         stride *= src->shape[i];
     }
 
-- 
2.43.0


From b45e6291458c4c405f70e51773589052ebe2e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 04/31] fix: check the configuration of all data movements

Only moves of per-axis quantised tensors had their configuration checked;
for all others a zero subsample step divided by zero, and an invalid size
or permutation read outside the source. A null destination crashed.
---
 lib/src/private/src/mli_check.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..5ab248c 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2828,7 +2828,19 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in, false), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
 
+    if (MLI_CHECK(out != NULL , "Bad output tensor pointer")) return MLI_STATUS_BAD_TENSOR;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+
+    //check that the configurations are valid
+    for (uint32_t i=0; i < in->rank; i++) {
+        if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+    }
+
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
@@ -2846,16 +2858,6 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == nullptr),
                     "El_params data for out tensor wasn`t initialized in a consistent way");
 
-        //check that the configurations are valid
-        for (uint32_t i=0; i < in->rank; i++) {
-            if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-        }
-
         int32_t in_dim = in->el_params.sa.dim;
         int32_t out_dim = 0;
         for (int dim = 0; dim < (int)in->rank; dim++) {
-- 
2.43.0


From b2706f9342980cf4accc6d5742a82e695795c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 05/31] fix: pooling wrote outside the output when padding
 exceeds the output size

With a kernel larger than the input, more border rows or columns were
computed than the output has.
---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 81b0ad1..a90f4ef 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -321,6 +321,13 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
     // (usually significantly smaller part of computations)
     //=======================================================================
     if (padding_top || padding_left || padding_bot || padding_right) {
+        // number of output rows/columns affected by padding on each side. It is limited by
+        // the output size, because a kernel can be larger than the input.
+        const int pad_rows_top = MIN(CEIL_DIV(padding_top, stride_height), (int)out.height);
+        const int pad_rows_bot = MIN(CEIL_DIV(padding_bot, stride_height), (int)out.height);
+        const int pad_clmns_left = MIN(CEIL_DIV(padding_left, stride_width), (int)out.width);
+        const int pad_clmns_right = MIN(CEIL_DIV(padding_right, stride_width), (int)out.width);
+
         for(int i = 0; i < 4; i ++) {
             rect_t area;
             auto in_ = in;
@@ -337,11 +344,11 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 0) {
                 if (padding_top) {
                     area.row_beg = 0;
-                    area.row_end = CEIL_DIV(padding_top, stride_height);
+                    area.row_end = pad_rows_top;
                     area.clmn_beg = 0;
-                    area.clmn_end = out.width - CEIL_DIV(padding_right, stride_width);
+                    area.clmn_end = out.width - pad_clmns_right;
                     // compensate for cases where kernel size is larger than input size
-                    area.clmn_end = MAX(CEIL_DIV(padding_left, stride_width), (int)area.clmn_end);
+                    area.clmn_end = MAX(pad_clmns_left, (int)area.clmn_end);
                 } else {
                     continue;
                 }
@@ -349,8 +356,8 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 1) {
                 if (padding_right) {
                     int row_beg = 0;
-                    int row_end = out.height - CEIL_DIV(padding_bot, stride_height);
-                    int clmn_beg = out.width - CEIL_DIV(padding_right, stride_width);
+                    int row_end = out.height - pad_rows_bot;
+                    int clmn_beg = out.width - pad_clmns_right;
                     int clmn_end = out.width;
                     // rotate the right padding area to the top
                     area.clmn_beg = row_beg;
@@ -373,9 +380,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 2) {
                 if (padding_bot) {
-                    int row_beg = out.height - CEIL_DIV(padding_bot, stride_height);
+                    int row_beg = out.height - pad_rows_bot;
                     int row_end = out.height;
-                    int clmn_beg = CEIL_DIV(padding_left, stride_width);
+                    int clmn_beg = pad_clmns_left;
                     int clmn_end = out.width;
                     // rotate the bottom padding area to the top
                     area.clmn_beg = out.width - clmn_end;
@@ -394,10 +401,10 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 3) {
                 if (padding_left) {
-                    int row_beg = CEIL_DIV(padding_top, stride_height);
+                    int row_beg = pad_rows_top;
                     int row_end = out.height;
                     int clmn_beg = 0;
-                    int clmn_end = CEIL_DIV(padding_left, stride_width);
+                    int clmn_end = pad_clmns_left;
                     // rotate the left padding area to the top
                     area.clmn_beg = out.height - row_end;
                     area.clmn_end = out.height - row_beg;
-- 
2.43.0


From 72b119eacb84d1020d72099a5f3516fe0ad7090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 06/31] fix: prelu and l2_normalize treated only axis -1 as the
 whole tensor

The documentation allows any negative axis; others indexed shape[] and
mem_stride[] out of bounds.
---
 lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h | 2 +-
 lib/src/kernels/transform/mli_krn_prelu.cc                | 6 +++---
 lib/src/private/src/mli_check.cc                          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
index 4785a94..9400ec7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
@@ -192,7 +192,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_l2_normalize_run(const mli_tensor *in
     }
 
     /* Per Tensor Case */
-    if ( cfg->axis == -1 ) {
+    if ( cfg->axis < 0 ) {
         int shape = mli_prv_squash_tensor_to_one_dim(in, out);
         if (shape) {
             int norm_shift;
diff --git a/lib/src/kernels/transform/mli_krn_prelu.cc b/lib/src/kernels/transform/mli_krn_prelu.cc
index 16749cc..88f1ad8 100644
--- a/lib/src/kernels/transform/mli_krn_prelu.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu.cc
@@ -26,7 +26,7 @@ mli_status mli_krn_prelu_fx8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int8_t>(in, slope_coeff, cfg, out);
@@ -41,7 +41,7 @@ mli_status mli_krn_prelu_fx16(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx16(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int16_t>(in, slope_coeff, cfg, out);
@@ -56,7 +56,7 @@ mli_status mli_krn_prelu_sa8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_sa8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_sa8_run(in, slope_coeff, cfg, out);
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 5ab248c..876d9db 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1931,7 +1931,7 @@ mli_status mli_chk_prelu (
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         // Check that slope tensors is valid scalar
         stat = MLI_CHECK_STATUS(mli_chk_scalar_tensor (slope_coeff), "Slope should be scalar tensor");
     } else {
@@ -1949,7 +1949,7 @@ mli_status mli_chk_prelu (
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(in),
                       "Memory stride of the innermost dimension should be equal to 1 for the input tensor");
-    if (cfg->axis != -1) {
+    if (cfg->axis >= 0) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
         /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
-- 
2.43.0


From 21632ef6b4db6d4cce9dc4b8d909a84f6fb3fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 07/31] fix: mli_hlp_point_to_subtensor rejected sub-tensors of
 rank 2 and more

The check asked for output memory strides that cannot describe a tensor of
rank 2 or more, and the function did not set them. Also reject zero
coordinates and move the right pointer of float tensors.
---
 lib/src/helpers/src/mli_helpers.cc | 5 ++++-
 lib/src/private/src/mli_check.cc   | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..f75577a 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
@@ -163,6 +163,9 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->shape[i] = in->shape[subtsr_start_axis + i];
         size *= in->shape[subtsr_start_axis + i];
     }
+    for (int i = 0; i < (int)out_rank; i++) {
+        out->mem_stride[i] = in->mem_stride[subtsr_start_axis + i];
+    }
     out->rank = out_rank;
     out->data.capacity = size * elem_size;
     out->el_params = in->el_params;
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 876d9db..a735990 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2777,7 +2777,7 @@ mli_status mli_chk_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
     if (MLI_CHECK(out != NULL , "Bad Output tensor  pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (MLI_CHECK(cfg->coord_num <= in->rank, "incorrect number of coordinates"))
+    if (MLI_CHECK(cfg->coord_num > 0 && cfg->coord_num <= in->rank, "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
     for (int i = 0; i < cfg->coord_num; i++) {
@@ -2789,11 +2789,7 @@ mli_status mli_chk_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
     if (MLI_CHECK(subtensor_end <= in->shape[cfg->coord_num - 1], "bad config"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
-    const uint32_t subtsr_start_axis = cfg->coord_num - 1;
-    const uint32_t out_rank = in->rank - subtsr_start_axis;
     fail |= MLI_CHECK(check_layout_is_contiguous(in), "Memory Layout of input tensor must be contiguous");
-    fail |= MLI_CHECK(check_layout_is_contiguous(out->mem_stride, out_rank),
-                      "Memory Layout of output tensor must be contiguous");
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
     return MLI_STATUS_OK;
-- 
2.43.0


From 0ede68a719e56560c48914682c272aa91962e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 08/31] fix: element-wise kernels rejected two single-element
 inputs of different rank

The output shape was compared with in2 only, so in1 = [1,1], in2 = scalar
was refused while the opposite order was accepted.
---
 lib/src/private/src/mli_check.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index a735990..112c982 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1580,7 +1580,10 @@ mli_status mli_chk_eltwise (
     if (!mli_tensor_is_scalar(in1) && !mli_tensor_is_scalar(in2)) {
         fail |= MLI_CHECK(check_same_shape(in1, in2), "If both tensors are not scalar, their shapes must be the same");
     }
-    if (!mli_tensor_is_scalar(in1)) {
+    if (mli_tensor_is_scalar(in1) && mli_tensor_is_scalar(in2)) {
+        fail |= MLI_CHECK(check_same_shape(in1, out) || check_same_shape(in2, out),
+                "Output shape must match one of the single element input tensors");
+    } else if (!mli_tensor_is_scalar(in1)) {
         fail |= MLI_CHECK(check_same_shape(in1, out), "Output shape must match non-scalar input tensor");
     } else {
         fail |= MLI_CHECK(check_same_shape(in2, out), "Output shape must match non-scalar input tensor");
-- 
2.43.0


From a5a7a61a22c91e789396d2e59b97010a7eb5591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 09/31] fix: parameter checks used null pointers before testing
 them

---
 lib/src/private/src/mli_check.cc | 144 +++++++++++++++++--------------
 1 file changed, 78 insertions(+), 66 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 112c982..2e101d9 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -102,6 +102,8 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
 }
 
 mli_status mli_chk_lut(const mli_lut * lut, int buff_size) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_TENSOR;
+    if (MLI_CHECK(lut->data.mem.pi16 != NULL, "Bad data pointer of lut")) return MLI_STATUS_BAD_TENSOR;
     if (MLI_CHECK((int)lut->data.capacity >= buff_size, "Insufficient lut data capacity")) {
         return MLI_STATUS_NOT_ENGH_MEM;
     }
@@ -218,7 +220,7 @@ mli_status mli_chk_scalar_tensor (const mli_tensor * in) {
     // .el_type - any value (any valid element type)
     // .el_params - any value (any valid for primitive)
 
-    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) stat = MLI_STATUS_BAD_TENSOR;
+    if (MLI_CHECK(in != NULL, "Bad tensor null pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (in->rank == 0) {
         // for tensors with rank 0 no need for extra checks beside quant params.
@@ -401,6 +403,11 @@ mli_status mli_chk_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+
     // Checking size of the kernel for functions' specializations.
     if (kernel_size != 0) {
       fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
@@ -408,10 +415,6 @@ mli_status mli_chk_conv2d_hwcn (
       if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     }
 
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
-    if (stat != MLI_STATUS_OK) return stat;
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
-    if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (bias), "Bad bias tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
@@ -517,17 +520,17 @@ mli_status mli_chk_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -540,17 +543,17 @@ mli_status mli_chk_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -566,6 +569,11 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+
     // Checking size of the kernel for functions' specializations.
     if (kernel_size != 0) {
       fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
@@ -573,10 +581,6 @@ mli_status mli_chk_depthwise_conv2d_hwcn(
       if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     }
 
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
-    if (stat != MLI_STATUS_OK) return stat;
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
-    if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (bias), "Bad bias tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
@@ -637,17 +641,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -660,17 +664,17 @@ mli_status mli_chk_depthwise_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_depthwise_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -730,6 +734,11 @@ mli_status mli_chk_group_conv2d_hwcn(
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+
     // Checking size of the kernel for functions' specializations.
     if (kernel_size != 0) {
       fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
@@ -737,10 +746,6 @@ mli_status mli_chk_group_conv2d_hwcn(
       if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     }
 
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
-    if (stat != MLI_STATUS_OK) return stat;
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
-    if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (bias), "Bad bias tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
@@ -804,17 +809,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -827,17 +832,17 @@ mli_status mli_chk_group_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_group_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -899,6 +904,11 @@ mli_status mli_chk_transpose_conv2d_hwcn (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
+    if (stat != MLI_STATUS_OK) return stat;
+
     // Checking size of the kernel for functions' specializations.
     if (kernel_size != 0) {
       fail |= MLI_CHECK(weights->shape[KRNL_H_DIM_HWCN] == kernel_size, "Wrong kernel height for specialization");
@@ -906,10 +916,6 @@ mli_status mli_chk_transpose_conv2d_hwcn (
       if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     }
 
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
-    if (stat != MLI_STATUS_OK) return stat;
-    stat = MLI_CHECK_STATUS(mli_chk_tensor (weights), "Bad weights tensor");
-    if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (bias), "Bad bias tensor");
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_CONV_OUT_PTR_INSIDE_CCM), "Bad output tensor");
@@ -981,17 +987,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1004,17 +1010,17 @@ mli_status mli_chk_transpose_conv2d_hwcn_fx16_fx8_fx8(
         const mli_conv2d_cfg * cfg,
         const mli_tensor * out,
         const uint32_t kernel_size) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_transpose_conv2d_hwcn(in, weights, bias, cfg, out, kernel_size), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1366,17 +1372,17 @@ mli_status mli_chk_fully_connected_fx16_fx8_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1388,17 +1394,17 @@ mli_status mli_chk_fully_connected_fx8(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_8, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_8, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_8, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -1410,17 +1416,17 @@ mli_status mli_chk_fully_connected_fx16(
         const mli_tensor * bias,
         const mli_fully_connected_cfg * cfg,
         mli_tensor * out) {
+    mli_status ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (MLI_CHECK(in->el_type      == MLI_EL_FX_16, "Wrong input tensor type") ||
         MLI_CHECK(weights->el_type == MLI_EL_FX_16, "Wrong weights tensor type") ||
         MLI_CHECK(bias->el_type    == MLI_EL_FX_16, "Wrong bias tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
-    mli_status ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
+    ret = MLI_CHECK_STATUS(mli_chk_bias_frac_fx(in, weights, bias), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     ret = MLI_CHECK_STATUS(mli_chk_out_frac_fx(in, weights, out), __func__);
-    if (ret != MLI_STATUS_OK)
-        return ret;
-    ret = MLI_CHECK_STATUS(mli_chk_fully_connected(in, weights, bias, cfg, out), __func__);
     if (ret != MLI_STATUS_OK)
         return ret;
     return MLI_STATUS_OK;
@@ -2074,11 +2080,6 @@ mli_status mli_chk_rnn_dense (
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(weights[idx]), "Memory stride for inner most dimension of weights must be 1");
         if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
-        //check that input and output are not overlapped
-        if (MLI_CHECK(mli_chk_tensors_not_overlapped(in[idx], out),"in and out buffer must not be overlapped")) {
-            return MLI_STATUS_INCOMPATEBLE_TENSORS;
-        }
-
     }
 
     // Check bias
@@ -2099,6 +2100,13 @@ mli_status mli_chk_rnn_dense (
     if (MLI_CHECK(out->el_type == in[0]->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    //check that inputs and output are not overlapped
+    for (int idx = 0; idx < inputs_num; idx++) {
+        if (MLI_CHECK(mli_chk_tensors_not_overlapped(in[idx], out),"in and out buffer must not be overlapped")) {
+            return MLI_STATUS_INCOMPATEBLE_TENSORS;
+        }
+    }
+
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(bias), "Memory stride for inner most dimension of bias must be 1");
     fail |= MLI_CHECK(check_layout_is_contiguous(out), "Memory Layout of out tensor must be contiguous");
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
@@ -2224,6 +2232,8 @@ mli_status mli_chk_lstm_cell (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    // Check config is valid
+    if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
@@ -2447,6 +2457,8 @@ mli_status mli_chk_gru_cell (
     mli_status stat = MLI_STATUS_OK;
     bool fail = false;
 
+    // Check config is valid
+    if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check tanh_lut
     stat = MLI_CHECK_STATUS(mli_chk_lut(tanh_lut, tanh_lut_fx16.data.capacity), "Tanh LUT error");
-- 
2.43.0


From 799c70cb279849d47ca6ec11d832cf49d2d75637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 10/31] fix: group convolution check divided by zero on
 mismatching channel counts

---
 lib/src/private/src/mli_check.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2e101d9..58bde8c 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -758,8 +758,11 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
     fail |= MLI_CHECK(bias->rank == 1, "Wrong bias rank");
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
     int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
+    if (MLI_CHECK(group_count > 0, "Number of input channels is less than the number of channels of filter"))
+        return MLI_STATUS_SHAPE_MISMATCH;
     fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
     fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
-- 
2.43.0


From 35b59b7e2915ae30dd68a5fbf7e11a97dc9f64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 11/31] fix: look-up tables were not checked by the kernels
 which use them

---
 lib/src/kernels/transform/mli_krn_l2_normalize.cc | 5 +++++
 lib/src/kernels/transform/mli_krn_sigm_fx.cc      | 7 +++++++
 lib/src/kernels/transform/mli_krn_softmax_fx.cc   | 7 +++++++
 lib/src/kernels/transform/mli_krn_tanh_fx.cc      | 7 +++++++
 4 files changed, 26 insertions(+)

diff --git a/lib/src/kernels/transform/mli_krn_l2_normalize.cc b/lib/src/kernels/transform/mli_krn_l2_normalize.cc
index 5c86d61..4c56b6b 100644
--- a/lib/src/kernels/transform/mli_krn_l2_normalize.cc
+++ b/lib/src/kernels/transform/mli_krn_l2_normalize.cc
@@ -26,6 +26,8 @@ mli_status mli_krn_l2_normalize_fx16(const mli_tensor *in,
 
     mli_status ret = MLI_CHECK_STATUS(mli_chk_l2_normalize_fx16(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
     return mli_krn_l2_normalize_run<int16_t>(in, epsilon, cfg, out, lut);
@@ -39,6 +41,8 @@ mli_status mli_krn_l2_normalize_sa8(const mli_tensor *in,
 
     mli_status ret = MLI_CHECK_STATUS(mli_chk_l2_normalize_sa8(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
     return mli_krn_l2_normalize_run<int8_t, true>(in, epsilon, cfg, out, lut);
@@ -49,6 +53,7 @@ int32_t mli_krn_l2_normalize_get_lut_size() {
 }
 
 mli_status mli_krn_l2_normalize_create_lut(mli_lut *lut) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_TENSOR;
     lut->type = invsqrt_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, invsqrt_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
diff --git a/lib/src/kernels/transform/mli_krn_sigm_fx.cc b/lib/src/kernels/transform/mli_krn_sigm_fx.cc
index bef3175..59238bb 100644
--- a/lib/src/kernels/transform/mli_krn_sigm_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_sigm_fx.cc
@@ -27,6 +27,8 @@ extern "C" {
 mli_status mli_krn_sigm_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -40,6 +42,8 @@ mli_status mli_krn_sigm_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor
 mli_status mli_krn_sigm_fx16(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx16(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -55,6 +59,8 @@ mli_status mli_krn_sigm_sa8(const mli_tensor *in, const mli_lut *lut, mli_tensor
     struct s8asym_quant_params out_params;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_sa8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -81,6 +87,7 @@ int32_t mli_krn_sigm_get_lut_size() {
 }
 
 mli_status mli_krn_sigm_create_lut(mli_lut *lut) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_TENSOR;
     lut->type = sigmoid_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, sigmoid_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
diff --git a/lib/src/kernels/transform/mli_krn_softmax_fx.cc b/lib/src/kernels/transform/mli_krn_softmax_fx.cc
index 9f9fbc6..aa44873 100644
--- a/lib/src/kernels/transform/mli_krn_softmax_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_softmax_fx.cc
@@ -25,6 +25,8 @@ extern "C" {
 mli_status mli_krn_softmax_fx8(const mli_tensor *in, const mli_lut *lut, const mli_softmax_cfg *cfg, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_softmax_fx8(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -35,6 +37,8 @@ mli_status mli_krn_softmax_fx8(const mli_tensor *in, const mli_lut *lut, const m
 mli_status mli_krn_softmax_fx16(const mli_tensor *in, const mli_lut *lut, const mli_softmax_cfg *cfg, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_softmax_fx16(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -45,6 +49,8 @@ mli_status mli_krn_softmax_fx16(const mli_tensor *in, const mli_lut *lut, const
 mli_status mli_krn_softmax_sa8(const mli_tensor *in, const mli_lut *lut, const mli_softmax_cfg *cfg, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_softmax_sa8(in, cfg, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -57,6 +63,7 @@ int32_t mli_krn_softmax_get_lut_size() {
 }
 
 mli_status mli_krn_softmax_create_lut(mli_lut *lut) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_TENSOR;
     lut->type = expneg_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, expneg_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
diff --git a/lib/src/kernels/transform/mli_krn_tanh_fx.cc b/lib/src/kernels/transform/mli_krn_tanh_fx.cc
index b2868c0..f2f6851 100644
--- a/lib/src/kernels/transform/mli_krn_tanh_fx.cc
+++ b/lib/src/kernels/transform/mli_krn_tanh_fx.cc
@@ -28,6 +28,8 @@ extern "C" {
 mli_status mli_krn_tanh_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -41,6 +43,8 @@ mli_status mli_krn_tanh_fx8(const mli_tensor *in, const mli_lut *lut, mli_tensor
 mli_status mli_krn_tanh_fx16(const mli_tensor *in, const mli_lut *lut, mli_tensor *out) {
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_fx16(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -56,6 +60,8 @@ mli_status mli_krn_tanh_sa8(const mli_tensor *in, const mli_lut *lut, mli_tensor
     struct s8asym_quant_params out_params;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_basic_activation_sa8(in, out), __func__);
     if (ret != MLI_STATUS_OK) return ret;
+    ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
+    if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     mli_prv_fx_init_dsp_ctrl();
 
@@ -81,6 +87,7 @@ int32_t mli_krn_tanh_get_lut_size() {
 }
 
 mli_status mli_krn_tanh_create_lut(mli_lut *lut) {
+    if (MLI_CHECK(lut != NULL, "Bad lut null pointer")) return MLI_STATUS_BAD_TENSOR;
     lut->type = tanh_lut_fx16.type;
     mli_status ret = MLI_CHECK_STATUS(mli_chk_lut(lut, tanh_lut_fx16.data.capacity), __func__);
     if (ret != MLI_STATUS_OK) return ret;
-- 
2.43.0


From a6c4b06dc1a0a62d2141749765150f6012f01021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 12/31] fix: argmax and permute accepted output tensors of a
 wrong rank and invalid parameters

---
 lib/src/private/src/mli_check.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 58bde8c..5b87558 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2670,6 +2670,8 @@ mli_status mli_chk_permute (const mli_tensor * in, const mli_permute_cfg * cfg,
     // Check config structure
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
+    if (MLI_CHECK(out->rank == in->rank, "Wrong output rank"))
+        return MLI_STATUS_SHAPE_MISMATCH;
     for (int idx = 0; idx < (int)in->rank; idx++) {
         if (MLI_CHECK(cfg->perm_dim[idx] < in->rank, "Rank mismatch"))
             return MLI_STATUS_BAD_FUNC_CFG;
@@ -2716,6 +2718,9 @@ mli_status mli_chk_permute_sa8 (const mli_tensor * in, const mli_permute_cfg * c
         return ret;
     if (MLI_CHECK(in->el_type == MLI_EL_SA_8, "Wrong input tensor type"))
         return MLI_STATUS_TYPE_MISMATCH;
+    ret = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Input tensor: Quantization params check fail");
+    if (ret != MLI_STATUS_OK)
+        return ret;
     if (in->el_params.sa.dim >= 0) {
         bool fail = false;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
@@ -2944,9 +2949,11 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
         return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
+    if (MLI_CHECK(out->rank == 2, "Wrong output rank")) return MLI_STATUS_SHAPE_MISMATCH;
     uint32_t dim_size = 1;
     bool fail = false;
     uint32_t in_size = mli_prv_count_elem_num(in);
+    fail |= MLI_CHECK(cfg->topk > 0, "topk must be greater than zero");
     if (cfg->axis >= 0) {
         dim_size = in->shape[cfg->axis];
         uint32_t slice_size = in_size / dim_size;
-- 
2.43.0


From 44771cc7c3a613836b5272bbf7857d1665ae8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 13/31] fix: mli_hlp_convert_tensor did not check the
 quantization parameters

---
 lib/src/private/src/mli_check.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 5b87558..5dd80bc 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2767,6 +2767,10 @@ mli_status mli_chk_convert_tensor(const mli_tensor *in, mli_tensor *out) {
     if (stat != MLI_STATUS_OK) return stat;
     stat = MLI_CHECK_STATUS(mli_chk_tensor (out, MLI_OUT_PTR_INSIDE_CCM), "Bad output tensor");
     if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Input tensor: Quantization params check fail");
+    if (stat != MLI_STATUS_OK) return stat;
+    stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(out), "Output tensor: Quantization params check fail");
+    if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(check_same_shape(in, out), "Input and output shape must match"))
         return MLI_STATUS_SHAPE_MISMATCH;
 
-- 
2.43.0


From 8f119c100e700692328a02705d4a2d7a00aaea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 14/31] fix: mli_hlp_create_subtensor accepted sizes which wrap
 around

---
 lib/src/private/src/mli_check.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 5dd80bc..6916e64 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2837,7 +2837,7 @@ mli_status mli_chk_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     for (int i = 0; i < (int)in->rank; i++) {
         if (MLI_CHECK(cfg->offset[i] < in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
-        if (MLI_CHECK(cfg->offset[i] + cfg->size[i] <= in->shape[i], "bad config"))
+        if (MLI_CHECK(cfg->size[i] <= in->shape[i] - cfg->offset[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
     }
 
-- 
2.43.0


From 0e4d100b20b3d8ef244ca683f9fec77ebc7320af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 15/31] fix: tensor capacity check wrapped around with huge
 shapes or strides

---
 lib/src/private/src/mli_check.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 6916e64..8e02f13 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -84,19 +84,21 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
     }
     if (fail) return MLI_STATUS_BAD_TENSOR;
 
-    int size = 1;
-    int previous_shape = 1;
-    int previous_mem_stride = 1;
+    // 64-bit arithmetic: products of valid 32-bit shapes and strides must not wrap around.
+    int64_t size = 1;
+    int64_t previous_shape = 1;
+    int64_t previous_mem_stride = 1;
     for (int i = rank - 1; i >= 0; i--) {
         fail |= MLI_CHECK(mem_stride[i] >= (previous_shape * previous_mem_stride), "Tensor mem stride too small");
         previous_shape = shape[i];
         previous_mem_stride = mem_stride[i];
         size += (previous_shape - 1) * previous_mem_stride;
+        if (size > INT32_MAX) size = (int64_t)INT32_MAX + 1;
     }
     size *= element_size;
 
     if (fail) return MLI_STATUS_BAD_TENSOR;
-    fail |= MLI_CHECK((int)capacity >= size, "Insufficient tensor capacity");
+    fail |= MLI_CHECK((int64_t)capacity >= size, "Insufficient tensor capacity");
     if (fail) return MLI_STATUS_NOT_ENGH_MEM;
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From a3b38dc5208acee23540f13d5b5cbec712f2802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:00 +0000
Subject: [PATCH 16/31] fix: depthwise convolution of a tile with several
 batches computed only the first one

---
 .../mli_krn_depthwise_conv2d_runtime.cc           | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..ecda9b2 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -82,16 +82,18 @@ mli_status DepthwiseConv2d::Issue() {
     InternalBuffer out_buf = m_tile_output.get_buf();
     InternalBuffer curr_inp_buf(inp_buf);
     InternalBuffer curr_out_buf(out_buf);
-    m_tile_input.set_buf(curr_inp_buf);
-    m_tile_output.set_buf(curr_out_buf);
 
-    QTensor<InternalBuffer, kDepthwiseIORank> qinput{
-      m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
     QTensor<InternalBuffer, kDepthwiseWRank> qweights{
       m_tile_weights, m_tile_wzp.get_buf(), m_metadata.wts_quant_axis};
 
 
     for (uint32_t i = 0; i < m_tile_batch_size; i++) {
+      // tensors keep a copy of the buffer, so they have to be updated for each batch
+      m_tile_input.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
+      QTensor<InternalBuffer, kDepthwiseIORank> qinput{
+        m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
+
       conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
                             ::mli::CONV_DEPTHWISE, kDepthwiseIORank,
                             kDepthwiseWRank, DwConv2DConfig>(
@@ -121,6 +123,7 @@ mli_status DepthwiseConv2d::Update() {
   const auto input_tile_tensor = m_metadata.input.GetSubTensor();
   uint32_t input_tile_shape[kDepthwiseIORank];
   input_tile_tensor.get_dims(input_tile_shape);
+  m_tile_batch_size = input_tile_shape[kGroupTensorBatchDim];
   input_tile_shape[kGroupTensorBatchDim] = 1;
   m_tile_input = Tensor<InternalBuffer, kDepthwiseIORank>(m_tile_input, input_tile_shape);
 
@@ -198,6 +201,10 @@ void DepthwiseConv2d::GetIOSizesAndOffsets(uint32_t input_size[kDepthwiseIORank]
   m_tile_input.get_dims(input_size);
   m_tile_weights.get_dims(weights_size);
   m_tile_output.get_dims(output_size);
+
+  // the tile tensors describe a single batch
+  input_size[kGroupTensorBatchDim] = m_tile_batch_size;
+  output_size[kGroupTensorBatchDim] = m_tile_batch_size;
 }
 
 }  // namespace snps_arc::metaware::mli::ref
\ No newline at end of file
-- 
2.43.0


From 494d87faad7c8969274c9e27f21bc5bdff3dae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 17/31] fix: GetDeconvTensorIterators cut tiles which overlap
 or leave gaps between them

---
 lib/src/helpers/src/mli_helpers_30.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers_30.cc b/lib/src/helpers/src/mli_helpers_30.cc
index bb72e5b..3c7a625 100644
--- a/lib/src/helpers/src/mli_helpers_30.cc
+++ b/lib/src/helpers/src/mli_helpers_30.cc
@@ -18,12 +18,16 @@ DeconvTensorIteratorTuple GetDeconvTensorIterators(Tensor<NoBuffer, kTransposeCo
   auto in_tensor_it_cfg = in_tensor_it.get_config();
 
   // TODO: fix this it some how better than just disabling tiling
-  if (in_tensor_it_cfg.get_last_size(kGroupTensorHeightDim) < weights_tensor.get_dim(kKernelHeightDim)) {
+  // Tiles do not overlap only when kernel and stride match: with a larger kernel the outputs next to a border depend on
+  // the inputs of both tiles, with a smaller one the outputs between two tiles belong to none of them.
+  if (in_tensor_it_cfg.get_last_size(kGroupTensorHeightDim) < weights_tensor.get_dim(kKernelHeightDim)
+      || effective_kernel_size[kGroupTensorHeightDim] != stride[kGroupTensorHeightDim]) {
     const int32_t disable_mask[kTransposeConvIORank]{ 0, 1, 0, 0, 0 };
     in_tensor_it_cfg.template DisableTiling<NoBuffer, kTransposeConvIOIterRank>(disable_mask, in_tensor_it.get_tensor());
     in_tensor_it_cfg.SetCount(1, kGroupTensorHeightDim);
   }
-  if (in_tensor_it_cfg.get_last_size(kGroupTensorWidthDim) < weights_tensor.get_dim(kKernelWidthDim)) {
+  if (in_tensor_it_cfg.get_last_size(kGroupTensorWidthDim) < weights_tensor.get_dim(kKernelWidthDim)
+      || effective_kernel_size[kGroupTensorWidthDim] != stride[kGroupTensorWidthDim]) {
     const int32_t disable_mask[kTransposeConvIORank]{ 0, 0, 1, 0, 0 };
     in_tensor_it_cfg.template DisableTiling<NoBuffer, kTransposeConvIOIterRank>(disable_mask, in_tensor_it.get_tensor());
     in_tensor_it_cfg.SetCount(1, kGroupTensorWidthDim);
-- 
2.43.0


From 1e67a196027e2a16a036f94779b6b0dddd53d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:13 +0000
Subject: [PATCH 18/31] fix: sum pooling dropped padding for tiles that start
 at the beginning of the input but are not the first

---
 lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
index afd86a2..af9298b 100644
--- a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
+++ b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
@@ -137,11 +137,19 @@ void SumPool2D::UpdateTilePaddings() {
   m_input.get_pos(tile_input_offsets);
 
   const auto& input_it_cfg = m_input.get_config();
-  if (tile_input_offsets[kTensorHeightDim]) m_tile_cfg.padding_top = 0;
+  int32_t tile_idx[kPoolRank];
+  m_input.get_tile_idx(tile_idx);
+  if (!m_input.is_first_tile(kTensorHeightDim)) {
+    uint32_t pad_used = input_it_cfg.get_inc(kTensorHeightDim) * tile_idx[kTensorHeightDim];
+    m_tile_cfg.padding_top = pad_used < m_tile_cfg.padding_top ? m_tile_cfg.padding_top - pad_used : 0;
+  }
   if (tile_input_offsets[kTensorHeightDim] + (int32_t) input_it_cfg.get_size(kTensorHeightDim) < (int32_t)m_input.get_dim(kTensorHeightDim)) {
     m_tile_cfg.padding_bottom = 0;
   }
-  if (tile_input_offsets[kTensorWidthDim]) m_tile_cfg.padding_left = 0;
+  if (!m_input.is_first_tile(kTensorWidthDim)) {
+    uint32_t pad_used = input_it_cfg.get_inc(kTensorWidthDim) * tile_idx[kTensorWidthDim];
+    m_tile_cfg.padding_left = pad_used < m_tile_cfg.padding_left ? m_tile_cfg.padding_left - pad_used : 0;
+  }
   if (tile_input_offsets[kTensorWidthDim] + (int32_t) input_it_cfg.get_size(kTensorWidthDim) < (int32_t)m_input.get_dim(kTensorWidthDim)) {
     m_tile_cfg.padding_right = 0;
   }
-- 
2.43.0


From 12d1a4d365916a8b997d213d9f9962bf4b8998fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 19/31] fix: element-wise add, sub, min, max runtime kernels
 shifted by uninitialized fraction bits

---
 include/mli_service_functions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mli_service_functions.hpp b/include/mli_service_functions.hpp
index d5bf6f9..9cb67e5 100644
--- a/include/mli_service_functions.hpp
+++ b/include/mli_service_functions.hpp
@@ -178,6 +178,8 @@ inline const int32_t get_last_increment(uint32_t number_of_tiles,  int32_t first
 template <typename T>
 void ReconstructTensor(InternalBuffer& internal_buffer, mli_tensor& tensor,
                          uint32_t rank, uint32_t* shape, int32_t* stride ) {
+  // no quantization parameters here: the kernels must not see what was in the memory of the object
+  tensor.el_params = {};
   tensor.rank = rank;
   // assign pointer or val
   if (tensor.rank != 0) {
-- 
2.43.0


From 15e1a4ff37f7d17198806c564c52129e0248cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 20/31] fix: rescale from 8 to 32 bits read the input as 32
 bit, tiled matmul placed its operands and output wrongly

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 2 +-
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp    | 4 +++-
 lib/src/kernels/convolution/mli_krn_matmul_runtime.cc | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..dd1e0ab 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -206,7 +206,7 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
                                                          &m_tile_metadata.scale,
                                                          &m_tile_metadata.shift,
diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 126205f..a7ecf32 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -60,8 +60,10 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   uint32_t left_w = in_left.get_dim(kMatMulWidthDim);
   int32_t left_mem_strides[kMatMulRank];
   int32_t right_mem_strides[kMatMulRank];
+  int32_t out_mem_strides[kMatMulRank];
   in_left.get_mem_strides(left_mem_strides);
   in_right.get_mem_strides(right_mem_strides);
+  output.get_mem_strides(out_mem_strides);
   for(uint32_t left_height_index = 0; left_height_index < left_h; ++left_height_index) {
     for (uint32_t right_width_index = 0; right_width_index < right_w; ++right_width_index) {
       acc = 0;
@@ -70,7 +72,7 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
           val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index) - in_right_zp;
           acc += val1 * val2;
       }
-        output.template write<out_t>( left_height_index * right_w + right_width_index, static_cast<out_t>(acc) );
+        output.template write<out_t>( left_height_index * out_mem_strides[0] + right_width_index, static_cast<out_t>(acc) );
     }
   }
 }
diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From 3980a2c61b74770b32be63414d6ecbceadac1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:07 +0000
Subject: [PATCH 21/31] fix: reduce_max runtime kernel processed the whole
 tensor instead of its first tile

---
 lib/src/kernels/conversion/mli_reduce_max_runtime.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
index 8540068..e2df3f8 100644
--- a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
+++ b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
@@ -48,8 +48,9 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
         MLI_ASSERT(0);
     }
 
+    const auto input_tile_tensor = m_input.GetSubTensor();
     for(unsigned int i = 0; i < m_tile_input.rank ; i++){
-        m_tile_input.shape[i] = private_buffer.input.get_dim(i);
+        m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
     }
 
@@ -70,8 +71,9 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
         MLI_ASSERT(0);
     }
     
+    const auto output_tile_tensor = m_output.GetSubTensor();
     for(unsigned int i = 0; i < m_tile_output.rank ; i++){
-        m_tile_output.shape[i] = private_buffer.output.get_dim(i);
+        m_tile_output.shape[i] = output_tile_tensor.get_dim(i);
         m_tile_output.mem_stride[i] = private_buffer.output.get_mem_stride(i);
     }
 }
-- 
2.43.0


From 3c12ca03814cf450da239d2fae6237c722e2fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:07 +0000
Subject: [PATCH 22/31] fix: permute runtime kernel followed uninitialized
 quantization parameters

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..9c48be4 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -42,6 +42,9 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     const auto input_tile_tensor = m_metadata.m_input.GetSubTensor();
     InternalBuffer input_internal(private_buffer.input.get_buf(), membases, num_mems);
     m_metadata.m_tile_input.rank = private_buffer.io_rank;
+    // data are only moved: no quantization parameters
+    m_metadata.m_tile_input.el_params = {};
+    m_metadata.m_tile_input.el_params.sa.dim = -1;
     if(m_in_elem_size == sizeof(int32_t)) {
         m_metadata.m_tile_input.el_type = MLI_EL_SA_32;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_input, input_internal.get_ptr<int32_t>());
@@ -71,6 +74,9 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
     const auto output_tile_tensor = m_metadata.m_output.GetSubTensor();
     InternalBuffer output_internal(private_buffer.output.get_buf(), membases, num_mems);
     m_metadata.m_tile_output.rank = private_buffer.io_rank;
+    // data are only moved: no quantization parameters
+    m_metadata.m_tile_output.el_params = {};
+    m_metadata.m_tile_output.el_params.sa.dim = -1;
     if(m_out_elem_size == sizeof(int32_t)) {
         m_metadata.m_tile_output.el_type = MLI_EL_SA_32;
         mli_prv_tensor_set_data_ptr(&m_metadata.m_tile_output, output_internal.get_ptr<int32_t>());
-- 
2.43.0


From 378d91070b4d2e71cc10acc44aaa797ceb8c627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 23/31] fix: rescale runtime kernel gave its 8 bit input and 32
 bit output biases the wrong element types

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index dd1e0ab..511b145 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -99,7 +99,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.in_bias.data.mem.pi8 = encoded_params_internal.get_ptr<int8_t>();
       }
       encoded_params_internal.inc(m_tile_param_max_size);
-      m_tile_metadata.in_bias.el_type = MLI_EL_SA_32;
+      m_tile_metadata.in_bias.el_type = MLI_EL_SA_8;
     }
     else {
         MLI_ASSERT(0);
@@ -151,7 +151,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.out_bias.rank = 1;
         m_tile_metadata.out_bias.data.mem.pi32 = encoded_params_internal.get_ptr<int32_t>();
       }
-      m_tile_metadata.out_bias.el_type = MLI_EL_SA_8;
+      m_tile_metadata.out_bias.el_type = MLI_EL_SA_32;
     }
     else {
         MLI_ASSERT(0);
-- 
2.43.0


From 9aae7c18ca5c7fec32fd2bcf492b62028585656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:41 +0000
Subject: [PATCH 24/31] fix: mli_hlp_create_subtensor keeps quantization
 parameters when it drops the quantization axis

Removing the (size 1) quantization axis left the per-axis parameter pointers in
place but set the axis to -1, so the low bits of the pointers were read as scale
and zero point.
---
 lib/src/helpers/src/mli_helpers.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index f75577a..791fc9c 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -240,7 +240,18 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->el_params = in->el_params;
 
     if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+        if (out->el_params.sa.dim >= 0 && out_asym_dim < 0) {
+            // The quantization axis is one of the removed dimensions:
+            // parameters of the only remaining slice are valid for the whole tensor.
+            const int offset = cfg->offset[in->el_params.sa.dim];
+            out->el_params.sa.scale.mem.i16 = in->el_params.sa.scale.mem.pi16[offset];
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.mem.i8 = in->el_params.sa.scale_frac_bits.mem.pi8[offset];
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.mem.i16 = in->el_params.sa.zero_point.mem.pi16[offset];
+            out->el_params.sa.zero_point.capacity = 0;
+            out->el_params.sa.dim = -1;
+        } else if (out->el_params.sa.dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
             out->el_params.sa.dim = out_asym_dim;
-- 
2.43.0


From 15af0b5c1548493c0fe05789a2f86b2b71f5e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:37 +0000
Subject: [PATCH 25/31] fix: convolution: a weights zero point encoded per
 tensor (one output channel) left the kernel with an uninitialised zero point

---
 lib/src/bricks/impl/mli_prv_quant_ref.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index 2071d0f..715a9e3 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -702,8 +702,7 @@ MLI_FORCE_INLINE void define_quant_params(
     MLI_ASSERT(weights.quant_axis >= -1 &&
                weights.quant_axis < static_cast<int>(weights.t.get_rank()));
     if (weights.quant_axis == -1) {
-        // not supported yet
-        MLI_ASSERT(false);
+        params->weights_offset = get_per_tensor_zp<w_T>(weights.zp);
     } else {
         // If only weights zero points are all zero
         params->weights_offset = get_per_channel_zp<w_T>(
-- 
2.43.0


From 1e6649db67d51982702b4a0b2fef8a3c89343f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:37 +0000
Subject: [PATCH 26/31] fix: fully connected: EncodeWtsZeroPts could not be
 called in the debug build and encoded only the first zero point (read behind
 the shape array)

---
 .../kernels/common/impl/mli_krn_fully_connected_compiler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
index 72ff152..42d19a6 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
@@ -176,7 +176,9 @@ unsigned FullyConnected_CS::GetEncodedWeightsSize() const {
 mli_status FullyConnected_CS::EncodeWtsZeroPts(const Tensor<Buffer, 1> &wtszeropts,
                                                Buffer &encoded_wtszeropts) {
   DEPRECATED_METHOD
-  MLI_ASSERT(wtszeropts.get_buf().get_size() == encoded_wtszeropts.get_size());
+  // should have the same number of elements
+  MLI_ASSERT(wtszeropts.get_buf().get_size() / wtszeropts.get_elem_size() ==
+    encoded_wtszeropts.get_size() / encoded_wtszeropts.get_elem_size());
   // the element size of source less than or equal to the encoded one's
   MLI_ASSERT(wtszeropts.get_elem_size() <= encoded_wtszeropts.get_elem_size());
 
@@ -188,7 +190,7 @@ mli_status FullyConnected_CS::EncodeWtsZeroPts(const Tensor<Buffer, 1> &wtszerop
     else {
       MLI_ASSERT(encoded_wtszeropts.get_size() / encoded_wtszeropts.get_elem_size() ==
       m_weights.get_dim(kKernelFCChannelOutDim));
-      for (uint32_t i = 0; i < wtszeropts.get_dim(kKernelFCChannelOutDim); ++i) {
+      for (uint32_t i = 0; i < wtszeropts.get_dim(0); ++i) {
         encoded_wtszeropts.write(i, static_cast<int16_t>(wtszeropts.read<int8_t>(i)));
       }
     }
-- 
2.43.0


From b4888f5902352f2eb36e7f1b41338f5b2d0d2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:09 +0000
Subject: [PATCH 27/31] fix: the overlap check compared only the low 32 bits of
 addresses

---
 lib/src/private/src/mli_check.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 8e02f13..494f619 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -247,8 +247,8 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    if ((data1.mem.pi8 >= (data2.mem.pi8 + data2.capacity)) ||
+        (data2.mem.pi8 >= (data1.mem.pi8 + data1.capacity))) {
         return true;
     }
     return false;
-- 
2.43.0


From 8569e112ed6490e14c051b703a111d9ec56774ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 28/31] fix: bilinear resize read in front of its input with
 negative offsets

---
 lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
index 13b722d..fb3b996 100644
--- a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
@@ -40,13 +40,13 @@ mli_status mli_resize_bilinear(const mli_tensor* in, const ResizeOpConfig& cfg,
             row_int = row_fx >> cfg.shift;
             delta_row_fx = row_fx - (row_int << cfg.shift);
             input_row0_int = MIN(MAX(row_int, 0), in_prv.shape[kTensorHeightDim] - 1);
-            input_row1_int = MIN(row_int + 1, in_prv.shape[kTensorHeightDim] - 1);
+            input_row1_int = MIN(MAX(row_int + 1, 0), in_prv.shape[kTensorHeightDim] - 1);
             for (w = 0; w < out_prv.shape[kTensorWidthDim]; w++) {
                 col_fx = w * cfg.stride[1] + cfg.offset[1];
                 col_int = col_fx >> cfg.shift;
                 delta_col_fx = col_fx - (col_int << cfg.shift);
                 input_col0_int = MIN(MAX(col_int, 0), in_prv.shape[kTensorWidthDim] - 1);
-                input_col1_int = MIN(col_int + 1, in_prv.shape[kTensorWidthDim] - 1);
+                input_col1_int = MIN(MAX(col_int + 1, 0), in_prv.shape[kTensorWidthDim] - 1);
                 for (c = 0; c < out_prv.shape[kTensorChannelDim]; c++) {
                     // read the nearest 4 input values around the output point
                     v00 = mli_prv_tensor_read(in_prv, b, input_row0_int, input_col0_int, c);
-- 
2.43.0


From 43cfffe52bcef87e30808ef64d1e26a3d14c5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 29/31] fix: bilinear resize rejected every configuration with
 shift 11 in debug builds

---
 lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
index 2f04745..c321992 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
@@ -31,7 +31,7 @@ void run_mli_resize_bilinear_standalone(const mli_tensor* in, const ResizeOpConf
     MLI_ASSERT(cfg.stride[1] > (1 << (cfg.shift - 4)));
   }
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(cfg.stride[0] < val_16_fx);
   MLI_ASSERT(cfg.stride[1] < val_16_fx);
 
-- 
2.43.0


From 738f0851f79e748f522063694e95005e32f9cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:15 +0000
Subject: [PATCH 30/31] fix: compiling a bilinear resize rejected every
 configuration with shift 11 in debug builds

---
 lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
index 0da0183..daeacbc 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
@@ -30,7 +30,7 @@ ResizeBilinear_CS::ResizeBilinear_CS(const lib_mli::PlatformDescription pd,
   }
  
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(m_cfg.stride[0] < val_16_fx);
   MLI_ASSERT(m_cfg.stride[1] < val_16_fx);
 
-- 
2.43.0


From afa6db61fe2ea18d450f1ba1c99da8cc45e5c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:59 +0000
Subject: [PATCH 31/31] fix: an iterator configuration with a dropped axis
 swapped its first and further increments

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..8eb94de 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0

