From eb510ada7f77e695a87ae9fe3a8457de90ca16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:46 +0000
Subject: [PATCH 01/11] fix: declare run_depth_cells as modified in the SSE4
 and AVX2 kernels

The assembly decrements the operand but listed it as input-only, so the
compiler may assume that its register still holds the original value.
---
 internal/kernel_avx.h |  7 +++----
 internal/kernel_sse.h | 12 +++++-------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/internal/kernel_avx.h b/internal/kernel_avx.h
index 2fe1249..1c55ef3 100644
--- a/internal/kernel_avx.h
+++ b/internal/kernel_avx.h
@@ -40,7 +40,7 @@ struct AVX2_64_Kernel24x8Depth2 : KernelBase {
            std::size_t run_depth) const override {
     ScopedProfilingLabel label("optimized kernel");
     assert(dst_row_stride == 1);
-    const std::int64_t run_depth_cells = run_depth / Format::kDepth;
+    std::int64_t run_depth_cells = run_depth / Format::kDepth;
     const std::int64_t dst_col_stride_q = dst_col_stride;
 
     /* Main loop */
@@ -344,10 +344,9 @@ struct AVX2_64_Kernel24x8Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)
         :  // inputs
-        [start_depth] "r"(start_depth), [dst_col_stride_q] "r"(dst_col_stride_q),
-        [run_depth_cells] "r"(run_depth_cells)
+        [start_depth] "r"(start_depth), [dst_col_stride_q] "r"(dst_col_stride_q)
         :  // clobbers
         "cc", "memory", "%ymm0", "%ymm1", "%ymm2", "%ymm3", "%ymm4", "%ymm5", "%ymm6", "%ymm7",
         "%ymm8", "%ymm9", "%ymm10", "%ymm11", "%ymm12", "%ymm13", "%ymm14", "%ymm15", "%r12",
diff --git a/internal/kernel_sse.h b/internal/kernel_sse.h
index ba7959b..5f725f6 100644
--- a/internal/kernel_sse.h
+++ b/internal/kernel_sse.h
@@ -193,10 +193,9 @@ struct SSE4_32_Kernel4x4Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+g"(run_depth_cells)
         :  // inputs
-        [start_depth] "g"(start_depth), [dst_col_stride] "g"(dst_col_stride),
-        [run_depth_cells] "g"(run_depth_cells)
+        [start_depth] "g"(start_depth), [dst_col_stride] "g"(dst_col_stride)
         :  // clobbers
         "cc", "memory", "%xmm0", "%xmm1", "%xmm3", "%xmm2", "%xmm4", "%xmm5",
         "%xmm6", "%xmm7", "%eax", "%ecx");
@@ -219,7 +218,7 @@ struct SSE4_64_Kernel12x4Depth2 : KernelBase {
     ScopedProfilingLabel label("optimized kernel");
     assert(dst_row_stride == 1);
     (void)dst_row_stride;
-    const std::int64_t run_depth_cells = run_depth / Format::kDepth;
+    std::int64_t run_depth_cells = run_depth / Format::kDepth;
     const std::int64_t dst_col_stride_q = dst_col_stride;
 
     /* Main loop */
@@ -501,11 +500,10 @@ struct SSE4_64_Kernel12x4Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)
         :  // inputs
         [start_depth] "r"(start_depth),
-        [dst_col_stride_q] "r"(dst_col_stride_q),
-        [run_depth_cells] "r"(run_depth_cells)
+        [dst_col_stride_q] "r"(dst_col_stride_q)
         :  // clobbers
         "cc", "memory", "%xmm0", "%xmm1", "%xmm3", "%xmm2", "%xmm4", "%xmm5",
         "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%r12", "%r13", "%r14",
-- 
2.43.0


From e5cba4a862b7aea72e908be73a4cde87868632da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:42 +0000
Subject: [PATCH 02/11] fix: declare dst_col_stride as modified in the NEON
 kernels

The assembly scales the operand in place but listed it as input-only.
---
 internal/kernel_neon.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/kernel_neon.h b/internal/kernel_neon.h
index 9859637..0d19a65 100644
--- a/internal/kernel_neon.h
+++ b/internal/kernel_neon.h
@@ -272,10 +272,10 @@ struct NEON_32_Kernel12x4Depth2 : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "r0", "r1",
         // note: someone on internet says that quad registers are
@@ -644,9 +644,10 @@ struct NEON_32_Kernel12x4Depth2Assuming12BitProducts : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth), [dst_col_stride] "r"(dst_col_stride),
+        [start_depth] "r"(start_depth),
         [global_accumulators] "r"(&global_accumulators[0])
         :  // clobbers
         "cc", "memory", "r0", "r1",
@@ -908,10 +909,10 @@ struct NEON_32bit_GEMM_Int8Operands_LhsNonzero : KernelBase {
         "vst1.32 {d10, d11}, [r0]\n"
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr), [run_depth] "+r"(run_depth)
+        [dst_ptr] "+r"(dst_ptr), [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7",
         "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17",
@@ -1626,10 +1627,10 @@ struct NEON_64_Kernel12x8Depth2 : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6",
         "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16",
@@ -1895,9 +1896,9 @@ struct NEON_64_Kernel12x8Depth4_dotprod : KernelBase {
         "st1 {v31.16b}, [x0]\n"
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [depth] "+r"(depth)
+        [depth] "+r"(depth), [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [dst_ptr] "r"(dst_ptr), [dst_col_stride] "r"(dst_col_stride), [start_depth] "r"(start_depth)
+        [dst_ptr] "r"(dst_ptr), [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22",
-- 
2.43.0


From 2fb38e42c355fcc648ac5a2800fd09b614ba1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:42 +0000
Subject: [PATCH 03/11] fix: declare the loop counters of the meta kernels as
 modified

count (mul kernels) and rows (bias-add transform) are decremented in place
by the assembly but were listed as input-only operands.
---
 .../quantized_mul_kernels_common.py           |   4 +-
 meta/generators/transform_kernels_common.py   |   2 +-
 meta/quantized_mul_kernels_arm_32.h           | 315 ++++++++++--------
 meta/quantized_mul_kernels_arm_64.h           | 315 ++++++++++--------
 meta/transform_kernels_arm_32.h               |  80 +++--
 meta/transform_kernels_arm_64.h               |  80 +++--
 6 files changed, 460 insertions(+), 336 deletions(-)

diff --git a/meta/generators/quantized_mul_kernels_common.py b/meta/generators/quantized_mul_kernels_common.py
index ef69eb5..786709c 100644
--- a/meta/generators/quantized_mul_kernels_common.py
+++ b/meta/generators/quantized_mul_kernels_common.py
@@ -494,7 +494,7 @@ def _Generate1xNLoadMultiplyAggregate(emitter, registers, kernel_n, aggregators,
 
 def _GenerateMultiplyKernel(emitter, registers, kernel_m, kernel_n, lhs, rhs):
   """Main muliply loop. Pick best implementation for given kernel shape."""
-  count = registers.MapParameter('count', 'params.kernel.count')
+  count = registers.MapOutputParameter('count', 'params_count_copy')
 
   aggregators = _GenerateAndClearAggregators(emitter, registers,
                                              kernel_m * kernel_n)
@@ -552,6 +552,8 @@ class QuantizedMulKernel(common.MulKernelGenerator):
 
     registers = self.asm_emitter.CreateRegisters()
 
+    self.emitter.EmitDeclare('int', 'params_count_copy', 'params.kernel.count')
+
     self.asm_emitter.PushIndent(self.emitter.indent)
     self.asm_emitter.EmitAsmBegin()
 
diff --git a/meta/generators/transform_kernels_common.py b/meta/generators/transform_kernels_common.py
index 436b40c..8602993 100644
--- a/meta/generators/transform_kernels_common.py
+++ b/meta/generators/transform_kernels_common.py
@@ -412,7 +412,7 @@ class BiasAdd(common.Transform1DKernelGenerator):
 
     self._Prepare(self.asm_emitter, registers)
 
-    rows = registers.MapParameter('rows', 'params_rows_copy')
+    rows = registers.MapOutputParameter('rows', 'params_rows_copy')
 
     self.asm_emitter.EmitNumericalLabel(1)
 
diff --git a/meta/quantized_mul_kernels_arm_32.h b/meta/quantized_mul_kernels_arm_32.h
index 1619c9d..1bb9368 100644
--- a/meta/quantized_mul_kernels_arm_32.h
+++ b/meta/quantized_mul_kernels_arm_32.h
@@ -39,6 +39,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -87,9 +88,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
 
       // RowMajorOutput::Output
       "vst1.8 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -113,6 +114,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -165,9 +167,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
 
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -191,6 +193,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -249,9 +252,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d0[2]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -275,6 +278,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -336,9 +340,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -363,6 +367,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -437,9 +442,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d0[4]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -464,6 +469,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -542,9 +548,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d0[2]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -569,6 +575,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -653,9 +660,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d0[2]}, [%[result]]!\n"
       "vst1.8 {d0[6]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -680,6 +687,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -767,9 +775,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -795,6 +803,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -858,9 +867,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
       // RowMajorOutput::Output
       "vst1.8 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -884,6 +893,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -955,9 +965,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d4[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -982,6 +992,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1065,9 +1076,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
       "vst1.8 {d0[2]}, [%[result]]!\n"
       "vst1.16 {d6[0]}, [r0]!\n"
       "vst1.8 {d6[2]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1093,6 +1104,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1184,9 +1196,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d8[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1212,6 +1224,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1290,9 +1303,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
       "vst1.8 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d2[0]}, [r0]!\n"
       "vst1.8 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1317,6 +1330,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1407,9 +1421,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d4[0]}, [r0]!\n"
       "vst1.16 {d8[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1435,6 +1449,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1546,9 +1561,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
       "vst1.8 {d6[2]}, [r0]!\n"
       "vst1.16 {d12[0]}, [r1]!\n"
       "vst1.8 {d12[2]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1575,6 +1590,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1615,9 +1631,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d8", "d9", "d10", "d11", "cc",
         "memory");
 }
@@ -1639,6 +1655,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1683,9 +1700,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10", "d11",
         "cc", "memory");
 }
@@ -1707,6 +1724,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1757,9 +1775,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d1[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "cc", "memory");
 }
@@ -1781,6 +1799,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1834,9 +1853,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d14", "d15", "d16", "d17", "d18", "d19", "d20", "d21",
         "cc", "memory");
@@ -1859,6 +1878,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1921,9 +1941,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "cc", "memory");
@@ -1946,6 +1966,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2011,9 +2032,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "cc", "memory");
@@ -2036,6 +2057,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2107,9 +2129,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
       "vst1.32 {d3[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "cc", "memory");
@@ -2132,6 +2154,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2207,9 +2230,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2, d3}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30",
@@ -2233,6 +2256,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2283,9 +2307,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10",
         "d11", "cc", "memory");
 }
@@ -2307,6 +2331,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2365,9 +2390,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
         "memory");
@@ -2390,6 +2415,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2460,9 +2486,9 @@ inline void MulKernel<
       "vst1.32 {d1[0]}, [%[result]]!\n"
       "vst1.32 {d6}, [r0]!\n"
       "vst1.32 {d7[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "cc",
@@ -2486,6 +2512,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2564,9 +2591,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d8, d9}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30",
@@ -2590,6 +2617,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2650,9 +2678,9 @@ inline void MulKernel<
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
       "vst1.32 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "cc", "memory");
 }
@@ -2674,6 +2702,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2746,9 +2775,9 @@ inline void MulKernel<
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
       "vst1.32 {d8}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
         "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29",
@@ -2772,6 +2801,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2865,9 +2895,9 @@ inline void MulKernel<
       "vst1.32 {d7[0]}, [r0]!\n"
       "vst1.32 {d12}, [r1]!\n"
       "vst1.32 {d13[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
         "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29",
@@ -2891,6 +2921,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2934,9 +2965,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d8", "d9", "d10", "d11", "d12",
         "d13", "cc", "memory");
@@ -2959,6 +2990,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3006,9 +3038,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10", "d11",
         "d12", "d13", "cc", "memory");
@@ -3031,6 +3063,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3084,9 +3117,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d1[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "cc", "memory");
@@ -3109,6 +3142,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3165,9 +3199,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3191,6 +3225,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3258,9 +3293,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3284,6 +3319,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3354,9 +3390,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3380,6 +3416,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3456,9 +3493,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
       "vst1.32 {d3[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3482,6 +3519,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3562,9 +3600,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2, d3}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3589,6 +3627,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3644,9 +3683,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10",
         "d11", "d12", "d13", "cc", "memory");
@@ -3669,6 +3708,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3732,9 +3772,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
@@ -3758,6 +3798,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3833,9 +3874,9 @@ inline void MulKernel<
       "vst1.32 {d1[0]}, [%[result]]!\n"
       "vst1.32 {d6}, [r0]!\n"
       "vst1.32 {d7[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3860,6 +3901,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3943,9 +3985,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d8, d9}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3970,6 +4012,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4037,9 +4080,9 @@ inline void MulKernel<
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
       "vst1.32 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "cc", "memory");
@@ -4062,6 +4105,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4141,9 +4185,9 @@ inline void MulKernel<
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
       "vst1.32 {d8}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
@@ -4168,6 +4212,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4268,9 +4313,9 @@ inline void MulKernel<
       "vst1.32 {d7[0]}, [r0]!\n"
       "vst1.32 {d12}, [r1]!\n"
       "vst1.32 {d13[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
diff --git a/meta/quantized_mul_kernels_arm_64.h b/meta/quantized_mul_kernels_arm_64.h
index abda496..ff8141b 100644
--- a/meta/quantized_mul_kernels_arm_64.h
+++ b/meta/quantized_mul_kernels_arm_64.h
@@ -39,6 +39,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -87,9 +88,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
 
       // RowMajorOutput::Output
       "st1 {v0.b}[0], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -112,6 +113,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -163,9 +165,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
 
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -188,6 +190,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -244,9 +247,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v0.b}[2], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -270,6 +273,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -328,9 +332,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -354,6 +358,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -425,9 +430,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.b}[4], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -451,6 +456,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -525,9 +531,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.h}[2], [%x[result]], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -551,6 +557,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -630,9 +637,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.h}[2], [%x[result]], #2\n"
       "st1 {v0.b}[6], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -656,6 +663,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -737,9 +745,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -763,6 +771,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -826,9 +835,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
       // RowMajorOutput::Output
       "st1 {v0.b}[0], [%x[result]], #1\n"
       "st1 {v1.b}[0], [x0], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -852,6 +861,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -921,9 +931,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v2.h}[0], [x0], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -947,6 +957,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1026,9 +1037,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
       "st1 {v0.b}[2], [%x[result]], #1\n"
       "st1 {v3.h}[0], [x0], #2\n"
       "st1 {v3.b}[2], [x0], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1052,6 +1063,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1137,9 +1149,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v4.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1163,6 +1175,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1241,9 +1254,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
       "st1 {v0.b}[0], [%x[result]], #1\n"
       "st1 {v1.b}[0], [x0], #1\n"
       "st1 {v2.b}[0], [x1], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1267,6 +1280,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1354,9 +1368,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v2.h}[0], [x0], #2\n"
       "st1 {v4.h}[0], [x1], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1380,6 +1394,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1485,9 +1500,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
       "st1 {v3.b}[2], [x0], #1\n"
       "st1 {v6.h}[0], [x1], #2\n"
       "st1 {v6.b}[2], [x1], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1513,6 +1528,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1553,9 +1569,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "cc", "memory");
 }
 
@@ -1576,6 +1592,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1619,9 +1636,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
 
@@ -1642,6 +1659,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1690,9 +1708,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v0.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
         "memory");
 }
@@ -1714,6 +1732,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1764,9 +1783,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "cc", "memory");
 }
@@ -1788,6 +1807,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1847,9 +1867,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "cc", "memory");
 }
@@ -1871,6 +1891,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1933,9 +1954,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "cc", "memory");
 }
@@ -1957,6 +1978,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2024,9 +2046,9 @@ inline void MulKernel<
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
       "st1 {v1.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "cc", "memory");
 }
@@ -2048,6 +2070,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2117,9 +2140,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s, v1.4s}, [%x[result]], #32\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "cc", "memory");
 }
@@ -2141,6 +2164,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2191,9 +2215,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
 
@@ -2214,6 +2238,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2270,9 +2295,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "cc", "memory");
 }
@@ -2294,6 +2319,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2360,9 +2386,9 @@ inline void MulKernel<
       "st1 {v0.s}[2], [%x[result]], #4\n"
       "st1 {v3.2s}, [x0], #8\n"
       "st1 {v3.s}[2], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
 }
@@ -2384,6 +2410,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2456,9 +2483,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v4.4s}, [x0], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc", "memory");
 }
@@ -2480,6 +2507,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2540,9 +2568,9 @@ inline void MulKernel<
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
       "st1 {v2.s}[0], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "cc", "memory");
 }
@@ -2564,6 +2592,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2633,9 +2662,9 @@ inline void MulKernel<
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
       "st1 {v4.2s}, [x1], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
 }
@@ -2657,6 +2686,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2744,9 +2774,9 @@ inline void MulKernel<
       "st1 {v3.s}[2], [x0], #4\n"
       "st1 {v6.2s}, [x1], #8\n"
       "st1 {v6.s}[2], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc",
         "memory");
@@ -2769,6 +2799,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2812,9 +2843,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -2836,6 +2867,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2882,9 +2914,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -2906,6 +2938,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2957,9 +2990,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v0.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
         "memory");
@@ -2982,6 +3015,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3035,9 +3069,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "cc", "memory");
@@ -3060,6 +3094,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3124,9 +3159,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "cc", "memory");
@@ -3149,6 +3184,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3216,9 +3252,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "cc", "memory");
@@ -3241,6 +3277,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3313,9 +3350,9 @@ inline void MulKernel<
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
       "st1 {v1.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "cc", "memory");
@@ -3338,6 +3375,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3412,9 +3450,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s, v1.4s}, [%x[result]], #32\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "cc", "memory");
@@ -3437,6 +3475,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3492,9 +3531,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -3516,6 +3555,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3577,9 +3617,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "cc", "memory");
@@ -3602,6 +3642,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3673,9 +3714,9 @@ inline void MulKernel<
       "st1 {v0.s}[2], [%x[result]], #4\n"
       "st1 {v3.2s}, [x0], #8\n"
       "st1 {v3.s}[2], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
@@ -3698,6 +3739,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3775,9 +3817,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v4.4s}, [x0], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc", "memory");
@@ -3800,6 +3842,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3867,9 +3910,9 @@ inline void MulKernel<
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
       "st1 {v2.s}[0], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "cc", "memory");
@@ -3892,6 +3935,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3968,9 +4012,9 @@ inline void MulKernel<
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
       "st1 {v4.2s}, [x1], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
@@ -3993,6 +4037,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -4087,9 +4132,9 @@ inline void MulKernel<
       "st1 {v3.s}[2], [x0], #4\n"
       "st1 {v6.2s}, [x1], #8\n"
       "st1 {v6.s}[2], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result),
+        [count] "+r"(params_count_copy)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc",
diff --git a/meta/transform_kernels_arm_32.h b/meta/transform_kernels_arm_32.h
index 64e744e..06cbe2b 100644
--- a/meta/transform_kernels_arm_32.h
+++ b/meta/transform_kernels_arm_32.h
@@ -5590,8 +5590,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "bne 2b\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5734,8 +5735,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5878,8 +5880,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6025,8 +6028,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6169,8 +6173,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6329,8 +6334,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6488,8 +6494,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6650,8 +6657,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6807,8 +6815,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6982,8 +6991,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7157,8 +7167,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7335,8 +7346,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7510,8 +7522,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7701,8 +7714,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7891,8 +7905,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -8084,8 +8099,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
diff --git a/meta/transform_kernels_arm_64.h b/meta/transform_kernels_arm_64.h
index 86b5411..0f3f80e 100644
--- a/meta/transform_kernels_arm_64.h
+++ b/meta/transform_kernels_arm_64.h
@@ -5625,8 +5625,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "bne 2b\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5766,8 +5767,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5907,8 +5909,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6051,8 +6054,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6192,8 +6196,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6349,8 +6354,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6506,8 +6512,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6666,8 +6673,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6820,8 +6828,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6992,8 +7001,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7164,8 +7174,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7339,8 +7350,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7510,8 +7522,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7697,8 +7710,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7884,8 +7898,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -8074,8 +8089,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
-- 
2.43.0


From 18bd5d07d52d087bb9b19db5eb550e741391b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:42 +0000
Subject: [PATCH 04/11] fix: add missing v9 clobber to a requantize kernel

v9 holds the output offset; its low half is callee-saved.
---
 meta/transform_kernels_arm_64.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/transform_kernels_arm_64.h b/meta/transform_kernels_arm_64.h
index 0f3f80e..b5b1c86 100644
--- a/meta/transform_kernels_arm_64.h
+++ b/meta/transform_kernels_arm_64.h
@@ -847,7 +847,8 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
         [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
-      : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "cc", "memory");
+      : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
+        "memory");
 }
 
 template <>
-- 
2.43.0


From 8d964588203d57a185a2692012a0052046d0de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:39 +0000
Subject: [PATCH 05/11] fix: do not select the LhsNonzero kernels for unsigned
 ranges including 0

An unsigned Lhs range such as OperandRange<0, 127> satisfied the test meant
for signed ranges (max <= 127 and min > -128), so on NEON the kernel that
relies on the Lhs never being 0 was used with a Lhs that may be 0, and its
16-bit accumulators overflowed.
---
 internal/kernel_default.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/kernel_default.h b/internal/kernel_default.h
index 29b0991..39a7e9f 100644
--- a/internal/kernel_default.h
+++ b/internal/kernel_default.h
@@ -50,7 +50,8 @@ struct DefaultKernel
                          4096),
                         (BitDepthParams::LhsRange::kMinValue >= 0),
                         (BitDepthParams::LhsRange::kMinValue > 0 ||
-                         (BitDepthParams::LhsRange::kMaxValue <= 127 &&
+                         (BitDepthParams::LhsRange::kMinValue < 0 &&
+                          BitDepthParams::LhsRange::kMaxValue <= 127 &&
                           BitDepthParams::LhsRange::kMinValue > -128))> {};
 
 }  // end namespace gemmlowp
-- 
2.43.0


From ad35639a8d5be07fcdd639df0953d922f932e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 06/11] fix: All() and Any() of the SSE4 and AVX2 fixed-point
 types

All() compared the vector with itself and was always true; the AVX2 Any()
applied a bitwise not to 0 or 1 and was always true.
---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..d5e0a98 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -257,22 +257,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..c5843a7 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi32(-1));
 }
 
 template <>
-- 
2.43.0


From e13c1f8f0114e65cfe3fc5a5e262e4cf1121dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 07/11] fix: saturate SaturatingRoundingDoublingHighMul to
 INT_MAX on SSE4 and AVX2

INT_MIN * INT_MIN gave INT_MIN where the scalar and NEON versions give INT_MAX.
---
 fixedpoint/fixedpoint_avx.h | 5 +++--
 fixedpoint/fixedpoint_sse.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index d5e0a98..c9091e1 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -347,8 +347,9 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
   result = _mm256_blend_epi16(_mm256_srli_si256(a0b0_a2b2_rounded_2x, 4),
                               a1b1_a3b3_rounded_2x, 0xcc);
 
-  // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  // saturate those which overflowed: result is INT_MIN there, flip it to
+  // INT_MAX
+  return BitXor(result, saturation_mask);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index c5843a7..d0ab834 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -351,8 +351,9 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
   result = _mm_blend_epi16(_mm_srli_si128(a0b0_a2b2_rounded_2x, 4),
                            a1b1_a3b3_rounded_2x, 0xcc);
 
-  // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  // saturate those which overflowed: result is INT_MIN there, flip it to
+  // INT_MAX
+  return BitXor(result, saturation_mask);
 }
 
 template <>
-- 
2.43.0


From b23b5ac7be604ca96226ea2370cfae807e13dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 08/11] fix: __m256i holds 8 int32 lanes, not 4

---
 fixedpoint/fixedpoint_avx.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index c9091e1..2f7259c 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -38,9 +38,7 @@ inline int16x16_m256i to_int16x16_m256i(__m256i w) {
 template <>
 struct FixedPointRawTypeTraits<__m256i> {
   typedef std::int32_t ScalarRawType;
-  // TODO: This can actually support up to 8 lanes, so we should either
-  // change to 8 or create int32x8_m256i struct to handle that case.
-  static const int kLanes = 4;
+  static const int kLanes = 8;
 };
 
 template <>
-- 
2.43.0


From 18d118d401ea8954eb58e1ff29c5e037049c7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:04 +0000
Subject: [PATCH 09/11] fix: EightBitIntGemm meta fast path took strided
 vectors for packed ones

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..657ba62 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -192,9 +192,10 @@ bool IsRowMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one row vector? (a vector is both row and column major)
+  // Is it a one row vector? (a nicely packed vector is both row and column
+  // major)
   if (rows == 1) {
-    return true;
+    return transpose || stride == 1;
   }
 
   return false;
@@ -206,9 +207,10 @@ bool IsColumnMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one column vector? (a vector is both row and column major)
+  // Is it a one column vector? (a nicely packed vector is both row and column
+  // major)
   if (cols == 1) {
-    return true;
+    return !transpose || stride == 1;
   }
 
   return false;
-- 
2.43.0


From 5a9eaf124b8da23931b1f8fbafe978d48f0f3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:19 +0000
Subject: [PATCH 10/11] fix: meta legacy q8 gemm: no rounding offset when the
 shift is 0

1 << (shift - 1) shifts by -1 when shift is 0: undefined, and on ARM it adds
1 << 31 to every accumulator, so that every result is 0 or 255.
---
 meta/legacy_single_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_single_thread_gemm.h b/meta/legacy_single_thread_gemm.h
index d662e47..cd543ec 100644
--- a/meta/legacy_single_thread_gemm.h
+++ b/meta/legacy_single_thread_gemm.h
@@ -63,7 +63,8 @@ void gemm_q8_strided(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift < 1 ? 0 : (1 << (shift - 1));
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = result_stride;
@@ -107,7 +108,8 @@ void gemv_q8(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift < 1 ? 0 : (1 << (shift - 1));
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = n;
-- 
2.43.0


From 166de48baf55b84e5317892b71c5dadc67fa0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:19 +0000
Subject: [PATCH 11/11] fix: meta legacy tasks keep a reference to the caller's
 operation

The lambda captured the operation by copy, and the tasks kept a reference to
the copy inside the lambda, which is gone when the tasks run (AddressSanitizer:
stack-use-after-scope in MetaTask::Run).
---
 meta/legacy_multi_thread_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_common.h b/meta/legacy_multi_thread_common.h
index d4cec6f..65a2003 100644
--- a/meta/legacy_multi_thread_common.h
+++ b/meta/legacy_multi_thread_common.h
@@ -135,7 +135,7 @@ void MultiThreadedMatrixMatrix(gemmlowp::WorkersPool* pool,
   std::vector<Task*> tasks;
   std::for_each(
       task_rects.begin(), task_rects.end(),
-      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, operation,
+      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, &operation,
        scratch_per_thread](internal::TaskRect& rect) {
         tasks.push_back(new internal::MetaTask<IN_TYPE, OUT_TYPE, F>(
             task_scratch, lhs, rhs, rect, k, result, result_stride, operation));
-- 
2.43.0

