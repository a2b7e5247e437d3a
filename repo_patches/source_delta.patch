From f8117c83ae9ef0b3e5f64f30cca2c19ccf744220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 01/21] fix: only compute the zero-padding correction for float
 outputs

With bitpacked output the reference kernel has no post-activation multiplier,
so computing the (unused) correction dereferenced a null pointer.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..473fea6 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -334,9 +334,11 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
+  // For 'same-zero' padding, compute the padding-correction. The correction is
+  // only ever applied to float outputs; for bitpacked outputs there is no
+  // multiplier to compute it with.
   if (bconv2d_params->padding_type == kTfLitePaddingSame &&
-      bconv2d_params->pad_value == 0) {
+      bconv2d_params->pad_value == 0 && output->type == kTfLiteFloat32) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
         bconv2d_params->channels_out, bconv2d_params->dilation_height_factor,
-- 
2.43.0


From e0977d15a775f8dc5658fbec126908ab50adf764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 02/21] fix: reject binary convolutions without the per-channel
 tensors they need

Prepare dereferenced the absent optional tensor instead of reporting an error.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 473fea6..b0ea129 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -210,11 +210,14 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
       &out_width);
 
   if (output->type == kTfLiteInt32) {
+    TF_LITE_ENSURE(context, thresholds != nullptr);
     TF_LITE_ENSURE_EQ(context, NumDimensions(thresholds), 1);
     TF_LITE_ENSURE_EQ(context, thresholds->type, kTfLiteInt32);
     TF_LITE_ENSURE_EQ(context, SizeOfDimension(thresholds, 0),
                       bconv2d_params->channels_out);
   } else {
+    TF_LITE_ENSURE(context, post_activation_multiplier != nullptr);
+    TF_LITE_ENSURE(context, post_activation_bias != nullptr);
     TF_LITE_ENSURE_EQ(context, post_activation_multiplier->type,
                       kTfLiteFloat32);
     TF_LITE_ENSURE_EQ(context, post_activation_bias->type, kTfLiteFloat32);
-- 
2.43.0


From ac405fa7e746ab45b14ff95cba8f0aa256637ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 03/21] fix: check the packed channel count of binary
 convolution inputs

An input whose channel dimension disagrees with channels_in was accepted and
read out of bounds, and an empty filter channel dimension divided by zero.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index b0ea129..9987647 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -166,6 +166,11 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   bconv2d_params->filter_height = SizeOfDimension(filter, 1);
   bconv2d_params->filter_width = SizeOfDimension(filter, 2);
 
+  // The kernels rely on the input having `channels_in` bitpacked channels
+  TF_LITE_ENSURE(context, SizeOfDimension(filter, 3) > 0);
+  TF_LITE_ENSURE_EQ(context, SizeOfDimension(input, 3),
+                    GetBitpackedSize(bconv2d_params->channels_in));
+
   if (SizeOfDimension(filter, 3) ==
       GetBitpackedSize(bconv2d_params->channels_in)) {
     bconv2d_params->groups = 1;
-- 
2.43.0


From dab030857808e6e654330ba9cc148adeb66eb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 04/21] fix: reject quantizing or dequantizing scalars

There is no channel dimension to pack; Prepare accessed dims[-1].
---
 larq_compute_engine/tflite/kernels/quantization.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index 68b826d..b5ca96b 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -29,6 +29,7 @@ TfLiteStatus QuantizePrepare(TfLiteContext* context, TfLiteNode* node) {
   TF_LITE_ENSURE_EQ(context, output->type, kTfLiteInt32);
 
   int num_dims = NumDimensions(input);
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   TfLiteIntArray* output_dims = TfLiteIntArrayCopy(input->dims);
@@ -54,6 +55,7 @@ TfLiteStatus DequantizePrepare(TfLiteContext* context, TfLiteNode* node) {
 
   int num_dims = NumDimensions(input);
 
+  TF_LITE_ENSURE(context, num_dims >= 1);
   TF_LITE_ENSURE_EQ(context, num_dims, NumDimensions(output));
 
   // The first n-1 dimensions are equal
-- 
2.43.0


From 18f3737781feb61f211779955e60e388b170a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 05/21] fix: rebuild the indirect BGEMM kernel when the node is
 prepared again

The indirection buffer holds pointers into the input tensor and depends on the
input and output shapes, but it was only ever built once, so resizing or moving
the input made later evaluations read stale memory.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 9987647..0fab382 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -301,8 +301,10 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   }
 
   // Prepare could be called multiple times; when the input tensor is resized,
-  // we shoud always re-do the one-time setup.
+  // we shoud always re-do the one-time setup. The indirection buffer depends on
+  // the shapes and the location of the input tensor, so it is rebuilt as well.
   op_data->one_time_setup_complete = false;
+  op_data->indirect_bgemm_kernel.reset();
 
   return kTfLiteOk;
 }
-- 
2.43.0


From 119cc2efa780707fed5714ba5baa7e083917a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 06/21] fix: avoid signed overflow when packing 31 all-negative
 remaining columns

---
 larq_compute_engine/core/bitpacking/bitpack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/core/bitpacking/bitpack.h b/larq_compute_engine/core/bitpacking/bitpack.h
index acdaa1d..e074650 100644
--- a/larq_compute_engine/core/bitpacking/bitpack.h
+++ b/larq_compute_engine/core/bitpacking/bitpack.h
@@ -275,8 +275,8 @@ inline void bitpack_matrix(const TIn* input, const std::size_t input_num_rows,
       // With padding, all elements of each output column will be binary ones,
       // except the final element, which will have a prefix of ones with a
       // suffix of zeroes.
-      const TBitpacked value_with_padding =
-          (1 << (input_num_cols % bitpacking_bitwidth)) - 1;
+      const TBitpacked value_with_padding = static_cast<TBitpacked>(
+          (std::uint32_t(1) << (input_num_cols % bitpacking_bitwidth)) - 1);
       int rows = input_num_rows;
       while (rows--) {
         std::fill(output, output + output_num_cols - 1, ~TBitpacked(0));
-- 
2.43.0


From efa903d82cfd2a202b445d721273b59e276c48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 07/21] fix: saturate when dequantizing to int8 with a very
 small scale

---
 larq_compute_engine/tflite/kernels/quantization.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/tflite/kernels/quantization.cc b/larq_compute_engine/tflite/kernels/quantization.cc
index b5ca96b..56357d5 100644
--- a/larq_compute_engine/tflite/kernels/quantization.cc
+++ b/larq_compute_engine/tflite/kernels/quantization.cc
@@ -130,7 +130,8 @@ TfLiteStatus DequantizeEval(TfLiteContext* context, TfLiteNode* node) {
     unpack_matrix(GetTensorData<TBitpacked>(input), num_rows, num_cols,
                   GetTensorData<float>(output));
   } else if (output->type == kTfLiteInt8) {
-    int offset = TfLiteRound(1.0f / output->params.scale);
+    // Larger offsets would saturate anyway, but might not fit an int.
+    int offset = std::min(255.0f, TfLiteRound(1.0f / output->params.scale));
     std::int8_t zero_bit_result =
         std::min(127, output->params.zero_point + offset);
     std::int8_t one_bit_result =
-- 
2.43.0


From 4b8a21df6dbe4ee1407e4a9faba08c9f58e7c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 08/21] fix: only fuse strided padding into SAME padding where
 the windows start at the same position

---
 .../mlir/transforms/fuse_padding.cc           | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..f00da82 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "larq_compute_engine/mlir/transforms/padding.h"
 #include "mlir/Pass/Pass.h"
 #include "mlir/Transforms/GreedyPatternRewriteDriver.h"
@@ -26,9 +28,29 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
 
-  // Check that there is no padding in the batch and channel dimensions
-  return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+  if (!IsSamePadding1D(paddings, dimension, input_shape[dimension],
+                       output_shape[dimension], stride)) {
+    return false;
+  }
+
+  // With a stride larger than one, different amounts of padding can give the
+  // same output size, so check that the windows start where they would start
+  // with SAME padding.
+  auto* conv_op = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv_op->getOperand(1));
+  auto dilation_attr = conv_op->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (filter_shape.empty() || ShapedType::isDynamic(filter_shape[dimension]) ||
+      !dilation_attr) {
+    return false;
+  }
+  const int64_t effective_filter_size =
+      (filter_shape[dimension] - 1) * dilation_attr.getInt() + 1;
+  const int64_t same_pad_total =
+      std::max<int64_t>((output_shape[dimension] - 1) * stride +
+                            effective_filter_size - input_shape[dimension],
+                        0);
+  return paddings.getValues<int>()[{dimension, 0}] == same_pad_total / 2;
 }
 
 namespace fuse_padding {
-- 
2.43.0


From 375296787fc31f00c9821c72acc149d10facbb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 09/21] fix: do not replace a max pool with a fused activation
 by a binary max pool

---
 .../mlir/transforms/optimize_patterns_target_arm.td          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..b765220 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -1,6 +1,7 @@
 include "larq_compute_engine/mlir/transforms/optimize_patterns_common.td"
 
-// Insert a binary maxpool if a maxpool is followed by a sign op.
+// Insert a binary maxpool if a maxpool is followed by a sign op. A binary maxpool
+// does not support fused activation functions.
 def : Pat<(LQ_QuantizeOp
               (TFL_MaxPool2DOp:$pool_output
                   $input,
@@ -9,7 +10,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From 8abf27fb95adb18ad2e97f739cf443abd8c4be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 10/21] fix: keep comparisons with zero that broadcast their
 operand

---
 larq_compute_engine/mlir/transforms/optimize.cc             | 6 ++++++
 .../mlir/transforms/optimize_patterns_common.td             | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..3fa9e14 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -243,6 +243,12 @@ DenseElementsAttr GetBitpackedOutputThresholds(
   return DenseElementsAttr::get(type, thresholds);
 }
 
+bool HaveSameShape(Value lhs, Value rhs) {
+  const auto lhs_type = lhs.getType().dyn_cast<RankedTensorType>();
+  const auto rhs_type = rhs.getType().dyn_cast<RankedTensorType>();
+  return lhs_type && rhs_type && lhs_type.getShape() == rhs_type.getShape();
+}
+
 namespace optimize_target_arm {
 #include "larq_compute_engine/mlir/transforms/generated_optimize_target_arm.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 9bc11fa..29ab6ea 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -13,13 +13,17 @@ def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
 class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self, " # val # ")">>;
 
+// Checks if two values have the same shape, i.e. neither of them is broadcasted.
+def HaveSameShape : Constraint<CPred<"HaveSameShape($0, $1)">>;
+
 // This pattern has priority (addBenefit) over the more generic pattern below
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
                   $input,
                   (Arith_ConstantOp ConstantValue<"0.0f">))),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $ge_op)], [], (addBenefit 100)>;
+          [(HasOneUse $ge_op), (HaveSameShape $input, $ge_op)], [],
+          (addBenefit 100)>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
-- 
2.43.0


From 59d12e9475b5f5040ee97a2779a727c7ff33df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 11/21] fix: check shapes before fusing elementwise operations
 into binary convolutions

---
 larq_compute_engine/mlir/transforms/optimize.cc     | 13 +++++++++++++
 .../mlir/transforms/optimize_patterns_common.td     |  9 +++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 3fa9e14..16664c9 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -249,6 +249,19 @@ bool HaveSameShape(Value lhs, Value rhs) {
   return lhs_type && rhs_type && lhs_type.getShape() == rhs_type.getShape();
 }
 
+// Returns whether an elementwise operation with the given constant can be
+// applied to the per-channel multiplier or bias of a convolution instead of to
+// its output, i.e. whether it is a scalar or a vector with a value per channel.
+bool IsChannelwise(Attribute constant, Value conv_output) {
+  const auto elements = constant.dyn_cast<ElementsAttr>();
+  const auto output_type = conv_output.getType().dyn_cast<RankedTensorType>();
+  if (!elements || !output_type) return false;
+  const auto shape = elements.getShapedType().getShape();
+  if (shape.empty()) return true;
+  return shape.size() == 1 &&
+         (shape[0] == 1 || shape[0] == output_type.getShape().back());
+}
+
 namespace optimize_target_arm {
 #include "larq_compute_engine/mlir/transforms/generated_optimize_target_arm.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 29ab6ea..573d640 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -16,6 +16,9 @@ class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self,
 // Checks if two values have the same shape, i.e. neither of them is broadcasted.
 def HaveSameShape : Constraint<CPred<"HaveSameShape($0, $1)">>;
 
+// Checks if a constant can be applied to the output channels of a convolution.
+def IsChannelwise : Constraint<CPred<"IsChannelwise($0, $1)">>;
+
 // This pattern has priority (addBenefit) over the more generic pattern below
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
@@ -39,7 +42,6 @@ def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
 
-// TODO: Check shapes before fusing
 multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$output
@@ -72,12 +74,11 @@ multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $output)]>;
+            [(HasOneUse $output), (IsChannelwise $value, $output)]>;
 }
 foreach binaryOp = [TFL_AddOp, TFL_SubOp] in
   defm : FuseAddOrSubWithBConv2D<binaryOp>;
 
-// TODO: Check shapes before fusing
 multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$conv_output
@@ -111,7 +112,7 @@ multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $conv_output)]>;
+            [(HasOneUse $conv_output), (IsChannelwise $value, $conv_output)]>;
 }
 foreach binaryOp = [TFL_DivOp, TFL_MulOp] in
   defm : FuseMulOrDivWithBConv2D<binaryOp>;
-- 
2.43.0


From 6a82706ce1b54de7bae09d0863e3d2f2a6a1958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 12/21] fix: do not broadcast the vector condition of tf.Select

---
 .../mlir/transforms/prepare_patterns_common.td        |  7 +++++--
 larq_compute_engine/mlir/transforms/prepare_tf.cc     | 11 +++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..b1b2b30 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -22,6 +22,9 @@ def CreateTFBroadcastToOp : NativeCodeCall<
 def CreateTFShapeOp : NativeCodeCall<
     "$_builder.create<TF::ShapeOp>($0.getLoc(), $1, $2)">;
 
+// `tf.Select` with a vector condition selects whole rows.
+def BroadcastsCondition : Constraint<CPred<"BroadcastsCondition($0, $1)">>;
+
 // Base quantiser patterns that match the `tf.where` implementation of `ste_sign`.
 multiclass QuantDequantPatterns<Op SelectOp> {
   def : Pat<(SelectOp:$select_op
@@ -37,7 +40,7 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            [(BroadcastsCondition $select_op, $cond)]>;
   def : Pat<(SelectOp:$select_op
                 $cond,
                 (Arith_ConstantOp ConstantValue<"-1.0f">),
@@ -51,7 +54,7 @@ multiclass QuantDequantPatterns<Op SelectOp> {
                             $select_op,
                             $select_op,
                             /*use 32bit*/ConstBoolAttrFalse)))),
-            []>;
+            [(BroadcastsCondition $select_op, $cond)]>;
 }
 foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 111fc6b..31b3687 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -38,6 +38,17 @@ struct PrepareLCE
                        clEnumValN(LCETarget::XCORE, "xcore", "XCORE target"))};
 };
 
+// Returns whether the condition of a select op is broadcasted to the shape of its
+// output. This is not the case for `tf.Select` with a vector condition, which
+// selects along the first dimension of its output.
+bool BroadcastsCondition(Value output, Value cond) {
+  if (!isa<TF::SelectOp>(output.getDefiningOp())) return true;
+  auto output_type = output.getType().dyn_cast<RankedTensorType>();
+  auto cond_type = cond.getType().dyn_cast<RankedTensorType>();
+  if (!output_type || !cond_type) return false;
+  return cond_type.getRank() != 1 || output_type.getRank() == 1;
+}
+
 DenseElementsAttr GetConstantVector(TypedAttr filter, float val) {
   auto filter_type = filter.getType().cast<ShapedType>();
   auto filter_shape = filter_type.getShape();
-- 
2.43.0


From 9f6fe4e81de9b7e11534b86bf5e18d9c07ec604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 13/21] fix: only match the offset of larq.math.sign in
 sign(sign(x) + c)

---
 .../mlir/transforms/prepare_patterns_common.td         |  8 +++++---
 larq_compute_engine/mlir/transforms/prepare_tf.cc      | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index b1b2b30..3e8f94a 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -60,10 +60,12 @@ foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
   defm : QuantDequantPatterns<SelectOp>;
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
-// based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
+// based implementation of `larq.math.sign`. The constant has to map zero to one
+// without changing the sign of minus one.
+def SignOffset : AttrConstraint<CPred<"IsSignOffset($_self)">>;
+def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), (Arith_ConstantOp SignOffset))),
           (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
+def : Pat<(TF_SignOp (TF_AddV2Op (Arith_ConstantOp SignOffset), (TF_SignOp $arg))),
           (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
 
 // Copied from legalize_patterns.td
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 31b3687..13b2e0c 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -49,6 +49,16 @@ bool BroadcastsCondition(Value output, Value cond) {
   return cond_type.getRank() != 1 || output_type.getRank() == 1;
 }
 
+// Returns whether `sign(sign(x) + values)` is 1 for x >= 0 and -1 for x < 0.
+bool IsSignOffset(Attribute values) {
+  if (!values.isa<DenseElementsAttr>()) return false;
+
+  for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
+    if (!(value > 0.0f && value < 1.0f)) return false;
+  }
+  return true;
+}
+
 DenseElementsAttr GetConstantVector(TypedAttr filter, float val) {
   auto filter_type = filter.getType().cast<ShapedType>();
   auto filter_shape = filter_type.getShape();
-- 
2.43.0


From f90306ea6d6add0c85255b40269ba52c7143b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 14/21] fix: constant folding of lq.Quantize and lq.Dequantize
 of any rank and result type

---
 .../mlir/transforms/bitpack.cc                | 51 ++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..42bd622 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -1,5 +1,6 @@
 #include "larq_compute_engine/mlir/transforms/bitpack.h"
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 
@@ -16,6 +17,13 @@ using compute_engine::core::saturate;
 using compute_engine::core::TBitpacked;
 using namespace compute_engine::core::bitpacking;
 
+// The number of rows of a tensor whose last dimension is (to be) bitpacked.
+static int NumRows(llvm::ArrayRef<int64_t> shape) {
+  int num_rows = 1;
+  for (int64_t dim : shape.drop_back()) num_rows *= dim;
+  return num_rows;
+}
+
 DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   if (!x) return nullptr;
 
@@ -24,8 +32,11 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
 
-  int num_rows = shape[0] * shape[1] * shape[2];
-  int unpacked_channels = shape[3];
+  // The runtime operators do not support scalars.
+  if (shape.empty()) return nullptr;
+
+  int num_rows = NumRows(shape);
+  int unpacked_channels = shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
 
   std::vector<TBitpacked> new_values(num_rows * packed_channels);
@@ -49,9 +60,10 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
     return nullptr;
   }
 
-  RankedTensorType out_tensor_type =
-      RankedTensorType::get({shape[0], shape[1], shape[2], packed_channels},
-                            builder->getIntegerType(bitpacking_bitwidth));
+  std::vector<int64_t> out_shape(shape.begin(), shape.end());
+  out_shape.back() = packed_channels;
+  RankedTensorType out_tensor_type = RankedTensorType::get(
+      out_shape, builder->getIntegerType(bitpacking_bitwidth));
 
   return DenseElementsAttr::get<TBitpacked>(out_tensor_type, new_values);
 }
@@ -65,11 +77,22 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   auto output_shape = result_type.getShape();
   auto output_type = result_type.getElementType();
 
-  int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
-  int unpacked_channels = output_shape[3];
+  // The runtime operators do not support scalars.
+  if (input_shape.empty() || output_shape.empty()) return nullptr;
+
+  int num_rows = NumRows(output_shape);
+  int unpacked_channels = output_shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
-  if (input_shape[0] != output_shape[0] || input_shape[1] != output_shape[1] ||
-      input_shape[2] != output_shape[2] || input_shape[3] != packed_channels) {
+  if (input_shape.drop_back() != output_shape.drop_back() ||
+      input_shape.back() != packed_channels) {
+    return nullptr;
+  }
+
+  auto quant_type = output_type.dyn_cast<mlir::quant::UniformQuantizedType>();
+  if (!output_type.isF32() &&
+      !(quant_type && quant_type.isSigned() &&
+        quant_type.getStorageTypeIntegralWidth() == 8)) {
+    // constant-folding to other types is currently not supported
     return nullptr;
   }
 
@@ -92,12 +115,14 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
 
     return DenseElementsAttr::get<float>(result_type, new_values);
   } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
-    const double scale = quant_type.getScale();
+    // At runtime the scale is a float.
+    const float scale = quant_type.getScale();
     const int zero_point = quant_type.getZeroPoint();
 
-    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0 / scale));
-    std::int8_t one_bit_result = saturate(zero_point + round(-1.0 / scale));
+    // Larger offsets would saturate anyway, but might not fit an int.
+    const int offset = round(std::min(255.0f, 1.0f / scale));
+    std::int8_t zero_bit_result = saturate(zero_point + offset);
+    std::int8_t one_bit_result = saturate(zero_point - offset);
 
     std::vector<std::int8_t> new_values(num_rows * unpacked_channels);
 
-- 
2.43.0


From 0b052ab1a478822385541afe3451474a77e97829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:19 +0000
Subject: [PATCH 15/21] fix: quantise detection post-processing only for int8
 scores

---
 .../mlir/transforms/detection_postprocess.cc    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/detection_postprocess.cc b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
index 4dfe6cd..7fa4e9c 100644
--- a/larq_compute_engine/mlir/transforms/detection_postprocess.cc
+++ b/larq_compute_engine/mlir/transforms/detection_postprocess.cc
@@ -77,6 +77,19 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
       });
     }
 
+    // The new int8 scores output takes its quantization from the scores input
+    auto scores_type = original_scores_dequantize_op.getInput()
+                           .getType()
+                           .cast<ShapedType>()
+                           .getElementType()
+                           .dyn_cast<quant::UniformQuantizedType>();
+    if (!scores_type || !scores_type.isSigned() ||
+        scores_type.getStorageTypeIntegralWidth() != 8) {
+      return rewriter.notifyMatchFailure(detection_op, [&](Diagnostic& diag) {
+        diag << "expected an int8 quantized 'scores' input";
+      });
+    }
+
     // Verify the output types of the current detection op:
     // Output type #0: [int32] detection boxes (scaled by 2048)
     // Output type #1: [int32] detection class IDs
@@ -116,10 +129,6 @@ struct RemoveDequantizeBeforePostProcess : public OpRewritePattern<CustomOp> {
     // Output type #2: [int8 quantized] detection scores
     // Output type #3: [int32] number of detections
     // All as before, except for output #2 (float -> int8 quantized)
-    auto scores_type = scores_input.getType()
-                           .cast<ShapedType>()
-                           .getElementType()
-                           .cast<quant::UniformQuantizedType>();
     const auto scores_zp = scores_type.getZeroPoint();
     const auto scores_scale = scores_type.getScale();
     output_data_types[2] = quant::UniformQuantizedType::get(
-- 
2.43.0


From c27e353cae3fae25a522ae99c39ea87bce31311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 16/21] fix: do not treat filters with NaN or infinite weights
 as binary

---
 larq_compute_engine/mlir/transforms/prepare_tf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 13b2e0c..02ab6d9 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -102,7 +102,9 @@ bool IsBinaryFilter(TypedAttr filter_attr) {
           if (std::abs(scale) <= std::numeric_limits<float>::epsilon())
             return false;
           auto value = filter.getValues<float>()[{h, w, i, o}];
-          if (std::abs(std::abs(value / scale) - 1.0f) > 0.005f) return false;
+          // Written such that NaN and infinite weights are rejected as well.
+          if (!(std::abs(std::abs(value / scale) - 1.0f) <= 0.005f))
+            return false;
         }
       }
     }
-- 
2.43.0


From d45fe86aea247deba4ddf17d7b839b2fc0366e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 17/21] fix: keep quantize and dequantize operators whose
 tensors are used elsewhere when changing or stripping model inputs and
 outputs

---
 larq_compute_engine/mlir/python/util.py | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..e8525cf 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,15 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _is_used_elsewhere(
+    subgraph: tflite_schema.SubGraphT, tensor_idx, op: tflite_schema.OperatorT
+):
+    """Checks whether any operator other than `op` reads the tensor."""
+    return any(
+        tensor_idx in other.inputs for other in subgraph.operators if other is not op
+    )
+
+
 def _remove_tensors_from_model(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT, remove_tensors_idxs
 ):
@@ -193,6 +202,15 @@ def modify_integer_quantized_model_io_type(
     if inference_input_type == tf.int8:
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
+            if op.inputs[0] in subgraph.outputs or _is_used_elsewhere(
+                subgraph, op.inputs[0], op
+            ):
+                raise ValueError(
+                    "The type of model input '{}' cannot be changed, because it is not "
+                    "only used by a quantize operator.".format(
+                        subgraph.tensors[op.inputs[0]].name
+                    )
+                )
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
             if model.signatureDefs:
                 signature_def = model.signatureDefs[0]
@@ -212,6 +230,9 @@ def modify_integer_quantized_model_io_type(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
+            # Keep the operator if the rest of the model needs its result
+            if _is_used_elsewhere(subgraph, op.outputs[0], op):
+                continue
             remove_tensors_idxs.add(op.outputs[0])
             operators.remove(op)
 
@@ -301,6 +322,9 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
+            # Keep the operator if the rest of the model needs its result
+            if _is_used_elsewhere(subgraph, op.outputs[0], op):
+                continue
             remove_tensors_idxs.add(op.outputs[0])
             operators.remove(op)
 
@@ -358,6 +382,9 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
+        # Keep the operator if the rest of the model needs its result
+        if _is_used_elsewhere(subgraph, op.outputs[0], op):
+            continue
         remove_tensors_idxs.add(op.outputs[0])
         operators.remove(op)
 
-- 
2.43.0


From 267b3446dc4604e9d0bb4d3ac1c137d42cd8015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 18/21] fix: update the signatures of the subgraph that is
 modified

---
 larq_compute_engine/mlir/python/util.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index e8525cf..ab278a3 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -63,6 +63,12 @@ def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
             ]
 
 
+def _get_signature_defs(model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT):
+    """Returns the SignatureDefs that refer to the tensors of `subgraph`."""
+    subgraph_idx = next(i for i, s in enumerate(model.subgraphs) if s is subgraph)
+    return [s for s in model.signatureDefs or [] if s.subgraphIndex == subgraph_idx]
+
+
 def _is_used_elsewhere(
     subgraph: tflite_schema.SubGraphT, tensor_idx, op: tflite_schema.OperatorT
 ):
@@ -105,8 +111,7 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -212,8 +217,7 @@ def modify_integer_quantized_model_io_type(
                     )
                 )
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -225,8 +229,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -317,8 +320,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -377,8 +379,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From 4a4d3c1cea1702b0835fefde1fd6ef9fe17a34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 19/21] fix: do not ignore the requested input and output types
 when falling back to graphdef conversion

---
 larq_compute_engine/mlir/python/converter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/python/converter.py b/larq_compute_engine/mlir/python/converter.py
index fc5192e..9262894 100644
--- a/larq_compute_engine/mlir/python/converter.py
+++ b/larq_compute_engine/mlir/python/converter.py
@@ -268,9 +268,7 @@ def convert_keras_model(
         experimental_default_int8_range,
     )
 
-    if should_quantize and (
-        inference_input_type != tf.float32 or inference_output_type != tf.float32
-    ):
+    if inference_input_type != tf.float32 or inference_output_type != tf.float32:
         tflite_buffer = modify_integer_quantized_model_io_type(
             tflite_buffer,
             inference_input_type=inference_input_type,
-- 
2.43.0


From 55b565f05e38a6d4f244e12f4aaa9acf9ea2fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 20/21] fix: reject inputs that cannot be converted to an array

---
 larq_compute_engine/tflite/python/interpreter_wrapper_utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
index a8fd5dc..28e7440 100644
--- a/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
+++ b/larq_compute_engine/tflite/python/interpreter_wrapper_utils.h
@@ -281,6 +281,9 @@ pybind11::list InterpreterWrapperBase<InterpreterType>::predict(
   for (size_t i = 0; i < inputs_size; ++i) {
     pybind11::array nparray =
         pybind11::array::ensure(input_list[i], pybind11::array::c_style);
+    if (!nparray) {
+      PY_ERROR("Input " << i << " cannot be converted to an array");
+    }
     const TfLiteTensor* tensor = get_tensor(interpreter_->inputs()[i]);
     if (!SetTensorFromNumpy(tensor, nparray)) {
       PY_ERROR("Failed to set tensor data of input " << i);
-- 
2.43.0


From 35d1b9ac1f16c0daa5d836d5311e57dfb176d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:01 +0000
Subject: [PATCH 21/21] fix: saturate int8 convolution outputs that do not fit
 an int32

---
 larq_compute_engine/core/bconv2d/output_transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/core/bconv2d/output_transform.h b/larq_compute_engine/core/bconv2d/output_transform.h
index d4ec72c..3973b49 100644
--- a/larq_compute_engine/core/bconv2d/output_transform.h
+++ b/larq_compute_engine/core/bconv2d/output_transform.h
@@ -138,6 +138,8 @@ struct OutputTransform<std::int8_t, OutputTransformDetails::Default> {
     // The linear transformation is done in float
     float y =
         static_cast<float>(x) * multiplier[out_channel] + bias[out_channel];
+    // Values far outside of the int8 range might not fit an int32
+    y = std::max<float>(std::min<float>(y, 127.0f), -128.0f);
     // And then we round back to int32 and clamp to the int8 range
     return saturate(round(y));
   }
-- 
2.43.0

