T = "mlir/transforms/"
L = "\n" + " " * 20
ACT = "(Arith_ConstantOp %%s$post_activation_bias),%s$output_threshold,%s$channels_in,%s$dilation_height_factor,%s$dilation_width_factor,%sTFL_AF_None,%s$pad_values,%sTFL_PAD_Valid:$padding" % ((L,) * 7)
def m(**k): return dict(k, kind="mlir")
S = [
 m(id="threshold-negative-clamp", prop="P09", file=T + "optimize.cc", old="effective_clamp_min = -1 * clamp_max;\n      effective_clamp_max = -1 * clamp_min;", new="effective_clamp_min = clamp_min;\n      effective_clamp_max = clamp_max;", h="p09_thresholds.cc", runs=4000,
  needs="a channel with a negative multiplier and an asymmetric fused activation", breaks="the threshold of that channel is computed from the wrong activation range, so output bits flip"),
 m(id="binary-filter-row-scale", prop="P19", file=T + "prepare_tf.cc", old="auto scale = filter.getValues<float>()[{0, 0, 0, o}];", new="auto scale = filter.getValues<float>()[{h, 0, 0, o}];", h="p19_filter.cc", runs=4000,
  needs="a filter whose rows have weights of different magnitudes", breaks="a filter that is not binary is accepted as binary and loses its magnitudes"),
 m(id="pad-after-ignored", prop="P18", file=T + "padding.h", old="  return paddings.getValues<int>()[{dimension, 0}] == 0 &&\n         paddings.getValues<int>()[{dimension, 1}] == 0;", new="  return paddings.getValues<int>()[{dimension, 0}] == 0;", h="p18_padding.cc", runs=20000, args='"convolution=0" "geometry h=0" "geometry w=1" "deviation=5" "input size=5" "pad before=1" "pad after=1" "filter size=3"',
  needs="an explicit pad that adds entries after the last image or channel only", breaks="the pad is fused and the added entries are lost"),
 m(id="detection-last-output-type", prop="P21", file=T + "detection_postprocess.cc", old="if (output_data_types[i] != original_data_type) {", new="if (i != 3 && output_data_types[i] != original_data_type) {", h="p21_detection.cc", runs=4000,
  needs="a post-processing operation whose last output is not int32", breaks="the operation is rewritten although its outputs are not those of the supported operator"),
 m(id="activation-over-bias", prop="P20", file=T + "optimize_patterns_common.td", old=ACT % 'ConstantValue<"0.0f">:', new=ACT % "", h="p20_optimize.cc", defs="-DPART=1", runs=20000,
  needs="a binary convolution with a bias already fused, followed by an activation", breaks="the activation is applied before the bias instead of after it"),
 m(id="dequantize-fusion-shared", prop="P20", file=T + "quantize_patterns.td", old="(LQ_DequantizeOp $input),\n          [(HasOneUse $output)]>;", new="(LQ_DequantizeOp $input)>;", h="p20_quantize.cc", runs=20000,
  needs="x", breaks="x"),
 m(id="rank-one-batch", prop="P17", file=T + "set_batch_size.cc", old="shape.size() > 0 && shape[0]", new="shape.size() > 1 && shape[0]", h="p17_batch.cc", runs=3000, args='"dimension=-9223372036854775808" inputs=1',
  needs="a model input of rank one with a dynamic dimension", breaks="its batch dimension stays dynamic"),
 m(id="import-pool-strides", prop="P14", file=T + "translate_tflite.cc", old='map["stride_width"].AsInt32(), map["stride_height"].AsInt32(),\n          map["filter_width"]', new='map["stride_height"].AsInt32(), map["stride_width"].AsInt32(),\n          map["filter_width"]', h="p14_options.cc", runs=3000,
  needs="a binary max pooling with different strides for rows and columns imported from a flatbuffer", breaks="the two strides are exchanged"),
 m(id="fold-flat-rows", prop="P03", file=T + "bitpack.cc", old="    unpack_matrix(old_values.data(), num_rows, unpacked_channels,\n                  new_values.data(), zero_bit", new="    unpack_matrix(old_values.data(), 1, num_rows * unpacked_channels,\n                  new_values.data(), zero_bit", h="p03_fold.cc", runs=6000,
  needs="a packed constant of several rows, with a channel count that is not a multiple of 32, dequantized to int8", breaks="the padding bits of each row are unpacked as channels of the next"),
 m(id="bias-not-scaled", prop="P20", file=T + "optimize_patterns_common.td", old="                (binaryOp (Arith_ConstantOp $post_activation_bias),\n                          (Arith_ConstantOp $value), TFL_AF_None),\n                $output_threshold,\n                $channels_in,\n                $dilation_height_factor,\n                $dilation_width_factor,\n                $fused_activation_function,\n                $pad_values,\n                $padding,\n                $stride_height,\n                $stride_width),\n            [(HasOneUse $conv_output)", new="                (Arith_ConstantOp $post_activation_bias),\n                $output_threshold,\n                $channels_in,\n                $dilation_height_factor,\n                $dilation_width_factor,\n                $fused_activation_function,\n                $pad_values,\n                $padding,\n                $stride_height,\n                $stride_width),\n            [(HasOneUse $conv_output)", h="p20_optimize.cc", defs="-DPART=1", runs=20000,
  needs="a binary convolution whose result is first shifted and then multiplied or divided per channel", breaks="the shift is not scaled"),
 m(id="xcore-same-zero", prop="P28", file="mlir/tf_tfl_passes.cc", old="mlir::TFL::CreatePrepareLCEPass(target));", new="mlir::TFL::CreatePrepareLCEPass(LCETarget::ARM));", h="p28_pipeline.cc", also=["pipeline_env.h"], args='"target=1" "family=1"', runs=300,
  needs="the xcore target and a binary convolution with zero SAME padding", breaks="the convolution becomes a binary operator which that target cannot run"),
]
S = [s for s in S if s["breaks"] != "x"]
