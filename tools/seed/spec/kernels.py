S = [
 dict(id="unpack-int8-low-rail", prop="P02", kind="kernel", file="tflite/kernels/quantization.cc", old="std::max(-128, output->params.zero_point - offset)", new="std::max(-127, output->params.zero_point - offset)", h="p02_dequantize.cc", args="type=1", runs=400,
  needs="int8 output whose zero point minus 1/scale reaches the lowest int8 value", breaks="-1 is dequantised to -127 instead of the saturated -128"),
 dict(id="dilated-column-im2col", prop="P05", kind="kernel", file="core/bconv2d/optimized_bgemm.h", old="dilation_width_factor != 1 || dilation_height_factor != 1;", new="dilation_width_factor != 1;", h="conv.cc", defs="-DKERNEL=1", runs=3000,
  needs="a convolution dilated in the vertical direction only", breaks="windows are extracted without the dilation"),
 dict(id="indirect-single-pixel-tail", prop="P06", kind="kernel", file="core/indirect_bgemm/kernel_4x2_portable.h", old="            acc_01 = acc_21;\n            acc_00 = acc_20;", new="            acc_00 = acc_20;", h="conv.cc", defs="-DKERNEL=2", runs=3000,
  needs="float or int8 output, a number of channels per group that leaves three over a multiple of four, and an even pixel of a pair", breaks="the last channel of every second pixel receives another channel's accumulator"),
 dict(id="zero-pad-dilated-rows", prop="P07", kind="kernel", file="core/bconv2d/zero_padding_correction.h", old="const int effective_filter_x = dilation_cols * filter_x;", new="const int effective_filter_x = dilation_rows * filter_x;", h="conv.cc", defs="-DKERNEL=1 -DZEROPAD=1", runs=6000, env="KNOWN=opposite",
  needs="zero padding, a filter wider than one and different dilations for rows and columns", breaks="the correction counts the wrong filter columns as padded"),
 dict(id="relu-grouped-depth", prop="P08", kind="kernel", file="tflite/kernels/bconv2d.cc", old="filter_shape.Dims(1) * filter_shape.Dims(2) * channels_in_per_group;", new="filter_shape.Dims(1) * filter_shape.Dims(2) * bconv2d_params->channels_in;", h="p08_transform.cc", defs="-DKERNEL=2", runs=4000,
  needs="a grouped convolution with float or int8 output", breaks="the back-transformation uses the depth of all groups, shifting every output"),
 dict(id="transform-clamp-short", prop="P08", kind="kernel", file="tflite/kernels/bconv2d.cc", old="nominal_clamp_max = std::min(nominal_clamp_max, backtransform_add);", new="nominal_clamp_max = std::min(nominal_clamp_max, backtransform_add - 1);", h="p08_transform.cc", defs="-DKERNEL=1", runs=4000, args="",
  needs="an output position at which all input and filter bits agree", breaks="the largest possible accumulator value is clamped one too low"),
 dict(id="prepare-threshold-prefix", prop="P12", kind="kernel", file="tflite/kernels/bconv2d.cc", old="    TF_LITE_ENSURE_EQ(context, SizeOfDimension(thresholds, 0),\n                      bconv2d_params->channels_out);", new="    TF_LITE_ENSURE(context, SizeOfDimension(thresholds, 0) >=\n                                bconv2d_params->channels_out);", h="p12_prepare_conv.cc", defs="-DKERNEL=0", runs=20000,
  needs="a bitpacked-output convolution with more thresholds than output channels", breaks="the malformed node is accepted instead of rejected"),
 dict(id="im2col-index-kept", prop="P13", kind="kernel", file="tflite/kernels/bconv2d.cc", old="    op_data->im2col_index = -1;", new="    // no im2col buffer is needed", h="p13_history.cc", defs="-DKERNEL=1", runs=2000,
  needs="x", breaks="x"),
 dict(id="pack-rhs-two-columns", prop="P16", kind="kernel", file="core/bgemm/ruy_pack.h", old="if (block_col >= src_matrix.layout.cols - 2) {", new="if (block_col > src_matrix.layout.cols - 2) {", h="p16_bgemm.cc", defs="-DLCE_RUY_OPT_FAT_KERNEL=0", runs=3000,
  needs="a right-hand side whose number of columns leaves two over a multiple of four", breaks="packing reads a third column that does not exist"),
 dict(id="bool-quantize-mask", prop="P01", kind="kernel", file="core/bitpacking/bitpack.h", old="    // If each row can be bitpacked without any padding, then we can treat", new="    // If each row can be bitpacked without any padding, then we can treat", h="p01_quantize.cc", needs="", breaks=""),
 dict(id="register-both-flags", prop="P15", kind="kernel", file="tflite/kernels/lce_ops_register.h", old="  if (use_reference_bconv) {\n", new="  if (use_reference_bconv && !use_indirect_bgemm) {\n", h="p15_register.cc", args="registration=2", runs=200,
  needs="a resolver registered with both flags set", breaks="the indirect kernel is registered although the reference kernel was requested"),
 dict(id="zero-buffer-size", prop="P11", kind="kernel", file="core/indirect_bgemm/kernel.h", old="zero_buffer.assign(filter_size * input_depth, 0);", new="zero_buffer.assign(std::max(filter_size, block_size_depth), 0);", h="conv.cc", defs="-DKERNEL=2", runs=3000,
  needs="the indirect kernel with padding and more packed input words than filter positions", breaks="padding is read from behind the buffer of zeros"),
]
S = [s for s in S if s["breaks"] not in ("", "x")]
