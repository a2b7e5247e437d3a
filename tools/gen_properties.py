#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the statements can be reviewed in one place)."""
import json, os
C='larq_compute_engine/core/'; K='larq_compute_engine/tflite/kernels/'; M='larq_compute_engine/mlir/'; T=M+'transforms/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files[:2])}]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Binarising a tensor packs exactly the sign bit of every element",
"Quantizing a float, int8 or bool tensor to packed binary form stores, 32 channels per int32 word with channel c in word c/32 at bit c%32, a 1 exactly when the element is negative (float: strictly below zero, so -0.0 and NaN give 0; int8: strictly below the tensor's zero point, for every int32 zero point; bool: false). All bits past the last channel of a pixel are 0, no other output word is touched, and rows never bleed into each other whatever the channel count.",
["inputs","configurations"],"all element values and zero points, every channel count including those not a multiple of 32, every number of rows, all three input types",
"The C++ tests sample random data for a few channel counts; a wrong bit for one value class (NaN, -0.0, a boundary zero point) or one tail length is invisible to them, and they do not run here.",
[C+"bitpacking/bitpack.h",C+"bitpacking/utils.h",K+"quantization.cc"],"bitpack_matrix / bitpack_tensor and the quantize op's evaluation",observe="the packed int32 output tensor of the quantize op")
p("P02","Unpacking turns bit 0 into +1 and bit 1 into -1, exactly, and round-trips",
"Dequantizing a packed binary tensor writes +1.0 for every 0 bit and -1.0 for every 1 bit when the output is float, true/false when it is bool, and for int8 the saturated nearest quantized representations of +1 and -1 under the output's scale and zero point, for every channel of every pixel and never from padding bits. Consequently packing the unpacked tensor reproduces the packed one, and unpacking a packed tensor reproduces the sign of each original element.",
["inputs","configurations"],"all packed words, all channel counts, scales and zero points, all three output types",
"Finite samples of bit patterns and channel counts; the int8 levels are tested for a couple of scales only.",
[C+"bitpacking/bitpack.h",C+"bitpacking/utils.h",K+"quantization.cc"],"unpack_matrix and the dequantize op's evaluation",observe="output tensor of the dequantize op")
p("P03","Compile-time constant folding of (de)quantize equals run-time evaluation",
"When the converter folds a quantize or dequantize operation on a constant it produces a tensor of the right shape and type whose contents are bit-identical to what the runtime operator would compute from the same constant. When the operand type or shape is not supported it refuses to fold instead of producing a wrong constant.",
["inputs","programs"],"all constant contents, shapes and channel counts, scales and zero points",
"The MLIR lit tests that exercise folding need a TensorFlow build and check a few literal tensors.",
[T+"bitpack.cc",T+"bitpack.h",M+"ir/lce_ops.cc"],"the Bitpack/Unpack constant-fold helpers and the fold hooks of the two ops",observe="folded constant attribute")
p("P04","Reference binary convolution equals the mathematical +1/-1 convolution",
"For every accepted combination of input size, filter size, strides, dilations, padding mode, pad value, channel counts and groups, each accumulator the reference binary convolution produces equals the dot product of the +1/-1 input window with the +1/-1 filter, where positions outside the image contribute +1 inputs (one-padding) or nothing (zero-padding). Float, int8 and bitpacked outputs are that value passed through the output transform, written at the position of that output element only.",
["inputs","configurations"],"all bit patterns of inputs and filters; all small shapes, strides, dilations, groups, paddings, output types",
"Tests compare a few hundred random cases; off-by-one windows, tails of a packed word or group offsets only show for particular shapes.",
[C+"bconv2d/reference.h",C+"types.h",K+"bconv2d.cc"],"the reference convolution loop and the operator's evaluate function",observe="output tensor of the binary conv op registered with the reference kernel")
p("P05","Optimised BGEMM convolution agrees with the mathematical definition",
"The default optimised binary convolution (window extraction plus binary matrix multiplication) yields, for every accepted configuration with one-padding or no padding, exactly the outputs of the mathematical +1/-1 convolution followed by the output transform, for float, int8 and bitpacked outputs. This includes 1x1 filters that skip window extraction, strided and dilated windows, and channel counts that are not multiples of 32.",
["inputs","configurations"],"all bit patterns; all small shapes, strides, dilations, paddings and output types",
"The gtest comparison samples random inputs for a grid of shapes, needs a TFLite build and never ran here.",
[C+"bconv2d/optimized_bgemm.h",C+"bgemm/bgemm.h",C+"bgemm/kernels.h",C+"bgemm/kernels_common.h",C+"bgemm/ruy_trmul_params.h",K+"bconv2d.cc"],"im2col, packing and the portable BGEMM kernels",observe="output tensor of the binary conv op registered with the optimised BGEMM kernel")
p("P06","Indirect BGEMM convolution agrees with the mathematical definition",
"The indirection-buffer based binary convolution yields, for every accepted configuration with one-padding or no padding, including grouped convolutions, exactly the outputs of the mathematical +1/-1 convolution followed by the output transform, for float, int8 and bitpacked outputs. Output pixel counts and output channel counts that do not fill the kernel's tile produce the same values as full tiles.",
["inputs","configurations"],"all bit patterns; all small shapes, strides, dilations, groups, batch sizes, odd pixel counts and ragged channel counts",
"Random sampling on a grid of shapes; weight packing and ragged tails depend on exact channel/pixel residues.",
[C+"indirect_bgemm/kernel.h",C+"indirect_bgemm/kernel_4x2_portable.h",C+"indirect_bgemm/select_kernel.h",C+"bconv2d/optimized_indirect_bgemm.h",K+"bconv2d.cc"],"weight packing, indirection buffer and the portable 4x2 kernel",observe="output tensor of the binary conv op registered with the indirect kernel")
p("P07","Zero-padding correction removes exactly the padded contributions",
"For SAME convolutions with zero padding, the optimised float kernels' result equals the convolution in which window positions outside the image contribute nothing, at every output position (corners, edges, interior), for every stride, dilation, filter size and per-channel multiplier. No output position that does not touch the border is changed.",
["inputs","configurations"],"all filter bits and multipliers; all image/filter/stride/dilation geometries",
"Depends on the joint geometry of stride, dilation and image size at each border position; the tests fix a few geometries.",
[C+"bconv2d/zero_padding_correction.h",C+"bconv2d/optimized_bgemm.h",C+"bconv2d/optimized_indirect_bgemm.h",K+"bconv2d.cc"],"cached correction values and their application to the output border",observe="float output tensor for SAME padding with pad value 0")
p("P08","Output transform equals activation, multiplier, bias and requantisation",
"For float output the value written for a dot product d of depth a is clamp(d)*multiplier+bias, where clamp is the range of the fused activation (none, ReLU, ReLU in [-1,1], ReLU6) applied to d before the multiplication; for int8 output it is that value divided by the output scale, plus the zero point, rounded to nearest and saturated to [-128,127]. Per-channel parameters are always taken from the channel being written.",
["inputs","configurations"],"all accumulator values, multipliers, biases, activations, scales and zero points",
"A handful of random multipliers is compared with a tolerance; saturation, rounding and clamp boundaries are not isolated.",
[C+"bconv2d/output_transform.h",K+"bconv2d.cc",C+"types.h"],"one-time fusion of clamp/multiplier/bias/scale and the output transform functors",observe="output tensor of the binary conv op")
p("P09","Bitpacked-output thresholds reproduce the sign of the float output",
"For every depth, fused activation, multiplier and bias, the per-channel threshold computed at conversion time makes the bitpacked convolution write a 1 exactly when the float convolution's value clamp(d)*multiplier+bias is negative (with the filter of negative-multiplier channels negated as the rewrite does), up to float rounding at exact ties. Zero multipliers and clamping ranges that never cross zero give a constant bit of the right sign.",
["inputs","programs"],"all accumulators 0..depth, multipliers of either sign or zero, biases, four activations",
"Sign boundaries need specific multiplier/bias/depth combinations; the lit tests pin a few thresholds only.",
[T+"optimize.cc",T+"bitpack_activations_patterns.td",C+"bconv2d/output_transform.h"],"threshold computation, weight sign flipping and the runtime comparison",observe="threshold constant and resulting output bit")
p("P10","Binary max pooling equals the sign of max pooling the +1/-1 tensor",
"For every input size, window, stride and padding, each output bit of binary max pooling is 1 exactly when every in-image +1/-1 value of that channel in the window is -1, so padding never contributes, and the output has the shape that ordinary SAME/VALID pooling has.",
["inputs","configurations"],"all packed words; all small geometries, strides and both paddings",
"Random samples over a small grid; border windows with strides are only hit by particular geometry.",
[C+"bmaxpool.h",K+"bmaxpool.cc"],"the pooling loop and the operator's prepare/evaluate functions",observe="output tensor of the binary max-pool op")
p("P11","Kernels stay inside their buffers and free of undefined behaviour",
"Running any of the binary operators on any configuration they accept never writes outside the output, scratch and internal buffers, never reads outside its inputs except for the documented trailing bytes, never reads uninitialised memory into an output, and performs no signed overflow, invalid shift, out-of-range conversion or null dereference.",
["inputs","configurations"],"all data values; all small accepted configurations of quantize, dequantize, binary convolution (all kernels) and binary max pooling",
"Sanitizer runs cover only executed inputs; the upstream suite is not run with sanitizers and many accepted configurations never appear.",
[C+"bitpacking/bitpack.h",C+"bconv2d/reference.h",C+"bconv2d/optimized_bgemm.h",C+"bgemm/kernels.h",C+"indirect_bgemm/kernel.h",C+"indirect_bgemm/kernel_4x2_portable.h",C+"bconv2d/zero_padding_correction.h",C+"bmaxpool.h",K+"bconv2d.cc",K+"quantization.cc"],"pointer arithmetic of all kernels")
p("P12","Operator preparation accepts exactly valid nodes and infers right shapes",
"Preparing a quantize, dequantize, binary convolution or binary max-pool node succeeds only if ranks, types, channel/group divisibility, per-channel parameter lengths, padding restrictions and quantization parameters meet the documented contract, and fails with an error (not a crash) otherwise. On success the output has the shape implied by the input size, filter, stride, dilation and padding, with the channel dimension packed or unpacked according to the output type.",
["inputs","configurations"],"all tensor types, ranks, dimensions, options and kernel variants",
"Tests only build valid models plus one or two rejections; acceptance of a malformed node is never exercised.",
[K+"bconv2d.cc",K+"bmaxpool.cc",K+"quantization.cc",C+"bitpacking/utils.h"],"Init/Prepare functions of the four operators",observe="status returned and shape passed to the resize callback")
p("P13","Repeated, resized and re-prepared runs behave like a fresh run",
"Whatever sequence of preparations, input resizes, input reallocation and evaluations a node has gone through, each evaluation's output equals that of a freshly initialised node with the same shapes and data. Two nodes never influence one another.",
["histories","inputs"],"all histories of prepare/resize/reallocate/eval up to a small length, all data",
"Tests evaluate every model once; caches kept across evaluations are never invalidated in them.",
[K+"bconv2d.cc",K+"bmaxpool.cc",K+"quantization.cc",C+"indirect_bgemm/kernel.h"],"one-time setup, cached kernel and indirection buffer in the node's state",
state=[{"name":"op state","meaning":"fused multipliers, padding cache and indirect kernel cached between evaluations"}],observe="outputs of successive evaluations")
p("P14","Operator options survive the converter-to-runtime round trip",
"The options of binary convolution and binary max pooling written by the converter are read back by the runtime operator, and by the flatbuffer importer, with the same strides, dilations, padding, pad value, channel count, filter size and fused activation. A binary convolution with any of its options missing, or a binary max pooling with a filter or stride size missing, fails at preparation instead of running with defaults.",
["inputs","programs"],"all option values, every subset of missing options",
"End-to-end tests convert a few models; a swapped height/width pair or enum mapping shows only for asymmetric options.",
[M+"ir/lce_ops.cc",T+"translate_tflite.cc",K+"bconv2d.cc",K+"bmaxpool.cc",K+"utils.h"],"custom option serialisation, Init parsing and importer",observe="operator parameters after Init")
p("P15","Operator registration exposes every op and selects the requested kernel",
"Registering the operators with a resolver registers exactly the quantize, dequantize, binary convolution and binary max-pool custom operators under the names the converter emits, each bound to its own implementation. The binary convolution kernel is the reference one if and only if requested, otherwise the indirect one if and only if requested, and otherwise the default optimised kernel.",
["configurations"],"all flag combinations",
"Nothing checks which kernel was bound: all of them compute the same values.",
[K+"lce_ops_register.h",K+"bconv2d.cc",K+"bmaxpool.cc",K+"quantization.cc",M+"ir/lce_ops.td"],"registration function",observe="resolver contents")
p("P16","Binary matrix multiply is exact for any tile, thread split and packing",
"The binary matrix multiplication writes, for each row and column, the transformed sum of xor-popcounts of the corresponding operand rows, regardless of how the destination is split into blocks among threads and of the packing layout; it writes nothing outside the assigned block. Packing operands preserves every word and pads with zeros only.",
["inputs","schedules"],"all operand words, all small matrix sizes, all splits of the destination into blocks",
"Threading splits depend on machine and size; tests run with whatever split the library chose.",
[C+"bgemm/bgemm.h",C+"bgemm/kernels.h",C+"bgemm/ruy_pack.h",C+"bgemm/ruy_trmul_params.h",C+"bgemm/kernels_common.h"],"kernel block loops and packing routines",observe="destination matrix")
p("P17","Fixing the batch size changes dynamic leading input dimensions only",
"Fixing the batch size replaces the leading dimension by one in exactly those inputs whose leading dimension is dynamic, identically in the function signature and in the argument values. Everything else is unchanged: static batch sizes, every other dimension (dynamic or not), element types, results, attributes, and scalar, unranked or non-tensor arguments.",
["inputs","programs"],"all ranks, dimensions, element types and numbers of arguments",
"The one test that runs checks one function with two arguments.",
[T+"set_batch_size.cc"],"the batch-size transformation",observe="function signature after the pass")
p("P18","Padding is fused into a convolution only when the result is unchanged",
"An explicit pad in front of a convolution or depthwise convolution (zeros), or of a convolution that is converted to a binary one (ones), is folded into SAME padding only if the fused operation reads the same padded window at every output position and has the same output size. In every other geometry the explicit pad is kept.",
["inputs","programs"],"all image sizes, filter sizes, strides, dilations and pad amounts",
"Lit tests use a couple of geometries with stride one.",
[T+"padding.h",T+"fuse_padding.cc",T+"fuse_padding.td",T+"prepare_tf.cc"],"the padding-compatibility predicates",observe="whether the pattern applies")
p("P19","Only truly binary filters are binarised, with exact per-channel scales",
"A float filter is treated as binary only if all weights of each output channel are +s or -s for one nonzero scale s (up to the documented relative tolerance of 0.5 %), the extracted scale is that channel's s, and the binary filter has the sign of every weight. Grouped convolutions are only binarised if channels split into equal groups of whole 32-bit words, and anything else is left as a float convolution.",
["inputs","programs"],"all weight values and filter shapes",
"Tests use filters of all ones; near-binary filters, zero or mixed-scale channels are not tried.",
[T+"prepare_tf.cc",T+"prepare_patterns_common.td"],"binary filter detection, scale extraction and group checks",observe="predicate result and extracted constants")
p("P20","Every conversion rewrite preserves the model's function",
"Each rewrite the converter applies (recognising sign/binary convolutions, fusing activations, multipliers, biases and paddings, bitpacking weights and activations, moving quantization, legalising) replaces a subgraph by one that computes the same outputs for all inputs for which its guard conditions allow it to fire. Fused activation functions, strides, dilations, paddings, pad values and per-channel constants are carried over.",
["programs","inputs"],"all operand values and all attribute values admitted by the patterns' constraints",
"Each lit test pins one syntactic instance; attribute combinations the guards should exclude are not tried.",
[T+"prepare_patterns_common.td",T+"optimize_patterns_common.td",T+"optimize_patterns_target_arm.td",T+"bitpack_activations_patterns.td",T+"bitpack_weights_patterns.td",T+"quantize_patterns.td",T+"op_removal_patterns.td",T+"fuse_padding.td",T+"legalize_tflite.cc"],"declarative rewrite patterns",observe="result graph of each pattern")
p("P21","Quantising detection post-processing keeps the operation's meaning",
"A TFLite detection post-processing custom operation whose three inputs are all dequantized tensors (the scores from int8) is replaced by one that reads the quantized tensors directly, with the same custom options and output shapes; its scores output is then quantized with the scores input's own scale and zero point and dequantized for the original consumers, and every other consumer of the other outputs still sees the right output. Any other custom operation, and one with an input that is not dequantized or with scores of another quantized type, is left unchanged.",
["inputs","programs"],"all attribute values and missing-attribute subsets, numbers of arguments and results",
"One lit example.",
[T+"detection_postprocess.cc"],"attribute extraction, validation and composite rewrite",observe="emitted custom options")
p("P22","Changing the input/output data type keeps the model otherwise intact",
"Requesting int8 input or output on a converted model removes exactly the boundary quantize operator of each requested input and dequantize operator of each requested output, rewires model inputs, outputs and signatures to the tensor on the other side, and leaves all remaining operators, their order and the tensors they reference valid and semantically unchanged; a dequantize operator whose result is still used elsewhere is kept, and an input that anything else reads cannot be changed (an error). Models whose boundary operators do not convert between float32 and int8 are rejected with an error, and float requests return the model unchanged.",
["inputs","programs"],"all small model graphs: positions of boundary operators, sharing of tensors, several inputs and outputs, signatures",
"Tests convert a single-input, single-output toy model.",
[M+"python/util.py"],"flatbuffer object editing helpers",observe="edited model object")
p("P23","Stripping trailing dequantize operators preserves the remaining network",
"Removing binary-dequantize operators at the outputs (also behind a trailing dequantize operator) makes the outputs the packed tensors those operators read, removes only these operators and only when nothing else uses their result, keeps every other operator and tensor reference consistent, and updates the signature of the affected subgraph only.",
["inputs","programs"],"all small model graphs with any number of outputs, subgraphs and shared tensors",
"Not covered by any unit test beyond one converted model.",
[M+"python/util.py"],"strip-dequantize helper",observe="edited model object")
p("P24","Python prediction feeds and collects every sample in order",
"Predicting on an array, list or generator of one or more samples runs the model once per batch-size-one sample in order, maps inputs and outputs to the right tensors, and returns the stacked outputs with one row per sample, for any number of samples, inputs and outputs. Input counts that do not match the model and unsupported containers raise an error, and the interpreter options (threads, reference kernels, indirect BGEMM, XNNPACK) reach the native interpreter unchanged.",
["inputs","programs"],"all numbers of samples, inputs and outputs, arrays, nested lists and generators",
"Tests use one model with fixed sample count.",
["larq_compute_engine/tflite/python/interpreter_base.py","larq_compute_engine/tflite/python/interpreter.py"],"data generator and predict loop",observe="calls into the wrapped interpreter and returned arrays")
p("P25","Conversion options are validated and reach the converter unchanged",
"The Python conversion entry points reject unsupported targets, data types and model objects with an error before converting, and otherwise pass target, data types, default quantization ranges, quantization switches and shapes through to the native converter with exactly the meaning documented. The returned model has the requested input and output types; invalid or unsupported combinations raise an error and are never silently ignored.",
["inputs","configurations"],"all option values and combinations",
"Tests use a few keyword combinations with a mocked backend.",
[M+"python/converter.py",M+"python/util.py",M+"tf_tfl_passes.cc",M+"python/common.cc",M+"python/graphdef_tfl_flatbuffer.cc",M+"python/saved_model_tfl_flatbuffer.cc",M+"python/pybind_export.cc",M+"tf_to_tfl_flatbuffer.cc"],"argument validation and routing",observe="arguments received by the native converter")
p("P26","Native interpreter tensor exchange checks type, rank and shape",
"Copying an array into a model input succeeds only if its element type, rank, and every dimension match the tensor, in which case exactly the tensor's bytes are copied; otherwise an error is raised and the tensor is left untouched. An object that is not an array, or a wrong number of arrays, raises an error before the model runs. Reading an output gives an array with the tensor's type, shape and bytes, independent of later runs; types, shapes, scales and zero points are reported as the tensors have them.",
["inputs","configurations"],"all types, ranks, dimensions and byte contents",
"Only a matching happy path is tested.",
["larq_compute_engine/tflite/python/interpreter_wrapper_utils.h","larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc"],"array/tensor conversion helpers",observe="input tensor bytes, returned arrays")
p("P27","Hand-written Arm kernels compute the same values as the portable ones",
"On 32- and 64-bit Arm the assembly versions of packing, binary matrix multiplication and indirect multiplication compute exactly the values of the portable implementations for all inputs.",
["inputs","configurations"],"all operand words and block sizes",
"They only run on Arm hardware.",
[C+"bitpacking/bitpack_aarch64.h",C+"bgemm/kernels_aarch64.h",C+"bgemm/kernels_arm32.h",C+"indirect_bgemm/kernel_8x4x1_aarch64.h",C+"indirect_bgemm/kernel_8x4x2_aarch64.h",C+"indirect_bgemm/kernel_8x4x4_aarch64.h"],"inline assembly kernels",observe="destination buffers")
p("P28","A converted model computes what the original model computes",
"Taking a TensorFlow model with binary convolutions through the whole conversion pipeline, for either target, and running the result with the Larq operators gives for every input the values the original graph defines (with default ranges: the values of the graph with a quantization after every operation), whatever activations, scales, biases, paddings and poolings follow a convolution and however its intermediate results are used. Every convolution of signs with a binary filter that the target supports becomes a binary operator with packed weights, no operation is left that cannot be exported, and argument and result types keep their shapes with the batch size fixed to one.",
["inputs","programs","configurations"],"all inputs, all graphs of one or two binary convolutions with what surrounds them, both targets",
"The end-to-end tests convert a handful of models and compare a few random inputs; they need TensorFlow's native build and do not run here.",
[M+"tf_tfl_passes.cc",T+"prepare_tf.cc",T+"optimize.cc",T+"bitpack_weights.cc",T+"op_removal.cc",T+"quantize.cc",T+"legalize_tflite.cc",T+"fuse_padding.cc",C+"bconv2d/optimized_bgemm.h"],"conversion pipeline and the operators it emits",observe="values computed by the converted graph")
p("P29","The benchmark tool measures the kernel its options ask for",
"Running the LCE benchmark tool registers the custom operators with the binary convolution kernel that --use_reference_bconv and --use_indirect_bgemm select (the default optimised kernel when neither is given), whatever other options accompany them and in whatever order; the options of TensorFlow Lite's own tool are still accepted with their meaning, unknown options and malformed values are an error and nothing is measured, and the exit code is zero exactly when the benchmark ran.",
["inputs","configurations"],"all command lines",
"The tool has no tests.",
["larq_compute_engine/tflite/benchmark/lce_benchmark_tflite_model.cc","larq_compute_engine/tflite/benchmark/lce_benchmark_tflite_model.h","larq_compute_engine/tflite/benchmark/lce_benchmark_main.cc"],"LceBenchmarkTfLiteModel, RegisterSelectedOps, Main",observe="registered kernels, parameters, exit code")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
