"""Registry: property -> units, bounds and notes."""
from driver import Unit
import pycheck
TFL = "TFLite, ruy and flatbuffers are replaced by small semantic stand-ins (stubs/); the platform is little-endian x86-64 without assembly kernels."
TECH = "symbolic execution of the compiled LLVM IR of the real sources; assertions decided over symbolic inputs by rewriting to linear/bit-vector form and Z3 (QF_BV/QF_BVFP), counterexamples replayed natively"
MLIR = "MLIR itself is replaced by a small semantic stand-in on LLVM's own ADT headers (stubs/mlir_stub.h); operation classes and pattern classes are generated from the repository's .td files at check time (lib/drr.py)."
C = {}
def add(pid, units, bounds, notes="", quick_s=300, thorough_s=700, level="model_checking", fn=None, technique=None): C[pid] = dict(units=units, bounds=bounds, notes=notes, quick_s=quick_s, thorough_s=thorough_s, level=level, fn=fn, technique=technique)
add("P01", [Unit("quantize", "p01_quantize.cc", need_covers=["quantized", "partial word"])],
    "channels 1..132 quick / 1..330 thorough with 2 rows, 15 values up to 160 with up to 4 rows, 511 and 1030 channels, ranks 1,2,4 and 1-sized leading dimensions, empty tensors; every value of every element, every int32 zero point", TFL)
add("P02", [Unit("dequantize", "p02_dequantize.cc", need_covers=["dequantized", "partial word"])],
    "channels 1..132 quick / 1..330 thorough with 2 rows, 10 values up to 100 with up to 4 rows, 511 and 1030 channels, ranks 1,2,4 and 1-sized leading dimensions, empty; all packed words, all int8 zero points, 8 quick / 15 thorough scales", TFL)
CONV_B = "input up to 6x6 (7x3), batch<=2, filter up to 4x3, strides 1..3, dilations 1..2, channels in up to 192, out up to 65, groups up to 4, 4 activations, 3 output types; 22 larger geometries (images up to 17x3, filters up to 7x7, strides and dilations up to 5, batch up to 5, up to 1056 input and 160 output channels, 8 groups); every value of every input and filter bit and of every threshold; multipliers/biases are fixed distinct dyadic constants (arbitrary ones are P08)"
add("P04", [Unit("ref", "conv.cc", ["KERNEL=0"], need_covers=["evaluated"]), Unit("ref_zero", "conv.cc", ["KERNEL=0", "ZEROPAD=1"], need_covers=["evaluated"])], CONV_B, TFL)
add("P05", [Unit("bgemm", "conv.cc", ["KERNEL=1"], need_covers=["evaluated"])], CONV_B, TFL)
add("P06", [Unit("indirect", "conv.cc", ["KERNEL=2"], need_covers=["evaluated"])], CONV_B, TFL)
add("P07", [Unit("bgemm_zero", "conv.cc", ["KERNEL=1", "ZEROPAD=1"], need_covers=["evaluated"]), Unit("indirect_zero", "conv.cc", ["KERNEL=2", "ZEROPAD=1"], need_covers=["evaluated"])], CONV_B, TFL)
add("P08", [Unit(n, "p08_transform.cc", ["KERNEL=%d" % k], need_covers=["evaluated", "clamped"]) for k, n in enumerate(["ref", "bgemm", "indirect"])] + [Unit("any_" + n, "p08_params.cc", ["KERNEL=%d" % k], need_covers=["float", "int8"]) for k, n in enumerate(["ref", "bgemm", "indirect"])],
    "multipliers m/8 with |m|<=1000 (fixed data) or <=20/7 (symbolic data), biases b/16 with |b|<=8|m|max, int8 zero point -128..127, output scales 0.25..2, 4 activations, channels in 1..64, out up to 9, filters up to 2x2, groups up to 2; float: every input/filter bit symbolic; int8: fixed data patterns (all inputs symbolic for <=8 bits in thorough).  Units any_*: one multiplier or one bias of a channel is any float of magnitude up to 1e20, the other parameters, output scales (also non-dyadic ones and 1e-8) and zero points from tables, depths 1..576 quick / 2304 thorough, operands from fixed patterns", TFL + "  Where multipliers and biases are exactly representable dyadic values the documented formula has one exact value; for arbitrary floats the output must lie within a small multiple (2^-21) of the magnitudes involved, decided by interval branch and bound with affine forms that account for every rounding.")
add("P10", [Unit("maxpool", "p10_maxpool.cc", need_covers=["pooled", "window overlaps the border", "window larger than the image"])],
    "images up to 5x5 quick / 7x7 thorough, windows up to 3x3 / 4x4, strides 1..3 / 4, SAME and VALID, up to 3 packed words and batch 2, 12 larger configurations (images up to 16x16, windows up to 6x6, strides up to 6, 9 words, batch 5); every value of every input bit", TFL)
add("P12", [Unit("conv_" + n, "p12_prepare_conv.cc", ["KERNEL=%d" % k], need_covers=["accepted: types", "accepted: parameters", "accepted: channels", "accepted: geometry", "rejected"]) for k, n in enumerate(["ref", "bgemm", "indirect"])] + [Unit("other", "p12_prepare_other.cc", need_covers=["accepted: quantize", "accepted: dequantize", "accepted: max pool", "rejected"])],
    "one (thorough: two) simultaneous deviations in ranks, types, input count, options, quantization, allocation; symbolic channels 1..130 (200), filter words 0..5, input words 0..5, channels out 1..12, parameter lengths 0..12, images 1..9, filters 1..4, pad value -1..2, strides 1..3, dilations 1..3; quantize/dequantize ranks 0..5 with dimensions 0..70; max pool filters 0..4, strides 0..2", TFL)
add("P13", [Unit("conv_" + n, "p13_history.cc", ["KERNEL=%d" % k], need_covers=["history", "input resized", "input moved", "prepared again"]) for k, n in enumerate(["ref", "bgemm", "indirect"])] + [Unit("other", "p13_history.cc", ["OTHER"], need_covers=["pool history", "quantize history"])],
    "all sequences of 2 (thorough 3) events from {new data, prepare again, move input, resize to one of 4 shapes, failed prepare}, 7 convolution configurations, optionally a second interleaved node; every input, filter and threshold value", TFL)
add("P15", [Unit("noruy", "p15_register.cc", need_covers=["reference", "indirect", "java resolver"]), Unit("ruy", "p15_register.cc", ["TFLITE_WITH_RUY"], need_covers=["reference", "indirect", "default optimised", "java resolver"])],
    "RegisterLCECustomOps with both flags symbolic and with default arguments, and the Java resolver, built with and without TFLITE_WITH_RUY; every registered operator is run on all values of one small input, the convolution kernel is told by what it accepts", TFL, thorough_s=120)
add("P16", [Unit("tiles", "p16_bgemm.cc", ["LCE_RUY_OPT_FAT_KERNEL=%d" % k], need_covers=["product", "packed", "packed with padding", "cached operand reused"]) for k in (0,)] + [Unit("tiles_fat", "p16_bgemm.cc", ["LCE_RUY_OPT_FAT_KERNEL=1"], need_covers=["product", "single block", "packed", "packed with padding"])],
    "all block splits and orders of destinations up to 9x9 (kernel tile 4x4 portable), depths up to 40 words, bitpacked destinations up to 70 (130) rows, prepacked and cached operands; every value of every operand word", TFL + " ruy's own scheduling is replaced by all splits into blocks, in both orders.")
M = ["LCE_MEMORY_ONLY"]
add("P11", [Unit(n, s, M + d, ub=True, need_covers=nc) for n, s, d, nc in [
    ("quantize", "p01_quantize.cc", [], ["quantized"]), ("dequantize", "p02_dequantize.cc", [], ["dequantized"]), ("maxpool", "p10_maxpool.cc", [], ["pooled"]),
    ("conv_ref", "conv.cc", ["KERNEL=0"], ["evaluated"]), ("conv_ref_zero", "conv.cc", ["KERNEL=0", "ZEROPAD=1"], ["evaluated"]), ("conv_bgemm", "conv.cc", ["KERNEL=1"], ["evaluated"]), ("conv_bgemm_zero", "conv.cc", ["KERNEL=1", "ZEROPAD=1"], ["evaluated"]), ("conv_indirect", "conv.cc", ["KERNEL=2"], ["evaluated"]), ("conv_indirect_zero", "conv.cc", ["KERNEL=2", "ZEROPAD=1"], ["evaluated"]),
    ("transform", "p08_transform.cc", ["KERNEL=0"], ["evaluated"]), ("history_indirect", "p13_history.cc", ["KERNEL=2"], ["history"]), ("history_bgemm", "p13_history.cc", ["KERNEL=1"], ["history"])]]
    + [Unit("prepare_" + n, s, M + d, ub=True, need_covers=["rejected"]) for n, s, d in [("other", "p12_prepare_other.cc", []), ("indirect", "p12_prepare_conv.cc", ["KERNEL=2"]), ("bgemm", "p12_prepare_conv.cc", ["KERNEL=1"])]],
    "the input spaces of P01, P02, P04-P08, P10, P12 and P13; every load and store is checked against exact object bounds (inputs with 16 documented trailing bytes), liveness, write protection and initialisation; signed overflow, shifts, division by zero, float-to-integer range and array bounds are compiled in as traps", TFL, quick_s=600)
add("P17", [Unit("setbatchsize", "p17_batch.cc", mlir=True, need_covers=["batched input", "encoding", "unchanged"])],
    "functions of up to 2 (thorough 3) inputs and, in a wide mode, up to 6 (7) inputs and ranks to 8, of 7 type kinds (ranked, encoded, unranked, scalar, vector, memref, opaque), ranks 0..4, every value of every dimension, dynamic or static, 3 element types", MLIR)
add("P18", [Unit("fuse", "p18_padding.cc", mlir=True, need_covers=["pad fused", "pad kept"]), Unit("prepare", "p18_padding.cc", ["PREPARE"], mlir=True, need_covers=["pad fused", "pad kept"])],
    "both passes that absorb pads (FusePadding on Conv2D/DepthwiseConv2D behind Pad/PadV2, PrepareLCE on binary Conv2D behind PadV2); every input size 1..12 (24), every padding 0..8 before and after, filter 1..7 (prepare: 1..3/5), 5 (8) combinations of stride 1..4 and dilation 1..3 per dimension, one deviation (pad value, channel/batch padding, pad shape, SAME, second use, layout)", MLIR)
add("P20", [Unit("prepare", "p20_prepare.cc", mlir=True, need_covers=["rewritten", "left", "removed"]), Unit("compare", "p20_optimize.cc", ["PART=0"], mlir=True, need_covers=["rewritten", "left"]), Unit("fusion", "p20_optimize.cc", ["PART=1"], mlir=True, need_covers=["rewritten", "left"]), Unit("pool", "p20_optimize.cc", ["PART=2"], mlir=True, need_covers=["rewritten", "left"]), Unit("quantize", "p20_quantize.cc", mlir=True, need_covers=["rewritten", "left", "packed"]), Unit("conv", "p20_conv.cc", mlir=True, need_covers=["rewritten", "left"])],
    "PrepareLCE sign/select/removal patterns, its binary-convolution patterns carried through OptimizeLCE and BitpackWeights, OptimizeLCE comparison, fusion and pooling patterns, LCEQuantize patterns and filter packing (symbolic signs): concrete small graphs (ranks 0..4, dims 1..4 per variant), every pattern constant, quantisation scale and zero point and attribute in a table of matching and deviating values, both targets, extra uses; every value of every function argument (finite floats)", MLIR + " Fusion constants are dyadic, so every fusion is exact and an unequal result is a wrong rewrite, not rounding; the rounding of general constants is not examined.", level="translation_validation")
add("P28", [Unit("pipeline", "p28_pipeline.cc", mlir=True, need_covers=["converted", "left", "several", "quantized"])],
    "the whole pass pipeline of tf_tfl_passes.cc, both targets, on TensorFlow graphs of one or two binary convolutions (1..5 input and 2..3 output channels, 4 (6) filter sizes, 5 strides and dilations, VALID, SAME and explicit paddings of ones or zeros, three ways to write the sign, per-channel scales and one non-binary filter) followed by 15 sequences of activations, multiplications, additions, divisions, identities and poolings, with extra uses of intermediate values and with int8 default ranges; every sign of every input element; the converted graph is run by the real operators of all three kernels and compared with the meaning of the original graph", MLIR + " " + TFL + " The passes that belong to TensorFlow (canonicalisation, shape inference, legalisation, activation fusing, quantization with default ranges) are modelled by their effect on these graphs. Constants are dyadic so that every result is exact. The two recorded findings (P07, P18) are outside.", level="translation_validation", quick_s=500)
add("P03", [Unit("fold", "p03_fold.cc", mlir=True, need_covers=["folded quantize", "folded dequantize", "not folded", "folded empty"])],
    "constants of ranks 1..4 (5) including empty ones, channels 1..70 quick / 129 thorough; quantize of float, int8, bool, int32 and double constants, dequantize to float, int8 (14/22 scales, every zero point), bool, uint8, 16-bit and int32; every value of every element, also NaN and negative zero; the reference is the run-time operator itself, executed on the same constant", MLIR + " " + TFL)
add("P14", [Unit("options", "p14_options.cc", mlir=True, need_covers=["written", "imported"])] + [Unit("runtime_" + n, "p14_runtime.cc", ["KERNEL=%d" % k], mlir=True, need_covers=["configured", "refused"]) for k, n in enumerate(["ref", "bgemm", "indirect"])] + [Unit("pool", "p14_runtime.cc", ["POOL"], mlir=True, need_covers=["configured", "refused"])],
    "every combination of paddings and activations the operators can carry, symbolic strides, dilations, channels, pad values and filter sizes; export (buildCustomOption), re-import (TranslateToLCE) and the kernels' own Init reading the exported options; each option removed in turn", MLIR + " " + TFL + " The flexbuffer encoding is modelled as an ordered key/value map, so its byte format is not examined. Activations TANH and SIGN_BIT are outside.")
add("P21", [Unit("detection", "p21_detection.cc", mlir=True, need_covers=["moved", "left"])],
    "1 or 2 detection operations with three inputs of ranks 3,3,2 and four outputs of ranks 3,2,2,1; every dimension (dynamic or 0..100000), every dyadic scale k*2^-16 (k<=2^20) and int8 zero point of the three inputs symbolic; 4 option strings, 3 result orders, extra consumers; deviations in code name, number of inputs and outputs, non-dequantized inputs, output types and quantized types", MLIR, thorough_s=120)
add("P09", [Unit("thresholds", "p09_thresholds.cc", mlir=True, need_covers=["thresholds"])],
    "7 (12) filter shapes (depth 1..297, thorough up to 2304), 4 activations, VALID and one-padded SAME; with one of multiplier and bias taken from a table of 20 multipliers / 14 biases (both signs, zeros, denormal, huge) and the other an arbitrary finite float up to 3e38: every accumulator 0..depth (depths above 40: 25 values) compared with the exact sign in double precision, exempting values within depth*|multiplier|*2^-21 of a tie, but not the tie itself", MLIR + " Single-variable floating-point queries are decided by the engine's own branch-and-bound interval solver (engine/icp.h), everything else by Z3.", thorough_s=300)
add("P19", [Unit("filter", "p19_filter.cc", mlir=True, need_covers=["binarised", "left", "groups accepted", "groups rejected"])],
    "5 (7) filter shapes from 1x1x1x1 to 3x3x1x2 and 1x1x33x2 with 3 (6) scale tables and up to four sign patterns; one weight (every position) or one whole channel's scale is an arbitrary 32-bit float (NaN, infinities, zeros and denormals included); groups: 8 filter depths from 1 to 96 against every input depth 1..400; both targets, with and without an explicit one-padding in front", MLIR + " Single-variable floating-point queries are decided by the engine's own branch-and-bound interval solver (engine/icp.h).", thorough_s=200)
PYT = "symbolic execution of the real Python sources in CPython with Z3-backed proxy values (path forking by re-execution, assertions as SMT queries over each path), counterexamples replayed on the real module with the real libraries"
PYN = "While executed symbolically, TensorFlow, flatbuffers and the generated schema module are replaced by small stand-ins; sampled paths are re-run with the real libraries and compared."
def py(pid, mods, bounds, notes=PYN, quick_s=200, thorough_s=700): add(pid, mods, bounds, notes, quick_s, thorough_s, "model_checking", pycheck.run, PYT)
py("P22", ["p22_io"], "models of 1..3 operators (one of them with two operands), 3..6 tensors, 1..2 inputs and outputs: operator codes (5 code tables), wiring, tensor numbering, types from {float32, int32, int8, unsupported}, repeated outputs and optional operands all symbolic (three-operator models: 6 operator sequences); all four requests; no signature, one signature, permuted signature, a second subgraph with its own signature")
py("P23", ["p23_strip"], "models of one or two subgraphs with 1..3 operators, 3..5 tensors, 1..2 outputs: operator codes (5 code tables), wiring, numbering and types symbolic as in P22; no signature, one, or one per subgraph in either order")
py("P24", ["p24_predict"], "1..3 (thorough 1..5) samples of models with 1..3 inputs and 1..3 outputs of rank 0..2, given as an array, a list of arrays, iterators of arrays, lists or tuples, and iterator objects; every element and the verbosity level symbolic integers; a model with one input more than is fed; 6 kinds of unsupported containers; every number of threads and combination of the three kernel switches")
py("P25", ["p25_convert", Unit("native", "p25_native.cc", mlir=True, need_covers=["saved model", "graph", "default ranges", "error"])], "convert_keras_model, convert_saved_model and their helpers: target, default ranges, input and output types (every data type code), policy, range values symbolic, plus options of the wrong kind; graphs with up to three nodes and two functions with symbolic operator names; input shapes of up to two inputs, both TensorFlow conversion paths succeeding and failing, Keras / functional / non-model objects, input shapes with and without batch dimension, symbolic range values; native half (common.cc, graphdef/saved_model entry points, pass pipeline, exporter driver): targets of 0..7 symbolic characters, symbolic finite ranges in 5 shapes of Python objects, symbolic dimensions and names, each of 11 steps failing in turn, 0..2 entry functions, control-flow operators, called through the functions bound to Python", notes=PYN + " The native half runs on stand-ins for MLIR pass managers and the TensorFlow importers (stubs/convert_stub.h): which passes run, in which order and with which arguments is examined, not what TensorFlow's own passes do.", quick_s=400)
add("P26", [Unit("exchange", "p26_exchange.cc", need_covers=["copied", "error", "outputs", "properties", "options", "several inputs"])],
    "tensors of 6 shapes (rank 0..3) and 4 (7) types against arrays of rank 0..3 with every dimension 0..4 and every numpy type code, C-ordered or not, tensor byte counts off by one; up to 3 inputs and 4 arrays; up to 3 outputs of 7 types; every tensor type code and dimension for the properties, up to 3 channels of arbitrary scales and int32 zero points; tensor indices beyond 16 bits; every element byte symbolic; every constructor switch and failing TFLite call", TFL + " pybind11, numpy and Python objects are replaced by small semantic stand-ins (stubs/pybind_stub.h); a thrown exception ends the path after its obligations are checked, so unwinding is not examined.")
add("P29", [Unit("benchmark", "p29_benchmark.cc", need_covers=["default", "reference", "indirect", "wrong arguments"])],
    "command lines of 0..3 (thorough 0..4) arguments in every order, repetitions included: both kernel options, TensorFlow Lite's verbose, num_threads and graph, plus values and options that do not exist; every value symbolic and spelt as a digit or a word; the run itself succeeding or failing; a second run without options", TFL + " TensorFlow Lite's benchmark model, parameters and flag parser are a stand-in (stubs/benchmark_stub.h).", thorough_s=200)
