LB='tflite/benchmark/lce_benchmark_tflite_model.cc'
S=[
dict(id="bench-threads-indirect",prop="P29",kind="kernel",h="p29_benchmark.cc",runs=3000,file=LB,old='  use_indirect_bgemm = params_.Get<bool>("use_indirect_bgemm");',new='  // The indirect BGEMM kernel is single-threaded.\n  use_indirect_bgemm = params_.Get<bool>("use_indirect_bgemm") &&\n                       params_.Get<int32_t>("num_threads") <= 1;',needs="--use_indirect_bgemm=true together with --num_threads=2 or more",breaks="The tool silently measures the default kernel although it reports that the indirect one was asked for"),
dict(id="narrow-accumulator",prop="P08",kind="kernel",h="p08_params.cc",defs="-DKERNEL=0",runs=6000,file='core/bconv2d/reference.h',old='AccumScalar accum = AccumScalar(0);',new='std::int16_t accum = 0;',needs="a filter of more than 32767 elements per output channel with more than 32767 mismatching signs",breaks="The reference kernel's accumulator wraps around for very deep filters"),
dict(id="tensor-cache-index",prop="P26",kind="kernel",h="p26_exchange.cc",slim=False,runs=3000,file='tflite/python/interpreter_wrapper_utils.h',old='std::map<int, TfLiteTensor*> tensors;',new='std::map<std::int16_t, TfLiteTensor*> tensors;',needs="a model with two input or output tensors whose indices agree in their low 16 bits",breaks="Arrays are copied into, and results read from, the wrong tensor"),
]
