// P29: the benchmark tool measures the kernels its options ask for.
#include "lce.h"
#include "benchmark_stub.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
static TfLiteRegistration kReg[6]; namespace compute_engine { namespace tflite { TfLiteRegistration* Register_QUANTIZE() { return &kReg[0]; } TfLiteRegistration* Register_DEQUANTIZE() { return &kReg[1]; } TfLiteRegistration* Register_BCONV_2D() { return &kReg[2]; } TfLiteRegistration* Register_BCONV_2D_REF() { return &kReg[3]; } TfLiteRegistration* Register_BCONV_2D_OPT_INDIRECT_BGEMM() { return &kReg[4]; } TfLiteRegistration* Register_BMAXPOOL_2D() { return &kReg[5]; } } }
#include "larq_compute_engine/tflite/benchmark/lce_benchmark_tflite_model.cc"
#define main lce_benchmark_main
#include "larq_compute_engine/tflite/benchmark/lce_benchmark_main.cc"
#undef main
using namespace tflite; using namespace tflite::benchmark;
static bool wantRef = false, wantInd = false, wantVerbose = false; static int wantThreads = -1; static bool graph = false;
static void Ran(void* v) { auto& p = *(BenchmarkParams*)v; MutableOpResolver r; RegisterSelectedOps(&r); lce_assert(r.n == 4, "the custom operators are registered"); const TfLiteRegistration* c = nullptr; for (int i = 0; i < r.n; i++) if (!strcmp(r.entries[i].name, "LceBconv2d")) c = r.entries[i].r;
  const TfLiteRegistration* want = wantRef ? &kReg[3] : wantInd ? &kReg[4] : &kReg[2]; lce_assert(c == want, "the requested binary convolution kernel is measured"); lce_assert(p.Get<int32_t>("num_threads") == wantThreads && p.Get<bool>("verbose") == wantVerbose && p.Get<bool>("use_xnnpack") == false, "TensorFlow Lite's own options keep their meaning"); lce_assert(p.Get<std::string>("graph") == (graph ? "m.tflite" : ""), "TensorFlow Lite's own options keep their meaning"); lce_assert(p.Get<bool>("use_reference_bconv") == wantRef && p.Get<bool>("use_indirect_bgemm") == wantInd, "the options reported are the options used"); lce_cover(wantRef ? "reference" : wantInd ? "indirect" : "default"); lce_observe(wantThreads); }
int harness_main() {
  static const char* const kArgs[] = {"", "--use_reference_bconv=", "--use_indirect_bgemm=", "--verbose=", "--num_threads=", "--graph=m.tflite", "--use_reference_bconv=maybe", "--use_indirect_bgemm=2", "--no_such_option=1"}; static const char* const kN[] = {"first", "second", "third", "fourth"}; int n = (int)lce_choose("arguments", 0, lce_tier() ? 4 : 3), k[4] = {}; for (int i = 0; i < n; i++) k[i] = (int)lce_choose(kN[i], 1, i < 2 ? 8 : 4); int word = (int)lce_choose("spelling", 0, 1); int twice = (int)lce_choose("again", 0, 1); if (twice && (n > 2 || word)) lce_prune();
  lce_go(); char buf[4][48]; char* argv[5]; char prog[] = "lce_benchmark_model"; argv[0] = prog; bool bad = false;
  for (int i = 0; i < n; i++) { int l = (int)strlen(kArgs[k[i]]); memcpy(buf[i], kArgs[k[i]], (size_t)l + 1); argv[i + 1] = buf[i]; bad |= k[i] >= 6; if (k[i] <= 3) { int v = (int)lce_int("value", 0, 1); if (word) { bool on = v != 0; if (on) memcpy(buf[i] + l, "true", 5); else memcpy(buf[i] + l, "false", 6); v = on; } else { buf[i][l] = (char)('0' + v); buf[i][l + 1] = 0; } if (bad) continue; bool t = v != 0; if (k[i] == 1) wantRef = t; else if (k[i] == 2) wantInd = t; else wantVerbose = t; } else if (k[i] == 4) { int v = (int)lce_int("threads", 0, 9); buf[i][l] = (char)('0' + v); buf[i][l + 1] = 0; wantThreads = v; } else if (k[i] == 5) graph = true; }
  bool fail = lce_int("run fails", 0, 1) != 0; lce_bench().status = fail ? kTfLiteError : kTfLiteOk; lce_bench().on_run = Ran; int rc = lce_benchmark_main(n + 1, argv);
  if (bad) { lce_assert(rc != 0 && lce_bench().runs == 0, "wrong arguments are an error and nothing is measured"); lce_cover("wrong arguments"); } else { lce_assert(lce_bench().runs == 1, "the model is measured once"); lce_assert((rc != 0) == fail, "the exit code tells whether the benchmark ran"); lce_assert(lce_bench().logs >= 1, "parameters are logged"); }
  if (twice && !bad) { bool r0 = wantRef, i0 = wantInd; (void)r0; (void)i0; wantRef = wantInd = wantVerbose = graph = false; wantThreads = -1; LceBenchmarkTfLiteModel::DefaultParams(); BenchmarkParams d = LceBenchmarkTfLiteModel::DefaultParams(); lce_assert(!d.Get<bool>("use_reference_bconv") && !d.Get<bool>("use_indirect_bgemm") && d.HasParam("graph"), "by default the optimised kernel is used"); lce_bench().status = kTfLiteOk; lce_assert(lce_benchmark_main(1, argv) == 0, "the tool can run again without options"); }
  return 0; }
