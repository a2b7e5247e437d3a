// Stand-in for TensorFlow Lite's benchmark tool: parameters, flags and the model runner that LCE's tool derives from.
#pragma once
#include "tflite_stub.h"
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <iostream>
void RegisterSelectedOps(::tflite::MutableOpResolver* resolver);
struct LceBench { int runs = 0, logs = 0, status = 0, constructed = 0; void (*on_run)(void*) = nullptr; }; inline LceBench& lce_bench() { static LceBench b; return b; }
namespace tflite {
template <class T> struct LceParamKind; template <> struct LceParamKind<bool> { enum { v = 1 }; }; template <> struct LceParamKind<int32_t> { enum { v = 2 }; }; template <> struct LceParamKind<float> { enum { v = 3 }; }; template <> struct LceParamKind<std::string> { enum { v = 4 }; };
// name=value with the kinds of values the tools take
class Flag { public: enum FlagType { kPositional = 0, kRequired, kOptional }; std::string name, usage; FlagType type = kOptional; std::function<bool(const std::string&)> set;
  Flag() = default; Flag(const char* n, const std::function<bool(const std::string&)>& f, const std::string& u, FlagType t = kOptional) : name(n), usage(u), type(t), set(f) {} };
namespace benchmark {
class BenchmarkParam { public: int kind = 0; bool b = false; int32_t i = 0; float f = 0; std::string s;
  template <class T> static std::unique_ptr<BenchmarkParam> Create(const T& v) { auto p = std::make_unique<BenchmarkParam>(); p->kind = LceParamKind<T>::v; p->store(v); return p; }
  void store(bool v) { b = v; } void store(int32_t v) { i = v; } void store(float v) { f = v; } void store(const std::string& v) { s = v; }
  void load(bool* v) const { *v = b; } void load(int32_t* v) const { *v = i; } void load(float* v) const { *v = f; } void load(std::string* v) const { *v = s; } std::unique_ptr<BenchmarkParam> Clone() const { return std::make_unique<BenchmarkParam>(*this); } };
class BenchmarkParams { public: std::vector<std::pair<std::string, std::unique_ptr<BenchmarkParam>>> p; BenchmarkParams() = default; BenchmarkParams(BenchmarkParams&&) = default; BenchmarkParams& operator=(BenchmarkParams&&) = default; BenchmarkParams(const BenchmarkParams& o) { Set(o); } BenchmarkParams& operator=(const BenchmarkParams& o) { p.clear(); Set(o); return *this; }
  BenchmarkParam* find(const std::string& n) const { for (auto& e : p) if (e.first == n) return e.second.get(); return nullptr; }
  void AddParam(const std::string& n, std::unique_ptr<BenchmarkParam> v) { for (auto& e : p) if (e.first == n) { e.second = std::move(v); return; } p.emplace_back(n, std::move(v)); } void RemoveParam(const std::string& n) { for (auto i = p.begin(); i != p.end(); ++i) if (i->first == n) { p.erase(i); return; } }
  bool HasParam(const std::string& n) const { return find(n) != nullptr; } bool Empty() const { return p.empty(); } void Set(const BenchmarkParams& o) { for (auto& e : o.p) AddParam(e.first, e.second->Clone()); } void Merge(const BenchmarkParams& o, bool over = false) { for (auto& e : o.p) if (over || !HasParam(e.first)) AddParam(e.first, e.second->Clone()); } void Clear() { p.clear(); }
  template <class T> T Get(const std::string& n) const { BenchmarkParam* q = find(n); lce_assert(q && q->kind == LceParamKind<T>::v, "parameters are read by their name and type"); T v{}; if (q) q->load(&v); return v; }
  template <class T> void Set(const std::string& n, const T& v, int = 0) { BenchmarkParam* q = find(n); lce_assert(q && q->kind == LceParamKind<T>::v, "parameters are set by their name and type"); if (q) q->store(v); } };
inline bool lce_parse(const std::string& s, bool* v) { if (s.size() == 1 && (s[0] == '0' || s[0] == '1')) { *v = s[0] == '1'; return true; } if (s == "true") { *v = true; return true; } if (s == "false") { *v = false; return true; } return false; }
inline bool lce_parse(const std::string& s, int32_t* v) { int r = 0; for (char c : s) { if (c < '0' || c > '9') return false; r = r * 10 + (c - '0'); } *v = r; return !s.empty(); }
inline bool lce_parse(const std::string&, float*) { return false; } inline bool lce_parse(const std::string& s, std::string* v) { *v = s; return true; }
template <class T> Flag CreateFlag(const char* name, BenchmarkParams* params, const std::string& usage, Flag::FlagType type = Flag::kOptional) { std::string n(name); params->Get<T>(n); return Flag(name, [params, n](const std::string& s) { T v{}; if (!lce_parse(s, &v)) return false; params->Set<T>(n, v); return true; }, usage, type); }
class BenchmarkListener {};
class BenchmarkModel { protected: BenchmarkParams params_; public: explicit BenchmarkModel(BenchmarkParams p) : params_(std::move(p)) { lce_bench().constructed++; } virtual ~BenchmarkModel() {}
  static BenchmarkParams DefaultParams() { BenchmarkParams p; p.AddParam("num_threads", BenchmarkParam::Create<int32_t>(-1)); p.AddParam("verbose", BenchmarkParam::Create<bool>(false)); return p; }
  virtual std::vector<Flag> GetFlags() { return {CreateFlag<int32_t>("num_threads", &params_, "number of threads"), CreateFlag<bool>("verbose", &params_, "report all parameters")}; } virtual void LogParams() { lce_bench().logs++; }
  virtual TfLiteStatus Run() { LogParams(); lce_bench().runs++; RegisterAndRun(); return (TfLiteStatus)lce_bench().status; } TfLiteStatus Run(int argc, char** argv) { if (ParseFlags(argc, argv) != kTfLiteOk) return kTfLiteError; return Run(); } BenchmarkParams* mutable_params() { return &params_; } const BenchmarkParams* params() const { return &params_; }
 protected: void RegisterAndRun() { if (lce_bench().on_run) lce_bench().on_run(&params_); } TfLiteStatus ParseFlags(int argc, char** argv) { return ParseFlags(&argc, argv); }
  TfLiteStatus ParseFlags(int* argc, char** argv) { auto flags = GetFlags(); for (int i = 1; i < *argc; i++) { std::string a(argv[i]); bool known = false; for (auto& f : flags) { std::string pre = "--" + f.name + "="; if (a.size() >= pre.size() && a.compare(0, pre.size(), pre) == 0) { known = true; if (!f.set(a.substr(pre.size()))) return kTfLiteError; } } if (!known) return kTfLiteError; } return kTfLiteOk; } };
class BenchmarkTfLiteModel : public BenchmarkModel { public: explicit BenchmarkTfLiteModel(BenchmarkParams p = DefaultParams()) : BenchmarkModel(std::move(p)) {} ~BenchmarkTfLiteModel() override {} using BenchmarkModel::Run;
  std::vector<Flag> GetFlags() override { auto f = BenchmarkModel::GetFlags(); f.push_back(CreateFlag<std::string>("graph", &params_, "graph file name")); f.push_back(CreateFlag<bool>("use_xnnpack", &params_, "use XNNPACK")); return f; } void LogParams() override { BenchmarkModel::LogParams(); }
  static BenchmarkParams DefaultParams() { BenchmarkParams p = BenchmarkModel::DefaultParams(); p.AddParam("graph", BenchmarkParam::Create<std::string>("")); p.AddParam("use_xnnpack", BenchmarkParam::Create<bool>(false)); return p; } };
}  // namespace benchmark
}  // namespace tflite
#define LOG_BENCHMARK_PARAM(type, name, description, verbose) do { (void)(verbose); (void)params_.template Get<type>(name); } while (0)
