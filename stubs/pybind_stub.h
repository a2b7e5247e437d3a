// A small stand-in for pybind11 and numpy arrays: Python values are heap nodes the harness can build and inspect.
#ifndef LCE_PYBIND_STUB_H_
#define LCE_PYBIND_STUB_H_
#include <cstdint>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include "lce.h"
typedef long ssize_t_;
enum PyKind { kPyNone, kPyInt, kPyFloat, kPyBool, kPyList, kPyTuple, kPyArray, kPyRagged, kPyBytes, kPyDtype, kPyStr };
// numpy element types; the last ones have no counterpart in TensorFlow Lite or are not native
enum PyTag { kTagFloat = 1, kTagUInt8, kTagInt8, kTagInt16, kTagInt32, kTagInt64, kTagBool, kTagCharPtr, kTagDouble, kTagUInt16, kTagUInt32, kTagUInt64, kTagHalf, kTagFloatSwapped, kTagCount };
inline int64_t lce_itemsize(int t) { return t == kTagFloat || t == kTagInt32 || t == kTagUInt32 || t == kTagFloatSwapped ? 4 : t == kTagInt16 || t == kTagUInt16 || t == kTagHalf ? 2 : t == kTagUInt8 || t == kTagInt8 || t == kTagBool ? 1 : 8; }
struct PyObject { int kind = kPyNone; int64_t i = 0; double f = 0; std::vector<PyObject*> l; int64_t tag = 0; int64_t nd = 0; int64_t dim[8] = {}; unsigned char* corder = nullptr; unsigned char* raw = nullptr; std::string* s = nullptr; };
inline PyObject* lce_py(int k) { auto* p = new PyObject; p->kind = k; return p; }
inline PyObject* lce_none() { static PyObject* n = lce_py(kPyNone); return n; }
#define Py_None (lce_none())
// errors: the harness is told and the run ends
inline void (*&lce_on_error())() { static void (*f)() = nullptr; return f; }
struct lce_thrower { template <class T> [[noreturn]] void operator^(const T&) const { if (lce_on_error()) lce_on_error()(); lce_end(); } };
namespace std { struct lce_error { lce_error() {} template <class T> lce_error(const T&) {} const char* what() const { return ""; } };
struct lce_sstream { template <class T> lce_sstream& operator<<(const T&) { return *this; } lce_sstream& operator<<(ostream& (*)(ostream&)) { return *this; } string str() const { return string(); } }; }
#define runtime_error lce_error
#define invalid_argument lce_error
#define out_of_range lce_error
#define stringstream lce_sstream
#define ostringstream lce_sstream
#define throw ::lce_thrower() ^
namespace pybind11 {
using ssize_t = ::ssize_t_;
struct value_error : std::lce_error { using std::lce_error::lce_error; }; struct type_error : std::lce_error { using std::lce_error::lce_error; }; struct index_error : std::lce_error { using std::lce_error::lce_error; }; struct cast_error : std::lce_error { using std::lce_error::lce_error; };
inline PyObject* lce_box(bool v) { auto* p = lce_py(kPyBool); p->i = v; return p; } inline PyObject* lce_box(int v) { auto* p = lce_py(kPyInt); p->i = v; return p; } inline PyObject* lce_box(long v) { auto* p = lce_py(kPyInt); p->i = v; return p; } inline PyObject* lce_box(size_t v) { auto* p = lce_py(kPyInt); p->i = (int64_t)v; return p; }
inline PyObject* lce_box(float v) { auto* p = lce_py(kPyFloat); p->f = v; return p; } inline PyObject* lce_box(double v) { auto* p = lce_py(kPyFloat); p->f = v; return p; } inline PyObject* lce_box(PyObject* v) { return v; }
template <class T> inline PyObject* lce_box(const std::vector<T>& v) { auto* p = lce_py(kPyList); for (auto& x : v) p->l.push_back(lce_box((T)x)); return p; }
class handle { public: PyObject* p = nullptr; handle() = default; handle(PyObject* q) : p(q) {} handle(std::nullptr_t) {} PyObject* ptr() const { return p; } explicit operator bool() const { return p != nullptr; } bool is_none() const { return p->kind == kPyNone; }
  bool is(handle o) const { if (p == o.p) return true; if (!p || !o.p) return false; return p->kind == kPyDtype && o.p->kind == kPyDtype && p->tag == o.p->tag; }
  template <class T> T cast() const { return lce_cast((T*)nullptr); }
  int lce_cast(int*) const { if (p->kind != kPyInt) throw cast_error(); return (int)p->i; } double lce_cast(double*) const { return lce_num(); } float lce_cast(float*) const { return (float)lce_num(); } bool lce_cast(bool*) const { return p->i != 0; }
  double lce_num() const { if (p->kind == kPyFloat) return p->f; if (p->kind != kPyInt) throw cast_error(); return (double)p->i; }
  template <class A, class B> std::pair<A, B> lce_cast(std::pair<A, B>*) const { if ((p->kind != kPyTuple && p->kind != kPyList) || p->l.size() != 2) throw cast_error(); return {handle(p->l[0]).cast<A>(), handle(p->l[1]).cast<B>()}; }
  template <class T> std::vector<T> lce_cast(std::vector<T>*) const { std::vector<T> r; for (auto* x : p->l) r.push_back(handle(x).cast<T>()); return r; } };
inline PyObject* lce_box(const handle& h) { return h.p; }
class object : public handle { public: using handle::handle; object(const handle& h) : handle(h) {} };
class none : public object { public: none() : object(Py_None) {} none(const handle& h) : object(h) {} };
template <class T> inline object cast(const T& v) { return object(lce_box(v)); }
template <class T, std::enable_if_t<std::is_base_of_v<handle, T>, int> = 0> inline T cast(PyObject* v) { return T(handle(v)); }
template <class T> struct lce_dt; 
class dtype : public object { public: using object::object; dtype() = default; explicit dtype(int64_t tag) { p = lce_py(kPyDtype); p->tag = tag; } template <class T> static dtype of() { return dtype((int64_t)lce_dt<T>::v); } ssize_t itemsize() const { return lce_itemsize((int)p->tag); }
  bool equal(const dtype& o) const { return p->tag == o.p->tag; } bool operator==(const dtype& o) const { return equal(o); } bool operator!=(const dtype& o) const { return !equal(o); } };
#define LCE_DT(T, V) template <> struct lce_dt<T> { enum { v = V }; };
LCE_DT(float, kTagFloat) LCE_DT(uint8_t, kTagUInt8) LCE_DT(int8_t, kTagInt8) LCE_DT(int16_t, kTagInt16) LCE_DT(int32_t, kTagInt32) LCE_DT(int64_t, kTagInt64) LCE_DT(bool, kTagBool) LCE_DT(char*, kTagCharPtr) LCE_DT(double, kTagDouble) LCE_DT(uint16_t, kTagUInt16) LCE_DT(uint32_t, kTagUInt32) LCE_DT(uint64_t, kTagUInt64)
class array : public object { public: enum { c_style = 1, f_style = 2, forcecast = 16 }; array() = default; explicit array(const handle& h) : object(h) {}
  // c: in C order (a copy if needed); otherwise the array as it is
  static array ensure(handle h, int flags = 16) { if (h.p->kind == kPyRagged) return array(); if (h.p->kind != kPyArray) return array(); auto* q = new PyObject(*h.p); if (flags & c_style) q->raw = q->corder; return array(handle(q)); }
  template <class S> array(const pybind11::dtype& d, const S& shape, const void* src = nullptr, handle base = handle()) { p = lce_py(kPyArray); p->tag = d.p->tag; p->nd = 0; int64_t n = lce_itemsize((int)d.p->tag); for (auto x : shape) { p->dim[p->nd++] = (int64_t)x; n *= (int64_t)x; } n = lce_concretize(n); if (base) { p->raw = (unsigned char*)src; } else { p->raw = (unsigned char*)malloc((size_t)n + 1); if (src) memcpy(p->raw, src, (size_t)n); } p->corder = p->raw; }
  pybind11::dtype dtype() const { return pybind11::dtype(p->tag); } ssize_t ndim() const { return (ssize_t)p->nd; } ssize_t shape(ssize_t i) const { if (i >= p->nd) throw index_error(); return (ssize_t)p->dim[i]; } const int64_t* shape() const { return p->dim; }
  ssize_t size() const { int64_t n = 1; for (int64_t i = 0; i < p->nd; i++) n *= p->dim[i]; return (ssize_t)n; } ssize_t itemsize() const { return (ssize_t)lce_itemsize((int)p->tag); } ssize_t nbytes() const { return size() * itemsize(); } const void* data() const { return p->raw; } void* mutable_data() { return p->raw; } };
class list : public object { public: list() : object(lce_py(kPyList)) {} explicit list(const handle& h) : object(h) {} explicit list(size_t n) : object(lce_py(kPyList)) { p->l.resize(n, Py_None); }
  size_t size() const { return p->l.size(); } bool empty() const { return p->l.empty(); } object operator[](size_t i) const { return object(p->l.at(i)); } template <class T> void append(const T& v) const { p->l.push_back(lce_box(v)); }
  struct it { PyObject* const* q; handle operator*() const { return handle(*q); } it& operator++() { ++q; return *this; } bool operator!=(const it& o) const { return q != o.q; } }; it begin() const { return {p->l.data()}; } it end() const { return {p->l.data() + p->l.size()}; } };
class tuple : public object { public: explicit tuple(size_t n = 0) : object(lce_py(kPyTuple)) { p->l.resize(n, Py_None); } explicit tuple(const handle& h) : object(h) {} size_t size() const { return p->l.size(); } struct acc { PyObject** q; template <class T> void operator=(const T& v) { *q = lce_box(v); } }; acc operator[](size_t i) const { return {&p->l[i]}; } };
class bytes : public object { public: bytes() : object(lce_py(kPyBytes)) { p->s = new std::string; } bytes(const std::string& s) : object(lce_py(kPyBytes)) { p->s = new std::string(s); } bytes(const char* c, size_t n) : object(lce_py(kPyBytes)) { p->s = new std::string(c, n); } explicit bytes(const handle& h) : object(h) {} operator std::string() const { return *p->s; } };
class module_ { public: template <class F> module_& def(const char*, F&&) { return *this; } const char*& doc() { static const char* d; return d; } }; using module = module_;
template <class... A> struct init {};
template <class T> struct lce_bindings { static std::vector<std::pair<const char*, list (T::*)()>>& props() { static std::vector<std::pair<const char*, list (T::*)()>> v; return v; } static list (T::*&predict())(const list&) { static list (T::*f)(const list&) = nullptr; return f; } };
template <class T> class class_ { public: class_(module_&, const char*) {} template <class... A> class_& def(init<A...>) { return *this; } template <class B> class_& def_property(const char* n, list (B::*g)(), std::nullptr_t) { lce_bindings<T>::props().push_back({n, (list (T::*)())g}); return *this; } template <class B> class_& def_property_readonly(const char* n, list (B::*g)()) { return def_property(n, g, nullptr); }
  template <class B> class_& def(const char*, list (B::*f)(const list&)) { lce_bindings<T>::predict() = (list (T::*)(const list&))f; return *this; } };
}
namespace py = pybind11;
#define PYBIND11_MODULE(name, m) void lce_module_##name(pybind11::module_& m)
#endif
