// Harness interface.  In the symbolic engine these are built-ins; natively (replay) they are in lib/replay.cc.
#ifndef LCE_HARNESS_API_H_
#define LCE_HARNESS_API_H_
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
extern "C" {
long lce_choose(const char* name, long lo, long hi);           // enumerated configuration choice (forks)
int64_t lce_int(const char* name, int64_t lo, int64_t hi);     // symbolic integer in [lo, hi]
void lce_sym_array(void* p, size_t elem_size, size_t count, const char* name);
void lce_assume(int c);
void lce_assert(int c, const char* label);
void lce_fail(const char* label);
void lce_cover(const char* label);
void lce_go(void);                                             // configuration complete: one unit of work
void* lce_alloc(size_t size, size_t extra_readable, const char* name);
void lce_protect(const void* p);                               // writes to the block become violations
void lce_unprotect(const void* p);
void lce_observe(int64_t v);
int lce_tier(void);                                            // 0 quick, 1 thorough
void lce_prune(void);
__attribute__((noreturn)) void lce_end(void);                  // the harness is done (as if harness_main returned)
int64_t lce_concretize(int64_t v);
int lce_symbolic(void);
int64_t lce_param(const char* name, int64_t def);
int lce_is_uninit(const void* p, size_t n);
int lce_is_symbolic(int64_t v);
int harness_main(void);
}
template <class T> inline T* lce_new(size_t n, const char* name, size_t extra = 0) { return (T*)lce_alloc(n * sizeof(T), extra, name); }
template <class T> inline T* lce_sym(size_t n, const char* name, size_t extra = 0) { T* p = lce_new<T>(n, name, extra); lce_sym_array(p, sizeof(T), n, name); return p; }
template <class T> inline int64_t lce_bits(T v) { int64_t r = 0; std::memcpy(&r, &v, sizeof(T)); return r; }
inline float lce_symf(const char* name) { float f; lce_sym_array(&f, 4, 1, name); return f; }
template <size_t N> inline int lce_pick(const char* name, const int (&v)[N]) { return v[lce_choose(name, 0, (long)N - 1)]; }
#if defined(LCE_MEMORY_ONLY) && !defined(LCE_REPLAY_CC)
// Memory-safety runs of a functional harness: functional assertions are not judged (other checks do), configurations that are not accepted are left.
inline void lce_memory_only(bool c, const char* l) { if (l[0] == 'p' && l[1] == 'r' && !c) lce_prune(); }
#define lce_assert_real(c, l) (lce_assert)(c, l)
#define lce_assert(c, l) lce_memory_only((c), (l))
#define lce_fail(l) lce_prune()
#endif
// bitwise equality of floats, any NaN equal to any NaN
inline bool lce_feq(float a, float b) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return (x == y) | ((a != a) & (b != b)) | ((a == b)); }
#endif
