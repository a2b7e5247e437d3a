// Runs harness_main() on many concrete pseudo-random inputs.  Arguments: NAME=VALUE fixes a choice; other choices are drawn.  Exit 1 on a failed expectation.
#include "lce.h"
#include <cstdio>
#include <map>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
static std::map<std::string, long long> fixed; static unsigned long long st = 88172645463325252ull; static unsigned long long rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
extern "C" {
long lce_choose(const char* n, long lo, long hi) { auto it = fixed.find(n); if (it != fixed.end()) { if (it->second < lo || it->second > hi) _exit(0); return (long)it->second; } return lo + (long)(rnd() % (unsigned long long)(hi - lo + 1)); }
int64_t lce_int(const char* n, int64_t lo, int64_t hi) { auto it = fixed.find(n); if (it != fixed.end()) return it->second; unsigned long long w = (unsigned long long)hi - (unsigned long long)lo + 1; return (int64_t)((unsigned long long)lo + (w ? rnd() % w : rnd())); }
void lce_sym_array(void* p, size_t es, size_t c, const char*) { for (size_t i = 0; i < es * c; i++) ((unsigned char*)p)[i] = (unsigned char)(rnd() >> 13); }
void lce_assume(int c) { if (!c) _exit(0); }
void lce_assert(int c, const char* l) { const char* g = getenv("KNOWN"); if (!c && !(g && strstr(l, g))) { fprintf(stderr, "FAILED: %s\n", l); _exit(1); } }
void lce_end(void) { _exit(0); } void lce_fail(const char* l) { lce_assert(0, l); }
void lce_cover(const char*) {} void lce_go(void) {} void lce_protect(const void*) {} void lce_unprotect(const void*) {} void lce_observe(int64_t) {}
void* lce_alloc(size_t s, size_t e, const char*) { void* p = malloc(s + e); memset(p, 0xA5, s + e); return p; }
int lce_tier(void) { return getenv("TIER") ? atoi(getenv("TIER")) : 0; } void lce_prune(void) { _exit(0); } int64_t lce_concretize(int64_t v) { return v; } int lce_symbolic(void) { return 0; } int64_t lce_param(const char*, int64_t d) { return d; } int lce_is_uninit(const void*, size_t) { return 0; } int lce_is_symbolic(int64_t) { return 0; } void lce_unsupported(void) { _exit(0); }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) fixed[a.substr(0, e)] = atoll(a.c_str() + e + 1); }
  int runs = getenv("RUNS") ? atoi(getenv("RUNS")) : 300;
  for (int k = 0; k < runs; k++) { st = 88172645463325252ull + 7919ull * k; for (int i = 0; i < 8; i++) rnd(); pid_t p = fork(); if (!p) { harness_main(); _exit(0); } int s = 0; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) { fprintf(stderr, "run %d failed\n", k); return 1; } }
  return 0; }
