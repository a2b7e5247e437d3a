// Native runtime: replays one engine record file (path in LCE_REPLAY) against the really compiled code.
#define LCE_REPLAY_CC 1
#include "lce.h"
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define LCE_MSAN 1
#endif
#endif
#ifndef LCE_MSAN
#define LCE_MSAN 0
static inline void __msan_unpoison(const volatile void*, size_t) {}
static inline void __msan_poison(const volatile void*, size_t) {}
static inline long __msan_test_shadow(const volatile void*, size_t) { return -1; }
#endif
struct Rec { char k; std::string name; long long v; std::vector<std::vector<unsigned char>> e; };
static std::vector<Rec> recs; static size_t pos = 0; static int fillbyte = 0xAA;
struct Prot { unsigned char* p; size_t n; std::vector<unsigned char> copy; };
static std::vector<Prot> prots; static std::map<const void*, size_t> sizes;
static void done(int code) { fflush(stdout); fflush(stderr); _Exit(code); }
static Rec& nextRec(char k, const char* nm0) { std::string nm = nm0; for (char& c : nm) if (c == ' ') c = '_'; const char* name = nm.c_str(); if (pos >= recs.size()) { printf("REPLAY-END %c %s\n", k, name); done(3); } Rec& r = recs[pos++]; if (r.k != k || r.name != name) { printf("REPLAY-DIVERGED want %c %s have %c %s\n", k, name, r.k, r.name.c_str()); done(4); } return r; }
static void checkProt() { for (auto& p : prots) if (memcmp(p.p, p.copy.data(), p.n)) { printf("ASSERT-FAIL write to protected memory\n"); done(77); } }
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
extern "C" {
long lce_choose(const char* n, long, long) { long v = (long)nextRec('C', n).v; __msan_unpoison(&v, sizeof v); return v; }
int64_t lce_int(const char* n, int64_t, int64_t) { int64_t v = nextRec('I', n).v; __msan_unpoison(&v, sizeof v); return v; }
void lce_sym_array(void* p, size_t es, size_t cnt, const char* n) { Rec& r = nextRec('A', n); if (r.e.size() != cnt) { printf("REPLAY-DIVERGED array %s size %zu vs %zu\n", n, cnt, r.e.size()); done(4); } for (size_t i = 0; i < cnt; i++) memcpy((char*)p + i * es, r.e[i].data(), es); __msan_unpoison(p, es * cnt); }
void lce_assume(int c) { if (!c) { printf("ASSUME-FAIL\n"); done(0); } }
void lce_assert(int c, const char* l) { if (!c) { printf("ASSERT-FAIL %s\n", l); done(77); } }
void lce_fail(const char* l) { printf("ASSERT-FAIL %s\n", l); done(77); }
void lce_cover(const char*) {}
void lce_go(void) {}
void* lce_alloc(size_t s, size_t extra, const char*) { unsigned char* p = (unsigned char*)malloc(s + extra); memset(p, fillbyte, s + extra); __msan_poison(p, s); sizes[p] = s; return p; }
void lce_protect(const void* p) { auto it = sizes.find(p); if (it == sizes.end()) return; unsigned char* q = (unsigned char*)p; prots.push_back({q, it->second, std::vector<unsigned char>(q, q + it->second)}); }
void lce_unprotect(const void* p) { checkProt(); for (size_t i = 0; i < prots.size(); i++) if (prots[i].p == p) { prots.erase(prots.begin() + i); break; } }
void lce_observe(int64_t v) { printf("O %llx\n", (unsigned long long)v); }
int lce_tier(void) { const char* t = getenv("LCE_TIER"); return t ? atoi(t) : 0; }
void lce_prune(void) { done(0); }
void lce_end(void) { checkProt(); printf("END 0\n"); done(0); }
void lce_unsupported(void) { printf("NOT-DECIDED\n"); done(3); }
int64_t lce_concretize(int64_t v) { return v; }
int lce_symbolic(void) { return 0; }
int64_t lce_param(const char* n, int64_t d) { std::string e = std::string("LCE_P_") + n; const char* v = getenv(e.c_str()); return v ? atoll(v) : d; }
int lce_is_uninit(const void* p, size_t n) { return n && __msan_test_shadow(p, n) != -1; }
int lce_is_symbolic(int64_t) { return 0; }
}
int main() {
  const char* f = getenv("LCE_REPLAY"); if (getenv("LCE_FILL")) fillbyte = atoi(getenv("LCE_FILL"));
  FILE* fp = f ? fopen(f, "r") : nullptr; if (!fp) { fprintf(stderr, "no replay file\n"); return 2; }
  std::string line; int c; std::vector<std::string> lines; while ((c = fgetc(fp)) != EOF) { if (c == '\n') { lines.push_back(line); line.clear(); } else line += (char)c; } if (!line.empty()) lines.push_back(line); fclose(fp);
  for (auto& l : lines) { if (l.size() < 3 || (l[0] != 'C' && l[0] != 'I' && l[0] != 'A') || l[1] != ' ') continue;
    std::vector<std::string> t; std::string cur; for (char ch : l) { if (ch == ' ') { t.push_back(cur); cur.clear(); } else cur += ch; } t.push_back(cur);
    Rec r; r.k = l[0]; r.name = t[1]; r.v = 0; if (r.k != 'A') r.v = atoll(t[2].c_str()); else { size_t es = atoll(t[2].c_str()), n = atoll(t[3].c_str()); for (size_t i = 0; i < n; i++) { std::vector<unsigned char> b(es, 0); const std::string& h = t[4 + i]; unsigned __int128 v = 0; for (char ch : h) v = v * 16 + hexv(ch); for (size_t k = 0; k < es; k++) b[k] = (unsigned char)(v >> (8 * k)); r.e.push_back(b); } }
    recs.push_back(r); }
  int rc = harness_main(); checkProt(); printf("END %d\n", rc); done(0); return 0;
}
