// Small C/C++ runtime for the symbolic build only (these functions live in shared libraries otherwise).  Semantically equivalent, without the balancing of std::map's tree.
#ifndef LCE_RT_SYM_H_
#define LCE_RT_SYM_H_
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE  /* every library template is instantiated here rather than found in a shared library */
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstring>
#include <map>
#include <string>
#include <set>
#include <unordered_map>
#define LCE_RT extern "C" __attribute__((weak, noinline))
LCE_RT int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
LCE_RT int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
LCE_RT void* lce_memchr(const void* p, int c, size_t n) asm("memchr"); LCE_RT void* lce_memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (; n; n--, q++) if (*q == (unsigned char)c) return (void*)q; return nullptr; }
#undef LCE_RT
namespace std {
__attribute__((weak, noinline)) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red; }
__attribute__((weak, noinline)) _Rb_tree_node_base* lce_rb_next(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
__attribute__((weak, noinline)) _Rb_tree_node_base* lce_rb_prev(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
__attribute__((weak, noinline)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return lce_rb_next(x); }
__attribute__((weak, noinline)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return lce_rb_next(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((weak, noinline)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return lce_rb_prev(x); }
__attribute__((weak, noinline)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return lce_rb_prev(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((weak, noinline)) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base* nl = (z == h._M_left) ? lce_rb_next(z) : h._M_left; _Rb_tree_node_base* nr = (z == h._M_right) ? lce_rb_prev(z) : h._M_right;
  auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  h._M_left = nl; h._M_right = nr; if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } return z; }
__attribute__((weak, noinline)) size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i]; return h; }
namespace __detail {
__attribute__((weak, noinline)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = k * 2 + 1; _M_next_resize = k; return k; }
__attribute__((weak, noinline)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > bkt) return {true, _M_next_bkt((elt + ins) * 2)}; return {false, 0}; }
}
}
#endif
