// Parts of libstdc++ that live in the shared library: instantiated here from its own headers, so that they are executed symbolically too.
#include <string>
#include <exception>
#include <stdexcept>
#include <new>
#include <map>
#include <list>
#include <unordered_map>
template class std::basic_string<char>;
namespace std {
void __throw_length_error(const char* m) { throw std::length_error(m); }
void __throw_logic_error(const char* m) { throw std::logic_error(m); }
void __throw_invalid_argument(const char* m) { throw std::invalid_argument(m); }
void __throw_runtime_error(const char* m) { throw std::runtime_error(m); }
void __throw_out_of_range(const char* m) { throw std::out_of_range(m); }
void __throw_out_of_range_fmt(const char* m, ...) { throw std::out_of_range(m); }
void __throw_bad_alloc() { throw std::exception(); }
void __throw_bad_array_new_length() { throw std::exception(); }
void __throw_bad_function_call() { throw std::exception(); }
void __throw_bad_optional_access() { throw std::exception(); }
void __throw_bad_variant_access(const char*) { throw std::exception(); }
// the ordered containers' tree: the order of its elements is all that can be observed, so it is not balanced here
typedef _Rb_tree_node_base N;
static N* next(N* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static N* prev(N* x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return next(const_cast<N*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return prev(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  N *after = next(z), *before = z == h._M_left ? nullptr : prev(z); N* y; // y takes z's place
  if (!z->_M_left) y = z->_M_right; else if (!z->_M_right) y = z->_M_left;
  else { y = after; if (y->_M_parent != z) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  N* p = z->_M_parent; if (y) y->_M_parent = p;
  if (p == &h) h._M_parent = y; else if (p->_M_left == z) p->_M_left = y; else p->_M_right = y;
  if (h._M_left == z) h._M_left = after; if (h._M_right == z) h._M_right = before ? before : &h;
  return z;
}
// the hashed containers: no observable result depends on the hash or on the number of buckets
size_t _Hash_bytes(const void*, size_t n, size_t) { return n * 7 + 1; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n * 7 + 1; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 5; while (k < n) k = k * 2 + 1; _M_next_resize = (size_t)(k * _M_max_load_factor); return k; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize) { size_t want = e + i + 1 > b * 2 ? e + i + 1 : b * 2; if (e + i < b) { _M_next_resize = b; return {false, 0}; } return {true, _M_next_bkt(want)}; } return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}
