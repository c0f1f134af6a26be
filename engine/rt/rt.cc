// The parts of the C++ library that live in libstdc++.so rather than in its headers,
// compiled to bitcode so that the engine can execute code that uses std::map,
// std::list, std::unordered_map and std::string.  Only definitions that are missing
// from a module are linked in (llvm-link --only-needed).
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <utility>

template class std::basic_string<char>;

namespace std {

// ---- balanced trees (std::map, std::set): an unbalanced binary search tree has the
// same observable behaviour as the library's red-black tree, order for order.
static _Rb_tree_node_base* Min(_Rb_tree_node_base* x) {
  while (x->_M_left) x = x->_M_left;
  return x;
}
static _Rb_tree_node_base* Max(_Rb_tree_node_base* x) {
  while (x->_M_right) x = x->_M_right;
  return x;
}
// The header node is the parent of the root and the only node whose colour is red here.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) return Min(x->_M_right);
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
    return x->_M_right;
  if (x->_M_left) return Max(x->_M_left);
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = 0;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left) {
      h._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
  if (h._M_right == z) h._M_right = z->_M_left ? Max(z->_M_left) : z->_M_parent;
  _Rb_tree_node_base* y;  // takes the place of z
  if (!z->_M_left) {
    y = z->_M_right;
  } else if (!z->_M_right) {
    y = z->_M_left;
  } else {
    y = Min(z->_M_right);
    if (y != z->_M_right) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
  }
  if (y) y->_M_parent = z->_M_parent;
  if (h._M_parent == z)
    h._M_parent = y;
  else if (z->_M_parent->_M_left == z)
    z->_M_parent->_M_left = y;
  else
    z->_M_parent->_M_right = y;
  return z;
}

// ---- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() throw() {
  _M_next->_M_prev = _M_prev;
  _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first,
                                  _List_node_base* const last) throw() {
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  _M_prev->_M_next = first;
  _List_node_base* const t = _M_prev;
  _M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}
void _List_node_base::_M_reverse() throw() {
  _List_node_base* t = this;
  do {
    std::swap(t->_M_next, t->_M_prev);
    t = t->_M_prev;
  } while (t != this);
}

// ---- hash tables
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173};
  for (size_t p : primes)
    if (p >= n) {
      _M_next_resize = p;
      return p;
    }
  _M_next_resize = n;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt,
                                                        size_t ins) const {
  if (elt + ins <= _M_next_resize && bkt > 1) return {false, 0};
  if (elt + ins <= bkt && bkt > 1) {
    _M_next_resize = bkt;
    return {false, 0};
  }
  size_t want = elt + ins + 1;
  if (want < 2 * bkt) want = 2 * bkt;
  return {true, _M_next_bkt(want)};
}
}  // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  uint64_t h = 1469598103934665603ull ^ seed;
  for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
  return h;
}

}  // namespace std
