// Definitions for the out-of-line parts of libstdc++'s ordered containers (an ordinary unbalanced search tree), so
// that the engine sees their bodies. Only the container used as a tool inside the library depends on them.
#pragma once
#include <bits/stl_tree.h>
namespace std {
static _Rb_tree_node_base* vs_inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* vs_dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vs_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vs_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vs_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vs_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
}  // namespace std
