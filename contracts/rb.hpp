// The node operations of std::set/std::map are in the shared library: definitions without rebalancing (the order and the contents of the
// tree do not depend on its shape).
#pragma once
#include <map>
#include <set>
#ifdef __clang__
#define VRB __attribute__((disable_sanitizer_instrumentation))
#else
#define VRB
#endif
namespace std
{
typedef _Rb_tree_node_base* vrb;
VRB static vrb vrb_min(vrb x) { while (x->_M_left) x = x->_M_left; return x; }
VRB static vrb vrb_max(vrb x) { while (x->_M_right) x = x->_M_right; return x; }
VRB _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) return vrb_min(x->_M_right);
    vrb y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
VRB const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<vrb>(x)); }
VRB _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) return vrb_max(x->_M_left);
    vrb y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
VRB const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<vrb>(x)); }
VRB void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
VRB _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    vrb r;
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else
    {
        r = vrb_min(z->_M_right);
        if (r->_M_parent != z) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
        r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
    }
    if (r) r->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    else { h._M_left = vrb_min(h._M_parent); h._M_right = vrb_max(h._M_parent); }
    return z;
}
}
