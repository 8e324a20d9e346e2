// Bodies of the parts of std::map, std::set and the unordered containers that live in libstdc++'s binary, for the
// symbolic executor: a plain (unbalanced) search tree, and one bucket for every hash. Same observable behaviour.
#pragma once
#ifndef SYM_NATIVE
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
namespace std {
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
        x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) {
            p->_M_left = x;
            if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
        } else {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
        h._M_color = _S_red;
    }
    static _Rb_tree_node_base* vt_next(_Rb_tree_node_base* x) {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    static _Rb_tree_node_base* vt_prev(_Rb_tree_node_base* x) {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;      // the header
        if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return vt_next(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return vt_next(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return vt_prev(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return vt_prev(const_cast<_Rb_tree_node_base*>(x)); }
    size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
    namespace __detail {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n ? n : 1; }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
    }
}
#endif
