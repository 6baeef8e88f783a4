// Parts of libstdc++ that live in its binary, as IR for the interpreter.
#include <string>
#include <bits/stl_tree.h>
template class std::basic_string<char>;

// ordered containers; a tree that is not balanced has the same meaning
namespace std {
typedef _Rb_tree_node_base N;
N* _Rb_tree_increment(N* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    N* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
N* _Rb_tree_decrement(N* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    N* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const N* _Rb_tree_increment(const N* x) throw() { return _Rb_tree_increment(const_cast<N*>(x)); }
const N* _Rb_tree_decrement(const N* x) throw() { return _Rb_tree_decrement(const_cast<N*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
}
