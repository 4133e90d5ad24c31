// Run-time support linked into the verified module only (symbolic side): library functions
// whose bodies are not available as IR (trusted models; the native replay uses the real ones).
#include <set>
#include <map>
#include <string>
template class std::basic_string<char>;
namespace std {
// red-black tree helpers of libstdc++ without the rebalancing (a search tree with the same order)
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x)
    {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else
        {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
        }
    return x;
    }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x)
    {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // header
    if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
    }
__attribute__((used)) _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
__attribute__((used)) const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((used)) _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
__attribute__((used)) const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((used)) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
    {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
        {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
        }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
}
