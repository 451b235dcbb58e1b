// The out-of-line parts of libstdc++ containers (the library's own are compiled, not in headers).
// Trees are not rebalanced: only the order of elements is observable.
#include <list>
#include <set>
#include <unordered_set>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // from the end
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;   // the header alone is red
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    if (h._M_left == z) h._M_left = z->_M_right ? _Rb_tree_node_base::_S_minimum(z->_M_right) : z->_M_parent;
    if (h._M_right == z) h._M_right = z->_M_left ? _Rb_tree_node_base::_S_maximum(z->_M_left) : z->_M_parent;
    _Rb_tree_node_base* n;
    if (!z->_M_left) n = z->_M_right;
    else if (!z->_M_right) n = z->_M_left;
    else {
        n = _Rb_tree_node_base::_S_minimum(z->_M_right);
        if (n != z->_M_right) {
            n->_M_parent->_M_left = n->_M_right;
            if (n->_M_right) n->_M_right->_M_parent = n->_M_parent;
            n->_M_right = z->_M_right; z->_M_right->_M_parent = n;
        }
        n->_M_left = z->_M_left; z->_M_left->_M_parent = n;
    }
    if (n) n->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = n;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n;
    else z->_M_parent->_M_right = n;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this == l) return;
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n; return n ? n : 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t n, size_t i) const { return {n + i > b, (n + i) * 2 + 8}; }
}
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }   // any order of the elements is allowed
}
