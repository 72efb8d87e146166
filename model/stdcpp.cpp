// libstdc++ model: the parts of containers and strings that live in the library.
#include <map>
#include <list>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <stdlib.h>
template class std::basic_string<char>;
template std::string std::operator+(const char *, const std::string &);
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// not balanced: the order is what counts (all nodes but the header black)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept
{
    _Rb_tree_node_base *first = h._M_left == z ? _Rb_tree_increment(z) : h._M_left, *last = h._M_right == z ? _Rb_tree_decrement(z) : h._M_right; bool only = h._M_left == z && h._M_right == z;
    auto put = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
    if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
    else { _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (only) { h._M_left = h._M_right = &h; h._M_parent = nullptr; } else { h._M_left = first; h._M_right = last; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
static const size_t P[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : P) if (p >= n) { _M_next_resize = p; return p; } abort(); }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize || !_M_next_resize) { size_t m = e + i; if (!_M_next_resize && m < 11) m = 11; if (m >= b) return make_pair(true, _M_next_bkt(m > 2 * b ? m + 1 : 2 * b)); _M_next_resize = b; } return make_pair(false, size_t(0)); }
}
size_t _Hash_bytes(const void *p, size_t n, size_t s) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) s = s * 31 + c[i]; return s; }
}
