// Models of the few libstdc++ functions that live only in the shared library.
// Trees are kept as plain (unbalanced) binary search trees: same ordering, same iteration.
#include <map>
#include <list>
#include <unordered_map>
#include <mutex>
extern "C" int sx_symbolic() { return 1; }
extern "C" { extern char _ZTVSt9exception[40]; __attribute__((used)) void *sx_keep_vtable = _ZTVSt9exception; } // the engine fills it in

// std::call_once
namespace std {
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
extern "C" int pthread_once(pthread_once_t *c, void (*f)()) {
    std::mutex &m = *reinterpret_cast<std::mutex *>(c);
    m.lock();
    bool todo = *c != 2;
    if (todo) {
        try { f(); } catch (...) { m.unlock(); throw; }
        *c = 2;
    }
    m.unlock();
    return 0;
}

namespace std {
typedef _Rb_tree_node_base N;
static N *minN(N *x) { while (x->_M_left) x = x->_M_left; return x; }
static N *maxN(N *x) { while (x->_M_right) x = x->_M_right; return x; }
N *_Rb_tree_increment(N *x) throw() {
    if (x->_M_right) return minN(x->_M_right);
    N *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const N *_Rb_tree_increment(const N *x) throw() { return _Rb_tree_increment(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) return maxN(x->_M_left);
    N *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const N *_Rb_tree_decrement(const N *x) throw() { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
    auto replace = [&](N *u, N *v) {
        if (h._M_parent == u) h._M_parent = v;
        else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
        else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        N *y = minN(z->_M_right);
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    if (h._M_parent) { h._M_left = minN(h._M_parent); h._M_right = maxN(h._M_parent); }
    else { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    auto relink = [](_List_node_base &n, _List_node_base *nx, _List_node_base *pv, _List_node_base &old) {
        if (nx == &old) { n._M_next = n._M_prev = &n; }
        else { n._M_next = nx; n._M_prev = pv; nx->_M_prev = &n; pv->_M_next = &n; }
    };
    auto *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    relink(x, yn, yp, y);
    relink(y, xn, xp, x);
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    static const std::size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517};
    for (auto p : pr) if (p >= n) { _M_next_resize = p; return p; }
    return n | 1;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
    if (elt + ins > _M_next_resize || _M_next_resize == 0) { if (elt + ins >= bkt) return {true, _M_next_bkt((elt + ins) * 2)}; _M_next_resize = bkt; }
    return {false, 0};
}
}
}
