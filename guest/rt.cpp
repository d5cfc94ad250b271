// Guest runtime: libstdc++ out-of-line helpers re-expressed as guest code, so that the engine executes them
// symbolically like everything else (bodies follow libstdc++ 13: tree.cc, list.cc, hashtable_c++0x.cc, hash_bytes.cc).
#include "sym.h"
#include <bits/stl_tree.h>
#include <list>
#include <string.h>
#include <thread>
#include <unordered_map>
using std::_Rb_tree_node_base;
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) {
    if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
extern "C" {
_Rb_tree_node_base* grt__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(_Rb_tree_node_base* x) { return rb_inc(x); }
const _Rb_tree_node_base* grt__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const _Rb_tree_node_base* x) { return rb_inc((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* grt__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(_Rb_tree_node_base* x) { return rb_dec(x); }
const _Rb_tree_node_base* grt__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const _Rb_tree_node_base* x) { return rb_dec((_Rb_tree_node_base*)x); }
void grt__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) {
    _Rb_tree_node_base*& root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = std::_S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == std::_S_red) {
        _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base* const y = xpp->_M_right;
            if (y && y->_M_color == std::_S_red) { x->_M_parent->_M_color = std::_S_black; y->_M_color = std::_S_black; xpp->_M_color = std::_S_red; x = xpp; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = std::_S_black; xpp->_M_color = std::_S_red; rotr(xpp, root);
            }
        } else {
            _Rb_tree_node_base* const y = xpp->_M_left;
            if (y && y->_M_color == std::_S_red) { x->_M_parent->_M_color = std::_S_black; y->_M_color = std::_S_black; xpp->_M_color = std::_S_red; x = xpp; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = std::_S_black; xpp->_M_color = std::_S_red; rotl(xpp, root);
            }
        }
    }
    root->_M_color = std::_S_black;
}
_Rb_tree_node_base* grt__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) {
    _Rb_tree_node_base*& root = header._M_parent;
    _Rb_tree_node_base*& leftmost = header._M_left;
    _Rb_tree_node_base*& rightmost = header._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *x_parent = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            x_parent = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
        } else x_parent = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
        y = z;
    } else {
        x_parent = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (z->_M_right == 0) leftmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (z->_M_left == 0) rightmost = z->_M_parent;
            else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if (y->_M_color != std::_S_red) {
        while (x != root && (x == 0 || x->_M_color == std::_S_black))
            if (x == x_parent->_M_left) {
                _Rb_tree_node_base* w = x_parent->_M_right;
                if (w->_M_color == std::_S_red) { w->_M_color = std::_S_black; x_parent->_M_color = std::_S_red; rotl(x_parent, root); w = x_parent->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == std::_S_black) && (w->_M_right == 0 || w->_M_right->_M_color == std::_S_black)) { w->_M_color = std::_S_red; x = x_parent; x_parent = x_parent->_M_parent; }
                else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == std::_S_black) { w->_M_left->_M_color = std::_S_black; w->_M_color = std::_S_red; rotr(w, root); w = x_parent->_M_right; }
                    w->_M_color = x_parent->_M_color; x_parent->_M_color = std::_S_black;
                    if (w->_M_right) w->_M_right->_M_color = std::_S_black;
                    rotl(x_parent, root); break;
                }
            } else {
                _Rb_tree_node_base* w = x_parent->_M_left;
                if (w->_M_color == std::_S_red) { w->_M_color = std::_S_black; x_parent->_M_color = std::_S_red; rotr(x_parent, root); w = x_parent->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == std::_S_black) && (w->_M_left == 0 || w->_M_left->_M_color == std::_S_black)) { w->_M_color = std::_S_red; x = x_parent; x_parent = x_parent->_M_parent; }
                else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == std::_S_black) { w->_M_right->_M_color = std::_S_black; w->_M_color = std::_S_red; rotl(w, root); w = x_parent->_M_left; }
                    w->_M_color = x_parent->_M_color; x_parent->_M_color = std::_S_black;
                    if (w->_M_left) w->_M_left->_M_color = std::_S_black;
                    rotr(x_parent, root); break;
                }
            }
        if (x) x->_M_color = std::_S_black;
    }
    return y;
}
typedef std::__detail::_List_node_base LN;
void grt__ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN* self, LN* pos) { self->_M_next = pos; self->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = self; pos->_M_prev = self; }
void grt__ZNSt8__detail15_List_node_base9_M_unhookEv(LN* self) { LN* n = self->_M_next; LN* p = self->_M_prev; p->_M_next = n; n->_M_prev = p; }
void grt__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN* self, LN* first, LN* last) {
    if (self != last) {
        last->_M_prev->_M_next = self; first->_M_prev->_M_next = last; self->_M_prev->_M_next = first;
        LN* tmp = self->_M_prev; self->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
size_t grt__ZSt11_Hash_bytesPKvmm(const void* ptr, size_t len, size_t seed) {
    const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    unsigned char b[256];
    if (len > 256) return 0;
    for (size_t i = 0; i < len; i++) b[i] = (unsigned char)sym_concretize(((const unsigned char*)ptr)[i]);
    size_t al = len & ~(size_t)7, hash = seed ^ (len * mul), i = 0;
    for (; i < al; i += 8) {
        size_t d = 0; for (int k = 7; k >= 0; k--) d = (d << 8) + b[i + k];
        d *= mul; d = (d ^ (d >> 47)) * mul; hash ^= d; hash *= mul;
    }
    if (len & 7) { size_t d = 0; for (int k = (int)(len & 7) - 1; k >= 0; k--) d = (d << 8) + b[al + k]; hash ^= d; hash *= mul; }
    hash = (hash ^ (hash >> 47)) * mul; hash = hash ^ (hash >> 47);
    return hash;
}
// std::thread -> engine threads
struct ThrState { virtual ~ThrState(); virtual void _M_run() = 0; };
static void* thr_main(void* p) { ((ThrState*)p)->_M_run(); return 0; }
void grt__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long* th, void** up, void (*)()) {
    void* st = *up; *up = 0;
    *th = 100 + sym_spawn(thr_main, st);
}
void grt__ZNSt6thread4joinEv(unsigned long* th) { sym_join((int)(*th - 100)); *th = 0; }
void grt__ZNSt6thread6detachEv(unsigned long* th) { *th = 0; }
void grt__ZNSt6thread6_StateD2Ev(void*) {}
}
