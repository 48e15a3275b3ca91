// Parts of the C++ standard library that live in libstdc++.so, for the encoder only: code that keeps a std::map,
// std::unordered_map or std::list can then be followed like any other. Trees are kept unbalanced; the order of elements is the same.
#pragma once
#include <cstddef>

namespace vh_rt {
struct tn { int c; tn* p; tn* l; tn* r; };
struct ln { ln* n; ln* p; };
struct pol { float load; std::size_t next; };
struct need { bool b; std::size_t n; };
extern "C" {
void vh_rb_insert(bool left, tn* x, tn* p, tn* h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
tn* vh_rb_inc(tn* x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
tn* vh_rb_incc(tn* x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
tn* vh_rb_dec(tn* x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
tn* vh_rb_decc(tn* x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
void vh_l_hook(ln* x, ln* at) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void vh_l_unhook(ln* x) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
std::size_t vh_h_bytes(void const* d, std::size_t n, std::size_t seed) __asm__("_ZSt11_Hash_bytesPKvmm");
std::size_t vh_h_next(pol* p, std::size_t n) __asm__("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
need vh_h_need(pol* p, std::size_t bkt, std::size_t elt, std::size_t ins) __asm__("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");

void vh_rb_insert(bool left, tn* x, tn* p, tn* h)
{
    x->c = 0;
    x->p = p;
    x->l = x->r = nullptr;
    if (left) {
        p->l = x;
        if (p == h) {
            h->p = x;
            h->r = x;
        } else if (p == h->l) {
            h->l = x;
        }
    } else {
        p->r = x;
        if (p == h->r) { h->r = x; }
    }
    if (h->p != nullptr) { h->p->c = 1; }
}
tn* vh_rb_inc(tn* x)
{
    if (x->r != nullptr) {
        x = x->r;
        while (x->l != nullptr) { x = x->l; }
        return x;
    }
    tn* y = x->p;
    while (x == y->r) {
        x = y;
        y = y->p;
    }
    return x->r != y ? y : x;
}
tn* vh_rb_dec(tn* x)
{
    if (x->c == 0 and x->p->p == x) { return x->r; }
    if (x->l != nullptr) {
        tn* y = x->l;
        while (y->r != nullptr) { y = y->r; }
        return y;
    }
    tn* y = x->p;
    while (x == y->l) {
        x = y;
        y = y->p;
    }
    return y;
}
tn* vh_rb_incc(tn* x) { return vh_rb_inc(x); }
tn* vh_rb_decc(tn* x) { return vh_rb_dec(x); }
void vh_l_hook(ln* x, ln* at)
{
    x->n     = at;
    x->p     = at->p;
    at->p->n = x;
    at->p    = x;
}
void vh_l_unhook(ln* x)
{
    x->p->n = x->n;
    x->n->p = x->p;
}
std::size_t vh_h_bytes(void const* d, std::size_t n, std::size_t seed)
{
    for (std::size_t i = 0; i < n; ++i) { seed = seed * 31 + static_cast<unsigned char const*>(d)[i]; }
    return seed;
}
std::size_t vh_h_next(pol* p, std::size_t n)
{
    std::size_t k = 13;
    while (k < n) { k = 2 * k + 3; }
    p->next = k;
    return k;
}
need vh_h_need(pol* p, std::size_t bkt, std::size_t elt, std::size_t ins)
{
    if (elt + ins <= p->next) { return {false, 0}; }
    return {true, vh_h_next(p, elt + ins > 2 * bkt ? elt + ins : 2 * bkt)};
}
}
}  // namespace vh_rt
