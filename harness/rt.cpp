// Models of the few compiled libstdc++/libc functions the code under test calls (engine side only).
#include "vstream.h"
#include <list>
#include <map>
#include <unordered_map>
template class std::basic_string<char>; // its members, which the headers only declare
extern "C" { VBuf *__rt_vbuf = nullptr; }
const int64_t __rt_vt_os[8] = {8, 0, 0, 0, 0, 0, 0, 0};   // virtual-base offset of basic_ios in basic_ostream
const int64_t __rt_vt_is[8] = {16, 0, 0, 0, 0, 0, 0, 0};  // ... in basic_istream
extern "C" {
__attribute__((used)) void *__rt_os_write(void *os, const char *p, int64_t n) {
  VBuf *b = __rt_vbuf; if (n < 0 || b->n + (size_t)n > b->cap) std::abort();
  if (n) std::memcpy(b->data + b->n, p, n); b->n += n; return os;
}
__attribute__((used)) void *__rt_os_put(void *os, char c) { return __rt_os_write(os, &c, 1); }
// formatted output (statistics on std::cout) is dropped
__attribute__((used)) void *__rt_os_text(void *os, const char *, int64_t) { return os; }
__attribute__((used)) void *__rt_os_i(void *os, int) { return os; }
__attribute__((used)) void *__rt_os_m(void *os, unsigned long) { return os; }
__attribute__((used)) void *__rt_os_b(void *os, bool) { return os; }
__attribute__((used)) void *__rt_os_d(void *os, double) { return os; }
__attribute__((used)) void *__rt_os_endl(void *os) { return os; }
__attribute__((used)) void *__rt_is_read(void *is, char *p, int64_t n) {
  VBuf *b = __rt_vbuf; FakeStream *f = (FakeStream *)is; int64_t m = n; if (m < 0) std::abort();
  if (*(int *)(f->ios + 32)) { f->gcount = 0; return is; }
  if ((size_t)m > b->n - b->pos) m = b->n - b->pos;
  if (m) std::memcpy(p, b->data + b->pos, m); b->pos += m; f->gcount = m;
  if (m < n) *(int *)(f->ios + 32) |= 6; // eofbit | failbit
  return is;
}
__attribute__((used)) size_t __rt_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((used)) const void *__rt_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return q + i; return nullptr; }

// red-black tree, as in libstdc++ (0 = red)
struct RB { int color; RB *p, *l, *r; };
__attribute__((used)) RB *__rt_rb_inc(RB *x) {
  if (x->r) { x = x->r; while (x->l) x = x->l; return x; }
  RB *y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; return x;
}
__attribute__((used)) RB *__rt_rb_dec(RB *x) {
  if (x->color == 0 && x->p->p == x) return x->r;
  if (x->l) { RB *y = x->l; while (y->r) y = y->r; return y; }
  RB *y = x->p; while (x == y->l) { x = y; y = y->p; } return y;
}
static void rotl(RB *x, RB *&root) { RB *y = x->r; x->r = y->l; if (y->l) y->l->p = x; y->p = x->p; if (x == root) root = y; else if (x == x->p->l) x->p->l = y; else x->p->r = y; y->l = x; x->p = y; }
static void rotr(RB *x, RB *&root) { RB *y = x->l; x->l = y->r; if (y->r) y->r->p = x; y->p = x->p; if (x == root) root = y; else if (x == x->p->r) x->p->r = y; else x->p->l = y; y->r = x; x->p = y; }
__attribute__((used)) void __rt_rb_insert(bool left, RB *x, RB *p, RB *h) {
  x->p = p; x->l = x->r = nullptr; x->color = 0;
  if (left) { p->l = x; if (p == h) { h->p = x; h->r = x; } else if (p == h->l) h->l = x; }
  else { p->r = x; if (p == h->r) h->r = x; }
  RB *&root = h->p;
  while (x != root && x->p->color == 0) {
    RB *g = x->p->p;
    if (x->p == g->l) {
      RB *u = g->r; if (u && u->color == 0) { x->p->color = u->color = 1; g->color = 0; x = g; }
      else { if (x == x->p->r) { x = x->p; rotl(x, root); } x->p->color = 1; g->color = 0; rotr(g, root); }
    } else {
      RB *u = g->l; if (u && u->color == 0) { x->p->color = u->color = 1; g->color = 0; x = g; }
      else { if (x == x->p->l) { x = x->p; rotr(x, root); } x->p->color = 1; g->color = 0; rotl(g, root); }
    }
  }
  root->color = 1;
}
}
// removal: plain search-tree deletion, the root stays black (order is what iteration shows, not balance)
namespace std {
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const zz, _Rb_tree_node_base &hh) throw() {
  RB *z = (RB *)zz, *h = (RB *)&hh;
  auto put = [&](RB *u, RB *v) { if (u == h->p) h->p = v; else if (u == u->p->l) u->p->l = v; else u->p->r = v; if (v) v->p = u->p; };
  if (h->l == z) h->l = z->r || z->p != h ? __rt_rb_inc(z) : h;
  if (h->r == z) h->r = z->l || z->p != h ? __rt_rb_dec(z) : h;
  if (!z->l) put(z, z->r); else if (!z->r) put(z, z->l);
  else {
    RB *y = z->r; while (y->l) y = y->l;
    if (y->p != z) { put(y, y->r); y->r = z->r; y->r->p = y; }
    put(z, y); y->l = z->l; y->l->p = y; y->color = z->color;
  }
  if (h->p) h->p->color = 1; else { h->l = h; h->r = h; }
  return zz;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  bool xe = x._M_next == &x, ye = y._M_next == &y; auto t = x; 
  if (ye) x._M_next = x._M_prev = &x; else { x = y; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
  if (xe) y._M_next = y._M_prev = &y; else { y = t; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 20753, 42043, 85229, 172933, 351061};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t q : primes) if (q >= n) { _M_next_resize = q; return q; }
  std::abort();
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
  if (e + i > _M_next_resize) {
    size_t m = e + i; if (!_M_next_resize && m < 11) m = 11;
    if (m >= b) return {true, _M_next_bkt(m + 1 > b * 2 ? m + 1 : b * 2)};
    _M_next_resize = b;
  }
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  const size_t mul = (0xc6a4a793ul << 32) + 0x5bd1e995ul; auto mix = [](size_t v) { return v ^ (v >> 47); };
  const char *b = (const char *)p; size_t h = seed ^ (n * mul), a = n & ~(size_t)7, d;
  for (size_t i = 0; i < a; i += 8) { std::memcpy(&d, b + i, 8); h ^= mix(d * mul) * mul; h *= mul; }
  if (n & 7) { d = 0; for (size_t i = n; i-- > a;) d = (d << 8) + (unsigned char)b[i]; h ^= d; h *= mul; }
  return mix(mix(h) * mul);
}
}
