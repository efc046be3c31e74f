/* The C++ classes behind the register machine of drv.c: every register of a pairing made with
   xpairing is an object of the wrapper, and the operations go through its members. */
#include <iostream>
#include <string>
#include <stdexcept>
#include <type_traits>
#include <vector>
#include <cstring>
#include <pbc/pbcxx.h>
using namespace pbc;
/* An object is its element (or pairing) and nothing else; the driver only reads it through the C interface. */
static_assert(sizeof(G1Element) == sizeof(element_t) && sizeof(ZrElement) == sizeof(element_t) && sizeof(Pairing) == sizeof(pairing_t), "layout");

template <class E> static E through(E x) { return x; }                     /* by value: copies in and out */
template <class E> struct Ops {
  static E &o(void *p) { return *static_cast<E *>(p); }
  /* 0 not an operation of the wrapper, 1 done, -1 the wrapper contradicts itself */
  static int run(const char *c, int v, void *C, void *A, void *B, E &x, E &a, E &b) {
    (void) B;
    if (!strcmp(c, "set")) { if (v & 1) { E t(a); x = t; t.set0(); } else if (v & 2) { x = through(a); } else { E &y = (x = a); if (&y != &x) return -1; } return 1; }
    if (!strcmp(c, "set0")) { E &y = x.set0(); return &y == &x ? 1 : -1; }
    if (!strcmp(c, "set1")) { E &y = x.set1(); return &y == &x ? 1 : -1; }
    if (!strcmp(c, "random")) { E &y = x.set_random(); return &y == &x ? 1 : -1; }
    E *y = &x;
    if (!strcmp(c, "neg")) { if (C == A && (v & 1)) y = &x.neg_inplace(); else x = a.neg(); return y == &x ? 1 : -1; }
    if (!strcmp(c, "dbl")) { if (C == A && (v & 1)) y = &x.twice_inplace(); else x = a.twice(); return y == &x ? 1 : -1; }
    if (!strcmp(c, "sq")) { if (C == A && (v & 1)) y = &x.square_inplace(); else x = a.square(); return y == &x ? 1 : -1; }
    if (!strcmp(c, "inv")) { if (C == A && (v & 1)) y = &x.invert_inplace(); else x = a.invert(); return y == &x ? 1 : -1; }
    if (!strcmp(c, "add")) { if (C == A && (v & 1)) y = &(x += b); else if (v & 2) { E t = a + b; x = t; } else x = a + b; return y == &x ? 1 : -1; }
    if (!strcmp(c, "sub")) { if (C == A && (v & 1)) y = &(x -= b); else if (v & 2) { E t = a - b; x = t; } else x = a - b; return y == &x ? 1 : -1; }
    if (!strcmp(c, "mul")) { if (C == A && (v & 1)) y = &(x *= b); else if (v & 2) { E t = a * b; x = t; } else x = a * b; return y == &x ? 1 : -1; }
    if (!strcmp(c, "div")) { if (C == A && (v & 1)) y = &(x /= b); else if (v & 2) { E t = a / b; x = t; } else x = a / b; return y == &x ? 1 : -1; }
    return 0;
  }
  static int scale(const char *c, int v, void *C, void *A, E &x, E &a, const ZrElement &z) {
    bool p = c[0] == 'p'; E *y = &x;
    if (p) { if (C == A && (v & 1)) y = &x.pow_zn_inplace(z); else x = a.pow_zn(z); }
    else if (C == A && (v & 1)) y = &(x *= z);
    else if (v & 2) x = z * a;
    else x = a * z;
    return y == &x ? 1 : -1;
  }
  static int cmp(const E &a, const E &b) {
    int r = a.compare(b) != 0;
    if ((a == b) != !r || (a != b) != !!r || (b == a) != !r) return 9;
    return r;
  }
  static int flags(const E &a) { return (a.is0() ? 1 : 0) | (a.is1() ? 2 : 0); }
  static int frombytes(E &x, const std::string &s) { try { E &y = x.from_bytes(s); return &y == &x ? 0 : -1; } catch (const std::invalid_argument &) { return 1; } }
};
#define ALL(k, X) switch (k) { case 1: { typedef G1Element E; X; } case 2: { typedef G2Element E; X; } case 3: { typedef GTElement E; X; } default: { typedef ZrElement E; X; } }
template <class P, bool can> struct Copies { static int test(const P &) { return 0; } };
template <class P> struct Copies<P, true> { static int test(const P &p) { P q(p); return q.is_symmetric() != p.is_symmetric(); } };   /* a copy comes and goes */

extern "C" {
void *xx_pairing(const char *t, size_t n, pairing_ptr *out) {
  try { Pairing *p = new Pairing(std::string(t, n)); *out = reinterpret_cast<pairing_ptr>(p); return p; } catch (const std::invalid_argument &) { return 0; }
}
void xx_pairing_del(void *p) { delete static_cast<Pairing *>(p); }
int xx_pairing_copy(void *p) { return Copies<Pairing, std::is_copy_constructible<Pairing>::value>::test(*static_cast<Pairing *>(p)); }
void *xx_elem(void *p, int k, void *from, element_ptr *out) {
  Pairing &P = *static_cast<Pairing *>(p);
  ALL(k, E *e = from ? new E(*static_cast<E *>(from)) : new E(P); *out = reinterpret_cast<element_ptr>(e); return e)
}
element_ptr xx_v(int k, void *e) { (void) k; return static_cast<element_ptr>(e); }
int xx_sym(void *p) { return static_cast<Pairing *>(p)->is_symmetric(); }
void xx_elem_del(int k, void *e) { ALL(k, delete static_cast<E *>(e); return) }
int xx_op(const char *c, int v, int k, void *C, void *A, void *B) {
  ALL(k, if (!A) A = C; if (!B) B = A; return Ops<E>::run(c, v, C, A, B, Ops<E>::o(C), Ops<E>::o(A), Ops<E>::o(B)))
}
int xx_scale(const char *c, int v, int k, void *C, void *A, void *Z) {
  const ZrElement &z = *static_cast<ZrElement *>(Z);
  switch (k) { case 1: return Ops<G1Element>::scale(c, v, C, A, Ops<G1Element>::o(C), Ops<G1Element>::o(A), z); case 2: return Ops<G2Element>::scale(c, v, C, A, Ops<G2Element>::o(C), Ops<G2Element>::o(A), z);
               case 3: return Ops<GTElement>::scale(c, v, C, A, Ops<GTElement>::o(C), Ops<GTElement>::o(A), z); }
  return 0;
}
int xx_scale_mpz(void *p, const char *c, int v, int k, void *C, void *A, mpz_ptr n) { ZrElement z(*static_cast<Pairing *>(p)); z.set_mpz(n); return xx_scale(c, v, k, C, A, &z); }
int xx_setz(void *C, mpz_ptr z, long n) { ZrElement &x = *static_cast<ZrElement *>(C); ZrElement &y = z ? x.set_mpz(z) : x.set_si(n); return &y == &x ? 1 : -1; }
int xx_hash(int k, void *C, const unsigned char *d, int n) { ALL(k, E &x = Ops<E>::o(C); E &y = x.from_hash(std::string((const char *) d, n)); return &y == &x ? 1 : -1) }
int xx_cmp(int k, void *A, void *B) { ALL(k, return Ops<E>::cmp(Ops<E>::o(A), Ops<E>::o(B))) }
int xx_flags(int k, void *A) { ALL(k, return Ops<E>::flags(Ops<E>::o(A))) }
int xx_tobytes(int k, void *A, unsigned char *out, int max) { ALL(k, std::string s = Ops<E>::o(A).to_bytes(); if ((int) s.size() <= max) memcpy(out, s.data(), s.size()); return s.size() ? (int) s.size() : 0) }
int xx_frombytes(int k, void *C, const unsigned char *b, int n) { ALL(k, return Ops<E>::frombytes(Ops<E>::o(C), std::string((const char *) b, n))) }
/* 1 done, 2 refused */
int xx_pair(void *p, int v, void *U, int ka, void *A, int kb, void *B) {
  Pairing &P = *static_cast<Pairing *>(p); GTElement &u = *static_cast<GTElement *>(U);
  try {
#define CALL(X, Y) { if (v & 1) P.apply(u, *static_cast<X *>(A), *static_cast<Y *>(B)); else u = P(*static_cast<X *>(A), *static_cast<Y *>(B)); }
    if (ka == 1 && kb == 2) CALL(G1Element, G2Element)
    else if (ka == 1 && kb == 1) CALL(G1Element, G1Element)
    else if (ka == 2 && kb == 2) CALL(G2Element, G2Element)
    else return 0;
  } catch (const std::invalid_argument &) { return 2; }
  return P.is_symmetric() == !!pairing_is_symmetric(static_cast<pairing_ptr>(p)) ? 1 : -1;
}
}
