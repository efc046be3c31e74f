/* Script driver: executes a line script against libpbc and logs, one JSON
 * object per line, what the library answered.  It never judges: the TLA+ trace
 * specifications do.  See DESIGN.md, "the driver".                           */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <gmp.h>
#include "pbc.h"
#include "pbc_fp.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
#include "pbc_curve.h"
#include "pbc_ternary_extension_field.h"
#include "pbc_z.h"
#include "pbc_multiz.h"
#include "pbc_singular.h"
#include "pbc_hilbert.h"

static FILE *L;                       /* the log */
static int lineno;
static void die(const char *f, ...) {
  va_list ap; va_start(ap, f);
  fprintf(stderr, "drv: line %d: ", lineno); vfprintf(stderr, f, ap); fprintf(stderr, "\n");
  exit(70);                           /* harness problem, not a finding */
}

#include "drv_mem.c"
enum { ZN, QUAD, PM, POLY, G3, G32, G33, EC, Z, MZ, OPAQUE };
typedef struct frec { char name[40]; field_ptr f; int kind; struct frec *base; int gt; int m, t;
                      int classmode; int nreps; element_ptr reps[4096]; char kindname[12]; struct prec *pr; mpz_t cof, qcof; int hascof, hasq; struct ckey *raw, *img; } frec;
typedef struct prec { char name[40]; pairing_ptr p; pairing_t own; void *xo; frec *g1, *g2, *gt, *zr; } prec;
typedef struct reg { char name[40]; element_t e; frec *F; int live; void *xo; int xk; } reg;   /* xo: the C++ object e mirrors */
typedef struct ppr { char name[40]; element_pp_t pp; pairing_pp_t pairpp; int live, kind; prec *pr; } ppr;
#define MAXF 1000
#define MAXR 600
static frec *F_[MAXF]; static int nF;
static prec *P_[200]; static int nP;
static reg *R_[MAXR]; static int nR;
static ppr *PP_[200]; static int nPP;
static int flagmode = 1;

static frec *getF(const char *n) { for (int i = 0; i < nF; i++) if (!strcmp(F_[i]->name, n)) return F_[i]; die("no field %s", n); return 0; }
static prec *getP(const char *n) { for (int i = 0; i < nP; i++) if (!strcmp(P_[i]->name, n)) return P_[i]; die("no pairing %s", n); return 0; }
static reg *findR(const char *n) { for (int i = 0; i < nR; i++) if (R_[i]->live && !strcmp(R_[i]->name, n)) return R_[i]; return 0; }
static reg *getR(const char *n) { reg *r = findR(n); if (!r) die("no register %s", n); return r; }
static frec *newF(const char *n) { frec *r = calloc(1, sizeof *r); strncpy(r->name, n, 39); F_[nF++] = r; if (nF >= MAXF) die("too many fields"); return r; }

/* ---- printing values -------------------------------------------------- */
static void plimbs(FILE *o, mpz_t z) {  /* |z| as 15-bit limbs, least significant first */
  mpz_t t; mpz_init(t); mpz_abs(t, z);
  fputc('[', o);
  int first = 1;
  while (mpz_sgn(t)) { if (!first) fputc(',', o); first = 0; fprintf(o, "%lu", mpz_fdiv_ui(t, 32768)); mpz_fdiv_q_2exp(t, t, 15); }
  fputc(']', o); mpz_clear(t);
}
static void psigned(FILE *o, mpz_t z) { fprintf(o, "[%d,", mpz_sgn(z)); plimbs(o, z); fputc(']', o); }
static void pbytes(FILE *o, const unsigned char *b, long n) {
  fputc('[', o); for (long i = 0; i < n; i++) fprintf(o, i ? ",%d" : "%d", b[i]); fputc(']', o);
}
static void pstr(FILE *o, const char *s) { pbytes(o, (const unsigned char *) s, strlen(s)); }

static void pmultiz(FILE *o, multiz m) {
  if (multiz_is_z(m)) { mpz_t z; mpz_init(z); multiz_to_mpz(z, m); fprintf(o, "{\"z\":"); psigned(o, z); fprintf(o, "}"); mpz_clear(z); return; }
  int n = multiz_count(m); fprintf(o, "{\"l\":[");
  for (int i = 0; i < n; i++) { if (i) fputc(',', o); pmultiz(o, multiz_at(m, i)); }
  fprintf(o, "]}");
}
static void pval(FILE *o, element_ptr e, frec *F);
/* GF(3^m): coefficients 0..2, low degree first, read from the byte form (two bit planes). */
static void pg3(FILE *o, element_ptr e, frec *F) {
  int n = element_length_in_bytes(e), m = F->m;
  unsigned char *b = malloc(n + 1); element_to_bytes(b, e);
  fputc('[', o);
  for (int i = 0; i < m; i++) {
    int p1 = (b[2 * (i / 8)] >> (i % 8)) & 1, p2 = (b[2 * (i / 8) + 1] >> (i % 8)) & 1;
    fprintf(o, i ? ",%d" : "%d", p1 ? (p2 ? 3 : 1) : (p2 ? 2 : 0));
  }
  fputc(']', o); free(b);
}
static void pval(FILE *o, element_ptr e, frec *F) {
  mpz_t z;
  switch (F->kind) {
    case ZN: mpz_init(z); element_to_mpz(z, e); if (mpz_sgn(z) < 0) fprintf(o, "[-1]"); else plimbs(o, z); mpz_clear(z); break;
    case Z: mpz_init(z); element_to_mpz(z, e); psigned(o, z); mpz_clear(z); break;
    case MZ: pmultiz(o, e->data); break;
    case G3: pg3(o, e, F); break;
    case QUAD: case G32: case G33: case PM: case POLY: {
      int n = element_item_count(e);
      fputc('[', o);
      for (int i = 0; i < n; i++) { if (i) fputc(',', o); pval(o, element_item(e, i), F->base); }
      fputc(']', o); break;
    }
    case EC: {
      if (element_is0(e)) { fprintf(o, "[]"); break; }
      fputc('[', o); pval(o, curve_x_coord(e), F->base); fputc(',', o); pval(o, curve_y_coord(e), F->base); fputc(']', o); break;
    }
    case OPAQUE: {  /* text form, as bytes */
      char *buf = 0; size_t sz = 0; FILE *mf = open_memstream(&buf, &sz); element_out_str(mf, 10, e); fclose(mf);
      pbytes(o, (unsigned char *) buf, sz); free(buf); break;
    }
  }
}
static int zero_items(element_ptr e, frec *F) {   /* the projected value is all-zero / not invertible */
  if (F->kind == ZN) { mpz_t z, g; mpz_init(z); mpz_init(g); element_to_mpz(z, e); mpz_gcd(g, z, F->f->order); int r = mpz_cmp_ui(g, 1) != 0; mpz_clear(z); mpz_clear(g); return r; }
  if (F->kind == G3) { int n = element_length_in_bytes(e), r = 1; unsigned char *b = malloc(n + 1); element_to_bytes(b, e); for (int i = 0; i < n; i++) if (b[i]) r = 0; free(b); return r; }
  if (F->kind == POLY) return element_item_count(e) == 0;
  if (F->kind == Z) { mpz_t z; mpz_init(z); element_to_mpz(z, e); int r = !mpz_sgn(z); mpz_clear(z); return r; }
  if (F->kind == MZ) { mpz_t z; mpz_init(z); element_to_mpz(z, e); int r = !mpz_sgn(z); mpz_clear(z); return r; }
  if (F->kind == EC || F->kind == OPAQUE || F->gt) return 0;
  int n = element_item_count(e);
  for (int i = 0; i < n; i++) if (!zero_items(element_item(e, i), F->base)) return 0;
  return 1;
}
/* In a quotient group the class is the exact point cof * e (cached by the exact point e). */
typedef struct ckey { unsigned char *b; int n, cls; struct ckey *next; } ckey;
static unsigned char *exact(element_ptr e, int *n) {
  int m = element_length_in_bytes(e); unsigned char *b = calloc(1, m + 1);
  if (!element_is0(e)) { b[0] = 1; element_to_bytes(b + 1, e); }
  *n = m + 1; return b;
}
static ckey *ckfind(ckey *l, unsigned char *b, int n) { for (; l; l = l->next) if (l->n == n && !memcmp(l->b, b, n)) return l; return 0; }
static ckey *ckadd(ckey **l, unsigned char *b, int n, int cls) { ckey *k = malloc(sizeof *k); k->b = b; k->n = n; k->cls = cls; k->next = *l; *l = k; return k; }
static int classof(reg *r) {
  frec *F = r->F;
  if (F->hasq) {
    int n; unsigned char *b = exact(r->e, &n); ckey *k = ckfind(F->raw, b, n);
    if (k) { free(b); return k->cls; }
    element_t c; element_init(c, F->f); element_mul_mpz(c, r->e, F->qcof);
    int m; unsigned char *d = exact(c, &m); ckey *j = ckfind(F->img, d, m); element_clear(c);
    if (!j) j = ckadd(&F->img, d, m, F->nreps++); else free(d);
    ckadd(&F->raw, b, n, j->cls); return j->cls;
  }
  for (int i = 0; i < F->nreps; i++) if (!element_cmp(F->reps[i], r->e)) return i;
  if (F->nreps >= 4095) die("too many classes");
  element_ptr c = malloc(sizeof(element_t)); element_init(c, F->f); element_set(c, r->e); F->reps[F->nreps] = c; return F->nreps++;
}
/* ---- a log record ------------------------------------------------------ */
static void rbegin(const char *op) { fprintf(L, "{\"ln\":%d,\"op\":\"%s\"", lineno, op); }
static void rregs(const char *key, int n, reg **r) {
  fprintf(L, ",\"%s\":[", key); for (int i = 0; i < n; i++) fprintf(L, i ? ",\"%s\"" : "\"%s\"", r[i]->name); fprintf(L, "]");
}
static void rend(void);
/* ---- the C++ wrapper (variant of the driver built with WITH_XX): pairings and elements are its objects ---- */
#ifdef WITH_XX
void *xx_pairing(const char *t, size_t n, pairing_ptr *out); void xx_pairing_del(void *p); int xx_pairing_copy(void *p); int xx_sym(void *p);
void *xx_elem(void *p, int k, void *from, element_ptr *out); void xx_elem_del(int k, void *e); element_ptr xx_v(int k, void *e);
int xx_op(const char *c, int v, int k, void *C, void *A, void *B); int xx_scale(const char *c, int v, int k, void *C, void *A, void *Z); int xx_scale_mpz(void *p, const char *c, int v, int k, void *C, void *A, mpz_ptr n);
int xx_setz(void *C, mpz_ptr z, long n); int xx_hash(int k, void *C, const unsigned char *d, int n); int xx_cmp(int k, void *A, void *B); int xx_flags(int k, void *A);
int xx_tobytes(int k, void *A, unsigned char *out, int max); int xx_frombytes(int k, void *C, const unsigned char *b, int n); int xx_pair(void *p, int v, void *U, int ka, void *A, int kb, void *B);
static void xsync(void) { for (int i = 0; i < nR; i++) if (R_[i]->live && R_[i]->xo) *R_[i]->e = *xx_v(R_[i]->xk, R_[i]->xo); }
/* 1: the wrapper did it */
static int xdid(int v) { if (v < 0) { rbegin("xbad"); rend(); } xsync(); return v != 0; }
static int xkind(frec *F) { prec *p = F->pr; return !p || !p->xo ? 0 : F == p->g1 ? 1 : F == p->g2 ? 2 : F == p->gt ? 3 : F == p->zr ? 4 : 0; }
static int same(reg *a, reg *b) { return !b || (b->xo && b->xk == a->xk); }
static int x_op(const char *c, reg *a, reg *b, reg *d) { return a->xo && same(a, b) && same(a, d) && xdid(xx_op(c, lineno, a->xk, a->xo, b ? b->xo : 0, d ? d->xo : 0)); }
static int x_scale(const char *c, reg *a, reg *b, reg *z) { return a->xo && a->xk < 4 && same(a, b) && z->xo && z->xk == 4 && xdid(xx_scale(c, lineno, a->xk, a->xo, b->xo, z->xo)); }
static int x_scalez(const char *c, reg *a, reg *b, mpz_t n) { return a->xo && a->xk < 4 && same(a, b) && (mpz_sgn(n) >= 0 || c[0] == 'm') && (lineno & 4) && xdid(xx_scale_mpz(a->F->pr->xo, c, lineno, a->xk, a->xo, b->xo, n)); }
static int x_setz(reg *a, mpz_ptr z, long n) { return a->xo && a->xk == 4 && xdid(xx_setz(a->xo, z, n)); }
static int x_hash(reg *a, unsigned char *h, int n) { return a->xo && xdid(xx_hash(a->xk, a->xo, h, n)); }
static int x_cmp(reg *a, reg *b, int *v) { if (!a->xo || !same(a, b)) return 0; *v = xx_cmp(a->xk, a->xo, b->xo); return xdid(*v == 9 ? -1 : 1); }
static int x_pair(prec *p, reg *u, reg *a, reg *b, int *v) { if (!p->xo || !u->xo || u->xk != 3 || !a->xo || !b->xo) return 0; *v = xx_pair(p->xo, lineno, u->xo, a->xk, a->xo, b->xk, b->xo); return xdid(*v); }
#define XFLAGS(r) ((r)->xo ? xx_flags((r)->xk, (r)->xo) : (element_is0((r)->e) ? 1 : 0) | (element_is1((r)->e) ? 2 : 0))
static void x_new(reg *q, reg *from) { q->xk = xkind(q->F); if (!q->xk) { element_init(q->e, q->F->f); return; } element_ptr v; q->xo = xx_elem(q->F->pr->xo, q->xk, from ? from->xo : 0, &v); *q->e = *v; }
static void x_del(reg *q) { if (q->xo) { xx_elem_del(q->xk, q->xo); q->xo = 0; } else element_clear(q->e); }
static int x_open(prec *p, const char *t, size_t n) { p->xo = xx_pairing(t, n, &p->p); return p->xo ? 0 : 1; }
static void x_close(prec *p) { xx_pairing_del(p->xo); }
#define X_SYM(p) xx_sym((p)->xo)
#else
#define x_op(c, a, b, d) 0
#define x_scale(c, a, b, z) 0
#define x_scalez(c, a, b, n) 0
#define x_setz(a, z, n) 0
#define x_hash(a, h, n) 0
#define x_cmp(a, b, v) 0
#define x_pair(p, u, a, b, v) 0
static void x_new(reg *q, reg *from) { (void) from; element_init(q->e, q->F->f); }
static void x_del(reg *q) { element_clear(q->e); }
static int x_open(prec *p, const char *t, size_t n) { p->p = p->own; return pairing_init_set_buf(p->p, t, n); }
static void x_close(prec *p) { pairing_clear(p->p); }
#define X_SYM(p) (!!pairing_is_symmetric((p)->p))
#define XFLAGS(r) ((element_is0((r)->e) ? 1 : 0) | (element_is1((r)->e) ? 2 : 0))
#endif
static void rval1(reg *r) {
  if (r->F->classmode) { fprintf(L, "\"%s\":{\"k\":%d,\"is0\":%d,\"is1\":%d}", r->name, classof(r), XFLAGS(r) & 1, XFLAGS(r) >> 1); return; }
  fprintf(L, "\"%s\":", r->name); pval(L, r->e, r->F);
}
static void rvals(int n, reg **r) {
  fprintf(L, ",\"v\":{");
  for (int i = 0, k = 0; i < n; i++) {
    int dup = 0; for (int j = 0; j < i; j++) if (r[j] == r[i]) dup = 1;
    if (dup) continue;
    if (k++) fputc(',', L);
    rval1(r[i]);
  }
  fprintf(L, "}");
  if (n && flagmode && !r[0]->F->classmode) {
    fprintf(L, ",\"is0\":%d,\"is1\":%d", XFLAGS(r[0]) & 1, XFLAGS(r[0]) >> 1);
    int canon = -1;
    if (r[0]->F->kind == ZN && !r[0]->F->gt) {        /* equality with a freshly built copy of the same value */
      element_t t; mpz_t z; element_init(t, r[0]->F->f); mpz_init(z);
      element_to_mpz(z, r[0]->e); element_set_mpz(t, z); canon = !!element_cmp(t, r[0]->e) || !!element_cmp(r[0]->e, t); mpz_clear(z); element_clear(t);
    }
    if (canon >= 0) fprintf(L, ",\"neq\":%d", canon);
  }
}
static void rend(void) { fprintf(L, "}\n"); fflush(L); }
static void rnum(const char *k, mpz_t z) { fprintf(L, ",\"%s\":", k); psigned(L, z); }
static void rint(const char *k, long v) { fprintf(L, ",\"%s\":%ld", k, v); }

/* ---- custom random source ---------------------------------------------- */
static gmp_randstate_t rs; static unsigned long nDraw; static int drawLog; static FILE *drawF; static char *drawBuf; static size_t drawSz;
static int edgy;                       /* now and then the least or the greatest number */
static long libcRand;                  /* calls to the C library's generators: the library should make none */
int rand(void) { libcRand++; return 4; }
long random(void) { libcRand++; return 4; }
int rand_r(unsigned *s) { (void) s; libcRand++; return 4; }
long lrand48(void) { libcRand++; return 4; }
static void my_random(mpz_t z, mpz_t limit, void *d) {
  (void) d; nDraw++;
  mpz_t lim; mpz_init_set(lim, limit);
  unsigned long k = edgy ? gmp_urandomb_ui(rs, 3) : 7;
  if (k == 0) mpz_set_ui(z, 0); else if (k == 1) mpz_sub_ui(z, lim, 1); else mpz_urandomm(z, rs, lim);
  if (drawLog) { fprintf(drawF, nDraw > 1 ? ",[" : "["); plimbs(drawF, lim); fputc(',', drawF); plimbs(drawF, z); fputc(']', drawF); }
  mpz_clear(lim);
}
static long rand0; static void drawStart(void) { nDraw = 0; rand0 = libcRand; drawBuf = 0; if (drawLog) drawF = open_memstream(&drawBuf, &drawSz); }
static void drawEnd(void) {            /* the numbers the caller's source was asked for, and the calls to the C library's */
  fprintf(L, ",\"draws\":%lu,\"lc\":%ld", nDraw, libcRand - rand0);
  if (drawLog) { fclose(drawF); fprintf(L, ",\"dr\":[%s]", drawBuf ? drawBuf : ""); free(drawBuf); }
}
static char rngFile[64]; static void rngGone(void) { if (rngFile[0]) unlink(rngFile); }

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static unsigned char *unhex(const char *s, int *n) {   /* "-" is the empty string */
  if (!strcmp(s, "-")) { *n = 0; return calloc(1, 1); }
  int l = strlen(s) / 2; unsigned char *b = calloc(l + 1, 1);
  for (int i = 0; i < l; i++) b[i] = hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]);
  *n = l; return b;
}
static char *slurp(const char *fn, size_t *n) {
  FILE *f = fopen(fn, "rb"); if (!f) die("open %s", fn);
  char *b = malloc(1 << 16); *n = fread(b, 1, (1 << 16) - 1, f); b[*n] = 0; fclose(f); return b;
}
static void items0(element_ptr e) { int n = element_item_count(e); for (int i = 0; i < n; i++) element_set0(element_item(e, i)); }
static void desc(FILE *o, frec *F) {    /* descriptor of the algebraic structure */
  mpz_t z; mpz_init(z);
  if (F->gt) { frec g = *F; g.gt = 0; element_t tt; element_init(tt, F->f); if (F->kind == ZN) g.f = ((element_ptr) tt->data)->field; element_clear(tt); fprintf(o, "{\"t\":\"gt\",\"r\":"); plimbs(o, F->f->order); fprintf(o, ",\"b\":"); desc(o, &g); fprintf(o, "}"); mpz_clear(z); return; }
  switch (F->kind) {
    case ZN: fprintf(o, "{\"t\":\"zn\",\"n\":"); plimbs(o, F->f->order); fprintf(o, "}"); break;
    case Z: fprintf(o, "{\"t\":\"z\"}"); break;
    case MZ: fprintf(o, "{\"t\":\"mz\"}"); break;
    case QUAD: case G32: {
      element_t a, s; element_init(s, F->f); element_init(a, F->base->f);
      /* u^2 for u = 0 + 1*sqrt(nqr) is nqr itself */
      items0(s); element_set1(element_item(s, 1)); element_mul(s, s, s); element_set(a, element_item(s, 0));
      fprintf(o, "{\"t\":\"quad\",\"b\":"); desc(o, F->base); fprintf(o, ",\"nqr\":"); pval(o, a, F->base); fprintf(o, "}");
      element_clear(a); element_clear(s); break;
    }
    case G33: fprintf(o, "{\"t\":\"g33\",\"b\":"); desc(o, F->base); fprintf(o, "}"); break;
    case PM: {   /* x^n = sum red_i x^i */
      element_t s; element_init(s, F->f); int n = element_item_count(s);
      fprintf(o, "{\"t\":\"pm\",\"b\":"); desc(o, F->base); fprintf(o, ",\"n\":%d,\"red\":", n);
      if (n == 1) { items0(s); }
      else { element_t x; element_init(x, F->f); items0(x); element_set1(element_item(x, 1)); element_set(s, x); for (int i = 1; i < n; i++) element_mul(s, s, x); element_clear(x); }
      pval(o, s, F); fprintf(o, "}"); element_clear(s); break;
    }
    case POLY: fprintf(o, "{\"t\":\"poly\",\"b\":"); desc(o, F->base); fprintf(o, "}"); break;
    case G3: fprintf(o, "{\"t\":\"g3\",\"m\":%d,\"tt\":%d}", F->m, F->t); break;
    case EC: fprintf(o, "{\"t\":\"ec\",\"b\":"); desc(o, F->base); fprintf(o, ",\"a4\":"); pval(o, curve_field_a_coeff(F->f), F->base);
             fprintf(o, ",\"a6\":"); pval(o, curve_field_b_coeff(F->f), F->base); fprintf(o, ",\"r\":"); plimbs(o, F->f->order); fprintf(o, "}"); break;
    case OPAQUE: fprintf(o, "{\"t\":\"opaque\",\"r\":"); plimbs(o, F->f->order); fprintf(o, "}"); break;
  }
  mpz_clear(z);
}
/* What structure a library field has, worked out from an element of it. */
static frec *probe(field_ptr f, const char *nm, const char *kindname) {
  frec *r = newF(nm); r->f = f;
  const char *k = kindname;
  if (!strcmp(k, "zn")) r->kind = ZN; else if (!strcmp(k, "quad")) r->kind = QUAD; else if (!strcmp(k, "pm")) r->kind = PM;
  else if (!strcmp(k, "ec")) r->kind = EC; else if (!strcmp(k, "opaque")) r->kind = OPAQUE; else if (!strcmp(k, "g3")) r->kind = G3;
  else if (!strcmp(k, "g32")) r->kind = G32; else if (!strcmp(k, "g33")) r->kind = G33; else die("kind %s", k);
  return r;
}
static char fx[4000];                       /* what was asked for, for the log of a field */
static void fxnum(const char *k, mpz_t z) { char *b = 0; size_t n = 0; FILE *m = open_memstream(&b, &n); plimbs(m, z); fclose(m); if (strlen(fx) + n + 40 < sizeof fx) sprintf(fx + strlen(fx), ",\"%s\":%s", k, b); free(b); }
static void logfield(frec *F, const char *k, reg *poly) { rbegin("field"); fprintf(L, ",\"k\":\"%s\"%s", k, fx); fx[0] = 0; if (poly) fprintf(L, ",\"poly\":\"%s\"", poly->name); fprintf(L, ",\"f\":\"%s\",\"d\":", F->name); desc(L, F); if (F->pr) fprintf(L, ",\"p\":\"%s\"", F->pr->name); if (F->hascof) { fprintf(L, ",\"cof\":"); plimbs(L, F->cof); } fprintf(L, ",\"ord\":"); plimbs(L, F->f->order);
  fprintf(L, ",\"len\":%d", F->f->fixed_length_in_bytes); rend(); }

static FILE *td_f; static char *td_b; static size_t td_len; static int td_stop, td_n;
static int td_cb(mpz_t f, unsigned int m, void *p) { if (p != &td_n) die("scope"); fprintf(td_f, "%s[", td_n ? "," : ""); plimbs(td_f, f); fprintf(td_f, ",%u]", m); return ++td_n == td_stop; }
static void tomem(const char *s, mpz_t z) { if (mpz_set_str(z, s, 0)) die("bad number %s", s); }
#define T(i) (tok[i] ? tok[i] : (die("missing token %d", i), (char *) 0))
static char *tok[400]; static int ntok;

/* kinds of the groups of each pairing type: base-field chains, innermost first */
static char *ovText; static size_t ovLen, ovLim;   /* text given to the library instead, see pairingt */
static void mkpairing(const char *nm, char *txt, size_t n) {
  prec *p = calloc(1, sizeof *p); strncpy(p->name, nm, 39);
  #ifdef WITH_XX
  int rc = x_open(p, ovText ? ovText : txt, ovText ? ovLen : n);
#else
  int rc = ovText ? (p->p = p->own, ovLim ? pairing_init_set_buf(p->p, ovText, ovLim) : pairing_init_set_str(p->p, ovText)) : x_open(p, txt, n);
#endif
  if (rc) { rbegin("pairing"); rint("r", rc); if (ovText) { fprintf(L, ",\"text\":"); pbytes(L, (unsigned char *) ovText, ovLen); rint("lim", (long) ovLim); } rend(); free(p); return; }
  P_[nP++] = p; obj('+', "pairing", nm);
  char type[16] = ""; char *t = strstr(txt, "type"); if (t) sscanf(t, "type %15s", type);
  char nb[80];
#define SUB(x) (snprintf(nb, sizeof nb, "%s.%s", nm, x), nb)
  element_t g1, g2, gt; element_init_G1(g1, p->p); element_init_G2(g2, p->p); element_init_GT(gt, p->p);
  p->zr = probe(p->p->Zr, SUB("Zr"), "zn");
  int c = type[0];
  if (c == 'i') {
    p->g1 = probe(p->p->G1, SUB("G1"), "opaque"); p->g2 = p->p->G1 == p->p->G2 ? p->g1 : probe(p->p->G2, SUB("G2"), "opaque");
    p->gt = probe(p->p->GT, SUB("GT"), "g33"); p->gt->gt = 1;
    element_ptr it = element_item(gt, 0); frec *b = probe(it->field, SUB("Fq2"), "g32"); p->gt->base = b;
    frec *b3 = probe(element_item(it, 0)->field, SUB("Fq"), "g3"); b->base = b3;
    int m = 0, tt = 0; char *q = strstr(txt, "\nm "); if (q) m = atoi(q + 3); q = strstr(txt, "\nt "); if (q) tt = atoi(q + 3); b3->m = m; b3->t = tt;
  } else {
    p->g1 = probe(p->p->G1, SUB("G1"), "ec");
    p->g1->base = probe(curve_field_a_coeff(p->p->G1)->field, SUB("Fq"), "zn");
    if (p->p->G1 == p->p->G2) p->g2 = p->g1;
    else {
      p->g2 = probe(p->p->G2, SUB("G2"), "ec");
      field_ptr bf = curve_field_a_coeff(p->p->G2)->field;
      if (bf == p->g1->base->f) p->g2->base = p->g1->base;
      else { p->g2->base = probe(bf, SUB("Fqd"), c == 'f' ? "quad" : "pm"); p->g2->base->base = p->g1->base; }
    }
    if (c == 'e') { p->gt = probe(p->p->GT, SUB("GT"), "zn"); p->gt->gt = 1; }
    else if (c == 'a') { p->gt = probe(p->p->GT, SUB("GT"), "quad"); p->gt->gt = 1; p->gt->base = probe(element_item(gt, 0)->field, SUB("FqT"), "zn"); }
    else if (c == 'd' || c == 'g') { p->gt = probe(p->p->GT, SUB("GT"), "quad"); p->gt->gt = 1; p->gt->base = probe(element_item(gt, 0)->field, SUB("FqdT"), "pm"); p->gt->base->base = p->g1->base; }
    else if (c == 'f') { p->gt = probe(p->p->GT, SUB("GT"), "pm"); p->gt->gt = 1; p->gt->base = probe(element_item(gt, 0)->field, SUB("Fq2T"), "quad"); p->gt->base->base = p->g1->base; }
    else die("type %s", type);
  }
  if (c != 'i' && c != 'f') { char *q = strstr(txt, !strcmp(type, "a1") ? "\nl " : "\nh "); if (q) { p->g1->hascof = 1; mpz_init(p->g1->cof); gmp_sscanf(q + 3, "%Zd", p->g1->cof); } }
  if (p->g1 == p->g2) { frec *a = newF(SUB("G2")); char keep[40]; strcpy(keep, a->name); *a = *p->g1; strcpy(a->name, keep); p->g2 = a; }
  p->g1->pr = p->g2->pr = p->gt->pr = p->zr->pr = p; if (p->g1->base) p->g1->base->pr = p;
  element_clear(g1); element_clear(g2); element_clear(gt);
  rbegin("pairing"); if (ovText) { fprintf(L, ",\"text\":"); pbytes(L, (unsigned char *) ovText, ovLen); rint("lim", (long) ovLim); } fprintf(L, ",\"p\":\"%s\",\"r\":0,\"sym\":%d,\"type\":\"%s\"", nm, X_SYM(p), type);
  fprintf(L, ",\"len\":[%d,%d,%d,%d,%d,%d,%d,%d]", pairing_length_in_bytes_G1(p->p), pairing_length_in_bytes_G2(p->p), pairing_length_in_bytes_GT(p->p), pairing_length_in_bytes_Zr(p->p),
    c == 'i' ? 0 : pairing_length_in_bytes_compressed_G1(p->p), c == 'i' ? 0 : pairing_length_in_bytes_compressed_G2(p->p),
    c == 'i' ? 0 : pairing_length_in_bytes_x_only_G1(p->p), c == 'i' ? 0 : pairing_length_in_bytes_x_only_G2(p->p));
  rend();
}
static ppr *getPP(const char *n, int mk) {
  for (int i = 0; i < nPP; i++) if (PP_[i]->live && !strcmp(PP_[i]->name, n)) return PP_[i];
  if (!mk) die("no pp %s", n);
  if (nPP >= 199) die("too many pp");
  ppr *p = calloc(1, sizeof *p); strncpy(p->name, n, 39); p->live = 1; PP_[nPP++] = p; return p;
}

typedef void (*op1)(element_t, element_t);
typedef void (*op2)(element_t, element_t, element_t);
#define W1(nm, fn) static void nm(element_t c, element_t a) { fn(c, a); }
#define W2(nm, fn) static void nm(element_t c, element_t a, element_t b) { fn(c, a, b); }
W1(w_set, element_set) W1(w_neg, element_neg) W1(w_dbl, element_double) W1(w_halve, element_halve) W1(w_sq, element_square) W1(w_inv, element_invert) W1(w_cubic, element_cubic)
W2(w_add, element_add) W2(w_sub, element_sub) W2(w_mul, element_mul) W2(w_div, element_div)
static struct { const char *n; op1 f; } O1[] = {{"set", w_set}, {"neg", w_neg}, {"dbl", w_dbl}, {"halve", w_halve}, {"sq", w_sq}, {"inv", w_inv}, {"cube", w_cubic}, {0, 0}};
static struct { const char *n; op2 f; } O2[] = {{"add", w_add}, {"sub", w_sub}, {"mul", w_mul}, {"div", w_div}, {0, 0}};

static int ext(int argc, char **argv); static int par(int argc, char **argv), gen(int argc, char **argv);   /* further commands, below */

static void run_line(char *line) {
  ntok = 0; memset(tok, 0, sizeof tok);
  for (char *p = strtok(line, " \t\r\n"); p && ntok < 399; p = strtok(0, " \t\r\n")) tok[ntok++] = p;
  if (!ntok || tok[0][0] == '#') return;
  if (!strcmp(tok[0], "nz")) {          /* only if the (last) operand is not the identity */
    memmove(tok, tok + 1, (ntok--) * sizeof tok[0]);
    reg *q = getR(tok[ntok - 1]); if (element_is0(q->e)) { rbegin("skip0"); rregs("a", 1, &q); rvals(1, &q); rend(); return; }
  }
  const char *c = tok[0]; mpz_t z, z2, z3; reg *r[8]; memset(r, 0, sizeof r);
  mpz_init(z); mpz_init(z2); mpz_init(z3);
  for (int i = 0; O1[i].n; i++) if (!strcmp(c, O1[i].n)) {
    r[0] = getR(T(1)); r[1] = getR(T(2));
    if (!strcmp(c, "inv") && zero_items(r[1]->e, r[1]->F)) { rbegin("skip"); rregs("a", 2, r); rvals(2, r); rend(); goto done; }
    if (!x_op(c, r[0], r[1], 0)) O1[i].f(r[0]->e, r[1]->e);
    rbegin(c); rregs("a", 2, r); rvals(2, r); rend(); goto done;
  }
  for (int i = 0; O2[i].n; i++) if (!strcmp(c, O2[i].n)) {
    r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(3));
    if (!strcmp(c, "div") && zero_items(r[2]->e, r[2]->F)) { rbegin("skip"); reg *q[2] = {r[0], r[2]}; rregs("a", 2, q); rvals(2, q); rend(); goto done; }
    if (!x_op(c, r[0], r[1], r[2])) O2[i].f(r[0]->e, r[1]->e, r[2]->e);
    rbegin(c); rregs("a", 3, r); rvals(3, r); rend(); goto done;
  }
  if (!strcmp(c, "field")) {
    if (!strcmp(T(2), "base")) {              /* field NAME base OF: the field the coordinates of OF live in */
      frec *o = getF(T(3)); if (!o->base) die("no base"); frec *n = newF(T(1)); char keep[40]; strcpy(keep, n->name); *n = *o->base; strcpy(n->name, keep); logfield(n, "base", 0); goto done;
    }
    frec *F = newF(T(1)); F->f = malloc(sizeof(field_t)); const char *k = T(2);
    if (!strcmp(k, "zn")) {
      tomem(T(4), z); F->kind = ZN; const char *im = T(3);
      if (!strcmp(im, "naive")) field_init_naive_fp(F->f, z); else if (!strcmp(im, "fast")) field_init_fast_fp(F->f, z);
      else if (!strcmp(im, "faster")) field_init_faster_fp(F->f, z); else if (!strcmp(im, "mont")) field_init_mont_fp(F->f, z);
      else if (!strcmp(im, "fp")) field_init_fp(F->f, z); else die("impl %s", im);
      fxnum("ask", z);
    } else if (!strcmp(k, "quad")) { F->kind = QUAD; F->base = getF(T(3)); field_init_quadratic(F->f, F->base->f); sprintf(fx, ",\"of\":\"%s\"", T(3)); }
    else if (!strcmp(k, "fi")) { F->kind = QUAD; F->base = getF(T(3)); field_init_fi(F->f, F->base->f); }
    else if (!strcmp(k, "poly")) { F->kind = POLY; F->base = getF(T(3)); field_init_poly(F->f, F->base->f); }
    else if (!strcmp(k, "polymod")) { reg *p = getR(T(3)); F->kind = PM; F->base = p->F->base; field_init_polymod(F->f, p->e); }
    else if (!strcmp(k, "gf3m")) { F->kind = G3; F->m = atoi(T(3)); F->t = atoi(T(4)); field_init_gf3m(F->f, F->m, F->t); }
    else if (!strcmp(k, "gf32m")) { F->kind = G32; F->base = getF(T(3)); field_init_gf32m(F->f, F->base->f); }
    else if (!strcmp(k, "gf33m")) { F->kind = G33; F->base = getF(T(3)); field_init_gf33m(F->f, F->base->f); }
    else if (!strcmp(k, "z")) { F->kind = Z; field_init_z(F->f); }
    else if (!strcmp(k, "multiz")) { F->kind = MZ; field_init_multiz(F->f); }
    else if (!strcmp(k, "ec")) { F->kind = EC; F->base = getF(T(3)); tomem(T(6), z); int hc = strcmp(T(7), "-"); if (hc) tomem(T(7), z2);
      field_init_curve_ab(F->f, getR(T(4))->e, getR(T(5))->e, z, hc ? z2 : NULL); if (hc) { F->hascof = 1; mpz_init_set(F->cof, z2); } sprintf(fx, ",\"ra\":\"%s\",\"rb\":\"%s\"", T(4), T(5)); fxnum("ask", z); }
    else if (!strcmp(k, "ecj") || !strcmp(k, "ecb")) { F->kind = EC; F->base = getF(T(3)); tomem(T(5), z); int hc = strcmp(T(6), "-"); if (hc) tomem(T(6), z2);       /* field NAME ecj|ecb K REG ORDER COFACTOR */
      (k[2] == 'j' ? field_init_curve_j : field_init_curve_b)(F->f, getR(T(4))->e, z, hc ? z2 : NULL); if (hc) { F->hascof = 1; mpz_init_set(F->cof, z2); } sprintf(fx, ",\"rb\":\"%s\"", T(4)); fxnum("ask", z); }
    else if (!strcmp(k, "ecmap")) { F->kind = EC; frec *o = getF(T(3)); F->base = getF(T(4)); tomem(T(5), z); int hc = strcmp(T(6), "-"); if (hc) tomem(T(6), z2);   /* field NAME ecmap CURVE K ORDER COFACTOR */
      field_init_curve_ab_map(F->f, o->f, F->base->kind == PM ? element_field_to_polymod : element_field_to_quadratic, F->base->f, z, hc ? z2 : NULL); if (hc) { F->hascof = 1; mpz_init_set(F->cof, z2); } sprintf(fx, ",\"of\":\"%s\"", T(3)); fxnum("ask", z); }
    else die("field kind %s", k);
    obj('+', "field", F->name); logfield(F, k, strcmp(k, "polymod") ? 0 : getR(T(3))); goto done;
  }
  if (!strcmp(c, "fclear")) { frec *F = getF(T(1)); field_clear(F->f); free(F->f); if (F->hascof) mpz_clear(F->cof); obj('-', "field", F->name); F->name[0] = '!'; rbegin(c); fprintf(L, ",\"f\":\"%s\"", T(1)); rend(); goto done; }
  if (!strcmp(c, "twist")) { frec *F = getF(T(1)); field_reinit_curve_twist(F->f); logfield(F, "twist", 0); goto done; }
  if (!strcmp(c, "setnqr")) { frec *F = getF(T(1)); reg *q[1] = {getR(T(2))}; field_set_nqr(F->f, q[0]->e); rbegin(c); fprintf(L, ",\"f\":\"%s\"", T(1)); rregs("a", 1, q); rvals(1, q); rend(); goto done; }
  if (!strcmp(c, "getnqr")) { frec *F = getF(T(1)); reg *q[1] = {getR(T(2))}; element_set(q[0]->e, field_get_nqr(F->f)); rbegin(c); fprintf(L, ",\"f\":\"%s\"", T(1)); rregs("a", 1, q); rvals(1, q); rend(); goto done; }
  if (!strcmp(c, "tracen")) {            /* tracen Q T N ALIAS: trace and number of points over the extension of degree N; ALIAS: which operand receives the result (0 none, 1 q, 2 t) */
    tomem(T(1), z); tomem(T(2), z2); int n = atoi(T(3)), al = atoi(T(4)); mpz_t q, t, v; mpz_init_set(q, z); mpz_init_set(t, z2); mpz_init_set_ui(v, 77); mpz_ptr d = al == 1 ? q : al == 2 ? t : v;
    pbc_mpz_trace_n(d, q, t, n); rbegin(c); rnum("q", z); rnum("t", z2); rint("n", n); rnum("tr", d); int bad = (al != 1 && mpz_cmp(q, z)) || (al != 2 && mpz_cmp(t, z2));
    mpz_set(q, z); mpz_set(t, z2); pbc_mpz_curve_order_extn(d, q, t, n); rnum("o", d); bad |= (al != 1 && mpz_cmp(q, z)) || (al != 2 && mpz_cmp(t, z2)); rint("nmod", bad); rend(); mpz_clear(q); mpz_clear(t); mpz_clear(v); goto done;
  }
  if (!strcmp(c, "tdiv")) {              /* tdiv N LIMIT|- STOP: stop at the STOP-th factor (0: never) */
    tomem(T(1), z); int hl = strcmp(T(2), "-"); if (hl) tomem(T(2), z2); td_stop = atoi(T(3)); td_n = 0; td_f = open_memstream(&td_b, &td_len); int v = pbc_trial_divide(td_cb, &td_n, z, hl ? z2 : NULL); fclose(td_f);
    rbegin(c); rnum("n", z); rint("hl", !!hl); if (hl) rnum("lim", z2); rint("stop", td_stop); fprintf(L, ",\"fs\":[%s]", td_b); rint("r", v); rend(); free(td_b); goto done;
  }
  if (!strcmp(c, "tweakfp")) { pbc_tweak_use_fp(T(1)); goto done; }
  if (!strcmp(c, "pairingt")) {          /* pairingt NAME LIMIT HEX CLEAN: the library reads HEX (at most LIMIT bytes), the driver knows the structure from CLEAN */
    int n; ovText = (char *) unhex(T(3), &n); ovLen = n; ovLim = strtoul(T(2), 0, 10);
    if (ovLim && ovLim <= ovLen) { char *e = malloc(ovLim); memcpy(e, ovText, ovLim); free(ovText); ovText = e; ovLen = ovLim; }
    memmove(tok + 2, tok + 4, sizeof tok[0] * 10); c = "pairing";
  }
  if (!strcmp(c, "pairing")) { size_t n; char *b;
    if (T(2)[0] == '@') { b = strdup(T(2) + 1); n = strlen(b); for (char *q = b; *q; q++) if (*q == ',') *q = '\n'; else if (*q == '=') *q = ' '; } else b = slurp(T(2), &n);
    mkpairing(T(1), b, n); free(b); free(ovText); ovText = 0;
    if (nP && !strcmp(P_[nP - 1]->name, tok[1])) { prec *p = P_[nP - 1]; frec *fs[5] = {p->g1, p->g2, p->gt, p->zr, p->g1->base}; const char *kn[5] = {"G1", "G2", "GT", "Zr", "Fq"}; for (int i = 0; i < (fs[4] ? 5 : 4); i++) logfield(fs[i], kn[i], 0); } goto done; }
  if (!strcmp(c, "pclear")) {
    { int here = 0; for (int i = 0; i < nP; i++) here |= !strcmp(P_[i]->name, T(1)); if (!here) goto done; }     /* its text was refused */
    prec *p = getP(T(1)); for (int i = 0; i < nR; i++) if (R_[i]->live && R_[i]->F->pr == p) { x_del(R_[i]); R_[i]->live = 0; obj('-', "elem", R_[i]->name); }
    for (int i = 0; i < nF; i++) if (F_[i]->pr == p && !F_[i]->hasq) for (int j = 0; j < F_[i]->nreps; j++) { element_clear(F_[i]->reps[j]); free(F_[i]->reps[j]); }
    x_close(p); p->name[0] = '!'; if (p->g1->hascof) { mpz_clear(p->g1->cof); p->g1->hascof = p->g2->hascof = 0; } for (int i = 0; i < nF; i++) if (F_[i]->pr == p) F_[i]->name[0] = '!';
    obj('-', "pairing", T(1)); rbegin("pclear"); fprintf(L, ",\"p\":\"%s\"", T(1)); rend(); goto done;
  }
  if (!strcmp(c, "probe")) {  /* the pairing of two hashed points, as bytes */
    prec *p = getP(T(1)); element_t a, b, u; element_init_G1(a, p->p); element_init_G2(b, p->p); element_init_GT(u, p->p);
    element_from_hash(a, T(3), strlen(T(3))); element_from_hash(b, T(4), strlen(T(4))); pairing_apply(u, a, b, p->p);
    rbegin("probe"); fprintf(L, ",\"key\":[\"%s\",\"%s\",\"%s\"]", T(2), T(3), T(4)); element_ptr es[3] = {a, b, u}; const char *kn[3] = {"ba", "bb", "bu"};
    for (int i = 0; i < 3; i++) { int n = element_length_in_bytes(es[i]); unsigned char *bb = malloc(n + 1); element_to_bytes(bb, es[i]); fprintf(L, ",\"%s\":", kn[i]); pbytes(L, bb, n); free(bb); }
    rend(); element_clear(a); element_clear(b); element_clear(u); goto done;
  }
  if (!strcmp(c, "cofac")) { frec *F = getF(T(1)); mpz_init_set_str(F->qcof, T(2), 10); F->hasq = 1; goto done; }
  if (!strcmp(c, "classmode")) { getF(T(1))->classmode = atoi(T(2)); goto done; }
  if (!strcmp(c, "flags")) { flagmode = atoi(T(1)); goto done; }
  if (!strcmp(c, "elem")) {
    if (findR(T(1))) die("register exists");
    frec *F = getF(T(2)); reg *q = 0; for (int i = 0; i < nR; i++) if (!R_[i]->live) q = R_[i];
    if (!q) { if (nR >= MAXR) die("too many registers"); q = R_[nR++] = calloc(1, sizeof *q); }
    memset(q, 0, sizeof *q); strncpy(q->name, T(1), 39); q->F = F; q->live = 1; x_new(q, 0); obj('+', "elem", q->name);
    rbegin("elem"); if (F->classmode) rint("cm", 1); rregs("a", 1, &q); fprintf(L, ",\"f\":\"%s\"", F->name); rvals(1, &q); rend(); goto done;
  }
  if (!strcmp(c, "clear")) { reg *q = getR(T(1)); x_del(q); q->live = 0; obj('-', "elem", q->name); rbegin("clear"); rregs("a", 1, &q); rend(); goto done; }
  if (!strcmp(c, "set0") || !strcmp(c, "set1")) { r[0] = getR(T(1)); if (x_op(c, r[0], 0, 0)) ; else if (c[3] == '0') element_set0(r[0]->e); else element_set1(r[0]->e); rbegin(c); rregs("a", 1, r); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "setsi")) { r[0] = getR(T(1)); long v = strtol(T(2), 0, 10); if (!x_setz(r[0], 0, v)) element_set_si(r[0]->e, v); mpz_set_si(z, v); rbegin(c); rregs("a", 1, r); rnum("n", z); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "setmpz")) { r[0] = getR(T(1)); tomem(T(2), z); mpz_set(z2, z); if (!x_setz(r[0], z, 0)) element_set_mpz(r[0]->e, z); rbegin(c); rregs("a", 1, r); rnum("n", z2); rint("nmod", mpz_cmp(z, z2) != 0); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "mulmpz") || !strcmp(c, "powmpz")) {
    r[0] = getR(T(1)); r[1] = getR(T(2)); tomem(T(3), z); mpz_set(z2, z);
    if (x_scalez(c, r[0], r[1], z)) ; else if (c[0] == 'm') element_mul_mpz(r[0]->e, r[1]->e, z); else element_pow_mpz(r[0]->e, r[1]->e, z);
    rbegin(c); rregs("a", 2, r); rnum("n", z2); rint("nmod", mpz_cmp(z, z2) != 0); rvals(2, r); rend(); goto done;
  }
  if (!strcmp(c, "mulsi")) { r[0] = getR(T(1)); r[1] = getR(T(2)); long v = strtol(T(3), 0, 10); element_mul_si(r[0]->e, r[1]->e, v); mpz_set_si(z, v); rbegin(c); rregs("a", 2, r); rnum("n", z); rvals(2, r); rend(); goto done; }
  if (!strcmp(c, "addui")) { r[0] = getR(T(1)); r[1] = getR(T(2)); unsigned long v = strtoul(T(3), 0, 10); element_add_ui(r[0]->e, r[1]->e, v); mpz_set_ui(z, v); rbegin(c); rregs("a", 2, r); rnum("n", z); rvals(2, r); rend(); goto done; }
  if (!strcmp(c, "mulzn") || !strcmp(c, "powzn")) {
    r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(3));
    if (x_scale(c, r[0], r[1], r[2])) ; else if (c[0] == 'm') element_mul_zn(r[0]->e, r[1]->e, r[2]->e); else element_pow_zn(r[0]->e, r[1]->e, r[2]->e);
    rbegin(c); rregs("a", 3, r); rvals(3, r); rend(); goto done;
  }
  if (!strcmp(c, "pow2mpz")) { r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(4)); tomem(T(3), z); tomem(T(5), z2); element_pow2_mpz(r[0]->e, r[1]->e, z, r[2]->e, z2);
    rbegin(c); rregs("a", 3, r); rnum("n1", z); rnum("n2", z2); rvals(3, r); rend(); goto done; }
  if (!strcmp(c, "pow3mpz")) { r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(4)); r[3] = getR(T(6)); tomem(T(3), z); tomem(T(5), z2); tomem(T(7), z3);
    element_pow3_mpz(r[0]->e, r[1]->e, z, r[2]->e, z2, r[3]->e, z3); rbegin(c); rregs("a", 4, r); rnum("n1", z); rnum("n2", z2); rnum("n3", z3); rvals(4, r); rend(); goto done; }
  if (!strcmp(c, "pow2zn")) { r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(3)); r[3] = getR(T(4)); r[4] = getR(T(5)); element_pow2_zn(r[0]->e, r[1]->e, r[2]->e, r[3]->e, r[4]->e); rbegin(c); rregs("a", 5, r); rvals(5, r); rend(); goto done; }
  if (!strcmp(c, "pow3zn")) { for (int i = 0; i < 7; i++) r[i] = getR(T(i + 1)); element_pow3_zn(r[0]->e, r[1]->e, r[2]->e, r[3]->e, r[4]->e, r[5]->e, r[6]->e); rbegin(c); rregs("a", 7, r); rvals(7, r); rend(); goto done; }
  if (!strcmp(c, "ppinit")) { r[0] = getR(T(2)); ppr *p = getPP(T(1), 1); p->kind = 0; obj('+', "pp", p->name); element_pp_init(p->pp, r[0]->e); rbegin(c); rregs("a", 1, r); fprintf(L, ",\"pp\":\"%s\"", p->name); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "pppow")) { r[0] = getR(T(1)); ppr *p = getPP(T(2), 0); tomem(T(3), z); mpz_set(z2, z); element_pp_pow(r[0]->e, z, p->pp); rbegin(c); rregs("a", 1, r); fprintf(L, ",\"pp\":\"%s\"", p->name); rnum("n", z2); rint("nmod", mpz_cmp(z, z2) != 0); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "pppowzn")) { r[0] = getR(T(1)); ppr *p = getPP(T(2), 0); r[1] = getR(T(3)); element_pp_pow_zn(r[0]->e, r[1]->e, p->pp); rbegin(c); rregs("a", 2, r); fprintf(L, ",\"pp\":\"%s\"", p->name); rvals(2, r); rend(); goto done; }
  if (!strcmp(c, "ppclear")) { ppr *p = getPP(T(1), 0); if (p->kind == 0) element_pp_clear(p->pp); else pairing_pp_clear(p->pairpp); p->live = 0; obj('-', "pp", p->name); rbegin(c); fprintf(L, ",\"pp\":\"%s\"", p->name); rend(); goto done; }
  if (!strcmp(c, "issqr")) { r[0] = getR(T(1)); int v = element_is_sqr(r[0]->e); rbegin(c); rregs("a", 1, r); rint("r", !!v); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "sqrt")) { r[0] = getR(T(1)); r[1] = getR(T(2)); int v = !!element_is_sqr(r[1]->e); if (v) element_sqrt(r[0]->e, r[1]->e); rbegin(c); rregs("a", 2, r); rint("r", v); rvals(2, r); rend(); goto done; }
  if (!strcmp(c, "sign")) { r[0] = getR(T(1)); int v = element_sign(r[0]->e); element_t n; element_init_same_as(n, r[0]->e); element_neg(n, r[0]->e); int w = element_sign(n); element_clear(n);
    rbegin(c); rregs("a", 1, r); rint("r", v > 0 ? 1 : v < 0 ? -1 : 0); rint("rn", w > 0 ? 1 : w < 0 ? -1 : 0); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "cmp")) { r[0] = getR(T(1)); r[1] = getR(T(2)); int v = 0; if (!x_cmp(r[0], r[1], &v)) v = element_cmp(r[0]->e, r[1]->e); rbegin(c); rregs("a", 2, r); rint("r", !!v); rint("s", v > 0 ? 1 : v < 0 ? -1 : 0); rvals(2, r); rend(); goto done; }
  if (!strcmp(c, "tosi")) { r[0] = getR(T(1)); mpz_set_si(z, element_to_si(r[0]->e)); rbegin(c); rregs("a", 1, r); rnum("n", z); rvals(1, r); rend(); goto done; }
  if (!strcmp(c, "dump")) {
    reg *all[MAXR]; int n = 0; for (int i = 0; i < nR; i++) if (R_[i]->live) all[n++] = R_[i];
    int fm = flagmode; flagmode = 0; rbegin("dump"); rvals(n, all); rend(); flagmode = fm; goto done;
  }
  if (!ext(ntok, tok) && !par(ntok, tok) && !gen(ntok, tok)) die("unknown command %s", c);
done:
  mpz_clear(z); mpz_clear(z2); mpz_clear(z3);
}
#include "drv_ext.c"
#include "drv_par.c"
#include "drv_gen.c"

static void on_alarm(int s) { (void) s; const char *m = "{\"ln\":0,\"op\":\"timeout\"}\n"; if (write(fileno(memOn ? memL : L), m, strlen(m)) < 0) _exit(99); _exit(99); }
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: drv script log [seconds]\n"); return 70; }
  FILE *s = fopen(argv[1], "r"); if (!s) die("open %s", argv[1]);
  L = fopen(argv[2], "w"); if (!L) die("open %s", argv[2]);
  char *line = 0; size_t cap = 0;
  if (getline(&line, &cap, s) > 0 && !strncmp(line, "mem on", 6)) { memOn = 1; memL = L; L = fopen("/dev/null", "w"); }
  else if (line && !strncmp(line, "mem track", 9)) { memTrack = 1; lineno = 1; } else rewind(s);
  if (memOn || memTrack) mem_install();
  if (memOn) lineno = 1;
  gmp_randinit_default(rs); gmp_randseed_ui(rs, 1);
  pbc_set_msg_to_stderr(0);
  if (argc > 3) { signal(SIGALRM, on_alarm); alarm(atoi(argv[3])); }
  if (memOn) { gmp_randseed_ui(rs, 7); mem_begin(); }
  while (getline(&line, &cap, s) > 0) {
    lineno++; char cmd[24] = ""; sscanf(line, "%23s", cmd);
    if (memOn) mem_begin();
    run_line(line);
    if (memOn) mem_log(cmd);
  }
  if (memOn) { fclose(L); L = memL; }
  rbegin("end"); rend();
  fclose(L); fclose(s);
  return 0;
}
