/* Parameter generators, CM searches and class polynomials. */
static void emittext(pbc_param_ptr p) { size_t n; char *o = outtext(p, &n); fprintf(L, ",\"text\":"); pbytes(L, (unsigned char *) o, n); free(o); }
struct cmreq { int kind, stopat, got, gen, done; unsigned D, lim; };
static int cmcb(pbc_cm_t cm, void *data) {
  struct cmreq *q = data;
  rbegin("cm"); rint("D", cm->D); rint("k", cm->k); rint("reqD", q->D); rint("lim", q->lim); rint("kind", q->kind); rint("after", q->done);
  rnum("q", cm->q); rnum("n", cm->n); rnum("h", cm->h); rnum("r", cm->r); rend();
  if (q->got++ == q->gen) {
    pbc_param_t p; long h0 = held();
    if (q->kind == 6) pbc_param_init_d_gen(p, cm); else pbc_param_init_g_gen(p, cm);
    rbegin("gencm"); rnum("q", cm->q); rnum("n", cm->n); rnum("h", cm->h); rnum("r", cm->r); rint("k", cm->k); emittext(p);
    pbc_param_clear(p); rint("held", held() - h0); rend();
  }
  if (q->got == q->stopat) { q->done = 1; return 40 + q->got; }
  return 0;
}
static int gen(int argc, char **argv) {
  (void) argc; const char *c = argv[0];
  if (IS("gen")) {                                    /* gen TYPE N M */
    pbc_param_t p; mpz_t z; long h0 = held(); mpz_init_set_str(z, T(2), 10); int n = (int) mpz_get_si(z), m = atoi(T(3)); const char *t = T(1);
    if (!strcmp(t, "a")) pbc_param_init_a_gen(p, n, m); else if (!strcmp(t, "a1")) pbc_param_init_a1_gen(p, z); else if (!strcmp(t, "e")) pbc_param_init_e_gen(p, n, m);
    else if (!strcmp(t, "f")) pbc_param_init_f_gen(p, n); else pbc_param_init_i_gen(p, n);
    rbegin(c); fprintf(L, ",\"type\":\"%s\"", t); rnum("n", z); rint("m", m); emittext(p); pbc_param_clear(p); mpz_clear(z); rint("held", held() - h0); rend(); return 1;
  }
  if (IS("cmsearch")) {                               /* cmsearch 6|10 D LIMIT STOPAT GENAT */
    struct cmreq q = {atoi(T(1)), atoi(T(4)), 0, atoi(T(5)), 0, (unsigned) strtoul(T(2), 0, 10), (unsigned) atoi(T(3))}; long h0 = held();
    int r = q.kind == 6 ? pbc_cm_search_d(cmcb, &q, q.D, q.lim) : pbc_cm_search_g(cmcb, &q, q.D, q.lim);
    rbegin(c); rint("r", r); rint("got", q.got); rint("stopat", q.stopat); rint("held", held() - h0); rint("least", atoi(T(6))); rend(); return 1;
  }
  if (IS("hilbert")) {
    int D = atoi(T(1)); mpz_t *a; long h0 = held(); size_t i, n = pbc_hilbert(&a, D);
    rbegin(c); rint("D", D); rint("many", atoi(T(2))); fprintf(L, ",\"c\":["); for (i = 0; i < n; i++) { if (i) fprintf(L, ","); psigned(L, a[i]); } fprintf(L, "]"); pbc_hilbert_free(a, n); rint("held", held() - h0); rend(); return 1;
  }
  return 0;
}
