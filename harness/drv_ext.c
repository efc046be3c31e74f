/* Serialisation, text, hashing, randomness, pairings, polynomials, batch ops. */
static void check_guard(unsigned char *b, long used, long cap) { (void) b; (void) used; (void) cap; }
#define IS(x) (!strcmp(c, x))
static int ext(int argc, char **argv) {
  (void) argc; const char *c = argv[0]; reg *r[8]; memset(r, 0, sizeof r); mpz_t z, z2; mpz_init(z); mpz_init(z2); int done = 1;
  if (IS("tobytes") || IS("tobytesc") || IS("tobytesx")) {
    r[0] = getR(T(1)); int n = IS("tobytes") ? element_length_in_bytes(r[0]->e) : IS("tobytesc") ? element_length_in_bytes_compressed(r[0]->e) : element_length_in_bytes_x_only(r[0]->e);
    if (n < 0 || n > 1 << 20) die("length %d", n);
    unsigned char *b = malloc(n + 64); memset(b, 0xA5, n + 64);
    int w = IS("tobytes") ? element_to_bytes(b, r[0]->e) : IS("tobytesc") ? element_to_bytes_compressed(b, r[0]->e) : element_to_bytes_x_only(b, r[0]->e);
    int over = 0; for (int i = n; i < n + 64; i++) if (b[i] != 0xA5) over = 1;
    rbegin(c); rregs("a", 1, r); rint("len", n); rint("r", w); rint("over", over); fprintf(L, ",\"b\":"); pbytes(L, b, n); rvals(1, r); rend(); free(b);
  } else if (IS("frombytes") || IS("frombytesc") || IS("frombytesx")) {    /* frombytes REG HEX */
    r[0] = getR(T(1)); int n; unsigned char *h = unhex(T(2), &n);
    int need = IS("frombytes") ? element_length_in_bytes(r[0]->e) : IS("frombytesc") ? element_length_in_bytes_compressed(r[0]->e) : element_length_in_bytes_x_only(r[0]->e);
    int alloc = n > need ? n : need; unsigned char *b = calloc(alloc + 1, 1), *b2 = malloc(alloc + 1); memcpy(b, h, n); memcpy(b2, b, alloc + 1);
    int used = IS("frombytes") ? element_from_bytes(r[0]->e, b) : IS("frombytesc") ? element_from_bytes_compressed(r[0]->e, b) : element_from_bytes_x_only(r[0]->e, b);
    rbegin(c); rregs("a", 1, r); rint("r", used); rint("inmod", !!memcmp(b, b2, alloc)); fprintf(L, ",\"b\":"); pbytes(L, b2, alloc); rvals(1, r); rend(); free(h); free(b); free(b2);
  } else if (IS("rt") || IS("rtc") || IS("rtx")) {       /* rt DST SRC: write SRC's bytes, read them into DST */
    r[0] = getR(T(1)); r[1] = getR(T(2));
    int n = IS("rt") ? element_length_in_bytes(r[1]->e) : IS("rtc") ? element_length_in_bytes_compressed(r[1]->e) : element_length_in_bytes_x_only(r[1]->e);
    unsigned char *b = malloc(n + 64), *b2 = malloc(n + 64); memset(b, 0xA5, n + 64);
    int w = IS("rt") ? element_to_bytes(b, r[1]->e) : IS("rtc") ? element_to_bytes_compressed(b, r[1]->e) : element_to_bytes_x_only(b, r[1]->e);
    int over = 0; for (int i = n; i < n + 64; i++) if (b[i] != 0xA5) over = 1;
    memcpy(b2, b, n + 64);
    int used = IS("rt") ? element_from_bytes(r[0]->e, b) : IS("rtc") ? element_from_bytes_compressed(r[0]->e, b) : element_from_bytes_x_only(r[0]->e, b);
    rbegin(c); rregs("a", 2, r); rint("len", n); rint("w", w); rint("r", used); rint("over", over); rint("inmod", !!memcmp(b, b2, n)); fprintf(L, ",\"b\":"); pbytes(L, b2, n); rvals(2, r); rend(); free(b); free(b2);
  } else if (IS("snprint")) {                            /* snprint REG SIZE */
    r[0] = getR(T(1)); int n; char *b;
    { size_t sz; FILE *mf = open_memstream(&b, &sz); element_out_str(mf, 10, r[0]->e); fclose(mf); free(b); n = T(2)[0] == 'L' ? (int) sz + atoi(T(2) + 1) : T(2)[0] == 'H' ? (int) sz / 2 : atoi(T(2)); if (n < 0) n = 0; }
    b = malloc(n + 64); memset(b, 0x5A, n + 64);
    int v = element_snprint(b, n, r[0]->e); int over = 0; for (int i = n; i < n + 64; i++) if (b[i] != 0x5A) over = 1;
    long used = 0; while (used < n && b[used]) used++;
    rbegin(c); rregs("a", 1, r); rint("size", n); rint("r", v); rint("over", over); rint("term", n == 0 || used < n); fprintf(L, ",\"b\":"); pbytes(L, (unsigned char *) b, used); rvals(1, r); rend(); free(b);
  } else if (IS("fmt")) {                                /* fmt SIZE|file HEXFMT kind:arg ...  (e:REG d:INT s:HEX z:INT) */
    int n; char *f = (char *) unhex(T(2), &n); void *av[8] = {0}; reg *er[8]; int ne = 0, na = 0; mpz_t zs[8]; char *ss[8];
    int file = !strcmp(T(1), "file");
    for (int i = 3; tok[i] && na < 8; i++, na++) {
      char *v = tok[i] + 2; mpz_init(zs[na]); ss[na] = 0; int k;
      switch (tok[i][0]) {
        case 'e': er[ne] = getR(v); av[na] = er[ne++]->e; break;
        case 'd': av[na] = (void *) (intptr_t) atoi(v); mpz_set_si(zs[na], atoi(v)); break;
        case 's': ss[na] = (char *) unhex(v, &k); av[na] = ss[na]; break;
        case 'z': tomem(v, zs[na]); av[na] = zs[na]; break;
        default: die("fmt arg %s", tok[i]);
      }
    }
    char *b = 0; size_t sz = 0; int over = 0, term = 1, v; long used; int full = 0, size = 0;
    if (!file) {
      char *probe = 0; FILE *mf = open_memstream(&probe, &sz); full = element_fprintf(mf, f, av[0], av[1], av[2], av[3], av[4], av[5], av[6], av[7]); fclose(mf); free(probe);
      size = T(1)[0] == 'L' ? full + atoi(T(1) + 1) : T(1)[0] == 'H' ? full / 2 : atoi(T(1)); if (size < 0) size = 0;
      b = malloc(size + 64); memset(b, 0x5A, size + 64); v = element_snprintf(b, size, f, av[0], av[1], av[2], av[3], av[4], av[5], av[6], av[7]);
      for (int i = size; i < size + 64; i++) if (b[i] != 0x5A) over = 1;
      used = 0; while (used < size && b[used]) used++; term = size == 0 || used < size;
    } else { FILE *mf = open_memstream(&b, &sz); v = element_fprintf(mf, f, av[0], av[1], av[2], av[3], av[4], av[5], av[6], av[7]); fclose(mf); used = sz; size = -1; }
    rbegin(c); rint("size", size); rint("r", v); rint("over", over); rint("term", term); fprintf(L, ",\"f\":"); pbytes(L, (unsigned char *) f, n); fprintf(L, ",\"b\":"); pbytes(L, (unsigned char *) b, used);
    fprintf(L, ",\"args\":["); for (int i = 0; i < na; i++) { if (i) fputc(',', L); char k = tok[3 + i][0]; fprintf(L, "{\"k\":\"%c\"", k); if (k == 'e') fprintf(L, ",\"r\":\"%s\"", tok[3 + i] + 2); if (k == 'd' || k == 'z') rnum("n", zs[i]); if (k == 's') { fprintf(L, ",\"b\":"); pstr(L, ss[i]); } fprintf(L, "}"); }
    fprintf(L, "]"); rregs("a", ne, er); int fm = flagmode; flagmode = 0; rvals(ne, er); flagmode = fm; rend(); free(f); free(b);
    for (int i = 0; i < na; i++) { mpz_clear(zs[i]); free(ss[i]); }
  } else if (IS("outstr")) {
    r[0] = getR(T(1)); int base = atoi(T(2)); char *b = 0; size_t sz = 0; FILE *mf = open_memstream(&b, &sz); size_t v = element_out_str(mf, base, r[0]->e); fclose(mf);
    rbegin(c); rregs("a", 1, r); rint("base", base); rint("r", (long) v); fprintf(L, ",\"b\":"); pbytes(L, (unsigned char *) b, sz); rvals(1, r); rend(); free(b);
  } else if (IS("setstr")) {                             /* setstr REG BASE HEX */
    r[0] = getR(T(1)); int base = atoi(T(2)), n; unsigned char *h = unhex(T(3), &n); char *copy = strdup((char *) h);
    int v = element_set_str(r[0]->e, (char *) h, base);
    rbegin(c); rregs("a", 1, r); rint("base", base); rint("r", v); rint("inmod", !!strcmp(copy, (char *) h)); fprintf(L, ",\"b\":"); pbytes(L, (unsigned char *) copy, n); rvals(1, r); rend(); free(h); free(copy);
  } else if (IS("rtstr")) {                              /* rtstr DST SRC BASE: print SRC, parse into DST */
    r[0] = getR(T(1)); r[1] = getR(T(2)); int base = atoi(T(3)); char *b = 0; size_t sz = 0; FILE *mf = open_memstream(&b, &sz); size_t v = element_out_str(mf, base, r[1]->e); fclose(mf);
    int u = element_set_str(r[0]->e, b, base);
    rbegin(c); rregs("a", 2, r); rint("base", base); rint("w", (long) v); rint("r", u); fprintf(L, ",\"b\":"); pbytes(L, (unsigned char *) b, sz); rvals(2, r); rend(); free(b);
  } else if (IS("hash")) {                               /* hash REG HEX */
    r[0] = getR(T(1)); int n; unsigned char *h = unhex(T(2), &n), *h2 = malloc(n + 1); memcpy(h2, h, n);
    if (!x_hash(r[0], h, n)) element_from_hash(r[0]->e, h, n);
    rbegin(c); rregs("a", 1, r); rint("inmod", !!memcmp(h, h2, n)); fprintf(L, ",\"b\":"); pbytes(L, h2, n); rvals(1, r); rend(); free(h); free(h2);
  } else if (IS("random")) {
    r[0] = getR(T(1)); drawStart(); if (!x_op(c, r[0], 0, 0)) element_random(r[0]->e);
    rbegin(c); rregs("a", 1, r); drawEnd();
    if (r[0]->F->kind == OPAQUE) { element_t t; element_init_same_as(t, r[0]->e); element_mul_mpz(t, r[0]->e, r[0]->F->f->order); rint("ord", element_is0(t)); element_clear(t); }
    rvals(1, r); rend();
  } else if (IS("cover")) {                              /* cover REG N: the distinct values among N random elements */
    r[0] = getR(T(1)); int n = atoi(T(2)), m = 0; char **seen = calloc(n + 1, sizeof *seen); int dl = drawLog; drawLog = 0; drawStart();
    for (int i = 0; i < n; i++) {
      element_random(r[0]->e); char *b = 0; size_t sz = 0; FILE *o = open_memstream(&b, &sz); pval(o, r[0]->e, r[0]->F); fclose(o);
      int k = 0; while (k < m && strcmp(seen[k], b)) k++;
      if (k < m) free(b); else seen[m++] = b;
    }
    rbegin(c); rregs("a", 1, r); rint("n", n); drawEnd(); fprintf(L, ",\"seen\":["); for (int i = 0; i < m; i++) { fprintf(L, "%s%s", i ? "," : "", seen[i]); free(seen[i]); } fprintf(L, "]"); free(seen); drawLog = dl; rvals(1, r); rend();
  } else if (IS("rng")) {                                /* rng det SEED | fn SEED [log|edge] | file HEX | nofile | none */
    int n; unsigned char *h = 0; static char gone[] = "/nonexistent/source"; drawLog = 0;
    if (!strcmp(T(1), "det")) pbc_random_set_deterministic(strtoul(T(2), 0, 10));
    else if (!strcmp(T(1), "file")) {
      h = unhex(T(2), &n); if (!rngFile[0]) { snprintf(rngFile, sizeof rngFile, "rng.%d", (int) getpid()); atexit(rngGone); }
      FILE *o = fopen(rngFile, "wb"); fwrite(h, 1, n, o); fclose(o); pbc_random_set_file(rngFile);
    } else if (!strcmp(T(1), "nofile")) pbc_random_set_file(gone);
    else if (!strcmp(T(1), "fn")) { gmp_randseed_ui(rs, strtoul(T(2), 0, 10)); drawLog = !!tok[3]; edgy = tok[3] && !strcmp(tok[3], "edge"); pbc_random_set_function(my_random, 0); }
    rbegin(c); fprintf(L, ",\"k\":\"%s%s\"", T(1), !strcmp(T(1), "fn") && edgy ? "e" : ""); if (h) { fprintf(L, ",\"b\":"); pbytes(L, h, n); free(h); } else if (tok[2]) fprintf(L, ",\"seed\":%s", T(2)); rend();
  } else if (IS("mpzrandom")) {
    tomem(T(1), z); mpz_set(z2, z); mpz_t v; mpz_init(v); mpz_set_ui(v, 77); drawStart(); pbc_mpz_random(v, z);
    rbegin(c); rnum("lim", z2); rint("nmod", !!mpz_cmp(z, z2)); rnum("n", v); drawEnd(); rend(); mpz_clear(v);
  } else if (IS("mpzrandomb")) {
    mpz_t v; mpz_init(v); mpz_set_ui(v, 77); drawStart(); pbc_mpz_randomb(v, strtoul(T(1), 0, 10)); rbegin(c); rint("bits", atol(T(1))); rnum("n", v); drawEnd(); rend(); mpz_clear(v);
  } else if (IS("mdbl")) {                               /* mdbl N c1.. a1.. */
    int n = atoi(T(1)); element_t *cc = malloc(n * sizeof(element_t)), *aa = malloc(n * sizeof(element_t)); reg **cr = malloc(2 * n * sizeof(reg *));
    for (int i = 0; i < n; i++) { cr[i] = getR(T(2 + i)); cr[n + i] = getR(T(2 + n + i)); *cc[i] = *cr[i]->e; *aa[i] = *cr[n + i]->e; }
    element_multi_double(cc, aa, n); rbegin(c); rint("n", n); rregs("a", 2 * n, cr); rvals(2 * n, cr); rend(); free(cc); free(aa); free(cr);
  } else if (IS("madd")) {
    int n = atoi(T(1)); element_t *cc = malloc(n * sizeof(element_t)), *aa = malloc(n * sizeof(element_t)), *bb = malloc(n * sizeof(element_t)); reg **cr = malloc(3 * n * sizeof(reg *));
    for (int i = 0; i < n; i++) { cr[i] = getR(T(2 + i)); cr[n + i] = getR(T(2 + n + i)); cr[2 * n + i] = getR(T(2 + 2 * n + i)); *cc[i] = *cr[i]->e; *aa[i] = *cr[n + i]->e; *bb[i] = *cr[2 * n + i]->e; }
    element_multi_add(cc, aa, bb, n); rbegin(c); rint("n", n); rregs("a", 3 * n, cr); rvals(3 * n, cr); rend(); free(cc); free(aa); free(bb); free(cr);
  } else if (IS("setcoeff")) {                           /* setcoeff POLY BASEREG DEG */
    r[0] = getR(T(1)); r[1] = getR(T(2)); int d = atoi(T(3)); poly_set_coeff(r[0]->e, r[1]->e, d); rbegin(c); rregs("a", 2, r); rint("deg", d); rvals(2, r); rend();
  } else if (IS("setcoeff0") || IS("setcoeff1")) {
    r[0] = getR(T(1)); int d = atoi(T(2)); if (IS("setcoeff0")) poly_set_coeff0(r[0]->e, d); else poly_set_coeff1(r[0]->e, d); rbegin(c); rregs("a", 1, r); rint("deg", d); rvals(1, r); rend();
  } else if (IS("setx")) { r[0] = getR(T(1)); poly_setx(r[0]->e); rbegin(c); rregs("a", 1, r); rvals(1, r); rend(); }
  else if (IS("constmul")) {                             /* constmul DST BASEREG POLY */
    r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(3)); if (r[0]->F->kind == PM) polymod_const_mul(r[0]->e, r[1]->e, r[2]->e); else poly_const_mul(r[0]->e, r[1]->e, r[2]->e); rbegin(c); rregs("a", 3, r); rvals(3, r); rend();
  } else if (IS("findroot")) { r[0] = getR(T(1)); r[1] = getR(T(2)); int v = poly_findroot(r[0]->e, r[1]->e); rbegin(c); rregs("a", 2, r); rint("r", v); rvals(2, r); rend(); }
  else if (IS("isirred")) { r[0] = getR(T(1)); int v = poly_is_irred(r[0]->e); rbegin(c); rregs("a", 1, r); rint("r", v); rvals(1, r); rend(); }
  else if (IS("rndmonic")) { r[0] = getR(T(1)); drawStart(); poly_random_monic(r[0]->e, atoi(T(2))); rbegin(c); rregs("a", 1, r); drawEnd(); rint("deg", atoi(T(2))); rvals(1, r); rend(); }
  else if (IS("embed")) {                                /* embed DST BASEREG */
    r[0] = getR(T(1)); r[1] = getR(T(2));
    if (r[0]->F->kind == PM) element_field_to_polymod(r[0]->e, r[1]->e); else if (r[0]->F->kind == POLY) element_field_to_poly(r[0]->e, r[1]->e); else if (tok[3]) element_field_to_fi(r[0]->e, r[1]->e); else element_field_to_quadratic(r[0]->e, r[1]->e);
    rbegin(c); rregs("a", 2, r); rvals(2, r); rend();
  } else if (IS("item")) {                               /* item DST SRC I (copy of coordinate) */
    r[0] = getR(T(1)); r[1] = getR(T(2)); int i = !strcmp(T(3), "last") ? element_item_count(r[1]->e) - 1 : atoi(T(3));
    if (r[1]->F->kind == MZ && multiz_is_z(r[1]->e->data)) { rbegin("skipmz"); rregs("a", 2, r); rvals(2, r); rend(); }
    else { int cnt = element_item_count(r[1]->e); element_set(r[0]->e, element_item(r[1]->e, i)); rbegin(c); rregs("a", 2, r); rint("i", i); rint("cnt", cnt); rvals(2, r); rend(); }
  } else if (IS("setitem")) {                            /* setitem DST BASEREG I */
    r[0] = getR(T(1)); r[1] = getR(T(2)); int i = atoi(T(3)); element_set(element_item(r[0]->e, i), r[1]->e); rbegin(c); rregs("a", 2, r); rint("i", i); rvals(2, r); rend();
  } else if (IS("ecset")) { r[0] = getR(T(1)); long x = atol(T(2)), y = atol(T(3)); curve_set_si(r[0]->e, x, y); rbegin(c); rregs("a", 1, r); fprintf(L, ",\"x\":%ld,\"y\":%ld", x, y); rvals(1, r); rend(); }
  else if (IS("ecfromx")) { r[0] = getR(T(1)); r[1] = getR(T(2)); curve_from_x(r[0]->e, r[1]->e); rbegin(c); rregs("a", 2, r); rvals(2, r); rend(); }
  else if (IS("pair")) {                                 /* pair PAIRING GT G1 G2 */
    prec *p = getP(T(1)); r[0] = getR(T(2)); r[1] = getR(T(3)); r[2] = getR(T(4)); int xv; if (!tok[5] && x_pair(p, r[0], r[1], r[2], &xv)) ; else if (tok[5]) element_pairing(r[0]->e, r[1]->e, r[2]->e); else pairing_apply(r[0]->e, r[1]->e, r[2]->e, p->p);
    rbegin(c); fprintf(L, ",\"p\":\"%s\"", p->name); rregs("a", 3, r); rvals(3, r); rend();
  } else if (IS("prodpair")) {                           /* prodpair PAIRING GT N a1.. b1.. */
    prec *p = getP(T(1)); int n = atoi(T(3)); reg **cr = malloc((2 * n + 1) * sizeof(reg *)); element_t *a = malloc(n * sizeof(element_t)), *b = malloc(n * sizeof(element_t));
    cr[0] = getR(T(2)); for (int i = 0; i < n; i++) { cr[1 + i] = getR(T(4 + i)); cr[1 + n + i] = getR(T(4 + n + i)); *a[i] = *cr[1 + i]->e; *b[i] = *cr[1 + n + i]->e; }
    element_prod_pairing(cr[0]->e, a, b, n); rbegin(c); fprintf(L, ",\"p\":\"%s\"", p->name); rint("n", n); rregs("a", 2 * n + 1, cr); rvals(2 * n + 1, cr); rend(); free(cr); free(a); free(b);
  } else if (IS("pairpp")) {                             /* pairpp PAIRING NAME G1 */
    prec *p = getP(T(1)); r[0] = getR(T(3)); ppr *q = getPP(T(2), 1); q->kind = 1; q->pr = p; obj('+', "pp", q->name); pairing_pp_init(q->pairpp, r[0]->e, p->p); rbegin(c); fprintf(L, ",\"p\":\"%s\",\"pp\":\"%s\"", p->name, q->name); rregs("a", 1, r); rvals(1, r); rend();
  } else if (IS("pairppapply")) {                        /* pairppapply GT NAME G2 */
    r[0] = getR(T(1)); ppr *q = getPP(T(2), 0); r[1] = getR(T(3)); pairing_pp_apply(r[0]->e, r[1]->e, q->pairpp); rbegin(c); fprintf(L, ",\"p\":\"%s\",\"pp\":\"%s\"", q->pr->name, q->name); rregs("a", 2, r); rvals(2, r); rend();
  } else if (IS("coddh")) { prec *p = getP(T(1)); for (int i = 0; i < 4; i++) r[i] = getR(T(2 + i)); int v = is_almost_coddh(r[0]->e, r[1]->e, r[2]->e, r[3]->e, p->p); rbegin(c); fprintf(L, ",\"p\":\"%s\"", p->name); rregs("a", 4, r); rint("r", !!v); rvals(4, r); rend(); }
  else if (IS("option")) { prec *p = getP(T(1)); pairing_option_set(p->p, T(2), T(3)); rbegin(c); fprintf(L, ",\"p\":\"%s\",\"k\":\"%s\",\"val\":\"%s\"", p->name, T(2), T(3)); rend(); }
#ifdef WITH_XX
  else if (IS("xcopy")) {                                /* xcopy NEW OLD: copy construction */
    r[1] = getR(T(2)); reg *q = 0; for (int i = 0; i < nR; i++) if (!R_[i]->live) q = R_[i];
    if (!q) { if (nR >= MAXR) die("too many registers"); q = R_[nR++] = calloc(1, sizeof *q); }
    memset(q, 0, sizeof *q); strncpy(q->name, T(1), 39); q->F = r[1]->F; q->live = 1; x_new(q, r[1]); obj('+', "elem", q->name); r[0] = q;
    rbegin(c); if (q->F->classmode) rint("cm", 1); rregs("a", 2, r); fprintf(L, ",\"f\":\"%s\"", q->F->name); rvals(2, r); rend();
  } else if (IS("xpcopy")) { prec *p = getP(T(1)); int v = xx_pairing_copy(p->xo); rbegin(c); rint("r", v); rend(); }
  else if (IS("xsize")) {                                /* xsize DST SRC N|+N|-N: SRC's bytes, cut or padded, into DST */
    r[0] = getR(T(1)); r[1] = getR(T(2)); unsigned char *b = calloc(1, 1 << 16); int n = xx_tobytes(r[1]->xk, r[1]->xo, b, 1 << 15);
    int m = T(3)[0] == '+' || T(3)[0] == '-' ? n + atoi(T(3)) : atoi(T(3)); if (m < 0) m = 0;
    int v = xx_frombytes(r[0]->xk, r[0]->xo, b, m); xdid(v < 0 ? v : 1);
    rbegin(c); rregs("a", 2, r); rint("len", n); rint("lib", element_length_in_bytes(r[1]->e)); rint("given", m); rint("r", v); rvals(2, r); rend(); free(b);
  } else if (IS("xpair")) {                              /* xpair PAIRING GT A B, A and B of the same group */
    prec *p = getP(T(1)); r[0] = getR(T(2)); r[1] = getR(T(3)); r[2] = getR(T(4)); int v = 0; x_pair(p, r[0], r[1], r[2], &v);
    rbegin(c); fprintf(L, ",\"p\":\"%s\"", p->name); rregs("a", 3, r); rint("r", v); rvals(3, r); rend();
  }
#endif
  else if (IS("dlogbf") || IS("dlogrho")) {              /* dlog X(zr) G H: X with G^X = H */
    r[0] = getR(T(1)); r[1] = getR(T(2)); r[2] = getR(T(3)); if (IS("dlogbf")) element_dlog_brute_force(r[0]->e, r[1]->e, r[2]->e); else element_dlog_pollard_rho(r[0]->e, r[1]->e, r[2]->e); rbegin(c); rregs("a", 3, r); rvals(3, r); rend();
  } else if (IS("mznewlist") || IS("mzappend")) {          /* the list takes over the data of the element it is given */
    r[0] = getR(T(1)); r[1] = getR(T(2));
    if (IS("mzappend") && multiz_is_z(r[0]->e->data)) { reg *q[2] = {r[1], r[0]}; rbegin("skipmz"); rregs("a", 2, q); rvals(2, q); rend(); mpz_clear(z); mpz_clear(z2); return 1; }
    element_t t; element_init_same_as(t, r[1]->e); element_set(t, r[1]->e);
    if (IS("mzappend")) multiz_append(r[0]->e, t); else { element_ptr m = multiz_new_list(t); element_set(r[0]->e, m); element_free(m); }
    rbegin(c); rregs("a", 2, r); rvals(2, r); rend();
  }
  else if (IS("setmultiz")) { r[0] = getR(T(1)); r[1] = getR(T(2)); element_set_multiz(r[0]->e, r[1]->e->data); rbegin(c); rregs("a", 2, r); rvals(2, r); rend(); }
  else done = 0;
  mpz_clear(z); mpz_clear(z2); (void) check_guard; return done;
}
