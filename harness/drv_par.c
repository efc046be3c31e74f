/* Parameter text. */
static char *outtext(pbc_param_ptr p, size_t *n) { char *b = 0; FILE *mf = open_memstream(&b, n); pbc_param_out_str(mf, p); fclose(mf); return b; }
static long heldBase;
static long held(void) { return mLive; }
static int par(int argc, char **argv) {
  (void) argc; const char *c = argv[0];
  if (IS("param")) {                                     /* param str|buf LIMIT HEX */
    int n; char *t = (char *) unhex(T(3), &n); size_t lim = strtoul(T(2), 0, 10), len = n; int isbuf = !strcmp(T(1), "buf");
    if (isbuf && lim && lim <= len) { char *e = malloc(lim); memcpy(e, t, lim); free(t); t = e; len = lim; }      /* exactly the bytes it may read */
    char *keep = malloc(len + 1); memcpy(keep, t, len);
    pbc_param_t p, p2; long h0 = held(); size_t on = 0, on2 = 0; char *o = 0, *o2 = 0; int r2 = 0;
    int rc = isbuf ? pbc_param_init_set_buf(p, t, lim) : pbc_param_init_set_str(p, t);
    if (!rc) {
      o = outtext(p, &on); r2 = pbc_param_init_set_str(p2, o); if (!r2) { o2 = outtext(p2, &on2); pbc_param_clear(p2); }
      pbc_param_clear(p);
    }
    rbegin(c); rint("lim", isbuf ? (long) lim : 0); rint("r", rc); rint("inmod", !!memcmp(keep, t, len)); rint("held", held() - h0); fprintf(L, ",\"text\":"); pbytes(L, (unsigned char *) keep, len);
    if (!rc) { fprintf(L, ",\"out\":"); pbytes(L, (unsigned char *) o, on); rint("r2", r2); if (!r2) { rint("same", on == on2 && !memcmp(o, o2, on)); } }
    rend(); free(t); free(keep); free(o); free(o2); return 1;
  }
  if (IS("heldmark")) { heldBase = held(); return 1; }
  if (IS("held")) { rbegin(c); rint("n", held() - heldBase); rend(); return 1; }
  return 0;
}
