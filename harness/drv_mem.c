/* Allocation tracking: every block the library or GMP holds, and what each
 * command obtained and gave back.  "mem on" must be the first line of a script.
 * In that mode the normal records are dropped and one "mem" record per command
 * is logged: the objects born and dead, blocks obtained and kept (new), blocks of
 * earlier commands given back (gone), wrong releases (bad), direct use of malloc (direct). */
typedef struct mblk { void *p; size_t n; long id; int kind; long cmd; struct mblk *next; } mblk;
static mblk *mtab[1 << 14]; static int memOn, memTrack; static long mId, mBad, mLive, mDirect, mCmd; static char mWhat[200];
static FILE *memL; static long mGone[1 << 16]; static long mNew;      /* per command number: how many of its blocks went in this command */
#define MC(c) ((c) & 0xffff)
static char objbuf[4096];
long pbcv_direct;                      /* counted by the stand-ins the library is compiled with (variant mem) */
static unsigned mh(void *p) { return (unsigned) (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 50); }
static void madd_(void *p, size_t n, int kind) {
  mblk *b = malloc(sizeof *b); b->p = p; b->n = n; b->id = ++mId; b->kind = kind; b->cmd = mCmd; b->next = mtab[mh(p)]; mtab[mh(p)] = b; mLive++; mNew++;
}
static void mbad(const char *w) { mBad++; if (!mWhat[0]) snprintf(mWhat, sizeof mWhat, "%s", w); }
static int mdel(void *p, size_t n, int kind, int known) {
  for (mblk **q = &mtab[mh(p)]; *q; q = &(*q)->next) if ((*q)->p == p) {
    mblk *b = *q; if (b->kind != kind) mbad("released through the other allocator"); if (known && b->n != n) mbad("released with a wrong size");
    if (b->cmd != mCmd) mGone[MC(b->cmd)]++; else mNew--;
    *q = b->next; free(b); mLive--; return 1;
  }
  mbad("released a block that is not held"); return 0;
}
static void *t_malloc(size_t n) { void *p = malloc(n ? n : 1); madd_(p, n, 'p'); return p; }
static void t_free(void *p) { if (!p) return; if (mdel(p, 0, 'p', 0)) free(p); }
static void *t_realloc(void *p, size_t n) {       /* always moves, so that stale pointers show */
  if (!p) return t_malloc(n);
  size_t o = 0; int ok = 0; for (mblk *b = mtab[mh(p)]; b; b = b->next) if (b->p == p) { o = b->n; ok = 1; }
  void *q = malloc(n ? n : 1); if (ok) memcpy(q, p, o < n ? o : n); if (mdel(p, 0, 'p', 0)) free(p); madd_(q, n, 'p'); return q;
}
static void *g_malloc(size_t n) { void *p = malloc(n ? n : 1); madd_(p, n, 'g'); return p; }
static void g_free(void *p, size_t n) { if (mdel(p, n, 'g', 1)) free(p); }
static void *g_realloc(void *p, size_t o, size_t n) { void *q = malloc(n ? n : 1); memcpy(q, p, o < n ? o : n); if (mdel(p, o, 'g', 1)) free(p); madd_(q, n, 'g'); return q; }
static void mem_install(void) { pbc_set_memory_functions(t_malloc, t_realloc, t_free); mp_set_memory_functions(g_malloc, g_realloc, g_free); }
static void obj(char s, const char *kind, const char *nm) { int l = strlen(objbuf); if (l < 3900) snprintf(objbuf + l, sizeof objbuf - l, "%s[\"%c\",\"%s:%s\"]", l ? "," : "", s, kind, nm); }
static void mem_begin(void) { mCmd++; memset(mGone, 0, sizeof mGone); mNew = 0; mBad = 0; mWhat[0] = 0; objbuf[0] = 0; pbcv_direct = 0; }
static void mem_log(const char *cmd) {
  fprintf(memL, "{\"ln\":%d,\"op\":\"mem\",\"cmd\":\"%s\",\"obj\":[%s],\"bad\":%ld,\"direct\":%ld,\"c\":%ld,\"new\":%ld,\"gone\":[", lineno, cmd, objbuf, mBad, pbcv_direct, mCmd, mNew);
  int k = 0; for (int i = 0; i < 1 << 16; i++) if (mGone[i]) fprintf(memL, k++ ? ",[%d,%ld]" : "[%d,%ld]", i, mGone[i]);
  fprintf(memL, "],\"why\":\"%s\"}\n", mWhat); fflush(memL);
}
