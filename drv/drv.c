#include "drv.h"
/* Sequential driver: executes a script of operations on real DSS files through the public API and logs
   every call with its arguments and results (one event per call, logged at the call's return). */
#define NH 8
static struct { long long *t; dss_file *d; char name[300]; int open; } H[NH];
#define T(h) (H[h].t)
static char workdir[200] = ".";

static void upper(const char *s, char *o) { while ((*o++ = toupper((unsigned char)*s++))) ; }

/* ---- content generated from a seed */
static int *ints(long seed, int n) {
  int *a = calloc(n + 2, 4); seedrng(seed);
  for (int i = 0; i < n; i++) { uint32_t r = rnd(); int m = r & 7;
    a[i] = m == 0 ? 0 : m == 1 ? (int)(r >> 8) % 100 : m == 2 ? -1 : (int)rnd(); }
  if (clk_on && n > 0 && a[0] == 0) a[0] = 1;   /* the check sum does not see leading zeros */
  return a;
}
static void d_open(void) { /* open h file access maxexp hash bin */
  int h = I(1); char p[600]; snprintf(p, sizeof p, "%s/%s", workdir, S(2));
  int st, acc = I(3), hec = I(7);
  if (hec) { dss_file *d = 0; st = hec_dss_open(p, &d); H[h].d = d; H[h].t = (long long *)d; }
  else {
    H[h].t = calloc(500, 8); H[h].d = (dss_file *)H[h].t;
    if (acc || I(4) || I(5) || I(6)) st = zopenExtended(H[h].t, p, 7, acc, I(4), I(5), I(6));
    else st = hec_dss_zopen(H[h].t, p);
  }
  H[h].open = st == 0 ? (hec ? 2 : 1) : 0;
  if (st) { if (!hec) free(H[h].t); H[h].t = 0; }
  strcpy(H[h].name, S(2));
  jbegin("open"); jint("h", h); jstr("f", S(2)); jint("acc", acc); jint("st", st); jint("hash", I(5)); jend();
}
static int doclose(int h) { int st; if (!H[h].open) return -99;
  if (H[h].open == 2) st = hec_dss_close(H[h].d); else { st = zclose(H[h].t); free(H[h].t); }
  H[h].open = 0; H[h].t = 0; return st; }

static void rawfields(zStructTransfer *t) {
  char b[64];
  dig(t->internalHeader, 4L * t->internalHeaderNumber, b); jstr("ih", b);
  dig(t->header2, 4L * t->header2Number, b); jstr("h2", b);
  dig(t->userHeader, 4L * t->userHeaderNumber, b); jstr("uh", b);
  dig(t->values1, 4L * t->values1Number, b); jstr("v1", b);
  dig(t->values2, 4L * t->values2Number, b); jstr("v2", b);
  dig(t->values3, 4L * t->values3Number, b); jstr("v3", b);
  fprintf(out, ",\"n\":[%d,%d,%d,%d,%d,%d]", t->internalHeaderNumber, t->header2Number, t->userHeaderNumber, t->values1Number, t->values2Number, t->values3Number);
  jint("nv", t->numberValues); jint("ln", t->logicalNumberValues); jint("ty", t->dataType);
}
static void d_put(void) { /* put h path type seed ih h2 uh v1 v2 v3 nv ln */
  int h = I(1); long seed = atol(S(4)); int ty = I(3);
  zStructTransfer *t = zstructTransferNew(S(2), 0);
  int *a[6]; int n[6]; for (int i = 0; i < 6; i++) { n[i] = I(5 + i); a[i] = n[i] ? ints(seed * 7 + i, n[i]) : 0; }
  if (n[2] & 1) a[2][n[2] / 2] = 0; /* zwrite pads an odd header that is full text */
  t->internalHeader = a[0]; t->internalHeaderNumber = n[0]; t->header2 = a[1]; t->header2Number = n[1];
  t->userHeader = a[2]; t->userHeaderNumber = n[2]; t->values1 = a[3]; t->values1Number = n[3];
  t->values2 = a[4]; t->values2Number = n[4]; t->values3 = a[5]; t->values3Number = n[5];
  t->numberValues = I(11); t->logicalNumberValues = I(12); t->dataType = ty;
  int st = zwrite(T(h), t);
  jbegin("put"); jint("h", h); jstr("p", S(2)); jint("st", st); rawfields(t); jend();
  for (int i = 0; i < 6; i++) free(a[i]);
  zstructFree(t);
}
static void d_get(void) { /* get h path [forced ifltab index] */
  int h = I(1);
  zStructTransfer *t = zstructTransferNew(S(2), 1);
  int st = zread(T(h), t);
  jbegin("get"); jint("h", h); jstr("p", S(2)); jint("st", st);
  if (st != 0) { t->internalHeaderNumber = t->header2Number = t->userHeaderNumber = t->values1Number = t->values2Number = t->values3Number = 0; t->numberValues = t->logicalNumberValues = t->dataType = 0; }
  jint("ver", t->version); rawfields(t); jend();
  zstructFree(t);
}
/* the same record read in full and into arrays of given sizes (0: that array not wanted) */
static void d_getn(void) { /* getn h path sizes*6 */
  int h = I(1); zStructTransfer *t = zstructTransferNew(S(2), 1), *u = zstructTransferNew(S(2), 0);
  int st = zread(T(h), t), sz[6], *a[6];
  for (int i = 0; i < 6; i++) { sz[i] = I(3 + i); a[i] = calloc(sz[i] + 8, 4); for (int k = 0; k < sz[i] + 8; k++) a[i][k] = 0x5a5a5a5a; }
  u->internalHeader = a[0]; u->header2 = a[1]; u->userHeader = a[2]; u->values1 = a[3]; u->values2 = a[4]; u->values3 = a[5];
  u->internalHeaderMode = sz[0]; u->header2Mode = sz[1]; u->userHeaderMode = sz[2]; u->values1Mode = sz[3]; u->values2Mode = sz[4]; u->values3Mode = sz[5];
  int su = zread(T(h), u);
  if (st != 0) { t->internalHeaderNumber = t->header2Number = t->userHeaderNumber = t->values1Number = t->values2Number = t->values3Number = 0; t->numberValues = t->logicalNumberValues = t->dataType = 0; }
  int *b[6] = {t->internalHeader, t->header2, t->userHeader, t->values1, t->values2, t->values3};
  int nb[6] = {t->internalHeaderNumber, t->header2Number, t->userHeaderNumber, t->values1Number, t->values2Number, t->values3Number};
  int nu[6] = {u->internalHeaderNumber, u->header2Number, u->userHeaderNumber, u->values1Number, u->values2Number, u->values3Number};
  jbegin("getn"); jint("h", h); jstr("p", S(2)); jint("st", st); jint("su", su); jint("ver", t->version); rawfields(t);
  int same = 1, over = 0;
  for (int i = 0; i < 6; i++) {
    for (int k = 0; k < nu[i] && k < sz[i] && su == 0; k++) if (k >= nb[i] || a[i][k] != b[i][k]) same = 0;
    for (int k = sz[i]; k < sz[i] + 8; k++) if (a[i][k] != 0x5a5a5a5a) over |= 1 << i;
  }
  jint("same", same); jint("over", over); jint("ins", u->insufficientSpace);
  fprintf(out, ",\"sz\":[%d,%d,%d,%d,%d,%d],\"nu\":[%d,%d,%d,%d,%d,%d]", sz[0], sz[1], sz[2], sz[3], sz[4], sz[5], nu[0], nu[1], nu[2], nu[3], nu[4], nu[5]);
  jend();
  u->internalHeader = u->header2 = u->userHeader = u->values1 = u->values2 = u->values3 = 0;
  for (int i = 0; i < 6; i++) free(a[i]);
  zstructFree(t); zstructFree(u);
}
static void simple(const char *e, int h, const char *p, const char *q, int st) {
  jbegin(e); jint("h", h); if (p) jstr("p", p); if (q) jstr("q", q); jint("st", st); jend();
}
/* the rank of each part of each listed pathname among that part of all of them */
static char *partof(const char *p, int k, char *o) { int n = 0; for (; *p && n <= k; p++) { if (*p == '/') { n++; continue; } if (n == k + 1) break; }
  char *q = o; for (; *p && *p != '/'; p++) *q++ = *p; *q = 0; return o; }
static void ranks(zStructCatalog *c) {
  int n = c->numberPathnames; char (*b)[400] = calloc(n + 1, 400); int *r = calloc(n * 6 + 1, sizeof *r);
  for (int k = 0; k < 6; k++) {
    for (int i = 0; i < n; i++) partof(c->pathnameList[i], k, b[i]);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (strcmp(b[j], b[i]) < 0) r[i * 6 + k]++;
  }
  fputs(",\"r\":[", out);
  for (int i = 0; i < n; i++) fprintf(out, "%s[%d,%d,%d,%d,%d,%d]", i ? "," : "", r[i*6], r[i*6+1], r[i*6+2], r[i*6+3], r[i*6+4], r[i*6+5]);
  fputs("]", out); free(b); free(r);
}
static void d_cat(void) { /* cat h sorted status t0 t1 filter coll */
  int h = I(1); zStructCatalog *c = zstructCatalogNew();
  c->statusWanted = I(3); c->typeWantedStart = I(4); c->typeWantedEnd = I(5);
  const char *f = ntok > 6 && tok[6][0] ? tok[6] : 0;
  int st = zcatalog(T(h), f, c, I(2));
  jbegin("cat"); jint("h", h); jint("st", st); jint("sorted", I(2)); jint("want", I(3)); jint("t0", I(4)); jint("t1", I(5)); jstr("q", f ? f : "");
  fputs(",\"l\":[", out);
  for (int i = 0; i < c->numberPathnames; i++) { if (i) fputc(',', out);
    fputs("{\"p\":", out); jesc(c->pathnameList[i], 400); fprintf(out, ",\"t\":%d}", c->recordType ? c->recordType[i] : 0); }
  fputs("]", out); if (I(2)) ranks(c); jend(); zstructFree(c);
}
static void d_hcat(void) { /* hcat h filter : hec_dss_catalog */
  int h = I(1); int n = hec_dss_record_count(H[h].d); int sz = hec_dss_CONSTANT_MAX_PATH_SIZE();
  char *b = calloc(n + 66, sz); int *ty = calloc(n + 66, 4); const char *f = ntok > 2 && tok[2][0] ? tok[2] : 0;
  int st = hec_dss_catalog(H[h].d, b, ty, f, n + 64, sz);
  jbegin("hcat"); jint("h", h); jint("st", st); jint("n", n); jstr("q", f ? f : "");
  fputs(",\"l\":[", out);
  for (int i = 0; i < st; i++) { if (i) fputc(',', out);
    fputs("{\"p\":", out); jesc(b + (long)i * sz, 400); fprintf(out, ",\"t\":%d}", ty[i]); }
  fputs("]", out); jend(); free(b); free(ty);
}
static void d_basics(void) {
  int h = I(1); zStructRecordBasics *b = zstructRecordBasicsNew(S(2)); int st = zgetRecordBasics(T(h), b);
  jbegin("basics"); jint("h", h); jstr("p", S(2)); jint("st", st);
  if (st != 0) { b->recordType = b->version = b->numberValues = b->logicalNumberValues = 0; b->values1Number = b->values2Number = b->values3Number = b->internalHeaderNumber = b->header2Number = b->userHeaderNumber = 0; }
  jint("ty", b->recordType); jint("ver", b->version); jint("nv", b->numberValues); jint("ln", b->logicalNumberValues);
  fprintf(out, ",\"n\":[%d,%d,%d,%d,%d,%d]", b->internalHeaderNumber, b->header2Number, b->userHeaderNumber, b->values1Number, b->values2Number, b->values3Number);
  jend(); zstructFree(b);
}
static void d_aprim(void) { int h = I(1); char r[500]; r[0] = 0; int st = zaliasGetPrimary(T(h), S(2), r, sizeof r);
  jbegin("aprim"); jint("h", h); jstr("p", S(2)); jint("st", st); jstr("q", st == 0 ? r : ""); jend(); }
static void d_alist(void) { int h = I(1); char *l = 0; int n = 0;
  int st = zaliasList(T(h), S(2), &l, &n);
  jbegin("alist"); jint("h", h); jstr("p", S(2)); jint("st", st); fputs(",\"l\":[", out);
  if (st >= 0 && l) { int i = 0, k = 0; /* NUL separated pathnames in n bytes */
    while (i < n && l[i]) { if (k++) fputc(',', out); fputs("{\"p\":", out); jesc(l + i, 400); fputs("}", out); i += strlen(l + i) + 1; } }
  fputs("]", out); jend(); free(l); }
static void d_undelall(void) { int h = I(1); int st = zundeleteAll(T(h)); zStructCatalog *c = zstructCatalogNew();
  zcatalog(T(h), 0, c, 0);
  jbegin("undelall"); jint("h", h); jint("st", st); fputs(",\"l\":[", out);
  for (int i = 0; i < c->numberPathnames; i++) { if (i) fputc(',', out); fputs("{\"p\":", out); jesc(c->pathnameList[i], 400);
    /* what it holds now: an earlier incarnation of the name may have come back */
    zStructTransfer *t = zstructTransferNew(c->pathnameList[i], 1); int su = zread(T(h), t);
    jint("su", su); if (su == 0) { jint("ver", t->version); rawfields(t); } zstructFree(t); fputs("}", out); }
  fputs("]", out); jend(); zstructFree(c); }

#include "drv_ts.h"
#include "drv_rec.h"
#include "drv_fn.h"
#include "drv_vd.h"
#include "drv_chg.h"

static void run(void) {
  const char *c = tok[0]; int h = I(1);
  if (clk_on && strcmp(c, "reset")) { while ((clk_t0 = nowms()) <= clk_last) usleep(100); }
  if (strcmp(c, "reset") && strcmp(c, "open") && strcmp(c, "close") && strcmp(c, "note") && strcmp(c, "rm") && strcmp(c, "zset") && strcmp(c, "tick") && strncmp(c, "f_", 2)
      && (h < 0 || h >= NH || !H[h].open)) { jbegin("note"); jstr("x", "handle not open"); jend(); return; }
  if (strcmp(c, "reset") == 0) { for (int i = 0; i < NH; i++) if (H[i].open) doclose(i);
    chg_reset(); zset("VDTM", "UNSET", 0); zset("VDOW", "", 0);
    jbegin("reset"); jint("id", I(1)); jend(); }
  else if (!strcmp(c, "open")) d_open();
  else if (!strcmp(c, "close")) simple("close", h, 0, 0, doclose(h));
  else if (!strcmp(c, "note")) { jbegin("note"); jstr("x", S(1)); jend(); }
  else if (!strcmp(c, "rm")) { char p[600]; snprintf(p, sizeof p, "%s/%s", workdir, S(1)); unlink(p); jbegin("rm"); jstr("f", S(1)); jend(); }
  else if (!strcmp(c, "zset")) { zset(S(1), S(2), I(3)); jbegin("zset"); jstr("p", S(1)); jstr("c", S(2)); jint("v", I(3)); jend(); }
  else if (!strcmp(c, "fset")) { zsetFile(T(h), S(2), "", I(3)); jbegin("fset"); jint("h", h); jstr("p", S(2)); jint("v", I(3)); jend(); }
  else if (!strcmp(c, "put")) d_put();
  else if (!strcmp(c, "get")) d_get();
  else if (!strcmp(c, "getn")) d_getn();
  else if (!strcmp(c, "del")) simple("del", h, S(2), 0, zdelete(T(h), S(2)));
  else if (!strcmp(c, "hdel")) simple("del", h, S(2), 0, hec_dss_delete(H[h].d, S(2)));
  else if (!strcmp(c, "undel")) { int st = zundelete(T(h), S(2)); jbegin("undel"); jint("h", h); jstr("p", S(2)); jint("st", st);
    if (st == 0) { zStructTransfer *t = zstructTransferNew(S(2), 1); int su = zread(T(h), t); jint("su", su); if (su == 0) { jint("ver", t->version); rawfields(t); } zstructFree(t); } jend(); }
  else if (!strcmp(c, "undelall")) d_undelall();
  else if (!strcmp(c, "ren")) simple("ren", h, S(2), S(3), zrename(T(h), S(2), S(3)));
  else if (!strcmp(c, "dup")) simple("dup", h, S(2), S(3), zduplicateRecord(T(h), S(2), S(3)));
  else if (!strcmp(c, "cpy")) { int st = zcopyRecord(T(h), T(I(2)), S(3), S(4));
    jbegin("cpy"); jint("h", h); jint("g", I(2)); jstr("p", S(3)); jstr("q", S(4)); jint("st", st); jend(); }
  else if (!strcmp(c, "cpyfile")) { int st = zcopyFile(T(h), T(I(2)), 0); jbegin("cpyfile"); jint("h", h); jint("g", I(2)); jint("st", st); jend(); }
  else if (!strcmp(c, "squeeze")) { int st; int m = I(2); int need = (m == 3) ? zsqueezeNeeded(T(h)) : 1;
    if (m == 0) st = zsqueeze7(T(h), 0, 1); else if (m == 1) st = zsqueeze7(T(h), 0, 0);
    else if (m == 3) st = zsqueeze7(T(h), 1, 1);
    else { char p[600]; snprintf(p, sizeof p, "%s/%s", workdir, S(3)); st = hec_dss_squeeze(p); }
    jbegin("squeeze"); jint("h", h); jint("m", m); jint("need", need != 0); jint("st", st); jend(); }
  else if (!strcmp(c, "aadd")) simple("aadd", h, S(2), S(3), zaliasAdd(T(h), S(2), S(3)));
  else if (!strcmp(c, "arem")) simple("arem", h, S(2), 0, zaliasRemove(T(h), S(2)));
  else if (!strcmp(c, "aremall")) simple("aremall", h, S(2), 0, zaliasRemoveAll(T(h), S(2)));
  else if (!strcmp(c, "aprim")) d_aprim();
  else if (!strcmp(c, "alist")) d_alist();
  else if (!strcmp(c, "chk")) simple("chk", h, S(2), 0, zcheck(T(h), S(2)));
  else if (!strcmp(c, "type")) simple("type", h, S(2), 0, zdataType(T(h), S(2)));
  else if (!strcmp(c, "htype")) simple("type", h, S(2), 0, hec_dss_dataType(H[h].d, S(2)));
  else if (!strcmp(c, "cnt")) simple("cnt", h, 0, 0, hec_dss_record_count(H[h].d));
  else if (!strcmp(c, "inq")) { long long v = zinquire(T(h), S(2)); jbegin("inq"); jint("h", h); jstr("p", S(2)); jint("v", v); jend(); }
  else if (!strcmp(c, "cat")) d_cat();
  else if (!strcmp(c, "hcat")) d_hcat();
  else if (!strcmp(c, "basics")) d_basics();
  else if (!strcmp(c, "zcheck")) { int a = zcheckLinks(T(h)), b = zcheckPathnames(T(h)), d = zcheckHashTable(T(h)); jbegin("zcheck"); jint("h", h); jint("a", a); jint("b", b); jint("c", d); jint("st", zcheckFile(T(h))); jend(); }
  else if (run_ts(c) || run_rec(c) || run_fn(c) || run_vd(c) || run_chg(c)) ;
  else { fprintf(stderr, "bad command %s\n", c); exit(97); }
}
int main(int argc, char **argv) {
  /* drv script out workdir */
  FILE *in = fopen(argv[1], "r"); if (!in) return 98;
  int ofd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644); ofd = fcntl(ofd, F_DUPFD, 200); out = fdopen(ofd, "a");
  if (argc > 3) snprintf(workdir, sizeof workdir, "%s", argv[3]);
  zset("mlvl", "", getenv("DRV_MLVL") ? atoi(getenv("DRV_MLVL")) : 0);
  size_t cap = 0; char *line = 0; ssize_t n;
  while ((n = getline(&line, &cap, in)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    ntok = 0; char *p = line; 
    while (p && ntok < MAXTOK) { tok[ntok++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
    if (ntok == 0 || !tok[0][0]) continue;
    alarm(30);
    run();
    if (getenv("DRV_DBG")) for (int i = 0; i < NH; i++) if (H[i].open) { long long *fh = (long long *)T(i)[zdssKeys.kfileHeader];
      jbegin("dbg"); jint("h", i); jint("wr", T(i)[zdssKeys.kwritingNow]); jint("lk", T(i)[zdssKeys.klocked]); jint("lvl", T(i)[zdssKeys.klockLevel]); jint("size", fh[zdssFileKeys.kfileSize]); jend(); }
  }
  for (int i = 0; i < NH; i++) if (H[i].open) doclose(i);
  fclose(out);
  return 0;
}
