/* Time series commands. Values travel as text: M is missing, v*k repeats v k times.
   Times in events are (day, second) with second in 1..86400, the day counted from 31 December 1899. */
#include <float.h>
#include "zStructTimeSeries.h"
#include "hecdssInternal.h"
static int vlist(const char *s, double **o) { /* comma separated */
  int cap = 64, n = 0; double *a = malloc(8 * cap);
  while (*s) {
    double v; char *e; if (*s == 'M') { v = -FLT_MAX; e = (char *)s + 1; } else v = strtod(s, &e);
    long k = 1; if (*e == '*') k = strtol(e + 1, &e, 10);
    while (k-- > 0) { if (n == cap) a = realloc(a, 8 * (cap *= 2)); a[n++] = v; }
    s = *e == ',' ? e + 1 : e;
  }
  *o = a; return n;
}
static void jval(double v, int miss) { if (miss) fputs("\"M\"", out); else fprintf(out, "\"%.17g\"", v); }
static void jdoubles(const char *k, const double *v, int n, int asfloat) {
  fprintf(out, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { if (i) fputc(',', out); double d = asfloat ? (double)(float)v[i] : v[i]; jval(d, zisMissingDouble(v[i])); }
  fputc(']', out);
}
static void jfloats(const char *k, const float *v, int n) {
  fprintf(out, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { if (i) fputc(',', out); jval(v[i], zisMissingFloat(v[i])); }
  fputc(']', out);
}
static void jints(const char *k, const int *v, int n) { fprintf(out, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(out, i ? ",%d" : "%d", v[i]); fputc(']', out); }
/* one string per value: the elements of a fixed width item */
static void jelems(const char *k, const int *v, int n, int w) { fprintf(out, ",\"%s\":[", k);
  for (int i = 0; v && w && i < n; i++) { fputs(i ? ",\"" : "\"", out); for (int j = 0; j < w; j++) fprintf(out, j ? ";%d" : "%d", v[i * w + j]); fputc('"', out); } fputc(']', out); }
static void jnotes(const char *k, const char *c, int len, int n) { fprintf(out, ",\"%s\":[", k); int p = 0;
  for (int i = 0; c && i < n; i++) { if (i) fputc(',', out); if (p < len) { jesc(c + p, 300); p += (int)strnlen(c + p, len - p) + 1; } else fputs("\"?\"", out); } fputc(']', out); }
static void daysec(long long base, long long t, long long gran, int *d, int *s) { long long x = base * 86400 + t * gran - 1;
  long long q = x / 86400, r = x % 86400; if (r < 0) { r += 86400; q--; } *d = (int)q; *s = (int)r + 1; }
static void jtimes(const char *k, const int *t, int n, int base, int gran) { fprintf(out, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { int d, s; daysec(base, t[i], gran, &d, &s); fprintf(out, i ? ",[%d,%d]" : "[%d,%d]", d, s); } fputc(']', out); }
static void jat(const char *k, int d0, int s0) { int d, s; daysec(d0, s0, 1, &d, &s); fprintf(out, ",\"%s\":[%d,%d]", k, d, s); }
static void jparts(const char *k, const char *ymds) { /* "y,m,d,s" or "" */ fprintf(out, ",\"%s\":[%s]", k, ymds); }
static int *qlist(const char *s, int *n) { double *d; *n = vlist(s, &d); int *q = malloc(4 * (*n + 2)); for (int i = 0; i < *n; i++) q[i] = (int)d[i]; free(d); return q; }
/* one text per instant of a profile: its values at the depths, "M" when all are missing */
static void jprofile(const char *k, const double *v, const float *f, int n, int d, int asfloat) { fprintf(out, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { int all = 1; if (i) fputc(',', out); fputc('"', out);
    for (int j = 0; j < d; j++) if (!(v ? zisMissingDouble(v[i * d + j]) : zisMissingFloat(f[i * d + j]))) all = 0;
    if (all) fputc('M', out);
    else for (int j = 0; j < d; j++) { int m = v ? zisMissingDouble(v[i * d + j]) : zisMissingFloat(f[i * d + j]); double x = v ? v[i * d + j] : f[i * d + j]; if (asfloat) x = (float)x;
      if (j) fputc(';', out); if (m) fputc('M', out); else fprintf(out, "%.17g", x); }
    fputc('"', out); } fputc(']', out); }
static void jdepths(const double *v, const float *f, int d) { fputs(",\"dep\":\"", out); for (int j = 0; j < d; j++) fprintf(out, j ? ";%.17g" : "%.17g", v ? v[j] : f[j]); fputc('"', out); }
static void jgiven(const double *v, int n, const double *dep, int d, int dbl, const char *ud) {
  jint("n", n); if (d) { jprofile("v", v, 0, n, d, 0); jprofile("f", v, 0, n, d, 1); } else { jdoubles("v", v, n, 0); jdoubles("f", v, n, 1); }
  float *f = malloc(4 * (d + 1)); for (int i = 0; i < d; i++) f[i] = (float)dep[i];
  jint("dn", d); jdepths(dbl ? dep : 0, f, d); jstr("ud", ud); free(f); }
static void setprofile(zStructTimeSeries *t, int dbl, double *v, float *f, double *dep, float *fdep, int n, int d, const char *ud, const char *uv, const char *ty) {
  t->profileDepthsNumber = d; t->numberValues = n; if (dbl) { t->doubleProfileDepths = dep; t->doubleProfileValues = v; } else { t->floatProfileDepths = fdep; t->floatProfileValues = f; }
  t->unitsProfileDepths = (char *)ud; t->unitsProfileValues = (char *)uv; t->type = (char *)ty; }
/* notes: '|' separated, one per value, "" when none */
static char *nlist(const char *s, int *len) { *len = (int)strlen(s); if (!*len) return 0; char *c = malloc(*len + 2); strcpy(c, s); for (int i = 0; i < *len; i++) if (c[i] == '|') c[i] = 0; (*len)++; return c; }

static void d_tsput(void) {
  /* 1 h, 2 path, 3 date, 4 time, 5 y,m,d,s, 6 flag, 7 dbl, 8 values, 9 units, 10 type, 11 tz, 12 qw, 13 quality, 14 iw, 15 inotes, 16 cnotes, 17 via, 18 userheader text, 19 depths, 20 units of depths */
  int h = I(1), flag = I(6), dbl = I(7), qw = I(12), iw = I(14), via = I(17), st; double *v, *dep; int n = vlist(S(8), &v); int nq, ni, nc; int dn = vlist(S(19), &dep), nv = n; if (dn) n /= dn;
  int *q = qlist(S(13), &nq), *in = qlist(S(15), &ni); char *c = nlist(S(16), &nc);
  float *f = malloc(4 * (nv + 1)), *fd = malloc(4 * (dn + 1)); for (int i = 0; i < nv; i++) f[i] = (float)v[i]; for (int i = 0; i < dn; i++) fd[i] = (float)dep[i];
  jbegin("tsput"); jint("h", h); jstr("p", S(2)); jparts("at", S(5)); jint("flag", flag); jint("dbl", dbl); jgiven(v, n, dep, dn, dbl, S(20)); jstr("units", S(9)); jstr("tt", S(10)); jstr("tz", S(11));
  jint("qw", qw); jelems("q", q, n, qw); jint("iw", iw); jelems("i", in, n, iw); jint("cw", nc > 0); jnotes("c", c, nc, c ? n : 0); jint("via", via);
  if (via == 1) st = hec_dss_tsStoreRegular(H[h].d, S(2), S(3), S(4), v, n, qw ? q : 0, qw ? n : 0, !dbl, S(9), S(10), S(11), flag);
  else {
    zStructTimeSeries *t = dn ? zstructTsNewTimes(S(2), S(3), S(4), "", "") : dbl ? zstructTsNewRegDoubles(S(2), v, n, S(3), S(4), S(9), S(10)) : zstructTsNewRegFloats(S(2), f, n, S(3), S(4), S(9), S(10));
    if (dn) setprofile(t, dbl, v, f, dep, fd, n, dn, S(20), S(9), S(10));
    if (S(11)[0]) { t->timeZoneName = strdup(S(11)); t->allocated[zSTRUCT_timeZoneName] = 1; }
    if (qw) { t->quality = q; t->qualityElementSize = qw; }
    if (iw) { t->inotes = in; t->inoteElementSize = iw; }
    if (nc) { t->cnotes = c; t->cnotesLengthTotal = nc; }
    int uh[64]; int un = 0;
    if (S(18)[0]) { memset(uh, 0, sizeof uh); strncpy((char *)uh, S(18), 200); un = ((int)strlen(S(18)) + 3) / 4; if (un > 50) un = 50; t->userHeader = uh; t->userHeaderNumber = un; }
    st = ztsStore(T(h), t, flag); zstructFree(t);
  }
  jint("st", st); jend(); free(v); free(f); free(q); free(in); free(c); free(dep); free(fd);
}
static void d_tsget(void) {
  /* 1 h, 2 path, 3 sdate, 4 stime, 5 edate, 6 etime, 7 y,m,d,s, 8 y,m,d,s, 9 dbl 0/1/2, 10 flag, 11 qual, 12 all, 13 via, 14 array size */
  int h = I(1), dbl = I(9), flag = I(10), all = I(12), via = I(13), st;
  jbegin("tsget"); jint("h", h); jstr("p", S(2)); jparts("from", S(7)); jparts("to", S(8)); jint("dbl", dbl); jint("flag", flag); jint("qual", I(11)); jint("all", all); jint("via", via);
  if (via == 1) {
    int cap = I(14) ? I(14) : 4000; int *tm = calloc(cap + 1, 4), *q = calloc(cap + 1, 4); double *v = calloc(cap + 1, 8); int n = 0, base = 0, gran = 0; char u[50] = "", ty[50] = "", tz[50] = "";
    st = hec_dss_tsRetrieve(H[h].d, S(2), S(3), S(4), S(5), S(6), tm, v, cap, &n, q, I(11), &base, &gran, u, sizeof u, ty, sizeof ty, tz, sizeof tz);
    jint("st", st); jint("n", n); jint("sz", 2); jdoubles("v", v, n, 0); jtimes("t", tm, n, base, gran ? gran : 60);
    jstr("units", u); jstr("tt", ty); jstr("tz", tz); jint("cap", cap); jint("dn", 0); jdepths(0, 0, 0); jstr("ud", ""); jint("qw", I(11) ? 1 : 0); jelems("q", q, n, I(11) ? 1 : 0); jint("iw", 0); jints("i", 0, 0); jint("cw", 0); jints("c", 0, 0);
    free(tm); free(q); free(v);
  } else {
    zStructTimeSeries *t = S(3)[0] ? zstructTsNewTimes(S(2), S(3), S(4), S(5), S(6)) : zstructTsNew(S(2));
    t->boolRetrieveAllTimes = all;
    st = ztsRetrieve(T(h), t, flag, dbl, I(11));
    int n = st == 0 ? t->numberValues : 0; if (n < 0) n = 0;
    jint("st", st); jint("n", n); jint("cap", 1 << 30);
    int dn = st == 0 ? t->profileDepthsNumber : 0;
    jint("dn", dn); jdepths(dn ? t->doubleProfileDepths : 0, t->floatProfileDepths, dn && (t->doubleProfileDepths || t->floatProfileDepths) ? dn : 0); jstr("ud", dn && t->unitsProfileDepths ? t->unitsProfileDepths : "");
    if (dn && t->doubleProfileValues) { jint("sz", 2); jprofile("v", t->doubleProfileValues, 0, n, dn, 0); }
    else if (dn && t->floatProfileValues) { jint("sz", 1); jprofile("v", 0, t->floatProfileValues, n, dn, 0); }
    else if (st == 0 && t->doubleValues) { jint("sz", 2); jdoubles("v", t->doubleValues, n, 0); }
    else if (st == 0 && t->floatValues) { jint("sz", 1); jfloats("v", t->floatValues, n); }
    else { jint("sz", 0); jfloats("v", 0, 0); }
    if (st == 0 && t->times) jtimes("t", t->times, n, t->julianBaseDate, t->timeGranularitySeconds); else jints("t", 0, 0);
    if (st == 0) { jat("s", t->startJulianDate, t->startTimeSeconds); jat("x", t->endJulianDate, t->endTimeSeconds); jint("off", t->timeOffsetSeconds); jint("disk", t->sizeEachValueRead); }
    jstr("units", st == 0 ? dn ? t->unitsProfileValues : t->units : ""); jstr("tt", st == 0 ? t->type : ""); jstr("tz", st == 0 ? t->timeZoneName : "");
    int qw = st == 0 && t->quality ? t->qualityElementSize : 0, iw = st == 0 && t->inotes ? t->inoteElementSize : 0, cw = st == 0 && t->cnotes && t->cnotesLengthTotal > 0;
    jint("qw", qw); jelems("q", t->quality, n, qw); jint("iw", iw); jelems("i", t->inotes, n, iw); jint("cw", cw); jnotes("c", cw ? t->cnotes : 0, t->cnotesLengthTotal, cw ? n : 0);
    { char uh[220]; memset(uh, 0, sizeof uh); if (st == 0 && t->userHeader && t->userHeaderNumber > 0) memcpy(uh, t->userHeader, (t->userHeaderNumber > 50 ? 50 : t->userHeaderNumber) * 4); jstr("uh", uh); }
    zstructFree(t);
  }
  jend();
}
static void d_irput(void) {
  /* 1 h, 2 path, 3 base date text, 4 y,m,d (base), 5 gran, 6 times list, 7 flag, 8 dbl, 9 values, 10 units, 11 type, 12 tz, 13 qw, 14 quality, 15 iw, 16 inotes, 17 cnotes, 18 via, 19 depths, 20 units of depths */
  int h = I(1), gran = I(5), flag = I(7), dbl = I(8), qw = I(13), iw = I(15), via = I(18), st; double *v, *dep; int n = vlist(S(9), &v); int nt, nq, ni, nc; int dn = vlist(S(19), &dep), nv = n; if (dn) n /= dn;
  int *tm = qlist(S(6), &nt), *q = qlist(S(14), &nq), *in = qlist(S(16), &ni); char *c = nlist(S(17), &nc);
  float *f = malloc(4 * (nv + 1)), *fd = malloc(4 * (dn + 1)); for (int i = 0; i < nv; i++) f[i] = (float)v[i]; for (int i = 0; i < dn; i++) fd[i] = (float)dep[i];
  jbegin("irput"); jint("h", h); jstr("p", S(2)); jparts("base", S(4)); jint("gran", gran); jints("t", tm, n); jint("flag", flag); jint("dbl", dbl); jgiven(v, n, dep, dn, dbl, S(20)); jstr("units", S(10)); jstr("tt", S(11)); jstr("tz", S(12));
  jint("qw", qw); jelems("q", q, n, qw); jint("iw", iw); jelems("i", in, n, iw); jint("cw", nc > 0); jnotes("c", c, nc, c ? n : 0); jint("via", via);
  if (via == 1) st = hec_dss_tsStoreIregular(H[h].d, S(2), S(3), tm, gran, v, n, qw ? q : 0, qw ? n : 0, !dbl, S(10), S(11), S(12), flag);
  else {
    zStructTimeSeries *t = dn ? zstructTsNew(S(2)) : dbl ? zstructTsNewIrregDoubles(S(2), v, n, tm, gran, S(3), S(10), S(11)) : zstructTsNewIrregFloats(S(2), f, n, tm, gran, S(3), S(10), S(11));
    if (dn) { setprofile(t, dbl, v, f, dep, fd, n, dn, S(20), S(10), S(11)); t->times = tm; t->timeGranularitySeconds = gran; t->julianBaseDate = S(3)[0] ? dateToJulian(S(3)) : 0; }
    if (S(12)[0]) { t->timeZoneName = strdup(S(12)); t->allocated[zSTRUCT_timeZoneName] = 1; }
    if (qw) { t->quality = q; t->qualityElementSize = qw; }
    if (iw) { t->inotes = in; t->inoteElementSize = iw; }
    if (nc) { t->cnotes = c; t->cnotesLengthTotal = nc; }
    st = ztsStore(T(h), t, flag); zstructFree(t);
  }
  jint("st", st); jend(); free(v); free(f); free(q); free(in); free(c); free(tm); free(dep); free(fd);
}
static void d_tssize(void) { /* 1 h, 2 path, 3 sd, 4 st, 5 ed, 6 et, 7 y,m,d,s, 8 y,m,d,s */
  int h = I(1), n = -1, q = -1; int st = hec_dss_tsGetSizes(H[h].d, S(2), S(3), S(4), S(5), S(6), &n, &q);
  jbegin("tssize"); jint("h", h); jstr("p", S(2)); jparts("from", S(7)); jparts("to", S(8)); jint("st", st); jint("n", n); jint("qw", q); jend(); }
static void d_tsrange(void) { /* 1 h, 2 path, 3 full */
  int h = I(1), a = 0, b = 0, c = 0, d = 0; int st = hec_dss_tsGetDateTimeRange(H[h].d, S(2), I(3), &a, &b, &c, &d);
  jbegin("tsrange"); jint("h", h); jstr("p", S(2)); jint("full", I(3)); jint("st", st);
  if (st == 0) { jat("s", a, b); jat("x", c, d); } else { jints("s", 0, 0); jints("x", 0, 0); } jend(); }
static void d_tsinfo(void) { int h = I(1); char u[60] = "", t[60] = ""; int st = hec_dss_tsRetrieveInfo(H[h].d, S(2), u, sizeof u, t, sizeof t);
  jbegin("tsinfo"); jint("h", h); jstr("p", S(2)); jint("st", st); jstr("units", u); jstr("tt", t); jend(); }
static int run_ts(const char *c) {
  if (!strcmp(c, "tsput")) d_tsput();
  else if (!strcmp(c, "tsget")) d_tsget();
  else if (!strcmp(c, "irput")) d_irput();
  else if (!strcmp(c, "tssize")) d_tssize();
  else if (!strcmp(c, "tsrange")) d_tsrange();
  else if (!strcmp(c, "tsinfo")) d_tsinfo();
  else return 0;
  return 1;
}
