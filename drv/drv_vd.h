/* Elevations: values, offsets and times travel as integers (thousandths; days from 31 December 2000). */
#include "verticalDatum.h"
#define VMISS -99999999
#define VUNDEF -9999999
#define VDAY0 36890 /* 31 December 2000 in the library's days */
static int milli(double v, int miss) { if (miss) return VMISS; double x = v * 1000.; return fabs(x) > 9e7 ? 90000001 : (int)lround(x); }
/* a comma separated list of thousandths; M missing, N -901, O -902 */
static int mlist(const char *s, double **o) { int cap = 64, n = 0; double *a = malloc(8 * cap);
  while (*s) { double v; char *e = (char *)s + 1; if (*s == 'M') v = -FLT_MAX; else if (*s == 'N') v = -901.; else if (*s == 'O') v = -902.; else v = strtol(s, &e, 10) / 1000.;
    if (n == cap) a = realloc(a, 8 * (cap *= 2)); a[n++] = v; s = *e == ',' ? e + 1 : e; }
  *o = a; return n; }
static void jmillis(const char *k, const double *d, const float *f, int n) { fprintf(out, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) fprintf(out, i ? ",%d" : "%d", d ? milli(d[i], zisMissingDouble(d[i])) : milli(f[i], zisMissingFloat(f[i]))); fputc(']', out); }
static void jvdi(const char *k, verticalDatumInfo *v) {
  fprintf(out, ",\"%s\":", k); if (!v) { fputs("{\"nat\":\"UNSET\",\"u\":\"\",\"o29\":-9999999,\"e29\":0,\"o88\":-9999999,\"e88\":0}", out); return; }
  fputs("{\"nat\":", out); jesc(v->nativeDatum, 17); fputs(",\"u\":", out); jesc(v->unit, 17);
  int u9 = v->offsetToNgvd29 == UNDEFINED_VERTICAL_DATUM_VALUE, u8 = v->offsetToNavd88 == UNDEFINED_VERTICAL_DATUM_VALUE;
  fprintf(out, ",\"o29\":%d,\"e29\":%d,\"o88\":%d,\"e88\":%d}", u9 ? VUNDEF : milli(v->offsetToNgvd29, 0), v->offsetToNgvd29IsEstimate != 0, u8 ? VUNDEF : milli(v->offsetToNavd88, 0), v->offsetToNavd88IsEstimate != 0); }
/* "keyword:value;" out of a text */
static int keyed(const char *s, const char *k, char *o, int n) { const char *p = s; size_t m = strlen(k); o[0] = 0;
  while (p && *p) { while (*p == ' ') p++; if (!strncmp(p, k, m) && p[m] == ':') { p += m + 1; int i = 0; while (*p && *p != ';' && i < n - 1) o[i++] = *p++; o[i] = 0; return 1; } p = strchr(p, ';'); if (p) p++; } return 0; }
static void jvdiof(const char *k, const char *s) { static char b[9000]; verticalDatumInfo v; if (s && keyed(s, VERTICAL_DATUM_INFO_USER_HEADER_PARAM, b, sizeof b) && !stringToVerticalDatumInfo(&v, b)) jvdi(k, &v); else jvdi(k, 0); }
static void jhead(const int *u, int n) { static char b[9000]; char d[64]; memset(b, 0, sizeof b); if (u && n > 0) memcpy(b, u, n * 4 > 8990 ? 8990 : n * 4); jvdiof("hv", b); keyed(b, VERTICAL_DATUM_USER_HEADER_PARAM, d, sizeof d); jstr("hd", d); }
/* the text of a header or a location: "verticalDatumInfo:<...>;", '~' in front has the information packed */
static char *vtext(const char *s) { if (*s != '~') return strdup(s); s++; char b[4000]; verticalDatumInfo v; char *z = 0, *r;
  if (!keyed(s, VERTICAL_DATUM_INFO_USER_HEADER_PARAM, b, sizeof b) || stringToVerticalDatumInfo(&v, b) || verticalDatumInfoToString(&z, &v, 1) || !z) return strdup(s);
  const char *e = strchr(s, ';'); r = malloc(strlen(z) + strlen(s) + 40); sprintf(r, "%s:%s;%s", VERTICAL_DATUM_INFO_USER_HEADER_PARAM, z, e ? e + 1 : ""); free(z); return r; }
static void d_vdput(void) {
  /* 1 h, 2 path, 3 reg irr pd, 4 dbl, 5 first day | days | ordinates, 6 values, 7 units ind, 8 units, 9 header, 10 supplemental, 11 curves, 12 sc, 13 ec, 14 so, 15 eo, 16 what was given (JSON) */
  int h = I(1), dbl = I(4), st, kept = 1, room = 0; const char *k = S(3); double *v, *o = 0; int n = mlist(S(6), &v), m = 0, a = I(5); int *days = 0, *tm = 0;
  char *uh = vtext(S(9)), *su = vtext(S(10)); char u1[80], u2[80]; strcpy(u1, S(7)); strcpy(u2, S(8)); char d0[40], t0[] = "2400";
  if (!strcmp(k, "pd")) { double *x; int q = mlist(S(5), &x) * I(11); free(x); if (q > n) { v = realloc(v, 8 * q); for (int i = n; i < q; i++) v[i] = 0; } if (q < n) q = n; room = q; }
  float *f = calloc(room + n + 1, 4), *f0 = malloc(4 * (n + 1)); double *v0 = malloc(8 * (n + 1)); for (int i = 0; i < n; i++) f0[i] = f[i] = (float)v[i], v0[i] = v[i];
  int un = (int)((strlen(uh) + 3) / 4); int *u = calloc(un + 2, 4); memcpy(u, uh, strlen(uh));
  jbegin("vdput"); jint("h", h); jstr("p", S(2)); jstr("k", k); jint("dbl", dbl);
  if (!strcmp(k, "pd")) {
    int nc = I(11); m = mlist(S(5), &o); float *fo = malloc(4 * (m + 1)); for (int i = 0; i < m; i++) fo[i] = (float)o[i];
    zStructPairedData *p = dbl ? zstructPdNewDoubles(S(2), o, v, m, nc, u1, "Linear", u2, "Linear") : zstructPdNewFloats(S(2), fo, f, m, nc, u1, "Linear", u2, "Linear");
    p->startingCurve = I(12); p->endingCurve = I(13); p->startingOrdinate = I(14); p->endingOrdinate = I(15);
    if (*uh) { p->userHeader = u; p->userHeaderNumber = un; }
    if (*su) { p->locationStruct = zstructLocationNew(S(2)); p->allocated[zSTRUCT_PD_locationStruct] = 1; p->locationStruct->supplemental = strdup(su); p->locationStruct->allocated[zSTRUCT_otherInformation] = 1; }
    st = zpdStore(T(h), p, 0); jmillis("o", o, 0, m); jint("nc", nc); fprintf(out, ",\"part\":[%d,%d,%d,%d],\"days\":[]", I(12), I(13), I(14), I(15));
    if (p->userHeader == u) p->userHeader = 0;
    if (dbl) kept = p->doubleValues == v && p->doubleOrdinates == o; else kept = p->floatValues == f && p->floatOrdinates == fo;
    { double *o2; mlist(S(5), &o2); for (int i = 0; i < m; i++) if (o[i] != o2[i] || fo[i] != (float)o2[i]) kept = 0; free(o2); }
    zstructFree(p); free(fo);
  } else {
    zStructTimeSeries *t;
    if (!strcmp(k, "reg")) { m = n; days = malloc(4 * (n + 1)); for (int i = 0; i < n; i++) days[i] = a + i; julianToDate(VDAY0 + a, 4, d0, sizeof d0);
      t = dbl ? zstructTsNewRegDoubles(S(2), v, n, d0, t0, u2, "INST-VAL") : zstructTsNewRegFloats(S(2), f, n, d0, t0, u2, "INST-VAL"); }
    else { days = qlist(S(5), &m); tm = malloc(4 * (m + 1)); for (int i = 0; i < m; i++) tm[i] = (VDAY0 + days[i]) * 1440 + 720;
      t = dbl ? zstructTsNewIrregDoubles(S(2), v, n, tm, 60, "", u2, "INST-VAL") : zstructTsNewIrregFloats(S(2), f, n, tm, 60, "", u2, "INST-VAL"); }
    if (*uh) { t->userHeader = u; t->userHeaderNumber = un; }
    if (*su) { if (!t->locationStruct) { t->locationStruct = zstructLocationNew(S(2)); t->allocated[zSTRUCT_TS_locationStruct] = 1; } t->locationStruct->supplemental = strdup(su); t->locationStruct->allocated[zSTRUCT_otherInformation] = 1; }
    st = ztsStore(T(h), t, 0); jints("days", days, m); jints("o", 0, 0); jint("nc", 1); fputs(",\"part\":[0,0,0,0]", out);
    if (t->userHeader == u) t->userHeader = 0;
    kept = dbl ? t->doubleValues == v : t->floatValues == f;
    zstructFree(t);
  }
  for (int i = 0; i < n; i++) if (f[i] != f0[i] || v[i] != v0[i]) kept = 0;
  jmillis("v", v0, 0, n); fprintf(out, ",\"g\":%s", S(16)); jint("kept", kept); jint("st", st); jend();
  free(v); free(o); free(f); free(f0); free(v0); free(u); free(uh); free(su); free(days); free(tm);
}
static void d_vdget(void) { /* 1 h, 2 path, 3 kind, 4 size flag, 5 from, 6 to, 7 sc, 8 ec, 9 so, 10 eo */
  int h = I(1), st; const char *k = S(3); jbegin("vdget"); jint("h", h); jstr("p", S(2)); jstr("k", k); jint("from", I(5)); jint("to", I(6)); fprintf(out, ",\"part\":[%d,%d,%d,%d]", I(7), I(8), I(9), I(10));
  if (!strcmp(k, "pd")) {
    zStructPairedData *p = zstructPdNew(S(2)); p->startingCurve = I(7); p->endingCurve = I(8); p->startingOrdinate = I(9); p->endingOrdinate = I(10);
    st = zpdRetrieve(T(h), p, I(4)); int no = st == 0 ? p->numberOrdinatesInStruct : 0, nv = st == 0 ? no * p->numberCurvesInStruct : 0;
    jint("st", st); jints("days", 0, 0); jmillis("o", st == 0 ? p->doubleOrdinates : 0, st == 0 ? p->floatOrdinates : 0, no); jmillis("v", st == 0 ? p->doubleValues : 0, st == 0 ? p->floatValues : 0, nv);
    jstr("ui", st == 0 ? p->unitsIndependent : ""); jstr("u", st == 0 ? p->unitsDependent : ""); jhead(st == 0 ? p->userHeader : 0, st == 0 ? p->userHeaderNumber : 0); zstructFree(p);
  } else {
    int reg = !strcmp(k, "reg"); char a[40], b[40]; julianToDate(VDAY0 + I(5), 4, a, sizeof a); julianToDate(VDAY0 + I(6), 4, b, sizeof b);
    zStructTimeSeries *t = reg ? zstructTsNewTimes(S(2), a, "2400", b, "2400") : zstructTsNewTimes(S(2), a, "0001", b, "2400");
    st = ztsRetrieve(T(h), t, 0, I(4), 0); int n = st == 0 ? t->numberValues : 0; if (n < 0) n = 0; int *d = calloc(n + 1, 4);
    for (int i = 0; i < n && t->times; i++) d[i] = (int)(((long long)t->times[i] * t->timeGranularitySeconds - 1) / 86400) + t->julianBaseDate - VDAY0;
    jint("st", st); jints("days", d, n); jints("o", 0, 0); jmillis("v", st == 0 ? t->doubleValues : 0, st == 0 ? t->floatValues : 0, t->doubleValues || t->floatValues ? n : 0);
    jstr("ui", ""); jstr("u", st == 0 ? t->units : ""); jhead(st == 0 ? t->userHeader : 0, st == 0 ? t->userHeaderNumber : 0); free(d); zstructFree(t);
  }
  jend();
}
static void d_vdloc(void) { int h = I(1); zStructLocation *l = zstructLocationNew(S(2)); int st = zlocationRetrieve(T(h), l);
  jbegin("vdloc"); jint("h", h); jstr("p", S(2)); jint("st", st); jvdiof("vdi", l->supplemental); jint("vd", l->verticalDatum); jint("vu", l->verticalUnits); jend(); zstructFree(l); }
static int run_vd(const char *c) { if (!strcmp(c, "vdput")) d_vdput(); else if (!strcmp(c, "vdget")) d_vdget(); else if (!strcmp(c, "vdloc")) d_vdloc(); else return 0; return 1; }
