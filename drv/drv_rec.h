/* Paired data, text, array, grid, TIN and location commands. */
#include "zStructSpatialGrid.h"
#include "zStructSpatialTin.h"
/* the user header as a text; the library fills a text of an odd number of words with blanks */
static void juh(const int *u, int n) { char uh[220]; memset(uh, 0, sizeof uh); if (u && n > 0) memcpy(uh, u, (n > 50 ? 50 : n) * 4); int k = (int)strlen(uh); while (k && uh[k - 1] == ' ') uh[--k] = 0; jstr("uh", uh); }
/* strings in a flat NUL separated buffer */
static void jflat(const char *k, const char *c, int len) { fprintf(out, ",\"%s\":[", k); int p = 0, n = 0;
  while (c && p < len) { if (n++) fputc(',', out); int m = (int)strnlen(c + p, len - p); jesc(c + p, m); p += m + 1; } fputc(']', out); }
static void d_pdput(void) {
  /* 1 h, 2 path, 3 flag, 4 dbl, 5 no, 6 nc, 7 sc, 8 ec, 9 so, 10 eo, 11 ordinates, 12 values, 13 ui, 14 ti, 15 ud, 16 td, 17 tz, 18 labels, 19 xaxis, 20 xprec, 21 yprec, 22 user header, 23 via */
  int h = I(1), flag = I(3), dbl = I(4), via = I(23), st, nl; double *o, *v; int no = vlist(S(11), &o), nv = vlist(S(12), &v); char *lab = nlist(S(18), &nl);
  float *of = malloc(4 * (no + 1)), *vf = malloc(4 * (nv + 1)); for (int i = 0; i < no; i++) of[i] = (float)o[i]; for (int i = 0; i < nv; i++) vf[i] = (float)v[i];
  jbegin("pdput"); jint("h", h); jstr("p", S(2)); jint("flag", flag); jint("dbl", dbl); jint("no", I(5)); jint("nc", I(6)); jint("sc", I(7)); jint("ec", I(8)); jint("so", I(9)); jint("eo", I(10));
  jdoubles("o", o, no, 0); jdoubles("of", o, no, 1); jdoubles("v", v, nv, 0); jdoubles("vf", v, nv, 1);
  jstr("ui", S(13)); jstr("ti", S(14)); jstr("ud", S(15)); jstr("td", S(16)); jstr("tz", S(17)); jflat("lab", lab, nl); jint("xaxis", I(19)); jint("xp", I(20)); jint("yp", I(21)); jint("via", via); jstr("uh", S(22));
  if (via == 1) st = hec_dss_pdStore(H[h].d, S(2), o, no, v, nv, I(5), I(6), S(13), S(14), S(15), S(16), lab, nl, S(17));
  else {
    zStructPairedData *p = dbl ? zstructPdNewDoubles(S(2), o, v, I(5), I(6), S(13), S(14), S(15), S(16)) : zstructPdNewFloats(S(2), of, vf, I(5), I(6), S(13), S(14), S(15), S(16));
    p->startingCurve = I(7); p->endingCurve = I(8); p->startingOrdinate = I(9); p->endingOrdinate = I(10);
    if (nl) { p->labels = lab; p->labelsLength = nl; }
    if (S(17)[0]) { p->timeZoneName = strdup(S(17)); p->allocated[zSTRUCT_timeZoneName] = 1; }
    p->boolIndependentIsXaxis = I(19); p->xprecision = I(20); p->yprecision = I(21);
    int uh[64]; if (S(22)[0]) { memset(uh, 0, sizeof uh); strncpy((char *)uh, S(22), 200); p->userHeader = uh; p->userHeaderNumber = ((int)strlen(S(22)) + 3) / 4; }
    st = zpdStore(T(h), p, flag); zstructFree(p);
  }
  jint("st", st); jend(); free(o); free(v); free(of); free(vf); free(lab);
}
static void d_pdget(void) { /* 1 h, 2 path, 3 size flag, 4 sc, 5 ec, 6 so, 7 eo, 8 via */
  int h = I(1), via = I(8), st;
  jbegin("pdget"); jint("h", h); jstr("p", S(2)); jint("dbl", I(3)); jint("sc", I(4)); jint("ec", I(5)); jint("so", I(6)); jint("eo", I(7)); jint("via", via);
  if (via == 1) {
    int no = 0, nc = 0, nl = 0, no2 = 0, nc2 = 0; char a[4][410], b[4][410], tz[110] = ""; for (int i = 0; i < 4; i++) a[i][0] = b[i][0] = 0;
    st = hec_dss_pdRetrieveInfo(H[h].d, S(2), &no, &nc, a[0], 400, a[1], 400, a[2], 400, a[3], 400, &nl);
    int s2 = -1; double *o = calloc(no + 1, 8), *v = calloc((long)no * nc + 1, 8); char *lab = calloc(nl + 1, 1);
    s2 = hec_dss_pdRetrieve(H[h].d, S(2), o, no, v, no * nc, &no2, &nc2, b[0], 400, b[2], 400, b[1], 400, b[3], 400, lab, nl, tz, 100);
    jint("st", st == 0 ? s2 : st); if (st == 0 && s2 == 0) { jint("same", no == no2 && nc == nc2 && !strcmp(a[0], b[0]) && !strcmp(a[1], b[1]) && !strcmp(a[2], b[2]) && !strcmp(a[3], b[3]));
      jint("no", no); jint("nc", nc); jint("nos", no); jint("ncs", nc); jint("sz", 2); jdoubles("o", o, no, 0); jdoubles("v", v, no * nc, 0);
      jstr("ui", a[0]); jstr("ti", a[2]); jstr("ud", a[1]); jstr("td", a[3]); jstr("tz", tz); jflat("lab", lab, nl); }
    free(o); free(v); free(lab);
  } else {
    zStructPairedData *p = zstructPdNew(S(2)); p->startingCurve = I(4); p->endingCurve = I(5); p->startingOrdinate = I(6); p->endingOrdinate = I(7);
    st = zpdRetrieve(T(h), p, I(3)); jint("st", st);
    if (st == 0) { int no = p->numberOrdinatesInStruct, nv = no * p->numberCurvesInStruct;
      jint("no", p->numberOrdinates); jint("nc", p->numberCurves); jint("nos", no); jint("ncs", p->numberCurvesInStruct);
      if (p->doubleOrdinates && p->doubleValues) { jint("sz", 2); jdoubles("o", p->doubleOrdinates, no, 0); jdoubles("v", p->doubleValues, nv, 0); }
      else if (p->floatOrdinates && p->floatValues) { jint("sz", 1); jfloats("o", p->floatOrdinates, no); jfloats("v", p->floatValues, nv); }
      else { jint("sz", 0); jfloats("o", 0, 0); jfloats("v", 0, 0); }
      jstr("ui", p->unitsIndependent); jstr("ti", p->typeIndependent); jstr("ud", p->unitsDependent); jstr("td", p->typeDependent); jstr("tz", p->timeZoneName);
      jflat("lab", p->labels, p->labelsLength); jint("xaxis", p->boolIndependentIsXaxis); jint("xp", p->xprecision); jint("yp", p->yprecision); jint("disk", p->sizeEachValueRead);
      juh(p->userHeader, p->userHeaderNumber); }
    zstructFree(p);
  }
  jend();
}
/* "seed:n" makes n printable characters (with blanks and line ends), "=text" is literal, '|' standing for NUL */
static char *mktext(const char *s, int *n) {
  if (*s == '=') { *n = (int)strlen(s + 1); char *c = malloc(*n + 10); memset(c, 0, *n + 10); strcpy(c, s + 1); for (int i = 0; i < *n; i++) if (c[i] == '|') c[i] = 0; return c; }
  long seed; int k; if (sscanf(s, "%ld:%d", &seed, &k) != 2) { *n = 0; return 0; }
  char *c = malloc(k + 10); memset(c, 0, k + 10); seedrng(seed); for (int i = 0; i < k; i++) { uint32_t r = rnd() % 40; c[i] = r < 26 ? 'a' + r : r < 30 ? ' ' : r == 30 ? '\n' : r == 31 ? '\t' : r == 32 ? (char)0xe9 : '0' + r - 30; }
  *n = k; return c;
}
static void jdig(const char *k, const void *p, long n) { char b[64]; dig(p, n, b); jstr(k, b); }
static void d_txput(void) { /* 1 h, 2 path, 3 text, 4 table, 5 rows, 6 cols, 7 labels, 8 uh, 9 via */
  int h = I(1), a, b, c, st; char *x = mktext(S(3), &a), *y = mktext(S(4), &b), *z = mktext(S(7), &c);
  jbegin("txput"); jint("h", h); jstr("p", S(2)); jdig("x", x, a); jdig("y", y, b); jdig("z", z, c); jint("rows", I(5)); jint("cols", I(6)); jstr("uh", S(8)); jint("via", I(9)); jint("empty", a + b < 1); jint("xl", x && memchr(x, 0, a) ? -1 : a);
  { /* the record as a text file: the text, then the first string of each row of a one column table */
    char *ex = calloc(a + b + 2, 1); int n = 0, q = 0; if (x) { n = (int)strnlen(x, a); memcpy(ex, x, n); }
    if (I(9) == 0 && y) for (int i = 0; i < I(5) && q < b; i++) { int k = (int)strnlen(y + q, b - q); memcpy(ex + n, y + q, k); n += k; q += k + 1; }
    if (I(9) == 0 && y && I(6) > 1) jstr("ex", "?"); else jdig("ex", ex, n); free(ex); }
  if (I(9) == 1) st = hec_dss_textStore(H[h].d, S(2), x ? x : "", a);
  else { zStructText *t = zstructTextNew(S(2)); t->textString = x; t->numberTextChars = a; t->textTable = y; t->numberTableChars = b; t->labels = z; t->numberLabelChars = c; t->numberRows = I(5); t->numberColumns = I(6);
    int uh[64]; if (S(8)[0]) { memset(uh, 0, sizeof uh); strncpy((char *)uh, S(8), 200); t->userHeader = uh; t->userHeaderNumber = ((int)strlen(S(8)) + 3) / 4; }
    st = ztextStore(T(h), t); zstructFree(t); }
  jint("st", st); jend(); free(x); free(y); free(z);
}
static void d_txget(void) { /* 1 h, 2 path, 3 via, 4 buffer length */
  int h = I(1), st; jbegin("txget"); jint("h", h); jstr("p", S(2)); jint("via", I(3)); jint("cap", I(4));
  if (I(3) == 1) { char *b = calloc(I(4) + 2, 1); st = hec_dss_textRetrieve(H[h].d, S(2), b, I(4)); jint("st", st); jdig("x", b, (long)strlen(b)); jint("len", (long)strlen(b)); free(b); }
  else { zStructText *t = zstructTextNew(S(2)); st = ztextRetrieve(T(h), t); jint("st", st);
    if (st == 0) { jdig("x", t->textString, t->numberTextChars); jdig("y", t->textTable, t->numberTableChars); jdig("z", t->labels, t->numberLabelChars); jint("rows", t->numberRows); jint("cols", t->numberColumns); jint("ty", t->dataType);
      juh(t->userHeader, t->userHeaderNumber); }
    zstructFree(t); }
  jend();
}
static void d_tximp(void) { /* 1 h, 2 path, 3 text : write a file, import it. 4: 1 = the file is missing */
  int h = I(1), n; char *x = mktext(S(3), &n), f[600]; snprintf(f, sizeof f, "%s/imp.txt", workdir); unlink(f);
  if (!I(4)) { FILE *o = fopen(f, "wb"); fwrite(x, 1, n, o); fclose(o); }
  int rows = 0, k = 0; char *y = calloc(2 * n + 2, 1); for (int i = 0; i < n;) { int m = 0; while (i < n && m < 999) { char ch = x[i++]; y[k++] = ch; m++; if (ch == '\n') break; } y[k++] = 0; rows++; }
  int st = ztextStoreFromFile(T(h), S(2), f); jbegin("tximp"); jint("h", h); jstr("p", S(2)); jdig("x", x, n); jdig("y", y, k); jint("rows", rows); free(y); jint("miss", I(4)); jint("st", st); jend(); free(x); unlink(f);
}
static void d_txexp(void) { /* 1 h, 2 path, 3: 1 = the file cannot be created */
  int h = I(1); char f[600]; snprintf(f, sizeof f, I(3) ? "%s/nodir/exp.txt" : "%s/exp.txt", workdir); unlink(f); int st = ztextRetrieveToFile(T(h), S(2), f);
  jbegin("txexp"); jint("h", h); jstr("p", S(2)); jint("bad", I(3)); jint("st", st); FILE *i = fopen(f, "rb"); jint("made", i != 0);
  if (i) { fseek(i, 0, SEEK_END); long n = ftell(i); rewind(i); char *c = malloc(n + 1); n = fread(c, 1, n, i); jdig("x", c, n); free(c); fclose(i); } else jstr("x", "0");
  jend(); unlink(f);
}
static float *floats(long seed, int n) { float *f = calloc(n + 2, 4); seedrng(seed); for (int i = 0; i < n; i++) { uint32_t r = rnd() % 9; f[i] = r == 0 ? -FLT_MAX : r < 4 ? (float)(r * 0.5) : (float)((int)rnd() / 977.0); } return f; }
static double *doubles(long seed, int n) { double *f = calloc(n + 2, 8); seedrng(seed); for (int i = 0; i < n; i++) { uint32_t r = rnd() % 9; f[i] = r == 0 ? -FLT_MAX : r < 4 ? r * 0.5 : (int)rnd() / 977.0; } return f; }
static void d_arput(void) { /* 1 h, 2 path, 3 seed, 4 ni, 5 nf, 6 nd, 7 uh, 8 via */
  int h = I(1), st, ni = I(4), nf = I(5), nd = I(6); long s = atol(S(3)); int *a = ints(s, ni); float *f = floats(s + 1, nf); double *d = doubles(s + 2, nd);
  jbegin("arput"); jint("h", h); jstr("p", S(2)); jdig("i", a, 4L * ni); jdig("f", f, 4L * nf); jdig("d", d, 8L * nd); jint("via", I(8)); jstr("uh", I(8) == 1 ? "" : S(7));
  if (I(8) == 1) st = hec_dss_arrayStore(H[h].d, S(2), a, ni, f, nf, d, nd);
  else { zStructArray *t = zstructArrayNew(S(2)); t->intArray = a; t->numberIntArray = ni; t->floatArray = f; t->numberFloatArray = nf; t->doubleArray = d; t->numberDoubleArray = nd;
    int uh[64]; if (S(7)[0]) { memset(uh, 0, sizeof uh); strncpy((char *)uh, S(7), 200); t->userHeader = uh; t->userHeaderNumber = ((int)strlen(S(7)) + 3) / 4; }
    st = zarrayStore(T(h), t); zstructFree(t); }
  jint("st", st); jend(); free(a); free(f); free(d);
}
static void d_arget(void) { /* 1 h, 2 path, 3 via */
  int h = I(1), st; jbegin("arget"); jint("h", h); jstr("p", S(2)); jint("via", I(3));
  if (I(3) == 1) { int ni = 0, nf = 0, nd = 0; st = hec_dss_arrayRetrieveInfo(H[h].d, S(2), &ni, &nf, &nd);
    if (st == 0) { int *a = calloc(ni + 1, 4); float *f = calloc(nf + 1, 4); double *d = calloc(nd + 1, 8); st = hec_dss_arrayRetrieve(H[h].d, S(2), a, ni, f, nf, d, nd); jint("st", st); jdig("i", a, 4L * ni); jdig("f", f, 4L * nf); jdig("d", d, 8L * nd); free(a); free(f); free(d); }
    else jint("st", st); }
  else { zStructArray *t = zstructArrayNew(S(2)); st = zarrayRetrieve(T(h), t); jint("st", st);
    if (st == 0) { jdig("i", t->intArray, 4L * t->numberIntArray); jdig("f", t->floatArray, 4L * t->numberFloatArray); jdig("d", t->doubleArray, 8L * t->numberDoubleArray);
      juh(t->userHeader, t->userHeaderNumber); }
    zstructFree(t); }
  jend();
}
/* the scalar fields of a grid, as one text each */
static void jgrid(const zStructSpatialGrid *g, int data, int stats) {
  fprintf(out, ",\"hd\":\"%d;%d;%d;%d;%d;%d;%d;%d;%d;%d;%d\"", g->_type, g->_dataType, g->_lowerLeftCellX, g->_lowerLeftCellY, g->_numberOfCellsX, g->_numberOfCellsY, g->_numberOfRanges, g->_srsDefinitionType, g->_timeZoneRawOffset, g->_isInterval, g->_isTimeStamped);
  fprintf(out, ",\"fl\":\"%.9g;%.9g;%.9g;%.9g\"", g->_cellSize, g->_xCoordOfGridCellZero, g->_yCoordOfGridCellZero, g->_nullValue);
  jstr("u", g->_dataUnits); jstr("src", g->_dataSource); jstr("srs", g->_srsName); jstr("def", g->_srsDefinition); jstr("tz", g->_timeZoneID);
  if (stats) { fprintf(out, ",\"mm\":\"%.9g;%.9g;%.9g\"", *(float *)g->_maxDataValue, *(float *)g->_minDataValue, *(float *)g->_meanDataValue); jdig("rt", g->_rangeLimitTable, 4L * g->_numberOfRanges); jdig("rn", g->_numberEqualOrExceedingRangeLimit, 4L * g->_numberOfRanges); }
  if (data) jdig("d", g->_data, 4L * g->_numberOfCellsX * g->_numberOfCellsY);
}
static void d_gdput(void) { /* 1 h, 2 path, 3 type, 4 nx, 5 ny, 6 compression, 7 ranges, 8 seed, 9 units, 10 source, 11 srs, 12 def, 13 tz, 14 via, 15 precompressed */
  int h = I(1), st; long s = atol(S(8)); zStructSpatialGrid *g = zstructSpatialGridNew(S(2)); seedrng(s);
  g->_structVersion = VERSION_100; g->_type = I(3); g->_version = 1; g->_dataType = rnd() % 6; g->_lowerLeftCellX = (int)(rnd() % 2000) - 1000; g->_lowerLeftCellY = (int)(rnd() % 2000) - 1000; g->_numberOfCellsX = I(4); g->_numberOfCellsY = I(5);
  g->_numberOfRanges = I(7); g->_srsDefinitionType = rnd() % 3; g->_timeZoneRawOffset = (int)(rnd() % 25) * 3600000 - 43200000; g->_isInterval = rnd() % 2; g->_isTimeStamped = rnd() % 2;
  g->_cellSize = (float)(rnd() % 5000) / 7; g->_xCoordOfGridCellZero = (float)(rnd() % 5000) / 3; g->_yCoordOfGridCellZero = -(float)(rnd() % 5000) / 3; g->_nullValue = rnd() % 2 ? -FLT_MAX : -901.f; g->_compressionMethod = I(6);
  g->_dataUnits = strdup(S(9)); g->_dataSource = strdup(S(10)); g->_srsName = strdup(S(11)); g->_srsDefinition = strdup(S(12)); g->_timeZoneID = strdup(S(13)); g->_storageDataType = GRID_FLOAT;
  float mx = (float)(rnd() % 900) / 9, mn = -(float)(rnd() % 900) / 9, me = (float)(rnd() % 9) / 9; int n = I(4) * I(5);
  float *rt = floats(s + 1, I(7)); int *rn = ints(s + 2, I(7)); float *d = floats(s + 3, n + 1); void *z = 0; int zn = 0;
  if (I(15)) { zn = compress_zlib(d, ((n - 1) / 2 + 1) * 8, &z); }
  float *pm = malloc(4), *pn = malloc(4), *pe = malloc(4); *pm = mx; *pn = mn; *pe = me; g->_maxDataValue = pm; g->_minDataValue = pn; g->_meanDataValue = pe; g->_rangeLimitTable = rt; g->_numberEqualOrExceedingRangeLimit = rn; g->_data = d;
  jbegin("gdput"); jint("h", h); jstr("p", S(2)); jint("ty", g->_type); jint("comp", I(6)); jint("via", I(14)); jint("pre", I(15)); jgrid(g, 1, 1);
  if (I(15)) { free(d); d = calloc(zn + 8, 1); memcpy(d, z, zn); g->_data = d; free(z); }
  if (I(14) == 1) st = hec_dss_gridStore(H[h].d, S(2), g->_type, g->_dataType, g->_lowerLeftCellX, g->_lowerLeftCellY, g->_numberOfCellsX, g->_numberOfCellsY, g->_numberOfRanges, g->_srsDefinitionType, g->_timeZoneRawOffset, g->_isInterval, g->_isTimeStamped, zn,
      S(9), S(10), S(11), S(12), S(13), g->_cellSize, g->_xCoordOfGridCellZero, g->_yCoordOfGridCellZero, g->_nullValue, mx, mn, me, rt, rn, d);
  else if (zn) st = zspatialGridStore_extended(T(h), g, zn); else st = zspatialGridStore(T(h), g);
  zstructFree(g); jint("st", st); jend();
}
static void d_gdget(void) { /* 1 h, 2 path, 3 data, 4 via */
  int h = I(1), st, data = I(3); jbegin("gdget"); jint("h", h); jstr("p", S(2)); jint("data", data); jint("via", I(4));
  if (I(4) == 1) { zStructSpatialGrid g; memset(&g, 0, sizeof g); char u[5][1000]; memset(u, 0, sizeof u); float mx = 0, mn = 0, me = 0; static float rt[200]; static int rn[200]; int cap = 40000; float *d = calloc(cap, 4);
    st = hec_dss_gridRetrieve(H[h].d, S(2), data, &g._type, &g._dataType, &g._lowerLeftCellX, &g._lowerLeftCellY, &g._numberOfCellsX, &g._numberOfCellsY, &g._numberOfRanges, &g._srsDefinitionType, &g._timeZoneRawOffset, &g._isInterval, &g._isTimeStamped,
        u[0], 999, u[1], 999, u[2], 999, u[3], 999, u[4], 999, &g._cellSize, &g._xCoordOfGridCellZero, &g._yCoordOfGridCellZero, &g._nullValue, &mx, &mn, &me, rt, 200, rn, d, cap);
    jint("st", st); if (st == 0) { g._dataUnits = u[0]; g._dataSource = u[1]; g._srsName = u[2]; g._srsDefinition = u[3]; g._timeZoneID = u[4]; g._maxDataValue = &mx; g._minDataValue = &mn; g._meanDataValue = &me; g._rangeLimitTable = rt; g._numberEqualOrExceedingRangeLimit = rn; g._data = d; jgrid(&g, data, data); jint("stats", data); }
    free(d); }
  else { zStructSpatialGrid *g = zstructSpatialGridNew(S(2)); st = zspatialGridRetrieve(T(h), g, data); jint("st", st); if (st == 0) { int s = g->_maxDataValue && g->_minDataValue && g->_meanDataValue; jint("stats", s); jgrid(g, data && g->_data, s); if (data && !g->_data) jstr("d", "none"); jint("comp", g->_compressionMethod); } zstructFree(g); }
  jend();
}
/* trailing blanks of the descriptive texts of a TIN carry no meaning (the library does not give them back) */
static void jtrim(const char *k, const char *c) { int n = c ? (int)strlen(c) : 0; while (n && c[n - 1] == ' ') n--; fprintf(out, ",\"%s\":", k); jesc(c ? c : "", n); }
static void jtin(const zStructSpatialTin *t, int data) {
  fprintf(out, ",\"hd\":\"%d;%d;%d;%d\"", t->numberPoints, t->connectTableLen, t->pointLabelLen, t->SRSType);
  fprintf(out, ",\"fl\":\"%.9g;%.9g;%.9g;%.9g;%.9g;%.9g;%.9g;%.9g\"", t->slendernessRatio, t->minXCoordinate, t->minYCoordinate, t->maxXCoordinate, t->maxYCoordinate, t->minValue, t->meanValue, t->maxValue);
  jtrim("a", t->SpatialReferenceSystem); jtrim("b", t->SRSName); jtrim("c", t->SRSUnits); jtrim("u", t->units); jtrim("tt", t->type); jtrim("tz", t->timeZoneName);
  if (data) { int n = t->numberPoints; jdig("x", t->xCoordinate, 4L * n); jdig("y", t->yCoordinate, 4L * n); jdig("v", t->value, 4L * n); jdig("pt", t->pointType, 4L * n); jdig("pc", t->numberConnections, 4L * n); jdig("ct", t->connectTo, t->connectTo ? 4L * t->connectTableLen : 0); jdig("lb", t->pointLabel, t->pointLabel ? t->pointLabelLen : 0); }
}
static void d_tinput(void) { /* 1 h, 2 path, 3 points, 4 connections, 5 labels, 6 seed, 7 srs, 8 name, 9 srsunits, 10 units, 11 type, 12 tz */
  int h = I(1), n = I(3), nl; long s = atol(S(6)); zStructSpatialTin *t = zstructSpatialTinNew(S(2)); char *lab = mktext(S(5), &nl); seedrng(s);
  float *f[8] = {&t->slendernessRatio, &t->minXCoordinate, &t->minYCoordinate, &t->maxXCoordinate, &t->maxYCoordinate, &t->minValue, &t->meanValue, &t->maxValue}; for (int i = 0; i < 8; i++) *f[i] = (float)((int)rnd() / 97.0);
  t->numberPoints = n; t->connectTableLen = I(4); t->SRSType = rnd() % 5; t->pointLabel = lab; t->pointLabelLen = nl;
  t->SpatialReferenceSystem = (char *)S(7); t->SRSName = (char *)S(8); t->SRSUnits = (char *)S(9); t->units = (char *)S(10); t->type = (char *)S(11); t->timeZoneName = (char *)S(12);
  float *x = floats(s + 1, n), *y = floats(s + 2, n), *v = floats(s + 3, n); int *pt = ints(s + 4, n), *pc = ints(s + 5, n), *ct = ints(s + 6, I(4));
  t->xCoordinate = x; t->yCoordinate = y; t->value = v; t->pointType = pt; t->numberConnections = pc; t->connectTo = I(4) ? ct : 0;
  jbegin("tinput"); jint("h", h); jstr("p", S(2)); jtin(t, 1);
  int st = zspatialTinStore(T(h), t); jint("st", st); jend(); zstructFree(t); free(x); free(y); free(v); free(pt); free(pc); free(ct); free(lab);
}
static void d_tinget(void) { /* 1 h, 2 path, 3 data */
  int h = I(1); zStructSpatialTin *t = zstructSpatialTinNew(S(2)); int st = zspatialTinRetrieve(T(h), t, I(3));
  jbegin("tinget"); jint("h", h); jstr("p", S(2)); jint("data", I(3)); jint("st", st); if (st == 0) jtin(t, I(3)); jend(); zstructFree(t);
}
static void jloc(double x, double y, double z, int a, int b, int c, int d, int e, int f, const char *tz, const char *sup) {
  fprintf(out, ",\"xyz\":\"%.17g;%.17g;%.17g\",\"k\":\"%d;%d;%d;%d;%d;%d\"", x, y, z, a, b, c, d, e, f); jstr("tz", tz); jstr("sup", sup); }
static void d_lcput(void) { /* 1 h, 2 path, 3 x, 4 y, 5 z, 6 cs, 7 cid, 8 hu, 9 hd, 10 vu, 11 vd, 12 tz, 13 supplemental, 14 replace, 15 via */
  int h = I(1), st; double x = atof(S(3)), y = atof(S(4)), z = atof(S(5));
  int any = x != 0 || y != 0 || z != 0 || I(9) || I(11) || S(12)[0] || S(13)[0] || I(15) == 1; /* the C interface always hands over a (possibly empty) supplemental text */
  jbegin("lcput"); jint("h", h); jstr("p", S(2)); jloc(x, y, z, I(6), I(7), I(8), I(9), I(10), I(11), S(12), S(13)); jint("rep", I(14)); jint("via", I(15)); jint("any", any);
  if (I(15) == 1) st = hec_dss_locationStore(H[h].d, S(2), x, y, z, I(6), I(7), I(8), I(9), I(10), I(11), S(12), S(13), I(14));
  else { zStructLocation *l = zstructLocationNew(S(2)); l->xOrdinate = x; l->yOrdinate = y; l->zOrdinate = z; l->coordinateSystem = I(6); l->coordinateID = I(7); l->horizontalUnits = I(8); l->horizontalDatum = I(9); l->verticalUnits = I(10); l->verticalDatum = I(11);
    if (S(12)[0]) { l->timeZoneName = strdup(S(12)); l->allocated[zSTRUCT_timeZoneName] = 1; } if (S(13)[0]) { l->supplemental = strdup(S(13)); l->allocated[zSTRUCT_otherInformation] = 1; }
    st = zlocationStore(T(h), l, I(14)); zstructFree(l); }
  jint("st", st); jend();
}
static void d_lcget(void) { /* 1 h, 2 path, 3 via */
  int h = I(1), st; jbegin("lcget"); jint("h", h); jstr("p", S(2)); jint("via", I(3));
  if (I(3) == 1) { double x = 0, y = 0, z = 0; int a = 0, b = 0, c = 0, d = 0, e = 0, f = 0; char tz[200], sup[3000]; memset(tz, 0, sizeof tz); memset(sup, 0, sizeof sup);
    st = hec_dss_locationRetrieve(H[h].d, S(2), &x, &y, &z, &a, &b, &c, &d, &e, &f, tz, 199, sup, 2999); jint("st", st); if (st == 0) jloc(x, y, z, a, b, c, d, e, f, tz, sup); }
  else { zStructLocation *l = zstructLocationNew(S(2)); st = zlocationRetrieve(T(h), l); jint("st", st);
    if (st == 0) jloc(l->xOrdinate, l->yOrdinate, l->zOrdinate, l->coordinateSystem, l->coordinateID, l->horizontalUnits, l->horizontalDatum, l->verticalUnits, l->verticalDatum, l->timeZoneName ? l->timeZoneName : "", l->supplemental ? l->supplemental : ""); zstructFree(l); }
  jend();
}
static int run_rec(const char *c) {
  if (!strcmp(c, "pdput")) d_pdput(); else if (!strcmp(c, "pdget")) d_pdget();
  else if (!strcmp(c, "txput")) d_txput(); else if (!strcmp(c, "txget")) d_txget(); else if (!strcmp(c, "tximp")) d_tximp(); else if (!strcmp(c, "txexp")) d_txexp();
  else if (!strcmp(c, "arput")) d_arput(); else if (!strcmp(c, "arget")) d_arget();
  else if (!strcmp(c, "gdput")) d_gdput(); else if (!strcmp(c, "gdget")) d_gdget();
  else if (!strcmp(c, "tinput")) d_tinput(); else if (!strcmp(c, "tinget")) d_tinget();
  else if (!strcmp(c, "lcput")) d_lcput(); else if (!strcmp(c, "lcget")) d_lcget();
  else if (!strcmp(c, "lcdel")) simple("lcdel", I(1), S(2), 0, zlocationDelete(T(I(1)), S(2)));
  else return 0;
  return 1;
}
