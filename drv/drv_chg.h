/* Write times, change tracking and check sums.  Times are logged in milliseconds from the last reset; with ticking on every
   call starts in a millisecond of its own and its event carries the interval [u0, u1] it ran in. */
static zStructCatalog *snaps[8]; static long long slots[8];
static zStructCatalog *dupcat(void) { return zstructCatalogNew(); }
static long long rel(long long v) { return v - clk_base; }
static void catlist(zStructCatalog *c, int crc) {
  fputs(",\"l\":[", out);
  for (int i = 0; i < c->numberPathnames; i++) { if (i) fputc(',', out); fputs("{\"p\":", out); jesc(c->pathnameList[i], 400);
    fprintf(out, ",\"t\":%d,\"w\":%lld", c->recordType ? c->recordType[i] : -1, c->lastWriteTimeRecord ? rel(c->lastWriteTimeRecord[i]) : -1);
    if (crc) fprintf(out, ",\"c\":\"%u\"", c->crcValues ? c->crcValues[i] : 0u); fputc('}', out); }
  fputc(']', out);
}
static int run_chg(const char *c) {
  int h = I(1);
  if (!strcmp(c, "tick")) { clk_on = I(1); clk_base = nowms(); clk_last = clk_base; clk_t0 = clk_base; jbegin("tick"); jint("v", I(1)); jend(); }
  else if (!strcmp(c, "now")) { slots[I(2) & 7] = nowms(); jbegin("now"); jend(); }
  else if (!strcmp(c, "wt")) { /* wt h path [slot] */
    long long v = zgetLastWriteTimeRec(T(h), S(2)); if (ntok > 3 && v > 0) slots[I(3) & 7] = v;
    jbegin("wt"); jint("h", h); jstr("p", S(2)); jint("v", v > 0 ? rel(v) : v == 0 ? -1 : -2); jend(); }
  else if (!strcmp(c, "wtf")) { long long v = zgetLastWriteTimeFile(T(h)); jbegin("wtf"); jint("h", h); jint("v", v > 0 ? rel(v) : -2); jend(); }
  else if (!strcmp(c, "catw")) { /* catw h slot flag filter sorted */
    zStructCatalog *k = dupcat(); const char *f = S(4)[0] ? S(4) : 0;
    k->lastWriteTimeSearch = slots[I(2) & 7]; k->lastWriteTimeSearchFlag = I(3);
    int st = zcatalog(T(h), f, k, I(5));
    jbegin("catw"); jint("h", h); jint("st", st); jint("ref", slots[I(2) & 7] > 0 ? rel(slots[I(2) & 7]) : -1); jint("flag", I(3)); jstr("q", f ? f : "");
    jint("ft", rel(k->lastWriteTimeFile)); catlist(k, 0); jend(); zstructFree(k); }
  else if (!strcmp(c, "crc")) { char b[40]; snprintf(b, sizeof b, "%u", zgetDataCRC(T(h), S(2), 0)); jbegin("crc"); jint("h", h); jstr("p", S(2)); jstr("v", b); jend(); }
  else if (!strcmp(c, "snap")) { /* snap h k filter crc (k 7: kept by the file's own handle) */
    int k = I(2) & 7; const char *f = S(3)[0] ? S(3) : 0; zStructCatalog *s = 0;
    if (k != 7) { if (snaps[k]) zstructFree(snaps[k]); s = snaps[k] = zstructCatalogNew(); }
    int st = zwhatChangedSetStart(T(h), s, f, I(4));
    jbegin("snap"); jint("h", h); jint("k", k); jint("st", st); jstr("q", f ? f : ""); jint("crc", I(4)); jend(); }
  else if (!strcmp(c, "chg")) { /* chg h k filter crc */
    int k = I(2) & 7; const char *f = S(3)[0] ? S(3) : 0; zStructCatalog *d = zstructCatalogNew();
    if (k != 7 && !snaps[k]) { zstructFree(d); jbegin("note"); jstr("x", "no snapshot"); jend(); return 1; }
    int st = k == 7 ? zwhatChanged(T(h), d) : zwhatChangedCompare(T(h), snaps[k], d, f, I(4));
    jbegin("chg"); jint("h", h); jint("k", k); jint("st", st); catlist(d, 0); jend(); zstructFree(d); }
  else return 0;
  return 1;
}
static void chg_reset(void) { clk_on = 0; for (int i = 0; i < 8; i++) { if (snaps[i]) zstructFree(snaps[i]); snaps[i] = 0; slots[i] = 0; } }
