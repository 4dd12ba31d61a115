/* Pure functions: calendar, dates and times as texts, time arithmetic, intervals, pathname texts. */
/* a buffer of exactly n bytes between two guards */
static char gbuf[2000]; static int gn;
static char *gnew(int n) { memset(gbuf, 0x5a, sizeof gbuf); gn = n; return gbuf + 500; }
static int gbad(void) { for (int i = 0; i < 500; i++) if (gbuf[i] != 0x5a) return 1; for (int i = 500 + gn; i < (int)sizeof gbuf; i++) if (gbuf[i] != 0x5a) return 1; return 0; }
static void gstr(const char *k) { char *b = gbuf + 500; int m = (int)strnlen(b, gn); jint("term", m < gn); fprintf(out, ",\"%s\":", k); jesc(b, m); jint("over", gbad()); }
static int esec(const char *E) { int v = 0, op = EPART_TO_SECONDS; char b[80]; snprintf(b, sizeof b, "%s", E); int st = ztsGetStandardInterval(7, &v, b, sizeof b, &op); return st < 0 ? 0 : v; }
static int run_fn(const char *c) {
  if (!strcmp(c, "f_ymd")) { /* 1 year, 2 month (any), 3 day (any) */
    int j = yearMonthDayToJulian(I(1), I(2), I(3)), y = 0, m = 0, d = 0; hec_dss_julianToYearMonthDay(j, &y, &m, &d);
    jbegin("f_ymd"); jint("y", I(1)); jint("m", I(2)); jint("d", I(3)); jint("j", j); jint("y2", y); jint("m2", m); jint("d2", d); jint("leap", isLeapYear(I(1))); jint("dow", dayOfWeek(j)); jend();
  } else if (!strcmp(c, "f_date")) { /* 1 julian, 2 style, 3 buffer size */
    char *b = gnew(I(3)); int st = julianToDate(I(1), I(2), b, I(3)); jbegin("f_date"); jint("j", I(1)); jint("style", I(2)); jint("size", I(3)); jint("st", st); gstr("t");
    int y = 0, m = 0, d = 0, s2 = hec_dss_dateToYearMonthDay(b, &y, &m, &d); jint("st2", s2); jint("y", y); jint("m", m); jint("d", d); jint("back", hec_dss_dateToJulian(b)); jend();
  } else if (!strcmp(c, "f_parse")) { /* 1 text, 2 form, 3 year, 4 month, 5 day */
    int y = 0, m = 0, d = 0, st = hec_dss_dateToYearMonthDay(S(1), &y, &m, &d);
    jbegin("f_parse"); jstr("t", S(1)); jint("form", I(2)); jint("y", I(3)); jint("m", I(4)); jint("d", I(5)); jint("st", st); jint("y2", y); jint("m2", m); jint("d2", d); jint("j", hec_dss_dateToJulian(S(1))); jend();
  } else if (!strcmp(c, "f_time")) { /* 1 seconds, 2 milliseconds, 3 style, 4 size */
    char *b = gnew(I(4)); b[0] = 0; secondsToTimeString(I(1), I(2), I(3), b, I(4)); jbegin("f_time"); jint("s", I(1)); jint("ms", I(2)); jint("style", I(3)); jint("size", I(4)); gstr("t"); jint("back", timeStringToSeconds(b)); jend();
  } else if (!strcmp(c, "f_tsec")) { jbegin("f_tsec"); jstr("t", S(1)); jint("form", I(2)); jint("h", I(3)); jint("m", I(4)); jint("s", I(5)); jint("v", timeStringToSeconds(S(1))); jend();
  } else if (!strcmp(c, "f_inc")) { /* 1 E, 2 n, 3 julian, 4 seconds */
    int E = esec(S(1)), j = 0, s = 0, st = incrementTime(E, I(2), I(3), I(4), &j, &s);
    jbegin("f_inc"); jstr("E", S(1)); jint("sec", E); jint("n", I(2)); jint("j", I(3)); jint("s", I(4)); jint("st", st); jint("j2", j); jint("s2", s);
    jint("np", hec_dss_numberPeriods(E, I(3), I(4), j, s)); jint("np2", numberPeriods(E, j, s, I(3), I(4))); jend();
  } else if (!strcmp(c, "f_np")) { int E = esec(S(1)); jbegin("f_np"); jstr("E", S(1)); jint("j", I(2)); jint("s", I(3)); jint("j2", I(4)); jint("s2", I(5)); jint("np", hec_dss_numberPeriods(E, I(2), I(3), I(4), I(5))); jend();
  } else if (!strcmp(c, "f_off")) { /* 1 E, 2 julian, 3 seconds */
    int E = esec(S(1)), j = I(2), s = I(3), o = ztsOffset(E, j, s), o2 = ztsOffsetAdjustToStandard(E, &j, &s), a = j, b = s, st = ztsOffsetAdjustToOffset(o, E, &a, &b);
    jbegin("f_off"); jstr("E", S(1)); jint("j", I(2)); jint("s", I(3)); jint("o", o); jint("o2", o2); jint("js", j); jint("ss", s); jint("st", st); jint("ja", a); jint("sa", b); jend();
  } else if (!strcmp(c, "f_clean")) { int j = I(1), t = I(2), st = cleanTime(&j, &t, I(3)); jbegin("f_clean"); jint("j", I(1)); jint("t", I(2)); jint("g", I(3)); jint("st", st); jint("j2", j); jint("t2", t); jend();
  } else if (!strcmp(c, "f_cmp")) { /* 1-4 julian, time, base, granularity; 5-8 the same */
    jbegin("f_cmp"); fprintf(out, ",\"a\":[%d,%d,%d,%d],\"b\":[%d,%d,%d,%d]", I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8)); jint("st", compareTimes(I(1), I(2), I(3), I(4), I(5), I(6), I(7), I(8))); jend();
  } else if (!strcmp(c, "f_dt")) { char a[40] = "", b[40] = ""; getDateAndTime(I(1), I(2), I(3), a, sizeof a, b, sizeof b); jbegin("f_dt"); jint("t", I(1)); jint("g", I(2)); jint("base", I(3)); jstr("date", a); jstr("time", b); jend();
  } else if (!strcmp(c, "f_epart")) { /* 1 version, 2 text, 3 size */
    char *b = gnew(I(3)); snprintf(b, I(3), "%s", S(2)); int v = 0, op = EPART_TO_SECONDS_TO_EPART, st = ztsGetStandardInterval(I(1), &v, b, I(3), &op);
    jbegin("f_epart"); jint("ver", I(1)); jstr("E", S(2)); jint("st", st); jint("v", v); gstr("t"); char p[200]; snprintf(p, sizeof p, "/A/B/C//%s/F/", S(2)); jint("gi", ztsGetInterval(I(1), p)); jend();
  } else if (!strcmp(c, "f_sec2e")) { char *b = gnew(40); int v = I(2), op = SECONDS_TO_EPART; b[0] = 0; int st = ztsGetStandardInterval(I(1), &v, b, 40, &op); jbegin("f_sec2e"); jint("ver", I(1)); jint("v", I(2)); jint("st", st); gstr("t"); jend();
  } else if (!strcmp(c, "f_enum")) { int v = 0, op = BEGIN_ENUMERATION, n = 0; char b[40]; jbegin("f_enum"); jint("ver", I(1)); fprintf(out, ",\"l\":[");
    for (;;) { int st = ztsGetStandardInterval(I(1), &v, b, sizeof b, &op); if (st || n > 60) break; fprintf(out, "%s[", n++ ? "," : ""); jesc(b, (int)strlen(b)); fprintf(out, ",%d]", v); } fprintf(out, "]"); jend();
  } else if (!strcmp(c, "f_form")) { char *b = gnew(I(1)); int st = zpathnameForm(S(2), S(3), S(4), S(5), S(6), S(7), b, I(1));
    jbegin("f_form"); jint("size", I(1)); fprintf(out, ",\"parts\":["); for (int i = 2; i < 8; i++) { if (i > 2) fputc(',', out); jesc(S(i), (int)strlen(S(i))); } fprintf(out, "]"); jint("st", st); gstr("t"); jend();
  } else if (!strcmp(c, "f_gpart")) { char *b = gnew(I(3)); int st = zpathnameGetPart(S(1), I(2), b, I(3)); jbegin("f_gpart"); jstr("p", S(1)); jint("n", I(2)); jint("size", I(3)); jint("st", st); gstr("t"); jend();
  } else if (!strcmp(c, "f_spart")) { char *b = gnew(I(2)); snprintf(b, I(2), "%s", S(1)); int st = zpathnameSetPart(b, I(2), S(4), I(3)); jbegin("f_spart"); jstr("p", S(1)); jint("size", I(2)); jint("n", I(3)); jstr("part", S(4)); jint("st", st); gstr("t"); jend();
  } else if (!strcmp(c, "f_lens")) { int L[8], Q[8]; for (int i = 0; i < 8; i++) L[i] = Q[i] = -7; int a = zpathnamePartLengths(S(1), strlen(S(1)), L, 7), b = zpathnamePartPositions(S(1), strlen(S(1)), Q, 7);
    jbegin("f_lens"); jstr("p", S(1)); jint("st", a); jint("st2", b); fprintf(out, ",\"len\":[%d,%d,%d,%d,%d,%d],\"pos\":[%d,%d,%d,%d,%d,%d,%d]", L[0], L[1], L[2], L[3], L[4], L[5], Q[0], Q[1], Q[2], Q[3], Q[4], Q[5], Q[6]); jend();
  } else if (!strcmp(c, "f_clpath")) { char in[1200]; int n = 0; for (const char *s = S(1); *s && n < 1100; s++) in[n++] = *s == '\\' ? '\t' : *s == '^' ? 127 : *s == '`' ? (char)0xe9 : *s; in[n] = 0;
    char *b = gnew(I(2)); int st = zpathnameClean(b, I(2), in); jbegin("f_clpath"); jstr("p", S(1)); jint("size", I(2)); jint("st", st); gstr("t"); jend();
  } else if (!strcmp(c, "f_scmp")) { jbegin("f_scmp"); jstr("a", S(1)); jstr("b", S(2)); jint("n", I(3)); jint("st", zstringCompare(S(1), S(2), I(3))); jend();
  } else if (!strcmp(c, "f_seq")) { char in[800]; snprintf(in, sizeof in, "%s", S(1)); char *r = zsetCollectionSequence(in, I(2)); jbegin("f_seq"); jstr("p", S(1)); jint("n", I(2)); jint("st", r != 0); jstr("t", r); jint("coll", zcollectionsPath(in, strlen(in))); jint("same", r ? zpathnameCompareCollection(r, in, strlen(in)) : -1); jint("coll2", r ? zcollectionsPath(r, strlen(r)) : -1); jend(); free(r);
  } else return 0;
  return 1;
}
