/* Common parts of the drivers: script tokens in, one JSON event per executed command out. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdint.h>
#include <math.h>
#include <signal.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "heclib.h"
#include "hecdss.h"
#include "heclib7.h"
#include "zdssKeys.h"
#include "zdssVals.h"

#define MAXTOK 20000
static char *tok[MAXTOK]; static int ntok;
static FILE *out;
static int first_field;

static void jbegin(const char *e) { fprintf(out, "{\"e\":\"%s\"", e); }
static void jint(const char *k, long long v) { fprintf(out, ",\"%s\":%lld", k, v); }
static void jesc(const char *s, int n) {
  fputc('"', out);
  for (int i = 0; i < n && s[i]; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(out, "\\u%04x", c);
    else fputc(c, out);
  }
  fputc('"', out);
}
static void jstr(const char *k, const char *s) { fprintf(out, ",\"%s\":", k); jesc(s ? s : "", s ? (int)strlen(s) : 0); }
/* ticking: see drv_chg.h */
static int clk_on; static long long clk_base, clk_last, clk_t0;
static long long nowms(void) { struct timeval t; gettimeofday(&t, 0); return t.tv_sec * 1000LL + t.tv_usec / 1000; }
static void jend(void) {
  if (clk_on) { clk_last = nowms(); fprintf(out, ",\"u0\":%lld,\"u1\":%lld", clk_t0 - clk_base, clk_last - clk_base); }
  fputs("}\n", out); fflush(out); }

/* 64 bit FNV of a section, with its length: "n:hash" */
static void dig(const void *p, long n, char *o) {
  uint64_t h = 1469598103934665603ULL; const unsigned char *b = p;
  for (long i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
  if (n <= 0) strcpy(o, "0"); else sprintf(o, "%ld:%016llx", n, (unsigned long long)h);
}
static uint64_t rng;
static uint32_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 16); }
static void seedrng(long s) { rng = 0x9E3779B97F4A7C15ULL ^ ((uint64_t)(s + 1) * 0xD1B54A32D192ED03ULL); for (int i = 0; i < 4; i++) rnd(); }

static int I(int i) { return i < ntok ? atoi(tok[i]) : 0; }
static const char *S(int i) { return i < ntok ? tok[i] : ""; }

#endif
