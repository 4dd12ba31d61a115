/* Driver of one process of several: commands come one by one on fd 0, events leave on fd 1.  Inside a
   command every system call on a DSS file is a point where the controller decides what happens next:
     "R n"  do n calls, then stop again        "X kind"  this call fails (enospc, eio, short)
     "T n"  write only the first n bytes of this write, then die */
#define main seq_main
#include "drv.c"
#undef main
#include <stdarg.h>
#include <execinfo.h>
static char isdss[1024]; static int gated; static long allow; static char ib[1 << 20]; static int in0, in1;
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_lockf(int, int, off_t); int __real_fsync(int); int __real_close(int); int __real_usleep(useconds_t); int __real_ftruncate(int, off_t);
static char *nextline(void) {
  for (;;) {
    for (int i = in0; i < in1; i++) if (ib[i] == '\n') { ib[i] = 0; char *r = ib + in0; in0 = i + 1; return r; }
    if (in0) { memmove(ib, ib + in0, in1 - in0); in1 -= in0; in0 = 0; }
    ssize_t n = __real_read(0, ib + in1, sizeof ib - in1); if (n <= 0) _exit(0); in1 += n;
  }
}
/* returns 0: go on; else errno the call fails with; -1: short */
static long tear;
static int gate(const char *k) {
  tear = -1;
  if (!gated || allow-- > 0) return 0;
  fprintf(out, "{\"y\":\"%s\"}\n", k); fflush(out); alarm(0);
  char *l = nextline(); alarm(20);
  allow = 0;
  if (l[0] == 'R') { allow = atol(l + 2) - 1; return 0; }
  if (l[0] == 'T') { tear = atol(l + 2); return 0; }
  if (l[0] == 'X') { return !strcmp(l + 2, "enospc") ? ENOSPC : !strcmp(l + 2, "short") ? -1 : EIO; }
  _exit(96);
}
#define DSS(fd) ((fd) >= 0 && (fd) < 1024 && isdss[fd])
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
  int d = strstr(p, ".dss") != 0; if (d) gate("open"); int fd = __real_open(p, fl, m); if (fd >= 0 && fd < 1024) isdss[fd] = d; return fd; }
int __wrap_close(int fd) { if (DSS(fd)) isdss[fd] = 0; return __real_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (DSS(fd)) { int g = gate("read"); if (g > 0) { errno = g; return -1; } if (g < 0) n /= 2; } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (DSS(fd)) { int g = gate(lseek(fd, 0, SEEK_CUR) == 0 && n > 64 ? "hwrite" : "write"); if (g && getenv("DRV_LOG")) { fprintf(stderr, "%d write at %ld of %ld fails\n", getpid(), (long)lseek(fd, 0, SEEK_CUR), (long)n); void *t[30]; backtrace_symbols_fd(t, backtrace(t, 30), 2); }
    if (g > 0) { errno = g; return -1; } if (g < 0) n /= 2;
    if (tear >= 0) { if (tear > 0) __real_write(fd, b, (size_t)tear < n ? (size_t)tear : n); raise(SIGKILL); } }
  return __real_write(fd, b, n); }
int __wrap_fsync(int fd) { if (DSS(fd)) { gate("fsync"); return 0; } return __real_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) { if (DSS(fd)) gate("trunc"); return __real_ftruncate(fd, n); }
int __wrap_usleep(useconds_t u) { return gated ? 0 : __real_usleep(u); }
int __wrap_lockf(int fd, int c, off_t n) {
  if (!DSS(fd) || !gated) return __real_lockf(fd, c, n);
  if (getenv("DRV_LOG")) fprintf(stderr, "%d lockf %d at %ld len %ld\n", getpid(), c, (long)lseek(fd, 0, SEEK_CUR), (long)n);
  gate(c == F_ULOCK ? "unlock" : "lock");
  if (c != F_LOCK) return __real_lockf(fd, c, n);
  for (;;) { int s = __real_lockf(fd, F_TLOCK, n); if (getenv("DRV_LOG")) fprintf(stderr, "%d -> %d %d\n", getpid(), s, errno); if (s == 0) return 0; if (errno != EACCES && errno != EAGAIN) return s; allow = 0; gate("blocked"); }
}
int main(int argc, char **argv) {
  int ofd = fcntl(1, F_DUPFD, 200); out = fdopen(ofd, "w"); const char *lg = getenv("DRV_LOG"); int nul = __real_open(lg ? lg : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(nul, 1);
  snprintf(workdir, sizeof workdir, "%s", argv[1]);
  zset("mlvl", "", getenv("DRV_MLVL") ? atoi(getenv("DRV_MLVL")) : 0);
  for (;;) {
    gated = 0; char *p = nextline(); if (p[0] == 'Q') break;
    p += 2; ntok = 0; static char buf[1 << 18]; snprintf(buf, sizeof buf, "%s", p); p = buf;
    while (p && ntok < MAXTOK) { tok[ntok++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
    gated = 1; allow = 0; alarm(20); run(); alarm(0);
  }
  return 0;
}
