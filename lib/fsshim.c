// LD_PRELOAD monitor of file-system mutations below one directory.
// Counts every mutating call, and from the k-th on either kills the disk
// (every later mutation fails and leaves no trace: the state a crash leaves)
// or fails that one call only (a transient error).  Mode 3 records the calls of
// several processes in one shared log, delays some of them, and can kill this
// process at the k-th.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 65536
static char prefix[4096];
static size_t plen;
static volatile int armed, mode, dead, err = EIO;   // mode 0 count, 1 dead from k on (torn write), 2 single error
static volatile long at, n;
static unsigned char track[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char logbuf[1 << 20];
static size_t loglen;

void fs_arm(const char* p, int m, long k, int e) {
  pthread_mutex_lock(&mu);
  strncpy(prefix, p, sizeof prefix - 1); plen = strlen(prefix);
  mode = m; at = k; n = 0; dead = 0; err = e ? e : EIO; loglen = 0; logbuf[0] = 0; armed = 1;
  pthread_mutex_unlock(&mu);
}
void fs_disarm(void) { armed = 0; dead = 0; }

static int tfd = -1, who, permille, delay_us;
static unsigned rs;
static char* fdpath[MAXFD];
void fs_trace(const char* p, const char* log, int w, unsigned seed, int pm, int us, long kill_at) {
  if (tfd < 0) tfd = (open64)(log, O_WRONLY | O_APPEND | O_CREAT, 0644);
  who = w; permille = pm; delay_us = us; rs = seed * 2654435761u + 12345u;
  fs_arm(p, 3, kill_at, 0);
}
static void name_fd(int fd, const char* p) { if (fd >= 0 && fd < MAXFD && mode == 3) { free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : 0; } }
long fs_count(void) { return n; }
int fs_dead(void) { return dead; }
const char* fs_log(void) { return logbuf; }

static int ours(const char* p) { return armed && p && plen && strncmp(p, prefix, plen) == 0; }
static int ours_fd(int fd) { return armed && fd >= 0 && fd < MAXFD && track[fd]; }

// Returns 0: go ahead; 1: fail; 2: fail, but a write may leave half of itself.
static int op(const char* what, const char* p) {
  int r = 0;
  pthread_mutex_lock(&mu);
  if (!armed) { pthread_mutex_unlock(&mu); return 0; }
  long i = n++;
  if (mode == 3) {
    rs = rs * 1664525u + 1013904223u;
    int wait = (int)((rs >> 10) % 1000) < permille, die = at >= 0 && i == at;
    char* path = p ? strdup(p) : 0;
    pthread_mutex_unlock(&mu);
    if (wait) { struct timespec t = {delay_us / 1000000, (delay_us % 1000000) * 1000L}; nanosleep(&t, 0); }
    char line[5000]; int k = snprintf(line, sizeof line, "%d %s %s%s\n", who, what, path ? path : "-", die ? " KILL" : "");
    free(path);
    { static ssize_t (*raw)(int, const void*, size_t); if (!raw) raw = dlsym(RTLD_NEXT, "write"); if (raw(tfd, line, k) < 0) {} }
    if (die) { kill(getpid(), SIGKILL); for (;;) pause(); }
    return 0;
  }
  if (loglen + 512 < sizeof logbuf) {
    const char* q = p && strncmp(p, prefix, plen) == 0 ? p + plen : "";
    loglen += snprintf(logbuf + loglen, 400, "%s %.300s\n", what, q);
  }
  if (dead) r = 1;
  else if (mode == 1 && i >= at) { dead = 1; r = 2; }
  else if (mode == 2 && i == at) r = 1;
  pthread_mutex_unlock(&mu);
  if (r) errno = err;
  return r;
}
#define REAL(name) static __typeof__(name)* real; if (!real) real = dlsym(RTLD_NEXT, #name)

static const char* fdp(int fd) { return mode == 3 && fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
#define OPEN(NAME) \
  int NAME(const char* p, int flags, ...) { \
    REAL(NAME); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    int mine = ours(p) && wr(flags); \
    if (mine && op("open", p)) return -1; \
    int fd = real(p, flags, m); \
    if (fd >= 0 && fd < MAXFD) { track[fd] = mine; if (mine) name_fd(fd, p); } \
    return fd; }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
  int NAME(int d, const char* p, int flags, ...) { \
    REAL(NAME); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    int mine = ours(p) && wr(flags); \
    if (mine && op("open", p)) return -1; \
    int fd = real(d, p, flags, m); \
    if (fd >= 0 && fd < MAXFD) { track[fd] = mine; if (mine) name_fd(fd, p); } \
    return fd; }
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(NAME) \
  FILE* NAME(const char* p, const char* m) { \
    REAL(NAME); int mine = ours(p) && (m[0] != 'r' || strchr(m, '+')); \
    if (mine && op("fopen", p)) return 0; \
    FILE* f = real(p, m); \
    if (f) { int fd = fileno(f); if (fd >= 0 && fd < MAXFD) { track[fd] = mine; if (mine) name_fd(fd, p); } } \
    return f; }
FOPEN(fopen)
FOPEN(fopen64)
int close(int fd) { REAL(close); if (fd >= 0 && fd < MAXFD) track[fd] = 0; return real(fd); }
int fclose(FILE* f) {
  REAL(fclose); int fd = f ? fileno(f) : -1;
  if (fd >= 0 && fd < MAXFD) track[fd] = 0;
  return real(f);
}
size_t fwrite(const void* b, size_t s, size_t c, FILE* f) {
  REAL(fwrite); int fd = armed ? fileno(f) : -1;
  if (ours_fd(fd)) {
    int r = op("fwrite", fdp(fd));
    if (r == 2 && s * c > 1) { real(b, 1, s * c / 2, f); fflush(f); errno = err; }
    if (r) return 0;
    size_t out = real(b, s, c, f); fflush(f); return out;
  }
  return real(b, s, c, f);
}
#define WRITE(NAME, ...) \
    if (ours_fd(fd)) { int r = op("write", fdp(fd)); if (r == 2 && c > 1) { if (real(fd, b, c / 2, ##__VA_ARGS__) < 0) {} errno = err; } if (r) return -1; } \
    return real(fd, b, c, ##__VA_ARGS__);
ssize_t write(int fd, const void* b, size_t c) { REAL(write); WRITE(write) }
ssize_t pwrite(int fd, const void* b, size_t c, off_t o) { REAL(pwrite); WRITE(pwrite, o) }
ssize_t pwrite64(int fd, const void* b, size_t c, off64_t o) { REAL(pwrite64); WRITE(pwrite64, o) }
#define WRITEV \
    if (ours_fd(fd)) { int r = op("writev", fdp(fd)); if (r == 2 && c > 0 && v[0].iov_len > 1) { struct iovec h = {v[0].iov_base, v[0].iov_len / 2}; if (real(fd, &h, 1) < 0) {} errno = err; } if (r) return -1; } \
    return real(fd, v, c);
ssize_t writev(int fd, const struct iovec* v, int c) { REAL(writev); WRITEV }
#define P1(NAME, RET, TY) RET NAME(const char* p TY) 
int mkdir(const char* p, mode_t m) { REAL(mkdir); if (ours(p) && op("mkdir", p)) return -1; return real(p, m); }
int mkdirat(int d, const char* p, mode_t m) { REAL(mkdirat); if (ours(p) && op("mkdir", p)) return -1; return real(d, p, m); }
int rmdir(const char* p) { REAL(rmdir); if (ours(p) && op("rmdir", p)) return -1; return real(p); }
int unlink(const char* p) { REAL(unlink); if (ours(p) && op("unlink", p)) return -1; return real(p); }
int unlinkat(int d, const char* p, int f) {
  REAL(unlinkat); char b[4200] = "";
  if (armed && p && p[0] != '/' && d >= 0) {   // python's shutil.rmtree uses directory descriptors
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", d); ssize_t k = readlink(l, b, 3000);
    if (k > 0) { b[k] = '/'; strncpy(b + k + 1, p, 1000); p = p; } else b[0] = 0;
  }
  const char* q = b[0] ? b : p;
  if (ours(q) && op("unlink", q)) return -1;
  return real(d, p, f); }
int remove(const char* p) { REAL(remove); if (ours(p) && op("unlink", p)) return -1; return real(p); }
int rename(const char* a, const char* b) { REAL(rename); if ((ours(a) || ours(b)) && op("rename", b)) return -1; return real(a, b); }
int renameat(int d, const char* a, int e, const char* b) { REAL(renameat); if ((ours(a) || ours(b)) && op("rename", b)) return -1; return real(d, a, e, b); }
int renameat2(int d, const char* a, int e, const char* b, unsigned f) { REAL(renameat2); if ((ours(a) || ours(b)) && op("rename", b)) return -1; return real(d, a, e, b, f); }
int link(const char* a, const char* b) { REAL(link); if (ours(b) && op("link", b)) return -1; return real(a, b); }
int symlink(const char* a, const char* b) { REAL(symlink); if (ours(b) && op("link", b)) return -1; return real(a, b); }
int fsync(int fd) { REAL(fsync); if (ours_fd(fd) && op("fsync", 0)) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (ours_fd(fd) && op("fsync", 0)) return -1; return real(fd); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (ours_fd(fd) && op("truncate", 0)) return -1; return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); if (ours_fd(fd) && op("truncate", 0)) return -1; return real(fd, l); }
