#include "sysfault.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

namespace sysfault {

static bool g_on;
static Script g_s;
static size_t g_i[6];
static std::vector<Event> g_ev;
static std::vector<uint8_t> g_del;
static uint64_t g_rng;
static int g_pid;
static const int kFakeFd = 1 << 20;
static int g_open;

void install(const Script &s, uint64_t seed) {
  g_s = s; g_on = true; g_rng = seed; g_ev.clear(); g_del.clear(); g_open = 0;
  memset(g_i, 0, sizeof g_i);
}
void remove() { g_on = false; }
bool active() { return g_on; }
const std::vector<Event> &events() { return g_ev; }
const std::vector<uint8_t> &delivered() { return g_del; }
void set_pid(int p) { g_pid = p; }

static Step next(int which, const std::vector<Step> &v) {
  size_t i = g_i[which]++;
  if (i < v.size()) return v[i];
  if (g_s.repeat_last && !v.empty()) return v.back();
  return Step{Step::Pass, 0, 0};
}

static void fill(void *p, size_t n) {
  uint8_t *d = (uint8_t *)p;
  for (size_t i = 0; i < n; i++) {
    g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull;
    d[i] = (uint8_t)(g_rng >> 56);
    g_del.push_back(d[i]);
  }
}

static long note(char c, long req, long ret, int err) {
  g_ev.push_back(Event{c, req, ret, err});
  if (g_ev.size() > 200000) {           // script that never lets go
    fprintf(stderr, "sysfault: library loops on failing system calls\n");
    abort();
  }
  if (ret < 0) errno = err;
  return ret;
}

long do_getrandom(void *buf, size_t n) {
  Step s = next(0, g_s.getrandom);
  if (s.kind == Step::Fail) return note('g', (long)n, -1, s.err);
  size_t k = n;
  if (s.kind == Step::Short && s.n < n) k = s.n;
  fill(buf, k);
  return note('g', (long)n, (long)k, 0);
}

// The sysctl(kern.random.uuid) call: a version 4 UUID, so six of its bits are fixed.
struct SysctlArgs { int *name; int nlen; void *oldval; size_t *oldlenp; void *newval; size_t newlen; };

static long do_sysctl(SysctlArgs *a) {
  Step s = next(5, g_s.sysctl);
  if (s.kind == Step::Fail) return note('u', 16, -1, s.err);
  if (!a || !a->oldval || !a->oldlenp || *a->oldlenp < 16) return note('u', 16, -1, EINVAL);
  uint8_t *p = (uint8_t *)a->oldval;
  size_t k = s.kind == Step::Short && s.n < 16 ? s.n : 16;
  fill(p, k);
  if (k > 6) p[6] = (uint8_t)(0x40 | (p[6] & 15));
  if (k > 8) p[8] = (uint8_t)(0x80 | (p[8] & 63));
  *a->oldlenp = k;
  return note('u', 16, 0, 0);
}

int do_open(const char *path) {
  (void)path;
  Step s = next(1, g_s.open);
  if (s.kind == Step::Fail) return (int)note('o', 0, -1, s.err);
  g_open++;
  return (int)note('o', 0, kFakeFd + g_open, 0);
}

}
using namespace sysfault;

extern "C" {

long vf_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
  long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_on && nr == SYS_getrandom) return do_getrandom((void *)a, (size_t)b);
#ifdef SYS__sysctl
  if (g_on && nr == SYS__sysctl) return do_sysctl((SysctlArgs *)a);
#endif
#ifdef SYS_getpid
  if (nr == SYS_getpid && g_pid) return g_pid;
#endif
  return syscall(nr, a, b, c, d, e, f);
}

ssize_t vf_getrandom(void *buf, size_t n, unsigned fl) {
  if (g_on) return do_getrandom(buf, n);
  return syscall(SYS_getrandom, buf, n, fl);
}

int vf_getentropy(void *buf, size_t n) {
  if (g_on) {
    Step s = next(0, g_s.getrandom);
    if (s.kind == Step::Fail) return (int)note('e', (long)n, -1, s.err);
    fill(buf, n);
    return (int)note('e', (long)n, 0, 0);
  }
  return getentropy(buf, n);
}

int vf_open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (g_on) return do_open(path);
  return open(path, flags, mode);
}
int vf_open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (g_on) return do_open(path);
  return open(path, flags, mode);
}

ssize_t vf_read(int fd, void *buf, size_t n) {
  if (g_on && fd > kFakeFd) {
    Step s = next(2, g_s.read);
    if (s.kind == Step::Fail) return note('r', (long)n, -1, s.err);
    size_t k = n;
    if (s.kind == Step::Short && s.n < n) k = s.n;
    fill(buf, k);
    return note('r', (long)n, (long)k, 0);
  }
  return read(fd, buf, n);
}

int vf_close(int fd) {
  if (g_on && fd > kFakeFd) return (int)note('c', 0, 0, 0);
  return close(fd);
}

int vf_poll(struct pollfd *p, nfds_t n, int to) {
  if (g_on && n == 1 && p[0].fd > kFakeFd) {
    Step s = next(3, g_s.poll);
    if (s.kind == Step::Fail) return (int)note('p', 0, -1, s.err);
    if (s.kind == Step::Short) { p[0].revents = 0; return (int)note('p', 0, 0, 0); }
    if (!(p[0].events & (POLLIN | POLLRDNORM)) && to < 0) abort();  // would wait for ever
    p[0].revents = POLLIN;
    return (int)note('p', 0, 1, 0);
  }
  return poll(p, n, to);
}

int vf_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  if (g_on) {
    Step s = next(3, g_s.poll);
    if (s.kind == Step::Fail) return (int)note('p', 0, -1, s.err);
    return (int)note('p', 0, 1, 0);
  }
  return select(n, r, w, e, tv);
}

static int do_fstat(int fd, struct stat *st) {
  (void)fd;
  Step s = next(4, g_s.fstat);
  if (s.kind == Step::Fail) return (int)note('s', 0, -1, s.err);
  memset(st, 0, sizeof *st);
  st->st_mode = s.kind == Step::WrongType ? (S_IFREG | 0644) : (S_IFCHR | 0666);
  return (int)note('s', s.kind == Step::WrongType, 0, 0);
}
int vf_fstat(int fd, struct stat *st) {
  if (g_on && fd > kFakeFd) return do_fstat(fd, st);
  return fstat(fd, st);
}
int vf_fstat64(int fd, struct stat *st) { return vf_fstat(fd, st); }
int vf_stat(const char *path, struct stat *st) {
  if (g_on) return do_fstat(0, st);
  return stat(path, st);
}

FILE *vf_fopen(const char *path, const char *mode) {
  if (g_on) { note('F', 0, -1, ENOENT); return nullptr; }
  return fopen(path, mode);
}

int vf_getpid(void) { return g_pid ? g_pid : (int)getpid(); }

}
