// C31: system randomness under scripted faults, forks and threads.
#include "common.h"
#include "sysfault.h"
#include <torsion/rand.h>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <unistd.h>

using sysfault::Script;
using sysfault::Step;

PBT_RULE(C31, "at least one scripted fault, a fork, a thread or a bound was involved");

namespace {

uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// Restores the real system calls whatever happens.
struct Guard {
  ~Guard() { sysfault::remove(); sysfault::set_pid(0); }
};

enum Kind { Healthy, Transient, Fallback, Dead, Mixed };
const char *const kKind[] = {"healthy", "transient", "fallback", "dead", "mixed"};

Step fail(int e) { return Step{Step::Fail, e, 0}; }
Step shrt(size_t n) { return Step{Step::Short, 0, n}; }
Step pass() { return Step{Step::Pass, 0, 0}; }

int hard(T &t) { return t.pick({ENOSYS, EPERM, EIO, EFAULT, EINVAL, ENOMEM}); }
int soft(T &t) { return t.pick({EINTR, EAGAIN}); }

// Interruptions and short counts, then normal service.
std::vector<Step> hiccups(T &t, bool shorts, bool again, bool serve = true) {
  std::vector<Step> v;
  for (size_t n = t.range(0, 5); n--;)
    switch (t.range(0, shorts ? 2 : 1)) {
      case 0: if (serve) v.push_back(pass()); break;
      case 1: v.push_back(fail(again ? soft(t) : EINTR)); break;
      default: v.push_back(shrt(t.pick({1, 2, 7, 13, 31, 63, 64, 100, 255}))); break;
    }
  return v;
}

Step any(T &t) {
  switch (t.range(0, 4)) {
    case 0: return pass();
    case 1: return fail(soft(t));
    case 2: return fail(hard(t));
    case 3: return shrt(t.range(1, 70));
    default: return Step{Step::WrongType, 0, 0};
  }
}

Script script(T &t, Kind k) {
  Script s;
  s.repeat_last = false;
  switch (k) {
    case Healthy: break;
    case Transient: s.getrandom = hiccups(t, true, true); break;
    case Fallback:
      s.getrandom = hiccups(t, true, true);
      s.getrandom.push_back(fail(hard(t)));
      s.open = hiccups(t, false, false);
      if (t.chance(1, 4)) s.open.push_back(fail(EINVAL)); // no O_CLOEXEC
      s.poll = hiccups(t, false, true);
      s.read = hiccups(t, true, true);
      s.sysctl.push_back(fail(ENOSYS));
      break;
    case Dead: {
      s.repeat_last = true;
      s.getrandom = hiccups(t, true, true, false);
      s.getrandom.push_back(fail(hard(t)));
      s.sysctl = {t.flip() ? fail(ENOSYS) : shrt(t.range(0, 15))};
      s.open = s.poll = s.read = s.fstat = {pass()};
      switch (t.range(0, 6)) {
        case 0: s.open = {fail(t.pick({ENOENT, EACCES, EMFILE, ENXIO}))}; break;
        case 1: s.fstat = {fail(EIO)}; break;
        case 2: s.fstat = {Step{Step::WrongType, 0, 0}}; break;
        case 3: s.read = hiccups(t, true, true, false); s.read.push_back(fail(t.pick({EIO, EBADF, EISDIR}))); break;
        case 4: s.read = hiccups(t, true, true, false); s.read.push_back(shrt(0)); break;
        case 5: s.poll = {fail(t.pick({ENOMEM, EBADF}))}; break;
        default: s.poll = {shrt(0)}; break;
      }
      break;
    }
    case Mixed:
      for (auto *v : {&s.getrandom, &s.open, &s.read, &s.poll, &s.fstat, &s.sysctl})
        for (size_t n = t.range(0, 3); n--;) v->push_back(any(t));
      s.getrandom.push_back(fail(hard(t)));
      if (t.flip()) { s.open.insert(s.open.begin() + (long)t.range(0, s.open.size()), fail(ENOENT)); }
      break;
  }
  return s;
}

// A stretch of the request can be short-read to its end by a dead script, so the
// request has to outlast the steps which still deliver.
size_t served(const std::vector<Step> &v) {
  size_t n = 0;
  for (auto &s : v) n += s.kind == Step::Short ? s.n : 0;
  return n;
}

bool zero(const Bytes &b) { return std::all_of(b.begin(), b.end(), [](uint8_t c) { return !c; }); }

// No descriptor stays open.
bool balanced() {
  long n = 0;
  for (auto &e : sysfault::events()) { if (e.call == 'o' && e.ret >= 0) n++; if (e.call == 'c') n--; }
  return n == 0;
}

std::string trail() {
  std::string s;
  char b[64];
  for (auto &e : sysfault::events()) {
    if (s.size() > 400) { s += "..."; break; }
    snprintf(b, sizeof b, "%c:%ld", e.call, e.ret);
    s += s.empty() ? "" : " ";
    s += b;
    if (e.ret < 0) { snprintf(b, sizeof b, "(errno %d)", e.err); s += b; }
  }
  return s;
}

// All eight-byte windows seen so far: a repeat means output came out twice.
struct Seen {
  std::vector<uint64_t> w;
  void add(const Bytes &b) {
    for (size_t i = 0; i + 8 <= b.size(); i++) { uint64_t x; memcpy(&x, &b[i], 8); w.push_back(x); }
  }
  bool repeats() {
    std::sort(w.begin(), w.end());
    return std::adjacent_find(w.begin(), w.end()) != w.end();
  }
};

Bytes words(const std::vector<uint32_t> &v) {
  Bytes b(4 * v.size());
  if (!v.empty()) memcpy(b.data(), v.data(), b.size());
  return b;
}

}

// torsion_getentropy: success means every bit came from the system and none was
// handed out twice; failure means zeroes.
PBT_PROP(C31, entropy_faults, 80000, 400000) {
  Guard g;
  Kind k = (Kind)t.weighted({1, 4, 5, 5, 4});
  Script s = script(t, k);
  size_t n = t.len_near({1, 14, 16, 28, 32, 64, 255, 256, 257, 512}, 600);
  bool huge = t.chance(1, 40);
  if (huge) n = t.range(601, 5000);
  if (k == Dead && n <= served(s.getrandom) + served(s.read)) n = served(s.getrandom) + served(s.read) + 1 + n;
  if (n == 0) n = 1;
  t.nontrivial();
  t.label("%s", kKind[k]);
  if (t.recording()) t.note("%s, %zu bytes\n", kKind[k], n);
  uint64_t seed = t.bits(64);
  int before = t.pick({0, EINTR, ENOSYS, 77});
  // Bits that never change although the delivered bytes do are predictable.
  size_t runs = n > 100 ? 14 : 64;
  Bytes all_or, all_and;
  int first = -1;
  Seen seen;
  for (size_t r = 0; r < runs; r++) {
    Buf out(n, r & 1 ? 0xa5 : 0x5a);
    sysfault::install(s, splitmix(seed));
    errno = before;
    int ok = torsion_getentropy(out, n);
    int after = errno;
    sysfault::remove();
    EXPECT(t, out.intact(), "wrote outside %zu bytes", n);
    EXPECT(t, ok == 0 || ok == 1, "returned %d", ok);
    EXPECT(t, after == before, "errno changed from %d to %d", before, after);
    EXPECT(t, balanced(), "descriptor left open: %s", trail().c_str());
    if (first < 0) first = ok;
    EXPECT(t, ok == first, "same faults, different outcome");
    Bytes b = out.get();
    if (!ok) {
      EXPECT(t, zero(b), "failed with output not zeroed: %s", trail().c_str());
      EXPECT(t, k == Dead || k == Mixed, "failed although a source works (%s): %s", kKind[k], trail().c_str());
      if (r == 1) break;
      continue;
    }
    EXPECT(t, k != Dead, "succeeded although no source works: %s", trail().c_str());
    size_t got = sysfault::delivered().size();
    EXPECT(t, got >= n, "succeeded with %zu bytes from %zu delivered: %s", n, got, trail().c_str());
    if (r == 0) all_or = all_and = b;
    for (size_t i = 0; i < n; i++) all_or[i] |= b[i], all_and[i] &= b[i];
    if (r == 0) seen.add(b);
  }
  if (first == 1) {
    EXPECT(t, !seen.repeats(), "output repeats within itself");
    for (size_t i = 0; i < n; i++) {
      uint8_t moved = all_or[i] & (uint8_t)~all_and[i];
      // 64 runs settle every bit, 14 every byte.
      EXPECT(t, runs == 64 ? moved == 0xff : moved != 0, "byte %zu of %zu is predictable (varying bits %02x): %s", i, n, moved, trail().c_str());
    }
  }
}

// The generator: seeding after a change of process, failing seeds, recovery.
PBT_PROP(C31, generator_faults, 50000, 200000) {
  Guard g;
  static int pid = 5000000; // beyond any real one
  sysfault::set_pid(++pid);
  Script s;
  s.repeat_last = false;
  Kind k = Healthy;
  bool seeded = false;      // the generator has answered in this process
  uint64_t seed = t.bits(64);
  uint64_t got = 0;         // bytes delivered in this process
  Seen seen;
  size_t ops = 2 + t.range(0, 10), draws = 0, faults = 0;
  for (size_t i = 0; i < ops; i++) {
    switch (t.weighted({6, 2, 4})) {
      case 0: break;
      case 1: sysfault::set_pid(++pid); seeded = false; got = 0; if (t.recording()) t.note("new process\n"); break;
      default:
        k = (Kind)t.weighted({3, 2, 2, 4});
        s = script(t, k);
        if (k == Dead && served(s.getrandom) + served(s.read) >= 64) { // a seed might get through
          s.getrandom.erase(s.getrandom.begin(), s.getrandom.end() - 1);
          s.read.erase(s.read.begin(), s.read.end() - 1);
        }
        faults += k != Healthy;
        if (t.recording()) t.note("system calls %s\n", kKind[k]);
        break;
    }
    int op = (int)t.range(0, 2), before = (int)t.range(0, 3);
    size_t n = t.len_near({1, 8, 32, 64, 128}, 200);
    uint32_t max = (uint32_t)t.bits(32) >> t.range(0, 31);
    sysfault::install(s, splitmix(seed));
    Buf out(op == 0 ? n : 4, 0x5a);
    errno = before;
    int ok = op == 0 ? torsion_getrandom(out, n) : op == 1 ? torsion_random((uint32_t *)out.p) : torsion_uniform((uint32_t *)out.p, max);
    int after = errno;
    sysfault::remove();
    draws++;
    got += sysfault::delivered().size();
    const char *name = op == 0 ? "getrandom" : op == 1 ? "random" : "uniform";
    if (t.recording()) t.note("%s -> %d\n", name, ok);
    EXPECT(t, out.intact(), "%s wrote outside its output", name);
    EXPECT(t, ok == 0 || ok == 1, "%s returned %d", name, ok);
    EXPECT(t, after == before, "%s changed errno from %d to %d", name, before, after);
    EXPECT(t, balanced(), "%s left a descriptor open: %s", name, trail().c_str());
    if (!ok) {
      EXPECT(t, zero(out.get()), "%s failed with output not zeroed", name);
      EXPECT(t, k == Dead, "%s failed although a source works (%s): %s", name, kKind[k], trail().c_str());
      continue;
    }
    EXPECT(t, k != Dead || seeded, "%s succeeded in a process which never got entropy: %s", name, trail().c_str());
    EXPECT(t, got >= 32, "%s succeeded in a process seeded with %zu bytes", name, (size_t)got);
    seeded = true;
    if (op == 0) seen.add(out.get());
    uint32_t x; memcpy(&x, out.p, op == 0 ? 0 : 4);
    if (op == 2) EXPECT(t, max ? x < max : x == 0, "uniform below %u gave %u", max, x);
  }
  if (faults || draws > 1) t.nontrivial();
  EXPECT(t, !seen.repeats(), "output repeats");
}

// In the builds without hardware randomness the seed is all there is: other
// system bytes must give other output, and every one of them counts towards it.
PBT_PROP(C31, seed_matters, 4000, 60000) {
  Guard g;
  static int pid = 500000000;
  Script s = script(t, t.flip() ? Fallback : Transient);
  uint64_t seed = t.bits(64);
  size_t n = 16 + t.range(0, 100);
  int skip = (int)t.range(0, 3);
  t.nontrivial();
  Seen seen;
  Bytes o, a;
  for (int r = 0; r < 12; r++) {
    sysfault::set_pid(++pid);
    sysfault::install(s, splitmix(seed));
    uint32_t w;
    for (int i = 0; i < skip; i++) EXPECT(t, torsion_random(&w) == 1, "random failed although a source works: %s", trail().c_str());
    Buf out(n, r & 1 ? 0xa5 : 0x5a);
    EXPECT(t, torsion_getrandom(out, n) == 1, "getrandom failed although a source works: %s", trail().c_str());
    sysfault::remove();
    Bytes b = out.get();
    seen.add(b);
    if (!r) o = a = b;
    for (size_t i = 0; i < n; i++) o[i] |= b[i], a[i] &= b[i];
  }
  EXPECT(t, !seen.repeats(), "processes with different entropy share output");
  for (size_t i = 0; i < n; i++) EXPECT(t, o[i] != a[i], "byte %zu never varies", i);
}

namespace {

// One actor's draws, as bytes: words from random() and blocks from getrandom().
Bytes draw(const std::vector<int> &plan) {
  Bytes out;
  for (int p : plan) {
    if (p == 0) { // a run of words
      std::vector<uint32_t> v(8);
      for (auto &x : v) if (!torsion_random(&x)) return Bytes();
      Bytes b = words(v);
      out.insert(out.end(), b.begin(), b.end());
    } else {
      Bytes b((size_t)p);
      if (!(p & 1 ? torsion_getrandom(b.data(), b.size()) : torsion_getentropy(b.data(), b.size()))) return Bytes();
      out.insert(out.end(), b.begin(), b.end());
    }
  }
  return out;
}

std::vector<int> gen_plan(T &t) {
  std::vector<int> v;
  for (size_t n = 1 + t.range(0, 3); n--;) v.push_back(t.pick({0, 33, 0, 15, 64, 16, 0, 129}));
  if (std::find(v.begin(), v.end(), 0) == v.end()) v.push_back(0);
  return v;
}

// Only the generator's words, so that the same calls are made on both sides of a fork.
void warm(T &t) {
  size_t words = t.pick({0, 1, 5, 60, 112, 119, 120, 121, 240});
  uint32_t x;
  for (size_t i = 0; i < words; i++) torsion_random(&x);
  uint8_t b[64];
  for (size_t i = t.range(0, 2); i--;) torsion_getrandom(b, sizeof b);
  for (size_t i = t.range(0, 2); i--;) torsion_uniform(&x, 1000);
}

// One write below PIPE_BUF, so records of several writers do not mix.
bool put(int fd, const Bytes &b) {
  uint32_t n = (uint32_t)b.size();
  Bytes m((uint8_t *)&n, (uint8_t *)&n + 4);
  m.insert(m.end(), b.begin(), b.end());
  return m.size() <= 4096 && write(fd, m.data(), m.size()) == (ssize_t)m.size();
}

bool take(int fd, void *p, size_t n) {
  for (size_t o = 0; o < n;) {
    ssize_t r = read(fd, (uint8_t *)p + o, n - o);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    o += (size_t)r;
  }
  return true;
}

struct Family {
  std::vector<int> plan;
  int depth, width;
};

// Forks a tree; every member sends its draws down the pipe.
void descend(const Family &f, int depth, int fd) {
  std::vector<pid_t> kids;
  if (depth < f.depth)
    for (int i = 0; i < f.width; i++) {
      pid_t p = fork();
      if (p == 0) { descend(f, depth + 1, fd); _exit(0); }
      if (p > 0) kids.push_back(p);
    }
  put(fd, draw(f.plan));
  for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
}

struct Worker { std::vector<int> plan; Bytes out; bool warm; int rounds; std::atomic<int> *ready; int all; };

void *work(void *p) {
  Worker *w = (Worker *)p;
  if (w->warm) { uint32_t x; for (int i = 0; i < 7; i++) torsion_random(&x); }
  // Start together, so that the requests overlap.  Bounded: a thread may be missing.
  w->ready->fetch_add(1);
  for (int i = 0; i < 100000 && w->ready->load() < w->all; i++) sched_yield();
  for (int i = 0; i < w->rounds; i++) {
    Bytes b = draw(w->plan);
    if (b.empty()) { w->out.clear(); break; }
    w->out.insert(w->out.end(), b.begin(), b.end());
  }
  return nullptr;
}

}

// A process and its forked descendants never share output.
PBT_PROP(C31, forks, 2000, 20000, 0.5, 0.1) {
  Family f;
  f.plan = gen_plan(t);
  f.depth = 1 + (int)t.range(0, 1);
  f.width = 1 + (int)t.range(0, 2);
  warm(t);
  t.nontrivial();
  t.label("depth %d, %d children each", f.depth, f.width);
  int want = 0, lay = 1;
  for (int i = 0; i <= f.depth; i++) { want += lay; lay *= f.width; }
  int fd[2];
  if (pipe(fd) != 0) t.discard();
  // Small enough for the pipe buffer: members never block on writing.
  descend(f, 0, fd[1]);
  close(fd[1]);
  Seen seen;
  int got = 0;
  uint32_t n;
  bool failed = false;
  while (take(fd[0], &n, 4)) {
    if (n > 65536) break;
    Bytes b(n);
    if (n && !take(fd[0], b.data(), n)) break;
    failed |= n == 0;
    seen.add(b);
    got++;
  }
  close(fd[0]);
  if (got != want) t.discard(); // the system refused a fork
  EXPECT(t, !failed, "a request failed");
  EXPECT(t, !seen.repeats(), "two processes of a family of %d produced the same output", want);
}

// Threads never share output, also when a thread forks.
PBT_PROP(C31, threads, 2000, 20000, 0.5, 0.1) {
  size_t n = 2 + t.range(0, 6);
  std::vector<Worker> w(n);
  std::atomic<int> ready(0);
  int rounds = (int)t.range(1, 12);
  bool same = t.flip();
  for (auto &x : w) {
    x.plan = same && &x != &w[0] ? w[0].plan : gen_plan(t);
    x.warm = t.flip();
    x.rounds = rounds;
    x.ready = &ready;
    x.all = (int)n + 1;
  }
  warm(t);
  t.nontrivial();
  t.label("%zu threads", n);
  std::vector<pthread_t> th(n);
  size_t up = 0;
  for (; up < n; up++) if (pthread_create(&th[up], nullptr, work, &w[up]) != 0) break;
  Worker me;
  me.plan = gen_plan(t);
  me.warm = false;
  me.rounds = rounds;
  me.ready = &ready;
  me.all = (int)n + 1;
  work(&me);
  for (size_t i = 0; i < up; i++) pthread_join(th[i], nullptr);
  Seen seen;
  seen.add(me.out);
  EXPECT(t, !me.out.empty(), "a request failed");
  for (size_t i = 0; i < up; i++) {
    EXPECT(t, !w[i].out.empty(), "a request failed in a thread");
    seen.add(w[i].out);
  }
  EXPECT(t, !seen.repeats(), "two of %zu threads produced the same output", up + 1);
}

// A long history of one process: nothing comes out twice.
PBT_PROP(C31, history, 2000, 4000) {
  Seen seen;
  size_t ops = 5 + t.range(0, 60);
  std::vector<uint32_t> v;
  t.nontrivial();
  for (size_t i = 0; i < ops; i++) {
    switch (t.range(0, 3)) {
      case 0: {
        Buf b(t.len_near({0, 16, 32, 63, 64, 65, 512}, 2000), 0x5a);
        EXPECT(t, torsion_getrandom(b, b.n) == 1 && b.intact(), "getrandom of %zu bytes", b.n);
        seen.add(b.get());
        break;
      }
      case 1: {
        Buf b(t.len_near({0, 16, 255, 256, 257, 512}, 2000), 0x5a);
        EXPECT(t, torsion_getentropy(b, b.n) == 1 && b.intact(), "getentropy of %zu bytes", b.n);
        seen.add(b.get());
        break;
      }
      case 2: {
        for (size_t n = t.pick({1, 10, 119, 120, 121, 300}); n--;) {
          uint32_t x;
          EXPECT(t, torsion_random(&x) == 1, "random failed");
          v.push_back(x);
        }
        break;
      }
      default: {
        uint32_t x, max = (uint32_t)t.bits(32) >> t.range(0, 31);
        EXPECT(t, torsion_uniform(&x, max) == 1, "uniform failed");
        EXPECT(t, max ? x < max : x == 0, "uniform below %u gave %u", max, x);
      }
    }
  }
  seen.add(words(v));
  EXPECT(t, !seen.repeats(), "output repeats");
}

// Bounds, and no part of the range is favoured.
PBT_PROP(C31, uniform, 5000, 40000) {
  uint32_t max;
  switch (t.range(0, 4)) {
    case 0: max = (uint32_t)t.range(0, 20); break;
    case 1: max = (uint32_t)(1u << t.range(0, 31)) + (uint32_t)t.range(0, 2) - 1; break;
    case 2: max = (uint32_t)(0xffffffffu - t.range(0, 5)); break;
    case 3: max = (uint32_t)(0x80000000u + t.bits(31)); break;
    default: max = (uint32_t)t.bits(32) >> t.range(0, 31); break;
  }
  t.nontrivial();
  if (t.recording()) t.note("below %u\n", max);
  const int N = 3000;
  // Counts in thirds of the range and of the residues at its two ends.
  double c[3] = {0, 0, 0}, w[3] = {0, 0, 0};
  uint64_t a = max / 3, b = 2 * (uint64_t)max / 3;
  w[0] = a, w[1] = b - a, w[2] = max - b;
  int bits[32] = {0};
  for (int i = 0; i < N; i++) {
    uint32_t x = 0xdeadbeef;
    EXPECT(t, torsion_uniform(&x, max) == 1, "uniform failed");
    if (max <= 1) { EXPECT(t, x == 0, "uniform below %u gave %u", max, x); continue; }
    EXPECT(t, x < max, "uniform below %u gave %u", max, x);
    c[x < a ? 0 : x < b ? 1 : 2]++;
    uint32_t y;
    EXPECT(t, torsion_random(&y) == 1, "random failed");
    for (int j = 0; j < 32; j++) bits[j] += (y >> j) & 1;
  }
  if (max <= 1) return;
  // Nine standard deviations.
  for (int i = 0; i < 3; i++) {
    double p = w[i] / max, m = N * p, sd = sqrt(N * p * (1 - p));
    EXPECT(t, fabs(c[i] - m) <= 9 * sd + 1, "uniform below %u: %g of %d values in part %d, expected about %g", max, c[i], N, i, m);
  }
  for (int j = 0; j < 32; j++)
    EXPECT(t, fabs(bits[j] - N / 2.0) <= 9 * sqrt(N / 4.0), "bit %d of random set %d times of %d", j, bits[j], N);
}
