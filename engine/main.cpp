// Harness entry point: list | run | replay | shrink | transcript
#include "pbt.h"
#include <valgrind/valgrind.h>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace pbt { std::map<std::string, std::string> &rules(); }
using namespace pbt;

static const size_t kCap = 1 << 16;
struct Shared { uint64_t magic; uint64_t index; uint32_t len; uint32_t pad; uint8_t tape[kCap]; };

static double now() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void on_hang(int) {
  static const char m[] = "PBT: case exceeded its CPU-time limit\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  _exit(78);
}
static void arm(int sec) {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static const Target *find(const std::string &p, const std::string &n) {
  for (auto &t : targets()) if (p == t.prop && n == t.name) return &t;
  return nullptr;
}

static std::string arg(int argc, char **argv, const char *k, const char *def) {
  for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
  return def;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

// 0 ok, 1 fail, 2 discard
static int run_case(const Target &tg, T &t, std::string &msg) {
  try {
    tg.fn(t);
    return 0;
  } catch (const Fail &f) {
    msg = f.msg;
    return 1;
  } catch (const Discard &) {
    return 2;
  }
}

static uint64_t case_seed(uint64_t seed, const Target &tg, uint64_t idx) {
  uint64_t h = fnv(tg.prop, strlen(tg.prop));
  h = fnv(tg.name, strlen(tg.name), h);
  return mix_seed(mix_seed(seed, h), idx);
}

static void write_replay(const std::string &path, const Target &tg, const uint8_t *d, size_t n, const std::string &msg) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) return;
  std::string one = msg;
  for (auto &c : one) if (c == '\n') c = ' ';
  fprintf(f, "property %s\ntarget %s\ntape %s\nmessage %s\n", tg.prop, tg.name, hex(d, n).c_str(), one.c_str());
  fclose(f);
}

static bool read_replay(const std::string &path, std::string &prop, std::string &name, Bytes &tape) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return false;
  std::string s; char b[4096]; size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size();
    std::string l = s.substr(i, e - i); i = e + 1;
    size_t sp = l.find(' ');
    std::string key = l.substr(0, sp), val = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (key == "property") prop = val;
    else if (key == "target") name = val;
    else if (key == "tape") {
      tape.clear();
      for (size_t j = 0; j + 1 < val.size(); j += 2) tape.push_back((uint8_t)strtoul(val.substr(j, 2).c_str(), nullptr, 16));
    }
  }
  return !prop.empty() && !name.empty();
}

static int cmd_list() {
  for (auto &t : targets())
    printf("T\t%s\t%s\t%ld\t%ld\t%g\t%g\n", t.prop, t.name, t.quick, t.thorough, t.share_portable, t.share_asan);
  for (auto &r : rules()) printf("R\t%s\t%s\n", r.first.c_str(), r.second.c_str());
  return 0;
}

static int cmd_run(int argc, char **argv) {
  const Target *tg = find(arg(argc, argv, "--prop", ""), arg(argc, argv, "--target", ""));
  if (!tg) { fprintf(stderr, "no such target\n"); return 3; }
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  uint64_t start = strtoull(arg(argc, argv, "--start", "0").c_str(), nullptr, 10);
  uint64_t count = strtoull(arg(argc, argv, "--count", "100").c_str(), nullptr, 10);
  double limit = atof(arg(argc, argv, "--limit", "600").c_str());
  int cpu = atoi(arg(argc, argv, "--cpu", "90").c_str());
  std::string base = arg(argc, argv, "--out", "/tmp/pbt");
  bool transcript = arg(argc, argv, "--transcript", "0") == "1";

  std::string sp = base + ".cur";
  int fd = open(sp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("cur"); return 3; }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 3; }
  sh->magic = 0x50425431;

  signal(SIGPROF, on_hang);
  T t;
  t.attach(sh->tape, &sh->len, kCap);
  t.thorough_ = arg(argc, argv, "--tier", "quick") == "thorough";

  std::map<std::string, long> labels;
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  FILE *tf = transcript ? fopen((base + ".trans").c_str(), "wb") : nullptr;
  long evals = 0, disc = 0, nont = 0;
  bool truncated = false;
  double t0 = now();
  uint64_t every = count / 3 + 1;
  int rc = 0;
  std::string failmsg; uint64_t failidx = 0;
  for (uint64_t i = start; i < start + count; i++) {
    if ((i & 7) == 0 && now() - t0 > limit) { truncated = true; break; }
    sh->index = i;
    t.begin_generate(case_seed(seed, *tg, i));
    t.record_ = ((i - start) % every) == 0;
    arm(cpu);
    std::string msg;
    int r = run_case(*tg, t, msg);
    if (r == 2) { disc++; continue; }
    evals++;
    if (tf) { fwrite(&t.trans_, 8, 1, tf); }
    for (auto &l : t.labels_) labels[l]++;
    if (t.nontrivial_) { nont++; seen.insert(t.hash_); }
    if (t.record_ && samples.size() < 3) samples.push_back(t.notes_);
    if (r == 1) {
      rc = 1; failmsg = msg; failidx = i;
      write_replay(base + ".fail", *tg, sh->tape, sh->len, msg);
      fprintf(stderr, "FAIL case %llu: %s\n", (unsigned long long)i, msg.c_str());
      break;
    }
  }
  arm(0);
  if (tf) fclose(tf);
  FILE *f = fopen((base + ".json").c_str(), "w");
  if (f) {
    fprintf(f, "{\"evaluations\":%ld,\"discarded\":%ld,\"nontrivial\":%ld,\"distinct\":%zu,\"truncated\":%s,\"wall\":%.3f,\"failidx\":%llu,\"message\":%s,\"labels\":{",
            evals, disc, nont, seen.size(), truncated ? "true" : "false", now() - t0,
            (unsigned long long)failidx, jstr(failmsg).c_str());
    bool first = true;
    for (auto &l : labels) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(l.first).c_str(), l.second); first = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
  }
  FILE *h = fopen((base + ".seen").c_str(), "wb");
  if (h) {
    std::vector<uint64_t> v(seen.begin(), seen.end());
    if (!v.empty()) fwrite(v.data(), 8, v.size(), h);
    fclose(h);
  }
  fflush(nullptr);
  return rc;
}

static int cmd_replay(int argc, char **argv) {
  if (argc < 3) return 3;
  std::string prop, name; Bytes tape;
  if (!read_replay(argv[2], prop, name, tape)) { fprintf(stderr, "bad replay file\n"); return 3; }
  const Target *tg = find(prop, name);
  if (!tg) { fprintf(stderr, "no such target\n"); return 3; }
  int cpu = atoi(arg(argc, argv, "--cpu", "90").c_str());
  signal(SIGPROF, on_hang);
  T t;
  t.record_ = true;
  t.thorough_ = arg(argc, argv, "--tier", "quick") == "thorough";
  t.begin_replay(tape.data(), tape.size());
  arm(cpu);
  std::string msg;
  int r = run_case(*tg, t, msg);
  printf("case: %s\n", t.notes_.c_str());
  if (r == 1) { printf("FAIL %s\n", msg.c_str()); return 1; }
  printf("transcript %016llx\n", (unsigned long long)t.trans_);
  printf("ok\n");
  return 0;
}

static int g_cpu = 90;
static bool still_fails(const Target &tg, const Bytes &tape, bool thorough, std::string *msg) {
  int pfd[2];
  if (pipe(pfd)) return false;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    signal(SIGPROF, on_hang);
    arm(g_cpu);
    T t;
    t.thorough_ = thorough;
    t.begin_replay(tape.data(), tape.size());
    std::string m;
    int r = run_case(tg, t, m);
    if (r == 1) { ssize_t w = write(pfd[1], m.data(), std::min<size_t>(m.size(), 4000)); (void)w; }
    _exit(r == 1 ? 10 : 0);
  }
  close(pfd[1]);
  std::string m; char b[4096]; ssize_t k;
  while ((k = read(pfd[0], b, sizeof b)) > 0) m.append(b, k);
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) failed = false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) failed = false;  // only slow
  if (failed && msg) *msg = m.empty() ? "crash, abort, sanitizer report or hang" : m;
  return failed;
}

static int cmd_shrink(int argc, char **argv) {
  if (argc < 4) return 3;
  std::string prop, name; Bytes tape;
  if (!read_replay(argv[2], prop, name, tape)) return 3;
  const Target *tg = find(prop, name);
  if (!tg) return 3;
  double limit = atof(arg(argc, argv, "--limit", "40").c_str());
  bool th = arg(argc, argv, "--tier", "quick") == "thorough";
  g_cpu = atoi(arg(argc, argv, "--cpu", "90").c_str());
  double t0 = now();
  std::string msg;
  if (!still_fails(*tg, tape, th, &msg)) { printf("not reproducible\n"); return 4; }
  auto done = [&] { return now() - t0 > limit; };
  bool progress = true;
  while (progress && !done()) {
    progress = false;
    while (!tape.empty() && tape.back() == 0) tape.pop_back();
    for (size_t k = std::max<size_t>(tape.size() / 2, 1); k >= 1 && !done(); k /= 2) {
      for (size_t i = 0; i + k <= tape.size() && !done();) {   // delete
        Bytes c = tape; c.erase(c.begin() + i, c.begin() + i + k);
        if (still_fails(*tg, c, th, &msg)) { tape = c; progress = true; } else i += k;
      }
      if (k == 1) break;
    }
    for (size_t k = std::max<size_t>(tape.size() / 2, 1); k >= 1 && !done(); k /= 2) {
      for (size_t i = 0; i + k <= tape.size() && !done(); i += k) {  // zero
        Bytes c = tape; bool any = false;
        for (size_t j = 0; j < k; j++) { any |= c[i + j] != 0; c[i + j] = 0; }
        if (any && still_fails(*tg, c, th, &msg)) { tape = c; progress = true; }
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < tape.size() && !done(); i++) {       // reduce bytes
      while (tape[i] && !done()) {
        Bytes c = tape; bool ok = false;
        for (uint8_t v : {(uint8_t)(tape[i] / 2), (uint8_t)(tape[i] - 1)}) {
          c[i] = v;
          if (v != tape[i] && still_fails(*tg, c, th, &msg)) { tape = c; progress = true; ok = true; break; }
        }
        if (!ok) break;
      }
    }
  }
  write_replay(argv[3], *tg, tape.data(), tape.size(), msg);
  printf("shrunk to %zu bytes: %s\n", tape.size(), msg.c_str());
  return 0;
}

// A faulty library must not take the machine's memory (and the check) with it.
// The sanitizers have their own limit and cannot live under this one.
extern "C" __attribute__((weak)) void __asan_init();
extern "C" __attribute__((weak)) void __tsan_init();
static void limit_memory() {
  if (__asan_init || __tsan_init || RUNNING_ON_VALGRIND) return;
  struct rlimit r = {3ul << 30, 3ul << 30};
  setrlimit(RLIMIT_AS, &r);
}

int main(int argc, char **argv) {
  limit_memory();
  if (argc < 2) { fprintf(stderr, "usage: list|run|replay|shrink\n"); return 3; }
  std::string c = argv[1];
  if (c == "list") return cmd_list();
  if (c == "run") return cmd_run(argc, argv);
  if (c == "replay") return cmd_replay(argc, argv);
  if (c == "shrink") return cmd_shrink(argc, argv);
  return 3;
}
