// Tape-driven property-based testing engine.
//
// Every random decision of a generator is read from a byte tape, so a case is
// just a byte string: it can be generated from a seed, replayed from a file,
// shrunk by editing bytes, or supplied by libFuzzer.  Zero bytes always decode
// to the simplest choice.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Fail { std::string msg; };
struct Discard {};

bool under_asan();

// A heap buffer of exactly n bytes.  Under AddressSanitizer the redzones detect
// stray accesses; otherwise canaries around the buffer detect stray writes.
class Buf {
 public:
  uint8_t *p;
  size_t n;
  explicit Buf(size_t n, int fill = -1);
  Buf(const Bytes &b);
  Buf(const Buf &o);
  Buf &operator=(const Buf &) = delete;
  ~Buf();
  operator uint8_t *() { return p; }
  operator const uint8_t *() const { return p; }
  Bytes get() const { return Bytes(p, p + n); }
  Bytes get(size_t k) const { return Bytes(p, p + (k < n ? k : n)); }
  bool intact() const;
 private:
  void alloc(size_t n);
  uint8_t *base_;
};

class T {
 public:
  // Raw tape.
  uint8_t byte();
  uint64_t bits(int n);                       // uniform in [0, 2^n)
  uint64_t range(uint64_t lo, uint64_t hi);   // uniform in [lo, hi]
  bool chance(unsigned num, unsigned den);    // false is the simple outcome
  bool flip() { return byte() & 1; }
  template <class V> const typename V::value_type &pick(const V &v) {
    return v[range(0, v.size() - 1)];
  }
  template <class E> E pick(std::initializer_list<E> v) {
    return *(v.begin() + range(0, v.size() - 1));
  }
  // Index chosen with the given integer weights.
  size_t weighted(std::initializer_list<unsigned> w);

  // Sizes and data.
  size_t len(size_t max);                     // biased to small, up to max
  size_t len_near(std::initializer_list<size_t> marks, size_t max);
  size_t len_block(size_t block, size_t max); // biased to block boundaries
  Bytes bytes(size_t n);                      // structured styles
  Bytes rnd(size_t n);                        // uniform bytes
  Bytes mutate(const Bytes &b, bool resize = true); // edit a few places
  void flip_bit(Bytes &b);
  std::vector<size_t> partition(size_t n, size_t block); // piece lengths
  Bytes ascii(size_t n, int lo, int hi);

  // Verdicts and bookkeeping.
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void discard() { throw Discard(); }
  void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void nontrivial() { nontrivial_ = true; }
  void mix(const void *p, size_t n);
  void mix(const Bytes &b) { mix(b.data(), b.size()); }
  void mix64(uint64_t v) { mix(&v, sizeof v); }
  bool recording() const { return record_; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void show(const char *name, const Bytes &b);
  void out(const char *name, const void *p, size_t n); // result transcript
  void out64(const char *name, uint64_t v) { out(name, &v, 8); }

  // Engine side.
  T();
  void begin_generate(uint64_t seed);
  void begin_replay(const uint8_t *d, size_t n);
  void attach(uint8_t *buf, uint32_t *plen, size_t cap);
  uint8_t *buf; uint32_t *plen; size_t cap;
  size_t pos;
  bool generating_, record_, nontrivial_, thorough_;
  uint64_t hash_, trans_;
  uint64_t s_[4];
  std::string notes_;
  std::vector<std::string> labels_;
  uint64_t rnd64();
};

#define EXPECT(t, cond, ...) do { if (!(cond)) (t).fail(__VA_ARGS__); } while (0)

std::string hex(const void *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
void expect_eq(T &t, const Bytes &got, const Bytes &want, const char *fmt, ...)
  __attribute__((format(printf, 4, 5)));
void expect_eq(T &t, const void *got, const void *want, size_t n, const char *fmt, ...)
  __attribute__((format(printf, 5, 6)));

typedef void (*PropFn)(T &);
struct Target {
  const char *prop; const char *name; PropFn fn;
  long quick, thorough;   // cases in the native configuration
  double share_portable, share_asan;
};
std::vector<Target> &targets();
struct Reg {
  Reg(const char *prop, const char *name, PropFn fn, long q, long th,
      double sp = 0.5, double sa = 0.25) {
    targets().push_back(Target{prop, name, fn, q, th, sp, sa});
  }
};
struct Rule { Rule(const char *prop, const char *rule); };

// PBT_PROP(C01, oneshot, quick cases, thorough cases[, portable share, asan share])
#define PBT_PROP(ID, NAME, ...) \
  static void prop_##ID##_##NAME(pbt::T &t); \
  static pbt::Reg reg_##ID##_##NAME(#ID, #NAME, prop_##ID##_##NAME, __VA_ARGS__); \
  static void prop_##ID##_##NAME(pbt::T &t)
#define PBT_RULE(ID, TEXT) static pbt::Rule rule_##ID(#ID, TEXT)

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
uint64_t mix_seed(uint64_t a, uint64_t b);

} // namespace pbt
