#include <valgrind/valgrind.h>
#include "pbt.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>

extern "C" __attribute__((weak)) void __asan_init();

namespace pbt {

bool under_asan() { return __asan_init != nullptr; }

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const uint8_t *d = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { h ^= d[i]; h *= 1099511628211ull; }
  return h;
}

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t mix_seed(uint64_t a, uint64_t b) {
  uint64_t x = a ^ (b * 0xd6e8feb86659fd93ull);
  splitmix(x);
  return splitmix(x);
}

// ---------------------------------------------------------------- Buf

static const size_t kGuard = 64;

// Memcheck, like the address sanitizer, watches the edges of heap blocks.
static bool watched() {
  static const bool w = under_asan() || RUNNING_ON_VALGRIND;
  return w;
}

void Buf::alloc(size_t len) {
  n = len;
  if (watched()) {
    // Zero-length buffers point one past a one-byte block so that any access
    // lands in a redzone.
    base_ = (uint8_t *)malloc(len ? len : 1);
    p = len ? base_ : base_ + 1;
  } else {
    base_ = (uint8_t *)malloc(len + 2 * kGuard);
    p = base_ + kGuard;
    for (size_t i = 0; i < kGuard; i++) {
      base_[i] = (uint8_t)(0xA5 + i);
      p[len + i] = (uint8_t)(0x5A + 3 * i);
    }
  }
}

Buf::Buf(size_t len, int fill) {
  alloc(len);
  if (len) memset(p, fill < 0 ? 0xC7 : fill, len);
}
Buf::Buf(const Bytes &b) {
  alloc(b.size());
  if (n) memcpy(p, b.data(), n);
}
Buf::Buf(const Buf &o) {
  alloc(o.n);
  if (n) memcpy(p, o.p, n);
}
Buf::~Buf() {
  bool ok = intact();
  free(base_);
  if (!ok) {
    fprintf(stderr, "PBT: write outside a %zu-byte buffer\n", n);
    abort();
  }
}
bool Buf::intact() const {
  if (watched()) return true;
  for (size_t i = 0; i < kGuard; i++)
    if (base_[i] != (uint8_t)(0xA5 + i) || p[n + i] != (uint8_t)(0x5A + 3 * i))
      return false;
  return true;
}

// ---------------------------------------------------------------- T

static uint8_t g_local[1 << 16];
static uint32_t g_local_len;

T::T() {
  attach(g_local, &g_local_len, sizeof g_local);
  thorough_ = false; record_ = false;
  begin_replay(nullptr, 0);
}

void T::attach(uint8_t *b, uint32_t *pl, size_t c) { buf = b; plen = pl; cap = c; }

static void reset_common(T &t) {
  t.pos = 0; t.nontrivial_ = false;
  t.hash_ = 1469598103934665603ull; t.trans_ = 1469598103934665603ull;
  t.notes_.clear(); t.labels_.clear();
}

void T::begin_generate(uint64_t seed) {
  reset_common(*this);
  generating_ = true; *plen = 0;
  uint64_t x = seed;
  for (int i = 0; i < 4; i++) s_[i] = splitmix(x);
}

void T::begin_replay(const uint8_t *d, size_t n) {
  reset_common(*this);
  generating_ = false;
  if (n > cap) n = cap;
  if (n) memmove(buf, d, n);
  *plen = (uint32_t)n;
}

uint64_t T::rnd64() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3];
  s_[2] ^= t; s_[3] = rotl(s_[3], 45);
  return r;
}

uint8_t T::byte() {
  if (pos < *plen) return buf[pos++];
  if (generating_ && *plen < cap) {
    uint8_t b = (uint8_t)(rnd64() >> 56);
    buf[*plen] = b;
    *plen = *plen + 1;
    pos++;
    return b;
  }
  pos++;
  return 0;
}

void T::mix(const void *p, size_t n) { hash_ = fnv(p, n, hash_ ^ n); }

uint64_t T::bits(int n) {
  uint64_t v = 0;
  int nb = (n + 7) / 8;
  for (int i = 0; i < nb; i++) v |= (uint64_t)byte() << (8 * i);
  if (n < 64) v &= (1ull << n) - 1;
  mix64(v);
  return v;
}

uint64_t T::range(uint64_t lo, uint64_t hi) {
  if (hi <= lo) return lo;
  uint64_t span = hi - lo;
  int nb = 1;
  if (span > 15) nb = 2;
  if (span > 0xfff) nb = 4;
  if (span > 0xffffff) nb = 8;
  uint64_t v = 0;
  for (int i = 0; i < nb; i++) v |= (uint64_t)byte() << (8 * i);
  if (span != UINT64_MAX) v %= span + 1;
  v += lo;
  mix64(v);
  return v;
}

bool T::chance(unsigned num, unsigned den) {
  return range(0, den - 1) >= den - num;
}

size_t T::weighted(std::initializer_list<unsigned> w) {
  unsigned tot = 0;
  for (unsigned x : w) tot += x;
  unsigned v = (unsigned)range(0, tot - 1);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return 0;
}

size_t T::len(size_t max) {
  if (max == 0) return 0;
  switch (weighted({4, 4, 3, 1})) {
    case 0: return range(0, std::min<size_t>(max, 16));
    case 1: return range(0, std::min<size_t>(max, 80));
    case 2: return range(0, std::min<size_t>(max, 300));
    default: return range(0, max);
  }
}

size_t T::len_near(std::initializer_list<size_t> marks, size_t max) {
  if (marks.size() == 0 || chance(1, 3)) return range(0, max);
  size_t m = *(marks.begin() + range(0, marks.size() - 1));
  long d = (long)range(0, 4);
  static const int off[5] = {0, -1, 1, -2, 2};
  long v = (long)m + off[d];
  if (v < 0) v = 0;
  if ((size_t)v > max) v = (long)max;
  return (size_t)v;
}

size_t T::len_block(size_t block, size_t max) {
  if (block == 0) return len(max);
  switch (weighted({3, 3, 3})) {
    case 0: return range(0, std::min(max, 2 * block + 2));
    case 1: {
      size_t nb = range(0, std::max<size_t>(1, std::min<size_t>(max / block, 9)));
      long d = (long)range(0, 4) ;
      static const int off[5] = {0, -1, 1, -9, 9};
      long v = (long)(nb * block) + off[d];
      if (v < 0) v = 0;
      return std::min<size_t>((size_t)v, max);
    }
    default: return len(max);
  }
}

static void expand(uint64_t seed, uint8_t *out, size_t n) {
  uint64_t x = seed;
  size_t i = 0;
  while (i < n) {
    uint64_t v = splitmix(x);
    for (int k = 0; k < 8 && i < n; k++, i++) out[i] = (uint8_t)(v >> (8 * k));
  }
}

Bytes T::rnd(size_t n) {
  Bytes b(n);
  if (n <= 64) {
    for (size_t i = 0; i < n; i++) b[i] = byte();
  } else {
    uint64_t s = 0;
    for (int i = 0; i < 8; i++) s |= (uint64_t)byte() << (8 * i);
    expand(s, b.data(), n);
  }
  mix(b.data(), n);
  return b;
}

Bytes T::bytes(size_t n) {
  Bytes b(n, 0);
  if (n == 0) return b;
  uint8_t st = byte();
  if (st < 14) {
    // zeros
  } else if (st < 28) {
    std::fill(b.begin(), b.end(), 0xff);
  } else if (st < 36) {
    uint8_t v = byte();
    std::fill(b.begin(), b.end(), v);
  } else if (st < 60) {           // runs of 00/ff at arbitrary offsets
    size_t i = 0; uint8_t v = (byte() & 1) ? 0xff : 0;
    while (i < n) {
      size_t run = 1 + byte() % 16;
      for (size_t k = 0; k < run && i < n; k++) b[i++] = v;
      uint8_t c = byte();
      v = c < 112 ? 0 : c < 224 ? 0xff : c;
    }
  } else if (st < 76) {           // sparse bits on 00 or ff
    uint8_t bg = (byte() & 1) ? 0xff : 0;
    std::fill(b.begin(), b.end(), bg);
    int k = 1 + byte() % 4;
    for (int j = 0; j < k; j++) {
      size_t at = (byte() | (size_t)byte() << 8) % n;
      b[at] ^= (uint8_t)(1u << (byte() & 7));
    }
  } else if (st < 120 && n <= 96) {
    for (size_t i = 0; i < n; i++) b[i] = byte();
  } else {
    uint64_t s = 0;
    for (int i = 0; i < 6; i++) s |= (uint64_t)byte() << (8 * i);
    expand(s, b.data(), n);
  }
  mix(b.data(), n);
  return b;
}

Bytes T::ascii(size_t n, int lo, int hi) {
  Bytes b(n);
  for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(lo + byte() % (hi - lo + 1));
  mix(b.data(), n);
  return b;
}

void T::flip_bit(Bytes &b) {
  if (b.empty()) return;
  size_t i = range(0, b.size() - 1);
  b[i] ^= (uint8_t)(1u << range(0, 7));
}

Bytes T::mutate(const Bytes &in, bool resize) {
  Bytes b = in;
  int k = 1 + (int)range(0, 2);
  for (int j = 0; j < k; j++) {
    switch (weighted({4, 3, 2, 1, 1, 1})) {
      case 0: flip_bit(b); break;
      case 1: if (!b.empty()) b[range(0, b.size() - 1)] = (uint8_t)bits(8); break;
      case 2: if (!b.empty()) {
        static const uint8_t v[] = {0, 1, 0x7f, 0x80, 0xff, 2, 0x30, 0x81, 0x82};
        b[range(0, b.size() - 1)] = v[range(0, 8)];
      } break;
      case 3: if (resize && !b.empty()) b.resize(b.size() - range(1, std::min<size_t>(b.size(), 8))); break;
      case 4: if (resize) { Bytes x = bytes(range(1, 8)); b.insert(b.end(), x.begin(), x.end()); } break;
      default: if (resize && !b.empty()) {
        size_t at = range(0, b.size() - 1);
        if (flip()) b.erase(b.begin() + at); else b.insert(b.begin() + at, (uint8_t)bits(8));
      }
    }
  }
  return b;
}

std::vector<size_t> T::partition(size_t n, size_t block) {
  std::vector<size_t> v;
  size_t left = n;
  int style = (int)weighted({2, 3, 2, 2});
  if (style == 0) { v.push_back(n); return v; }
  int guard = 0;
  while (left > 0 && guard++ < 64) {
    size_t k;
    if (style == 1) k = range(0, std::min(left, 2 * block + 3));
    else if (style == 2) {
      static const int off[5] = {0, -1, 1, 0, 0};
      long x = (long)(block * range(0, 3)) + off[range(0, 4)];
      k = x < 0 ? 0 : (size_t)x;
    } else k = range(0, left);
    if (k > left) k = left;
    v.push_back(k);
    left -= k;
  }
  if (left) v.push_back(left);
  if (chance(1, 8)) v.push_back(0);
  return v;
}

static std::string vfmt(const char *fmt, va_list ap) {
  char tmp[2048];
  vsnprintf(tmp, sizeof tmp, fmt, ap);
  return tmp;
}

void T::fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  throw Fail{s};
}
void T::label(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  labels_.push_back(vfmt(fmt, ap));
  va_end(ap);
}
void T::note(const char *fmt, ...) {
  if (!record_ || notes_.size() > 1500) return;
  va_list ap; va_start(ap, fmt);
  if (!notes_.empty()) notes_ += "; ";
  notes_ += vfmt(fmt, ap);
  va_end(ap);
}
void T::show(const char *name, const Bytes &b) {
  if (!record_) return;
  std::string h = b.size() <= 48 ? hex(b) : hex(b.data(), 40) + "..";
  note("%s[%zu]=%s", name, b.size(), h.c_str());
}
void T::out(const char *name, const void *p, size_t n) {
  trans_ = fnv(name, strlen(name), trans_);
  trans_ = fnv(p, n, trans_ ^ n);
  if (record_) note("%s=%s", name, hex(p, n > 64 ? 64 : n).c_str());
}

std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
  return s;
}

static void mismatch(T &t, const std::string &what, const Bytes &got, const Bytes &want) {
  size_t at = 0;
  while (at < got.size() && at < want.size() && got[at] == want[at]) at++;
  auto clip = [](const Bytes &b) { return b.size() <= 160 ? hex(b) : hex(b.data(), 160) + ".."; };
  t.fail("%s: got[%zu]=%s want[%zu]=%s (first difference at %zu)", what.c_str(),
         got.size(), clip(got).c_str(), want.size(), clip(want).c_str(), at);
}

void expect_eq(T &t, const Bytes &got, const Bytes &want, const char *fmt, ...) {
  if (got == want) return;
  va_list ap; va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  mismatch(t, s, got, want);
}
void expect_eq(T &t, const void *got, const void *want, size_t n, const char *fmt, ...) {
  if (n == 0 || memcmp(got, want, n) == 0) return;
  va_list ap; va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  const uint8_t *g = (const uint8_t *)got, *w = (const uint8_t *)want;
  mismatch(t, s, Bytes(g, g + n), Bytes(w, w + n));
}

std::vector<Target> &targets() {
  static std::vector<Target> v;
  return v;
}
std::map<std::string, std::string> &rules() {
  static std::map<std::string, std::string> m;
  return m;
}
Rule::Rule(const char *prop, const char *rule) { rules()[prop] = rule; }

} // namespace pbt

// The oracles' OpenSSL objects live for the whole process.
extern "C" const char *__lsan_default_suppressions() {
  return "leak:libcrypto.so\nleak:legacy.so\nleak:libgmp.so\n";
}
