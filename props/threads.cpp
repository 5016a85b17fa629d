// C36: the calls of other properties, run by several threads at once.
#include "common.h"

#include <algorithm>
#include <atomic>
#include <torsion/cipher.h>
#include <torsion/mpi.h>
#include <torsion/rand.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

PBT_RULE(C36, "at least two threads ran calls at the same time and each result was compared");

namespace {

const std::vector<const pbt::Target *> &pool() {
  static std::vector<const pbt::Target *> v;
  if (v.empty())
    for (auto &x : pbt::targets()) {
      std::string p = x.prop, n = x.name;
      if (p == "C34" && n != "generation") v.push_back(&x), v.push_back(&x);
      if (p == "C10" || p == "C11" || p == "C12") v.push_back(&x);
    }
  return v;
}

// One generated case of another property with a tape of its own.
struct Case {
  const pbt::Target *target;
  uint64_t seed;
  bool thorough;
  uint64_t result = 0;
  std::string message;

  void run() {
    const size_t cap = 1 << 16;
    std::vector<uint8_t> tape(cap);
    uint32_t n = 0;
    pbt::T t;
    t.attach(tape.data(), &n, cap);
    t.begin_generate(seed);
    t.thorough_ = thorough;
    message.clear();
    try {
      target->fn(t);
    } catch (const pbt::Fail &f) {
      message = f.msg;
    } catch (const pbt::Discard &) {
    }
    result = t.trans_;
  }
};

struct Worker {
  std::vector<Case> cases;
  std::atomic<int> *ready;
  int threads;
};

void *work(void *arg) {
  Worker *w = (Worker *)arg;
  w->ready->fetch_add(1);
  while (w->ready->load() < w->threads) sched_yield();
  for (Case &c : w->cases) c.run();
  return nullptr;
}

}

PBT_PROP(C36, calls, 5000, 60000, 0.4, 0.2) {
  int k = (int)t.range(2, 4);
  bool alike = t.chance(2, 3), twin = t.chance(1, 4);
  const pbt::Target *common = t.pick(pool());
  std::vector<Worker> w(k), alone(k);
  std::atomic<int> ready(0);
  for (int i = 0; i < k; i++) {
    w[i].ready = &ready;
    w[i].threads = k;
    size_t n = t.range(1, 3);
    for (size_t j = 0; j < n; j++) {
      Case c;
      c.target = alike ? common : t.pick(pool());
      c.seed = twin && i ? w[0].cases[0].seed : t.bits(64);
      c.thorough = false;
      w[i].cases.push_back(c);
    }
  }
  t.label("%s %s", alike ? common->prop : "mixed", alike ? common->name : "");
  // Alone first: the results to expect, and everything lazily built by the harness.
  for (int i = 0; i < k; i++) {
    alone[i].cases = w[i].cases;
    for (Case &c : alone[i].cases) c.run();
  }
  if (t.recording())
    for (int i = 0; i < k; i++)
      for (Case &c : w[i].cases) t.note("thread %d: %s %s seed %016llx\n", i, c.target->prop, c.target->name, (unsigned long long)c.seed);
  std::vector<pthread_t> id(k);
  for (int i = 0; i < k; i++)
    if (pthread_create(&id[i], nullptr, work, &w[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  for (int i = 0; i < k; i++) pthread_join(id[i], nullptr);
  for (int i = 0; i < k; i++)
    for (size_t j = 0; j < w[i].cases.size(); j++) {
      const Case &c = w[i].cases[j], &a = alone[i].cases[j];
      t.mix64(a.result);
      EXPECT(t, c.result == a.result && c.message == a.message, "%s %s gave another result beside %d other threads than alone %s", c.target->prop, c.target->name, k - 1, c.message.c_str());
    }
  t.nontrivial();
}

namespace {

struct Drawer {
  std::vector<int> plan;
  std::atomic<int> *ready;
  int threads;
  Bytes out;
  bool ok = true;
};

void *draw(void *arg) {
  Drawer *w = (Drawer *)arg;
  w->ready->fetch_add(1);
  while (w->ready->load() < w->threads) sched_yield();
  for (int n : w->plan) {
    if (n > 0) {
      Bytes b(n);
      w->ok &= torsion_getrandom(b.data(), n) == 1;
      w->out.insert(w->out.end(), b.begin(), b.end());
    } else {
      uint32_t x = 0, y = 0;
      w->ok &= torsion_random(&x) == 1;
      w->ok &= torsion_uniform(&y, 1 - n) == 1 && y < uint32_t(1 - n);
      w->ok &= torsion_getentropy(&x, sizeof(x)) == 1;
    }
  }
  return nullptr;
}

}

PBT_PROP(C36, randomness, 3000, 40000, 0.5, 0.3) {
  int k = (int)t.range(2, 4);
  std::vector<Drawer> w(k);
  std::atomic<int> ready(0);
  for (auto &x : w) {
    x.ready = &ready;
    x.threads = k;
    size_t n = t.range(1, 12);
    for (size_t j = 0; j < n; j++) x.plan.push_back(t.flip() ? (int)(8 * t.range(1, 16)) : -(int)t.range(0, 1000));
  }
  t.label("%d threads drawing", k);
  std::vector<pthread_t> id(k);
  for (int i = 0; i < k; i++)
    if (pthread_create(&id[i], nullptr, draw, &w[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  for (int i = 0; i < k; i++) pthread_join(id[i], nullptr);
  std::vector<uint64_t> seen;
  for (auto &x : w) {
    EXPECT(t, x.ok, "a request failed in one of %d threads", k);
    for (size_t i = 0; i + 8 <= x.out.size(); i += 8) { uint64_t v; memcpy(&v, &x.out[i], 8); seen.push_back(v); }
  }
  std::sort(seen.begin(), seen.end());
  EXPECT(t, std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "two of %d threads drew the same bytes", k);
  t.nontrivial();
}

namespace {

// Things several threads read at once.
struct Shared {
  cipher_t cipher;
  mpz_t x, y, m;
  std::vector<int> ops;
};

struct Reader {
  const Shared *s;
  std::atomic<int> *ready;
  int threads;
  Bytes out;
};

void put(Bytes &out, const mpz_t z) {
  const mp_limb_t *p = mpz_limbs_read(z);
  size_t n = mpz_size(z);
  out.push_back(mpz_sgn(z) < 0);
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < 64; j += 8) out.push_back(uint8_t(p[i] >> j));
}

void read_shared(const Shared &s, Bytes &out) {
  mpz_t a, b, c;
  mpz_init(a);
  mpz_init(b);
  mpz_init(c);
  for (int op : s.ops) {
    switch (op) {
      case 0: mpz_add(a, s.x, s.y); break;
      case 1: mpz_sub(a, s.x, s.y); break;
      case 2: mpz_mul(a, s.x, s.y); break;
      case 3: mpz_sqr(a, s.x); break;
      case 4: mpz_quorem(a, b, s.x, s.m); break;
      case 5: mpz_divmod(a, b, s.y, s.m); break;
      case 6: mpz_gcdext(a, b, c, s.x, s.y); break;
      case 7: out.push_back(mpz_invert(a, s.x, s.m)); break;
      case 8: out.push_back(mpz_jacobi(s.x, s.m)); break;
      case 9: mpz_powm(a, s.x, s.y, s.m); break;
      case 10: mpz_powm_sec(a, s.x, s.y, s.m); break;
      case 11: mpz_and(a, s.x, s.y); break;
      case 12: mpz_ior(a, s.x, s.y); break;
      case 13: mpz_xor(a, s.x, s.y); break;
      case 14: mpz_mul_2exp(a, s.x, 67); break;
      case 15: mpz_quo_2exp(a, s.y, 65); break;
      case 16: out.push_back(mpz_cmp(s.x, s.y)); break;
      case 17: out.push_back(mpz_tstbit(s.x, 70)); break;
      case 18: out.push_back(mpz_popcount(s.m)); break;
      case 19: mpz_sqrt(a, s.m); break;
      case 20: out.push_back(mpz_perfect_square_p(s.m)); break;
      case 21: {
        char *str = mpz_get_str(s.x, 10);
        out.insert(out.end(), str, str + strlen(str));
        free(str);
        break;
      }
      case 22: {
        Bytes e(mpz_bytelen(s.m));
        mpz_export(e.data(), s.m, e.size(), 1);
        out.insert(out.end(), e.begin(), e.end());
        break;
      }
      default: {
        uint8_t in[16] = {1, 2, 3, (uint8_t)op}, ct[16] = {0}, pt[16] = {0};
        cipher_encrypt(&s.cipher, ct, in);
        cipher_decrypt(&s.cipher, pt, in);
        out.insert(out.end(), ct, ct + 16);
        out.insert(out.end(), pt, pt + 16);
        break;
      }
    }
    put(out, a);
    put(out, b);
    put(out, c);
  }
  mpz_clear(a);
  mpz_clear(b);
  mpz_clear(c);
}

void *read_work(void *arg) {
  Reader *r = (Reader *)arg;
  r->ready->fetch_add(1);
  while (r->ready->load() < r->threads) sched_yield();
  read_shared(*r->s, r->out);
  return nullptr;
}

}

// Operands and key schedules that several threads read at the same time.
PBT_PROP(C36, shared, 4000, 60000, 0.4, 0.4) {
  Shared s;
  const std::pair<cipher_id_t, size_t> kinds[] = {
    {CIPHER_AES128, 16}, {CIPHER_AES256, 32}, {CIPHER_ARC2, 8}, {CIPHER_BLOWFISH, 16}, {CIPHER_CAMELLIA128, 16},
    {CIPHER_CAMELLIA256, 32}, {CIPHER_CAST5, 16}, {CIPHER_DES, 8}, {CIPHER_DES_EDE3, 24}, {CIPHER_IDEA, 16},
    {CIPHER_SERPENT256, 32}, {CIPHER_TWOFISH256, 32}};
  auto kind = kinds[t.range(0, sizeof(kinds) / sizeof(kinds[0]) - 1)];
  Bytes key = t.rnd(kind.second);
  EXPECT(t, cipher_init(&s.cipher, kind.first, key.data(), key.size()), "cipher_init failed");
  auto load = [&](mpz_t z, bool odd) {
    Bytes b = t.bytes(t.range(1, 96));
    if (odd) b.front() |= 3;
    mpz_init(z);
    mpz_import(z, b.data(), b.size(), -1);
    if (!odd && t.chance(1, 4)) mpz_neg(z, z);
  };
  load(s.x, false);
  load(s.y, false);
  load(s.m, true);
  size_t n = t.range(1, 12);
  for (size_t i = 0; i < n; i++) {
    int op = (int)t.range(0, 26);
    if ((op == 9 || op == 10) && mpz_sgn(s.y) < 0) op = 2; // needs an inverse
    s.ops.push_back(op);
  }
  int k = (int)t.range(2, 4);
  Bytes want;
  read_shared(s, want);
  std::vector<Reader> w(k);
  std::vector<pthread_t> id(k);
  std::atomic<int> ready(0);
  for (int i = 0; i < k; i++) {
    w[i].s = &s;
    w[i].ready = &ready;
    w[i].threads = k;
    if (pthread_create(&id[i], nullptr, read_work, &w[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  }
  for (int i = 0; i < k; i++) pthread_join(id[i], nullptr);
  mpz_clear(s.x);
  mpz_clear(s.y);
  mpz_clear(s.m);
  t.label("%d threads reading", k);
  t.nontrivial();
  for (int i = 0; i < k; i++) EXPECT(t, w[i].out == want, "%d threads reading the same operands: another result than alone", k);
}
