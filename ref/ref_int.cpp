#include "ref_int.h"

#include <gmp.h>

#include <cstdlib>
#include <cstring>

namespace ref {

static_assert(sizeof(__mpz_struct) == 16, "GMP integer layout");

static inline mpz_ptr M(Z &z) { return (mpz_ptr)z.raw(); }
static inline mpz_srcptr M(const Z &z) { return (mpz_srcptr)z.raw(); }

Z::Z() { mpz_init((mpz_ptr)s_); }
Z::Z(long v) { mpz_init_set_si((mpz_ptr)s_, v); }
Z::Z(const Z &o) { mpz_init_set((mpz_ptr)s_, (mpz_srcptr)o.s_); }
Z::Z(Z &&o) noexcept {
  mpz_init((mpz_ptr)s_);
  mpz_swap((mpz_ptr)s_, (mpz_ptr)o.s_);
}
Z::~Z() { mpz_clear((mpz_ptr)s_); }
Z &Z::operator=(const Z &o) {
  mpz_set((mpz_ptr)s_, (mpz_srcptr)o.s_);
  return *this;
}
Z &Z::operator=(Z &&o) noexcept {
  mpz_swap((mpz_ptr)s_, (mpz_ptr)o.s_);
  return *this;
}

Z Z::u64(uint64_t v) {
  Z r;
  mpz_set_ui(M(r), v);
  return r;
}
Z Z::be(const uint8_t *p, size_t n) {
  Z r;
  if (n) mpz_import(M(r), n, 1, 1, 0, 0, p);
  return r;
}
Z Z::le(const uint8_t *p, size_t n) {
  Z r;
  if (n) mpz_import(M(r), n, -1, 1, 0, 0, p);
  return r;
}
Z Z::be(const Bytes &b) { return be(b.data(), b.size()); }
Z Z::le(const Bytes &b) { return le(b.data(), b.size()); }
Z Z::limbs(const uint64_t *p, size_t n, bool neg) {
  Z r;
  if (n) mpz_import(M(r), n, -1, 8, 0, 0, p);
  if (neg) mpz_neg(M(r), M(r));
  return r;
}
Z Z::hex(const char *s) {
  Z r;
  if (mpz_set_str(M(r), s, 16) != 0) abort();
  return r;
}
Z Z::str(const std::string &s, int base) {
  Z r;
  if (mpz_set_str(M(r), s.c_str(), base) != 0) abort();
  return r;
}
Z Z::pow2(size_t n) {
  Z r;
  mpz_setbit(M(r), n);
  return r;
}

Bytes Z::to_le(size_t n) const {
  Bytes out(n, 0);
  size_t have = (bits() + 7) / 8;
  if (!have) return out;
  Bytes tmp(have);
  size_t cnt = 0;
  mpz_export(tmp.data(), &cnt, -1, 1, 0, 0, M(*this));
  memcpy(out.data(), tmp.data(), have < n ? have : n);
  return out;
}
Bytes Z::to_be(size_t n) const {
  Bytes b = to_le(n);
  return Bytes(b.rbegin(), b.rend());
}
std::vector<uint64_t> Z::to_limbs() const {
  size_t n = mpz_size(M(*this));
  std::vector<uint64_t> v(n);
  for (size_t i = 0; i < n; i++) v[i] = mpz_getlimbn(M(*this), i);
  return v;
}
std::string Z::text(int base) const {
  char *p = mpz_get_str(nullptr, base, M(*this));
  std::string s(p);
  free(p);
  return s;
}
uint64_t Z::low() const { return mpz_get_ui(M(*this)); }
int Z::sgn() const { return mpz_sgn(M(*this)); }
size_t Z::bits() const { return sgn() == 0 ? 0 : mpz_sizeinbase(M(*this), 2); }
bool Z::bit(size_t i) const { return mpz_tstbit(M(*this), i); }
Z Z::abs() const {
  Z r;
  mpz_abs(M(r), M(*this));
  return r;
}
Z Z::operator-() const {
  Z r;
  mpz_neg(M(r), M(*this));
  return r;
}
Z Z::operator~() const {
  Z r;
  mpz_com(M(r), M(*this));
  return r;
}
Z Z::operator<<(size_t n) const {
  Z r;
  mpz_mul_2exp(M(r), M(*this), n);
  return r;
}
Z Z::operator>>(size_t n) const {
  Z r;
  mpz_fdiv_q_2exp(M(r), M(*this), n);
  return r;
}

#define BINOP(name, fn)                   \
  Z name(const Z &a, const Z &b) {        \
    Z r;                                  \
    fn(M(r), M(a), M(b));                 \
    return r;                             \
  }
BINOP(operator+, mpz_add)
BINOP(operator-, mpz_sub)
BINOP(operator*, mpz_mul)
BINOP(operator&, mpz_and)
BINOP(operator|, mpz_ior)
BINOP(operator^, mpz_xor)
BINOP(operator%, mpz_mod)
BINOP(tdiv, mpz_tdiv_q)
BINOP(trem, mpz_tdiv_r)
BINOP(fdiv, mpz_fdiv_q)
BINOP(gcdz, mpz_gcd)
BINOP(lcmz, mpz_lcm)

static inline int norm(int c) { return (c > 0) - (c < 0); }
int cmp(const Z &a, const Z &b) { return norm(mpz_cmp(M(a), M(b))); }
int cmpabs(const Z &a, const Z &b) { return norm(mpz_cmpabs(M(a), M(b))); }

void mulmod(Z &r, const Z &a, const Z &b, const Z &m) {
  mpz_mul(M(r), M(a), M(b));
  mpz_mod(M(r), M(r), M(m));
}
void submod(Z &r, const Z &a, const Z &b, const Z &m) {
  mpz_sub(M(r), M(a), M(b));
  if (mpz_sgn(M(r)) < 0) mpz_add(M(r), M(r), M(m));
}
void addmod(Z &r, const Z &a, const Z &b, const Z &m) {
  mpz_add(M(r), M(a), M(b));
  if (mpz_cmp(M(r), M(m)) >= 0) mpz_sub(M(r), M(r), M(m));
}

Z ediv(const Z &a, const Z &b) {
  Z r;
  if (b.sgn() > 0)
    mpz_fdiv_q(M(r), M(a), M(b));
  else
    mpz_cdiv_q(M(r), M(a), M(b));
  return r;
}
Z powi(const Z &a, unsigned long e) {
  Z r;
  mpz_pow_ui(M(r), M(a), e);
  return r;
}
Z powm(const Z &a, const Z &e, const Z &m) {
  Z r;
  mpz_powm(M(r), M(a), M(e), M(m));
  return r;
}
bool inv(Z &r, const Z &a, const Z &m) { return mpz_invert(M(r), M(a), M(m)) != 0; }
Z invz(const Z &a, const Z &m) {
  Z r;
  if (mpz_sgn(M(a)) == 0 || !mpz_invert(M(r), M(a), M(m))) return Z();
  return r;
}
int kron(const Z &a, const Z &b) { return mpz_kronecker(M(a), M(b)); }
Z isqrt(const Z &a) {
  Z r;
  mpz_sqrt(M(r), M(a));
  return r;
}
Z iroot(const Z &a, unsigned long k, bool *exact) {
  Z r;
  bool e = mpz_root(M(r), M(a), k) != 0;
  if (exact) *exact = e;
  return r;
}
bool perfect_power(const Z &a) { return mpz_perfect_power_p(M(a)) != 0; }
bool perfect_square(const Z &a) { return mpz_perfect_square_p(M(a)) != 0; }
size_t removez(Z &r, const Z &a, const Z &f) { return mpz_remove(M(r), M(a), M(f)); }
Z factorial(unsigned long n) {
  Z r;
  mpz_fac_ui(M(r), n);
  return r;
}
Z mfactorial(unsigned long n, unsigned long m) {
  Z r;
  mpz_mfac_uiui(M(r), n, m);
  return r;
}
Z primorial(unsigned long n) {
  Z r;
  mpz_primorial_ui(M(r), n);
  return r;
}
Z binomial(const Z &n, unsigned long k) {
  Z r;
  mpz_bin_ui(M(r), M(n), k);
  return r;
}
Z fibonacci(unsigned long n) {
  Z r;
  mpz_fib_ui(M(r), n);
  return r;
}
Z lucas(unsigned long n) {
  Z r;
  mpz_lucnum_ui(M(r), n);
  return r;
}
bool is_prime(const Z &a) { return a.sgn() > 0 && mpz_probab_prime_p(M(a), 30) != 0; }
Z next_prime(const Z &a) {
  Z r;
  if (a < Z(2)) return Z(2);
  mpz_nextprime(M(r), M(a));
  return r;
}
size_t popcount(const Z &a) { return mpz_popcount(M(a)); }
size_t scan1(const Z &a, size_t from, bool *none) {
  mp_bitcnt_t r = mpz_scan1(M(a), from);
  *none = r == ~(mp_bitcnt_t)0;
  return r;
}
size_t scan0(const Z &a, size_t from, bool *none) {
  mp_bitcnt_t r = mpz_scan0(M(a), from);
  *none = r == ~(mp_bitcnt_t)0;
  return r;
}

// Tonelli-Shanks, for any odd prime.
bool sqrtmod(Z &r, const Z &a0, const Z &p) {
  Z a = a0 % p;
  if (a.zero()) {
    r = Z();
    return true;
  }
  if (kron(a, p) != 1) return false;
  if (p.bit(1)) {
    r = powm(a, (p + Z(1)) >> 2, p);
    return true;
  }
  Z q = p - Z(1);
  size_t s = 0;
  while (!q.odd()) {
    q = q >> 1;
    s++;
  }
  Z n(2);
  while (kron(n, p) != -1) n = n + Z(1);
  Z c = powm(n, q, p), x = powm(a, (q + Z(1)) >> 1, p), t = powm(a, q, p);
  size_t m = s;
  while (t != Z(1)) {
    size_t i = 0;
    Z u = t;
    while (u != Z(1)) {
      mulmod(u, u, u, p);
      i++;
    }
    Z b = c;
    for (size_t j = 0; j + i + 1 < m; j++) mulmod(b, b, b, p);
    mulmod(x, x, b, p);
    mulmod(c, b, b, p);
    mulmod(t, t, c, p);
    m = i;
  }
  r = x;
  return true;
}

bool strong_prp(const Z &n, const Z &b) {
  Z n1 = n - Z(1), d = n1, one(1);
  size_t s = 0;
  while (!d.odd()) {
    d = d >> 1;
    s++;
  }
  Z x = powm(b, d, n);
  if (x == one || x == n1) return true;
  for (size_t i = 1; i < s; i++) {
    mulmod(x, x, x, n);
    if (x == n1) return true;
  }
  return false;
}

int xs_lucas(const Z &n, unsigned long limit) {
  unsigned long p = 3;
  for (;; p++) {
    if (limit && p > limit) return -1;
    Z d = Z((long)(p * p - 4));
    int j = kron(d, n);
    if (j == -1) break;
    if (j == 0) return is_prime(n);  // n shares a factor with D: prime only if it is that factor
    if (p == 50 && perfect_square(n)) return 0;
  }
  // (U, V) with parameters (P, 1) by the doubling formulas, most significant bit
  // first, from the definition U_{k+1} = (P U_k + V_k)/2, V_{k+1} = (D U_k + P V_k)/2.
  Z D((long)(p * p - 4)), P((long)p), one(1), two(2), half = (n + one) >> 1;
  Z k = n + one;
  size_t r = 0;
  while (!k.odd()) {
    k = k >> 1;
    r++;
  }
  Z U(0), V(2);
  for (size_t i = k.bits(); i-- > 0;) {
    U = (U * V) % n;
    V = (V * V - two) % n;
    if (k.bit(i)) {
      Z u = ((P * U + V) * half) % n;
      V = ((D * U + P * V) * half) % n;
      U = u;
    }
  }
  if (U.zero() && (V == two % n || V == (n - two) % n)) return 1;
  for (size_t t = 0; t + 1 < r; t++) {
    if (V.zero()) return 1;
    V = (V * V - two) % n;
  }
  return 0;
}

}  // namespace ref
