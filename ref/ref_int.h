// Arbitrary-precision integers for the reference models, backed by GMP. The
// header mentions neither GMP nor the library under test, because their names
// collide.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

using Bytes = std::vector<uint8_t>;

class Z {
  alignas(8) unsigned char s_[16];

 public:
  Z();
  Z(long v);
  Z(int v) : Z((long)v) {}
  Z(const Z &o);
  Z(Z &&o) noexcept;
  ~Z();
  Z &operator=(const Z &o);
  Z &operator=(Z &&o) noexcept;
  void *raw() { return s_; }
  const void *raw() const { return s_; }

  static Z u64(uint64_t v);
  static Z be(const Bytes &b);
  static Z le(const Bytes &b);
  static Z be(const uint8_t *p, size_t n);
  static Z le(const uint8_t *p, size_t n);
  static Z limbs(const uint64_t *p, size_t n, bool neg = false);
  static Z hex(const char *s);
  static Z str(const std::string &s, int base);
  static Z pow2(size_t n);

  Bytes to_be(size_t n) const;  // low n bytes of |x|
  Bytes to_le(size_t n) const;
  std::vector<uint64_t> to_limbs() const;  // |x|, no leading zeros
  std::string text(int base = 16) const;
  uint64_t low() const;  // low word of |x|
  int sgn() const;
  size_t bits() const;  // of |x|; 0 for 0
  bool bit(size_t i) const;  // two's complement
  bool odd() const { return bit(0); }
  bool zero() const { return sgn() == 0; }
  Z abs() const;

  Z operator-() const;
  Z operator~() const;
  Z operator<<(size_t n) const;
  Z operator>>(size_t n) const;  // floor
};

Z operator+(const Z &a, const Z &b);
Z operator-(const Z &a, const Z &b);
Z operator*(const Z &a, const Z &b);
Z operator&(const Z &a, const Z &b);
Z operator|(const Z &a, const Z &b);
Z operator^(const Z &a, const Z &b);
Z operator%(const Z &a, const Z &m);  // least non-negative residue mod |m|
int cmp(const Z &a, const Z &b);
inline bool operator==(const Z &a, const Z &b) { return cmp(a, b) == 0; }
inline bool operator!=(const Z &a, const Z &b) { return cmp(a, b) != 0; }
inline bool operator<(const Z &a, const Z &b) { return cmp(a, b) < 0; }
inline bool operator<=(const Z &a, const Z &b) { return cmp(a, b) <= 0; }
inline bool operator>(const Z &a, const Z &b) { return cmp(a, b) > 0; }
inline bool operator>=(const Z &a, const Z &b) { return cmp(a, b) >= 0; }
int cmpabs(const Z &a, const Z &b);

void mulmod(Z &r, const Z &a, const Z &b, const Z &m);  // r = a*b mod m, in place
void submod(Z &r, const Z &a, const Z &b, const Z &m);  // operands in [0, m)
void addmod(Z &r, const Z &a, const Z &b, const Z &m);

Z tdiv(const Z &a, const Z &b);
Z trem(const Z &a, const Z &b);
Z fdiv(const Z &a, const Z &b);
Z ediv(const Z &a, const Z &b);  // Euclidean quotient: a = q*b + r, 0 <= r < |b|
Z powi(const Z &a, unsigned long e);
Z powm(const Z &a, const Z &e, const Z &m);  // e >= 0
bool inv(Z &r, const Z &a, const Z &m);
Z invz(const Z &a, const Z &m);  // 0 when there is none
Z gcdz(const Z &a, const Z &b);
Z lcmz(const Z &a, const Z &b);
int kron(const Z &a, const Z &b);
Z isqrt(const Z &a);
Z iroot(const Z &a, unsigned long k, bool *exact);  // truncated toward zero
bool perfect_power(const Z &a);
bool perfect_square(const Z &a);
size_t removez(Z &r, const Z &a, const Z &f);
Z factorial(unsigned long n);
Z mfactorial(unsigned long n, unsigned long m);
Z primorial(unsigned long n);
Z binomial(const Z &n, unsigned long k);
Z fibonacci(unsigned long n);
Z lucas(unsigned long n);
bool is_prime(const Z &a);  // 30 rounds
Z next_prime(const Z &a);
bool sqrtmod(Z &r, const Z &a, const Z &p);  // p an odd prime; r one of the roots
size_t popcount(const Z &a);  // a >= 0
size_t scan1(const Z &a, size_t from, bool *none);
size_t scan0(const Z &a, size_t from, bool *none);

// Strong probable prime to base b; extra strong Lucas test with the least P >= 3
// for which (P^2-4 / n) = -1. Both for odd n > 2.
bool strong_prp(const Z &n, const Z &b);
int xs_lucas(const Z &n, unsigned long limit);  // -1: no P up to the limit

}  // namespace ref
