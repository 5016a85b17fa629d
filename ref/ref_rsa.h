// Reference model of RSA (RFC 8017) and of the DER and flat key encodings,
// written on plain integer arithmetic.
#pragma once
#include "ref_hash.h"
#include "ref_int.h"

namespace ref {

// Encodings ------------------------------------------------------------------
Bytes der_size(size_t n);
Bytes der_tlv(int tag, const Bytes &body);
Bytes der_uint(const Z &z);  // the whole INTEGER
Bytes der_ints(const std::vector<Z> &v, bool version);  // SEQUENCE { [0], v... }
Bytes flat_ints(const std::vector<Z> &v);  // 16-bit length, bytes
// Accepts exactly the DER of count non-negative integers of at most 2048 bytes.
bool der_parse(std::vector<Z> &v, const Bytes &in, size_t count, bool version);
bool flat_parse(std::vector<Z> &v, const Bytes &in, size_t count);

// Keys -----------------------------------------------------------------------
struct RsaKey {
  Z n, e, d, p, q, dp, dq, qi;
  size_t klen() const { return (n.bits() + 7) / 8; }
  Z lam() const { return lcmz(p - Z(1), q - Z(1)); }
  Z phi() const { return (p - Z(1)) * (q - Z(1)); }
  std::vector<Z> all() const { return {n, e, d, p, q, dp, dq, qi}; }
  Bytes priv() const { return der_ints(all(), true); }
  Bytes pub() const { return der_ints({n, e}, false); }
  Z raw(const Z &m) const { return powm(m, e, n); }
  Z unraw(const Z &c) const;  // c^d mod n
};
RsaKey rsa_key(const std::vector<Z> &v);  // from all eight numbers
bool rsa_build(RsaKey &k, const Z &p, const Z &q, const Z &e);  // d is the inverse modulo lcm(p-1, q-1)
bool rsa_priv_ok(const RsaKey &k);
bool rsa_pub_ok(const Z &n, const Z &e);

// Key number i of the pool with that modulus size; the same on every call.
// Variants: both primes 3 mod 4, primes 1 modulo a high power of two, primes of
// unequal size, and every kind of exponent.
const RsaKey &rsa_pool(size_t bits, unsigned i);
const unsigned rsa_pool_size = 6;

// Encoded messages ------------------------------------------------------------
Bytes digest_info(const std::string &hash);  // the DER before the digest; empty for hashes without an identifier
Bytes pkcs1_sig(const Bytes &prefix, const Bytes &digest, size_t klen);  // empty if it does not fit
Bytes mgf1(const std::string &hash, const Bytes &seed, size_t n);
Bytes xorb(const Bytes &a, const Bytes &b);  // in ref_cipher.cpp
Bytes pss_encode(const std::string &hash, const Bytes &digest, const Bytes &salt, size_t embits);
// Salt length of a correct encoding, or -1.
long pss_salt(const std::string &hash, const Bytes &digest, const Bytes &em, size_t embits);
Bytes oaep_encode(const std::string &hash, const Bytes &msg, const Bytes &label, const Bytes &seed, size_t klen);

}  // namespace ref
