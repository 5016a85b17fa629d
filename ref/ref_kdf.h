// Reference DRBGs (SP 800-90A), key derivation functions and bcrypt.
#pragma once
#include "ref_hash.h"

namespace ref {
struct HmacDrbg {
  std::string h; Bytes K, V;
  HmacDrbg(const std::string &hash, const Bytes &seed);
  void update(const Bytes &data);
  void reseed(const Bytes &seed) { update(seed); }
  Bytes generate(size_t n, const Bytes &add);
};
struct HashDrbg {
  std::string h; size_t seedlen; Bytes V, C; uint64_t counter;
  HashDrbg(const std::string &hash, const Bytes &seed);
  Bytes df(const Bytes &in, size_t n) const;
  void set(const Bytes &seed);
  void reseed(const Bytes &seed);
  Bytes generate(size_t n, const Bytes &add);
};
struct CtrDrbg {
  size_t klen; bool use_df; Bytes K, V;
  CtrDrbg(unsigned bits, bool df, const Bytes &entropy, const Bytes &pers);
  size_t seedlen() const { return klen + 16; }
  Bytes df(const Bytes &in) const;
  Bytes block(const Bytes &key, const Bytes &in) const;
  Bytes stream(size_t n);
  void update(Bytes data);
  Bytes condition(const Bytes &entropy, const Bytes &add) const;
  void reseed(const Bytes &entropy, const Bytes &add);
  Bytes generate(size_t n, const Bytes &add);
};

Bytes pbkdf2(const std::string &h, const Bytes &pass, const Bytes &salt, uint32_t iter, size_t len);
Bytes ref_hkdf_extract(const std::string &h, const Bytes &ikm, const Bytes &salt);
Bytes ref_hkdf_expand(const std::string &h, const Bytes &prk, const Bytes &info, size_t len);
bool scrypt(const Bytes &pass, const Bytes &salt, uint64_t N, uint64_t r, uint64_t p, size_t len, Bytes &out);
Bytes bytes_to_key(const std::string &h, const Bytes &pass, const Bytes &salt, size_t len);
Bytes s2k(const std::string &h, const Bytes &pass, const Bytes &salt, size_t count, size_t len);

// bcrypt of an already prepared key (terminating zero included).
Bytes bcrypt_raw(const Bytes &key, const Bytes &salt, unsigned cost);
Bytes bcrypt_key(const Bytes &pass, char minor);
std::string bcrypt_record(const Bytes &pass, const Bytes &salt, unsigned cost, char minor);
std::string bcrypt_b64(const Bytes &b);
Bytes ref_bcrypt_pbkdf(const Bytes &pass, const Bytes &salt, unsigned rounds, size_t len);
}
