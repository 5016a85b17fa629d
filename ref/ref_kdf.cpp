#define OPENSSL_SUPPRESS_DEPRECATED
#include "ref_kdf.h"
#include <gmp.h>
#include <openssl/aes.h>
#include <openssl/evp.h>
#include <cstring>

namespace ref {

// ------------------------------------------------------------------ DRBG

HmacDrbg::HmacDrbg(const std::string &hash, const Bytes &seed) : h(hash) {
  size_t n = hash_info(h).out;
  K.assign(n, 0);
  V.assign(n, 1);
  update(seed);
}
void HmacDrbg::update(const Bytes &data) {
  K = hmac(h, K, cat(V, Bytes{0}, data));
  V = hmac(h, K, V);
  if (data.empty()) return;
  K = hmac(h, K, cat(V, Bytes{1}, data));
  V = hmac(h, K, V);
}
Bytes HmacDrbg::generate(size_t n, const Bytes &add) {
  if (!add.empty()) update(add);
  Bytes out;
  while (out.size() < n) { V = hmac(h, K, V); out = cat(out, V); }
  out.resize(n);
  update(add);
  return out;
}

static void add_be(Bytes &a, const Bytes &b) { // a += b mod 2^(8|a|)
  unsigned c = 0;
  for (size_t i = 0; i < a.size(); i++) {
    c += a[a.size() - 1 - i];
    if (i < b.size()) c += b[b.size() - 1 - i];
    a[a.size() - 1 - i] = (uint8_t)c;
    c >>= 8;
  }
}
HashDrbg::HashDrbg(const std::string &hash, const Bytes &seed) : h(hash) {
  seedlen = hash_info(h).out <= 32 ? 55 : 111;
  set(df(seed, seedlen));
}
Bytes HashDrbg::df(const Bytes &in, size_t n) const {
  Bytes out;
  for (uint8_t i = 1; out.size() < n; i++) out = cat(out, ref::hash(h, cat(Bytes{i}, be(n * 8, 4), in)));
  out.resize(n);
  return out;
}
void HashDrbg::set(const Bytes &seed) {
  V = seed;
  C = df(cat(Bytes{0}, V), seedlen);
  counter = 1;
}
void HashDrbg::reseed(const Bytes &seed) { set(df(cat(Bytes{1}, V, seed), seedlen)); }
Bytes HashDrbg::generate(size_t n, const Bytes &add) {
  if (!add.empty()) add_be(V, ref::hash(h, cat(Bytes{2}, V, add)));
  Bytes data = V, out;
  while (out.size() < n) { out = cat(out, ref::hash(h, data)); add_be(data, Bytes{1}); }
  out.resize(n);
  Bytes H = ref::hash(h, cat(Bytes{3}, V));
  add_be(V, H);
  add_be(V, C);
  add_be(V, be(counter, 8));
  counter++;
  return out;
}

Bytes CtrDrbg::block(const Bytes &key, const Bytes &in) const {
  AES_KEY k;
  AES_set_encrypt_key(key.data(), (int)klen * 8, &k);
  Bytes out(16);
  AES_encrypt(in.data(), out.data(), &k);
  return out;
}
Bytes CtrDrbg::df(const Bytes &in) const {
  Bytes S = cat(be(in.size(), 4), be(seedlen(), 4), in);
  S.push_back(0x80);
  while (S.size() % 16) S.push_back(0);
  Bytes k0(klen);
  for (size_t i = 0; i < klen; i++) k0[i] = (uint8_t)i;
  auto bcc = [&](const Bytes &data) {
    Bytes c(16, 0);
    for (size_t i = 0; i < data.size(); i += 16) { for (int j = 0; j < 16; j++) c[j] ^= data[i + j]; c = block(k0, c); }
    return c;
  };
  Bytes temp;
  for (uint32_t i = 0; temp.size() < klen + 16; i++) { Bytes iv = be(i, 4); iv.resize(16, 0); temp = cat(temp, bcc(cat(iv, S))); }
  Bytes key = sub(temp, 0, klen), X = sub(temp, klen, 16), out;
  while (out.size() < seedlen()) { X = block(key, X); out = cat(out, X); }
  out.resize(seedlen());
  return out;
}
Bytes CtrDrbg::stream(size_t n) {
  Bytes out;
  while (out.size() < n) { add_be(V, Bytes{1}); out = cat(out, block(K, V)); }
  out.resize(n);
  return out;
}
void CtrDrbg::update(Bytes data) {
  data.resize(seedlen(), 0);
  Bytes t = stream(seedlen());
  for (size_t i = 0; i < t.size(); i++) t[i] ^= data[i];
  K = sub(t, 0, klen);
  V = sub(t, klen, 16);
}
Bytes CtrDrbg::condition(const Bytes &entropy, const Bytes &add) const {
  if (use_df) return df(cat(entropy, add));
  Bytes e(entropy), a(add);
  e.resize(seedlen(), 0);
  a.resize(seedlen(), 0);
  for (size_t i = 0; i < e.size(); i++) e[i] ^= a[i];
  return e;
}
CtrDrbg::CtrDrbg(unsigned bits, bool d, const Bytes &entropy, const Bytes &pers) : klen(bits / 8), use_df(d), K(klen, 0), V(16, 0) {
  update(condition(entropy, pers));
}
void CtrDrbg::reseed(const Bytes &entropy, const Bytes &add) { update(condition(entropy, add)); }
Bytes CtrDrbg::generate(size_t n, const Bytes &add0) {
  Bytes add;
  if (!add0.empty()) { add = use_df ? df(add0) : add0; update(add); }
  Bytes out = stream((n + 15) / 16 * 16);
  out.resize(n);
  update(add);
  return out;
}

// ------------------------------------------------------------------ KDF

Bytes pbkdf2(const std::string &h, const Bytes &pass, const Bytes &salt, uint32_t iter, size_t len) {
  Bytes out;
  for (uint32_t i = 1; out.size() < len; i++) {
    Bytes u = hmac(h, pass, cat(salt, be(i, 4))), t = u;
    for (uint32_t j = 1; j < iter; j++) { u = hmac(h, pass, u); for (size_t k = 0; k < t.size(); k++) t[k] ^= u[k]; }
    out = cat(out, t);
  }
  out.resize(len);
  return out;
}
Bytes ref_hkdf_extract(const std::string &h, const Bytes &ikm, const Bytes &salt) {
  return hmac(h, salt.empty() ? Bytes(hash_info(h).out, 0) : salt, ikm);
}
Bytes ref_hkdf_expand(const std::string &h, const Bytes &prk, const Bytes &info, size_t len) {
  Bytes out, t;
  for (unsigned i = 1; out.size() < len; i++) { t = hmac(h, prk, cat(t, info, Bytes{(uint8_t)i})); out = cat(out, t); }
  out.resize(len);
  return out;
}
bool scrypt(const Bytes &pass, const Bytes &salt, uint64_t N, uint64_t r, uint64_t p, size_t len, Bytes &out) {
  out.assign(len + 1, 0);
  int ok = EVP_PBE_scrypt((const char *)pass.data(), pass.size(), salt.data(), salt.size(), N, r, p, 1ull << 31, out.data(), len);
  out.resize(len);
  return ok == 1;
}
Bytes bytes_to_key(const std::string &h, const Bytes &pass, const Bytes &salt, size_t len) {
  Bytes out, d;
  while (out.size() < len) { d = hash(h, cat(d, pass, salt)); out = cat(out, d); }
  out.resize(len);
  return out;
}
Bytes s2k(const std::string &h, const Bytes &pass, const Bytes &salt, size_t count, size_t len) {
  Bytes unit = cat(salt, pass), out;
  if (count < unit.size()) count = unit.size();
  for (size_t z = 0; out.size() < len; z++) {
    Bytes m(z, 0);
    for (size_t i = 0; i < count; i++) m.push_back(unit[i % unit.size()]);
    out = cat(out, hash(h, m));
  }
  out.resize(len);
  return out;
}

// ------------------------------------------------------------------ bcrypt

// Blowfish's initial subkeys are the fractional hexadecimal digits of pi.
static const uint32_t *pi_words() {
  static uint32_t w[18 + 1024];
  static bool done = false;
  if (done) return w;
  const unsigned long bits = 32 * (18 + 1024), guard = 256;
  mpz_t one, sum;
  mpz_inits(one, sum, NULL);
  mpz_setbit(one, bits + guard);
  auto arctan = [&](unsigned long x, mpz_t r) { // one * atan(1/x)
    mpz_t t, q;
    mpz_inits(t, q, NULL);
    mpz_tdiv_q_ui(t, one, x);
    mpz_set(r, t);
    for (unsigned long k = 3, s = 1; mpz_sgn(t); k += 2, s ^= 1) {
      mpz_tdiv_q_ui(t, t, x * x);
      mpz_tdiv_q_ui(q, t, k);
      if (s) mpz_sub(r, r, q); else mpz_add(r, r, q);
    }
    mpz_clears(t, q, NULL);
  };
  mpz_t a, b;
  mpz_inits(a, b, NULL);
  arctan(5, a);
  arctan(239, b);
  mpz_mul_ui(a, a, 16);
  mpz_mul_ui(b, b, 4);
  mpz_sub(sum, a, b);
  mpz_mul_ui(a, one, 3);
  mpz_sub(sum, sum, a);
  mpz_tdiv_q_2exp(sum, sum, guard);
  for (int i = 18 + 1024 - 1; i >= 0; i--) { w[i] = (uint32_t)mpz_fdiv_ui(sum, 1ul << 32); mpz_tdiv_q_2exp(sum, sum, 32); }
  mpz_clears(a, b, one, sum, NULL);
  done = true;
  return w;
}

namespace {
struct Bf {
  uint32_t P[18], S[4][256];
  Bf() { memcpy(P, pi_words(), sizeof P); memcpy(S, pi_words() + 18, sizeof S); }
  uint32_t F(uint32_t x) const { return ((S[0][x >> 24] + S[1][(x >> 16) & 255]) ^ S[2][(x >> 8) & 255]) + S[3][x & 255]; }
  void enc(uint32_t &l, uint32_t &r) const {
    for (int i = 0; i < 16; i++) { l ^= P[i]; r ^= F(l); std::swap(l, r); }
    std::swap(l, r);
    r ^= P[16];
    l ^= P[17];
  }
  static uint32_t word(const Bytes &d, size_t &off) {
    uint32_t w = 0;
    for (int i = 0; i < 4; i++) { w = (w << 8) | d[off]; off = (off + 1) % d.size(); }
    return w;
  }
  void expand(const Bytes &salt, const Bytes &key) {
    size_t o = 0;
    for (auto &p : P) p ^= word(key, o);
    uint32_t l = 0, r = 0;
    o = 0;
    auto step = [&](uint32_t *d) {
      if (!salt.empty()) { l ^= word(salt, o); r ^= word(salt, o); }
      enc(l, r);
      d[0] = l;
      d[1] = r;
    };
    for (int i = 0; i < 18; i += 2) step(P + i);
    for (auto &s : S) for (int i = 0; i < 256; i += 2) step(s + i);
  }
};
}

Bytes bcrypt_key(const Bytes &pass, char minor) {
  Bytes k(pass);
  k.push_back(0);
  if (minor == 'a') {
    size_t n = k.size() & 0xff; // the length lived in a byte
    if (n == 0) n = 1;          // and an empty key still cycles on its first byte
    k.resize(n);
  } else if (k.size() > 73) k.resize(73);
  if (k.size() > 72) k.resize(72);
  return k;
}
Bytes bcrypt_raw(const Bytes &key, const Bytes &salt, unsigned cost) {
  Bf s;
  s.expand(salt, key);
  for (uint64_t i = 0; i < (1ull << cost); i++) { s.expand({}, key); s.expand({}, salt); }
  Bytes text = str("OrpheanBeholderScryDoubt"), out;
  size_t o = 0;
  for (int i = 0; i < 6; i += 2) {
    uint32_t l = Bf::word(text, o), r = Bf::word(text, o);
    for (int j = 0; j < 64; j++) s.enc(l, r);
    out = cat(out, be(l, 4), be(r, 4));
  }
  out.resize(23);
  return out;
}
std::string bcrypt_b64(const Bytes &b) {
  static const char *cs = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
  std::string s;
  for (size_t bit = 0; bit < b.size() * 8; bit += 6) {
    unsigned v = 0;
    for (size_t k = bit; k < bit + 6; k++) v = v * 2 + (k / 8 < b.size() ? (b[k / 8] >> (7 - k % 8)) & 1 : 0);
    s += cs[v];
  }
  return s;
}
std::string bcrypt_record(const Bytes &pass, const Bytes &salt, unsigned cost, char minor) {
  char head[16];
  snprintf(head, sizeof head, "$2%c$%02u$", minor, cost);
  return head + bcrypt_b64(salt) + bcrypt_b64(bcrypt_raw(bcrypt_key(pass, minor), salt, cost));
}
static Bytes bhash(const Bytes &sp, const Bytes &ss) {
  Bf s;
  s.expand(ss, sp);
  for (int i = 0; i < 64; i++) { s.expand({}, ss); s.expand({}, sp); }
  Bytes text = str("OxychromaticBlowfishSwatDynamite"), out;
  size_t o = 0;
  for (int i = 0; i < 8; i += 2) {
    uint32_t l = Bf::word(text, o), r = Bf::word(text, o);
    for (int j = 0; j < 64; j++) s.enc(l, r);
    out = cat(out, le(l, 4), le(r, 4));
  }
  return out;
}
Bytes ref_bcrypt_pbkdf(const Bytes &pass, const Bytes &salt, unsigned rounds, size_t len) {
  size_t stride = (len + 31) / 32;
  Bytes out(len), sp = hash("sha512", pass);
  for (size_t c = 1; c <= stride; c++) {
    Bytes t = bhash(sp, hash("sha512", cat(salt, be(c, 4)))), acc = t;
    for (unsigned i = 1; i < rounds; i++) { t = bhash(sp, hash("sha512", t)); for (int k = 0; k < 32; k++) acc[k] ^= t[k]; }
    for (size_t i = 0; i < 32; i++) if (i * stride + c - 1 < len) out[i * stride + c - 1] = acc[i];
  }
  return out;
}
}
