#define OPENSSL_SUPPRESS_DEPRECATED
#include "ref_cipher.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <openssl/aes.h>
#include <openssl/blowfish.h>
#include <openssl/camellia.h>
#include <openssl/cast.h>
#include <openssl/des.h>
#include <openssl/evp.h>
#include <openssl/rc2.h>
#include <openssl/rc4.h>

namespace ref {

class Aes : public BlockCipher {
 public:
  explicit Aes(const Bytes &k) { AES_set_encrypt_key(k.data(), k.size() * 8, &e_); AES_set_decrypt_key(k.data(), k.size() * 8, &d_); }
  size_t size() const override { return 16; }
  void enc(const uint8_t *i, uint8_t *o) const override { AES_encrypt(i, o, &e_); }
  void dec(const uint8_t *i, uint8_t *o) const override { AES_decrypt(i, o, &d_); }
  AES_KEY e_, d_;
};

class Rc2 : public BlockCipher {
 public:
  Rc2(const Bytes &k, unsigned bits) { RC2_set_key(&k_, (int)k.size(), k.data(), (int)bits); }
  size_t size() const override { return 8; }
  void enc(const uint8_t *i, uint8_t *o) const override { RC2_ecb_encrypt(i, o, const_cast<RC2_KEY *>(&k_), RC2_ENCRYPT); }
  void dec(const uint8_t *i, uint8_t *o) const override { RC2_ecb_encrypt(i, o, const_cast<RC2_KEY *>(&k_), RC2_DECRYPT); }
  RC2_KEY k_;
};

class Blowfish : public BlockCipher {
 public:
  explicit Blowfish(const Bytes &k) { BF_set_key(&k_, (int)k.size(), k.data()); }
  size_t size() const override { return 8; }
  void enc(const uint8_t *i, uint8_t *o) const override { BF_ecb_encrypt(i, o, &k_, BF_ENCRYPT); }
  void dec(const uint8_t *i, uint8_t *o) const override { BF_ecb_encrypt(i, o, &k_, BF_DECRYPT); }
  BF_KEY k_;
};

class Camellia : public BlockCipher {
 public:
  explicit Camellia(const Bytes &k) { Camellia_set_key(k.data(), k.size() * 8, &k_); }
  size_t size() const override { return 16; }
  void enc(const uint8_t *i, uint8_t *o) const override { Camellia_encrypt(i, o, &k_); }
  void dec(const uint8_t *i, uint8_t *o) const override { Camellia_decrypt(i, o, &k_); }
  CAMELLIA_KEY k_;
};

class Cast5 : public BlockCipher {
 public:
  explicit Cast5(const Bytes &k) { CAST_set_key(&k_, (int)k.size(), k.data()); }
  size_t size() const override { return 8; }
  void enc(const uint8_t *i, uint8_t *o) const override { CAST_ecb_encrypt(i, o, &k_, CAST_ENCRYPT); }
  void dec(const uint8_t *i, uint8_t *o) const override { CAST_ecb_encrypt(i, o, &k_, CAST_DECRYPT); }
  CAST_KEY k_;
};

class Des : public BlockCipher {
 public:
  explicit Des(const Bytes &k) : n_(k.size() / 8) {
    for (size_t i = 0; i < n_; i++) {
      DES_cblock b;
      memcpy(b, k.data() + 8 * i, 8);
      DES_set_key_unchecked(&b, &k_[i]);
    }
    if (n_ == 2) { k_[2] = k_[0]; }
  }
  size_t size() const override { return 8; }
  void run(const uint8_t *i, uint8_t *o, int e) const {
    DES_cblock a, b;
    memcpy(a, i, 8);
    if (n_ == 1) DES_ecb_encrypt(&a, &b, const_cast<DES_key_schedule *>(&k_[0]), e);
    else DES_ecb3_encrypt(&a, &b, const_cast<DES_key_schedule *>(&k_[0]), const_cast<DES_key_schedule *>(&k_[1]),
                          const_cast<DES_key_schedule *>(&k_[2]), e);
    memcpy(o, b, 8);
  }
  void enc(const uint8_t *i, uint8_t *o) const override { run(i, o, DES_ENCRYPT); }
  void dec(const uint8_t *i, uint8_t *o) const override { run(i, o, DES_DECRYPT); }
  size_t n_;
  DES_key_schedule k_[3];
};

class Idea : public BlockCipher {
 public:
  explicit Idea(const Bytes &key) {
    // 52 subkeys: the 128-bit key rotated left by 25 bits after every eight.
    for (int i = 0; i < 52; i++) {
      int rot = 25 * (i / 8), w = i % 8;
      unsigned v = 0;
      for (int b = 0; b < 16; b++) {
        int pos = (w * 16 + b + rot) % 128;
        v = v << 1 | ((key[pos / 8] >> (7 - pos % 8)) & 1);
      }
      ek_[i] = (uint16_t)v;
    }
    for (int r = 0; r < 9; r++) {
      // decryption subkeys of round r come from encryption round 8-r
      uint16_t *d = dk_ + 6 * r;
      const uint16_t *e = ek_ + 6 * (8 - r);
      d[0] = inv(e[0]);
      d[3] = inv(e[3]);
      bool edge = r == 0 || r == 8;
      d[1] = (uint16_t)-e[edge ? 1 : 2];
      d[2] = (uint16_t)-e[edge ? 2 : 1];
      if (r < 8) { d[4] = ek_[6 * (7 - r) + 4]; d[5] = ek_[6 * (7 - r) + 5]; }
    }
  }
  size_t size() const override { return 8; }
  static uint16_t mul(uint16_t a, uint16_t b) {
    uint64_t x = a ? a : 65536, y = b ? b : 65536;
    return (uint16_t)(x * y % 65537);
  }
  static uint16_t inv(uint16_t a) { // a^(65537-2)
    uint64_t x = a ? a : 65536, r = 1;
    for (int e = 65535; e; e >>= 1) { if (e & 1) r = r * x % 65537; x = x * x % 65537; }
    return (uint16_t)r;
  }
  static void run(const uint16_t *k, const uint8_t *in, uint8_t *out) {
    uint16_t x[4];
    for (int i = 0; i < 4; i++) x[i] = (uint16_t)(in[2 * i] << 8 | in[2 * i + 1]);
    for (int r = 0; r < 8; r++, k += 6) {
      uint16_t a = mul(x[0], k[0]), b = (uint16_t)(x[1] + k[1]), c = (uint16_t)(x[2] + k[2]), d = mul(x[3], k[3]);
      uint16_t e = mul(a ^ c, k[4]);
      uint16_t f = mul((uint16_t)((b ^ d) + e), k[5]);
      e = (uint16_t)(e + f);
      x[0] = a ^ f; x[1] = c ^ f; x[2] = b ^ e; x[3] = d ^ e;
    }
    uint16_t y[4] = {mul(x[0], k[0]), (uint16_t)(x[2] + k[1]), (uint16_t)(x[1] + k[2]), mul(x[3], k[3])};
    for (int i = 0; i < 4; i++) { out[2 * i] = (uint8_t)(y[i] >> 8); out[2 * i + 1] = (uint8_t)y[i]; }
  }
  void enc(const uint8_t *i, uint8_t *o) const override { run(ek_, i, o); }
  void dec(const uint8_t *i, uint8_t *o) const override { run(dk_, i, o); }
  uint16_t ek_[54], dk_[54];
};

static uint32_t rol32(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }

class Serpent : public BlockCipher {
  static const uint8_t S[8][16];
 public:
  explicit Serpent(const Bytes &key) {
    Bytes k(key);
    if (k.size() < 32) { k.push_back(1); k.resize(32, 0); }
    uint32_t w[140];
    for (int i = 0; i < 8; i++) w[i] = k[4 * i] | k[4 * i + 1] << 8 | k[4 * i + 2] << 16 | (uint32_t)k[4 * i + 3] << 24;
    for (int i = 8; i < 140; i++) w[i] = rol32(w[i - 8] ^ w[i - 5] ^ w[i - 3] ^ w[i - 1] ^ 0x9e3779b9u ^ (uint32_t)(i - 8), 11);
    for (int i = 0; i < 33; i++) {
      for (int j = 0; j < 4; j++) k_[i][j] = w[8 + 4 * i + j];
      sbox(S[(3 - i) & 7], k_[i]);
    }
    for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++) IS[i][S[i][j]] = (uint8_t)j;
  }
  size_t size() const override { return 16; }
  static void sbox(const uint8_t *s, uint32_t x[4]) {
    uint32_t y[4] = {0, 0, 0, 0};
    for (int b = 0; b < 32; b++) {
      unsigned v = ((x[0] >> b) & 1) | ((x[1] >> b) & 1) << 1 | ((x[2] >> b) & 1) << 2 | ((x[3] >> b) & 1) << 3;
      v = s[v];
      for (int j = 0; j < 4; j++) y[j] |= ((v >> j) & 1u) << b;
    }
    memcpy(x, y, 16);
  }
  void enc(const uint8_t *in, uint8_t *out) const override {
    uint32_t x[4];
    ld(in, x);
    for (int r = 0; r < 32; r++) {
      for (int j = 0; j < 4; j++) x[j] ^= k_[r][j];
      sbox(S[r & 7], x);
      if (r < 31) {
        x[0] = rol32(x[0], 13); x[2] = rol32(x[2], 3);
        x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
        x[1] = rol32(x[1], 1); x[3] = rol32(x[3], 7);
        x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7);
        x[0] = rol32(x[0], 5); x[2] = rol32(x[2], 22);
      } else for (int j = 0; j < 4; j++) x[j] ^= k_[32][j];
    }
    st(x, out);
  }
  void dec(const uint8_t *in, uint8_t *out) const override {
    uint32_t x[4];
    ld(in, x);
    for (int r = 31; r >= 0; r--) {
      if (r == 31) { for (int j = 0; j < 4; j++) x[j] ^= k_[32][j]; }
      else {
        x[2] = rol32(x[2], 10); x[0] = rol32(x[0], 27);
        x[2] ^= x[3] ^ (x[1] << 7); x[0] ^= x[1] ^ x[3];
        x[3] = rol32(x[3], 25); x[1] = rol32(x[1], 31);
        x[3] ^= x[2] ^ (x[0] << 3); x[1] ^= x[0] ^ x[2];
        x[2] = rol32(x[2], 29); x[0] = rol32(x[0], 19);
      }
      sbox(IS[r & 7], x);
      for (int j = 0; j < 4; j++) x[j] ^= k_[r][j];
    }
    st(x, out);
  }
  static void ld(const uint8_t *p, uint32_t x[4]) { for (int i = 0; i < 4; i++) x[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24; }
  static void st(const uint32_t x[4], uint8_t *p) { for (int i = 0; i < 16; i++) p[i] = (uint8_t)(x[i / 4] >> (8 * (i % 4))); }
  uint32_t k_[33][4];
  uint8_t IS[8][16];
};
const uint8_t Serpent::S[8][16] = {
  {3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12}, {15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4},
  {8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2}, {0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14},
  {1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13}, {15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1},
  {7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0}, {1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6}};

class Twofish : public BlockCipher {
 public:
  static uint8_t q(int which, uint8_t x) {
    static const uint8_t T[2][4][16] = {
      {{8, 1, 7, 0xD, 6, 0xF, 3, 2, 0, 0xB, 5, 9, 0xE, 0xC, 0xA, 4}, {0xE, 0xC, 0xB, 8, 1, 2, 3, 5, 0xF, 4, 0xA, 6, 7, 0, 9, 0xD},
       {0xB, 0xA, 5, 0xE, 6, 0xD, 9, 0, 0xC, 8, 0xF, 3, 2, 4, 7, 1}, {0xD, 7, 0xF, 4, 1, 2, 6, 0xE, 9, 0xB, 3, 0, 8, 5, 0xC, 0xA}},
      {{2, 8, 0xB, 0xD, 0xF, 7, 6, 0xE, 3, 1, 9, 4, 0, 0xA, 0xC, 5}, {1, 0xE, 2, 0xB, 4, 0xC, 3, 7, 6, 0xD, 0xA, 5, 0xF, 9, 0, 8},
       {4, 0xC, 7, 5, 1, 6, 9, 0xA, 0, 0xE, 0xD, 8, 2, 0xB, 3, 0xF}, {0xB, 9, 5, 1, 0xC, 3, 0xD, 0xE, 6, 4, 7, 0xF, 2, 0, 8, 0xA}}};
    uint8_t a = x >> 4, b = x & 15;
    for (int i = 0; i < 2; i++) {
      uint8_t a1 = a ^ b;
      uint8_t b1 = (uint8_t)(a ^ ((b >> 1) | ((b & 1) << 3)) ^ ((8 * a) & 15));
      a = T[which][2 * i][a1]; b = T[which][2 * i + 1][b1];
    }
    return (uint8_t)(b << 4 | a);
  }
  static uint8_t gf(unsigned a, unsigned b, unsigned poly) {
    unsigned r = 0;
    while (b) { if (b & 1) r ^= a; a <<= 1; if (a & 0x100) a ^= poly; b >>= 1; }
    return (uint8_t)r;
  }
  static uint32_t h(uint32_t X, const std::vector<uint32_t> &L) {
    static const int Q[5][4] = {{0, 1, 0, 1}, {0, 0, 1, 1}, {1, 0, 1, 0} /*unused*/, {1, 1, 0, 0}, {1, 0, 0, 1}};
    (void)Q;
    uint8_t y[4];
    for (int i = 0; i < 4; i++) y[i] = (uint8_t)(X >> (8 * i));
    auto lb = [&](int w, int i) { return (uint8_t)(L[w] >> (8 * i)); };
    int k = (int)L.size();
    if (k >= 4) { y[0] = q(1, y[0]) ^ lb(3, 0); y[1] = q(0, y[1]) ^ lb(3, 1); y[2] = q(0, y[2]) ^ lb(3, 2); y[3] = q(1, y[3]) ^ lb(3, 3); }
    if (k >= 3) { y[0] = q(1, y[0]) ^ lb(2, 0); y[1] = q(1, y[1]) ^ lb(2, 1); y[2] = q(0, y[2]) ^ lb(2, 2); y[3] = q(0, y[3]) ^ lb(2, 3); }
    y[0] = q(1, q(0, q(0, y[0]) ^ lb(1, 0)) ^ lb(0, 0));
    y[1] = q(0, q(0, q(1, y[1]) ^ lb(1, 1)) ^ lb(0, 1));
    y[2] = q(1, q(1, q(0, y[2]) ^ lb(1, 2)) ^ lb(0, 2));
    y[3] = q(0, q(1, q(1, y[3]) ^ lb(1, 3)) ^ lb(0, 3));
    static const uint8_t M[4][4] = {{0x01, 0xEF, 0x5B, 0x5B}, {0x5B, 0xEF, 0xEF, 0x01}, {0xEF, 0x5B, 0x01, 0xEF}, {0xEF, 0x01, 0xEF, 0x5B}};
    uint32_t z = 0;
    for (int i = 0; i < 4; i++) {
      uint8_t v = 0;
      for (int j = 0; j < 4; j++) v ^= gf(M[i][j], y[j], 0x169);
      z |= (uint32_t)v << (8 * i);
    }
    return z;
  }
  explicit Twofish(const Bytes &key) {
    static const uint8_t RS[4][8] = {{0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E}, {0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5},
                                     {0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19}, {0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03}};
    int k = (int)key.size() / 8;
    std::vector<uint32_t> Me, Mo;
    s_.resize(k);
    for (int i = 0; i < k; i++) {
      auto w = [&](int o) { return key[o] | key[o + 1] << 8 | key[o + 2] << 16 | (uint32_t)key[o + 3] << 24; };
      Me.push_back(w(8 * i)); Mo.push_back(w(8 * i + 4));
      uint32_t v = 0;
      for (int r = 0; r < 4; r++) {
        uint8_t b = 0;
        for (int c = 0; c < 8; c++) b ^= gf(RS[r][c], key[8 * i + c], 0x14D);
        v |= (uint32_t)b << (8 * r);
      }
      s_[k - 1 - i] = v;
    }
    for (int i = 0; i < 20; i++) {
      uint32_t a = h(2 * i * 0x01010101u, Me), b = rol32(h((2 * i + 1) * 0x01010101u, Mo), 8);
      k_[2 * i] = a + b;
      k_[2 * i + 1] = rol32(a + 2 * b, 9);
    }
    for (int j = 0; j < 4; j++) for (int b = 0; b < 256; b++) g_[j][b] = 0;
    uint32_t z = h(0, s_);
    for (int j = 0; j < 4; j++)
      for (int b = 0; b < 256; b++) g_[j][b] = h((uint32_t)b << (8 * j), s_) ^ (j ? z : 0);
  }
  uint32_t g(uint32_t x) const { // h is GF(2)-affine in the outer MDS layer per byte
    return g_[0][x & 255] ^ g_[1][(x >> 8) & 255] ^ g_[2][(x >> 16) & 255] ^ g_[3][x >> 24];
  }
  size_t size() const override { return 16; }
  void enc(const uint8_t *in, uint8_t *out) const override {
    uint32_t R[4];
    Serpent::ld(in, R);
    for (int i = 0; i < 4; i++) R[i] ^= k_[i];
    for (int r = 0; r < 16; r++) {
      uint32_t t0 = g(R[0]), t1 = g(rol32(R[1], 8));
      uint32_t f0 = t0 + t1 + k_[2 * r + 8], f1 = t0 + 2 * t1 + k_[2 * r + 9];
      uint32_t n0 = rol32(R[2] ^ f0, 31), n1 = rol32(R[3], 1) ^ f1;
      R[2] = R[0]; R[3] = R[1]; R[0] = n0; R[1] = n1;
    }
    uint32_t o[4] = {R[2] ^ k_[4], R[3] ^ k_[5], R[0] ^ k_[6], R[1] ^ k_[7]};
    Serpent::st(o, out);
  }
  void dec(const uint8_t *in, uint8_t *out) const override {
    uint32_t o[4], R[4];
    Serpent::ld(in, o);
    R[2] = o[0] ^ k_[4]; R[3] = o[1] ^ k_[5]; R[0] = o[2] ^ k_[6]; R[1] = o[3] ^ k_[7];
    for (int r = 15; r >= 0; r--) {
      uint32_t n0 = R[0], n1 = R[1];
      R[0] = R[2]; R[1] = R[3];
      uint32_t t0 = g(R[0]), t1 = g(rol32(R[1], 8));
      uint32_t f0 = t0 + t1 + k_[2 * r + 8], f1 = t0 + 2 * t1 + k_[2 * r + 9];
      R[2] = rol32(n0, 1) ^ f0;
      R[3] = rol32(n1 ^ f1, 31);
    }
    for (int i = 0; i < 4; i++) R[i] ^= k_[i];
    Serpent::st(R, out);
  }
  std::vector<uint32_t> s_;
  uint32_t k_[40], g_[4][256];
};

std::unique_ptr<BlockCipher> block_cipher(const std::string &f, const Bytes &key, unsigned param) {
  BlockCipher *c = nullptr;
  if (f == "aes") c = new Aes(key);
  else if (f == "rc2") c = new Rc2(key, param);
  else if (f == "blowfish") c = new Blowfish(key);
  else if (f == "camellia") c = new Camellia(key);
  else if (f == "cast5") c = new Cast5(key);
  else if (f == "des") c = new Des(key);
  else if (f == "idea") c = new Idea(key);
  else if (f == "serpent") c = new Serpent(key);
  else if (f == "twofish") c = new Twofish(key);
  else { fprintf(stderr, "reference model: unknown cipher\n"); exit(3); }
  return std::unique_ptr<BlockCipher>(c);
}

// ------------------------------------------------------------ modes

Bytes xorb(const Bytes &a, const Bytes &b) {
  Bytes r(a.size() < b.size() ? a.size() : b.size());
  for (size_t i = 0; i < r.size(); i++) r[i] = a[i] ^ b[i];
  return r;
}
Bytes pkcs7(const Bytes &m, size_t bs) {
  size_t k = bs - m.size() % bs;
  Bytes r(m);
  r.insert(r.end(), k, (uint8_t)k);
  return r;
}
bool unpkcs7(Bytes &m, size_t bs) {
  if (m.empty() || m.size() % bs) return false;
  size_t k = m.back();
  if (k == 0 || k > bs) return false;
  for (size_t i = 0; i < k; i++) if (m[m.size() - 1 - i] != k) return false;
  m.resize(m.size() - k);
  return true;
}
static void put(Bytes &r, const Bytes &b) { r.insert(r.end(), b.begin(), b.end()); }
Bytes ecb(const BlockCipher &c, bool e, const Bytes &m) {
  Bytes r;
  for (size_t o = 0; o < m.size(); o += c.size()) {
    Bytes b = sub(m, o, c.size());
    put(r, e ? c.E(b) : c.D(b));
  }
  return r;
}
Bytes cbc(const BlockCipher &c, bool e, const Bytes &iv, const Bytes &m) {
  Bytes r, prev = iv;
  for (size_t o = 0; o < m.size(); o += c.size()) {
    Bytes b = sub(m, o, c.size());
    if (e) { prev = c.E(xorb(b, prev)); r = cat(r, prev); }
    else { r = cat(r, xorb(c.D(b), prev)); prev = b; }
  }
  return r;
}
// m = full blocks P1..Pn-1 plus a partial block of 0 <= len < bs bytes; the
// partial block is zero padded, enciphered, and the last two blocks swapped
// with the second one truncated.
Bytes cbc_cts_enc(const BlockCipher &c, const Bytes &iv, const Bytes &m) {
  size_t bs = c.size(), part = m.size() % bs;
  Bytes padded(m);
  padded.resize(m.size() - part + bs, 0);
  Bytes full = cbc(c, true, iv, padded);
  size_t n = full.size() / bs;
  Bytes r = sub(full, 0, (n - 2) * bs);
  put(r, sub(full, (n - 1) * bs, bs));
  return cat(r, sub(full, (n - 2) * bs, part));
}
Bytes ecb_cts_enc(const BlockCipher &c, const Bytes &m) {
  size_t bs = c.size(), part = m.size() % bs;
  Bytes head = sub(m, 0, m.size() - part), tail = sub(m, m.size() - part, part);
  Bytes e = ecb(c, true, head);
  Bytes last = sub(e, e.size() - bs, bs);
  Bytes r = sub(e, 0, e.size() - bs);
  put(r, c.E(cat(tail, sub(last, part, bs))));
  return cat(r, sub(last, 0, part));
}
static Bytes dbl_le(const Bytes &x) {
  size_t n = x.size();
  Bytes r(n);
  unsigned c = 0;
  for (size_t i = 0; i < n; i++) { r[i] = (uint8_t)(x[i] << 1 | c); c = x[i] >> 7; }
  if (c) r[0] ^= n == 16 ? 0x87 : 0x1b;
  return r;
}
Bytes xts_enc(const BlockCipher &c, const BlockCipher &c2, const Bytes &iv, const Bytes &m) {
  size_t bs = c.size(), part = m.size() % bs;
  Bytes t = c2.E(iv), r;
  for (size_t o = 0; o + bs <= m.size(); o += bs) {
    put(r, xorb(c.E(xorb(sub(m, o, bs), t)), t));
    t = dbl_le(t);
  }
  if (part) {
    Bytes last = sub(r, r.size() - bs, bs);
    r.resize(r.size() - bs);
    Bytes b = cat(sub(m, m.size() - part, part), sub(last, part, bs));
    put(r, xorb(c.E(xorb(b, t)), t));
    put(r, sub(last, 0, part));
  }
  return r;
}
static void inc_be(Bytes &b, size_t from) {
  for (size_t i = b.size(); i-- > from;) if (++b[i]) break;
}
Bytes ctr(const BlockCipher &c, const Bytes &iv, const Bytes &m) {
  Bytes k = iv, r;
  for (size_t o = 0; o < m.size(); o += c.size()) { put(r, xorb(sub(m, o, c.size()), c.E(k))); inc_be(k, 0); }
  return r;
}
Bytes cfb(const BlockCipher &c, bool e, const Bytes &iv, const Bytes &m) {
  Bytes prev = iv, r;
  for (size_t o = 0; o < m.size(); o += c.size()) {
    Bytes b = sub(m, o, c.size()), x = xorb(b, c.E(prev));
    put(r, x);
    prev = e ? x : b;
  }
  return r;
}
Bytes ofb(const BlockCipher &c, const Bytes &iv, const Bytes &m) {
  Bytes s = iv, r;
  for (size_t o = 0; o < m.size(); o += c.size()) { s = c.E(s); r = cat(r, xorb(sub(m, o, c.size()), s)); }
  return r;
}

static Bytes gmul(const Bytes &x, const Bytes &y) { // SP 800-38D algorithm 1
  Bytes z(16, 0), v = y;
  for (int i = 0; i < 128; i++) {
    if ((x[i / 8] >> (7 - i % 8)) & 1) z = xorb(z, v);
    bool lsb = v[15] & 1;
    for (int k = 15; k > 0; k--) v[k] = (uint8_t)(v[k] >> 1 | v[k - 1] << 7);
    v[0] >>= 1;
    if (lsb) v[0] ^= 0xe1;
  }
  return z;
}
static Bytes ghash(const Bytes &h, const Bytes &m) {
  Bytes y(16, 0);
  for (size_t o = 0; o < m.size(); o += 16) y = gmul(xorb(y, sub(m, o, 16)), h);
  return y;
}
static Bytes pad16(const Bytes &m) { Bytes r(m); r.resize((m.size() + 15) / 16 * 16, 0); return r; }
Sealed gcm(const BlockCipher &c, const Bytes &iv, const Bytes &aad, const Bytes &m) {
  Bytes h = c.E(Bytes(16, 0)), j0;
  if (iv.size() == 12) j0 = cat(iv, be(1, 4));
  else j0 = ghash(h, cat(pad16(iv), Bytes(8, 0), be(iv.size() * 8, 8)));
  Bytes k = j0, ct;
  for (size_t o = 0; o < m.size(); o += 16) { inc_be(k, 12); ct = cat(ct, xorb(sub(m, o, 16), c.E(k))); }
  Bytes s = ghash(h, cat(cat(pad16(aad), pad16(ct)), be(aad.size() * 8, 8), be(ct.size() * 8, 8)));
  return {ct, xorb(s, c.E(j0))};
}
Sealed ccm(const BlockCipher &c, const Bytes &iv, size_t taglen, const Bytes &aad, const Bytes &m) {
  // RFC 3610, with L = max(15 - nonce length, bytes needed for the message
  // length, 2) and the nonce clamped to 15 - L bytes.
  size_t L = 2;
  while (L < 8 && (m.size() >> (8 * L))) L++;
  if (iv.size() < 13 && L < 15 - iv.size()) L = 15 - iv.size();
  Bytes n = sub(iv, 0, 15 - L);
  Bytes b0(1, (uint8_t)((aad.empty() ? 0 : 64) + 8 * ((taglen - 2) / 2) + (L - 1)));
  b0 = cat(b0, n, be(m.size(), (int)L));
  Bytes auth = b0;
  if (!aad.empty()) {
    Bytes a;
    if (aad.size() < 0xff00) a = be(aad.size(), 2);
    else a = cat(Bytes{0xff, 0xfe}, be(aad.size(), 4));
    auth = cat(auth, pad16(cat(a, aad)));
  }
  auth = cat(auth, pad16(m));
  Bytes x(16, 0);
  for (size_t o = 0; o < auth.size(); o += 16) x = c.E(xorb(x, sub(auth, o, 16)));
  auto A = [&](uint64_t i) { return cat(Bytes(1, (uint8_t)(L - 1)), n, be(i, (int)L)); };
  Bytes ct;
  for (size_t o = 0; o < m.size(); o += 16) put(ct, xorb(sub(m, o, 16), c.E(A(o / 16 + 1))));
  return {ct, sub(xorb(x, c.E(A(0))), 0, taglen)};
}
static Bytes dbl_be(const Bytes &x) {
  size_t n = x.size();
  Bytes r(n);
  unsigned c = 0;
  for (size_t i = n; i-- > 0;) { r[i] = (uint8_t)(x[i] << 1 | c); c = x[i] >> 7; }
  if (c) r[n - 1] ^= n == 16 ? 0x87 : 0x1b;
  return r;
}
Bytes cmac(const BlockCipher &c, const Bytes &m) {
  size_t bs = c.size();
  Bytes k1 = dbl_be(c.E(Bytes(bs, 0))), k2 = dbl_be(k1);
  size_t n = m.empty() ? 1 : (m.size() + bs - 1) / bs;
  Bytes x(bs, 0);
  for (size_t i = 0; i < n; i++) {
    Bytes b = sub(m, i * bs, bs);
    if (i + 1 == n) {
      if (b.size() == bs) b = xorb(b, k1);
      else { b.push_back(0x80); b.resize(bs, 0); b = xorb(b, k2); }
    }
    x = c.E(xorb(x, b));
  }
  return x;
}
Sealed eax(const BlockCipher &c, const Bytes &iv, const Bytes &aad, const Bytes &m) {
  size_t bs = c.size();
  auto omac = [&](uint8_t t, const Bytes &x) { Bytes p(bs, 0); p[bs - 1] = t; return cmac(c, cat(p, x)); };
  Bytes n = omac(0, iv), h = omac(1, aad), ct = ctr(c, n, m), k = omac(2, ct);
  return {ct, xorb(xorb(n, h), k)};
}

struct G128 { uint64_t a, b; };
static G128 gload(const Bytes &x) {
  G128 r = {0, 0};
  for (int i = 0; i < 8; i++) { r.a = r.a << 8 | x[i]; r.b = r.b << 8 | x[i + 8]; }
  return r;
}
static G128 gfast(G128 x, G128 v) {
  G128 z = {0, 0};
  for (int i = 0; i < 128; i++) {
    if (((i < 64 ? x.a : x.b) >> (63 - i % 64)) & 1) z.a ^= v.a, z.b ^= v.b;
    uint64_t lsb = v.b & 1;
    v.b = v.b >> 1 | v.a << 63;
    v.a = v.a >> 1 ^ (lsb ? 0xe100000000000000ull : 0);
  }
  return z;
}
Bytes gcm_iv_for(const BlockCipher &c, const Bytes &j0) {
  // J0 = (IV H + len) H, so IV = (J0 / H + len) / H; 1 / H = H^(2^128 - 2).
  G128 h = gload(c.E(Bytes(16, 0))), inv = {1ull << 63, 0}, s = h;
  for (int i = 1; i < 128; i++) { s = gfast(s, s); inv = gfast(inv, s); }
  G128 r = gfast(gload(j0), inv);
  r.b ^= 128;
  r = gfast(r, inv);
  return cat(be(r.a, 8), be(r.b, 8));
}
Bytes eax_iv_for(const BlockCipher &c, const Bytes &n) {
  Bytes l = c.E(Bytes(c.size(), 0));
  return xorb(xorb(c.D(n), l), dbl_be(l));
}

// ------------------------------------------------------------ stream ciphers

static void st32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static uint32_t ld32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }

void chacha_core(const uint32_t in[16], uint8_t out[64], bool add) {
  uint32_t x[16];
  memcpy(x, in, 64);
  auto qr = [&](int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = rol32(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rol32(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = rol32(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rol32(x[b] ^ x[c], 7);
  };
  for (int i = 0; i < 10; i++) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; i++) st32(out + 4 * i, x[i] + (add ? in[i] : 0));
}
void salsa_core(const uint32_t in[16], uint8_t out[64], bool add, int rounds) {
  uint32_t x[16];
  memcpy(x, in, 64);
  auto qr = [&](int a, int b, int c, int d) {
    x[b] ^= rol32(x[a] + x[d], 7); x[c] ^= rol32(x[b] + x[a], 9);
    x[d] ^= rol32(x[c] + x[b], 13); x[a] ^= rol32(x[d] + x[c], 18);
  };
  for (int i = 0; i < rounds / 2; i++) {
    qr(0, 4, 8, 12); qr(5, 9, 13, 1); qr(10, 14, 2, 6); qr(15, 3, 7, 11);
    qr(0, 1, 2, 3); qr(5, 6, 7, 4); qr(10, 11, 8, 9); qr(15, 12, 13, 14);
  }
  for (int i = 0; i < 16; i++) st32(out + 4 * i, x[i] + (add ? in[i] : 0));
}
static void consts(const Bytes &key, uint32_t c[4]) {
  const char *s = key.size() == 32 ? "expand 32-byte k" : "expand 16-byte k";
  for (int i = 0; i < 4; i++) c[i] = ld32((const uint8_t *)s + 4 * i);
}
Bytes hchacha20(const Bytes &key, const Bytes &in) {
  uint32_t s[16];
  consts(key, s);
  for (int i = 0; i < 8; i++) s[4 + i] = ld32(&key[(4 * i) % key.size()]);
  for (int i = 0; i < 4; i++) s[12 + i] = ld32(&in[4 * i]);
  uint8_t o[64];
  chacha_core(s, o, false);
  Bytes r(o, o + 16);
  r.insert(r.end(), o + 48, o + 64);
  return r;
}
Bytes hsalsa20(const Bytes &key, const Bytes &in) {
  uint32_t s[16], c[4];
  consts(key, c);
  s[0] = c[0]; s[5] = c[1]; s[10] = c[2]; s[15] = c[3];
  for (int i = 0; i < 4; i++) { s[1 + i] = ld32(&key[4 * i]); s[11 + i] = ld32(&key[(16 + 4 * i) % key.size()]); s[6 + i] = ld32(&in[4 * i]); }
  uint8_t o[64];
  salsa_core(s, o, false);
  static const int w[8] = {0, 5, 10, 15, 6, 7, 8, 9};
  Bytes r;
  for (int i = 0; i < 8; i++) r.insert(r.end(), o + 4 * w[i], o + 4 * w[i] + 4);
  return r;
}
Bytes chacha20(const Bytes &key0, const Bytes &nonce0, uint64_t counter, size_t n) {
  Bytes key = key0, nonce = nonce0;
  if (nonce.size() >= 24) { key = hchacha20(key, sub(nonce, 0, 16)); nonce = sub(nonce, 16, 99); }
  uint32_t s[16];
  consts(key, s);
  for (int i = 0; i < 8; i++) s[4 + i] = ld32(&key[(4 * i) % key.size()]);
  s[12] = (uint32_t)counter; s[13] = (uint32_t)(counter >> 32);
  if (nonce.size() == 8) { s[14] = ld32(&nonce[0]); s[15] = ld32(&nonce[4]); }
  else if (nonce.size() == 12) for (int i = 0; i < 3; i++) s[13 + i] = ld32(&nonce[4 * i]);
  else for (int i = 0; i < 4; i++) s[12 + i] = ld32(&nonce[4 * i]);
  Bytes r;
  while (r.size() < n) {
    uint8_t o[64];
    chacha_core(s, o, true);
    r.insert(r.end(), o, o + 64);
    if (++s[12] == 0) s[13]++;
  }
  r.resize(n);
  return r;
}
Bytes salsa20(const Bytes &key0, const Bytes &nonce0, uint64_t counter, size_t n) {
  Bytes key = key0, nonce = nonce0;
  if (nonce.size() >= 24) { key = hsalsa20(key, sub(nonce, 0, 16)); nonce = sub(nonce, 16, 99); }
  uint32_t s[16], c[4];
  consts(key, c);
  s[0] = c[0]; s[5] = c[1]; s[10] = c[2]; s[15] = c[3];
  for (int i = 0; i < 4; i++) { s[1 + i] = ld32(&key[4 * i]); s[11 + i] = ld32(&key[(16 + 4 * i) % key.size()]); }
  s[8] = (uint32_t)counter; s[9] = (uint32_t)(counter >> 32);
  if (nonce.size() == 8) { s[6] = ld32(&nonce[0]); s[7] = ld32(&nonce[4]); }
  else if (nonce.size() == 12) { s[6] = ld32(&nonce[0]); s[7] = ld32(&nonce[4]); s[8] = ld32(&nonce[8]); s[9] = (uint32_t)counter; }
  else for (int i = 0; i < 4; i++) s[6 + i] = ld32(&nonce[4 * i]);
  Bytes r;
  while (r.size() < n) {
    uint8_t o[64];
    salsa_core(s, o, true);
    r.insert(r.end(), o, o + 64);
    if (++s[8] == 0) s[9]++;
  }
  r.resize(n);
  return r;
}
Bytes rc4(const Bytes &key, size_t n) {
  uint8_t s[256];
  for (int i = 0; i < 256; i++) s[i] = (uint8_t)i;
  for (int i = 0, j = 0; i < 256; i++) { j = (j + s[i] + key[i % key.size()]) & 255; std::swap(s[i], s[j]); }
  Bytes r;
  int i = 0, j = 0;
  while (r.size() < n) { i = (i + 1) & 255; j = (j + s[i]) & 255; std::swap(s[i], s[j]); r.push_back(s[(s[i] + s[j]) & 255]); }
  return r;
}

}

// ------------------------------------------------------------ long inputs
namespace ref {
template <class F> static void repeat(const Bytes &chunk, uint64_t n, F f) {
  while (n) {
    size_t k = n < chunk.size() ? (size_t)n : chunk.size();
    f(chunk.data(), k);
    n -= k;
  }
}
Bytes long_gcm_tag(const Bytes &key, const Bytes &iv, const Bytes &chunk, uint64_t aad, uint64_t len) {
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  const EVP_CIPHER *a = key.size() == 16 ? EVP_aes_128_gcm() : key.size() == 24 ? EVP_aes_192_gcm() : EVP_aes_256_gcm();
  Bytes tag(16), out(chunk.size() + 32);
  int n = 0;
  bool ok = EVP_EncryptInit_ex(c, a, nullptr, nullptr, nullptr) == 1 && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, (int)iv.size(), nullptr) == 1 &&
            EVP_EncryptInit_ex(c, nullptr, nullptr, key.data(), iv.data()) == 1;
  repeat(chunk, aad, [&](const uint8_t *p, size_t k) { ok = ok && EVP_EncryptUpdate(c, nullptr, &n, p, (int)k) == 1; });
  repeat(chunk, len, [&](const uint8_t *p, size_t k) { ok = ok && EVP_EncryptUpdate(c, out.data(), &n, p, (int)k) == 1; });
  ok = ok && EVP_EncryptFinal_ex(c, out.data(), &n) == 1 && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, tag.data()) == 1;
  EVP_CIPHER_CTX_free(c);
  if (!ok) { fprintf(stderr, "reference GCM failed\n"); exit(3); }
  return tag;
}
Bytes long_poly_tag(const Bytes &otk, const Bytes &chunk, uint64_t aad, uint64_t len) {
  EVP_MAC *m = EVP_MAC_fetch(nullptr, "POLY1305", nullptr);
  EVP_MAC_CTX *c = EVP_MAC_CTX_new(m);
  static const uint8_t zero[16] = {0};
  Bytes tag(16), lens(16);
  size_t n = 0;
  bool ok = EVP_MAC_init(c, otk.data(), otk.size(), nullptr) == 1;
  auto up = [&](const uint8_t *p, size_t k) { ok = ok && EVP_MAC_update(c, p, k) == 1; };
  repeat(chunk, aad, up);
  up(zero, (size_t)(-aad & 15));
  repeat(chunk, len, up);
  up(zero, (size_t)(-len & 15));
  for (int i = 0; i < 8; i++) lens[i] = (uint8_t)(aad >> (8 * i)), lens[8 + i] = (uint8_t)(len >> (8 * i));
  up(lens.data(), 16);
  ok = ok && EVP_MAC_final(c, tag.data(), &n, 16) == 1;
  EVP_MAC_CTX_free(c);
  EVP_MAC_free(m);
  if (!ok) { fprintf(stderr, "reference Poly1305 failed\n"); exit(3); }
  return tag;
}
}  // namespace ref
