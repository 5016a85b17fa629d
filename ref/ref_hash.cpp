#include "ref_hash.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <gmp.h>
#include <openssl/evp.h>
#include <openssl/provider.h>

namespace ref {

static void die(const char *m) { fprintf(stderr, "reference model: %s\n", m); exit(3); }

static const std::vector<HashInfo> kInfos = {
  {"blake2b160", 20, 128}, {"blake2b256", 32, 128}, {"blake2b384", 48, 128}, {"blake2b512", 64, 128},
  {"blake2s128", 16, 64}, {"blake2s160", 20, 64}, {"blake2s224", 28, 64}, {"blake2s256", 32, 64},
  {"gost94", 32, 32}, {"hash160", 20, 64}, {"hash256", 32, 64},
  {"keccak224", 28, 144}, {"keccak256", 32, 136}, {"keccak384", 48, 104}, {"keccak512", 64, 72},
  {"md2", 16, 16}, {"md4", 16, 64}, {"md5", 16, 64}, {"md5sha1", 36, 64},
  {"ripemd160", 20, 64}, {"sha1", 20, 64}, {"sha224", 28, 64}, {"sha256", 32, 64},
  {"sha384", 48, 128}, {"sha512", 64, 128},
  {"sha3_224", 28, 144}, {"sha3_256", 32, 136}, {"sha3_384", 48, 104}, {"sha3_512", 64, 72},
  {"shake128", 16, 168}, {"shake256", 32, 136}, {"whirlpool", 64, 64}};

const std::vector<HashInfo> &hash_infos() { return kInfos; }
const HashInfo &hash_info(const std::string &n) {
  for (auto &i : kInfos) if (n == i.name) return i;
  die("unknown hash");
  abort();
}

// ------------------------------------------------------------ OpenSSL

static const EVP_MD *md_by_name(const char *n) {
  static bool init = false;
  if (!init) {
    OSSL_PROVIDER_load(nullptr, "legacy");
    OSSL_PROVIDER_load(nullptr, "default");
    init = true;
  }
  EVP_MD *m = EVP_MD_fetch(nullptr, n, nullptr);
  if (!m) die(n);
  return m;
}
static const EVP_MD *md_cached(const std::string &n) {
  static std::vector<std::pair<std::string, const EVP_MD *>> c;
  for (auto &p : c) if (p.first == n) return p.second;
  c.push_back({n, md_by_name(n.c_str())});
  return c.back().second;
}

class Ossl : public Hasher {
 public:
  Ossl(const char *n, bool xof) : xof_(xof) {
    c_ = EVP_MD_CTX_new();
    if (!EVP_DigestInit_ex(c_, md_cached(n), nullptr)) die("digest init");
  }
  ~Ossl() { EVP_MD_CTX_free(c_); }
  void update(const uint8_t *p, size_t n) override { if (n) EVP_DigestUpdate(c_, p, n); }
  Bytes finish(size_t outlen) override {
    Bytes o(EVP_MAX_MD_SIZE + outlen);
    if (xof_) {
      size_t l = outlen ? outlen : EVP_MD_CTX_size(c_);
      if (!EVP_DigestFinalXOF(c_, o.data(), l)) die("xof");
      o.resize(l);
    } else {
      unsigned l = 0;
      EVP_DigestFinal_ex(c_, o.data(), &l);
      o.resize(l);
    }
    return o;
  }
 private:
  EVP_MD_CTX *c_;
  bool xof_;
};

// ------------------------------------------------------------ buffering ones

class Whole : public Hasher {
 public:
  explicit Whole(const std::string &n) : n_(n) {}
  void update(const uint8_t *p, size_t n) override { m_.insert(m_.end(), p, p + n); }
  Bytes finish(size_t outlen) override;
 private:
  std::string n_;
  Bytes m_;
};

class Chain : public Hasher {   // hash160, hash256, md5sha1
 public:
  explicit Chain(const std::string &n) : n_(n) {
    if (n == "md5sha1") { a_.reset(new Ossl("MD5", false)); b_.reset(new Ossl("SHA1", false)); }
    else a_.reset(new Ossl("SHA256", false));
  }
  void update(const uint8_t *p, size_t n) override { a_->update(p, n); if (b_) b_->update(p, n); }
  Bytes finish(size_t) override {
    Bytes x = a_->finish(0);
    if (b_) return cat(x, b_->finish(0));
    Ossl o(n_ == "hash160" ? "RIPEMD160" : "SHA256", false);
    o.update(x.data(), x.size());
    return o.finish(0);
  }
 private:
  std::string n_;
  std::unique_ptr<Hasher> a_, b_;
};

// ------------------------------------------------------------ Keccak

static void keccak_f(uint64_t a[25]) {
  // Straight from the definition, with round constants from the LFSR.
  auto rc_bit = [](int t) {
    unsigned r = 1;
    for (int i = 0; i < t % 255; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; }
    return r & 1;
  };
  static uint64_t RC[24];
  static int R[5][5];
  static bool init = false;
  if (!init) {
    for (int i = 0; i < 24; i++) {
      uint64_t v = 0;
      for (int j = 0; j <= 6; j++) if (rc_bit(j + 7 * i)) v |= 1ull << ((1 << j) - 1);
      RC[i] = v;
    }
    memset(R, 0, sizeof R);
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      R[x][y] = ((t + 1) * (t + 2) / 2) % 64;
      int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx; y = ny;
    }
    init = true;
  }
  auto rot = [](uint64_t v, int k) { return k ? (v << k) | (v >> (64 - k)) : v; };
  for (int rnd = 0; rnd < 24; rnd++) {
    uint64_t c[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++) {
      uint64_t d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1);
      for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
    }
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rot(a[x + 5 * y], R[x][y]);
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++)
        a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
    a[0] ^= RC[rnd];
  }
}

Bytes keccak(size_t rate, unsigned pad, size_t outlen, const Bytes &msg) {
  Bytes m(msg);
  size_t padlen = rate - m.size() % rate;
  Bytes p(padlen, 0);
  p[0] ^= (uint8_t)pad;
  p[padlen - 1] ^= 0x80;
  // pad 0x..: when the pad byte and the final bit share a byte they are or-ed
  m.insert(m.end(), p.begin(), p.end());
  uint64_t a[25] = {0};
  for (size_t o = 0; o < m.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) a[i / 8] ^= (uint64_t)m[o + i] << (8 * (i % 8));
    keccak_f(a);
  }
  Bytes out;
  for (;;) {
    for (size_t i = 0; i < rate && out.size() < outlen; i++) out.push_back((uint8_t)(a[i / 8] >> (8 * (i % 8))));
    if (out.size() >= outlen) break;
    keccak_f(a);
  }
  return out;
}

// ------------------------------------------------------------ BLAKE2 (RFC 7693)

static const uint8_t SIGMA[10][16] = {
  {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
  {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
  {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
  {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
  {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};

template <class W, int R1, int R2, int R3, int R4, int ROUNDS, int BB>
static Bytes blake2(const W *iv, size_t outlen, const Bytes &key, const Bytes &msg) {
  auto ror = [](W x, int n) { return (W)((x >> n) | (x << (sizeof(W) * 8 - n))); };
  W h[8];
  for (int i = 0; i < 8; i++) h[i] = iv[i];
  h[0] ^= (W)(0x01010000u ^ (key.size() << 8) ^ outlen);
  Bytes m;
  if (!key.empty()) { m = key; m.resize(BB, 0); }
  m.insert(m.end(), msg.begin(), msg.end());
  size_t total = m.size();
  if (m.empty()) m.resize(BB, 0);
  if (m.size() % BB) m.resize((m.size() / BB + 1) * BB, 0);
  for (size_t o = 0; o < m.size(); o += BB) {
    bool last = o + BB == m.size();
    uint64_t t = last ? total : o + BB;
    W v[16], w[16];
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = iv[i]; }
    for (int i = 0; i < 16; i++) {
      w[i] = 0;
      for (size_t k = 0; k < sizeof(W); k++) w[i] |= (W)m[o + i * sizeof(W) + k] << (8 * k);
    }
    if (sizeof(W) == 8) v[12] ^= (W)t;
    else { v[12] ^= (W)(uint32_t)t; v[13] ^= (W)(t >> 32); }
    if (last) v[14] = ~v[14];
    auto G = [&](int a, int b, int c, int d, W x, W y) {
      v[a] += v[b] + x; v[d] = ror(v[d] ^ v[a], R1);
      v[c] += v[d]; v[b] = ror(v[b] ^ v[c], R2);
      v[a] += v[b] + y; v[d] = ror(v[d] ^ v[a], R3);
      v[c] += v[d]; v[b] = ror(v[b] ^ v[c], R4);
    };
    for (int r = 0; r < ROUNDS; r++) {
      const uint8_t *s = SIGMA[r % 10];
      G(0, 4, 8, 12, w[s[0]], w[s[1]]); G(1, 5, 9, 13, w[s[2]], w[s[3]]);
      G(2, 6, 10, 14, w[s[4]], w[s[5]]); G(3, 7, 11, 15, w[s[6]], w[s[7]]);
      G(0, 5, 10, 15, w[s[8]], w[s[9]]); G(1, 6, 11, 12, w[s[10]], w[s[11]]);
      G(2, 7, 8, 13, w[s[12]], w[s[13]]); G(3, 4, 9, 14, w[s[14]], w[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
  }
  Bytes out(outlen);
  for (size_t i = 0; i < outlen; i++) out[i] = (uint8_t)(h[i / sizeof(W)] >> (8 * (i % sizeof(W))));
  return out;
}

Bytes blake2b(size_t outlen, const Bytes &key, const Bytes &msg) {
  static const uint64_t iv[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
                                 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
  return blake2<uint64_t, 32, 24, 16, 63, 12, 128>(iv, outlen, key, msg);
}
Bytes blake2s(size_t outlen, const Bytes &key, const Bytes &msg) {
  static const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  return blake2<uint32_t, 16, 12, 8, 7, 10, 64>(iv, outlen, key, msg);
}

// ------------------------------------------------------------ MD2 (RFC 1319)

static Bytes md2(const Bytes &msg) {
  // The S table is the Fisher-Yates shuffle of 0..255 driven by digits of pi;
  // regenerate it the way RFC 1319's authors did.
  static uint8_t S[256];
  static bool init = false;
  if (!init) {
    // pi = 3.14159..., digits from GMP.
    const int D = 900;
    mpz_t pi, a, b, t;
    mpz_inits(pi, a, b, t, nullptr);
    auto arctan = [&](mpz_t out, unsigned x) { // 10^(D+20) * atan(1/x)
      mpz_ui_pow_ui(t, 10, D + 20);
      mpz_fdiv_q_ui(t, t, x);
      mpz_set(out, t);
      unsigned n = 1; int sgn = -1;
      mpz_t term; mpz_init(term);
      while (mpz_sgn(t)) {
        mpz_fdiv_q_ui(t, t, x * x);
        n += 2;
        mpz_fdiv_q_ui(term, t, n);
        if (sgn < 0) mpz_sub(out, out, term); else mpz_add(out, out, term);
        sgn = -sgn;
      }
      mpz_clear(term);
    };
    arctan(a, 5); arctan(b, 239);
    mpz_mul_ui(a, a, 16); mpz_mul_ui(b, b, 4);
    mpz_sub(pi, a, b);
    mpz_ui_pow_ui(t, 10, 20);
    mpz_fdiv_q(pi, pi, t);
    char *ds = mpz_get_str(nullptr, 10, pi);
    int pos = 0;
    auto rnd = [&](int n) {
      int x = ds[pos++] - '0', y = 10;
      if (n > 10) { x = x * 10 + (ds[pos++] - '0'); y = 100; }
      if (n > 100) { x = x * 10 + (ds[pos++] - '0'); y = 1000; }
      (void)y;
      return std::pair<int, int>(x, y);
    };
    for (int i = 0; i < 256; i++) S[i] = (uint8_t)i;
    for (int n = 2; n <= 256; n++) {
      int r;
      for (;;) {
        auto p = rnd(n);
        int lim = n * (p.second / n);
        if (p.first < lim) { r = p.first % n; break; }
      }
      uint8_t tmp = S[r]; S[r] = S[n - 1]; S[n - 1] = tmp;
    }
    free(ds);
    mpz_clears(pi, a, b, t, nullptr);
    init = true;
  }
  Bytes m(msg);
  size_t pad = 16 - m.size() % 16;
  m.insert(m.end(), pad, (uint8_t)pad);
  uint8_t C[16] = {0}, L = 0;
  for (size_t i = 0; i < m.size(); i += 16)
    for (int j = 0; j < 16; j++) { C[j] ^= S[m[i + j] ^ L]; L = C[j]; }
  m.insert(m.end(), C, C + 16);
  uint8_t X[48] = {0};
  for (size_t i = 0; i < m.size(); i += 16) {
    for (int j = 0; j < 16; j++) { X[16 + j] = m[i + j]; X[32 + j] = X[16 + j] ^ X[j]; }
    unsigned t = 0;
    for (int j = 0; j < 18; j++) {
      for (int k = 0; k < 48; k++) { X[k] ^= S[t]; t = X[k]; }
      t = (t + j) & 255;
    }
  }
  return Bytes(X, X + 16);
}

// ------------------------------------------------------------ GOST R 34.11-94 (RFC 5831, CryptoPro S-box)

static const uint8_t GS[8][16] = {
  {0xA, 4, 5, 6, 8, 1, 3, 7, 0xD, 0xC, 0xE, 0, 9, 2, 0xB, 0xF}, {5, 0xF, 4, 0, 2, 0xD, 0xB, 9, 1, 7, 6, 3, 0xC, 0xE, 0xA, 8},
  {7, 0xF, 0xC, 0xE, 9, 4, 1, 0, 3, 0xB, 5, 2, 6, 0xA, 8, 0xD}, {4, 0xA, 7, 0xC, 0, 0xF, 2, 8, 0xE, 1, 6, 5, 0xD, 0xB, 9, 3},
  {7, 6, 4, 0xB, 9, 0xC, 2, 0xA, 1, 8, 0, 0xE, 0xF, 0xD, 3, 5}, {7, 6, 2, 4, 0xD, 9, 0xF, 0, 0xA, 1, 5, 0xB, 8, 0xE, 0xC, 3},
  {0xD, 0xE, 4, 1, 7, 0, 5, 0xA, 3, 0xC, 8, 0xF, 6, 2, 9, 0xB}, {1, 3, 0xA, 9, 5, 0xB, 4, 0xF, 8, 6, 7, 0xE, 0xD, 0, 2, 0xC}};

static void gost_enc(const uint8_t key[32], const uint8_t in[8], uint8_t out[8]) {
  uint32_t k[8];
  for (int i = 0; i < 8; i++) k[i] = key[4 * i] | key[4 * i + 1] << 8 | key[4 * i + 2] << 16 | (uint32_t)key[4 * i + 3] << 24;
  uint32_t n1 = in[0] | in[1] << 8 | in[2] << 16 | (uint32_t)in[3] << 24;
  uint32_t n2 = in[4] | in[5] << 8 | in[6] << 16 | (uint32_t)in[7] << 24;
  for (int r = 0; r < 32; r++) {
    uint32_t kk = r < 24 ? k[r % 8] : k[7 - r % 8];
    uint32_t x = n1 + kk, y = 0;
    for (int i = 0; i < 8; i++) y |= (uint32_t)GS[i][(x >> (4 * i)) & 15] << (4 * i);
    y = (y << 11) | (y >> 21);
    uint32_t t = n2 ^ y;
    n2 = n1; n1 = t;
  }
  uint32_t a = n2, b = n1;
  for (int i = 0; i < 4; i++) { out[i] = (uint8_t)(a >> (8 * i)); out[4 + i] = (uint8_t)(b >> (8 * i)); }
}

typedef std::vector<uint8_t> V32;
static void gost_A(uint8_t y[32]) {
  uint8_t t[8];
  for (int i = 0; i < 8; i++) t[i] = y[i] ^ y[i + 8];
  memmove(y, y + 8, 24);
  memcpy(y + 24, t, 8);
}
static void gost_P(const uint8_t y[32], uint8_t out[32]) {
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < 8; k++) out[i + 4 * k] = y[8 * i + k];
}
static void gost_psi(uint8_t y[32], int times) {
  while (times--) {
    uint16_t w[16];
    for (int i = 0; i < 16; i++) w[i] = (uint16_t)(y[2 * i] | y[2 * i + 1] << 8);
    uint16_t f = w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[12] ^ w[15];
    for (int i = 0; i < 15; i++) w[i] = w[i + 1];
    w[15] = f;
    for (int i = 0; i < 16; i++) { y[2 * i] = (uint8_t)w[i]; y[2 * i + 1] = (uint8_t)(w[i] >> 8); }
  }
}
static void gost_step(uint8_t H[32], const uint8_t M[32]) {
  static const uint8_t C3[32] = {0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00, 0xff, 0x00,
                                 0x00, 0xff, 0xff, 0x00, 0xff, 0x00, 0x00, 0xff, 0xff, 0x00, 0x00, 0x00, 0xff, 0xff, 0x00, 0xff};
  uint8_t U[32], V[32], W[32], K[4][32], S[32];
  memcpy(U, H, 32); memcpy(V, M, 32);
  for (int i = 0; i < 32; i++) W[i] = U[i] ^ V[i];
  gost_P(W, K[0]);
  for (int j = 1; j < 4; j++) {
    gost_A(U);
    if (j == 2) for (int i = 0; i < 32; i++) U[i] ^= C3[i];
    gost_A(V); gost_A(V);
    for (int i = 0; i < 32; i++) W[i] = U[i] ^ V[i];
    gost_P(W, K[j]);
  }
  for (int j = 0; j < 4; j++) gost_enc(K[j], H + 8 * j, S + 8 * j);
  gost_psi(S, 12);
  for (int i = 0; i < 32; i++) S[i] ^= M[i];
  gost_psi(S, 1);
  for (int i = 0; i < 32; i++) S[i] ^= H[i];
  gost_psi(S, 61);
  memcpy(H, S, 32);
}
static Bytes gost94(const Bytes &msg) {
  uint8_t H[32] = {0}, Sg[32] = {0}, L[32] = {0};
  auto add = [&](const uint8_t *m) {
    unsigned c = 0;
    for (int i = 0; i < 32; i++) { c += Sg[i] + m[i]; Sg[i] = (uint8_t)c; c >>= 8; }
  };
  size_t o = 0;
  for (; o + 32 <= msg.size(); o += 32) { gost_step(H, &msg[o]); add(&msg[o]); }
  if (o < msg.size()) {
    uint8_t m[32] = {0};
    memcpy(m, &msg[o], msg.size() - o);
    gost_step(H, m); add(m);
  }
  uint64_t bits = (uint64_t)msg.size() * 8;
  for (int i = 0; i < 8; i++) L[i] = (uint8_t)(bits >> (8 * i));
  gost_step(H, L);
  gost_step(H, Sg);
  return Bytes(H, H + 32);
}

// ------------------------------------------------------------ dispatch

Bytes Whole::finish(size_t outlen) {
  if (n_ == "md2") return md2(m_);
  if (n_ == "gost94") return gost94(m_);
  const HashInfo &i = hash_info(n_);
  if (n_.compare(0, 7, "blake2b") == 0) return blake2b(i.out, Bytes(), m_);
  if (n_.compare(0, 7, "blake2s") == 0) return blake2s(i.out, Bytes(), m_);
  if (n_.compare(0, 6, "keccak") == 0) return keccak(i.block, 0x01, i.out, m_);
  die("unknown hash");
  (void)outlen;
  abort();
}

std::unique_ptr<Hasher> hasher(const std::string &n) {
  static const std::pair<const char *, const char *> map[] = {
    {"md4", "MD4"}, {"md5", "MD5"}, {"ripemd160", "RIPEMD160"}, {"sha1", "SHA1"}, {"sha224", "SHA224"}, {"sha256", "SHA256"},
    {"sha384", "SHA384"}, {"sha512", "SHA512"}, {"sha3_224", "SHA3-224"}, {"sha3_256", "SHA3-256"}, {"sha3_384", "SHA3-384"},
    {"sha3_512", "SHA3-512"}, {"whirlpool", "WHIRLPOOL"}, {"blake2b512", "BLAKE2B-512"}, {"blake2s256", "BLAKE2S-256"}};
  if (n == "shake128") return std::unique_ptr<Hasher>(new Ossl("SHAKE128", true));
  if (n == "shake256") return std::unique_ptr<Hasher>(new Ossl("SHAKE256", true));
  for (auto &m : map) if (n == m.first) return std::unique_ptr<Hasher>(new Ossl(m.second, false));
  if (n == "hash160" || n == "hash256" || n == "md5sha1") return std::unique_ptr<Hasher>(new Chain(n));
  return std::unique_ptr<Hasher>(new Whole(n));
}

Bytes hash(const std::string &n, const Bytes &msg, size_t outlen) {
  auto h = hasher(n);
  h->update(msg.data(), msg.size());
  return h->finish(outlen);
}

Bytes hmac(const std::string &n, const Bytes &key, const Bytes &msg) {
  const HashInfo &i = hash_info(n);
  Bytes k = key;
  if (k.size() > i.block) k = hash(n, k);
  k.resize(i.block, 0);
  Bytes ip(k), op(k);
  for (auto &x : ip) x ^= 0x36;
  for (auto &x : op) x ^= 0x5c;
  return hash(n, cat(op, hash(n, cat(ip, msg))));
}

// ------------------------------------------------------------ MACs

Bytes poly1305(const Bytes &key, const Bytes &msg) {
  mpz_t p, r, s, a, b;
  mpz_inits(p, r, s, a, b, nullptr);
  mpz_ui_pow_ui(p, 2, 130); mpz_sub_ui(p, p, 5);
  Bytes rk = sub(key, 0, 16);
  rk[3] &= 15; rk[7] &= 15; rk[11] &= 15; rk[15] &= 15;
  rk[4] &= 252; rk[8] &= 252; rk[12] &= 252;
  mpz_import(r, 16, -1, 1, 0, 0, rk.data());
  mpz_import(s, 16, -1, 1, 0, 0, key.data() + 16);
  for (size_t o = 0; o < msg.size(); o += 16) {
    Bytes blk = sub(msg, o, 16);
    blk.push_back(1);
    mpz_import(b, blk.size(), -1, 1, 0, 0, blk.data());
    mpz_add(a, a, b); mpz_mul(a, a, r); mpz_mod(a, a, p);
  }
  mpz_add(a, a, s);
  Bytes out(64, 0);
  size_t n = 0;
  mpz_fdiv_r_2exp(a, a, 128);
  mpz_export(out.data(), &n, -1, 1, 0, 0, a);
  out.resize(16);
  mpz_clears(p, r, s, a, b, nullptr);
  return out;
}

struct Sip {
  uint64_t v0, v1, v2, v3;
  static uint64_t rol(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
  void round() {
    v0 += v1; v1 = rol(v1, 13); v1 ^= v0; v0 = rol(v0, 32);
    v2 += v3; v3 = rol(v3, 16); v3 ^= v2;
    v0 += v3; v3 = rol(v3, 21); v3 ^= v0;
    v2 += v1; v1 = rol(v1, 17); v1 ^= v2; v2 = rol(v2, 32);
  }
  void absorb(uint64_t m) { v3 ^= m; round(); round(); v0 ^= m; }
  uint64_t finish() { v2 ^= 0xff; round(); round(); round(); round(); return v0 ^ v1 ^ v2 ^ v3; }
};
static uint64_t ld(const uint8_t *p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }

uint64_t siphash24(const Bytes &k, const Bytes &m) {
  uint64_t k0 = ld(k.data(), 8), k1 = ld(k.data() + 8, 8);
  Sip s{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
  size_t o = 0;
  for (; o + 8 <= m.size(); o += 8) s.absorb(ld(m.data() + o, 8));
  s.absorb(((uint64_t)(m.size() & 0xff) << 56) | ld(m.data() + o, m.size() - o));
  return s.finish();
}
uint64_t siphash24_word128(uint64_t num, const Bytes &k) {
  uint64_t k0 = ld(k.data(), 8), k1 = ld(k.data() + 8, 8);
  Sip s{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
  s.absorb(num);
  return s.finish();
}
uint64_t siphash24_word256(uint64_t num, const Bytes &k) {
  Sip s{ld(k.data(), 8), ld(k.data() + 8, 8), ld(k.data() + 16, 8), ld(k.data() + 24, 8)};
  s.absorb(num);
  return s.finish();
}

uint32_t murmur3_32(const Bytes &m, uint32_t seed) {
  const uint32_t c1 = 0xcc9e2d51, c2 = 0x1b873593;
  auto rol = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  uint32_t h = seed;
  size_t nb = m.size() / 4;
  for (size_t i = 0; i < nb; i++) {
    uint32_t k = (uint32_t)ld(m.data() + 4 * i, 4);
    k *= c1; k = rol(k, 15); k *= c2;
    h ^= k; h = rol(h, 13); h = h * 5 + 0xe6546b64;
  }
  size_t rest = m.size() % 4;
  if (rest) {
    uint32_t k = (uint32_t)ld(m.data() + 4 * nb, rest);
    k *= c1; k = rol(k, 15); k *= c2; h ^= k;
  }
  h ^= (uint32_t)m.size();
  h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
  return h;
}

}
