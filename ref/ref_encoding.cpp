#include "ref_encoding.h"
#include <gmp.h>
#include <cstring>

namespace ref {
static int log2_of(const char *alphabet) { size_t n = strlen(alphabet); return n == 16 ? 4 : n == 32 ? 5 : 6; }

std::string radix_encode(const Bytes &b, const char *alphabet, bool pad) {
  int w = log2_of(alphabet);
  std::string s;
  for (size_t bit = 0; bit < b.size() * 8; bit += w) {
    unsigned v = 0;
    for (size_t k = bit; k < bit + w; k++) v = v * 2 + (k / 8 < b.size() ? (b[k / 8] >> (7 - k % 8)) & 1 : 0);
    s += alphabet[v];
  }
  if (pad) { size_t q = w == 5 ? 8 : w == 6 ? 4 : 1; while (s.size() % q) s += '='; }
  return s;
}
bool radix_decode(const std::string &text, const char *alphabet, bool pad, bool fold, Bytes &out) {
  int w = log2_of(alphabet);
  std::string norm, body;
  for (char c : text) norm += fold && c >= 'A' && c <= 'Z' ? (char)(c + 32) : c;
  body = norm;
  if (pad) while (!body.empty() && body.back() == '=') body.pop_back();
  std::vector<int> bits;
  for (char c : body) {
    const char *p = c ? strchr(alphabet, c) : nullptr;
    if (!p) return false;
    for (int i = w - 1; i >= 0; i--) bits.push_back(((p - alphabet) >> i) & 1);
  }
  out.clear();
  for (size_t i = 0; i + 8 <= bits.size(); i += 8) { unsigned v = 0; for (int k = 0; k < 8; k++) v = v * 2 + bits[i + k]; out.push_back((uint8_t)v); }
  return radix_encode(out, alphabet, pad) == norm;
}

static const char kB58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
std::string b58_encode(const Bytes &b) {
  mpz_t n;
  mpz_init(n);
  mpz_import(n, b.size(), 1, 1, 1, 0, b.data());
  std::string s;
  while (mpz_sgn(n)) s.insert(s.begin(), kB58[mpz_tdiv_q_ui(n, n, 58)]);
  for (size_t i = 0; i < b.size() && !b[i]; i++) s.insert(s.begin(), '1');
  mpz_clear(n);
  return s;
}
bool b58_decode(const std::string &s, Bytes &out) {
  mpz_t n;
  mpz_init(n);
  for (char c : s) {
    const char *p = c ? strchr(kB58, c) : nullptr;
    if (!p) { mpz_clear(n); return false; }
    mpz_mul_ui(n, n, 58);
    mpz_add_ui(n, n, p - kB58);
  }
  size_t z = 0;
  while (z < s.size() && s[z] == '1') z++;
  size_t cnt = mpz_sgn(n) ? (mpz_sizeinbase(n, 2) + 7) / 8 : 0;
  out.assign(z + cnt, 0);
  if (cnt) mpz_export(out.data() + z, nullptr, 1, 1, 1, 0, n);
  mpz_clear(n);
  return true;
}

// GF(32) with modulus x^5 + x^3 + 1; polynomial division by the generator.
static int gf(int a, int b) {
  int r = 0;
  for (int i = 0; i < 5; i++) if (b >> i & 1) r ^= a << i;
  for (int i = 9; i >= 5; i--) if (r >> i & 1) r ^= 0x29 << (i - 5);
  return r;
}
static Bytes rem(const Bytes &v, const std::vector<int> &gen) { // coefficients high to low, gen monic without lead
  size_t n = gen.size();
  Bytes r(n, 0);
  for (uint8_t x : v) {
    int lead = r[0];
    for (size_t i = 0; i + 1 < n; i++) r[i] = r[i + 1];
    r[n - 1] = x;
    for (size_t i = 0; i < n; i++) r[i] ^= (uint8_t)gf(lead, gen[i]);
  }
  return r;
}
static Bytes bech32_tail(const std::string &hrp, const Bytes &data, uint32_t constant, size_t n) {
  // The division starts from 1, equivalent to a leading symbol 1.
  Bytes v{1};
  for (char c : hrp) v.push_back((uint8_t)c >> 5);
  v.push_back(0);
  for (char c : hrp) v.push_back((uint8_t)c & 31);
  v.insert(v.end(), data.begin(), data.end());
  v.insert(v.end(), n, 0);
  Bytes r = rem(v, {29, 22, 20, 21, 29, 18});
  for (int i = 0; i < 6; i++) r[i] ^= (constant >> (5 * (5 - i))) & 31;
  return r;
}
static Bytes cash32_tail(const std::string &prefix, const Bytes &data, size_t n) {
  Bytes v{1};
  for (char c : prefix) v.push_back((uint8_t)c & 31);
  v.push_back(0);
  v.insert(v.end(), data.begin(), data.end());
  v.insert(v.end(), n, 0);
  Bytes r = rem(v, {19, 3, 25, 11, 25, 3, 19, 1});
  r[7] ^= 1;
  return r;
}
Bytes bech32_checksum(const std::string &hrp, const Bytes &data, uint32_t constant) { return bech32_tail(hrp, data, constant, 6); }
Bytes cash32_checksum(const std::string &prefix, const Bytes &data) { return cash32_tail(prefix, data, 8); }
static bool shorten(Bytes r, size_t n, Bytes &out) {
  for (size_t i = 0; i + n < r.size(); i++) if (r[i]) return false;
  out.assign(r.end() - n, r.end());
  return true;
}
bool bech32_short(const std::string &hrp, uint32_t constant, size_t n, Bytes &out) { return shorten(bech32_tail(hrp, {}, constant, n), n, out); }
bool cash32_short(const std::string &prefix, size_t n, Bytes &out) { return shorten(cash32_tail(prefix, {}, n), n, out); }
const char *const kBech32Chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
std::string b32_chars(const Bytes &s) { std::string r; for (uint8_t x : s) r += kBech32Chars[x]; return r; }

static bool mixed(const std::string &s) {
  bool u = false, l = false;
  for (char c : s) { u |= c >= 'A' && c <= 'Z'; l |= c >= 'a' && c <= 'z'; }
  return u && l;
}
static std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool symbols(const std::string &s, Bytes &out) {
  out.clear();
  for (char c : s) { const char *p = c ? strchr(kBech32Chars, c) : nullptr; if (!p) return false; out.push_back((uint8_t)(p - kBech32Chars)); }
  return true;
}
bool bech32_parse(const std::string &s, uint32_t constant, std::string &hrp, Bytes &data) {
  for (unsigned char c : s) if (c < 33 || c > 126) return false;
  if (s.size() > 90 || mixed(s)) return false;
  std::string t = lower(s);
  size_t sep = t.rfind('1');
  if (sep == std::string::npos || sep < 1 || sep + 7 > t.size()) return false;
  hrp = t.substr(0, sep);
  Bytes all;
  if (!symbols(t.substr(sep + 1), all)) return false;
  data = sub(all, 0, all.size() - 6);
  return sub(all, all.size() - 6, 6) == bech32_checksum(hrp, data, constant);
}
bool cash32_parse(const std::string &s, const std::string &fallback, std::string &prefix, Bytes &data) {
  if (mixed(s)) return false;
  std::string t = lower(s), body = t;
  size_t sep = t.find(':');
  if (sep != std::string::npos) { prefix = t.substr(0, sep); body = t.substr(sep + 1); }
  else prefix = fallback;
  if (prefix.empty() || prefix.size() > 83) return false;
  for (char c : prefix) if (c < 'a' || c > 'z') return false;
  Bytes all;
  if (!symbols(body, all) || all.size() < 8 || all.size() > 112) return false;
  data = sub(all, 0, all.size() - 8);
  return sub(all, all.size() - 8, 8) == cash32_checksum(prefix, data);
}
bool regroup(const Bytes &in, int from, int to, bool pad, Bytes &out) {
  std::vector<int> bits;
  for (uint8_t x : in) for (int i = from - 1; i >= 0; i--) bits.push_back((x >> i) & 1);
  out.clear();
  size_t i = 0;
  for (; i + to <= bits.size(); i += to) { unsigned v = 0; for (int k = 0; k < to; k++) v = v * 2 + bits[i + k]; out.push_back((uint8_t)v); }
  size_t left = bits.size() - i;
  if (pad) {
    if (left) { unsigned v = 0; for (int k = 0; k < to; k++) v = v * 2 + (k < (int)left ? bits[i + k] : 0); out.push_back((uint8_t)v); }
    return true;
  }
  if ((int)left >= from) return false;
  for (; i < bits.size(); i++) if (bits[i]) return false;
  return true;
}
}
