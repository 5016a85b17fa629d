#include "ref_rsa.h"
#include <map>

namespace ref {

Bytes der_size(size_t n) {
  if (n < 0x80) return Bytes{(uint8_t)n};
  Bytes b;
  for (; n; n >>= 8) b.insert(b.begin(), (uint8_t)n);
  b.insert(b.begin(), (uint8_t)(0x80 | b.size()));
  return b;
}
Bytes der_tlv(int tag, const Bytes &body) { return cat(Bytes{(uint8_t)tag}, der_size(body.size()), body); }
Bytes der_uint(const Z &z) { return der_tlv(2, z.to_be(z.bits() / 8 + 1)); }
Bytes der_ints(const std::vector<Z> &v, bool version) {
  Bytes b;
  if (version) b = der_uint(Z(0));
  for (const Z &z : v) b = cat(b, der_uint(z));
  return der_tlv(0x30, b);
}
Bytes flat_ints(const std::vector<Z> &v) {
  Bytes b;
  for (const Z &z : v) {
    size_t n = (z.bits() + 7) / 8;
    b = cat(b, be(n, 2), z.to_be(n));
  }
  return b;
}
static bool read_tl(const Bytes &in, size_t &pos, int tag, size_t &n) {
  if (pos >= in.size() || in[pos] != tag) return false;
  pos++;
  if (pos >= in.size()) return false;
  size_t c = in[pos++];
  if (c < 0x80) {
    n = c;
  } else {
    c &= 0x7f;
    if (c == 0 || c > 4 || in.size() - pos < c) return false;
    n = 0;
    for (size_t i = 0; i < c; i++) n = n << 8 | in[pos++];
    if (der_size(n).size() != c + 1) return false;
  }
  return n <= in.size() - pos;
}
bool der_parse(std::vector<Z> &v, const Bytes &in, size_t count, bool version) {
  v.clear();
  size_t pos = 0, n = 0;
  if (!read_tl(in, pos, 0x30, n) || pos + n != in.size()) return false;
  for (size_t i = 0; i < count + version; i++) {
    if (!read_tl(in, pos, 2, n) || n == 0) return false;
    if (in[pos] & 0x80) return false;
    if (n > 1 && in[pos] == 0 && !(in[pos + 1] & 0x80)) return false;
    Z z = Z::be(in.data() + pos, n);
    if (z.bits() > 2048 * 8) return false;
    pos += n;
    if (version && i == 0) {
      if (!z.zero()) return false;
    } else {
      v.push_back(z);
    }
  }
  return pos == in.size();
}
bool flat_parse(std::vector<Z> &v, const Bytes &in, size_t count) {
  v.clear();
  size_t pos = 0;
  for (size_t i = 0; i < count; i++) {
    if (in.size() - pos < 2) return false;
    size_t n = (size_t)in[pos] << 8 | in[pos + 1];
    pos += 2;
    if (in.size() - pos < n) return false;
    v.push_back(Z::be(in.data() + pos, n));
    pos += n;
  }
  return true;
}

Z RsaKey::unraw(const Z &c) const {
  Z a = powm(c % p, dp, p), b = powm(c % q, dq, q);
  return b + q * (((a - b) * qi) % p);
}
RsaKey rsa_key(const std::vector<Z> &v) { return {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}; }
bool rsa_build(RsaKey &k, const Z &p, const Z &q, const Z &e) {
  k.p = p;
  k.q = q;
  k.e = e;
  k.n = p * q;
  if (!inv(k.d, e, k.lam()) || !inv(k.qi, q, p)) return false;
  k.dp = k.d % (p - Z(1));
  k.dq = k.d % (q - Z(1));
  return true;
}
bool rsa_pub_ok(const Z &n, const Z &e) { return n.bits() >= 512 && n.bits() <= 16384 && n.odd() && e >= Z(3) && e.bits() <= 33 && e.odd(); }
bool rsa_priv_ok(const RsaKey &k) {
  if (!rsa_pub_ok(k.n, k.e)) return false;
  if (k.p < Z(3) || k.q < Z(3) || !k.p.odd() || !k.q.odd() || k.p == k.q || k.p * k.q != k.n) return false;
  if (k.d < Z(2) || k.d >= k.phi()) return false;
  if (k.e * k.d % k.lam() != Z(1)) return false;
  if (k.dp != k.d % (k.p - Z(1)) || k.dq != k.d % (k.q - Z(1))) return false;
  return k.qi >= Z(2) && k.qi < k.p && k.q * k.qi % k.p == Z(1);
}

static Z seeded(const std::string &tag, size_t bits) {
  Z z = Z::be(hash("shake256", str(tag.c_str()), (bits + 7) / 8)) >> (8 * ((bits + 7) / 8) - bits);
  return z;
}
// A prime of exactly that size with the two top bits set; congruent to r modulo m.
static Z pool_prime(const std::string &tag, size_t bits, const Z &r, const Z &m, const Z &e) {
  Z z = seeded(tag, bits - 1) | Z::pow2(bits - 1) | Z::pow2(bits - 2);
  z = z - (z % m) + r;
  for (;; z = z + m) {
    if (z.bits() != bits) z = (Z::pow2(bits - 1) | Z::pow2(bits - 2)) - ((Z::pow2(bits - 1) | Z::pow2(bits - 2)) % m) + r + m;
    if (z.low() % 2 == 0) continue;
    bool small = false;
    for (int s : {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53})
      if ((z % Z(s)).zero() && z != Z(s)) small = true;
    if (small || gcdz(z - Z(1), e) != Z(1)) continue;
    if (strong_prp(z, Z(2)) && is_prime(z)) return z;
  }
}
const RsaKey &rsa_pool(size_t bits, unsigned i) {
  static std::map<std::pair<size_t, unsigned>, RsaKey> pool;
  auto it = pool.find({bits, i});
  if (it != pool.end()) return it->second;
  static const uint64_t es[rsa_pool_size] = {65537, 3, 0x1ffffffff, 17, 0x100000001 + 14, 5};
  Z e = Z::u64(es[i]);
  size_t pb = (bits + 1) / 2, qb = bits / 2;
  Z r(1), m(2), r2(1), m2(2);
  if (i == 1) r = r2 = Z(3), m = m2 = Z(4);  // Blum primes
  if (i == 2) m = m2 = Z::pow2(40);          // highly 2-adic p - 1
  if (i == 3) m = Z::pow2(3), r = Z(5), m2 = Z(4), r2 = Z(3);
  if (i == 4) qb = bits / 4, pb = bits - qb;  // unequal primes
  if (i == 5) m = Z::pow2(20), m2 = Z(4), r2 = Z(3);
  RsaKey k;
  for (unsigned a = 0;; a++) {
    std::string tag = "rsa " + std::to_string(bits) + " " + std::to_string(i) + " " + std::to_string(a);
    Z p = pool_prime(tag + " p", pb, r, m, e), q = pool_prime(tag + " q", qb, r2, m2, e);
    if (p < q) std::swap(p, q);
    if (p != q && (p * q).bits() == bits && rsa_build(k, p, q, e) && rsa_priv_ok(k)) break;
  }
  return pool[{bits, i}] = k;
}

static Bytes oid(const std::vector<unsigned> &arcs) {
  Bytes b{(uint8_t)(arcs[0] * 40 + arcs[1])};
  for (size_t i = 2; i < arcs.size(); i++) {
    Bytes x;
    for (unsigned v = arcs[i], first = 1; first || v; v >>= 7, first = 0) x.insert(x.begin(), (uint8_t)((v & 0x7f) | (x.empty() ? 0 : 0x80)));
    b = cat(b, x);
  }
  return der_tlv(6, b);
}
Bytes digest_info(const std::string &name) {
  typedef std::vector<unsigned> A;
  static const std::map<std::string, A> ids = {
    {"blake2b160", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 1, 5}}, {"blake2b256", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 1, 8}},
    {"blake2b384", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 1, 12}}, {"blake2b512", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 1, 16}},
    {"blake2s128", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 2, 4}}, {"blake2s160", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 2, 5}},
    {"blake2s224", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 2, 7}}, {"blake2s256", A{1, 3, 6, 1, 4, 1, 1722, 12, 2, 2, 8}},
    {"gost94", A{1, 2, 643, 2, 2, 20}}, {"md2", A{1, 2, 840, 113549, 2, 2}}, {"md4", A{1, 2, 840, 113549, 2, 4}},
    {"md5", A{1, 2, 840, 113549, 2, 5}}, {"ripemd160", A{1, 3, 36, 3, 2, 1}}, {"sha1", A{1, 3, 14, 3, 2, 26}},
    {"sha224", A{2, 16, 840, 1, 101, 3, 4, 2, 4}}, {"sha256", A{2, 16, 840, 1, 101, 3, 4, 2, 1}},
    {"sha384", A{2, 16, 840, 1, 101, 3, 4, 2, 2}}, {"sha512", A{2, 16, 840, 1, 101, 3, 4, 2, 3}},
    {"sha3_224", A{2, 16, 840, 1, 101, 3, 4, 2, 7}}, {"sha3_256", A{2, 16, 840, 1, 101, 3, 4, 2, 8}},
    {"sha3_384", A{2, 16, 840, 1, 101, 3, 4, 2, 9}}, {"sha3_512", A{2, 16, 840, 1, 101, 3, 4, 2, 10}},
    {"shake128", A{2, 16, 840, 1, 101, 3, 4, 2, 11}}, {"shake256", A{2, 16, 840, 1, 101, 3, 4, 2, 12}},
    {"whirlpool", A{1, 0, 10118, 3, 0, 55}}};
  auto it = ids.find(name);
  if (it == ids.end()) return Bytes();
  size_t out = hash_info(name).out;
  Bytes alg = der_tlv(0x30, cat(oid(it->second), Bytes{5, 0}));
  Bytes all = der_tlv(0x30, cat(alg, der_tlv(4, Bytes(out))));
  all.resize(all.size() - out);
  return all;
}
Bytes pkcs1_sig(const Bytes &prefix, const Bytes &digest, size_t klen) {
  Bytes t = cat(prefix, digest);
  if (klen < t.size() + 11) return Bytes();
  return cat(cat(Bytes{0, 1}, Bytes(klen - t.size() - 3, 0xff), Bytes{0}), t);
}
Bytes mgf1(const std::string &h, const Bytes &seed, size_t n) {
  Bytes r;
  for (uint32_t c = 0; r.size() < n; c++) r = cat(r, hash(h, cat(seed, be(c, 4))));
  r.resize(n);
  return r;
}
Bytes pss_encode(const std::string &h, const Bytes &digest, const Bytes &salt, size_t embits) {
  size_t em = (embits + 7) / 8, hl = digest.size();
  if (em < hl + salt.size() + 2) return Bytes();
  Bytes H = hash(h, cat(Bytes(8), digest, salt));
  Bytes db = cat(Bytes(em - salt.size() - hl - 2), Bytes{1}, salt);
  Bytes m = xorb(db, mgf1(h, H, db.size()));
  m[0] &= 0xff >> (8 * em - embits);
  return cat(m, H, Bytes{0xbc});
}
long pss_salt(const std::string &h, const Bytes &digest, const Bytes &e, size_t embits) {
  size_t em = (embits + 7) / 8, hl = digest.size();
  if (e.size() != em || em < hl + 2 || e.back() != 0xbc) return -1;
  Bytes m = sub(e, 0, em - hl - 1), H = sub(e, em - hl - 1, hl);
  int top = 0xff >> (8 * em - embits);
  if (m[0] & ~top) return -1;
  Bytes db = xorb(m, mgf1(h, H, m.size()));
  db[0] &= top;
  size_t i = 0;
  while (i < db.size() && db[i] == 0) i++;
  if (i == db.size() || db[i] != 1) return -1;
  Bytes salt = sub(db, i + 1, db.size());
  if (hash(h, cat(Bytes(8), digest, salt)) != H) return -1;
  return (long)salt.size();
}
Bytes oaep_encode(const std::string &h, const Bytes &msg, const Bytes &label, const Bytes &seed, size_t klen) {
  size_t hl = hash_info(h).out;
  if (klen < 2 * hl + 2 + msg.size()) return Bytes();
  Bytes db = cat(cat(hash(h, label), Bytes(klen - msg.size() - 2 * hl - 2), Bytes{1}), msg);
  Bytes mdb = xorb(db, mgf1(h, seed, db.size()));
  return cat(Bytes{0}, xorb(seed, mgf1(h, mdb, hl)), mdb);
}

}  // namespace ref
