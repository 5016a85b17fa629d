#include "ref_dsa.h"
#include <map>
#include <tuple>

namespace ref {

bool DsaGroup::sane() const {
  if (p.bits() < 512 || p.bits() > 10000 || !p.odd() || !q.odd()) return false;
  if (q.bits() != 160 && q.bits() != 224 && q.bits() != 256) return false;
  return g >= Z(2) && g < p - Z(1);
}
const DsaGroup &dsa_pool(size_t pbits, size_t qbits, int kind) {
  static std::map<std::tuple<size_t, size_t, int>, DsaGroup> pool;
  auto it = pool.find(std::make_tuple(pbits, qbits, kind));
  if (it != pool.end()) return it->second;
  std::string tag = "dsa " + std::to_string(pbits) + " " + std::to_string(qbits) + " " + std::to_string(kind);
  Z s = Z::be(hash("shake256", str(tag.c_str()), (pbits + qbits) / 8 + 2));
  DsaGroup d;
  if (kind == 0) {
    d.q = next_prime(Z::pow2(qbits - 1) + s % Z(1000));
  } else if (kind == 1) {
    Z z = Z::pow2(qbits) - Z(1) - (s % Z(1000)) * Z(2);
    while (!is_prime(z)) z = z - Z(2);
    d.q = z;
  } else {
    d.q = next_prime(Z::pow2(qbits - 1) + s % Z::pow2(qbits - 2));
  }
  Z step = d.q * Z(2);
  Z p = Z::pow2(pbits - 1) + (s >> 64) % Z::pow2(pbits - 2);
  p = p - p % step + Z(1);
  for (;; p = p + step) {
    if (p.bits() < pbits) continue;
    bool small = false;
    for (int f : {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73})
      if ((p % Z(f)).zero()) small = true;
    if (!small && strong_prp(p, Z(2)) && is_prime(p)) break;
  }
  d.p = p;
  for (long h = 2;; h++) {
    d.g = powm(Z(h), fdiv(p - Z(1), d.q), p);
    if (d.g != Z(1)) break;
  }
  return pool[std::make_tuple(pbits, qbits, kind)] = d;
}
// The leftmost bits of the message, as an integer below 2^bits(q).
static Z leftmost(const Z &q, const Bytes &msg) {
  Z z = Z::be(msg);
  if (8 * msg.size() > q.bits()) z = z >> (8 * msg.size() - q.bits());
  return z;
}
Z dsa_msg(const DsaGroup &g, const Bytes &msg) { return leftmost(g.q, msg) % g.q; }
Bytes model_dsa_sign(const DsaGroup &g, const Z &x, const Bytes &msg) {
  size_t n = g.qlen();
  Z m = dsa_msg(g, msg);
  Bytes K(32, 0), V(32, 1), seed = cat(x.to_be(n), m.to_be(n));
  K = hmac("sha256", K, cat(V, Bytes{0}, seed));
  V = hmac("sha256", K, V);
  K = hmac("sha256", K, cat(V, Bytes{1}, seed));
  V = hmac("sha256", K, V);
  for (;;) {
    V = hmac("sha256", K, V);
    Z k = leftmost(g.q, sub(V, 0, n));
    if (!k.zero() && k < g.q) {
      Z r = powm(g.g, k, g.p) % g.q, s = invz(k, g.q) * (m + r * x) % g.q;
      if (!r.zero() && !s.zero()) return cat(r.to_be(n), s.to_be(n));
    }
    K = hmac("sha256", K, cat(V, Bytes{0}));
    V = hmac("sha256", K, V);
  }
}
bool model_dsa_verify(const DsaGroup &g, const Z &y, const Bytes &msg, const Bytes &sig) {
  size_t n = g.qlen();
  if (sig.size() != 2 * n) return false;
  Z r = Z::be(sig.data(), n), s = Z::be(sig.data() + n, n), w;
  if (r.zero() || s.zero() || r >= g.q || s >= g.q || !inv(w, s, g.q)) return false;
  Z v = powm(g.g, dsa_msg(g, msg) * w % g.q, g.p) * powm(y, r * w % g.q, g.p) % g.p % g.q;
  return v == r;
}

}  // namespace ref
