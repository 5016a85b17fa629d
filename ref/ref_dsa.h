// Reference model of DSA (FIPS 186) on plain integers.
#pragma once
#include "ref_rsa.h"

namespace ref {
struct DsaGroup {
  Z p, q, g;
  size_t qlen() const { return (q.bits() + 7) / 8; }
  size_t plen() const { return (p.bits() + 7) / 8; }
  bool sane() const;
  bool ok() const { return sane() && powm(g, q, p) == Z(1); }
  bool pub_sane(const Z &y) const { return sane() && y >= Z(2) && y < p - Z(1); }
  bool pub_ok(const Z &y) const { return ok() && pub_sane(y) && powm(y, q, p) == Z(1); }
  bool priv_sane(const Z &y, const Z &x) const { return pub_sane(y) && x.sgn() > 0 && x < q; }
  bool priv_ok(const Z &y, const Z &x) const { return priv_sane(y, x) && pub_ok(y) && powm(g, x, p) == y; }
  Bytes params() const { return der_ints({p, q, g}, false); }
  Bytes pub(const Z &y) const { return der_ints({y, p, q, g}, false); }
  Bytes priv(const Z &y, const Z &x) const { return der_ints({p, q, g, y, x}, true); }
};
// A group of the pool: qkind 0 = q just above 2^(qbits-1), 1 = just below
// 2^qbits, 2 = anywhere.
const DsaGroup &dsa_pool(size_t pbits, size_t qbits, int qkind);
Z dsa_msg(const DsaGroup &g, const Bytes &msg);
Bytes model_dsa_sign(const DsaGroup &g, const Z &x, const Bytes &msg);  // RFC 6979 with SHA-256
bool model_dsa_verify(const DsaGroup &g, const Z &y, const Bytes &msg, const Bytes &sig);
}  // namespace ref
