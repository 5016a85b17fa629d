// Elliptic curves over GMP integers: plain textbook group laws, point encodings
// and signature equations. Curve parameters come from OpenSSL where it knows the
// curve and from the defining documents otherwise; they are checked at start-up.
#pragma once
#include <map>
#include "ref_hash.h"
#include "ref_int.h"

namespace ref {

struct Pt {
  Z x, y;
  bool inf = true;
  Pt() {}
  Pt(const Z &x_, const Z &y_) : x(x_), y(y_), inf(false) {}
};
inline bool operator==(const Pt &a, const Pt &b) { return a.inf == b.inf && (a.inf || (a.x == b.x && a.y == b.y)); }
inline bool operator!=(const Pt &a, const Pt &b) { return !(a == b); }

// ------------------------------------------------------- short Weierstrass

struct Wei {
  const char *name;
  Z p, a, b, n;
  Pt g;
  size_t fs, ss;     // bytes of a field element and of a scalar
  size_t pb, nb;     // bits
  const char *hash;  // for ECDSA nonces
  mutable std::vector<std::vector<Pt>> table;
  mutable std::map<std::string, int> memo;

  Pt add(const Pt &P, const Pt &Q) const;
  Pt neg(const Pt &P) const;
  Pt mul(const Z &k, const Pt &P) const;
  Pt mulg(const Z &k) const;
  Pt mul2(const Z &k, const Z &m, const Pt &Q) const;  // k G + m Q
  bool on_curve(const Pt &P) const;
  bool has_x(const Z &x) const;
  bool lift(Pt &P, const Z &x, bool odd) const;  // x in [0, p)
  bool lift_square(Pt &P, const Z &x) const;     // the y that is a square (p = 3 mod 4)
  Bytes enc(const Pt &P, bool compact) const;
  bool dec(Pt &P, const Bytes &b) const;
  Z msg(const Bytes &m) const;  // leftmost bits, reduced
  Z rhs(const Z &x) const;
};
const Wei &wei(int id);  // P192 P224 P256 P384 P521 SECP256K1

struct EcdsaSig {
  Z r, s;
  unsigned param;
};
EcdsaSig ref_ecdsa_sign(const Wei &c, const Bytes &msg, const Z &a);
bool ref_ecdsa_verify(const Wei &c, const Bytes &msg, const Z &r, const Z &s, const Pt &A);

// ------------------------------------------------------- twisted Edwards

struct Edw {
  const char *name;
  Z p, a, d, n;
  Pt g;  // never marked infinite
  unsigned h;
  size_t fs;  // bytes of a field element
  size_t es;  // bytes of an encoded point
  size_t pb, nb;
  size_t ss;  // scalar bytes
  const char *hash;
  bool context;
  const char *prefix;
  std::vector<Pt> torsion;  // all points of order dividing h
  mutable std::vector<std::vector<Pt>> table;

  Pt zero() const { return Pt(Z(0), Z(1)); }
  Pt add(const Pt &P, const Pt &Q) const;
  Pt neg(const Pt &P) const;
  Pt mul(const Z &k, const Pt &P) const;  // k >= 0, not reduced
  Pt mulg(const Z &k) const;
  bool on_curve(const Pt &P) const;
  bool lift_y(Pt &P, const Z &y, bool odd) const;
  bool lift_x(Pt &P, const Z &x, bool odd) const;
  Bytes enc(const Pt &P) const;
  bool dec(Pt &P, const Bytes &b) const;
  bool small(const Pt &P) const { return mul(Z((long)h), P) == zero(); }
  bool has_torsion(const Pt &P) const { return !(mul(n, P) == zero()); }
  Z clamp(const Bytes &scalar) const;
  Bytes sc(const Z &k) const { return k.to_le(ss); }
};
const Edw &edw(int id);  // ED25519 ED448 ED1174

// ------------------------------------------------------- Montgomery

struct Mont {
  const char *name;
  Z p, A, n;
  Pt g;
  unsigned h;
  size_t fs, ss, pb;
  std::vector<Pt> torsion;

  Pt add(const Pt &P, const Pt &Q) const;
  Pt neg(const Pt &P) const;
  Pt mul(const Z &k, const Pt &P) const;
  bool on_curve(const Pt &P) const;
  bool has_x(const Z &u) const;
  bool lift(Pt &P, const Z &u, bool odd) const;
  Z ladder(const Z &k, const Z &u) const;  // RFC 7748; 0 for the identity
  Z clamp(const Bytes &scalar) const;
  Z coord(const Bytes &b) const;  // masked and reduced
};
const Mont &mont(int id);  // X25519 X448

bool is_square(const Z &x, const Z &p);

}  // namespace ref
