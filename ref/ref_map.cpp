#include "ref_map.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace ref {

namespace {

struct Fq {
  const Z &p;
  explicit Fq(const Z &p_) : p(p_) {}
  Z mul(const Z &a, const Z &b) const {
    Z r;
    mulmod(r, a, b, p);
    return r;
  }
  Z sqr(const Z &a) const { return mul(a, a); }
  Z add(const Z &a, const Z &b) const { return (a + b) % p; }
  Z sub(const Z &a, const Z &b) const { return (a + p - b) % p; }
  Z neg(const Z &a) const { return a.zero() ? a : p - a; }
  Z inv(const Z &a) const { return a.zero() ? a : invz(a, p); }
  Z div(const Z &a, const Z &b) const { return mul(a, inv(b)); }
  Z num(long v) const { return v < 0 ? p - Z(-v) : Z(v); }
  bool square(const Z &a) const { return is_square(a, p); }
  // the root of the given parity
  Z root(const Z &a, bool odd) const {
    Z r;
    if (!sqrtmod(r, a, p)) {
      fprintf(stderr, "reference map: no square root\n");
      abort();
    }
    if (r.odd() != odd && !r.zero()) r = p - r;
    return r;
  }
  void roots(std::vector<Z> &out, const Z &a) const {
    Z r;
    if (!sqrtmod(r, a, p)) return;
    out.push_back(r);
    out.push_back(neg(r));
  }
};

long sswu_z(int id) {
  static const long z[5] = {-5, 31, -10, -12, -4};
  return z[id];
}

// sqrt(-3) on SECP256K1, even
Z svdw_c(const Fq &f) { return f.root(f.num(-3), false); }

long ell_z(bool c25519) { return c25519 ? 2 : -1; }

// Elligator 2 on y^2 = x^3 + A x^2 + B x
Pt elligator2(const Fq &f, const Z &A, const Z &B, const Z &z, const Z &u) {
  Z den = f.add(f.mul(z, f.sqr(u)), Z(1));
  if (den.zero()) den = Z(1);
  Z x = f.div(f.neg(A), den);
  auto g = [&](const Z &v) { return f.mul(v, f.add(f.add(f.sqr(v), f.mul(A, v)), B)); };
  if (!f.square(g(x))) x = f.sub(f.neg(x), A);
  return Pt(x, f.root(g(x), u.odd()));
}

// The Montgomery curve an Edwards curve is mapped through, and the map between.
struct Iso {
  const Edw &e;
  Fq f;
  Z c, A, B, A0, B0, z;
  bool invert;
  explicit Iso(int id) : e(edw(id)), f(e.p), z(f.num(ell_z(id == 0))), invert(id != 0) {
    static const char *cs[3] = {
      "0f26edf460a006bbd27b08dc03fc4f7ec5a1d3d14b7d1a82cc6e04aaff457e06",
      "4136d02f925d530d4b1d9e178310f2cbdd18a3e7c3a767a848e6db198c3d06311e725a0db991d0c6c3d1120f0efa59f54bf38e82b0e1e028",
      "005a7a03fb02f7195e441cd2e3f708f96f8ffbe8359548ba8276ace6bbe7dfd2"};
    c = Z::hex(cs[id]);
    Z s = f.add(e.a, e.d), d = invert ? f.sub(e.d, e.a) : f.sub(e.a, e.d);
    A = f.div(f.add(s, s), d);
    B = f.div(invert ? f.sub(A, Z(2)) : f.add(A, Z(2)), f.mul(e.a, f.sqr(c)));
    A0 = f.div(A, B);
    B0 = f.inv(f.sqr(B));
  }
  Pt to_edw(const Pt &m) const {  // m on the curve with B
    if (m.inf) return e.zero();
    if (m.x.zero()) return Pt(Z(0), e.p - Z(1));
    Z x = f.div(f.mul(c, m.x), m.y);
    Z y = invert ? f.div(f.add(m.x, Z(1)), f.sub(m.x, Z(1))) : f.div(f.sub(m.x, Z(1)), f.add(m.x, Z(1)));
    return Pt(x, y);
  }
};

const Iso &iso(int id) {
  static Iso all[3] = {Iso(0), Iso(1), Iso(2)};
  return all[id];
}

struct Rist {
  const Edw &e;
  Fq f;
  Z qnr, adm1s;
  explicit Rist(int id) : e(edw(id)), f(e.p) {
    // sqrt(-1) with the library's sign on Ed25519, -1 elsewhere
    qnr = id == 0 ? f.root(f.num(-1), false) : f.num(-1);
    adm1s = f.root(f.sub(f.mul(e.a, e.d), Z(1)), id != 1);
  }
};
const Rist &rist(int id) {
  static Rist all[3] = {Rist(0), Rist(1), Rist(2)};
  return all[id];
}

// The torsion points that a Ristretto element is blind to.
std::vector<Pt> kernel(const Edw &e) {
  std::vector<Pt> r;
  for (const Pt &T : e.torsion)
    if (e.mul(Z((long)e.h / 2), T) == e.zero()) r.push_back(T);
  return r;
}

}  // namespace

Z map_import(const Z &p, const Bytes &b, bool big_endian) {
  Z v = big_endian ? Z::be(b) : Z::le(b);
  return (v % Z::pow2(p.bits())) % p;
}

Pt map_wei(int id, const Z &u) {
  const Wei &c = wei(id);
  Fq f(c.p);
  if (id == 5) {
    Z z(1), gz = c.rhs(z), s3 = svdw_c(f), half = f.inv(Z(2));
    Z u2 = f.sqr(u), t1 = f.add(u2, gz), t2 = f.inv(f.mul(u2, t1)), t3 = f.mul(f.mul(f.sqr(u2), t2), s3);
    Z x = f.sub(f.mul(f.sub(s3, z), half), t3);
    if (!f.square(c.rhs(x))) {
      x = f.sub(t3, f.mul(f.add(s3, z), half));
      if (!f.square(c.rhs(x))) x = f.sub(z, f.div(f.mul(f.mul(f.sqr(t1), t1), t2), Z(3)));
    }
    return Pt(x, f.root(c.rhs(x), u.odd()));
  }
  Z z = f.num(sswu_z(id)), zu = f.mul(z, f.sqr(u));
  Z t = f.add(f.sqr(zu), zu), x;
  if (t.zero()) x = f.div(c.b, f.mul(z, c.a));
  else x = f.mul(f.neg(f.div(c.b, c.a)), f.add(Z(1), f.inv(t)));
  if (!f.square(c.rhs(x))) x = f.mul(zu, x);
  return Pt(x, f.root(c.rhs(x), u.odd()));
}

Pt map_mont(int id, const Z &u) {
  const Mont &c = mont(id);
  Fq f(c.p);
  return elligator2(f, c.A, Z(1), f.num(ell_z(id == 0)), u);
}

Pt map_edw(int id, const Z &u) {
  const Iso &i = iso(id);
  Pt m = elligator2(i.f, i.A0, i.B0, i.z, u);
  return i.to_edw(Pt(i.f.mul(m.x, i.B), i.f.mul(m.y, i.B)));
}

Pt map_rist(int id, const Z &u) {
  const Rist &R = rist(id);
  const Fq &f = R.f;
  const Z &a = R.e.a, &d = R.e.d;
  Z r = f.mul(R.qnr, f.sqr(u));
  Z w = f.mul(f.sub(f.mul(d, r), a), f.sub(f.mul(a, r), d));
  if (w.zero()) return R.e.zero();
  Z da = f.add(d, a), n = f.mul(f.mul(a, f.add(r, Z(1))), f.mul(da, f.sub(d, a)));
  Z q = f.div(n, w), s, t;
  if (f.square(q) && !r.zero()) {  // the second root for r = 0
    s = f.root(q, false);
    t = f.sub(f.neg(f.div(f.mul(f.sub(r, Z(1)), f.sqr(da)), w)), Z(1));
  } else {
    s = f.root(f.mul(r, q), true);
    t = f.sub(f.div(f.mul(f.mul(r, f.sub(r, Z(1))), f.sqr(da)), w), Z(1));
  }
  Z as2 = f.mul(a, f.sqr(s));
  Z x = f.div(f.add(s, s), f.mul(t, R.adm1s)), y = f.div(f.add(Z(1), as2), f.sub(Z(1), as2));
  return Pt(x, y);
}

std::vector<Z> special_wei(int id) {
  const Wei &c = wei(id);
  Fq f(c.p);
  std::vector<Z> r = {Z(0), Z(1), f.num(-1)};
  if (id == 5) f.roots(r, f.neg(c.rhs(Z(1))));
  else f.roots(r, f.neg(f.inv(f.num(sswu_z(id)))));
  return r;
}
std::vector<Z> special_mont(int id) {
  Fq f(mont(id).p);
  std::vector<Z> r = {Z(0), Z(1), f.num(-1)};
  f.roots(r, f.neg(f.inv(f.num(ell_z(id == 0)))));
  return r;
}
std::vector<Z> special_edw(int id) {
  Fq f(edw(id).p);
  std::vector<Z> r = {Z(0), Z(1), f.num(-1)};
  f.roots(r, f.neg(f.inv(f.num(ell_z(id == 0)))));
  return r;
}
std::vector<Z> special_rist(int id) {
  const Rist &R = rist(id);
  const Fq &f = R.f;
  std::vector<Z> r = {Z(0), Z(1), f.num(-1)};
  for (const Z &v : {Z(1), f.num(-1), f.div(R.e.a, R.e.d), f.div(R.e.d, R.e.a)}) f.roots(r, f.div(v, R.qnr));
  return r;
}

std::vector<Z> special_wei_x(int id) {
  const Wei &c = wei(id);
  Fq f(c.p);
  if (id == 5) {
    Z s3 = svdw_c(f), half = f.inv(Z(2));
    return {Z(0), Z(1), f.mul(f.sub(s3, Z(1)), half), f.mul(f.neg(f.add(s3, Z(1))), half)};
  }
  Z ba = f.div(c.b, c.a);
  return {Z(0), f.neg(ba), f.div(ba, f.num(sswu_z(id)))};
}
std::vector<Pt> special_edw_pt(int id) {
  const Iso &i = iso(id);
  const Fq &f = i.f;
  std::vector<Pt> r;
  for (const Z &x0 : {Z(0), f.neg(i.A0)}) {
    Z g = f.mul(x0, f.add(f.add(f.sqr(x0), f.mul(i.A0, x0)), i.B0));
    if (!f.square(g)) continue;
    for (bool odd : {false, true}) {
      Pt m(x0, f.root(g, odd));
      r.push_back(i.to_edw(Pt(f.mul(m.x, i.B), f.mul(m.y, i.B))));
    }
  }
  return r;
}

bool rist_dec(int id, Pt &P, const Bytes &v) {
  const Rist &R = rist(id);
  const Fq &f = R.f;
  if (v.size() != R.e.fs) return false;
  Z s = Z::le(v);
  if (s >= R.e.p || s.odd()) return false;
  Z as2 = f.mul(R.e.a, f.sqr(s)), u1 = f.add(Z(1), as2), u2 = f.sub(Z(1), as2);
  if (u2.zero()) return false;
  Z den = f.sub(f.mul(f.mul(R.e.a, R.e.d), f.sqr(u1)), f.sqr(u2));
  if (den.zero()) return false;
  Z x2 = f.div(f.mul(Z(4), f.sqr(s)), den);
  // for s = 0 the denominator itself decides
  if (!f.square(f.inv(den)) ) return false;
  P = Pt(f.root(x2, false), f.div(u1, u2));
  if (R.e.h == 8 && (f.mul(P.x, P.y).odd() || P.y.zero())) return false;
  return true;
}

bool rist_same(int id, const Pt &P, const Pt &Q) {
  const Edw &e = edw(id);
  Pt D = e.add(P, e.neg(Q));
  return e.mul(Z((long)e.h / 2), D) == e.zero();
}

bool rist_enc(int id, Bytes &out, const Pt &P) {
  const Rist &R = rist(id);
  const Fq &f = R.f;
  static const std::vector<Pt> ker[3] = {kernel(edw(0)), kernel(edw(1)), kernel(edw(2))};
  std::vector<Bytes> found;
  for (const Pt &T : ker[id]) {
    Pt Q = R.e.add(P, T);
    if (f.add(Q.y, Z(1)).zero()) continue;
    Z s2 = f.div(f.div(f.sub(Q.y, Z(1)), f.add(Q.y, Z(1))), R.e.a);
    if (!f.square(s2)) continue;
    Bytes s = f.root(s2, false).to_le(R.e.fs);
    Pt D;
    if (!rist_dec(id, D, s) || !rist_same(id, D, P)) continue;
    if (std::find(found.begin(), found.end(), s) == found.end()) found.push_back(s);
  }
  if (found.size() != 1) return false;
  out = found[0];
  return true;
}

}  // namespace ref
