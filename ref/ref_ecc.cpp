#include "ref_ecc.h"

#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>

#include <cstdio>
#include <cstdlib>
#include <mutex>

#include "ref_kdf.h"

namespace ref {

namespace {

void need(bool ok, const char *what) {
  if (!ok) {
    fprintf(stderr, "reference curve self-check failed: %s\n", what);
    abort();
  }
}

Z from_bn(const BIGNUM *b) {
  Bytes v(BN_num_bytes(b));
  BN_bn2bin(b, v.data());
  return Z::be(v);
}

// Arithmetic in the field, with the in-place helpers of ref_int.
struct F {
  const Z &p;
  explicit F(const Z &p_) : p(p_) {}
  Z mul(const Z &a, const Z &b) const {
    Z r;
    mulmod(r, a, b, p);
    return r;
  }
  Z sqr(const Z &a) const { return mul(a, a); }
  Z add(const Z &a, const Z &b) const {
    Z r;
    addmod(r, a, b, p);
    return r;
  }
  Z sub(const Z &a, const Z &b) const {
    Z r;
    submod(r, a, b, p);
    return r;
  }
  Z dbl(const Z &a) const { return add(a, a); }
  Z neg(const Z &a) const { return a.zero() ? a : p - a; }
  Z inv(const Z &a) const { return invz(a, p); }
};

}  // namespace

bool is_square(const Z &x, const Z &p) { return kron(x, p) >= 0; }

// ------------------------------------------------------- short Weierstrass

namespace {

struct Jac {
  Z X, Y, Zc;  // Zc == 0: identity
};

struct WF : F {
  const Wei &c;
  explicit WF(const Wei &w) : F(w.p), c(w) {}
  Jac to(const Pt &P) const { return P.inf ? Jac{Z(1), Z(1), Z(0)} : Jac{P.x, P.y, Z(1)}; }
  Pt from(const Jac &J) const {
    if (J.Zc.zero()) return Pt();
    Z i = inv(J.Zc), i2 = sqr(i);
    return Pt(mul(J.X, i2), mul(J.Y, mul(i2, i)));
  }
  Jac dbl(const Jac &P) const {
    if (P.Zc.zero() || P.Y.zero()) return Jac{Z(1), Z(1), Z(0)};
    Z y2 = sqr(P.Y), s = F::dbl(F::dbl(mul(P.X, y2)));
    Z x2 = sqr(P.X), m = add(add(x2, x2), x2);
    if (!c.a.zero()) m = add(m, mul(c.a, sqr(sqr(P.Zc))));
    Jac R;
    R.X = sub(sqr(m), F::dbl(s));
    R.Y = sub(mul(m, sub(s, R.X)), F::dbl(F::dbl(F::dbl(sqr(y2)))));
    R.Zc = F::dbl(mul(P.Y, P.Zc));
    return R;
  }
  Jac add_mixed(const Jac &P, const Pt &Q) const {
    if (Q.inf) return P;
    if (P.Zc.zero()) return to(Q);
    Z z2 = sqr(P.Zc), u2 = mul(Q.x, z2), s2 = mul(Q.y, mul(z2, P.Zc));
    Z h = sub(u2, P.X), r = sub(s2, P.Y);
    if (h.zero()) return r.zero() ? dbl(P) : Jac{Z(1), Z(1), Z(0)};
    Z h2 = sqr(h), h3 = mul(h2, h), v = mul(P.X, h2);
    Jac R;
    R.X = sub(sub(sqr(r), h3), F::dbl(v));
    R.Y = sub(mul(r, sub(v, R.X)), mul(P.Y, h3));
    R.Zc = mul(P.Zc, h);
    return R;
  }
  using F::add;
};

// Affine window tables need inversions; small multiples by affine additions.
Pt wei_affine_add(const Wei &c, const Pt &P, const Pt &Q) {
  F f(c.p);
  if (P.inf) return Q;
  if (Q.inf) return P;
  Z l;
  if (P.x == Q.x) {
    if (f.add(P.y, Q.y).zero()) return Pt();
    Z x2 = f.sqr(P.x);
    l = f.mul(f.add(f.add(f.add(x2, x2), x2), c.a), f.inv(f.dbl(P.y)));
  } else {
    l = f.mul(f.sub(Q.y, P.y), f.inv(f.sub(Q.x, P.x)));
  }
  Z x = f.sub(f.sub(f.sqr(l), P.x), Q.x);
  return Pt(x, f.sub(f.mul(l, f.sub(P.x, x)), P.y));
}

void wei_table(const Wei &c) {
  if (!c.table.empty()) return;
  Pt B = c.g;
  for (size_t i = 0; i < (c.nb + 3) / 4; i++) {
    std::vector<Pt> row(16);
    for (int j = 1; j < 16; j++) row[j] = wei_affine_add(c, row[j - 1], B);
    B = wei_affine_add(c, row[15], B);
    c.table.push_back(row);
  }
}

unsigned nibble(const Z &k, size_t i) { return k.bit(4 * i) | k.bit(4 * i + 1) << 1 | k.bit(4 * i + 2) << 2 | k.bit(4 * i + 3) << 3; }

}  // namespace

Z Wei::rhs(const Z &x) const {
  F f(p);
  return f.add(f.add(f.mul(f.sqr(x), x), f.mul(a, x)), b);
}

Pt Wei::add(const Pt &P, const Pt &Q) const { return wei_affine_add(*this, P, Q); }
Pt Wei::neg(const Pt &P) const { return P.inf ? P : Pt(P.x, P.y.zero() ? P.y : p - P.y); }

Pt Wei::mul(const Z &k0, const Pt &P) const {
  WF f(*this);
  Z k = k0 % n;
  std::vector<Pt> w(16);
  for (int j = 1; j < 16; j++) w[j] = wei_affine_add(*this, w[j - 1], P);
  Jac R = f.to(Pt());
  for (size_t i = (nb + 3) / 4; i-- > 0;) {
    for (int j = 0; j < 4; j++) R = f.dbl(R);
    R = f.add_mixed(R, w[nibble(k, i)]);
  }
  return f.from(R);
}

Pt Wei::mulg(const Z &k0) const {
  WF f(*this);
  Z k = k0 % n;
  wei_table(*this);
  Jac R = f.to(Pt());
  for (size_t i = 0; i < table.size(); i++) R = f.add_mixed(R, table[i][nibble(k, i)]);
  return f.from(R);
}

Pt Wei::mul2(const Z &k, const Z &m, const Pt &Q) const { return add(mulg(k), mul(m, Q)); }

bool Wei::on_curve(const Pt &P) const {
  if (P.inf) return true;
  return F(p).sqr(P.y) == rhs(P.x);
}

bool Wei::has_x(const Z &x) const { return is_square(rhs(x), p); }

bool Wei::lift(Pt &P, const Z &x, bool odd) const {
  Z y;
  if (!sqrtmod(y, rhs(x), p)) return false;
  if (y.odd() != odd && !y.zero()) y = p - y;
  P = Pt(x, y);
  return true;
}

bool Wei::lift_square(Pt &P, const Z &x) const {
  if (!lift(P, x, false)) return false;
  if (!is_square(P.y, p)) P = neg(P);
  return true;
}

Bytes Wei::enc(const Pt &P, bool compact) const {
  Bytes r;
  r.push_back(compact ? 2 | P.y.odd() : 4);
  Bytes x = P.x.to_be(fs), y = P.y.to_be(fs);
  r.insert(r.end(), x.begin(), x.end());
  if (!compact) r.insert(r.end(), y.begin(), y.end());
  return r;
}

bool Wei::dec(Pt &P, const Bytes &v) const {
  if (v.empty()) return false;
  Z x, y;
  switch (v[0]) {
    case 2: case 3:
      if (v.size() != 1 + fs) return false;
      x = Z::be(v.data() + 1, fs);
      return x < p && lift(P, x, v[0] & 1);
    case 4: case 6: case 7:
      if (v.size() != 1 + 2 * fs) return false;
      x = Z::be(v.data() + 1, fs);
      y = Z::be(v.data() + 1 + fs, fs);
      if (x >= p || y >= p) return false;
      if (v[0] != 4 && (v[0] & 1) != y.odd()) return false;
      P = Pt(x, y);
      return on_curve(P);
  }
  return false;
}

Z Wei::msg(const Bytes &m) const {
  size_t k = std::min(m.size(), ss);
  Z z = Z::be(m.data(), k);
  if (8 * k > nb) z = z >> (8 * k - nb);
  return z % n;
}

const Wei &wei(int id) {
  static Wei all[6];
  static std::once_flag once;
  std::call_once(once, [] {
    static const struct { const char *name; int nid; const char *hash; } defs[6] = {
      {"P192", NID_X9_62_prime192v1, "sha256"}, {"P224", NID_secp224r1, "sha256"}, {"P256", NID_X9_62_prime256v1, "sha256"},
      {"P384", NID_secp384r1, "sha384"}, {"P521", NID_secp521r1, "sha512"}, {"SECP256K1", NID_secp256k1, "sha256"}};
    for (int i = 0; i < 6; i++) {
      Wei &c = all[i];
      EC_GROUP *g = EC_GROUP_new_by_curve_name(defs[i].nid);
      need(g != nullptr, defs[i].name);
      BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *x = BN_new(), *y = BN_new(), *n = BN_new();
      EC_GROUP_get_curve(g, p, a, b, nullptr);
      EC_GROUP_get_order(g, n, nullptr);
      EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), x, y, nullptr);
      c.name = defs[i].name;
      c.hash = defs[i].hash;
      c.p = from_bn(p), c.a = from_bn(a), c.b = from_bn(b), c.n = from_bn(n);
      c.g = Pt(from_bn(x), from_bn(y));
      c.pb = c.p.bits(), c.nb = c.n.bits();
      c.fs = (c.pb + 7) / 8, c.ss = (c.nb + 7) / 8;
      for (BIGNUM *v : {p, a, b, x, y, n}) BN_free(v);
      EC_GROUP_free(g);
      need(c.on_curve(c.g), defs[i].name);
      need(c.add(c.mulg(c.n - Z(1)), c.g).inf, defs[i].name);
    }
  });
  return all[id];
}

EcdsaSig ref_ecdsa_sign(const Wei &c, const Bytes &msg, const Z &a) {
  Z m = c.msg(msg);
  HmacDrbg rng(c.hash, cat(a.to_be(c.ss), m.to_be(c.ss)));
  for (;;) {
    Bytes raw = rng.generate(c.ss, Bytes());
    Z k = Z::be(raw) >> (8 * c.ss - c.nb);
    if (k.zero() || k >= c.n) continue;
    Pt R = c.mulg(k);
    Z r = R.x % c.n;
    if (r.zero()) continue;
    Z s = ((r * a + m) * invz(k, c.n)) % c.n;
    EcdsaSig o;
    o.param = (unsigned)(R.x >= c.n) << 1 | R.y.odd();
    if (s > (c.n >> 1)) {
      s = c.n - s;
      o.param ^= 1;
    }
    o.r = r, o.s = s;
    return o;
  }
}

bool ref_ecdsa_verify(const Wei &c, const Bytes &msg, const Z &r, const Z &s, const Pt &A) {
  if (r.zero() || s.zero() || r >= c.n || s > (c.n >> 1) || A.inf) return false;
  Z w = invz(s, c.n);
  Pt R = c.mul2((c.msg(msg) * w) % c.n, (r * w) % c.n, A);
  return !R.inf && R.x % c.n == r;
}

// ------------------------------------------------------- twisted Edwards

namespace {

struct Ext {
  Z X, Y, Zc, T;
};

struct EF : F {
  const Edw &c;
  explicit EF(const Edw &e) : F(e.p), c(e) {}
  Ext to(const Pt &P) const { return Ext{P.x, P.y, Z(1), mul(P.x, P.y)}; }
  Pt from(const Ext &E) const {
    Z i = inv(E.Zc);
    return Pt(mul(E.X, i), mul(E.Y, i));
  }
  // Complete when a is a square and d is not, which holds for all three curves.
  Ext padd(const Ext &P, const Ext &Q) const {
    Z A = mul(P.X, Q.X), B = mul(P.Y, Q.Y), C = mul(mul(P.T, c.d), Q.T), D = mul(P.Zc, Q.Zc);
    Z E = sub(sub(mul(add(P.X, P.Y), add(Q.X, Q.Y)), A), B);
    Z Fm = sub(D, C), G = add(D, C), H = sub(B, mul(c.a, A));
    return Ext{mul(E, Fm), mul(G, H), mul(Fm, G), mul(E, H)};
  }
};

unsigned window4(const Z &k, size_t i) { return nibble(k, i); }

void edw_table(const Edw &c) {
  if (!c.table.empty()) return;
  EF f(c);
  Ext B = f.to(c.g);
  for (size_t i = 0; i < (c.nb + 3) / 4; i++) {
    std::vector<Pt> row(16);
    Ext R = f.to(c.zero());
    for (int j = 0; j < 16; j++) {
      row[j] = f.from(R);
      R = f.padd(R, B);
    }
    B = R;
    c.table.push_back(row);
  }
}

}  // namespace

Pt Edw::add(const Pt &P, const Pt &Q) const {
  EF f(*this);
  return f.from(f.padd(f.to(P), f.to(Q)));
}
Pt Edw::neg(const Pt &P) const { return Pt(P.x.zero() ? P.x : p - P.x, P.y); }

Pt Edw::mul(const Z &k, const Pt &P) const {
  EF f(*this);
  std::vector<Ext> w(16);
  w[0] = f.to(zero());
  w[1] = f.to(P);
  for (int j = 2; j < 16; j++) w[j] = f.padd(w[j - 1], w[1]);
  Ext R = w[0];
  for (size_t i = (k.bits() + 3) / 4; i-- > 0;) {
    for (int j = 0; j < 4; j++) R = f.padd(R, R);
    R = f.padd(R, w[window4(k, i)]);
  }
  return f.from(R);
}

Pt Edw::mulg(const Z &k0) const {
  EF f(*this);
  Z k = k0 % n;
  edw_table(*this);
  Ext R = f.to(zero());
  for (size_t i = 0; i < table.size(); i++) R = f.padd(R, f.to(table[i][window4(k, i)]));
  return f.from(R);
}

bool Edw::on_curve(const Pt &P) const {
  F f(p);
  Z x2 = f.sqr(P.x), y2 = f.sqr(P.y);
  return f.add(f.mul(a, x2), y2) == f.add(Z(1), f.mul(d, f.mul(x2, y2)));
}

bool Edw::lift_y(Pt &P, const Z &y, bool odd) const {
  F f(p);
  Z y2 = f.sqr(y), x;
  Z v = f.sub(f.mul(d, y2), a);  // never zero: a/d is not a square
  if (!sqrtmod(x, f.mul(f.sub(y2, Z(1)), f.inv(v)), p)) return false;
  if (x.zero() && odd) return false;
  if (x.odd() != odd) x = p - x;
  P = Pt(x, y);
  return true;
}

bool Edw::lift_x(Pt &P, const Z &x, bool odd) const {
  F f(p);
  Z x2 = f.sqr(x), y;
  Z v = f.sub(f.mul(d, x2), Z(1));
  if (!sqrtmod(y, f.mul(f.sub(f.mul(a, x2), Z(1)), f.inv(v)), p)) return false;
  if (y.zero() && odd) return false;
  if (y.odd() != odd) y = p - y;
  P = Pt(x, y);
  return true;
}

Bytes Edw::enc(const Pt &P) const {
  Bytes r = P.y.to_le(es);
  if (P.x.odd()) r[es - 1] |= 0x80;
  return r;
}

bool Edw::dec(Pt &P, const Bytes &v) const {
  if (v.size() != es) return false;
  Bytes b(v);
  bool odd = b[es - 1] >> 7;
  b[es - 1] &= 0x7f;
  Z y = Z::le(b);
  return y < p && lift_y(P, y, odd);
}

// Clears the cofactor bits, sets the top bit of the field size, and clears
// everything above it.
Z Edw::clamp(const Bytes &s) const {
  Z k = Z::le(s.data(), ss);
  size_t top = pb - 1;
  return (((k % Z::pow2(top)) >> (h == 8 ? 3 : 2)) << (h == 8 ? 3 : 2)) | Z::pow2(top);
}

const Edw &edw(int id) {
  static Edw all[3];
  static std::once_flag once;
  std::call_once(once, [] {
    Edw &e = all[0];
    e.name = "ED25519";
    e.p = Z::pow2(255) - Z(19);
    e.a = e.p - Z(1);
    e.d = ((e.p - Z(121665)) * invz(Z(121666), e.p)) % e.p;
    e.n = Z::pow2(252) + Z::str("27742317777372353535851937790883648493", 10);
    e.h = 8;
    e.hash = "sha512", e.context = false, e.prefix = "SigEd25519 no Ed25519 collisions";
    e.fs = 32, e.es = 32, e.ss = 32, e.pb = 255, e.nb = 253;
    need(e.lift_y(e.g, (Z(4) * invz(Z(5), e.p)) % e.p, false), "ed25519 base");
    Edw &f = all[1];
    f.name = "ED448";
    f.p = Z::pow2(448) - Z::pow2(224) - Z(1);
    f.a = Z(1);
    f.d = f.p - Z(39081);
    f.n = Z::pow2(446) - Z::str("13818066809895115352007386748515426880336692474882178609894547503885", 10);
    f.h = 4;
    f.hash = "shake256", f.context = true, f.prefix = "SigEd448";
    f.fs = 56, f.es = 57, f.ss = 56, f.pb = 448, f.nb = 446;
    f.g = Pt(Z::str("224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710", 10),
             Z::str("298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660", 10));
    Edw &g = all[2];
    g.name = "ED1174";
    g.p = Z::pow2(251) - Z(9);
    g.a = Z(1);
    g.d = g.p - Z(1174);
    g.n = Z::pow2(249) - Z::str("11332719920821432534773113288178349711", 10);
    g.h = 4;
    g.hash = "sha512", g.context = true, g.prefix = "SigEd1174";
    g.fs = 32, g.es = 32, g.ss = 32, g.pb = 251, g.nb = 249;
    g.g = Pt(Z::str("1582619097725911541954547006453739763381091388846394833492296309729998839514", 10),
             Z::str("3037538013604154504764115728651437646519513534305223422754827055689195992590", 10));
    for (Edw &c : all) {
      need(is_prime(c.p) && is_prime(c.n), c.name);
      need(c.on_curve(c.g), c.name);
      need(c.mul(c.n, c.g) == c.zero(), c.name);
      need(is_square(c.a, c.p) && !is_square(c.d, c.p), c.name);
      // the torsion subgroup: n P for points P until all h of them are seen
      for (long y = 2; c.torsion.size() < c.h && y < 400; y++) {
        Pt P;
        if (!c.lift_y(P, Z(y), false)) continue;
        Pt T = c.mul(c.n, P), R = c.zero();
        std::vector<Pt> orbit;
        do {
          orbit.push_back(R);
          R = c.add(R, T);
        } while (R != c.zero());
        if (orbit.size() == c.h) c.torsion = orbit;  // all three groups are cyclic
      }
      need(c.torsion.size() == c.h, c.name);
    }
  });
  return all[id];
}

// ------------------------------------------------------- Montgomery

Pt Mont::add(const Pt &P, const Pt &Q) const {
  F f(p);
  if (P.inf) return Q;
  if (Q.inf) return P;
  Z l;
  if (P.x == Q.x) {
    if (f.add(P.y, Q.y).zero()) return Pt();
    Z x2 = f.sqr(P.x);
    l = f.mul(f.add(f.add(f.add(f.add(x2, x2), x2), f.dbl(f.mul(A, P.x))), Z(1)), f.inv(f.dbl(P.y)));
  } else {
    l = f.mul(f.sub(Q.y, P.y), f.inv(f.sub(Q.x, P.x)));
  }
  Z x = f.sub(f.sub(f.sub(f.sqr(l), A), P.x), Q.x);
  return Pt(x, f.sub(f.mul(l, f.sub(P.x, x)), P.y));
}
Pt Mont::neg(const Pt &P) const { return P.inf ? P : Pt(P.x, P.y.zero() ? P.y : p - P.y); }

Pt Mont::mul(const Z &k, const Pt &P) const {
  Pt R;
  for (size_t i = k.bits(); i-- > 0;) {
    R = add(R, R);
    if (k.bit(i)) R = add(R, P);
  }
  return R;
}

static Z mont_rhs(const Mont &c, const Z &u) {
  F f(c.p);
  return f.add(f.mul(f.add(u, c.A), f.sqr(u)), u);
}
bool Mont::on_curve(const Pt &P) const { return P.inf || F(p).sqr(P.y) == mont_rhs(*this, P.x); }
bool Mont::has_x(const Z &u) const { return is_square(mont_rhs(*this, u), p); }
bool Mont::lift(Pt &P, const Z &u, bool odd) const {
  Z v;
  if (!sqrtmod(v, mont_rhs(*this, u), p)) return false;
  if (v.odd() != odd && !v.zero()) v = p - v;
  P = Pt(u, v);
  return true;
}

Z Mont::ladder(const Z &k, const Z &u) const {
  // RFC 7748, section 5
  F f(p);
  Z x1 = u, x2(1), z2(0), x3 = u, z3(1), a24 = (A - Z(2)) >> 2;
  bool swap = false;
  for (size_t t = pb; t-- > 0;) {
    bool kt = k.bit(t);
    if (swap != kt) std::swap(x2, x3), std::swap(z2, z3);
    swap = kt;
    Z a = f.add(x2, z2), aa = f.sqr(a), b = f.sub(x2, z2), bb = f.sqr(b), e = f.sub(aa, bb);
    Z c = f.add(x3, z3), d = f.sub(x3, z3), da = f.mul(d, a), cb = f.mul(c, b);
    x3 = f.sqr(f.add(da, cb));
    z3 = f.mul(x1, f.sqr(f.sub(da, cb)));
    x2 = f.mul(aa, bb);
    z2 = f.mul(e, f.add(aa, f.mul(a24, e)));
  }
  if (swap) std::swap(x2, x3), std::swap(z2, z3);
  return f.mul(x2, f.inv(z2));
}

Z Mont::clamp(const Bytes &s) const {
  Z k = Z::le(s.data(), ss);
  size_t low = h == 8 ? 3 : 2, top = pb - 1;
  return (((k % Z::pow2(top)) >> low) << low) | Z::pow2(top);
}

Z Mont::coord(const Bytes &b) const { return (Z::le(b) % Z::pow2(pb)) % p; }

const Mont &mont(int id) {
  static Mont all[2];
  static std::once_flag once;
  std::call_once(once, [] {
    Mont &c = all[0];
    c.name = "X25519", c.p = edw(0).p, c.A = Z(486662), c.n = edw(0).n, c.h = 8, c.fs = c.ss = 32, c.pb = 255;
    need(c.lift(c.g, Z(9), false), "x25519 base");
    Mont &d = all[1];
    d.name = "X448", d.p = edw(1).p, d.A = Z(156326), d.n = edw(1).n, d.h = 4, d.fs = d.ss = 56, d.pb = 448;
    need(d.lift(d.g, Z(5), false), "x448 base");
    for (Mont &m : all) {
      need(m.mul(m.n, m.g).inf, m.name);
      need(m.ladder(m.n - Z(1), m.g.x) == m.g.x, m.name);
      for (long u = 2; m.torsion.size() < m.h && u < 400; u++) {
        Pt P;
        if (!m.lift(P, Z(u), false)) continue;
        Pt T = m.mul(m.n, P), R;
        std::vector<Pt> orbit;
        do {
          orbit.push_back(R);
          R = m.add(R, T);
        } while (!R.inf);
        if (orbit.size() == m.h) m.torsion = orbit;
      }
      need(m.torsion.size() == m.h, m.name);
    }
  });
  return all[id];
}

}  // namespace ref
