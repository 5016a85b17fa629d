// C22-C24: Montgomery key agreement, EdDSA, and the Edwards group.
#include "ecc.h"
#include "ref_kdf.h"

using ref::Edw;
using ref::Mont;
using ref::edw;
using ref::mont;

namespace {

struct Grind {
  uint8_t mask, want;
  size_t calls = 0;
};
int grind_check(const unsigned char *pub, void *arg) {
  Grind *g = (Grind *)arg;
  g->calls++;
  return (pub[0] & g->mask) == g->want;
}
Grind gen_grind(T &t) {
  Grind g;
  g.mask = (uint8_t)t.pick({0, 1, 3, 7, 0x80});
  g.want = (uint8_t)t.byte() & g.mask;
  return g;
}

// A point of the Montgomery curve: prime order, mixed, small or arbitrary.
Pt gen_mpoint(T &t, const Mont &c) {
  switch (t.weighted({3, 3, 2, 3})) {
    case 0: return c.mul(gen_scalar(t, c.n), c.g);
    case 1: return c.add(c.mul(gen_scalar(t, c.n), c.g), c.torsion[t.range(0, c.h - 1)]);
    case 2: return c.torsion[t.range(1, c.h - 1)];
    default: {
      Pt P;
      Z u = gen_int(t, c.p, c.pb) % c.p;
      while (!c.lift(P, u, t.flip())) u = (u + Z(1)) % c.p;
      return P;
    }
  }
}

// Any coordinate string.
Bytes gen_u(T &t, const Mont &c) {
  Z u;
  switch (t.weighted({4, 3, 2, 2, 2})) {
    case 0: {
      Pt P = gen_mpoint(t, c);
      u = P.inf ? Z(0) : P.x;
      break;
    }
    case 1: u = gen_int(t, c.p, c.pb); break;
    case 2: u = (c.p + Z((long)t.range(0, 40)) - Z(20)) % Z::pow2(c.pb); break;
    case 3: u = Z((long)t.range(0, 20)); break;
    default: u = Z::le(t.bytes(c.fs)) % Z::pow2(c.pb); break;
  }
  if (t.chance(1, 4) && (u + c.p).bits() <= c.pb) u = u + c.p;
  Bytes b = u.to_le(c.fs);
  if (c.pb % 8 && t.chance(1, 4)) b[c.fs - 1] |= 0x80;
  return b;
}

Bytes gen_mscalar(T &t, const Mont &c) { return t.flip() ? t.bytes(c.ss) : gen_int(t, c.n, 8 * c.ss).to_le(c.ss); }

Z fmul(const Z &a, const Z &b, const Z &p) {
  Z r;
  ref::mulmod(r, a, b, p);
  return r;
}

}  // namespace

// ---------------------------------------------------------------- C22

PBT_RULE(C22, "the coordinate is on the curve or its twist and the result is not zero, or the string is not canonical");

PBT_PROP(C22, derive, 18000, 400000) {
  int id = (int)t.pick({0, 0, 1});
  const Mont &c = mont(id);
  mont_curve_t *ec = mont_ctx(id);
  Bytes k = gen_mscalar(t, c), u = gen_u(t, c);
  Z U = c.coord(u), want = c.ladder(c.clamp(k), U);
  bool ok = !want.zero();
  if (ok || Z::le(u) >= c.p) t.nontrivial();
  t.label("%s %s%s%s", c.name, c.has_x(U) ? "curve" : "twist", ok ? "" : " small", Z::le(u) >= c.p ? " non-canonical" : "");
  t.mix(k), t.mix(u);
  t.show("scalar", k), t.show("u", u);
  Buf kb(k), ub(u), o(c.fs);
  int r = ecdh_derive(ec, o, ub, kb);
  EXPECT(t, o.intact(), "ecdh_derive wrote outside its buffer");
  EXPECT(t, r == (int)ok, "ecdh_derive on %s returned %d, want %d", c.name, r, ok);
  if (ok) expect_eq(t, o.get(), want.to_le(c.fs), "ecdh_derive on %s", c.name);
  // in place over the coordinate
  Buf io(u);
  r = ecdh_derive(ec, io, io, kb);
  EXPECT(t, io.intact() && r == (int)ok, "ecdh_derive in place on %s returned %d", c.name, r);
  if (ok) expect_eq(t, io.get(), want.to_le(c.fs), "ecdh_derive in place on %s", c.name);
}

PBT_PROP(C22, agreement, 7000, 150000) {
  int id = (int)t.pick({0, 0, 1});
  const Mont &c = mont(id);
  mont_curve_t *ec = mont_ctx(id);
  Bytes a = gen_mscalar(t, c), b = gen_mscalar(t, c);
  t.nontrivial();
  t.label("%s", c.name);
  t.mix(a), t.mix(b);
  t.show("a", a), t.show("b", b);
  Buf ab(a), bb(b), A(c.fs), B(c.fs), s1(c.fs), s2(c.fs);
  ecdh_pubkey_create(ec, A, ab);
  ecdh_pubkey_create(ec, B, bb);
  EXPECT(t, A.intact() && B.intact(), "ecdh_pubkey_create wrote outside its buffer");
  expect_eq(t, A.get(), c.ladder(c.clamp(a), c.g.x).to_le(c.fs), "ecdh_pubkey_create on %s", c.name);
  EXPECT(t, ecdh_pubkey_verify(ec, A) == 1, "created key is not valid");
  EXPECT(t, ecdh_pubkey_is_small(ec, A) == 0 && ecdh_pubkey_has_torsion(ec, A) == 0, "created key has small order or torsion");
  int r1 = ecdh_derive(ec, s1, B, ab), r2 = ecdh_derive(ec, s2, A, bb);
  EXPECT(t, r1 == 1 && r2 == 1, "ecdh_derive refused a created key");
  expect_eq(t, s1.get(), s2.get(), "the two sides of the agreement on %s", c.name);
}

PBT_PROP(C22, private_keys, 6000, 80000) {
  int id = (int)t.pick({0, 0, 1});
  const Mont &c = mont(id);
  mont_curve_t *ec = mont_ctx(id);
  t.label("%s", c.name);
  EXPECT(t, ecdh_privkey_size(ec) == c.ss && ecdh_pubkey_size(ec) == c.fs && mont_curve_scalar_size(ec) == c.ss && mont_curve_field_size(ec) == c.fs && mont_curve_scalar_bits(ec) == c.n.bits() && mont_curve_field_bits(ec) == c.p.bits(), "sizes of %s", c.name);
  Bytes k = gen_mscalar(t, c);
  t.mix(k);
  t.show("key", k);
  Buf kb(k), o(c.ss);
  EXPECT(t, ecdh_privkey_verify(ec, kb) == 1, "ecdh_privkey_verify");
  EXPECT(t, ecdh_privkey_export(ec, o, kb) == 1 && o.intact(), "ecdh_privkey_export");
  expect_eq(t, o.get(), k, "ecdh_privkey_export");
  // import pads short strings and drops trailing zeros
  Bytes in = k;
  while (!in.empty() && in.back() == 0) in.pop_back();
  if (t.flip()) in.insert(in.end(), t.range(0, c.ss + 3), 0);
  else if (t.flip()) in = t.bytes(t.len(c.ss + 4));
  Z I = Z::le(in);
  Buf ib(in);
  int r = ecdh_privkey_import(ec, o, ib, in.size());
  bool ok = I.bits() <= 8 * c.ss;
  EXPECT(t, o.intact() && r == (int)ok, "ecdh_privkey_import returned %d, want %d", r, ok);
  if (ok) expect_eq(t, o.get(), I.to_le(c.ss), "ecdh_privkey_import");
  // generation
  Bytes ent = t.bytes(32);
  Buf eb(ent);
  ref::HmacDrbg rng("sha256", ent);
  Bytes raw = rng.generate(c.ss, Bytes());
  ecdh_privkey_generate(ec, o, eb);
  EXPECT(t, o.intact(), "ecdh_privkey_generate wrote outside its buffer");
  expect_eq(t, o.get(), c.clamp(raw).to_le(c.ss), "ecdh_privkey_generate");
  Grind g = gen_grind(t);
  t.nontrivial();
  ecdh_privkey_grind(ec, o, eb, grind_check, &g);
  EXPECT(t, o.intact(), "ecdh_privkey_grind wrote outside its buffer");
  Bytes pub = c.ladder(c.clamp(o.get()), c.g.x).to_le(c.fs);
  EXPECT(t, grind_check(pub.data(), &g), "ecdh_privkey_grind key does not satisfy the predicate");
}

PBT_PROP(C22, points, 10000, 200000) {
  int id = (int)t.pick({0, 0, 1});
  const Mont &c = mont(id);
  mont_curve_t *ec = mont_ctx(id);
  const Edw &e = edw(id);
  Bytes u = gen_u(t, c);
  Z U = c.coord(u);
  Pt P;
  bool ok = c.lift(P, U, false);
  if (ok || Z::le(u) >= c.p) t.nontrivial();
  t.label("%s %s", c.name, ok ? "curve" : "twist");
  t.mix(u);
  t.show("u", u);
  Buf ub(u), x(c.fs), y(c.fs);
  EXPECT(t, ecdh_pubkey_verify(ec, ub) == (int)ok, "ecdh_pubkey_verify, want %d", ok);
  bool small = ok && c.mul(Z((long)c.h), P).inf;
  EXPECT(t, ecdh_pubkey_is_small(ec, ub) == (int)small, "ecdh_pubkey_is_small on %s, want %d", c.name, small);
  bool tor = ok && !c.mul(c.n, P).inf;
  EXPECT(t, ecdh_pubkey_has_torsion(ec, ub) == (int)tor, "ecdh_pubkey_has_torsion on %s, want %d", c.name, tor);
  int sign = (int)t.range(0, 2) - 1;
  int r = ecdh_pubkey_export(ec, x, y, ub, sign);
  bool wok = ok && !(sign == 1 && P.y.zero());
  EXPECT(t, x.intact() && y.intact() && r == (int)wok, "ecdh_pubkey_export sign %d returned %d, want %d", sign, r, wok);
  if (wok) {
    Pt Q(Z::le(x.get()), Z::le(y.get()));
    EXPECT(t, Q.x == U && Q.y < c.p && c.on_curve(Q), "ecdh_pubkey_export gave another point");
    EXPECT(t, sign == -1 || Q.y.odd() == (bool)sign, "ecdh_pubkey_export gave the wrong root");
  }
  // import
  {
    Bytes xi = u, yi;
    bool has_y = false;
    switch (t.weighted({2, 3, 1, 1, 1})) {
      case 0: break;
      case 1:
        if (ok) yi = (t.flip() ? P.y : c.neg(P).y).to_le(c.fs), has_y = true;
        break;
      case 2: yi = gen_int(t, c.p, 8 * c.fs).to_le(c.fs), has_y = true; break;
      case 3: xi.clear(); break;
      default:
        if (ok && P.y.bits() <= 8 * c.fs) yi = P.y.to_le(c.fs), has_y = true, t.flip_bit(yi);
        break;
    }
    if (!xi.empty() && t.chance(1, 3)) {
      while (xi.size() > 1 && xi.back() == 0) xi.pop_back();
      if (t.flip()) xi.insert(xi.end(), t.range(0, 3), 0);
    }
    Z X = Z::le(xi), Y = Z::le(yi);
    bool iok = !xi.empty() && X < c.p && (!has_y || Y < c.p);
    if (iok) iok = has_y ? c.on_curve(Pt(X, Y)) : c.has_x(X);
    Buf xb(xi), yb(yi), o(c.fs);
    r = ecdh_pubkey_import(ec, o, xb, xi.size(), yb, yi.size());
    t.show("x", xi), t.show("y", yi);
    EXPECT(t, o.intact() && r == (int)iok, "ecdh_pubkey_import on %s returned %d, want %d", c.name, r, iok);
    if (iok) expect_eq(t, o.get(), X.to_le(c.fs), "ecdh_pubkey_import");
  }
  // conversion to the Edwards form
  Buf o(e.es);
  r = ecdh_pubkey_convert(ec, o, ub, sign);
  EXPECT(t, o.intact() && r == (int)ok, "ecdh_pubkey_convert on %s returned %d, want %d", c.name, r, ok);
  if (ok) {
    Pt Q;
    EXPECT(t, e.dec(Q, o.get()), "ecdh_pubkey_convert on %s gave an invalid key", c.name);
    EXPECT(t, sign == -1 || Q.x.zero() || Q.x.odd() == (bool)sign, "ecdh_pubkey_convert ignored the sign");
    if (id == 0) {
      Z want = fmul((U + c.p - Z(1)) % c.p, ref::invz((U + Z(1)) % c.p, c.p), c.p);
      EXPECT(t, Q.y == want, "ecdh_pubkey_convert on X25519 gave another y");
    } else {
      // the key of the prime-order part: the isogeny back recovers it
      Pt M = c.mul((Z(4) * ref::invz(Z(4), c.n)), P);
      EXPECT(t, e.mul(e.n, Q) == e.zero(), "ecdh_pubkey_convert on X448 left torsion");
      EXPECT(t, (Q == e.zero()) == M.inf, "ecdh_pubkey_convert on X448 at the identity");
      if (!M.inf) {
        Z q = fmul(Q.y, ref::invz(Q.x, c.p), c.p);
        EXPECT(t, fmul(q, q, c.p) == M.x, "ecdh_pubkey_convert on X448 is not the isogeny");
      }
    }
    // and back
    Buf back(c.fs);
    r = eddsa_pubkey_convert(edw_ctx(id), back, o);
    bool bok = Q != e.zero();
    EXPECT(t, back.intact() && r == (int)bok, "eddsa_pubkey_convert returned %d, want %d", r, bok);
    if (bok && (id == 0 || !tor)) expect_eq(t, back.get(), U.to_le(c.fs), "conversion there and back on %s", c.name);
  }
}

// ---------------------------------------------------------------- Edwards generators

namespace {

struct EP {
  Pt P;
  Z k;            // the logarithm of the prime-order part when known
  bool known;
  unsigned tor;   // index of the torsion part when known
};

EP gen_epoint(T &t, const Edw &c) {
  EP r;
  r.known = true, r.tor = 0;
  switch (t.weighted({4, 3, 2, 2, 1})) {
    case 0: r.k = gen_scalar(t, c.n); break;
    case 1: r.k = gen_scalar(t, c.n), r.tor = (unsigned)t.range(1, c.h - 1); break;
    case 2: r.k = Z(0), r.tor = (unsigned)t.range(0, c.h - 1); break;
    case 3: {
      r.known = false;
      Z y = gen_int(t, c.p, c.pb) % c.p;
      while (!c.lift_y(r.P, y, t.flip())) y = (y + Z(1)) % c.p;
      return r;
    }
    default: r.k = Z(0); break;
  }
  r.P = c.mulg(r.k);
  if (r.tor) r.P = c.add(r.P, c.torsion[r.tor]);
  return r;
}

// Any key string: a canonical key or something close to one.
Bytes gen_ekey(T &t, const Edw &c) {
  Pt P = gen_epoint(t, c).P;
  Bytes b = c.enc(P);
  switch (t.weighted({10, 2, 2, 2, 1})) {
    case 0: return b;
    case 1: t.flip_bit(b); return b;
    case 2: {  // the coordinate at or above the prime
      Z y = t.flip() ? P.y + c.p : c.p + Z((long)t.range(0, 20));
      if (y.bits() > 8 * c.fs - (c.es == c.fs)) y = c.p + Z((long)t.range(0, 2));
      b = y.to_le(c.es);
      if (t.flip()) b[c.es - 1] |= 0x80;
      return b;
    }
    case 3: {  // any coordinate, with the unused bits
      b = gen_int(t, c.p, c.pb).to_le(c.es);
      if (t.flip()) b[c.es - 1] |= (uint8_t)(0xff << (c.pb % 8)) & t.byte();
      return b;
    }
    default: return t.bytes(c.es);
  }
}

Bytes gen_escalar(T &t, const Edw &c) { return t.chance(1, 3) ? t.bytes(c.ss) : gen_int(t, c.n, 8 * c.ss).to_le(c.ss); }

struct Ctx {
  int ph;
  Bytes ctx;
};
Ctx gen_ctx(T &t) {
  Ctx x;
  x.ph = (int)t.weighted({3, 2, 2}) - 1;
  if (t.chance(1, 2)) x.ctx = t.bytes(t.chance(1, 12) ? 256 + t.len_near({0, 1, 254, 256}, 300) : t.len_near({1, 8, 255}, 255));
  return x;
}

Bytes hash_in(const Edw &c, const Ctx &x) {
  Bytes r;
  if (c.context || x.ph != -1 || !x.ctx.empty()) {
    r = ref::str(c.prefix);
    r.push_back(x.ph > 0);
    Bytes cx(x.ctx);  // only the first 255 bytes of a context count
    if (cx.size() > 255) cx.resize(255);
    r.push_back((uint8_t)cx.size());
    r = ref::cat(r, cx);
  }
  return r;
}
Bytes ehash(const Edw &c, const Bytes &in) { return ref::hash(c.hash, in, std::string(c.hash) == "shake256" ? 2 * c.es : 0); }

Z challenge(const Edw &c, const Ctx &x, const Bytes &R, const Bytes &A, const Bytes &m) {
  return Z::le(ehash(c, ref::cat(ref::cat(hash_in(c, x), R), ref::cat(A, m)))) % c.n;
}

// RFC 8032 signature by scalar a and prefix w.
Bytes ref_eddsa(const Edw &c, const Ctx &x, const Z &a, const Bytes &w, const Bytes &m) {
  Z k = Z::le(ehash(c, ref::cat(ref::cat(hash_in(c, x), w), m))) % c.n;
  Bytes R = c.enc(c.mulg(k)), A = c.enc(c.mulg(a));
  Z s = (k + challenge(c, x, R, A, m) * a) % c.n;
  return ref::cat(R, s.to_le(c.es));
}

enum { BAD = 0, COFACTORED = 1, STRICT = 2 };

// Which verification forms hold.
int ref_check(const Edw &c, const Ctx &x, const Bytes &m, const Bytes &sig, const Bytes &pub) {
  Pt R, A;
  Bytes rb(sig.begin(), sig.begin() + c.es), sb(sig.begin() + c.es, sig.end());
  Z s = Z::le(sb);
  if (!c.dec(R, rb) || !c.dec(A, pub) || s >= c.n) return BAD;
  Z e = challenge(c, x, rb, pub, m);
  Pt D = c.add(c.add(c.mulg(s), c.neg(c.mul(e, A))), c.neg(R));
  return D == c.zero() ? STRICT : c.small(D) ? COFACTORED : BAD;
}

struct Expanded {
  Z a;
  Bytes scalar, prefix;
};
Expanded expand(const Edw &c, const Bytes &priv) {
  Bytes h = ehash(c, priv);
  Expanded r;
  r.a = c.clamp(h);
  r.scalar = r.a.to_le(c.ss);
  r.prefix = Bytes(h.begin() + c.es, h.begin() + 2 * c.es);
  return r;
}

struct ESig {
  Bytes msg, sig, pub;
};

// A signature over a key with or without torsion, made with a chosen nonce, then
// possibly damaged. The outcome is always computed from the result.
ESig gen_esig(T &t, const Edw &c, Ctx &x, bool damage) {
  ESig r;
  r.msg = gen_msg(t, 160);
  Z a = t.chance(1, 12) ? Z(0) : gen_scalar(t, c.n), k = t.chance(1, 12) ? Z(0) : gen_scalar(t, c.n);
  Pt A = c.mulg(a), R = c.mulg(k);
  if (t.chance(1, 3)) A = c.add(A, c.torsion[t.range(0, c.h - 1)]);
  if (t.chance(1, 3)) R = c.add(R, c.torsion[t.range(0, c.h - 1)]);
  Bytes rb = c.enc(R);
  r.pub = c.enc(A);
  // non-canonical strings for the same point
  auto odd_enc = [&](const Pt &P, Bytes &b) {
    if (P.x.zero() && t.flip()) b[c.es - 1] ^= 0x80;
    else if ((P.y + c.p).bits() <= c.pb) {
      uint8_t top = b[c.es - 1] & 0x80;
      b = (P.y + c.p).to_le(c.es);
      b[c.es - 1] |= top;
    }
  };
  if (damage && t.chance(1, 10)) odd_enc(R, rb);
  if (damage && t.chance(1, 10)) odd_enc(A, r.pub);
  Z e = challenge(c, x, rb, r.pub, r.msg);
  Z s = (k + e * a) % c.n;
  switch (damage ? t.weighted({8, 3, 2, 2, 2, 2, 2, 2, 1, 1, 2}) : 0) {
    case 1: s = s + c.n; break;
    case 2: s = gen_int(t, c.n, c.nb); break;
    case 3: r.msg.empty() ? r.msg.push_back(0) : t.flip_bit(r.msg); break;
    case 4: rb = c.enc(c.neg(R)); break;
    case 5: x.ph = (int)t.range(0, 2) - 1; break;
    case 6: x.ctx = t.mutate(x.ctx, true); break;
    case 7: r.pub = c.enc(c.add(A, c.torsion[t.range(0, c.h - 1)])); break;
    case 8: t.flip_bit(rb); break;
    case 9: t.flip_bit(r.pub); break;
    case 10: rb = c.enc(c.add(R, c.torsion[t.range(0, c.h - 1)])); break;
    default: break;
  }
  if (s.bits() > 8 * c.es) s = s % c.n;
  r.sig = ref::cat(rb, s.to_le(c.es));
  if (damage && t.chance(1, 16)) t.flip_bit(r.sig);
  if (damage && t.chance(1, 16)) r.sig.back() |= (uint8_t)(1u << t.range(0, 7));
  return r;
}

}  // namespace

// ---------------------------------------------------------------- C23

PBT_RULE(C23, "points decode and the scalar is in range, or a signature is produced");

PBT_PROP(C23, sign, 10000, 150000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes priv = t.bytes(c.es), msg = gen_msg(t, 300);
  Ctx x = gen_ctx(t);
  t.nontrivial();
  t.label("%s ph %d ctx %d", c.name, x.ph, !x.ctx.empty());
  t.mix(priv), t.mix(msg), t.mix(x.ctx);
  t.show("priv", priv), t.show("msg", msg), t.show("ctx", x.ctx);
  t.note("ph %d", x.ph);
  Expanded ex = expand(c, priv);
  Buf pb(priv), mb(msg), cb(x.ctx), sig(2 * c.es), pub(c.es);
  eddsa_pubkey_create(ec, pub, pb);
  eddsa_sign(ec, sig, mb, msg.size(), pb, x.ph, cb, x.ctx.size());
  EXPECT(t, sig.intact() && pub.intact(), "eddsa_sign wrote outside its buffer");
  expect_eq(t, pub.get(), c.enc(c.mulg(ex.a)), "eddsa_pubkey_create on %s", c.name);
  expect_eq(t, sig.get(), ref_eddsa(c, x, ex.a, ex.prefix, msg), "eddsa_sign on %s", c.name);
  EXPECT(t, eddsa_verify(ec, mb, msg.size(), sig, pub, x.ph, cb, x.ctx.size()) == 1, "eddsa_verify refused a fresh signature");
  EXPECT(t, eddsa_verify_single(ec, mb, msg.size(), sig, pub, x.ph, cb, x.ctx.size()) == 1, "eddsa_verify_single refused a fresh signature");
  // the scalar form, for any scalar and prefix
  Bytes sc = gen_escalar(t, c), w = t.bytes(c.es);
  Buf scb(sc), wb(w);
  t.show("scalar", sc);
  eddsa_sign_with_scalar(ec, sig, mb, msg.size(), scb, wb, x.ph, cb, x.ctx.size());
  EXPECT(t, sig.intact(), "eddsa_sign_with_scalar wrote outside its buffer");
  expect_eq(t, sig.get(), ref_eddsa(c, x, Z::le(sc) % c.n, w, msg), "eddsa_sign_with_scalar on %s", c.name);
}

PBT_PROP(C23, verify, 20000, 300000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Ctx x = gen_ctx(t);
  ESig s = gen_esig(t, c, x, true);
  int want = ref_check(c, x, s.msg, s.sig, s.pub);
  Pt P;
  if (c.dec(P, s.pub) && c.dec(P, Bytes(s.sig.begin(), s.sig.begin() + c.es)) && Z::le(Bytes(s.sig.begin() + c.es, s.sig.end())) < c.n) t.nontrivial();
  t.label("%s %s", c.name, want == STRICT ? "valid" : want == COFACTORED ? "cofactored only" : "invalid");
  t.mix(s.msg), t.mix(s.sig), t.mix(s.pub), t.mix(x.ctx);
  t.show("msg", s.msg), t.show("sig", s.sig), t.show("pub", s.pub), t.show("ctx", x.ctx);
  t.note("ph %d", x.ph);
  Buf mb(s.msg), sb(s.sig), pb(s.pub), cb(x.ctx);
  int r = eddsa_verify(ec, mb, s.msg.size(), sb, pb, x.ph, cb, x.ctx.size());
  EXPECT(t, r == (want == STRICT), "eddsa_verify on %s returned %d, want %d", c.name, r, want == STRICT);
  r = eddsa_verify_single(ec, mb, s.msg.size(), sb, pb, x.ph, cb, x.ctx.size());
  EXPECT(t, r == (want != BAD), "eddsa_verify_single on %s returned %d, want %d", c.name, r, want != BAD);
  if (t.chance(1, 4)) {
    edwards_scratch_t *scr = edwards_scratch_create(ec, t.range(2, 5));
    const unsigned char *ms[1] = {mb}, *ss[1] = {sb}, *ps[1] = {pb};
    size_t ml[1] = {s.msg.size()};
    r = eddsa_verify_batch(ec, ms, ml, ss, ps, 1, x.ph, cb, x.ctx.size(), scr);
    edwards_scratch_destroy(ec, scr);
    EXPECT(t, r == (want != BAD), "eddsa_verify_batch of one on %s returned %d, want %d", c.name, r, want != BAD);
  }
}

PBT_PROP(C23, batch, 3500, 50000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Ctx x = gen_ctx(t);
  bool large = t.chance(1, 25);
  size_t n = large ? t.range(10, 70) : t.range(0, 9);
  std::vector<ESig> v(n);
  for (size_t i = 0; i < n; i++) {
    Ctx same = x;
    if (large && i > 6 && t.chance(9, 10)) v[i] = v[t.range(0, i - 1)];
    else v[i] = gen_esig(t, c, same, false);
  }
  auto put_s = [&](ESig &s, const Z &z) {
    Bytes b = z.to_le(c.es);
    std::copy(b.begin(), b.end(), s.sig.begin() + c.es);
  };
  auto get_s = [&](const ESig &s) { return Z::le(Bytes(s.sig.begin() + c.es, s.sig.end())); };
  int kind = (int)t.weighted({4, 3, 2, 2, 1});
  if (n == 0) kind = 0;
  switch (kind) {
    case 1: {  // one bad member, anywhere
      Ctx same = x;
      v[t.range(0, n - 1)] = gen_esig(t, c, same, true);
      break;
    }
    case 2: {  // two errors that cancel when added up plainly, or with small weights
      if (n < 2) break;
      size_t i = t.range(0, n - 1), j = t.range(0, n - 1);
      if (i == j) j = (i + 1) % n;
      Z d = gen_scalar(t, c.n), wi = Z(1), wj = Z(1);
      if (t.flip()) {
        bool place = t.flip();
        wi = Z::u64(place ? i + 1 : t.range(1, 4)), wj = Z::u64(place ? j + 1 : t.range(1, 4));
      }
      put_s(v[i], (get_s(v[i]) + d * wj) % c.n);
      put_s(v[j], (get_s(v[j]) + (c.n - d) * wi) % c.n);
      break;
    }
    case 3: {  // swapped halves between members
      if (n < 2) break;
      size_t i = t.range(0, n - 2);
      Z a = get_s(v[i]), b = get_s(v[i + 1]);
      put_s(v[i], b), put_s(v[i + 1], a);
      break;
    }
    case 4: {  // the same member twice, one of them off by one
      size_t i = t.range(0, n - 1);
      v.push_back(v[i]);
      put_s(v[i], (get_s(v[i]) + Z(1)) % c.n);
      n++;
      break;
    }
  }
  bool want = true;
  for (auto &s : v) want = ref_check(c, x, s.msg, s.sig, s.pub) != BAD && want;
  t.label("%s %s", c.name, n == 0 ? "empty" : want ? "valid" : "invalid");
  if (n > 1) t.nontrivial();
  std::vector<std::unique_ptr<Buf>> hold;
  std::vector<const unsigned char *> ms, ss, ps;
  std::vector<size_t> ml;
  auto keep = [&](const Bytes &b) {
    hold.emplace_back(new Buf(b));
    return (const unsigned char *)hold.back()->p;
  };
  for (size_t i = 0; i < n; i++) {
    ms.push_back(keep(v[i].msg)), ss.push_back(keep(v[i].sig)), ps.push_back(keep(v[i].pub));
    ml.push_back(v[i].msg.size());
    t.mix(v[i].sig);
    t.show("msg", v[i].msg), t.show("sig", v[i].sig), t.show("pub", v[i].pub);
  }
  t.show("ctx", x.ctx);
  t.note("ph %d", x.ph);
  Buf cb(x.ctx);
  edwards_scratch_t *scr = edwards_scratch_create(ec, large ? t.pick({20, 64, 65, 100, 140}) : (int)t.range(2, 20));
  int r = eddsa_verify_batch(ec, ms.data(), ml.data(), ss.data(), ps.data(), n, x.ph, cb, x.ctx.size(), scr);
  int r2 = eddsa_verify_batch(ec, ms.data(), ml.data(), ss.data(), ps.data(), n, x.ph, cb, x.ctx.size(), scr);
  edwards_scratch_destroy(ec, scr);
  EXPECT(t, r == (int)want, "eddsa_verify_batch of %zu on %s returned %d, want %d", n, c.name, r, want);
  EXPECT(t, r2 == r, "eddsa_verify_batch changed its answer with a used scratch space");
}

// ---------------------------------------------------------------- C24

PBT_RULE(C24, "all keys taking part are valid");

PBT_PROP(C24, scalars, 16000, 200000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes a = gen_escalar(t, c), w = gen_escalar(t, c), priv = t.bytes(c.es);
  Z A = Z::le(a) % c.n, W = Z::le(w) % c.n;
  t.nontrivial();
  t.label("%s%s", c.name, Z::le(a) >= c.n ? " unreduced" : "");
  t.mix(a), t.mix(w), t.mix(priv);
  t.show("scalar", a), t.show("tweak", w), t.show("priv", priv);
  Buf ab(a), wb(w), o(c.ss), pub(c.es), pb(priv), pre(c.es);
  auto same = [&](const char *what, const Z &want) {
    EXPECT(t, o.intact(), "%s wrote outside its buffer", what);
    expect_eq(t, o.get(), want.to_le(c.ss), "%s on %s", what, c.name);
  };
  EXPECT(t, eddsa_privkey_size(ec) == c.es && eddsa_pubkey_size(ec) == c.es && eddsa_sig_size(ec) == 2 * c.es && edwards_curve_scalar_size(ec) == c.ss && edwards_curve_field_size(ec) == c.fs && edwards_curve_scalar_bits(ec) == c.n.bits() && edwards_curve_field_bits(ec) == c.p.bits(), "sizes of %s", c.name);
  eddsa_scalar_tweak_add(ec, o, ab, wb), same("eddsa_scalar_tweak_add", (A + W) % c.n);
  eddsa_scalar_tweak_mul(ec, o, ab, wb), same("eddsa_scalar_tweak_mul", (A * W) % c.n);
  eddsa_scalar_reduce(ec, o, ab), same("eddsa_scalar_reduce", A);
  eddsa_scalar_negate(ec, o, ab), same("eddsa_scalar_negate", (c.n - A) % c.n);
  eddsa_scalar_invert(ec, o, ab), same("eddsa_scalar_invert", A.zero() ? A : ref::invz(A, c.n));
  eddsa_scalar_clamp(ec, o, ab), same("eddsa_scalar_clamp", c.clamp(a));
  memcpy(o.p, a.data(), c.ss);
  eddsa_scalar_tweak_mul(ec, o, o, wb), same("eddsa_scalar_tweak_mul in place", (A * W) % c.n);
  EXPECT(t, eddsa_scalar_verify(ec, ab) == 1, "eddsa_scalar_verify");
  EXPECT(t, eddsa_scalar_is_zero(ec, ab) == (int)A.zero(), "eddsa_scalar_is_zero on %s, want %d", c.name, A.zero());
  eddsa_pubkey_from_scalar(ec, pub, ab);
  EXPECT(t, pub.intact(), "eddsa_pubkey_from_scalar wrote outside its buffer");
  expect_eq(t, pub.get(), c.enc(c.mulg(A)), "eddsa_pubkey_from_scalar on %s", c.name);
  Expanded ex = expand(c, priv);
  eddsa_privkey_expand(ec, o, pre, pb), same("eddsa_privkey_expand", ex.a);
  EXPECT(t, pre.intact(), "eddsa_privkey_expand wrote outside its buffer");
  expect_eq(t, pre.get(), ex.prefix, "eddsa_privkey_expand prefix on %s", c.name);
  eddsa_privkey_convert(ec, o, pb), same("eddsa_privkey_convert", ex.a);
  Buf k(c.es);
  EXPECT(t, eddsa_privkey_verify(ec, pb) == 1 && eddsa_privkey_export(ec, k, pb) == 1 && k.intact(), "eddsa_privkey_export");
  expect_eq(t, k.get(), priv, "eddsa_privkey_export");
  Bytes in = t.chance(2, 3) ? priv : t.bytes(t.len_near({c.es - 1, c.es + 1}, c.es + 3));
  Buf ib(in);
  int r = eddsa_privkey_import(ec, k, ib, in.size());
  bool ok = in.size() == c.es;
  EXPECT(t, k.intact() && r == (int)ok, "eddsa_privkey_import of %zu bytes returned %d", in.size(), r);
  if (ok) expect_eq(t, k.get(), in, "eddsa_privkey_import");
}

PBT_PROP(C24, points, 20000, 300000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes a = gen_ekey(t, c), b = gen_ekey(t, c);
  if (t.chance(1, 10)) b = a;
  Pt P, Q;
  bool okP = c.dec(P, a);
  if (okP && t.chance(1, 8)) b = c.enc(c.neg(P));
  bool okQ = c.dec(Q, b);
  Bytes w = gen_escalar(t, c);
  Z W = Z::le(w);
  if (okP && okQ) t.nontrivial();
  t.label("%s%s%s", c.name, okP && c.has_torsion(P) ? " torsion" : "", okP ? "" : " invalid");
  t.mix(a), t.mix(b), t.mix(w);
  t.show("P", a), t.show("Q", b), t.show("tweak", w);
  Buf ab(a), bb(b), wb(w), o(c.es);
  auto same = [&](const char *what, int r, bool ok, const Pt &want) {
    EXPECT(t, o.intact(), "%s wrote outside its buffer", what);
    EXPECT(t, r == (int)ok, "%s on %s returned %d, want %d", what, c.name, r, ok);
    if (ok) expect_eq(t, o.get(), c.enc(want), "%s on %s", what, c.name);
  };
  EXPECT(t, eddsa_pubkey_verify(ec, ab) == (int)okP, "eddsa_pubkey_verify on %s, want %d", c.name, okP);
  bool inf = okP && P == c.zero();
  EXPECT(t, eddsa_pubkey_is_infinity(ec, ab) == (int)inf, "eddsa_pubkey_is_infinity, want %d", inf);
  bool small = okP && !inf && c.small(P), tor = okP && c.has_torsion(P);
  EXPECT(t, eddsa_pubkey_is_small(ec, ab) == (int)small, "eddsa_pubkey_is_small on %s, want %d", c.name, small);
  EXPECT(t, eddsa_pubkey_has_torsion(ec, ab) == (int)tor, "eddsa_pubkey_has_torsion on %s, want %d", c.name, tor);
  int r = eddsa_pubkey_negate(ec, o, ab);
  same("eddsa_pubkey_negate", r, okP, c.neg(P));
  r = eddsa_pubkey_add(ec, o, ab, bb);
  same("eddsa_pubkey_add", r, okP && okQ, okP && okQ ? c.add(P, Q) : P);
  r = eddsa_pubkey_tweak_add(ec, o, ab, wb);
  same("eddsa_pubkey_tweak_add", r, okP, okP ? c.add(P, c.mulg(W)) : P);
  r = eddsa_pubkey_tweak_mul(ec, o, ab, wb);
  same("eddsa_pubkey_tweak_mul", r, okP, okP ? c.mul(W, P) : P);
  Pt S = okP ? c.mul(c.clamp(w), P) : P;
  r = eddsa_derive_with_scalar(ec, o, ab, wb);
  same("eddsa_derive_with_scalar", r, okP && S != c.zero(), S);
  if (t.chance(1, 3)) {
    Bytes priv = t.bytes(c.es);
    Buf kb(priv);
    S = okP ? c.mul(expand(c, priv).a, P) : P;
    r = eddsa_derive(ec, o, ab, kb);
    same("eddsa_derive", r, okP && S != c.zero(), S);
  }
  // coordinates
  Buf x(c.fs), y(c.fs);
  r = eddsa_pubkey_export(ec, x, y, ab);
  EXPECT(t, x.intact() && y.intact() && r == (int)okP, "eddsa_pubkey_export returned %d", r);
  if (okP) {
    expect_eq(t, x.get(), P.x.to_le(c.fs), "eddsa_pubkey_export x on %s", c.name);
    expect_eq(t, y.get(), P.y.to_le(c.fs), "eddsa_pubkey_export y on %s", c.name);
  }
  // Montgomery form
  Buf m(c.fs);
  r = eddsa_pubkey_convert(ec, m, ab);
  bool mok = okP && !inf;
  EXPECT(t, m.intact() && r == (int)mok, "eddsa_pubkey_convert on %s returned %d, want %d", c.name, r, mok);
  if (mok) {
    Z num, den;
    if (id == 1) num = fmul(P.y, P.y, c.p), den = fmul(P.x, P.x, c.p);
    else if (id == 0) num = (Z(1) + P.y) % c.p, den = (c.p + Z(1) - P.y) % c.p;
    else num = (Z(1) + P.y) % c.p, den = (c.p + P.y - Z(1)) % c.p;
    Z u = P.x.zero() ? Z(0) : fmul(num, ref::invz(den, c.p), c.p);
    expect_eq(t, m.get(), u.to_le(c.fs), "eddsa_pubkey_convert on %s", c.name);
  }
}

PBT_PROP(C24, import, 16000, 200000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  EP e = gen_epoint(t, c);
  Z X = e.P.x, Y = e.P.y;
  switch (t.weighted({4, 1, 1, 1})) {
    case 1: X = gen_int(t, c.p, 8 * c.fs); break;
    case 2: Y = gen_int(t, c.p, 8 * c.fs); break;
    case 3: (t.flip() ? X : Y) = t.flip() ? c.p + Z((long)t.range(0, 4)) : (t.flip() ? X : Y) + c.p; break;
    default: break;
  }
  if (X.bits() > 8 * c.fs) X = X % c.p;
  if (Y.bits() > 8 * c.fs) Y = Y % c.p;
  Bytes x = X.to_le(c.fs), y = Y.to_le(c.fs);
  for (Bytes *v : {&x, &y})
    if (t.chance(1, 3)) {
      while (v->size() > 1 && v->back() == 0) v->pop_back();
      if (t.flip()) v->insert(v->end(), t.range(0, 3), 0);
    }
  int form = (int)t.weighted({2, 2, 2, 1});
  if (form == 1 || form == 3) x.clear();
  if (form == 2 || form == 3) y.clear();
  int sign = (int)t.range(0, 2) - 1;
  bool ok = form != 3 && (x.empty() || X < c.p) && (y.empty() || Y < c.p);
  Pt P;
  if (ok) {
    if (form == 0) P = Pt(X, Y), ok = c.on_curve(P);
    else if (form == 1) ok = c.lift_y(P, Y, sign == 1);
    else ok = c.lift_x(P, X, sign == 1);
  }
  if (ok) t.nontrivial();
  t.label("%s form %d", c.name, form);
  t.mix(x), t.mix(y), t.mix64(form * 4 + sign);
  t.show("x", x), t.show("y", y);
  t.note("sign %d", sign);
  Buf xb(x), yb(y), o(c.es);
  int r = eddsa_pubkey_import(ec, o, xb, x.size(), yb, y.size(), sign);
  EXPECT(t, o.intact() && r == (int)ok, "eddsa_pubkey_import on %s returned %d, want %d", c.name, r, ok);
  if (!ok) return;
  if (form == 0 || sign != -1) {
    expect_eq(t, o.get(), c.enc(P), "eddsa_pubkey_import on %s", c.name);
  } else {
    Pt Q;
    EXPECT(t, c.dec(Q, o.get()) && (form == 1 ? Q.y == Y : Q.x == X), "eddsa_pubkey_import on %s gave another point", c.name);
  }
}

PBT_PROP(C24, combine, 5000, 60000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  size_t n = t.range(0, 7);
  std::vector<Bytes> v(n);
  bool ok = true;
  Pt S = c.zero(), P, last = S;
  for (auto &b : v) {
    if (t.chance(1, 5)) b = c.enc(c.neg(S));
    else if (t.chance(1, 5)) b = c.enc(S);
    else if (t.chance(1, 12)) b = gen_ekey(t, c);
    else b = c.enc(gen_epoint(t, c).P);
    bool one = c.dec(P, b);
    ok = ok && one;
    if (one) S = c.add(S, P);
    t.mix(b);
    t.show("key", b);
  }
  if (ok && n > 1) t.nontrivial();
  t.label("%s %zu", c.name, n);
  std::vector<std::unique_ptr<Buf>> hold;
  std::vector<const unsigned char *> ps;
  for (auto &b : v) {
    hold.emplace_back(new Buf(b));
    ps.push_back(hold.back()->p);
  }
  Buf o(c.es);
  int r = eddsa_pubkey_combine(ec, o, ps.data(), n);
  EXPECT(t, o.intact() && r == (int)ok, "eddsa_pubkey_combine of %zu on %s returned %d, want %d", n, c.name, r, ok);
  if (ok) expect_eq(t, o.get(), c.enc(S), "eddsa_pubkey_combine of %zu on %s", n, c.name);
}

PBT_PROP(C24, tweaked_signing, 5000, 60000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes priv = t.bytes(c.es), w = gen_escalar(t, c), msg = gen_msg(t, 100);
  Ctx x = gen_ctx(t);
  bool mul = t.flip();
  t.nontrivial();
  t.label("%s %s", c.name, mul ? "mul" : "add");
  t.mix(priv), t.mix(w), t.mix(msg);
  t.show("priv", priv), t.show("tweak", w), t.show("msg", msg), t.show("ctx", x.ctx);
  t.note("ph %d", x.ph);
  Expanded ex = expand(c, priv);
  Z W = Z::le(w), a = mul ? (ex.a * W) % c.n : (ex.a + W) % c.n;
  Bytes pre = ref::hash(c.hash, ref::cat(ex.prefix, w), std::string(c.hash) == "shake256" ? c.es : 0);
  pre.resize(c.es);
  Buf pb(priv), wb(w), mb(msg), cb(x.ctx), sig(2 * c.es), pub(c.es), tp(c.es);
  (mul ? eddsa_sign_tweak_mul : eddsa_sign_tweak_add)(ec, sig, mb, msg.size(), pb, wb, x.ph, cb, x.ctx.size());
  EXPECT(t, sig.intact(), "tweaked signing wrote outside its buffer");
  expect_eq(t, sig.get(), ref_eddsa(c, x, a, pre, msg), "tweaked signature on %s", c.name);
  eddsa_pubkey_create(ec, pub, pb);
  int r = (mul ? eddsa_pubkey_tweak_mul : eddsa_pubkey_tweak_add)(ec, tp, pub, wb);
  EXPECT(t, r == 1 && tp.intact(), "public tweak returned %d", r);
  expect_eq(t, tp.get(), c.enc(c.mulg(a)), "tweaked public key on %s", c.name);
  EXPECT(t, eddsa_verify(ec, mb, msg.size(), sig, tp, x.ph, cb, x.ctx.size()) == 1, "tweaked signature does not verify under the tweaked key");
}

PBT_PROP(C24, generation, 3000, 30000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes ent = t.bytes(32);
  Grind g = gen_grind(t);
  t.nontrivial();
  t.label("%s", c.name);
  t.mix(ent), t.mix64(g.mask * 256 + g.want);
  t.show("entropy", ent);
  Buf eb(ent), k(c.es), s(c.ss);
  eddsa_privkey_generate(ec, k, eb);
  EXPECT(t, k.intact(), "eddsa_privkey_generate wrote outside its buffer");
  expect_eq(t, k.get(), ref::HmacDrbg("sha256", ent).generate(c.es, Bytes()), "eddsa_privkey_generate");
  eddsa_scalar_generate(ec, s, eb);
  EXPECT(t, s.intact(), "eddsa_scalar_generate wrote outside its buffer");
  expect_eq(t, s.get(), c.clamp(ref::HmacDrbg("sha256", ent).generate(c.ss, Bytes())).to_le(c.ss), "eddsa_scalar_generate");
  eddsa_privkey_grind(ec, k, eb, grind_check, &g);
  EXPECT(t, k.intact(), "eddsa_privkey_grind wrote outside its buffer");
  Bytes pub = c.enc(c.mulg(expand(c, k.get()).a));
  EXPECT(t, grind_check(pub.data(), &g), "eddsa_privkey_grind key does not satisfy the predicate");
  eddsa_scalar_grind(ec, s, eb, grind_check, &g);
  EXPECT(t, s.intact(), "eddsa_scalar_grind wrote outside its buffer");
  pub = c.enc(c.mulg(Z::le(s.get())));
  EXPECT(t, grind_check(pub.data(), &g), "eddsa_scalar_grind scalar does not satisfy the predicate");
}
