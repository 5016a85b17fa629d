// C17-C21: short Weierstrass curves.
#include "ecc.h"

using ref::Wei;
using ref::wei;

namespace {

// A curve point whose discrete logarithm is known (k != 0) or not (k == 0).
Pt gen_point(T &t, const Wei &c, Z *k = nullptr) {
  if (k || t.chance(2, 3)) {
    Z s = gen_scalar(t, c.n);
    if (k) *k = s;
    return c.mulg(s);
  }
  Pt P;
  Z x = gen_int(t, c.p, c.pb) % c.p;
  while (!c.lift(P, x, t.flip())) x = (x + Z(1)) % c.p;
  return P;
}

// Another point with the same y coordinate or its negative, where one exists:
// x^2 + x x1 + x1^2 + a = 0.
bool gen_same_y(T &t, const Wei &c, const Pt &P, Pt &Q) {
  Z r, half = (c.p + Z(1)) >> 1;
  if (P.inf || !ref::sqrtmod(r, (Z(-3) * P.x * P.x - Z(4) * c.a) % c.p, c.p)) return false;
  if (t.flip()) r = -r;
  Q.x = ((r - P.x) * half) % c.p;
  Q.y = P.y;
  Q.inf = false;
  if (t.flip()) Q = c.neg(Q);
  return c.on_curve(Q);
}

Bytes gen_enc(T &t, const Wei &c, const Pt &P) {
  Bytes b = c.enc(P, t.flip());
  if (b[0] == 4 && t.chance(1, 4)) b[0] = 6 | P.y.odd();
  return b;
}

// Any string: a genuine key, a key damaged in some way, or noise.
Bytes gen_pub(T &t, const Wei &c) {
  Pt P = gen_point(t, c);
  Bytes b = gen_enc(t, c, P);
  switch (t.weighted({6, 2, 2, 2, 2, 1, 1, 1, 1})) {
    case 0: return b;
    case 1: t.flip_bit(b); return b;
    case 2: b[0] = (uint8_t)t.range(0, 9); return b;
    case 3: {  // a coordinate at or above the field prime
      Z x = t.flip() ? P.x + c.p : c.p + Z((long)t.range(0, 30));
      if (x.bits() > 8 * c.fs) x = c.p + Z((long)t.range(0, 3));
      Bytes e = x.to_be(c.fs);
      if (b.size() == 1 + 2 * c.fs && t.flip()) {
        Z y = P.y + c.p;
        e = y.to_be(c.fs);
        std::copy(e.begin(), e.end(), b.begin() + 1 + c.fs);
      } else {
        std::copy(e.begin(), e.end(), b.begin() + 1);
      }
      return b;
    }
    case 4: {  // any coordinate
      Bytes e = (gen_int(t, c.p, c.pb)).to_be(c.fs);
      std::copy(e.begin(), e.end(), b.begin() + 1);
      return b;
    }
    case 5: b = t.mutate(b, true); return b;
    case 6: b.resize(t.len_near({0, 1, c.fs, c.fs + 1, c.fs + 2, 2 * c.fs, 2 * c.fs + 1, 2 * c.fs + 2}, 2 * c.fs + 4)); return b;
    case 7: {  // the right point on the wrong form
      Bytes o = c.enc(P, b.size() != 1 + c.fs);
      o[0] = b[0];
      return o;
    }
    default: return t.bytes(t.flip() ? 1 + c.fs : 1 + 2 * c.fs);
  }
}

// An output buffer of the documented size with the reported length.
struct Out {
  Buf b;
  size_t len = 0;
  explicit Out(size_t n) : b(n) {}
  Bytes get() const { return b.get(std::min(len, b.n)); }
};

void check_point(T &t, const char *what, const Wei &c, int ret, Out &o, bool compact, const Pt &want, bool ok = true) {
  ok = ok && !want.inf;
  EXPECT(t, o.b.intact(), "%s wrote outside its buffer", what);
  EXPECT(t, ret == (int)ok, "%s on %s returned %d, want %d", what, c.name, ret, ok);
  if (!ok) return;
  Bytes e = c.enc(want, compact);
  EXPECT(t, o.len == e.size(), "%s length %zu, want %zu", what, o.len, e.size());
  expect_eq(t, o.get(), e, "%s on %s", what, c.name);
}

Bytes gen_raw_scalar(T &t, const Wei &c) { return gen_int(t, c.n, 8 * c.ss).to_be(c.ss); }

size_t scsize(const Wei &c) { return c.ss; }

}  // namespace

// ---------------------------------------------------------------- C17

PBT_RULE(C17, "a valid key or point takes part");

PBT_PROP(C17, private_keys, 40000, 400000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Bytes a = gen_raw_scalar(t, c), w = gen_raw_scalar(t, c);
  Z A = Z::be(a), W = Z::be(w);
  if (t.chance(1, 8) && A < c.n && !A.zero()) W = t.flip() ? c.n - A : ref::invz(A, c.n), w = W.to_be(c.ss);
  bool okA = !A.zero() && A < c.n, okW = W < c.n;
  if (okA) t.nontrivial();
  t.label("%s", c.name);
  t.mix(a), t.mix(w);
  t.show("priv", a), t.show("tweak", w);
  EXPECT(t, ecdsa_privkey_size(ec) == c.ss && wei_curve_scalar_size(ec) == c.ss && wei_curve_field_size(ec) == c.fs && wei_curve_scalar_bits(ec) == c.nb && wei_curve_field_bits(ec) == c.pb, "curve sizes of %s", c.name);
  Buf ab(a), wb(w), o(scsize(c));
  EXPECT(t, ecdsa_privkey_verify(ec, ab) == (int)okA, "ecdsa_privkey_verify, want %d", okA);
  EXPECT(t, bip340_privkey_verify(ec, ab) == (int)okA, "bip340_privkey_verify, want %d", okA);
  auto expect = [&](const char *what, int ret, bool ok, const Z &v) {
    EXPECT(t, ret == (int)ok, "%s on %s returned %d, want %d", what, c.name, ret, ok);
    EXPECT(t, o.intact(), "%s wrote outside its buffer", what);
    if (ok) expect_eq(t, o.get(), v.to_be(c.ss), "%s on %s", what, c.name);
  };
  int r = ecdsa_privkey_export(ec, o, ab);
  expect("ecdsa_privkey_export", r, okA, A);
  r = ecdsa_privkey_negate(ec, o, ab);
  expect("ecdsa_privkey_negate", r, okA, okA ? c.n - A : Z(0));
  r = ecdsa_privkey_invert(ec, o, ab);
  expect("ecdsa_privkey_invert", r, okA, okA ? ref::invz(A, c.n) : Z(0));
  Z sum = (A + W) % c.n, prod = (A * W) % c.n;
  r = ecdsa_privkey_tweak_add(ec, o, ab, wb);
  expect("ecdsa_privkey_tweak_add", r, okA && okW && !sum.zero(), sum);
  r = ecdsa_privkey_tweak_mul(ec, o, ab, wb);
  expect("ecdsa_privkey_tweak_mul", r, okA && okW && !prod.zero(), prod);
  r = bip340_privkey_tweak_mul(ec, o, ab, wb);
  expect("bip340_privkey_tweak_mul", r, okA && okW && !prod.zero(), prod);
  // in place
  memcpy(o.p, a.data(), c.ss);
  r = ecdsa_privkey_tweak_add(ec, o, o, wb);
  expect("ecdsa_privkey_tweak_add in place", r, okA && okW && !sum.zero(), sum);
  // import pads short strings and drops leading zeros
  Bytes in = A.to_be((A.bits() + 7) / 8);
  if (t.chance(1, 6)) in = t.bytes(t.len(c.ss + 4));
  else if (t.flip()) in.insert(in.begin(), t.range(0, c.ss + 3), 0);
  Z I = Z::be(in);
  Buf ib(in);
  r = ecdsa_privkey_import(ec, o, ib, in.size());
  expect("ecdsa_privkey_import", r, !I.zero() && I < c.n, I);
  bool compact = t.flip();
  Out p(compact ? 1 + c.fs : 1 + 2 * c.fs);
  EXPECT(t, ecdsa_pubkey_size(ec, compact) == p.b.n, "ecdsa_pubkey_size");
  r = ecdsa_pubkey_create(ec, p.b, &p.len, ab, compact);
  check_point(t, "ecdsa_pubkey_create", c, r, p, compact, okA ? c.mulg(A) : Pt(), okA);
}

PBT_PROP(C17, encodings, 30000, 300000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Bytes pub = gen_pub(t, c);
  Pt P;
  bool ok = c.dec(P, pub), compact = t.flip();
  if (ok) t.nontrivial();
  t.label("%s %s", c.name, ok ? "valid" : "invalid");
  t.mix(pub);
  t.show("pub", pub);
  Buf pb(pub), x(c.fs), y(c.fs);
  Out o(compact ? 1 + c.fs : 1 + 2 * c.fs);
  EXPECT(t, ecdsa_pubkey_verify(ec, pb, pub.size()) == (int)ok, "ecdsa_pubkey_verify on %s, want %d", c.name, ok);
  int r = ecdsa_pubkey_convert(ec, o.b, &o.len, pb, pub.size(), compact);
  check_point(t, "ecdsa_pubkey_convert", c, r, o, compact, P, ok);
  r = ecdsa_pubkey_export(ec, x, y, pb, pub.size());
  EXPECT(t, r == (int)ok && x.intact() && y.intact(), "ecdsa_pubkey_export on %s returned %d, want %d", c.name, r, ok);
  if (ok) {
    expect_eq(t, x.get(), P.x.to_be(c.fs), "ecdsa_pubkey_export x");
    expect_eq(t, y.get(), P.y.to_be(c.fs), "ecdsa_pubkey_export y");
  }
  r = ecdsa_pubkey_negate(ec, o.b, &o.len, pb, pub.size(), compact);
  check_point(t, "ecdsa_pubkey_negate", c, r, o, compact, c.neg(P), ok);
  // import from coordinates
  Z X = ok ? P.x : gen_int(t, c.p, c.pb), Y = ok ? P.y : gen_int(t, c.p, c.pb);
  if (t.chance(1, 6)) Y = (Y + Z((long)t.range(1, 3))) % c.p;
  if (t.chance(1, 10)) X = X + c.p;
  if (t.chance(1, 10)) Y = Y + c.p;
  auto raw = [&](const Z &v) {
    size_t n = (v.bits() + 7) / 8;
    return v.to_be(t.flip() ? std::max(n, c.fs) : n + t.range(0, 2));
  };
  Bytes xr = raw(X), yr = t.chance(1, 3) ? Bytes() : raw(Y);
  X = Z::be(xr), Y = Z::be(yr);
  int sign = (int)t.range(0, 2) - 1;
  Pt Q;
  bool good = !xr.empty() && X < c.p;
  bool any = false;
  if (good && !yr.empty()) {
    Q = Pt(X, Y);
    good = Y < c.p && c.on_curve(Q);
  } else if (good) {
    good = c.lift(Q, X, sign == 1);
    any = sign == -1;
  }
  Buf xb(xr), yb(yr);
  Out o2(o.b.n);
  r = ecdsa_pubkey_import(ec, o2.b, &o2.len, xb, xr.size(), yb, yr.size(), sign, compact);
  if (any && good && r == 1) {
    Pt N = c.neg(Q);
    Bytes e = c.enc(N, compact);
    if (o2.get() == e) Q = N;
  }
  check_point(t, "ecdsa_pubkey_import", c, r, o2, compact, Q, good);
}

PBT_PROP(C17, group, 14000, 150000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Z k;
  bool known = t.flip();
  Pt P = known ? gen_point(t, c, &k) : gen_point(t, c), Q;
  switch (t.weighted({4, 1, 1, 1, 1, 1})) {
    case 0: Q = gen_point(t, c); break;
    case 1: Q = P; break;
    case 2: Q = c.neg(P); break;
    case 3: Q = c.add(P, P); break;
    case 4: Q = c.g; break;
    default: if (gen_same_y(t, c, P, Q)) t.label("equal y"); else Q = gen_point(t, c);
  }
  bool compact = t.flip();
  Bytes pe = gen_enc(t, c, P), qe = gen_enc(t, c, Q);
  bool okP = true, okQ = true;
  if (t.chance(1, 10)) pe = gen_pub(t, c), okP = c.dec(P, pe), known = false;
  if (t.chance(1, 10)) qe = gen_pub(t, c), okQ = c.dec(Q, qe);
  if (!okP) P = Pt();
  if (!okQ) Q = Pt();
  if (okP || okQ) t.nontrivial();
  t.label("%s", c.name);
  t.mix(pe), t.mix(qe);
  t.show("P", pe), t.show("Q", qe);
  Buf pb(pe), qb(qe);
  size_t on = compact ? 1 + c.fs : 1 + 2 * c.fs;
  int r;
  switch (t.range(0, 3)) {
    case 0: {
      Out o(on);
      r = ecdsa_pubkey_add(ec, o.b, &o.len, pb, pe.size(), qb, qe.size(), compact);
      return check_point(t, "ecdsa_pubkey_add", c, r, o, compact, c.add(P, Q), okP && okQ);
    }
    case 1: {
      size_t n = t.range(0, 8);
      std::vector<Pt> pts;
      std::vector<Bytes> enc;
      bool ok = true;
      Pt S;
      for (size_t i = 0; i < n; i++) {
        Pt X;
        bool good = true;
        Bytes e;
        switch (t.weighted({3, 2, 2, 3})) {
          case 0: X = P, e = pe, good = okP; break;
          case 1: X = Q, e = qe, good = okQ; break;
          case 2:  // cancels what came before
            if (S.inf) { X = P, e = pe, good = okP; break; }
            X = c.neg(S);
            if (t.chance(1, 3) && !gen_same_y(t, c, S, X)) X = c.neg(S);
            e = gen_enc(t, c, X);
            break;
          default: X = gen_point(t, c), e = gen_enc(t, c, X); break;
        }
        ok = ok && good;
        if (!ok) X = Pt();
        S = c.add(S, X);
        enc.push_back(e);
      }
      std::vector<std::unique_ptr<Buf>> keep;
      std::vector<const unsigned char *> ptr;
      std::vector<size_t> len;
      for (auto &e : enc) {
        keep.emplace_back(new Buf(e));
        ptr.push_back(keep.back()->p);
        len.push_back(e.size());
      }
      Out o(on);
      r = ecdsa_pubkey_combine(ec, o.b, &o.len, ptr.data(), len.data(), n, compact);
      return check_point(t, "ecdsa_pubkey_combine", c, r, o, compact, S, ok);
    }
    case 2: case 3: {
      Z w = gen_int(t, c.n, 8 * c.ss);
      if (known && t.chance(1, 4)) w = c.n - k;
      Bytes wr = w.to_be(c.ss);
      bool okW = w < c.n;
      Buf wb(wr);
      t.show("tweak", wr);
      Out o(on);
      r = ecdsa_pubkey_tweak_add(ec, o.b, &o.len, pb, pe.size(), wb, compact);
      check_point(t, "ecdsa_pubkey_tweak_add", c, r, o, compact, okP && okW ? c.add(P, c.mulg(w)) : Pt(), okP && okW);
      r = ecdsa_pubkey_tweak_mul(ec, o.b, &o.len, pb, pe.size(), wb, compact);
      return check_point(t, "ecdsa_pubkey_tweak_mul", c, r, o, compact, okP && okW ? c.mul(w, P) : Pt(), okP && okW);
    }
  }
}

namespace {
struct Grind {
  uint8_t mask, want;
  size_t calls = 0, len;
};
int grind_check(const unsigned char *pub, size_t len, void *arg) {
  Grind *g = (Grind *)arg;
  g->calls++;
  g->len = len;
  return (pub[len - 1] & g->mask) == g->want;
}
int grind_check_x(const unsigned char *pub, void *arg) {
  Grind *g = (Grind *)arg;
  g->calls++;
  return (pub[0] & g->mask) == g->want;
}
}  // namespace

PBT_PROP(C17, grinding, 4000, 40000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Grind g;
  g.mask = (uint8_t)t.pick({0, 1, 3, 7, 0x80 >> ((8 - c.pb % 8) % 8)});
  g.want = (uint8_t)t.byte() & g.mask;
  Bytes ent = t.bytes(32);
  bool compact = t.flip();
  t.nontrivial();
  t.label("%s", c.name);
  t.mix(ent);
  t.show("entropy", ent);
  Buf eb(ent), a(c.ss), a2(c.ss);
  ecdsa_privkey_generate(ec, a, eb);
  ecdsa_privkey_generate(ec, a2, eb);
  Z k = Z::be(a.get());
  EXPECT(t, a.intact() && !k.zero() && k < c.n, "ecdsa_privkey_generate gave an invalid key");
  expect_eq(t, a2.get(), a.get(), "ecdsa_privkey_generate twice");
  bip340_privkey_generate(ec, a2, eb);
  expect_eq(t, a2.get(), a.get(), "bip340_privkey_generate");
  if (t.flip()) {
    Buf p(c.ss);
    ecdsa_privkey_grind(ec, p, eb, compact, grind_check, &g);
    Z s = Z::be(p.get());
    EXPECT(t, p.intact() && !s.zero() && s < c.n, "ecdsa_privkey_grind gave an invalid key");
    Bytes e = c.enc(c.mulg(s), compact);
    EXPECT(t, g.len == e.size(), "ecdsa_privkey_grind showed the predicate %zu bytes", g.len);
    size_t calls = g.calls;
    EXPECT(t, grind_check(e.data(), e.size(), &g), "ecdsa_privkey_grind key does not satisfy the predicate");
    EXPECT(t, s == (k + Z((long)calls)) % c.n, "ecdsa_privkey_grind is not the first hit");
  } else {
    Pt P = t.chance(1, 8) ? c.neg(c.mulg(Z((long)t.range(1, 3)))) : gen_point(t, c);
    Bytes e = gen_enc(t, c, P);
    compact = e.size() == 1 + c.fs;
    Buf pb(e), w(c.ss);
    int r = ecdsa_pubkey_grind(ec, w, pb, e.size(), grind_check, &g);
    EXPECT(t, r == 1 && w.intact(), "ecdsa_pubkey_grind returned %d", r);
    Pt R = c.add(P, c.mulg(Z::be(w.get())));
    EXPECT(t, !R.inf, "ecdsa_pubkey_grind tweaked to the identity");
    Bytes re = c.enc(R, compact);
    EXPECT(t, grind_check(re.data(), re.size(), &g), "ecdsa_pubkey_grind result does not satisfy the predicate");
  }
}

// ---------------------------------------------------------------- C18

PBT_RULE(C18, "the key is valid and the signature halves are in range");

PBT_PROP(C18, sign, 12000, 250000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Bytes a = t.chance(1, 12) ? gen_raw_scalar(t, c) : gen_scalar(t, c.n).to_be(c.ss);
  Z A = Z::be(a);
  bool ok = !A.zero() && A < c.n;
  Bytes msg = gen_msg(t);
  if (t.chance(1, 6)) msg = (c.n << (8 * c.ss - c.nb)).to_be(c.ss);  // reduces to zero
  if (t.chance(1, 8)) msg = gen_raw_scalar(t, c);
  if (ok) t.nontrivial();
  t.label("%s", c.name);
  t.mix(a), t.mix(msg);
  t.show("priv", a), t.show("msg", msg);
  Buf ab(a), mb(msg), sig(2 * c.ss);
  EXPECT(t, ecdsa_sig_size(ec) == sig.n, "ecdsa_sig_size");
  unsigned param = 99;
  int r = ecdsa_sign(ec, sig, &param, mb, msg.size(), ab);
  EXPECT(t, r == (int)ok && sig.intact(), "ecdsa_sign on %s returned %d, want %d", c.name, r, ok);
  if (!ok) return;
  ref::EcdsaSig s = ref::ref_ecdsa_sign(c, msg, A);
  Bytes want = ref::cat(s.r.to_be(c.ss), s.s.to_be(c.ss));
  expect_eq(t, sig.get(), want, "ecdsa_sign on %s", c.name);
  EXPECT(t, param == s.param, "ecdsa_sign param %u, want %u", param, s.param);
  Buf sig2(2 * c.ss);
  EXPECT(t, ecdsa_sign(ec, sig2, NULL, mb, msg.size(), ab) == 1, "ecdsa_sign without a param");
  expect_eq(t, sig2.get(), want, "ecdsa_sign without a param");
  Pt P = c.mulg(A);
  bool compact = t.flip();
  Bytes pe = gen_enc(t, c, P);
  Buf pb(pe);
  EXPECT(t, ecdsa_verify(ec, mb, msg.size(), sig, pb, pe.size()) == 1, "ecdsa_verify refused a genuine signature on %s", c.name);
  Out o(compact ? 1 + c.fs : 1 + 2 * c.fs);
  r = ecdsa_recover(ec, o.b, &o.len, mb, msg.size(), sig, param, compact);
  check_point(t, "ecdsa_recover", c, r, o, compact, P);
}

namespace {
// A signature with chosen properties that satisfies the equation for some key:
// R may have an x coordinate at or above the order.
struct Crafted {
  Bytes msg;
  Z r, s;
  Pt A, R;
};
bool craft(T &t, const Wei &c, Crafted &o) {
  bool high = c.p > c.n && t.chance(2, 3);
  if (high) {
    // x in [n, p)
    Z gap = c.p - c.n;
    Z off = t.flip() ? Z((long)t.range(0, 40)) : t.flip() ? gap - Z((long)t.range(1, 40)) : gen_int(t, gap, gap.bits()) % gap;
    Z x = c.n + (off % gap);
    int i = 0;
    while (!c.lift(o.R, x, t.flip())) {
      x = x + Z(1);
      if (x >= c.p) x = c.n;
      if (++i > 200) return false;
    }
  } else {
    // small or arbitrary x below the order
    Z x = t.flip() ? Z((long)t.range(1, 60)) : t.flip() ? (c.p - c.n).abs() + Z((long)t.range(0, 60)) : gen_int(t, c.n, c.nb) % c.n;
    while (x.zero() || x >= c.n || !c.lift(o.R, x, t.flip())) x = (x + Z(1)) % c.n;
  }
  o.r = o.R.x % c.n;
  if (o.r.zero()) return false;
  o.s = gen_scalar(t, c.n);
  if (o.s > (c.n >> 1)) o.s = c.n - o.s;
  o.msg = gen_msg(t, 80);
  if (t.chance(1, 4)) o.msg = (c.n << (8 * c.ss - c.nb)).to_be(c.ss);
  // A = (s R - m G) / r
  Z ri = ref::invz(o.r, c.n);
  o.A = c.mul2((-(c.msg(o.msg)) * ri) % c.n, (o.s * ri) % c.n, o.R);
  return !o.A.inf;
}
}  // namespace

PBT_PROP(C18, verify, 9000, 160000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Bytes msg, pub;
  Z r, s;
  Pt A;
  bool crafted = t.chance(1, 2);
  Crafted k;
  if (crafted && craft(t, c, k)) {
    msg = k.msg, r = k.r, s = k.s, A = k.A;
    t.label("%s crafted%s", c.name, k.R.x >= c.n ? " high x" : "");
  } else {
    Z a = gen_scalar(t, c.n);
    msg = gen_msg(t, 80);
    ref::EcdsaSig e = ref::ref_ecdsa_sign(c, msg, a);
    r = e.r, s = e.s;
    A = c.mulg(a);
    t.label("%s", c.name);
  }
  pub = gen_enc(t, c, A);
  Z R = r, S = s;
  switch (t.weighted({8, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1})) {
    case 0: break;
    case 1: S = c.n - S; break;  // high S
    case 2: msg = t.mutate(msg, true); break;
    case 3: {
      Bytes b = R.to_be(c.ss);
      t.flip_bit(b);
      R = Z::be(b);
      break;
    }
    case 4: {
      Bytes b = S.to_be(c.ss);
      t.flip_bit(b);
      S = Z::be(b);
      break;
    }
    case 5: pub = gen_pub(t, c); break;
    case 6: R = Z(0); break;
    case 7: S = Z(0); break;
    case 8: R = R + c.n; break;
    case 9: S = S + c.n; break;
    default: {  // r or s at a boundary
      Z b = t.pick(std::vector<Z>{Z(1), c.n - Z(1), c.n, c.n >> 1, (c.n >> 1) + Z(1), (c.p - c.n).abs()});
      if (t.flip()) R = b;
      else S = b;
    }
  }
  if (R.bits() > 8 * c.ss) R = R % c.n;
  if (S.bits() > 8 * c.ss) S = S % c.n;
  if (R < c.n && S < c.n && !R.zero() && !S.zero()) t.nontrivial();
  Pt P;
  bool okP = c.dec(P, pub), want = okP && ref::ref_ecdsa_verify(c, msg, R, S, P);
  Bytes sig = ref::cat(R.to_be(c.ss), S.to_be(c.ss));
  t.mix(sig), t.mix(msg);
  t.show("msg", msg), t.show("sig", sig), t.show("pub", pub);
  Buf mb(msg), sb(sig), pb(pub);
  int got = ecdsa_verify(ec, mb, msg.size(), sb, pb, pub.size());
  EXPECT(t, got == (int)want, "ecdsa_verify on %s returned %d, want %d", c.name, got, want);
}

PBT_PROP(C18, recover, 6000, 120000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Crafted k;
  if (!craft(t, c, k)) return;
  Z r = k.r, s = k.s;
  unsigned param = (unsigned)(k.R.x >= c.n) << 1 | k.R.y.odd();
  switch (t.weighted({6, 2, 2, 1, 1})) {
    case 0: break;
    case 1: param = (unsigned)t.range(0, 3); break;
    case 2: r = gen_int(t, c.n, c.nb); break;
    case 3: s = gen_int(t, c.n, c.nb); break;
    default: s = c.n - s; break;
  }
  // R = lift(r or r + n); A = (s R - m G) / r
  bool ok = !r.zero() && !s.zero() && r < c.n && s <= (c.n >> 1);
  Z x = param & 2 ? r + c.n : r;
  Pt R, A;
  ok = ok && x < c.p && c.lift(R, x, param & 1);
  if (ok) {
    Z ri = ref::invz(r, c.n);
    A = c.mul2((-(c.msg(k.msg)) * ri) % c.n, (s * ri) % c.n, R);
    t.nontrivial();
  }
  bool compact = t.flip();
  Bytes sig = ref::cat(r.to_be(c.ss), s.to_be(c.ss));
  t.label("%s param %u", c.name, param);
  t.mix(sig);
  t.show("msg", k.msg), t.show("sig", sig);
  t.note("param %u", param);
  Buf mb(k.msg), sb(sig);
  Out o(compact ? 1 + c.fs : 1 + 2 * c.fs);
  int got = ecdsa_recover(ec, o.b, &o.len, mb, k.msg.size(), sb, param, compact);
  check_point(t, "ecdsa_recover", c, got, o, compact, A, ok);
  if (ok && !A.inf) {
    Bytes pe = c.enc(A, t.flip());
    Buf pb(pe);
    EXPECT(t, ecdsa_verify(ec, mb, k.msg.size(), sb, pb, pe.size()) == 1, "ecdsa_verify refused the recovered key");
  }
}

PBT_PROP(C18, derive, 6000, 120000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Bytes a = t.chance(1, 10) ? gen_raw_scalar(t, c) : gen_scalar(t, c.n).to_be(c.ss);
  Bytes pub = t.chance(1, 6) ? gen_pub(t, c) : gen_enc(t, c, gen_point(t, c));
  Z A = Z::be(a);
  Pt P;
  bool ok = !A.zero() && A < c.n;
  if (!c.dec(P, pub)) ok = false;
  bool compact = t.flip();
  if (ok) t.nontrivial();
  t.label("%s", c.name);
  t.mix(a), t.mix(pub);
  t.show("priv", a), t.show("pub", pub);
  Buf ab(a), pb(pub);
  Out o(compact ? 1 + c.fs : 1 + 2 * c.fs);
  int r = ecdsa_derive(ec, o.b, &o.len, pb, pub.size(), ab, compact);
  check_point(t, "ecdsa_derive", c, r, o, compact, ok ? c.mul(A, P) : Pt(), ok);
}

// ---------------------------------------------------------------- C19

PBT_RULE(C19, "the encoding has at least a header and two integers");

namespace {
Bytes der_int(const Z &v) {
  Bytes b = v.to_be(std::max<size_t>(1, (v.bits() + 7) / 8));
  if (b[0] & 0x80) b.insert(b.begin(), 0);
  return b;
}
Bytes der_len(size_t n, int form) {
  // form 0: minimal
  Bytes r;
  if (form == 0 && n < 128) {
    r.push_back((uint8_t)n);
    return r;
  }
  size_t k = n < 256 ? 1 : 2;
  k += form > 1 ? form - 1 : 0;
  r.push_back((uint8_t)(0x80 | k));
  for (size_t i = k; i-- > 0;) r.push_back(i >= sizeof(n) ? 0 : (uint8_t)(n >> (8 * i)));
  return r;
}
Bytes tlv(uint8_t tag, const Bytes &v, int form) {
  Bytes r(1, tag), l = der_len(v.size(), form);
  r.insert(r.end(), l.begin(), l.end());
  r.insert(r.end(), v.begin(), v.end());
  return r;
}

// Strict DER: one SEQUENCE of two INTEGERs, minimal lengths and contents.
bool strict_len(const Bytes &b, size_t &pos, size_t &n) {
  if (pos >= b.size()) return false;
  uint8_t c = b[pos++];
  if (c < 0x80) {
    n = c;
  } else {
    size_t k = c & 0x7f;
    if (k == 0 || k > 8 || b.size() - pos < k) return false;
    n = 0;
    for (size_t i = 0; i < k; i++) n = n << 8 | b[pos + i];
    if (b[pos] == 0 || n < 128) return false;
    pos += k;
  }
  return n <= b.size() - pos;
}
bool strict_int(const Bytes &b, size_t &pos, size_t end, Z &v) {
  if (pos >= end || b[pos++] != 2) return false;
  size_t n;
  if (!strict_len(b, pos, n) || pos + n > end || n == 0) return false;
  if (b[pos] & 0x80) return false;
  if (n > 1 && b[pos] == 0 && !(b[pos + 1] & 0x80)) return false;
  v = Z::be(b.data() + pos, n);
  pos += n;
  return true;
}
bool strict_sig(const Bytes &b, const Z &n, Z &r, Z &s) {
  size_t pos = 0, len;
  if (b.empty() || b[pos++] != 0x30 || !strict_len(b, pos, len) || pos + len != b.size()) return false;
  return strict_int(b, pos, b.size(), r) && strict_int(b, pos, b.size(), s) && pos == b.size() && r < n && s < n;
}
}  // namespace

PBT_PROP(C19, raw, 500000, 1500000) {
  int id = (int)t.range(0, 5);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Z r = gen_int(t, c.n, 8 * c.ss), s = gen_int(t, c.n, 8 * c.ss);
  if (t.chance(1, 4)) s = (c.n >> 1) + Z((long)t.range(0, 4)) - Z(2);
  bool ok = r < c.n && s < c.n;
  Bytes sig = ref::cat(r.to_be(c.ss), s.to_be(c.ss));
  t.nontrivial();
  t.label("%s %s", c.name, ok ? "in range" : "out of range");
  t.mix(sig);
  t.show("sig", sig);
  Buf sb(sig), o(2 * c.ss);
  size_t max = 9 + 2 * c.ss;  // as ECDSA_MAX_DER_SIZE
  Buf der(max);
  size_t n = 0;
  int got = ecdsa_sig_export(ec, der, &n, sb);
  EXPECT(t, got == (int)ok && der.intact(), "ecdsa_sig_export on %s returned %d, want %d", c.name, got, ok);
  if (ok) {
    Bytes want = tlv(0x30, ref::cat(tlv(2, der_int(r), 0), tlv(2, der_int(s), 0)), 0);
    EXPECT(t, n == want.size(), "ecdsa_sig_export length %zu want %zu", n, want.size());
    expect_eq(t, der.get(n), want, "ecdsa_sig_export");
    Buf wb(want);
    EXPECT(t, ecdsa_sig_import(ec, o, wb, n) == 1, "ecdsa_sig_import refused an exported signature");
    expect_eq(t, o.get(), sig, "ecdsa_sig_import");
    EXPECT(t, ecdsa_sig_import_lax(ec, o, wb, n) == 1, "ecdsa_sig_import_lax refused an exported signature");
    expect_eq(t, o.get(), sig, "ecdsa_sig_import_lax");
    // a truncated or extended encoding
    Bytes cut(want.begin(), want.begin() + t.range(0, want.size() - 1));
    Buf cb(cut), o2(2 * c.ss);
    EXPECT(t, ecdsa_sig_import(ec, o2, cb, cut.size()) == 0, "ecdsa_sig_import accepted a truncated signature");
    EXPECT(t, ecdsa_sig_import_lax(ec, o2, cb, cut.size()) == 0, "ecdsa_sig_import_lax accepted a truncated signature");
    EXPECT(t, o2.intact(), "ecdsa_sig_import wrote outside its buffer");
  }
  bool low = s <= (c.n >> 1);
  EXPECT(t, ecdsa_is_low_s(ec, sb) == (int)(ok && low), "ecdsa_is_low_s on %s, want %d", c.name, ok && low);
  got = ecdsa_sig_normalize(ec, o, sb);
  EXPECT(t, got == (int)ok && o.intact(), "ecdsa_sig_normalize on %s returned %d, want %d", c.name, got, ok);
  if (ok) {
    Bytes want = ref::cat(r.to_be(c.ss), (low ? s : c.n - s).to_be(c.ss));
    expect_eq(t, o.get(), want, "ecdsa_sig_normalize");
    EXPECT(t, ecdsa_is_low_s(ec, o) == 1, "a normalised signature is not low-S");
  }
}

PBT_PROP(C19, der, 1200000, 3000000) {
  int id = (int)t.range(0, 5);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Z r = gen_int(t, c.n, c.nb), s = gen_int(t, c.n, c.nb);
  if (t.chance(1, 10)) r = r + c.n;
  if (t.chance(1, 10)) s = s + c.n;
  bool lax_ok = r < c.n && s < c.n;
  // build with deviations
  int dev = (int)t.weighted({6, 2, 2, 2, 2, 2, 2, 3, 3, 1, 1});
  int f0 = 0, f1 = 0, f2 = 0;
  Bytes ri = der_int(r), si = der_int(s), tail;
  bool lax_known = true;
  switch (dev) {
    case 0: break;
    case 1: f0 = (int)t.range(1, 4); break;  // long-form sequence size
    case 2: f1 = (int)t.range(1, 4); break;
    case 3: f2 = (int)t.range(1, 4); break;
    case 4: ri.insert(ri.begin(), t.range(1, 40), 0); break;  // padded integers
    case 5: si.insert(si.begin(), t.range(1, 40), 0); break;
    case 6: tail = t.bytes(t.range(1, 12)); break;  // trailing data
    case 7: {  // missing sign byte: read as unsigned by the lax parser
      if (ri[0] == 0 && ri.size() > 1) ri.erase(ri.begin());
      if (t.flip() && si[0] == 0 && si.size() > 1) si.erase(si.begin());
      break;
    }
    case 8: lax_known = false; break;  // mutated below
    case 10: lax_ok = false; break;    // sizes beyond any machine word
    default: lax_known = false; break;
  }
  Bytes der = tlv(0x30, ref::cat(tlv(2, ri, f1), tlv(2, si, f2)), f0);
  if (dev == 10) {
    size_t w = (size_t)t.pick({4, 8, 8, 16});
    Bytes l = ref::cat(t.rnd(t.range(1, 3)), Bytes(w));
    if (!l[0]) l[0] = 1;
    bool first = t.flip();
    size_t n = first ? ri.size() : si.size();
    l.back() = (uint8_t)n;
    l.insert(l.begin(), (uint8_t)(0x80 | l.size()));
    Bytes bad = ref::cat(Bytes{2}, ref::cat(l, first ? ri : si));
    der = tlv(0x30, first ? ref::cat(bad, tlv(2, si, 0)) : ref::cat(tlv(2, ri, 0), bad), 0);
  }
  der.insert(der.end(), tail.begin(), tail.end());
  if (dev == 8) der = t.mutate(der, true);
  if (dev == 9) der = t.bytes(t.len(c.ss * 2 + 10));
  if (der.size() > 8) t.nontrivial();
  t.label("deviation %d", dev);
  t.mix(der);
  t.show("der", der);
  Z R, S;
  bool strict = strict_sig(der, c.n, R, S);
  Buf db(der), o(2 * c.ss), o2(2 * c.ss);
  int got = ecdsa_sig_import(ec, o, db, der.size());
  EXPECT(t, o.intact(), "ecdsa_sig_import wrote outside its buffer");
  EXPECT(t, got == (int)strict, "ecdsa_sig_import on %s returned %d, want %d", c.name, got, strict);
  if (strict) expect_eq(t, o.get(), ref::cat(R.to_be(c.ss), S.to_be(c.ss)), "ecdsa_sig_import");
  int lax = ecdsa_sig_import_lax(ec, o2, db, der.size());
  EXPECT(t, o2.intact(), "ecdsa_sig_import_lax wrote outside its buffer");
  if (strict) {
    EXPECT(t, lax == 1, "ecdsa_sig_import_lax refused a strict encoding");
    expect_eq(t, o2.get(), o.get(), "ecdsa_sig_import_lax");
  }
  if (lax_known) {
    EXPECT(t, lax == (int)lax_ok, "ecdsa_sig_import_lax (deviation %d) returned %d, want %d", dev, lax, lax_ok);
    if (lax_ok) expect_eq(t, o2.get(), ref::cat(r.to_be(c.ss), s.to_be(c.ss)), "ecdsa_sig_import_lax");
  }
  if (lax) EXPECT(t, Z::be(o2.p, c.ss) < c.n && Z::be(o2.p + c.ss, c.ss) < c.n, "ecdsa_sig_import_lax let a value out of range through");
}

// ---------------------------------------------------------------- C20, C21

namespace {
const char *xof(int id) { return id == 3 ? "sha384" : id == 4 ? "shake256" : "sha256"; }

// Hash to an integer below the order: leftmost bytes, excess high bits cleared.
Z hash_int(const Wei &c, int id, const Bytes &in) {
  Bytes h = ref::hash(xof(id), in, id == 4 ? c.ss : 0);
  h.resize(c.ss);
  if (c.nb % 8) h[0] &= (1 << (c.nb % 8)) - 1;
  return Z::be(h) % c.n;
}
Bytes hash_raw(const Wei &c, int id, const Bytes &in) {
  Bytes h = ref::hash(xof(id), in, id == 4 ? c.ss : 0);
  h.resize(c.ss);
  return h;
}
Bytes tagged(int id, const char *tag, const Bytes &in) {
  Bytes th;
  if (id == 3) th = ref::hash("shake256", ref::str(tag), 64);
  else if (id == 4) th = ref::hash("shake256", ref::str(tag), 68);
  else th = ref::hash("sha256", ref::str(tag));
  return ref::cat(ref::cat(th, th), in);
}

// One scheme for both signature types; bip selects BIP340.
struct Schnorr {
  int id;
  bool bip;
  const Wei &c;
  Schnorr(int i, bool b) : id(i), bip(b), c(wei(i)) {}

  bool good(const Pt &R) const { return bip ? !R.y.odd() : ref::is_square(R.y, c.p); }
  bool lift(Pt &P, const Bytes &x) const {
    Z v = Z::be(x);
    if (v >= c.p) return false;
    return bip ? c.lift(P, v, false) : c.lift_square(P, v);
  }
  bool key(Pt &A, const Bytes &pub) const { return bip ? lift(A, pub) : c.dec(A, pub); }
  Z challenge(const Bytes &R, const Pt &A, const Bytes &msg) const {
    if (bip) return hash_int(c, id, tagged(id, "BIP0340/challenge", ref::cat(ref::cat(R, A.x.to_be(c.fs)), msg)));
    return hash_int(c, id, ref::cat(ref::cat(R, c.enc(A, true)), msg));
  }
  // Signature by a under nonce k.
  Bytes make(Z a, Z k, const Bytes &msg) const {
    Pt A = c.mulg(a), R = c.mulg(k);
    if (bip && A.y.odd()) a = c.n - a, A = c.neg(A);
    if (!good(R)) k = c.n - k, R = c.neg(R);
    Bytes r = R.x.to_be(c.fs);
    Z s = (k + challenge(r, A, msg) * a) % c.n;
    return ref::cat(r, s.to_be(c.ss));
  }
  Bytes sign(Z a, const Bytes &msg, const Bytes *aux) const {
    Z k;
    if (bip) {
      Pt A = c.mulg(a);
      Z d = A.y.odd() ? c.n - a : a;
      Bytes sec = d.to_be(c.ss);
      if (aux) {
        Bytes m = hash_raw(c, id, tagged(id, "BIP0340/aux", *aux));
        for (size_t i = 0; i < sec.size(); i++) sec[i] ^= m[i];
      }
      k = hash_int(c, id, tagged(id, "BIP0340/nonce", ref::cat(ref::cat(sec, A.x.to_be(c.fs)), msg)));
    } else {
      k = hash_int(c, id, ref::cat(a.to_be(c.ss), msg));
    }
    return make(a, k, msg);
  }
  bool verify(const Bytes &msg, const Bytes &sig, const Bytes &pub) const {
    Bytes rr(sig.begin(), sig.begin() + c.fs);
    Z r = Z::be(rr), s = Z::be(sig.data() + c.fs, c.ss);
    Pt A;
    if (r >= c.p || s >= c.n || !key(A, pub)) return false;
    Z e = challenge(rr, A, msg);
    Pt R = c.mul2(s, (c.n - e) % c.n, A);
    return !R.inf && R.x == r && good(R);
  }
  // library calls
  int lib_sign(Buf &sig, Buf &msg, size_t n, Buf &a, const uint8_t *aux) const {
    wei_curve_t *ec = wei_ctx(id);
    return bip ? bip340_sign(ec, sig, msg, n, a, aux) : bipschnorr_sign(ec, sig, msg, n, a);
  }
  int lib_verify(Buf &msg, size_t n, Buf &sig, Buf &pub, size_t pn) const {
    wei_curve_t *ec = wei_ctx(id);
    return bip ? bip340_verify(ec, msg, n, sig, pub) : bipschnorr_verify(ec, msg, n, sig, pub, pn);
  }
};

struct Item {
  Bytes msg, sig, pub;
  bool valid;
};

Bytes schnorr_pub(T &t, const Schnorr &s, const Pt &A) { return s.bip ? A.x.to_be(s.c.fs) : gen_enc(t, s.c, A); }

// A signature, genuine or broken in one specific way; valid is filled in.
Item gen_item(T &t, const Schnorr &s, bool allow_bad) {
  const Wei &c = s.c;
  Item it;
  Z a = gen_scalar(t, c.n), k = gen_scalar(t, c.n);
  Pt A = c.mulg(a);
  it.msg = gen_msg(t, 100);
  it.sig = s.make(a, k, it.msg);
  it.pub = schnorr_pub(t, s, A);
  it.valid = true;
  if (!allow_bad) return it;
  Bytes rr(it.sig.begin(), it.sig.begin() + c.fs), sr(it.sig.begin() + c.fs, it.sig.end());
  Z sv = Z::be(sr);
  switch (t.weighted({6, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1})) {
    case 0: return it;
    case 1: it.msg = t.mutate(it.msg, true); break;
    case 2: t.flip_bit(rr); break;
    case 3: t.flip_bit(sr); break;
    case 4: {  // nonce point with the wrong y: the equation holds for -R
      Pt R;
      s.lift(R, rr);
      Pt B = s.bip && A.y.odd() ? c.neg(A) : A;
      Z b = s.bip && A.y.odd() ? c.n - a : a;
      Z e = s.challenge(rr, B, it.msg);
      // s' with s' G - e A = -R
      Z kk = s.good(c.mulg(k)) ? k : c.n - k;
      sv = ((c.n - kk) + e * b) % c.n;
      sr = sv.to_be(c.ss);
      break;
    }
    case 5:  // s + n
      sv = sv + c.n;
      if (sv.bits() <= 8 * c.ss) sr = sv.to_be(c.ss);
      else sr = (t.flip() ? c.n : c.n + Z(1)).to_be(c.ss);
      break;
    case 6: {  // another key
      Pt P = t.chance(1, 3) ? c.neg(A) : gen_point(t, c);
      it.pub = schnorr_pub(t, s, P);
      break;
    }
    case 7: {  // R is the identity: s = e a for some r
      Z x = t.flip() ? Z(0) : Z::be(rr);
      rr = x.to_be(c.fs);
      Pt B = s.bip && A.y.odd() ? c.neg(A) : A;
      Z b = s.bip && A.y.odd() ? c.n - a : a;
      sr = ((s.challenge(rr, B, it.msg) * b) % c.n).to_be(c.ss);
      break;
    }
    case 8:  // a damaged public key
      if (s.bip) {
        Bytes p = gen_int(t, c.p, 8 * c.fs).to_be(c.fs);
        it.pub = p;
      } else {
        it.pub = gen_pub(t, c);
      }
      break;
    case 9: {  // r as r + p
      Z r = Z::be(rr) + c.p;
      rr = (r.bits() <= 8 * c.fs ? r : c.p).to_be(c.fs);
      break;
    }
    default: {
      if (t.flip()) rr = gen_int(t, c.p, c.pb).to_be(c.fs);
      else sr = gen_int(t, c.n, c.nb).to_be(c.ss);
    }
  }
  it.sig = ref::cat(rr, sr);
  it.valid = s.verify(it.msg, it.sig, it.pub);
  return it;
}

void schnorr_sign_case(T &t, const Schnorr &s) {
  const Wei &c = s.c;
  Bytes a = t.chance(1, 12) ? gen_raw_scalar(t, c) : gen_scalar(t, c.n).to_be(c.ss);
  Z A = Z::be(a);
  bool ok = !A.zero() && A < c.n;
  Bytes msg = gen_msg(t), aux = t.bytes(32);
  bool has_aux = s.bip && t.chance(3, 4);
  if (ok) t.nontrivial();
  t.label("%s", c.name);
  t.mix(a), t.mix(msg);
  t.show("priv", a), t.show("msg", msg), t.show("aux", aux);
  Buf ab(a), mb(msg), xb(aux), sig(c.fs + c.ss);
  EXPECT(t, (s.bip ? bip340_sig_size(wei_ctx(s.id)) : bipschnorr_sig_size(wei_ctx(s.id))) == sig.n, "signature size");
  int r = s.lib_sign(sig, mb, msg.size(), ab, has_aux ? xb.p : nullptr);
  EXPECT(t, sig.intact() && r == (int)ok, "signing on %s returned %d, want %d", c.name, r, ok);
  if (!ok) return;
  expect_eq(t, sig.get(), s.sign(A, msg, has_aux ? &aux : nullptr), "signature on %s", c.name);
  Bytes pub = schnorr_pub(t, s, c.mulg(A));
  Buf pb(pub);
  EXPECT(t, s.lib_verify(mb, msg.size(), sig, pb, pub.size()) == 1, "a genuine signature was refused on %s", c.name);
}

void schnorr_verify_case(T &t, const Schnorr &s) {
  Item it = gen_item(t, s, true);
  t.nontrivial();
  t.label("%s %s", s.c.name, it.valid ? "valid" : "invalid");
  t.mix(it.msg), t.mix(it.sig), t.mix(it.pub);
  t.show("msg", it.msg), t.show("sig", it.sig), t.show("pub", it.pub);
  Buf mb(it.msg), sb(it.sig), pb(it.pub);
  int r = s.lib_verify(mb, it.msg.size(), sb, pb, it.pub.size());
  EXPECT(t, r == (int)it.valid, "verification on %s returned %d, want %d", s.c.name, r, it.valid);
}

void schnorr_batch_case(T &t, const Schnorr &s) {
  const Wei &c = s.c;
  wei_curve_t *ec = wei_ctx(s.id);
  size_t n = t.range(0, 9), size = t.pick({2, 3, 4, 5, 6, 7, 10, 20});
  bool large = t.chance(1, 25);
  if (large) n = t.range(10, 70), size = t.pick({20, 64, 65, 100, 140});
  std::vector<Item> items;
  bool cancel = n >= 2 && t.chance(1, 5);
  // mostly genuine, often with exactly one bad member somewhere
  size_t bad = !cancel && t.chance(2, 3) && n > 0 ? t.range(0, n - 1) : n;
  for (size_t i = 0; i < n; i++) {
    if (i > 0 && i != bad && (large && i > 6 ? t.chance(9, 10) : t.chance(1, 6))) items.push_back(items[t.range(0, i - 1)]);
    else items.push_back(gen_item(t, s, i == bad));
  }
  // two members whose errors cancel in a sum without weights, or with small ones
  if (cancel) {
    size_t i = t.range(0, n - 2), j = t.range(i + 1, n - 1);
    Z d = gen_scalar(t, c.n), wi = Z(1), wj = Z(1);
    if (t.flip()) {
      bool place = t.flip();
      wi = Z::u64(place ? i + 1 : t.range(1, 4)), wj = Z::u64(place ? j + 1 : t.range(1, 4));
    }
    for (size_t w = 0; w < 2; w++) {
      Item &it = items[w ? j : i];
      Z v = Z::be(it.sig.data() + c.fs, c.ss);
      if (v >= c.n) continue;
      v = w ? (v + (c.n - d) * wi) % c.n : (v + d * wj) % c.n;
      Bytes sr = v.to_be(c.ss);
      std::copy(sr.begin(), sr.end(), it.sig.begin() + c.fs);
      it.valid = s.verify(it.msg, it.sig, it.pub);
    }
  }
  bool want = true;
  std::vector<std::unique_ptr<Buf>> keep;
  std::vector<const unsigned char *> m, g, p;
  std::vector<size_t> ml, pl;
  for (auto &it : items) {
    want = want && it.valid;
    keep.emplace_back(new Buf(it.msg)), m.push_back(keep.back()->p), ml.push_back(it.msg.size());
    keep.emplace_back(new Buf(it.sig)), g.push_back(keep.back()->p);
    keep.emplace_back(new Buf(it.pub)), p.push_back(keep.back()->p), pl.push_back(it.pub.size());
    t.mix(it.sig), t.mix(it.msg);
    t.show("msg", it.msg), t.show("sig", it.sig), t.show("pub", it.pub);
  }
  t.note("scratch %zu", size);
  t.label("batch %s %s", c.name, want ? "valid" : "invalid");
  if (n > 1) t.nontrivial();
  wei_scratch_t *scratch = wei_scratch_create(ec, size);
  int r = s.bip ? bip340_verify_batch(ec, m.data(), ml.data(), g.data(), p.data(), n, scratch) : bipschnorr_verify_batch(ec, m.data(), ml.data(), g.data(), p.data(), pl.data(), n, scratch);
  // once more with the same scratch space
  int r2 = s.bip ? bip340_verify_batch(ec, m.data(), ml.data(), g.data(), p.data(), n, scratch) : bipschnorr_verify_batch(ec, m.data(), ml.data(), g.data(), p.data(), pl.data(), n, scratch);
  wei_scratch_destroy(ec, scratch);
  EXPECT(t, r == (int)want && r2 == r, "batch of %zu on %s (scratch %zu) returned %d then %d, want %d", n, c.name, size, r, r2, want);
}

int pick_schnorr(T &t) { return (int)t.pick({5, 5, 5, 2, 2, 0, 3, 4}); }
}  // namespace

PBT_RULE(C20, "the private key is in range, or a complete signature is presented; batches of at least two");

PBT_PROP(C20, sign, 24000, 250000) {
  int id = pick_schnorr(t);
  EXPECT(t, bipschnorr_support(wei_ctx(id)) == 1 && bipschnorr_support(wei_ctx(1)) == 0, "bipschnorr_support");
  schnorr_sign_case(t, Schnorr(id, false));
}
PBT_PROP(C20, verify, 14000, 150000) { schnorr_verify_case(t, Schnorr(pick_schnorr(t), false)); }
PBT_PROP(C20, batch, 5000, 60000) { schnorr_batch_case(t, Schnorr(pick_schnorr(t), false)); }

PBT_RULE(C21, "the private key is in range, or a complete signature is presented; batches of at least two; a valid x-only key takes part");

PBT_PROP(C21, sign, 16000, 180000) { schnorr_sign_case(t, Schnorr(pick_wei(t), true)); }
PBT_PROP(C21, verify, 12000, 120000) { schnorr_verify_case(t, Schnorr(pick_wei(t), true)); }
PBT_PROP(C21, batch, 4000, 50000) { schnorr_batch_case(t, Schnorr(pick_wei(t), true)); }

PBT_PROP(C21, keys, 12000, 120000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Bytes a = t.chance(1, 8) ? gen_raw_scalar(t, c) : gen_scalar(t, c.n).to_be(c.ss);
  Bytes w = t.chance(1, 8) ? gen_raw_scalar(t, c) : gen_scalar(t, c.n).to_be(c.ss);
  Z A = Z::be(a), W = Z::be(w);
  bool okA = !A.zero() && A < c.n;
  Pt P = okA ? c.mulg(A) : Pt();
  Z d = okA && P.y.odd() ? c.n - A : A;
  if (okA && t.chance(1, 8)) {
    W = t.flip() ? c.n - d : t.flip() ? d : A;
    w = W.to_be(c.ss);
  }
  bool okW = W < c.n;
  if (okA) t.nontrivial();
  t.label("%s", c.name);
  t.mix(a), t.mix(w);
  t.show("priv", a), t.show("tweak", w);
  Buf ab(a), wb(w), o(c.ss), x(c.fs), y(c.fs);
  EXPECT(t, bip340_privkey_size(ec) == c.ss && bip340_pubkey_size(ec) == c.fs, "bip340 sizes");
  int r = bip340_pubkey_create(ec, x, ab);
  EXPECT(t, r == (int)okA && x.intact(), "bip340_pubkey_create on %s returned %d, want %d", c.name, r, okA);
  if (okA) expect_eq(t, x.get(), P.x.to_be(c.fs), "bip340_pubkey_create on %s", c.name);
  r = bip340_privkey_export(ec, o, x, y, ab);
  EXPECT(t, r == (int)okA && o.intact() && x.intact() && y.intact(), "bip340_privkey_export returned %d, want %d", r, okA);
  if (okA) {
    expect_eq(t, o.get(), d.to_be(c.ss), "bip340_privkey_export d");
    expect_eq(t, x.get(), P.x.to_be(c.fs), "bip340_privkey_export x");
    expect_eq(t, y.get(), (P.y.odd() ? c.p - P.y : P.y).to_be(c.fs), "bip340_privkey_export y");
  }
  Z sum = (d + W) % c.n;
  bool ok = okA && okW && !sum.zero();
  r = bip340_privkey_tweak_add(ec, o, ab, wb);
  EXPECT(t, r == (int)ok && o.intact(), "bip340_privkey_tweak_add on %s returned %d, want %d", c.name, r, ok);
  if (ok) expect_eq(t, o.get(), sum.to_be(c.ss), "bip340_privkey_tweak_add on %s", c.name);
  r = bip340_privkey_invert(ec, o, ab);
  EXPECT(t, r == (int)okA && o.intact(), "bip340_privkey_invert");
  if (okA) expect_eq(t, o.get(), ref::invz(A, c.n).to_be(c.ss), "bip340_privkey_invert");
  Bytes in = A.to_be((A.bits() + 7) / 8 + t.range(0, 2));
  Buf ib(in);
  r = bip340_privkey_import(ec, o, ib, in.size());
  EXPECT(t, r == (int)okA && o.intact(), "bip340_privkey_import");
  if (okA) expect_eq(t, o.get(), a, "bip340_privkey_import");
}

PBT_PROP(C21, pubkeys, 10000, 100000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Z k(0);
  Pt P = t.flip() ? gen_point(t, c, &k) : gen_point(t, c);
  if (P.y.odd()) P = c.neg(P), k = (c.n - k) % c.n;
  Bytes x = P.x.to_be(c.fs);
  bool ok = true;
  if (t.chance(1, 5)) {
    x = gen_int(t, c.p, 8 * c.fs).to_be(c.fs);
    if (t.chance(1, 3)) {
      Z v = P.x + c.p;
      if (v.bits() <= 8 * c.fs) x = v.to_be(c.fs);
    }
    Z v = Z::be(x);
    P = Pt();
    ok = v < c.p && c.lift(P, v, false);
    k = Z(0);
  }
  if (ok) t.nontrivial();
  t.label("%s %s", c.name, ok ? "valid" : "invalid");
  t.mix(x);
  t.show("pub", x);
  Buf xb(x), o(c.fs), ox(c.fs), oy(c.fs);
  EXPECT(t, bip340_pubkey_verify(ec, xb) == (int)ok, "bip340_pubkey_verify on %s, want %d", c.name, ok);
  int r = bip340_pubkey_export(ec, ox, oy, xb);
  EXPECT(t, r == (int)ok && ox.intact() && oy.intact(), "bip340_pubkey_export on %s returned %d, want %d", c.name, r, ok);
  if (ok) {
    expect_eq(t, ox.get(), P.x.to_be(c.fs), "bip340_pubkey_export x");
    expect_eq(t, oy.get(), P.y.to_be(c.fs), "bip340_pubkey_export y");
  }
  auto expect = [&](const char *what, int ret, const Pt &want, bool good) {
    good = good && !want.inf;
    EXPECT(t, ret == (int)good && o.intact(), "%s on %s returned %d, want %d", what, c.name, ret, good);
    if (good) expect_eq(t, o.get(), want.x.to_be(c.fs), "%s on %s", what, c.name);
  };
  switch (t.range(0, 4)) {
    case 0: case 1: {  // tweaks
      bool mul = t.flip();
      Z w = gen_int(t, c.n, 8 * c.ss);
      if (!k.zero() && t.chance(1, 4)) w = mul ? Z(0) : c.n - k;
      Bytes wr = w.to_be(c.ss);
      bool okW = w < c.n;
      t.show("tweak", wr);
      Buf wb(wr);
      Pt R = !ok || !okW ? Pt() : mul ? c.mul(w, P) : c.add(P, c.mulg(w));
      int neg = 77;
      r = mul ? bip340_pubkey_tweak_mul(ec, o, &neg, xb, wb) : bip340_pubkey_tweak_add(ec, o, &neg, xb, wb);
      expect(mul ? "bip340_pubkey_tweak_mul" : "bip340_pubkey_tweak_add", r, R, ok && okW);
      if (ok && okW && !R.inf) EXPECT(t, neg == (int)R.y.odd(), "negated flag %d, want %d", neg, R.y.odd());
      Bytes ex = R.inf ? x : R.x.to_be(c.fs);
      int flag = R.inf ? 0 : R.y.odd();
      bool match = ok && okW && !R.inf;
      if (t.flip()) {
        if (t.flip()) flag ^= 1;
        else t.flip_bit(ex);
        match = false;
      }
      Buf eb(ex);
      r = mul ? bip340_pubkey_tweak_mul_check(ec, xb, wb, eb, flag) : bip340_pubkey_tweak_add_check(ec, xb, wb, eb, flag);
      EXPECT(t, r == (int)match, "tweak check (%s) on %s returned %d, want %d", mul ? "mul" : "add", c.name, r, match);
      break;
    }
    case 2: {  // sums of x-only keys
      size_t n = t.range(0, 5);
      std::vector<std::unique_ptr<Buf>> keep;
      std::vector<const unsigned char *> ptr;
      Pt S;
      bool good = true;
      for (size_t i = 0; i < n; i++) {
        Pt Q;
        Bytes e;
        bool fine = true;
        if (t.chance(1, 2)) {
          Q = P, e = x, fine = ok;
        } else if (!S.inf && S.y.odd() && t.flip()) {
          Q = c.neg(S), e = Q.x.to_be(c.fs);
        } else {
          if (!(t.chance(1, 4) && gen_same_y(t, c, S, Q))) Q = gen_point(t, c);
          if (Q.y.odd()) Q = c.neg(Q);
          e = Q.x.to_be(c.fs);
        }
        good = good && fine;
        if (good) S = c.add(S, Q);
        t.show("key", e);
        keep.emplace_back(new Buf(e));
        ptr.push_back(keep.back()->p);
      }
      r = bip340_pubkey_combine(ec, o, ptr.data(), n);
      expect("bip340_pubkey_combine", r, S, good);
      if (n == 2) {
        r = bip340_pubkey_add(ec, o, ptr[0], ptr[1]);
        expect("bip340_pubkey_add", r, S, good);
      }
      break;
    }
    case 3: {  // shared secret
      Bytes a = t.chance(1, 10) ? gen_raw_scalar(t, c) : gen_scalar(t, c.n).to_be(c.ss);
      Z A = Z::be(a);
      bool okA = !A.zero() && A < c.n;
      t.show("priv", a);
      Buf ab(a);
      r = bip340_derive(ec, o, xb, ab);
      expect("bip340_derive", r, ok && okA ? c.mul(A, P) : Pt(), ok && okA);
      break;
    }
    default: {  // import
      Z X = Z::be(x), Y = ok ? (t.flip() ? P.y : c.p - P.y) : gen_int(t, c.p, c.pb);
      if (t.chance(1, 4)) Y = gen_int(t, c.p, c.pb);
      bool has_y = t.flip();
      Bytes yr = has_y ? Y.to_be(std::max<size_t>(1, (Y.bits() + 7) / 8 + t.range(0, 1))) : Bytes();
      Bytes xr = X.to_be(std::max<size_t>(1, (X.bits() + 7) / 8 + t.range(0, 2)));
      Buf xi(xr), yi(yr);
      bool good = X < c.p && c.has_x(X);
      if (has_y) good = X < c.p && Y < c.p && c.on_curve(Pt(X, Y));
      r = bip340_pubkey_import(ec, o, xi, xr.size(), yi, yr.size());
      expect("bip340_pubkey_import", r, good ? Pt(X, Y) : Pt(), good);
    }
  }
}

PBT_PROP(C21, grinding, 3000, 30000) {
  int id = pick_wei(t);
  const Wei &c = wei(id);
  wei_curve_t *ec = wei_ctx(id);
  Grind g;
  g.mask = (uint8_t)t.pick({0, 1, 3, 7});
  if (c.pb % 8 == 1) g.mask = 1;
  g.want = (uint8_t)t.byte() & g.mask;
  t.nontrivial();
  t.label("%s", c.name);
  if (t.flip()) {
    Bytes ent = t.bytes(32);
    t.mix(ent);
    t.show("entropy", ent);
    Buf eb(ent), p(c.ss);
    bip340_privkey_grind(ec, p, eb, grind_check_x, &g);
    Z s = Z::be(p.get());
    EXPECT(t, p.intact() && !s.zero() && s < c.n, "bip340_privkey_grind gave an invalid key");
    Bytes e = c.mulg(s).x.to_be(c.fs);
    EXPECT(t, grind_check_x(e.data(), &g), "bip340_privkey_grind key does not satisfy the predicate");
  } else {
    Pt P = gen_point(t, c);
    if (t.chance(1, 8)) P = c.mulg(Z((long)t.range(1, 3)));
    if (P.y.odd()) P = c.neg(P);
    Bytes x = P.x.to_be(c.fs);
    t.mix(x);
    t.show("pub", x);
    Buf xb(x), w(c.ss);
    EXPECT(t, bip340_pubkey_grind(ec, w, xb, grind_check_x, &g) == 1 && w.intact(), "bip340_pubkey_grind failed");
    Pt R = c.add(P, c.mulg(Z::be(w.get())));
    EXPECT(t, !R.inf, "bip340_pubkey_grind tweaked to the identity");
    Bytes e = R.x.to_be(c.fs);
    EXPECT(t, grind_check_x(e.data(), &g), "bip340_pubkey_grind result does not satisfy the predicate");
  }
}
