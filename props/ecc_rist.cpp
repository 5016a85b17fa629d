// C25: the Ristretto group over Ed25519, Ed448 and Ed1174.
#include "ecc.h"
#include "ref_map.h"

using ref::Edw;
using ref::edw;

namespace {

struct Grind {
  uint8_t mask, want;
  size_t calls = 0;
};
int grind_check(const unsigned char *pub, void *arg) {
  Grind *g = (Grind *)arg;
  g->calls++;
  return (pub[0] & g->mask) == g->want;
}

Bytes enc(T &t, int id, const Pt &P) {
  Bytes s;
  EXPECT(t, ref::rist_enc(id, s, P), "reference: an element does not have exactly one encoding");
  return s;
}

// A scalar, zero included.
Z gen_sc(T &t, const Edw &c) { return t.chance(1, 12) ? Z(0) : gen_int(t, c.n, c.nb) % c.n; }
Bytes gen_raw(T &t, const Edw &c) { return gen_int(t, c.n, 8 * c.ss).to_le(c.ss); }

// Any string of the size of an encoding.
Bytes gen_enc(T &t, int id) {
  const Edw &c = edw(id);
  Z s;
  switch (t.weighted({5, 2, 2, 2, 2, 2, 1})) {
    case 0: return enc(t, id, c.mulg(gen_sc(t, c)));
    case 1: {  // the negative root
      s = Z::le(enc(t, id, c.mulg(gen_sc(t, c))));
      s = (c.p - s) % c.p;
      break;
    }
    case 2: {  // not reduced
      s = Z::le(enc(t, id, c.mulg(Z((long)t.range(0, 300)))));
      s = s + c.p;
      if (s.bits() > 8 * c.fs) s = s % Z::pow2(8 * c.fs);
      break;
    }
    case 3: s = Z((long)t.range(0, 60)); break;
    case 4: s = (c.p + Z((long)t.range(0, 60)) - Z(30)) % Z::pow2(8 * c.fs); break;
    case 5: {
      Bytes b = enc(t, id, c.mulg(gen_sc(t, c)));
      t.flip_bit(b);
      return b;
    }
    default: {
      Z i;  // where a s^2 = 1, and its neighbours
      if (ref::sqrtmod(i, c.a, c.p)) s = t.flip() ? i : c.p - i;
      else s = c.p - Z(1);
      break;
    }
  }
  if (t.chance(1, 8)) s = (gen_int(t, c.p, 8 * c.fs));
  if (t.chance(1, 2) && s.odd()) s = s ^ Z(1);
  return s.to_le(c.fs);
}

}  // namespace

PBT_RULE(C25, "the element is not the identity, or the string differs from every encoding");

PBT_PROP(C25, decode, 10000, 300000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes s = gen_enc(t, id);
  Pt P;
  bool ok = ref::rist_dec(id, P, s), zero = Z::le(s).zero();
  if (!zero) t.nontrivial();
  t.label("%s %s", c.name, ok ? "valid" : Z::le(s) >= c.p ? "not reduced" : s[0] & 1 ? "negative" : "no element");
  t.mix(s);
  t.show("encoding", s);
  EXPECT(t, ristretto_pubkey_size(ec) == c.fs && ristretto_privkey_size(ec) == c.ss, "sizes on %s", c.name);
  Buf b(s), o(c.fs);
  EXPECT(t, ristretto_pubkey_verify(ec, b) == (int)ok, "ristretto_pubkey_verify on %s, want %d", c.name, ok);
  EXPECT(t, ristretto_pubkey_is_infinity(ec, b) == (int)zero, "ristretto_pubkey_is_infinity on %s", c.name);
  // every operation refuses what the check refuses, and re-encodes to the same bytes
  Buf one(Z(1).to_le(c.ss)), nil(c.ss, 0), id_(c.fs, 0);
  const unsigned char *list[2] = {b, id_};
  struct {
    const char *name;
    int ret;
    Bytes out;
  } got[6];
  int n = 0;
  auto take = [&](const char *name, int ret) {
    EXPECT(t, o.intact(), "%s wrote outside its buffer", name);
    got[n].name = name, got[n].ret = ret, got[n].out = o.get(), n++;
  };
  take("ristretto_pubkey_tweak_add", ristretto_pubkey_tweak_add(ec, o, b, nil));
  if (!(ok && zero)) take("ristretto_pubkey_tweak_mul", ristretto_pubkey_tweak_mul(ec, o, b, one));
  take("ristretto_pubkey_add", t.flip() ? ristretto_pubkey_add(ec, o, b, id_) : ristretto_pubkey_add(ec, o, id_, b));
  if (t.flip()) std::swap(list[0], list[1]);
  take("ristretto_pubkey_combine", ristretto_pubkey_combine(ec, o, list, 2));
  take("ristretto_derive", ristretto_derive(ec, o, b, one));
  for (int i = 0; i < n; i++) {
    EXPECT(t, got[i].ret == (int)ok, "%s on %s returned %d, want %d", got[i].name, c.name, got[i].ret, ok);
    if (ok) expect_eq(t, got[i].out, s, "%s with the neutral operand on %s", got[i].name, c.name);
  }
  int r = ristretto_pubkey_negate(ec, o, b);
  EXPECT(t, r == (int)ok, "ristretto_pubkey_negate on %s returned %d, want %d", c.name, r, ok);
  if (ok) expect_eq(t, o.get(), enc(t, id, c.neg(P)), "ristretto_pubkey_negate on %s", c.name);
}

PBT_PROP(C25, scalars, 12000, 300000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Bytes a = gen_raw(t, c), b = gen_raw(t, c);
  Z A = Z::le(a), B = Z::le(b);
  if (t.chance(1, 6)) B = (c.n - A % c.n) % c.n, b = B.to_le(c.ss);
  bool va = A < c.n, vb = B < c.n;
  if (va && vb && !A.zero()) t.nontrivial();
  t.label("%s %d%d", c.name, va, vb);
  t.mix(a), t.mix(b);
  t.show("a", a), t.show("b", b);
  Buf ab(a), bb(b), o(c.ss);
  EXPECT(t, ristretto_privkey_verify(ec, ab) == (int)va, "ristretto_privkey_verify on %s", c.name);
  EXPECT(t, ristretto_privkey_is_zero(ec, ab) == (int)A.zero(), "ristretto_privkey_is_zero on %s", c.name);
  auto check = [&](const char *name, int ret, bool want, const Z &v) {
    EXPECT(t, o.intact(), "%s wrote outside its buffer", name);
    EXPECT(t, ret == (int)want, "%s on %s returned %d, want %d", name, c.name, ret, want);
    if (want) expect_eq(t, o.get(), v.to_le(c.ss), "%s on %s", name, c.name);
  };
  check("ristretto_privkey_export", ristretto_privkey_export(ec, o, ab), va, A);
  Z m = (A * B) % c.n;
  check("ristretto_privkey_tweak_add", ristretto_privkey_tweak_add(ec, o, ab, bb), va && vb, (A + B) % c.n);
  check("ristretto_privkey_tweak_mul", ristretto_privkey_tweak_mul(ec, o, ab, bb), va && vb && !m.zero(), m);
  check("ristretto_privkey_negate", ristretto_privkey_negate(ec, o, ab), va, (c.n - A % c.n) % c.n);
  Z inv;
  if (va && !A.zero()) inv = ref::invz(A, c.n);
  check("ristretto_privkey_invert", ristretto_privkey_invert(ec, o, ab), va, inv);
  // shorter and longer strings
  Bytes raw = a;
  switch (t.range(0, 3)) {
    case 0: break;
    case 1: raw.resize(t.range(0, c.ss)); break;
    case 2: raw.resize(c.ss + t.range(1, 4), 0); break;
    default: raw.resize(c.ss + t.range(1, 4), 0), raw.back() = (uint8_t)t.range(0, 255); break;
  }
  Z R = Z::le(raw);
  Buf rb(raw);
  check("ristretto_privkey_import", ristretto_privkey_import(ec, o, rb, raw.size()), R < c.n, R);
  // in place
  Buf io(a);
  int r = ristretto_privkey_tweak_add(ec, io, io, bb);
  EXPECT(t, io.intact() && r == (int)(va && vb), "ristretto_privkey_tweak_add in place");
  if (r) expect_eq(t, io.get(), ((A + B) % c.n).to_le(c.ss), "ristretto_privkey_tweak_add in place on %s", c.name);
  Bytes wide = t.bytes(2 * c.ss);
  if (t.chance(1, 4)) wide = (gen_int(t, c.n, 8 * c.ss) * c.n + Z((long)t.range(0, 2))).to_le(2 * c.ss);
  Buf wb(wide);
  ristretto_privkey_from_uniform(ec, o, wb);
  EXPECT(t, o.intact(), "ristretto_privkey_from_uniform wrote outside its buffer");
  expect_eq(t, o.get(), (Z::le(wide) % c.n).to_le(c.ss), "ristretto_privkey_from_uniform on %s", c.name);
  Bytes e = t.bytes(32);
  Buf eb(e), o2(c.ss);
  ristretto_privkey_generate(ec, o, eb);
  ristretto_privkey_generate(ec, o2, eb);
  EXPECT(t, o.intact() && ristretto_privkey_verify(ec, o) == 1, "ristretto_privkey_generate gave an invalid key");
  expect_eq(t, o2.get(), o.get(), "ristretto_privkey_generate from the same entropy");
}

PBT_PROP(C25, elements, 10000, 300000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Z a = gen_sc(t, c), b = gen_sc(t, c);
  switch (t.weighted({5, 1, 1})) {
    case 0: break;
    case 1: b = a; break;
    default: b = (c.n - a) % c.n; break;
  }
  Bytes raw = t.chance(1, 4) ? gen_raw(t, c) : gen_sc(t, c).to_le(c.ss);
  Z k = Z::le(raw);
  bool vk = k < c.n;
  if (!a.zero()) t.nontrivial();
  t.label("%s%s%s", c.name, a == b ? " equal" : (a + b) % c.n == Z(0) ? " inverse" : "", vk ? k.zero() ? " zero" : "" : " large");
  t.mix(a.to_le(c.ss)), t.mix(b.to_le(c.ss)), t.mix(raw);
  t.show("a", a.to_le(c.ss)), t.show("b", b.to_le(c.ss)), t.show("k", raw);
  Pt P = c.mulg(a), Q = c.mulg(b);
  Bytes p = enc(t, id, P), q = enc(t, id, Q);
  Buf pb(p), qb(q), kb(raw), ab(a.to_le(c.ss)), o(c.fs);
  auto check = [&](const char *name, int ret, bool want, const Pt &V) {
    EXPECT(t, o.intact(), "%s wrote outside its buffer", name);
    EXPECT(t, ret == (int)want, "%s on %s returned %d, want %d", name, c.name, ret, want);
    if (want) expect_eq(t, o.get(), enc(t, id, V), "%s on %s", name, c.name);
  };
  check("ristretto_pubkey_create", ristretto_pubkey_create(ec, o, ab), true, P);
  Pt kP = c.mul(k % c.n, P);
  check("ristretto_pubkey_create", ristretto_pubkey_create(ec, o, kb), vk, c.mulg(k % c.n));
  check("ristretto_pubkey_tweak_add", ristretto_pubkey_tweak_add(ec, o, pb, kb), vk, c.add(P, c.mulg(k % c.n)));
  check("ristretto_pubkey_tweak_mul", ristretto_pubkey_tweak_mul(ec, o, pb, kb), vk && !(kP == c.zero()), kP);
  check("ristretto_derive", ristretto_derive(ec, o, pb, kb), vk, kP);
  check("ristretto_pubkey_add", ristretto_pubkey_add(ec, o, pb, qb), true, c.add(P, Q));
  check("ristretto_pubkey_negate", ristretto_pubkey_negate(ec, o, pb), true, c.neg(P));
  // in place
  Buf io(p);
  int r = ristretto_pubkey_add(ec, io, io, qb);
  EXPECT(t, r == 1 && io.intact(), "ristretto_pubkey_add in place");
  expect_eq(t, io.get(), enc(t, id, c.add(P, Q)), "ristretto_pubkey_add in place on %s", c.name);
}

PBT_PROP(C25, combine, 5000, 60000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  size_t n = t.range(0, 8);
  std::vector<Bytes> keys;
  std::vector<const unsigned char *> ptr;
  Pt S = c.zero();
  bool ok = true;
  std::vector<Z> used;
  for (size_t i = 0; i < n; i++) {
    Bytes s;
    if (!used.empty() && t.chance(1, 3)) {
      Z k = used[t.range(0, used.size() - 1)];
      s = enc(t, id, c.mulg(t.flip() ? k : (c.n - k) % c.n));
    } else if (t.chance(1, 16)) {
      s = gen_enc(t, id);
    } else {
      Z k = gen_sc(t, c);
      used.push_back(k);
      s = enc(t, id, c.mulg(k));
    }
    Pt P;
    if (ref::rist_dec(id, P, s)) S = c.add(S, P);
    else ok = false;
    keys.push_back(s);
    t.mix(s);
    t.show("key", s);
  }
  for (auto &k : keys) ptr.push_back(k.data());
  if (n > 1) t.nontrivial();
  t.label("%s %zu%s", c.name, n, ok ? "" : " invalid");
  Buf o(c.fs);
  static const unsigned char *none[1] = {nullptr};
  int r = ristretto_pubkey_combine(ec, o, n ? ptr.data() : none, n);
  EXPECT(t, o.intact(), "ristretto_pubkey_combine wrote outside its buffer");
  EXPECT(t, r == (int)ok, "ristretto_pubkey_combine of %zu on %s returned %d, want %d", n, c.name, r, ok);
  if (ok) expect_eq(t, o.get(), enc(t, id, S), "ristretto_pubkey_combine of %zu on %s", n, c.name);
}

PBT_PROP(C25, agreement, 4000, 60000) {
  // A chain of the same operations on the secret and the public side.
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Z a = gen_sc(t, c);
  Buf k(a.to_le(c.ss)), p(c.fs);
  EXPECT(t, ristretto_pubkey_create(ec, p, k) == 1, "ristretto_pubkey_create");
  t.mix(k.get());
  t.show("key", k.get());
  size_t steps = t.range(1, 6);
  for (size_t i = 0; i < steps; i++) {
    Z w = gen_sc(t, c);
    Buf wb(w.to_le(c.ss));
    t.mix(wb.get());
    int op = (int)t.range(0, 2), r1, r2;
    t.note("step %d with %s", op, hex(wb.get()).c_str());
    if (op == 0) r1 = ristretto_privkey_tweak_add(ec, k, k, wb), r2 = ristretto_pubkey_tweak_add(ec, p, p, wb);
    else if (op == 1) r1 = ristretto_privkey_negate(ec, k, k), r2 = ristretto_pubkey_negate(ec, p, p);
    else r1 = ristretto_privkey_tweak_mul(ec, k, k, wb), r2 = ristretto_pubkey_tweak_mul(ec, p, p, wb);
    EXPECT(t, r1 == r2, "operation %d: the private side returned %d and the public side %d on %s", op, r1, r2, c.name);
    if (!r1) break;
    Buf q(c.fs);
    EXPECT(t, ristretto_pubkey_create(ec, q, k) == 1, "ristretto_pubkey_create");
    expect_eq(t, p.get(), q.get(), "public and private side after operation %d on %s", op, c.name);
    t.nontrivial();
  }
  t.label("%s", c.name);
}

PBT_PROP(C25, grinding, 3000, 50000) {
  int id = pick_edw(t);
  const Edw &c = edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  Grind g;
  g.mask = (uint8_t)t.pick({0, 2, 6, 14});
  g.want = (uint8_t)t.byte() & g.mask;
  t.nontrivial();
  t.label("%s %02x", c.name, g.mask);
  Bytes e = t.bytes(32);
  Z a = gen_sc(t, c);
  t.mix(e), t.mix(a.to_le(c.ss));
  t.show("entropy", e), t.show("key", a.to_le(c.ss));
  // public
  Bytes p = t.chance(1, 6) ? gen_enc(t, id) : enc(t, id, c.mulg(a));
  t.show("public", p);
  Pt P;
  bool ok = ref::rist_dec(id, P, p);
  Buf pb(p), w(c.ss), o(c.fs);
  int r = ristretto_pubkey_grind(ec, w, pb, grind_check, &g);
  EXPECT(t, w.intact(), "ristretto_pubkey_grind wrote outside its buffer");
  EXPECT(t, r == (int)ok, "ristretto_pubkey_grind on %s returned %d, want %d", c.name, r, ok);
  if (ok) {
    r = ristretto_pubkey_tweak_add(ec, o, pb, w);
    EXPECT(t, r == 1, "the tweak found by ristretto_pubkey_grind on %s is not a scalar", c.name);
    Grind h = g;
    EXPECT(t, grind_check(o, &h), "the tweak found by ristretto_pubkey_grind on %s does not give a key that satisfies the predicate", c.name);
  }
  // private
  Buf eb(e), k(c.ss);
  ristretto_privkey_grind(ec, k, eb, grind_check, &g);
  EXPECT(t, k.intact() && ristretto_privkey_verify(ec, k) == 1, "ristretto_privkey_grind on %s gave an invalid key", c.name);
  r = ristretto_pubkey_create(ec, o, k);
  EXPECT(t, r == 1 && grind_check(o, &g), "the key found by ristretto_privkey_grind on %s does not satisfy the predicate", c.name);
}
