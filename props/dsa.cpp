// C30: DSA.
#include "der.h"
#include "ref_dsa.h"
#include "ref_ossl.h"
#include <torsion/dsa.h>

using ref::DsaGroup;
using ref::Z;

static const DsaGroup &pick_group(T &t) {
  if (t.chance(1, t.thorough_ ? 20 : 80)) return ref::dsa_pool(2048, (size_t)t.pick({224, 256}), 2);
  size_t p = (size_t)t.pick({512, 512, 512, 513, 519, 520, 576, 768});
  if (t.chance(1, 12)) p = (size_t)t.pick({1024, 1025});
  return ref::dsa_pool(p, (size_t)t.pick({160, 160, 224, 256}), (int)t.range(0, 2));
}
static Z pick_x(T &t, const DsaGroup &g) {
  Z x;
  switch (t.weighted({4, 2, 2, 1})) {
    case 0: x = Z::be(t.rnd(g.qlen() + 8)) % g.q; break;
    case 1: x = Z((long)t.range(1, 9)); break;
    case 2: x = g.q - Z((long)t.range(1, 9)); break;
    default: x = Z::be(t.bytes(g.qlen())) % g.q; break;
  }
  return x.zero() ? Z(1) : x;
}
// A message near the size of the order, and near its value.
static Bytes pick_msg(T &t, const DsaGroup &g) {
  size_t n = g.qlen();
  Bytes m;
  switch (t.weighted({3, 2, 1})) {
    case 0: m = t.bytes(t.len_near({0, 1, n - 1, n, n + 1, 20, 28, 32, 33, 64}, 80)); break;
    case 1: {
      m = (g.q + Z((long)t.range(0, 4)) - Z(2)).to_be(n);
      if (t.flip()) m = ref::cat(m, t.bytes(t.range(1, 4)));
      break;
    }
    default: m = Bytes(n + t.range(0, 2), (uint8_t)(t.flip() ? 0xff : 0)); break;
  }
  return m;
}
static void show(T &t, const DsaGroup &g, const Z &y, const Z &x) {
  if (!t.recording()) return;
  t.note("p of %zu bits, q = %s", g.p.bits(), g.q.text().c_str());
  t.show("private key", g.priv(y, x));
}

PBT_RULE(C30, "a group of at least 512 bits, a key or a signature was put to the library and the answer compared with the definition");
PBT_PROP(C30, sign, 4000, 80000) {
  const DsaGroup &g = pick_group(t);
  Z x = pick_x(t, g), y = ref::powm(g.g, x, g.p);
  if (!g.priv_sane(y, x)) t.discard();
  Bytes msg = pick_msg(t, g), en = t.rnd(32), priv = g.priv(y, x), pub = g.pub(y);
  size_t qn = g.qlen();
  t.nontrivial();
  t.label("q of %zu bits, message of %s bytes", g.q.bits(), msg.size() < qn ? "fewer" : msg.size() > qn ? "more" : "as many");
  show(t, g, y, x);
  t.show("message", msg);
  t.mix(priv);
  t.mix(msg);
  Buf mb(msg), kb(priv), eb(en), pb(pub), o(2 * qn), o2(2 * qn);
  size_t n = 0;
  EXPECT(t, dsa_sign(o, &n, mb, msg.size(), kb, priv.size(), eb) == 1 && o.intact(), "dsa_sign failed");
  EXPECT(t, n == 2 * qn, "dsa_sign gave %zu bytes, want %zu", n, 2 * qn);
  Bytes sig = o.get();
  EXPECT(t, ref::model_dsa_verify(g, y, msg, sig), "the signature does not satisfy the equation");
  expect_eq(t, sig, ref::model_dsa_sign(g, x, msg), "dsa_sign");
  Buf e2(t.rnd(32));
  EXPECT(t, dsa_sign(o2, &n, mb, msg.size(), kb, priv.size(), e2) == 1, "dsa_sign failed with other entropy");
  expect_eq(t, o2.get(), sig, "the signature depends on the blinding");
  Buf sb(sig);
  EXPECT(t, dsa_verify(mb, msg.size(), sb, sig.size(), pb, pub.size()) == 1, "dsa_verify refused a signature");
}
PBT_PROP(C30, verify, 10000, 200000) {
  const DsaGroup &g = pick_group(t);
  Z x = pick_x(t, g), y = ref::powm(g.g, x, g.p);
  if (!g.pub_sane(y)) t.discard();
  size_t qn = g.qlen();
  Bytes msg = pick_msg(t, g), sig = ref::model_dsa_sign(g, x, msg), vm = msg;
  Z r = Z::be(ref::sub(sig, 0, qn)), s = Z::be(ref::sub(sig, qn, qn)), top = Z::pow2(8 * qn);
  const char *what = "good";
  auto put = [&](const Z &a, const Z &b) {
    if (a >= top || b >= top) t.discard();
    sig = ref::cat(a.to_be(qn), b.to_be(qn));
  };
  switch (t.weighted({4, 2, 2, 2, 2, 2, 2, 3, 2, 2, 2, 1})) {
    case 0: break;
    case 1: what = "r + q", put(r + g.q, s); break;
    case 2: what = "s + q", put(r, s + g.q); break;
    case 3: what = "negated s", put(r, g.q - s); break;
    case 4: what = "zero r", put(Z(0), s); break;
    case 5: what = "zero s", put(r, Z(0)); break;
    case 6: {
      what = "boundary";
      std::vector<Z> v{Z(0), Z(1), g.q - Z(1), g.q, g.q + Z(1), r, s, top - Z(1)};
      Z a = t.pick(v), b = t.pick(v);
      put(a, b);
      break;
    }
    case 7: what = "bit", t.flip_bit(sig); break;
    case 8: what = "another message", vm = t.mutate(msg, true); break;
    case 9:  // past the size of the order nothing counts
      what = "message extended";
      vm = ref::cat(msg, t.bytes(t.range(1, 9)));
      break;
    case 10: {  // the same residue
      what = "message plus q";
      Z m = ref::dsa_msg(g, msg) + g.q;
      if (m.bits() > g.q.bits()) t.discard();
      vm = m.to_be(qn);
      break;
    }
    default: {
      what = "another key";
      y = ref::powm(g.g, pick_x(t, g), g.p);
      if (t.chance(1, 3)) y = g.p - y;
      if (!g.pub_sane(y)) t.discard();
      break;
    }
  }
  if (t.chance(1, 15)) {
    what = "signature length";
    if (t.flip()) sig.push_back(0);
    else if (t.flip()) sig.insert(sig.begin(), 0);
    else sig.pop_back();
    if (t.chance(1, 4)) sig = ref::cat(Z(r).to_be(qn + 1), s.to_be(qn + 1));
  }
  bool ok = ref::model_dsa_verify(g, y, vm, sig);
  t.nontrivial();
  t.label("%s: %s", what, ok ? "accepted" : "refused");
  show(t, g, y, x);
  t.show("message", vm);
  t.show("signature", sig);
  t.mix(sig);
  t.mix(vm);
  Bytes pub = g.pub(y);
  Buf mb(vm), sb(sig), pb(pub);
  int got = dsa_verify(mb, vm.size(), sb, sig.size(), pb, pub.size());
  EXPECT(t, got == (int)ok, "dsa_verify (%s) returned %d, want %d", what, got, ok);
}
static const char *alter(T &t, DsaGroup &g) {
  Z one(1);
  switch (t.weighted({4, 2, 2, 2, 2, 2, 2, 2})) {
    case 0: return "none";
    case 1: g.g = g.p - g.g; return "g negated";
    case 2: g.g = t.pick(std::vector<Z>{Z(0), one, Z(2), g.p - one, g.p - Z(2), g.p, g.p + g.g, g.p + one}); return "special g";
    case 3: g.g = ref::powm(g.g, Z((long)t.range(2, 1000)), g.p); return "another generator";
    case 4: g.g = Z::be(t.rnd(g.plen())) % g.p; return "random g";
    case 5: g.q = t.flip() ? g.q + Z((long)t.range(1, 3)) : g.q ^ Z::pow2(t.range(0, g.q.bits())); return "q changed";
    case 6: g.p = t.flip() ? g.p + Z((long)t.range(1, 3)) : g.p ^ Z::pow2(t.range(0, g.p.bits())); return "p changed";
    default:
      switch (t.range(0, 4)) {
        case 0: g.q = ref::next_prime(Z::pow2((size_t)t.pick({158, 160, 192, 223, 256}))); break;
        case 1: g.p = g.p >> (g.p.bits() - 511); g.p = g.p | one; break;
        case 2: g.p = Z(0); break;
        case 3: g.q = Z((long)t.range(0, 3)); break;
        default: g.p = Z::pow2((size_t)t.pick({9999, 10000, 10001})) - Z((long)t.pick({1, 3, 5})); break;
      }
      return "sizes";
  }
}
PBT_PROP(C30, groups, 14000, 200000) {
  DsaGroup g = pick_group(t);
  const char *what = alter(t, g);
  bool sane = g.sane(), ok = sane && g.ok();
  Bytes der = g.params(), fl = flat(t, {g.p, g.q, g.g}, false);
  t.nontrivial();
  t.label("%s: %s", what, ok ? "valid" : sane ? "wrong order" : "malformed");
  t.show("params", der);
  t.mix(der);
  Buf kb(der), fb(fl), o(DSA_MAX_PARAMS_SIZE), o2(DSA_MAX_PARAMS_SIZE);
  size_t n = 0;
  int got = dsa_params_verify(kb, der.size());
  EXPECT(t, got == (int)ok, "dsa_params_verify (%s) returned %d, want %d", what, got, ok);
  unsigned b = dsa_params_bits(kb, der.size());
  EXPECT(t, b == (sane ? g.p.bits() : 0), "dsa_params_bits returned %u", b);
  b = dsa_params_qbits(kb, der.size());
  EXPECT(t, b == (sane ? g.q.bits() : 0), "dsa_params_qbits returned %u", b);
  got = dsa_params_export(o, &n, kb, der.size());
  EXPECT(t, got == (int)sane && o.intact(), "dsa_params_export returned %d, want %d", got, sane);
  if (sane) expect_eq(t, o.get(n), ref::flat_ints({g.p, g.q, g.g}), "dsa_params_export");
  got = dsa_params_import(o2, &n, fb, fl.size());
  EXPECT(t, got == (int)sane && o2.intact(), "dsa_params_import returned %d, want %d", got, sane);
  if (sane) expect_eq(t, o2.get(n), der, "dsa_params_import");
}
PBT_PROP(C30, keys, 6500, 120000) {
  DsaGroup g = pick_group(t);
  Z x = pick_x(t, g), y = ref::powm(g.g, x, g.p), one(1);
  const char *what = "none";
  if (t.flip()) switch (t.range(0, 6)) {
    case 0: what = "y negated", y = g.p - y; break;
    case 1: what = "special y", y = t.pick(std::vector<Z>{Z(0), one, Z(2), g.p - one, g.p - Z(2), g.p, g.p + y}); break;
    case 2: what = "another y", y = ref::powm(g.g, pick_x(t, g), g.p); break;
    case 3: what = "random y", y = Z::be(t.rnd(g.plen())) % g.p; break;
    case 4: what = "special x", x = t.pick(std::vector<Z>{Z(0), one, g.q - one, g.q, g.q + x}); break;
    case 5: what = "x changed", x = x + one; break;
    default: what = alter(t, g); break;
  }
  bool gs = g.sane(), us = g.pub_sane(y), uo = us && g.pub_ok(y), vs = g.priv_sane(y, x), vo = vs && g.priv_ok(y, x);
  Bytes pub = g.pub(y), priv = g.priv(y, x);
  t.nontrivial();
  t.label("%s: %s", what, vo ? "valid" : uo ? "public half valid" : us ? "invalid" : "malformed");
  show(t, g, y, x);
  t.mix(priv);
  Buf pb(pub), kb(priv), o(DSA_MAX_PRIV_SIZE), o2(DSA_MAX_PRIV_SIZE), o3(DSA_MAX_PUB_SIZE), o4(DSA_MAX_PUB_SIZE), o5(DSA_MAX_PUB_SIZE), o6(DSA_MAX_PARAMS_SIZE), o7(DSA_MAX_PARAMS_SIZE);
  size_t n = 0;
  int got = dsa_pubkey_verify(pb, pub.size());
  EXPECT(t, got == (int)uo, "dsa_pubkey_verify (%s) returned %d, want %d", what, got, uo);
  got = dsa_privkey_verify(kb, priv.size());
  EXPECT(t, got == (int)vo, "dsa_privkey_verify (%s) returned %d, want %d", what, got, vo);
  EXPECT(t, dsa_pubkey_bits(pb, pub.size()) == (us ? g.p.bits() : 0), "dsa_pubkey_bits");
  EXPECT(t, dsa_pubkey_qbits(pb, pub.size()) == (us ? g.q.bits() : 0), "dsa_pubkey_qbits");
  EXPECT(t, dsa_privkey_bits(kb, priv.size()) == (vs ? g.p.bits() : 0), "dsa_privkey_bits");
  EXPECT(t, dsa_privkey_qbits(kb, priv.size()) == (vs ? g.q.bits() : 0), "dsa_privkey_qbits");
  // private key to and from the flat form
  got = dsa_privkey_export(o, &n, kb, priv.size());
  EXPECT(t, got == (int)vs && o.intact(), "dsa_privkey_export returned %d, want %d", got, vs);
  if (vs) expect_eq(t, o.get(n), ref::flat_ints({g.p, g.q, g.g, y, x}), "dsa_privkey_export");
  if (!y.zero()) {
    Bytes fl = flat(t, {g.p, g.q, g.g, y, x}, false);
    Buf fb(fl);
    got = dsa_privkey_import(o2, &n, fb, fl.size());
    if (vo || !vs) EXPECT(t, got == (int)vo && o2.intact(), "dsa_privkey_import (%s) returned %d, want %d", what, got, vo);
    if (vo) expect_eq(t, o2.get(n), priv, "dsa_privkey_import");
  }
  {  // y left out
    Bytes fl = flat(t, {g.p, g.q, g.g, Z(0), x}, false);
    bool ok = gs && x.sgn() > 0 && x < g.q;
    Buf fb(fl), r(DSA_MAX_PRIV_SIZE);
    got = dsa_privkey_import(r, &n, fb, fl.size());
    EXPECT(t, got == (int)ok && r.intact(), "dsa_privkey_import without y (%s) returned %d, want %d", what, got, ok);
    if (ok) expect_eq(t, r.get(n), g.priv(ref::powm(g.g, x, g.p), x), "dsa_privkey_import without y");
  }
  // the public half
  got = dsa_pubkey_create(o3, &n, kb, priv.size());
  EXPECT(t, got == (int)vs && o3.intact(), "dsa_pubkey_create returned %d, want %d", got, vs);
  if (vs) expect_eq(t, o3.get(n), pub, "dsa_pubkey_create");
  got = dsa_pubkey_export(o4, &n, pb, pub.size());
  EXPECT(t, got == (int)us && o4.intact(), "dsa_pubkey_export returned %d, want %d", got, us);
  if (us) expect_eq(t, o4.get(n), ref::flat_ints({g.p, g.q, g.g, y}), "dsa_pubkey_export");
  Bytes fl = flat(t, {g.p, g.q, g.g, y}, false);
  Buf fb(fl);
  got = dsa_pubkey_import(o5, &n, fb, fl.size());
  EXPECT(t, got == (int)us && o5.intact(), "dsa_pubkey_import returned %d, want %d", got, us);
  if (us) expect_eq(t, o5.get(n), pub, "dsa_pubkey_import");
  // the group of a key
  got = dsa_params_create(o6, &n, kb, priv.size());
  EXPECT(t, got == (int)gs && o6.intact(), "dsa_params_create from a private key returned %d, want %d", got, gs);
  if (gs) expect_eq(t, o6.get(n), g.params(), "dsa_params_create");
  got = dsa_params_create(o7, &n, pb, pub.size());
  EXPECT(t, got == (int)gs && o7.intact(), "dsa_params_create from a public key returned %d, want %d", got, gs);
  if (gs) expect_eq(t, o7.get(n), g.params(), "dsa_params_create");
}
PBT_PROP(C30, encodings, 25000, 300000) {
  const DsaGroup &g = pick_group(t);
  Z x = pick_x(t, g), y = ref::powm(g.g, x, g.p);
  int kind = (int)t.range(0, 2);
  const char *what;
  std::vector<Z> v;
  Bytes der = kind == 0 ? deviate(t, {g.p, g.q, g.g}, false, &what) : kind == 1 ? deviate(t, {y, g.p, g.q, g.g}, false, &what) : deviate(t, {g.p, g.q, g.g, y, x}, true, &what);
  bool ok = ref::der_parse(v, der, kind == 0 ? 3 : kind == 1 ? 4 : 5, kind == 2), sane = false;
  DsaGroup h;
  if (ok) {
    if (kind == 1) h = {v[1], v[2], v[3]};
    else h = {v[0], v[1], v[2]};
    sane = kind == 0 ? h.sane() : kind == 1 ? h.pub_sane(v[0]) : h.priv_sane(v[3], v[4]);
    ok = kind == 0 ? h.ok() : kind == 1 ? h.pub_ok(v[0]) : h.priv_ok(v[3], v[4]);
  }
  static const char *names[] = {"params", "public", "private"};
  t.nontrivial();
  t.label("%s, %s: %s", names[kind], what, ok ? "accepted" : "refused");
  t.show("encoding", der);
  t.mix(der);
  Buf kb(der), o(DSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int got = kind == 0 ? dsa_params_verify(kb, der.size()) : kind == 1 ? dsa_pubkey_verify(kb, der.size()) : dsa_privkey_verify(kb, der.size());
  EXPECT(t, got == (int)ok, "verifying a %s encoding (%s) returned %d, want %d", names[kind], what, got, ok);
  got = kind == 0 ? dsa_params_export(o, &n, kb, der.size()) : kind == 1 ? dsa_pubkey_export(o, &n, kb, der.size()) : dsa_privkey_export(o, &n, kb, der.size());
  EXPECT(t, got == (int)sane && o.intact(), "exporting a %s encoding (%s) returned %d, want %d", names[kind], what, got, sane);
  // flat encodings cut short
  Bytes fl = kind == 0 ? ref::flat_ints({g.p, g.q, g.g}) : kind == 1 ? ref::flat_ints({g.p, g.q, g.g, y}) : ref::flat_ints({g.p, g.q, g.g, y, x});
  fl.resize(t.range(0, fl.size() - 1));
  Buf fb(fl), o2(DSA_MAX_PRIV_SIZE);
  got = kind == 0 ? dsa_params_import(o2, &n, fb, fl.size()) : kind == 1 ? dsa_pubkey_import(o2, &n, fb, fl.size()) : dsa_privkey_import(o2, &n, fb, fl.size());
  EXPECT(t, got == 0 && o2.intact(), "a %s flat encoding cut to %zu bytes was accepted", names[kind], fl.size());
}
PBT_PROP(C30, signature_encodings, 150000, 1000000) {
  size_t qn = (size_t)t.pick({20, 28, 32});
  if (t.chance(1, 10)) qn = t.range(1, 32);
  Z r = Z::be(t.bytes(t.range(0, qn))), s = Z::be(t.bytes(t.range(0, qn)));
  Bytes rs = ref::cat(r.to_be(qn), s.to_be(qn)), der = ref::der_ints({r, s}, false);
  t.nontrivial();
  t.mix(rs);
  t.show("signature", rs);
  Buf rb(rs), o(DSA_MAX_DER_SIZE), db(der), o2(2 * qn);
  size_t n = 0;
  bool given = t.flip();
  EXPECT(t, dsa_sig_export(o, &n, rb, rs.size(), given ? qn : 0) == 1 && o.intact(), "dsa_sig_export failed");
  expect_eq(t, o.get(n), der, "dsa_sig_export");
  EXPECT(t, dsa_sig_import(o2, &n, db, der.size(), qn) == 1 && o2.intact(), "dsa_sig_import failed");
  expect_eq(t, o2.get(n), rs, "dsa_sig_import");
  // wrong sizes
  Bytes bad = rs;
  bad.push_back(0);
  Buf bb(bad), o3(DSA_MAX_DER_SIZE + 4);
  EXPECT(t, dsa_sig_export(o3, &n, bb, bad.size(), given ? qn : 0) == 0 && o3.intact(), "dsa_sig_export took an odd size");
  // malformed DER, values too large for the order
  const char *what;
  Z r2 = t.chance(1, 4) ? Z::be(t.bytes(t.range(qn, 34))) : r;
  Bytes dev = deviate(t, {r2, s}, false, &what);
  std::vector<Z> v;
  bool ok = ref::der_parse(v, dev, 2, false) && v[0].bits() <= 8 * qn && v[1].bits() <= 8 * qn;
  t.label("%s: %s", what, ok ? "accepted" : "refused");
  t.show("der", dev);
  Buf vb(dev), o4(2 * qn);
  int got = dsa_sig_import(o4, &n, vb, dev.size(), qn);
  EXPECT(t, got == (int)ok && o4.intact(), "dsa_sig_import (%s) returned %d, want %d", what, got, ok);
  if (ok) expect_eq(t, o4.get(n), ref::cat(v[0].to_be(qn), v[1].to_be(qn)), "dsa_sig_import");
}
PBT_PROP(C30, agreement, 4000, 50000) {
  const DsaGroup &g = pick_group(t);
  Z a = pick_x(t, g), b = pick_x(t, g), A = ref::powm(g.g, a, g.p), B = ref::powm(g.g, b, g.p);
  DsaGroup h = g;
  const char *what = "good";
  switch (t.weighted({4, 1, 1, 1, 1})) {
    case 0: break;
    case 1: what = "another group", h = ref::dsa_pool(512, 160, g.p.bits() == 512 && g.q == ref::dsa_pool(512, 160, 0).q ? 1 : 0), B = ref::powm(h.g, b, h.p); break;
    case 2: what = "another generator", h.g = ref::powm(g.g, Z(2), g.p); break;
    case 3: what = "outside the subgroup", B = g.p - B; break;
    default: what = "random element", B = Z::be(t.rnd(g.plen())) % g.p; break;
  }
  if (!g.priv_sane(A, a)) t.discard();
  bool ok = h.p == g.p && h.q == g.q && h.g == g.g && h.pub_ok(B);
  Bytes priv = g.priv(A, a), pub = h.pub(B);
  t.nontrivial();
  t.label("%s: %s", what, ok ? "derived" : "refused");
  show(t, g, A, a);
  t.show("their key", pub);
  t.mix(priv);
  t.mix(pub);
  Buf kb(priv), pb(pub), o(g.plen());
  size_t n = 0;
  int got = dsa_derive(o, &n, pb, pub.size(), kb, priv.size());
  EXPECT(t, got == (int)ok && o.intact(), "dsa_derive (%s) returned %d, want %d", what, got, ok);
  if (!ok) return;
  EXPECT(t, n == g.plen(), "dsa_derive gave %zu bytes, want %zu", n, g.plen());
  expect_eq(t, o.get(), ref::powm(B, a, g.p).to_be(g.plen()), "dsa_derive");
  Z bb = b;
  if (!strcmp(what, "good") && g.priv_sane(B, bb) && g.pub_ok(A)) {
    Bytes priv2 = g.priv(B, bb), pub2 = g.pub(A);
    Buf k2(priv2), p2(pub2), o2(g.plen());
    EXPECT(t, dsa_derive(o2, &n, p2, pub2.size(), k2, priv2.size()) == 1, "the other party failed");
    expect_eq(t, o2.get(), o.get(), "the parties derived different secrets");
  }
}
PBT_PROP(C30, second_opinion, 3000, 40000) {
  size_t pb_ = (size_t)t.pick({512, 768, 1024}), qb = 160;
  if (t.chance(1, 3)) pb_ = 1024, qb = (size_t)t.pick({224, 256});
  const DsaGroup &g = ref::dsa_pool(pb_, qb, (int)t.range(0, 2));
  Z x = Z::be(t.rnd(g.qlen() + 8)) % g.q;
  if (x < Z(2)) x = Z(2);
  Z y = ref::powm(g.g, x, g.p);
  Bytes msg = t.bytes(t.len_near({1, 20, 28, 32, 64}, 70));
  if (msg.empty()) msg.push_back(0);
  Bytes en = t.rnd(32), priv = g.priv(y, x), pub = g.pub(y);
  t.nontrivial();
  t.label("q of %zu bits", qb);
  show(t, g, y, x);
  t.show("message", msg);
  t.mix(msg);
  t.mix(priv);
  Buf mb(msg), kb(priv), eb(en), pb(pub), o(2 * g.qlen());
  size_t n = 0;
  EXPECT(t, dsa_sign(o, &n, mb, msg.size(), kb, priv.size(), eb) == 1, "dsa_sign failed");
  EXPECT(t, ref::ossl_dsa_verify(g.p, g.q, g.g, y, msg, o.get()), "OpenSSL refused the signature");
  Bytes theirs = ref::ossl_dsa_sign(g.p, g.q, g.g, y, x, msg);
  if (theirs.empty()) return;
  Buf sb(theirs);
  EXPECT(t, dsa_verify(mb, msg.size(), sb, theirs.size(), pb, pub.size()) == 1, "dsa_verify refused OpenSSL's signature");
}
PBT_PROP(C30, creation, 4000, 50000) {
  const DsaGroup &g = pick_group(t);
  Bytes params = g.params(), en = t.rnd(32);
  t.nontrivial();
  t.label("q of %zu bits", g.q.bits());
  t.mix(params);
  t.mix(en);
  t.show("params", params);
  t.show("entropy", en);
  Buf pb(params), eb(en), o(DSA_MAX_PRIV_SIZE), o2(DSA_MAX_PRIV_SIZE);
  size_t n = 0, n2 = 0;
  EXPECT(t, dsa_privkey_create(o, &n, pb, params.size(), eb) == 1 && o.intact(), "dsa_privkey_create failed");
  std::vector<Z> v;
  EXPECT(t, ref::der_parse(v, o.get(n), 5, true), "a created key is not well-formed DER");
  EXPECT(t, v[0] == g.p && v[1] == g.q && v[2] == g.g, "a created key is in another group");
  EXPECT(t, g.priv_ok(v[3], v[4]), "a created key is invalid");
  EXPECT(t, dsa_privkey_create(o2, &n2, pb, params.size(), eb) == 1 && o2.get(n2) == o.get(n), "creation is not a function of the entropy");
  DsaGroup h = g;
  alter(t, h);
  if (!h.sane()) {
    Bytes bad = h.params();
    Buf bb(bad), o3(DSA_MAX_PRIV_SIZE);
    EXPECT(t, dsa_privkey_create(o3, &n, bb, bad.size(), eb) == 0 && o3.intact(), "dsa_privkey_create took a malformed group");
  }
}
PBT_PROP(C30, generation, 16, 200, 0.3, 0.0) {
  unsigned bits = 1024;
  if (t.thorough_ && t.chance(1, 12)) bits = 2048;
  if (t.chance(1, 6)) bits = (unsigned)t.pick({0, 512, 1023, 1025, 2047, 4096, 10001});
  Bytes en = t.rnd(32);
  bool ok = bits == 1024 || bits == 2048, key = t.flip();
  t.label("%u", bits);
  t.mix(en);
  t.note("bits %u", bits);
  t.show("entropy", en);
  Buf eb(en), o(DSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int got = key ? dsa_privkey_generate(o, &n, bits, eb) : dsa_params_generate(o, &n, bits, eb);
  EXPECT(t, got == (int)ok && o.intact(), "generating %u bits returned %d, want %d", bits, got, ok);
  if (!ok) return;
  t.nontrivial();
  std::vector<Z> v;
  EXPECT(t, ref::der_parse(v, o.get(n), key ? 5 : 3, key), "not well-formed DER");
  DsaGroup g{v[0], v[1], v[2]};
  EXPECT(t, g.p.bits() == bits && g.q.bits() == (bits == 1024 ? 160 : 256), "p of %zu bits, q of %zu bits", g.p.bits(), g.q.bits());
  EXPECT(t, g.ok() && ref::is_prime(g.p) && ref::is_prime(g.q) && (g.p - Z(1)) % g.q == Z(0), "the generated group is invalid");
  if (key) EXPECT(t, g.priv_ok(v[3], v[4]), "the generated key is invalid");
}
