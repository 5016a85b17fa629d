// C35: blinding and context reuse never change a result.
#include "prog.h"
#include "ref_kdf.h"
#include "ref_rsa.h"
#include "ref_dsa.h"
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <memory>

PBT_RULE(C35, "at least one call was repeated after a randomisation, with other entropy or on a used object");

namespace {

// The blinding scalar a context is expected to hold after randomising.  Only
// used to aim: scalars related to it drive the blinded computation through
// infinity and doublings.
Z blind_of(const Bytes &entropy, const Z &n) {
  ref::HmacDrbg d("sha256", entropy);
  size_t limbs = (n.bits() + 63) / 64;
  for (int i = 0; i < 64; i++) {
    Z z = Z::le(d.generate(8 * limbs, Bytes())) % Z::pow2(n.bits());
    if (!z.zero() && z < n) return z;
  }
  return Z(1);
}

std::vector<Z> near_blind(const Z &b, const Z &n) {
  std::vector<Z> v;
  auto add = [&](const Z &z) { Z r = z % n; if (!r.zero()) v.push_back(r); };
  add(b); add(b + Z(1)); add(b - Z(1)); add(b * Z(2)); add(n - b); add(n - b - Z(1)); add(n - b + Z(1)); add(b * Z(3));
  for (size_t w : {4, 5, 6, 8}) { // the last addend meets the running sum
    size_t top = (n.bits() - 1) / w * w;
    Z unit = Z::pow2(top);
    Z d = ref::fdiv(b + unit - Z(1), unit);
    add(d * unit * Z(2));
    add(b + unit);
    add(b + d * unit);
  }
  return v;
}

Bytes gen_entropy(T &t) { return t.chance(1, 6) ? Bytes(32, (uint8_t)t.pick({0, 255, 1})) : t.bytes(32); }

struct WeiOwn { wei_curve_t *c; explicit WeiOwn(int id) : c(wei_curve_create((wei_curve_id_t)id)) {} ~WeiOwn() { wei_curve_destroy(c); } };
struct EdwOwn { edwards_curve_t *c; explicit EdwOwn(int id) : c(edwards_curve_create((edwards_curve_id_t)id)) {} ~EdwOwn() { edwards_curve_destroy(c); } };

}

PBT_PROP(C35, weierstrass, 2200, 30000) {
  int id = pick_wei(t);
  const ref::Wei &c = ref::wei(id);
  WeiOwn own(id);
  std::vector<Z> special;
  size_t n = 3 + t.range(0, 9), rand = 0, after = 0;
  for (size_t i = 0; i < n; i++) {
    if (t.chance(2, 5) || i == 0) {
      Bytes e = gen_entropy(t);
      Buf eb(e);
      wei_curve_randomize(own.c, eb);
      EXPECT(t, eb.get() == e, "randomize changed the entropy");
      special = near_blind(blind_of(e, c.n), c.n);
      rand++;
      if (t.recording()) t.show("randomize", e);
    }
    WeiCall call = gen_wei_call(t, id, t.flip() ? special : std::vector<Z>());
    if (t.recording()) t.note("%s\n", call.name.c_str());
    t.label("%s", call.name.c_str());
    Bytes want = call.run(wei_ctx(id));
    expect_eq(t, call.run(own.c), want, "%s on curve %d after %zu randomisations", call.name.c_str(), id, rand);
    after++;
  }
  if (after) t.nontrivial();
}

PBT_PROP(C35, edwards, 2600, 30000) {
  int id = pick_edw(t);
  const ref::Edw &c = ref::edw(id);
  EdwOwn own(id);
  std::vector<Z> special;
  size_t n = 3 + t.range(0, 9), rand = 0;
  for (size_t i = 0; i < n; i++) {
    if (t.chance(2, 5) || i == 0) {
      Bytes e = gen_entropy(t);
      Buf eb(e);
      edwards_curve_randomize(own.c, eb);
      EXPECT(t, eb.get() == e, "randomize changed the entropy");
      special = near_blind(blind_of(e, c.n), c.n);
      rand++;
      if (t.recording()) t.show("randomize", e);
    }
    EdwCall call = gen_edw_call(t, id, t.flip() ? special : std::vector<Z>());
    if (t.recording()) t.note("%s\n", call.name.c_str());
    t.label("%s", call.name.c_str());
    Bytes want = call.run(edw_ctx(id));
    expect_eq(t, call.run(own.c), want, "%s on curve %d after %zu randomisations", call.name.c_str(), id, rand);
  }
  t.nontrivial();
}

// The point a blinded context computes, against the model rather than against
// another context.
PBT_PROP(C35, base_point, 3000, 40000) {
  bool w = t.flip();
  t.nontrivial();
  if (w) {
    int id = pick_wei(t);
    const ref::Wei &c = ref::wei(id);
    WeiOwn own(id);
    size_t fs = wei_curve_field_size(own.c), ss = wei_curve_scalar_size(own.c);
    for (size_t i = 1 + t.range(0, 3); i--;) {
      Bytes e = gen_entropy(t);
      wei_curve_randomize(own.c, e.data());
      std::vector<Z> sp = near_blind(blind_of(e, c.n), c.n);
      Z k = t.chance(1, 4) ? gen_scalar(t, c.n) : t.pick(sp);
      Buf out(1 + 2 * fs);
      size_t len = out.n;
      if (t.recording()) { t.show("entropy", e); t.show("scalar", k.to_be(ss)); }
      EXPECT(t, ecdsa_pubkey_create(own.c, out, &len, k.to_be(ss).data(), 0) == 1, "pubkey_create failed");
      expect_eq(t, out.get(len), c.enc(c.mulg(k), false), "curve %d", id);
    }
  } else {
    int id = pick_edw(t);
    const ref::Edw &c = ref::edw(id);
    EdwOwn own(id);
    size_t ss = edwards_curve_scalar_size(own.c);
    for (size_t i = 1 + t.range(0, 3); i--;) {
      Bytes e = gen_entropy(t);
      edwards_curve_randomize(own.c, e.data());
      std::vector<Z> sp = near_blind(blind_of(e, c.n), c.n);
      Z k = t.chance(1, 4) ? gen_scalar(t, c.n) : t.pick(sp);
      Buf out(eddsa_pubkey_size(own.c));
      if (t.recording()) { t.show("entropy", e); t.show("scalar", k.to_le(ss)); }
      eddsa_pubkey_from_scalar(own.c, out, k.to_le(ss).data());
      expect_eq(t, out.get(), c.enc(c.mul(k, c.g)), "curve %d", id);
    }
  }
}

namespace {

struct Batch {
  std::vector<Bytes> msgs, sigs, pubs;
  std::vector<const uint8_t *> m, s, p;
  std::vector<size_t> ml, pl;
  bool good = true;
  void seal() {
    for (auto &b : msgs) m.push_back(b.data()), ml.push_back(b.size());
    for (auto &b : sigs) s.push_back(b.data());
    for (auto &b : pubs) p.push_back(b.data()), pl.push_back(b.size());
    if (m.empty()) { m.reserve(1); s.reserve(1); p.reserve(1); ml.reserve(1); pl.reserve(1); }
  }
};

}

// One scratch object through a sequence of batches.
PBT_PROP(C35, scratch_reuse, 1200, 15000) {
  int kind = (int)t.range(0, 2);
  size_t cap = t.pick({2, 3, 4, 5, 8, 17}); // in points; a signature needs two
  size_t rounds = 2 + t.range(0, 3);
  t.nontrivial();
  if (kind < 2) {
    int id = 5;
    WeiOwn own(id);
    wei_curve_t *ec = own.c;
    size_t fs = wei_curve_field_size(ec), ss = wei_curve_scalar_size(ec);
    wei_scratch_t *sc = wei_scratch_create(ec, cap);
    struct D { wei_curve_t *e; wei_scratch_t *s; ~D() { wei_scratch_destroy(e, s); } } d{ec, sc};
    for (size_t r = 0; r < rounds; r++) {
      Batch b;
      size_t n = t.range(0, cap + 4);
      for (size_t i = 0; i < n; i++) {
        Bytes k = gen_scalar(t, ref::wei(id).n).to_be(ss), m = t.bytes(32), s(fs + ss), p(kind ? fs : fs + 1);
        if (kind) {
          bip340_sign(ec, s.data(), m.data(), 32, k.data(), t.bytes(32).data());
          bip340_pubkey_create(ec, p.data(), k.data());
        } else {
          size_t pl = p.size();
          bipschnorr_sign(ec, s.data(), m.data(), 32, k.data());
          ecdsa_pubkey_create(ec, p.data(), &pl, k.data(), 1);
        }
        if (t.chance(1, 8)) t.flip_bit(t.pick({0, 1}) ? s : m);
        b.good &= (kind ? bip340_verify(ec, m.data(), 32, s.data(), p.data()) : bipschnorr_verify(ec, m.data(), 32, s.data(), p.data(), p.size())) == 1;
        b.msgs.push_back(m); b.sigs.push_back(s); b.pubs.push_back(p);
      }
      b.seal();
      if (t.chance(1, 3)) { Bytes e = t.bytes(32); wei_curve_randomize(ec, e.data()); }
      int got = kind ? bip340_verify_batch(ec, b.m.data(), b.ml.data(), b.s.data(), b.p.data(), n, sc)
                     : bipschnorr_verify_batch(ec, b.m.data(), b.ml.data(), b.s.data(), b.p.data(), b.pl.data(), n, sc);
      t.label("%s", b.good ? "good" : "bad");
      EXPECT(t, got == (int)b.good, "%s batch %zu of %zu with scratch for %zu: %d, one by one %d", kind ? "bip340" : "bipschnorr", r, n, cap, got, (int)b.good);
    }
  } else {
    int id = pick_edw(t);
    EdwOwn own(id);
    edwards_curve_t *ec = own.c;
    size_t ks = eddsa_privkey_size(ec);
    edwards_scratch_t *sc = edwards_scratch_create(ec, cap);
    struct D { edwards_curve_t *e; edwards_scratch_t *s; ~D() { edwards_scratch_destroy(e, s); } } d{ec, sc};
    for (size_t r = 0; r < rounds; r++) {
      Batch b;
      size_t n = t.range(0, cap + 4);
      for (size_t i = 0; i < n; i++) {
        Bytes k = t.bytes(ks), m = t.bytes(t.len(64)), s(eddsa_sig_size(ec)), p(eddsa_pubkey_size(ec));
        eddsa_sign(ec, s.data(), m.data(), m.size(), k.data(), -1, nullptr, 0);
        eddsa_pubkey_create(ec, p.data(), k.data());
        if (t.chance(1, 8)) t.flip_bit(s);
        b.good &= eddsa_verify(ec, m.data(), m.size(), s.data(), p.data(), -1, nullptr, 0) == 1;
        b.msgs.push_back(m); b.sigs.push_back(s); b.pubs.push_back(p);
      }
      b.seal();
      int got = eddsa_verify_batch(ec, b.m.data(), b.ml.data(), b.s.data(), b.p.data(), n, -1, nullptr, 0, sc);
      t.label("%s", b.good ? "good" : "bad");
      EXPECT(t, got == (int)b.good, "eddsa batch %zu of %zu with scratch for %zu on curve %d: %d, one by one %d", r, n, cap, id, got, (int)b.good);
    }
  }
}

// RSA private operations: entropy only blinds.
PBT_PROP(C35, rsa_entropy, 2500, 30000) {
  ref::RsaKey k = ref::rsa_pool(t.pick({512, 640, 768, 1024}), t.range(0, ref::rsa_pool_size - 1));
  Bytes priv = k.priv(), pub = k.pub();
  size_t len = k.klen();
  int op = (int)t.range(0, 3);
  Bytes e[3] = {gen_entropy(t), gen_entropy(t), gen_entropy(t)};
  t.nontrivial();
  Bytes ref;
  int status = -1;
  Bytes msg = t.bytes(t.range(0, len > 70 ? len - 66 - 1 : 0) % 24), label = t.bytes(t.len(20)), ct(len), dig = t.rnd(32);
  size_t cl = len;
  hash_id_t h = HASH_SHA1;
  if (op == 1) EXPECT(t, rsa_encrypt(ct.data(), &cl, msg.data(), msg.size(), pub.data(), pub.size(), e[2].data()) == 1, "encrypt");
  if (op == 2) {
    if (len < 2 * 20 + 2 + msg.size()) t.discard();
    EXPECT(t, rsa_encrypt_oaep(ct.data(), &cl, h, msg.data(), msg.size(), pub.data(), pub.size(), label.data(), label.size(), e[2].data()) == 1, "encrypt_oaep");
  }
  if (op && t.chance(1, 4)) { t.flip_bit(ct); if (Z::be(ct) >= k.n) t.discard(); }
  const char *name = op == 0 ? "rsa_sign" : op == 1 ? "rsa_decrypt" : op == 2 ? "rsa_decrypt_oaep" : "rsa_decrypt_key";
  size_t want = t.range(0, 24);
  if (op == 3) {
    msg.resize(want);
    EXPECT(t, rsa_encrypt(ct.data(), &cl, msg.data(), msg.size(), pub.data(), pub.size(), e[2].data()) == 1, "encrypt");
  }
  t.label("%s", name);
  for (int i = 0; i < 3; i++) {
    Buf out(len);
    size_t n = len;
    int r;
    switch (op) {
      case 0: r = rsa_sign(out, &n, HASH_SHA256, dig.data(), 32, priv.data(), priv.size(), e[i].data()); break;
      case 1: r = rsa_decrypt(out, &n, ct.data(), cl, priv.data(), priv.size(), e[i].data()); break;
      case 2: r = rsa_decrypt_oaep(out, &n, h, ct.data(), cl, priv.data(), priv.size(), label.data(), label.size(), e[i].data()); break;
      default: n = want; r = rsa_decrypt_key(out, want, ct.data(), cl, priv.data(), priv.size(), e[i].data()); break;
    }
    EXPECT(t, out.intact(), "%s wrote outside its output", name);
    if (i == 0) { status = r; if (r) ref = out.get(n); continue; }
    EXPECT(t, r == status, "%s: %d with one entropy, %d with another", name, status, r);
    if (r) expect_eq(t, out.get(n), ref, "%s depends on the entropy", name);
  }
}

PBT_PROP(C35, dsa_entropy, 1500, 20000) {
  const ref::DsaGroup &g = ref::dsa_pool(t.pick({512, 768, 1024}), 160, (int)t.range(0, 2));
  Z x = gen_scalar(t, g.q), y = ref::powm(g.g, x, g.p);
  Bytes priv = g.priv(y, x), msg = t.bytes(t.len_near({0, 20, 32}, 64));
  Bytes ref;
  t.nontrivial();
  for (int i = 0; i < 3; i++) {
    Bytes e = gen_entropy(t);
    Buf out(40);
    size_t n = 40;
    EXPECT(t, dsa_sign(out, &n, msg.data(), msg.size(), priv.data(), priv.size(), e.data()) == 1 && out.intact(), "dsa_sign failed");
    if (i == 0) ref = out.get(n);
    else expect_eq(t, out.get(n), ref, "dsa_sign depends on the entropy");
  }
}

// Hidden state: the same call before and after unrelated calls on one context.
PBT_PROP(C35, no_memory, 1500, 20000) {
  t.nontrivial();
  if (t.flip()) {
    int id = pick_wei(t);
    wei_curve_t *ec = wei_ctx(id);
    WeiCall a = gen_wei_call(t, id);
    Bytes want = a.run(ec);
    for (size_t i = 1 + t.range(0, 4); i--;) gen_wei_call(t, id).run(ec);
    expect_eq(t, a.run(ec), want, "%s repeated on curve %d", a.name.c_str(), id);
  } else if (t.flip()) {
    int id = pick_edw(t);
    edwards_curve_t *ec = edw_ctx(id);
    EdwCall a = gen_edw_call(t, id);
    Bytes want = a.run(ec);
    for (size_t i = 1 + t.range(0, 4); i--;) gen_edw_call(t, id).run(ec);
    expect_eq(t, a.run(ec), want, "%s repeated on curve %d", a.name.c_str(), id);
  } else {
    int id = (int)t.range(0, 1);
    mont_curve_t *ec = mont_ctx(id);
    MontCall a = gen_mont_call(t, id);
    Bytes want = a.run(ec);
    for (size_t i = 1 + t.range(0, 4); i--;) gen_mont_call(t, id).run(ec);
    expect_eq(t, a.run(ec), want, "%s repeated on curve %d", a.name.c_str(), id);
  }
}
