// C37: what is drawn from the caller's entropy.
#include "ecc.h"
#include "ref_dsa.h"
#include "ref_kdf.h"
#include <torsion/dsa.h>
#include <torsion/rsa.h>
#include <algorithm>

using ref::DsaGroup;
using ref::RsaKey;

PBT_RULE(C37, "the operation accepted its arguments and drew on the entropy");

namespace {
int take_it(const unsigned char *, void *) { return 1; }
int take_second(const unsigned char *, void *arg) { return ++*(int *)arg >= 2; }
int take_it_len(const unsigned char *, size_t, void *) { return 1; }

// Entropy number i of a series.
Bytes series(const Bytes &seed, unsigned i) {
  Bytes b = seed;
  b.push_back((uint8_t)(i >> 8));
  b.push_back((uint8_t)i);
  return ref::hash("sha256", b);
}

// A secret number drawn from entropy, as a big-endian string, and the bits of it that are free.
struct Secret {
  const char *name;
  int kind, id;
  Bytes params;  // DSA
  Bytes mask;
  Bytes draw(T &t, const Bytes &en) const;
};
// The free bits of a number drawn from [1, n).
Bytes below(const Z &n, size_t size) {
  size_t nb = n.bits();
  bool top = ref::fdiv(n, Z::pow2(nb - 4)) >= Z(12);
  return (Z::pow2(top ? nb : nb - 1) - Z(1)).to_be(size);
}
Bytes rev(Bytes b) { return Bytes(b.rbegin(), b.rend()); }
template <class C>
Bytes clamped(const C &c) { return ref::xorb(c.clamp(Bytes(c.ss, 0)).to_be(c.ss), c.clamp(Bytes(c.ss, 0xff)).to_be(c.ss)); }

Bytes Secret::draw(T &t, const Bytes &en) const {
  Buf eb(en), o(mask.size());
  int calls = 0;
  Bytes r;
  switch (kind) {
    case 0: ecdsa_privkey_generate(wei_ctx(id), o, eb); break;
    case 1: bip340_privkey_generate(wei_ctx(id), o, eb); break;
    case 2: ecdh_privkey_generate(mont_ctx(id), o, eb); break;
    case 3: eddsa_privkey_generate(edw_ctx(id), o, eb); break;
    case 4: eddsa_scalar_generate(edw_ctx(id), o, eb); break;
    case 5: ristretto_privkey_generate(edw_ctx(id), o, eb); break;
    case 6: ecdsa_privkey_grind(wei_ctx(id), o, eb, 1, take_it_len, nullptr); break;
    case 7: bip340_privkey_grind(wei_ctx(id), o, eb, take_second, &calls); break;
    case 8: ecdh_privkey_grind(mont_ctx(id), o, eb, take_second, &calls); break;
    case 9: eddsa_privkey_grind(edw_ctx(id), o, eb, take_it, nullptr); break;
    case 10: eddsa_scalar_grind(edw_ctx(id), o, eb, take_second, &calls); break;
    case 11: ristretto_privkey_grind(edw_ctx(id), o, eb, take_it, nullptr); break;
    default: {
      Buf pb(params), k(DSA_MAX_PRIV_SIZE);
      size_t n = 0;
      EXPECT(t, dsa_privkey_create(k, &n, pb, params.size(), eb) == 1 && k.intact(), "dsa_privkey_create failed");
      std::vector<Z> v;
      EXPECT(t, ref::der_parse(v, k.get(n), 5, true), "a created key is not well-formed DER");
      return v[4].to_be(mask.size());
    }
  }
  EXPECT(t, o.intact(), "%s wrote outside its buffer", name);
  return kind == 0 || kind == 1 || kind == 6 || kind == 7 ? o.get() : rev(o.get());
}

Secret pick_secret(T &t, bool grind) {
  Secret s;
  static const char *const names[] = {"ecdsa_privkey_generate", "bip340_privkey_generate", "ecdh_privkey_generate", "eddsa_privkey_generate",
                                      "eddsa_scalar_generate", "ristretto_privkey_generate", "ecdsa_privkey_grind", "bip340_privkey_grind",
                                      "ecdh_privkey_grind", "eddsa_privkey_grind", "eddsa_scalar_grind", "ristretto_privkey_grind", "dsa_privkey_create"};
  s.kind = grind ? (int)t.range(0, 12) : (int)t.pick({0, 1, 2, 3, 4, 5});
  s.name = names[s.kind];
  switch (s.kind) {
    case 0: case 1: case 6: case 7: s.id = pick_wei(t); s.mask = below(ref::wei(s.id).n, ref::wei(s.id).ss); break;
    case 2: case 8: s.id = t.flip(); s.mask = clamped(ref::mont(s.id)); break;
    case 3: case 9: s.id = pick_edw(t); s.mask = Bytes(ref::edw(s.id).es, 0xff); break;
    case 4: case 10: s.id = pick_edw(t); s.mask = clamped(ref::edw(s.id)); break;
    case 5: case 11: s.id = pick_edw(t); s.mask = below(ref::edw(s.id).n, ref::edw(s.id).ss); break;
    default: {
      s.id = 0;
      const DsaGroup &g = ref::dsa_pool(512, t.flip() ? 160 : 256, (int)t.range(0, 2));
      s.params = g.params();
      s.mask = below(g.q, g.qlen());
    }
  }
  return s;
}

// Every free bit must have been seen both ways.
struct Spread {
  Bytes any, all;
  void add(const Bytes &b) {
    if (any.empty()) { any = b; all = b; }
    for (size_t i = 0; i < b.size(); i++) { any[i] |= b[i]; all[i] &= b[i]; }
  }
  void check(T &t, const Bytes &mask, const char *what, unsigned draws) const {
    for (size_t i = 0; i < mask.size(); i++)
      EXPECT(t, (any[i] & mask[i]) == mask[i] && !(all[i] & mask[i]), "%s: over %u draws byte %zu never had some bit of %02x %s", what, draws, i, mask[i],
             (all[i] & mask[i]) ? "clear" : "set");
  }
};

// An operation with a randomised result: repeatable, and different for other entropy.
template <class F>
void sensitive(T &t, const char *what, const Bytes &en, F draw) {
  Bytes a = draw(en);
  t.show("result", a);
  EXPECT(t, draw(en) == a, "%s is not a function of its arguments", what);
  Bytes e2 = en;
  size_t bit = t.range(0, 255);
  e2[bit / 8] ^= 1 << (bit % 8);
  t.note("%s, bit %zu", what, bit);
  EXPECT(t, draw(e2) != a, "%s gives the same result when bit %zu of the entropy changes", what, bit);
}

// A padded or encoded randomised result.
struct Padder {
  const RsaKey *k;
  int kind;
  std::string hash;
  hash_id_t hid;
  Bytes msg;
  size_t salt = 0;
  const char *name() const {
    static const char *const n[] = {"rsa_encrypt", "rsa_encrypt_oaep", "rsa_sign_pss", "rsa_veil"};
    return n[kind];
  }
  Bytes draw(T &t, const Bytes &en) const {
    Bytes pub = k->pub(), priv = k->priv();
    Buf eb(en), pb(pub), sb(priv), m(msg), o(k->klen() + 16);
    size_t n = 0;
    int r;
    switch (kind) {
      case 0: r = rsa_encrypt(o, &n, m, msg.size(), pb, pub.size(), eb); break;
      case 1: r = rsa_encrypt_oaep(o, &n, hid, m, msg.size(), pb, pub.size(), nullptr, 0, eb); break;
      case 2: r = rsa_sign_pss(o, &n, hid, m, msg.size(), sb, priv.size(), salt, eb); break;
      default: r = rsa_veil(o, &n, m, msg.size(), (unsigned)k->n.bits() + 80, pb, pub.size(), eb); break;
    }
    EXPECT(t, r == 1 && o.intact(), "%s failed", name());
    return o.get(n);
  }
  // What was random in it.
  Bytes seed(const Bytes &out) const {
    size_t kl = k->klen(), hl = ref::hash(hash, Bytes()).size();
    Z x = Z::be(out);
    if (kind == 3) return ref::fdiv(x, k->n).to_be(12);
    Bytes em = (kind == 2 ? k->raw(x) : k->unraw(x)).to_be(kl);
    if (kind == 0) return Bytes(em.begin() + 2, em.begin() + (kl - 1 - msg.size()));
    if (kind == 1) {
      Bytes db(em.begin() + 1 + hl, em.end()), ms(em.begin() + 1, em.begin() + 1 + hl);
      return ref::xorb(ms, ref::mgf1(hash, db, hl));
    }
    size_t el = (k->n.bits() - 1 + 7) / 8;
    em = Bytes(em.end() - el, em.end());
    Bytes h(em.end() - 1 - hl, em.end() - 1), db(em.begin(), em.end() - 1 - hl);
    db = ref::xorb(db, ref::mgf1(hash, h, db.size()));
    return Bytes(db.end() - salt, db.end());
  }
};
Padder pick_padder(T &t, size_t bits) {
  Padder p;
  p.k = &ref::rsa_pool(bits, (unsigned)t.range(0, 1));
  p.kind = (int)t.range(0, 3);
  p.hash = "sha256";
  p.hid = HASH_SHA256;
  if (bits < 784 || t.chance(1, 3)) { p.hash = "ripemd160"; p.hid = HASH_RIPEMD160; }
  size_t hl = ref::hash(p.hash, Bytes()).size(), kl = p.k->klen();
  switch (p.kind) {
    case 0: p.msg = t.rnd(t.range(0, kl - 11 > 32 ? 32 : kl - 11)); break;
    case 1: p.msg = t.rnd(t.range(0, kl - 2 * hl - 2 > 32 ? 32 : kl - 2 * hl - 2)); break;
    case 2: p.msg = t.rnd(hl); p.salt = t.range(8, kl - hl - 3); break;
    default: p.msg = (Z::be(t.rnd(kl)) % p.k->n).to_be(kl); break;
  }
  return p;
}
}  // namespace

PBT_PROP(C37, secrets, 600, 12000, 0.3, 0.05) {
  Secret s = pick_secret(t, false);
  Bytes seed = t.rnd(32);
  const unsigned draws = 160;
  t.nontrivial();
  t.label("%s", s.name);
  t.mix64((uint64_t)s.kind);
  t.mix(seed);
  t.note("%s, curve %d", s.name, s.id);
  t.show("seed of the series", seed);
  Spread sp;
  for (unsigned i = 0; i < draws; i++) sp.add(s.draw(t, series(seed, i)));
  sp.check(t, s.mask, s.name, draws);
}
PBT_PROP(C37, dsa_secrets, 24, 400, 0.3, 0.0) {
  Secret s;
  s.kind = 12;
  s.id = 0;
  s.name = "dsa_privkey_create";
  const DsaGroup &g = ref::dsa_pool(512, (size_t)t.pick({160, 256, 224}), (int)t.range(0, 2));
  s.params = g.params();
  s.mask = below(g.q, g.qlen());
  Bytes seed = t.rnd(32);
  t.nontrivial();
  t.mix(seed);
  t.show("parameters", s.params);
  t.show("seed of the series", seed);
  Spread sp;
  for (unsigned i = 0; i < 160; i++) sp.add(s.draw(t, series(seed, i)));
  sp.check(t, s.mask, s.name, 160);
}
PBT_PROP(C37, sensitivity, 6000, 100000) {
  Secret s = pick_secret(t, true);
  Bytes en = t.bytes(32);
  t.nontrivial();
  t.label("%s", s.name);
  t.mix64((uint64_t)s.kind);
  t.mix(en);
  t.show("entropy", en);
  sensitive(t, s.name, en, [&](const Bytes &e) { return s.draw(t, e); });
}
PBT_PROP(C37, padding_sensitivity, 1500, 30000) {
  Padder p = pick_padder(t, (size_t)t.pick({512, 513, 520, 528, 784, 1024}));
  Bytes en = t.bytes(32);
  t.nontrivial();
  t.label("%s", p.name());
  t.mix(en);
  t.mix(p.msg);
  t.show("key", p.k->priv());
  t.show("message", p.msg);
  t.show("entropy", en);
  sensitive(t, p.name(), en, [&](const Bytes &e) { return p.draw(t, e); });
}
PBT_PROP(C37, padding_spread, 60, 900, 0.3, 0.0) {
  Padder p = pick_padder(t, (size_t)t.pick({528, 784, 1024}));
  Bytes seed = t.rnd(32);
  const unsigned draws = 100;
  t.nontrivial();
  t.label("%s", p.name());
  t.mix(seed);
  t.show("key", p.k->priv());
  t.show("message", p.msg);
  t.show("seed of the series", seed);
  Spread sp;
  bool zero = false;
  for (unsigned i = 0; i < draws; i++) {
    Bytes b = p.seed(p.draw(t, series(seed, i)));
    sp.add(b);
    zero |= p.kind == 0 && std::count(b.begin(), b.end(), 0);
  }
  Bytes mask(sp.any.size(), 0xff);
  if (p.kind == 3) mask = (Z::pow2(79) - Z(1)).to_be(12); // the multiple of the modulus that was added
  sp.check(t, mask, p.name(), draws);
  EXPECT(t, !zero, "a padding byte is zero");
}
// Enough padding bytes to notice a value that never or too often occurs.
PBT_PROP(C37, padding_bytes, 12, 200, 0.3, 0.0) {
  Padder p;
  p.k = &ref::rsa_pool(1024, (unsigned)t.range(0, 1));
  p.kind = t.chance(3, 4) ? 0 : 2;
  p.hash = "ripemd160";
  p.hid = HASH_RIPEMD160;
  p.msg = t.rnd(p.kind == 0 ? t.range(0, 12) : 20);
  if (p.kind == 2) p.salt = 100;
  Bytes seed = t.rnd(32);
  const unsigned draws = 300;
  t.nontrivial();
  t.label("%s", p.name());
  t.mix(seed);
  t.show("key", p.k->priv());
  t.show("message", p.msg);
  t.show("seed of the series", seed);
  std::vector<unsigned> count(256);
  size_t total = 0;
  for (unsigned i = 0; i < draws; i++)
    for (uint8_t x : p.seed(p.draw(t, series(seed, i)))) count[x]++, total++;
  double mean = (double)total / (p.kind == 0 ? 255 : 256); // about 117 or more
  for (int v = p.kind == 0; v < 256; v++)
    EXPECT(t, count[v] > mean * 0.35 && count[v] < mean * 1.7, "%s: byte value %02x occurs %u times in %zu", p.name(), v, count[v], total);
}
PBT_PROP(C37, encodings, 90, 2000, 0.3, 0.05) {
  int kind = (int)t.range(0, 4), id = kind < 2 ? pick_wei(t) : kind == 2 ? (int)t.flip() : pick_edw(t);
  if (kind == 1) id = (int)t.pick({0, 2, 5});
  if (kind == 4) id = (int)t.pick({0, 2});
  Bytes seed = t.rnd(32), pub;
  size_t fs;
  static const char *const names[] = {"ecdsa_pubkey_to_hash", "bip340_pubkey_to_hash", "ecdh_pubkey_to_hash", "eddsa_pubkey_to_hash", "ristretto_pubkey_to_hash"};
  Bytes sk = t.rnd(80);
  if (kind == 0) { const ref::Wei &c = ref::wei(id); pub = c.enc(c.mulg(Z::be(sk) % (c.n - Z(1)) + Z(1)), true); fs = c.fs; }
  else if (kind == 1) { const ref::Wei &c = ref::wei(id); pub = c.enc(c.mulg(Z::be(sk) % (c.n - Z(1)) + Z(1)), true); pub.erase(pub.begin()); fs = c.fs; }
  else if (kind == 2) {
    const ref::Mont &c = ref::mont(id);
    fs = c.fs;
    Buf o(fs), s((Z::be(sk) % c.n).to_le(c.ss));
    ecdh_pubkey_create(mont_ctx(id), o, s);
    pub = o.get();
  } else if (kind == 3) { const ref::Edw &c = ref::edw(id); pub = c.enc(c.mulg(Z::be(sk) % (c.n - Z(1)) + Z(1))); fs = c.fs; }
  else {
    const ref::Edw &c = ref::edw(id);
    fs = c.fs;
    Buf o(ristretto_pubkey_size(edw_ctx(id))), s((Z::be(sk) % c.n).to_le(c.ss));
    EXPECT(t, ristretto_pubkey_create(edw_ctx(id), o, s) == 1, "ristretto_pubkey_create failed");
    pub = o.get();
  }
  auto draw = [&](const Bytes &en) {
    Buf eb(en), pb(pub), o(2 * fs);
    int r;
    switch (kind) {
      case 0: r = ecdsa_pubkey_to_hash(wei_ctx(id), o, pb, pub.size(), 0, eb); break;
      case 1: r = bip340_pubkey_to_hash(wei_ctx(id), o, pb, 0, eb); break;
      case 2: r = ecdh_pubkey_to_hash(mont_ctx(id), o, pb, 0, eb); break;
      case 3: r = eddsa_pubkey_to_hash(edw_ctx(id), o, pb, 0, eb); break;
      default: r = ristretto_pubkey_to_hash(edw_ctx(id), o, pb, eb); break;
    }
    EXPECT(t, r == 1 && o.intact(), "%s failed", names[kind]);
    return o.get();
  };
  t.nontrivial();
  t.label("%s", names[kind]);
  t.mix(seed);
  t.note("curve %d", id);
  t.show("public key", pub);
  t.show("seed of the series", seed);
  sensitive(t, names[kind], seed, draw);
  Spread sp;
  const unsigned draws = 60;
  for (unsigned i = 0; i < draws; i++) sp.add(draw(series(seed, i)));
  Bytes mask(2 * fs, 0);
  for (size_t i = 2; i + 2 < fs; i++) mask[i] = mask[fs + i] = 0xff;
  sp.check(t, mask, names[kind], draws);
}
PBT_PROP(C37, rsa_primes, 8, 100, 0.3, 0.0) {
  Bytes seed = t.rnd(32);
  const unsigned draws = 50;
  unsigned bits = 512 + 2 * (unsigned)t.range(0, 8);
  t.nontrivial();
  t.mix(seed);
  t.note("%u bits", bits);
  t.show("seed of the series", seed);
  auto draw = [&](const Bytes &en) {
    Buf eb(en), o(RSA_MAX_PRIV_SIZE);
    size_t n = 0;
    EXPECT(t, rsa_privkey_generate(o, &n, bits, 65537, eb) == 1 && o.intact(), "rsa_privkey_generate failed");
    return o.get(n);
  };
  auto key = [&](const Bytes &der) {
    std::vector<Z> v;
    EXPECT(t, ref::der_parse(v, der, 8, true), "a generated key is not well-formed DER");
    return ref::rsa_key(v);
  };
  sensitive(t, "rsa_privkey_generate", seed, draw);
  size_t half = (bits / 2 + 7) / 8;
  Spread p, q, both;
  Z prod(1);
  for (unsigned i = 0; i < draws; i++) {
    RsaKey k = key(draw(series(seed, i)));
    Bytes pb = (k.p % Z::pow2(8 * half)).to_be(half), qb = (k.q % Z::pow2(8 * half)).to_be(half);
    p.add(pb);
    q.add(qb);
    both.add(ref::xorb(pb, qb));
    EXPECT(t, ref::gcdz(prod, k.n) == Z(1), "two generated keys share a factor");
    prod = prod * k.n;
  }
  Bytes mask = (Z::pow2(bits / 2 - 3) - Z(2)).to_be(half);
  p.check(t, mask, "p", draws);
  q.check(t, mask, "q", draws);
  both.check(t, mask, "p xor q", draws);
}
PBT_PROP(C37, dsa_groups, 5, 60, 0.0, 0.0) {
  Bytes en = t.rnd(32);
  bool whole = t.flip();
  t.nontrivial();
  t.mix(en);
  t.show("entropy", en);
  auto draw = [&](const Bytes &e) {
    Buf eb(e), o(DSA_MAX_PRIV_SIZE);
    size_t n = 0;
    int r = whole ? dsa_privkey_generate(o, &n, 1024, eb) : dsa_params_generate(o, &n, 1024, eb);
    EXPECT(t, r == 1 && o.intact(), "generation failed");
    std::vector<Z> v;
    EXPECT(t, ref::der_parse(v, o.get(n), whole ? 5 : 3, whole), "not well-formed DER");
    return v;
  };
  std::vector<Z> a = draw(en), b = draw(en);
  EXPECT(t, a == b, "generation is not a function of the entropy");
  size_t bit = t.range(0, 255);
  en[bit / 8] ^= 1 << (bit % 8);
  b = draw(en);
  for (size_t i = 0; i < a.size(); i++) EXPECT(t, !(a[i] == b[i]), "number %zu stays the same when bit %zu of the entropy changes", i, bit);
}
