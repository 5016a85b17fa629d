// C27-C29: RSA keys, signatures and encryption.
#include "der.h"
#include "ref_ossl.h"
#include <torsion/rsa.h>

using ref::RsaKey;
using ref::Z;

static size_t pick_bits(T &t) {
  if (t.thorough_ && t.chance(1, 30)) return (size_t)t.pick({1536, 2047, 2048, 2049, 3072});
  if (t.chance(1, 60)) return (size_t)t.pick({1536, 2048});
  return (size_t)t.pick({512, 512, 513, 514, 515, 516, 517, 519, 520, 521, 527, 528, 529, 576, 640, 700, 768, 769, 1024, 1025, 1031, 1041, 1056});
}
static const RsaKey &pick_key(T &t) {
  size_t bits = pick_bits(t);
  return ref::rsa_pool(bits, (unsigned)t.range(0, bits > 1500 ? 1 : ref::rsa_pool_size - 1));
}
// Below the modulus size that fits two digests and padding the hash is useless; pick a key that fits often.
static const RsaKey &pick_key_for(T &t, size_t need) {
  if (need > 64 && !t.chance(1, 10)) {
    size_t bits = (size_t)t.pick({0, 1, 2, 7, 8, 9, 15, 40, 64}) + 8 * need;
    bits = bits - bits % 8 + (size_t)t.pick({0, 1, 7});
    if (bits < 512) bits = 512;
    return ref::rsa_pool(bits, (unsigned)t.range(0, 1));
  }
  return pick_key(t);
}
static void show_key(T &t, const RsaKey &k) {
  if (!t.recording()) return;
  t.note("modulus of %zu bits, e = 0x%s", k.n.bits(), k.e.text().c_str());
  t.show("private key", k.priv());
}
static Bytes entropy(T &t) { return t.rnd(32); }

PBT_RULE(C27, "a key or encoding of at least 512 bits reached the function under test");
PBT_PROP(C27, generation, 260, 5000) {
  unsigned bits = (unsigned)t.pick({512, 513, 514, 519, 520, 527, 530, 544, 576, 600});
  if (t.chance(1, 40)) bits = (unsigned)t.pick({768, 1024, 1025});
  if (t.thorough_ && t.chance(1, 30)) bits = (unsigned)t.pick({1024, 1536, 2048});
  uint64_t e = 65537;
  switch (t.weighted({3, 3, 2, 2})) {
    case 0: break;
    case 1: e = (uint64_t)t.pick({3, 5, 7, 15, 17, 257, 105}); break;
    case 2: e = (uint64_t)t.pick({0x1ffffffffull, 0x100000001ull, 0xffffffffull, 0x7fffffffull}); break;
    default: e = t.bits(33) | 1; break;
  }
  bool ok = true;
  if (t.chance(1, 8)) switch (t.range(0, 5)) {
    case 0: e = (uint64_t)t.pick({0, 1, 2}); break;
    case 1: e &= ~1ull; break;
    case 2: e = t.pick({0x200000001ull, 0x8000000000000001ull, 0x20000ffffffull}); break;
    case 3: bits = (unsigned)t.pick({0, 1, 2, 256, 510, 511}); break;
    case 4: bits = (unsigned)t.pick({16385, 16386, 65536}); break;
    default: bits = 0xffffffffu; break;
  }
  ok = bits >= 512 && bits <= 16384 && e >= 3 && e <= 0x1ffffffffull && (e & 1);
  Bytes en = entropy(t);
  t.label(ok ? "valid" : "refused");
  t.mix64(bits);
  t.mix64(e);
  t.mix(en);
  t.note("bits %u exponent 0x%llx", bits, (unsigned long long)e);
  if (ok) t.nontrivial();
  Buf eb(en), out(RSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int got = rsa_privkey_generate(out, &n, bits, e, eb);
  EXPECT(t, got == (int)ok && out.intact(), "rsa_privkey_generate returned %d, want %d", got, ok);
  if (!ok) return;
  Bytes der = out.get(n);
  t.show("key", der);
  std::vector<Z> v;
  EXPECT(t, ref::der_parse(v, der, 8, true), "a generated key is not well-formed DER");
  RsaKey k = ref::rsa_key(v);
  EXPECT(t, k.n.bits() == bits, "asked for %u bits, got a modulus of %zu bits", bits, k.n.bits());
  EXPECT(t, k.e == Z::u64(e), "asked for exponent %llx", (unsigned long long)e);
  EXPECT(t, ref::rsa_priv_ok(k), "the relations of a generated key do not hold");
  EXPECT(t, ref::is_prime(k.p) && ref::is_prime(k.q), "a factor of a generated modulus is not prime");
  size_t pb = k.p.bits(), qb = k.q.bits();
  EXPECT(t, (pb > qb ? pb - qb : qb - pb) <= 1, "primes of %zu and %zu bits", pb, qb);
  EXPECT(t, (k.p - k.q).bits() + 100 > bits / 2, "the primes are too close together");
  EXPECT(t, k.d.bits() > bits / 2, "the private exponent is short");
  Buf kb(der);
  EXPECT(t, rsa_privkey_verify(kb, n) == 1, "a generated key does not verify");
  EXPECT(t, rsa_privkey_bits(kb, n) == bits, "rsa_privkey_bits");
  if (t.chance(1, 4)) {
    Buf o2(RSA_MAX_PRIV_SIZE);
    size_t n2 = 0;
    EXPECT(t, rsa_privkey_generate(o2, &n2, bits, e, eb) == 1 && o2.get(n2) == der, "generation is not a function of the entropy");
  }
}

// The key with one thing altered; returns a name for the alteration.
static const char *alter(T &t, RsaKey &k) {
  Z *c[8] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi};
  switch (t.weighted({2, 6, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1})) {
    case 0: return "none";
    case 1: {
      Z &z = *c[t.range(0, 7)];
      Z d = Z((long)t.pick({1, 2, 3, 4}));
      z = t.flip() || z < d ? z + d : z - d;
      return "small change";
    }
    case 2: *c[t.range(0, 7)] = Z((long)t.pick({0, 1, 2, 3})); return "tiny component";
    case 3: {  // one bit
      Z &z = *c[t.range(0, 7)];
      z = z ^ Z::pow2(t.range(0, z.bits() + 1));
      return "bit";
    }
    case 4: k.d = k.d + k.lam() * Z((long)t.range(1, 4)); return "d + lambda";  // fine while below phi
    case 5: k.d = ref::invz(k.e, k.phi()); return "d modulo phi";
    case 6: k.dp = k.dp + k.p - Z(1); return "dp not reduced";
    case 7: k.dq = k.dq + k.q - Z(1); return "dq not reduced";
    case 8: k.qi = k.qi + k.p; return "qi not reduced";
    case 9: {  // the other order of primes, with everything recomputed
      Z e = k.e;
      ref::rsa_build(k, Z(k.q), Z(k.p), e);
      return "primes swapped";
    }
    case 10:
      switch (t.range(0, 3)) {
        case 0: std::swap(k.p, k.q); break;
        case 1: std::swap(k.dp, k.dq); break;
        case 2: std::swap(k.p, k.q), std::swap(k.dp, k.dq); break;
        default: std::swap(k.d, k.dp); break;
      }
      return "components swapped";
    default: {  // another exponent, consistently or not
      Z e = Z::u64(t.pick({3ull, 5ull, 17ull, 65537ull, 4ull, 0x1ffffffffull, 0x200000001ull}));
      Z d = ref::invz(e, k.lam());
      if (!d.zero() && t.chance(3, 4)) {
        k.d = d;
        k.dp = d % (k.p - Z(1));
        k.dq = d % (k.q - Z(1));
      }
      k.e = e;
      return "exponent";
    }
  }
}
static void check_priv_der(T &t, const Bytes &der, bool ok, const RsaKey &k) {
  Buf kb(der);
  size_t n = 0;
  int got = rsa_privkey_verify(kb, der.size());
  EXPECT(t, got == (int)ok, "rsa_privkey_verify returned %d, want %d", got, ok);
  unsigned b = rsa_privkey_bits(kb, der.size());
  EXPECT(t, b == (ok ? k.n.bits() : 0), "rsa_privkey_bits returned %u", b);
  Buf o(RSA_MAX_PRIV_SIZE), po(RSA_MAX_PUB_SIZE);
  got = rsa_privkey_export(o, &n, kb, der.size());
  EXPECT(t, got == (int)ok && o.intact(), "rsa_privkey_export returned %d, want %d", got, ok);
  if (ok) expect_eq(t, o.get(n), ref::flat_ints(k.all()), "rsa_privkey_export");
  got = rsa_pubkey_create(po, &n, kb, der.size());
  EXPECT(t, got == (int)ok && po.intact(), "rsa_pubkey_create returned %d, want %d", got, ok);
  if (ok) expect_eq(t, po.get(n), k.pub(), "rsa_pubkey_create");
}
PBT_PROP(C27, private_keys, 30000, 300000) {
  RsaKey k = pick_key(t);
  const char *what = alter(t, k);
  bool ok = ref::rsa_priv_ok(k);
  t.nontrivial();
  t.label("%s: %s", what, ok ? "consistent" : "inconsistent");
  Bytes der = k.priv();
  t.mix(der);
  show_key(t, k);
  check_priv_der(t, der, ok, k);
}
PBT_PROP(C27, public_keys, 60000, 600000) {
  Z n, e;
  size_t bits = (size_t)t.pick({510, 511, 512, 513, 520, 1024, 2048, 4096, 16383, 16384, 16385, 16392});
  if (bits > 5000 && !t.chance(1, 8)) bits = 600;
  n = Z::be(t.rnd((bits + 7) / 8)) % Z::pow2(bits - 1) + Z::pow2(bits - 1);
  if (!t.chance(1, 6)) n = n | Z(1);
  switch (t.weighted({3, 3, 2})) {
    case 0: e = Z::u64(t.pick({3ull, 17ull, 65537ull, 0x1ffffffffull})); break;
    case 1: e = Z::u64(t.pick({0ull, 1ull, 2ull, 3ull, 4ull, 0x1fffffffeull, 0x200000000ull, 0x200000001ull, 0x8000000000000001ull})); break;
    default: e = Z::be(t.bytes(t.range(1, 6))); break;
  }
  bool ok = ref::rsa_pub_ok(n, e);
  t.nontrivial();
  t.label(ok ? "valid" : "invalid");
  Bytes der = ref::der_ints({n, e}, false), fl = flat(t, {n, e}, false);
  t.mix(der);
  t.show("key", der);
  t.show("flat", fl);
  Buf kb(der), fb(fl), o(RSA_MAX_PUB_SIZE), o2(RSA_MAX_PUB_SIZE);
  // DER integers of more than 2048 bytes are refused before anything else; so are such moduli
  int got = rsa_pubkey_verify(kb, der.size());
  EXPECT(t, got == (int)ok, "rsa_pubkey_verify returned %d, want %d", got, ok);
  unsigned b = rsa_pubkey_bits(kb, der.size());
  EXPECT(t, b == (ok ? n.bits() : 0), "rsa_pubkey_bits returned %u", b);
  size_t len = 0;
  got = rsa_pubkey_export(o, &len, kb, der.size());
  EXPECT(t, got == (int)ok && o.intact(), "rsa_pubkey_export returned %d, want %d", got, ok);
  if (ok) expect_eq(t, o.get(len), ref::flat_ints({n, e}), "rsa_pubkey_export");
  got = rsa_pubkey_import(o2, &len, fb, fl.size());
  EXPECT(t, got == (int)ok && o2.intact(), "rsa_pubkey_import returned %d, want %d", got, ok);
  if (ok) expect_eq(t, o2.get(len), der, "rsa_pubkey_import");
}
PBT_PROP(C27, encodings, 40000, 400000) {
  const RsaKey &k0 = pick_key(t);
  bool priv = t.flip();
  const char *what;
  Bytes der = priv ? deviate(t, k0.all(), true, &what) : deviate(t, {k0.n, k0.e}, false, &what);
  t.nontrivial();
  t.mix(der);
  t.show("encoding", der);
  std::vector<Z> v;
  bool ok = ref::der_parse(v, der, priv ? 8 : 2, priv);
  if (priv) {
    RsaKey k;
    if (ok) k = ref::rsa_key(v), ok = ref::rsa_priv_ok(k);
    t.label("private, %s: %s", what, ok ? "accepted" : "refused");
    check_priv_der(t, der, ok, k);
  } else {
    ok = ok && ref::rsa_pub_ok(v[0], v[1]);
    t.label("public, %s: %s", what, ok ? "accepted" : "refused");
    Buf kb(der);
    int got = rsa_pubkey_verify(kb, der.size());
    EXPECT(t, got == (int)ok, "rsa_pubkey_verify returned %d, want %d", got, ok);
    EXPECT(t, rsa_pubkey_bits(kb, der.size()) == (ok ? v[0].bits() : 0), "rsa_pubkey_bits");
    Buf o(RSA_MAX_PUB_SIZE);
    size_t n = 0;
    EXPECT(t, rsa_pubkey_export(o, &n, kb, der.size()) == (int)ok && o.intact(), "rsa_pubkey_export");
  }
}
PBT_PROP(C27, flat_import, 20000, 200000) {
  RsaKey k = pick_key(t);
  if (t.chance(1, 4)) k.d = ref::invz(k.e, k.phi()), k.dp = k.d % (k.p - Z(1)), k.dq = k.d % (k.q - Z(1));
  if (t.chance(1, 4)) {
    Z e = k.e;
    ref::rsa_build(k, Z(k.q), Z(k.p), e);
  }
  Bytes fl = flat(t, k.all(), false);
  bool cut = t.chance(1, 6);
  if (cut) fl = ref::flat_ints(k.all()), fl.resize(t.range(0, fl.size() - 1));
  t.nontrivial();
  t.label(cut ? "cut short" : "whole");
  t.mix(fl);
  t.show("flat", fl);
  Bytes en = entropy(t);
  Buf fb(fl), o(RSA_MAX_PRIV_SIZE), eb(en);
  size_t n = 0;
  int got = rsa_privkey_import(o, &n, fb, fl.size(), t.flip() ? eb.p : nullptr);
  EXPECT(t, got == (int)!cut && o.intact(), "rsa_privkey_import returned %d, want %d", got, !cut);
  if (!cut) expect_eq(t, o.get(n), k.priv(), "rsa_privkey_import changed a consistent key");
}
// Rebuilding from parts.
PBT_PROP(C27, recovery, 5000, 80000) {
  const RsaKey &k = pick_key(t);
  Z d = k.d;
  if (t.chance(1, 3)) d = ref::invz(k.e, k.phi());
  Z zero(0);
  std::vector<Z> v(8, zero);
  int kind = (int)t.weighted({3, 3, 5, 1});
  bool ok = true;
  const char *name = "";
  switch (kind) {
    case 0: name = "p q e", v[1] = k.e, v[3] = k.p, v[4] = k.q; break;
    case 1: name = "p q d", v[2] = d, v[3] = k.p, v[4] = k.q; break;
    case 2: name = "n e d", v[0] = k.n, v[1] = k.e, v[2] = d; break;
    default:
      name = "too little";
      ok = false;
      switch (t.range(0, 4)) {
        case 0: v[0] = k.n, v[1] = k.e; break;
        case 1: v[1] = k.e, v[2] = d; break;
        case 2: v[0] = k.n, v[2] = d; break;
        case 3: v[3] = k.p, v[4] = k.q; break;
        default: v[0] = k.n, v[5] = k.dp, v[6] = k.dq, v[7] = k.qi; break;
      }
      break;
  }
  if (ok && kind < 2 && t.flip()) std::swap(v[3], v[4]);
  if (ok && t.chance(1, 3)) {  // the rest is there, in part
    if (v[0].zero() && t.flip()) v[0] = k.n;
    if (v[2].zero() && t.flip()) v[2] = k.d;
    if (t.flip()) v[5] = k.dp;
    if (t.flip()) v[7] = k.qi;
    if (kind == 2 && t.flip()) v[3 + t.range(0, 1)] = k.p;
  }
  t.nontrivial();
  t.label("%s", name);
  show_key(t, k);
  Bytes fl = flat(t, v, !t.chance(1, 4));
  t.mix(fl);
  t.show("flat", fl);
  Bytes en = entropy(t);
  bool seeded = t.flip();
  Buf fb(fl), o(RSA_MAX_PRIV_SIZE), eb(en);
  size_t n = 0;
  int got = rsa_privkey_import(o, &n, fb, fl.size(), seeded ? eb.p : nullptr);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_privkey_import from %s returned %d, want %d", name, got, ok);
  if (!ok) return;
  std::vector<Z> w;
  EXPECT(t, ref::der_parse(w, o.get(n), 8, true), "the rebuilt key is not well-formed DER");
  RsaKey r = ref::rsa_key(w);
  EXPECT(t, r.n == k.n && r.e == k.e, "the rebuilt key (from %s) is another key", name);
  EXPECT(t, (r.p == k.p && r.q == k.q) || (r.p == k.q && r.q == k.p), "the rebuilt key (from %s) has other primes", name);
  EXPECT(t, ref::rsa_priv_ok(r), "the rebuilt key (from %s) is inconsistent", name);
  Bytes der = o.get(n);
  Buf db(der);
  EXPECT(t, rsa_privkey_verify(db, der.size()) == 1, "the rebuilt key does not verify");
}
// Parts that belong to no key.
PBT_PROP(C27, bad_parts, 2500, 30000) {
  const RsaKey &k = ref::rsa_pool((size_t)t.pick({512, 513, 520, 640}), (unsigned)t.range(0, ref::rsa_pool_size - 1));
  Z zero(0), one(1);
  std::vector<Z> v(8, zero);
  const char *name = "";
  switch (t.weighted({2, 2, 2, 2, 2, 2, 2, 2, 1})) {
    case 0: name = "p = q", v[1] = k.e, v[3] = v[4] = k.p; break;
    case 1: name = "even p", v[1] = k.e, v[3] = k.p + one, v[4] = k.q; break;
    case 2: name = "p = 1", v[1] = k.e, v[3] = k.n, v[4] = one; break;
    case 3: name = "small modulus", v[1] = k.e, v[3] = (k.p >> (k.n.bits() - 510)) | one, v[4] = k.q; break;
    case 4: name = "even e", v[1] = k.e + one, v[3] = k.p, v[4] = k.q; break;
    case 5: {
      Z g = k.p - one;  // an exponent sharing a factor with p - 1
      Z f(0);
      for (long s : {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43})
        if ((g % Z(s)).zero()) f = Z(s);
      if (f.zero()) t.discard();
      name = "e not coprime", v[1] = f, v[3] = k.p, v[4] = k.q;
      break;
    }
    case 6: name = "e too large", v[1] = Z::pow2(33) + Z((long)(2 * t.range(0, 100) + 1)), v[3] = k.p, v[4] = k.q; break;
    case 7:
      name = "d out of range";
      v[2] = t.pick(std::vector<Z>{zero, one, k.phi() + k.d, k.phi()});
      v[3] = k.p, v[4] = k.q;
      break;
    default: name = "wrong d", v[0] = k.n, v[1] = k.e, v[2] = k.d + Z((long)(2 * t.range(1, 50))); break;
  }
  t.nontrivial();
  t.label("%s", name);
  Bytes fl = ref::flat_ints(v);
  t.mix(fl);
  t.show("flat", fl);
  Buf fb(fl), o(RSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int got = rsa_privkey_import(o, &n, fb, fl.size(), nullptr);
  EXPECT(t, got == 0 && o.intact(), "rsa_privkey_import accepted %s", name);
}

// ---------------------------------------------------------------------------
PBT_RULE(C28, "a signature was made, or an encoded message with a stated property was put through the private key and judged");

struct Digest { hash_id_t id; const char *name; size_t len; Bytes prefix; };
static Digest pick_digest(T &t, bool raw) {
  if (raw && t.chance(1, 8)) return {HASH_NONE, "none", 0, Bytes()};
  if (t.chance(1, 3)) {
    hash_id_t id = t.pick(std::vector<hash_id_t>{HASH_SHA256, HASH_SHA1, HASH_SHA224});
    const char *n = id == HASH_SHA256 ? "sha256" : id == HASH_SHA1 ? "sha1" : "sha224";
    return {id, n, ref::hash_info(n).out, ref::digest_info(n)};
  }
  const HashName &h = pick_hash(t);
  return {h.id, h.name, ref::hash_info(h.name).out, ref::digest_info(h.name)};
}
PBT_PROP(C28, pkcs1_sign, 5000, 60000) {
  Digest h = pick_digest(t, true);
  const RsaKey &k = pick_key_for(t, h.prefix.size() + h.len + 11);
  size_t klen = k.klen();
  if (h.id == HASH_NONE) h.len = t.len_near({0, 1, 20, 36, klen - 12, klen - 11, klen - 10, klen}, klen + 4);
  Bytes digest = t.bytes(h.len);
  bool ok = true;
  if (h.id != HASH_NONE && t.chance(1, 12)) {  // a digest of the wrong size
    digest = t.bytes(t.flip() ? h.len + 1 : h.len - 1);
    ok = false;
  }
  Bytes em = ref::pkcs1_sig(h.prefix, digest, klen);
  if (em.empty()) ok = false;
  t.nontrivial();
  t.label("%s %s", h.name, ok ? "signed" : "refused");
  show_key(t, k);
  t.show("digest", digest);
  t.mix(digest);
  t.mix(k.pub());
  Bytes en = entropy(t), priv = k.priv(), pub = k.pub();
  Buf db(digest), kb(priv), eb(en), o(klen), pb(pub);
  size_t n = 0;
  int got = rsa_sign(o, &n, h.id, db, digest.size(), kb, priv.size(), eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_sign with %s and a %zu-bit key returned %d, want %d", h.name, k.n.bits(), got, ok);
  if (!ok) return;
  Bytes want = k.unraw(Z::be(em)).to_be(klen);
  EXPECT(t, n == klen, "rsa_sign gave %zu bytes, want %zu", n, klen);
  expect_eq(t, o.get(), want, "rsa_sign with %s", h.name);
  Buf sb(want);
  EXPECT(t, rsa_verify(h.id, db, digest.size(), sb, klen, pb, pub.size()) == 1, "rsa_verify refused a signature with %s", h.name);
}
// With a key whose parts are damaged, or whose factors are not prime, a
// signature either does not come out or is right: a wrong one gives a factor away.
PBT_PROP(C28, damaged_keys, 4000, 60000) {
  RsaKey k = pick_key(t);
  const char *what = "composite factor";
  if (t.chance(2, 3)) {
    Z e = k.e;
    Z p = k.p + Z::u64(2 * t.range(0, 200)), q = t.chance(1, 4) ? k.q + Z::u64(2 * t.range(0, 200)) : k.q;
    if (!ref::rsa_build(k, p, q, e)) t.discard();
  } else
    what = alter(t, k);
  if (k.n.bits() < 512 || k.n.bits() > 4096) t.discard();
  bool pss = t.flip();
  size_t klen = k.klen();
  Bytes digest = t.bytes(20), en = entropy(t), priv = k.priv();
  t.mix(digest);
  t.mix(priv);
  show_key(t, k);
  Buf db(digest), kb(priv), eb(en), o(klen);
  size_t n = 0;
  int got = pss ? rsa_sign_pss(o, &n, HASH_SHA1, db, 20, kb, priv.size(), RSA_SALT_LENGTH_HASH, eb) : rsa_sign(o, &n, HASH_SHA1, db, 20, kb, priv.size(), eb);
  EXPECT(t, o.intact(), "a signing function wrote outside its output");
  t.label("%s: %s", what, got ? "signed" : "refused");
  t.nontrivial();
  if (!got) return;
  EXPECT(t, n == klen, "a signature of %zu bytes, want %zu", n, klen);
  Z m = k.raw(Z::be(o.get()));
  if (pss) {
    size_t embits = k.n.bits() - 1;
    EXPECT(t, m.bits() <= embits && ref::pss_salt("sha1", digest, m.to_be((embits + 7) / 8), embits) == 20, "a key with a damaged part (%s) gave a wrong PSS signature", what);
  } else
    expect_eq(t, m.to_be(klen), ref::pkcs1_sig(ref::digest_info("sha1"), digest, klen), "a key with a damaged part (%s) gave a wrong signature", what);
}
static Bytes splice(const Bytes &a, size_t at, const Bytes &b) {
  Bytes r(a);
  for (size_t i = 0; i < b.size() && at + i < r.size(); i++) r[at + i] = b[i];
  return r;
}
PBT_PROP(C28, pkcs1_verify, 14000, 200000) {
  Digest h = pick_digest(t, true);
  const RsaKey &k = pick_key_for(t, h.prefix.size() + h.len + 11 + (size_t)t.pick({0, 0, 1, 16, 40}));
  size_t klen = k.klen();
  if (h.id == HASH_NONE) h.len = t.len_near({0, 1, 20, 36}, klen - 11);
  Bytes digest = t.bytes(h.len);
  Bytes em = ref::pkcs1_sig(h.prefix, digest, klen);
  if (em.empty()) t.discard();
  Bytes good = em, T_ = ref::cat(h.prefix, digest);
  size_t ps = klen - T_.size() - 3;
  const char *what = "good";
  Bytes sig;
  Digest vh = h;
  Bytes vd = digest;
  switch (t.weighted({3, 3, 2, 2, 3, 3, 3, 3, 2, 2, 3, 2, 2, 2, 2, 2, 2})) {
    case 0: break;
    case 1: what = "padding byte", em[2 + t.range(0, ps - 1)] = (uint8_t)t.pick({0xfe, 0x7f, 0x00, 0x01}); break;
    case 2: what = "block type", em[1] = (uint8_t)t.pick({0, 2, 3, 0x81}); break;
    case 3: what = "leading byte", em[0] = (uint8_t)t.pick({1, 2, 0x80}); break;
    case 4: what = "separator", em[2 + ps] = (uint8_t)t.pick({0xff, 1, 0x80}); break;
    case 5:
      what = "identifier";
      if (h.prefix.empty()) t.discard();
      em[3 + ps + t.range(0, h.prefix.size() - 1)] ^= (uint8_t)(1u << t.range(0, 7));
      break;
    case 6:
      what = "digest";
      if (digest.empty()) t.discard();
      em[3 + ps + h.prefix.size() + t.range(0, digest.size() - 1)] ^= (uint8_t)(1u << t.range(0, 7));
      break;
    case 7: {  // short padding, garbage after the digest
      what = "short padding";
      size_t p2 = t.range(0, ps - 1);
      em = Bytes{0, 1};
      em.resize(2 + p2, 0xff);
      em.push_back(0);
      em = ref::cat(em, T_);
      em = ref::cat(em, t.bytes(klen - em.size()));
      break;
    }
    case 8: {  // without the NULL parameters
      what = "no parameters";
      if (h.prefix.empty()) t.discard();
      Bytes p2 = h.prefix;
      p2.erase(p2.end() - 4, p2.end() - 2);
      p2[1] = (uint8_t)(p2[1] - 2);
      p2[3] = (uint8_t)(p2[3] - 2);
      em = ref::pkcs1_sig(p2, digest, klen);
      break;
    }
    case 9: what = "bare digest", em = ref::pkcs1_sig(Bytes(), digest, klen); break;
    case 10: {  // signed as another hash of the same size
      what = "another hash";
      const HashName &o = pick_hash(t);
      if (o.id == h.id || h.id == HASH_NONE) t.discard();
      if (ref::hash_info(o.name).out == h.len) {
        em = ref::pkcs1_sig(ref::digest_info(o.name), digest, klen);
        if (em.empty()) t.discard();
      } else {
        vh = {o.id, o.name, ref::hash_info(o.name).out, ref::digest_info(o.name)};
        vd = digest;
        vd.resize(vh.len);
      }
      break;
    }
    case 11: what = "digest length", vd = digest, t.flip() || vd.empty() ? vd.push_back(0) : vd.pop_back(); break;
    case 12: what = "another digest", vd = digest, vd.empty() ? vd.push_back(1) : t.flip_bit(vd); break;
    case 13: what = "random", em = t.rnd(klen), em[0] = 0; break;
    case 14: what = "splice", em = splice(em, t.range(0, klen - 1), t.bytes(t.range(1, 8))); break;
    case 15: {  // the signature itself
      what = "special signature";
      Z z = t.pick(std::vector<Z>{Z(0), Z(1), k.n - Z(1), k.n, k.n + Z(1), Z::pow2(8 * klen) - Z(1)});
      sig = z.to_be(klen);
      break;
    }
    default: what = "moved by n"; break;
  }
  if (sig.empty()) {
    Z m = Z::be(em);
    if (m >= k.n) t.discard();
    Z s = k.unraw(m);
    if (!strcmp(what, "moved by n")) {
      s = s + k.n;
      if (s.bits() > 8 * klen) t.discard();
    }
    sig = s.to_be(klen);
  }
  if (t.chance(1, 12)) {
    what = "signature length";
    if (t.flip()) sig.insert(sig.begin(), t.range(1, 3), 0);
    else if (t.flip()) sig.push_back(0);
    else sig.erase(sig.begin());
  }
  // the definition
  bool ok = false;
  if (sig.size() == klen && Z::be(sig) < k.n && (vh.id == HASH_NONE || vd.size() == vh.len)) {
    Bytes want = ref::pkcs1_sig(vh.prefix, vd, klen);
    ok = !want.empty() && k.raw(Z::be(sig)).to_be(klen) == want;
  }
  t.nontrivial();
  t.label("%s: %s", what, ok ? "accepted" : "refused");
  t.note("verifying as %s", vh.name);
  show_key(t, k);
  t.show("encoded", em);
  t.show("digest", vd);
  t.mix(sig);
  t.mix(vd);
  Bytes pub = k.pub();
  Buf db(vd), sb(sig), pb(pub);
  int got = rsa_verify(vh.id, db, vd.size(), sb, sig.size(), pb, pub.size());
  EXPECT(t, got == (int)ok, "rsa_verify as %s (%s) returned %d, want %d", vh.name, what, got, ok);
}
// The salt rule passed for a salt of len bytes, or another one.
static int salt_arg(T &t, size_t len, size_t hlen) {
  switch (t.weighted({2, 2, 2, 2})) {
    case 0: return RSA_SALT_LENGTH_AUTO;
    case 1: return RSA_SALT_LENGTH_HASH;
    case 2: return (int)len;
    default: return (int)t.pick({len + 1, len ? len - 1 : 1, hlen, hlen + 1, (size_t)1, (size_t)200, (size_t)100000});
  }
}
static bool salt_fits(int arg, long len, size_t hlen) {
  if (len < 0) return false;
  if (arg == RSA_SALT_LENGTH_AUTO) return true;
  if (arg == RSA_SALT_LENGTH_HASH) return len == (long)hlen;
  return len == arg;
}
PBT_PROP(C28, pss_sign, 4500, 60000) {
  Digest h = pick_digest(t, false);
  const RsaKey &k = pick_key_for(t, 2 * h.len + 2);
  size_t klen = k.klen(), embits = k.n.bits() - 1, emlen = (embits + 7) / 8;
  long max = (long)emlen - 2 - (long)h.len;
  long salt;
  int arg;
  switch (t.weighted({2, 3, 3, 2})) {
    case 0: arg = RSA_SALT_LENGTH_AUTO, salt = max; break;
    case 1: arg = RSA_SALT_LENGTH_HASH, salt = (long)h.len; break;
    case 2: arg = (int)t.range(1, max > 1 ? max : 1), salt = arg; break;
    default: arg = (int)(t.pick({max - 1, max, max + 1, max + 2, 16384l, 0x7fffffffl})), salt = arg; break;
  }
  if (arg == 0) salt = max;
  if (arg < 0 && arg != RSA_SALT_LENGTH_HASH) t.discard();
  if (arg == RSA_SALT_LENGTH_HASH) salt = (long)h.len;
  Bytes digest = t.bytes(h.len);
  bool ok = max >= 0 && salt >= 0 && salt <= max;
  if (t.chance(1, 15)) digest.push_back(1), ok = false;
  t.nontrivial();
  t.label("%s, salt %s: %s", h.name, arg == 0 ? "auto" : arg < 0 ? "hash" : "fixed", ok ? "signed" : "refused");
  t.note("%s, salt argument %d", h.name, arg);
  show_key(t, k);
  t.show("digest", digest);
  t.mix(digest);
  t.mix64(arg);
  t.mix(k.pub());
  Bytes en = entropy(t), priv = k.priv(), pub = k.pub();
  Buf db(digest), kb(priv), eb(en), o(klen), pb(pub);
  size_t n = 0;
  int got = rsa_sign_pss(o, &n, h.id, db, digest.size(), kb, priv.size(), arg, eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_sign_pss with %s, salt %d and a %zu-bit key returned %d, want %d", h.name, arg, k.n.bits(), got, ok);
  if (!ok) return;
  EXPECT(t, n == klen, "rsa_sign_pss gave %zu bytes", n);
  Bytes sig = o.get();
  Z s = Z::be(sig);
  EXPECT(t, s < k.n, "the signature is not below the modulus");
  Z m = k.raw(s);
  EXPECT(t, m.bits() <= embits, "the encoded message has %zu bits, at most %zu allowed", m.bits(), embits);
  long len = ref::pss_salt(h.name, digest, m.to_be(emlen), embits);
  EXPECT(t, len == salt, "rsa_sign_pss with %s and salt %d: salt of %ld bytes, want %ld", h.name, arg, len, salt);
  Buf sb(sig);
  EXPECT(t, rsa_verify_pss(h.id, db, digest.size(), sb, klen, pb, pub.size(), RSA_SALT_LENGTH_AUTO) == 1, "rsa_verify_pss (any salt) refused a signature");
  if (salt > 0) EXPECT(t, rsa_verify_pss(h.id, db, digest.size(), sb, klen, pb, pub.size(), (int)salt) == 1, "rsa_verify_pss refused salt %ld", salt);
  int other = salt_arg(t, (size_t)salt, h.len);
  got = rsa_verify_pss(h.id, db, digest.size(), sb, klen, pb, pub.size(), other);
  EXPECT(t, got == (int)salt_fits(other, salt, h.len), "rsa_verify_pss with salt argument %d returned %d on a salt of %ld bytes", other, got, salt);
  if (salt >= 8) {
    Bytes en2 = entropy(t);
    Buf e2(en2), o2(klen);
    EXPECT(t, rsa_sign_pss(o2, &n, h.id, db, digest.size(), kb, priv.size(), arg, e2) == 1, "rsa_sign_pss failed with other entropy");
    EXPECT(t, (en == en2) == (o2.get() == sig), "the salt does not follow the entropy");
  }
}
PBT_PROP(C28, pss_verify, 14000, 200000) {
  Digest h = pick_digest(t, false);
  const RsaKey &k = pick_key_for(t, 2 * h.len + 2);
  size_t klen = k.klen(), embits = k.n.bits() - 1, emlen = (embits + 7) / 8, hl = h.len;
  if (emlen < hl + 2) t.discard();
  size_t max = emlen - 2 - hl;
  size_t salt = t.len_near({0, 1, hl, max - (max > 0), max}, max);
  if (salt > max) salt = max;
  Bytes digest = t.bytes(hl), sb_ = t.bytes(salt);
  Bytes em = ref::pss_encode(h.name, digest, sb_, embits);
  size_t dblen = emlen - hl - 1;
  unsigned top = 0xffu >> (8 * emlen - embits);
  const char *what = "good";
  Bytes vd = digest, sig;
  // Rebuilds the encoding from an altered data block.
  auto remask = [&](Bytes db, const Bytes &H) {
    Bytes m = ref::xorb(db, ref::mgf1(h.name, H, db.size()));
    m[0] &= (uint8_t)top;
    return ref::cat(m, H, Bytes{0xbc});
  };
  Bytes db = ref::cat(Bytes(dblen - salt - 1), Bytes{1}, sb_), H = ref::sub(em, dblen, hl);
  switch (t.weighted({4, 2, 3, 3, 2, 2, 2, 3, 2, 2, 2, 2, 3, 2})) {
    case 0: break;
    case 1: what = "trailer", em.back() = (uint8_t)t.pick({0xcc, 0xbd, 0x3c, 0x00}); break;
    case 2:  // the bits above emBits
      what = "top bits";
      if (top == 0xff) {
        Z m = Z::be(em) + Z::pow2(8 * emlen);
        if (emlen == klen || m >= k.n) t.discard();
        sig = k.unraw(m).to_be(klen);
      } else {
        em[0] |= (uint8_t)(~top & (0x100 - (1u << t.range(8 - (8 * emlen - embits), 7))));
      }
      break;
    case 3: {  // nonzero padding
      what = "padding";
      size_t n = dblen - salt - 1;
      if (n == 0) t.discard();
      size_t i = t.range(0, n - 1);
      db[i] = (uint8_t)t.pick({1, 2, 0x80, 0xff});
      if (i == 0) db[i] &= (uint8_t)top;
      em = remask(db, H);
      break;
    }
    case 4: what = "no one byte", db[dblen - salt - 1] = (uint8_t)t.pick({0, 2, 0x81}), em = remask(db, H); break;
    case 5:
      what = "salt";
      if (!salt) t.discard();
      db[dblen - 1 - t.range(0, salt - 1)] ^= (uint8_t)(1u << t.range(0, 7)), em = remask(db, H);
      break;
    case 6: what = "hash", em[dblen + t.range(0, hl - 1)] ^= (uint8_t)(1u << t.range(0, 7)); break;
    case 7: what = "masked block", em[t.range(0, dblen - 1)] ^= (uint8_t)(1u << t.range(0, 7)); break;
    case 8: what = "another digest", t.flip_bit(vd); break;
    case 9: what = "digest length", t.flip() ? vd.push_back(0) : vd.pop_back(); break;
    case 10: what = "all zero", db.assign(dblen, 0), em = remask(db, H); break;
    case 11: what = "random", em = t.rnd(emlen), em[0] &= (uint8_t)top, em.back() = 0xbc; break;
    case 12: {
      what = "special signature";
      Z z = t.pick(std::vector<Z>{Z(0), Z(1), k.n - Z(1), k.n, Z::pow2(8 * klen) - Z(1), k.unraw(Z::be(em)) + k.n});
      if (z.bits() > 8 * klen) t.discard();
      sig = z.to_be(klen);
      break;
    }
    default:  // encoded as for a key one byte longer or shorter
      what = "another size";
      em = ref::pss_encode(h.name, digest, sb_, embits - 8);
      if (em.empty()) em = ref::pss_encode(h.name, digest, Bytes(), embits - 8);
      if (em.empty()) t.discard();
      break;
  }
  if (sig.empty()) {
    Z m = Z::be(em);
    if (m >= k.n) t.discard();
    sig = k.unraw(m).to_be(klen);
  }
  if (t.chance(1, 12)) {
    what = "signature length";
    if (t.flip()) sig.insert(sig.begin(), 1, 0);
    else if (t.flip()) sig.push_back(0);
    else sig.erase(sig.begin());
  }
  int arg = salt_arg(t, salt, hl);
  long len = -1;
  if (sig.size() == klen && Z::be(sig) < k.n && vd.size() == hl) {
    Z m = k.raw(Z::be(sig));
    if (m.bits() <= 8 * emlen) len = ref::pss_salt(h.name, vd, m.to_be(emlen), embits);
  }
  bool ok = salt_fits(arg, len, hl);
  t.nontrivial();
  t.label("%s: %s", what, ok ? "accepted" : len >= 0 ? "salt rule" : "refused");
  t.note("%s, salt of %zu bytes, argument %d", h.name, salt, arg);
  show_key(t, k);
  t.show("encoded", em);
  t.show("digest", vd);
  t.mix(sig);
  t.mix64(arg);
  Bytes pub = k.pub();
  Buf vb(vd), sb(sig), pb(pub);
  int got = rsa_verify_pss(h.id, vb, vd.size(), sb, sig.size(), pb, pub.size(), arg);
  EXPECT(t, got == (int)ok, "rsa_verify_pss with %s (%s), salt argument %d, salt of %ld bytes, returned %d, want %d", h.name, what, arg, len, got, ok);
}
static std::string pick_ossl(T &t) { return t.pick(std::vector<std::string>{"sha256", "sha1", "sha224", "sha384", "sha512", "md5", "sha3_256", "sha3_224"}); }
static hash_id_t hash_by_name(const std::string &n) {
  for (const HashName &h : hash_names())
    if (n == h.name) return h.id;
  return HASH_NONE;
}
PBT_PROP(C28, second_opinion, 3500, 40000) {
  std::string h = pick_ossl(t);
  hash_id_t id = hash_by_name(h);
  size_t hl = ref::hash_info(h).out;
  const RsaKey &k = pick_key_for(t, 2 * hl + 3);
  size_t klen = k.klen();
  Bytes digest = t.bytes(hl), en = entropy(t), priv = k.priv(), pub = k.pub();
  Buf db(digest), kb(priv), eb(en), o(klen), pb(pub);
  size_t n = 0;
  show_key(t, k);
  t.show("digest", digest);
  t.mix(digest);
  t.mix(pub);
  t.note("hash %s", h.c_str());
  if (t.flip()) {
    if (klen < ref::digest_info(h).size() + hl + 11) t.discard();
    t.nontrivial();
    t.label("PKCS1 %s", h.c_str());
    Bytes theirs = ref::ossl_rsa_sign(k, h, digest);
    EXPECT(t, rsa_sign(o, &n, id, db, hl, kb, priv.size(), eb) == 1, "rsa_sign failed");
    expect_eq(t, o.get(), theirs, "OpenSSL and rsa_sign differ for %s", h.c_str());
    Buf sb(theirs);
    EXPECT(t, rsa_verify(id, db, hl, sb, klen, pb, pub.size()) == 1, "rsa_verify refused OpenSSL's signature");
    EXPECT(t, ref::ossl_rsa_verify(k, h, digest, o.get()), "OpenSSL refused the signature");
  } else {
    size_t emlen = (k.n.bits() - 1 + 7) / 8;
    if (emlen < hl + 2) t.discard();
    size_t max = emlen - hl - 2;
    size_t salt = t.len_near({0, 1, hl, max}, max);
    if (salt > max) salt = max;
    t.nontrivial();
    t.label("PSS %s", h.c_str());
    Bytes theirs = ref::ossl_rsa_sign_pss(k, h, digest, (int)salt);
    Buf sb(theirs);
    EXPECT(t, rsa_verify_pss(id, db, hl, sb, klen, pb, pub.size(), RSA_SALT_LENGTH_AUTO) == 1, "rsa_verify_pss refused OpenSSL's signature");
    if (salt) EXPECT(t, rsa_verify_pss(id, db, hl, sb, klen, pb, pub.size(), (int)salt) == 1, "rsa_verify_pss refused OpenSSL's signature for its salt length");
    EXPECT(t, rsa_sign_pss(o, &n, id, db, hl, kb, priv.size(), (int)salt, eb) == 1, "rsa_sign_pss failed");
    EXPECT(t, ref::ossl_rsa_verify_pss(k, h, digest, o.get(), salt ? (int)salt : (int)max), "OpenSSL refused the signature");
  }
}

// ---------------------------------------------------------------------------
PBT_RULE(C29, "something was encrypted, or an encoded block with a stated property was put through the public key and judged");

// Message of a valid PKCS#1 v1.5 block, by the definition.
static bool unpad(const Bytes &em, Bytes &msg) {
  if (em[0] != 0 || em[1] != 2) return false;
  size_t i = 2;
  while (i < em.size() && em[i] != 0) i++;
  if (i == em.size() || i < 10) return false;
  msg = ref::sub(em, i + 1, em.size());
  return true;
}
static Bytes nonzero(T &t, size_t n) {
  Bytes b = t.bytes(n);
  for (auto &x : b)
    if (!x) x = 0x5a;
  return b;
}
PBT_PROP(C29, pkcs1_encrypt, 4500, 60000) {
  const RsaKey &k = pick_key(t);
  size_t klen = k.klen();
  size_t len = t.len_near({0, 1, 16, 48, klen - 12, klen - 11, klen - 10}, klen + 2);
  Bytes msg = t.bytes(len), en = entropy(t), pub = k.pub(), priv = k.priv();
  bool ok = len <= klen - 11;
  t.nontrivial();
  t.label(ok ? "encrypted" : "too long");
  show_key(t, k);
  t.show("message", msg);
  t.mix(msg);
  t.mix(en);
  Buf mb(msg), eb(en), pb(pub), kb(priv), o(klen);
  size_t n = 0;
  int got = rsa_encrypt(o, &n, mb, len, pb, pub.size(), eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_encrypt of %zu bytes with a %zu-byte key returned %d, want %d", len, klen, got, ok);
  if (!ok) return;
  Bytes c = o.get();
  EXPECT(t, n == klen && Z::be(c) < k.n, "ciphertext of %zu bytes, or not below the modulus", n);
  Bytes em = k.unraw(Z::be(c)).to_be(klen), m2;
  EXPECT(t, unpad(em, m2), "the encrypted block is malformed: %s", hex(em).c_str());
  expect_eq(t, m2, msg, "rsa_encrypt");
  Buf cb(c), o2(klen), en2(entropy(t));
  EXPECT(t, rsa_decrypt(o2, &n, cb, klen, kb, priv.size(), en2) == 1 && o2.intact(), "rsa_decrypt refused a ciphertext");
  expect_eq(t, o2.get(n), msg, "rsa_decrypt");
  Buf o3(klen);
  EXPECT(t, rsa_encrypt(o3, &n, mb, len, pb, pub.size(), eb) == 1, "rsa_encrypt");
  expect_eq(t, o3.get(), c, "rsa_encrypt is not a function of its entropy");
  EXPECT(t, rsa_encrypt(o3, &n, mb, len, pb, pub.size(), en2) == 1, "rsa_encrypt");
  EXPECT(t, en2.get() == en || o3.get() != c, "rsa_encrypt ignores its entropy");
}
PBT_PROP(C29, pkcs1_decrypt, 9000, 120000) {
  const RsaKey &k = pick_key(t);
  size_t klen = k.klen();
  size_t len = t.len_near({0, 1, 16, 32, 48, klen - 12, klen - 11}, klen - 11);
  if (len > klen - 11) len = klen - 11;
  Bytes msg = t.bytes(len);
  size_t ps = klen - len - 3;
  Bytes em = ref::cat(ref::cat(Bytes{0, 2}, nonzero(t, ps), Bytes{0}), msg);
  const char *what = "good";
  Bytes c;
  switch (t.weighted({4, 2, 2, 3, 3, 2, 2, 3, 2})) {
    case 0: break;
    case 1: what = "leading byte", em[0] = (uint8_t)t.pick({1, 2, 0x10}); break;
    case 2: what = "block type", em[1] = (uint8_t)t.pick({0, 1, 3, 0x82, 0xfd}); break;
    case 3: what = "zero in the padding", em[2 + t.range(0, ps - 1)] = 0; break;
    case 4: what = "short padding", em[2 + t.range(5, 9)] = 0; break;
    case 5:
      what = "no separator";
      for (size_t i = 2; i < klen; i++)
        if (!em[i]) em[i] = 0x33;
      break;
    case 6:  // only the last byte ends the padding
      what = "empty message";
      for (size_t i = 2; i < klen; i++)
        if (!em[i]) em[i] = 0x33;
      em[klen - 1] = 0;
      break;
    case 7: {
      what = "special";
      Z z = t.pick(std::vector<Z>{Z(0), Z(1), k.n - Z(1), k.n, k.n + Z(1), k.raw(Z::be(em)) + k.n});
      if (z.bits() > 8 * klen) t.discard();
      c = z.to_be(klen);
      break;
    }
    default: what = "random", em = t.rnd(klen), em[0] = 0; break;
  }
  if (c.empty()) {
    if (Z::be(em) >= k.n) t.discard();
    c = k.raw(Z::be(em)).to_be(klen);
  }
  if (t.chance(1, 12)) {
    what = "ciphertext length";
    if (t.flip()) c.insert(c.begin(), 1, 0);
    else if (t.flip()) c.push_back(0);
    else c.erase(c.begin());
  }
  bool in = c.size() == klen && Z::be(c) < k.n, ok = false;
  Bytes want;
  if (in) ok = unpad(k.unraw(Z::be(c)).to_be(klen), want);
  t.nontrivial();
  t.label("%s: %s", what, ok ? "decrypted" : "refused");
  show_key(t, k);
  t.show("block", em);
  t.show("ciphertext", c);
  t.mix(c);
  Bytes priv = k.priv(), en = entropy(t);
  Buf cb(c), kb(priv), eb(en), o(klen);
  size_t n = 0;
  int got = rsa_decrypt(o, &n, cb, c.size(), kb, priv.size(), eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_decrypt (%s) returned %d, want %d", what, got, ok);
  if (ok) expect_eq(t, o.get(n), want, "rsa_decrypt");
  // implicit rejection
  size_t want_len = t.flip() ? want.size() : (size_t)t.pick({(size_t)16, (size_t)48, len, len + 1, klen - 11, klen - 10, klen, (size_t)2040});
  if (t.chance(1, 20)) want_len = (size_t)t.pick({(size_t)0, (size_t)1});
  bool kok = in && want_len + 11 <= klen;
  Buf ko(want_len);
  got = rsa_decrypt_key(ko, want_len, cb, c.size(), kb, priv.size(), eb);
  EXPECT(t, got == (int)kok && ko.intact(), "rsa_decrypt_key for %zu bytes (%s) returned %d, want %d", want_len, what, got, kok);
  if (!kok) return;
  if (ok && want.size() == want_len) {
    expect_eq(t, ko.get(), want, "rsa_decrypt_key");
  } else {
    Buf k2(want_len), e2(entropy(t));
    EXPECT(t, rsa_decrypt_key(k2, want_len, cb, c.size(), kb, priv.size(), e2) == 1, "rsa_decrypt_key");
    if (want_len >= 12) {  // a key unrelated to the block, and not always the same
      EXPECT(t, k2.get() != ko.get() || e2.get() == en, "the substitute key does not follow the entropy");
      Bytes tail = k.unraw(Z::be(c)).to_be(klen);
      EXPECT(t, ko.get() != ref::sub(tail, klen - want_len, want_len), "rsa_decrypt_key gave out the end of a malformed block");
      EXPECT(t, ko.get() != Bytes(want_len), "the substitute key is zero");
    }
  }
}
struct Oaep { hash_id_t id; const char *name; size_t hl; };
static Oaep pick_oaep(T &t) {
  if (t.chance(1, 3)) return {HASH_SHA1, "sha1", 20};
  const HashName &h = pick_hash(t);
  return {h.id, h.name, ref::hash_info(h.name).out};
}
PBT_PROP(C29, oaep_encrypt, 4500, 60000) {
  Oaep h = pick_oaep(t);
  const RsaKey &k = pick_key_for(t, 2 * h.hl + 2 + (size_t)t.pick({0, 0, 1, 5, 16}));
  size_t klen = k.klen();
  bool room = klen >= 2 * h.hl + 2;
  size_t max = room ? klen - 2 * h.hl - 2 : 0;
  size_t len = t.len_near({0, 1, 16, max, max + 1}, max + 3);
  bool ok = room && len <= max;
  Bytes msg = t.bytes(len), label = t.bytes(t.len_near({0, 1, 64, 128}, 150)), en = entropy(t), pub = k.pub(), priv = k.priv();
  t.nontrivial();
  t.label("%s: %s", h.name, ok ? "encrypted" : "too long");
  show_key(t, k);
  t.show("message", msg);
  t.show("label", label);
  t.mix(msg);
  t.mix(label);
  t.mix(en);
  Buf mb(msg), lb(label), eb(en), pb(pub), kb(priv), o(klen);
  size_t n = 0;
  int got = rsa_encrypt_oaep(o, &n, h.id, mb, len, pb, pub.size(), lb, label.size(), eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_encrypt_oaep with %s of %zu bytes with a %zu-byte key returned %d, want %d", h.name, len, klen, got, ok);
  if (!ok) return;
  Bytes c = o.get();
  EXPECT(t, n == klen && Z::be(c) < k.n, "ciphertext of %zu bytes, or not below the modulus", n);
  Bytes em = k.unraw(Z::be(c)).to_be(klen);
  Bytes mdb = ref::sub(em, 1 + h.hl, klen), seed = ref::xorb(ref::sub(em, 1, h.hl), ref::mgf1(h.name, mdb, h.hl));
  expect_eq(t, em, ref::oaep_encode(h.name, msg, label, seed, klen), "the encrypted block with %s", h.name);
  Buf cb(c), o2(klen), en2(entropy(t));
  EXPECT(t, rsa_decrypt_oaep(o2, &n, h.id, cb, klen, kb, priv.size(), lb, label.size(), en2) == 1 && o2.intact(), "rsa_decrypt_oaep refused a ciphertext");
  expect_eq(t, o2.get(n), msg, "rsa_decrypt_oaep");
  Buf o3(klen);
  EXPECT(t, rsa_encrypt_oaep(o3, &n, h.id, mb, len, pb, pub.size(), lb, label.size(), eb) == 1, "rsa_encrypt_oaep");
  expect_eq(t, o3.get(), c, "rsa_encrypt_oaep is not a function of its entropy");
  EXPECT(t, rsa_encrypt_oaep(o3, &n, h.id, mb, len, pb, pub.size(), lb, label.size(), en2) == 1, "rsa_encrypt_oaep");
  EXPECT(t, en2.get() == en || o3.get() != c, "rsa_encrypt_oaep ignores its entropy");
}
PBT_PROP(C29, oaep_decrypt, 10000, 150000) {
  Oaep h = pick_oaep(t);
  const RsaKey &k = pick_key_for(t, 2 * h.hl + 2 + (size_t)t.pick({0, 0, 1, 5, 16}));
  size_t klen = k.klen();
  if (klen < 2 * h.hl + 2) t.discard();
  size_t max = klen - 2 * h.hl - 2, len = t.len_near({0, 1, 16, max}, max);
  if (len > max) len = max;
  Bytes msg = t.bytes(len), label = t.bytes(t.len_near({0, 1, 64, 128}, 150)), seed = t.bytes(h.hl), l2 = label;
  size_t ps = max - len;
  Bytes db = ref::cat(ref::cat(ref::hash(h.name, label), Bytes(ps), Bytes{1}), msg);
  int lead = 0;
  const char *what = "good";
  bool ok = true;
  Bytes c, want = msg;
  switch (t.weighted({4, 2, 3, 3, 3, 2, 2, 2, 2, 2})) {
    case 0: break;
    case 1: what = "leading byte", lead = (int)t.pick({1, 2, 0x20}), ok = false; break;
    case 2: what = "label hash", db[t.range(0, h.hl - 1)] ^= (uint8_t)(1u << t.range(0, 7)), ok = false; break;
    case 3: what = "another label", l2 = t.flip() ? ref::cat(label, Bytes{0}) : label.empty() ? Bytes{1} : t.mutate(label, true), ok = ref::hash(h.name, l2) == ref::hash(h.name, label); break;
    case 4: {  // something other than zero before the one
      what = "padding";
      if (!ps) t.discard();
      db[h.hl + t.range(0, ps - 1)] = (uint8_t)t.pick({2, 0x80, 0xff, 0x10});
      ok = false;
      break;
    }
    case 5: {  // an earlier one
      what = "early one";
      if (!ps) t.discard();
      size_t i = t.range(0, ps - 1);
      db[h.hl + i] = 1;
      want = ref::sub(db, h.hl + i + 1, db.size());
      break;
    }
    case 6: {
      what = "no one";
      for (size_t i = h.hl; i < db.size(); i++) db[i] = 0;
      ok = false;
      break;
    }
    case 7:  // the one replaced
      what = "one replaced";
      db[h.hl + ps] = (uint8_t)t.pick({2, 3, 0x81, 0xff});
      ok = false;
      break;
    case 8: {
      what = "special";
      Z z = t.pick(std::vector<Z>{Z(0), Z(1), k.n - Z(1), k.n, k.n + Z(1), Z::pow2(8 * klen) - Z(1)});
      c = z.to_be(klen);
      ok = false;
      break;
    }
    default:
      what = "last byte is the one";
      for (size_t i = h.hl; i + 1 < db.size(); i++) db[i] = 0;
      db.back() = 1;
      want.clear();
      break;
  }
  Bytes mdb = ref::xorb(db, ref::mgf1(h.name, seed, db.size()));
  Bytes em = ref::cat(Bytes{(uint8_t)lead}, ref::xorb(seed, ref::mgf1(h.name, mdb, h.hl)), mdb);
  if (c.empty()) {
    if (Z::be(em) >= k.n) t.discard();
    c = k.raw(Z::be(em)).to_be(klen);
  }
  if (t.chance(1, 12)) {
    what = "ciphertext length";
    ok = false;
    if (t.flip()) c.insert(c.begin(), 1, 0);
    else if (t.flip()) c.push_back(0);
    else c.erase(c.begin());
  } else if (ok && t.chance(1, 12)) {
    what = "moved by n";
    Z z = Z::be(c) + k.n;
    if (z.bits() > 8 * klen) t.discard();
    c = z.to_be(klen);
    ok = false;
  }
  t.nontrivial();
  t.label("%s: %s", what, ok ? "decrypted" : "refused");
  t.note("hash %s", h.name);
  show_key(t, k);
  t.show("data block", db);
  t.show("ciphertext", c);
  t.show("label", l2);
  t.mix(c);
  t.mix(l2);
  Bytes priv = k.priv(), en = entropy(t);
  Buf cb(c), kb(priv), eb(en), lb(l2), o(klen);
  size_t n = 0;
  int got = rsa_decrypt_oaep(o, &n, h.id, cb, c.size(), kb, priv.size(), lb, l2.size(), eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_decrypt_oaep with %s (%s) returned %d, want %d", h.name, what, got, ok);
  if (ok) expect_eq(t, o.get(n), want, "rsa_decrypt_oaep with %s (%s)", h.name, what);
}
PBT_PROP(C29, second_opinion, 3500, 40000) {
  std::string h = pick_ossl(t);
  hash_id_t id = hash_by_name(h);
  size_t hl = ref::hash_info(h).out;
  const RsaKey &k = pick_key_for(t, 2 * hl + 8);
  size_t klen = k.klen();
  Bytes priv = k.priv(), pub = k.pub(), en = entropy(t), got;
  Buf kb(priv), pb(pub), eb(en), o(klen), o2(klen);
  size_t n = 0;
  show_key(t, k);
  if (t.flip()) {
    Bytes msg = t.bytes(t.len_near({0, 1, 32, klen - 11}, klen - 11));
    if (msg.size() > klen - 11) msg.resize(klen - 11);
    t.nontrivial();
    t.label("PKCS1");
    t.show("message", msg);
    t.mix(msg);
    Buf mb(msg);
    EXPECT(t, rsa_encrypt(o, &n, mb, msg.size(), pb, pub.size(), eb) == 1, "rsa_encrypt failed");
    EXPECT(t, ref::ossl_rsa_decrypt(k, o.get(), got), "OpenSSL refused the ciphertext");
    expect_eq(t, got, msg, "OpenSSL's decryption");
    Bytes c = ref::ossl_rsa_encrypt(k, msg);
    Buf cb(c);
    EXPECT(t, rsa_decrypt(o2, &n, cb, klen, kb, priv.size(), eb) == 1, "rsa_decrypt refused OpenSSL's ciphertext");
    expect_eq(t, o2.get(n), msg, "rsa_decrypt of OpenSSL's ciphertext");
  } else {
    if (klen < 2 * hl + 2) t.discard();
    size_t max = klen - 2 * hl - 2;
    Bytes msg = t.bytes(t.len_near({0, 1, 16, max}, max)), label = t.bytes(t.len(40));
    if (msg.size() > max) msg.resize(max);
    t.nontrivial();
    t.label("OAEP %s", h.c_str());
    t.show("message", msg);
    t.show("label", label);
    t.mix(msg);
    Buf mb(msg), lb(label);
    EXPECT(t, rsa_encrypt_oaep(o, &n, id, mb, msg.size(), pb, pub.size(), lb, label.size(), eb) == 1, "rsa_encrypt_oaep failed");
    EXPECT(t, ref::ossl_rsa_decrypt_oaep(k, h, label, o.get(), got), "OpenSSL refused the OAEP ciphertext with %s", h.c_str());
    expect_eq(t, got, msg, "OpenSSL's decryption");
    Bytes c = ref::ossl_rsa_encrypt_oaep(k, h, label, msg);
    Buf cb(c);
    EXPECT(t, rsa_decrypt_oaep(o2, &n, id, cb, klen, kb, priv.size(), lb, label.size(), eb) == 1, "rsa_decrypt_oaep refused OpenSSL's ciphertext with %s", h.c_str());
    expect_eq(t, o2.get(n), msg, "rsa_decrypt_oaep of OpenSSL's ciphertext");
  }
}
PBT_PROP(C29, veil, 14000, 200000) {
  const RsaKey &k = pick_key(t);
  size_t klen = k.klen(), nb = k.n.bits();
  Z c;
  switch (t.weighted({3, 1, 1, 1})) {
    case 0: c = Z::be(t.rnd(klen)) % k.n; break;
    case 1: c = Z((long)t.range(0, 3)); break;
    case 2: c = k.n - Z((long)t.range(1, 3)); break;
    default: c = k.n + Z((long)t.range(0, 3)); break;
  }
  if (c.bits() > 8 * klen) t.discard();
  size_t bits = (size_t)t.pick({nb, nb, nb + 1, nb + 7, nb + 8, nb + 9, nb + 16, nb + 64, nb + 100, nb + 512, nb - 1, (size_t)0, (size_t)2048, (size_t)4096});
  if (t.chance(1, 40)) bits = (size_t)t.pick({16384, 16391, 16392, 16393, 20000});
  Bytes cin = c.to_be(klen), en = entropy(t), pub = k.pub();
  bool ok = bits >= nb && bits <= 16384 + 8 && c < k.n;
  if (t.chance(1, 12)) {
    ok = false;
    if (t.flip()) cin.insert(cin.begin(), 0);
    else cin.erase(cin.begin());
  }
  // at the very size of the modulus a veiled value exists only when there is room; c itself always is one
  t.nontrivial();
  t.label(ok ? "veiled" : "refused");
  t.note("bits %zu, modulus %zu", bits, nb);
  show_key(t, k);
  t.show("ciphertext", cin);
  t.mix(cin);
  t.mix64(bits);
  size_t vlen = (bits + 7) / 8;
  Buf cb(cin), eb(en), pb(pub), o(vlen > klen ? vlen : klen);
  size_t n = 0;
  int got = rsa_veil(o, &n, cb, cin.size(), bits, pb, pub.size(), eb);
  EXPECT(t, got == (int)ok && o.intact(), "rsa_veil to %zu bits of a %zu-bit ciphertext returned %d, want %d", bits, nb, got, ok);
  if (!ok) return;
  EXPECT(t, n == vlen, "rsa_veil gave %zu bytes, want %zu", n, vlen);
  Bytes v = o.get(n);
  Z vz = Z::be(v);
  EXPECT(t, vz.bits() <= bits, "the veiled value has %zu bits, at most %zu allowed", vz.bits(), bits);
  EXPECT(t, vz % k.n == c, "the veiled value is another residue");
  Buf vb(v), u(klen);
  EXPECT(t, rsa_unveil(u, &n, vb, v.size(), bits, pb, pub.size()) == 1 && u.intact(), "rsa_unveil refused a veiled ciphertext");
  expect_eq(t, u.get(n), cin, "rsa_unveil");
  EXPECT(t, rsa_unveil(u, &n, vb, v.size(), 0, pb, pub.size()) == 1 && u.get(n) == cin, "rsa_unveil without a size");
  // any value at all
  size_t wl = t.len_near({klen - 1, klen, klen + 1, klen + 8, 2048, 2049, 2050}, 2060);
  if (!t.chance(1, 10)) wl = klen + t.range(0, 20);
  Bytes w = t.bytes(wl);
  Z wz = Z::be(w);
  size_t wb = (size_t)t.pick({(size_t)0, wz.bits(), wz.bits() + 1, wz.bits() - (wz.bits() > 1), 8 * wl});
  bool wok = wl >= klen && wl <= 2049 && wb <= 16392 && (wb == 0 || wz.bits() <= wb);
  Buf wbuf(w), u2(klen);
  t.show("unveiled directly", w);
  got = rsa_unveil(u2, &n, wbuf, wl, wb, pb, pub.size());
  EXPECT(t, got == (int)wok && u2.intact(), "rsa_unveil of %zu bytes with limit %zu returned %d, want %d", wl, wb, got, wok);
  if (wok) expect_eq(t, u2.get(n), (wz % k.n).to_be(klen), "rsa_unveil");
}
