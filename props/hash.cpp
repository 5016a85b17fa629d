// C01 hash functions, C02 HMAC, C03 Poly1305 / SipHash / Murmur3.
#include "common.h"
#include <torsion/mac.h>
#include <torsion/util.h>

PBT_RULE(C01, "message is non-empty and was fed in at least two pieces or has more than one block, or a non-default output length/key was used; distinct by decoded input");
PBT_RULE(C02, "key and message are non-empty; distinct by decoded input");
PBT_RULE(C03, "data is non-empty; distinct by decoded input");

static size_t msg_len(T &t, size_t block) {
  return t.chance(1, 12) ? t.len_block(block, block * 40) : t.len_block(block, block * 6);
}

PBT_PROP(C01, generic, 400000, 5000000) {
  const HashName &h = pick_hash(t);
  const ref::HashInfo &info = ref::hash_info(h.name);
  t.label("%s", h.name);
  EXPECT(t, hash_has_backend(h.id) == 1, "%s: no backend", h.name);
  EXPECT(t, hash_output_size(h.id) == info.out, "%s: output size %zu, want %zu", h.name, hash_output_size(h.id), info.out);
  EXPECT(t, hash_block_size(h.id) == info.block, "%s: block size %zu, want %zu", h.name, hash_block_size(h.id), info.block);

  Bytes msg = t.bytes(msg_len(t, info.block));
  bool xof = h.id == HASH_SHAKE128 || h.id == HASH_SHAKE256;
  size_t outlen = info.out;
  if (xof && t.chance(3, 4)) outlen = t.len_near({1, 8, 16, 32, 64, 114, info.block - 1, info.block, info.block + 1, 200}, 200);
  if (outlen == 0) outlen = info.out;

  hash_t ctx;
  memset(&ctx, 0xa5, sizeof ctx);
  if (t.chance(1, 4)) { // a used context is re-initialised
    const HashName &o = pick_hash(t);
    hash_init(&ctx, o.id);
    Bytes junk = t.bytes(t.len(200));
    hash_update(&ctx, junk.data(), junk.size());
    if (t.flip()) { Buf out(hash_output_size(o.id)); hash_final(&ctx, out, hash_output_size(o.id)); }
  }
  hash_init(&ctx, h.id);
  size_t pieces = 0;
  bool copied = false;
  hash_t saved;
  size_t copy_at = t.chance(1, 3) ? t.range(0, 3) : 99;
  Bytes tail;
  feed(t, msg, info.block, [&](const uint8_t *p, size_t n) {
    if (pieces == copy_at) { saved = ctx; copied = true; tail.clear(); }
    if (copied) tail.insert(tail.end(), p, p + n);
    hash_update(&ctx, p, n);
    pieces++;
  });
  Buf out(outlen);
  hash_final(&ctx, out, xof ? outlen : info.out);
  Bytes want = ref::hash(h.name, msg, xof ? outlen : 0);
  if (t.recording()) { t.show("message", msg); t.note("hash %s pieces %zu outlen %zu\n", h.name, pieces, outlen); }
  expect_eq(t, out.get(), want, "%s digest of %zu bytes in %zu pieces", h.name, msg.size(), pieces);
  EXPECT(t, out.intact(), "%s wrote outside its output", h.name);
  if (copied) {
    // the copy continues independently of what happened to the original
    hash_update(&saved, tail.data(), tail.size());
    hash_final(&saved, out, xof ? outlen : info.out);
    expect_eq(t, out.get(), want, "%s digest from a copied context", h.name);
  }
  if ((!msg.empty() && (pieces > 1 || msg.size() > info.block)) || outlen != info.out) t.nontrivial();
}

// Every per-algorithm entry point.
#define ALGO(TY, NAME, REFNAME) { REFNAME, [](T &t, const Bytes &m, size_t blk, uint8_t *out) { \
  TY c; memset(&c, 0x5a, sizeof c); NAME##_init(&c); \
  feed(t, m, blk, [&](const uint8_t *p, size_t n) { NAME##_update(&c, p, n); }); NAME##_final(&c, out); } }
#define ALGOK(TY, NAME, REFNAME) { REFNAME, [](T &t, const Bytes &m, size_t blk, uint8_t *out) { \
  TY c; memset(&c, 0x5a, sizeof c); NAME##_init(&c, NULL, 0); \
  feed(t, m, blk, [&](const uint8_t *p, size_t n) { NAME##_update(&c, p, n); }); NAME##_final(&c, out); } }
#define ALGOX(TY, NAME, REFNAME, LEN) { REFNAME, [](T &t, const Bytes &m, size_t blk, uint8_t *out) { \
  TY c; memset(&c, 0x5a, sizeof c); NAME##_init(&c); \
  feed(t, m, blk, [&](const uint8_t *p, size_t n) { NAME##_update(&c, p, n); }); NAME##_final(&c, out, LEN); } }

struct Algo { const char *name; void (*run)(T &, const Bytes &, size_t, uint8_t *); };
static const std::vector<Algo> kAlgos = {
  ALGO(sha256_t, sha256, "sha256"), ALGO(sha224_t, sha224, "sha224"), ALGO(sha512_t, sha512, "sha512"),
  ALGO(sha384_t, sha384, "sha384"), ALGO(sha1_t, sha1, "sha1"), ALGO(md2_t, md2, "md2"), ALGO(md4_t, md4, "md4"),
  ALGO(md5_t, md5, "md5"), ALGO(md5sha1_t, md5sha1, "md5sha1"), ALGO(ripemd160_t, ripemd160, "ripemd160"),
  ALGO(hash160_t, hash160, "hash160"), ALGO(hash256_t, hash256, "hash256"), ALGO(whirlpool_t, whirlpool, "whirlpool"),
  ALGO(gost94_t, gost94, "gost94"),
  ALGO(sha3_t, torsion_keccak224, "keccak224"), ALGO(sha3_t, torsion_keccak256, "keccak256"),
  ALGO(sha3_t, torsion_keccak384, "keccak384"), ALGO(sha3_t, torsion_keccak512, "keccak512"),
  ALGO(sha3_t, torsion_sha3_224, "sha3_224"), ALGO(sha3_t, torsion_sha3_256, "sha3_256"),
  ALGO(sha3_t, torsion_sha3_384, "sha3_384"), ALGO(sha3_t, torsion_sha3_512, "sha3_512"),
  ALGOX(sha3_t, torsion_shake128, "shake128", 16), ALGOX(sha3_t, torsion_shake256, "shake256", 32),
  ALGOX(sha3_t, torsion_shake128, "shake128", 0), ALGOX(sha3_t, torsion_shake256, "shake256", 0),
  ALGOK(blake2b_t, torsion_blake2b160, "blake2b160"), ALGOK(blake2b_t, torsion_blake2b256, "blake2b256"),
  ALGOK(blake2b_t, torsion_blake2b384, "blake2b384"), ALGOK(blake2b_t, torsion_blake2b512, "blake2b512"),
  ALGOK(blake2s_t, torsion_blake2s128, "blake2s128"), ALGOK(blake2s_t, torsion_blake2s160, "blake2s160"),
  ALGOK(blake2s_t, torsion_blake2s224, "blake2s224"), ALGOK(blake2s_t, torsion_blake2s256, "blake2s256")};

PBT_PROP(C01, specific, 200000, 3000000) {
  const Algo &a = t.pick(kAlgos);
  const ref::HashInfo &info = ref::hash_info(a.name);
  t.label("%s", a.name);
  Bytes msg = t.bytes(msg_len(t, info.block));
  Buf out(info.out);
  a.run(t, msg, info.block, out);
  if (t.recording()) { t.show("message", msg); t.note("hash %s\n", a.name); }
  expect_eq(t, out.get(), ref::hash(a.name, msg), "%s digest of %zu bytes", a.name, msg.size());
  EXPECT(t, out.intact(), "%s wrote outside its output", a.name);
  if (!msg.empty()) t.nontrivial();
}

// BLAKE2 with every output length and key length.
PBT_PROP(C01, blake2, 200000, 3000000) {
  bool s = t.flip();
  size_t maxlen = s ? 32 : 64, blk = s ? 64 : 128;
  size_t outlen = t.range(1, maxlen);
  size_t keylen = t.chance(2, 3) ? t.len_near({1, maxlen - 1, maxlen}, maxlen) : 0;
  static const size_t bsz[4] = {20, 32, 48, 64}, ssz[4] = {16, 20, 28, 32};
  int named = t.chance(1, 3) ? (int)t.range(0, 3) : -1;
  if (named >= 0) outlen = s ? ssz[named] : bsz[named];
  Bytes key = t.bytes(keylen), msg = t.bytes(msg_len(t, blk));
  Buf kb(key), out(outlen);
  t.label("%s len=%zu", s ? "blake2s" : "blake2b", outlen);
  if (s) {
    blake2s_t c;
    memset(&c, 0x77, sizeof c);
    switch (named) {
      case 0: torsion_blake2s128_init(&c, kb, keylen); break;
      case 1: torsion_blake2s160_init(&c, kb, keylen); break;
      case 2: torsion_blake2s224_init(&c, kb, keylen); break;
      case 3: torsion_blake2s256_init(&c, kb, keylen); break;
      default: blake2s_init(&c, outlen, kb, keylen);
    }
    feed(t, msg, blk, [&](const uint8_t *p, size_t n) { blake2s_update(&c, p, n); });
    switch (named) {
      case 0: torsion_blake2s128_final(&c, out); break;
      case 1: torsion_blake2s160_final(&c, out); break;
      case 2: torsion_blake2s224_final(&c, out); break;
      case 3: torsion_blake2s256_final(&c, out); break;
      default: blake2s_final(&c, out);
    }
  } else {
    blake2b_t c;
    memset(&c, 0x77, sizeof c);
    switch (named) {
      case 0: torsion_blake2b160_init(&c, kb, keylen); break;
      case 1: torsion_blake2b256_init(&c, kb, keylen); break;
      case 2: torsion_blake2b384_init(&c, kb, keylen); break;
      case 3: torsion_blake2b512_init(&c, kb, keylen); break;
      default: blake2b_init(&c, outlen, kb, keylen);
    }
    feed(t, msg, blk, [&](const uint8_t *p, size_t n) { blake2b_update(&c, p, n); });
    switch (named) {
      case 0: torsion_blake2b160_final(&c, out); break;
      case 1: torsion_blake2b256_final(&c, out); break;
      case 2: torsion_blake2b384_final(&c, out); break;
      case 3: torsion_blake2b512_final(&c, out); break;
      default: blake2b_final(&c, out);
    }
  }
  if (t.recording()) { t.show("key", key); t.show("message", msg); t.note("outlen %zu\n", outlen); }
  expect_eq(t, out.get(), s ? ref::blake2s(outlen, key, msg) : ref::blake2b(outlen, key, msg),
            "%s outlen %zu keylen %zu msglen %zu", s ? "blake2s" : "blake2b", outlen, keylen, msg.size());
  EXPECT(t, out.intact(), "blake2 wrote outside its output");
  t.nontrivial();
}

// Raw Keccak: every capacity, pad byte and output length.
PBT_PROP(C01, keccak, 150000, 2000000) {
  unsigned bits = t.chance(1, 2) ? t.pick({256u, 128u, 160u, 192u, 224u, 384u, 512u}) : (unsigned)(32 * t.range(1, 24));
  size_t rate = (1600 - 2 * bits) / 8;
  unsigned pad = t.pick({0x01u, 0x06u, 0x1fu, 0u, 0x04u});
  size_t len = t.len_near({0, bits / 8, 32, 64, rate - 1, rate, rate + 1, 2 * rate, 200}, 200);
  Bytes msg = t.bytes(msg_len(t, rate));
  size_t outlen = len ? len : bits / 8;
  keccak_t c;
  memset(&c, 0x33, sizeof c);
  keccak_init(&c, bits);
  feed(t, msg, rate, [&](const uint8_t *p, size_t n) { keccak_update(&c, p, n); });
  Buf out(outlen);
  keccak_final(&c, out, pad, len);
  t.label("capacity %u", bits * 2);
  if (t.recording()) { t.show("message", msg); t.note("bits %u pad %#x len %zu\n", bits, pad, len); }
  expect_eq(t, out.get(), ref::keccak(rate, pad ? pad : 1, outlen, msg), "keccak bits %u pad %#x len %zu msglen %zu", bits, pad, len, msg.size());
  EXPECT(t, out.intact(), "keccak wrote outside its output");
  t.nontrivial();
}

// Messages whose length field needs more than 32 bits.
static void huge(T &t, hash_id_t id, const char *name, uint64_t base) {
  uint64_t total = base + t.range(0, 150);
  Bytes chunk = t.rnd(4096);
  size_t clen = 1 << 16;
  Bytes big;
  while (big.size() < clen) big.insert(big.end(), chunk.begin(), chunk.end());
  size_t first = t.range(0, 300);
  hash_t c;
  hash_init(&c, id);
  auto r = ref::hasher(name);
  uint64_t done = 0;
  while (done < total) {
    size_t n = done == 0 ? first : clen;
    if (n == 0) n = 1;
    if (n > total - done) n = (size_t)(total - done);
    hash_update(&c, big.data(), n);
    r->update(big.data(), n);
    done += n;
  }
  Buf out(hash_output_size(id));
  hash_final(&c, out, hash_output_size(id));
  t.label("%s", name);
  if (t.recording()) t.note("%s over %llu bytes\n", name, (unsigned long long)total);
  expect_eq(t, out.get(), r->finish(0), "%s digest of %llu bytes", name, (unsigned long long)total);
  t.nontrivial();
}
static const uint64_t k29 = 1ull << 29, k32 = 1ull << 32;
PBT_PROP(C01, huge_sha256, 1, 3, 0, 0) { huge(t, HASH_SHA256, "sha256", k29); }
PBT_PROP(C01, huge_sha512, 1, 3, 0, 0) { huge(t, HASH_SHA512, "sha512", k29); }
PBT_PROP(C01, huge_sha1, 1, 3, 0, 0) { huge(t, HASH_SHA1, "sha1", k29); }
PBT_PROP(C01, huge_md5, 1, 3, 0, 0) { huge(t, HASH_MD5, "md5", k29); }
PBT_PROP(C01, huge_md4, 1, 3, 0, 0) { huge(t, HASH_MD4, "md4", k29); }
PBT_PROP(C01, huge_ripemd160, 1, 3, 0, 0) { huge(t, HASH_RIPEMD160, "ripemd160", k29); }
PBT_PROP(C01, huge_whirlpool, 1, 3, 0, 0) { huge(t, HASH_WHIRLPOOL, "whirlpool", k29); }
PBT_PROP(C01, huge_blake2s, 1, 3, 0, 0) { huge(t, HASH_BLAKE2S_256, "blake2s256", k32); }
PBT_PROP(C01, huge_blake2b, 0, 2, 0, 0) { huge(t, HASH_BLAKE2B_512, "blake2b512", k32); }
PBT_PROP(C01, huge_sha256_32, 0, 2, 0, 0) { huge(t, HASH_SHA256, "sha256", k32); }
PBT_PROP(C01, huge_sha512_32, 0, 2, 0, 0) { huge(t, HASH_SHA512, "sha512", k32); }
PBT_PROP(C01, huge_sha3, 0, 1, 0, 0) { huge(t, HASH_SHA3_256, "sha3_256", k29); }

// ------------------------------------------------------------------ C02

PBT_PROP(C02, hmac, 1000000, 12000000) {
  const HashName &h = pick_hash(t);
  const ref::HashInfo &info = ref::hash_info(h.name);
  t.label("%s", h.name);
  size_t klen = t.len_near({0, 1, info.out, info.block - 1, info.block, info.block + 1, 2 * info.block}, info.block * 3);
  Bytes key = t.bytes(klen), msg = t.bytes(msg_len(t, info.block));
  t.label("key %s block", klen < info.block ? "<" : klen == info.block ? "=" : ">");
  hmac_t c;
  memset(&c, 0x69, sizeof c);
  Buf kb(key), out(info.out);
  if (t.chance(1, 4)) { // reuse a context that already served another key
    const HashName &o = pick_hash(t);
    Bytes k2 = t.bytes(t.len(200));
    hmac_init(&c, o.id, k2.data(), k2.size());
    if (t.flip()) { Buf o2(hash_output_size(o.id)); hmac_final(&c, o2); }
  }
  hmac_init(&c, h.id, kb, klen);
  bool copy = t.chance(1, 4);
  hmac_t saved;
  if (copy) saved = c;
  size_t pieces = 0;
  feed(t, msg, info.block, [&](const uint8_t *p, size_t n) { hmac_update(&c, p, n); pieces++; });
  hmac_final(&c, out);
  if (t.recording()) { t.show("key", key); t.show("message", msg); t.note("hash %s\n", h.name); }
  Bytes want = ref::hmac(h.name, key, msg);
  expect_eq(t, out.get(), want, "HMAC-%s keylen %zu msglen %zu pieces %zu", h.name, klen, msg.size(), pieces);
  EXPECT(t, out.intact(), "HMAC wrote outside its output");
  if (copy) {
    Buf out2(info.out);
    hmac_update(&saved, msg.data(), msg.size());
    hmac_final(&saved, out2);
    expect_eq(t, out2.get(), want, "HMAC-%s from a copied context", h.name);
  }
  if (!msg.empty() && klen) t.nontrivial();
}

// ------------------------------------------------------------------ C03

// Messages and keys that drive the accumulator close to 2^130-5 and 2^128.
static Bytes poly_msg(T &t, size_t n) {
  switch (t.weighted({3, 1, 1, 1})) {
    case 1: return Bytes(n, 0xff);
    case 2: { Bytes b(n, 0xff); for (size_t i = 0; i < n; i += 16) b[i] = (uint8_t)t.range(0xf0, 0xff); return b; }
    case 3: { Bytes b(n, 0); for (size_t i = 0; i < n; i += 16) b[i] = (uint8_t)t.range(0, 8); return b; }
    default: return t.bytes(n);
  }
}

PBT_PROP(C03, poly1305, 2500000, 30000000) {
  Bytes key = t.bytes(32);
  switch (t.weighted({4, 1, 1, 1, 1})) {
    case 1: for (int i = 0; i < 16; i++) key[i] = 0xff; break;
    case 2: for (int i = 0; i < 16; i++) key[i] = 0; key[0] = (uint8_t)t.range(0, 5); break;
    case 3: for (int i = 16; i < 32; i++) key[i] = 0xff; break;
    case 4: for (int i = 0; i < 16; i++) key[i] = 0; key[t.range(0, 15)] = (uint8_t)(1 << t.range(0, 7)); break;
    default: break;
  }
  // sections separated by pad calls; the padded message is what is MACed
  size_t sections = 1 + (t.chance(1, 3) ? t.range(1, 3) : 0);
  Bytes fed;
  poly1305_t c;
  memset(&c, 0x11, sizeof c);
  Buf kb(key), mac(16);
  poly1305_init(&c, kb);
  for (size_t s = 0; s < sections; s++) {
    Bytes m = poly_msg(t, t.len_block(16, 160));
    if (t.recording()) t.show("section", m);
    feed(t, m, 16, [&](const uint8_t *p, size_t n) { poly1305_update(&c, p, n); });
    fed.insert(fed.end(), m.begin(), m.end());
    if (s + 1 < sections) {
      poly1305_pad(&c);
      while (fed.size() % 16) fed.push_back(0);
    }
  }
  poly1305_final(&c, mac);
  if (t.recording()) t.show("key", key);
  expect_eq(t, mac.get(), ref::poly1305(key, fed), "poly1305 over %zu bytes in %zu sections", fed.size(), sections);
  EXPECT(t, mac.intact(), "poly1305 wrote outside its output");
  t.label("sections %zu", sections);
  if (!fed.empty()) t.nontrivial();
}

PBT_PROP(C03, siphash, 1500000, 15000000) {
  Bytes key = t.bytes(16), msg = t.bytes(t.chance(1, 20) ? t.len_near({255, 256, 257}, 600) : t.len_block(8, 80));
  Buf kb(key), mb(msg);
  uint64_t want = ref::siphash24(key, msg);
  uint64_t got = siphash_sum(mb, msg.size(), kb);
  if (t.recording()) { t.show("key", key); t.show("message", msg); }
  EXPECT(t, got == want, "siphash of %zu bytes: %016llx want %016llx", msg.size(), (unsigned long long)got, (unsigned long long)want);
  uint64_t mod = 0;
  switch (t.weighted({3, 1, 1, 1, 1})) {
    case 0: mod = t.bits(64); break;
    case 1: mod = t.bits(32); break;
    case 2: mod = ~0ull - t.range(0, 2); break;
    case 3: mod = 0xffffffffull + t.range(0, 2); break;
    case 4: mod = 1ull << t.range(0, 63); break;
  }
  uint64_t wm = (uint64_t)(((unsigned __int128)want * mod) >> 64);
  uint64_t gm = siphash_mod(mb, msg.size(), kb, mod);
  EXPECT(t, gm == wm, "siphash_mod mod %016llx: %016llx want %016llx", (unsigned long long)mod, (unsigned long long)gm, (unsigned long long)wm);
  uint64_t num = t.chance(1, 4) ? t.bits(8) : t.bits(64);
  uint64_t g1 = siphash128_sum(num, kb), w1 = ref::siphash24_word128(num, key);
  EXPECT(t, g1 == w1, "siphash128(%016llx): %016llx want %016llx", (unsigned long long)num, (unsigned long long)g1, (unsigned long long)w1);
  Bytes key32 = t.bytes(32);
  Buf k32b(key32);
  uint64_t g2 = siphash256_sum(num, k32b), w2 = ref::siphash24_word256(num, key32);
  EXPECT(t, g2 == w2, "siphash256(%016llx): %016llx want %016llx", (unsigned long long)num, (unsigned long long)g2, (unsigned long long)w2);
  if (!msg.empty()) t.nontrivial();
}

PBT_PROP(C03, murmur3, 1000000, 10000000) {
  Bytes msg = t.bytes(t.chance(1, 20) ? t.len(2000) : t.len_block(4, 60));
  Buf mb(msg);
  uint32_t seed = t.chance(1, 4) ? (uint32_t)t.bits(3) : (uint32_t)t.bits(32);
  uint32_t got = murmur3_sum(mb, msg.size(), seed), want = ref::murmur3_32(msg, seed);
  if (t.recording()) t.show("data", msg);
  EXPECT(t, got == want, "murmur3(seed %08x): %08x want %08x", seed, got, want);
  uint32_t n = t.chance(1, 2) ? (uint32_t)t.bits(6) : (uint32_t)t.bits(32), tweak = (uint32_t)t.bits(32);
  got = murmur3_tweak(mb, msg.size(), n, tweak);
  want = ref::murmur3_32(msg, (uint32_t)(n * 0xfba4c795u + tweak));
  EXPECT(t, got == want, "murmur3_tweak(%u, %08x): %08x want %08x", n, tweak, got, want);
  if (!msg.empty()) t.nontrivial();
}

// Memory helpers everything else is built on.
PBT_PROP(C03, memory_helpers, 60000, 800000) {
  size_t n = t.len(80);
  Bytes a = t.bytes(n), b = t.chance(1, 2) ? a : t.bytes(n);
  if (n && t.chance(1, 2)) t.flip_bit(b);
  Buf x(a), y(b), z(n);
  int c = n ? memcmp(a.data(), b.data(), n) : 0;
  int cv = torsion_memcmp_var(x, y, n), cc = torsion_memcmp(x, y, n);
  auto sg = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
  if (t.recording()) { t.show("a", a); t.show("b", b); }
  EXPECT(t, sg(cv) == sg(c), "memcmp_var = %d, want sign %d", cv, sg(c));
  EXPECT(t, sg(cc) == sg(c), "memcmp = %d, want sign %d", cc, sg(c));
  EXPECT(t, torsion_memequal(x, y, n) == (a == b), "memequal = %d", torsion_memequal(x, y, n));
  torsion_memxor3(z, x, y, n);
  Bytes w(n);
  for (size_t i = 0; i < n; i++) w[i] = a[i] ^ b[i];
  expect_eq(t, z.get(), w, "memxor3");
  torsion_memxor(x, y, n);
  expect_eq(t, x.get(), w, "memxor");
  torsion_memzero(x, n);
  expect_eq(t, x.get(), Bytes(n, 0), "memzero");
  EXPECT(t, x.intact() && z.intact(), "memory helper wrote outside its buffer");
  if (n) t.nontrivial();
}
