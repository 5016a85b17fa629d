// C04 block ciphers, C05 unauthenticated modes, C06 authenticated encryption,
// C07 stream ciphers.
#include "common.h"
#include "ref_cipher.h"
#include <torsion/aead.h>
#include <torsion/cipher.h>
#include <torsion/ies.h>
#include <torsion/stream.h>

PBT_RULE(C04, "key accepted and at least one block enciphered; distinct by decoded input");
PBT_RULE(C05, "message non-empty and the case reached the final call; distinct by decoded input");
PBT_RULE(C06, "message or associated data non-empty; distinct by decoded input");
PBT_RULE(C07, "more than one keystream byte used; distinct by decoded input");

struct CipherDef { cipher_id_t id; const char *name, *family; size_t kmin, kmax, kdef, bs; };
static const std::vector<CipherDef> kCiphers = {
  {CIPHER_AES128, "AES128", "aes", 16, 16, 16, 16}, {CIPHER_AES192, "AES192", "aes", 24, 24, 24, 16},
  {CIPHER_AES256, "AES256", "aes", 32, 32, 32, 16}, {CIPHER_ARC2, "ARC2", "rc2", 1, 128, 8, 8},
  {CIPHER_ARC2_GUTMANN, "ARC2_GUTMANN", "rc2", 1, 128, 8, 8}, {CIPHER_ARC2_40, "ARC2_40", "rc2", 5, 5, 5, 8},
  {CIPHER_ARC2_64, "ARC2_64", "rc2", 8, 8, 8, 8}, {CIPHER_ARC2_128, "ARC2_128", "rc2", 16, 16, 16, 8},
  {CIPHER_ARC2_128_GUTMANN, "ARC2_128_GUTMANN", "rc2", 16, 16, 16, 8}, {CIPHER_BLOWFISH, "BLOWFISH", "blowfish", 1, 72, 16, 8},
  {CIPHER_CAMELLIA128, "CAMELLIA128", "camellia", 16, 16, 16, 16}, {CIPHER_CAMELLIA192, "CAMELLIA192", "camellia", 24, 24, 24, 16},
  {CIPHER_CAMELLIA256, "CAMELLIA256", "camellia", 32, 32, 32, 16}, {CIPHER_CAST5, "CAST5", "cast5", 16, 16, 16, 8},
  {CIPHER_DES, "DES", "des", 8, 8, 8, 8}, {CIPHER_DES_EDE, "DES_EDE", "des", 16, 16, 16, 8},
  {CIPHER_DES_EDE3, "DES_EDE3", "des", 24, 24, 24, 8}, {CIPHER_IDEA, "IDEA", "idea", 16, 16, 16, 8},
  {CIPHER_SERPENT128, "SERPENT128", "serpent", 16, 16, 16, 16}, {CIPHER_SERPENT192, "SERPENT192", "serpent", 24, 24, 24, 16},
  {CIPHER_SERPENT256, "SERPENT256", "serpent", 32, 32, 32, 16}, {CIPHER_TWOFISH128, "TWOFISH128", "twofish", 16, 16, 16, 16},
  {CIPHER_TWOFISH192, "TWOFISH192", "twofish", 24, 24, 24, 16}, {CIPHER_TWOFISH256, "TWOFISH256", "twofish", 32, 32, 32, 16}};

static std::unique_ptr<ref::BlockCipher> ref_for(const CipherDef &d, const Bytes &key) {
  unsigned param = 0;
  switch (d.id) {
    case CIPHER_ARC2: param = (unsigned)key.size() * 8; break;
    case CIPHER_ARC2_GUTMANN: case CIPHER_ARC2_128_GUTMANN: param = 1024; break;
    case CIPHER_ARC2_40: param = 40; break;
    case CIPHER_ARC2_64: param = 64; break;
    case CIPHER_ARC2_128: param = 128; break;
    default: break;
  }
  return ref::block_cipher(d.family, key, param);
}
static size_t legal_klen(T &t, const CipherDef &d) {
  if (d.kmin == d.kmax) return d.kmin;
  return t.len_near({d.kdef, d.kmin, d.kmax, 5, 7, 56}, d.kmax - 1) % d.kmax + 1;
}

// ------------------------------------------------------------------ C04

PBT_PROP(C04, blocks, 900000, 9000000) {
  const CipherDef &d = t.pick(kCiphers);
  t.label("%s", d.name);
  EXPECT(t, cipher_key_size(d.id) == d.kdef, "%s key size %zu", d.name, cipher_key_size(d.id));
  EXPECT(t, cipher_block_size(d.id) == d.bs, "%s block size %zu", d.name, cipher_block_size(d.id));
  Bytes key = t.bytes(legal_klen(t, d));
  Buf kb(key);
  cipher_t *c = (cipher_t *)malloc(sizeof(cipher_t));
  std::unique_ptr<cipher_t, void (*)(void *)> hold(c, free);
  memset(c, 0xc3, sizeof *c);
  EXPECT(t, cipher_init(c, d.id, kb, key.size()) == 1, "%s refused a %zu byte key", d.name, key.size());
  auto r = ref_for(d, key);
  size_t nblocks = t.range(1, 4);
  for (size_t i = 0; i < nblocks; i++) {
    Bytes pt = t.bytes(d.bs);
    if (t.recording()) { t.show("key", key); t.show("block", pt); t.note("cipher %s\n", d.name); }
    Buf in(pt), out(d.bs), back(d.bs);
    Bytes want = r->E(pt);
    cipher_encrypt(c, out, in);
    expect_eq(t, out.get(), want, "%s encrypt, key %zu bytes", d.name, key.size());
    expect_eq(t, in.get(), pt, "%s encrypt changed its input", d.name);
    cipher_decrypt(c, back, out);
    expect_eq(t, back.get(), pt, "%s decrypt does not invert encrypt", d.name);
    cipher_decrypt(c, back, in);
    expect_eq(t, back.get(), r->D(pt), "%s decrypt of an arbitrary block", d.name);
    cipher_encrypt(c, in, in);
    expect_eq(t, in.get(), want, "%s in-place encrypt", d.name);
    cipher_decrypt(c, in, in);
    expect_eq(t, in.get(), pt, "%s in-place decrypt", d.name);
    EXPECT(t, in.intact() && out.intact() && back.intact(), "%s wrote outside its block", d.name);
  }
  t.nontrivial();
}

PBT_PROP(C04, key_lengths, 60000, 600000) {
  const CipherDef &d = t.pick(kCiphers);
  size_t n = t.chance(1, 3) ? t.pick({d.kmin - 1, d.kmax + 1, d.kmin, d.kmax, (size_t)0}) : t.range(0, 140);
  Bytes key = t.bytes(n);
  Buf kb(key);
  cipher_t *c = (cipher_t *)malloc(sizeof(cipher_t));
  std::unique_ptr<cipher_t, void (*)(void *)> hold(c, free);
  int want = n >= d.kmin && n <= d.kmax;
  int got = cipher_init(c, d.id, kb, n);
  if (t.recording()) t.note("cipher %s key length %zu\n", d.name, n);
  EXPECT(t, got == want, "%s key length %zu: cipher_init = %d", d.name, n, got);
  t.label("%s", want ? "accepted" : "refused");
  t.nontrivial();
}

// Low-level entry points with parameters the generic ones never pass.
PBT_PROP(C04, direct, 250000, 2500000) {
  switch (t.weighted({2, 1, 1, 1})) {
    case 0: {
      Bytes key = t.bytes(t.len_near({1, 8, 16, 127, 128}, 127) % 128 + 1);
      unsigned ekb = t.chance(1, 3) ? t.pick({1024u, 0u, 40u, 64u, 128u, 1023u, 1016u, 8u, 7u, 1u}) : (unsigned)t.range(1, 1024);
      Bytes pt = t.bytes(8);
      arc2_t c;
      Buf kb(key), in(pt), out(8);
      arc2_init(&c, kb, key.size(), ekb);
      arc2_encrypt(&c, out, in);
      auto r = ref::block_cipher("rc2", key, ekb ? ekb : 1024);
      t.label("arc2 effective bits");
      if (t.recording()) { t.show("key", key); t.note("effective bits %u\n", ekb); }
      expect_eq(t, out.get(), r->E(pt), "arc2 key %zu bytes, effective bits %u", key.size(), ekb);
      arc2_decrypt(&c, out, out);
      expect_eq(t, out.get(), pt, "arc2 decrypt");
      break;
    }
    case 1: {
      unsigned bits = t.pick({128u, 192u, 256u});
      Bytes key = t.bytes(bits / 8), pt = t.bytes(16);
      aes_t c;
      memset(&c, 0x99, sizeof c);
      Buf kb(key), in(pt), out(16);
      aes_init_encrypt(&c, bits, kb);
      aes_encrypt(&c, out, in);
      auto r = ref::block_cipher("aes", key);
      if (t.recording()) t.show("key", key);
      expect_eq(t, out.get(), r->E(pt), "aes-%u after aes_init_encrypt", bits);
      aes_init_decrypt(&c);
      aes_decrypt(&c, out, out);
      expect_eq(t, out.get(), pt, "aes-%u decrypt after aes_init_decrypt", bits);
      t.label("aes split init");
      break;
    }
    case 2: {
      Bytes key = t.bytes(16), pt = t.bytes(8);
      idea_t c;
      memset(&c, 0x99, sizeof c);
      Buf kb(key), in(pt), out(8);
      idea_init_encrypt(&c, kb);
      idea_encrypt(&c, out, in);
      auto r = ref::block_cipher("idea", key);
      expect_eq(t, out.get(), r->E(pt), "idea after idea_init_encrypt");
      idea_init_decrypt(&c);
      idea_decrypt(&c, out, out);
      expect_eq(t, out.get(), pt, "idea decrypt after idea_init_decrypt");
      t.label("idea split init");
      break;
    }
    case 3: {
      size_t bs = t.range(1, 16), n = t.range(0, bs);
      Bytes m = t.bytes(n);
      Buf in(m), out(bs), back(bs);
      pkcs7_pad(out, in, n, bs);
      Bytes want(m);
      want.insert(want.end(), bs - n, (uint8_t)(bs - n));
      expect_eq(t, out.get(), want, "pkcs7_pad %zu of %zu", n, bs);
      // arbitrary block: accepted exactly when well formed
      Bytes blk = t.chance(1, 2) ? want : t.bytes(bs);
      if (t.chance(1, 2)) blk[t.range(0, bs - 1)] = (uint8_t)t.range(0, bs + 1);
      Bytes w = blk;
      bool ok = ref::unpkcs7(w, bs);
      Buf src(blk);
      size_t len = 77;
      int got = pkcs7_unpad(back, &len, src, bs);
      if (t.recording()) t.show("padded block", blk);
      EXPECT(t, got == (int)ok, "pkcs7_unpad = %d, want %d", got, (int)ok);
      if (ok) { EXPECT(t, len == w.size(), "pkcs7_unpad length %zu, want %zu", len, w.size()); expect_eq(t, back.get(len), w, "pkcs7_unpad data"); }
      else EXPECT(t, len == 0, "pkcs7_unpad length %zu on failure", len);
      EXPECT(t, back.intact() && out.intact(), "pkcs7 wrote outside its block");
      t.label("pkcs7");
      break;
    }
  }
  t.nontrivial();
}

// ------------------------------------------------------------------ C05

struct Stream {
  cipher_stream_t *c;
  Stream() : c((cipher_stream_t *)malloc(sizeof(cipher_stream_t))) { memset(c, 0xd7, sizeof *c); }
  ~Stream() { free(c); }
  cipher_stream_t *operator->() { return c; }
  operator cipher_stream_t *() { return c; }
};

// Drive a stream over m in pieces; checks announced sizes. ok receives the
// result of the final call.
static Bytes run_stream(T &t, cipher_stream_t *c, const Bytes &m, size_t bs, int &ok, size_t &pieces) {
  Bytes out;
  pieces = 0;
  feed(t, m, bs, [&](const uint8_t *p, size_t n) {
    size_t cap = cipher_stream_update_size(c, n), got = 12345;
    EXPECT(t, cap <= CIPHER_MAX_UPDATE_SIZE(n), "update size %zu exceeds the documented bound for %zu", cap, n);
    Buf o(cap);
    cipher_stream_update(c, o, &got, p, n);
    EXPECT(t, got <= cap, "update produced %zu bytes, announced %zu", got, cap);
    EXPECT(t, o.intact(), "update wrote outside the announced %zu bytes", cap);
    out.insert(out.end(), o.p, o.p + got);
    pieces++;
  });
  size_t cap = cipher_stream_final_size(c), got = 54321;
  EXPECT(t, cap <= CIPHER_MAX_FINAL_SIZE, "final size %zu exceeds the documented bound", cap);
  Buf o(cap);
  ok = cipher_stream_final(c, o, &got);
  EXPECT(t, got <= cap, "final produced %zu bytes, announced %zu", got, cap);
  EXPECT(t, o.intact(), "final wrote outside the announced %zu bytes", cap);
  if (ok) out.insert(out.end(), o.p, o.p + got);
  return out;
}

static const char *kModes[] = {"RAW", "ECB", "CBC", "CTS", "XTS", "CTR", "CFB", "OFB", "GCM", "CCM", "EAX"};

struct ModeCase { const CipherDef *d; mode_id_t mode; Bytes key, iv; std::unique_ptr<ref::BlockCipher> c, c2; };
static ModeCase gen_mode(T &t) {
  ModeCase m;
  m.d = &t.pick(kCiphers);
  m.mode = (mode_id_t)t.range(CIPHER_MODE_RAW, CIPHER_MODE_OFB);
  size_t kl = legal_klen(t, *m.d);
  m.key = t.bytes(kl);
  m.c = ref_for(*m.d, m.key);
  if (m.mode == CIPHER_MODE_XTS) {
    Bytes k2 = t.rnd(kl);
    if (k2 == m.key) k2[0] ^= 1;
    m.c2 = ref_for(*m.d, k2);
    m.key = ref::cat(m.key, k2);
  }
  if (m.mode >= CIPHER_MODE_CBC) {
    m.iv = t.bytes(m.d->bs);
    if (m.mode == CIPHER_MODE_CTR && t.chance(1, 2)) // counters about to carry
      for (size_t i = t.range(0, m.d->bs - 1); i < m.d->bs; i++) m.iv[i] = i + 1 == m.d->bs ? (uint8_t)t.range(0xfc, 0xff) : 0xff;
  }
  return m;
}

// What the mode defines for a message; false if that length is impossible.
static bool mode_encrypt(const ModeCase &m, bool padding, const Bytes &msg, Bytes &ct) {
  size_t bs = m.d->bs;
  switch (m.mode) {
    case CIPHER_MODE_RAW: if (msg.size() % bs) return false; ct = ref::ecb(*m.c, true, msg); return true;
    case CIPHER_MODE_ECB: case CIPHER_MODE_CBC: {
      Bytes p = padding ? ref::pkcs7(msg, bs) : msg;
      if (p.size() % bs) return false;
      ct = m.mode == CIPHER_MODE_ECB ? ref::ecb(*m.c, true, p) : ref::cbc(*m.c, true, m.iv, p);
      return true;
    }
    case CIPHER_MODE_CTS:
      if (!padding) { if (msg.size() % bs) return false; ct = ref::cbc(*m.c, true, m.iv, msg); return true; }
      if (msg.size() < bs) return false;
      ct = ref::cbc_cts_enc(*m.c, m.iv, msg);
      return true;
    case CIPHER_MODE_XTS:
      if (!padding) { if (msg.size() % bs) return false; ct = ref::xts_enc(*m.c, *m.c2, m.iv, msg); return true; }
      if (msg.size() < bs) return false;
      ct = ref::xts_enc(*m.c, *m.c2, m.iv, msg);
      return true;
    case CIPHER_MODE_CTR: ct = ref::ctr(*m.c, m.iv, msg); return true;
    case CIPHER_MODE_CFB: ct = ref::cfb(*m.c, true, m.iv, msg); return true;
    case CIPHER_MODE_OFB: ct = ref::ofb(*m.c, m.iv, msg); return true;
    default: return false;
  }
}

PBT_PROP(C05, stream, 400000, 4000000) {
  ModeCase m = gen_mode(t);
  size_t bs = m.d->bs;
  bool can_nopad = m.mode >= CIPHER_MODE_ECB && m.mode <= CIPHER_MODE_XTS;
  bool padding = !(can_nopad && t.chance(1, 3));
  size_t n = t.len_block(bs, bs * 8);
  if ((m.mode == CIPHER_MODE_RAW || !padding) && t.chance(5, 6)) n -= n % bs;
  Bytes msg = t.bytes(n);
  t.label("%s", kModes[m.mode]);
  if (t.recording()) {
    t.show("key", m.key); t.show("iv", m.iv); t.show("message", msg);
    t.note("%s-%s padding %d\n", m.d->name, kModes[m.mode], (int)padding);
  }
  Buf kb(m.key), ivb(m.iv);
  Stream s;
  EXPECT(t, cipher_stream_init(s, m.d->id, m.mode, 1, kb, m.key.size(), ivb, m.iv.size()) == 1, "%s-%s refused legal key and iv", m.d->name, kModes[m.mode]);
  int r = cipher_stream_set_padding(s, padding);
  EXPECT(t, r == (int)can_nopad, "%s set_padding = %d", kModes[m.mode], r);
  Bytes want, dummy;
  bool possible = mode_encrypt(m, padding, msg, want);
  int ok;
  size_t pieces, pieces2;
  Bytes got = run_stream(t, s, msg, bs, ok, pieces);
  EXPECT(t, ok == (int)possible, "%s-%s encrypt of %zu bytes (padding %d): final = %d", m.d->name, kModes[m.mode], n, (int)padding, ok);
  if (!possible) { t.label("impossible length"); return; }
  expect_eq(t, got, want, "%s-%s encrypt of %zu bytes in %zu pieces (padding %d)", m.d->name, kModes[m.mode], n, pieces, (int)padding);
  // decryption
  Stream u;
  EXPECT(t, cipher_stream_init(u, m.d->id, m.mode, 0, kb, m.key.size(), ivb, m.iv.size()) == 1, "decrypt init");
  if (can_nopad) EXPECT(t, cipher_stream_set_padding(u, padding) == 1, "decrypt set_padding");
  Bytes back = run_stream(t, u, want, bs, ok, pieces2);
  EXPECT(t, ok == 1, "%s-%s decrypt refused its own ciphertext (%zu bytes)", m.d->name, kModes[m.mode], want.size());
  expect_eq(t, back, msg, "%s-%s decrypt of %zu bytes in %zu pieces (padding %d)", m.d->name, kModes[m.mode], want.size(), pieces2, (int)padding);
  if (n) t.nontrivial();
}

// Decrypting arbitrary text.
PBT_PROP(C05, decrypt_any, 200000, 2400000) {
  ModeCase m = gen_mode(t);
  size_t bs = m.d->bs;
  size_t n = t.len_block(bs, bs * 5);
  if (t.chance(2, 3)) n -= n % bs;
  Bytes ct;
  bool padmode = m.mode == CIPHER_MODE_ECB || m.mode == CIPHER_MODE_CBC;
  if (padmode && n >= bs && n % bs == 0 && t.chance(2, 3)) {
    // choose the padded plaintext so the padding itself is the variable
    Bytes pt = t.bytes(n);
    size_t k = t.range(0, bs + 2);
    for (size_t i = 0; i < k && i < bs; i++) pt[n - 1 - i] = (uint8_t)k;
    if (k && k <= bs && t.chance(1, 2)) pt[n - t.range(1, k)] ^= (uint8_t)(1 << t.range(0, 7));
    ct = m.mode == CIPHER_MODE_ECB ? ref::ecb(*m.c, true, pt) : ref::cbc(*m.c, true, m.iv, pt);
  } else ct = t.bytes(n);
  Bytes want;
  bool possible = true;
  switch (m.mode) {
    case CIPHER_MODE_RAW: possible = n % bs == 0; if (possible) want = ref::ecb(*m.c, false, ct); break;
    case CIPHER_MODE_ECB: case CIPHER_MODE_CBC:
      possible = n % bs == 0;
      if (possible) { want = m.mode == CIPHER_MODE_ECB ? ref::ecb(*m.c, false, ct) : ref::cbc(*m.c, false, m.iv, ct); possible = ref::unpkcs7(want, bs); }
      break;
    case CIPHER_MODE_CTS: case CIPHER_MODE_XTS: possible = n >= bs; break;
    case CIPHER_MODE_CTR: want = ref::ctr(*m.c, m.iv, ct); break;
    case CIPHER_MODE_CFB: want = ref::cfb(*m.c, false, m.iv, ct); break;
    case CIPHER_MODE_OFB: want = ref::ofb(*m.c, m.iv, ct); break;
    default: break;
  }
  Buf kb(m.key), ivb(m.iv);
  t.label("%s %s", kModes[m.mode], possible ? "accepted" : "refused");
  if (t.recording()) { t.show("key", m.key); t.show("iv", m.iv); t.show("ciphertext", ct); t.note("%s-%s\n", m.d->name, kModes[m.mode]); }
  Stream u;
  EXPECT(t, cipher_stream_init(u, m.d->id, m.mode, 0, kb, m.key.size(), ivb, m.iv.size()) == 1, "decrypt init");
  int ok;
  size_t pieces;
  Bytes back = run_stream(t, u, ct, bs, ok, pieces);
  EXPECT(t, ok == (int)possible, "%s-%s decrypt of %zu bytes: final = %d, want %d", m.d->name, kModes[m.mode], n, ok, (int)possible);
  if (possible) {
    if (m.mode == CIPHER_MODE_CTS || m.mode == CIPHER_MODE_XTS) {
      // these are bijections on strings of the same length
      Bytes again;
      mode_encrypt(m, true, back, again);
      expect_eq(t, again, ct, "%s-%s decrypt of %zu bytes re-encrypts differently", m.d->name, kModes[m.mode], n);
    } else expect_eq(t, back, want, "%s-%s decrypt of %zu bytes", m.d->name, kModes[m.mode], n);
  }
  // one-shot form agrees
  Buf cb(ct), ob(CIPHER_MAX_DECRYPT_SIZE(n));
  size_t ol = 999;
  int r = cipher_static_decrypt(ob, &ol, m.d->id, m.mode, kb, m.key.size(), ivb, m.iv.size(), cb, n);
  EXPECT(t, r == (int)possible, "%s-%s static decrypt = %d, want %d", m.d->name, kModes[m.mode], r, (int)possible);
  EXPECT(t, ob.intact(), "static decrypt wrote outside the documented bound");
  if (r) expect_eq(t, ob.get(ol), back, "%s-%s static decrypt", m.d->name, kModes[m.mode]);
  else EXPECT(t, ol == 0, "static decrypt length %zu on failure", ol);
  if (n) t.nontrivial();
}

// Low-level mode functions, in place and out of place, block-wise pieces, and
// whole-message helpers (static encrypt, stream_crypt).
PBT_PROP(C05, lowlevel, 200000, 2400000) {
  ModeCase m = gen_mode(t);
  size_t bs = m.d->bs;
  cipher_t *c = (cipher_t *)malloc(sizeof(cipher_t));
  std::unique_ptr<cipher_t, void (*)(void *)> hold(c, free);
  Bytes k1 = m.mode == CIPHER_MODE_XTS ? ref::sub(m.key, 0, m.key.size() / 2) : m.key;
  Bytes k2 = ref::sub(m.key, k1.size(), m.key.size());
  EXPECT(t, cipher_init(c, m.d->id, k1.data(), k1.size()) == 1, "init");
  bool streamy = m.mode >= CIPHER_MODE_CTR;
  size_t n = t.len_block(bs, bs * 6);
  size_t part = 0;
  bool steal = (m.mode == CIPHER_MODE_ECB || m.mode == CIPHER_MODE_CTS || m.mode == CIPHER_MODE_XTS) && n >= bs;
  if (!streamy) { if (steal) part = n % bs; n -= n % bs; }
  Bytes msg = t.bytes(n + part);
  t.label("%s%s", kModes[m.mode], steal ? " steal" : "");
  if (t.recording()) { t.show("key", m.key); t.show("iv", m.iv); t.show("message", msg); t.note("%s-%s\n", m.d->name, kModes[m.mode]); }
  bool inplace = t.flip();
  bool partial_blocks = streamy;
  Bytes want;
  if (m.mode == CIPHER_MODE_ECB) want = steal ? ref::ecb_cts_enc(*m.c, msg) : ref::ecb(*m.c, true, msg);
  else if (m.mode == CIPHER_MODE_CBC) want = ref::cbc(*m.c, true, m.iv, msg);
  else if (m.mode == CIPHER_MODE_CTS && !steal) want = ref::cbc(*m.c, true, m.iv, msg);
  else if (m.mode == CIPHER_MODE_XTS && !steal) want = ref::xts_enc(*m.c, *m.c2, m.iv, msg);
  else mode_encrypt(m, true, msg, want);

  for (int enc = 1; enc >= 0; enc--) {
    Bytes src = enc ? msg : want, dst;
    block_mode_t bm;
    stream_mode_t sm;
    memset(&bm, 0x42, sizeof bm);
    memset(&sm, 0x42, sizeof sm);
    switch (m.mode) {
      case CIPHER_MODE_CBC: case CIPHER_MODE_CTS: cbc_init(&bm, c, m.iv.data()); break;
      case CIPHER_MODE_XTS: xts_init(&bm, c, m.iv.data()); EXPECT(t, xts_setup(&bm, c, k2.data(), k2.size()) == 1, "xts_setup"); break;
      case CIPHER_MODE_CTR: ctr_init(&sm, c, m.iv.data()); break;
      case CIPHER_MODE_CFB: cfb_init(&sm, c, m.iv.data()); break;
      case CIPHER_MODE_OFB: ofb_init(&sm, c, m.iv.data()); break;
      default: break;
    }
    size_t off = 0;
    auto one = [&](size_t k) {
      Buf in(ref::sub(src, off, k)), out(k);
      uint8_t *o = inplace ? in.p : out.p;
      switch (m.mode) {
        case CIPHER_MODE_RAW: case CIPHER_MODE_ECB: if (enc) ecb_encrypt(c, o, in, k); else ecb_decrypt(c, o, in, k); break;
        case CIPHER_MODE_CBC: case CIPHER_MODE_CTS: if (enc) cbc_encrypt(&bm, c, o, in, k); else cbc_decrypt(&bm, c, o, in, k); break;
        case CIPHER_MODE_XTS: if (enc) xts_encrypt(&bm, c, o, in, k); else xts_decrypt(&bm, c, o, in, k); break;
        case CIPHER_MODE_CTR: ctr_crypt(&sm, c, o, in, k); break;
        case CIPHER_MODE_CFB: if (enc) cfb_encrypt(&sm, c, o, in, k); else cfb_decrypt(&sm, c, o, in, k); break;
        case CIPHER_MODE_OFB: ofb_crypt(&sm, c, o, in, k); break;
        default: break;
      }
      EXPECT(t, in.intact() && out.intact(), "%s-%s wrote outside its buffer", m.d->name, kModes[m.mode]);
      dst.insert(dst.end(), o, o + k);
      off += k;
    };
    std::vector<size_t> parts = t.partition(partial_blocks ? n : n / bs, partial_blocks ? bs : 2);
    for (size_t k : parts) one(partial_blocks ? k : k * bs);
    if (steal) {
      Buf last(ref::sub(dst, dst.size() - bs, bs)), blk(ref::sub(src, n, part));
      if (m.mode == CIPHER_MODE_ECB) { if (enc) ecb_steal(c, last, blk, part); else ecb_unsteal(c, last, blk, part); }
      else if (m.mode == CIPHER_MODE_CTS) { if (enc) cbc_steal(&bm, c, last, blk, part); else cbc_unsteal(&bm, c, last, blk, part); }
      else { if (enc) xts_steal(&bm, c, last, blk, part); else xts_unsteal(&bm, c, last, blk, part); }
      EXPECT(t, last.intact() && blk.intact(), "stealing wrote outside its buffers");
      dst.resize(dst.size() - bs);
      dst = ref::cat(dst, last.get(), blk.get());
    }
    expect_eq(t, dst, enc ? want : msg, "%s-%s low-level %s, %zu+%zu bytes%s", m.d->name, kModes[m.mode], enc ? "encrypt" : "decrypt", n, part, inplace ? " in place" : "");
  }
  // one-shot encrypt
  Bytes sw;
  bool possible = mode_encrypt(m, true, msg, sw);
  Buf kb(m.key), ivb(m.iv), mb(msg), ob(CIPHER_MAX_ENCRYPT_SIZE(msg.size()));
  size_t ol = 999;
  int r = cipher_static_encrypt(ob, &ol, m.d->id, m.mode, kb, m.key.size(), ivb, m.iv.size(), mb, msg.size());
  EXPECT(t, r == (int)possible, "%s-%s static encrypt of %zu bytes = %d", m.d->name, kModes[m.mode], msg.size(), r);
  EXPECT(t, ob.intact(), "static encrypt wrote outside the documented bound");
  if (possible) expect_eq(t, ob.get(ol), sw, "%s-%s static encrypt", m.d->name, kModes[m.mode]);
  // whole-block crypt on a stream
  Stream s;
  EXPECT(t, cipher_stream_init(s, m.d->id, m.mode, 1, kb, m.key.size(), ivb, m.iv.size()) == 1, "stream init");
  if (m.mode >= CIPHER_MODE_CTS && m.mode <= CIPHER_MODE_XTS) cipher_stream_set_padding(s, 0);
  Bytes cm = t.bytes(t.len_block(bs, bs * 4)), cw;
  Buf ci(cm), co(cm.size());
  r = cipher_stream_crypt(s, co, ci, cm.size());
  bool legal = streamy || cm.size() % bs == 0;
  EXPECT(t, r == (int)legal, "%s stream_crypt of %zu bytes = %d", kModes[m.mode], cm.size(), r);
  if (legal) {
    mode_encrypt(m, false, cm, cw);
    if (m.mode == CIPHER_MODE_RAW) cw = ref::ecb(*m.c, true, cm);
    expect_eq(t, co.get(), cw, "%s-%s stream_crypt", m.d->name, kModes[m.mode]);
  }
  if (n) t.nontrivial();
}

// One stream driven through update, crypt and set_padding calls in any order:
// whole-block crypt calls continue the stream, are refused while bytes are
// held back, and refused calls change nothing.
PBT_PROP(C05, mixed, 150000, 1500000) {
  ModeCase m = gen_mode(t);
  size_t bs = m.d->bs;
  bool streamy = m.mode >= CIPHER_MODE_CTR, enc = t.flip();
  bool is_pad = m.mode == CIPHER_MODE_ECB || m.mode == CIPHER_MODE_CBC;
  bool is_cts = m.mode == CIPHER_MODE_CTS || m.mode == CIPHER_MODE_XTS;
  bool padding = !((is_pad || is_cts) && t.chance(2, 3));
  size_t n = t.len_block(bs, bs * 10);
  if ((m.mode == CIPHER_MODE_RAW || !padding) && t.chance(9, 10)) n -= n % bs;
  Bytes plain = t.bytes(n), cipher, src, want;
  bool possible = mode_encrypt(m, padding, plain, cipher);
  if (!enc && !possible) t.discard();
  src = enc ? plain : cipher;
  if (!enc) want = plain;
  Buf kb(m.key), ivb(m.iv);
  Stream s;
  EXPECT(t, cipher_stream_init(s, m.d->id, m.mode, enc, kb, m.key.size(), ivb, m.iv.size()) == 1, "init");
  if (is_pad || is_cts) EXPECT(t, cipher_stream_set_padding(s, padding) == 1, "%s set_padding at the start", kModes[m.mode]);
  if (t.recording()) {
    t.show("key", m.key); t.show("iv", m.iv); t.show("input", src);
    t.note("%s-%s %s padding %d\n", m.d->name, kModes[m.mode], enc ? "encrypt" : "decrypt", (int)padding);
  }
  Bytes out;
  size_t fed = 0, crypts = 0;
  bool first_pad = padding;
  for (int ops = 0; fed < src.size(); ops++) {
    size_t left = src.size() - fed, pend = streamy ? 0 : fed % bs;
    bool unpad = padding && (is_cts || (is_pad && !enc));
    switch (ops < 30 ? t.weighted({4, 4, 1}) : 0) {
      case 0: {
        size_t k = ops >= 30 ? left : std::min(left, t.chance(1, 2) ? bs * t.range(0, 3) : t.range(0, 2 * bs));
        size_t cap = cipher_stream_update_size(s, k), got = 777;
        Buf in(ref::sub(src, fed, k)), o(cap);
        cipher_stream_update(s, o, &got, in, k);
        EXPECT(t, got <= cap && o.intact(), "update of %zu bytes after %zu wrote %zu, announced %zu", k, fed, got, cap);
        out.insert(out.end(), o.p, o.p + got);
        fed += k;
        t.note("update %zu\n", k);
        break;
      }
      case 1: {
        size_t k = std::min(left, t.chance(3, 4) ? bs * t.range(0, 3) : t.range(0, 2 * bs));
        bool legal = streamy || (!unpad && pend == 0 && k % bs == 0);
        Buf in(ref::sub(src, fed, k)), o(k);
        int r = cipher_stream_crypt(s, o, in, k);
        t.note("crypt %zu = %d\n", k, r);
        EXPECT(t, r == (int)legal, "%s-%s crypt of %zu bytes with %zu held back (padding %d) = %d", m.d->name, kModes[m.mode], k, pend, (int)padding, r);
        EXPECT(t, o.intact(), "crypt wrote outside its buffer");
        if (r) { out.insert(out.end(), o.p, o.p + k); fed += k; crypts++; }
        break;
      }
      default: {
        if (is_pad && enc) { // only the final call looks at it
          padding = t.flip();
          EXPECT(t, cipher_stream_set_padding(s, padding) == 1, "%s set_padding while encrypting", kModes[m.mode]);
        } else if (!(is_pad || is_cts)) {
          EXPECT(t, cipher_stream_set_padding(s, t.flip()) == 0, "%s set_padding accepted", kModes[m.mode]);
        } else if (pend != 0 || (unpad && fed != 0)) {
          EXPECT(t, cipher_stream_set_padding(s, t.flip()) == 0, "%s set_padding accepted with bytes held back", kModes[m.mode]);
        }
        break;
      }
    }
  }
  if (padding != first_pad) possible = mode_encrypt(m, padding, plain, cipher);
  if (enc && possible) want = cipher;
  size_t cap = cipher_stream_final_size(s), got = 888;
  Buf o(cap);
  int ok = cipher_stream_final(s, o, &got);
  EXPECT(t, o.intact(), "final wrote outside the announced %zu bytes", cap);
  EXPECT(t, ok == (int)possible, "%s-%s final after %zu bytes (padding %d) = %d", m.d->name, kModes[m.mode], fed, (int)padding, ok);
  if (ok) {
    out.insert(out.end(), o.p, o.p + got);
    expect_eq(t, out, want, "%s-%s %s of %zu bytes with %zu crypt calls (padding %d)", m.d->name, kModes[m.mode], enc ? "encrypt" : "decrypt", fed, crypts, (int)padding);
  }
  t.label("%s%s", kModes[m.mode], crypts ? " with crypt" : "");
  if (crypts) t.nontrivial();
}

// Parameter validation.
PBT_PROP(C05, parameters, 50000, 500000) {
  const CipherDef &d = t.pick(kCiphers);
  mode_id_t mode = (mode_id_t)t.range(CIPHER_MODE_RAW, CIPHER_MODE_EAX);
  size_t kl = t.chance(2, 3) ? legal_klen(t, d) : t.range(0, 70);
  Bytes key = t.bytes(kl);
  bool same = false, xodd = false;
  if (mode == CIPHER_MODE_XTS) {
    Bytes k2 = t.rnd(kl);
    if (t.chance(1, 4)) k2 = key;
    key = ref::cat(key, k2);
    if (t.chance(1, 6)) { key.push_back(7); xodd = true; }
    size_t h = key.size() / 2;
    same = !xodd && ref::sub(key, 0, h) == ref::sub(key, h, h);
  }
  size_t il = t.chance(1, 2) ? d.bs : t.range(0, 20);
  if (mode <= CIPHER_MODE_ECB && t.chance(1, 2)) il = 0;
  Bytes iv = t.bytes(il);
  bool kok = kl >= d.kmin && kl <= d.kmax;
  bool want = kok && !same && !xodd;
  switch (mode) {
    case CIPHER_MODE_RAW: case CIPHER_MODE_ECB: want = want && il == 0; break;
    case CIPHER_MODE_GCM: want = want && d.bs == 16; break;
    case CIPHER_MODE_CCM: want = want && d.bs == 16 && il >= 7; break;
    case CIPHER_MODE_EAX: want = want && il > 0; break;
    default: want = want && il == d.bs;
  }
  Buf kb(key), ivb(iv);
  Stream s;
  int r = cipher_stream_init(s, d.id, mode, t.flip(), kb, key.size(), ivb, il);
  if (t.recording()) t.note("%s-%s key %zu iv %zu same-halves %d\n", d.name, kModes[mode], key.size(), il, (int)same);
  EXPECT(t, r == (int)want, "%s-%s key %zu iv %zu: init = %d, want %d", d.name, kModes[mode], key.size(), il, r, (int)want);
  t.label("%s", want ? "accepted" : "refused");
  t.nontrivial();
}

// ------------------------------------------------------------------ C06

static size_t iv_len(T &t, mode_id_t mode) {
  if (mode == CIPHER_MODE_GCM) return t.chance(1, 2) ? 12 : t.len_near({0, 1, 8, 11, 13, 16, 17, 32, 60}, 70);
  if (mode == CIPHER_MODE_CCM) return t.range(7, 16);
  return t.len_near({1, 8, 15, 16, 17, 32}, 40) + 0;
}

static ref::Sealed aead_ref(mode_id_t mode, const ref::BlockCipher &c, const Bytes &iv, size_t taglen, const Bytes &aad, const Bytes &m) {
  if (mode == CIPHER_MODE_GCM) return ref::gcm(c, iv, aad, m);
  if (mode == CIPHER_MODE_CCM) return ref::ccm(c, iv, taglen, aad, m);
  return ref::eax(c, iv, aad, m);
}

static size_t aad_len(T &t, bool ccm, size_t bs) {
  if (ccm && t.chance(1, 60)) return t.pick({(size_t)0xfeff, (size_t)0xff00, (size_t)0xff01, (size_t)0x10000});
  return t.len_block(bs, bs * 4);
}

PBT_PROP(C06, modes, 150000, 2000000) {
  mode_id_t mode = (mode_id_t)t.range(CIPHER_MODE_GCM, CIPHER_MODE_EAX);
  const CipherDef *d = &t.pick(kCiphers);
  if (mode != CIPHER_MODE_EAX && d->bs != 16) {
    static const std::vector<int> wide = {0, 1, 2, 10, 11, 12, 18, 19, 20, 21, 22, 23};
    d = &kCiphers[t.pick(wide)];
  }
  size_t bs = d->bs;
  Bytes key = t.bytes(legal_klen(t, *d));
  size_t il = iv_len(t, mode);
  if (mode == CIPHER_MODE_EAX && il == 0) il = 1;
  Bytes iv = t.bytes(il);
  Bytes aad = t.chance(1, 4) ? Bytes() : t.bytes(aad_len(t, mode == CIPHER_MODE_CCM, bs));
  size_t ml = t.len_block(bs, bs * 6);
  if (mode == CIPHER_MODE_CCM && t.chance(1, 300)) ml = 65536 + t.range(0, 20); // needs a three byte length field
  Bytes msg = t.bytes(ml);
  size_t taglen = mode == CIPHER_MODE_CCM ? 2 * t.range(2, 8) : bs;
  auto rc = ref_for(*d, key);
  t.label("%s", kModes[mode]);
  if (t.recording()) {
    t.show("key", key); t.show("iv", iv); t.show("aad", aad); t.show("message", msg);
    t.note("%s-%s tag %zu\n", d->name, kModes[mode], taglen);
  }
  ref::Sealed want = aead_ref(mode, *rc, iv, taglen, aad, msg);
  Buf kb(key), ivb(iv);
  auto set_aad = [&](Stream &s, const Bytes &a, size_t msglen, size_t tl) {
    if (mode == CIPHER_MODE_CCM) { Buf ab(a); return cipher_stream_set_ccm(s, msglen, tl, ab, a.size()); }
    int r = 1;
    if (a.empty() && t.flip()) return 1;
    feed(t, a, bs, [&](const uint8_t *p, size_t n) { r &= cipher_stream_set_aad(s, p, n); });
    return r;
  };
  Stream e;
  EXPECT(t, cipher_stream_init(e, d->id, mode, 1, kb, key.size(), ivb, il) == 1, "%s-%s init", d->name, kModes[mode]);
  EXPECT(t, set_aad(e, aad, ml, taglen) == 1, "%s setting aad of %zu bytes", kModes[mode], aad.size());
  int ok;
  size_t pieces;
  Bytes ct = run_stream(t, e, msg, bs, ok, pieces);
  EXPECT(t, ok == 1, "%s encrypt final failed", kModes[mode]);
  expect_eq(t, ct, want.ct, "%s-%s ciphertext of %zu bytes, iv %zu, aad %zu, %zu pieces", d->name, kModes[mode], ml, il, aad.size(), pieces);
  Buf tag(CIPHER_MAX_TAG_SIZE, 0);
  size_t tl = 0;
  EXPECT(t, cipher_stream_get_tag(e, tag, &tl) == 1, "get_tag failed");
  EXPECT(t, tl == taglen, "%s tag length %zu, want %zu", kModes[mode], tl, taglen);
  expect_eq(t, tag.get(tl), want.tag, "%s-%s tag, message %zu, iv %zu, aad %zu", d->name, kModes[mode], ml, il, aad.size());

  // Opening: unaltered, then one alteration.
  auto open = [&](const Bytes &iv2, const Bytes &aad2, const Bytes &ct2, const Bytes &tag2, bool settag, int &setres, Bytes &pt) {
    Stream s;
    Buf iv2b(iv2);
    EXPECT(t, cipher_stream_init(s, d->id, mode, 0, kb, key.size(), iv2b, iv2.size()) == 1, "open init");
    EXPECT(t, set_aad(s, aad2, ct2.size(), taglen) == 1, "open aad");
    setres = -1;
    bool before = t.flip();
    Buf tb(tag2);
    if (settag && before) setres = cipher_stream_set_tag(s, tb, tag2.size());
    int res;
    size_t pc;
    // feed manually so that set_tag may come after the data
    Bytes o;
    feed(t, ct2, bs, [&](const uint8_t *p, size_t n) {
      Buf ob(n);
      size_t got = 0;
      cipher_stream_update(s, ob, &got, p, n);
      EXPECT(t, got == n && ob.intact(), "open update produced %zu of %zu", got, n);
      o.insert(o.end(), ob.p, ob.p + n);
    });
    (void)pc;
    if (settag && !before) setres = cipher_stream_set_tag(s, tb, tag2.size());
    Buf fin(cipher_stream_final_size(s));
    size_t fl = 0;
    res = cipher_stream_final(s, fin, &fl);
    pt = o;
    return res;
  };
  Bytes pt;
  int sr;
  // GCM and EAX also verify truncated tags of the legal lengths
  Bytes good = want.tag;
  if (mode == CIPHER_MODE_GCM && t.chance(1, 3)) good = ref::sub(good, 0, t.pick({4u, 8u, 12u, 13u, 14u, 15u}));
  if (mode == CIPHER_MODE_EAX && t.chance(1, 3)) good = ref::sub(good, 0, t.range(1, bs));
  EXPECT(t, open(iv, aad, want.ct, good, true, sr, pt) == 1, "%s-%s refused a genuine message (tag %zu)", d->name, kModes[mode], good.size());
  EXPECT(t, sr == 1, "set_tag refused a %zu byte tag", good.size());
  expect_eq(t, pt, msg, "%s-%s opened message", d->name, kModes[mode]);

  Bytes iv2 = iv, aad2 = aad, ct2 = want.ct, tag2 = want.tag;
  size_t what = t.weighted({3, 3, 2, 2, 1, 1, 1});
  bool settag = true;
  int want_set = 1;
  switch (what) {
    case 0: t.flip_bit(tag2); break;
    case 1: if (ct2.empty()) ct2.push_back(0); else t.flip_bit(ct2); break;
    case 2: if (aad2.empty()) aad2.push_back(0); else t.flip_bit(aad2); break;
    case 3:
      if (mode == CIPHER_MODE_CCM) { size_t L = 2; while (L < 8 && (ml >> (8 * L))) L++; size_t used = iv2.size() < 15 - L ? iv2.size() : 15 - L; iv2[t.range(0, used - 1)] ^= (uint8_t)(1 << t.range(0, 7)); }
      else if (iv2.empty()) iv2.push_back(0);
      else t.flip_bit(iv2);
      break;
    case 4: settag = false; break;
    case 5: { // tag of a disallowed length
      size_t bad;
      if (mode == CIPHER_MODE_GCM) bad = t.pick({0u, 1u, 3u, 5u, 7u, 9u, 11u, 17u, 20u});
      else if (mode == CIPHER_MODE_CCM) bad = t.pick({taglen - 1, taglen + 1, taglen - 2, taglen + 2, (size_t)0});
      else bad = t.pick({(size_t)0, bs + 1, bs + 4});
      tag2.resize(bad, 0);
      want_set = 0;
      break;
    }
    case 6: // drop or append a ciphertext byte
      if (ct2.empty() || t.flip()) ct2.push_back((uint8_t)t.bits(8)); else ct2.pop_back();
      break;
  }
  if (mode == CIPHER_MODE_CCM && ct2.size() != ml && taglen < 8) return; // short tag: a forgery may verify by chance
  t.label("alter %zu", what);
  int r = open(iv2, aad2, ct2, tag2, settag, sr, pt);
  if (settag) EXPECT(t, sr == want_set, "%s set_tag of %zu bytes = %d", kModes[mode], tag2.size(), sr);
  if (r) {
    // A 32-bit CCM tag can verify by chance; the definition decides.
    ref::Sealed x = aead_ref(mode, *rc, iv2, taglen, aad2, pt);
    bool genuine = settag && want_set && x.ct == ct2 && x.tag == tag2;
    EXPECT(t, genuine, "%s-%s accepted an altered message (alteration %zu)", d->name, kModes[mode], what);
  }
  if (ml || !aad.empty()) t.nontrivial();
}

// Direct GCM/CCM/EAX interfaces and counter wrap at the block level.
PBT_PROP(C06, direct, 40000, 600000) {
  mode_id_t mode = (mode_id_t)t.range(CIPHER_MODE_GCM, CIPHER_MODE_EAX);
  static const std::vector<int> wide = {0, 1, 2, 10, 20, 23};
  const CipherDef &d = kCiphers[mode == CIPHER_MODE_EAX ? t.range(0, kCiphers.size() - 1) : t.pick(wide)];
  Bytes key = t.bytes(legal_klen(t, d));
  size_t il = iv_len(t, mode);
  if (mode == CIPHER_MODE_EAX && il == 0) il = 1;
  Bytes iv = t.bytes(il), aad = t.bytes(t.len_block(d.bs, 60)), msg = t.bytes(t.len_block(d.bs, 120));
  size_t taglen = mode == CIPHER_MODE_CCM ? 2 * t.range(2, 8) : d.bs;
  auto rc = ref_for(d, key);
  ref::Sealed want = aead_ref(mode, *rc, iv, taglen, aad, msg);
  cipher_t *c = (cipher_t *)malloc(sizeof(cipher_t));
  std::unique_ptr<cipher_t, void (*)(void *)> hold(c, free);
  EXPECT(t, cipher_init(c, d.id, key.data(), key.size()) == 1, "init");
  bool inplace = t.flip();
  t.label("%s", kModes[mode]);
  if (t.recording()) { t.show("key", key); t.show("iv", iv); t.show("aad", aad); t.show("message", msg); t.note("%s-%s\n", d.name, kModes[mode]); }
  for (int enc = 1; enc >= 0; enc--) {
    union { gcm_t g; ccm_t c; eax_t e; } u;
    memset(&u, 0xee, sizeof u);
    Buf ivb(iv), mac(d.bs);
    int r;
    if (mode == CIPHER_MODE_GCM) { r = gcm_init(&u.g, c, ivb, il); feed(t, aad, 16, [&](const uint8_t *p, size_t n) { gcm_aad(&u.g, p, n); }); }
    else if (mode == CIPHER_MODE_CCM) { r = ccm_init(&u.c, c, ivb, il); Buf ab(aad); r &= ccm_setup(&u.c, c, msg.size(), taglen, ab, aad.size()); }
    else { r = eax_init(&u.e, c, ivb, il); feed(t, aad, d.bs, [&](const uint8_t *p, size_t n) { eax_aad(&u.e, c, p, n); }); }
    EXPECT(t, r == 1, "%s init", kModes[mode]);
    Bytes out;
    feed(t, enc ? msg : want.ct, d.bs, [&](const uint8_t *p, size_t n) {
      Buf in(Bytes(p, p + n)), o2(n);
      uint8_t *o = inplace ? in.p : o2.p;
      if (mode == CIPHER_MODE_GCM) { if (enc) gcm_encrypt(&u.g, c, o, in, n); else gcm_decrypt(&u.g, c, o, in, n); }
      else if (mode == CIPHER_MODE_CCM) { if (enc) ccm_encrypt(&u.c, c, o, in, n); else ccm_decrypt(&u.c, c, o, in, n); }
      else { if (enc) eax_encrypt(&u.e, c, o, in, n); else eax_decrypt(&u.e, c, o, in, n); }
      out.insert(out.end(), o, o + n);
    });
    if (mode == CIPHER_MODE_GCM) gcm_digest(&u.g, mac);
    else if (mode == CIPHER_MODE_CCM) ccm_digest(&u.c, c, mac);
    else eax_digest(&u.e, c, mac);
    expect_eq(t, out, enc ? want.ct : msg, "%s-%s direct %s", d.name, kModes[mode], enc ? "encrypt" : "decrypt");
    expect_eq(t, mac.get(taglen), want.tag, "%s-%s direct tag (%s)", d.name, kModes[mode], enc ? "encrypt" : "decrypt");
    EXPECT(t, mac.intact(), "tag written outside its buffer");
  }
  t.nontrivial();
}

// Nonces computed so that the block counter wraps inside the message.
PBT_PROP(C06, counter, 12000, 200000) {
  bool gcm = t.flip();
  static const std::vector<int> wide = {0, 1, 2, 10, 11, 12, 18, 20, 23};
  const CipherDef &d = kCiphers[gcm ? t.pick(wide) : (int)t.range(0, kCiphers.size() - 1)];
  size_t bs = d.bs;
  Bytes key = t.rnd(legal_klen(t, d)), ctr = t.rnd(bs);
  size_t ones = gcm ? 4 : t.range(1, bs);
  if (gcm && t.chance(1, 3)) ones = t.range(4, 16);
  for (size_t i = 0; i < ones; i++) ctr[bs - 1 - i] = 0xff;
  ctr[bs - 1] = (uint8_t)(0xff - t.range(0, 5));
  auto rc = ref_for(d, key);
  Bytes iv = gcm ? ref::gcm_iv_for(*rc, ctr) : ref::eax_iv_for(*rc, ctr);
  mode_id_t mode = gcm ? CIPHER_MODE_GCM : CIPHER_MODE_EAX;
  Bytes aad = t.bytes(t.len(20)), msg = t.bytes(bs * t.range(3, 8) + t.range(0, bs - 1));
  ref::Sealed want = aead_ref(mode, *rc, iv, bs, aad, msg);
  t.label("%s", kModes[mode]);
  if (t.recording()) { t.show("key", key); t.show("iv", iv); t.show("counter", ctr); t.show("aad", aad); t.show("message", msg); t.note("%s-%s\n", d.name, kModes[mode]); }
  for (int enc = 1; enc >= 0; enc--) {
    Stream s;
    Buf kb(key), ivb(iv), ab(aad);
    EXPECT(t, cipher_stream_init(s, d.id, mode, enc, kb, key.size(), ivb, bs) == 1, "init");
    EXPECT(t, cipher_stream_set_aad(s, ab, aad.size()) == 1, "aad");
    Buf tb(want.tag);
    if (!enc) EXPECT(t, cipher_stream_set_tag(s, tb, bs) == 1, "set_tag");
    int ok;
    size_t pieces;
    Bytes out = run_stream(t, s, enc ? msg : want.ct, bs, ok, pieces);
    EXPECT(t, ok == 1, "%s final of a genuine message", kModes[mode]);
    expect_eq(t, out, enc ? want.ct : msg, "%s-%s over a counter wrap", d.name, kModes[mode]);
    if (enc) {
      Buf tag(CIPHER_MAX_TAG_SIZE, 0);
      size_t tl = 0;
      EXPECT(t, cipher_stream_get_tag(s, tag, &tl) == 1 && tl == bs, "get_tag");
      expect_eq(t, tag.get(bs), want.tag, "%s-%s tag over a counter wrap", d.name, kModes[mode]);
    }
  }
  t.nontrivial();
}

// CCM parameter rules and misuse of the stream calls.
PBT_PROP(C06, misuse, 40000, 500000) {
  mode_id_t mode = (mode_id_t)t.range(CIPHER_MODE_RAW, CIPHER_MODE_EAX);
  const CipherDef &d = kCiphers[t.pick({0, 2, 10})];
  int enc = t.flip();
  Bytes key = t.rnd(mode == CIPHER_MODE_XTS ? d.kdef * 2 : d.kdef), iv = t.bytes(mode <= CIPHER_MODE_ECB ? 0 : mode >= CIPHER_MODE_GCM ? 12 : 16);
  Stream s;
  EXPECT(t, cipher_stream_init(s, d.id, mode, enc, key.data(), key.size(), iv.data(), iv.size()) == 1, "init");
  Bytes aad = t.bytes(t.len(20));
  size_t tl = t.range(0, 18);
  Buf ab(aad), tag(CIPHER_MAX_TAG_SIZE);
  size_t glen = 5;
  t.label("%s", kModes[mode]);
  EXPECT(t, cipher_stream_get_tag(s, tag, &glen) == 0, "%s get_tag before final succeeded", kModes[mode]);
  int r = cipher_stream_set_ccm(s, t.range(0, 100), tl, ab, aad.size());
  bool tok = tl >= 4 && tl <= 16 && tl % 2 == 0;
  EXPECT(t, r == (int)(mode == CIPHER_MODE_CCM && tok), "%s set_ccm tag length %zu = %d", kModes[mode], tl, r);
  if (mode == CIPHER_MODE_CCM && !tok) {
    // without a successful setup, nothing may be sealed or opened
    Buf fin(cipher_stream_final_size(s));
    size_t fl;
    EXPECT(t, cipher_stream_final(s, fin, &fl) == 0, "CCM final succeeded without setup");
    t.nontrivial();
    return;
  }
  r = cipher_stream_set_aad(s, ab, aad.size());
  EXPECT(t, r == (int)(mode == CIPHER_MODE_GCM || mode == CIPHER_MODE_EAX), "%s set_aad = %d", kModes[mode], r);
  size_t sl = t.range(0, 20);
  Bytes st = t.bytes(sl);
  Buf stb(st);
  bool lok = mode == CIPHER_MODE_GCM ? (sl == 4 || sl == 8 || (sl >= 12 && sl <= 16))
           : mode == CIPHER_MODE_CCM ? sl == tl
           : mode == CIPHER_MODE_EAX ? (sl >= 1 && sl <= 16) : false;
  r = cipher_stream_set_tag(s, stb, sl);
  EXPECT(t, r == (int)(lok && !enc), "%s set_tag of %zu bytes (encrypt %d) = %d", kModes[mode], sl, enc, r);
  if (!enc && mode >= CIPHER_MODE_GCM && !r) {
    Buf fin(cipher_stream_final_size(s));
    size_t fl;
    EXPECT(t, cipher_stream_final(s, fin, &fl) == 0, "%s opened without a tag", kModes[mode]);
  }
  t.nontrivial();
}

static ref::Sealed chachapoly_ref(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &m) {
  Bytes ks = ref::chacha20(key, iv, 0, 64 + m.size());
  Bytes ct = ref::xorb(m, ref::sub(ks, 64, m.size()));
  auto p16 = [](const Bytes &b) { Bytes r(b); r.resize((b.size() + 15) / 16 * 16, 0); return r; };
  Bytes mac = ref::poly1305(ref::sub(ks, 0, 32), ref::cat(ref::cat(p16(aad), p16(ct)), ref::le(aad.size(), 8), ref::le(ct.size(), 8)));
  return {ct, mac};
}

PBT_PROP(C06, chachapoly, 80000, 1200000) {
  Bytes key = t.bytes(32), iv = t.bytes(t.pick({12u, 8u, 16u, 24u, 28u, 32u}));
  if (iv.size() == 16 || iv.size() == 32) { for (int i = 0; i < 8; i++) iv[iv.size() - 16 + i] = 0; } // counter words
  Bytes aad = t.chance(1, 4) ? Bytes() : t.bytes(t.len_block(16, 80)), msg = t.bytes(t.len_block(64, 300));
  ref::Sealed want = chachapoly_ref(key, iv, aad, msg);
  if (t.recording()) { t.show("key", key); t.show("iv", iv); t.show("aad", aad); t.show("message", msg); }
  t.label("iv %zu", iv.size());
  auto run = [&](int how, const Bytes &iv2, const Bytes &aad2, const Bytes &data, Bytes &out) {
    chachapoly_t a;
    memset(&a, 0x21, sizeof a);
    Buf kb(key), ivb(iv2), tag(16);
    chachapoly_init(&a, kb, ivb, iv2.size());
    if (!aad2.empty() || t.flip()) feed(t, aad2, 16, [&](const uint8_t *p, size_t n) { chachapoly_aad(&a, p, n); });
    out.clear();
    bool inplace = t.flip();
    feed(t, data, 64, [&](const uint8_t *p, size_t n) {
      Buf in(Bytes(p, p + n)), o2(n);
      uint8_t *o = inplace ? in.p : o2.p;
      if (how == 0) chachapoly_encrypt(&a, o, in, n);
      else if (how == 1) chachapoly_decrypt(&a, o, in, n);
      else chachapoly_auth(&a, in, n);
      if (how != 2) out.insert(out.end(), o, o + n);
    });
    chachapoly_final(&a, tag);
    EXPECT(t, tag.intact(), "tag outside its buffer");
    return tag.get();
  };
  Bytes out, tag = run(0, iv, aad, msg, out);
  expect_eq(t, out, want.ct, "chachapoly ciphertext, iv %zu, %zu bytes", iv.size(), msg.size());
  expect_eq(t, tag, want.tag, "chachapoly tag, iv %zu, aad %zu, message %zu", iv.size(), aad.size(), msg.size());
  tag = run(1, iv, aad, want.ct, out);
  expect_eq(t, out, msg, "chachapoly decrypted message");
  expect_eq(t, tag, want.tag, "chachapoly tag on decrypt");
  tag = run(2, iv, aad, want.ct, out);
  expect_eq(t, tag, want.tag, "chachapoly tag from auth only");
  Bytes iv2 = iv, aad2 = aad, ct2 = want.ct;
  switch (t.range(0, 2)) {
    case 0: if (ct2.empty()) ct2.push_back(0); else t.flip_bit(ct2); break;
    case 1: if (aad2.empty()) aad2.push_back(0); else t.flip_bit(aad2); break;
    case 2: t.flip_bit(iv2); break;
  }
  tag = run(1, iv2, aad2, ct2, out);
  EXPECT(t, tag != want.tag, "chachapoly tag unchanged by an alteration");
  if (!msg.empty() || !aad.empty()) t.nontrivial();
}

// Lengths that need more than 32 bits, counted in bits or in bytes.
template <class F> static void repeat(const Bytes &chunk, uint64_t n, F f) {
  while (n) {
    size_t k = n < chunk.size() ? (size_t)n : chunk.size();
    f(chunk.data(), k);
    n -= k;
  }
}
static void long_gcm(T &t, bool in_aad) {
  Bytes key = t.bytes(16), iv = t.bytes(12), small = t.rnd(4096), chunk;
  while (chunk.size() < 1 << 16) chunk.insert(chunk.end(), small.begin(), small.end());
  uint64_t big = (1ull << 29) + t.range(0, 40), aad = in_aad ? big : t.range(0, 40), len = in_aad ? t.range(0, 40) : big;
  t.note("GCM over %llu bytes of associated data and %llu bytes of message\n", (unsigned long long)aad, (unsigned long long)len);
  cipher_t c;
  gcm_t g;
  Buf kb(key), ib(iv), tag(16);
  Bytes out(chunk.size());
  EXPECT(t, cipher_init(&c, CIPHER_AES128, kb, 16) && gcm_init(&g, &c, ib, 12), "gcm_init failed");
  repeat(chunk, aad, [&](const uint8_t *p, size_t k) { gcm_aad(&g, p, k); });
  repeat(chunk, len, [&](const uint8_t *p, size_t k) { gcm_encrypt(&g, &c, out.data(), p, k); });
  gcm_digest(&g, tag);
  t.nontrivial();
  expect_eq(t, tag.get(), ref::long_gcm_tag(key, iv, chunk, aad, len), "GCM tag over %llu and %llu bytes", (unsigned long long)aad, (unsigned long long)len);
}
static void long_poly(T &t, bool in_aad) {
  Bytes key = t.bytes(32), iv = t.bytes(12), small = t.rnd(4096), chunk;
  while (chunk.size() < 1 << 16) chunk.insert(chunk.end(), small.begin(), small.end());
  uint64_t big = (1ull << 32) + t.range(0, 40), aad = in_aad ? big : t.range(0, 40), len = in_aad ? t.range(0, 40) : big;
  t.note("ChaCha20-Poly1305 over %llu bytes of associated data and %llu bytes of ciphertext\n", (unsigned long long)aad, (unsigned long long)len);
  chachapoly_t c;
  Buf kb(key), ib(iv), tag(16);
  chachapoly_init(&c, kb, ib, 12);
  repeat(chunk, aad, [&](const uint8_t *p, size_t k) { chachapoly_aad(&c, p, k); });
  repeat(chunk, len, [&](const uint8_t *p, size_t k) { chachapoly_auth(&c, p, k); });
  chachapoly_final(&c, tag);
  t.nontrivial();
  expect_eq(t, tag.get(), ref::long_poly_tag(ref::chacha20(key, iv, 0, 32), chunk, aad, len), "ChaCha20-Poly1305 tag over %llu and %llu bytes", (unsigned long long)aad, (unsigned long long)len);
}
PBT_PROP(C06, long_gcm_aad, 1, 2, 0, 0) { long_gcm(t, true); }
PBT_PROP(C06, long_gcm_message, 1, 2, 0, 0) { long_gcm(t, false); }
PBT_PROP(C06, long_poly_aad, 1, 2, 0, 0) { long_poly(t, true); }
PBT_PROP(C06, long_poly_message, 1, 2, 0, 0) { long_poly(t, false); }

// CCM messages around the lengths at which the length field grows and the
// nonce is cut short.
PBT_PROP(C06, ccm_lengths, 12, 60, 0.25, 0) {
  Bytes key = t.bytes(16), iv = t.bytes(t.range(7, 14)), aad = t.bytes(t.range(0, 20)), small = t.rnd(1000), msg;
  size_t n = (t.flip() ? (size_t)1 << 16 : (size_t)1 << 24) + t.range(0, 34) - 17, taglen = 2 * t.range(2, 8);
  while (msg.size() < n) msg.insert(msg.end(), small.begin(), small.end());
  msg.resize(n);
  t.note("CCM over %zu bytes, nonce of %zu, tag of %zu\n", n, iv.size(), taglen);
  auto rc = ref_for(kCiphers[0], key);
  ref::Sealed want = ref::ccm(*rc, iv, taglen, aad, msg);
  cipher_t c;
  Buf kb(key), ib(iv), ab(aad);
  EXPECT(t, cipher_init(&c, kCiphers[0].id, kb, key.size()) == 1, "init");
  size_t cut = t.range(0, n);
  for (int enc = 1; enc >= 0; enc--) {
    ccm_t m;
    Bytes out = enc ? msg : want.ct;
    Buf mac(16);
    EXPECT(t, ccm_init(&m, &c, ib, iv.size()) == 1 && ccm_setup(&m, &c, n, taglen, ab, aad.size()) == 1, "CCM refused %zu bytes with a nonce of %zu", n, iv.size());
    auto f = enc ? ccm_encrypt : ccm_decrypt;
    f(&m, &c, out.data(), out.data(), cut);
    f(&m, &c, out.data() + cut, out.data() + cut, n - cut);
    ccm_digest(&m, &c, mac);
    EXPECT(t, out == (enc ? want.ct : msg), "CCM %s of %zu bytes, nonce of %zu", enc ? "encryption" : "decryption", n, iv.size());
    expect_eq(t, mac.get(taglen), want.tag, "CCM tag over %zu bytes, nonce of %zu", n, iv.size());
  }
  t.nontrivial();
}

PBT_PROP(C06, secretbox, 60000, 900000) {
  Bytes key = t.bytes(32), nonce = t.bytes(24), msg = t.bytes(t.len_block(64, 260));
  // NaCl: first 32 bytes of XSalsa20 key the MAC
  Bytes ks = ref::salsa20(key, nonce, 0, 32 + msg.size());
  Bytes ct = ref::xorb(msg, ref::sub(ks, 32, msg.size()));
  Bytes want = ref::cat(ref::poly1305(ref::sub(ks, 0, 32), ct), ct);
  if (t.recording()) { t.show("key", key); t.show("nonce", nonce); t.show("message", msg); }
  Buf kb(key), nb(nonce), mb(msg), sealed(msg.size() + 16), opened(msg.size());
  secretbox_seal(sealed, mb, msg.size(), kb, nb);
  expect_eq(t, sealed.get(), want, "secretbox_seal of %zu bytes", msg.size());
  EXPECT(t, sealed.intact(), "secretbox_seal wrote outside its buffer");
  EXPECT(t, secretbox_open(opened, sealed, want.size(), kb, nb) == 1, "secretbox_open refused a genuine box of %zu bytes", want.size());
  expect_eq(t, opened.get(), msg, "secretbox_open");
  EXPECT(t, opened.intact(), "secretbox_open wrote outside its buffer");
  Bytes k2 = key, n2 = nonce, s2 = want;
  switch (t.range(0, 4)) {
    case 0: t.flip_bit(s2); break;
    case 1: t.flip_bit(n2); break;
    case 2: t.flip_bit(k2); break;
    case 3: s2.resize(t.range(0, s2.size() - 1)); break;
    case 4: s2.push_back((uint8_t)t.bits(8)); break;
  }
  Buf k2b(k2), n2b(n2), s2b(s2), o2(s2.size() < 16 ? 0 : s2.size() - 16);
  EXPECT(t, secretbox_open(o2, s2b, s2.size(), k2b, n2b) == 0, "secretbox_open accepted an altered box");
  EXPECT(t, o2.intact(), "secretbox_open wrote outside its buffer");
  Bytes sec = t.bytes(32);
  Buf sb(sec), dk(32);
  secretbox_derive(dk, sb);
  expect_eq(t, dk.get(), ref::hsalsa20(sec, Bytes(16, 0)), "secretbox_derive");
  if (!msg.empty()) t.nontrivial();
}

// ------------------------------------------------------------------ C07

// Counters close to where a 32-bit word (or all 64 bits) overflows.
static uint64_t gen_counter(T &t, uint64_t max) {
  switch (t.weighted({2, 2, 2, 1, 1})) {
    case 0: return t.range(0, 4) & max;
    case 1: return (0xffffffffull - t.range(0, 6)) & max;
    case 2: return t.bits(64) & max;
    case 3: return (0xffffffffffffffffull - t.range(0, 6)) & max;
    default: return t.bits(32) & max;
  }
}

PBT_PROP(C07, chacha_salsa, 1500000, 12000000) {
  bool salsa = t.flip();
  Bytes key = t.bytes(t.chance(1, 3) ? 16 : 32);
  Bytes nonce = t.bytes(t.pick({8u, 12u, 16u, 24u, 28u, 32u}));
  size_t tail = nonce.size() >= 24 ? nonce.size() - 16 : nonce.size();
  uint64_t counter = gen_counter(t, ~0ull);
  size_t n = t.len_block(64, 700);
  if (tail == 12 && !salsa) {
    // the counter is one word; stay inside its range
    counter &= 0xffffffff;
    if (counter + n / 64 + 1 > 0xffffffff) counter = 0xffffffff - n / 64 - 1;
  }
  if (tail == 16) {
    // the nonce carries the counter: put it near a carry sometimes
    uint64_t c = gen_counter(t, ~0ull);
    size_t at = nonce.size() - 16 + (salsa ? 8 : 0);
    for (int i = 0; i < 8; i++) nonce[at + i] = (uint8_t)(c >> (8 * i));
  }
  Bytes msg = t.bytes(n);
  t.label("%s nonce %zu", salsa ? "salsa20" : "chacha20", nonce.size());
  if (t.recording()) { t.show("key", key); t.show("nonce", nonce); t.note("counter %#llx length %zu\n", (unsigned long long)counter, n); }
  Bytes want = ref::xorb(msg, salsa ? ref::salsa20(key, nonce, counter, n) : ref::chacha20(key, nonce, counter, n));
  for (int pass = 0; pass < 2; pass++) {
    Bytes src = pass ? want : msg, out;
    chacha20_t cc;
    salsa20_t sc;
    memset(&cc, 0x3c, sizeof cc);
    memset(&sc, 0x3c, sizeof sc);
    Buf kb(key), nb(nonce);
    if (salsa) salsa20_init(&sc, kb, key.size(), nb, nonce.size(), counter);
    else chacha20_init(&cc, kb, key.size(), nb, nonce.size(), counter);
    bool inplace = t.flip();
    size_t pieces = 0;
    feed(t, src, 64, [&](const uint8_t *p, size_t k) {
      Buf in(Bytes(p, p + k)), o2(k);
      uint8_t *o = inplace ? in.p : o2.p;
      if (salsa) salsa20_crypt(&sc, o, in, k); else chacha20_crypt(&cc, o, in, k);
      EXPECT(t, in.intact() && o2.intact(), "wrote outside the output");
      out.insert(out.end(), o, o + k);
      pieces++;
    });
    expect_eq(t, out, pass ? msg : want, "%s key %zu nonce %zu counter %#llx, %zu bytes in %zu pieces%s", salsa ? "salsa20" : "chacha20",
              key.size(), nonce.size(), (unsigned long long)counter, n, pieces, inplace ? " in place" : "");
  }
  if (n > 1) t.nontrivial();
}

PBT_PROP(C07, derive, 300000, 800000) {
  bool salsa = t.flip();
  Bytes key = t.bytes(t.chance(1, 3) ? 16 : 32), in = t.bytes(16);
  Buf kb(key), ib(in), out(32);
  if (salsa) salsa20_derive(out, kb, key.size(), ib); else chacha20_derive(out, kb, key.size(), ib);
  if (t.recording()) { t.show("key", key); t.show("nonce16", in); }
  expect_eq(t, out.get(), salsa ? ref::hsalsa20(key, in) : ref::hchacha20(key, in), "%s derive, key %zu", salsa ? "salsa20" : "chacha20", key.size());
  EXPECT(t, out.intact(), "derive wrote outside its output");
  t.nontrivial();
}

PBT_PROP(C07, arc4, 300000, 800000) {
  Bytes key = t.bytes(t.len_near({1, 5, 16, 255, 256}, 255) % 256 + 1);
  size_t n = t.len_block(256, 1000);
  Bytes msg = t.bytes(n), out;
  arc4_t c;
  memset(&c, 0x18, sizeof c);
  Buf kb(key);
  arc4_init(&c, kb, key.size());
  bool inplace = t.flip();
  feed(t, msg, 256, [&](const uint8_t *p, size_t k) {
    Buf in(Bytes(p, p + k)), o2(k);
    uint8_t *o = inplace ? in.p : o2.p;
    arc4_crypt(&c, o, in, k);
    out.insert(out.end(), o, o + k);
  });
  if (t.recording()) { t.show("key", key); t.show("message", msg); }
  expect_eq(t, out, ref::xorb(msg, ref::rc4(key, n)), "rc4 key %zu, %zu bytes", key.size(), n);
  if (n > 1) t.nontrivial();
}
