// C08 deterministic random bit generators, C09 key derivation, C10 bcrypt.
#include "common.h"
#include "ref_kdf.h"
#include <torsion/drbg.h>
#include <torsion/kdf.h>
#include <optional>

PBT_RULE(C08, "history generates at least one byte after at least two state changes; distinct by decoded input");
PBT_RULE(C09, "output length non-zero, or the request must be refused; distinct by decoded input");
PBT_RULE(C10, "a hash was computed or a malformed record judged; distinct by decoded input");

// ------------------------------------------------------------------ C08

PBT_PROP(C08, hmac_hash, 30000, 400000) {
  bool hm = t.flip();
  const HashName &h = pick_hash(t);
  size_t hs = hash_output_size(h.id);
  Bytes seed = t.bytes(t.len_near({hs, 55, 111, 0, 64}, 300));
  t.label("%s %s", hm ? "hmac" : "hash", h.name);
  if (t.recording()) { t.note("%s-drbg %s\n", hm ? "hmac" : "hash", h.name); t.show("seed", seed); }
  hmac_drbg_t *m = (hmac_drbg_t *)malloc(sizeof *m);
  hash_drbg_t *g = (hash_drbg_t *)malloc(sizeof *g);
  std::unique_ptr<void, void (*)(void *)> h1(m, free), h2(g, free);
  memset((void *)m, 0x5e, sizeof *m);
  memset((void *)g, 0x5e, sizeof *g);
  std::optional<ref::HmacDrbg> rm;
  std::optional<ref::HashDrbg> rg;
  {
    Buf sb(seed);
    if (hm) { hmac_drbg_init(m, h.id, sb, seed.size()); rm.emplace(h.name, seed); }
    else { hash_drbg_init(g, h.id, sb, seed.size()); rg.emplace(h.name, seed); }
  }
  size_t steps = t.range(1, 6), changes = 1;
  bool out_seen = false;
  for (size_t i = 0; i < steps; i++) {
    if (t.chance(1, 4)) {
      Bytes s = t.bytes(t.len_near({hs, 55, 111, 0}, 200));
      Buf sb(s);
      if (t.recording()) { t.note("reseed\n"); t.show("entropy", s); }
      if (hm) { hmac_drbg_reseed(m, sb, s.size()); rm->reseed(s); }
      else { hash_drbg_reseed(g, sb, s.size()); rg->reseed(s); }
      changes++;
      continue;
    }
    size_t n = t.chance(1, 100) ? t.range(0, 70000) : t.len_block(hs, hs * 5);
    Bytes add = t.chance(1, 2) ? Bytes() : t.bytes(t.len_near({hs, 1, 55}, 150));
    Buf out(n), ab(add);
    if (t.recording()) { t.note("generate %zu\n", n); t.show("additional", add); }
    bool viarng = add.empty() && t.flip();
    if (hm) { if (viarng) hmac_drbg_rng(out, n, m); else hmac_drbg_generate(m, out, n, ab, add.size()); }
    else { if (viarng) hash_drbg_rng(out, n, g); else hash_drbg_generate(g, out, n, ab, add.size()); }
    EXPECT(t, out.intact(), "wrote outside the output");
    expect_eq(t, out.get(), hm ? rm->generate(n, add) : rg->generate(n, add), "%s-drbg %s step %zu, %zu bytes, additional %zu",
              hm ? "hmac" : "hash", h.name, i, n, add.size());
    if (n) out_seen = true;
    changes++;
  }
  if (out_seen && changes > 1) t.nontrivial();
}

// Many generate calls: counters and long carry chains in the addition of V.
PBT_PROP(C08, long_history, 150, 2500) {
  const HashName &h = pick_hash(t);
  Bytes seed = t.bytes(t.len(60));
  hash_drbg_t g;
  memset((void *)&g, 0x5e, sizeof g);
  hash_drbg_init(&g, h.id, seed.data(), seed.size());
  ref::HashDrbg r(h.name, seed);
  size_t n = t.chance(1, 40) ? t.range(65500, 66000) : t.range(200, 700);
  if (t.recording()) { t.note("%s, %zu calls\n", h.name, n); t.show("seed", seed); }
  for (size_t i = 0; i < n; i++) {
    Buf out(8);
    hash_drbg_generate(&g, out, 8, NULL, 0);
    expect_eq(t, out.get(), r.generate(8, {}), "hash-drbg %s call %zu", h.name, i);
  }
  t.nontrivial();
}

PBT_PROP(C08, ctr, 60000, 800000) {
  unsigned bits = t.pick({128u, 192u, 256u});
  bool df = t.flip();
  size_t ent = bits / 8 + 16;
  // inputs longer than the limit (512 bytes, or without a derivation function
  // the seed length) count up to the limit
  size_t cap = df ? 512 : ent;
  auto input = [&](size_t mark) { return t.bytes(df ? t.len_near({mark, 0, 16, 511, 512, 513, 600}, 700) : t.len_near({ent, mark, ent + 1}, t.chance(1, 4) ? 3 * ent : ent)); };
  auto cut = [&](Bytes b) { if (b.size() > cap) b.resize(cap); return b; };
  Bytes e = input(ent), p = t.flip() ? input(0) : Bytes();
  if (!df && t.chance(1, 3)) {  // entropy that leaves the counter block next to a carry
    ref::CtrDrbg zero(bits, false, {}, cut(p));
    e = ref::cat(zero.K, zero.V);
    Bytes v(16, 0xff);
    for (size_t i = 0, n = t.range(0, 15); i < n; i++) v[i] = t.byte();
    v[15] = (uint8_t)t.range(0xf0, 0xff);
    for (size_t i = 0; i < 16; i++) e[bits / 8 + i] ^= v[i];
    Bytes key = t.rnd(bits / 8);
    for (size_t i = 0; i < key.size(); i++) e[i] ^= key[i];
  }
  t.label("aes-%u%s", bits, df ? " df" : "");
  if (t.recording()) { t.note("ctr-drbg aes-%u df %d\n", bits, (int)df); t.show("entropy", e); t.show("personalisation", p); }
  ctr_drbg_t *c = (ctr_drbg_t *)malloc(sizeof *c);
  std::unique_ptr<void, void (*)(void *)> hold(c, free);
  memset((void *)c, 0x5e, sizeof *c);
  {
    Buf eb(e), pb(p);
    ctr_drbg_init(c, bits, df, eb, e.size(), pb, p.size());
  }
  ref::CtrDrbg r(bits, df, cut(e), cut(p));
  size_t steps = t.range(1, 6);
  bool out_seen = false;
  for (size_t i = 0; i < steps; i++) {
    if (t.chance(1, 4)) {
      Bytes e2 = input(ent), a2 = t.flip() ? input(0) : Bytes();
      Buf eb(e2), ab(a2);
      if (t.recording()) { t.note("reseed\n"); t.show("entropy", e2); t.show("additional", a2); }
      ctr_drbg_reseed(c, eb, e2.size(), ab, a2.size());
      r.reseed(cut(e2), cut(a2));
      continue;
    }
    size_t n = t.chance(1, 100) ? t.range(0, 70000) : t.len_block(16, 100);
    Bytes add = t.flip() ? input(16) : Bytes();
    Buf out(n), ab(add);
    if (t.recording()) { t.note("generate %zu\n", n); t.show("additional", add); }
    if (add.empty() && t.flip()) ctr_drbg_rng(out, n, c); else ctr_drbg_generate(c, out, n, ab, add.size());
    EXPECT(t, out.intact(), "wrote outside the output");
    expect_eq(t, out.get(), r.generate(n, cut(add)), "ctr-drbg aes-%u df %d step %zu, %zu bytes, additional %zu", bits, (int)df, i, n, add.size());
    if (n) out_seen = true;
  }
  if (out_seen) t.nontrivial();
}

// ------------------------------------------------------------------ C09

PBT_PROP(C09, pbkdf2, 40000, 500000) {
  const HashName &h = pick_hash(t);
  size_t hs = hash_output_size(h.id), bs = hash_block_size(h.id);
  Bytes pass = t.bytes(t.len_near({bs, hs, 0}, bs + 40)), salt = t.bytes(t.len_near({8, 16, 0}, 100));
  uint32_t iter = (uint32_t)t.pick({1u, 2u, 3u, 5u, 7u, 20u});
  if (t.chance(1, 100)) iter = (uint32_t)t.range(250, 300);
  if (t.chance(1, 3000)) iter = (uint32_t)t.range(65530, 65540);
  size_t len = t.len_block(hs, iter > 300 ? hs : hs * 4);
  t.label("%s", h.name);
  if (t.recording()) { t.note("%s iterations %u length %zu\n", h.name, iter, len); t.show("pass", pass); t.show("salt", salt); }
  Buf pb(pass), sb(salt), out(len);
  EXPECT(t, pbkdf2_derive(out, h.id, pb, pass.size(), sb, salt.size(), iter, len) == 1, "pbkdf2 refused");
  EXPECT(t, out.intact(), "pbkdf2 wrote outside its output");
  expect_eq(t, out.get(), ref::pbkdf2(h.name, pass, salt, iter, len), "pbkdf2 %s iterations %u length %zu", h.name, iter, len);
  // more blocks than the block index can number
  size_t over = t.pick({hs * (size_t)0xffffffff + 1, (size_t)-1, (size_t)0 - hs + 1, (size_t)0 - hs + 2, hs << 33});
  EXPECT(t, pbkdf2_derive(out, h.id, pb, pass.size(), sb, salt.size(), iter, over) == 0, "pbkdf2 %s accepted a length of %zu", h.name, over);
  if (len) t.nontrivial();
}

// More than 255 blocks: the block index spans several bytes.
PBT_PROP(C09, pbkdf2_long, 400, 4000) {
  const HashName &h = pick_hash(t);
  Bytes pass = t.bytes(t.len(20)), salt = t.bytes(t.len(20));
  size_t len = hash_output_size(h.id) * t.range(250, 300) + t.range(0, 20);
  Buf pb(pass), sb(salt), out(len);
  if (t.recording()) { t.note("%s length %zu\n", h.name, len); t.show("pass", pass); t.show("salt", salt); }
  EXPECT(t, pbkdf2_derive(out, h.id, pb, pass.size(), sb, salt.size(), 1, len) == 1, "pbkdf2 refused");
  expect_eq(t, out.get(), ref::pbkdf2(h.name, pass, salt, 1, len), "pbkdf2 %s length %zu", h.name, len);
  t.nontrivial();
}

PBT_PROP(C09, hkdf, 50000, 600000) {
  const HashName &h = pick_hash(t);
  size_t hs = hash_output_size(h.id), bs = hash_block_size(h.id);
  Bytes ikm = t.bytes(t.len_near({bs, hs, 0}, 150)), salt = t.bytes(t.len_near({bs, hs, 0}, 150)), info = t.bytes(t.len(100));
  Buf prk(hs), ib(ikm), sb(salt), nb(info);
  if (t.recording()) { t.note("%s\n", h.name); t.show("ikm", ikm); t.show("salt", salt); t.show("info", info); }
  EXPECT(t, hkdf_extract(prk, h.id, ib, ikm.size(), sb, salt.size()) == 1, "hkdf_extract refused");
  expect_eq(t, prk.get(), ref::ref_hkdf_extract(h.name, ikm, salt), "hkdf_extract %s", h.name);
  size_t max = hs * 255;
  size_t len = t.chance(1, 100) ? t.pick({max, max - 1, max + 1, max - hs + 1, max + hs}) : t.len_block(hs, hs * 4);
  Buf out(len);
  int r = hkdf_expand(out, h.id, prk, nb, info.size(), len);
  EXPECT(t, r == (int)(len <= max), "hkdf_expand %s of %zu bytes (limit %zu) = %d", h.name, len, max, r);
  EXPECT(t, out.intact(), "hkdf_expand wrote outside its output");
  if (r) expect_eq(t, out.get(), ref::ref_hkdf_expand(h.name, prk.get(), info, len), "hkdf_expand %s length %zu", h.name, len);
  t.label("%s", r ? "computed" : "refused");
  t.nontrivial();
}

// An empty output asks only whether the parameters are legal, at any size.
PBT_PROP(C09, scrypt_limits, 20000, 200000) {
  uint64_t N = 1ull << t.range(1, 63), lim = 1ull << 30;
  uint32_t r = (uint32_t)(1ull << t.range(0, 31)) + (uint32_t)t.range(0, 2) - 1, p;
  switch (t.weighted({4, 1, 1})) {
    case 0: p = (uint32_t)(lim / (r ? r : 1)) + (uint32_t)t.range(0, 2) - 1; break;
    case 1: p = (uint32_t)t.range(0, 3); break;
    default: p = (uint32_t)t.bits(32);
  }
  if (t.chance(1, 4)) N += t.range(0, 2) - 1;
  if (t.chance(1, 2)) N = 1ull << t.range(1, 15);
  bool legal = N > 1 && (N & (N - 1)) == 0 && r && p && (uint64_t)r * p < lim && !(r < 4 && N >= (1ull << (16 * r))) && N <= SIZE_MAX / 128 / r;
  Bytes pass = t.bytes(t.len(20)), salt = t.bytes(t.len(20));
  Buf pb(pass), sb(salt), out(0);
  t.note("N %llu r %u p %u\n", (unsigned long long)N, r, p);
  int got = scrypt_derive(out, pb, pass.size(), sb, salt.size(), N, r, p, 0);
  EXPECT(t, got == (int)legal, "scrypt with an empty output, N %llu r %u p %u: %d, want %d", (unsigned long long)N, r, p, got, (int)legal);
  t.label("%s", legal ? "computed" : "refused");
  t.nontrivial();
}

PBT_PROP(C09, scrypt, 3500, 40000) {
  uint64_t N;
  uint32_t r = (uint32_t)t.pick({1u, 8u, 2u, 3u, 5u, 9u, 16u}), p = (uint32_t)t.pick({1u, 2u, 3u, 5u});
  switch (t.weighted({6, 2, 1})) {
    case 0: N = 1ull << t.range(1, 8); break;
    case 1: N = t.range(0, 70); break;
    default: N = 1ull << t.range(9, 12);
  }
  bool huge = false;
  if (t.chance(1, 12)) { // parameters that must be refused at once
    huge = true;
    switch (t.range(0, 5)) {
      case 0: r = 0; break;
      case 1: p = 0; break;
      case 2: r = 1u << 15; p = 1u << 15; break;
      case 3: r = 0xffffffffu; p = 0xffffffffu; break;
      case 4: N = 1ull << 63; break;
      case 5: r = 1; N = 1ull << (16 + t.range(0, 3)); break;
    }
  }
  Bytes pass = t.bytes(t.len_near({0, 64, 65}, 100)), salt = t.bytes(t.len(60));
  size_t len = t.len_near({64, 32, 1}, 130) + 1;
  if (t.recording()) { t.note("N %llu r %u p %u length %zu\n", (unsigned long long)N, r, p, len); t.show("pass", pass); t.show("salt", salt); }
  bool legal = N > 1 && (N & (N - 1)) == 0 && r && p && (uint64_t)r * p < (1ull << 30) && !(r < 4 && N >= (1ull << (16 * r))) && N != 1ull << 63;
  Bytes want;
  Buf pb(pass), sb(salt), out(len);
  int got = scrypt_derive(out, pb, pass.size(), sb, salt.size(), N, r, p, len);
  EXPECT(t, got == (int)legal, "scrypt N %llu r %u p %u: %d, want %d", (unsigned long long)N, r, p, got, (int)legal);
  EXPECT(t, out.intact(), "scrypt wrote outside its output");
  (void)huge;
  t.label("%s", legal ? "computed" : "refused");
  if (legal) {
    if (!ref::scrypt(pass, salt, N, r, p, len, want)) t.discard();
    expect_eq(t, out.get(), want, "scrypt N %llu r %u p %u length %zu", (unsigned long long)N, r, p, len);
  }
  t.nontrivial();
}

PBT_PROP(C09, legacy, 60000, 700000) {
  const HashName &h = pick_hash(t);
  size_t hs = hash_output_size(h.id);
  Bytes pass = t.bytes(t.len(80));
  size_t which = t.range(0, 3);
  Buf pb(pass);
  if (t.recording()) { t.note("%s\n", h.name); t.show("pass", pass); }
  if (which == 0) {
    Bytes salt = t.bytes(t.chance(1, 4) ? t.range(0, 20) : t.pick({0u, 8u}));
    size_t kl = t.len_block(hs, hs * 3), il = t.len_block(16, 50);
    Buf sb(salt), key(kl), iv(il);
    size_t sl = salt.size() > 8 ? 8 : salt.size();
    bool legal = sl == 0 || sl == 8;
    int r = eb2k_derive(key, iv, h.id, pb, pass.size(), sb, salt.size(), kl, il);
    EXPECT(t, r == (int)legal, "eb2k salt of %zu bytes: %d", salt.size(), r);
    EXPECT(t, key.intact() && iv.intact(), "eb2k wrote outside its outputs");
    if (legal) {
      Bytes want = ref::bytes_to_key(h.name, pass, ref::sub(salt, 0, 8), kl + il);
      expect_eq(t, ref::cat(key.get(), iv.get()), want, "eb2k %s key %zu iv %zu", h.name, kl, il);
    }
    t.label("eb2k");
  } else {
    Bytes salt = which == 1 ? Bytes() : t.bytes(t.chance(1, 3) ? t.len(20) : 8);
    size_t len = t.len_block(hs, hs * 4), count = 0;
    if (which == 3) {
      size_t unit = pass.size() + salt.size();
      count = t.chance(1, 2) ? t.len_near({unit, unit * 2, unit + salt.size(), 65, 96}, 700) : t.range(0, t.chance(1, 30) ? 140000 : 3000);
    }
    if (t.recording()) { t.show("salt", salt); t.note("kind %zu count %zu length %zu\n", which, count, len); }
    Buf sb(salt), out(len);
    int r = which == 1 ? pgpdf_derive_simple(out, h.id, pb, pass.size(), len)
          : which == 2 ? pgpdf_derive_salted(out, h.id, pb, pass.size(), sb, salt.size(), len)
                       : pgpdf_derive_iterated(out, h.id, pb, pass.size(), sb, salt.size(), count, len);
    bool legal = !(which == 3 && pass.empty() && salt.empty()); // nothing to repeat
    EXPECT(t, r == (int)legal, "s2k kind %zu: %d", which, r);
    EXPECT(t, out.intact(), "s2k wrote outside its output");
    if (legal) {
      Bytes want = ref::s2k(h.name, pass, salt, which == 3 ? count : 0, len);
      expect_eq(t, out.get(), want, "s2k kind %zu %s salt %zu pass %zu count %zu length %zu", which, h.name, salt.size(), pass.size(), count, len);
    }
    t.label("s2k %zu", which);
  }
  t.nontrivial();
}

PBT_PROP(C09, bcrypt_pbkdf, 700, 8000) {
  Bytes pass = t.bytes(t.len_near({1, 64}, 80)), salt = t.bytes(t.len_near({16, 1}, 40));
  unsigned rounds = (unsigned)t.pick({1u, 2u, 3u});
  if (t.chance(1, 12)) rounds = 0;
  size_t size = t.chance(1, 12) ? t.pick({(size_t)0, (size_t)1024, (size_t)1025, (size_t)2000, (size_t)993}) : t.len_near({32, 64, 33, 48}, 130);
  bool legal = rounds && !pass.empty() && !salt.empty() && size && size <= 1024;
  if (size > 200) rounds = rounds ? 1 : 0;
  if (t.recording()) { t.note("rounds %u size %zu\n", rounds, size); t.show("pass", pass); t.show("salt", salt); }
  Buf pb(pass), sb(salt), out(size);
  int r = bcrypt_pbkdf(out, pb, pass.size(), sb, salt.size(), rounds, size);
  EXPECT(t, r == (int)legal, "bcrypt_pbkdf rounds %u size %zu: %d, want %d", rounds, size, r, (int)legal);
  EXPECT(t, out.intact(), "bcrypt_pbkdf wrote outside its output");
  if (legal) expect_eq(t, out.get(), ref::ref_bcrypt_pbkdf(pass, salt, rounds, size), "bcrypt_pbkdf rounds %u size %zu", rounds, size);
  t.label("%s", legal ? "computed" : "refused");
  t.nontrivial();
}

// ------------------------------------------------------------------ C10

static size_t gen_passlen(T &t) { return t.chance(1, 8) ? t.range(240, 600) : t.len_near({0, 1, 8, 71, 72, 73, 55}, 100); }

PBT_PROP(C10, generate, 3000, 40000) {
  char minor = t.flip() ? 'a' : 'b';
  Bytes pass = t.bytes(gen_passlen(t)), salt = t.bytes(16);
  unsigned cost = t.chance(1, 8) ? (unsigned)t.pick({5u, 6u}) : 4;
  if (t.recording()) { t.note("minor %c cost %u\n", minor, cost); t.show("pass", pass); t.show("salt", salt); }
  Buf pb(pass), sb(salt), out(61);
  EXPECT(t, bcrypt_generate((char *)out.p, pb, pass.size(), sb, cost, minor) == 1, "bcrypt_generate failed");
  EXPECT(t, out.intact() && out.p[60] == 0, "bcrypt record is not 60 characters");
  std::string want = ref::bcrypt_record(pass, salt, cost, minor);
  std::string got((char *)out.p);
  EXPECT(t, got == want, "bcrypt 2%c of %zu bytes, cost %u: %s, want %s", minor, pass.size(), cost, got.c_str(), want.c_str());
  EXPECT(t, bcrypt_verify(pb, pass.size(), want.c_str()) == 1, "bcrypt_verify refused the right password (%zu bytes, 2%c)", pass.size(), minor);
  // a different password
  Bytes other = pass;
  switch (t.range(0, 3)) {
    case 0: if (other.empty()) other.push_back('x'); else t.flip_bit(other); break;
    case 1: other.push_back((uint8_t)t.range(1, 255)); break;
    case 2: if (other.empty()) other.push_back('y'); else other.pop_back(); break;
    case 3: other = t.bytes(gen_passlen(t)); break;
  }
  // keys are cycled to 72 bytes, so that is what the algorithm sees
  auto seen = [&](const Bytes &p) { Bytes k = ref::bcrypt_key(p, minor), r(72); for (int i = 0; i < 72; i++) r[i] = k[i % k.size()]; return r; };
  bool same = seen(other) == seen(pass);
  Buf ob(other);
  int r = bcrypt_verify(ob, other.size(), want.c_str());
  EXPECT(t, r == (int)same, "bcrypt_verify of another password (%zu bytes against %zu) = %d, want %d", other.size(), pass.size(), r, (int)same);
  t.label("2%c %s", minor, pass.size() > 72 ? "long" : "short");
  t.nontrivial();
}

PBT_PROP(C10, records, 12000, 150000) {
  char minor = t.flip() ? 'a' : 'b';
  Bytes pass = t.bytes(t.len(20)), salt = t.bytes(16), hash = t.bytes(23);
  static const char *cs = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
  std::string rec = ref::bcrypt_record(pass, salt, 4, minor);
  int want = 1;
  size_t kind = t.range(0, 5);
  switch (kind) {
    case 0: { // one character replaced
      size_t i = t.range(0, 59);
      char c = t.chance(1, 3) ? (char)t.range(1, 255) : cs[t.range(0, 63)];
      if (i == 4 || i == 5) c = t.pick({'x', '9', '/', ':', '$', '\x01'}); // never a costlier legal count
      char old = rec[i];
      rec[i] = c;
      if (c == old) break;
      bool inset = strchr(cs, c) != nullptr;
      auto val = [&](char x) { return (int)(strchr(cs, x) - cs); };
      if (i == 28) want = inset && (val(c) >> 4) == (val(old) >> 4); // four unused bits
      else if (i == 59) want = inset && (val(c) >> 2) == (val(old) >> 2); // two unused bits
      else want = 0;
      if (i == 2 && (c == 'a' || c == 'b') && pass.size() < 72) want = 1; // the versions agree here
      break;
    }
    case 1: rec.resize(t.range(0, 59)); want = 0; break;
    case 2: rec += (char)t.range(1, 255); want = 0; break;
    case 3: { // cost out of range
      static const char *bad[] = {"00", "01", "03", "32", "99", "40", "4$", " 4", "+4", "-1"};
      rec.replace(4, 2, bad[t.range(0, 9)]);
      want = 0;
      break;
    }
    case 4: rec.replace(0, 4, t.pick({std::string("$2$$"), std::string("$1a$"), std::string("$2y$"), std::string("$2x$"), std::string("2a$0"), std::string("$3b$")})); want = 0; break;
    case 5: { // right shape, unrelated digest
      rec = rec.substr(0, 29) + ref::bcrypt_b64(hash);
      want = hash == ref::bcrypt_raw(ref::bcrypt_key(pass, minor), salt, 4);
      break;
    }
  }
  if (t.recording()) { t.note("record %s\n", rec.c_str()); t.show("pass", pass); }
  Buf pb(pass);
  Bytes rb(rec.begin(), rec.end());
  rb.push_back(0);
  Buf r2(rb);
  int r = bcrypt_verify(pb, pass.size(), (const char *)r2.p);
  EXPECT(t, r == want, "bcrypt_verify of record \"%s\" = %d, want %d", rec.c_str(), r, want);
  t.label("kind %zu", kind);
  t.nontrivial();
}

PBT_PROP(C10, text, 2000, 25000) {
  char minor = t.flip() ? 'a' : 'b';
  // strings past 254 bytes lose their terminator under the old version
  size_t n = minor == 'a' ? t.range(0, 120) : gen_passlen(t);
  Bytes sa = t.ascii(n, 32, 126);
  std::string s(sa.begin(), sa.end());
  bool ok = true;
  if (n && t.chance(1, 3)) {
    size_t i = t.range(0, n - 1);
    int c = (int)t.range(1, 255);
    s[i] = (char)c;
    if (i < 255) ok = (c >= 7 && c <= 13) || (c >= 32 && c <= 126);
  }
  Bytes salt = t.bytes(16);
  Bytes pb(s.begin(), s.end());
  Bytes z = pb;
  z.push_back(0);
  Buf zb(z), sb(salt), out(61);
  if (t.recording()) { t.show("pass", pb); t.show("salt", salt); t.note("minor %c\n", minor); }
  int r = bcrypt_hash((char *)out.p, (const char *)zb.p, sb, 4, minor);
  EXPECT(t, r == (int)ok, "bcrypt_hash = %d, want %d", r, (int)ok);
  EXPECT(t, out.intact(), "bcrypt_hash wrote outside its record");
  std::string want = ref::bcrypt_record(pb, salt, 4, minor);
  if (ok) EXPECT(t, want == (char *)out.p, "bcrypt_hash: %s, want %s", (char *)out.p, want.c_str());
  r = bcrypt_check((const char *)zb.p, want.c_str());
  EXPECT(t, r == (int)ok, "bcrypt_check = %d, want %d", r, (int)ok);
  // parameters
  unsigned cost = (unsigned)t.pick({0u, 3u, 32u, 100u, 0xffffffffu});
  EXPECT(t, bcrypt_hash((char *)out.p, "x", sb, cost, minor) == 0, "cost %u accepted", cost);
  char m2 = (char)t.range(1, 127);
  if (m2 != 'a' && m2 != 'b') EXPECT(t, bcrypt_hash((char *)out.p, "x", sb, 4, m2) == 0, "minor %d accepted", m2);
  t.label("%s", ok ? "computed" : "refused");
  t.nontrivial();
}
