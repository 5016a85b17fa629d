// C34: the same generated calls in every build; the engine compares transcripts.
#include "prog.h"
#include "ref_rsa.h"
#include "ref_dsa.h"
#include <torsion/cipher.h>
#include <torsion/aead.h>
#include <torsion/drbg.h>
#include <torsion/dsa.h>
#include <torsion/ies.h>
#include <torsion/kdf.h>
#include <torsion/mac.h>
#include <torsion/mpi.h>
#include <torsion/rsa.h>
#include <torsion/stream.h>

PBT_RULE(C34, "at least one result entered the compared transcript");

namespace {

void put(T &t, const char *name, const Bytes &b) { t.out(name, b.data(), b.size()); t.nontrivial(); }

struct Int {
  mpz_t z;
  Int() { mpz_init(z); }
  ~Int() { mpz_clear(z); }
  Int(const Int &) = delete;
  Int &operator=(const Int &) = delete;
  size_t bits() { return (size_t)mpz_bitlen(z); }
  Bytes bytes() {
    Bytes b(mpz_bytelen(z));
    if (!b.empty()) mpz_export(b.data(), z, b.size(), 1);
    b.push_back((uint8_t)(mpz_sgn(z) + 1));
    return b;
  }
};

void stream(void *out, size_t size, void *arg) { hmac_drbg_generate((hmac_drbg_t *)arg, out, size, nullptr, 0); }

}

PBT_PROP(C34, weierstrass, 9000, 100000) {
  int id = pick_wei(t);
  WeiCall c = gen_wei_call(t, id);
  t.label("%s", c.name.c_str());
  if (t.recording()) t.note("%s on curve %d\n", c.name.c_str(), id);
  put(t, c.name.c_str(), c.run(wei_ctx(id)));
}

PBT_PROP(C34, edwards, 9000, 100000) {
  int id = pick_edw(t);
  EdwCall c = gen_edw_call(t, id);
  t.label("%s", c.name.c_str());
  if (t.recording()) t.note("%s on curve %d\n", c.name.c_str(), id);
  put(t, c.name.c_str(), c.run(edw_ctx(id)));
}

PBT_PROP(C34, montgomery, 8000, 100000) {
  int id = (int)t.range(0, 1);
  MontCall c = gen_mont_call(t, id);
  t.label("%s", c.name.c_str());
  if (t.recording()) t.note("%s on curve %d\n", c.name.c_str(), id);
  put(t, c.name.c_str(), c.run(mont_ctx(id)));
}

// A register machine over big integers.
PBT_PROP(C34, integers, 25000, 300000) {
  Int r[5];
  for (auto &x : r) {
    Bytes b = t.bytes(8 * t.range(0, 10) + (t.chance(1, 3) ? t.range(0, 7) : 0));
    mpz_import(x.z, b.data(), b.size(), t.flip() ? 1 : -1);
    if (t.flip()) mpz_neg(x.z, x.z);
  }
  hmac_drbg_t drbg;
  Bytes seed = t.bytes(32);
  hmac_drbg_init(&drbg, HASH_SHA256, seed.data(), 32);
  size_t steps = 1 + t.range(0, 15);
  for (size_t i = 0; i < steps; i++) {
    mpz_ptr z = r[t.range(0, 4)].z, w = r[t.range(0, 4)].z;
    Int *xi = &r[t.range(0, 4)], *yi = &r[t.range(0, 4)], *mi = &r[t.range(0, 4)];
    mpz_ptr x = xi->z, y = yi->z, m = mi->z;
    uint64_t u = t.bits(64) >> t.range(0, 63);
    mp_bits_t sh = (mp_bits_t)t.range(0, 200);
    long ret = 0;
    int op = (int)t.range(0, 43);
    if (xi->bits() + yi->bits() > 6000) op = 10; // keep sizes down
    bool ynz = mpz_sgn(y) != 0, mpos = mpz_sgn(m) > 0;
    switch (op) {
      case 0: mpz_add(z, x, y); break;
      case 1: mpz_sub(z, x, y); break;
      case 2: case 3: mpz_mul(z, x, y); break;
      case 4: mpz_sqr(z, x); break;
      case 5: if (z != w && ynz) mpz_quorem(z, w, x, y); break;
      case 6: if (z != w && ynz) mpz_divmod(z, w, x, y); break;
      case 7: if (ynz) mpz_quo(z, x, y); break;
      case 8: if (ynz) mpz_mod(z, x, y); break;
      case 9: if (ynz) mpz_divround(z, x, y); break;
      case 10: mpz_rem_2exp(z, x, sh); break;
      case 11: mpz_mul_2exp(z, x, sh); break;
      case 12: mpz_quo_2exp(z, x, sh); break;
      case 13: mpz_div_2exp(z, x, sh); break;
      case 14: mpz_mod_2exp(z, x, sh); break;
      case 15: mpz_and(z, x, y); break;
      case 16: mpz_ior(z, x, y); break;
      case 17: mpz_xor(z, x, y); break;
      case 18: mpz_com(z, x); break;
      case 19: mpz_gcd(z, x, y); break;
      case 20: mpz_lcm(z, x, y); break;
      case 21: if (ynz) ret = mpz_invert(z, x, y); if (!ret) mpz_set_ui(z, 0); break;
      case 22: if (mpos && mpz_sgn(y) >= 0 && yi->bits() < 600 && mi->bits() < 1500) mpz_powm(z, x, y, m); break;
      case 23: if (mpos && mpz_odd_p(m) && mpz_sgn(y) >= 0 && yi->bits() < 400 && mi->bits() < 1000) mpz_powm_sec(z, x, y, m); break;
      case 24: if (mpz_sgn(x) >= 0) mpz_sqrt(z, x); break;
      case 25: if (mpz_sgn(x) >= 0) ret = mpz_root(z, x, 1 + u % 9); break;
      case 26: ret = mpz_perfect_square_p(x); break;
      case 27: if (mpz_odd_p(y) && mpz_sgn(y) > 0) ret = mpz_jacobi(x, y); break;
      case 28: ret = mpz_kronecker(x, y); break;
      case 29: ret = mpz_cmp(x, y) < 0; break;
      case 30: mpz_addmul(z, x, y); break;
      case 31: mpz_submul(z, x, y); break;
      case 32: mpz_add_ui(z, x, u); break;
      case 33: mpz_mul_ui(z, x, u); break;
      case 34: if (u) ret = (long)mpz_quo_ui(z, x, u); break;
      case 35: mpz_mulshift(z, x, y, sh); break;
      case 36: if (mpz_sgn(x) > 0 && xi->bits() < 300) ret = mpz_probab_prime_p(x, 3, stream, &drbg) != 0; break;
      case 37: mpz_set_ui(z, u); break;
      case 38: mpz_neg(z, x); break;
      case 39: ret = (long)mpz_popcount(x); break;
      case 40: mpz_urandomb(z, sh * 3, stream, &drbg); break;
      case 41: if (z != x && mpz_sgn(x) > 0) mpz_urandomm(z, x, stream, &drbg); break;
      case 42: if (mpz_sgn(x) > 0 && xi->bits() < 110) mpz_nextprime(z, x, stream, &drbg); break;
      default: {
        int base = (int)t.range(2, 36);
        char *s = mpz_get_str(x, base);
        t.out("text", s, strlen(s));
        free(s);
      }
    }
    if (t.recording()) t.note("operation %d\n", op);
    t.out64("operation", (uint64_t)op);
    t.out64("status", (uint64_t)ret);
    for (auto &q : r) put(t, "register", q.bytes());
  }
}

PBT_PROP(C34, hashes, 30000, 300000) {
  const HashName &h = pick_hash(t);
  Bytes m = t.bytes(t.len_near({0, 55, 56, 63, 64, 111, 112, 127, 128, 135, 136, 143, 144, 256}, 400)), k = t.bytes(t.len_near({32, 64, 128}, 200));
  Bytes d(hash_output_size(h.id));
  {
    hash_t c;
    hash_init(&c, h.id);
    feed(t, m, 64, [&](const uint8_t *p, size_t n) { hash_update(&c, p, n); });
    hash_final(&c, d.data(), d.size());
    put(t, h.name, d);
  }
  {
    hmac_t c;
    hmac_init(&c, h.id, k.data(), k.size());
    feed(t, m, 64, [&](const uint8_t *p, size_t n) { hmac_update(&c, p, n); });
    hmac_final(&c, d.data());
    put(t, "hmac", d);
  }
}

PBT_PROP(C34, macs_streams, 30000, 300000) {
  Bytes key = t.bytes(32), m = t.bytes(t.len_near({0, 15, 16, 17, 32, 63, 64, 65, 256}, 600));
  switch (t.range(0, 4)) {
    case 0: {
      Bytes tag(16);
      poly1305_t c;
      poly1305_init(&c, key.data());
      feed(t, m, 16, [&](const uint8_t *p, size_t n) { poly1305_update(&c, p, n); if (t.chance(1, 8)) poly1305_pad(&c); });
      poly1305_final(&c, tag.data());
      put(t, "poly1305", tag);
      break;
    }
    case 1:
      t.out64("siphash", siphash_sum(m.data(), m.size(), key.data()));
      t.out64("siphash_mod", siphash_mod(m.data(), m.size(), key.data(), t.bits(64) >> t.range(0, 63)));
      t.out64("siphash128", siphash128_sum(t.bits(64), key.data()));
      t.out64("siphash256", siphash256_sum(t.bits(64), key.data()));
      t.nontrivial();
      break;
    case 2: case 3: {
      Bytes nonce = t.bytes(t.pick({8, 12, 16, 24})), out(m.size());
      uint64_t ctr = t.chance(1, 2) ? t.bits(16) : t.bits(32) - (nonce.size() == 12 ? 0 : 0);
      bool cha = t.flip();
      if (nonce.size() == 12) ctr &= 0xffffff; // a short counter never runs over
      if (cha) {
        chacha20_t c;
        chacha20_init(&c, key.data(), 32, nonce.data(), nonce.size(), ctr);
        chacha20_crypt(&c, out.data(), m.data(), m.size());
      } else {
        salsa20_t c;
        salsa20_init(&c, key.data(), 32, nonce.data(), nonce.size(), ctr);
        salsa20_crypt(&c, out.data(), m.data(), m.size());
      }
      put(t, cha ? "chacha20" : "salsa20", out);
      break;
    }
    default: {
      Bytes nonce = t.bytes(t.pick({8, 12, 24})), aad = t.bytes(t.len(40)), out(m.size()), tag(16);
      chachapoly_t c;
      chachapoly_init(&c, key.data(), nonce.data(), nonce.size());
      chachapoly_aad(&c, aad.data(), aad.size());
      chachapoly_encrypt(&c, out.data(), m.data(), m.size());
      chachapoly_final(&c, tag.data());
      put(t, "chachapoly", out);
      put(t, "tag", tag);
      Bytes n24 = t.bytes(24), box(m.size() + 16), back(m.size());
      secretbox_seal(box.data(), m.data(), m.size(), key.data(), n24.data());
      put(t, "secretbox", box);
      if (t.flip()) t.flip_bit(box);
      int r = secretbox_open(back.data(), box.data(), box.size(), key.data(), n24.data());
      t.out64("open", (uint64_t)r);
    }
  }
}

PBT_PROP(C34, ciphers, 25000, 300000) {
  cipher_id_t id = (cipher_id_t)t.range(CIPHER_AES128, CIPHER_TWOFISH256);
  mode_id_t mode = (mode_id_t)t.range(CIPHER_MODE_ECB, CIPHER_MODE_EAX);
  size_t block = cipher_block_size(id), ks = cipher_key_size(id);
  Bytes key = t.bytes(mode == CIPHER_MODE_XTS ? 2 * ks : ks);
  size_t ivl = mode == CIPHER_MODE_ECB ? 0 : mode == CIPHER_MODE_GCM ? t.pick({12, 16, 8}) : mode == CIPHER_MODE_CCM ? t.pick({13, 12, 7}) : block;
  Bytes iv = t.bytes(ivl), m = t.bytes(t.len_block(block, 120)), aad = t.bytes(t.len(40));
  for (int enc = 1; enc >= 0; enc--) {
    cipher_stream_t c;
    int r = cipher_stream_init(&c, id, mode, enc, key.data(), key.size(), iv.data(), iv.size());
    t.out64("init", (uint64_t)r);
    t.nontrivial();
    if (!r) return;
    if (mode == CIPHER_MODE_GCM || mode == CIPHER_MODE_EAX) t.out64("aad", (uint64_t)cipher_stream_set_aad(&c, aad.data(), aad.size()));
    if (mode == CIPHER_MODE_CCM) {
      r = cipher_stream_set_ccm(&c, m.size(), 16, aad.data(), aad.size());
      t.out64("ccm", (uint64_t)r);
      if (!r) return;
    }
    if (!enc && mode >= CIPHER_MODE_GCM) { Bytes tag = t.bytes(16); t.out64("set_tag", (uint64_t)cipher_stream_set_tag(&c, tag.data(), 16)); }
    Bytes out;
    feed(t, m, block, [&](const uint8_t *p, size_t n) {
      Buf o(cipher_stream_update_size(&c, n));
      size_t ol = o.n;
      cipher_stream_update(&c, o, &ol, p, n);
      Bytes g = o.get(ol);
      out.insert(out.end(), g.begin(), g.end());
    });
    Buf o(cipher_stream_final_size(&c) + 2 * CIPHER_MAX_BLOCK_SIZE);
    size_t ol = o.n;
    r = cipher_stream_final(&c, o, &ol);
    t.out64("final", (uint64_t)r);
    put(t, "data", out);
    if (r) put(t, "last", o.get(ol));
    if (r && enc && mode >= CIPHER_MODE_GCM) {
      Bytes tag(16);
      size_t tl = 16;
      r = cipher_stream_get_tag(&c, tag.data(), &tl);
      t.out64("get_tag", (uint64_t)r);
      if (r) { tag.resize(tl); put(t, "tag", tag); }
    }
  }
}

PBT_PROP(C34, derivations, 9000, 100000) {
  const HashName &h = pick_hash(t);
  Bytes pass = t.bytes(t.len(80)), salt = t.bytes(t.len(40));
  size_t len = t.len(150);
  Bytes out(len + 1), iv(17);
  int r = 1;
  switch (t.range(0, 6)) {
    case 0: r = pbkdf2_derive(out.data(), h.id, pass.data(), pass.size(), salt.data(), salt.size(), (uint32_t)t.range(1, 5), len); break;
    case 1: {
      Bytes prk(HASH_MAX_OUTPUT_SIZE);
      hkdf_extract(prk.data(), h.id, pass.data(), pass.size(), salt.data(), salt.size());
      r = hkdf_expand(out.data(), h.id, prk.data(), salt.data(), salt.size(), len);
      break;
    }
    case 2: r = scrypt_derive(out.data(), pass.data(), pass.size(), salt.data(), salt.size(), 1ull << t.range(1, 5), (uint32_t)t.range(1, 4), (uint32_t)t.range(1, 3), len); break;
    case 3: {
      hash_id_t id = t.pick({HASH_SHA1, HASH_SHA256, HASH_SHA512, HASH_BLAKE2B_256, HASH_SHA384});
      hash_drbg_t d;
      Bytes seed = t.bytes(48);
      hash_drbg_init(&d, t.pick({HASH_SHA1, HASH_SHA256, HASH_SHA512, HASH_SHA384}), seed.data(), seed.size());
      (void)id;
      hash_drbg_generate(&d, out.data(), len, salt.data(), salt.size());
      break;
    }
    case 4: {
      ctr_drbg_t d;
      Bytes seed = t.bytes(48);
      ctr_drbg_init(&d, t.pick({128u, 192u, 256u}), 1, seed.data(), seed.size(), pass.data(), pass.size());
      ctr_drbg_generate(&d, out.data(), len, salt.data(), salt.size());
      break;
    }
    case 5: {
      hmac_drbg_t d;
      hmac_drbg_init(&d, h.id, pass.data(), pass.size());
      hmac_drbg_generate(&d, out.data(), len, salt.data(), salt.size());
      break;
    }
    default: r = pgpdf_derive_iterated(out.data(), h.id, pass.data(), pass.size(), salt.data(), salt.size(), t.range(0, 300), len); break;
  }
  t.out64("status", (uint64_t)r);
  out.resize(r ? len : 0);
  put(t, "derived", out);
}

PBT_PROP(C34, rsa_operations, 3000, 40000) {
  ref::RsaKey k = ref::rsa_pool(t.pick({512, 640, 768, 1024}), t.range(0, ref::rsa_pool_size - 1));
  Bytes priv = k.priv(), pub = k.pub(), e = t.bytes(32), dig = t.rnd(32), m = t.bytes(t.range(0, 20)), label = t.bytes(t.len(10));
  size_t len = k.klen(), n = len;
  if (t.chance(1, 10)) t.flip_bit(priv);
  Buf out(len);
  int r = 0;
  switch (t.range(0, 8)) {
    case 0: r = rsa_sign(out, &n, HASH_SHA256, dig.data(), 32, priv.data(), priv.size(), e.data()); break;
    case 1: r = rsa_sign_pss(out, &n, HASH_SHA256, dig.data(), 32, priv.data(), priv.size(), t.range(0, len > 40 ? 20 : 0), e.data()); break;
    case 2: r = rsa_encrypt(out, &n, m.data(), m.size(), pub.data(), pub.size(), e.data()); break;
    case 3: r = rsa_encrypt_oaep(out, &n, HASH_SHA1, m.data(), m.size(), pub.data(), pub.size(), label.data(), label.size(), e.data()); break;
    case 4: { Bytes c = (Z::be(t.bytes(len)) % k.n).to_be(len); r = rsa_decrypt(out, &n, c.data(), len, priv.data(), priv.size(), e.data()); break; }
    case 5: { Bytes s = (Z::be(t.bytes(len)) % k.n).to_be(len); r = rsa_verify(HASH_SHA256, dig.data(), 32, s.data(), len, pub.data(), pub.size()); n = 0; break; }
    case 6: r = rsa_privkey_verify(priv.data(), priv.size()); n = 0; break;
    case 7: { // rebuild from parts: everything the caller sees afterwards is a function of the entropy
      std::vector<Z> v = {k.n, k.e, k.d, Z(0), Z(0), Z(0), Z(0), Z(0)};
      Bytes flat = ref::flat_ints(v);
      Buf full(flat.size() + 8 * len + 64);
      size_t fl = full.n;
      r = rsa_privkey_import(full, &fl, flat.data(), flat.size(), e.data());
      t.out64("status", (uint64_t)r);
      put(t, "key", r ? full.get(fl) : Bytes());
      return;
    }
    default: {
      Bytes c(4 * len);
      Bytes x = (Z::be(t.bytes(len)) % k.n).to_be(len);
      size_t cl = c.size();
      r = rsa_veil(c.data(), &cl, x.data(), len, (unsigned)(8 * len + t.range(0, 100)), pub.data(), pub.size(), e.data());
      t.out64("status", (uint64_t)r);
      if (r) { c.resize(cl); put(t, "veil", c); }
      t.nontrivial();
      return;
    }
  }
  t.out64("status", (uint64_t)r);
  put(t, "output", r ? out.get(n) : Bytes());
}

PBT_PROP(C34, dsa_operations, 2500, 30000) {
  const ref::DsaGroup &g = ref::dsa_pool(t.pick({512, 768, 1024}), 160, (int)t.range(0, 2));
  Z x = gen_scalar(t, g.q), y = ref::powm(g.g, x, g.p);
  Bytes priv = g.priv(y, x), pub = g.pub(y), params = g.params(), e = t.bytes(32), m = t.bytes(t.len_near({20, 32}, 64));
  Buf sig(40);
  size_t n = 40;
  int r = dsa_sign(sig, &n, m.data(), m.size(), priv.data(), priv.size(), e.data());
  t.out64("sign", (uint64_t)r);
  put(t, "signature", r ? sig.get(n) : Bytes());
  if (r) {
    Bytes s = sig.get(n);
    if (t.flip()) t.flip_bit(s);
    t.out64("verify", (uint64_t)dsa_verify(m.data(), m.size(), s.data(), s.size(), pub.data(), pub.size()));
  }
  Buf out(priv.size() + 2 * params.size() + 64);
  n = out.n;
  r = dsa_privkey_create(out, &n, params.data(), params.size(), e.data());
  t.out64("create", (uint64_t)r);
  put(t, "key", r ? out.get(n) : Bytes());
  Z x2 = gen_scalar(t, g.q), y2 = ref::powm(g.g, x2, g.p);
  Bytes other = g.pub(y2);
  n = out.n;
  r = dsa_derive(out, &n, other.data(), other.size(), priv.data(), priv.size());
  t.out64("derive", (uint64_t)r);
  put(t, "secret", r ? out.get(n) : Bytes());
  t.out64("params", (uint64_t)dsa_params_verify(params.data(), params.size()));
}

// Prime search is where a build could go its own way for many steps.
PBT_PROP(C34, generation, 40, 400) {
  Bytes e = t.bytes(32);
  Buf out(4096);
  size_t n = out.n;
  int r;
  if (t.flip()) r = rsa_privkey_generate(out, &n, 512 + 8 * (unsigned)t.range(0, 16), t.pick({3u, 17u, 65537u}), e.data());
  else { Int z; hmac_drbg_t d; hmac_drbg_init(&d, HASH_SHA256, e.data(), 32); mpz_randprime(z.z, 64 + (mp_bits_t)t.range(0, 300), stream, &d); put(t, "prime", z.bytes()); return; }
  t.out64("status", (uint64_t)r);
  put(t, "key", r ? out.get(n) : Bytes());
}
