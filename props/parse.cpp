// C32: memory safety. Every entry point that takes bytes from outside is given
// well-formed, damaged and arbitrary data in heap blocks of exactly the right
// size, under the address and undefined-behaviour sanitizers and under memcheck
// (which adds reads of uninitialised memory).
#include "der.h"
#include "ecc.h"
#include "ref_dsa.h"
#include "ref_encoding.h"
#include "ref_kdf.h"
#include <functional>
#include <memory>
#include <torsion/aead.h>
#include <torsion/cipher.h>
#include <torsion/drbg.h>
#include <torsion/dsa.h>
#include <torsion/encoding.h>
#include <torsion/hash.h>
#include <torsion/ies.h>
#include <torsion/kdf.h>
#include <torsion/mac.h>
#include <torsion/mpi.h>
#include <torsion/rsa.h>
#include <torsion/stream.h>
#include <torsion/util.h>
#include <valgrind/memcheck.h>

PBT_RULE(C32, "the call was given data that is not a plain well-formed encoding, or consumed at least one byte; distinct by the bytes and the entry point");

namespace {

// Output whose previous content counts as uninitialised.
struct Out : Buf {
  explicit Out(size_t n) : Buf(n) { if (n) VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
  ~Out() { VALGRIND_MAKE_MEM_DEFINED(p, n); }
};

struct Watch {
  T &t;
  unsigned before;
  explicit Watch(T &t) : t(t), before(VALGRIND_COUNT_ERRORS) {}
  // The first n bytes of a successful call's output.
  void wrote(const char *f, Buf &b, size_t n) {
    EXPECT(t, n <= b.n, "%s announced %zu bytes of a %zu-byte buffer", f, n, b.n);
    EXPECT(t, !n || !VALGRIND_CHECK_MEM_IS_DEFINED(b.p, n), "%s succeeded with output it did not write", f);
  }
  template <class V> void wrote(const char *f, V &v) {
    EXPECT(t, !VALGRIND_CHECK_MEM_IS_DEFINED(&v, sizeof v), "%s left a result unset", f);
  }
  void done(const char *f) {
    unsigned now = VALGRIND_COUNT_ERRORS;
    EXPECT(t, now == before, "%s: memcheck reported %u errors", f, now - before);
  }
};

// A length field, truthful or not.
Bytes any_size(T &t, size_t n) {
  switch (t.weighted({6, 2, 1, 1, 1, 1, 1})) {
    case 0: return ref::der_size(n);
    case 1: return ref::der_size(n + t.range(0, 4) - std::min<size_t>(n, 2));
    case 2: { Bytes b = ref::be(n, t.range(1, 8)); return ref::cat(Bytes{(uint8_t)(0x80 | b.size())}, b, Bytes{}); }
    case 3: { Bytes b(t.range(1, 12), 0xff); return ref::cat(Bytes{(uint8_t)(0x80 | b.size())}, b, Bytes{}); }
    case 4: return Bytes{0x80};
    case 5: return Bytes{(uint8_t)t.range(0x81, 0xff)};
    default: { Bytes b(t.range(1, 8)); b[0] = (uint8_t)t.pick({0x80, 0x7f, 1}); return ref::cat(Bytes{(uint8_t)(0x80 | b.size())}, b, Bytes{}); }
  }
}

Bytes der_junk(T &t, int depth) {
  Bytes out;
  size_t items = t.range(0, 5);
  for (size_t i = 0; i < items; i++) {
    uint8_t tag = t.chance(1, 8) ? t.byte() : depth && t.chance(1, 4) ? 0x30 : 2;
    Bytes body = tag == 0x30 && depth ? der_junk(t, depth - 1) : t.bytes(t.len(40));
    out = ref::cat(out, Bytes{tag}, ref::cat(any_size(t, body.size()), body));
  }
  return out;
}

// A key or signature encoding in some state of disrepair.
Bytes blob(T &t, const std::vector<Z> &v, bool version, bool *plain) {
  *plain = false;
  const char *what;
  switch (t.weighted({2, 6, 3, 3, 2, 2})) {
    case 0: *plain = true; return ref::der_ints(v, version);
    case 1: return deviate(t, v, version, &what);
    case 2: { Bytes b = ref::der_ints(v, version); b.resize(t.range(0, b.size())); return b; }
    case 3: { Bytes b = der_junk(t, 2); return ref::cat(Bytes{0x30}, any_size(t, b.size()), b); }
    case 4: {  // integers of any size
      std::vector<Z> w = v;
      for (Z &z : w) if (t.chance(1, 3)) z = Z::be(t.bytes(t.len_near({0, 1, 8, 9, 20, 64, 128}, t.chance(1, 20) ? 2200 : 200)));
      return ref::der_ints(w, version);
    }
    default: return t.bytes(t.len(200));
  }
}

Bytes flat_blob(T &t, const std::vector<Z> &v, bool *plain) {
  *plain = false;
  switch (t.weighted({2, 4, 2, 2, 2})) {
    case 0: *plain = true; return flat(t, v, true);
    case 1: return t.mutate(flat(t, v, false), true);
    case 2: { Bytes b = flat(t, v, false); b.resize(t.range(0, b.size())); return b; }
    case 3: {
      Bytes b;
      for (size_t i = t.range(0, 9); i-- > 0;) { Bytes x = t.bytes(t.len(70)); b = ref::cat(b, ref::be(x.size() + (t.chance(1, 4) ? t.range(0, 3) : 0), 2), x); }
      return b;
    }
    default: return t.bytes(t.len(200));
  }
}

}

// ------------------------------------------------------------- text encodings

PBT_PROP(C32, base_decoders, 300000, 3000000, 0.002, 0.7) {
  static const char *alpha[] = {"0123456789abcdefABCDEF", "abcdefghijklmnopqrstuvwxyz234567ABCDEFGHIJKLMNOPQRSTUVWXYZ=", "0123456789abcdefghijklmnopqrstuvABCDEFGHIJKLMNOPQRSTUV=", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=", "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"};
  int k = (int)t.range(0, 6);
  static const int which[] = {0, 0, 1, 2, 3, 3, 4};
  std::string al = alpha[which[k]];
  size_t n = t.len_block(8, t.chance(1, 60) ? 700 : 50);
  Bytes s = t.chance(1, 6) ? t.bytes(n) : Bytes(n);
  if (s.empty() || s[0] == 0) for (auto &c : s) c = (uint8_t)al[t.range(0, al.size() - 1)];
  if (n && t.chance(1, 3)) s[t.chance(1, 2) ? n - 1 : t.range(0, n - 1)] = t.byte();
  if (t.chance(1, 3)) for (size_t i = 0; i < t.range(0, 8) && i < n; i++) s[n - 1 - i] = '=';
  int un = t.flip();
  t.show("text", s); t.note("alphabet %d unpad %d", k, un);
  t.mix(s); t.mix64(k); t.mix64(un);
  if (n) t.nontrivial();
  Buf in(s);
  const char *p = (const char *)in.p;
  Watch w(t);
  size_t cap = 0, len = 0;
  switch (k) {
    case 0: cap = base16_decode_size(n); break;
    case 1: cap = base16le_decode_size(n); break;
    case 2: cap = base32_decode_size(p, n); break;
    case 3: cap = base32hex_decode_size(p, n); break;
    case 4: cap = base64_decode_size(p, n); break;
    case 5: cap = base64url_decode_size(p, n); break;
    default: cap = BASE58_DECODE_SIZE(n); break;
  }
  Out o(cap);
  int r = 0, q = 0;
  switch (k) {
    case 0: r = base16_decode(o, &len, p, n); q = base16_test(p, n); break;
    case 1: r = base16le_decode(o, &len, p, n); q = base16le_test(p, n); break;
    case 2: r = base32_decode(o, &len, p, n, un); q = base32_test(p, n, un); break;
    case 3: r = base32hex_decode(o, &len, p, n, un); q = base32hex_test(p, n, un); break;
    case 4: r = base64_decode(o, &len, p, n); q = base64_test(p, n); break;
    case 5: r = base64url_decode(o, &len, p, n); q = base64url_test(p, n); break;
    default: r = base58_decode(o, &len, p, n); q = base58_test(p, n); break;
  }
  t.label("%s", r ? "accepted" : "refused");
  if (r) w.wrote("decoder", o, len);
  w.wrote("test", q);
  w.done("decoder");
}

PBT_PROP(C32, base_encoders, 120000, 1200000, 0.004, 0.7) {
  int k = (int)t.range(0, 6), pad = t.flip();
  size_t n = t.len_block(5, t.chance(1, 60) ? 500 : 60), cap = 0, len = 0;
  Bytes b = t.bytes(n);
  t.show("data", b); t.note("alphabet %d", k);
  t.mix(b); t.mix64(k);
  if (n) t.nontrivial();
  Buf in(b);
  Watch w(t);
  switch (k) {
    case 0: cap = base16_encode_size(n); break;
    case 1: cap = base16le_encode_size(n); break;
    case 2: cap = base32_encode_size(n, pad); break;
    case 3: cap = base32hex_encode_size(n, pad); break;
    case 4: cap = base64_encode_size(n); break;
    case 5: cap = base64url_encode_size(n); break;
    default: cap = BASE58_ENCODE_SIZE(n); break;
  }
  Out o(cap + 1);
  char *p = (char *)o.p;
  switch (k) {
    case 0: base16_encode(p, &len, in, n); break;
    case 1: base16le_encode(p, &len, in, n); break;
    case 2: base32_encode(p, &len, in, n, pad); break;
    case 3: base32hex_encode(p, &len, in, n, pad); break;
    case 4: base64_encode(p, &len, in, n); break;
    case 5: base64url_encode(p, &len, in, n); break;
    default: base58_encode(p, &len, in, n); break;
  }
  w.wrote("encoder", o, len + 1);
  EXPECT(t, p[len] == 0, "encoder result is not terminated");
  w.done("encoder");
}

PBT_PROP(C32, addresses, 300000, 3000000, 0.003, 0.7) {
  static const char cs[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
  bool cash = t.flip();
  std::string hrp, s;
  size_t hn = t.len_near({1, 2, 82, 83, 84}, 90);
  for (size_t i = 0; i < hn; i++) hrp += (char)t.range(t.chance(1, 20) ? 1 : 33, t.chance(1, 20) ? 255 : 126);
  uint32_t sum = t.pick({1u, 0x2bc830a3u, 0u});
  // Sometimes a valid string to begin with, made by the library itself.
  size_t dn = t.len_near({0, 1, 8, 33, 53, 65, 76, 82, 83, 84, 104, 112, 113}, 120);
  Bytes data(dn);
  for (auto &x : data) x = t.byte() & 31;
  if (t.chance(1, 10) && dn) data[t.range(0, dn - 1)] = t.byte();
  {
    Buf h(Bytes(hrp.c_str(), hrp.c_str() + hrp.size() + 1)), d(data);
    Out o(cash ? CASH32_MAX_SERIALIZE_SIZE + 1 : BECH32_MAX_SERIALIZE_SIZE + 1);
    Watch w(t);
    int r = cash ? cash32_serialize((char *)o.p, (const char *)h.p, d, dn) : bech32_serialize((char *)o.p, (const char *)h.p, d, dn, sum);
    if (r) {
      size_t k = 0;
      while (k < o.n && o.p[k]) k++;
      EXPECT(t, k < o.n, "serialised string is not terminated");
      w.wrote("serialize", o, k + 1);
      s = (const char *)o.p;
    }
    w.done("serialize");
    t.label("%s serialize %s", cash ? "cash32" : "bech32", r ? "accepted" : "refused");
  }
  if (s.empty() || t.chance(1, 3)) {
    s = hrp + (cash ? ":" : "1");
    for (size_t i = 0; i < dn; i++) s += cs[t.range(0, 31)];
  }
  if (t.chance(1, 2)) { Bytes m = t.mutate(Bytes(s.begin(), s.end()), true); s.assign(m.begin(), m.end()); s = s.c_str(); }
  if (t.chance(1, 30)) s += std::string(t.range(1, 300), cs[t.range(0, 31)]);
  Buf in(Bytes(s.c_str(), s.c_str() + s.size() + 1));
  const char *p = (const char *)in.p;
  t.note("%s", s.c_str());
  t.mix(s.data(), s.size()); t.mix64(cash);
  t.nontrivial();
  Watch w(t);
  if (cash) {
    Buf fb(Bytes(hrp.c_str(), hrp.c_str() + hrp.size() + 1));
    const char *f = (const char *)fb.p;
    Out pre(CASH32_MAX_PREFIX_SIZE + 1), d(CASH32_MAX_DESERIALIZE_SIZE), hash(CASH32_MAX_DECODE_SIZE);
    size_t len = 0, hl = 0;
    unsigned type = 0;
    int r = cash32_deserialize((char *)pre.p, d, &len, p, f);
    if (r) w.wrote("cash32_deserialize", d, len);
    int q = cash32_decode(&type, hash, &hl, p, f);
    if (q) w.wrote("cash32_decode", hash, hl);
    EXPECT(t, cash32_is(p, f) == r, "cash32_is and cash32_deserialize disagree");
    EXPECT(t, cash32_test(p, f) == q, "cash32_test and cash32_decode disagree");
    t.label("cash32 %s%s", r ? "accepted" : "refused", q ? ", address" : "");
  } else {
    Out h(BECH32_MAX_HRP_SIZE + 1), d(BECH32_MAX_DESERIALIZE_SIZE), h2(BECH32_MAX_HRP_SIZE + 1), hash(BECH32_MAX_DECODE_SIZE);
    size_t len = 0, hl = 0;
    unsigned ver = 0;
    int r = bech32_deserialize((char *)h.p, d, &len, p, sum);
    if (r) w.wrote("bech32_deserialize", d, len);
    int q = bech32_decode((char *)h2.p, &ver, hash, &hl, p, sum);
    if (q) w.wrote("bech32_decode", hash, hl);
    EXPECT(t, bech32_is(p, sum) == r, "bech32_is and bech32_deserialize disagree");
    EXPECT(t, bech32_test(p, sum) == q, "bech32_test and bech32_decode disagree");
    t.label("bech32 %s%s", r ? "accepted" : "refused", q ? ", address" : "");
  }
  w.done("address decoder");
}

PBT_PROP(C32, address_encoders, 60000, 600000, 0.005, 0.7) {
  bool cash = t.flip();
  std::string hrp;
  size_t hn = t.len_near({1, 2, 82, 83, 84}, 90);
  for (size_t i = 0; i < hn; i++) hrp += (char)t.range(33, 126);
  Bytes hash = t.bytes(t.len_near({0, 1, 2, 20, 24, 28, 32, 40, 41, 48, 56, 64, 65}, 70));
  unsigned v = (unsigned)t.pick({0, 1, 15, 16, 31, 32, 255, -1});
  Buf h(Bytes(hrp.c_str(), hrp.c_str() + hrp.size() + 1)), d(hash);
  t.note("%s version %u", hrp.c_str(), v); t.show("hash", hash);
  t.mix(hash); t.mix(hrp.data(), hrp.size()); t.mix64(v);
  t.nontrivial();
  Watch w(t);
  Out o(cash ? CASH32_MAX_ENCODE_SIZE + 1 : BECH32_MAX_ENCODE_SIZE + 1);
  int r = cash ? cash32_encode((char *)o.p, (const char *)h.p, v, d, hash.size()) : bech32_encode((char *)o.p, (const char *)h.p, v, d, hash.size(), 1);
  if (r) {
    size_t k = 0;
    while (k < o.n && o.p[k]) k++;
    EXPECT(t, k < o.n, "address is not terminated");
  }
  size_t from = t.pick({5, 8}), to = from == 5 ? 8 : 5;
  int pad = t.flip();
  Out c(BECH32_CONVERT_SIZE(hash.size(), from, to, (size_t)pad));
  size_t cl = 0;
  int q = cash ? cash32_convert_bits(c, &cl, to, d, hash.size(), from, pad) : bech32_convert_bits(c, &cl, to, d, hash.size(), from, pad);
  if (q) w.wrote("convert_bits", c, cl);
  t.label("%s", r ? "accepted" : "refused");
  w.done("address encoder");
}

// --------------------------------------------------------------- RSA and DSA

namespace {
const ref::RsaKey &some_rsa(T &t) { return ref::rsa_pool((size_t)t.pick({512, 512, 768}), (size_t)t.range(0, 1)); }
}

PBT_PROP(C32, rsa_keys, 16000, 160000, 0.02, 1.0) {
  const ref::RsaKey &k = some_rsa(t);
  bool priv = t.flip(), plain = false;
  int what = (int)t.range(0, 5);
  std::vector<Z> all = k.all();
  Bytes b;
  if (what == 2 || what == 5) b = flat_blob(t, priv ? all : std::vector<Z>{k.n, k.e}, &plain);
  else b = blob(t, priv ? all : std::vector<Z>{k.n, k.e}, priv, &plain);
  t.show("key", b); t.note("private %d call %d", priv, what);
  t.mix(b); t.mix64(priv * 8 + what);
  if (!plain) t.nontrivial();
  Buf in(b), en(t.rnd(32));
  size_t n = b.size(), len = 0;
  int r = 0;
  Watch w(t);
  if (priv) {
    switch (what) {
      case 0: r = rsa_privkey_bits(in, n) != 0; break;
      case 1: r = rsa_privkey_verify(in, n); break;
      case 2: case 5: { Out o(RSA_MAX_PRIV_SIZE); r = rsa_privkey_import(o, &len, in, n, en); if (r) w.wrote("rsa_privkey_import", o, len); break; }
      case 3: { Out o(RSA_MAX_PRIV_SIZE); r = rsa_privkey_export(o, &len, in, n); if (r) w.wrote("rsa_privkey_export", o, len); break; }
      default: { Out o(RSA_MAX_PUB_SIZE); r = rsa_pubkey_create(o, &len, in, n); if (r) w.wrote("rsa_pubkey_create", o, len); break; }
    }
  } else {
    switch (what) {
      case 0: r = rsa_pubkey_bits(in, n) != 0; break;
      case 1: r = rsa_pubkey_verify(in, n); break;
      case 2: case 5: { Out o(RSA_MAX_PUB_SIZE); r = rsa_pubkey_import(o, &len, in, n); if (r) w.wrote("rsa_pubkey_import", o, len); break; }
      default: { Out o(RSA_MAX_PUB_SIZE); r = rsa_pubkey_export(o, &len, in, n); if (r) w.wrote("rsa_pubkey_export", o, len); break; }
    }
  }
  t.label("%s", r ? "accepted" : "refused");
  w.wrote("rsa key call", r);
  w.done("rsa key call");
}

PBT_PROP(C32, rsa_operations, 9000, 90000, 0.02, 1.0) {
  const ref::RsaKey &k = some_rsa(t);
  int what = (int)t.range(0, 9);
  bool priv = what >= 5, plain = true;
  std::vector<Z> pubv{k.n, k.e};
  Bytes key = t.chance(1, 2) ? (priv ? k.priv() : k.pub()) : blob(t, priv ? k.all() : pubv, priv, &plain);
  const HashName &h = pick_hash(t);
  Bytes msg = t.bytes(t.chance(1, 2) ? hash_output_size(h.id) : t.len(80));
  size_t kl = k.klen();
  Bytes sig = t.bytes(t.len_near({kl, kl - 1, kl + 1, 0}, kl + 8)), label = t.bytes(t.len(20));
  if (sig.size() == kl && t.flip()) sig[0] = 0;
  if (what < 2 && t.chance(1, 3)) {  // a true signature value with broken padding inside
    Bytes em = t.bytes(kl);
    em[0] = 0; em[1] = 1;
    for (size_t i = 2, e = t.range(2, kl - 1); i < e; i++) em[i] = 0xff;
    sig = k.unraw(Z::be(em)).to_be(kl);
  }
  if (what >= 5 && what <= 7 && t.chance(1, 2)) {  // a ciphertext of a broken block
    Bytes em = t.bytes(kl);
    em[0] = 0; em[1] = 2;
    if (t.flip()) em[t.range(2, kl - 1)] = 0;
    sig = k.raw(Z::be(em)).to_be(kl);
  }
  size_t salt = t.pick({(size_t)0, (size_t)-1, (size_t)20, (size_t)32, (size_t)200, (size_t)-2});
  unsigned bits = (unsigned)t.pick({512, 519, 520, 768, 1024, 0, 16392});
  t.show("key", key); t.show("message", msg); t.show("signature or ciphertext", sig); t.note("call %d %s", what, h.name);
  t.mix(key); t.mix(sig); t.mix(msg); t.mix64(what);
  t.nontrivial();
  Buf kb(key), mb(msg), sb(sig), lb(label), en(t.rnd(32));
  size_t kn = key.size(), mn = msg.size(), sn = sig.size(), len = 0;
  int r = 0;
  Watch w(t);
  size_t size = ((priv ? rsa_privkey_bits(kb, kn) : rsa_pubkey_bits(kb, kn)) + 7) / 8;
  const char *f = "";
  switch (what) {
    case 0: r = rsa_verify(h.id, mb, mn, sb, sn, kb, kn); f = "rsa_verify"; break;
    case 1: r = rsa_verify_pss(h.id, mb, mn, sb, sn, kb, kn, salt); f = "rsa_verify_pss"; break;
    case 2: { Out o(size); f = "rsa_encrypt"; r = rsa_encrypt(o, &len, mb, mn, kb, kn, en); if (r) w.wrote(f, o, len); break; }
    case 3: { Out o(size); f = "rsa_encrypt_oaep"; r = rsa_encrypt_oaep(o, &len, h.id, mb, mn, kb, kn, lb, label.size(), en); if (r) w.wrote(f, o, len); break; }
    case 4: {
      if (t.flip()) { Out o(std::max<size_t>((bits + 7) / 8, size)); f = "rsa_veil"; r = rsa_veil(o, &len, sb, sn, bits, kb, kn, en); if (r) w.wrote(f, o, len); }
      else { Out o(size); f = "rsa_unveil"; r = rsa_unveil(o, &len, sb, sn, bits, kb, kn); if (r) w.wrote(f, o, len); }
      break;
    }
    case 5: { Out o(size); f = "rsa_decrypt"; r = rsa_decrypt(o, &len, sb, sn, kb, kn, en); if (r) w.wrote(f, o, len); break; }
    case 6: { size_t want = t.range(0, 40); Out o(want); f = "rsa_decrypt_key"; r = rsa_decrypt_key(o, want, sb, sn, kb, kn, en); if (r) w.wrote(f, o, want); break; }
    case 7: { Out o(size); f = "rsa_decrypt_oaep"; r = rsa_decrypt_oaep(o, &len, h.id, sb, sn, kb, kn, lb, label.size(), en); if (r) w.wrote(f, o, len); break; }
    case 8: { Out o(size); f = "rsa_sign"; r = rsa_sign(o, &len, h.id, mb, mn, kb, kn, en); if (r) w.wrote(f, o, len); break; }
    default: { Out o(size); f = "rsa_sign_pss"; r = rsa_sign_pss(o, &len, h.id, mb, mn, kb, kn, salt, en); if (r) w.wrote(f, o, len); break; }
  }
  t.label("%s %s", f, r ? "accepted" : "refused");
  w.wrote(f, r);
  w.done(f);
}

PBT_PROP(C32, dsa, 16000, 160000, 0.02, 1.0) {
  const ref::DsaGroup &g = ref::dsa_pool(512, 160, (int)t.range(0, 2));
  Z x = gen_scalar(t, g.q), y = ref::powm(g.g, x, g.p);
  int kind = (int)t.range(0, 2), what = (int)t.range(0, 5);
  std::vector<Z> v = kind == 0 ? std::vector<Z>{g.p, g.q, g.g} : kind == 1 ? std::vector<Z>{y, g.p, g.q, g.g} : std::vector<Z>{g.p, g.q, g.g, y, x};
  bool plain = false;
  Bytes b = what == 2 ? flat_blob(t, v, &plain) : blob(t, v, kind == 2, &plain);
  Bytes sig = t.bytes(t.len_near({40, 39, 41, 56, 64, 0}, 70)), msg = t.bytes(t.len(40));
  if (what == 5 && kind == 2) b = g.priv(y, x), plain = true;  // derive: the other side's key is the damaged one
  t.show("key", b); t.note("kind %d call %d", kind, what);
  t.mix(b); t.mix64(kind * 8 + what); t.mix(sig);
  if (!plain || what == 5) t.nontrivial();
  Buf in(b), en(t.rnd(32)), sb(sig), mb(msg);
  size_t n = b.size(), len = 0;
  int r = 0;
  const char *f = "";
  Bytes pubblob = blob(t, {y, g.p, g.q, g.g}, false, &plain);
  Buf pb(pubblob);
  Watch w(t);
#define MADE(name, cap, call) { Out o(cap); f = name; r = call; if (r) w.wrote(name, o, len); break; }
  switch (kind * 6 + what) {
    case 0: r = dsa_params_bits(in, n) != 0; f = "dsa_params_bits"; break;
    case 1: r = dsa_params_verify(in, n); f = "dsa_params_verify"; break;
    case 2: MADE("dsa_params_import", DSA_MAX_PARAMS_SIZE, dsa_params_import(o, &len, in, n))
    case 3: MADE("dsa_params_export", DSA_MAX_PARAMS_SIZE, dsa_params_export(o, &len, in, n))
    case 4: r = dsa_params_qbits(in, n) != 0; f = "dsa_params_qbits"; break;
    case 5: MADE("dsa_params_create", DSA_MAX_PARAMS_SIZE, dsa_params_create(o, &len, pb, pubblob.size()))
    case 6: r = dsa_pubkey_bits(in, n) + dsa_pubkey_qbits(in, n) != 0; f = "dsa_pubkey_bits"; break;
    case 7: r = dsa_pubkey_verify(in, n); f = "dsa_pubkey_verify"; break;
    case 8: MADE("dsa_pubkey_import", DSA_MAX_PUB_SIZE, dsa_pubkey_import(o, &len, in, n))
    case 9: MADE("dsa_pubkey_export", DSA_MAX_PUB_SIZE, dsa_pubkey_export(o, &len, in, n))
    case 10: case 11: r = dsa_verify(mb, msg.size(), sb, sig.size(), in, n); f = "dsa_verify"; break;
    case 12: r = dsa_privkey_bits(in, n) + dsa_privkey_qbits(in, n) != 0; f = "dsa_privkey_bits"; break;
    case 13: r = dsa_privkey_verify(in, n); f = "dsa_privkey_verify"; break;
    case 14: MADE("dsa_privkey_import", DSA_MAX_PRIV_SIZE, dsa_privkey_import(o, &len, in, n))
    case 15: MADE("dsa_privkey_export", DSA_MAX_PRIV_SIZE, dsa_privkey_export(o, &len, in, n))
    case 16: MADE("dsa_pubkey_create", DSA_MAX_PUB_SIZE, dsa_pubkey_create(o, &len, in, n))
    default: MADE("dsa_derive", g.plen(), dsa_derive(o, &len, pb, pubblob.size(), in, n))
  }
#undef MADE
  t.label("%s %s", f, r ? "accepted" : "refused");
  w.wrote(f, r);
  w.done(f);
}

PBT_PROP(C32, signatures_der, 120000, 1200000, 0.005, 0.7) {
  bool dsa = t.chance(1, 3), plain = false, lax = t.flip();
  int id = (int)t.range(0, 5);
  const ref::Wei &c = ref::wei(id);
  wei_curve_t *ec = wei_ctx(id);
  size_t ss = wei_curve_scalar_size(ec), q = dsa ? (size_t)t.pick({20, 28, 32}) : ss;
  Z top = Z::pow2(8 * q);
  std::vector<Z> v{gen_int(t, dsa ? top : c.n, 8 * q), gen_int(t, dsa ? top : c.n, 8 * q)};
  Bytes b = blob(t, v, false, &plain);
  t.show("signature", b); t.note("dsa %d curve %d lax %d", dsa, id, lax);
  t.mix(b); t.mix64(dsa * 16 + lax * 8 + id);
  if (!plain) t.nontrivial();
  Buf in(b);
  size_t len = 0;
  Watch w(t);
  int r;
  if (dsa) {
    Out o(2 * q);
    r = dsa_sig_import(o, &len, in, b.size(), q);
    if (r) w.wrote("dsa_sig_import", o, len);
    Bytes raw = t.bytes(t.chance(3, 4) ? 2 * q : t.len(70));
    Buf rb(raw);
    Out e(DSA_MAX_DER_SIZE);
    if (dsa_sig_export(e, &len, rb, raw.size(), t.chance(1, 4) ? 0 : q)) w.wrote("dsa_sig_export", e, len);
  } else {
    Out o(2 * ss), e(ECDSA_MAX_DER_SIZE), z(2 * ss);
    r = lax ? ecdsa_sig_import_lax(ec, o, in, b.size()) : ecdsa_sig_import(ec, o, in, b.size());
    if (r) w.wrote("ecdsa_sig_import", o, 2 * ss);
    Bytes raw = t.flip() ? ref::cat(v[0].to_be(ss), v[1].to_be(ss), Bytes{}) : t.bytes(2 * ss);
    Buf rb(raw);
    if (ecdsa_sig_export(ec, e, &len, rb)) w.wrote("ecdsa_sig_export", e, len);
    if (ecdsa_sig_normalize(ec, z, rb)) w.wrote("ecdsa_sig_normalize", z, 2 * ss);
    int low = ecdsa_is_low_s(ec, rb);
    w.wrote("ecdsa_is_low_s", low);
  }
  t.label("%s", r ? "accepted" : "refused");
  w.wrote("sig_import", r);
  w.done("signature encoding");
}

// ------------------------------------------------------------------- curves

PBT_PROP(C32, weierstrass, 30000, 300000, 0.02, 0.6) {
  int id = pick_wei(t);
  const ref::Wei &c = ref::wei(id);
  wei_curve_t *ec = wei_ctx(id);
  size_t fs = wei_curve_field_size(ec), ss = wei_curve_scalar_size(ec);
  auto enc = [&](bool real) {
    size_t form = t.range(0, 2);
    Bytes x;
    if (real) {
      Bytes o(1 + 2 * fs);
      size_t n = o.size();
      ecdsa_pubkey_create(ec, o.data(), &n, gen_scalar(t, c.n).to_be(ss).data(), form == 0);
      o.resize(n);
      x = o;
    } else x = ref::cat(Bytes{(uint8_t)t.range(0, 8)}, gen_int(t, c.p, 8 * fs).to_be(fs), form ? gen_int(t, c.p, 8 * fs).to_be(fs) : Bytes{});
    if (t.chance(1, 3)) x = t.mutate(x, true);
    if (t.chance(1, 6)) x.resize(t.range(0, x.size()));
    if (t.chance(1, 20)) x.clear();
    return x;
  };
  Bytes p1 = enc(t.flip()), p2 = enc(true), k = gen_int(t, c.n, 8 * ss).to_be(ss), sig = t.bytes(2 * ss), msg = gen_msg(t, 140);
  Bytes raw = t.bytes(t.len_near({0, ss - 1, ss, ss + 1, fs}, 2 * ss + 3)), raw2 = t.bytes(t.len_near({0, fs - 1, fs, fs + 1}, 2 * fs + 3));
  int compact = t.flip(), what = (int)t.range(0, 21);
  size_t ps = ecdsa_pubkey_size(ec, compact), n = 0;
  unsigned par = (unsigned)t.pick({0, 1, 2, 3, 4, -1});
  t.show("key", p1); t.show("scalar", k); t.note("curve %d call %d", id, what);
  t.mix(p1); t.mix(k); t.mix(raw); t.mix64(id * 32 + what);
  t.nontrivial();
  Buf a(p1), b(p2), kb(k), sb(sig), mb(msg), rb(raw), r2(raw2), en(t.rnd(32));
  size_t an = p1.size(), bn = p2.size();
  Watch w(t);
  Out o(ps);
  int r = 0;
  const char *f = "";
#define PUB(name, call) { f = name; r = call; if (r) w.wrote(name, o, n); break; }
  switch (what) {
    case 0: f = "ecdsa_pubkey_verify"; r = ecdsa_pubkey_verify(ec, a, an); break;
    case 1: PUB("ecdsa_pubkey_convert", ecdsa_pubkey_convert(ec, o, &n, a, an, compact))
    case 2: PUB("ecdsa_pubkey_tweak_add", ecdsa_pubkey_tweak_add(ec, o, &n, a, an, kb, compact))
    case 3: PUB("ecdsa_pubkey_tweak_mul", ecdsa_pubkey_tweak_mul(ec, o, &n, a, an, kb, compact))
    case 4: PUB("ecdsa_pubkey_add", ecdsa_pubkey_add(ec, o, &n, a, an, b, bn, compact))
    case 5: PUB("ecdsa_pubkey_negate", ecdsa_pubkey_negate(ec, o, &n, a, an, compact))
    case 6: {
      const unsigned char *ps2[3] = {a, b, a};
      size_t ls[3] = {an, bn, an};
      PUB("ecdsa_pubkey_combine", ecdsa_pubkey_combine(ec, o, &n, ps2, ls, t.range(0, 3), compact))
    }
    case 7: PUB("ecdsa_derive", ecdsa_derive(ec, o, &n, a, an, kb, compact))
    case 8: PUB("ecdsa_recover", ecdsa_recover(ec, o, &n, mb, msg.size(), sb, par, compact))
    case 9: f = "ecdsa_verify"; r = ecdsa_verify(ec, mb, msg.size(), sb, a, an); break;
    case 10: { f = "ecdsa_privkey_import"; Out q(ss); r = ecdsa_privkey_import(ec, q, rb, raw.size()); if (r) w.wrote(f, q, ss); break; }
    case 11: PUB("ecdsa_pubkey_import", ecdsa_pubkey_import(ec, o, &n, rb, raw.size(), r2, raw2.size(), (int)t.range(0, 2) - 1, compact))
    case 12: { f = "ecdsa_pubkey_export"; Out x(fs), y(fs); r = ecdsa_pubkey_export(ec, x, y, a, an); if (r) { w.wrote(f, x, fs); w.wrote(f, y, fs); } break; }
    case 13: { f = "ecdsa_pubkey_to_uniform"; Out q(fs); r = ecdsa_pubkey_to_uniform(ec, q, a, an, par & 0xff); if (r) w.wrote(f, q, fs); break; }
    case 14: { f = "ecdsa_pubkey_to_hash"; Out q(2 * fs); r = ecdsa_pubkey_to_hash(ec, q, a, an, 0, en); if (r) w.wrote(f, q, 2 * fs); break; }
    case 15: { f = "bipschnorr_verify"; if (!bipschnorr_support(ec)) break; Buf s2(t.rnd(fs + ss)); r = bipschnorr_verify(ec, mb, msg.size(), s2, a, an); break; }
    case 16: { f = "bip340_verify"; Bytes x = gen_int(t, c.p, 8 * fs).to_be(fs); Buf xb(x), s2(t.rnd(fs + ss)); r = bip340_verify(ec, mb, msg.size(), s2, xb); break; }
    case 17: { f = "bip340_pubkey_import"; Out q(fs); r = bip340_pubkey_import(ec, q, rb, raw.size(), r2, raw2.size()); if (r) w.wrote(f, q, fs); break; }
    case 18: { f = "bip340_privkey_import"; Out q(ss); r = bip340_privkey_import(ec, q, rb, raw.size()); if (r) w.wrote(f, q, ss); break; }
    case 19: { f = "bip340_pubkey_export"; Buf xb(gen_int(t, c.p, 8 * fs).to_be(fs)); Out x(fs), y(fs); r = bip340_pubkey_export(ec, x, y, xb); if (r) { w.wrote(f, x, fs); w.wrote(f, y, fs); } break; }
    case 20: { f = "bip340_pubkey_tweak_add"; Buf xb(gen_int(t, c.p, 8 * fs).to_be(fs)); Out q(fs); int neg; VALGRIND_MAKE_MEM_UNDEFINED(&neg, sizeof neg); r = bip340_pubkey_tweak_add(ec, q, &neg, xb, kb); if (r) { w.wrote(f, q, fs); w.wrote(f, neg); } break; }
    default: { f = "bip340_derive"; Buf xb(gen_int(t, c.p, 8 * fs).to_be(fs)); Out q(fs); r = bip340_derive(ec, q, xb, kb); if (r) w.wrote(f, q, fs); break; }
  }
#undef PUB
  t.label("%s %s", f, r ? "accepted" : "refused");
  w.wrote(f, r);
  w.done(f);
}

PBT_PROP(C32, edwards_montgomery, 30000, 300000, 0.02, 0.6) {
  int id = pick_edw(t), mid = id == 1 ? 1 : 0;
  const ref::Edw &c = ref::edw(id);
  edwards_curve_t *ec = edw_ctx(id);
  mont_curve_t *mc = mont_ctx(mid);
  size_t fs = edwards_curve_field_size(ec), ss = edwards_curve_scalar_size(ec), as = eddsa_privkey_size(ec), ps = eddsa_pubkey_size(ec);
  size_t mf = mont_curve_field_size(mc), ms = mont_curve_scalar_size(mc), rs = ristretto_pubkey_size(ec);
  Bytes p1(ps);
  if (t.flip()) eddsa_pubkey_create(ec, p1.data(), t.rnd(as).data());
  else p1 = gen_int(t, c.p, 8 * ps).to_le(ps);
  if (t.chance(1, 4)) t.flip_bit(p1);
  Bytes k = gen_int(t, c.n, 8 * ss).to_le(ss), sig = t.bytes(2 * ps), msg = gen_msg(t, 140), cx = t.bytes(t.len(20));
  Bytes u = gen_int(t, c.p, 8 * mf).to_le(mf), mk = t.bytes(ms), rp = gen_int(t, c.p, 8 * rs).to_le(rs);
  Bytes raw = t.bytes(t.len_near({0, fs - 1, fs, fs + 1, as, ss}, 2 * fs + 3)), raw2 = t.bytes(t.len_near({0, fs - 1, fs, fs + 1}, 2 * fs + 3));
  int what = (int)t.range(0, 23), sign = (int)t.range(0, 2) - 1, ph = (int)t.range(0, 2) - 1;
  if (id == 1 && ph < 0) ph = 0;
  unsigned hint = (unsigned)t.range(0, 15);
  t.show("key", p1); t.show("u", u); t.note("curve %d call %d", id, what);
  t.mix(p1); t.mix(k); t.mix(raw); t.mix64(id * 32 + what); t.mix(u); t.mix(rp);
  t.nontrivial();
  Buf a(p1), kb(k), sb(sig), mb(msg), cb(cx), ub(u), mkb(mk), rpb(rp), rb(raw), r2(raw2), en(t.rnd(32)), pv(t.rnd(as));
  Watch w(t);
  int r = 0;
  const char *f = "";
#define ONE(name, cap, call) { Out o(cap); f = name; r = call; if (r) w.wrote(name, o, cap); break; }
  switch (what) {
    case 0: f = "eddsa_pubkey_verify"; r = eddsa_pubkey_verify(ec, a); break;
    case 1: f = "eddsa_verify"; r = eddsa_verify(ec, mb, msg.size(), sb, a, ph, cb, cx.size()); break;
    case 2: f = "eddsa_verify_single"; r = eddsa_verify_single(ec, mb, msg.size(), sb, a, ph, cb, cx.size()); break;
    case 3: { f = "eddsa_pubkey_export"; Out x(fs), y(fs); r = eddsa_pubkey_export(ec, x, y, a); if (r) { w.wrote(f, x, fs); w.wrote(f, y, fs); } break; }
    case 4: ONE("eddsa_pubkey_import", ps, eddsa_pubkey_import(ec, o, rb, raw.size(), r2, raw2.size(), sign))
    case 5: ONE("eddsa_privkey_import", as, eddsa_privkey_import(ec, o, rb, raw.size()))
    case 6: ONE("eddsa_pubkey_tweak_add", ps, eddsa_pubkey_tweak_add(ec, o, a, kb))
    case 7: ONE("eddsa_pubkey_tweak_mul", ps, eddsa_pubkey_tweak_mul(ec, o, a, kb))
    case 8: ONE("eddsa_pubkey_add", ps, eddsa_pubkey_add(ec, o, a, a))
    case 9: ONE("eddsa_pubkey_negate", ps, eddsa_pubkey_negate(ec, o, a))
    case 10: ONE("eddsa_derive", ps, eddsa_derive(ec, o, a, pv))
    case 11: ONE("eddsa_derive_with_scalar", ps, eddsa_derive_with_scalar(ec, o, a, kb))
    case 12: ONE("eddsa_pubkey_to_uniform", fs, eddsa_pubkey_to_uniform(ec, o, a, hint))
    case 13: ONE("eddsa_pubkey_to_hash", 2 * fs, eddsa_pubkey_to_hash(ec, o, a, 0, en))
    case 14: f = "eddsa_pubkey_is_*"; r = eddsa_pubkey_is_small(ec, a) + eddsa_pubkey_is_infinity(ec, a) + eddsa_pubkey_has_torsion(ec, a); break;
    case 15: ONE("eddsa_pubkey_convert", mf, id < 2 ? eddsa_pubkey_convert(ec, o, a) : 0)
    case 16: ONE("ecdh_derive", mf, ecdh_derive(mc, o, ub, mkb))
    case 17: ONE("ecdh_pubkey_import", mf, ecdh_pubkey_import(mc, o, rb, raw.size(), r2, raw2.size()))
    case 18: ONE("ecdh_privkey_import", ms, ecdh_privkey_import(mc, o, rb, raw.size()))
    case 19: { f = "ecdh_pubkey_export"; Out x(mf), y(mf); r = ecdh_pubkey_export(mc, x, y, ub, sign); if (r) { w.wrote(f, x, mf); w.wrote(f, y, mf); } break; }
    case 20: ONE("ecdh_pubkey_to_uniform", mf, ecdh_pubkey_to_uniform(mc, o, ub, hint))
    case 21: f = "ecdh_pubkey_is_*"; r = ecdh_pubkey_verify(mc, ub) + ecdh_pubkey_is_small(mc, ub) + ecdh_pubkey_has_torsion(mc, ub); break;
    case 22: ONE("ristretto_derive", rs, ristretto_derive(ec, o, rpb, kb))
    default: ONE("ristretto_pubkey_tweak_add", rs, ristretto_pubkey_tweak_add(ec, o, rpb, kb))
  }
#undef ONE
  t.label("%s %s", f, r ? "accepted" : "refused");
  w.wrote(f, r);
  w.done(f);
}

// ------------------------------------------------------------------ ciphers

PBT_PROP(C32, cipher_streams, 150000, 1500000, 0.006, 0.7) {
  cipher_id_t id = (cipher_id_t)t.range(0, CIPHER_TWOFISH256);
  mode_id_t mode = (mode_id_t)t.range(0, CIPHER_MODE_EAX);
  int enc = t.flip();
  size_t ks = cipher_key_size(id), bs = cipher_block_size(id);
  if (mode == CIPHER_MODE_XTS) ks *= 2;
  Bytes key = t.bytes(t.chance(1, 8) ? t.len(70) : ks);
  if (mode == CIPHER_MODE_XTS && key.size() == ks && ks) key[0] ^= 1;
  size_t ivn = mode <= CIPHER_MODE_ECB ? 0 : mode >= CIPHER_MODE_GCM ? 12 : bs;
  Bytes iv = t.bytes(t.chance(1, 8) ? t.len(40) : ivn);
  t.note("cipher %d mode %d encrypt %d", (int)id, (int)mode, enc); t.show("key", key); t.show("iv", iv);
  t.mix(key); t.mix(iv); t.mix64(id * 32 + mode * 2 + enc);
  Watch w(t);
  Buf kb(key), ib(iv);
  {
    std::unique_ptr<cipher_stream_t, void (*)(void *)> c((cipher_stream_t *)malloc(sizeof(cipher_stream_t)), free);
    int r = cipher_stream_init(c.get(), id, mode, enc, kb, key.size(), ib, iv.size());
    t.label("init %s", r ? "accepted" : "refused");
    if (r) {
      size_t total = 0, steps = t.range(0, 5);
      Bytes msg;
      std::vector<size_t> parts;
      for (size_t i = 0; i < steps; i++) { parts.push_back(t.len_block(bs, 70)); total += parts.back(); }
      if (t.chance(1, 4)) cipher_stream_set_padding(c.get(), t.flip());
      if (t.chance(1, 3)) { Bytes a = t.bytes(t.len_block(16, 60)); Buf ab(a); cipher_stream_set_aad(c.get(), ab, a.size()); }
      bool ready = mode != CIPHER_MODE_CCM;
      if (mode == CIPHER_MODE_CCM || t.chance(1, 8)) {
        Bytes a = t.bytes(t.len_block(16, 60));
        Buf ab(a);
        ready |= cipher_stream_set_ccm(c.get(), total, (size_t)t.pick({16, 4, 8, 10, 12, 14, 0, 3, 17, 32}), ab, a.size()) != 0;
      }
      if (t.chance(1, 2)) { Bytes g = t.bytes(t.len_near({16, 4, 8, 12, 17}, 20)); Buf gb(g); cipher_stream_set_tag(c.get(), gb, g.size()); }
      if (ready) {
        for (size_t n : parts) {
          Bytes m = t.bytes(n);
          t.mix(m);
          Buf in(m);
          size_t len = 0;
          if (t.chance(1, 6)) {
            Out o(n);
            if (cipher_stream_crypt(c.get(), o, in, n)) w.wrote("cipher_stream_crypt", o, n);
            continue;
          }
          Out o(cipher_stream_update_size(c.get(), n));
          cipher_stream_update(c.get(), o, &len, in, n);
          w.wrote("cipher_stream_update", o, len);
          if (n) t.nontrivial();
        }
        Out o(cipher_stream_final_size(c.get())), tag(CIPHER_MAX_TAG_SIZE);
        size_t len = 0;
        int q = cipher_stream_final(c.get(), o, &len);
        w.wrote("cipher_stream_final", q);
        if (q) w.wrote("cipher_stream_final", o, len);
        if (cipher_stream_get_tag(c.get(), tag, &len)) w.wrote("cipher_stream_get_tag", tag, len);
      }
    }
  }
  Bytes m = t.bytes(t.len_block(bs, 70));
  t.mix(m);
  Buf in(m);
  Out o(enc ? CIPHER_MAX_ENCRYPT_SIZE(m.size()) : CIPHER_MAX_DECRYPT_SIZE(m.size()));
  size_t len = 0;
  int r = enc ? cipher_static_encrypt(o, &len, id, mode, kb, key.size(), ib, iv.size(), in, m.size()) : cipher_static_decrypt(o, &len, id, mode, kb, key.size(), ib, iv.size(), in, m.size());
  if (r) w.wrote("cipher_static", o, len);
  t.nontrivial();
  w.done("cipher call");
}

PBT_PROP(C32, padding_boxes, 100000, 1000000, 0.005, 0.7) {
  Watch w(t);
  if (t.flip()) {
    size_t bs = t.pick({8, 16});
    Bytes b = t.bytes(bs);
    if (t.chance(2, 3)) { size_t n = t.range(0, bs + 1); for (size_t i = 0; i < n && i < bs; i++) b[bs - 1 - i] = (uint8_t)n; }
    t.show("block", b); t.mix(b);
    Buf in(b);
    Out o(bs);
    size_t len = 0;
    int r = pkcs7_unpad(o, &len, in, bs);
    if (r) w.wrote("pkcs7_unpad", o, len);
    Bytes m = t.bytes(t.range(0, bs - 1));
    Buf mb(m);
    Out q(bs);
    pkcs7_pad(q, mb, m.size(), bs);
    w.wrote("pkcs7_pad", q, bs);
    t.label("unpad %s", r ? "accepted" : "refused");
  } else {
    Bytes key = t.rnd(32), nonce = t.rnd(24), s = t.bytes(t.len_near({0, 15, 16, 17, 48, 80}, 120));
    Buf kb(key), nb(nonce);
    if (t.flip()) {
      Bytes m = t.bytes(t.len(80));
      Buf mb(m);
      Out o(SECRETBOX_SEAL_SIZE(m.size()));
      secretbox_seal(o, mb, m.size(), kb, nb);
      w.wrote("secretbox_seal", o, o.n);
      s = o.get();
      if (t.flip()) s = t.mutate(s, true);
    }
    t.show("box", s); t.mix(s);
    Buf in(s);
    Out o(SECRETBOX_OPEN_SIZE(s.size()));
    int r = secretbox_open(o, in, s.size(), kb, nb);
    if (r) w.wrote("secretbox_open", o, o.n);
    t.label("box %s", r ? "accepted" : "refused");
  }
  t.nontrivial();
  w.done("padding or box");
}

// ------------------------------------------- records, numbers, byte consumers

PBT_PROP(C32, bcrypt_records, 3000, 30000, 0.01, 0.5) {
  static const char al[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789$";
  std::string s = "$2" + std::string(1, "abxy"[t.range(0, 3)]) + "$04$";
  for (int i = 0; i < 53; i++) s += al[t.range(0, 63)];
  switch (t.weighted({1, 4, 3, 2})) {
    case 0: break;
    case 1: { Bytes m = t.mutate(Bytes(s.begin(), s.end()), true); s.assign(m.begin(), m.end()); s = s.c_str(); break; }
    case 2: s.resize(t.range(0, s.size())); break;
    default: s += std::string(t.range(1, 20), al[t.range(0, 64)]); break;
  }
  // keep the work factor small however the record is read
  for (size_t i = 0; i + 1 < s.size() && i < 8; i++) if (isdigit((unsigned char)s[i]) && isdigit((unsigned char)s[i + 1])) { s[i] = '0'; if (s[i + 1] > '4') s[i + 1] = '4'; i++; }
  Bytes pass = t.bytes(t.len_near({0, 71, 72, 73}, 80));
  t.note("%s", s.c_str()); t.mix(s.data(), s.size()); t.mix(pass);
  Buf rb(Bytes(s.c_str(), s.c_str() + s.size() + 1)), pb(pass);
  t.nontrivial();
  Watch w(t);
  int r;
  if (t.flip()) r = bcrypt_verify(pb, pass.size(), (const char *)rb.p);
  else {
    Bytes z = pass;
    for (auto &x : z) if (!x) x = 1;
    z.push_back(0);
    Buf zb(z);
    r = bcrypt_check((const char *)zb.p, (const char *)rb.p);
  }
  w.wrote("bcrypt_verify", r);
  w.done("bcrypt_verify");
}

PBT_PROP(C32, numbers, 100000, 1000000, 0.005, 0.7) {
  static const char al[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  int base = (int)t.pick({0, 2, 3, 7, 8, 10, 10, 16, 16, 32, 36, 37, 58, 62, 63, 1, -1, 255});
  size_t n = t.len(t.chance(1, 10) ? 400 : 60);
  std::string s;
  size_t lim = base >= 2 && base <= 62 ? (size_t)base : 16;
  for (size_t i = 0; i < n; i++) s += t.chance(1, 60) ? (char)t.range(1, 255) : al[t.range(0, lim - 1)];
  s = t.pick(std::vector<std::string>{"", "-", "+", " ", "0x", "0b", "0o", "-0x", "0", "\n -"}) + s;
  t.note("\"%s\" base %d", s.c_str(), base); t.mix(s.data(), s.size()); t.mix64(base);
  t.nontrivial();
  Buf in(Bytes(s.c_str(), s.c_str() + s.size() + 1));
  Watch w(t);
  mpz_t z;
  mpz_init(z);
  int r = mpz_set_str(z, (const char *)in.p, base);
  w.wrote("mpz_set_str", r);
  if (r) {
    int ob = (int)t.range(2, 62);
    char *o = mpz_get_str(z, ob);
    EXPECT(t, o && !VALGRIND_CHECK_MEM_IS_DEFINED(o, strlen(o) + 1), "mpz_get_str left bytes unset");
    free(o);
  }
  mpz_clear(z);
  size_t zn = t.range(0, 12);
  Out l(8 * zn);
  r = mpn_set_str((mp_limb_t *)l.p, (mp_size_t)zn, (const char *)in.p, base);
  if (r) w.wrote("mpn_set_str", l, 8 * zn);
  Bytes raw = t.bytes(t.len_block(8, 100));
  Buf rb(raw);
  int endian = t.flip() ? 1 : -1;
  size_t want = (raw.size() + 7) / 8;
  Out q(8 * want);
  mpn_import((mp_limb_t *)q.p, (mp_size_t)want, rb, raw.size(), endian);
  w.wrote("mpn_import", q, 8 * want);
  mpz_init(z);
  mpz_import(z, rb, raw.size(), endian);
  size_t ol = t.range(raw.size(), raw.size() + 9);
  Out e(ol);
  mpz_export(e, z, ol, endian);
  w.wrote("mpz_export", e, ol);
  mpz_clear(z);
  w.done("number conversion");
}

PBT_PROP(C32, consumers, 100000, 1000000, 0.005, 0.7) {
  Watch w(t);
  int what = (int)t.range(0, 7);
  const HashName &h = pick_hash(t);
  size_t bs = hash_block_size(h.id), hs = hash_output_size(h.id);
  Bytes m = t.bytes(t.len_block(bs, 3 * bs + 4)), k = t.bytes(t.len_near({0, 16, 32, 33, bs, bs + 1}, 2 * bs));
  t.show("data", m); t.note("call %d %s", what, h.name);
  t.mix(m); t.mix(k); t.mix64(what); t.mix(h.name, strlen(h.name));
  if (!m.empty()) t.nontrivial();
  Buf kb(k);
  auto pieces = [&](const std::function<void(const uint8_t *, size_t)> &f, size_t block) {
    size_t at = 0;
    for (size_t n : t.partition(m.size(), block)) {
      Buf b(Bytes(m.begin() + at, m.begin() + at + n));
      f(b, n);
      at += n;
    }
  };
  switch (what) {
    case 0: {
      std::unique_ptr<hash_t, void (*)(void *)> c((hash_t *)malloc(sizeof(hash_t)), free);
      hash_init(c.get(), h.id);
      pieces([&](const uint8_t *p, size_t n) { hash_update(c.get(), p, n); }, bs);
      Out o(hs);
      hash_final(c.get(), o, hs);
      w.wrote("hash_final", o, hs);
      break;
    }
    case 1: {
      std::unique_ptr<hmac_t, void (*)(void *)> c((hmac_t *)malloc(sizeof(hmac_t)), free);
      hmac_init(c.get(), h.id, kb, k.size());
      pieces([&](const uint8_t *p, size_t n) { hmac_update(c.get(), p, n); }, bs);
      Out o(hs);
      hmac_final(c.get(), o);
      w.wrote("hmac_final", o, hs);
      break;
    }
    case 2: {
      std::unique_ptr<poly1305_t, void (*)(void *)> c((poly1305_t *)malloc(sizeof(poly1305_t)), free);
      Buf key(t.rnd(32));
      poly1305_init(c.get(), key);
      pieces([&](const uint8_t *p, size_t n) { poly1305_update(c.get(), p, n); }, 16);
      Out o(16);
      poly1305_final(c.get(), o);
      w.wrote("poly1305_final", o, 16);
      break;
    }
    case 3: {
      Buf key(t.rnd(16)), key2(t.rnd(32)), in(m);
      uint64_t a = siphash_sum(in, m.size(), key), b = siphash128_sum(m.size(), key), d = siphash256_sum(m.size(), key2);
      uint32_t e = murmur3_sum(in, m.size(), 7);
      w.wrote("siphash_sum", a); w.wrote("siphash128_sum", b); w.wrote("siphash256_sum", d); w.wrote("murmur3_sum", e);
      break;
    }
    case 4: {
      std::unique_ptr<chachapoly_t, void (*)(void *)> c((chachapoly_t *)malloc(sizeof(chachapoly_t)), free);
      Buf key(t.rnd(32));
      size_t ivn = t.pick({8, 12, 16, 24});
      Buf iv(t.rnd(ivn)), aad(k);
      chachapoly_init(c.get(), key, iv, ivn);
      chachapoly_aad(c.get(), aad, k.size());
      bool e = t.flip();
      pieces([&](const uint8_t *p, size_t n) { Out o(n); e ? chachapoly_encrypt(c.get(), o, p, n) : chachapoly_decrypt(c.get(), o, p, n); w.wrote("chachapoly", o, n); }, 64);
      Out o(16);
      chachapoly_final(c.get(), o);
      w.wrote("chachapoly_final", o, 16);
      break;
    }
    case 5: {
      std::unique_ptr<arc4_t, void (*)(void *)> a((arc4_t *)malloc(sizeof(arc4_t)), free);
      std::unique_ptr<salsa20_t, void (*)(void *)> s((salsa20_t *)malloc(sizeof(salsa20_t)), free);
      std::unique_ptr<chacha20_t, void (*)(void *)> c((chacha20_t *)malloc(sizeof(chacha20_t)), free);
      size_t kn = t.pick({16, 32}), ivn = t.pick({8, 12, 16, 24});
      if (ivn == 24) kn = 32;
      Buf key(t.rnd(kn)), iv(t.rnd(ivn)), ak(t.rnd(t.range(1, 256)));
      int which = (int)t.range(0, 2);
      if (which == 0) arc4_init(a.get(), ak, ak.n);
      else if (which == 1) salsa20_init(s.get(), key, kn, iv, ivn, t.byte());
      else chacha20_init(c.get(), key, kn, iv, ivn, t.byte());
      pieces([&](const uint8_t *p, size_t n) {
        Out o(n);
        if (which == 0) arc4_crypt(a.get(), o, p, n);
        else if (which == 1) salsa20_crypt(s.get(), o, p, n);
        else chacha20_crypt(c.get(), o, p, n);
        w.wrote("stream cipher", o, n);
      }, 64);
      break;
    }
    case 6: {
      Buf salt(m);
      size_t len = t.len_block(hs, 3 * hs);
      Out o(len), q(hs), x(t.range(0, 40)), y(t.range(0, 40));
      if (pbkdf2_derive(o, h.id, kb, k.size(), salt, m.size(), 1, len)) w.wrote("pbkdf2_derive", o, len);
      if (hkdf_extract(q, h.id, kb, k.size(), salt, m.size())) { w.wrote("hkdf_extract", q, hs); Out e(len); if (hkdf_expand(e, h.id, q, salt, m.size(), len)) w.wrote("hkdf_expand", e, len); }
      Buf s8(t.rnd(8));
      if (eb2k_derive(x, y, h.id, kb, k.size(), s8, t.flip() ? 8 : 0, x.n, y.n)) { w.wrote("eb2k_derive", x, x.n); w.wrote("eb2k_derive", y, y.n); }
      Out g(len);
      if (pgpdf_derive_iterated(g, h.id, kb, k.size(), salt, m.size(), t.len(3000), len)) w.wrote("pgpdf_derive_iterated", g, len);
      break;
    }
    default: {
      Buf seed(m), add(k);
      size_t len = t.len(100);
      Out o(len), p(len), q(len);
      std::unique_ptr<hmac_drbg_t, void (*)(void *)> a((hmac_drbg_t *)malloc(sizeof(hmac_drbg_t)), free);
      std::unique_ptr<hash_drbg_t, void (*)(void *)> b((hash_drbg_t *)malloc(sizeof(hash_drbg_t)), free);
      std::unique_ptr<ctr_drbg_t, void (*)(void *)> c((ctr_drbg_t *)malloc(sizeof(ctr_drbg_t)), free);
      hmac_drbg_init(a.get(), h.id, seed, m.size());
      hmac_drbg_generate(a.get(), o, len, add, k.size());
      w.wrote("hmac_drbg_generate", o, len);
      hash_drbg_init(b.get(), h.id, seed, m.size());
      hash_drbg_generate(b.get(), p, len, add, k.size());
      w.wrote("hash_drbg_generate", p, len);
      unsigned bits = (unsigned)t.pick({128, 192, 256});
      ctr_drbg_init(c.get(), bits, t.flip(), seed, m.size(), add, k.size());
      ctr_drbg_generate(c.get(), q, len, add, k.size());
      w.wrote("ctr_drbg_generate", q, len);
      break;
    }
  }
  w.done("byte consumer");
}
