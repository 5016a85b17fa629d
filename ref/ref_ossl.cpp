#define OPENSSL_SUPPRESS_DEPRECATED
#include "ref_ossl.h"
#include <openssl/dsa.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <cstdlib>
#include <memory>

namespace ref {
namespace {
BIGNUM *bn(const Z &z) {
  Bytes b = z.to_be((z.bits() + 7) / 8);
  return BN_bin2bn(b.data(), (int)b.size(), nullptr);
}
struct Rsa {
  RSA *r;
  Rsa(const RsaKey &k) : r(RSA_new()) {
    RSA_set0_key(r, bn(k.n), bn(k.e), bn(k.d));
    RSA_set0_factors(r, bn(k.p), bn(k.q));
    RSA_set0_crt_params(r, bn(k.dp), bn(k.dq), bn(k.qi));
  }
  ~Rsa() { RSA_free(r); ERR_clear_error(); }
};
const EVP_MD *md(const std::string &h) {
  if (h == "md5") return EVP_md5();
  if (h == "sha1") return EVP_sha1();
  if (h == "sha224") return EVP_sha224();
  if (h == "sha256") return EVP_sha256();
  if (h == "sha384") return EVP_sha384();
  if (h == "sha512") return EVP_sha512();
  if (h == "sha3_224") return EVP_sha3_224();
  if (h == "sha3_256") return EVP_sha3_256();
  if (h == "sha3_384") return EVP_sha3_384();
  if (h == "sha3_512") return EVP_sha3_512();
  return nullptr;
}
}  // namespace

bool ossl_has(const std::string &h) { return md(h) != nullptr; }
bool ossl_rsa_verify(const RsaKey &k, const std::string &h, const Bytes &digest, const Bytes &sig) {
  Rsa r(k);
  return RSA_verify(EVP_MD_type(md(h)), digest.data(), (unsigned)digest.size(), sig.data(), (unsigned)sig.size(), r.r) == 1;
}
bool ossl_rsa_verify_pss(const RsaKey &k, const std::string &h, const Bytes &digest, const Bytes &sig, int salt) {
  Rsa r(k);
  Bytes em(k.klen());
  if (RSA_public_decrypt((int)sig.size(), sig.data(), em.data(), r.r, RSA_NO_PADDING) != (int)em.size()) return false;
  return RSA_verify_PKCS1_PSS(r.r, digest.data(), md(h), em.data(), salt) == 1;
}
Bytes ossl_rsa_sign(const RsaKey &k, const std::string &h, const Bytes &digest) {
  Rsa r(k);
  Bytes sig(k.klen());
  unsigned n = 0;
  if (RSA_sign(EVP_MD_type(md(h)), digest.data(), (unsigned)digest.size(), sig.data(), &n, r.r) != 1) return Bytes();
  return sig;
}
Bytes ossl_rsa_sign_pss(const RsaKey &k, const std::string &h, const Bytes &digest, int salt) {
  Rsa r(k);
  Bytes em(k.klen()), sig(k.klen());
  if (RSA_padding_add_PKCS1_PSS(r.r, em.data(), digest.data(), md(h), salt) != 1) return Bytes();
  if (RSA_private_encrypt((int)em.size(), em.data(), sig.data(), r.r, RSA_NO_PADDING) != (int)em.size()) return Bytes();
  return sig;
}
Bytes ossl_rsa_encrypt(const RsaKey &k, const Bytes &msg) {
  Rsa r(k);
  Bytes c(k.klen());
  if (RSA_public_encrypt((int)msg.size(), msg.data(), c.data(), r.r, RSA_PKCS1_PADDING) != (int)c.size()) return Bytes();
  return c;
}
bool ossl_rsa_decrypt(const RsaKey &k, const Bytes &c, Bytes &msg) {
  Rsa r(k);
  msg.assign(k.klen(), 0);
  int n = RSA_private_decrypt((int)c.size(), c.data(), msg.data(), r.r, RSA_PKCS1_PADDING);
  if (n < 0) return false;
  msg.resize(n);
  return true;
}
Bytes ossl_rsa_encrypt_oaep(const RsaKey &k, const std::string &h, const Bytes &label, const Bytes &msg) {
  Rsa r(k);
  Bytes em(k.klen()), c(k.klen());
  if (RSA_padding_add_PKCS1_OAEP_mgf1(em.data(), (int)em.size(), msg.data(), (int)msg.size(), label.data(), (int)label.size(), md(h), md(h)) != 1) return Bytes();
  if (RSA_public_encrypt((int)em.size(), em.data(), c.data(), r.r, RSA_NO_PADDING) != (int)c.size()) return Bytes();
  return c;
}
bool ossl_rsa_decrypt_oaep(const RsaKey &k, const std::string &h, const Bytes &label, const Bytes &c, Bytes &msg) {
  Rsa r(k);
  Bytes em(k.klen());
  if (RSA_private_decrypt((int)c.size(), c.data(), em.data(), r.r, RSA_NO_PADDING) != (int)em.size()) return false;
  msg.assign(k.klen(), 0);
  int n = RSA_padding_check_PKCS1_OAEP_mgf1(msg.data(), (int)msg.size(), em.data(), (int)em.size(), (int)em.size(), label.data(), (int)label.size(), md(h), md(h));
  if (n < 0) return false;
  msg.resize(n);
  return true;
}
bool ossl_rsa_load_priv(const Bytes &der) {
  const unsigned char *p = der.data();
  RSA *r = d2i_RSAPrivateKey(nullptr, &p, (long)der.size());
  bool ok = r && p == der.data() + der.size() && RSA_check_key(r) == 1;
  RSA_free(r);
  ERR_clear_error();
  return ok;
}
static DSA *dsa(const Z &p, const Z &q, const Z &g, const Z &y, const Z *x) {
  DSA *d = DSA_new();
  DSA_set0_pqg(d, bn(p), bn(q), bn(g));
  DSA_set0_key(d, bn(y), x ? bn(*x) : nullptr);
  return d;
}
Bytes ossl_dsa_sign(const Z &p, const Z &q, const Z &g, const Z &y, const Z &x, const Bytes &digest) {
  DSA *d = dsa(p, q, g, y, &x);
  DSA_SIG *s = DSA_do_sign(digest.data(), (int)digest.size(), d);
  Bytes out;
  if (s) {
    const BIGNUM *a, *b;
    DSA_SIG_get0(s, &a, &b);
    size_t n = (q.bits() + 7) / 8;
    out.resize(2 * n);
    BN_bn2binpad(a, out.data(), (int)n);
    BN_bn2binpad(b, out.data() + n, (int)n);
    DSA_SIG_free(s);
  }
  DSA_free(d);
  ERR_clear_error();
  return out;
}
bool ossl_dsa_verify(const Z &p, const Z &q, const Z &g, const Z &y, const Bytes &digest, const Bytes &rs) {
  DSA *d = dsa(p, q, g, y, nullptr);
  DSA_SIG *s = DSA_SIG_new();
  size_t n = rs.size() / 2;
  DSA_SIG_set0(s, BN_bin2bn(rs.data(), (int)n, nullptr), BN_bin2bn(rs.data() + n, (int)n, nullptr));
  int r = DSA_do_verify(digest.data(), (int)digest.size(), s, d);
  DSA_SIG_free(s);
  DSA_free(d);
  ERR_clear_error();
  return r == 1;
}
}  // namespace ref
