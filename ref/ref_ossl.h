// RSA and DSA through OpenSSL, as a second opinion beside the integer model.
#pragma once
#include "ref_rsa.h"

namespace ref {
bool ossl_has(const std::string &hash);
bool ossl_rsa_verify(const RsaKey &k, const std::string &hash, const Bytes &digest, const Bytes &sig);
// salt: length, or -2 for any
bool ossl_rsa_verify_pss(const RsaKey &k, const std::string &hash, const Bytes &digest, const Bytes &sig, int salt);
Bytes ossl_rsa_sign(const RsaKey &k, const std::string &hash, const Bytes &digest);
Bytes ossl_rsa_sign_pss(const RsaKey &k, const std::string &hash, const Bytes &digest, int salt);
Bytes ossl_rsa_encrypt(const RsaKey &k, const Bytes &msg);
bool ossl_rsa_decrypt(const RsaKey &k, const Bytes &c, Bytes &msg);
Bytes ossl_rsa_encrypt_oaep(const RsaKey &k, const std::string &hash, const Bytes &label, const Bytes &msg);
bool ossl_rsa_decrypt_oaep(const RsaKey &k, const std::string &hash, const Bytes &label, const Bytes &c, Bytes &msg);
bool ossl_rsa_load_priv(const Bytes &der);  // parsed and consistent
Bytes ossl_dsa_sign(const Z &p, const Z &q, const Z &g, const Z &y, const Z &x, const Bytes &digest);  // r || s, each of q's size
bool ossl_dsa_verify(const Z &p, const Z &q, const Z &g, const Z &y, const Bytes &digest, const Bytes &rs);
}  // namespace ref
