// Reference block ciphers, modes of operation and stream ciphers.
#pragma once
#include <memory>
#include <string>
#include "ref_hash.h"

namespace ref {

class BlockCipher {
 public:
  virtual ~BlockCipher() {}
  virtual size_t size() const = 0;
  virtual void enc(const uint8_t *in, uint8_t *out) const = 0;
  virtual void dec(const uint8_t *in, uint8_t *out) const = 0;
  Bytes E(const Bytes &b) const { Bytes o(size()); enc(b.data(), o.data()); return o; }
  Bytes D(const Bytes &b) const { Bytes o(size()); dec(b.data(), o.data()); return o; }
};

// family: aes, rc2 (param = effective bits), blowfish, camellia, cast5, des,
// idea, serpent, twofish.  DES with 8, 16 or 24 byte keys.
std::unique_ptr<BlockCipher> block_cipher(const std::string &family, const Bytes &key, unsigned param = 0);

// Modes over whole messages.  The *_nopad forms need whole blocks.
Bytes pkcs7(const Bytes &m, size_t bs);
bool unpkcs7(Bytes &m, size_t bs);
Bytes ecb(const BlockCipher &c, bool enc, const Bytes &m);
Bytes cbc(const BlockCipher &c, bool enc, const Bytes &iv, const Bytes &m);
Bytes cbc_cts_enc(const BlockCipher &c, const Bytes &iv, const Bytes &m);
Bytes ecb_cts_enc(const BlockCipher &c, const Bytes &m);
Bytes xts_enc(const BlockCipher &c, const BlockCipher &c2, const Bytes &iv, const Bytes &m);
Bytes ctr(const BlockCipher &c, const Bytes &iv, const Bytes &m);
Bytes cfb(const BlockCipher &c, bool enc, const Bytes &iv, const Bytes &m);
Bytes ofb(const BlockCipher &c, const Bytes &iv, const Bytes &m);

struct Sealed { Bytes ct, tag; };
Sealed gcm(const BlockCipher &c, const Bytes &iv, const Bytes &aad, const Bytes &m);
Sealed ccm(const BlockCipher &c, const Bytes &iv, size_t taglen, const Bytes &aad, const Bytes &m);
Sealed eax(const BlockCipher &c, const Bytes &iv, const Bytes &aad, const Bytes &m);
Bytes cmac(const BlockCipher &c, const Bytes &m);
// The 16-byte GCM nonce with the given counter block J0, and the one-block EAX
// nonce with the given initial counter.
// Tags over the same chunk repeated: aad bytes of it, then len bytes of message
// (GCM, enciphered) or ciphertext (ChaCha20-Poly1305). Through OpenSSL.
Bytes long_gcm_tag(const Bytes &key, const Bytes &iv, const Bytes &chunk, uint64_t aad, uint64_t len);
Bytes long_poly_tag(const Bytes &otk, const Bytes &chunk, uint64_t aad, uint64_t len);
Bytes gcm_iv_for(const BlockCipher &c, const Bytes &j0);
Bytes eax_iv_for(const BlockCipher &c, const Bytes &n);

// Stream ciphers: n keystream bytes.
Bytes chacha20(const Bytes &key, const Bytes &nonce, uint64_t counter, size_t n);
Bytes salsa20(const Bytes &key, const Bytes &nonce, uint64_t counter, size_t n);
Bytes hchacha20(const Bytes &key, const Bytes &in16);
Bytes hsalsa20(const Bytes &key, const Bytes &in16);
Bytes rc4(const Bytes &key, size_t n);
Bytes xorb(const Bytes &a, const Bytes &b);

// Counter-explicit state versions (64 byte blocks from a 16 word state).
void chacha_core(const uint32_t in[16], uint8_t out[64], bool add);
void salsa_core(const uint32_t in[16], uint8_t out[64], bool add, int rounds = 20);
}
