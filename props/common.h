// Shared helpers for the property files.
#pragma once
#include <memory>
#include "pbt.h"
#include "ref_hash.h"
#include <torsion/hash.h>

using pbt::T;
using pbt::Bytes;
using pbt::Buf;
using pbt::hex;
using pbt::expect_eq;

struct HashName { hash_id_t id; const char *name; };
inline const std::vector<HashName> &hash_names() {
  static const std::vector<HashName> v = {
    {HASH_SHA256, "sha256"}, {HASH_BLAKE2B_160, "blake2b160"}, {HASH_BLAKE2B_256, "blake2b256"},
    {HASH_BLAKE2B_384, "blake2b384"}, {HASH_BLAKE2B_512, "blake2b512"}, {HASH_BLAKE2S_128, "blake2s128"},
    {HASH_BLAKE2S_160, "blake2s160"}, {HASH_BLAKE2S_224, "blake2s224"}, {HASH_BLAKE2S_256, "blake2s256"},
    {HASH_GOST94, "gost94"}, {HASH_HASH160, "hash160"}, {HASH_HASH256, "hash256"}, {HASH_KECCAK224, "keccak224"},
    {HASH_KECCAK256, "keccak256"}, {HASH_KECCAK384, "keccak384"}, {HASH_KECCAK512, "keccak512"}, {HASH_MD2, "md2"},
    {HASH_MD4, "md4"}, {HASH_MD5, "md5"}, {HASH_MD5SHA1, "md5sha1"}, {HASH_RIPEMD160, "ripemd160"}, {HASH_SHA1, "sha1"},
    {HASH_SHA224, "sha224"}, {HASH_SHA384, "sha384"}, {HASH_SHA512, "sha512"}, {HASH_SHA3_224, "sha3_224"},
    {HASH_SHA3_256, "sha3_256"}, {HASH_SHA3_384, "sha3_384"}, {HASH_SHA3_512, "sha3_512"}, {HASH_SHAKE128, "shake128"},
    {HASH_SHAKE256, "shake256"}, {HASH_WHIRLPOOL, "whirlpool"}};
  return v;
}

// Some common hash, biased to the widespread ones.
inline const HashName &pick_hash(T &t) { return t.pick(hash_names()); }

// Feed msg in the generated pieces.  Each piece is passed from its own
// exact-size buffer so a read past its end is caught by the sanitizer build.
template <class F> void feed(T &t, const Bytes &msg, size_t block, F f) {
  std::vector<size_t> parts = t.partition(msg.size(), block);
  size_t off = 0;
  for (size_t k : parts) {
    Buf b(Bytes(msg.begin() + off, msg.begin() + off + k));
    f((const uint8_t *)b.p, k);
    off += k;
  }
}
