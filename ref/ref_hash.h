// Reference hash functions, MACs: OpenSSL where available, otherwise written
// from the specifications.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

// name: "sha256", "md5", "blake2b160", "keccak256", "shake128" (outlen) ...
struct HashInfo { const char *name; size_t out, block; };
const std::vector<HashInfo> &hash_infos();
const HashInfo &hash_info(const std::string &name);

// Streaming reference: feed pieces, then finish (outlen 0 = default size).
class Hasher {
 public:
  virtual ~Hasher() {}
  virtual void update(const uint8_t *p, size_t n) = 0;
  virtual Bytes finish(size_t outlen) = 0;
};
std::unique_ptr<Hasher> hasher(const std::string &name);
Bytes hash(const std::string &name, const Bytes &msg, size_t outlen = 0);

Bytes blake2b(size_t outlen, const Bytes &key, const Bytes &msg);
Bytes blake2s(size_t outlen, const Bytes &key, const Bytes &msg);
Bytes keccak(size_t rate, unsigned pad, size_t outlen, const Bytes &msg);
Bytes hmac(const std::string &name, const Bytes &key, const Bytes &msg);

inline Bytes cat(const Bytes &a, const Bytes &b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes cat(const Bytes &a, const Bytes &b, const Bytes &c) { return cat(cat(a, b), c); }
inline Bytes str(const char *s) { std::string x(s); return Bytes(x.begin(), x.end()); }
inline Bytes sub(const Bytes &b, size_t off, size_t n) {
  if (off > b.size()) off = b.size();
  if (n > b.size() - off) n = b.size() - off;
  return Bytes(b.begin() + off, b.begin() + off + n);
}
inline Bytes be(uint64_t v, int n) { Bytes r(n); for (int i = n - 1; i >= 0; i--) { r[i] = (uint8_t)v; v >>= 8; } return r; }
inline Bytes le(uint64_t v, int n) { Bytes r(n); for (int i = 0; i < n; i++) { r[i] = (uint8_t)v; v >>= 8; } return r; }

// MACs and small hashes.
Bytes poly1305(const Bytes &key, const Bytes &msg);
// Message given as pre-split 16-byte blocks where each short block is either
// finished RFC-style (with a 1 byte) or zero padded.
uint64_t siphash24(const Bytes &key16, const Bytes &msg);
uint64_t siphash24_word128(uint64_t num, const Bytes &key16);
uint64_t siphash24_word256(uint64_t num, const Bytes &key32);
uint32_t murmur3_32(const Bytes &msg, uint32_t seed);
}
