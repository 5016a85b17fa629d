// Reference text encodings, written from RFC 4648, BIP 173/350 and CashAddr.
#pragma once
#include "ref_hash.h"

namespace ref {
// Power-of-two bases. alphabet holds 16, 32 or 64 characters.
std::string radix_encode(const Bytes &b, const char *alphabet, bool pad);
// Canonical decoding: accepted exactly when re-encoding gives the text back.
bool radix_decode(const std::string &text, const char *alphabet, bool pad, bool fold_case, Bytes &out);
std::string b58_encode(const Bytes &b);
bool b58_decode(const std::string &s, Bytes &out);

// Checksum symbols (5 bits each) of BCH codes over GF(32).
Bytes bech32_checksum(const std::string &hrp, const Bytes &data, uint32_t constant);
Bytes cash32_checksum(const std::string &prefix, const Bytes &data);
// The n symbols, fewer than a whole checksum, that complete the code word if any do.
bool bech32_short(const std::string &hrp, uint32_t constant, size_t n, Bytes &out);
bool cash32_short(const std::string &prefix, size_t n, Bytes &out);
extern const char *const kBech32Chars;
std::string b32_chars(const Bytes &symbols);
bool bech32_parse(const std::string &s, uint32_t constant, std::string &hrp, Bytes &data);
bool cash32_parse(const std::string &s, const std::string &fallback, std::string &prefix, Bytes &data);
// Regroup bits; without padding fails on a full spare group or nonzero spare bits.
bool regroup(const Bytes &in, int from, int to, bool pad, Bytes &out);
}
