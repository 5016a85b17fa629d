// Generators of key encodings, well-formed and not.
#pragma once
#include "common.h"
#include "ref_rsa.h"

// A flat encoding, sometimes with leading zeros or data after the end.
inline Bytes flat(T &t, const std::vector<ref::Z> &v, bool plain) {
  Bytes b;
  for (const ref::Z &z : v) {
    size_t n = (z.bits() + 7) / 8;
    if (!plain && t.chance(1, 4)) n += t.range(1, 9);
    b = ref::cat(b, ref::be(n, 2), z.to_be(n));
  }
  if (!plain && t.chance(1, 4)) b = ref::cat(b, t.bytes(t.range(1, 8)));
  return b;
}

// Deviations from DER, compared with a strict parser.
inline Bytes deviate(T &t, const std::vector<ref::Z> &v, bool version, const char **what) {
  int dev = (int)t.weighted({2, 3, 3, 3, 2, 2, 2, 2, 2, 4, 3});
  size_t at = t.range(0, v.size() - 1);
  static const char *names[] = {"none", "long size", "padded integer", "unpadded integer", "trailing", "inside trailing", "truncated", "version", "count", "mutated", "tag"};
  *what = names[dev];
  Bytes body;
  auto longsize = [&](size_t n) {
    Bytes b;
    for (size_t x = n; x; x >>= 8) b.insert(b.begin(), (uint8_t)x);
    if (t.chance(1, 3)) { // a size beyond any machine word, right in its lowest bytes
      b.insert(b.begin(), (size_t)t.pick({4, 8, 8, 16}) - b.size(), 0);
      b.insert(b.begin(), (uint8_t)t.range(1, 255));
    } else {
      b.insert(b.begin(), t.range(n < 0x80 ? 0 : 1, 3), 0);
    }
    b.insert(b.begin(), (uint8_t)(0x80 | b.size()));
    return b;
  };
  bool seq_long = dev == 1 && t.chance(1, 4);
  if (version) {
    if (dev == 7) body = t.pick(std::vector<Bytes>{{2, 1, 1}, {2, 1, 2}, {2, 2, 0, 0}, {2, 0}, {}, {2, 0x81, 1, 0}, {3, 1, 0}, {2, 1, 0x80}});
    else body = Bytes{2, 1, 0};
  }
  for (size_t i = 0; i < v.size(); i++) {
    Bytes z = v[i].to_be(v[i].bits() / 8 + 1);
    Bytes size = ref::der_size(z.size());
    if (i == at) {
      if (dev == 1 && !seq_long) size = longsize(z.size());
      if (dev == 2) z.insert(z.begin(), t.range(1, 3), 0), size = ref::der_size(z.size());
      if (dev == 3 && z.size() > 1 && z[0] == 0) z.erase(z.begin()), size = ref::der_size(z.size());
      if (dev == 8) {
        if (t.flip()) continue;
        body = ref::cat(body, Bytes{2}, ref::cat(size, z));
      }
    }
    body = ref::cat(body, Bytes{(uint8_t)(dev == 10 && i == at ? t.range(0, 255) : 2)}, ref::cat(size, z));
  }
  if (dev == 5) body = ref::cat(body, t.bytes(t.range(1, 4)));
  Bytes out = ref::cat(Bytes{(uint8_t)(dev == 10 && t.chance(1, 8) ? t.range(0, 255) : 0x30)}, seq_long ? longsize(body.size()) : ref::der_size(body.size()), body);
  if (dev == 4) out = ref::cat(out, t.bytes(t.range(1, 4)));
  if (dev == 6) out.resize(t.range(0, out.size() - 1));
  if (dev == 9) out = t.mutate(out, true);
  return out;
}
