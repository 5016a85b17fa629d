// Shared generators for the elliptic-curve properties.
#pragma once
#include "common.h"
#include "ref_ecc.h"
#include <torsion/ecc.h>

using ref::Pt;
using ref::Z;

inline wei_curve_t *wei_ctx(int id) {
  static wei_curve_t *c[6];
  if (!c[id]) c[id] = wei_curve_create((wei_curve_id_t)id);
  return c[id];
}
inline mont_curve_t *mont_ctx(int id) {
  static mont_curve_t *c[2];
  if (!c[id]) c[id] = mont_curve_create((mont_curve_id_t)id);
  return c[id];
}
inline edwards_curve_t *edw_ctx(int id) {
  static edwards_curve_t *c[3];
  if (!c[id]) c[id] = edwards_curve_create((edwards_curve_id_t)id);
  return c[id];
}

// The cheap curves more often than the dear ones.
inline int pick_wei(T &t) { return (int)t.pick({5, 5, 5, 2, 2, 0, 1, 3, 4}); }
inline int pick_edw(T &t) { return (int)t.pick({0, 0, 2, 1}); }

// An integer in [0, 2^(bits)) with structure that stresses windows, carries and
// final reductions around the modulus n.
inline Z gen_int(T &t, const Z &n, size_t bits) {
  Z top = Z::pow2(bits);
  switch (t.weighted({4, 2, 2, 2, 2, 2, 2})) {
    case 0: return Z::be(t.rnd((bits + 7) / 8)) % n;
    case 1: return Z((long)t.range(0, 40));
    case 2: {  // around n
      Z z = n + Z((long)t.range(0, 8)) - Z(4);
      return z % top;
    }
    case 3: {  // around a fraction of n
      Z z = ref::fdiv(n, Z((long)t.range(2, 8))) + Z((long)t.range(0, 4)) - Z(2);
      return z % top;
    }
    case 4: {  // runs of ones
      size_t a = t.range(0, bits - 1), b = t.range(0, bits - 1);
      if (a > b) std::swap(a, b);
      return Z::pow2(b + 1) - Z::pow2(a);
    }
    case 5: {  // few bits
      Z z(0);
      for (size_t i = t.range(1, 4); i-- > 0;) z = z | Z::pow2(t.range(0, bits - 1));
      return z;
    }
    default: return Z::be(t.bytes((bits + 7) / 8)) % top;
  }
}
// A scalar in [1, n).
inline Z gen_scalar(T &t, const Z &n) {
  Z k = gen_int(t, n, n.bits()) % n;
  return k.zero() ? Z(1) : k;
}

// A message whose length is near the sizes that matter.
inline Bytes gen_msg(T &t, size_t max = 200) { return t.bytes(t.len_near({0, 1, 20, 24, 28, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 67, 111, 112, 128, 136}, max)); }
