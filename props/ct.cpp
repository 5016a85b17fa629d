// C33: no branch and no address depends on a secret. Secrets are marked as
// uninitialised for memcheck, which reports any conditional jump or memory
// address computed from them; the reports are counted around each call.
#include "ecc.h"
#include <functional>
#include <torsion/mpi.h>
#include <torsion/util.h>
#include <valgrind/memcheck.h>
#include <unistd.h>

namespace {

void hide(void *p, size_t n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
void reveal(void *p, size_t n) { VALGRIND_MAKE_MEM_DEFINED(p, n); }

struct Mem { void *p; size_t n; };
Mem mem(Bytes &b) { return {b.data(), b.size()}; }
template <class V> Mem var(V &v) { return {&v, sizeof v}; }

// Calls f with the secrets hidden and counts the reports.
int tainted(T &t, const char *name, std::initializer_list<Mem> secret, std::initializer_list<Mem> out, const std::function<int()> &f) {
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "C33 runs under memcheck\n"); _exit(3); }
  t.label("%s", name);
  for (auto &m : secret) hide(m.p, m.n);
  unsigned before = VALGRIND_COUNT_ERRORS;
  int r = f();
  unsigned after = VALGRIND_COUNT_ERRORS;
  reveal(&r, sizeof r);
  for (auto &m : secret) reveal(m.p, m.n);
  for (auto &m : out) reveal(m.p, m.n);
  EXPECT(t, after == before, "%s: %u jumps or addresses depended on the secret", name, after - before);
  return r;
}

// Contexts of their own, plain or blinded afresh.
struct Contexts {
  wei_curve_t *w[6][2];
  edwards_curve_t *e[3][2];
  wei_curve_t *wei(T &t, int id, int blind) {
    wei_curve_t *&c = w[id][blind];
    if (!c) c = wei_curve_create((wei_curve_id_t)id);
    if (blind) wei_curve_randomize(c, t.rnd(32).data());
    return c;
  }
  edwards_curve_t *edw(T &t, int id, int blind) {
    edwards_curve_t *&c = e[id][blind];
    if (!c) c = edwards_curve_create((edwards_curve_id_t)id);
    if (blind) edwards_curve_randomize(c, t.rnd(32).data());
    return c;
  }
};
Contexts g_ctx;

Bytes secret_be(T &t, const Z &n, size_t size) {
  return t.chance(1, 5) ? gen_int(t, n, 8 * size).to_be(size) : gen_scalar(t, n).to_be(size);
}
Bytes secret_le(T &t, const Z &n, size_t size) {
  return t.chance(1, 5) ? gen_int(t, n, 8 * size).to_le(size) : gen_scalar(t, n).to_le(size);
}

void redefine(void *p, size_t n) { reveal(p, n); }

}

PBT_RULE(C33, "the call ran under memcheck with its secret marked and the case got as far as counting the reports");

PBT_PROP(C33, weierstrass, 600, 6000, 0.5, 0) {
  int id = (int)t.pick({5, 2, 5, 2, 0, 1, 3, 4});
  bool blind = t.chance(1, 3);
  const ref::Wei &c = ref::wei(id);
  wei_curve_t *ec = g_ctx.wei(t, id, blind);
  size_t fs = wei_curve_field_size(ec), ss = wei_curve_scalar_size(ec);
  Bytes k = secret_be(t, c.n, ss), w = secret_be(t, c.n, ss), out(1 + 2 * fs), sig(2 * std::max(fs, ss) + 2);
  size_t n = 0;
  unsigned par = 0;
  int compact = t.flip();
  Bytes msg = gen_msg(t, 100);
  t.note("curve %d blind %d secret %s", id, blind, hex(k).c_str());
  t.mix(k); t.mix(w); t.mix64(id); t.mix64(compact);
  Mem K = mem(k), W = mem(w), O = mem(out), N = var(n);
  switch (t.weighted({4, 6, 4, 4, 1, 1, 2, 2, 2, 1, 1})) {
    case 0: tainted(t, "ecdsa_pubkey_create", {K}, {O, N}, [&] { return ecdsa_pubkey_create(ec, out.data(), &n, k.data(), compact); }); break;
    case 1: {
      bool want = t.flip();
      tainted(t, "ecdsa_sign", {K}, {mem(sig), var(par)}, [&] { return ecdsa_sign_internal(ec, sig.data(), want ? &par : nullptr, msg.data(), msg.size(), k.data(), redefine); });
      break;
    }
    case 2: {
      if (!bipschnorr_support(ec)) t.discard();
      tainted(t, "bipschnorr_sign", {K}, {mem(sig)}, [&] { return bipschnorr_sign(ec, sig.data(), msg.data(), msg.size(), k.data()); });
      break;
    }
    case 3: {
      Bytes p(1 + 2 * fs);
      Z d = gen_scalar(t, c.n);
      size_t pn = p.size();
      ecdsa_pubkey_create(ec, p.data(), &pn, d.to_be(ss).data(), t.flip());
      tainted(t, "ecdsa_derive", {K}, {O, N}, [&] { return ecdsa_derive(ec, out.data(), &n, p.data(), pn, k.data(), compact); });
      break;
    }
    case 4: tainted(t, "ecdsa_privkey_verify", {K}, {}, [&] { return ecdsa_privkey_verify(ec, k.data()); }); break;
    case 5: tainted(t, "ecdsa_privkey_negate", {K}, {O}, [&] { return ecdsa_privkey_negate(ec, out.data(), k.data()); }); break;
    case 6: tainted(t, "ecdsa_privkey_invert", {K}, {O}, [&] { return ecdsa_privkey_invert(ec, out.data(), k.data()); }); break;
    case 7: tainted(t, "ecdsa_privkey_tweak_add", {K, W}, {O}, [&] { return ecdsa_privkey_tweak_add(ec, out.data(), k.data(), w.data()); }); break;
    case 8: tainted(t, "ecdsa_privkey_tweak_mul", {K, W}, {O}, [&] { return ecdsa_privkey_tweak_mul(ec, out.data(), k.data(), w.data()); }); break;
    case 9: tainted(t, "ecdsa_privkey_export", {K}, {O}, [&] { return ecdsa_privkey_export(ec, out.data(), k.data()); }); break;
    default: tainted(t, "ecdsa_privkey_import", {K}, {O}, [&] { return ecdsa_privkey_import(ec, out.data(), k.data(), k.size()); }); break;
  }
  t.nontrivial();
}

PBT_PROP(C33, bip340, 300, 3000, 0.5, 0) {
  int id = (int)t.pick({5, 5, 5, 2, 1, 3});
  bool blind = t.chance(1, 3);
  const ref::Wei &c = ref::wei(id);
  wei_curve_t *ec = g_ctx.wei(t, id, blind);
  size_t fs = wei_curve_field_size(ec), ss = wei_curve_scalar_size(ec);
  Bytes k = secret_be(t, c.n, ss), w = secret_be(t, c.n, ss), out(fs + ss), sig(fs + ss), x(fs), y(fs), aux = t.bytes(32), msg = gen_msg(t, 100);
  t.note("curve %d blind %d secret %s", id, blind, hex(k).c_str());
  t.mix(k); t.mix(w); t.mix64(id);
  Mem K = mem(k), W = mem(w), O = mem(out);
  switch (t.weighted({4, 6, 4, 1, 2, 2, 1, 1, 1})) {
    case 0: tainted(t, "bip340_pubkey_create", {K}, {O}, [&] { return bip340_pubkey_create(ec, out.data(), k.data()); }); break;
    case 1: {
      bool with = t.flip();
      tainted(t, "bip340_sign", {K, mem(aux)}, {mem(sig)}, [&] { return bip340_sign(ec, sig.data(), msg.data(), msg.size(), k.data(), with ? aux.data() : nullptr); });
      break;
    }
    case 2: {
      Bytes p(fs);
      bip340_pubkey_create(ec, p.data(), gen_scalar(t, c.n).to_be(ss).data());
      tainted(t, "bip340_derive", {K}, {O}, [&] { return bip340_derive(ec, out.data(), p.data(), k.data()); });
      break;
    }
    case 3: tainted(t, "bip340_privkey_verify", {K}, {}, [&] { return bip340_privkey_verify(ec, k.data()); }); break;
    case 4: tainted(t, "bip340_privkey_tweak_add", {K, W}, {O}, [&] { return bip340_privkey_tweak_add(ec, out.data(), k.data(), w.data()); }); break;
    case 5: tainted(t, "bip340_privkey_tweak_mul", {K, W}, {O}, [&] { return bip340_privkey_tweak_mul(ec, out.data(), k.data(), w.data()); }); break;
    case 6: tainted(t, "bip340_privkey_invert", {K}, {O}, [&] { return bip340_privkey_invert(ec, out.data(), k.data()); }); break;
    case 7: tainted(t, "bip340_privkey_export", {K}, {O, mem(x), mem(y)}, [&] { return bip340_privkey_export(ec, out.data(), x.data(), y.data(), k.data()); }); break;
    default: tainted(t, "bip340_privkey_import", {K}, {O}, [&] { return bip340_privkey_import(ec, out.data(), k.data(), k.size()); }); break;
  }
  t.nontrivial();
}

PBT_PROP(C33, montgomery, 250, 2500, 0.5, 0) {
  int id = (int)t.pick({0, 0, 1});
  mont_curve_t *ec = mont_ctx(id);
  size_t fs = mont_curve_field_size(ec), ss = mont_curve_scalar_size(ec);
  Bytes k = t.bytes(ss), out(fs), p = t.bytes(fs);
  t.note("curve %d secret %s", id, hex(k).c_str());
  t.mix(k); t.mix64(id); t.mix(p);
  Mem K = mem(k), O = mem(out);
  switch (t.weighted({4, 6, 1, 1, 1})) {
    case 0: tainted(t, "ecdh_pubkey_create", {K}, {O}, [&] { ecdh_pubkey_create(ec, out.data(), k.data()); return 1; }); break;
    case 1: {
      bool both = t.flip();
      if (t.flip()) ecdh_pubkey_create(ec, p.data(), t.rnd(ss).data());
      if (both) tainted(t, "ecdh_derive (point hidden too)", {K, mem(p)}, {O}, [&] { return ecdh_derive(ec, out.data(), p.data(), k.data()); });
      else tainted(t, "ecdh_derive", {K}, {O}, [&] { return ecdh_derive(ec, out.data(), p.data(), k.data()); });
      break;
    }
    case 2: tainted(t, "ecdh_privkey_verify", {K}, {}, [&] { return ecdh_privkey_verify(ec, k.data()); }); break;
    case 3: tainted(t, "ecdh_privkey_export", {K}, {O}, [&] { return ecdh_privkey_export(ec, out.data(), k.data()); }); break;
    default: tainted(t, "ecdh_privkey_import", {K}, {O}, [&] { return ecdh_privkey_import(ec, out.data(), k.data(), k.size()); }); break;
  }
  t.nontrivial();
}

PBT_PROP(C33, edwards, 600, 6000, 0.5, 0) {
  int id = (int)t.pick({0, 0, 2, 1});
  bool blind = t.chance(1, 3);
  const ref::Edw &c = ref::edw(id);
  edwards_curve_t *ec = g_ctx.edw(t, id, blind);
  size_t ss = edwards_curve_scalar_size(ec), as = eddsa_privkey_size(ec), ps = eddsa_pubkey_size(ec);
  Bytes priv = t.bytes(as), k = secret_le(t, c.n, ss), w = secret_le(t, c.n, ss), pre = t.bytes(ps), out(std::max(ps, std::max(ss, as))), o2(ps), sig(2 * ps + 2), msg = gen_msg(t, 100), cx = t.bytes(t.len(20));
  int ph = (int)t.range(0, 2) - 1;
  if (id == 1 && ph < 0) ph = 0;
  t.note("curve %d blind %d secret %s %s", id, blind, hex(priv).c_str(), hex(k).c_str());
  t.mix(priv); t.mix(k); t.mix(w); t.mix64(id);
  Mem P = mem(priv), K = mem(k), W = mem(w), O = mem(out), S = mem(sig);
  auto pub = [&] {
    Bytes p(ps);
    eddsa_pubkey_create(ec, p.data(), t.rnd(as).data());
    return p;
  };
  switch (t.weighted({4, 6, 3, 3, 3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2})) {
    case 0: tainted(t, "eddsa_pubkey_create", {P}, {O}, [&] { eddsa_pubkey_create(ec, out.data(), priv.data()); return 1; }); break;
    case 1: tainted(t, "eddsa_sign", {P}, {S}, [&] { eddsa_sign(ec, sig.data(), msg.data(), msg.size(), priv.data(), ph, cx.data(), cx.size()); return 1; }); break;
    case 2: tainted(t, "eddsa_sign_with_scalar", {K, mem(pre)}, {S}, [&] { eddsa_sign_with_scalar(ec, sig.data(), msg.data(), msg.size(), k.data(), pre.data(), ph, cx.data(), cx.size()); return 1; }); break;
    case 3: tainted(t, "eddsa_sign_tweak_add", {P, W}, {S}, [&] { eddsa_sign_tweak_add(ec, sig.data(), msg.data(), msg.size(), priv.data(), w.data(), ph, cx.data(), cx.size()); return 1; }); break;
    case 4: tainted(t, "eddsa_sign_tweak_mul", {P, W}, {S}, [&] { eddsa_sign_tweak_mul(ec, sig.data(), msg.data(), msg.size(), priv.data(), w.data(), ph, cx.data(), cx.size()); return 1; }); break;
    case 5: { Bytes q = pub(); tainted(t, "eddsa_derive", {P}, {O}, [&] { return eddsa_derive(ec, out.data(), q.data(), priv.data()); }); break; }
    case 6: { Bytes q = pub(); tainted(t, "eddsa_derive_with_scalar", {K}, {O}, [&] { return eddsa_derive_with_scalar(ec, out.data(), q.data(), k.data()); }); break; }
    case 7: tainted(t, "eddsa_pubkey_from_scalar", {K}, {O}, [&] { eddsa_pubkey_from_scalar(ec, out.data(), k.data()); return 1; }); break;
    case 8: tainted(t, "eddsa_scalar_invert", {K}, {O}, [&] { eddsa_scalar_invert(ec, out.data(), k.data()); return 1; }); break;
    case 9: tainted(t, "eddsa_scalar_negate", {K}, {O}, [&] { eddsa_scalar_negate(ec, out.data(), k.data()); return 1; }); break;
    case 10: tainted(t, "eddsa_scalar_tweak_add", {K, W}, {O}, [&] { eddsa_scalar_tweak_add(ec, out.data(), k.data(), w.data()); return 1; }); break;
    case 11: tainted(t, "eddsa_scalar_tweak_mul", {K, W}, {O}, [&] { eddsa_scalar_tweak_mul(ec, out.data(), k.data(), w.data()); return 1; }); break;
    case 12: tainted(t, "eddsa_scalar_reduce", {K}, {O}, [&] { eddsa_scalar_reduce(ec, out.data(), k.data()); return 1; }); break;
    case 13: tainted(t, "eddsa_scalar_verify", {K}, {}, [&] { return eddsa_scalar_verify(ec, k.data()); }); break;
    case 14: tainted(t, "eddsa_scalar_is_zero", {K}, {}, [&] { return eddsa_scalar_is_zero(ec, k.data()); }); break;
    case 15: tainted(t, "eddsa_privkey_expand", {P}, {O, mem(o2)}, [&] { eddsa_privkey_expand(ec, out.data(), o2.data(), priv.data()); return 1; }); break;
    case 16: tainted(t, "eddsa_privkey_convert", {P}, {O}, [&] { eddsa_privkey_convert(ec, out.data(), priv.data()); return 1; }); break;
    default: tainted(t, "eddsa_scalar_clamp", {K}, {O}, [&] { eddsa_scalar_clamp(ec, out.data(), k.data()); return 1; }); break;
  }
  t.nontrivial();
}

PBT_PROP(C33, ristretto, 250, 2500, 0.5, 0) {
  int id = (int)t.pick({0, 0, 2, 1});
  bool blind = t.chance(1, 3);
  const ref::Edw &c = ref::edw(id);
  edwards_curve_t *ec = g_ctx.edw(t, id, blind);
  size_t ss = ristretto_privkey_size(ec), ps = ristretto_pubkey_size(ec);
  Bytes k = secret_le(t, c.n, ss), w = secret_le(t, c.n, ss), out(std::max(ps, ss));
  t.note("curve %d blind %d secret %s", id, blind, hex(k).c_str());
  t.mix(k); t.mix(w); t.mix64(id);
  Mem K = mem(k), W = mem(w), O = mem(out);
  switch (t.weighted({4, 6, 1, 2, 2, 1, 2, 1})) {
    case 0: tainted(t, "ristretto_pubkey_create", {K}, {O}, [&] { return ristretto_pubkey_create(ec, out.data(), k.data()); }); break;
    case 1: {
      Bytes p(ps);
      ristretto_pubkey_create(ec, p.data(), gen_scalar(t, c.n).to_le(ss).data());
      tainted(t, "ristretto_derive", {K}, {O}, [&] { return ristretto_derive(ec, out.data(), p.data(), k.data()); });
      break;
    }
    case 2: tainted(t, "ristretto_privkey_verify", {K}, {}, [&] { return ristretto_privkey_verify(ec, k.data()); }); break;
    case 3: tainted(t, "ristretto_privkey_tweak_add", {K, W}, {O}, [&] { return ristretto_privkey_tweak_add(ec, out.data(), k.data(), w.data()); }); break;
    case 4: tainted(t, "ristretto_privkey_tweak_mul", {K, W}, {O}, [&] { return ristretto_privkey_tweak_mul(ec, out.data(), k.data(), w.data()); }); break;
    case 5: tainted(t, "ristretto_privkey_negate", {K}, {O}, [&] { return ristretto_privkey_negate(ec, out.data(), k.data()); }); break;
    case 6: tainted(t, "ristretto_privkey_invert", {K}, {O}, [&] { return ristretto_privkey_invert(ec, out.data(), k.data()); }); break;
    default: tainted(t, "ristretto_privkey_is_zero", {K}, {}, [&] { return ristretto_privkey_is_zero(ec, k.data()); }); break;
  }
  t.nontrivial();
}

PBT_PROP(C33, comparing, 3000, 30000, 0.5, 0) {
  size_t n = t.len_near({0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 64}, 100);
  Bytes x = t.bytes(n), y = t.flip() ? x : t.bytes(n), z(n);
  if (n && t.flip()) t.flip_bit(y);
  t.mix(x); t.mix(y);
  t.show("x", x); t.show("y", y);
  int want = memcmp(x.data(), y.data(), n), r;
  switch (t.range(0, 3)) {
    case 0:
      r = tainted(t, "torsion_memequal", {mem(x), mem(y)}, {}, [&] { return torsion_memequal(x.data(), y.data(), n); });
      EXPECT(t, (r != 0) == (want == 0), "torsion_memequal returned %d", r);
      break;
    case 1:
      r = tainted(t, "torsion_memcmp", {mem(x), mem(y)}, {}, [&] { return torsion_memcmp(x.data(), y.data(), n); });
      EXPECT(t, (r < 0) == (want < 0) && (r > 0) == (want > 0), "torsion_memcmp returned %d", r);
      break;
    case 2: tainted(t, "torsion_memxor3", {mem(x), mem(y)}, {mem(z)}, [&] { torsion_memxor3(z.data(), x.data(), y.data(), n); return 1; }); break;
    default: tainted(t, "torsion_memxor", {mem(x), mem(y)}, {}, [&] { torsion_memxor(x.data(), y.data(), n); return 1; }); break;
  }
  t.nontrivial();
}

PBT_PROP(C33, integers, 1500, 15000, 0.5, 0) {
  typedef std::vector<mp_limb_t> L;
  auto limbs = [&](size_t n) {
    L v(n + 1);
    Bytes b = t.bytes(8 * n);
    if (n) memcpy(v.data(), b.data(), 8 * n);
    t.mix(b);
    return v;
  };
  auto m = [](L &v) { return Mem{v.data(), 8 * v.size()}; };
  size_t n = t.range(1, 9), yn = t.range(1, n);
  L x = limbs(n), y = t.chance(1, 4) ? x : limbs(n), z(n + 1), mod = limbs(n);
  mod[0] |= 1;
  if (!mod[n - 1]) mod[n - 1] = 1;
  mp_limb_t cnd = t.flip(), w = 0, c = 0;
  { Bytes b = t.bytes(8); memcpy(&w, b.data(), 8); }
  t.note("limbs %zu", n);
  t.mix64(cnd); t.mix64(w);
  auto go = [&](const char *name, const std::function<int()> &f) { tainted(t, name, {m(x), m(y), var(cnd), var(w)}, {m(z), var(c)}, f); };
  mp_limb_t *X = x.data(), *Y = y.data(), *Zp = z.data(), *M = mod.data();
  switch (t.weighted({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 3, 4})) {
    case 0: go("mpn_sec_add_1", [&] { c = mpn_sec_add_1(Zp, X, n, w); return 1; }); break;
    case 1: go("mpn_sec_add", [&] { c = mpn_sec_add(Zp, X, n, Y, yn); return 1; }); break;
    case 2: go("mpn_sec_sub_1", [&] { c = mpn_sec_sub_1(Zp, X, n, w); return 1; }); break;
    case 3: go("mpn_sec_sub", [&] { c = mpn_sec_sub(Zp, X, n, Y, yn); return 1; }); break;
    case 4: go("mpn_cnd_zero", [&] { mpn_cnd_zero(Zp, X, n, cnd); return 1; }); break;
    case 5: go("mpn_cnd_select", [&] { mpn_cnd_select(Zp, X, Y, n, cnd); return 1; }); break;
    case 6: go("mpn_cnd_swap", [&] { mpn_cnd_swap(X, Y, n, cnd); return 1; }); break;
    case 7: go("mpn_cnd_add_n", [&] { c = mpn_cnd_add_n(Zp, X, Y, n, cnd); return 1; }); break;
    case 8: go("mpn_cnd_sub_n", [&] { c = mpn_cnd_sub_n(Zp, X, Y, n, cnd); return 1; }); break;
    case 9: go("mpn_cnd_neg", [&] { c = mpn_cnd_neg(Zp, X, n, cnd); return 1; }); break;
    case 10: go("mpn_sec_zero_p", [&] { return mpn_sec_zero_p(X, n); }); break;
    case 11: go("mpn_sec_equal_p", [&] { return mpn_sec_equal_p(X, Y, n); }); break;
    case 12: go("mpn_sec_lt_p", [&] { return mpn_sec_lt_p(X, Y, n); }); break;
    case 13: go("mpn_sec_lte_p", [&] { return mpn_sec_lte_p(X, Y, n); }); break;
    case 14: go("mpn_sec_gt_p", [&] { return mpn_sec_gt_p(X, Y, n); }); break;
    case 15: go("mpn_sec_gte_p", [&] { return mpn_sec_gte_p(X, Y, n); }); break;
    case 16: go("mpn_sec_cmp", [&] { return mpn_sec_cmp(X, Y, n); }); break;
    case 17: {
      size_t ents = t.range(1, 20);
      L tab = limbs(n * ents);
      mp_size_t which = (mp_size_t)t.range(0, ents - 1);
      tainted(t, "mpn_sec_tabselect", {var(which)}, {m(z)}, [&] { mpn_sec_tabselect(Zp, tab.data(), n, (mp_size_t)ents, which); return 1; });
      break;
    }
    case 18: {
      L s(MPN_MONT_ITCH(n) + MPN_MONTMUL_ITCH(n)), rr(2 * n + 2);
      mp_limb_t k;
      mpn_mont(&k, rr.data(), M, n, s.data());
      // operands are residues
      for (size_t i = 0; i < n; i++) x[i] &= mod[i], y[i] &= mod[i];
      go("mpn_sec_montmul", [&] { mpn_sec_montmul(Zp, X, Y, M, n, k, s.data()); return 1; });
      break;
    }
    case 19: {
      L s(MPN_SEC_POWM_ITCH(n));
      for (size_t i = 0; i < n; i++) x[i] &= mod[i];
      go("mpn_sec_powm", [&] { mpn_sec_powm(Zp, X, n, Y, yn, M, n, s.data()); return 1; });
      break;
    }
    default: {
      L s(MPN_SEC_INVERT_ITCH(n));
      for (size_t i = 0; i < n; i++) x[i] &= mod[i];
      bool flat = t.flip();
      go("mpn_sec_invert", [&] { return flat ? mpn_sec_invert_n(Zp, X, M, n, s.data()) : mpn_sec_invert(Zp, X, n, M, n, s.data()); });
      break;
    }
  }
  t.nontrivial();
}
