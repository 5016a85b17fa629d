#include "prog.h"

namespace {

Bytes ok(int r) { return Bytes{(uint8_t)r}; }
Bytes ok(int r, const Bytes &a) { Bytes b{(uint8_t)r}; if (r) b.insert(b.end(), a.begin(), a.end()); return b; }
Bytes cat(const Bytes &a, const Bytes &b) { Bytes c = a; c.insert(c.end(), b.begin(), b.end()); return c; }
Bytes val(unsigned v) { return Bytes{(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24)}; }

// Mostly what it was, sometimes damaged.
Bytes maybe_spoil(T &t, Bytes b) {
  if (!b.empty() && t.chance(1, 10)) t.flip_bit(b);
  return b;
}

struct WeiGen {
  T &t;
  const ref::Wei &c;
  wei_curve_t *ec;
  const std::vector<Z> &sp;
  size_t fs, ss;
  WeiGen(T &t, int id, const std::vector<Z> &sp) : t(t), c(ref::wei(id)), ec(wei_ctx(id)), sp(sp), fs(wei_curve_field_size(ec)), ss(wei_curve_scalar_size(ec)) {}
  Bytes scalar() { return !sp.empty() && t.chance(2, 3) ? t.pick(sp).to_be(ss) : t.chance(1, 12) ? gen_int(t, c.n, 8 * ss).to_be(ss) : gen_scalar(t, c.n).to_be(ss); }
  Bytes good() { return !sp.empty() && t.chance(1, 3) ? t.pick(sp).to_be(ss) : gen_scalar(t, c.n).to_be(ss); }
  Bytes pub_of(const Bytes &k, int compact) {
    Bytes out(1 + 2 * fs);
    size_t n = out.size();
    if (!ecdsa_pubkey_create(ec, out.data(), &n, k.data(), compact)) n = 1 + fs;
    out.resize(n);
    return out;
  }
  Bytes pub() { return maybe_spoil(t, pub_of(good(), t.flip())); }
  Bytes xonly_of(const Bytes &k) {
    Bytes out(fs);
    bip340_pubkey_create(ec, out.data(), k.data());
    return out;
  }
  Bytes xonly() { return maybe_spoil(t, xonly_of(good())); }
};

// Output buffers are exact; a stray write shows as a failed canary.
Bytes fin(T *, int r, const Buf &b, size_t n) { return ok(r, b.intact() ? b.get(n) : Bytes{'!', 'b', 'a', 'd'}); }

}

WeiCall gen_wei_call(T &t, int id, const std::vector<Z> &special) {
  WeiGen g(t, id, special);
  size_t fs = g.fs, ss = g.ss, ps = 1 + 2 * g.fs;
  bool schnorr = bipschnorr_support(g.ec);
  int compact = t.flip();
  typedef const wei_curve_t *E;
  T *tp = &t;
  int what = (int)t.weighted({6, 8, 5, 4, 4, 3, 3, 3, 3, 3, 3, 2, 3, 3, 2, 2, 4, 4, 4, 4, 4, 3, 3, 3, 2, 2, 2, 2, 2});
  if (!schnorr && what >= 16 && what <= 17) what = 1;
  switch (what) {
    case 0: {
      Bytes k = g.scalar();
      return {"pubkey_create", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_pubkey_create(ec, o, &n, k.data(), compact); return fin(tp, r, o, n); }};
    }
    case 1: {
      Bytes k = g.scalar(), m = gen_msg(t, 140);
      return {"ecdsa_sign", [=](E ec) { Buf o(2 * ss); unsigned p = 0; int r = ecdsa_sign(ec, o, &p, m.data(), m.size(), k.data()); return r ? cat(fin(tp, r, o, 2 * ss), val(p)) : ok(r); }};
    }
    case 2: {
      Bytes k = g.good(), m = gen_msg(t, 140), s(2 * ss), p = g.pub_of(k, compact);
      ecdsa_sign(g.ec, s.data(), nullptr, m.data(), m.size(), k.data());
      s = maybe_spoil(t, s); p = maybe_spoil(t, p);
      return {"ecdsa_verify", [=](E ec) { return ok(ecdsa_verify(ec, m.data(), m.size(), s.data(), p.data(), p.size())); }};
    }
    case 3: {
      Bytes k = g.good(), m = gen_msg(t, 140), s(2 * ss);
      unsigned par = 0;
      ecdsa_sign(g.ec, s.data(), &par, m.data(), m.size(), k.data());
      s = maybe_spoil(t, s);
      if (t.chance(1, 6)) par = (unsigned)t.range(0, 3);
      return {"ecdsa_recover", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_recover(ec, o, &n, m.data(), m.size(), s.data(), par, compact); return fin(tp, r, o, n); }};
    }
    case 4: {
      Bytes k = g.scalar(), p = g.pub();
      return {"ecdsa_derive", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_derive(ec, o, &n, p.data(), p.size(), k.data(), compact); return fin(tp, r, o, n); }};
    }
    case 5: {
      Bytes k = g.scalar(), w = g.scalar();
      bool mul = t.flip();
      return {mul ? "privkey_tweak_mul" : "privkey_tweak_add", [=](E ec) { Buf o(ss); int r = mul ? ecdsa_privkey_tweak_mul(ec, o, k.data(), w.data()) : ecdsa_privkey_tweak_add(ec, o, k.data(), w.data()); return fin(tp, r, o, ss); }};
    }
    case 6: {
      Bytes k = g.scalar();
      bool inv = t.flip();
      return {inv ? "privkey_invert" : "privkey_negate", [=](E ec) { Buf o(ss); int r = inv ? ecdsa_privkey_invert(ec, o, k.data()) : ecdsa_privkey_negate(ec, o, k.data()); return fin(tp, r, o, ss); }};
    }
    case 7: {
      Bytes p = g.pub(), w = g.scalar();
      return {"pubkey_tweak_add", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_pubkey_tweak_add(ec, o, &n, p.data(), p.size(), w.data(), compact); return fin(tp, r, o, n); }};
    }
    case 8: {
      Bytes p = g.pub(), w = g.scalar();
      return {"pubkey_tweak_mul", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_pubkey_tweak_mul(ec, o, &n, p.data(), p.size(), w.data(), compact); return fin(tp, r, o, n); }};
    }
    case 9: {
      Bytes p = g.pub(), q = t.chance(1, 6) ? p : g.pub();
      return {"pubkey_add", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_pubkey_add(ec, o, &n, p.data(), p.size(), q.data(), q.size(), compact); return fin(tp, r, o, n); }};
    }
    case 10: {
      std::vector<Bytes> v(t.range(0, 4));
      for (auto &p : v) p = g.pub();
      return {"pubkey_combine", [=](E ec) {
        std::vector<const uint8_t *> a(1); std::vector<size_t> l(1);
        a.clear(); l.clear();
        for (auto &p : v) a.push_back(p.data()), l.push_back(p.size());
        Buf o(ps); size_t n = ps;
        int r = ecdsa_pubkey_combine(ec, o, &n, a.data(), l.data(), v.size(), compact);
        return fin(tp, r, o, n);
      }};
    }
    case 11: {
      Bytes e = t.bytes(32);
      return {"privkey_generate", [=](E ec) { Buf o(ss); ecdsa_privkey_generate(ec, o, e.data()); return fin(tp, 1, o, ss); }};
    }
    case 12: {
      Bytes b = t.bytes(fs);
      return {"from_uniform", [=](E ec) { Buf o(ps); size_t n = ps; ecdsa_pubkey_from_uniform(ec, o, &n, b.data(), compact); return fin(tp, 1, o, n); }};
    }
    case 13: {
      Bytes b = t.bytes(2 * fs);
      return {"from_hash", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_pubkey_from_hash(ec, o, &n, b.data(), compact); return fin(tp, r, o, n); }};
    }
    case 14: {
      Bytes p = g.pub();
      unsigned hint = (unsigned)t.range(0, 16);
      return {"to_uniform", [=](E ec) { Buf o(fs); int r = ecdsa_pubkey_to_uniform(ec, o, p.data(), p.size(), hint); return fin(tp, r, o, fs); }};
    }
    case 15: {
      Bytes p = g.pub(), e = t.bytes(32);
      return {"to_hash", [=](E ec) { Buf o(2 * fs); int r = ecdsa_pubkey_to_hash(ec, o, p.data(), p.size(), 0, e.data()); return fin(tp, r, o, 2 * fs); }};
    }
    case 16: {
      Bytes k = g.scalar(), m = t.bytes(t.len_near({32}, 64));
      return {"bipschnorr_sign", [=](E ec) { Buf o(fs + ss); int r = bipschnorr_sign(ec, o, m.data(), m.size(), k.data()); return fin(tp, r, o, fs + ss); }};
    }
    case 17: {
      Bytes k = g.good(), m = t.bytes(32), s(fs + ss), p = g.pub_of(k, 1);
      bipschnorr_sign(g.ec, s.data(), m.data(), m.size(), k.data());
      s = maybe_spoil(t, s);
      return {"bipschnorr_verify", [=](E ec) { return ok(bipschnorr_verify(ec, m.data(), m.size(), s.data(), p.data(), p.size())); }};
    }
    case 18: {
      Bytes k = g.scalar(), m = t.bytes(t.len_near({32}, 64)), a = t.bytes(32);
      return {"bip340_sign", [=](E ec) { Buf o(fs + ss); int r = bip340_sign(ec, o, m.data(), m.size(), k.data(), a.data()); return fin(tp, r, o, fs + ss); }};
    }
    case 19: {
      Bytes k = g.good(), m = t.bytes(32), s(fs + ss), a = t.bytes(32), p = g.xonly_of(k);
      bip340_sign(g.ec, s.data(), m.data(), m.size(), k.data(), a.data());
      s = maybe_spoil(t, s); p = maybe_spoil(t, p);
      return {"bip340_verify", [=](E ec) { return ok(bip340_verify(ec, m.data(), m.size(), s.data(), p.data())); }};
    }
    case 20: {
      Bytes k = g.scalar();
      return {"bip340_pubkey_create", [=](E ec) { Buf o(fs); int r = bip340_pubkey_create(ec, o, k.data()); return fin(tp, r, o, fs); }};
    }
    case 21: {
      Bytes k = g.scalar(), p = g.xonly();
      return {"bip340_derive", [=](E ec) { Buf o(fs); int r = bip340_derive(ec, o, p.data(), k.data()); return fin(tp, r, o, fs); }};
    }
    case 22: {
      Bytes p = g.xonly(), w = g.scalar();
      bool mul = t.flip();
      return {mul ? "bip340_tweak_mul" : "bip340_tweak_add", [=](E ec) { Buf o(fs); int neg = 0; int r = mul ? bip340_pubkey_tweak_mul(ec, o, &neg, p.data(), w.data()) : bip340_pubkey_tweak_add(ec, o, &neg, p.data(), w.data()); return r ? cat(fin(tp, r, o, fs), val(neg)) : ok(r); }};
    }
    case 23: {
      Bytes k = g.scalar(), w = g.scalar();
      int op = (int)t.range(0, 2);
      return {"bip340_privkey_tweak", [=](E ec) { Buf o(ss); int r = op == 0 ? bip340_privkey_tweak_add(ec, o, k.data(), w.data()) : op == 1 ? bip340_privkey_tweak_mul(ec, o, k.data(), w.data()) : bip340_privkey_invert(ec, o, k.data()); return fin(tp, r, o, ss); }};
    }
    case 24: {
      Bytes k = g.scalar();
      return {"bip340_privkey_export", [=](E ec) { Buf d(ss), x(fs), y(fs); int r = bip340_privkey_export(ec, d, x, y, k.data()); return r ? cat(cat(ok(r, d.get()), x.get()), y.get()) : ok(r); }};
    }
    case 25: {
      Bytes p = g.pub();
      return {"pubkey_export", [=](E ec) { Buf x(fs), y(fs); int r = ecdsa_pubkey_export(ec, x, y, p.data(), p.size()); return r ? cat(ok(r, x.get()), y.get()) : ok(r); }};
    }
    case 26: {
      Bytes x = t.bytes(fs);
      return {"pubkey_import", [=](E ec) { Buf o(ps); size_t n = ps; int r = ecdsa_pubkey_import(ec, o, &n, x.data(), fs, nullptr, 0, compact, compact); return fin(tp, r, o, n); }};
    }
    case 27: {
      Bytes p = t.mutate(g.pub(), true);
      return {"pubkey_verify", [=](E ec) { return ok(ecdsa_pubkey_verify(ec, p.data(), p.size())); }};
    }
    default: {
      Bytes s = cat(g.scalar(), g.scalar());
      return {"sig_normalize", [=](E ec) { Buf o(2 * ss); int r = ecdsa_sig_normalize(ec, o, s.data()); return r ? cat(fin(tp, r, o, 2 * ss), ok(ecdsa_is_low_s(ec, s.data()))) : ok(r); }};
    }
  }
}

namespace {

struct EdwGen {
  T &t;
  const ref::Edw &c;
  edwards_curve_t *ec;
  const std::vector<Z> &sp;
  size_t ks, ps, ss;
  EdwGen(T &t, int id, const std::vector<Z> &sp) : t(t), c(ref::edw(id)), ec(edw_ctx(id)), sp(sp), ks(eddsa_privkey_size(ec)), ps(eddsa_pubkey_size(ec)), ss(edwards_curve_scalar_size(ec)) {}
  Bytes priv() { return t.bytes(ks); }
  Bytes scalar() { return !sp.empty() && t.chance(2, 3) ? t.pick(sp).to_le(ss) : gen_int(t, c.n, 8 * ss).to_le(ss); }
  Bytes rscalar() { return t.chance(1, 12) || !sp.empty() ? scalar() : gen_scalar(t, c.n).to_le(ss); }
  Bytes pub() {
    Bytes o(ps), k = scalar();
    eddsa_pubkey_from_scalar(ec, o.data(), k.data());
    if (t.chance(1, 4)) { // plus torsion
      auto it = t.range(0, 7) % c.torsion.size();
      Bytes w(ps), q = c.enc(c.torsion[it]);
      if (eddsa_pubkey_add(ec, w.data(), o.data(), q.data())) o = w;
    }
    return maybe_spoil(t, o);
  }
  Bytes rist() {
    Bytes o(ristretto_pubkey_size(ec)), k = gen_scalar(t, c.n).to_le(ss);
    ristretto_pubkey_create(ec, o.data(), k.data());
    return maybe_spoil(t, o);
  }
};

}

EdwCall gen_edw_call(T &t, int id, const std::vector<Z> &special) {
  EdwGen g(t, id, special);
  size_t ps = g.ps, ss = g.ss, sig = eddsa_sig_size(g.ec), fs = edwards_curve_field_size(g.ec), rs = ristretto_pubkey_size(g.ec);
  typedef const edwards_curve_t *E;
  T *tp = &t;
  int ph = (int)t.pick({-1, 0, 1});
  Bytes ctx = ph >= 0 ? t.bytes(t.len_near({0, 1, 255}, 255)) : Bytes();
  switch (t.weighted({5, 8, 6, 5, 5, 4, 4, 3, 3, 3, 3, 3, 3, 3, 2, 2, 4, 4, 3, 3, 3, 3, 2})) {
    case 0: {
      Bytes k = g.priv();
      return {"pubkey_create", [=](E ec) { Buf o(ps); eddsa_pubkey_create(ec, o, k.data()); return fin(tp, 1, o, ps); }};
    }
    case 1: {
      Bytes k = g.priv(), m = gen_msg(t);
      return {"eddsa_sign", [=](E ec) { Buf o(sig); eddsa_sign(ec, o, m.data(), m.size(), k.data(), ph, ctx.data(), ctx.size()); return fin(tp, 1, o, sig); }};
    }
    case 2: {
      Bytes k = g.priv(), m = gen_msg(t), s(sig), p(ps);
      eddsa_sign(g.ec, s.data(), m.data(), m.size(), k.data(), ph, ctx.data(), ctx.size());
      eddsa_pubkey_create(g.ec, p.data(), k.data());
      s = maybe_spoil(t, s); p = maybe_spoil(t, p);
      return {"eddsa_verify", [=](E ec) {
        return cat(ok(eddsa_verify(ec, m.data(), m.size(), s.data(), p.data(), ph, ctx.data(), ctx.size())),
                   ok(eddsa_verify_single(ec, m.data(), m.size(), s.data(), p.data(), ph, ctx.data(), ctx.size())));
      }};
    }
    case 3: {
      Bytes p = g.pub(), k = g.scalar();
      return {"derive_with_scalar", [=](E ec) { Buf o(ps); int r = eddsa_derive_with_scalar(ec, o, p.data(), k.data()); return fin(tp, r, o, ps); }};
    }
    case 4: {
      Bytes k = g.scalar();
      return {"pubkey_from_scalar", [=](E ec) { Buf o(ps); eddsa_pubkey_from_scalar(ec, o, k.data()); return fin(tp, 1, o, ps); }};
    }
    case 5: {
      Bytes p = g.pub(), w = g.scalar();
      return {"pubkey_tweak_add", [=](E ec) { Buf o(ps); int r = eddsa_pubkey_tweak_add(ec, o, p.data(), w.data()); return fin(tp, r, o, ps); }};
    }
    case 6: {
      Bytes p = g.pub(), w = g.scalar();
      return {"pubkey_tweak_mul", [=](E ec) { Buf o(ps); int r = eddsa_pubkey_tweak_mul(ec, o, p.data(), w.data()); return fin(tp, r, o, ps); }};
    }
    case 7: {
      Bytes k = g.scalar(), w = g.scalar();
      int op = (int)t.range(0, 4);
      return {"scalar arithmetic", [=](E ec) {
        Buf o(ss);
        if (op == 0) eddsa_scalar_tweak_add(ec, o, k.data(), w.data());
        else if (op == 1) eddsa_scalar_tweak_mul(ec, o, k.data(), w.data());
        else if (op == 2) eddsa_scalar_negate(ec, o, k.data());
        else if (op == 3) eddsa_scalar_invert(ec, o, k.data());
        else eddsa_scalar_reduce(ec, o, k.data());
        return fin(tp, 1, o, ss);
      }};
    }
    case 8: {
      Bytes p = g.pub(), q = t.chance(1, 6) ? p : g.pub();
      return {"pubkey_add", [=](E ec) { Buf o(ps); int r = eddsa_pubkey_add(ec, o, p.data(), q.data()); return fin(tp, r, o, ps); }};
    }
    case 9: {
      Bytes p = g.pub();
      return {"point tests", [=](E ec) { return Bytes{(uint8_t)eddsa_pubkey_verify(ec, p.data()), (uint8_t)eddsa_pubkey_is_infinity(ec, p.data()), (uint8_t)eddsa_pubkey_is_small(ec, p.data()), (uint8_t)eddsa_pubkey_has_torsion(ec, p.data())}; }};
    }
    case 10: {
      Bytes k = g.priv(), m = gen_msg(t), w = g.scalar();
      bool mul = t.flip();
      return {mul ? "sign_tweak_mul" : "sign_tweak_add", [=](E ec) {
        Buf o(sig);
        if (mul) eddsa_sign_tweak_mul(ec, o, m.data(), m.size(), k.data(), w.data(), ph, ctx.data(), ctx.size());
        else eddsa_sign_tweak_add(ec, o, m.data(), m.size(), k.data(), w.data(), ph, ctx.data(), ctx.size());
        return fin(tp, 1, o, sig);
      }};
    }
    case 11: {
      Bytes p = g.pub(), k = g.priv();
      return {"eddsa_derive", [=](E ec) { Buf o(ps); int r = eddsa_derive(ec, o, p.data(), k.data()); return fin(tp, r, o, ps); }};
    }
    case 12: {
      Bytes b = t.bytes(fs);
      return {"from_uniform", [=](E ec) { Buf o(ps); eddsa_pubkey_from_uniform(ec, o, b.data()); return fin(tp, 1, o, ps); }};
    }
    case 13: {
      Bytes b = t.bytes(2 * fs);
      int pake = t.flip();
      return {"from_hash", [=](E ec) { Buf o(ps); eddsa_pubkey_from_hash(ec, o, b.data(), pake); return fin(tp, 1, o, ps); }};
    }
    case 14: {
      Bytes p = g.pub();
      unsigned hint = (unsigned)t.range(0, 16);
      return {"to_uniform", [=](E ec) { Buf o(fs); int r = eddsa_pubkey_to_uniform(ec, o, p.data(), hint); return fin(tp, r, o, fs); }};
    }
    case 15: {
      Bytes p = g.pub(), e = t.bytes(32);
      unsigned sub = (unsigned)t.range(0, 7);
      return {"to_hash", [=](E ec) { Buf o(2 * fs); int r = eddsa_pubkey_to_hash(ec, o, p.data(), sub, e.data()); return fin(tp, r, o, 2 * fs); }};
    }
    case 16: {
      Bytes k = g.rscalar();
      return {"ristretto_create", [=](E ec) { Buf o(rs); int r = ristretto_pubkey_create(ec, o, k.data()); return fin(tp, r, o, rs); }};
    }
    case 17: {
      Bytes p = g.rist(), k = g.rscalar();
      return {"ristretto_derive", [=](E ec) { Buf o(rs); int r = ristretto_derive(ec, o, p.data(), k.data()); return fin(tp, r, o, rs); }};
    }
    case 18: {
      Bytes p = g.rist(), w = g.rscalar();
      bool mul = t.flip();
      return {mul ? "ristretto_tweak_mul" : "ristretto_tweak_add", [=](E ec) { Buf o(rs); int r = mul ? ristretto_pubkey_tweak_mul(ec, o, p.data(), w.data()) : ristretto_pubkey_tweak_add(ec, o, p.data(), w.data()); return fin(tp, r, o, rs); }};
    }
    case 19: {
      Bytes b = t.bytes(2 * fs);
      bool h = t.flip();
      return {h ? "ristretto_from_hash" : "ristretto_from_uniform", [=](E ec) { Buf o(rs); if (h) ristretto_pubkey_from_hash(ec, o, b.data()); else ristretto_pubkey_from_uniform(ec, o, b.data()); return fin(tp, 1, o, rs); }};
    }
    case 20: {
      Bytes p = g.rist(), q = t.chance(1, 6) ? p : g.rist();
      return {"ristretto_add", [=](E ec) { Buf o(rs); int r = ristretto_pubkey_add(ec, o, p.data(), q.data()); return fin(tp, r, o, rs); }};
    }
    case 21: {
      Bytes k = g.scalar(), m = gen_msg(t), pre = t.bytes(g.ks);
      return {"sign_with_scalar", [=](E ec) { Buf o(sig); eddsa_sign_with_scalar(ec, o, m.data(), m.size(), k.data(), pre.data(), ph, ctx.data(), ctx.size()); return fin(tp, 1, o, sig); }};
    }
    default: {
      Bytes p = g.pub();
      return {"convert", [=](E ec) { Buf o(fs); int r = eddsa_pubkey_convert(ec, o, p.data()); return fin(tp, r, o, fs); }};
    }
  }
}

MontCall gen_mont_call(T &t, int id) {
  const ref::Mont &c = ref::mont(id);
  mont_curve_t *ec = mont_ctx(id);
  size_t ks = ecdh_privkey_size(ec), ps = ecdh_pubkey_size(ec);
  typedef const mont_curve_t *E;
  T *tp = &t;
  (void)c;
  auto pub = [&]() {
    Bytes o(ps), k = t.bytes(ks);
    if (t.chance(1, 4)) return t.bytes(ps);
    ecdh_pubkey_create(ec, o.data(), k.data());
    return maybe_spoil(t, o);
  };
  switch (t.weighted({3, 4, 2, 2, 2, 2, 1})) {
    case 0: { Bytes k = t.bytes(ks); return {"pubkey_create", [=](E e) { Buf o(ps); ecdh_pubkey_create(e, o, k.data()); return fin(tp, 1, o, ps); }}; }
    case 1: { Bytes k = t.bytes(ks), p = pub(); return {"derive", [=](E e) { Buf o(ps); int r = ecdh_derive(e, o, p.data(), k.data()); return fin(tp, r, o, ps); }}; }
    case 2: { Bytes p = pub(); return {"point tests", [=](E e) { return Bytes{(uint8_t)ecdh_pubkey_verify(e, p.data()), (uint8_t)ecdh_pubkey_is_small(e, p.data()), (uint8_t)ecdh_pubkey_has_torsion(e, p.data())}; }}; }
    case 3: { Bytes b = t.bytes(2 * ps); bool h = t.flip(); int pake = t.flip(); return {"from bytes", [=](E e) { Buf o(ps); int r = 1; if (h) r = ecdh_pubkey_from_hash(e, o, b.data(), pake); else ecdh_pubkey_from_uniform(e, o, b.data()); return fin(tp, r, o, ps); }}; }
    case 4: { Bytes p = pub(); unsigned h = (unsigned)t.range(0, 16); return {"to_uniform", [=](E e) { Buf o(ps); int r = ecdh_pubkey_to_uniform(e, o, p.data(), h); return fin(tp, r, o, ps); }}; }
    case 5: { Bytes p = pub(), en = t.bytes(32); unsigned s = (unsigned)t.range(0, 7); return {"to_hash", [=](E e) { Buf o(2 * ps); int r = ecdh_pubkey_to_hash(e, o, p.data(), s, en.data()); return fin(tp, r, o, 2 * ps); }}; }
    default: { Bytes p = pub(); int s = t.flip(); return {"export", [=](E e) { Buf x(ps), y(ps); int r = ecdh_pubkey_export(e, x, y, p.data(), s); return r ? cat(ok(r, x.get()), y.get()) : ok(r); }}; }
  }
}
