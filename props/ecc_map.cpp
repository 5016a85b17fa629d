// C26: maps from uniform bytes to points, and their inverses.
#include "ecc.h"
#include "ref_map.h"

using ref::Edw;
using ref::Mont;
using ref::Wei;
using ref::edw;
using ref::mont;
using ref::wei;

namespace {

// One curve in one of its forms. Elements are reference points; two points are
// the same element when same() says so, and an element is encoded by enc().
struct Form {
  enum Kind { WEI, XONLY, MONT, EDW, RIST } kind;
  int id;

  const char *family() const {
    static const char *n[5] = {"ecdsa", "bip340", "ecdh", "eddsa", "ristretto"};
    return n[kind];
  }
  const char *name() const { return kind <= XONLY ? wei(id).name : kind == MONT ? mont(id).name : edw(id).name; }
  const Z &p() const { return kind <= XONLY ? wei(id).p : kind == MONT ? mont(id).p : edw(id).p; }
  size_t fs() const { return kind <= XONLY ? wei(id).fs : kind == MONT ? mont(id).fs : edw(id).fs; }
  // the size of uniform bytes; one byte less than an encoding on Ed448
  size_t us() const { return (p().bits() + 7) / 8; }
  long h() const { return kind <= XONLY ? 1 : kind == MONT ? (long)mont(id).h : (long)edw(id).h; }
  bool big() const { return kind <= XONLY; }
  uint8_t top() const { return p().bits() % 8 ? (uint8_t)(0xff << (p().bits() % 8)) : 0; }

  Z import(const Bytes &b) const { return ref::map_import(p(), b, big()); }
  Pt map(const Z &u) const {
    switch (kind) {
      case WEI:
      case XONLY: return ref::map_wei(id, u);
      case MONT: return ref::map_mont(id, u);
      case EDW: return ref::map_edw(id, u);
      default: return ref::map_rist(id, u);
    }
  }
  std::vector<Z> special() const {
    switch (kind) {
      case WEI:
      case XONLY: return ref::special_wei(id);
      case MONT: return ref::special_mont(id);
      case EDW: return ref::special_edw(id);
      default: return ref::special_rist(id);
    }
  }
  Pt zero() const { return kind <= MONT ? Pt() : edw(id).zero(); }
  Pt add(const Pt &a, const Pt &b) const {
    return kind <= XONLY ? wei(id).add(a, b) : kind == MONT ? mont(id).add(a, b) : edw(id).add(a, b);
  }
  Pt neg(const Pt &a) const { return kind <= XONLY ? wei(id).neg(a) : kind == MONT ? mont(id).neg(a) : edw(id).neg(a); }
  Pt mulh(const Pt &a) const {
    if (kind <= XONLY) return a;
    return kind == MONT ? mont(id).mul(Z(h()), a) : edw(id).mul(Z(h()), a);
  }
  Pt torsion(size_t i) const { return kind <= XONLY ? Pt() : kind == MONT ? mont(id).torsion[i] : edw(id).torsion[i]; }
  bool same(const Pt &a, const Pt &b) const {
    switch (kind) {
      case WEI:
      case EDW: return a == b;
      case XONLY:
      case MONT: return a == b || a == neg(b);
      default: return ref::rist_same(id, a, b);
    }
  }
  // the encoding; empty when there is none
  Bytes enc(T &t, const Pt &P, bool compact = true) const {
    switch (kind) {
      case WEI: return P.inf ? Bytes() : wei(id).enc(P, compact);
      case XONLY: return P.inf ? Bytes() : P.x.to_be(fs());
      case MONT: return P.inf ? Bytes() : P.x.to_le(fs());
      case EDW: return edw(id).enc(P);
      default: {
        Bytes s;
        EXPECT(t, ref::rist_enc(id, s, P), "reference: an element does not have exactly one encoding");
        return s;
      }
    }
  }

  // The library. Each returns the status; out is the encoding.
  int from_uniform(T &t, Bytes &out, const Bytes &u, bool compact) const {
    Buf ub(u), o(2 * fs() + 2);
    size_t n = 0;
    switch (kind) {
      case WEI: ecdsa_pubkey_from_uniform(wei_ctx(id), o, &n, ub, compact); break;
      case XONLY: bip340_pubkey_from_uniform(wei_ctx(id), o, ub), n = fs(); break;
      case MONT: ecdh_pubkey_from_uniform(mont_ctx(id), o, ub), n = fs(); break;
      case EDW: eddsa_pubkey_from_uniform(edw_ctx(id), o, ub), n = edw(id).es; break;
      default: ristretto_pubkey_from_uniform(edw_ctx(id), o, ub), n = fs(); break;
    }
    EXPECT(t, o.intact(), "%s_pubkey_from_uniform wrote outside its buffer", family());
    EXPECT(t, n <= o.n, "%s_pubkey_from_uniform reported %zu bytes", family(), n);
    out = o.get(n);
    return 1;
  }
  int from_hash(T &t, Bytes &out, const Bytes &u, bool compact, bool pake) const {
    Buf ub(u), o(2 * fs() + 2);
    size_t n = 0;
    int r = 1;
    switch (kind) {
      case WEI: r = ecdsa_pubkey_from_hash(wei_ctx(id), o, &n, ub, compact); break;
      case XONLY: r = bip340_pubkey_from_hash(wei_ctx(id), o, ub), n = fs(); break;
      case MONT: r = ecdh_pubkey_from_hash(mont_ctx(id), o, ub, pake), n = fs(); break;
      case EDW: eddsa_pubkey_from_hash(edw_ctx(id), o, ub, pake), n = edw(id).es; break;
      default: ristretto_pubkey_from_hash(edw_ctx(id), o, ub), n = fs(); break;
    }
    EXPECT(t, o.intact(), "%s_pubkey_from_hash wrote outside its buffer", family());
    EXPECT(t, n <= o.n, "%s_pubkey_from_hash reported %zu bytes", family(), n);
    out = o.get(n);
    return r;
  }
  int to_uniform(T &t, Bytes &out, const Bytes &pub, unsigned hint) const {
    Buf pb(pub), o(us());
    int r;
    switch (kind) {
      case WEI: r = ecdsa_pubkey_to_uniform(wei_ctx(id), o, pb, pub.size(), hint); break;
      case XONLY: r = bip340_pubkey_to_uniform(wei_ctx(id), o, pb, hint); break;
      case MONT: r = ecdh_pubkey_to_uniform(mont_ctx(id), o, pb, hint); break;
      case EDW: r = eddsa_pubkey_to_uniform(edw_ctx(id), o, pb, hint); break;
      default: r = ristretto_pubkey_to_uniform(edw_ctx(id), o, pb, hint); break;
    }
    EXPECT(t, o.intact(), "%s_pubkey_to_uniform wrote outside its buffer", family());
    EXPECT(t, r == 0 || r == 1, "%s_pubkey_to_uniform returned %d", family(), r);
    out = o.get();
    return r;
  }
  int to_hash(T &t, Bytes &out, const Bytes &pub, unsigned subgroup, const Bytes &entropy) const {
    Buf pb(pub), eb(entropy), o(2 * us());
    int r;
    switch (kind) {
      case WEI: r = ecdsa_pubkey_to_hash(wei_ctx(id), o, pb, pub.size(), subgroup, eb); break;
      case XONLY: r = bip340_pubkey_to_hash(wei_ctx(id), o, pb, subgroup, eb); break;
      case MONT: r = ecdh_pubkey_to_hash(mont_ctx(id), o, pb, subgroup, eb); break;
      case EDW: r = eddsa_pubkey_to_hash(edw_ctx(id), o, pb, subgroup, eb); break;
      default: r = ristretto_pubkey_to_hash(edw_ctx(id), o, pb, eb); break;
    }
    EXPECT(t, o.intact(), "%s_pubkey_to_hash wrote outside its buffer", family());
    out = o.get();
    return r;
  }
  int verify(const Bytes &pub) const {
    Buf b(pub);
    switch (kind) {
      case WEI: return ecdsa_pubkey_verify(wei_ctx(id), b, pub.size());
      case XONLY: return bip340_pubkey_verify(wei_ctx(id), b);
      case MONT: return ecdh_pubkey_verify(mont_ctx(id), b);
      case EDW: return eddsa_pubkey_verify(edw_ctx(id), b);
      default: return ristretto_pubkey_verify(edw_ctx(id), b);
    }
  }
};

Form gen_form(T &t) {
  Form f;
  f.kind = (Form::Kind)t.weighted({5, 2, 3, 3, 4});
  f.id = f.kind <= Form::XONLY ? pick_wei(t) : f.kind == Form::MONT ? (int)t.pick({0, 0, 1}) : pick_edw(t);
  return f;
}

// Uniform bytes, often at a case of the map's own or not reduced.
Bytes gen_uniform(T &t, const Form &f) {
  Z u;
  switch (t.weighted({4, 3, 2, 1, 1})) {
    case 0: return t.rnd(f.us());
    case 1: {
      auto s = f.special();
      u = s[t.range(0, s.size() - 1)];
      break;
    }
    case 2: u = gen_int(t, f.p(), f.p().bits()); break;
    case 3: u = (f.p() + Z((long)t.range(0, 20)) - Z(10)) % Z::pow2(f.p().bits()); break;
    default: return t.bytes(f.us());
  }
  if (t.chance(1, 5) && (u + f.p()).bits() <= f.p().bits()) u = u + f.p();
  Bytes b = f.big() ? u.to_be(f.us()) : u.to_le(f.us());
  if (t.chance(1, 4)) b[f.big() ? 0 : f.us() - 1] |= (uint8_t)t.byte() & f.top();
  return b;
}

bool is_special(const Form &f, const Z &u) {
  for (const Z &s : f.special())
    if (s == u) return true;
  return false;
}

// A point: an image of the map, where an inverse has a case of its own, of
// small order, or any other.
Pt gen_point(T &t, const Form &f) {
  switch (t.weighted({5, 3, 2, 3})) {
    case 0: return f.map(f.import(gen_uniform(t, f)));
    case 1: {
      if (f.kind <= Form::XONLY) {
        Pt P;
        for (const Z &x : ref::special_wei_x(f.id))
          if (t.flip() && wei(f.id).lift(P, x, t.flip())) return P;
        return f.map(f.import(gen_uniform(t, f)));
      }
      if (f.kind == Form::MONT) {
        Pt P;
        const Mont &c = mont(f.id);
        Z x = t.pick({0, 1, 2, 3}) ? (c.p - c.A) : Z(0);
        if (c.lift(P, x, t.flip())) return P;
        return f.torsion(t.range(1, f.h() - 1));
      }
      auto s = ref::special_edw_pt(f.id);
      if (f.kind == Form::RIST) return edw(f.id).zero();
      return s.empty() ? f.zero() : s[t.range(0, s.size() - 1)];
    }
    case 2:
      if (f.kind == Form::EDW) return f.torsion(t.range(0, f.h() - 1));
      if (f.kind == Form::MONT) return f.torsion(t.range(1, f.h() - 1));
      // fall through
    default: {
      if (f.kind <= Form::XONLY) return wei(f.id).mulg(gen_scalar(t, wei(f.id).n));
      if (f.kind == Form::MONT) return f.add(mont(f.id).mul(gen_scalar(t, mont(f.id).n), mont(f.id).g), f.torsion(t.range(0, f.h() - 1)));
      Pt P = edw(f.id).mulg(gen_scalar(t, edw(f.id).n));
      return f.kind == Form::EDW ? f.add(P, f.torsion(t.range(0, f.h() - 1))) : P;
    }
  }
}

// Is Q the element P moved by a torsion point, by none exactly when s is a
// multiple of h?
bool in_coset(const Form &f, const Pt &Q, const Pt &P, unsigned s) {
  if (f.kind == Form::RIST || s % (unsigned)f.h() == 0) return f.same(Q, P);
  for (long i = 1; i < f.h(); i++)
    if (f.same(Q, f.add(P, f.torsion((size_t)i)))) return true;
  return false;
}

}  // namespace

PBT_RULE(C26, "the map is evaluated, or an inverse exists for the hint");

PBT_PROP(C26, from_uniform, 70000, 1200000) {
  Form f = gen_form(t);
  Bytes u = gen_uniform(t, f), got;
  bool compact = t.flip();
  Z v = f.import(u);
  t.nontrivial();
  t.label("%s %s%s", f.family(), f.name(), is_special(f, v) ? " special" : "");
  t.mix64((uint64_t)f.kind), t.mix(u);
  t.show("bytes", u);
  f.from_uniform(t, got, u, compact);
  expect_eq(t, got, f.enc(t, f.map(v), compact), "%s_pubkey_from_uniform on %s", f.family(), f.name());
  EXPECT(t, f.verify(got) == 1, "%s_pubkey_from_uniform on %s gave an invalid key", f.family(), f.name());
}

PBT_PROP(C26, from_hash, 40000, 600000) {
  Form f = gen_form(t);
  Bytes u = gen_uniform(t, f), w = gen_uniform(t, f), both = u, got;
  switch (t.weighted({4, 1, 1})) {
    case 0: break;
    case 1: w = u; break;
    default: {
      Z v = (f.p() - f.import(u)) % f.p();
      w = f.big() ? v.to_be(f.us()) : v.to_le(f.us());
    }
  }
  both.insert(both.end(), w.begin(), w.end());
  bool compact = t.flip(), pake = t.flip();
  Pt P = f.add(f.map(f.import(u)), f.map(f.import(w)));
  if (pake && (f.kind == Form::MONT || f.kind == Form::EDW)) P = f.mulh(P);
  Bytes want = f.enc(t, P, compact);
  t.nontrivial();
  t.label("%s %s%s%s", f.family(), f.name(), u == w ? " equal" : "", want.empty() || P == f.zero() ? " identity" : "");
  t.mix64((uint64_t)f.kind), t.mix(both);
  t.show("bytes", both);
  int r = f.from_hash(t, got, both, compact, pake);
  EXPECT(t, r == (int)!want.empty(), "%s_pubkey_from_hash on %s returned %d, want %d", f.family(), f.name(), r, !want.empty());
  if (r) expect_eq(t, got, want, "%s_pubkey_from_hash on %s", f.family(), f.name());
}

PBT_PROP(C26, to_uniform, 70000, 1200000) {
  Form f = gen_form(t);
  Pt P = gen_point(t, f);
  Bytes pub = f.enc(t, P, t.flip());
  unsigned hint = (unsigned)t.range(0, 15) | (unsigned)(t.flip() ? 0 : t.range(0, 15)) << 4 | (unsigned)t.byte() << 8;
  if (t.chance(1, 8)) hint |= (unsigned)t.bits(16) << 16;
  t.mix64((uint64_t)f.kind), t.mix(pub), t.mix64(hint);
  t.show("key", pub);
  t.note("hint %08x", hint);
  Bytes got;
  int r = f.to_uniform(t, got, pub, hint);
  if (r) t.nontrivial();
  t.label("%s %s %s", f.family(), f.name(), r ? "inverted" : "none");
  if (!r) return;
  uint8_t top = got[f.big() ? 0 : f.us() - 1] & f.top();
  EXPECT(t, top == (uint8_t)((hint >> 8) & f.top()), "%s_pubkey_to_uniform on %s with hint %08x: top bits %02x", f.family(), f.name(), hint, top);
  Pt Q = f.map(f.import(got));
  EXPECT(t, in_coset(f, Q, P, (hint >> 4) & 15), "%s_pubkey_to_uniform on %s with hint %08x: the bytes map to another element", f.family(), f.name(), hint);
  if (f.kind == Form::RIST || ((hint >> 4) & 15) % (unsigned)f.h() == 0) {
    Bytes back;
    f.from_uniform(t, back, got, true);
    expect_eq(t, back, f.enc(t, P, true), "%s_pubkey_from_uniform of %s_pubkey_to_uniform on %s", f.family(), f.family(), f.name());
  }
}

PBT_PROP(C26, preimages, 24000, 400000) {
  // Some hint finds any preimage that is not an exceptional one.
  Form f = gen_form(t);
  Bytes u = gen_uniform(t, f);
  Z v = f.import(u);
  t.mix64((uint64_t)f.kind), t.mix(u);
  t.show("bytes", u);
  if (is_special(f, v)) t.discard();
  t.nontrivial();
  t.label("%s %s", f.family(), f.name());
  Bytes pub = f.enc(t, f.map(v)), b;
  bool found = false;
  unsigned n = f.kind == Form::RIST ? 32 : f.kind <= Form::XONLY ? 4 : 2;
  for (unsigned i = 0; i < n && !found; i++) {
    unsigned hint = f.kind == Form::RIST ? (i & 15) | (i >> 4) << 4 : i;
    if (!f.to_uniform(t, b, pub, hint)) continue;
    Z w = f.import(b);
    found = w == v || ((f.kind == Form::XONLY || f.kind == Form::MONT) && (w + v) % f.p() == Z(0));
  }
  EXPECT(t, found, "%s_pubkey_to_uniform on %s: no hint gives back the bytes the key was made from", f.family(), f.name());
}

PBT_PROP(C26, to_hash, 14000, 200000) {
  Form f = gen_form(t);
  Pt P = gen_point(t, f);
  Bytes pub = f.enc(t, P, t.flip()), e = t.bytes(32), got, again;
  unsigned s = t.flip() ? 0 : (unsigned)t.range(0, 40);
  if (f.kind <= Form::XONLY || f.kind == Form::RIST) s = t.flip() ? s : 0;
  t.mix64((uint64_t)f.kind), t.mix(pub), t.mix(e), t.mix64(s);
  t.show("key", pub), t.show("entropy", e);
  t.note("subgroup %u", s);
  t.nontrivial();
  t.label("%s %s", f.family(), f.name());
  int r = f.to_hash(t, got, pub, s, e);
  EXPECT(t, r == 1, "%s_pubkey_to_hash on %s returned %d", f.family(), f.name(), r);
  Bytes a(got.begin(), got.begin() + (long)f.us()), b(got.begin() + (long)f.us(), got.end());
  Pt Q = f.add(f.map(f.import(a)), f.map(f.import(b)));
  EXPECT(t, in_coset(f, Q, P, s & 15), "%s_pubkey_to_hash on %s in subgroup %u: the bytes map to another element", f.family(), f.name(), s);
  if (f.kind == Form::RIST || (s & 15) % (unsigned)f.h() == 0) {
    Bytes back;
    r = f.from_hash(t, back, got, true, false);
    EXPECT(t, r == 1, "%s_pubkey_from_hash on %s refused the output of %s_pubkey_to_hash", f.family(), f.name(), f.family());
    expect_eq(t, back, f.enc(t, P, true), "%s_pubkey_from_hash of %s_pubkey_to_hash on %s", f.family(), f.family(), f.name());
  }
  EXPECT(t, f.to_hash(t, again, pub, s, e) == 1 && again == got, "%s_pubkey_to_hash on %s is not determined by its arguments", f.family(), f.name());
}

PBT_PROP(C26, invalid_keys, 6000, 60000) {
  Form f = gen_form(t);
  Bytes pub = f.enc(t, f.map(f.import(t.rnd(f.us())))), out;
  pub = t.mutate(pub, false);
  t.mix64((uint64_t)f.kind), t.mix(pub);
  t.show("key", pub);
  bool ok;
  Pt P;
  switch (f.kind) {
    case Form::WEI: ok = wei(f.id).dec(P, pub); break;
    case Form::XONLY: ok = Z::be(pub) < f.p() && wei(f.id).has_x(Z::be(pub)); break;
    case Form::MONT: ok = mont(f.id).has_x(mont(f.id).coord(pub)); break;
    case Form::EDW: ok = edw(f.id).dec(P, pub); break;
    default: ok = ref::rist_dec(f.id, P, pub); break;
  }
  t.label("%s %s", f.family(), ok ? "valid" : "invalid");
  if (ok) return;
  t.nontrivial();
  EXPECT(t, f.to_uniform(t, out, pub, (unsigned)t.bits(16)) == 0, "%s_pubkey_to_uniform on %s took an invalid key", f.family(), f.name());
  EXPECT(t, f.to_hash(t, out, pub, (unsigned)t.range(0, 7), t.bytes(32)) == 0, "%s_pubkey_to_hash on %s took an invalid key", f.family(), f.name());
}
