// C13-C16: the big-integer interface against GMP.
#include "common.h"
#include "ref_int.h"

#include <functional>

#include <torsion/mpi.h>

using ref::Z;
typedef std::vector<uint64_t> Limbs;

namespace {

// A big integer of the library under test.
struct M {
  mpz_t z;
  M() { mpz_init(z); }
  ~M() { mpz_clear(z); }
  M(const M &) = delete;
  M &operator=(const M &) = delete;
  void set(const Z &v) {
    Bytes b = v.to_le((v.bits() + 7) / 8);
    // A zero, and half of the others, in an object that held something longer before.
    if (v.sgn() == 0 || __builtin_parityll(v.low() * 0x9e3779b97f4a7c15ull >> 60)) {
      Bytes old(b.size() + 24, 0xa7);
      mpz_import(z, old.data(), old.size(), -1);
    }
    mpz_import(z, b.data(), b.size(), -1);
    if (v.sgn() < 0) mpz_neg(z, z);
  }
  operator mpz_ptr() { return z; }
};

// Reads a result and checks that it is in canonical form.
Z get(T &t, const char *what, mpz_srcptr z) {
  size_t n = mpz_size(z);
  const mp_limb_t *p = mpz_limbs_read(z);
  if (n) EXPECT(t, p[n - 1] != 0, "%s: top limb of the result is zero", what);
  EXPECT(t, (mpz_sgn(z) == 0) == (n == 0), "%s: sign %d with %zu limbs", what, mpz_sgn(z), n);
  return Z::limbs(p, n, mpz_sgn(z) < 0);
}

std::string txt(const Z &z) {
  std::string s = z.text(16);
  return s.size() > 600 ? s.substr(0, 300) + ".." + s.substr(s.size() - 40) : s;
}

void same(T &t, const char *what, const Z &got, const Z &want) {
  if (got != want) t.fail("%s: got %s want %s", what, txt(got).c_str(), txt(want).c_str());
}
void same(T &t, const char *what, long got, long want) { EXPECT(t, got == want, "%s: got %ld want %ld", what, got, want); }

uint64_t word(T &t) {
  switch (t.weighted({3, 3, 2, 2, 3})) {
    case 0: return t.range(0, 16);
    case 1: return t.bits(t.range(0, 64));
    case 2: return ~(uint64_t)0 - t.range(0, 4);
    case 3: {
      uint64_t v = (uint64_t)1 << t.range(0, 63);
      return v + t.range(0, 2) - 1;
    }
    default: return t.bits(64);
  }
}

int64_t sword(T &t) {
  uint64_t w = word(t);
  return t.chance(1, 16) ? INT64_MIN : (int64_t)w;
}

Limbs limbs(T &t, size_t n) {
  Limbs v(n);
  int style = (int)t.weighted({3, 3, 2, 2, 2});
  if (style == 2) {  // runs of all-one and all-zero limbs
    uint64_t cur = t.flip() ? ~(uint64_t)0 : 0;
    for (size_t i = 0; i < n; i++) {
      if (t.chance(1, 3)) cur = ~cur;
      v[i] = cur;
    }
    if (n && t.chance(1, 2)) v[t.range(0, n - 1)] = word(t);
    return v;
  }
  if (style == 3) {  // 2^k or 2^k - 1
    if (!n) return v;
    size_t k = t.range(0, 64 * n - 1);
    bool minus = t.flip();
    for (size_t i = 0; i < n; i++) {
      if (minus) {
        if (i < k / 64) v[i] = ~(uint64_t)0;
        else if (i == k / 64) v[i] = ((uint64_t)1 << (k % 64)) - 1;
      } else if (i == k / 64) {
        v[i] = (uint64_t)1 << (k % 64);
      }
    }
    return v;
  }
  for (auto &x : v) x = style == 0 ? t.bits(64) : style == 1 ? word(t) : t.pick({(uint64_t)0, ~(uint64_t)0, (uint64_t)1, (uint64_t)1 << 63, t.bits(64)});
  return v;
}

size_t nlimbs(T &t, size_t max) {
  size_t n;
  switch (t.weighted({10, 8, 3, 1, 1})) {
    case 0: n = t.range(0, 4); break;
    case 1: n = t.range(1, 10); break;
    case 2: n = t.range(8, 24); break;
    case 3: n = t.range(62, 68); break;
    default: n = t.range(126, 134); break;
  }
  return n > max ? n % (max + 1) : n;
}

Z gen(T &t, size_t max = 140, bool neg = true) {
  Limbs v = limbs(t, nlimbs(t, max));
  return Z::limbs(v.data(), v.size(), neg && t.chance(2, 5));
}
Z gen_nz(T &t, size_t max = 140, bool neg = true) {
  Z z = gen(t, max, neg);
  return z.zero() ? Z(1) : z;
}

// Runs an operation with generated aliasing of outputs with inputs and of inputs
// with each other, then compares every output and checks that everything else is
// unchanged.
typedef std::function<void(mpz_ptr *, mpz_srcptr *)> Call;
typedef std::function<std::vector<Z>(const Z *, const Z *)> Want;  // (inputs, outputs before)

void run(T &t, const char *name, size_t nout, std::vector<Z> in, const Call &call, const Want &want, bool alias_in = true, bool alias_out = true) {
  size_t nin = in.size();
  std::vector<size_t> ri(nin), ro(nout);
  size_t regs = 0;
  std::vector<Z> val;
  for (size_t i = 0; i < nin; i++) {
    if (alias_in && i > 0 && t.chance(1, 8)) {
      size_t j = t.range(0, i - 1);
      ri[i] = ri[j];
      in[i] = in[j];
    } else {
      ri[i] = regs++;
      val.push_back(in[i]);
    }
  }
  std::string how;
  for (size_t o = 0; o < nout; o++) {
    bool ok = false;
    if (alias_out && nin && t.chance(2, 5)) {
      size_t r = ri[t.range(0, nin - 1)];
      ok = true;
      for (size_t k = 0; k < o; k++)
        if (ro[k] == r) ok = false;
      if (ok) {
        ro[o] = r;
        how += " out" + std::to_string(o) + "=reg" + std::to_string(r);
      }
    }
    if (!ok) {
      ro[o] = regs++;
      val.push_back(gen(t, 6));
    }
  }
  if (t.recording()) {
    t.label("%s%s", name, how.empty() ? "" : " aliased");
    for (size_t i = 0; i < nin; i++) t.note("in%zu=reg%zu = %s", i, ri[i], txt(in[i]).c_str());
    t.note("%s%s", name, how.c_str());
  }
  std::vector<Z> pre(nout);
  for (size_t o = 0; o < nout; o++) pre[o] = val[ro[o]];
  std::vector<Z> exp = want(in.data(), pre.data());
  std::vector<std::unique_ptr<M>> m(regs);
  for (size_t r = 0; r < regs; r++) {
    m[r].reset(new M);
    m[r]->set(val[r]);
  }
  std::vector<mpz_ptr> op(nout);
  std::vector<mpz_srcptr> ip(nin);
  for (size_t o = 0; o < nout; o++) op[o] = *m[ro[o]];
  for (size_t i = 0; i < nin; i++) ip[i] = *m[ri[i]];
  call(op.data(), ip.data());
  std::vector<bool> out(regs, false);
  for (size_t o = 0; o < nout; o++) {
    out[ro[o]] = true;
    if (o < exp.size()) same(t, name, get(t, name, op[o]), exp[o]);
  }
  for (size_t r = 0; r < regs; r++)
    if (!out[r]) same(t, "an input changed", get(t, name, *m[r]), val[r]);
}

// Operand pairs that are near each other, share limbs, or multiply to a pattern.
void pair(T &t, Z &x, Z &y, size_t max = 140) {
  x = gen(t, max);
  switch (t.weighted({6, 1, 1, 1})) {
    case 0: y = gen(t, max); break;
    case 1: y = x; break;
    case 2: y = -x + Z((long)t.range(0, 4)) - Z(2); break;
    default: y = x + Z((long)t.range(0, 4)) - Z(2); break;
  }
}

// Dividend/divisor pairs around the correction steps of long division.
void divpair(T &t, Z &n, Z &d, size_t max = 140) {
  d = gen_nz(t, max);
  switch (t.weighted({3, 4, 3})) {
    case 0: n = gen(t, max); break;
    case 1: {  // n = q d + r with extreme remainders
      Z q = gen(t, 12), r;
      Z a = d.abs();
      switch (t.range(0, 3)) {
        case 0: r = Z(0); break;
        case 1: r = a - Z(1); break;
        case 2: r = Z(1) % a; break;
        default: r = gen(t, max, false) % a; break;
      }
      n = q * a + (q.sgn() < 0 ? -r : r);
      if (t.chance(1, 4)) n = -n;
      break;
    }
    default: {  // the top limbs of n repeat those of d, perhaps slightly smaller
      std::vector<uint64_t> dl = d.to_limbs();
      size_t extra = t.range(0, 6);
      Limbs low = limbs(t, extra);
      Limbs nl(low);
      nl.insert(nl.end(), dl.begin(), dl.end());
      if (t.chance(1, 2) && dl.size() > 1) nl[extra + t.range(0, dl.size() - 2)] -= t.range(0, 2);
      n = Z::limbs(nl.data(), nl.size(), t.chance(1, 3));
      break;
    }
  }
}

long sg(const Z &z) { return z.sgn(); }

}  // namespace

// ---------------------------------------------------------------- C13

PBT_RULE(C13, "an operand is non-zero");

PBT_PROP(C13, arith, 600000, 8000000) {
  Z x, y;
  pair(t, x, y);
  if (x.sgn() || y.sgn()) t.nontrivial();
  switch (t.range(0, 11)) {
    case 0: return run(t, "mpz_add", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_add(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] + i[1]}; });
    case 1: return run(t, "mpz_sub", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_sub(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] - i[1]}; });
    case 2: case 3: return run(t, "mpz_mul", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_mul(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] * i[1]}; });
    case 4: return run(t, "mpz_sqr", 1, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_sqr(o[0], i[0]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] * i[0]}; });
    case 5: return run(t, "mpz_addmul", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_addmul(o[0], i[0], i[1]); }, [](const Z *i, const Z *p) { return std::vector<Z>{p[0] + i[0] * i[1]}; });
    case 6: return run(t, "mpz_submul", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_submul(o[0], i[0], i[1]); }, [](const Z *i, const Z *p) { return std::vector<Z>{p[0] - i[0] * i[1]}; });
    case 7: {
      size_t bits = t.range(0, t.chance(1, 2) ? 130 : x.bits() + y.bits() + 70);
      return run(t, "mpz_mulshift", 1, {x, y}, [bits](mpz_ptr *o, mpz_srcptr *i) { mpz_mulshift(o[0], i[0], i[1], bits); },
                 [bits](const Z *i, const Z *) {
                   Z p = i[0] * i[1], a = p.abs();
                   if (bits) a = (a + Z::pow2(bits - 1)) >> bits;
                   return std::vector<Z>{p.sgn() < 0 ? -a : a};
                 });
    }
    case 8: return run(t, "mpz_neg", 1, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_neg(o[0], i[0]); }, [](const Z *i, const Z *) { return std::vector<Z>{-i[0]}; });
    case 9: return run(t, "mpz_abs", 1, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_abs(o[0], i[0]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0].abs()}; });
    case 10: {
      if (x.bits() > 512) x = x >> (x.bits() - 512);
      unsigned long e = t.range(0, x.bits() > 64 ? 12 : 70);
      return run(t, "mpz_pow_ui", 1, {x}, [e](mpz_ptr *o, mpz_srcptr *i) { mpz_pow_ui(o[0], i[0], e); }, [e](const Z *i, const Z *) { return std::vector<Z>{ref::powi(i[0], e)}; });
    }
    default: return run(t, "mpz_set", 1, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_set(o[0], i[0]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0]}; });
  }
}

PBT_PROP(C13, words, 600000, 8000000) {
  Z x = gen(t, 70);
  uint64_t u = word(t);
  int64_t s = sword(t);
  Z U = Z::u64(u), S((long)s);
  if (t.chance(1, 6)) x = t.flip() ? U : -U;
  if (t.chance(1, 8)) x = x + Z::pow2(64 * t.range(1, 4)) - Z(1);
  if (x.sgn()) t.nontrivial();
  if (t.recording()) t.note("u=%llx s=%lld", (unsigned long long)u, (long long)s);
#define UN(nm, expr, want) return run(t, nm, 1, {x}, [u, s](mpz_ptr *o, mpz_srcptr *i) { (void)u; (void)s; expr; }, [U, S](const Z *i, const Z *p) { (void)p; return std::vector<Z>{want}; })
  switch (t.range(0, 13)) {
    case 0: UN("mpz_add_ui", mpz_add_ui(o[0], i[0], u), i[0] + U);
    case 1: UN("mpz_add_si", mpz_add_si(o[0], i[0], s), i[0] + S);
    case 2: UN("mpz_sub_ui", mpz_sub_ui(o[0], i[0], u), i[0] - U);
    case 3: UN("mpz_sub_si", mpz_sub_si(o[0], i[0], s), i[0] - S);
    case 4: UN("mpz_ui_sub", mpz_ui_sub(o[0], u, i[0]), U - i[0]);
    case 5: UN("mpz_si_sub", mpz_si_sub(o[0], s, i[0]), S - i[0]);
    case 6: UN("mpz_mul_ui", mpz_mul_ui(o[0], i[0], u), i[0] * U);
    case 7: UN("mpz_mul_si", mpz_mul_si(o[0], i[0], s), i[0] * S);
    case 8: UN("mpz_addmul_ui", mpz_addmul_ui(o[0], i[0], u), p[0] + i[0] * U);
    case 9: UN("mpz_addmul_si", mpz_addmul_si(o[0], i[0], s), p[0] + i[0] * S);
    case 10: UN("mpz_submul_ui", mpz_submul_ui(o[0], i[0], u), p[0] - i[0] * U);
    case 11: UN("mpz_submul_si", mpz_submul_si(o[0], i[0], s), p[0] - i[0] * S);
    case 12: {
      uint64_t e = t.range(0, 40);
      return run(t, "mpz_ui_pow_ui", 1, {}, [u, e](mpz_ptr *o, mpz_srcptr *) { mpz_ui_pow_ui(o[0], u, e); }, [U, e](const Z *, const Z *) { return std::vector<Z>{ref::powi(U, e)}; });
    }
    default: {
      M a;
      if (t.flip()) mpz_set_ui(a, u), same(t, "mpz_set_ui", get(t, "set_ui", a), U);
      else mpz_set_si(a, s), same(t, "mpz_set_si", get(t, "set_si", a), S);
    }
  }
}

PBT_PROP(C13, division, 800000, 10000000) {
  Z n, d;
  divpair(t, n, d);
  if (n.sgn()) t.nontrivial();
  switch (t.range(0, 9)) {
    case 0: case 1: return run(t, "mpz_quorem", 2, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_quorem(o[0], o[1], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::tdiv(i[0], i[1]), ref::trem(i[0], i[1])}; }, n.sgn() != 0);
    case 2: return run(t, "mpz_quo", 1, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_quo(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::tdiv(i[0], i[1])}; }, n.sgn() != 0);
    case 3: return run(t, "mpz_rem", 1, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_rem(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::trem(i[0], i[1])}; }, n.sgn() != 0);
    case 4: return run(t, "mpz_divmod", 2, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_divmod(o[0], o[1], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::ediv(i[0], i[1]), i[0] % i[1]}; }, n.sgn() != 0);
    case 5: return run(t, "mpz_div", 1, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_div(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::ediv(i[0], i[1])}; }, n.sgn() != 0);
    case 6: return run(t, "mpz_mod", 1, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_mod(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] % i[1]}; }, n.sgn() != 0);
    case 7: {
      Z q = gen(t, 20);
      n = q * d;
      return run(t, "mpz_divexact", 1, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_divexact(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::tdiv(i[0], i[1])}; }, n.sgn() != 0);
    }
    case 8: {
      if (t.chance(1, 2)) {  // exact halves
        Z q = gen(t, 6);
        d = d * Z(2);
        n = q * d + ref::tdiv(d, Z(2)) + Z((long)t.range(0, 2)) - Z(1);
      }
      return run(t, "mpz_divround", 1, {n, d}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_divround(o[0], i[0], i[1]); },
                 [](const Z *i, const Z *) {
                   Z a = i[0].abs(), b = i[1].abs();
                   Z q = ref::fdiv(a * Z(2) + b, b * Z(2));
                   return std::vector<Z>{i[0].sgn() * i[1].sgn() < 0 ? -q : q};
                 }, n.sgn() != 0);
    }
    default: {
      M a, b, c;
      Z y = n - gen(t, 4) * d + (t.flip() ? Z(0) : Z(1)), m = t.chance(1, 10) ? Z(0) : d;
      a.set(n), b.set(y), c.set(m);
      bool div = m.zero() ? n.zero() : (n % m).zero(), cong = m.zero() ? n == y : ((n - y) % m).zero();
      t.label("divisible/congruent");
      same(t, "mpz_divisible_p", mpz_divisible_p(a, c) != 0, div);
      same(t, "mpz_congruent_p", mpz_congruent_p(a, b, c) != 0, cong);
    }
  }
}

PBT_PROP(C13, division_words, 600000, 8000000) {
  Z n = gen(t, 70);
  uint64_t u = word(t);
  int64_t s = sword(t);
  if (!u) u = 1;
  if (!s) s = -1;
  Z U = Z::u64(u), S((long)s);
  if (t.chance(1, 3)) n = n * U + (t.flip() ? U - Z(1) : Z(0));
  if (t.chance(1, 6)) n = n * S;
  if (n.sgn()) t.nontrivial();
  if (t.recording()) t.note("u=%llx s=%lld", (unsigned long long)u, (long long)s);
  Z rr;  // machine-word result
  bool sgnd = false;
#define DW(nm, expr, want) do { run(t, nm, 1, {n}, [&](mpz_ptr *o, mpz_srcptr *i) { expr; }, [&](const Z *i, const Z *p) { (void)p; return std::vector<Z>{want}; }); } while (0)
  uint64_t ru = 0;
  int64_t rs = 0;
  switch (t.range(0, 10)) {
    case 0: DW("mpz_quo_ui", ru = mpz_quo_ui(o[0], i[0], u), ref::tdiv(i[0], U)); rr = ref::trem(n, U).abs(); break;
    case 1: DW("mpz_quo_si", rs = mpz_quo_si(o[0], i[0], s), ref::tdiv(i[0], S)); rr = ref::trem(n, S); sgnd = true; break;
    case 2: DW("mpz_div_ui", ru = mpz_div_ui(o[0], i[0], u), ref::ediv(i[0], U)); rr = n % U; break;
    case 3: DW("mpz_div_si", rs = mpz_div_si(o[0], i[0], s), ref::ediv(i[0], S)); rr = n % S; sgnd = true; break;
    case 4: { n = ref::fdiv(n, U) * U; DW("mpz_divexact_ui", mpz_divexact_ui(o[0], i[0], u), ref::tdiv(i[0], U)); return; }
    case 5: { n = ref::fdiv(n, S) * S; DW("mpz_divexact_si", mpz_divexact_si(o[0], i[0], s), ref::tdiv(i[0], S)); return; }
    case 6: {
      Z d = t.flip() ? U : S;
      bool isU = d == U;
      if (t.chance(1, 2)) n = n * d + ref::fdiv(d, Z(2)) + Z((long)t.range(0, 1));
      auto want = [&](const Z &v) {
        Z b = d.abs(), q = ref::fdiv(v.abs() * Z(2) + b, b * Z(2));
        return v.sgn() * d.sgn() < 0 ? -q : q;
      };
      if (isU) DW("mpz_divround_ui", mpz_divround_ui(o[0], i[0], u), want(i[0]));
      else DW("mpz_divround_si", mpz_divround_si(o[0], i[0], s), want(i[0]));
      return;
    }
    default: {
      M a, b;
      Z y = t.flip() ? n - U * gen(t, 3) : gen(t, 10);
      a.set(n), b.set(y);
      t.label("word remainders");
      same(t, "mpz_rem_ui", Z::u64(mpz_rem_ui(a, u)), ref::trem(n, U).abs());
      same(t, "mpz_rem_si", Z((long)mpz_rem_si(a, s)), ref::trem(n, S));
      same(t, "mpz_mod_ui", Z::u64(mpz_mod_ui(a, u)), n % U);
      same(t, "mpz_mod_si", Z((long)mpz_mod_si(a, s)), n % S);
      same(t, "mpz_divisible_ui_p", mpz_divisible_ui_p(a, u) != 0, (n % U).zero());
      same(t, "mpz_divisible_ui_p(0)", mpz_divisible_ui_p(a, 0) != 0, n.zero());
      same(t, "mpz_congruent_ui_p", mpz_congruent_ui_p(a, b, u) != 0, ((n - y) % U).zero());
      size_t k = t.range(0, 200);
      if (t.flip()) {
        y = n + (gen(t, 3) << k);
        b.set(y);
      }
      same(t, "mpz_congruent_2exp_p", mpz_congruent_2exp_p(a, b, k) != 0, ((n - y) % Z::pow2(k)).zero());
      same(t, "mpz_divisible_2exp_p", mpz_divisible_2exp_p(a, k) != 0, (n % Z::pow2(k)).zero());
      return;
    }
  }
  if (sgnd) same(t, "returned remainder", Z((long)rs), rr);
  else same(t, "returned remainder", Z::u64(ru), rr);
}

PBT_PROP(C13, compare, 400000, 5000000) {
  Z x, y;
  pair(t, x, y, 70);
  uint64_t u = word(t);
  int64_t s = sword(t);
  if (t.chance(1, 3)) x = t.flip() ? Z::u64(u) : Z((long)s);
  if (t.chance(1, 4)) x = -x;
  if (t.chance(1, 6)) x = x + Z(1);
  if (x.sgn()) t.nontrivial();
  M a, b;
  a.set(x), b.set(y);
  t.mix64(x.low());
  Z U = Z::u64(u), S((long)s);
  if (t.recording()) t.note("x=%s y=%s u=%llx s=%lld", txt(x).c_str(), txt(y).c_str(), (unsigned long long)u, (long long)s);
  same(t, "mpz_cmp", mpz_cmp(a, b), ref::cmp(x, y));
  same(t, "mpz_cmp same", mpz_cmp(a, a), 0);
  same(t, "mpz_cmpabs", mpz_cmpabs(a, b), ref::cmpabs(x, y));
  same(t, "mpz_cmp_ui", mpz_cmp_ui(a, u), ref::cmp(x, U));
  same(t, "mpz_cmp_si", mpz_cmp_si(a, s), ref::cmp(x, S));
  same(t, "mpz_cmpabs_ui", mpz_cmpabs_ui(a, u), ref::cmpabs(x, U));
  same(t, "mpz_cmpabs_si", mpz_cmpabs_si(a, s), ref::cmpabs(x, S));
  same(t, "mpz_sgn", mpz_sgn(a), sg(x));
  same(t, "mpz_odd_p", mpz_odd_p(a) != 0, x.odd());
  same(t, "mpz_even_p", mpz_even_p(a) != 0, !x.odd());
  same(t, "mpz_size", mpz_size(a), x.to_limbs().size());
  same(t, "mpz_bitlen", mpz_bitlen(a), x.bits());
  same(t, "mpz_bytelen", mpz_bytelen(a), (x.bits() + 7) / 8);
  int base = (int)t.range(2, 62);
  std::string digits = x.abs().text(base);
  same(t, "mpz_sizeinbase", mpz_sizeinbase(a, base), digits.size());
  same(t, "mpz_fits_si_p", mpz_fits_si_p(a) != 0, x >= -Z::pow2(63) && x < Z::pow2(63));
  if (x.sgn() >= 0) same(t, "mpz_fits_ui_p", mpz_fits_ui_p(a) != 0, x.bits() <= 64);
  std::vector<uint64_t> l = x.to_limbs();
  size_t k = t.range(0, l.size() + 2);
  same(t, "mpz_getlimbn", Z::u64(mpz_getlimbn(a, k)), Z::u64(k < l.size() ? l[k] : 0));
  mpz_swap(a, b);
  same(t, "mpz_swap", get(t, "swap", a), y);
  same(t, "mpz_swap", get(t, "swap", b), x);
  switch (t.range(0, 3)) {
    case 0: {
      mpz_t c;
      mpz_init_set(c, b);
      Z g = get(t, "init_set", c);
      mpz_cleanse(c);
      same(t, "mpz_init_set", g, x);
      break;
    }
    case 1: {  // direct limb access
      size_t n = l.size() + t.range(0, 3);
      M c;
      c.set(y);
      mp_limb_t *p = mpz_limbs_write(c, n + 1);
      for (size_t i = 0; i < n; i++) p[i] = i < l.size() ? l[i] : 0;
      mpz_limbs_finish(c, x.sgn() < 0 ? -(long)n : (long)n);
      same(t, "mpz_limbs_write", get(t, "limbs_write", c), x);
      p = mpz_limbs_modify(c, n + 2);
      for (size_t i = 0; i < l.size(); i++) EXPECT(t, p[i] == l[i], "mpz_limbs_modify lost limb %zu", i);
      mpz_limbs_finish(c, (long)l.size());
      same(t, "mpz_limbs_modify", get(t, "limbs_modify", c), x.abs());
      mpz_t ro;
      Limbs pad(l);
      pad.resize(n, 0);
      mpz_srcptr q = mpz_roinit_n(ro, pad.data(), x.sgn() < 0 ? -(long)n : (long)n);
      same(t, "mpz_roinit_n", get(t, "roinit_n", q), x);
      break;
    }
    case 2: {
      size_t bits = t.range(0, 200);
      mpz_realloc2(b, x.bits() + bits);
      same(t, "mpz_realloc2", get(t, "realloc2", b), x);
      break;
    }
    default: {
      mpz_t c, e;
      mpz_init2(c, t.range(0, 300));
      mpz_inits(e, NULL);
      same(t, "mpz_init2", get(t, "init2", c), Z(0));
      mpz_set(c, b);
      mpz_set(e, c);
      Z g = get(t, "set", c), h = get(t, "set", e);
      mpz_clears(c, e, NULL);
      same(t, "mpz_init2+set", g, x);
      same(t, "mpz_inits+set", h, x);
      break;
    }
  }
}

// Limb-vector level.  Vectors live in exact-size buffers.
namespace {
struct LV {
  Buf b;
  size_t n;
  explicit LV(size_t k) : b(k * 8), n(k) {}
  explicit LV(const Limbs &v) : b(v.size() * 8), n(v.size()) { memcpy(b.p, v.data(), v.size() * 8); }
  LV(const Z &z, size_t k) : b(z.abs().to_le(k * 8)), n(k) {}
  operator mp_limb_t *() { return (mp_limb_t *)b.p; }
  Z z() const { return Z::le(b.get()); }
  Z z(size_t k) const { return Z::le(b.get(k * 8)); }
};
void intact(T &t, const char *what, std::initializer_list<LV *> v) {
  for (LV *x : v) EXPECT(t, x->b.intact(), "%s wrote outside its vector", what);
}
}  // namespace

PBT_PROP(C13, vectors, 600000, 8000000) {
  size_t xn = std::max<size_t>(1, nlimbs(t, 40)), yn = t.range(1, xn);
  Limbs xl = limbs(t, xn), yl = limbs(t, yn), yl2 = limbs(t, xn);
  if (t.chance(1, 6)) yl2 = xl;
  LV x(xl), y(yl), y2(yl2);
  Z X = x.z(), Y = y.z(), Y2 = y2.z(), W = Z::pow2(64 * xn);
  uint64_t w = word(t);
  Z Wd = Z::u64(w);
  bool inplace = t.flip();
  LV own(xn);
  LV &z = inplace ? x : own;
  t.nontrivial();
  if (t.recording()) t.note("x=%s y=%s y2=%s w=%llx inplace=%d", txt(X).c_str(), txt(Y).c_str(), txt(Y2).c_str(), (unsigned long long)w, inplace);
  t.mix64(X.low() ^ Y.low());
  uint64_t c;
  auto chk = [&](const char *nm, const Z &full) {  // full = signed exact value; carry = floor(full / W)
    same(t, nm, z.z(), full % W);
    Z carry = ref::fdiv(full, W);
    same(t, nm, Z::u64(c), carry.sgn() < 0 ? -carry : carry);
    intact(t, nm, {&x, &y, &y2, &own});
  };
  switch (t.range(0, 21)) {
    case 0: c = mpn_add_1(z, x, xn, w); return chk("mpn_add_1", X + Wd);
    case 1: c = mpn_add_n(z, x, y2, xn); return chk("mpn_add_n", X + Y2);
    case 2: c = mpn_add(z, x, xn, y, yn); return chk("mpn_add", X + Y);
    case 3: c = mpn_sec_add_1(z, x, xn, w); return chk("mpn_sec_add_1", X + Wd);
    case 4: c = mpn_sec_add(z, x, xn, y, yn); return chk("mpn_sec_add", X + Y);
    case 5: c = mpn_sub_1(z, x, xn, w); return chk("mpn_sub_1", X - Wd);
    case 6: c = mpn_sub_n(z, x, y2, xn); return chk("mpn_sub_n", X - Y2);
    case 7: c = mpn_sub(z, x, xn, y, yn); return chk("mpn_sub", X - Y);
    case 8: c = mpn_sec_sub_1(z, x, xn, w); return chk("mpn_sec_sub_1", X - Wd);
    case 9: c = mpn_sec_sub(z, x, xn, y, yn); return chk("mpn_sec_sub", X - Y);
    case 10: c = mpn_mul_1(z, x, xn, w); return chk("mpn_mul_1", X * Wd);
    case 11: {
      LV a(yl2);
      c = mpn_addmul_1(a, x, xn, w);
      Z full = Y2 + X * Wd;
      same(t, "mpn_addmul_1", a.z(), full % W);
      return same(t, "mpn_addmul_1 carry", Z::u64(c), ref::fdiv(full, W));
    }
    case 12: {
      LV a(yl2);
      c = mpn_submul_1(a, x, xn, w);
      Z full = Y2 - X * Wd;
      same(t, "mpn_submul_1", a.z(), full % W);
      return same(t, "mpn_submul_1 borrow", Z::u64(c), -ref::fdiv(full, W));
    }
    case 13: {
      LV o(xn + yn);
      mpn_mul(o, x, xn, y, yn);
      intact(t, "mpn_mul", {&o});
      return same(t, "mpn_mul", o.z(), X * Y);
    }
    case 14: {
      LV o(2 * xn);
      mpn_mul_n(o, x, y2, xn);
      intact(t, "mpn_mul_n", {&o});
      return same(t, "mpn_mul_n", o.z(), X * Y2);
    }
    case 15: {
      LV o(2 * xn), s(MPN_SQR_ITCH(xn));
      mpn_sqr(o, x, xn, s);
      intact(t, "mpn_sqr", {&o, &s});
      return same(t, "mpn_sqr", o.z(), X * X);
    }
    case 16: {
      LV o(xn), s(MPN_MULSHIFT_ITCH(xn));
      size_t bits = t.range(64 * xn, 128 * xn - 1);
      c = mpn_mulshift(o, x, y2, xn, bits, s);
      Z full = (X * Y2 + Z::pow2(bits - 1)) >> bits;
      same(t, "mpn_mulshift", o.z() + (Z::u64(c) << (64 * xn)), full);
      return intact(t, "mpn_mulshift", {&o, &s});
    }
    case 17: c = mpn_neg(z, x, xn); return chk("mpn_neg", -X);
    case 18: {
      uint64_t cnd = t.range(0, 1);
      switch (t.range(0, 2)) {
        case 0: c = mpn_cnd_add_n(z, x, y2, xn, cnd); return chk("mpn_cnd_add_n", cnd ? X + Y2 : X);
        case 1: c = mpn_cnd_sub_n(z, x, y2, xn, cnd); return chk("mpn_cnd_sub_n", cnd ? X - Y2 : X);
        default: c = mpn_cnd_neg(z, x, xn, cnd); return chk("mpn_cnd_neg", cnd ? -X : X);
      }
    }
    case 19: {
      uint64_t cnd = t.range(0, 1);
      switch (t.range(0, 2)) {
        case 0: mpn_cnd_zero(z, x, xn, cnd); return same(t, "mpn_cnd_zero", z.z(), cnd ? Z(0) : X);
        case 1: mpn_cnd_select(z, x, y2, xn, cnd); return same(t, "mpn_cnd_select", z.z(), cnd ? Y2 : X);
        default: mpn_cnd_swap(x, y2, xn, cnd); same(t, "mpn_cnd_swap", x.z(), cnd ? Y2 : X); return same(t, "mpn_cnd_swap", y2.z(), cnd ? X : Y2);
      }
    }
    case 20: {
      size_t ents = t.range(1, 20), which = t.range(0, ents - 1);
      LV tab(xn * ents);
      Bytes r = t.rnd(16);
      for (size_t i = 0; i < xn * ents; i++) ((mp_limb_t *)tab)[i] = pbt::mix_seed(i + 1, r[0] * 256 + r[1]);
      mpn_sec_tabselect(own, tab, xn, ents, which);
      return same(t, "mpn_sec_tabselect", own.z(), Z::limbs((mp_limb_t *)tab + which * xn, xn));
    }
    default: {
      if (t.chance(1, 3)) {  // differ in a single place
        memcpy(y2.b.p, xl.data(), xn * 8);
        size_t i = t.range(0, xn - 1);
        ((mp_limb_t *)y2)[i] ^= (uint64_t)1 << t.range(0, 63);
        Y2 = y2.z();
      }
      int k = ref::cmp(X, Y2);
      same(t, "mpn_cmp", mpn_cmp(x, y2, xn), k);
      same(t, "mpn_sec_cmp", mpn_sec_cmp(x, y2, xn), k);
      same(t, "mpn_sec_lt_p", mpn_sec_lt_p(x, y2, xn), k < 0);
      same(t, "mpn_sec_lte_p", mpn_sec_lte_p(x, y2, xn), k <= 0);
      same(t, "mpn_sec_gt_p", mpn_sec_gt_p(x, y2, xn), k > 0);
      same(t, "mpn_sec_gte_p", mpn_sec_gte_p(x, y2, xn), k >= 0);
      same(t, "mpn_sec_equal_p", mpn_sec_equal_p(x, y2, xn), k == 0);
      same(t, "mpn_sec_zero_p", mpn_sec_zero_p(x, xn), X.zero());
      same(t, "mpn_zero_p", mpn_zero_p(x, xn), X.zero());
    }
  }
}

PBT_PROP(C13, vector_division, 500000, 6000000) {
  Z N, D;
  divpair(t, N, D, 40);
  N = N.abs(), D = D.abs();
  size_t dn = D.to_limbs().size(), nn = std::max(N.to_limbs().size(), dn) + t.range(0, 1);
  LV n(N, nn), d(D, dn);
  t.nontrivial();
  t.mix64(N.low() ^ D.low());
  if (t.recording()) t.note("n=%s d=%s", txt(N).c_str(), txt(D).c_str());
  Z Q = ref::tdiv(N, D), R = ref::trem(N, D);
  uint64_t w = word(t);
  if (!w) w = 1;
  Z Wd = Z::u64(w);
  switch (t.range(0, 7)) {
    case 0: {
      LV q(nn - dn + 1), r(dn);
      mpn_divmod(q, r, n, nn, d, dn);
      intact(t, "mpn_divmod", {&q, &r, &n, &d});
      same(t, "mpn_divmod q", q.z(), Q);
      return same(t, "mpn_divmod r", r.z(), R);
    }
    case 1: {
      LV q(nn - dn + 1);
      mpn_div(q, n, nn, d, dn);
      intact(t, "mpn_div", {&q});
      return same(t, "mpn_div", q.z(), Q);
    }
    case 2: {
      LV r(dn);
      mpn_mod(r, n, nn, d, dn);
      intact(t, "mpn_mod", {&r});
      return same(t, "mpn_mod", r.z(), R);
    }
    case 3: {
      LV q(nn);
      bool in = t.flip();
      uint64_t r = mpn_divmod_1(in ? n : q, n, nn, w);
      same(t, "mpn_divmod_1 q", in ? n.z() : q.z(), ref::tdiv(N, Wd));
      return same(t, "mpn_divmod_1 r", Z::u64(r), ref::trem(N, Wd));
    }
    case 4: return same(t, "mpn_mod_1", Z::u64(mpn_mod_1(n, nn, w)), ref::trem(N, Wd));
    case 5: {
      LV q(nn);
      mpn_div_1(q, n, nn, w);
      same(t, "mpn_div_1", q.z(), ref::tdiv(N, Wd));
      LV e(N * Wd, nn + 1), f(nn + 1);
      mpn_divexact_1(f, e, nn + 1, w);
      return same(t, "mpn_divexact_1", f.z(), N);
    }
    case 6: {
      Z P = D * Q;
      size_t pn = std::max(P.to_limbs().size(), dn);
      LV p(P, pn), q(pn - dn + 1);
      mpn_divexact(q, p, pn, d, dn);
      return same(t, "mpn_divexact", q.z(), Q);
    }
    default: {
      // Barrett reduction by a modulus other than a power of 2^64
      if (D == Z::pow2(64 * (dn - 1))) return;
      size_t shift = 2 * dn + t.range(0, 3);
      LV m(shift - dn + 1), s(MPN_BARRETT_ITCH(shift)), x(N % Z::pow2(64 * shift), shift), r(dn), s2(MPN_REDUCE_ITCH(dn, shift));
      mpn_barrett(m, d, dn, shift, s);
      same(t, "mpn_barrett", m.z(), ref::tdiv(Z::pow2(64 * shift), D));
      mpn_reduce(r, x, m, d, dn, shift, s2);
      intact(t, "mpn_reduce", {&m, &s, &r, &s2});
      same(t, "mpn_reduce", r.z(), x.z() % D);
      LV v(R, dn), s3(dn), o(dn);
      Z V = R + (t.flip() ? D : Z(0));
      uint64_t hi = (V >> (64 * dn)).low();
      LV vv(V % Z::pow2(64 * dn), dn);
      int rw = mpn_reduce_weak(o, vv, d, dn, hi, s3);
      same(t, "mpn_reduce_weak", o.z(), R);
      return same(t, "mpn_reduce_weak result", rw, V >= D);
    }
  }
}

// ---------------------------------------------------------------- C14

PBT_RULE(C14, "an operand or text is non-zero");

PBT_PROP(C14, logic, 600000, 8000000) {
  Z x, y;
  pair(t, x, y, 70);
  if (t.chance(1, 4)) x = x << t.range(0, 200);
  if (t.chance(1, 4)) y = y << t.range(0, 200);
  uint64_t u = word(t);
  int64_t s = sword(t);
  Z U = Z::u64(u), S((long)s);
  if (x.sgn() || y.sgn()) t.nontrivial();
  if (t.recording()) t.note("u=%llx s=%lld", (unsigned long long)u, (long long)s);
  switch (t.range(0, 11)) {
    case 0: case 1: return run(t, "mpz_and", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_and(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] & i[1]}; });
    case 2: case 3: return run(t, "mpz_ior", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_ior(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] | i[1]}; });
    case 4: case 5: return run(t, "mpz_xor", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_xor(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{i[0] ^ i[1]}; });
    case 6: return run(t, "mpz_com", 1, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_com(o[0], i[0]); }, [](const Z *i, const Z *) { return std::vector<Z>{~i[0]}; });
    case 7: UN("mpz_and_si", mpz_and_si(o[0], i[0], s), i[0] & S);
    case 8: UN("mpz_ior_ui", mpz_ior_ui(o[0], i[0], u), i[0] | U);
    case 9: UN("mpz_ior_si", mpz_ior_si(o[0], i[0], s), i[0] | S);
    case 10: UN("mpz_xor_ui", mpz_xor_ui(o[0], i[0], u), i[0] ^ U);
    default: {
      M a;
      a.set(x);
      same(t, "mpz_and_ui", Z::u64(mpz_and_ui(a, u)), x & U);
      UN("mpz_xor_si", mpz_xor_si(o[0], i[0], s), i[0] ^ S);
    }
  }
}

PBT_PROP(C14, shifts, 500000, 6000000) {
  Z x = gen(t, 70);
  if (t.chance(1, 4)) x = x << t.range(0, 200);
  size_t k = t.chance(1, 3) ? 64 * t.range(0, 5) + t.range(0, 2) : t.range(0, x.bits() + 70);
  if (x.sgn()) t.nontrivial();
  if (t.recording()) t.note("shift %zu", k);
#define SH(nm, fn, want) return run(t, nm, 1, {x}, [k](mpz_ptr *o, mpz_srcptr *i) { fn(o[0], i[0], k); }, [k](const Z *i, const Z *) { return std::vector<Z>{want}; })
  switch (t.range(0, 4)) {
    case 0: SH("mpz_mul_2exp", mpz_mul_2exp, i[0] << k);
    case 1: SH("mpz_quo_2exp", mpz_quo_2exp, ref::tdiv(i[0], Z::pow2(k)));
    case 2: SH("mpz_rem_2exp", mpz_rem_2exp, ref::trem(i[0], Z::pow2(k)));
    case 3: SH("mpz_div_2exp", mpz_div_2exp, i[0] >> k);
    default: SH("mpz_mod_2exp", mpz_mod_2exp, i[0] % Z::pow2(k));
  }
}

PBT_PROP(C14, single_bits, 600000, 8000000) {
  Z x = gen(t, 12);
  if (t.chance(1, 3)) x = x << t.range(0, 150);
  if (x.sgn()) t.nontrivial();
  size_t low = 0;
  if (x.sgn())
    while (!x.bit(low)) low++;
  size_t pos = t.flip() ? t.range(0, x.bits() + 70) : low + t.range(0, 2);
  M a;
  a.set(x);
  t.mix64(x.low() ^ pos);
  if (t.recording()) t.note("x=%s pos=%zu", txt(x).c_str(), pos);
  Z b = Z::pow2(pos);
  same(t, "mpz_tstbit", mpz_tstbit(a, pos), x.bit(pos));
  bool none;
  size_t s1 = ref::scan1(x, pos, &none);
  same(t, "mpz_scan1", mpz_scan1(a, pos), none ? MP_BITS_MAX : (long)s1);
  size_t s0 = ref::scan0(x, pos, &none);
  same(t, "mpz_scan0", mpz_scan0(a, pos), none ? MP_BITS_MAX : (long)s0);
  if (x.sgn()) same(t, "mpz_ctz", mpz_ctz(a), low);
  if (x.sgn() >= 0) same(t, "mpz_popcount", mpz_popcount(a), ref::popcount(x));
  Z y = t.flip() ? gen(t, 12) : x ^ gen(t, 12, false);
  if ((y.sgn() < 0) == (x.sgn() < 0)) {
    M c;
    c.set(y);
    same(t, "mpz_hamdist", mpz_hamdist(a, c), ref::popcount(x ^ y));
  }
  switch (t.range(0, 2)) {
    case 0: mpz_setbit(a, pos); return same(t, "mpz_setbit", get(t, "setbit", a), x | b);
    case 1: mpz_clrbit(a, pos); return same(t, "mpz_clrbit", get(t, "clrbit", a), x & ~b);
    default: mpz_combit(a, pos); return same(t, "mpz_combit", get(t, "combit", a), x ^ b);
  }
}

PBT_PROP(C14, bytes_words, 500000, 6000000) {
  Z x = gen(t, 40);
  if (t.chance(1, 3)) x = x >> t.range(0, 63);
  if (x.sgn()) t.nontrivial();
  M a;
  a.set(x);
  t.mix64(x.low());
  if (t.recording()) t.note("x=%s", txt(x).c_str());
  switch (t.range(0, 3)) {
    case 0: {
      size_t need = (x.bits() + 7) / 8, n = need + t.len_near({0, 1, 7, 8, 9}, 20);
      Buf o(n);
      int e = t.flip() ? 1 : -1;
      mpz_export(o.p, a, n, e);
      EXPECT(t, o.intact(), "mpz_export wrote outside %zu bytes", n);
      expect_eq(t, o.get(), e == 1 ? x.to_be(n) : x.to_le(n), "mpz_export endian %d", e);
      M b;
      b.set(gen(t, 4));
      mpz_import(b, o.p, n, e);
      return same(t, "mpz_import", get(t, "import", b), x.abs());
    }
    case 1: {
      Bytes raw = t.bytes(t.range(0, 70));
      Buf in(raw);
      int e = t.flip() ? 1 : -1;
      M b;
      mpz_import(b, in.p, raw.size(), e);
      same(t, "mpz_import", get(t, "import", b), e == 1 ? Z::be(raw) : Z::le(raw));
      size_t zn = t.range(0, 12);
      LV v(zn);
      mpn_import(v, zn, in.p, raw.size(), e);
      intact(t, "mpn_import", {&v});
      Z full = e == 1 ? Z::be(raw) : Z::le(raw);
      same(t, "mpn_import", v.z(), full % Z::pow2(64 * zn));
      size_t on = t.range(0, 110);
      Buf o(on);
      mpn_export(o.p, on, v, zn, e);
      EXPECT(t, o.intact(), "mpn_export wrote outside");
      return expect_eq(t, o.get(), e == 1 ? v.z().to_be(on) : v.z().to_le(on), "mpn_export");
    }
    case 2: {
      same(t, "mpz_get_ui", Z::u64(mpz_get_ui(a)), Z::u64(x.low()));
      if (x >= -Z::pow2(63) && x < Z::pow2(63)) same(t, "mpz_get_si", Z((long)mpz_get_si(a)), x);
      int64_t s = sword(t);
      M b;
      mpz_set_si(b, s);
      EXPECT(t, mpz_get_si(b) == s, "mpz_get_si of %lld", (long long)s);
      uint64_t u = word(t);
      mpz_set_ui(b, u);
      EXPECT(t, mpz_get_ui(b) == u, "mpz_get_ui");
      EXPECT(t, mpz_fits_ui_p(b), "mpz_fits_ui_p of a word");
      return;
    }
    default: {
      // Bitcoin's compact form
      uint32_t c = (uint32_t)t.bits(32);
      if (t.flip()) c = (uint32_t)((t.range(0, 34) << 24) | (t.bits(24)));
      M b;
      mpz_set_compact(b, c);
      Z m = Z((long)(c & 0x7fffff));
      size_t e = c >> 24;
      Z want = e <= 3 ? m >> (8 * (3 - e)) : m << (8 * (e - 3));
      if (c & 0x800000) want = -want;
      t.note("compact %08x", c);
      same(t, "mpz_set_compact", get(t, "set_compact", b), want);
      Z v = t.flip() ? want : x;
      if (v.bits() > 8 * 250) return;
      a.set(v);
      size_t len = (v.bits() + 7) / 8;
      uint64_t cm = len <= 3 ? v.low() << (8 * (3 - len)) : (v.abs() >> (8 * (len - 3))).low();
      if (cm & 0x800000) cm >>= 8, len++;
      uint64_t wc = v.zero() ? 0 : (len << 24) | cm | (v.sgn() < 0 && cm ? 0x800000 : 0);
      return same(t, "mpz_get_compact", Z::u64(mpz_get_compact(a)), Z::u64(wc));
    }
  }
}

// Creation from values, copies in both directions, wiping.
PBT_PROP(C14, plumbing, 200000, 2400000) {
  Z x = gen(t, 20);
  if (x.sgn()) t.nontrivial();
  t.mix64(x.low());
  switch (t.range(0, 4)) {
    case 0: {
      uint64_t u = word(t);
      int64_t s = sword(t);
      uint32_t c = (uint32_t)((t.range(0, 34) << 24) | (t.bits(24)));
      mpz_t a, b, d, e, f;
      mpz_init_set_ui(a, u);
      mpz_init_set_si(b, s);
      mpz_init_set_compact(d, c);
      int r = mpz_init_set_str(e, x.text(16).c_str(), 16);
      mpz_init_set(f, e);
      M w;
      mpz_set_compact(w, c);
      Z ga = get(t, "init_set_ui", a), gb = get(t, "init_set_si", b), gd = get(t, "init_set_compact", d), ge = get(t, "init_set_str", e), gf = get(t, "init_set", f);
      mpz_t ro;
      mpz_roset(ro, e);
      Z gr = get(t, "roset", ro);
      mpz_cleanses(a, b, d, NULL);
      mpz_clears(e, f, NULL);
      same(t, "mpz_init_set_ui", ga, Z::u64(u));
      same(t, "mpz_init_set_si", gb, Z((long)s));
      same(t, "mpz_init_set_compact", gd, get(t, "set_compact", w));
      same(t, "mpz_init_set_str result", r, 1);
      same(t, "mpz_init_set_str", ge, x);
      same(t, "mpz_init_set", gf, x);
      return same(t, "mpz_roset", gr, x);
    }
    case 1: {
      // overlapping moves: up with copyd, down with copyi
      size_t n = t.range(0, 20), off = t.range(0, 6);
      Limbs v = limbs(t, n + off);
      LV a(v), b(v);
      mpn_copyi(a, a + off, n);
      mpn_copyd(b + off, b, n);
      intact(t, "mpn_copy", {&a, &b});
      Limbs wa = v, wb = v;
      for (size_t i = 0; i < n; i++) wa[i] = v[i + off], wb[i + off] = v[i];
      same(t, "mpn_copyi", a.z(), Z::limbs(wa.data(), wa.size(), false));
      return same(t, "mpn_copyd", b.z(), Z::limbs(wb.data(), wb.size(), false));
    }
    case 2: {
      size_t n = t.range(0, 20), keep = t.range(0, 3);
      Limbs v = limbs(t, n + keep);
      LV a(v), b(v), c(v);
      uint64_t u = word(t);
      mpn_zero(a, n);
      mpn_cleanse(b, n);
      if (n) mpn_set_1(c, n, u);
      intact(t, "mpn_zero", {&a, &b, &c});
      Limbs w = v;
      for (size_t i = 0; i < n; i++) w[i] = 0;
      Z want = Z::limbs(w.data(), w.size(), false);
      same(t, "mpn_zero", a.z(), want);
      same(t, "mpn_cleanse", b.z(), want);
      if (n) w[0] = u;
      return same(t, "mpn_set_1", c.z(), Z::limbs(w.data(), w.size(), false));
    }
    case 3: {
      Z y = gen(t, 20);
      M a, b;
      a.set(x);
      b.set(y);
      mpz_swap(a, b);
      same(t, "mpz_swap first", get(t, "swap", a), y);
      same(t, "mpz_swap second", get(t, "swap", b), x);
      mpz_set(a, b);
      mpz_set_ui(b, 1);
      same(t, "mpz_set", get(t, "set", a), x);
      return same(t, "mpz_set_ui", get(t, "set_ui", b), Z(1));
    }
    default: {
      // a wiped integer is zero and usable again
      mpz_t a;
      mpz_init(a);
      M b;
      b.set(x);
      mpz_set(a, b);
      mpz_cleanse(a);
      mpz_init(a);
      same(t, "mpz_init", get(t, "init", a), Z(0));
      mpz_set(a, b);
      Z g = get(t, "set after cleanse", a);
      mpz_clear(a);
      return same(t, "set after cleanse", g, x);
    }
  }
}

PBT_PROP(C14, text, 400000, 5000000) {
  Z x = gen(t, t.chance(1, 20) ? 70 : 12);
  int base = (int)t.range(2, 62);
  M a;
  if (x.sgn()) t.nontrivial();
  t.label("base %d", base);
  t.mix64(x.low() ^ base);
  std::string s = x.text(base);  // GMP uses the same digit conventions
  if (t.recording()) t.note("base %d text %.200s", base, s.c_str());
  a.set(x);
  char *p = mpz_get_str(a, base);
  EXPECT(t, p != NULL, "mpz_get_str returned NULL");
  std::string got(p);
  free(p);
  EXPECT(t, got == s, "mpz_get_str base %d: got %.100s want %.100s", base, got.c_str(), s.c_str());
  // mpn forms
  {
    std::string m = x.abs().text(base);
    std::vector<uint64_t> l = x.to_limbs();
    size_t pad = t.range(0, 2);
    l.resize(l.size() + pad, 0);
    LV v(l);
    Buf o(mpn_sizeinbase(v, l.size(), base) + 1);
    EXPECT(t, o.n == m.size() + 1, "mpn_sizeinbase %zu want %zu", o.n - 1, m.size());
    size_t n = mpn_get_str((char *)o.p, v, l.size(), base);
    EXPECT(t, o.intact(), "mpn_get_str wrote outside its buffer");
    EXPECT(t, n == m.size() && m == (char *)o.p, "mpn_get_str base %d", base);
    LV w(l.size());
    EXPECT(t, mpn_set_str(w, l.size(), m.c_str(), base), "mpn_set_str refused %.60s", m.c_str());
    same(t, "mpn_set_str", w.z(), x.abs());
    if (l.size() > pad && pad == 0 && l.size() > 1) {
      LV q(l.size() - 1);
      EXPECT(t, !mpn_set_str(q, l.size() - 1, m.c_str(), base), "mpn_set_str accepted a number that does not fit");
      intact(t, "mpn_set_str", {&q});
    }
  }
  // decorations that keep the value
  bool neg = x.sgn() < 0;
  std::string body = neg ? s.substr(1) : s, sign = neg ? "-" : t.chance(1, 4) ? "+" : "";
  int b = base;
  if (base <= 36 && t.chance(1, 3))
    for (auto &c : body)
      if (t.flip()) c = toupper(c);
  if (t.chance(1, 4)) body = std::string(t.range(1, 70), '0') + body;
  if ((base == 2 || base == 8 || base == 16 || base == 10) && t.chance(1, 2)) {
    b = 0;
    size_t z = body.find_first_not_of('0');
    if (base == 10) body = z == std::string::npos ? "0" : body.substr(z);
    else body = std::string(base == 2 ? t.flip() ? "0b" : "0B" : base == 8 ? t.pick({"0o", "0O", "0"}) : t.flip() ? "0x" : "0X") + body;
  }
  if (t.chance(1, 5)) {
    size_t pre = b == 0 ? std::min<size_t>(2, body.size()) : 0;
    body.insert(t.range(pre, body.size()), t.pick({" ", "\t", "\n", "  \r\v\f"}));
  }
  if (t.chance(1, 6)) sign = std::string(t.pick({" ", "\n\t "})) + sign;
  std::string full = sign + body;
  M c;
  c.set(gen(t, 4));
  Buf in(full.size() + 1);
  memcpy(in.p, full.c_str(), full.size() + 1);
  int r = mpz_set_str(c, (const char *)in.p, b);
  EXPECT(t, r == 1, "mpz_set_str base %d refused \"%.200s\"", b, full.c_str());
  same(t, "mpz_set_str", get(t, "set_str", c), x);
  // one bad character
  size_t first = full.find_first_not_of(" \t\r\n\v\f+-") + 1;
  size_t at = t.range(b == 0 ? first : sign.size(), full.size());
  char bad;
  do {
    bad = (char)t.range(33, 126);
    int d = isdigit(bad) ? bad - '0' : base <= 36 ? (isalpha(bad) ? tolower(bad) - 'a' + 10 : 99) : isupper(bad) ? bad - 'A' + 10 : islower(bad) ? bad - 'a' + 36 : 99;
    if (d < base) bad = t.pick({'!', '-', '+', '.', '_', '/', ':', '@', '[', '`', '{', '~'});
  } while (bad == ' ');
  if (t.chance(1, 8)) bad = (char)t.range(128, 255);
  else if (t.chance(1, 8)) {
    int v = (int)t.range(1, 27);  // the control characters that are not white space
    bad = (char)(v <= 8 ? v : v <= 26 ? v + 5 : 127);
  }
  if (b == 0 && base == 8 && t.flip()) bad = t.flip() ? '8' : '9', at = t.flip() ? at : first;
  std::string broken = full.substr(0, at) + bad + full.substr(at);
  if ((bad == '+' || bad == '-') && full.substr(0, at).find_first_not_of(" \t\r\n\v\f") == std::string::npos) return;
  // a base prefix; the library reads no digits as zero
  if (b == 0 && at > 0 && full[at - 1] == '0' && strchr("bBoOxX", bad) && full.substr(0, at - 1).find_first_not_of(" \t\r\n\v\f+-") == std::string::npos) return;
  Buf in2(broken.size() + 1);
  memcpy(in2.p, broken.c_str(), broken.size() + 1);
  r = mpz_set_str(c, (const char *)in2.p, b);
  EXPECT(t, r == 0, "mpz_set_str base %d accepted \"%.200s\"", b, broken.c_str());
  int ob = t.pick({-1, 1, 63, 64, 100, -10});
  EXPECT(t, mpz_set_str(c, "1", ob) == 0, "mpz_set_str accepted base %d", ob);
}

PBT_PROP(C14, vector_bits, 400000, 5000000) {
  size_t n = std::max<size_t>(1, nlimbs(t, 24));
  Limbs xl = limbs(t, n), yl = limbs(t, n);
  LV x(xl), y(yl), own(n);
  Z X = x.z(), Y = y.z(), W = Z::pow2(64 * n);
  bool in = t.flip();
  LV &z = in ? x : own;
  if (X.sgn()) t.nontrivial();
  t.mix64(X.low() ^ Y.low());
  if (t.recording()) t.note("x=%s y=%s", txt(X).c_str(), txt(Y).c_str());
  switch (t.range(0, 15)) {
    case 0: mpn_and_n(z, x, y, n); return same(t, "mpn_and_n", z.z(), X & Y);
    case 1: mpn_ior_n(z, x, y, n); return same(t, "mpn_ior_n", z.z(), X | Y);
    case 2: mpn_xor_n(z, x, y, n); return same(t, "mpn_xor_n", z.z(), X ^ Y);
    case 3: mpn_andn_n(z, x, y, n); return same(t, "mpn_andn_n", z.z(), (X & ~Y) % W);
    case 4: mpn_iorn_n(z, x, y, n); return same(t, "mpn_iorn_n", z.z(), (X | ~Y) % W);
    case 5: mpn_nand_n(z, x, y, n); return same(t, "mpn_nand_n", z.z(), ~(X & Y) % W);
    case 6: mpn_nior_n(z, x, y, n); return same(t, "mpn_nior_n", z.z(), ~(X | Y) % W);
    case 7: mpn_xnor_n(z, x, y, n); return same(t, "mpn_xnor_n", z.z(), ~(X ^ Y) % W);
    case 8: mpn_com(z, x, n); return same(t, "mpn_com", z.z(), ~X % W);
    case 9: {
      size_t k = t.range(1, 63);
      uint64_t c = mpn_lshift(z, x, n, k);
      same(t, "mpn_lshift", z.z(), (X << k) % W);
      return same(t, "mpn_lshift carry", Z::u64(c), (X << k) >> (64 * n));
    }
    case 10: {
      size_t k = t.range(1, 63);
      uint64_t c = mpn_rshift(z, x, n, k);
      same(t, "mpn_rshift", z.z(), X >> k);
      return same(t, "mpn_rshift carry", Z::u64(c), X % Z::pow2(k));
    }
    case 11: {
      size_t pos = t.range(0, 64 * n - 1);
      Z b = Z::pow2(pos);
      same(t, "mpn_tstbit", mpn_tstbit(x, pos), X.bit(pos));
      same(t, "mpn_getbit", (long)mpn_getbit(x, n, pos), X.bit(pos));
      switch (t.range(0, 2)) {
        case 0: mpn_setbit(x, pos); return same(t, "mpn_setbit", x.z(), X | b);
        case 1: mpn_clrbit(x, pos); return same(t, "mpn_clrbit", x.z(), X & ~b);
        default: mpn_combit(x, pos); return same(t, "mpn_combit", x.z(), X ^ b);
      }
    }
    case 12: {
      size_t pos = t.range(0, 64 * n + 64), w = t.range(1, 63);
      if (pos < 64 * n) same(t, "mpn_getbits", Z::u64(mpn_getbits(x, n, pos, w)), (X >> pos) % Z::pow2(w));
      return;
    }
    case 13: {
      size_t pos = t.range(0, 64 * n + 10);
      bool none;
      size_t s = ref::scan1(X, pos, &none);
      same(t, "mpn_scan1", mpn_scan1(x, n, pos), none ? MP_BITS_MAX : (long)s);
      s = ref::scan0(X, pos, &none);
      return same(t, "mpn_scan0", mpn_scan0(x, n, pos), (long)s);
    }
    case 14: {
      same(t, "mpn_popcount", mpn_popcount(x, n), ref::popcount(X));
      same(t, "mpn_hamdist", mpn_hamdist(x, y, n), ref::popcount(X ^ Y));
      same(t, "mpn_bitlen", mpn_bitlen(x, n), X.bits());
      same(t, "mpn_bytelen", mpn_bytelen(x, n), (X.bits() + 7) / 8);
      if (X.sgn()) {
        size_t low = 0;
        while (!X.bit(low)) low++;
        same(t, "mpn_ctz", mpn_ctz(x, n), low);
      }
      return;
    }
    default: {
      size_t k = t.range(0, 64 * n + 10);
      mpn_mask(z, x, n, k);
      return same(t, "mpn_mask", z.z(), X % Z::pow2(k));
    }
  }
}

// ---------------------------------------------------------------- C15

PBT_RULE(C15, "the operands are non-zero, or the function takes a word");

PBT_PROP(C15, gcd, 240000, 3000000) {
  Z g = gen(t, 4), x, y;
  pair(t, x, y, t.chance(1, 12) ? 70 : 10);
  if (t.flip()) x = x * g, y = y * g;
  if (t.chance(1, 16)) x = Z(0);
  if (t.chance(1, 16)) y = Z(0);
  if (x.sgn() && y.sgn()) t.nontrivial();
  uint64_t u = word(t);
  Z U = Z::u64(u);
  switch (t.range(0, 7)) {
    case 0: return run(t, "mpz_gcd", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_gcd(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::gcdz(i[0], i[1])}; });
    case 1: return run(t, "mpz_lcm", 1, {x, y}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_lcm(o[0], i[0], i[1]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::lcmz(i[0], i[1])}; });
    case 2: {
      if (t.flip()) x = x * U;
      uint64_t r = 0;
      run(t, "mpz_gcd_ui", 1, {x}, [&](mpz_ptr *o, mpz_srcptr *i) { r = mpz_gcd_ui(o[0], i[0], u); }, [&](const Z *i, const Z *) { return std::vector<Z>{ref::gcdz(i[0], U)}; });
      Z want = ref::gcdz(x, U);
      if (want.bits() <= 64) same(t, "mpz_gcd_ui returned", Z::u64(r), want);
      return;
    }
    case 3: return run(t, "mpz_lcm_ui", 1, {x}, [&](mpz_ptr *o, mpz_srcptr *i) { mpz_lcm_ui(o[0], i[0], u); }, [&](const Z *i, const Z *) { return std::vector<Z>{ref::lcmz(i[0], U)}; });
    case 4: case 5: {
      // g is determined; the cofactors must satisfy the identity
      Z G, A, B, X, Y;
      run(t, "mpz_gcdext", 3, {x, y}, [&](mpz_ptr *o, mpz_srcptr *i) {
            X = get(t, "x", i[0]), Y = get(t, "y", i[1]);
            mpz_gcdext(o[0], o[1], o[2], i[0], i[1]);
            A = get(t, "s", o[1]), B = get(t, "t", o[2]);
          }, [](const Z *i, const Z *) { return std::vector<Z>{ref::gcdz(i[0], i[1])}; });
      same(t, "s*x + t*y", A * X + B * Y, ref::gcdz(X, Y));
      if (t.chance(1, 4)) {
        M a, b, c, d;
        a.set(x), b.set(y);
        int k = (int)t.range(0, 5);
        mpz_gcdext(k & 1 ? NULL : (mpz_ptr)c, k & 2 ? NULL : (mpz_ptr)d, NULL, a, b);
        if (!(k & 1)) same(t, "mpz_gcdext with NULLs", get(t, "g", c), ref::gcdz(x, y));
      }
      return;
    }
    default: {
      if (y.zero()) y = Z(3);
      if (t.flip() && !y.odd()) y = y + Z(1);
      if (y.zero()) y = Z(3);
      if (t.chance(1, 2)) {
        Z gg = ref::gcdz(x, y);
        if (gg > Z(1)) x = ref::tdiv(x, gg);
      }
      bool trivial = y.abs() == Z(1);
      int r = -1;
      Z want, X, Y;
      run(t, "mpz_invert", 1, {x, y}, [&](mpz_ptr *o, mpz_srcptr *i) { X = get(t, "x", i[0]), Y = get(t, "y", i[1]); r = mpz_invert(o[0], i[0], i[1]); },
          [&](const Z *i, const Z *) {
            Z v;
            bool ok = !i[0].zero() && !(i[1].abs() == Z(1)) && ref::inv(v, i[0], i[1]);
            return std::vector<Z>{ok ? v % i[1] : Z(0)};
          });
      if (trivial) return;
      Z v;
      bool ok = !X.zero() && Y.abs() != Z(1) && ref::inv(v, X, Y);
      EXPECT(t, r == (int)ok, "mpz_invert returned %d, want %d", r, ok);
    }
  }
}

PBT_PROP(C15, powm, 60000, 800000) {
  size_t mx = t.chance(1, 30) ? 66 : 6;
  Z x = gen(t, mx), e = gen(t, t.chance(1, 10) ? 5 : 3, false), m = gen_nz(t, mx);
  if (t.chance(1, 4)) e = Z((long)t.range(0, 20));
  if (t.chance(1, 2) && !m.odd()) m = m + Z(1);
  if (m.zero()) m = Z(7);
  if (x.sgn() && e.sgn()) t.nontrivial();
  switch (t.range(0, 4)) {
    case 0: case 1: return run(t, "mpz_powm", 1, {x, e, m}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_powm(o[0], i[0], i[1], i[2]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::powm(i[0], i[1], i[2].abs())}; }, false);
    case 2: {  // negative exponent
      Z v;
      if (m.abs() == Z(1) || x.zero() || !ref::inv(v, x, m)) x = Z(1);
      if (m.abs() == Z(1)) m = Z(9);
      if (!ref::inv(v, x, m)) return;
      if (e.zero()) e = Z(1);
      e = -e;
      return run(t, "mpz_powm negative", 1, {x, e, m}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_powm(o[0], i[0], i[1], i[2]); },
                 [](const Z *i, const Z *) {
                   Z w;
                   ref::inv(w, i[0], i[2].abs());
                   return std::vector<Z>{ref::powm(w, -i[1], i[2].abs())};
                 }, false);
    }
    case 3: {
      uint64_t u = word(t);
      return run(t, "mpz_powm_ui", 1, {x, m}, [u](mpz_ptr *o, mpz_srcptr *i) { mpz_powm_ui(o[0], i[0], u, i[1]); }, [u](const Z *i, const Z *) { return std::vector<Z>{ref::powm(i[0], Z::u64(u), i[1].abs())}; }, false);
    }
    default: {
      if (!m.odd()) m = m + Z(1);
      return run(t, "mpz_powm_sec", 1, {x, e, m}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_powm_sec(o[0], i[0], i[1], i[2]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::powm(i[0], i[1], i[2].abs())}; }, false);
    }
  }
}

PBT_PROP(C15, roots, 120000, 1600000) {
  Z x;
  unsigned long k = t.weighted({3, 3, 1}) == 0 ? 2 : t.range(1, 9);
  if (t.chance(1, 12)) k = t.range(1, 300);
  bool near = t.flip();
  if (near) {
    Z b = gen(t, k > 20 ? 1 : 5);
    if (k > 60) b = b % Z(50);
    x = ref::powi(b, k) + Z((long)t.range(0, 2)) - Z(1);
  } else {
    x = gen(t, 20);
  }
  if (x.sgn()) t.nontrivial();
  switch (t.range(0, 4)) {
    case 0: {
      if (k % 2 == 0) x = x.abs();
      return run(t, "mpz_rootrem", 2, {x}, [k](mpz_ptr *o, mpz_srcptr *i) { mpz_rootrem(o[0], o[1], i[0], k); },
                 [k](const Z *i, const Z *) {
                   Z r = ref::iroot(i[0], k, nullptr);
                   return std::vector<Z>{r, i[0] - ref::powi(r, k)};
                 });
    }
    case 1: {
      if (k % 2 == 0) x = x.abs();
      int r = -1;
      bool ex;
      ref::iroot(x, k, &ex);
      if (t.chance(1, 4)) {
        M a;
        a.set(x);
        r = mpz_root(NULL, a, k);
      } else {
        run(t, "mpz_root", 1, {x}, [&](mpz_ptr *o, mpz_srcptr *i) { r = mpz_root(o[0], i[0], k); }, [k](const Z *i, const Z *) { return std::vector<Z>{ref::iroot(i[0], k, nullptr)}; });
      }
      return same(t, "mpz_root exact", r != 0, ex);
    }
    case 2:
      x = x.abs();
      if (t.flip())
        return run(t, "mpz_sqrtrem", 2, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_sqrtrem(o[0], o[1], i[0]); },
                   [](const Z *i, const Z *) {
                     Z r = ref::isqrt(i[0]);
                     return std::vector<Z>{r, i[0] - r * r};
                   });
      return run(t, "mpz_sqrt", 1, {x}, [](mpz_ptr *o, mpz_srcptr *i) { mpz_sqrt(o[0], i[0]); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::isqrt(i[0])}; });
    case 3: {
      if (t.chance(1, 2)) {
        Z b = gen(t, 3);
        x = b * b + (t.flip() ? Z(0) : Z::pow2(t.range(0, 130)));
      }
      M a;
      a.set(x);
      if (t.recording()) t.note("x=%s", txt(x).c_str());
      same(t, "mpz_perfect_square_p", mpz_perfect_square_p(a) != 0, ref::perfect_square(x));
      if (x.sgn() > 0) {
        size_t n = x.to_limbs().size();
        LV v(x, n), r(n), z((n + 1) / 2);
        same(t, "mpn_perfect_square_p", mpn_perfect_square_p(v, n) != 0, ref::perfect_square(x));
        size_t rn = mpn_sqrtrem(z, r, v, n);
        Z q = ref::isqrt(x);
        same(t, "mpn_sqrtrem", z.z(), q);
        same(t, "mpn_sqrtrem rem", r.z(), x - q * q);
        same(t, "mpn_sqrtrem size", rn, (x - q * q).to_limbs().size());
        intact(t, "mpn_sqrtrem", {&v, &r, &z});
      }
      return;
    }
    default: {
      if (x.bits() > 700) x = x >> (x.bits() - 700);
      M a;
      a.set(x);
      if (t.recording()) t.note("x=%s", txt(x).c_str());
      return same(t, "mpz_perfect_power_p", mpz_perfect_power_p(a) != 0, ref::perfect_power(x));
    }
  }
}

PBT_PROP(C15, symbols, 300000, 4000000) {
  Z g = gen_nz(t, 2), x, y;
  pair(t, x, y, t.chance(1, 20) ? 66 : 8);
  if (t.chance(1, 3)) x = x * g, y = y * g;
  if (x.sgn() && y.sgn()) t.nontrivial();
  M a, b;
  uint64_t u = word(t);
  int64_t s = sword(t);
  t.mix64(x.low() ^ y.low() ^ u);
  if (t.recording()) t.note("x=%s y=%s u=%llx s=%lld", txt(x).c_str(), txt(y).c_str(), (unsigned long long)u, (long long)s);
  a.set(x), b.set(y);
  same(t, "mpz_kronecker", mpz_kronecker(a, b), ref::kron(x, y));
  same(t, "mpz_kronecker_ui", mpz_kronecker_ui(a, u), ref::kron(x, Z::u64(u)));
  same(t, "mpz_kronecker_si", mpz_kronecker_si(a, s), ref::kron(x, Z((long)s)));
  same(t, "mpz_ui_kronecker", mpz_ui_kronecker(u, b), ref::kron(Z::u64(u), y));
  same(t, "mpz_si_kronecker", mpz_si_kronecker(s, b), ref::kron(Z((long)s), y));
  if (!y.odd()) y = y + Z(1);
  b.set(y);
  same(t, "mpz_jacobi", mpz_jacobi(a, b), ref::kron(x, y));
  if (y > Z(0)) {
    size_t n = y.to_limbs().size();
    Z xm = x % y;
    size_t xn = xm.to_limbs().size();
    LV v(y, n), w(xm, xn), sc(MPN_JACOBI_ITCH(n)), wn(xm, n);
    same(t, "mpn_jacobi", mpn_jacobi(w, xn, v, n, sc), ref::kron(xm, y));
    intact(t, "mpn_jacobi", {&sc});
    same(t, "mpn_jacobi_n", mpn_jacobi_n(wn, v, n, sc), ref::kron(xm, y));
  }
}

namespace {
// Odd primes of many shapes: every residue class modulo 8 and deep 2-adic p - 1.
Z gen_prime(T &t, size_t maxbits) {
  static const char *special[] = {"3", "5", "7", "b", "11", "29", "61", "c1", "101", "3001", "10001", "c0001", "a000001", "c0000001", "7fffffff",
    "ffffffff00000001", "fffffffffffffffffffffffffffffffeffffffffffffffff", "ffffffffffffffffffffffffffffffff000000000000000000000001",
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed",
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
    "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"};
  if (t.chance(1, 4)) return Z::hex(t.pick(std::vector<const char *>(std::begin(special), std::end(special))));
  size_t bits = t.range(2, maxbits);
  Bytes r = t.rnd((bits + 7) / 8);
  Z z = (Z::be(r) % Z::pow2(bits)) | Z::pow2(bits - 1);
  Z p = ref::next_prime(z);
  return p == Z(2) ? Z(3) : p;
}
}  // namespace

PBT_PROP(C15, sqrtm, 50000, 600000) {
  Z p = gen_prime(t, t.chance(1, 10) ? 260 : 80), x;
  t.nontrivial();
  x = gen(t, 5) % p;
  if (t.flip()) x = (x * x) % p;
  if (t.chance(1, 4)) x = x + p * (gen(t, 2));
  M a, b;
  a.set(x), b.set(p);
  t.label("p mod 8 = %d", (int)(p.low() & 7));
  t.mix64(x.low() ^ p.low());
  if (t.recording()) t.note("x=%s p=%s", txt(x).c_str(), txt(p).c_str());
  same(t, "mpz_legendre", mpz_legendre(a, b), ref::kron(x, p));
  if (t.chance(2, 3)) {
    Z r;
    bool ok = ref::sqrtmod(r, x, p);
    M o, *z = &o;
    int al = (int)t.range(0, 2);
    if (al == 1) z = &a;
    int got = mpz_sqrtm(*z, a, b);
    EXPECT(t, got == (int)ok, "mpz_sqrtm returned %d, want %d", got, ok);
    if (ok) {
      Z v = get(t, "sqrtm", *z);
      EXPECT(t, v.sgn() >= 0 && v < p, "mpz_sqrtm result out of range");
      same(t, "mpz_sqrtm squared", (v * v) % p, x % p);
    }
    return;
  }
  Z q = gen_prime(t, 70);
  if (p == q) return;
  Z n = p * q;
  x = gen(t, 4);
  if (t.flip()) x = (x * x) % n;
  M c, o;
  c.set(q), a.set(x);
  Z r;
  bool ok = ref::sqrtmod(r, x, p) && ref::sqrtmod(r, x, q);
  int got = mpz_sqrtpq(o, a, b, c);
  EXPECT(t, got == (int)ok, "mpz_sqrtpq returned %d, want %d (x=%s q=%s)", got, ok, txt(x).c_str(), txt(q).c_str());
  if (ok) {
    Z v = get(t, "sqrtpq", o);
    EXPECT(t, v.sgn() >= 0 && v < n, "mpz_sqrtpq result out of range");
    same(t, "mpz_sqrtpq squared", (v * v) % n, x % n);
  }
}

PBT_PROP(C15, combinatorics, 120000, 1400000) {
  M z;
  z.set(gen(t, 3));
  t.nontrivial();
  unsigned long n = t.chance(1, 8) ? t.range(0, 1200) : t.range(0, 90), m = t.range(1, 12);
  t.mix64(n * 16 + m);
  int op = (int)t.range(0, 11);
  t.note("op %d n=%lu m=%lu", op, n, m);
  t.label("op %d", op);
  switch (op) {
    case 0: mpz_fac_ui(z, n); return same(t, "mpz_fac_ui", get(t, "fac", z), ref::factorial(n));
    case 1: mpz_2fac_ui(z, n); return same(t, "mpz_2fac_ui", get(t, "2fac", z), ref::mfactorial(n, 2));
    case 2: mpz_mfac_uiui(z, n, m); return same(t, "mpz_mfac_uiui", get(t, "mfac", z), ref::mfactorial(n, m));
    case 3: mpz_primorial_ui(z, n); return same(t, "mpz_primorial_ui", get(t, "primorial", z), ref::primorial(n));
    case 4: {
      Z N = gen(t, 3);
      if (t.chance(1, 3)) N = Z((long)t.range(0, 300)) - Z(150);
      unsigned long k = t.range(0, 80);
      return run(t, "mpz_bin_ui", 1, {N}, [k](mpz_ptr *o, mpz_srcptr *i) { mpz_bin_ui(o[0], i[0], k); }, [k](const Z *i, const Z *) { return std::vector<Z>{ref::binomial(i[0], k)}; });
    }
    case 5: {
      uint64_t k = t.range(0, 100);
      uint64_t N = t.chance(1, 3) ? word(t) : t.range(0, 500);
      if (t.chance(1, 4) && N >= k) k = N - k;  // near the top
      if (N - k > 1000 && k > 1000) k = 3;
      mpz_bin_uiui(z, N, k);
      unsigned long kk = k <= N && N - k < k ? N - k : k;
      return same(t, "mpz_bin_uiui", get(t, "bin_uiui", z), k > N ? Z(0) : ref::binomial(Z::u64(N), kk));
    }
    case 6: {
      uint64_t k = t.range(0, 100);
      int64_t N = t.chance(1, 3) ? sword(t) : (int64_t)t.range(0, 300) - 150;
      mpz_bin_siui(z, N, k);
      return same(t, "mpz_bin_siui", get(t, "bin_siui", z), ref::binomial(Z((long)N), k));
    }
    case 7: mpz_fib_ui(z, n); return same(t, "mpz_fib_ui", get(t, "fib", z), ref::fibonacci(n));
    case 8: {
      if (!n) n = 1;
      M y;
      mpz_fib2_ui(z, y, n);
      same(t, "mpz_fib2_ui", get(t, "fib2", z), ref::fibonacci(n));
      return same(t, "mpz_fib2_ui prev", get(t, "fib2", y), ref::fibonacci(n - 1));
    }
    case 9: mpz_lucnum_ui(z, n); return same(t, "mpz_lucnum_ui", get(t, "lucnum", z), ref::lucas(n));
    case 10: {
      if (!n) n = 1;
      M y;
      mpz_lucnum2_ui(z, y, n);
      same(t, "mpz_lucnum2_ui", get(t, "lucnum2", z), ref::lucas(n));
      return same(t, "mpz_lucnum2_ui prev", get(t, "lucnum2", y), ref::lucas(n - 1));
    }
    default: {
      Z f = t.flip() ? Z((long)t.range(2, 40)) : gen(t, 2);
      if (t.chance(1, 4)) f = Z::pow2(t.range(1, 70));
      if (t.chance(1, 4)) f = -f;
      if (f.abs() <= Z(1)) f = Z(-3);
      Z x = gen(t, 3) * ref::powi(f, t.range(0, 9));
      long r = -1;
      Z X, F;
      run(t, "mpz_remove", 1, {x, f}, [&](mpz_ptr *o, mpz_srcptr *i) { r = mpz_remove(o[0], i[0], i[1]); },
          [&](const Z *i, const Z *) {
            Z v;
            F = i[1], X = i[0];
            if (X.zero()) return std::vector<Z>{Z(0)};
            long c = 0;
            v = X;
            while (ref::trem(v, F).zero()) v = ref::tdiv(v, F), c++;
            return std::vector<Z>{v};
          }, false);
      if (X.zero()) return;
      long c = 0;
      Z v = X;
      while (ref::trem(v, F).zero()) v = ref::tdiv(v, F), c++;
      return same(t, "mpz_remove count", r, c);
    }
  }
}

PBT_PROP(C15, vectors, 120000, 1400000) {
  Z g = gen_nz(t, 2, false), x = gen_nz(t, 8, false), y = gen_nz(t, 8, false);
  if (t.flip()) x = x * g, y = y * g;
  if (x < y) std::swap(x, y);
  size_t xn = x.to_limbs().size(), yn = y.to_limbs().size();
  LV xv(x, xn), yv(y, yn);
  t.nontrivial();
  t.mix64(x.low() ^ y.low());
  if (t.recording()) t.note("x=%s y=%s", txt(x).c_str(), txt(y).c_str());
  switch (t.range(0, 6)) {
    case 0: {
      LV z(yn), s(MPN_GCD_ITCH(xn, yn));
      Z w = ref::gcdz(x, y);
      size_t n = mpn_gcd(z, xv, xn, yv, yn, s);
      same(t, "mpn_gcd", z.z(), w);
      same(t, "mpn_gcd size", n, w.to_limbs().size());
      return intact(t, "mpn_gcd", {&z, &s, &xv, &yv});
    }
    case 1: {
      uint64_t u = t.flip() ? word(t) : y.low();
      if (!u) u = 12;
      LV s(MPN_GCD_1_ITCH(xn));
      same(t, "mpn_gcd_1", Z::u64(mpn_gcd_1(xv, xn, u, s)), ref::gcdz(x, Z::u64(u)));
      return intact(t, "mpn_gcd_1", {&s});
    }
    case 2: {
      LV z(yn), s(yn + 1);
      mp_size_t sn = 0;
      size_t n = mpn_gcdext(z, s, &sn, xv, xn, yv, yn);
      Z w = ref::gcdz(x, y), S = s.z();
      if (sn < 0) S = -S;
      same(t, "mpn_gcdext", z.z(), w);
      same(t, "mpn_gcdext size", n, w.to_limbs().size());
      intact(t, "mpn_gcdext", {&z, &s});
      EXPECT(t, ((S * x - w) % y).zero(), "mpn_gcdext cofactor");
      return;
    }
    case 3: {
      if (!y.odd()) y = y + Z(1);
      x = x % y;
      yn = y.to_limbs().size(), xn = x.to_limbs().size();
      LV z(yn), a(x, xn), m(y, yn), s(MPN_INVERT_ITCH(yn)), an(x, yn);
      Z v;
      bool ok = y != Z(1) && !x.zero() && ref::inv(v, x, y);
      int r = t.flip() ? mpn_invert(z, a, xn, m, yn, s) : mpn_invert_n(z, an, m, yn, s);
      EXPECT(t, r == (int)ok, "mpn_invert returned %d, want %d", r, ok);
      same(t, "mpn_invert", z.z(), ok ? v : Z(0));
      return intact(t, "mpn_invert", {&z, &s});
    }
    case 4: {
      Z p = gen_prime(t, 70);
      x = t.chance(1, 8) ? Z(0) : x % p;
      yn = p.to_limbs().size(), xn = x.to_limbs().size();
      LV z(yn), a(x, xn), m(p, yn), s(MPN_SEC_INVERT_ITCH(yn)), an(x, yn);
      Z v;
      bool ok = !x.zero() && ref::inv(v, x, p);
      int r = t.flip() ? mpn_sec_invert(z, a, xn, m, yn, s) : mpn_sec_invert_n(z, an, m, yn, s);
      EXPECT(t, r == (int)ok, "mpn_sec_invert returned %d, want %d", r, ok);
      same(t, "mpn_sec_invert", z.z(), ok ? v : Z(0));
      return intact(t, "mpn_sec_invert", {&z, &s});
    }
    case 5: {
      bool sec = t.flip();
      Z m = gen_nz(t, 6, false), e = gen(t, 3, false);
      if (sec && !m.odd()) m = m + Z(1);
      x = x % m;
      size_t mn = m.to_limbs().size(), en = e.to_limbs().size() + t.range(0, 1), an = x.to_limbs().size();
      LV z(mn), a(x, an), ev(e, en), mv(m, mn), s(sec ? MPN_SEC_POWM_ITCH(mn) : MPN_POWM_ITCH(en, mn));
      if (sec) mpn_sec_powm(z, a, an, ev, en, mv, mn, s);
      else mpn_powm(z, a, an, ev, en, mv, mn, s);
      intact(t, "mpn_powm", {&z, &s});
      return same(t, sec ? "mpn_sec_powm" : "mpn_powm", z.z(), ref::powm(x, e, m));
    }
    default: {
      Z m = gen_nz(t, 8, false);
      if (!m.odd()) m = m + Z(1);
      size_t n = m.to_limbs().size();
      Z R = Z::pow2(64 * n);
      x = x % m, y = y % m;
      if (t.chance(1, 6)) x = m - Z(1);
      if (t.chance(1, 6)) y = m - Z(1);
      LV rr(n), mv(m, n), s(MPN_MONT_ITCH(n)), a(x, n), b(y, n), z(n), s2(MPN_MONTMUL_ITCH(n));
      mp_limb_t k;
      mpn_mont(&k, rr, mv, n, s);
      same(t, "mpn_mont k", (Z::u64(k) * m + Z(1)) % Z::pow2(64), Z(0));
      same(t, "mpn_mont r", rr.z(), (R * R) % m);
      mpn_sec_montmul(z, a, b, mv, n, k, s2);
      same(t, "mpn_sec_montmul reduced", (z.z() * R) % m, (x * y) % m);
      EXPECT(t, z.z() < m, "mpn_sec_montmul result is not reduced");
      mpn_montmul(z, a, b, mv, n, k, s2);
      same(t, "mpn_montmul", (z.z() * R) % m, (x * y) % m);
      return intact(t, "mpn_montmul", {&rr, &s, &z, &s2});
    }
  }
}

// ---------------------------------------------------------------- C16

PBT_RULE(C16, "odd candidate above 7, or a generated integer");

namespace {
struct Rng {
  uint64_t s;
  size_t calls = 0, bytes = 0;
  int mode = 0;  // 0 mixed, 1 all ones first, 2 all zero first
};
void rng_fill(void *out, size_t n, void *arg) {
  Rng *r = (Rng *)arg;
  uint8_t *p = (uint8_t *)out;
  r->calls++;
  r->bytes += n;
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(pbt::mix_seed(r->s, r->calls * 4096 + i) >> 13);
  if (r->mode == 1 && r->calls <= 3) memset(p, 0xff, n);
  if (r->mode == 2 && r->calls <= 3) memset(p, 0, n);
}

// Candidates: primes, semiprimes near squares, Carmichael numbers, strong and
// Lucas pseudoprimes.
Z candidate(T &t, bool big) {
  static const char *hard[] = {
    // strong pseudoprimes to base 2
    "2047", "3277", "4033", "4681", "8321", "15841", "29341", "42799", "49141", "52633", "65281", "74665", "80581", "85489", "88357", "90751",
    "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051",
    // extra strong Lucas pseudoprimes
    "989", "3239", "5777", "10877", "27971", "29681", "30739", "31631", "39059", "72389", "73919", "75077", "100127", "113573", "125249", "137549",
    // composites that would be extra strong Lucas pseudoprimes but for the condition on U
    "10469", "154697", "233659", "472453", "629693", "852389", "1091093", "1560437", "1620673", "1813601", "1969109", "2415739", "2595329", "31437499",
    "38382101", "115045397",
    // Carmichael numbers and squares of Wieferich primes
    "561", "1105", "1729", "2465", "2821", "6601", "8911", "1194649", "12327121", "9", "25", "49", "169",
    // Arnault's composite, strong pseudoprime to all bases below 200
    "8038374574536394912570796143419421081388376882875581458374889175222974273765333652186502336163960045457915042023603208766569966760987284043965408232928738791850869166857328267761771029389697739470167082304286871099974399765441448453411558724506334092790222752962294149842306881685404326457534018329786111298960644845216191652872597534901"};
  switch (t.weighted({4, 4, 3, 2, 2, 2})) {
    case 5: {  // p * (k(p - 1) + 1) and p * (k(p + 1) - 1): rich in pseudoprimes
      Z p = gen_prime(t, big ? 100 : 28), one(1);
      bool up = t.flip();
      for (long k = 2; k < 60; k++) {
        Z q = up ? Z(k) * (p - one) + one : Z(k) * (p + one) - one;
        if (ref::is_prime(q)) return p * q;
      }
      return p * p;
    }
    case 0: return Z((long)t.range(0, 3000));
    case 1: return gen_prime(t, big ? 200 : 70);
    case 2: return Z::str(t.pick(std::vector<const char *>(std::begin(hard), std::end(hard))), 10);
    case 3: {
      Z p = gen_prime(t, big ? 100 : 34);
      return t.flip() ? p * p : p * gen_prime(t, big ? 100 : 34);
    }
    default: {
      Z x = gen(t, big ? 3 : 1);
      if (!x.odd()) x = x + Z(1);
      return x;
    }
  }
}
}  // namespace

PBT_PROP(C16, tests, 160000, 2000000) {
  Z n = candidate(t, t.chance(1, 6));
  bool prime = ref::is_prime(n);
  M a;
  a.set(n);
  Rng r{t.bits(64)};
  r.mode = (int)t.range(0, 2);
  if (n > Z(7) && n.odd()) t.nontrivial();
  t.label("%s", n < Z(2) ? "below 2" : prime ? "prime" : "composite");
  t.mix64(n.low());
  if (t.recording()) t.note("n=%s prime=%d", n.text(10).c_str(), prime);
  int rounds = (int)t.range(0, 12);
  int got = mpz_probab_prime_p(a, rounds, rng_fill, &r);
  EXPECT(t, (got != 0) == prime, "mpz_probab_prime_p(%s, %d) = %d, prime=%d", txt(n).c_str(), rounds, got, prime);
  // a single forced base 2 round is the strong base-2 test
  r.calls = 0;
  got = mpz_mr_prime_p(a, 1, 1, rng_fill, &r);
  bool spsp = n < Z(2) ? false : n == Z(2) ? true : !n.odd() ? false : n <= Z(7) ? n != Z(1) : ref::strong_prp(n, Z(2));
  EXPECT(t, (got != 0) == spsp, "mpz_mr_prime_p(%s, 1, base 2) = %d, want %d", txt(n).c_str(), got, spsp);
  int reps = (int)t.range(1, 20);
  got = mpz_mr_prime_p(a, reps, t.flip(), rng_fill, &r);
  if (prime) EXPECT(t, got != 0, "mpz_mr_prime_p rejected the prime %s", txt(n).c_str());
  // An error probability of 4^-40; the composite by Arnault is a strong
  // pseudoprime to 1/4 of the bases at most like any other.
  if (!prime && r.mode == 0) {
    got = mpz_mr_prime_p(a, 40, 0, rng_fill, &r);
    EXPECT(t, got == 0, "mpz_mr_prime_p accepted the composite %s in 40 rounds", txt(n).c_str());
  }
  uint64_t limit = t.chance(1, 3) ? t.range(1, 60) : 0;
  got = mpz_lucas_prime_p(a, limit);
  int want = n < Z(2) ? 0 : n == Z(2) ? 1 : !n.odd() ? 0 : n <= Z(7) ? 1 : ref::xs_lucas(n, limit) == 1;
  EXPECT(t, (got != 0) == (want != 0), "mpz_lucas_prime_p(%s, %llu) = %d, want %d", txt(n).c_str(), (unsigned long long)limit, got, want);
}

PBT_PROP(C16, exhaustive, 1600, 24000) {
  // blocks of consecutive integers
  uint64_t base = t.chance(1, 2) ? 500 * t.range(0, 200) : t.bits(t.range(20, 40));
  Rng r{t.bits(64)};
  t.nontrivial();
  t.mix64(base);
  t.note("from %llu", (unsigned long long)base);
  M a;
  for (uint64_t i = 0; i < 500; i++) {
    Z n = Z::u64(base + i);
    bool p = ref::is_prime(n);
    a.set(n);
    EXPECT(t, (mpz_probab_prime_p(a, 1, rng_fill, &r) != 0) == p, "mpz_probab_prime_p(%llu) != %d", (unsigned long long)(base + i), p);
  }
}

PBT_PROP(C16, search, 24000, 320000) {
  Rng r{t.bits(64)};
  t.nontrivial();
  switch (t.range(0, 2)) {
    case 0: {
      Z x = t.chance(1, 2) ? Z((long)t.range(0, 2000)) : t.chance(1, 4) ? gen(t, 3) : candidate(t, false);
      if (t.chance(1, 10)) x = -x;
      t.label("nextprime");
      t.mix64(x.low());
      return run(t, "mpz_nextprime", 1, {x}, [&](mpz_ptr *o, mpz_srcptr *i) { mpz_nextprime(o[0], i[0], rng_fill, &r); }, [](const Z *i, const Z *) { return std::vector<Z>{ref::next_prime(i[0])}; });
    }
    case 1: {
      Z x = t.chance(1, 2) ? Z((long)t.range(0, 2000)) : gen(t, 2, false);
      if (x == Z(2)) x = Z(3);  // two is skipped by the odd search
      uint64_t m = t.range(0, 40);
      t.label("findprime");
      t.mix64(x.low() ^ (m << 50));
      M a, o;
      a.set(x);
      int got = mpz_findprime(o, a, m, rng_fill, &r);
      Z p = ref::next_prime(x - Z(1));
      if (p == Z(2)) p = Z(3);
      bool want = p <= x + Z((long)m);
      EXPECT(t, got == (int)want, "mpz_findprime(%s, %llu) = %d, want %d", txt(x).c_str(), (unsigned long long)m, got, want);
      if (want) same(t, "mpz_findprime", get(t, "findprime", o), p);
      return;
    }
    default: {
      size_t bits = t.chance(1, 2) ? t.range(2, 40) : t.range(2, 200);
      M z, y;
      z.set(gen(t, 3));
      mpz_randprime(z, bits, rng_fill, &r);
      Z p = get(t, "randprime", z);
      t.label("randprime");
      t.mix64(p.low());
      EXPECT(t, p.bits() == bits, "mpz_randprime(%zu) has %zu bits", bits, p.bits());
      EXPECT(t, ref::is_prime(p), "mpz_randprime returned the composite %s", txt(p).c_str());
      Rng r2{r.s};
      mpz_randprime(y, bits, rng_fill, &r2);
      return same(t, "mpz_randprime again", get(t, "randprime", y), p);
    }
  }
}

PBT_PROP(C16, random, 240000, 2800000) {
  Rng r{t.bits(64)};
  r.mode = (int)t.range(0, 2);
  t.nontrivial();
  M z, y;
  z.set(gen(t, 3));
  if (t.flip()) {
    size_t bits = t.len_near({0, 1, 63, 64, 65, 127, 128, 129, 256}, 300);
    t.label("urandomb");
    mpz_urandomb(z, bits, rng_fill, &r);
    Z v = get(t, "urandomb", z);
    EXPECT(t, v.sgn() >= 0 && v.bits() <= bits, "mpz_urandomb(%zu) gave %s", bits, txt(v).c_str());
    t.mix64(v.low());
    if (r.mode == 1 && bits && bits <= 64 * 3) EXPECT(t, v == Z::pow2(bits) - Z(1), "mpz_urandomb cannot reach the top of its range: %s", txt(v).c_str());
    Rng r2{r.s};
    r2.mode = r.mode;
    mpz_urandomb(y, bits, rng_fill, &r2);
    return same(t, "mpz_urandomb again", get(t, "urandomb", y), v);
  }
  Z x = gen(t, 6);
  M a;
  a.set(x);
  t.label("urandomm");
  t.mix64(x.low());
  if (t.recording()) t.note("x=%s", txt(x).c_str());
  mpz_urandomm(z, a, rng_fill, &r);
  Z v = get(t, "urandomm", z);
  if (x.zero()) return same(t, "mpz_urandomm(0)", v, Z(0));
  EXPECT(t, ref::cmpabs(v, x) < 0 && (v.zero() || v.sgn() == x.sgn()), "mpz_urandomm(%s) gave %s", txt(x).c_str(), txt(v).c_str());
  Rng r2{r.s};
  r2.mode = r.mode;
  mpz_urandomm(y, a, rng_fill, &r2);
  same(t, "mpz_urandomm again", get(t, "urandomm", y), v);
  size_t n = x.to_limbs().size() + t.range(0, 2);
  LV lim(x, n), o(n);
  mpn_randomm(o, lim, n, rng_fill, &r);
  EXPECT(t, o.z() < x.abs(), "mpn_randomm out of range");
  intact(t, "mpn_randomm", {&o});
}
