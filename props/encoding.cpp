// C11 base encodings, C12 bech32 and cash32.
#include "common.h"
#include "ref_encoding.h"
#include <torsion/encoding.h>

PBT_RULE(C11, "text or data non-empty; distinct by decoded input");
PBT_RULE(C12, "a string of at least eight characters was judged, or bits regrouped; distinct by decoded input");

static std::string S(const Bytes &b) { return std::string(b.begin(), b.end()); }
static Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
static Bytes Z(const std::string &s) { Bytes b(s.begin(), s.end()); b.push_back(0); return b; }

// ------------------------------------------------------------------ C11

enum { B16, B16LE, B32, B32HEX, B64, B64URL, B58 };
static const char *kNames[] = {"base16", "base16le", "base32", "base32hex", "base64", "base64url", "base58"};
static const char *kAlpha[] = {"0123456789abcdef", "0123456789abcdef", "abcdefghijklmnopqrstuvwxyz234567", "0123456789abcdefghijklmnopqrstuv",
                               "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
                               "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
                               "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"};

static std::string ref_enc(int k, const Bytes &b, bool pad) {
  if (k == B58) return ref::b58_encode(b);
  if (k == B16LE) return ref::radix_encode(Bytes(b.rbegin(), b.rend()), kAlpha[k], false);
  return ref::radix_encode(b, kAlpha[k], pad);
}
static bool ref_dec(int k, const std::string &s, bool pad, Bytes &out) {
  if (k == B58) return ref::b58_decode(s, out);
  bool ok = ref::radix_decode(s, kAlpha[k], pad, k <= B32HEX, out);
  if (k == B16LE) out = Bytes(out.rbegin(), out.rend());
  return ok;
}
static bool pad_of(T &t, int k) { return k == B64 ? true : k == B32 || k == B32HEX ? t.flip() : false; }

static void check_decode(T &t, int k, const std::string &s, bool pad) {
  Bytes want;
  bool ok = ref_dec(k, s, pad, want);
  Buf in(B(s));
  const char *p = (const char *)in.p;
  size_t n = s.size(), cap = 0;
  switch (k) {
    case B16: cap = base16_decode_size(n); break;
    case B16LE: cap = base16le_decode_size(n); break;
    case B32: cap = base32_decode_size(p, n); break;
    case B32HEX: cap = base32hex_decode_size(p, n); break;
    case B64: cap = base64_decode_size(p, n); break;
    case B64URL: cap = base64url_decode_size(p, n); break;
    case B58: cap = BASE58_DECODE_SIZE(n); break;
  }
  Buf out(cap);
  size_t len = 0;
  int r = 0, v = 0;
  switch (k) {
    case B16: r = base16_decode(out, &len, p, n); v = base16_test(p, n); break;
    case B16LE: r = base16le_decode(out, &len, p, n); v = base16le_test(p, n); break;
    case B32: r = base32_decode(out, &len, p, n, pad); v = base32_test(p, n, pad); break;
    case B32HEX: r = base32hex_decode(out, &len, p, n, pad); v = base32hex_test(p, n, pad); break;
    case B64: r = base64_decode(out, &len, p, n); v = base64_test(p, n); break;
    case B64URL: r = base64url_decode(out, &len, p, n); v = base64url_test(p, n); break;
    case B58: r = base58_decode(out, &len, p, n); v = base58_test(p, n); break;
  }
  if (t.recording()) { t.show("text", B(s)); t.note("%s pad %d\n", kNames[k], (int)pad); }
  EXPECT(t, out.intact(), "%s decode wrote outside the announced size", kNames[k]);
  EXPECT(t, r == (int)ok, "%s decode of %zu characters = %d, want %d", kNames[k], n, r, (int)ok);
  EXPECT(t, v == (int)ok, "%s validity test = %d, want %d", kNames[k], v, (int)ok);
  if (ok) {
    EXPECT(t, len <= cap, "%s decoded length %zu above the announced %zu", kNames[k], len, cap);
    if (k != B58) EXPECT(t, len == cap, "%s decoded length %zu, announced %zu", kNames[k], len, cap);
    expect_eq(t, out.get(len), want, "%s decode", kNames[k]);
    EXPECT(t, len == want.size(), "%s decoded length %zu, want %zu", kNames[k], len, want.size());
  }
  t.label("%s %s", kNames[k], ok ? "valid" : "invalid");
}

PBT_PROP(C11, encode, 400000, 4000000) {
  int k = (int)t.range(0, 6);
  bool pad = pad_of(t, k);
  Bytes b = t.bytes(t.len_block(k == B64 || k == B64URL ? 3 : 5, t.chance(1, 40) ? 600 : 70));
  if (t.chance(1, 4)) for (size_t i = t.range(0, 4); i > 0; i--) b.insert(b.begin(), 0);
  std::string want = ref_enc(k, b, pad);
  Buf in(b);
  size_t n = b.size(), cap = 0, len = 0;
  switch (k) {
    case B16: cap = base16_encode_size(n); break;
    case B16LE: cap = base16le_encode_size(n); break;
    case B32: cap = base32_encode_size(n, pad); break;
    case B32HEX: cap = base32hex_encode_size(n, pad); break;
    case B64: cap = base64_encode_size(n); break;
    case B64URL: cap = base64url_encode_size(n); break;
    case B58: cap = BASE58_ENCODE_SIZE(n); break;
  }
  if (t.recording()) { t.show("data", b); t.note("%s pad %d\n", kNames[k], (int)pad); }
  if (k != B58) EXPECT(t, cap == want.size(), "%s announced size %zu for %zu bytes, want %zu", kNames[k], cap, n, want.size());
  Buf out(cap + 1);
  char *o = (char *)out.p;
  size_t *lp = t.chance(1, 8) ? nullptr : &len;
  switch (k) {
    case B16: base16_encode(o, lp, in, n); break;
    case B16LE: base16le_encode(o, lp, in, n); break;
    case B32: base32_encode(o, lp, in, n, pad); break;
    case B32HEX: base32hex_encode(o, lp, in, n, pad); break;
    case B64: base64_encode(o, lp, in, n); break;
    case B64URL: base64url_encode(o, lp, in, n); break;
    case B58: EXPECT(t, base58_encode(o, lp, in, n) == 1, "base58_encode failed"); break;
  }
  EXPECT(t, out.intact(), "%s encode wrote outside the announced size", kNames[k]);
  if (lp) EXPECT(t, len == want.size(), "%s encoded length %zu, want %zu", kNames[k], len, want.size());
  EXPECT(t, want == std::string(o), "%s encode of %zu bytes: %s, want %s", kNames[k], n, o, want.c_str());
  check_decode(t, k, want, pad);
  if (n) t.nontrivial();
}

// Long inputs, where a size estimate that is slightly off shows.
PBT_PROP(C11, long_text, 60, 800) {
  int k = t.flip() ? B58 : (int)t.range(0, 6);
  bool pad = pad_of(t, k);
  size_t n = t.range(2000, k == B58 ? 7000 : 60000);
  std::string s;
  if (k == B58 && t.chance(2, 3)) s = std::string(n, t.pick({'z', 'z', '2', 'y'}));
  else { Bytes b = t.rnd(n); if (t.chance(1, 3)) for (auto &x : b) x = 0xff; s = ref_enc(k, b, pad); }
  check_decode(t, k, s, pad);
  if (k == B58) {
    Bytes raw;
    if (!ref_dec(k, s, pad, raw)) t.discard();
    size_t len = 0;
    Buf in(raw), out(BASE58_ENCODE_SIZE(raw.size()) + 1);
    EXPECT(t, base58_encode((char *)out.p, &len, in, raw.size()) == 1, "base58_encode failed");
    EXPECT(t, out.intact() && len == s.size() && s == (char *)out.p, "base58 of %zu bytes does not come back", raw.size());
  }
  t.nontrivial();
}

PBT_PROP(C11, decode, 1200000, 10000000) {
  int k = (int)t.range(0, 6);
  bool pad = pad_of(t, k);
  std::string s;
  size_t al = strlen(kAlpha[k]);
  if (t.chance(1, 3)) { // free text over the alphabet
    size_t n = t.len(20);
    for (size_t i = 0; i < n; i++) s += kAlpha[k][t.range(0, al - 1)];
    if (t.flip()) s.append(t.range(0, 8), '=');
  } else s = ref_enc(k, t.bytes(t.len(16)), t.chance(1, 6) ? !pad && k != B58 && k > B16LE : pad);
  size_t edits = t.weighted({3, 4, 1, 1});
  for (size_t e = 0; e < edits; e++) {
    size_t at = t.range(0, s.size());
    char c;
    switch (t.range(0, 3)) {
      case 0: c = kAlpha[k][t.range(0, al - 1)]; break;
      case 1: c = (char)t.range(0, 255); break;
      case 2: c = t.pick({'=', '+', '/', '-', '_', '0', 'O', 'I', 'l', '1', '8', '9', ' ', '\n', '\0', '@', '[', '`', '{', ':'}); break;
      default: c = at < s.size() ? s[at] ^ 0x20 : '='; break;
    }
    switch (t.range(0, 2)) {
      case 0: if (at < s.size()) s[at] = c; else s += c; break;
      case 1: s.insert(s.begin() + at, c); break;
      case 2: if (at < s.size()) s.erase(at, 1); break;
    }
  }
  check_decode(t, k, s, pad);
  if (!s.empty()) t.nontrivial();
}

// ------------------------------------------------------------------ C12

static uint32_t gen_const(T &t) { return t.weighted({2, 2, 1}) == 2 ? (uint32_t)t.bits(30) : t.flip() ? 0x2bc830a3u : 1u; }
static Bytes gen_syms(T &t, size_t n) { Bytes b = t.bytes(n); for (auto &x : b) x &= 31; return b; }

static void judge_bech32(T &t, const std::string &s, uint32_t con, bool known_bad = false) {
  std::string hrp;
  Bytes data;
  bool ok = ref::bech32_parse(s, con, hrp, data);
  Buf in(Z(s)), h(BECH32_MAX_HRP_SIZE + 1), d(BECH32_MAX_DESERIALIZE_SIZE);
  size_t len = 0;
  if (t.recording()) t.note("string \"%s\" constant %#x\n", s.c_str(), con);
  if (known_bad) EXPECT(t, !ok, "reference accepts a corrupted string"); // coding theory: distance 5
  int r = bech32_deserialize((char *)h.p, d, &len, (const char *)in.p, con);
  EXPECT(t, h.intact() && d.intact(), "bech32_deserialize wrote outside its outputs");
  EXPECT(t, r == (int)ok, "bech32_deserialize(\"%s\") = %d, want %d", s.c_str(), r, (int)ok);
  EXPECT(t, bech32_is((const char *)in.p, con) == (int)ok, "bech32_is disagrees");
  if (ok) {
    EXPECT(t, hrp == (char *)h.p, "hrp %s, want %s", (char *)h.p, hrp.c_str());
    expect_eq(t, d.get(len), data, "bech32 data");
    EXPECT(t, len == data.size(), "bech32 data length %zu, want %zu", len, data.size());
  }
  // address form
  Bytes prog;
  bool aok = ok && data.size() >= 1 && data.size() <= 65 && ref::regroup(ref::sub(data, 1, data.size()), 5, 8, false, prog) && prog.size() >= 2 && prog.size() <= 40;
  unsigned ver = 99;
  Buf h2(BECH32_MAX_HRP_SIZE + 1), hash(BECH32_MAX_DECODE_SIZE);
  size_t hl = 0;
  r = bech32_decode((char *)h2.p, &ver, hash, &hl, (const char *)in.p, con);
  EXPECT(t, h2.intact() && hash.intact(), "bech32_decode wrote outside its outputs");
  EXPECT(t, r == (int)aok, "bech32_decode(\"%s\") = %d, want %d", s.c_str(), r, (int)aok);
  EXPECT(t, bech32_test((const char *)in.p, con) == (int)aok, "bech32_test disagrees");
  if (aok) {
    EXPECT(t, ver == data[0], "version %u, want %u", ver, data[0]);
    EXPECT(t, hl == prog.size(), "program length %zu, want %zu", hl, prog.size());
    expect_eq(t, hash.get(hl), prog, "bech32 program");
    EXPECT(t, hrp == (char *)h2.p, "hrp %s, want %s", (char *)h2.p, hrp.c_str());
  }
  t.label("bech32 %s", aok ? "address" : ok ? "string" : "invalid");
  if (s.size() >= 8) t.nontrivial();
}

static std::string gen_hrp(T &t) {
  if (t.chance(1, 3)) return t.pick({std::string("bc"), std::string("tb"), std::string("a"), std::string("1"), std::string("split1")});
  size_t n = t.chance(1, 6) ? t.range(1, 86) : t.range(1, 12);
  Bytes b = t.ascii(n, 33, 126);
  if (!t.chance(1, 10)) for (auto &c : b) if (c >= 'A' && c <= 'Z') c += 32;
  return S(b);
}

static std::string edit(T &t, std::string s, size_t edits) {
  for (size_t e = 0; e < edits; e++) {
    size_t at = s.empty() ? 0 : t.range(0, s.size() - 1);
    char c = t.flip() ? ref::kBech32Chars[t.range(0, 31)] : t.flip() ? (char)t.range(1, 255) : t.pick({'1', ':', 'b', 'i', 'o', 'A', '{', '@', '\x7f', ' ', '!', '0'});
    switch (t.range(0, 4)) {
      case 0: if (!s.empty()) s[at] = c; break;
      case 1: s.insert(s.begin() + at, c); break;
      case 2: if (!s.empty()) s.erase(at, 1); break;
      case 3: if (!s.empty() && ((s[at] >= 'a' && s[at] <= 'z') || (s[at] >= 'A' && s[at] <= 'Z'))) s[at] ^= 0x20; break;
      case 4: for (auto &x : s) if (x >= 'a' && x <= 'z') x -= 32; break;
    }
  }
  return s;
}

PBT_PROP(C12, bech32, 300000, 3000000) {
  uint32_t con = gen_const(t);
  std::string hrp = gen_hrp(t);
  bool upper = false, illegal = hrp.size() > 83;
  for (char c : hrp) upper |= c >= 'A' && c <= 'Z';
  if (t.chance(1, 12) && !hrp.empty()) { hrp[t.range(0, hrp.size() - 1)] = t.pick({' ', '\x7f', '\x80', '\x1f', '\n', '\xff'}); illegal = true; }
  if (t.chance(1, 60)) { hrp.clear(); illegal = true; }
  size_t kind = t.range(0, 3);
  std::string str;
  Buf hb(Z(hrp));
  if (kind == 0) {
    size_t room = hrp.size() <= 83 ? 83 - hrp.size() : 0;
    Bytes data = gen_syms(t, t.chance(1, 6) ? t.len_near({room, room + 1}, 90) : t.len(room));
    bool big = false;
    if (!data.empty() && t.chance(1, 10)) { size_t at = t.range(0, data.size() - 1); data[at] = (uint8_t)t.range(32, 255); big = true; }
    bool ok = !illegal && !upper && !big && hrp.size() + data.size() <= 83;
    Buf db(data), out(BECH32_MAX_SERIALIZE_SIZE + 1);
    if (t.recording()) { t.note("hrp \"%s\" constant %#x\n", hrp.c_str(), con); t.show("data", data); }
    int r = bech32_serialize((char *)out.p, (const char *)hb.p, db, data.size(), con);
    EXPECT(t, out.intact(), "bech32_serialize wrote outside its output");
    EXPECT(t, r == (int)ok, "bech32_serialize hrp %zu data %zu = %d, want %d", hrp.size(), data.size(), r, (int)ok);
    t.label("serialize %d", r);
    if (!ok) { t.nontrivial(); return; }
    str = hrp + "1" + ref::b32_chars(data) + ref::b32_chars(ref::bech32_checksum(hrp, data, con));
    EXPECT(t, str == (char *)out.p, "bech32_serialize: %s, want %s", (char *)out.p, str.c_str());
  } else {
    unsigned ver = (unsigned)t.pick({0u, 1u, 16u, 31u, 32u, 5u});
    Bytes prog = t.bytes(t.chance(1, 4) ? t.range(0, 44) : t.pick({20u, 32u, 2u, 40u, 3u, 1u}));
    bool ok = !illegal && !upper && ver <= 31 && prog.size() >= 2 && prog.size() <= 40;
    Bytes data{(uint8_t)ver}, g;
    ref::regroup(prog, 8, 5, true, g);
    data = ref::cat(data, g);
    ok = ok && hrp.size() + data.size() <= 83;
    Buf pb(prog), out(BECH32_MAX_ENCODE_SIZE + 1);
    if (t.recording()) { t.note("hrp \"%s\" version %u constant %#x\n", hrp.c_str(), ver, con); t.show("program", prog); }
    int r = bech32_encode((char *)out.p, (const char *)hb.p, ver, pb, prog.size(), con);
    EXPECT(t, out.intact(), "bech32_encode wrote outside its output");
    EXPECT(t, r == (int)ok, "bech32_encode version %u program %zu hrp %zu = %d, want %d", ver, prog.size(), hrp.size(), r, (int)ok);
    t.label("encode %d", r);
    if (!ok) { t.nontrivial(); return; }
    str = hrp + "1" + ref::b32_chars(data) + ref::b32_chars(ref::bech32_checksum(hrp, data, con));
    EXPECT(t, str == (char *)out.p, "bech32_encode: %s, want %s", (char *)out.p, str.c_str());
  }
  judge_bech32(t, str, con);
  // up to four substituted characters after the separator
  std::string bad = str;
  size_t first = str.rfind('1') + 1, k = t.range(1, 4);
  bool changed = false;
  for (size_t i = 0; i < k; i++) { size_t at = t.range(first, str.size() - 1); char c = ref::kBech32Chars[t.range(0, 31)]; bad[at] = c; }
  changed = bad != str;
  judge_bech32(t, bad, con, changed);
}

PBT_PROP(C12, bech32_strings, 300000, 3000000) {
  uint32_t con = gen_const(t);
  std::string s;
  std::string hrp = gen_hrp(t);
  Bytes data = gen_syms(t, t.len(60));
  if (t.chance(1, 4)) { // address with padding bits set or a spare group, otherwise valid
    Bytes prog = t.bytes(t.range(2, 40)), g;
    ref::regroup(prog, 8, 5, true, g);
    data = ref::cat(Bytes{(uint8_t)t.range(0, 31)}, g);
    if (t.flip()) data.back() |= (uint8_t)t.range(0, 31); else data.push_back((uint8_t)(t.chance(1, 3) ? t.range(0, 31) : 0));
  }
  s = hrp + "1" + ref::b32_chars(data);
  s += ref::b32_chars(ref::bech32_checksum(hrp, data, con));
  if (t.chance(1, 5)) for (auto &x : s) if (x >= 'a' && x <= 'z') x -= 32;
  s = edit(t, s, t.weighted({3, 3, 1, 1}));
  if (!hrp.empty() && t.chance(1, 50)) { // a code word with too few symbols after the separator
    for (int i = 0; i < 60; i++) {
      hrp.back() = (char)t.range('a', 'z');
      if (hrp.size() > 1) hrp[0] = (char)t.range('a', 'z');
      if (ref::bech32_short(hrp, con, 5, data)) { s = hrp + "1" + ref::b32_chars(data); t.label("short"); break; }
    }
  }
  if (t.chance(1, 30)) s = S(t.ascii(t.len(100), 33, 126));
  size_t z = s.find('\0');
  if (z != std::string::npos) s.resize(z);
  judge_bech32(t, s, con);
}

static void judge_cash32(T &t, const std::string &s, const std::string &fb, bool known_bad = false) {
  std::string prefix;
  Bytes data;
  bool ok = ref::cash32_parse(s, fb, prefix, data);
  if (known_bad) EXPECT(t, !ok, "reference accepts a corrupted string");
  Buf in(Z(s)), f(Z(fb)), p(CASH32_MAX_PREFIX_SIZE + 1), d(CASH32_MAX_DESERIALIZE_SIZE);
  size_t len = 0;
  if (t.recording()) t.note("string \"%s\" expected prefix \"%s\"\n", s.c_str(), fb.c_str());
  int r = cash32_deserialize((char *)p.p, d, &len, (const char *)in.p, (const char *)f.p);
  EXPECT(t, p.intact() && d.intact(), "cash32_deserialize wrote outside its outputs");
  EXPECT(t, r == (int)ok, "cash32_deserialize(\"%s\", \"%s\") = %d, want %d", s.c_str(), fb.c_str(), r, (int)ok);
  EXPECT(t, cash32_is((const char *)in.p, (const char *)f.p) == (int)ok, "cash32_is disagrees");
  if (ok) {
    EXPECT(t, prefix == (char *)p.p, "prefix %s, want %s", (char *)p.p, prefix.c_str());
    EXPECT(t, len == data.size(), "cash32 data length %zu, want %zu", len, data.size());
    expect_eq(t, d.get(len), data, "cash32 data");
  }
  Bytes body;
  bool aok = ok && prefix == fb && !data.empty() && data.size() <= 104 && ref::regroup(data, 5, 8, false, body) && !body.empty();
  if (aok) {
    static const size_t sizes[] = {20, 24, 28, 32, 40, 48, 56, 64};
    aok = body[0] < 128 && sizes[body[0] & 7] == body.size() - 1;
  }
  unsigned type = 99;
  Buf hash(CASH32_MAX_DECODE_SIZE);
  size_t hl = 0;
  r = cash32_decode(&type, hash, &hl, (const char *)in.p, (const char *)f.p);
  EXPECT(t, hash.intact(), "cash32_decode wrote outside its output");
  EXPECT(t, r == (int)aok, "cash32_decode(\"%s\", \"%s\") = %d, want %d", s.c_str(), fb.c_str(), r, (int)aok);
  EXPECT(t, cash32_test((const char *)in.p, (const char *)f.p) == (int)aok, "cash32_test disagrees");
  if (aok) {
    EXPECT(t, type == body[0] >> 3u, "type %u, want %u", type, body[0] >> 3);
    EXPECT(t, hl == body.size() - 1, "hash length %zu, want %zu", hl, body.size() - 1);
    expect_eq(t, hash.get(hl), ref::sub(body, 1, 64), "cash32 hash");
  }
  t.label("cash32 %s", aok ? "address" : ok ? "string" : "invalid");
  if (s.size() >= 8) t.nontrivial();
}

static std::string gen_prefix(T &t) {
  if (t.chance(1, 2)) return t.pick({std::string("bitcoincash"), std::string("bchtest"), std::string("a")});
  size_t n = t.chance(1, 6) ? t.range(78, 86) : t.range(1, 14);
  return S(t.ascii(n, 'a', 'z'));
}

PBT_PROP(C12, cash32, 300000, 3000000) {
  std::string prefix = gen_prefix(t);
  bool illegal = prefix.size() > 83;
  if (t.chance(1, 10)) { size_t at = t.range(0, prefix.size() - 1); prefix[at] = t.pick({'A', '1', '0', ':', '`', '{', '\x80', '-'}); illegal = true; }
  if (t.chance(1, 60)) { prefix.clear(); illegal = true; }
  Buf pb(Z(prefix));
  std::string str;
  if (t.flip()) {
    Bytes data = gen_syms(t, t.chance(1, 5) ? t.len_near({104, 105}, 112) : t.len(104));
    bool big = false;
    if (!data.empty() && t.chance(1, 10)) { size_t at = t.range(0, data.size() - 1); data[at] = (uint8_t)t.range(32, 255); big = true; }
    bool ok = !illegal && !big && data.size() <= 104;
    Buf db(data), out(CASH32_MAX_SERIALIZE_SIZE + 1);
    if (t.recording()) { t.note("prefix \"%s\"\n", prefix.c_str()); t.show("data", data); }
    int r = cash32_serialize((char *)out.p, (const char *)pb.p, db, data.size());
    EXPECT(t, out.intact(), "cash32_serialize wrote outside its output");
    EXPECT(t, r == (int)ok, "cash32_serialize prefix %zu data %zu = %d, want %d", prefix.size(), data.size(), r, (int)ok);
    t.label("serialize %d", r);
    if (!ok) { t.nontrivial(); return; }
    str = prefix + ":" + ref::b32_chars(data) + ref::b32_chars(ref::cash32_checksum(prefix, data));
    EXPECT(t, str == (char *)out.p, "cash32_serialize: %s, want %s", (char *)out.p, str.c_str());
  } else {
    unsigned type = t.chance(1, 10) ? (unsigned)t.pick({16u, 17u, 31u, 32u, 255u, 256u}) : (unsigned)t.range(0, 15);
    static const size_t sizes[] = {20, 24, 28, 32, 40, 48, 56, 64};
    size_t hl = t.chance(1, 5) ? t.range(0, 68) : sizes[t.range(0, 7)];
    Bytes hash = t.bytes(hl), g, body;
    int code = -1;
    for (int i = 0; i < 8; i++) if (sizes[i] == hl) code = i;
    bool ok = !illegal && type <= 15 && code >= 0;
    Buf hb(hash), out(CASH32_MAX_ENCODE_SIZE + 1);
    if (t.recording()) { t.note("prefix \"%s\" type %u\n", prefix.c_str(), type); t.show("hash", hash); }
    int r = cash32_encode((char *)out.p, (const char *)pb.p, type, hb, hl);
    EXPECT(t, out.intact(), "cash32_encode wrote outside its output");
    EXPECT(t, r == (int)ok, "cash32_encode type %u hash %zu prefix %zu = %d, want %d", type, hl, prefix.size(), r, (int)ok);
    t.label("encode %d", r);
    if (!ok) { t.nontrivial(); return; }
    ref::regroup(ref::cat(Bytes{(uint8_t)(type << 3 | code)}, hash), 8, 5, true, g);
    str = prefix + ":" + ref::b32_chars(g) + ref::b32_chars(ref::cash32_checksum(prefix, g));
    EXPECT(t, str == (char *)out.p, "cash32_encode: %s, want %s", (char *)out.p, str.c_str());
  }
  judge_cash32(t, str, prefix);
  judge_cash32(t, str.substr(prefix.size() + 1), prefix);
  std::string bad = str;
  size_t k = t.range(1, 4);
  for (size_t i = 0; i < k; i++) { size_t at = t.range(prefix.size() + 1, str.size() - 1); char c = ref::kBech32Chars[t.range(0, 31)]; bad[at] = c; }
  judge_cash32(t, bad, prefix, bad != str);
}

PBT_PROP(C12, cash32_strings, 300000, 3000000) {
  std::string prefix = gen_prefix(t), fb = t.chance(1, 3) ? gen_prefix(t) : prefix, s;
  Bytes data = gen_syms(t, t.chance(1, 5) ? t.len_near({104, 105}, 110) : t.len(104));
  if (t.chance(1, 2)) {
    static const size_t sizes[] = {20, 24, 28, 32, 40, 48, 56, 64};
    int code = (int)t.range(0, 7);
    Bytes hash = t.bytes(sizes[code]), g;
    ref::regroup(ref::cat(Bytes{(uint8_t)((t.chance(1, 4) ? t.range(0, 31) : t.range(0, 15)) << 3 | (t.chance(1, 6) ? t.range(0, 7) : code))}, hash), 8, 5, true, data);
    if (t.chance(1, 4)) { if (t.flip()) data.back() |= (uint8_t)t.range(0, 31); else data.push_back((uint8_t)(t.flip() ? 0 : t.range(0, 31))); }
  }
  s = ref::b32_chars(data) + ref::b32_chars(ref::cash32_checksum(prefix, data));
  if (t.chance(2, 3)) s = prefix + ":" + s;
  if (t.chance(1, 5)) for (auto &x : s) if (x >= 'a' && x <= 'z') x -= 32;
  if (t.chance(1, 15)) fb = edit(t, fb, 1);
  s = edit(t, s, t.weighted({3, 3, 1, 1}));
  if (!prefix.empty() && t.chance(1, 50)) { // a code word with too few symbols
    for (int i = 0; i < 60; i++) {
      prefix.back() = (char)t.range('a', 'z');
      prefix[0] = (char)t.range('a', 'z');
      if (ref::cash32_short(prefix, 7, data)) { s = prefix + ":" + ref::b32_chars(data); fb = prefix; t.label("short"); break; }
    }
  } else if (t.chance(1, 50)) { // fits only if an overlong expected prefix is cut
    prefix = S(t.ascii(83, 'a', 'z'));
    s = ref::b32_chars(data) + ref::b32_chars(ref::cash32_checksum(prefix, data));
    fb = prefix + S(t.ascii(t.range(0, 3), 'a', 'z'));
    t.label("prefix of %zu", fb.size());
  }
  size_t z = s.find('\0');
  if (z != std::string::npos) s.resize(z);
  z = fb.find('\0');
  if (z != std::string::npos) fb.resize(z);
  judge_cash32(t, s, fb);
}

PBT_PROP(C12, regroup, 300000, 3000000) {
  bool cash = t.flip(), pad = t.flip();
  int from = (int)t.range(1, 8), to = (int)t.range(1, 8);
  if (t.flip()) { from = t.flip() ? 5 : 8; to = 13 - from; }
  Bytes in = t.bytes(t.len(40));
  for (auto &x : in) x &= (uint8_t)((1 << from) - 1);
  if (!pad && !in.empty() && t.chance(1, 2)) { // regrouped image, so that the spare bits are mostly zero
    Bytes g;
    ref::regroup(in, from, to, true, g);
    std::swap(from, to);
    in = g;
  }
  Bytes want;
  bool ok = ref::regroup(in, from, to, pad, want);
  size_t cap = BECH32_CONVERT_SIZE(in.size(), (size_t)from, (size_t)to, (size_t)pad);
  Buf ib(in), out(cap);
  size_t len = 0;
  if (t.recording()) { t.show("groups", in); t.note("%d to %d bits pad %d\n", from, to, (int)pad); }
  int r = cash ? cash32_convert_bits(out, &len, to, ib, in.size(), from, pad) : bech32_convert_bits(out, &len, to, ib, in.size(), from, pad);
  EXPECT(t, out.intact(), "regrouping wrote outside the documented size");
  EXPECT(t, r == (int)ok, "regrouping %zu groups %d->%d pad %d = %d, want %d", in.size(), from, to, (int)pad, r, (int)ok);
  if (ok) {
    EXPECT(t, len == want.size(), "regrouped length %zu, want %zu", len, want.size());
    expect_eq(t, out.get(len), want, "regrouping %d->%d pad %d", from, to, (int)pad);
  }
  t.label("%s", ok ? "regrouped" : "refused");
  if (!in.empty()) t.nontrivial();
}
