From f43e09edf5bfe194150c9e33d2eb528a0b2f7a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:33 +0000
Subject: [PATCH 01/17] fix: squeeze further Keccak blocks for outputs longer
 than the rate

keccak_final() copied the raw state for output lengths above the rate, so
SHAKE outputs longer than one block (and low-rate Keccak digests) exposed
capacity bytes instead of the next squeezed block.
---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index cbe0695..200026b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -1106,6 +1106,16 @@ keccak_final(keccak_t *ctx, unsigned char *out, unsigned int pad, size_t len) {
 
   keccak_transform(ctx, ctx->block);
 
+  while (len > ctx->bs) {
+    for (i = 0; i < ctx->bs >> 3; i++)
+      write64le(out + i * 8, ctx->state[i]);
+
+    out += ctx->bs;
+    len -= ctx->bs;
+
+    keccak_compress(ctx);
+  }
+
   count = len >> 3;
 
   for (i = 0; i < count; i++)
-- 
2.43.0


From 99f3f71fc6e178a4498fcca44d890873d2e40b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:06 +0000
Subject: [PATCH 02/17] fix: expand ARC2 keys correctly for effective sizes of
 1017 to 1023 bits

---
 src/cipher.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cipher.c b/src/cipher.c
index 659f392..2acad73 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -1099,7 +1099,8 @@ arc2_init(arc2_t *ctx,
   for (i = key_len; i < 128; i++)
     L[i] = PI[(L[i - key_len] + L[i - 1]) & 0xff];
 
-  L[0] = PI[L[0]];
+  if (ekb == 0 || ekb == 1024)
+    L[0] = PI[L[0]];
 
   if (ekb > 0 && ekb < 1024) {
     len = (ekb + 7) >> 3;
-- 
2.43.0


From 51ed43cedf8d052594104ab9196618b82a968aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:15 +0000
Subject: [PATCH 03/17] fix: encode the CCM length field in all bytes a short
 nonce leaves

---
 src/cipher.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 2acad73..df20fbd 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -6875,9 +6875,8 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   size_t Adata = (aad_len > 0);
   size_t lm = msg_len;
   size_t L = ccm_log256(lm);
-  size_t N = 15 - L;
   size_t M = tag_len;
-  size_t i;
+  size_t N, i;
 
   /* Sanity checks (should already be initialized). */
   if (cipher->size != 16)
@@ -6886,6 +6885,12 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   if (iv_len < 7 || iv_len > 13)
     return 0;
 
+  /* The length field takes whatever the nonce leaves (RFC 3610, section 2). */
+  if (L < 15 - iv_len)
+    L = 15 - iv_len;
+
+  N = 15 - L;
+
   if (N < 7 || N > 13)
     return 0;
 
-- 
2.43.0


From 34bfb4dcef12d1a2569111514b06bfe3930505a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:00 +0000
Subject: [PATCH 04/17] fix: keep bcrypt 2a from ignoring passwords of 255
 bytes

---
 src/kdf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kdf.c b/src/kdf.c
index d9ac09b..0619c75 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -380,6 +380,9 @@ bcrypt_derive(unsigned char *out,
   switch (minor) {
     case 'a':
       key_len = (pass_len + 1) & 0xff;
+      /* The original cycles on the first byte here. */
+      if (key_len == 0)
+        key_len = 1;
       break;
     case 'b':
       key_len = pass_len;
-- 
2.43.0


From fa79c22b7fc5360cb45270433bf7b222d06c0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:00 +0000
Subject: [PATCH 05/17] fix: refuse iterated PGP derivation with nothing to
 repeat

---
 src/kdf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdf.c b/src/kdf.c
index 0619c75..ce5662c 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -894,7 +894,7 @@ pgpdf_derive_iterated(unsigned char *out,
 
   total = salt_len + pass_len;
 
-  if (total < salt_len)
+  if (total == 0 || total < salt_len)
     return 0;
 
   if (count < total)
-- 
2.43.0


From 2eaedec1a89051794430400e00686d5ee8d1ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:00 +0000
Subject: [PATCH 06/17] fix: refuse scrypt costs outside the range of RFC 7914

---
 src/kdf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kdf.c b/src/kdf.c
index ce5662c..3df2438 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -980,7 +980,11 @@ scrypt_derive(unsigned char *out,
   int ret = 0;
   size_t i;
 
-  if (N == 0 || R == 0 || P == 0)
+  if (N < 2 || R == 0 || P == 0)
+    return 0;
+
+  /* N < 2^(128 * r / 8) (RFC 7914, section 6). */
+  if (R < 4 && N >= (UINT64_C(1) << (16 * R)))
     return 0;
 
 #if SIZE_MAX > UINT32_MAX
-- 
2.43.0


From 85f32fec1323fee243790dc59b22deb1b39eaad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:35 +0000
Subject: [PATCH 07/17] fix: mpi: set and clear bits of negative multiples of
 2^pos

The two's complement form of a negative number whose low bits are zero
has the same bit at that position as the magnitude, so changing it needs
a carry. mpz_setbit(-4, 0) gave -5 and mpz_clrbit(-4, 2) gave 0.
---
 src/mpi.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4c1a0d1..7923b3c 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7248,18 +7248,34 @@ mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
 
 void
 mpz_setbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_clrbit_abs(z, pos);
-  else
+  mpz_t t;
+
+  if (z->size < 0) {
+    if (!mpz_tstbit(z, pos)) {
+      mpz_init(t);
+      mpz_setbit_abs(t, pos);
+      mpz_add(z, z, t);
+      mpz_clear(t);
+    }
+  } else {
     mpz_setbit_abs(z, pos);
+  }
 }
 
 void
 mpz_clrbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_setbit_abs(z, pos);
-  else
+  mpz_t t;
+
+  if (z->size < 0) {
+    if (mpz_tstbit(z, pos)) {
+      mpz_init(t);
+      mpz_setbit_abs(t, pos);
+      mpz_sub(z, z, t);
+      mpz_clear(t);
+    }
+  } else {
     mpz_clrbit_abs(z, pos);
+  }
 }
 
 void
-- 
2.43.0


From ab1ba1350978bd0cf4d78030d4214f9502c0ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:44 +0000
Subject: [PATCH 08/17] fix: mpi: read the operand sign before writing gcdext
 outputs

With one operand zero, an output that aliases the other operand was
written before the sign of that operand was read, so the cofactor had
the wrong sign or was zero.
---
 src/mpi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 7923b3c..f4092fa 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7500,8 +7500,11 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
    */
   mpz_t u, v, A, B, C, D, up, vp;
   mp_bits_t uz, vz, shift;
+  int sign;
 
   if (x->size == 0) {
+    sign = mpz_sgn(y);
+
     if (g != NULL)
       mpz_abs(g, y);
 
@@ -7509,17 +7512,19 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
       s->size = 0;
 
     if (t != NULL)
-      mpz_set_si(t, mpz_sgn(y));
+      mpz_set_si(t, sign);
 
     return;
   }
 
   if (y->size == 0) {
+    sign = mpz_sgn(x);
+
     if (g != NULL)
       mpz_abs(g, x);
 
     if (s != NULL)
-      mpz_set_si(s, mpz_sgn(x));
+      mpz_set_si(s, sign);
 
     if (t != NULL)
       t->size = 0;
-- 
2.43.0


From 545c7e0c77e9cb0cbf6383278ad3e9369f76e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:14 +0000
Subject: [PATCH 09/17] fix: mpi: allow the result of powm_sec to replace the
 modulus

The final range assertion of verification builds compared the modulus
with itself when the output aliased it, and aborted.
---
 src/mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index f4092fa..522e0c3 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -3708,7 +3708,7 @@ mpn_sec_montmul(mp_limb_t *zp, const mp_limb_t *xp,
   mpn_reduce_weak(zp, tp + n, mp, n, c, tp);
 
 #ifdef TORSION_VERIFY
-  ASSERT(mpn_cmp(zp, mp, n) < 0);
+  ASSERT(zp == mp || mpn_cmp(zp, mp, n) < 0);
 #endif
 }
 
-- 
2.43.0


From 1631eb42c3f8484979c3045d7bd875151477888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:47 +0000
Subject: [PATCH 10/17] fix: use every bit of unreduced scalars in edwards_mul

eddsa_pubkey_tweak_mul multiplies by the raw tweak.  The window loop only
covered the bits of the field prime, so on Ed1174 (a 251 bit field with 32 byte
scalars) the top four bits of the tweak were dropped.
---
 src/ecc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index 9a869c6..443c6a9 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7406,9 +7406,8 @@ edwards_mul(const edwards_t *ec, xge_t *r, const xge_t *p, const sc_t k) {
    * [ECPM] "Windowed method".
    * [GECC] Page 95, Section 3.3.
    */
-  const prime_field_t *fe = &ec->fe;
   const scalar_field_t *sc = &ec->sc;
-  mp_bits_t steps = WND_STEPS(fe->bits);
+  mp_bits_t steps = WND_STEPS(sc->size * 8);
   xge_t wnd[WND_SIZE]; /* 4608 bytes */
   mp_bits_t i, j, b;
   xge_t t;
-- 
2.43.0


From c442bf45bc1c57bc6387cbfe0956e43ae9d4402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:57 +0000
Subject: [PATCH 11/17] fix: initialize the tweak in ristretto_pubkey_grind

The counter was added to an uninitialized scalar, so both
ristretto_pubkey_grind and ristretto_privkey_grind returned garbage.
---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 443c6a9..b9fd731 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14618,6 +14618,8 @@ ristretto_pubkey_grind(const edwards_t *ec,
   if (!rge_import(ec, &A, pub))
     return 0;
 
+  sc_zero(sc, t);
+
   do {
     xge_mixed_add(ec, &A, &A, &ec->g);
 
-- 
2.43.0


From a79b927c39cee6625f316ce3b4659f7a2804f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:06 +0000
Subject: [PATCH 12/17] fix: drop the padding from the Ristretto constants for
 Ed448

The constants are read as 56 big-endian bytes, but each was stored with eight
leading zero bytes.  All five were thus truncated to their upper 48 bytes, so
the Elligator map and its inverse computed with wrong values.
---
 src/ecc.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index b9fd731..c2ace98 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -9626,7 +9626,6 @@ static const ristretto_def_t ristretto_ed25519 = {
 
 static const ristretto_def_t ristretto_ed448 = {
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
@@ -9636,7 +9635,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdd, 0x26, 0x9d, 0x04, 0x14, 0xdb, 0x08, 0x97,
     0xc4, 0x09, 0x72, 0x8d, 0xd0, 0x5d, 0x95, 0x5f,
     0x5e, 0x0e, 0x58, 0x47, 0x5a, 0x47, 0x2a, 0xb4,
@@ -9646,7 +9644,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x69, 0xbd, 0x10, 0xf0, 0xba, 0xa8, 0xd8, 0xc9
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x12, 0xfe, 0xc0, 0xc0, 0xb2, 0x5b, 0x7a, 0x49,
     0x44, 0x3b, 0x87, 0x48, 0x73, 0x4a, 0xdc, 0xac,
     0x46, 0x28, 0xc5, 0xf6, 0x56, 0xa4, 0x9f, 0x7b,
@@ -9656,7 +9653,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x79, 0xd2, 0xe2, 0x18, 0x36, 0x74, 0x9f, 0x46
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdf, 0x64, 0x97, 0xe8, 0x36, 0xd1, 0x56, 0x79,
     0x5a, 0x71, 0x30, 0xf4, 0x3e, 0x77, 0x86, 0x9a,
     0x11, 0x73, 0xae, 0x0c, 0x1e, 0x2c, 0x4c, 0x2b,
@@ -9666,7 +9662,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x5a, 0x06, 0x38, 0xbe, 0xa7, 0x8f, 0x0f, 0xeb
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x18, 0xa4, 0xc3, 0x28, 0x4c, 0xb8, 0xad, 0x25,
     0xad, 0xee, 0xea, 0x76, 0x1f, 0x20, 0xf6, 0x83,
     0xbf, 0x3a, 0x1e, 0x14, 0xa5, 0xcf, 0x79, 0x00,
-- 
2.43.0


From 62c3746d32c69b040db1190cf1925c726697fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:46 +0000
Subject: [PATCH 13/17] fix: reject the false preimage of x = -b / a in the
 SSWU inverse

On curves with a point at x = -b / a (P-192 and P-384), the third and fourth
preimages evaluate to zero there.  Zero maps to b / (z * a) instead, so the
bytes did not map back to the same point.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index c2ace98..871f446 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -4942,6 +4942,9 @@ wei_sswui(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   ret &= fe_isqrt(fe, u, n0, d0);
 
+  /* The numerator vanishes at x = -b / a, which is not the image of zero. */
+  ret &= fe_is_zero(fe, u) ^ 1;
+
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
   ret &= p->inf ^ 1;
-- 
2.43.0


From 22c7baeb8d7a7c7e84c69e0481c704379251db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:46 +0000
Subject: [PATCH 14/17] fix: reject the zero preimage of odd points in the SVDW
 inverse

Zero is the first preimage of x = (c - z) / 2, but only of the point with an
even y coordinate.  The inverse returned it for the negated point as well.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 871f446..ed8f7e5 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -5169,6 +5169,9 @@ wei_svdwi(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
+  /* Zero has no negation. */
+  ret &= fe_is_odd(fe, u) == fe_is_odd(fe, p->y);
+
   ret &= p->inf ^ 1;
 
   return ret;
-- 
2.43.0


From b4ec1fc7c0875e793e2251b9a40cf24357259985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:46 +0000
Subject: [PATCH 15/17] fix: reject false zero preimages in the Edwards
 Elligator 2 inverse

On Ed1174, where g(-A) is square, zero maps to (-A, y) with y even.  The
inverse also returned zero for (-A, -y) and for the point of order two.
---
 src/ecc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index ed8f7e5..00e8696 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7761,6 +7761,15 @@ edwards_invert2(const edwards_t *ec, fe_t u,
 
   fe_set_odd(fe, u, u, fe_is_odd(fe, y0));
 
+  /* Zero maps to x = -A if g(-A) is square, to x = 0
+     otherwise, and in either case to an even y. */
+  fe_neg(fe, n, ec->A0);
+  edwards_solve_y0(ec, d, n);
+  fe_select(fe, n, fe->zero, n, fe_is_square(fe, d));
+
+  ret &= (fe_is_zero(fe, u) ^ 1) | fe_equal(fe, x0, n);
+  ret &= fe_is_odd(fe, u) == fe_is_odd(fe, y0);
+
   ret &= m.inf ^ 1;
 
   return ret;
-- 
2.43.0


From b863727c6a7099c0dddab2eb3547f971a1f35848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:46 +0000
Subject: [PATCH 16/17] fix: prefer the second root for r = 0 in the Ristretto
 Elligator

As described above the function, the second root is to be used if r = 0.  It
was not on Ed1174, where both are square, so zero did not map to the identity
although it is given as its preimage by the inverse.
---
 src/ecc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecc.c b/src/ecc.c
index 00e8696..d67af2e 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7981,6 +7981,7 @@ ristretto_elligator(const edwards_t *ec, rge_t *p0, const fe_t r0) {
 
   /* S = sqrt(NS / D) */
   sqr = fe_rsqrt(fe, s, ns, d);
+  sqr &= fe_is_zero(fe, r) ^ 1;
 
   /* S' = S * R0 */
   fe_mul(fe, sp, s, r0);
-- 
2.43.0


From a2c53ddf91a1a243cfb3becfba8cc73b6d950cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:48 +0000
Subject: [PATCH 17/17] fix: square the last time when factoring an RSA modulus
 from its exponents

rsa_priv_set_ned() stopped one squaring short, so a key given as (n, e, d)
could not be rebuilt when both primes are 3 mod 4 and (e * d - 1) has a
single factor of two.
---
 src/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa.c b/src/rsa.c
index 0d1ff8d..bbd075d 100644
--- a/src/rsa.c
+++ b/src/rsa.c
@@ -865,7 +865,7 @@ rsa_priv_set_ned(rsa_priv_t *out,
     if (mpz_cmp_ui(b, 1) == 0 || mpz_cmp(b, nm1) == 0)
       continue;
 
-    for (j = 1; j < s; j++) {
+    for (j = 0; j < s; j++) {
       /* c = b^2 mod n */
       mpz_sqr(c, b);
       mpz_mod(c, c, n);
-- 
2.43.0

