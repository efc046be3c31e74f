From 6f64d1ab72b61e988751a285203eefd1b6d52f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 01/67] fix: halving into an element that held zero lost the
 result

montfp/fasterfp fp_halve() did not set the nonzero flag of the destination
when the operand was odd, so an element that previously held 0 stayed 0.
---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..452dc65 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -237,6 +237,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..307cf0a 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -287,6 +287,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
-- 
2.43.0


From 098cceb896a641d7e24cc5c32635382493636966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 02/67] fix: comparing a nonzero element with zero read stale
 limbs

montfp/fasterfp fp_cmp() ignored the zero flag of its second operand, so
a nonzero element could compare equal to a zero that used to hold it.
---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 452dc65..ae5da28 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -421,6 +421,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return 1;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index 307cf0a..8279ae2 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -451,6 +451,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return 1;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From d464b40cee27fbba8b1a7103f9795d78ec31215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 03/67] fix: fasterfp: a nonzero multiple of the modulus is
 zero

fp_set_mpz() left the nonzero flag set with all limbs zero.
---
 arith/fasterfp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ae5da28..28a1765 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -69,9 +69,12 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_t tmp;
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
-    from_mpz(e, tmp);
+    if (!mpz_sgn(tmp)) dp->flag = 0;
+    else {
+      from_mpz(e, tmp);
+      dp->flag = 2;
+    }
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
-- 
2.43.0


From 62918c5f18a8352592b89259bdd0155969b58e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 04/67] fix: 0 to the power 0 is 1 in every Fp implementation

montfp and fasterfp answered 0 while naivefp, fastfp and the generic
exponentiation answer 1.
---
 arith/fasterfp.c | 3 ++-
 arith/montfp.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 28a1765..3c43b78 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -373,7 +373,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
diff --git a/arith/montfp.c b/arith/montfp.c
index 8279ae2..305e0a9 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -382,7 +382,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
-- 
2.43.0


From 969b7bd30d93742feb1be1afadaaf3dd4f28434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:53 +0000
Subject: [PATCH 05/67] fix: zero divisors of a composite modulus multiply to
 zero

Type A1 pairings use Z/nZ with n composite as their Zr.  montfp/fasterfp
mul, square, mul_si and pow_mpz left the nonzero flag set on a zero
result; is0 and cmp then misjudged it and montfp to_mpz read out of bounds.
---
 arith/fasterfp.c | 15 ++++++++++++---
 arith/montfp.c   | 11 +++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 3c43b78..f3cdf1b 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -283,6 +283,13 @@ static void fp_sub(element_ptr c, element_ptr a, element_ptr b) {
   }
 }
 
+// Nonzero elements can multiply to zero when the modulus is composite.
+static inline int limbs_flag(const mp_limb_t *d, size_t t) {
+  size_t i;
+  for (i = 0; i < t; i++) if (d[i]) return 2;
+  return 0;
+}
+
 static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   dataptr cd = c->data;
@@ -303,7 +310,7 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    cd->flag = limbs_flag(cd->d, t);
 
     pbc_free(buf);
   }
@@ -332,6 +339,7 @@ static void fp_square(element_ptr c, element_ptr a) {
 
     diff = p->limbs - z1->_mp_size;
     if (diff) memset(&z1->_mp_d[z1->_mp_size], 0, diff * sizeof(mp_limb_t));
+    cd->flag = limbs_flag(cd->d, p->limbs);
 
     //mpn_sqr_n() might make the code below faster than the code above
     //but GMP doesn't expose this function
@@ -364,7 +372,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
-    if (op < 0) {               //TODO: don't need to check c != 0 this time
+    cd->flag = limbs_flag(cd->d, t);
+    if (op < 0) {
       fp_neg(c, c);
     }
   }
@@ -382,7 +391,7 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_powm(z, z, op, a->field->order);
     from_mpz(c, z);
     mpz_clear(z);
-    cd->flag = 2;
+    cd->flag = limbs_flag(cd->d, ((fp_field_data_ptr) c->field->data)->limbs);
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index 305e0a9..80b4121 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -364,6 +364,13 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   pbc_free(z);
 }
 
+// Nonzero elements can multiply to zero when the modulus is composite.
+static inline int limbs_flag(const mp_limb_t *d, size_t t) {
+  size_t i;
+  for (i = 0; i < t; i++) if (d[i]) return 2;
+  return 0;
+}
+
 static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   eptr cd = c->data;
@@ -373,7 +380,7 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    cd->flag = limbs_flag(cd->d, p->limbs);
   }
 }
 
@@ -393,7 +400,7 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_mod(z, z, a->field->order);
     set_limbs(cd->d, z, p->limbs);
     mpz_clear(z);
-    cd->flag = 2;
+    cd->flag = limbs_flag(cd->d, p->limbs);
   }
 }
 
-- 
2.43.0


From df5d2b8180d8ea212e6d67421642577bf7b665b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:54 +0000
Subject: [PATCH 06/67] fix: reduce integers read from bytes or a hash modulo
 the order

naivefp and fasterfp from_bytes() and naivefp from_hash() could leave an
unreduced value, and montfp from_bytes() of the order itself a zero that
is not flagged as zero.
---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 2 +-
 arith/naivefp.c  | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index f3cdf1b..ca21ec2 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -502,6 +502,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, a->field->order);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
     ad->flag = 2;
diff --git a/arith/montfp.c b/arith/montfp.c
index 80b4121..14c4ead 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -517,10 +517,10 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
   mpz_import(z, n, 1, 1, 1, 0, data);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
-    ad->flag = 2;
     mpz_mul_2exp(z, z, p->bytes * 8);
     mpz_mod(z, z, a->field->order);
     set_limbs(ad->d, z, p->limbs);
+    ad->flag = limbs_flag(ad->d, p->limbs);
   }
   mpz_clear(z);
   return n;
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..1ad573f 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -177,6 +177,7 @@ static void zp_random(element_ptr n) {
 
 static void zp_from_hash(element_ptr n, const void *data, int len) {
   pbc_mpz_from_hash(n->data, n->field->order, data, len);
+  mpz_mod(n->data, n->data, n->field->order);
 }
 
 static int zp_is1(element_ptr n) {
@@ -215,6 +216,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From a3c7d3bb0f9049a68cc5466667366ace76f3932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:58 +0000
Subject: [PATCH 07/67] fix: montfp: carry lost in multiplication modulo primes
 near 2^(64n)

In mont_mul() the first of the two additions to z[t + i] can overflow too
(z[t + i] is 1 and the carry out of mpn_addmul_1() is all ones), e.g.
(p - 1) * 1/(p - 1) modulo p = 2^128 - 159 came out as 0.
---
 arith/montfp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index 14c4ead..203e284 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -343,10 +343,15 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t] += mpn_addmul_1(z, p->primelimbs, t, u);
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
+    // Either of the two additions to z[t + i] may overflow.
+    mp_limb_t carry;
     u = (z[i] + a[i] * b[0]) * p->negpinv;
-    v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
-    z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
-    z[t + i + 1] = z[t + i] < v;
+    v = mpn_addmul_1(z + i, b, t, a[i]);
+    z[t + i] += v;
+    carry = z[t + i] < v;
+    v = mpn_addmul_1(z + i, p->primelimbs, t, u);
+    z[t + i] += v;
+    z[t + i + 1] = carry + (z[t + i] < v);
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From 045fc83b94b0946a510e94bb8cb60bb5dcb31acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:28 +0000
Subject: [PATCH 08/67] fix: element_mul_si in groups returned its operand
 unscaled

---
 arith/field.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..f31d9ea 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -392,11 +392,13 @@ static void generic_mul_mpz(element_ptr r, element_ptr a, mpz_ptr z) {
 }
 
 static void generic_mul_si(element_ptr r, element_ptr a, signed long int n) {
-  element_t e0;
-  element_init(e0, r->field);
-  element_set_si(e0, n);
-  element_mul(r, a, e0);
-  element_clear(e0);
+  mpz_t z;
+  mpz_init(z);
+  mpz_set_si(z, n);
+  mpz_abs(z, z);
+  element_mul_mpz(r, a, z);
+  if (n < 0) element_neg(r, r);
+  mpz_clear(z);
 }
 
 static void generic_double(element_ptr r, element_ptr a) {
-- 
2.43.0


From dcf41dd2cd9ccba7cb81c6d95b9c964b5c1c6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:34 +0000
Subject: [PATCH 09/67] fix: fastfp and fasterfp elements could be neither
 snprinted nor parsed

---
 arith/fasterfp.c | 22 ++++++++++++++++++++++
 arith/fastfp.c   | 22 ++++++++++++++++++++++
 arith/field.c    |  2 +-
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ca21ec2..9fc3565 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -145,6 +145,26 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  mpz_mod(z, z, e->field->order);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -531,6 +551,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..9658ae1 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,26 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  mpz_mod(z, z, e->field->order);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +372,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/field.c b/arith/field.c
index f31d9ea..6926b89 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -545,7 +545,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
-- 
2.43.0


From 03da3a38d13250e8d06773f687c5358464b1ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:03 +0000
Subject: [PATCH 10/67] fix: precomputed powers reduced the exponent by the
 field order

---
 arith/field.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 6926b89..68cee9d 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -306,8 +306,12 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+  // The table covers exponents up to the field order. That order is not a
+  // multiple of the multiplicative order in general, so cannot reduce by it.
+  if (mpz_sizeinbase(n, 2) > (size_t)base_table->bits) {
+    mpz_clear(n);
+    element_pow_mpz(x, base_table->table[0][1], power);
+    return;
   }
 
   element_init(result, x->field);
-- 
2.43.0


From 85e37e9004c132f2e9252910e622caa85b59faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:38 +0000
Subject: [PATCH 11/67] fix: the point at infinity was serialised as stale
 coordinates

---
 ecc/curve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..ddde580 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -603,6 +603,19 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // The coordinates of O mean nothing. Write a pair that is not on the curve,
+    // which curve_from_bytes() reads as O.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    element_set0(t);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From c5c716fc81618ffd8d8147c7310d601e99132ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:09 +0000
Subject: [PATCH 12/67] fix: reading a compressed point that does not exist
 left the curve

---
 ecc/curve.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index ddde580..aa6ff67 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -786,8 +786,7 @@ int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
 }
 
 // Computes a point on the elliptic curve Y^2 = X^3 + a X + b given its
-// x-coordinate.
-// Requires a solution to exist.
+// x-coordinate, or O if there is no such point.
 static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_t t;
 
@@ -797,8 +796,12 @@ static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_add(t, t, a);
   element_mul(t, t, x);
   element_add(t, t, b);
-  element_sqrt(p->y, t);
-  element_set(p->x, x);
+  if (element_is_sqr(t)) {
+    element_sqrt(p->y, t);
+    element_set(p->x, x);
+  } else {
+    p->inf_flag = 1;
+  }
 
   element_clear(t);
 }
-- 
2.43.0


From 1ae06398ca732e75117b2c1918b85b743185eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:15 +0000
Subject: [PATCH 13/67] fix: parsing a malformed point left an invalid point
 behind

---
 ecc/curve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index aa6ff67..19968c6 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -560,7 +560,6 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
   cp += element_set_str(p->x, cp, base);
@@ -568,8 +567,10 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp != ',') return 0;
   cp++;
   cp += element_set_str(p->y, cp, base);
+  while (*cp && isspace(*cp)) cp++;
   if (*cp != ']') return 0;
 
+  p->inf_flag = 0;
   if (!curve_is_valid_point(e)) {
     element_set0(e);
     return 0;
-- 
2.43.0


From 581cb1bcedf3a25265d6f1906d537a88eeab9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 14/67] fix: batch point addition and doubling broke on O and
 equal points

---
 ecc/curve.c | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 19968c6..12b3637 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -206,6 +206,10 @@ static void curve_mul(element_ptr c, element_ptr a, element_ptr b) {
   }
 }
 
+static inline int double_is_inf(point_ptr p) {
+  return p->inf_flag || element_is0(p->y);
+}
+
 //compute c_i=a_i+a_i at one time.
 static void multi_double(element_ptr c[], element_ptr a[], int n) {
   int i;
@@ -219,29 +223,20 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   element_init(e1,q->y->field);
   element_init(e2,q->y->field);
 
-  for(i=0; i<n; i++){
-    q=a[i]->data; r=c[i]->data;
-    element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
-  }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
+  //Points whose double is O take no part.
   for(i=0; i<n; i++){
     q=a[i]->data;
-    element_double(table[i],q->y);
+    element_init(table[i],q->y->field);
+    if (double_is_inf(q)) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
     q=a[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if (double_is_inf(q)) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -250,7 +245,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   for(i=0; i<n; i++){
     q=a[i]->data;
     r=c[i]->data;
-    if(r->inf_flag) continue;
+    if (double_is_inf(q)) {
+      r->inf_flag = 1;
+      continue;
+    }
 
     //e2=lambda = (3x^2 + a) / 2y
     element_square(e2, q->x);
@@ -280,6 +278,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   pbc_free(table);
 }
 
+static inline int add_has_no_chord(point_ptr p, point_ptr q) {
+  return p->inf_flag || q->inf_flag || !element_cmp(p->x, q->x);
+}
+
 //compute c_i=a_i+b_i at one time.
 static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   int i;
@@ -289,25 +291,24 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   curve_data_ptr cdp = a[0]->field->data;
 
   p = a[0]->data;
-  q = b[0]->data;
   element_init(e0, p->x->field);
   element_init(e1, p->x->field);
   element_init(e2, p->x->field);
 
-  element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
-  for(i=1; i<n; i++){
+  for(i=0; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
-    element_mul(table[i], table[i], table[i-1]);
+    if (add_has_no_chord(p, q)) element_set1(table[i]);
+    else element_sub(table[i], q->x, p->x);
+    if(i>0) element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
   for(i=n-1; i>0; i--){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
+    if (add_has_no_chord(p, q)) continue;
     element_sub(e1, q->x, p->x);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
-- 
2.43.0


From f24c31ee424340320877ab30c26f0575cc07b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:57 +0000
Subject: [PATCH 15/67] fix: is_sqr in curve groups of even order used the
 wrong exponent

---
 ecc/curve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 12b3637..e2b8644 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -660,8 +660,7 @@ static int even_curve_is_sqr(element_ptr e) {
 
   mpz_init(z);
   element_init(e1, e->field);
-  mpz_sub_ui(z, e->field->order, 1);
-  mpz_fdiv_q_2exp(z, z, 1);
+  mpz_fdiv_q_2exp(z, e->field->order, 1);
   element_pow_mpz(e1, e, z);
   result = element_is1(e1);
 
-- 
2.43.0


From 1d4d3060e972659cc80c1568f2e78c16b575b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:03 +0000
Subject: [PATCH 16/67] fix: square roots of base field elements in quadratic
 extensions

---
 arith/fieldquadratic.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..d63e430 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -360,6 +360,19 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_ptr nqr = fq_nqr(n->field);
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    //the root is either in the base field or a multiple of sqrt(nqr)
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(r->y, p->x, nqr);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   //if (a+b sqrt(nqr))^2 = x+y sqrt(nqr) then
   //2a^2 = x +- sqrt(x^2 - nqr y^2)
   //(take the sign which allows a to exist)
@@ -529,6 +542,19 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   eptr r = n->data;
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // The root is either real or purely imaginary.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(r->y, p->x);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   // If (a+bi)^2 = x+yi then 2a^2 = x +- sqrt(x^2 + y^2)
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
-- 
2.43.0


From ab72f8433089a0495a69b687229fa05a63750487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:15 +0000
Subject: [PATCH 17/67] fix: text length and whitespace of quadratic extension
 elements

---
 arith/fieldquadratic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index d63e430..52437d8 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -90,7 +90,7 @@ static int fq_is1(element_ptr e) {
 }
 
 static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
-  size_t result = 4, status;
+  size_t result, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
   result = element_out_str(stream, base, p->x);
@@ -99,7 +99,7 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
   if (EOF == fputc(']', stream)) return 0;
-  return result + status;
+  return result + status + 4;
 }
 
 static int fq_snprint(char *s, size_t n, element_ptr e) {
@@ -152,6 +152,7 @@ static int fq_set_str(element_ptr e, const char *s, int base) {
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ',') return 0;
   cp += element_set_str(p->y, cp, base);
+  while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ']') return 0;
   return (int)(cp - s);
 }
-- 
2.43.0


From 91b7c937df857f53111c3c8953d4d5dae528c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:05 +0000
Subject: [PATCH 18/67] fix: poly_findroot wrote out of bounds on linear
 polynomials

---
 arith/poly.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..71c4a01 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1648,6 +1648,12 @@ int poly_findroot(element_ptr root, element_ptr poly) {
   element_t p, x, r, fac, g;
   mpz_t q;
 
+  if (poly_degree(poly) == 1) {
+    element_div(root, poly_coeff(poly, 0), poly_coeff(poly, 1));
+    element_neg(root, root);
+    return 0;
+  }
+
   mpz_init(q);
   mpz_set(q, poly_base_field(poly)->order);
 
-- 
2.43.0


From 5e2ef55068a47dedaa1af1c07261dbf3ac9a7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:10 +0000
Subject: [PATCH 19/67] fix: polynomials kept zero leading coefficients after
 scaling or reading

---
 arith/poly.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 71c4a01..bc7517a 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -267,6 +267,7 @@ static void poly_double(element_ptr f, element_ptr g) {
   for (i=0; i<n; i++) {
     element_double(pf->coeff->item[i], pg->coeff->item[i]);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
@@ -279,6 +280,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +293,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
@@ -583,6 +586,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From 39f079a065d71562efb6e06b1a84c21fbe58c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:16 +0000
Subject: [PATCH 20/67] fix: zero is a square in polynomial quotient fields too

---
 arith/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arith/poly.c b/arith/poly.c
index bc7517a..4838619 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -623,6 +623,7 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  if (element_is0(e)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From 3ff7ddb2602ae1cebd6700a218d603035137a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:53 +0000
Subject: [PATCH 21/67] fix: a product of pairings with one trivial factor came
 out trivial

---
 include/pbc_pairing.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..8be5375 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -158,12 +158,19 @@ static inline void element_prod_pairing(
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
-      element_set0(out);
+  }
+  for(i = 0; i < n; i++) {
+    if (element_is0(in1[i]) || element_is0(in2[i])) {
+      // The pairing routines cannot handle the identity.
+      element_t t;
+      int j;
+      element_init_same_as(t, out);
+      element_set1(out);
+      for(j = 0; j < n; j++) {
+        pairing_apply(t, in1[j], in2[j], pairing);
+        element_mul(out, out, t);
+      }
+      element_clear(t);
       return;
     }
   }
-- 
2.43.0


From 7bc19f62b5c109ac24fa74f7b6b0bbd5e521bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:59 +0000
Subject: [PATCH 22/67] fix: default pairing preprocessing depended on its
 input staying alive

---
 ecc/pairing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..7f46d40 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,10 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  // Keep a copy: the caller may change or clear in1.
+  element_ptr e = p->data = pbc_malloc(sizeof(element_t));
+  element_init_same_as(e, in1);
+  element_set(e, in1);
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +71,8 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_clear(p->data);
+  pbc_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From 0f03f42967e100746a57874cd5d77938b3ce563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:18 +0000
Subject: [PATCH 23/67] fix: fastfp: machine integers were not reduced modulo a
 one-limb modulus

---
 arith/fastfp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arith/fastfp.c b/arith/fastfp.c
index 9658ae1..996653b 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -57,10 +57,12 @@ static void fp_set_si(element_ptr e, signed long int op) {
   const fp_field_data_ptr p = e->field->data;
   const size_t t = p->limbs;
   mp_limb_t *d = e->data;
-  if (op < 0) {
-    mpn_sub_1(d, p->primelimbs, t, -op);
+  mp_limb_t n = op < 0 ? -(mp_limb_t) op : (mp_limb_t) op;
+  if (t == 1) n %= p->primelimbs[0];
+  if (op < 0 && n) {
+    mpn_sub_1(d, p->primelimbs, t, n);
   } else {
-    d[0] = op;
+    d[0] = n;
     memset(&d[1], 0, sizeof(mp_limb_t) * (t - 1));
   }
 }
-- 
2.43.0


From 64d687ffb9671dd5d77187b73d43f7ba1a72a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 24/67] fix: inversion in GF(3^2m) and negation in GF(3^3m)
 were missing

---
 arith/ternary_extension_field.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..7ca870e 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -636,6 +636,25 @@ static void gf32m_mult(element_t e, element_t a, element_t b) {
     element_clear(c1);
 }
 
+/* $e <- a^{-1}$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t c0, c1;
+    element_init(c0, base);
+    element_init(c1, base);
+    element_mul(c0, a0, a0);
+    element_mul(c1, a1, a1);
+    element_add(c0, c0, c1);
+    element_invert(c0, c0); // c0 == (a0^2+a1^2)^{-1}
+    element_neg(c1, a1);
+    element_mul(e0, a0, c0);
+    element_mul(e1, c1, c0);
+    element_clear(c0);
+    element_clear(c1);
+}
+
 /* $e <- a^3$ */
 static void gf32m_cubic(element_t e, element_t a) {
     element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
@@ -674,6 +693,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
     f->cubic = gf32m_cubic;
+    f->invert = gf32m_invert;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
@@ -920,6 +940,12 @@ static void gf33m_invert(element_t e, element_t a) {
     element_clear(c3);
 }
 
+static void gf33m_neg(element_t c, element_t a) {
+    element_neg(GF33M(c)->_0, GF33M(a)->_0);
+    element_neg(GF33M(c)->_1, GF33M(a)->_1);
+    element_neg(GF33M(c)->_2, GF33M(a)->_2);
+}
+
 void field_clear_gf33m(field_t f) {
     UNUSED_VAR(f);
 }
@@ -938,6 +964,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->cmp = gf33m_cmp;
     f->add = gf33m_add;
     f->sub = gf33m_sub;
+    f->neg = gf33m_neg;
     f->mul = gf33m_mult;
     f->cubic = gf33m_cubic;
     f->invert = gf33m_invert;
-- 
2.43.0


From f42095edb5bc19368a69112a8e9614c690a357cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:27 +0000
Subject: [PATCH 25/67] fix: type g: products of pairings that cancel ended the
 process

---
 ecc/g_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..11887fc 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is1(in)) {
+    element_set(out, in);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From d4a97c4fe2a4bcc21dfdaa1e9b1316643a8c90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:09 +0000
Subject: [PATCH 26/67] fix: element_printf family printed %% as two percent
 signs

---
 misc/extend_printf.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..60ed29a 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,15 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // A literal percent: print up to the first one and skip the second.
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      *(c + 1) = '%';
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      start = next = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From 3639c9a539055a4af5b46d7ed30a0c2b3e02e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:09 +0000
Subject: [PATCH 27/67] fix: hashing a string that maps to zero into GT left
 the group or ended the process

---
 ecc/pairing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 7f46d40..4189d87 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -122,12 +122,16 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
+  // Zero is not in the multiplicative group.
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0(e->data));
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From 50576307f98bb694b0bbf1b470a3a075a288250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:12 +0000
Subject: [PATCH 28/67] fix: types d and g: option method=miller computed a
 wrong pairing (y-coordinate read from x)

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..24d09df 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 11887fc..f611411 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From b11d07ea78fdb0ec45de7d299b516ce62853fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:12 +0000
Subject: [PATCH 29/67] fix: types d and g: is_almost_coddh crashed or answered
 wrongly on identity arguments

---
 ecc/d_param.c | 7 +++++--
 ecc/g_param.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 24d09df..47dffd2 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -761,8 +761,11 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  // Miller's algorithm cannot handle the identity, whose pairing is 1.
+  if (element_is0(a) || element_is0(d)) element_set1(t0);
+  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  if (element_is0(b) || element_is0(c)) element_set1(t1);
+  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
   cc_tatepower(t0, t0, pairing);
   cc_tatepower(t1, t1, pairing);
   element_mul(t2, t0, t1);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index f611411..48bd963 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -586,8 +586,11 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  // Miller's algorithm cannot handle the identity, whose pairing is 1.
+  if (element_is0(a) || element_is0(d)) element_set1(t0);
+  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  if (element_is0(b) || element_is0(c)) element_set1(t1);
+  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
   tatepower10(t0, t0, pairing);
   tatepower10(t1, t1, pairing);
   element_mul(t2, t0, t1);
-- 
2.43.0


From c08af8bc0b29170cd2c0a5c3dcfac6e37e3db351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:12 +0000
Subject: [PATCH 30/67] fix: changing the pairing method after pairing_pp_init
 corrupted memory in pp_apply and pp_clear

---
 include/pbc_pairing.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 8be5375..5a81b74 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -10,6 +10,9 @@
 struct pairing_pp_s {
   struct pairing_s *pairing;
   void *data;
+  // Match the routine that filled 'data', even if options change later.
+  void (*clear)(struct pairing_pp_s *p);
+  void (*apply)(element_t out, element_t in2, struct pairing_pp_s *p);
 };
 typedef struct pairing_pp_s pairing_pp_t[1];
 typedef struct pairing_pp_s *pairing_pp_ptr;
@@ -57,6 +60,8 @@ static inline void pairing_pp_init(pairing_pp_t p, element_t in1, pairing_t pair
     return;
   }
   p->pairing = pairing;
+  p->clear = pairing->pp_clear;
+  p->apply = pairing->pp_apply;
   pairing->pp_init(p, in1, pairing);
 }
 
@@ -68,7 +73,7 @@ static inline void pairing_pp_clear(pairing_pp_t p) {
     // happens when p was initialized with identity
     return;
   }
-  p->pairing->pp_clear(p);
+  p->clear(p);
 }
 
 /*@manual pairing_apply
@@ -85,7 +90,7 @@ static inline void pairing_pp_apply(element_t out, element_t in2, pairing_pp_t p
     element_set0(out);
     return;
   }
-  p->pairing->pp_apply((element_ptr) out->data, in2, p);
+  p->apply((element_ptr) out->data, in2, p);
 }
 
 /*@manual pairing_init
-- 
2.43.0


From 20f70b9b01f6998957e7fb689c883376b6151b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 31/67] fix: types d, e and g: setting a pairing's method
 changed every other pairing of that type

---
 ecc/d_param.c | 20 ++++++++++----------
 ecc/e_param.c | 18 ++++++++----------
 ecc/g_param.c | 20 ++++++++++----------
 3 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 47dffd2..a9315dd 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -48,6 +48,9 @@ typedef struct {
   int k;                      // The embedding degree, usually 6.
   // Let x be the element used to build Fqd from Fq, i.e. Fqd = Fq[x].
   element_t xpowq, xpowq2;    // x^q and x^{2q} in F_q^d.
+  // Miller's algorithm, as chosen by the "method" option.
+  void (*miller)(element_t res, mpz_t q, element_t P,
+      element_ptr Qx, element_ptr Qy);
 } *pptr;
 
 static void d_clear(void *data) {
@@ -421,16 +424,13 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
   #undef do_line
 }
 
-static void (*cc_miller_no_denom_fn)(element_t res, mpz_t q, element_t P,
-    element_ptr Qx, element_ptr Qy);
-
 static void d_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  UNUSED_VAR(pairing);
+  pptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_proj;
+      p->miller = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+      p->miller = cc_miller_no_denom_affine;
     }
   }
 }
@@ -580,7 +580,7 @@ static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_mul(Qx, curve_x_coord(Qbase), p->nqrinv);
   // v^-3/2 = v^-2 * v^1/2
   element_mul(Qy, curve_y_coord(Qbase), p->nqrinv2);
-  cc_miller_no_denom_fn(out, pairing->r, in1, Qx, Qy);
+  p->miller(out, pairing->r, in1, Qx, Qy);
   cc_tatepower(out, out, pairing);
   element_clear(Qx);
   element_clear(Qy);
@@ -763,9 +763,9 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
 
   // Miller's algorithm cannot handle the identity, whose pairing is 1.
   if (element_is0(a) || element_is0(d)) element_set1(t0);
-  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  else p->miller(t0, pairing->r, a, dx, dy);
   if (element_is0(b) || element_is0(c)) element_set1(t1);
-  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  else p->miller(t1, pairing->r, b, cx, cy);
   cc_tatepower(t0, t0, pairing);
   cc_tatepower(t1, t1, pairing);
   element_mul(t2, t0, t1);
@@ -1085,7 +1085,7 @@ static void d_init_pairing(pairing_ptr pairing, void *data) {
   pairing->finalpow = cc_finalpow;
 
   // By default use affine coordinates.
-  cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+  p->miller = cc_miller_no_denom_affine;
   pairing->option_set = d_pairing_option_set;
   pairing->pp_init = d_pairing_pp_init;
   pairing->pp_clear = d_pairing_pp_clear;
diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..76c69ce 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -33,6 +33,9 @@ struct e_pairing_data_s {
   int exp2, exp1;
   int sign1, sign0;
   element_t R;
+  // Miller's algorithm, as chosen by the "method" option.
+  void (*miller)(element_t res, element_t P,
+      element_ptr QR, element_ptr R, struct e_pairing_data_s *p);
 };
 typedef struct e_pairing_data_s e_pairing_data_t[1];
 typedef struct e_pairing_data_s *e_pairing_data_ptr;
@@ -465,10 +468,6 @@ static void e_miller_affine(element_t res, element_t P,
   #undef do_line
 }
 
-static void (*e_miller_fn)(element_t res, element_t P,
-    element_ptr QR, element_ptr R,
-    e_pairing_data_ptr p);
-
 static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   e_pairing_data_ptr p = pairing->data;
@@ -476,7 +475,7 @@ static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_t QR;
   element_init(QR, p->Eq);
   element_add(QR, Q, p->R);
-  e_miller_fn(out, in1, QR, p->R, p);
+  p->miller(out, in1, QR, p->R, p);
   element_pow_mpz(out, out, pairing->phikonr);
   element_clear(QR);
 }
@@ -797,15 +796,14 @@ static void phi_identity(element_ptr out, element_ptr in, pairing_ptr pairing) {
 }
 
 static void e_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  //TODO: this affects every type E pairing!
-  UNUSED_VAR(pairing);
+  e_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
       pairing->map = e_pairing;
-      e_miller_fn = e_miller_proj;
+      p->miller = e_miller_proj;
     } else if (!strcmp(value, "miller-affine")) {
       pairing->map = e_pairing;
-      e_miller_fn = e_miller_affine;
+      p->miller = e_miller_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = e_pairing_ellnet;
     }
@@ -838,9 +836,9 @@ static void e_init_pairing(pairing_t pairing, void *data) {
   mpz_set(pairing->r, param->r);
   field_init_fp(pairing->Zr, pairing->r);
   pairing->map = e_pairing;
-  e_miller_fn = e_miller_proj;
 
   p = pairing->data = pbc_malloc(sizeof(e_pairing_data_t));
+  p->miller = e_miller_proj;
   p->exp2 = param->exp2;
   p->exp1 = param->exp1;
   p->sign1 = param->sign1;
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 48bd963..676ea20 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -40,6 +40,9 @@ struct mnt_pairing_data_s {
   field_t Eq, Etwist;
   element_t nqrinv, nqrinv2;
   element_t xpowq, xpowq2, xpowq3, xpowq4;
+  // Miller's algorithm, as chosen by the "method" option.
+  void (*miller)(element_t res, mpz_t q, element_t P,
+      element_ptr Qx, element_ptr Qy);
 };
 typedef struct mnt_pairing_data_s mnt_pairing_data_t[1];
 typedef struct mnt_pairing_data_s *mnt_pairing_data_ptr;
@@ -539,9 +542,6 @@ static void tatepower10(element_ptr out, element_ptr in, pairing_t pairing) {
   #undef qpower
 }
 
-static void (*cc_miller_no_denom_fn)(element_t res, mpz_t q, element_t P,
-    element_ptr Qx, element_ptr Qy);
-
 static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   element_ptr Qbase = in2;
@@ -555,7 +555,7 @@ static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_mul(Qx, curve_x_coord(Qbase), p->nqrinv);
   //v^-3/2 = v^-2 * v^1/2
   element_mul(Qy, curve_y_coord(Qbase), p->nqrinv2);
-  cc_miller_no_denom_fn(out, pairing->r, in1, Qx, Qy);
+  p->miller(out, pairing->r, in1, Qx, Qy);
   tatepower10(out, out, pairing);
   element_clear(Qx);
   element_clear(Qy);
@@ -588,9 +588,9 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
 
   // Miller's algorithm cannot handle the identity, whose pairing is 1.
   if (element_is0(a) || element_is0(d)) element_set1(t0);
-  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  else p->miller(t0, pairing->r, a, dx, dy);
   if (element_is0(b) || element_is0(c)) element_set1(t1);
-  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  else p->miller(t1, pairing->r, b, cx, cy);
   tatepower10(t0, t0, pairing);
   tatepower10(t1, t1, pairing);
   element_mul(t2, t0, t1);
@@ -1154,12 +1154,12 @@ static void g_pairing_clear(pairing_t pairing) {
 }
 
 static void g_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  UNUSED_VAR(pairing);
+  mnt_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_proj;
+      p->miller = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+      p->miller = cc_miller_no_denom_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = g_pairing_ellnet;
     }
@@ -1348,7 +1348,7 @@ static void g_init_pairing(pairing_t pairing, void *data) {
   pairing_GT_init(pairing, p->Fqk);
   pairing->finalpow = g_finalpow;
 
-  cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+  p->miller = cc_miller_no_denom_affine;
   pairing->option_set = g_pairing_option_set;
   pairing->pp_init = g_pairing_pp_init;
   pairing->pp_clear = g_pairing_pp_clear;
-- 
2.43.0


From 2557ac69036e3910b65ba8f486c2c88547a80d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 32/67] fix: type g: the miller methods could not be selected
 again after shipsey-stange

---
 ecc/g_param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index 676ea20..52ff201 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -1157,8 +1157,10 @@ static void g_pairing_option_set(pairing_t pairing, char *key, char *value) {
   mnt_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
+      pairing->map = cc_pairing;
       p->miller = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
+      pairing->map = cc_pairing;
       p->miller = cc_miller_no_denom_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = g_pairing_ellnet;
-- 
2.43.0


From 11d9f1e1b5352c8de19f4bddbd42674b8647d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 33/67] fix: types d and g: pairing_pp_init wrote past its
 table when the group order is all ones in binary

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index a9315dd..84da5f0 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -877,7 +877,7 @@ static void d_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 52ff201..ebd9200 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -703,7 +703,7 @@ static void g_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
-- 
2.43.0


From 18d99887f0f1328caa68a0ca692f9e534d33457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:30 +0000
Subject: [PATCH 34/67] fix: type d parameters without a usable embedding
 degree used an uninitialized count of coefficients

---
 ecc/d_param.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 84da5f0..60305e9 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -77,7 +77,7 @@ static void d_out_str(FILE *stream, void *data) {
   d_param_ptr p = data;
   int d = p->k / 2;
   int i;
-  char s[8];
+  char s[80];
   param_out_type(stream, "d");
   param_out_mpz(stream, "q", p->q);
   param_out_mpz(stream, "n", p->n);
@@ -1212,7 +1212,10 @@ int pbc_param_init_d(pbc_param_ptr par, struct symtab_s *tab) {
   err += lookup_mpz(p->r, tab, "r");
   err += lookup_mpz(p->a, tab, "a");
   err += lookup_mpz(p->b, tab, "b");
-  err += lookup_int(&p->k, tab, "k");
+  if (lookup_int(&p->k, tab, "k") || p->k < 2) {
+    p->k = 0;  // No coefficients to read, write or clear.
+    err++;
+  }
   err += lookup_mpz(p->nk, tab, "nk");
   err += lookup_mpz(p->hk, tab, "hk");
   err += lookup_mpz(p->nqr, tab, "nqr");
-- 
2.43.0


From 164566f3983750c63595cf89ef22269f5c5970f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:30 +0000
Subject: [PATCH 35/67] fix: refused pairing parameters leaked memory and were
 not reported with the documented value 1

---
 ecc/param.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..7fec58e 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -187,8 +187,10 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
-        return res;
+        if (!res) return 0;
+        pbc_error("bad pairing parameters");
+        pbc_param_clear(par);
+        return 1;
       }
     }
   }
-- 
2.43.0


From 31fb50ae9b751b4c385ab411d2bfc590b4537940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:30 +0000
Subject: [PATCH 36/67] fix: parameter values that are not numbers were read as
 zero and oversized integers were truncated

---
 ecc/param.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 7fec58e..f4f5d84 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -145,7 +145,10 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("bad param: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
@@ -158,11 +161,15 @@ int lookup_int(int *n, symtab_t tab, const char *key) {
   }
   mpz_init(z);
 
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  int err = mpz_set_str(z, data, 0) || !mpz_fits_sint_p(z);
+  if (err) {
+    pbc_error("bad param: `%s'", key);
+  } else {
+    *n = (int)mpz_get_si(z);
+  }
   mpz_clear(z);
 
-  return 0;
+  return err;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
-- 
2.43.0


From cb8832c90df659ee9a67ebefbe6ff70348bce2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:30 +0000
Subject: [PATCH 37/67] fix: a repeated key in parameter text leaked its first
 value

---
 ecc/param.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/param.c b/ecc/param.c
index f4f5d84..47309b8 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,7 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    if (symtab_has(tab, key)) pbc_free(symtab_at(tab, key));
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
-- 
2.43.0


From 9c07ac8d3862680c1863a6eaa845941374c83b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 38/67] fix: type a1: pairing_pp_clear leaked the coefficients
 it preprocessed

---
 ecc/a_param.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..da140a7 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1622,9 +1622,27 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
 
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
+  // Same order as in a1_pairing_pp_init().
   while (*pp) {
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_ptr ppp = *pp;
+      element_clear(ppp->cx2);
+      element_clear(ppp->cy2);
+      element_clear(ppp->cxy);
+      element_clear(ppp->cx);
+      element_clear(ppp->cy);
+      element_clear(ppp->c);
+    } else {
+      pp_coeff_ptr ppp = *pp;
+      element_clear(ppp->a);
+      element_clear(ppp->b);
+      element_clear(ppp->c);
+    }
     pbc_free(*pp);
     pp++;
+    if (m) m--;
   }
   pbc_free(p->data);
 }
-- 
2.43.0


From 927ae4ef6b19603034163ccc73857e54f4994bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:44 +0000
Subject: [PATCH 39/67] fix: ring of integers: halving gave zero

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..0799e9a 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
-- 
2.43.0


From 3629e05ca9d7a497655b6ed17eecdc577f0fba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:44 +0000
Subject: [PATCH 40/67] fix: ring of integers: every perfect power was reported
 as a square

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 0799e9a..733d27f 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From 33ae574880331b2d941214edbe886a3c8cf2a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:44 +0000
Subject: [PATCH 41/67] fix: integers: the text of a negative number could not
 be read back

---
 arith/multiz.c | 10 ++++++++--
 arith/z.c      | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..01f4c1c 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -5,6 +5,7 @@
 
 // TODO: Canonicalize, e.g. [[1]], 0, 0] --> 1.
 
+#include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
@@ -520,11 +521,16 @@ static void f_out_info(FILE *out, field_ptr f) {
 static int f_set_str(element_ptr e, const char *s, int base) {
   // TODO: Square brackets.
   mpz_t z;
+  int i = 0, result;
+  while (isspace((unsigned char) s[i])) i++;
+  int neg = '-' == s[i];
+  if (neg) i++;
   mpz_init(z);
-  int result = pbc_mpz_set_str(z, s, base);
+  result = pbc_mpz_set_str(z, s + i, base);
+  if (neg) mpz_neg(z, z);
   f_set_mpz(e, z);
   mpz_clear(z);
-  return result;
+  return result ? result + i : 0;
 }
 
 static void f_set_multiz(element_ptr e, multiz m) {
diff --git a/arith/z.c b/arith/z.c
index 733d27f..73d5aa6 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -1,6 +1,7 @@
 // The ring Z.
 //
 // Wrappers around GMP mpz functions.
+#include <ctype.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
@@ -211,11 +212,16 @@ static void z_out_info(FILE *out, field_ptr f) {
 
 static int z_set_str(element_ptr e, const char *s, int base) {
   mpz_t z;
+  int i = 0, result;
+  while (isspace((unsigned char) s[i])) i++;
+  int neg = '-' == s[i];
+  if (neg) i++;
   mpz_init(z);
-  int result = pbc_mpz_set_str(z, s, base);
+  result = pbc_mpz_set_str(z, s + i, base);
+  if (neg) mpz_neg(z, z);
   z_set_mpz(e, z);
   mpz_clear(z);
-  return result;
+  return result ? result + i : 0;
 }
 
 void field_init_z(field_ptr f) {
-- 
2.43.0


From a25606a682be092a6a9352ee37e3f96c1d0d77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:44 +0000
Subject: [PATCH 42/67] fix: ring of integers: byte form overran its announced
 length, kept stale bytes for zero and was miscounted on reading

---
 arith/z.c | 59 ++++++++++++++++---------------------------------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 73d5aa6..30f0135 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -143,58 +143,33 @@ static void z_field_clear(field_t f) {
 // Positive numbers also the same as mpz_out_raw.
 static int z_to_bytes(unsigned char *data, element_t e) {
   mpz_ptr z = e->data;
-  size_t msb = mpz_sizeinbase(z, 2);
-  size_t n = 4;
-  size_t i;
+  size_t n = mpz_sizeinbase(z, 2) / 8 + 1;  // Leaves room for the sign bit.
+  size_t i, len = (mpz_sizeinbase(z, 2) + 7) / 8;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
-  if (mpz_sgn(z) < 0) {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-    data[4] |= 128;
-  } else {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-  }
-  n += (msb + 7) / 8 - 4;
   for (i=0; i<4; i++) {
     data[i] = (unsigned char)(n >> 8 * (3 - i));
   }
-  n += 4;
-
-  return (int)n;
+  data[4] = 0;
+  if (mpz_sgn(z)) mpz_export(data + 4 + n - len, NULL, 1, 1, 1, 0, z);
+  if (mpz_sgn(z) < 0) data[4] |= 128;
+  return (int)(n + 4);
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
-  size_t i, n;
+static int z_from_bytes(element_t e, const unsigned char *data) {
   mpz_ptr z = e->data;
-  mpz_t z1;
-  int neg = 0;
+  size_t i, n = 0;
+  int neg;
 
-  mpz_init(z1);
-  mpz_set_ui(z, 0);
-
-  ptr = data;
-  n = 0;
   for (i=0; i<4; i++) {
-    n += ((unsigned int) *ptr) << 8 * (3 - i);
-    ptr++;
-  }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
+    n = (n << 8) + data[i];
   }
-  for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
-    mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
-    ptr++;
-    mpz_add(z, z, z1);
+  neg = n && (data[4] & 128);
+  mpz_import(z, n, 1, 1, 1, 0, data + 4);
+  if (neg) {
+    mpz_clrbit(z, 8 * n - 1);
+    mpz_neg(z, z);
   }
-  mpz_clear(z1);
-  if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)(n + 4);
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -202,7 +177,7 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From b47f5648ca914596737febd7b2e588967a2bde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:44 +0000
Subject: [PATCH 43/67] fix: multiz: subtraction between an integer and a list
 had wrong signs

---
 arith/multiz.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 01f4c1c..3dcd7af 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -256,8 +256,20 @@ static void f_add(element_ptr n, element_ptr a, element_ptr b) {
   multiz_free(delme);
 }
 
+static void mpzneg(mpz_t dst, const mpz_t src, void *scope_ptr) {
+  UNUSED_VAR(scope_ptr);
+  mpz_neg(dst, src);
+}
+
+static multiz multiz_new_neg(multiz z) {
+  return multiz_new_unary(z, (void(*)(mpz_t, const mpz_t, void *))mpzneg, NULL);
+}
+
 static multiz multiz_new_sub(const multiz a, const multiz b) {
-  return multiz_new_bin(a, b, mpz_sub);
+  multiz c = multiz_new_neg(b);
+  multiz x = multiz_new_add(a, c);
+  multiz_free(c);
+  return x;
 }
 static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
   multiz delme = n->data;
@@ -326,15 +338,6 @@ static void f_mul_si(element_ptr n, element_ptr a, signed long int z) {
   multiz_free(delme);
 }
 
-static void mpzneg(mpz_t dst, const mpz_t src, void *scope_ptr) {
-  UNUSED_VAR(scope_ptr);
-  mpz_neg(dst, src);
-}
-
-static multiz multiz_new_neg(multiz z) {
-  return multiz_new_unary(z, (void(*)(mpz_t, const mpz_t, void *))mpzneg, NULL);
-}
-
 static void f_set(element_ptr n, element_ptr a) {
   multiz delme = n->data;
   n->data = multiz_clone(a->data);
-- 
2.43.0


From 08a5ff514c94916c0a67fff517a39b06e495c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:21 +0000
Subject: [PATCH 44/67] fix: multiz: comparison ignored all but the leading
 position, so different lists compared equal

---
 arith/multiz.c | 80 +++++++++++++++++++-------------------------------
 1 file changed, 31 insertions(+), 49 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 3dcd7af..d127fb1 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -375,19 +375,6 @@ static void f_from_hash(element_ptr n, const void *data, int len) {
   mpz_clear(z);
 }
 
-static int f_is1(element_ptr n) {
-  multiz ep = n->data;
-  return ep->type == T_MPZ && !mpz_cmp_ui(ep->z, 1);
-}
-
-int multiz_is0(multiz m) {
-  return m->type == T_MPZ && mpz_is0(m->z);
-}
-
-static int f_is0(element_ptr n) {
-  return multiz_is0(n->data);
-}
-
 static int f_item_count(element_ptr e) {
   multiz z = e->data;
   if (T_MPZ == z->type) return 0;
@@ -404,51 +391,46 @@ static element_ptr f_item(element_ptr e, int i) {
   return r;
 }
 
-// Usual meaning when both are integers.
-// Otherwise, compare coefficients.
-static int multiz_cmp(multiz a, multiz b) {
-  if (T_MPZ == a->type) {
-    if (T_MPZ == b->type) {
-      // Simplest case: both are integers.
-      return mpz_cmp(a->z, b->z);
-    }
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
+// Sign of the leading nonzero coefficient, 0 if there is none.
+static int multiz_lead_sgn(multiz a) {
+  if (T_MPZ == a->type) return mpz_sgn(a->z);
   PBC_ASSERT(T_ARR == a->type, "no such type");
-  if (T_MPZ == b->type) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
-  }
-  PBC_ASSERT(T_ARR == b->type, "no such type");
-  int m = darray_count(a->a);
-  int n = darray_count(b->a);
-  if (m > n) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
-  }
-  if (n > m) {
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
-  for(n--; n >= 0; n--) {
-    int i = multiz_cmp(darray_at(a->a, n), darray_at(b->a, n));
+  int n;
+  for(n = darray_count(a->a) - 1; n >= 0; n--) {
+    int i = multiz_lead_sgn(darray_at(a->a, n));
     if (i) return i;
   }
   return 0;
 }
+
+// Usual meaning when both are integers.
+// Otherwise, compare coefficients.
+static int multiz_cmp(multiz a, multiz b) {
+  multiz d = multiz_new_sub(a, b);
+  int res = multiz_lead_sgn(d);
+  multiz_free(d);
+  return res;
+}
 static int f_cmp(element_ptr x, element_ptr y) {
   return multiz_cmp(x->data, y->data);
 }
 
+static int f_is1(element_ptr n) {
+  multiz one = multiz_new();
+  mpz_set_ui(one->z, 1);
+  int res = !multiz_cmp(n->data, one);
+  multiz_free(one);
+  return res;
+}
+
+int multiz_is0(multiz m) {
+  return !multiz_lead_sgn(m);
+}
+
+static int f_is0(element_ptr n) {
+  return multiz_is0(n->data);
+}
+
 static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 
 // OpenSSL convention:
-- 
2.43.0


From ff8378fe576bd112a9e24e6ced41eacc479eda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:22 +0000
Subject: [PATCH 45/67] fix: multiz: byte forms read the element as if it were
 a plain integer

---
 arith/multiz.c | 87 +++++++++++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index d127fb1..aa41482 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -438,64 +438,51 @@ static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 //   followed by number in big-endian, most-significant bit set if negative
 //   (prepending null byte if necessary)
 // Positive numbers also the same as mpz_out_raw.
-static int z_to_bytes(unsigned char *data, element_t e) {
-  mpz_ptr z = e->data;
-  size_t msb = mpz_sizeinbase(z, 2);
-  size_t n = 4;
-  size_t i;
-
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
-  if (mpz_sgn(z) < 0) {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-    data[4] |= 128;
-  } else {
-    mpz_export(data + n, NULL, 1, 1, 1, 0, z);
-  }
-  n += (msb + 7) / 8 - 4;
+// Lists are represented by their constant term.
+static int f_to_bytes(unsigned char *data, element_t e) {
+  mpz_t z;
+  mpz_init(z);
+  f_to_mpz(z, e);
+  size_t n = mpz_sizeinbase(z, 2) / 8 + 1;  // Leaves room for the sign bit.
+  size_t i, len = (mpz_sizeinbase(z, 2) + 7) / 8;
+
   for (i=0; i<4; i++) {
     data[i] = (unsigned char)(n >> 8 * (3 - i));
   }
-  n += 4;
-
-  return (int)n;
+  data[4] = 0;
+  if (mpz_sgn(z)) mpz_export(data + 4 + n - len, NULL, 1, 1, 1, 0, z);
+  if (mpz_sgn(z) < 0) data[4] |= 128;
+  mpz_clear(z);
+  return (int)(n + 4);
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
-  size_t i, n;
-  mpz_ptr z = e->data;
-  mpz_t z1;
-  int neg = 0;
-
-  mpz_init(z1);
-  mpz_set_ui(z, 0);
+static int f_from_bytes(element_t e, const unsigned char *data) {
+  mpz_t z;
+  size_t i, n = 0;
+  int neg;
 
-  ptr = data;
-  n = 0;
+  mpz_init(z);
   for (i=0; i<4; i++) {
-    n += ((unsigned int) *ptr) << 8 * (3 - i);
-    ptr++;
-  }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
+    n = (n << 8) + data[i];
   }
-  for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
-    mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
-    ptr++;
-    mpz_add(z, z, z1);
+  neg = n && (data[4] & 128);
+  mpz_import(z, n, 1, 1, 1, 0, data + 4);
+  if (neg) {
+    mpz_clrbit(z, 8 * n - 1);
+    mpz_neg(z, z);
   }
-  mpz_clear(z1);
-  if (neg) mpz_neg(z, z);
-  return (int)n;
+  f_set_mpz(e, z);
+  mpz_clear(z);
+  return (int)(n + 4);
 }
 
-static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+static int f_length_in_bytes(element_ptr a) {
+  mpz_t z;
+  mpz_init(z);
+  f_to_mpz(z, a);
+  int n = (int)(mpz_sizeinbase(z, 2) / 8 + 1 + 4);
+  mpz_clear(z);
+  return n;
 }
 
 static void f_out_info(FILE *out, field_ptr f) {
@@ -550,10 +537,10 @@ void field_init_multiz(field_ptr f) {
   f->set0 = f_set0;
   f->set1 = f_set1;
   f->field_clear = f_field_clear;
-  f->to_bytes = z_to_bytes;
-  f->from_bytes = z_from_bytes;
+  f->to_bytes = f_to_bytes;
+  f->from_bytes = f_from_bytes;
   f->to_mpz = f_to_mpz;
-  f->length_in_bytes = z_length_in_bytes;
+  f->length_in_bytes = f_length_in_bytes;
   f->item = f_item;
   f->item_count = f_item_count;
 
-- 
2.43.0


From 00b985e39c63c2caeb144bb4adbd2c4d377e14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:06 +0000
Subject: [PATCH 46/67] fix: a list of coordinates off the curve was accepted
 as a point

---
 ecc/curve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index e2b8644..e82026e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -550,6 +550,11 @@ static void curve_set_multiz(element_ptr a, multiz m) {
     p->inf_flag = 0;
     element_set_multiz(p->x, multiz_at(m, 0));
     element_set_multiz(p->y, multiz_at(m, 1));
+    // If the point does not lie on the curve, set to O, as when reading bytes.
+    if (!curve_is_valid_point(a)) {
+      pbc_warn("multiz is not a point on the curve");
+      element_set0(a);
+    }
   }
 }
 
-- 
2.43.0


From 39554d540bfa6cc64e179157b9bf40ecd229b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 47/67] fix: text with a missing coordinate was read as if the
 coordinate were zero

---
 arith/fieldquadratic.c | 7 +++++--
 arith/poly.c           | 5 +++--
 ecc/curve.c            | 7 +++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index 52437d8..3e2ca64 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -144,14 +144,17 @@ static void fq_set_multiz(element_ptr e, multiz m) {
 
 static int fq_set_str(element_ptr e, const char *s, int base) {
   const char *cp = s;
+  int k;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != '[') return 0;
   eptr p = e->data;
-  cp += element_set_str(p->x, cp, base);
+  if (!(k = element_set_str(p->x, cp, base))) return 0;
+  cp += k;
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ',') return 0;
-  cp += element_set_str(p->y, cp, base);
+  if (!(k = element_set_str(p->y, cp, base))) return 0;
+  cp += k;
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ']') return 0;
   return (int)(cp - s);
diff --git a/arith/poly.c b/arith/poly.c
index 4838619..43ccc8d 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1274,13 +1274,14 @@ static void polymod_set_multiz(element_ptr e, multiz m) {
 static int polymod_set_str(element_ptr e, const char *s, int base) {
   mfptr p = e->field->data;
   element_t *coeff = e->data;
-  int i, n = p->n;
+  int i, k, n = p->n;
   const char *cp = s;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != '[') return 0;
   for (i=0; i<n; i++) {
-    cp += element_set_str(coeff[i], cp, base);
+    if (!(k = element_set_str(coeff[i], cp, base))) return 0;
+    cp += k;
     while (*cp && isspace(*cp)) cp++;
     if (i<n-1 && *cp++ != ',') return 0;
   }
diff --git a/ecc/curve.c b/ecc/curve.c
index e82026e..6837b8a 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -560,6 +560,7 @@ static void curve_set_multiz(element_ptr a, multiz m) {
 
 static int curve_set_str(element_ptr e, const char *s, int base) {
   point_ptr p = e->data;
+  int k;
   const char *cp = s;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
@@ -568,11 +569,13 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   }
   if (*cp != '[') return 0;
   cp++;
-  cp += element_set_str(p->x, cp, base);
+  if (!(k = element_set_str(p->x, cp, base))) return 0;
+  cp += k;
   while (*cp && isspace(*cp)) cp++;
   if (*cp != ',') return 0;
   cp++;
-  cp += element_set_str(p->y, cp, base);
+  if (!(k = element_set_str(p->y, cp, base))) return 0;
+  cp += k;
   while (*cp && isspace(*cp)) cp++;
   if (*cp != ']') return 0;
 
-- 
2.43.0


From 4106dbd89078c36d28200e4e46428140695c1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 48/67] fix: random elements of GF(3^m) bypassed the configured
 source and missed most coefficients

---
 arith/ternary_extension_field.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 7ca870e..bfca8b2 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -22,6 +22,7 @@
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 #include "pbc_field.h"
+#include "pbc_random.h"
 
 typedef unsigned long gf3;
 
@@ -207,20 +208,22 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
     params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
     unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_random(z, a->field->order);
+    for (i = 0; i < c->len; i++)
+        a1[i] = a2[i] = 0;
+    for (i = 0; i < c->m; i++) { /* the digits of $z$ in base 3 are the coefficients */
+        unsigned long digit = mpz_tdiv_q_ui(z, z, 3);
+        if (digit == 1)
+            a1[i / W] |= 1ul << (i % W);
+        else if (digit == 2)
+            a2[i / W] |= 1ul << (i % W);
     }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    mpz_clear(z);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
-- 
2.43.0


From b2b4cb323d8e933db4afec97a778fc218181aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:56 +0000
Subject: [PATCH 49/67] fix: type A and E generators drew from the C library
 instead of the configured source

---
 ecc/a_param.c | 14 +++++++++-----
 ecc/e_param.c | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index da140a7..8976493 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1,7 +1,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
-#include <stdlib.h> //for rand, pbc_malloc, pbc_free
+#include <stdlib.h> //for pbc_malloc, pbc_free
 #include <string.h> //for strcmp
 #include <gmp.h>
 #include "pbc_utils.h"
@@ -1514,7 +1514,9 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    //use q and h as temp variables
+    pbc_mpz_randomb(q, 1);
+    if (mpz_sgn(q)) {
       sp->exp2 = rbits - 1;
       sp->sign1 = 1;
     } else {
@@ -1523,9 +1525,10 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
     }
     mpz_setbit(r, sp->exp2);
 
-    //use q as a temp variable
+    mpz_set_ui(h, sp->exp2 - 1);
+    pbc_mpz_random(q, h);
+    sp->exp1 = mpz_get_ui(q) + 1;
     mpz_set_ui(q, 0);
-    sp->exp1 = (rand() % (sp->exp2 - 1)) + 1;
     mpz_setbit(q, sp->exp1);
     if (sp->sign1 > 0) {
       mpz_add(r, r, q);
@@ -1533,7 +1536,8 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    pbc_mpz_randomb(q, 1);
+    if (mpz_sgn(q)) {
       sp->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 76c69ce..4742fa3 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1,7 +1,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
-#include <stdlib.h> //for rand, pbc_malloc, pbc_free
+#include <stdlib.h> //for pbc_malloc, pbc_free
 #include <string.h> //for strcmp
 #include <gmp.h>
 #include "pbc_utils.h"
@@ -926,7 +926,9 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    //use q and h as temp variables
+    pbc_mpz_randomb(q, 1);
+    if (mpz_sgn(q)) {
       p->exp2 = rbits - 1;
       p->sign1 = 1;
     } else {
@@ -935,8 +937,9 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     }
     mpz_setbit(r, p->exp2);
 
-    p->exp1 = (rand() % (p->exp2 - 1)) + 1;
-    //use q as a temp variable
+    mpz_set_ui(h, p->exp2 - 1);
+    pbc_mpz_random(q, h);
+    p->exp1 = mpz_get_ui(q) + 1;
     mpz_set_ui(q, 0);
     mpz_setbit(q, p->exp1);
 
@@ -946,7 +949,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    pbc_mpz_randomb(q, 1);
+    if (mpz_sgn(q)) {
       p->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
-- 
2.43.0


From 052bf9490ebb732ffa8f0374b04687afb0bfc7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:56 +0000
Subject: [PATCH 50/67] fix: a source of random bytes that ran out left
 uninitialised bytes in the number and leaked

---
 arith/random.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..88e2767 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,17 +31,21 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
-  if (!fp) return;
+  if (!fp) {
+    pbc_warn("could not open source of random bits");
+    return;
+  }
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
-      return;
+      mpz_set(z, r);
+      break;
     }
     if (leftover) {
       *bytes = *bytes % (1 << leftover);
-- 
2.43.0


From d0b2447232855fae88e7948aa95462cec3a7dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:56 +0000
Subject: [PATCH 51/67] fix: a random point of a type I curve was off the curve
 when its x-coordinate came out zero

---
 ecc/eta_T_3.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..a5e0fd0 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -97,9 +97,7 @@ static void point_random(element_t a) {
     element_set1(e1);
     element_init(t2, f);
     do {
-        element_random(x);
-        if (element_is0(x))
-            continue;
+        do element_random(x); while (element_is0(x));
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
-- 
2.43.0


From 0840677ec5158001d0b97a014550e7da8dbb9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 52/67] fix: the random-walk discrete logarithm answered
 wrongly when a collision did not determine the exponent

---
 arith/dlog.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..95fc0d6 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -68,7 +68,7 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   darray_t hole;
   int interval = 5;
   mpz_t counter;
-  int found = 0;
+  int found = 0, collided = 0;
 
   mpz_init(counter);
   element_init(g0, G);
@@ -133,31 +133,35 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
           mpz_divexact(zm, Zr->order, zd);
           mpz_divexact(zb, zb, zd);
           //if zd does not divide za there is no solution
-          mpz_divexact(za, za, zd);
-          mpz_invert(zb, zb, zm);
-          mpz_mul(zb, za, zb);
-          mpz_mod(zb, zb, zm);
-          do {
-            element_pow_mpz(g0, g, zb);
-            if (!element_cmp(g0, h)) {
-              element_set_mpz(x, zb);
-              break;
-            }
-            mpz_add(zb, zb, zm);
-            mpz_sub_ui(zd, zd, 1);
-          } while (mpz_sgn(zd));
+          if (mpz_divisible_p(za, zd)) {
+            mpz_divexact(za, za, zd);
+            mpz_invert(zb, zb, zm);
+            mpz_mul(zb, za, zb);
+            mpz_mod(zb, zb, zm);
+            do {
+              element_pow_mpz(g0, g, zb);
+              if (!element_cmp(g0, h)) {
+                element_set_mpz(x, zb);
+                found = 1;
+                break;
+              }
+              mpz_add(zb, zb, zm);
+              mpz_sub_ui(zd, zd, 1);
+            } while (mpz_sgn(zd));
+          }
           mpz_clear(zm);
           mpz_clear(za);
           mpz_clear(zb);
           mpz_clear(zd);
-        } else {
+        } else if (!element_is0(bsum)) {
           element_div(x, asum, bsum);
+          found = 1;
         }
-        found = 1;
+        collided = 1;
         break;
       }
     }
-    if (found) break;
+    if (collided) break;
 
     mpz_add_ui(counter, counter, 1);
     if (mpz_tstbit(counter, interval)) {
@@ -184,4 +188,6 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   element_clear(asum);
   element_clear(bsum);
   mpz_clear(counter);
+  //start afresh if the collision did not determine x
+  if (!found) element_dlog_pollard_rho(x, g, h);
 }
-- 
2.43.0


From b58a240b3648ac79c0655008c9beb44483fe1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:55 +0000
Subject: [PATCH 53/67] fix: type E pairing of a point with itself, its
 negative or its double was garbage with elliptic nets

---
 ecc/e_param.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index 4742fa3..080c5f1 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -493,6 +493,18 @@ static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
   element_ptr x2 = curve_x_coord(in2);
   element_ptr y2 = curve_y_coord(in2);
 
+  // The net below has zero divisors if in2 = +-in1 or in2 = 2 in1:
+  // use Miller's algorithm instead.
+  element_t twice;
+  element_init_same_as(twice, in1);
+  element_double(twice, in1);
+  int degenerate = !element_cmp(x, x2) || !element_cmp(twice, in2);
+  element_clear(twice);
+  if (degenerate) {
+    e_pairing(out, in1, in2, pairing);
+    return;
+  }
+
   //notation: cmi means c_{k-i}, ci means c_{k+i}
   element_t cm3, cm2, cm1, c0, c1, c2, c3, c4;
   element_t dm1, d0, d1;
-- 
2.43.0


From a21d32b07482935e66a45bb856bd743c629f6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:22 +0000
Subject: [PATCH 54/67] fix: C++ Pairing ignored refused parameters and then
 cleared a pairing that was never made

---
 include/pbcxx.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 75ac4ea..43ffb00 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -2,6 +2,7 @@
 #define PBC_PBCXX_H
 
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <pbc/pbc.h>
 
@@ -390,9 +391,12 @@ class Pairing {
 
  public:
 
-  // Initialize pairing based on given params.
+  // Initialize pairing based on given params. Throws invalid_argument if they
+  // are not understood: there is no pairing to work with (or to clear) then.
   Pairing(const string& params) {
-    pairing_init_set_buf(pairing_, params.c_str(), params.size());
+    if (pairing_init_set_buf(pairing_, params.c_str(), params.size())) {
+      throw std::invalid_argument("bad pairing parameters");
+    }
   }
 
   ~Pairing() {
-- 
2.43.0


From 226d11b520eac2a9e43046ea0fef7fd1beda719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:22 +0000
Subject: [PATCH 55/67] fix: copying a C++ Pairing cleared the pairing twice

---
 include/pbcxx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 43ffb00..994df62 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -399,6 +399,10 @@ class Pairing {
     }
   }
 
+  // A copy would share the pairing and clear it a second time.
+  Pairing(const Pairing&) = delete;
+  Pairing& operator=(const Pairing&) = delete;
+
   ~Pairing() {
     pairing_clear(pairing_);
   }
-- 
2.43.0


From 55adadf4d1747484e93e2c5ea55fa59ef0c29b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:54 +0000
Subject: [PATCH 56/67] fix: Freeman curve search took the wrong sign of x for
 half of the Pell solutions

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..c3e85ee 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // -U = 15x + 5.
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From b279295dd1cdc6cd5e042f734fe4be86554b3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:47 +0000
Subject: [PATCH 57/67] fix: type E and F parameter generation leaked the curve
 they tested

---
 ecc/e_param.c | 2 ++
 ecc/f_param.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index 080c5f1..ef3fa2d 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1016,6 +1016,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   }
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
+  field_clear(cc);
+  field_clear(Fq);
 
   mpz_clear(n);
 }
diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..204c699 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -529,6 +529,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     element_clear(P);
     field_clear(c);
   }
+  element_clear(P);
+  field_clear(c);
   element_to_mpz(b, e1);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
-- 
2.43.0


From caffc1bf43950896accb01f4693651ac0ae2be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 58/67] fix: CM searches reported group orders longer than the
 limit given

---
 ecc/mnt.c | 52 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index c3e85ee..39f067f 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -200,7 +200,7 @@ void pbc_cm_clear(pbc_cm_t cm) {
 }
 
 static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   int d;
   mpz_t n, l, q;
   mpz_t p;
@@ -265,16 +265,19 @@ static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
   }
   }
 
-  pbc_cm_t cm;
-  pbc_cm_init(cm);
-  cm->k = 6;
-  cm->D = D;
-  mpz_set(cm->q, q);
-  mpz_set(cm->r, r);
-  mpz_set(cm->h, cofac);
-  mpz_set(cm->n, n);
-  int res = callback(cm, data);
-  pbc_cm_clear(cm);
+  int res = 0;
+  if (mpz_sizeinbase(r, 2) <= bitlimit) {
+    pbc_cm_t cm;
+    pbc_cm_init(cm);
+    cm->k = 6;
+    cm->D = D;
+    mpz_set(cm->q, q);
+    mpz_set(cm->r, r);
+    mpz_set(cm->h, cofac);
+    mpz_set(cm->n, n);
+    res = callback(cm, data);
+    pbc_cm_clear(cm);
+  }
 
   mpz_clear(cofac);
   mpz_clear(r);
@@ -313,7 +316,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   if (n) for (;;) {
     for (i=0; i<n; i++) {
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
-      res = mnt_step2(callback, data, D, ps->x[i]);
+      res = mnt_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       //compute next solution as follows
       //if p, q is current solution
@@ -343,7 +346,7 @@ toobig:
 }
 
 static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   mpz_t n, x, q;
   mpz_t p;
   mpz_t r, cofac;
@@ -424,15 +427,18 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   }
   }
 
-  pbc_cm_init(cm);
-  cm->k = 10;
-  cm->D = D;
-  mpz_set(cm->q, q);
-  mpz_set(cm->r, r);
-  mpz_set(cm->h, cofac);
-  mpz_set(cm->n, n);
-  int res = callback(cm, data);
-  pbc_cm_clear(cm);
+  int res = 0;
+  if (mpz_sizeinbase(r, 2) <= bitlimit) {
+    pbc_cm_init(cm);
+    cm->k = 10;
+    cm->D = D;
+    mpz_set(cm->q, q);
+    mpz_set(cm->r, r);
+    mpz_set(cm->h, cofac);
+    mpz_set(cm->n, n);
+    res = callback(cm, data);
+    pbc_cm_clear(cm);
+  }
 
   mpz_clear(cofac);
   mpz_clear(r);
@@ -468,7 +474,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
   n = ps->count;
   if (n) for (;;) {
     for (i=0; i<n; i++) {
-      res = freeman_step2(callback, data, D, ps->x[i]);
+      res = freeman_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       // Compute next solution as follows:
       // If p, q is current solution
-- 
2.43.0


From 41c3a57d97f82ad8bac6d88a793f5fe9adc2e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:06 +0000
Subject: [PATCH 59/67] fix: pbc: an assignment used as an operand let the
 operator change the variable

eval_assign() returned the very value it had stored, and operators write
their result over their first operand: after (a := 3) + 4, a was 7.
---
 pbc/pbc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a9c1385..39dd07b 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -422,7 +422,8 @@ static val_ptr eval_assign(tree_ptr t) {
     return val_new_error("%s is reserved", tid->id);
   }
   symtab_put(tab, v, tid->id);
-  return v;
+  // Operators reuse their operands, so never hand out the stored value itself.
+  return v ? v->type->eval(v) : v;
 }
 
 static void assign_field(field_ptr f, const char* s) {
-- 
2.43.0


From 04dfde31f9322e1b3c9f679fab66fb034287dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:06 +0000
Subject: [PATCH 60/67] fix: pbc: assignment bound tighter than comparisons and
 the ternary operator

x := a == b stored a in x, and x := c ? 1 : 2 stored c. The value of an
assignment "variable := expression" is that of the whole expression.
---
 pbc/parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/parser.y b/pbc/parser.y
index d51cebc..b102e29 100644
--- a/pbc/parser.y
+++ b/pbc/parser.y
@@ -22,9 +22,9 @@ extern int option_easy;
 %token TERMINATOR
 %token NUM ID
 %token LPAR RPAR LSQU RSQU LBRACE RBRACE COMMA
+%right ASSIGN
 %right QUESTION COLON
 %left EQ NE LT T_GT LE GE
-%right ASSIGN
 %left PLUS MINUS
 %left DIVIDE TIMES
 %right UMINUS
-- 
2.43.0


From 6c1f3f473bae85738fbe968f36e827c1552e8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:06 +0000
Subject: [PATCH 61/67] fix: pbc: extend() could not be called with its two
 arguments

Its arity was given as 1, so extend(F, f) was rejected and extend(F) read
an argument that was not there.
---
 pbc/pbc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 39dd07b..0cde6a0 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -708,7 +708,7 @@ static val_ptr run_extend(val_ptr v[]) {
   element_free(poly);
   return val_new_field(f);
 }
-static fun_t fun_extend = {{ "extend", run_extend, 1, sig_field_elem }};
+static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
   pairing_init_set_str(pairing, s);
-- 
2.43.0


From 5db66b571ae51ccd2f31c8549c823a265252ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:06 +0000
Subject: [PATCH 62/67] fix: pbc: parameters were bound while later arguments
 were still to be evaluated

With define f(a, b) {...}, f(1, a) passed 1 twice whatever a was.
---
 pbc/pbc.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 0cde6a0..787121b 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -161,12 +161,16 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   if (1 + n != darray_count(t->child)) {
     return val_new_error("%s: wrong number of arguments", name);
   }
+  // Evaluate every argument before binding any parameter.
+  val_ptr* arg = pbc_malloc(n * sizeof(val_ptr));
+  for(i = 0; i < n; i++) {
+    arg[i] = tree_eval(darray_at(t->child, i));
+  }
   for(i = 0; i < n; i++) {
-    const char *id = ((tree_ptr) darray_at(parm, i))->id;
-    val_ptr v1 = tree_eval(darray_at(t->child, i));
     // TODO: Stack frames for recursion.
-    symtab_put(tab, v1, id);
+    symtab_put(tab, arg[i], ((tree_ptr) darray_at(parm, i))->id);
   }
+  pbc_free(arg);
   // Evaluate function body.
   darray_ptr a = ((tree_ptr) darray_at(v->def->child, 2))->child;
   darray_forall(a, eval_stmt);
-- 
2.43.0


From 27dd62f5ce6457ad71506a3cf9ce6916967000a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:06 +0000
Subject: [PATCH 63/67] fix: pbc: crashes when an element is called or a call
 without a value is used

Functions that return nothing (user-defined ones, init_pairing_*) evaluate
to NULL, which arguments, lists, conditions and calls dereferenced; a call
of an element went through a NULL pointer; conversions did not look at the
number and type of their arguments.
---
 pbc/pbc.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 787121b..e17f1ec 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -140,7 +140,8 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
   int i;
   for(i = 0; i < n; i++) {
     arg[i] = tree_eval(darray_at(t->child, i));
-    if (fun->sig[i] && arg[i]->type != fun->sig[i]) {
+    if (!arg[i] || (fun->sig[i] && arg[i]->type != fun->sig[i])) {
+      pbc_free(arg);
       return val_new_error("%s: argument %d type mismatch", fun->name, i + 1);
     }
   }
@@ -177,9 +178,16 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   return NULL;
 }
 
+static struct val_type_s v_elem[1];
+
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
-  // TODO: Check args, x is an element.
+  if (2 != darray_count(t->child)) {
+    return val_new_error("field: wrong number of arguments");
+  }
   val_ptr x = tree_eval(darray_at(t->child, 0));
+  if (!x || x->type != v_elem) {
+    return val_new_error("field: argument 1 type mismatch");
+  }
   element_ptr e = x->elem;
   if (e->field == M) {
     if (v->field == M) return x;
@@ -369,10 +377,10 @@ static val_ptr eval_list(tree_ptr t) {
   for(i = 0; i < n; i++) {
     val_ptr x = tree_eval(darray_at(t->child, i));
     // TODO: Also check x is a multiz.
-    if (v_error == x->type) {
+    if (x && v_error == x->type) {
       return x;
     }
-    if (v_elem != x->type) {
+    if (!x || v_elem != x->type) {
       return val_new_error("element expected in list");
     }
     if (!i) e = multiz_new_list(x->elem);
@@ -383,10 +391,10 @@ static val_ptr eval_list(tree_ptr t) {
 
 static val_ptr eval_ternary(tree_ptr t) {
   val_ptr x = tree_eval(darray_at(t->child, 0));
-  if (v_error == x->type) {
+  if (x && v_error == x->type) {
     return x;
   }
-  if (x->type != v_elem) {
+  if (!x || x->type != v_elem) {
     return val_new_error("element expected in ternary operator");
   }
   if (!element_is0(x->elem)) {
@@ -406,6 +414,7 @@ static val_ptr eval_id(tree_ptr t) {
 
 static val_ptr eval_funcall(tree_ptr t) {
   val_ptr x = tree_eval(darray_last(t->child));
+  if (!x || !x->type->funcall) return val_new_error("function expected");
   return x->type->funcall(x, t);
 }
 
-- 
2.43.0


From 21c7aff94636df492a055a8587d7abd1fa8ec73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:06 +0000
Subject: [PATCH 64/67] fix: pbc: init_pairing_*() corrupted the elements of
 the previous groups

The one static pairing was initialised anew in place, under elements that
variables still held: their Zr changed its modulus, and pairing() applied
the new pairing to elements of the old groups.
---
 pbc/pbc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index e17f1ec..110fedc 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -36,7 +36,6 @@ static symtab_t tab;
 
 static field_t M;
 static field_t Z;
-static pairing_t pairing;
 
 struct val_s;
 typedef struct val_s *val_ptr;
@@ -724,6 +723,8 @@ static val_ptr run_extend(val_ptr v[]) {
 static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
+  // Elements of the previous groups may live on, so those are kept.
+  pairing_ptr pairing = pbc_malloc(sizeof(*pairing));
   pairing_init_set_str(pairing, s);
   assign_field(pairing->G1, "G1");
   assign_field(pairing->G2, "G2");
-- 
2.43.0


From b6c104138848a6153dd8fa1a54f9744fdb5515de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:36 +0000
Subject: [PATCH 65/67] fix: pbc: dividing an integer by zero killed the
 calculator

1/0 reached mpz_tdiv_q(), which raises SIGFPE.
---
 pbc/pbc.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 110fedc..2574833 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -290,7 +290,18 @@ static val_ptr fun_bin(
 static val_ptr run_add(val_ptr v[]) { return fun_bin(element_add, v); }
 static val_ptr run_sub(val_ptr v[]) { return fun_bin(element_sub, v); }
 static val_ptr run_mul(val_ptr v[]) { return fun_bin(element_mul, v); }
-static val_ptr run_div(val_ptr v[]) { return fun_bin(element_div, v); }
+static val_ptr run_div(val_ptr v[]) {
+  if (v[1]->elem->field == M) {
+    // Integers and lists are divided by the constant term of the divisor.
+    mpz_t z;
+    mpz_init(z);
+    element_to_mpz(z, v[1]->elem);
+    int is_zero = !mpz_sgn(z);
+    mpz_clear(z);
+    if (is_zero) return val_new_error("division by zero");
+  }
+  return fun_bin(element_div, v);
+}
 static val_ptr run_pow(val_ptr v[]) { return fun_bin(element_pow_zn, v); }
 
 static fun_t fun_add = {{ "add", run_add, 2, sig_elem_elem }};
-- 
2.43.0


From 7f5b24731a1655f2529e88e743c1ad2a6b8f5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:36 +0000
Subject: [PATCH 66/67] fix: pbc: an index outside a list read memory outside
 it

a[i] passed any i to element_item(), and dereferenced the NULL it gives for
an integer.
---
 pbc/pbc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 2574833..735c216 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -601,8 +601,11 @@ static val_ptr run_item(val_ptr v[]) {
   mpz_t z;
   mpz_init(z);
   element_to_mpz(z, v[1]->elem);
+  int is_valid = mpz_sgn(z) >= 0 &&
+      mpz_cmp_si(z, element_item_count(v[0]->elem)) < 0;
   int i = (int)mpz_get_si(z);
   mpz_clear(z);
+  if (!is_valid) return val_new_error("index out of range");
   element_ptr a = element_item(v[0]->elem, i);
   element_ptr e = pbc_malloc(sizeof(*e));
   element_init_same_as(e, a);
-- 
2.43.0


From daf20e4441818d08650aa9b31b8311f818a6f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:36 +0000
Subject: [PATCH 67/67] fix: pbc: lines over 1023 bytes were split, and an
 unterminated last line lost

A newline was inserted in the middle of a long line, so a number there
became two tokens; a last line without a newline was not evaluated. The
newline was also kept, unlike in the readline version, which made every
line of the -y mode end with an extra, empty statement.
---
 pbc/pbc_getline.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pbc/pbc_getline.c b/pbc/pbc_getline.c
index dc44cc4..4ba74c5 100644
--- a/pbc/pbc_getline.c
+++ b/pbc/pbc_getline.c
@@ -1,17 +1,32 @@
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "pbc_memory.h"
 
+// Like readline(), returns a line without its newline, or NULL at the end.
 char *pbc_getline(const char *prompt) {
-  char s[1024];
-  if (prompt) fputs(prompt, stdout);
-  if (!fgets(s, 1024, stdin)) return NULL;
-  if (feof(stdin)) return NULL;
-  /* use strdup rather than pbc_strdup. because
+  size_t n = 0, max = 1024;
+  /* use malloc rather than pbc_malloc. because
    * 1. readline version of this function uses malloc.
-   * 2. pbc_malloc called by pbc_strdup may differ from malloc.
+   * 2. pbc_malloc may differ from malloc.
    * here we keep consistency.
    */
-  return strdup(s);
+  char *s = malloc(max);
+  if (!s) return NULL;
+  if (prompt) fputs(prompt, stdout);
+  while (fgets(s + n, max - n, stdin)) {
+    n += strlen(s + n);
+    if (n && s[n - 1] == '\n') {
+      s[n - 1] = '\0';
+      return s;
+    }
+    max *= 2;
+    char *t = realloc(s, max);
+    if (!t) break;
+    s = t;
+  }
+  if (n) return s;
+  free(s);
+  return NULL;
 }
-- 
2.43.0

