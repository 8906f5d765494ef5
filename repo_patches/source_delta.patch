From 874f43c0f475f5978517a90ece5add2ea8136f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 01/61] fix: int_gcd is non-negative when one argument is zero

---
 spffl/intmath/int_gcd.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 56017f8..a4fabe3 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -12,13 +12,6 @@ namespace spffl::intmath {
 int int_gcd(int a, int b) {
   int r;
 
-  if (a == 0) {
-    return b;
-  }
-  if (b == 0) {
-    return a;
-  }
-
   if (a < 0) { // Breaks for most negative int (-2^63); I don't care.
     a = -a;
   }
@@ -26,6 +19,13 @@ int int_gcd(int a, int b) {
     b = -b;
   }
 
+  if (a == 0) {
+    return b;
+  }
+  if (b == 0) {
+    return a;
+  }
+
   while (1) {
     r = a % b;
     if (r == 0) {
-- 
2.43.0


From 09594c828aa9406b35e656471a6235963a3e32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 02/61] fix: int_ext_gcd no longer divides by zero, and its gcd
 is non-negative

---
 spffl/intmath/int_gcd.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index a4fabe3..8351682 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -51,6 +51,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
   c      = a;
   d      = b;
 
+  if (d == 0) {
+    m = (a < 0) ? -1 : 1;
+    n = 0;
+    return (a < 0) ? -a : a;
+  }
+
   while (1) {
 
     // Divide
@@ -77,6 +83,12 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
     qn     = q * n;
     n      = t - qn;
   }
+
+  if (d < 0) {
+    d = -d;
+    m = -m;
+    n = -n;
+  }
   return d;
 }
 
-- 
2.43.0


From d14683c57c174f0e43e910d890b2d0425e4c3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 03/61] fix: int_lcm: zero arguments, sign, and premature
 overflow

---
 spffl/intmath/int_gcd.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/int_gcd.cpp b/spffl/intmath/int_gcd.cpp
index 8351682..05c21af 100644
--- a/spffl/intmath/int_gcd.cpp
+++ b/spffl/intmath/int_gcd.cpp
@@ -93,7 +93,13 @@ int int_ext_gcd(int a, int b, int &m, int &n) {
 }
 
 // ----------------------------------------------------------------
-int int_lcm(int a, int b) { return (a * b) / int_gcd(a, b); }
+int int_lcm(int a, int b) {
+  if (a == 0 || b == 0) {
+    return 0;
+  }
+  int lcm = (a / int_gcd(a, b)) * b;
+  return (lcm < 0) ? -lcm : lcm;
+}
 
 // ----------------------------------------------------------------
 int gcd(const int a, const int b) { return int_gcd(a, b); }
-- 
2.43.0


From e92703493e3f9d853198c8a3713a32701741b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 04/61] fix: intmod_t arithmetic overflowed int for large
 moduli and operands

---
 spffl/intmath/intmod_t.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 4ca4b6c..01eb28d 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -52,10 +52,10 @@ intmod_t intmod_t::exp(int e) const {
 
   while (e != 0) {
     if (e & 1) {
-      rv.residue = (rv.residue * xp) % this->modulus;
+      rv.residue = (int)(((long long)rv.residue * xp) % this->modulus);
     }
     e  = (unsigned)e >> 1;
-    xp = (xp * xp) % this->modulus;
+    xp = (int)(((long long)xp * xp) % this->modulus);
   }
 
   return rv;
@@ -260,14 +260,15 @@ intmod_t &intmod_t::operator=(const intmod_t &that) {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue + that.residue, this->modulus);
+  long long sum = (long long)this->residue + that.residue;
+  intmod_t rv((int)(sum % this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->modulus + this->residue - that.residue, this->modulus);
+  intmod_t rv(this->residue - that.residue, this->modulus);
   return rv;
 }
 
@@ -281,25 +282,29 @@ intmod_t intmod_t::operator-(void) const {
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(const intmod_t &that) const {
   this->check_moduli(that);
-  intmod_t rv(this->residue * that.residue, this->modulus);
+  long long product = (long long)this->residue * that.residue;
+  intmod_t rv((int)(product % this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator+(int a) const {
-  intmod_t rv(this->residue + a, this->modulus);
+  long long sum = (long long)this->residue + a;
+  intmod_t rv((int)(sum % this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator-(int a) const {
-  intmod_t rv(this->modulus + this->residue - a, this->modulus);
+  long long difference = (long long)this->residue - a;
+  intmod_t rv((int)(difference % this->modulus), this->modulus);
   return rv;
 }
 
 // ----------------------------------------------------------------
 intmod_t intmod_t::operator*(int a) const {
-  intmod_t rv(this->residue * a, this->modulus);
+  long long product = (long long)this->residue * a;
+  intmod_t rv((int)(product % this->modulus), this->modulus);
   return rv;
 }
 
-- 
2.43.0


From fac123513d10722d02f21e6e3de3bbae449fae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 05/61] fix: intmod_t::recip: 0^0 exception on small moduli,
 int overflow and non-termination on large ones

---
 spffl/intmath/intmod_t.cpp | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index 01eb28d..f1cb8e8 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -6,6 +6,7 @@
 
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/base/spffl_exception.h"
+#include "spffl/intmath/int_gcd.h"
 #include <iomanip>
 #include <iostream>
 
@@ -342,30 +343,12 @@ intmod_t intmod_t::operator%(const intmod_t &that) const {
 bool intmod_t::recip(intmod_t &rinv) const {
   this->check_modulus();
 
-  if (this->modulus == 2) {
-    if (this->residue == 0) {
-      return false;
-    } else {
-      rinv = *this;
-      return true;
-    }
-  }
-
-  static int mlast = 2;
-  static int phi   = 1;
-  if (this->modulus != mlast) { // Cache
-    mlast = this->modulus;
-    phi   = int_totient(this->modulus);
-  }
-
-  intmod_t rv = this->exp(phi - 1);
-  int check   = (this->residue * rv.residue) % this->modulus;
-  if (check != 1) {
+  int r, s;
+  if (int_ext_gcd(this->residue, this->modulus, r, s) != 1) {
     return false;
-  } else {
-    rinv = rv;
-    return true;
   }
+  rinv = intmod_t(r, this->modulus);
+  return true;
 }
 
 } // namespace spffl::intmath
-- 
2.43.0


From 414a19cca07978ffbb7ef96b2b8958a8ba17cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 06/61] fix: reading a negative number into an intmod_t left a
 negative residue

---
 spffl/intmath/intmod_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/intmath/intmod_t.cpp b/spffl/intmath/intmod_t.cpp
index f1cb8e8..cd35c4c 100644
--- a/spffl/intmath/intmod_t.cpp
+++ b/spffl/intmath/intmod_t.cpp
@@ -87,8 +87,10 @@ std::istream &operator>>(std::istream &is, intmod_t &a) {
   }
 
   a.check_modulus();
-  is >> a.residue;
-  a.residue %= a.modulus;
+  int residue;
+  if (is >> residue) {
+    a = intmod_t(residue, a.modulus);
+  }
   return is;
 }
 
-- 
2.43.0


From 8632771d214a6c7b6f6165724ab0c6bd3abedae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 07/61] fix: intrat_t::exp no longer overflows computing an
 unused power

---
 spffl/intmath/intrat_t.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index 14bd838..a8f28ed 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -156,7 +156,9 @@ intrat_t intrat_t::exp(int e) {
       rv *= xp;
     }
     e = (unsigned)e >> 1;
-    xp *= xp;
+    if (e != 0) {
+      xp *= xp;
+    }
   }
 
   return rv;
-- 
2.43.0


From 30105223e1c46e618553c06e9db8dfad2f07acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/61] fix: unary minus on polynomials wrote past the end of
 the coefficient array and lost the degree

---
 spffl/polynomials/f2n_poly_t.cpp | 2 ++
 spffl/polynomials/fp_poly_t.cpp  | 2 ++
 spffl/polynomials/fpn_poly_t.cpp | 2 ++
 spffl/polynomials/q_poly_t.cpp   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f4bf107..70bedcd 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -222,6 +222,8 @@ f2n_poly_t f2n_poly_t::operator-(const f2_polymod_t &a) const {
 // ----------------------------------------------------------------
 f2n_poly_t f2n_poly_t::operator-(void) const {
   f2n_poly_t rv;
+  delete[] rv.coeffs;
+  rv.degree = this->degree;
   rv.coeffs = new f2_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 2225c4e..1dcd80a 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -196,6 +196,8 @@ fp_poly_t fp_poly_t::operator-(const fp_poly_t &that) const {
 // ----------------------------------------------------------------
 fp_poly_t fp_poly_t::operator-(void) const {
   fp_poly_t rv;
+  delete[] rv.coeffs;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 968c3db..706d727 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -166,6 +166,8 @@ fpn_poly_t fpn_poly_t::operator-(const fpn_poly_t &that) const {
 // ----------------------------------------------------------------
 fpn_poly_t fpn_poly_t::operator-(void) const {
   fpn_poly_t rv;
+  delete[] rv.coeffs;
+  rv.degree = this->degree;
   rv.coeffs = new fp_polymod_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c39c7b8..ca0685f 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -165,6 +165,8 @@ q_poly_t q_poly_t::operator-(const spffl::intmath::intrat_t &a) const {
 // ----------------------------------------------------------------
 q_poly_t q_poly_t::operator-(void) const {
   q_poly_t rv;
+  delete[] rv.coeffs;
+  rv.degree = this->degree;
   rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
   for (int i = 0; i <= this->degree; i++) {
     rv.coeffs[i] = -this->coeffs[i];
-- 
2.43.0


From fda5a3d7d91d97cc982dcd7a56c2350c12e51295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 09/61] fix: self-assignment of a polynomial read freed memory

---
 spffl/polynomials/f2n_poly_t.cpp | 3 +++
 spffl/polynomials/fp_poly_t.cpp  | 3 +++
 spffl/polynomials/fpn_poly_t.cpp | 3 +++
 spffl/polynomials/q_poly_t.cpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 70bedcd..05cdd8f 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -136,6 +136,9 @@ int f2n_poly_t::get_characteristic(void) const { return 2; }
 
 // ----------------------------------------------------------------
 f2n_poly_t &f2n_poly_t::operator=(const f2n_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 1dcd80a..8376154 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -126,6 +126,9 @@ int fp_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fp_poly_t &fp_poly_t::operator=(const fp_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 706d727..933bfc9 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -96,6 +96,9 @@ int fpn_poly_t::get_characteristic(void) const {
 
 // ----------------------------------------------------------------
 fpn_poly_t &fpn_poly_t::operator=(const fpn_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index ca0685f..ce8cec3 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -79,6 +79,9 @@ q_poly_t::~q_poly_t(void) {
 
 // ----------------------------------------------------------------
 q_poly_t &q_poly_t::operator=(const q_poly_t &that) {
+  if (this == &that) {
+    return *this;
+  }
   if (this->coeffs) {
     delete[] this->coeffs;
   }
-- 
2.43.0


From 9334909a9654bc930674003fafa6aef2403147aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 10/61] fix: ext_gcd of a polynomial with zero raised a
 division-by-zero error

---
 spffl/polynomials/f2n_poly_t.cpp | 6 ++++++
 spffl/polynomials/fp_poly_t.cpp  | 6 ++++++
 spffl/polynomials/fpn_poly_t.cpp | 6 ++++++
 spffl/polynomials/q_poly_t.cpp   | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 05cdd8f..4092261 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -467,6 +467,12 @@ f2n_poly_t f2n_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 8376154..3f5bca4 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -457,6 +457,12 @@ fp_poly_t fp_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 933bfc9..baa748d 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -437,6 +437,12 @@ fpn_poly_t fpn_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = this->prime_subfield_element(1);
+    rn = this->prime_subfield_element(0);
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index ce8cec3..d7f33e3 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -403,6 +403,12 @@ q_poly_t q_poly_t::ext_gcd(
   c      = *this;
   d      = that;
 
+  if (that == 0) {
+    rm = q_poly_t(1);
+    rn = q_poly_t(0);
+    return *this;
+  }
+
   while (1) {
     c.quot_and_rem(d, q, r);
     if (r == 0) {
-- 
2.43.0


From 6e48e032e66398065a8eda803e9b9d37e8a56fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 11/61] fix: promoting the zero polynomial gave it degree one

---
 spffl/polynomials/f2n_poly_t.cpp | 1 +
 spffl/polynomials/fp_poly_t.cpp  | 1 +
 spffl/polynomials/fpn_poly_t.cpp | 1 +
 spffl/polynomials/q_poly_t.cpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 4092261..95105a1 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -954,6 +954,7 @@ void f2n_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index 3f5bca4..c53cf0f 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -912,6 +912,7 @@ void fp_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index baa748d..789bb96 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -867,6 +867,7 @@ void fpn_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index d7f33e3..229a42c 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -803,6 +803,7 @@ void q_poly_t::promote(void) {
   this->coeffs[0] = this->coeffs[1] - this->coeffs[1];
   this->degree++;
   delete[] ocoeffs;
+  this->recompute_degree();
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From dfffcb8361d824c25d698ac6cd603112eb92d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 12/61] fix: a failed polynomial from_string left the object
 with a dangling coefficient pointer

---
 spffl/polynomials/f2n_poly_t.cpp | 16 ++++++++--------
 spffl/polynomials/fp_poly_t.cpp  | 28 ++++++++++++++++------------
 spffl/polynomials/fpn_poly_t.cpp | 16 ++++++++--------
 spffl/polynomials/q_poly_t.cpp   | 28 ++++++++++++++++------------
 4 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index 95105a1..b8627a5 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -893,9 +893,7 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  f2n_poly_t rv; // Leave *this as is on failure.
 
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -914,10 +912,11 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
     return false;
   }
 
-  this->degree = argc - 1;
-  this->coeffs = new f2_polymod_t[this->degree + 1];
+  rv.degree = argc - 1;
+  delete[] rv.coeffs;
+  rv.coeffs = new f2_polymod_t[rv.degree + 1];
   int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  for (argi = 0, ci = rv.degree; argi < argc; argi++, ci--) {
     // Scan each coefficient, then reduce mod m
     f2_poly_t r;
 
@@ -929,13 +928,14 @@ bool f2n_poly_t::from_string(const std::string &string, const f2_poly_t &m) {
          << "scan failure at \"" << string << "\"\n";
       return false;
     } else {
-      this->coeffs[ci] = f2_polymod_t(r, m);
+      rv.coeffs[ci] = f2_polymod_t(r, m);
     }
   }
   delete[] argv;
   free(dup);
 
-  this->recompute_degree();
+  rv.recompute_degree();
+  *this = rv;
   return true;
 }
 
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index c53cf0f..d822889 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -832,9 +832,7 @@ std::istream &operator>>(std::istream &is, fp_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fp_poly_t::from_string(const std::string &string, int p) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  fp_poly_t rv; // Leave *this as is on failure.
 
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -847,10 +845,14 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+    if (len < 1) {
+      return false;
+    }
+    rv.degree = len - 1;
+    delete[] rv.coeffs;
+    rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    for (si = 0, ci = rv.degree; si < len; si++, ci--) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
@@ -859,7 +861,7 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
         ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
+      rv.coeffs[ci] = spffl::intmath::intmod_t(ascii_digit - '0', p);
     }
   } else {
     char *dup   = strdup(string.c_str());
@@ -871,10 +873,11 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
       return false;
     }
 
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intmod_t[this->degree + 1];
+    rv.degree = argc - 1;
+    delete[] rv.coeffs;
+    rv.coeffs = new spffl::intmath::intmod_t[rv.degree + 1];
     int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    for (argi = 0, ci = rv.degree; argi < argc; argi++, ci--) {
       // Scan each coefficient, then reduce mod p
       int r;
 
@@ -886,14 +889,15 @@ bool fp_poly_t::from_string(const std::string &string, int p) {
            << "scan failure at \"" << string << "\"\n";
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intmod_t(r, p);
+        rv.coeffs[ci] = spffl::intmath::intmod_t(r, p);
       }
     }
     delete[] argv;
     free(dup);
   }
 
-  this->recompute_degree();
+  rv.recompute_degree();
+  *this = rv;
   return true;
 }
 
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 789bb96..267daa9 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -806,9 +806,7 @@ std::istream &operator>>(std::istream &is, fpn_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  fpn_poly_t rv; // Leave *this as is on failure.
 
   int num_colons = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -827,10 +825,11 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
     return false;
   }
 
-  this->degree = argc - 1;
-  this->coeffs = new fp_polymod_t[this->degree + 1];
+  rv.degree = argc - 1;
+  delete[] rv.coeffs;
+  rv.coeffs = new fp_polymod_t[rv.degree + 1];
   int argi, ci;
-  for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+  for (argi = 0, ci = rv.degree; argi < argc; argi++, ci--) {
     // Scan each coefficient, then reduce mod m
     fp_poly_t r = m; // Set modulus
 
@@ -842,13 +841,14 @@ bool fpn_poly_t::from_string(const std::string &string, fp_poly_t m) {
          << "scan failure at \"" << string << "\"\n";
       return false;
     } else {
-      this->coeffs[ci] = fp_polymod_t(r, m);
+      rv.coeffs[ci] = fp_polymod_t(r, m);
     }
   }
   delete[] argv;
   free(dup);
 
-  this->recompute_degree();
+  rv.recompute_degree();
+  *this = rv;
   return true;
 }
 
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 229a42c..9dc2107 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -723,9 +723,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 
 // ----------------------------------------------------------------
 bool q_poly_t::from_string(const std::string &string) {
-  if (this->coeffs) {
-    delete[] this->coeffs;
-  }
+  q_poly_t rv; // Leave *this as is on failure.
 
   int num_commas = 0;
   for (const char *q = string.c_str(); *q; q++) {
@@ -738,10 +736,14 @@ bool q_poly_t::from_string(const std::string &string) {
     // Allow comma-free input as long as all residues are
     // single-digit.
     int len      = string.length();
-    this->degree = len - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+    if (len < 1) {
+      return false;
+    }
+    rv.degree = len - 1;
+    delete[] rv.coeffs;
+    rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     int si, ci;
-    for (si = 0, ci = this->degree; si < len; si++, ci--) {
+    for (si = 0, ci = rv.degree; si < len; si++, ci--) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
         std::stringstream ss;
@@ -750,7 +752,7 @@ bool q_poly_t::from_string(const std::string &string) {
         ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
-      this->coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
+      rv.coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
     }
   } else {
     char *dup   = strdup(string.c_str());
@@ -762,10 +764,11 @@ bool q_poly_t::from_string(const std::string &string) {
       return false;
     }
 
-    this->degree = argc - 1;
-    this->coeffs = new spffl::intmath::intrat_t[this->degree + 1];
+    rv.degree = argc - 1;
+    delete[] rv.coeffs;
+    rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
     int argi, ci;
-    for (argi = 0, ci = this->degree; argi < argc; argi++, ci--) {
+    for (argi = 0, ci = rv.degree; argi < argc; argi++, ci--) {
       // Scan each coefficient.
       int r;
 
@@ -777,14 +780,15 @@ bool q_poly_t::from_string(const std::string &string) {
            << "scan failure at \"" << string << "\"\n";
         return false;
       } else {
-        this->coeffs[ci] = spffl::intmath::intrat_t(r);
+        rv.coeffs[ci] = spffl::intmath::intrat_t(r);
       }
     }
     delete[] argv;
     free(dup);
   }
 
-  this->recompute_degree();
+  rv.recompute_degree();
+  *this = rv;
   return true;
 }
 
-- 
2.43.0


From bf8d738fef240f54393796b97f92718d7062a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 13/61] fix: unary minus on polynomial fractions left them out
 of canonical form, so equal values compared unequal

---
 spffl/rationals/f2n_polyrat_t.cpp | 1 +
 spffl/rationals/fp_polyrat_t.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index c81e816..179fe19 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -99,6 +99,7 @@ f2n_polyrat_t f2n_polyrat_t::operator-(void) const {
   f2n_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 7878e52..1e1dc75 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -99,6 +99,7 @@ fp_polyrat_t fp_polyrat_t::operator-(void) const {
   fp_polyrat_t rv;
   rv.numer = -this->numer;
   rv.denom = this->denom;
+  rv.simplify();
   return rv;
 }
 
-- 
2.43.0


From 9be6338eb169ac269a289c4e8d8d731c4270e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 14/61] fix: f2_poly_t::set_coeff set the wrong bits at
 positions 31 and up

---
 spffl/polynomials/f2_poly_t.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index f428664..da1c503 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -767,6 +767,7 @@ void f2_poly_t::set_bit(int pos) {
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
@@ -776,11 +777,10 @@ void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
       return;
     }
   }
-  this->check_neg_pos(pos);
   if (b.get_residue()) {
-    this->parts[which_part] |= (1 << which_bit);
+    this->parts[which_part] |= (1ull << which_bit);
   } else {
-    this->parts[which_part] &= ~(1 << which_bit);
+    this->parts[which_part] &= ~(1ull << which_bit);
     this->trim_parts();
   }
 }
-- 
2.43.0


From b1d93d9f07c3f235279238cb5cd9ddf3f6ca861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 15/61] fix: assigning an int to a bit_t did not reduce it mod
 2

---
 spffl/bits/bit_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_t.h b/spffl/bits/bit_t.h
index f13f82e..f8efa0a 100644
--- a/spffl/bits/bit_t.h
+++ b/spffl/bits/bit_t.h
@@ -38,7 +38,7 @@ public:
   }
 
   bit_t &operator=(int e) {
-    this->residue = e;
+    this->residue = e & 1;
     return *this;
   }
 
-- 
2.43.0


From faa1d00612aee774daf35ac7967fe13e3139cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 16/61] fix: fp_polymod_t times a scalar multiplied the modulus
 instead of the residue

---
 spffl/polynomials/fp_polymod_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index eb90b3f..dde7ff5 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -109,7 +109,7 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
 // ----------------------------------------------------------------
 fp_polymod_t fp_polymod_t::operator*(spffl::intmath::intmod_t a) const {
   fp_polymod_t rv(*this);
-  rv.modulus *= a;
+  rv.residue *= a;
   return rv;
 }
 
-- 
2.43.0


From cde331468fd0a3aaf009b2cca60832709c1d8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 17/61] fix: multiplying fp_polymod_t and fpn_polymod_t by a
 negative integer

---
 spffl/polynomials/fp_polymod_t.cpp  | 3 +++
 spffl/polynomials/fpn_polymod_t.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/spffl/polynomials/fp_polymod_t.cpp b/spffl/polynomials/fp_polymod_t.cpp
index dde7ff5..a3bc342 100644
--- a/spffl/polynomials/fp_polymod_t.cpp
+++ b/spffl/polynomials/fp_polymod_t.cpp
@@ -96,6 +96,9 @@ fp_polymod_t fp_polymod_t::operator*(int a) const {
   fp_polymod_t rv(*this);
   int p = this->get_characteristic();
   a %= p;
+  if (a < 0) {
+    a += p;
+  }
   if (a == 0) {
     rv = rv - rv;
   } else {
diff --git a/spffl/polynomials/fpn_polymod_t.cpp b/spffl/polynomials/fpn_polymod_t.cpp
index cac4515..ff9eac8 100644
--- a/spffl/polynomials/fpn_polymod_t.cpp
+++ b/spffl/polynomials/fpn_polymod_t.cpp
@@ -95,7 +95,11 @@ fpn_polymod_t fpn_polymod_t::operator*(const fpn_polymod_t &that) const {
 
 // ----------------------------------------------------------------
 fpn_polymod_t fpn_polymod_t::operator*(int a) const {
-  // xxx get the characteristic and reduce a mod that.
+  int p = this->get_characteristic();
+  a %= p;
+  if (a < 0) {
+    a += p;
+  }
   fpn_polymod_t rv = *this - *this;
   for (int i = 0; i < a; i++) {
     rv += *this;
-- 
2.43.0


From d376d3e0422c2377008dc396901152b198df37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 18/61] fix: fpn_poly_t::pth_root did not take the pth roots of
 the coefficients

---
 spffl/polynomials/fpn_poly_t.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index 267daa9..ec21fe4 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -539,7 +539,12 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   }
 
   for (si = 0, di = 0; si <= this->degree; si += p, di++) {
-    out.coeffs[di] = this->coeffs[si];
+    // The pth root of c in F_{p^n} is c^{p^{n-1}}.
+    fp_polymod_t root = this->coeffs[si];
+    for (j = 1; j < m.find_degree() && root != zero; j++) {
+      root = root.exp(p);
+    }
+    out.coeffs[di] = root;
     for (j = 1; j < p; j++) {
       if (si + j > this->degree) {
         break;
-- 
2.43.0


From b10e643280486dadb0677c23ca9d2d3b77e5b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 19/61] fix: fpn_poly_t::pth_root always raised a mixed-moduli
 error

---
 spffl/polynomials/fpn_poly_t.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index ec21fe4..afe6c75 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -530,11 +530,10 @@ bool fpn_poly_t::pth_root(fpn_poly_t &rroot) const {
   fp_poly_t m       = this->coeffs[0].get_modulus();
   fp_polymod_t zero = this->coeffs[0].prime_subfield_element(0);
   int si, di, j;
-  fpn_poly_t out;
+  fpn_poly_t out(*this);
   int p = this->get_characteristic();
 
-  out.set_coeff(this->degree, zero);
-  for (di = this->degree - 1; di >= 0; di--) {
+  for (di = this->degree; di >= 0; di--) {
     out.coeffs[di] = zero;
   }
 
-- 
2.43.0


From 17e547d59646739a7de42e9d828fb28966f2ae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 20/61] fix: f2_poly_t bit access at a negative position
 emptied the polynomial instead of being refused

---
 spffl/polynomials/f2_poly_t.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index da1c503..bedf8f7 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -733,12 +733,12 @@ void f2_poly_t::_demote_1(void) {
 
 // ----------------------------------------------------------------
 int f2_poly_t::bit_at(int pos) const {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     return 0;
   }
-  this->check_neg_pos(pos);
   return (this->parts[which_part] >> which_bit) & F2_POLY_LSB;
 }
 
@@ -758,12 +758,12 @@ void f2_poly_t::dprint(std::ostream &os, int reqdeg) const {
 
 // ----------------------------------------------------------------
 void f2_poly_t::set_bit(int pos) {
+  this->check_neg_pos(pos);
   int which_part = pos >> F2_POLY_PART_LOG;
   int which_bit  = pos & F2_POLY_PART_MASK;
   if (which_part >= this->parts.size()) {
     this->extend_parts(which_part + 1);
   }
-  this->check_neg_pos(pos);
   this->parts[which_part] |= (F2_POLY_LSB << which_bit);
 }
 void f2_poly_t::set_coeff(int pos, spffl::bits::bit_t b) {
-- 
2.43.0


From 60e2df6a1b9731b9f29ce09a08d13816042f1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 21/61] fix: assigning a longer bit_vector_t wrote past the end
 of the old storage

---
 spffl/bits/bit_vector_t.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 42d568d..a4ef79d 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -98,14 +98,17 @@ bit_vector_t::~bit_vector_t(void) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
-  this->num_bits  = that.num_bits;
-  this->num_words = that.num_words;
+  if (this == &that) {
+    return *this;
+  }
   if (this->words == 0) {
     this->words = new uint64_t[that.num_words];
-  } else if (this->num_words < that.num_words) {
+  } else if (this->num_words != that.num_words) {
     delete[] this->words;
     this->words = new uint64_t[that.num_words];
   }
+  this->num_bits  = that.num_bits;
+  this->num_words = that.num_words;
   memcpy(this->words, that.words, that.num_words * sizeof(uint64_t));
   return *this;
 }
-- 
2.43.0


From e2dcbb2b99320926396c68bf5c04fbc8ea2eb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 22/61] fix: bit_vector_t filled with ones had the wrong bits
 in its last, partial word

---
 spffl/bits/bit_vector_t.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index a4ef79d..c7b44a6 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -415,9 +415,7 @@ void bit_vector_t::trim(void) {
   if (num_dribble_bits == 0) {
     return;
   }
-  this->words[this->num_words - 1] &=
-      ((1 << (BITS_PER_WORD - num_dribble_bits)) - 1)
-      << (BITS_PER_WORD - this->num_bits);
+  this->words[this->num_words - 1] &= ~(uint64_t)0 << num_dribble_bits;
 }
 
 // ----------------------------------------------------------------
-- 
2.43.0


From 38d2a64d8169dac55edbaf0ad67a9de3b57f8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 23/61] fix: comparing bit_vector_t ignored the last word

---
 spffl/bits/bit_vector_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index c7b44a6..05be745 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -340,7 +340,7 @@ bool bit_vector_t::operator==(const bit_vector_t &that) const {
   if (this->num_bits != that.num_bits) {
     return false;
   }
-  for (int i = 0; i < this->num_words - 1; i++) {
+  for (int i = 0; i < this->num_words; i++) {
     if (this->words[i] != that.words[i]) {
       return false;
     }
-- 
2.43.0


From e9fd299180c3d9dd56cd3f069e75205e9cf7161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 24/61] fix: comparing bit_vector_t with a scalar ignored the
 last word

---
 spffl/bits/bit_vector_t.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 05be745..d8648a5 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -355,12 +355,8 @@ bool bit_vector_t::operator!=(const bit_vector_t &that) const {
 
 // ----------------------------------------------------------------
 bool bit_vector_t::operator==(const bit_t &scalar) const {
-  uint64_t fill = 0;
-  if (scalar == bit_t(1)) {
-    fill = ~fill;
-  }
-  for (int i = 0; i < this->num_words - 1; i++) {
-    if (this->words[i] != fill) {
+  for (int i = 0; i < this->num_bits; i++) {
+    if (this->get(i) != scalar) {
       return false;
     }
   }
-- 
2.43.0


From 186aedfe1c94e328031a28be81aecda95ccc7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 25/61] fix: bit_vector_t += and -= did not refuse vectors of
 different lengths

---
 spffl/bits/bit_vector_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index d8648a5..490d39d 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -308,12 +308,14 @@ bit_t bit_vector_t::dot(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t bit_vector_t::operator+=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
   return *this;
 }
 bit_vector_t bit_vector_t::operator-=(const bit_vector_t &that) {
+  this->check_equal_lengths(that);
   for (int i = 0; i < this->num_words; i++) {
     this->words[i] ^= that.words[i];
   }
-- 
2.43.0


From 07ff12ff85d8f99775aec3a996a429719d76b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 26/61] fix: bit_matrix_t::outer always raised an out-of-bounds
 error

---
 spffl/bits/bit_matrix_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 74e9d4a..c7d1216 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -499,7 +499,7 @@ bit_matrix_t &bit_matrix_t::operator*=(const bit_matrix_t &that) {
 bit_matrix_t bit_matrix_t::outer(const bit_vector_t &u, const bit_vector_t &v) {
   int m = u.get_num_elements();
   int n = v.get_num_elements();
-  bit_matrix_t rv;
+  bit_matrix_t rv(m, n);
   for (int i = 0; i < m; i++) {
     for (int j = 0; j < n; j++) {
       rv[i].set(j, u.get(i) * v.get(j));
-- 
2.43.0


From 15a2a8ce236a41aa93de81b4193a489f8c017c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 27/61] fix: bit_matrix_t::paste, and with it inverse, always
 raised an out-of-bounds error

---
 spffl/bits/bit_matrix_t.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index c7d1216..58e7cb9 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -868,11 +868,13 @@ bit_matrix_t bit_matrix_t::paste(bit_matrix_t &that) const {
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
-    rv.rows[i] = this->rows[i];
+    for (j = 0; j < this->num_cols; j++) {
+      rv.rows[i].set(j, this->rows[i].get(j));
+    }
   }
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < that.num_cols; j++) {
-      rv.rows[i].set(this->num_rows + j, that.rows[i].get(j));
+      rv.rows[i].set(this->num_cols + j, that.rows[i].get(j));
     }
   }
 
-- 
2.43.0


From 1fe9f9135ebb95012d2bc3b44343f11064b5fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 28/61] fix: bit_matrix_t::swap did not refuse row indices out
 of bounds

---
 spffl/bits/bit_matrix_t.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 58e7cb9..a75b82d 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -600,6 +600,13 @@ uint64_t **bit_matrix_t::expose(void) const {
 
 // ----------------------------------------------------------------
 void bit_matrix_t::swap(int arow, int brow) {
+  if ((arow < 0) || (arow >= this->num_rows) || (brow < 0) ||
+      (brow >= this->num_rows)) {
+    std::stringstream ss;
+    ss << "bit_matrix_t::swap:  row indices " << arow << ", " << brow
+       << " out of bounds " << 0 << ":" << (this->num_rows - 1) << std::endl;
+    throw spffl::exception_t(ss.str());
+  }
   this->rows[arow].ptrswap(this->rows[brow]);
 }
 
-- 
2.43.0


From 9abac1aa5a0702bd359049036044b770d624aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 29/61] fix: reading into a non-empty bit_matrix_t overran the
 new storage

---
 spffl/bits/bit_matrix_t.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index a75b82d..5b6525f 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -199,7 +199,8 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
   const int init_num_rows = 40;
   const int more_num_rows = 40;
   int alloc_num_rows      = init_num_rows;
-  m.rows                  = new bit_vector_t[init_num_rows];
+  m.mfree();
+  m.rows = new bit_vector_t[init_num_rows];
 
   while (1) {
     if (is.eof()) {
-- 
2.43.0


From 9b4c7f73e01f5ff1116dda1e56d0ba83e7d5e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 30/61] fix: bit_matrix_t lost the last row of its input when
 the final newline was missing

---
 spffl/bits/bit_matrix_t.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 5b6525f..37590ad 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -220,8 +220,11 @@ std::istream &operator>>(std::istream &is, bit_matrix_t &m) {
     // Read a line of text.
     is.getline(line, sizeof(line));
     if (is.eof()) {
+      bool is_empty = is.fail();
       is.clear();
-      break;
+      if (is_empty) {
+        break;
+      }
     } else if (is.fail()) {
       break;
     }
-- 
2.43.0


From 6e60c675a4df617350b125eb7e869be4ae296ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 31/61] fix: tvector assignment compares sizes before
 overwriting its own

---
 spffl/containers/tvector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 7e309e3..2e37a55 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -95,13 +95,16 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const tvector<element_type> &that) {
-    this->num_elements = that.num_elements;
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements == 0) {
       this->elements = new element_type[that.num_elements];
     } else if (this->num_elements < that.num_elements) {
       delete[] this->elements;
       this->elements = new element_type[that.num_elements];
     }
+    this->num_elements = that.num_elements;
     for (int i = 0; i < that.num_elements; i++) {
       this->elements[i] = that.elements[i];
     }
-- 
2.43.0


From 245274c016455140ed18745b0ef3fc6848c7cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 32/61] fix: tvector scalar *= and /= accept one of the
 vector's own elements

---
 spffl/containers/tvector.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 2e37a55..366f4dc 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -376,14 +376,13 @@ public:
     return *this;
   }
   tvector<element_type> operator*=(const element_type &e) {
-    for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
-    }
+    this->mult_by(e);
     return *this;
   }
   void mult_by(const element_type &e) {
+    const element_type s = e; // e may be one of our own elements
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] *= e;
+      this->elements[i] *= s;
     }
   }
   tvector<element_type> operator*=(const tvector<element_type> &that) {
@@ -394,8 +393,9 @@ public:
     return *this;
   }
   tvector<element_type> operator/=(const element_type &e) {
+    const element_type s = e; // e may be one of our own elements
     for (int i = 0; i < this->num_elements; i++) {
-      this->elements[i] /= e;
+      this->elements[i] /= s;
     }
     return *this;
   }
-- 
2.43.0


From 28c29db7cc155d5c1abf0f776b9faf75e6d67317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 33/61] fix: tmatrix::paste puts the right-hand matrix after
 the left one's columns

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index c30ea2f..1924da9 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1316,7 +1316,7 @@ public:
     }
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < that.num_cols; j++) {
-        rv.rows[i][this->num_rows + j] = that.rows[i][j];
+        rv.rows[i][this->num_cols + j] = that.rows[i][j];
       }
     }
 
-- 
2.43.0


From 87c439e62637828b421c30fa5eec057905f67f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 34/61] fix: tmatrix input keeps a last line without newline
 and its own line buffer

---
 spffl/containers/tmatrix.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 1924da9..d3f1a40 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1690,7 +1690,6 @@ template <typename element_type>
 static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
   const int tmx_buf_size = 65536;
   char *line             = new char[tmx_buf_size];
-  char *pline            = line;
 
   // Make sure the matrix already contains an element.  Remember it,
   // then free the old matrix contents.
@@ -1725,10 +1724,14 @@ static std::istream &operator>>(std::istream &is, tmatrix<element_type> &m) {
     }
 
     // Read a line of text.
+    char *pline = line;
     is.getline(pline, tmx_buf_size);
     if (is.eof()) {
+      bool is_empty = is.fail();
       is.clear();
-      break;
+      if (is_empty) {
+        break;
+      }
     } else if (is.fail()) {
       break;
     }
-- 
2.43.0


From 542231ed777f8073355d4083437a22da7ee9c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 35/61] fix: tmatrix::swap checks its row indices

---
 spffl/containers/tmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index d3f1a40..81359c0 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -860,7 +860,7 @@ public:
   }
 
   // ----------------------------------------------------------------
-  void swap(int arow, int brow) { this->rows[arow].ptrswap(this->rows[brow]); }
+  void swap(int arow, int brow) { (*this)[arow].ptrswap((*this)[brow]); }
 
   // ----------------------------------------------------------------
   // This is a general row-reduction method.  It operates on the matrix
-- 
2.43.0


From b05185f324d0750cbb46e9e82f0da3ff956c5949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 36/61] fix: tmatrix::ed_det of the zero matrix is zero

---
 spffl/containers/tmatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 81359c0..9675e9b 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1523,6 +1523,9 @@ public:
       ss << "tmatrix::ed_det():  non-square input.\n";
       throw spffl::exception_t(ss.str());
     }
+    if (this->is_zero()) {
+      return this->rows[0][0];
+    }
     tmatrix<element_type> rr(*this);
     element_type dn, dd;
     rr.ed_row_reduce_below_with_scalar(dn, dd);
-- 
2.43.0


From 79782506b5a69716d5c5bb4d5cf9bd4ef10e76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 37/61] fix: intrat_t input fails on text that is not a number

---
 spffl/intmath/intrat_t.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spffl/intmath/intrat_t.cpp b/spffl/intmath/intrat_t.cpp
index a8f28ed..fa54e5a 100644
--- a/spffl/intmath/intrat_t.cpp
+++ b/spffl/intmath/intrat_t.cpp
@@ -191,12 +191,18 @@ std::istream &operator>>(std::istream &is, intrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is; // Not a number.
+  }
   if (is.eof()) {
     a.denom = 1;
   }
   if (is.peek() == '/') {
     (void)is.get();
     is >> a.denom;
+    if (is.fail()) {
+      return is; // Not a number.
+    }
   } else {
     // Clear failure code from not having found the '/'.
     is.clear();
@@ -224,11 +230,17 @@ std::istringstream &operator>>(std::istringstream &iss, intrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss; // Not a number.
+  }
   if (iss.eof()) {
     a.denom = 1;
   } else if (iss.peek() == '/') {
     (void)iss.get();
     iss >> a.denom;
+    if (iss.fail()) {
+      return iss; // Not a number.
+    }
   } else {
     // Clear failure code from not having found the '/'.
     iss.clear();
-- 
2.43.0


From f8f7bebd125a495a618d806115efafc62854b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 38/61] fix: assigning a scalar to a copy of an empty tvector
 or tmatrix makes it one element

---
 spffl/containers/tmatrix.h | 3 ++-
 spffl/containers/tvector.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 9675e9b..2d29d77 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -318,13 +318,14 @@ public:
 
   // ----------------------------------------------------------------
   tmatrix<element_type> &operator=(const element_type &scalar) {
-    if (this->rows) {
+    if (this->num_rows > 0) {
       for (int i = 0; i < this->num_rows; i++) {
         for (int j = 0; j < this->num_cols; j++) {
           this->rows[i][j] = scalar;
         }
       }
     } else {
+      delete[] this->rows; // may be a zero-length copy
       this->num_rows   = 1;
       this->num_cols   = 1;
       this->rows       = new tvector<element_type>[1];
diff --git a/spffl/containers/tvector.h b/spffl/containers/tvector.h
index 366f4dc..e103583 100644
--- a/spffl/containers/tvector.h
+++ b/spffl/containers/tvector.h
@@ -113,11 +113,12 @@ public:
 
   // ----------------------------------------------------------------
   tvector<element_type> &operator=(const element_type scalar) {
-    if (this->elements) {
+    if (this->num_elements > 0) {
       for (int i = 0; i < this->num_elements; i++) {
         this->elements[i] = scalar;
       }
     } else {
+      delete[] this->elements; // may be a zero-length copy
       this->num_elements = 1;
       this->elements     = new element_type[1];
       this->elements[0]  = scalar;
-- 
2.43.0


From 69ad09acc29d7ebae81f55b6ff5931930da4ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 39/61] fix: assigning a bit to a copy of an empty bit vector
 or matrix makes it one bit

---
 spffl/bits/bit_matrix_t.cpp | 3 ++-
 spffl/bits/bit_vector_t.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 37590ad..4bcfb4c 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -118,13 +118,14 @@ bool bit_matrix_t::load_from_file(char *file_name) {
 
 // ----------------------------------------------------------------
 bit_matrix_t &bit_matrix_t::operator=(const bit_t &scalar) {
-  if (this->rows) {
+  if (this->num_rows > 0) {
     for (int i = 0; i < this->num_rows; i++) {
       for (int j = 0; j < this->num_cols; j++) {
         this->rows[i].set(j, scalar);
       }
     }
   } else {
+    delete[] this->rows; // may be a zero-length copy
     this->num_rows = 1;
     this->num_cols = 1;
     this->rows     = new bit_vector_t[1];
diff --git a/spffl/bits/bit_vector_t.cpp b/spffl/bits/bit_vector_t.cpp
index 490d39d..2d0c085 100644
--- a/spffl/bits/bit_vector_t.cpp
+++ b/spffl/bits/bit_vector_t.cpp
@@ -115,7 +115,7 @@ bit_vector_t &bit_vector_t::operator=(const bit_vector_t &that) {
 
 // ----------------------------------------------------------------
 bit_vector_t &bit_vector_t::operator=(const bit_t &scalar) {
-  if (this->words) {
+  if (this->num_words > 0) {
     uint64_t fill = 0;
     if (scalar == bit_t(1)) {
       fill = ~fill;
@@ -125,6 +125,7 @@ bit_vector_t &bit_vector_t::operator=(const bit_t &scalar) {
     }
     this->trim();
   } else {
+    delete[] this->words; // may be a zero-length copy
     this->num_bits  = 1;
     this->num_words = 1;
     this->words     = new uint64_t[1];
-- 
2.43.0


From 3c77c7e919b685abd85747ac88c9b177671b4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 40/61] fix: f2_polymod_find_generator stopped with an error at
 the first zero divisor

---
 spffl/units/f2_polymod_units.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index a7ffc99..ac0cf6b 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -72,10 +72,12 @@ bool f2_polymod_find_generator(
   int phi = spffl::factorization::f2_poly_totient(m);
 
   while (gres.find_degree() < mdeg) {
-    spffl::polynomials::f2_polymod_t g(gres, m);
-    if (f2_polymod_order(g) == phi) {
-      rg = g;
-      return true;
+    if (gres.gcd(m).find_degree() == 0) {
+      spffl::polynomials::f2_polymod_t g(gres, m);
+      if (f2_polymod_order(g) == phi) {
+        rg = g;
+        return true;
+      }
     }
     gres.increment();
   }
-- 
2.43.0


From 8936be3b02799844c4ec713d06a386d3644cb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 41/61] fix: f2n_polymod_find_generator stopped with an error
 at the first zero divisor

---
 spffl/units/f2n_polymod_units.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index a48abaf..faf0abe 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -73,10 +73,12 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
   int phi = spffl::factorization::f2n_poly_totient(m);
 
   while (gres.find_degree() < mdeg) {
-    spffl::polynomials::f2n_polymod_t g(gres, m);
-    if (f2n_polymod_order(g) == phi) {
-      rg = g;
-      return true;
+    if (gres.gcd(m).find_degree() == 0) {
+      spffl::polynomials::f2n_polymod_t g(gres, m);
+      if (f2n_polymod_order(g) == phi) {
+        rg = g;
+        return true;
+      }
     }
     gres.increment();
   }
-- 
2.43.0


From 7f599a2805b6f23f9b37c29b54e99ae4c8c69ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 42/61] fix: f2n_polymod_log took the group size of F_2 instead
 of F_2^n, missing most logs

---
 spffl/units/f2n_polymod_units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index faf0abe..90f4272 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -126,7 +126,7 @@ int f2n_polymod_log( // Log base g of a.
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
   std::cout << "m = " << m << "\n";
-  int n = 1 << m.find_degree();
+  int n = 1 << (m.get_coeff(0).get_modulus().find_degree() * m.find_degree());
   std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
   std::cout << "k = " << k << "\n";
-- 
2.43.0


From a217f952527405d30e5d196d2feb53122c702c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 43/61] fix: f2n_polymod_log printed its working on standard
 output

---
 spffl/units/f2n_polymod_units.cpp | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 90f4272..31a445c 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -120,16 +120,10 @@ static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
 int f2n_polymod_log( // Log base g of a.
     const spffl::polynomials::f2n_polymod_t &g,
     const spffl::polynomials::f2n_polymod_t &a) {
-  std::cout << "\n";
-  std::cout << "g = " << g << "\n";
-  std::cout << "a = " << a << "\n";
   int rv                           = -1;
   spffl::polynomials::f2n_poly_t m = g.get_modulus();
-  std::cout << "m = " << m << "\n";
   int n = 1 << (m.get_coeff(0).get_modulus().find_degree() * m.find_degree());
-  std::cout << "n = " << n << "\n";
   unsigned k = (unsigned)spffl::intmath::int_sqrt_ceil(n);
-  std::cout << "k = " << k << "\n";
 
   // xxx check gcd(g, m)
   // xxx check gcd(g, a)
@@ -144,9 +138,7 @@ int f2n_polymod_log( // Log base g of a.
        << " is a zero divisor.\n";
     throw spffl::exception_t(ss.str());
   }
-  std::cout << "gi = " << ginv << "\n";
   spffl::polynomials::f2n_polymod_t gk = g.exp(k);
-  std::cout << "gk = " << gk << "\n";
   unsigned i, j;
 
   agni[0].elt = a;
@@ -154,32 +146,21 @@ int f2n_polymod_log( // Log base g of a.
   gkj[0].elt  = g / g;
   gkj[0].idx  = 0;
 
-  std::cout << "agni[" << 0 << "] = " << agni[0].elt << "\n";
   for (i = 1; i < k; i++) {
     agni[i].elt = agni[i - 1].elt * ginv;
     agni[i].idx = i;
-    std::cout << "agni[" << i << "] = " << agni[i].elt << "\n";
   }
-  std::cout << "gk[" << 0 << "]  = " << gkj[0].elt << "\n";
   for (j = 1; j < k; j++) {
     gkj[j].elt = gkj[j - 1].elt * gk;
     gkj[j].idx = j;
-    std::cout << "gk[" << j << "]  = " << gkj[j].elt << "\n";
   }
 
   qsort(agni, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
   qsort(gkj, k, sizeof(poly_and_index_t), poly_and_index_qcmp);
-  for (j = 0; j < k; j++) {
-    std::cout << "-- agni[" << j << "] = " << agni[j].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
-  }
 
   for (i = 0, j = 0; i < k && j < k;) {
-    std::cout << "agni[" << i << "] = " << agni[i].elt << " gk[" << j
-              << "] = " << gkj[j].elt << "\n";
     if (agni[i].elt == gkj[j].elt) {
       // xxx could overflow 32-bit int; fix me.
-      std::cout << "found at i=" << i << " j=" << j << "\n";
       rv = agni[i].idx + gkj[j].idx * k;
       break;
     } else if (agni[i].elt < gkj[j].elt) {
-- 
2.43.0


From 0f06d5dbf5cece112b028c2a63f5a4517841ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 44/61] fix: tfacinfo assignment returned nothing and lost its
 factors on self-assignment

---
 spffl/containers/tfacinfo.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tfacinfo.h b/spffl/containers/tfacinfo.h
index a766a45..43aa532 100644
--- a/spffl/containers/tfacinfo.h
+++ b/spffl/containers/tfacinfo.h
@@ -64,6 +64,9 @@ public:
 
   // ----------------------------------------------------------------
   tfacinfo<element_type> &operator=(const tfacinfo<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->pfactors_and_counts) {
       delete[] this->pfactors_and_counts;
     }
@@ -76,6 +79,7 @@ public:
     }
     this->have_unit = that.have_unit;
     this->unit      = that.unit;
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 2ee72f91053d6bafe16288a423f1fcac033ca662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 45/61] fix: tstack assignment returned nothing and lost its
 elements on self-assignment

---
 spffl/containers/tstack.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spffl/containers/tstack.h b/spffl/containers/tstack.h
index f0a0804..350974a 100644
--- a/spffl/containers/tstack.h
+++ b/spffl/containers/tstack.h
@@ -46,6 +46,9 @@ public:
 
   // ----------------------------------------------------------------
   tstack<element_type> &operator=(const tstack<element_type> &that) {
+    if (this == &that) {
+      return *this;
+    }
     if (this->elements != 0) {
       delete[] this->elements;
     }
@@ -55,6 +58,7 @@ public:
     for (int i = 0; i < that.freeidx; i++) {
       this->elements[i] = that.elements[i];
     }
+    return *this;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0


From 8dda03460daf24f347252560dd53f947185f12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 46/61] fix: three different types named poly_and_index_t in
 one namespace (one-definition rule)

---
 spffl/units/f2_polymod_units.cpp  | 2 ++
 spffl/units/f2n_polymod_units.cpp | 2 ++
 spffl/units/fp_units.cpp          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/spffl/units/f2_polymod_units.cpp b/spffl/units/f2_polymod_units.cpp
index ac0cf6b..7f677ee 100644
--- a/spffl/units/f2_polymod_units.cpp
+++ b/spffl/units/f2_polymod_units.cpp
@@ -205,10 +205,12 @@ spffl::polynomials::f2_poly_t f2_poly_random_prim(int degree, int need_irr) {
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+namespace { // Each units file has its own version of this type.
 typedef struct _poly_and_index_t {
   spffl::polynomials::f2_polymod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
diff --git a/spffl/units/f2n_polymod_units.cpp b/spffl/units/f2n_polymod_units.cpp
index 31a445c..9700b25 100644
--- a/spffl/units/f2n_polymod_units.cpp
+++ b/spffl/units/f2n_polymod_units.cpp
@@ -100,10 +100,12 @@ bool f2n_polymod_find_generator(const spffl::polynomials::f2n_poly_t &m,
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+namespace { // Each units file has its own version of this type.
 typedef struct _poly_and_index_t {
   spffl::polynomials::f2n_polymod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
diff --git a/spffl/units/fp_units.cpp b/spffl/units/fp_units.cpp
index b1c5fd6..5a690cd 100644
--- a/spffl/units/fp_units.cpp
+++ b/spffl/units/fp_units.cpp
@@ -85,10 +85,12 @@ bool fp_find_generator(int p, spffl::intmath::intmod_t &rg) {
 //
 // This cuts the naive search (which is O(n)) down to a search of O(sqrt(n)).
 
+namespace { // Each units file has its own version of this type.
 typedef struct _poly_and_index_t {
   spffl::intmath::intmod_t elt;
   int idx;
 } poly_and_index_t;
+} // namespace
 
 static int poly_and_index_qcmp(const void *pv1, const void *pv2) {
   const poly_and_index_t *p1 = (const poly_and_index_t *)pv1;
-- 
2.43.0


From fb29769989ea15a3e3b38db423234d1730054b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 47/61] fix: reducing a rational polynomial left leading zeroes
 when its leading coefficient vanishes

---
 spffl/q_cyclotomic/qff.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spffl/q_cyclotomic/qff.cpp b/spffl/q_cyclotomic/qff.cpp
index 8640ca5..cdf0897 100644
--- a/spffl/q_cyclotomic/qff.cpp
+++ b/spffl/q_cyclotomic/qff.cpp
@@ -32,7 +32,7 @@ spffl::polynomials::f2_poly_t f2_poly_from_q_poly(
 // ----------------------------------------------------------------
 spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q, int p) {
-  spffl::polynomials::fp_poly_t rv;
+  spffl::polynomials::fp_poly_t rv(spffl::intmath::intmod_t(0, p));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     rv.set_coeff(i, intmod_from_rat(q.get_coeff(i), p));
@@ -44,7 +44,8 @@ spffl::polynomials::fp_poly_t fp_poly_from_qpoly(
 spffl::polynomials::f2n_poly_t f2n_poly_from_qpoly(
     const spffl::polynomials::q_poly_t &q,
     const spffl::polynomials::f2_poly_t &im) {
-  spffl::polynomials::f2n_poly_t rv;
+  spffl::polynomials::f2n_poly_t rv(
+      spffl::polynomials::f2_polymod_t::prime_subfield_element(0, im));
   int d = q.find_degree();
   for (int i = d; i >= 0; i--) {
     // xxx unimpl
-- 
2.43.0


From 7b839380771b39ed147e522363ba44fbfe7926e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:26 +0000
Subject: [PATCH 48/61] fix: dividing by zero in a calculator expression over
 the integers killed the process

---
 spffl/cli_parser/cmd_line_ops.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 0ba4e79..1ab47c9 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -374,6 +374,15 @@ static void emit(
     break;
   }
 
+  // The element types do not all detect this: for integers it would be a
+  // hardware trap.
+  if ((rlex_ctx.token == L_DIV || rlex_ctx.token == L_MOD) &&
+      b.type_val == rlex_ctx.zero) {
+    std::stringstream ss;
+    ss << "Division by zero.\n";
+    throw spffl::exception_t(ss.str());
+  }
+
   switch (rlex_ctx.token) {
   case L_UMINUS:
     c.type_val = -a.type_val;
-- 
2.43.0


From 55ea3330f9f9adfed2c2a41479bd5e1df020475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 49/61] fix: a calculator expression followed by extraneous
 text printed a value before being refused

---
 spffl/cli_parser/cmd_line_matrix_ops.h | 6 +++---
 spffl/cli_parser/cmd_line_ops.h        | 6 ++++--
 spffl/cli_parser/cmd_line_vector_ops.h | 6 +++---
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/spffl/cli_parser/cmd_line_matrix_ops.h b/spffl/cli_parser/cmd_line_matrix_ops.h
index 782fc9f..9aa346e 100644
--- a/spffl/cli_parser/cmd_line_matrix_ops.h
+++ b/spffl/cli_parser/cmd_line_matrix_ops.h
@@ -700,6 +700,9 @@ void cmd_line_mat_parse(
       throw spffl::exception_t(ss.str());
     }
 
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
+
     switch (result.atom_type) {
     case MAT_ATOM:
       std::cout << result.mat_val;
@@ -716,9 +719,6 @@ void cmd_line_mat_parse(
       throw spffl::exception_t(ss.str());
       break;
     }
-
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
diff --git a/spffl/cli_parser/cmd_line_ops.h b/spffl/cli_parser/cmd_line_ops.h
index 1ab47c9..f851402 100644
--- a/spffl/cli_parser/cmd_line_ops.h
+++ b/spffl/cli_parser/cmd_line_ops.h
@@ -664,13 +664,15 @@ void cmd_line_parse(
       ss << "Stack underflow.\n";
       throw spffl::exception_t(ss.str());
     }
+
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
+
     if (result.is_int) {
       std::cout << result.int_val << "\n";
     } else {
       std::cout << result.type_val << "\n";
     }
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
diff --git a/spffl/cli_parser/cmd_line_vector_ops.h b/spffl/cli_parser/cmd_line_vector_ops.h
index 2f8b896..49f7805 100644
--- a/spffl/cli_parser/cmd_line_vector_ops.h
+++ b/spffl/cli_parser/cmd_line_vector_ops.h
@@ -558,6 +558,9 @@ void cmd_line_vec_parse(
       throw spffl::exception_t(ss.str());
     }
 
+    // Check for extraneous text.
+    match<element_type>(lex_ctx, L_EOL);
+
     switch (result.atom_type) {
     case VEC_ATOM:
       std::cout << result.vec_val << "\n";
@@ -574,9 +577,6 @@ void cmd_line_vec_parse(
       throw spffl::exception_t(ss.str());
       break;
     }
-
-    // Check for extraneous text.
-    match<element_type>(lex_ctx, L_EOL);
   }
 }
 
-- 
2.43.0


From 84d3ad2edebd7ff83dd5b74271dd7d1ca86e9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 50/61] fix: the shell interpreted operators such as * and (
 inside an interpolated command

---
 spffl/cli_parser/cmd_interp.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 942882b..841fd65 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -1,6 +1,7 @@
 #include "spffl/base/spffl_exception.h"
 #include "spffl/base/tokenize.h"
 #include <iostream>
+#include <sstream>
 #include <stdio.h> // For perror
 #include <stdlib.h>
 #include <string.h>
@@ -62,24 +63,35 @@ static void find_matching_right_bracket(
   }
 }
 
+// ----------------------------------------------------------------
+// Quotes a word so the shell passes it through unmodified: operators such as
+// "*", "(" and "<" are meaningful to the shell.
+static std::string shell_quote(const char *word) {
+  std::string rv = "'";
+  for (const char *p = word; *p; p++) {
+    if (*p == '\'') {
+      rv += "'\\''";
+    } else {
+      rv += *p;
+    }
+  }
+  rv += "'";
+  return rv;
+}
+
 // ----------------------------------------------------------------
 // The caller must free the return value.
 static char *flatten(char *exename, int argc, char **argv) {
-  int len = strlen(exename) + 1;
+  std::string flat = shell_quote(exename);
   for (int argi = 0; argi < argc; argi++) {
-    len += strlen(argv[argi]) + 1;
+    flat += " " + shell_quote(argv[argi]);
   }
-  char *rv = (char *)malloc(len);
+  char *rv = strdup(flat.c_str());
   if (rv == 0) {
     std::stringstream ss;
-    ss << "malloc(" << len << ") failed.\n";
+    ss << "malloc(" << flat.size() + 1 << ") failed.\n";
     throw spffl::exception_t(ss.str());
   }
-  strcpy(rv, exename);
-  for (int argi = 0; argi < argc; argi++) {
-    strcat(rv, " ");
-    strcat(rv, argv[argi]);
-  }
   return rv;
 }
 
-- 
2.43.0


From 148637d670c41910218b05946916757d61709d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 51/61] fix: an interpolated command's output line longer than
 4095 characters was split in two

---
 spffl/cli_parser/cmd_interp.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spffl/cli_parser/cmd_interp.cpp b/spffl/cli_parser/cmd_interp.cpp
index 841fd65..62940d2 100644
--- a/spffl/cli_parser/cmd_interp.cpp
+++ b/spffl/cli_parser/cmd_interp.cpp
@@ -108,13 +108,17 @@ static void replace(
   }
 
   char line[4096];
-  int totlen = 0;
-  char *buf  = 0;
+  int totlen      = 0;
+  char *buf       = 0;
+  bool is_partial = false; // Last read ended in mid-line.
   while (fgets(line, sizeof(line), pipe)) {
-    int curlen = strlen(line);
-    if (line[curlen - 1] == '\n') {
+    int curlen       = strlen(line);
+    bool was_partial = is_partial;
+    is_partial       = true;
+    if (curlen > 0 && line[curlen - 1] == '\n') {
       line[curlen - 1] = 0;
       curlen--;
+      is_partial = false;
     }
     if (buf == 0) {
       buf = (char *)malloc(curlen + 1);
@@ -122,7 +126,9 @@ static void replace(
       totlen = curlen + 1;
     } else {
       buf = (char *)realloc(buf, totlen + curlen + 2);
-      strcat(buf, " ");
+      if (!was_partial) {
+        strcat(buf, " ");
+      }
       strcat(buf, line);
       totlen += curlen + 2;
     }
-- 
2.43.0


From 65896e0c6cfa9c192a64643e5ec0554f2fd1c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:11 +0000
Subject: [PATCH 52/61] fix: a fraction whose numerator could not be read was
 taken for zero

---
 spffl/rationals/f2_polyrat_t.cpp  | 6 ++++++
 spffl/rationals/f2n_polyrat_t.cpp | 6 ++++++
 spffl/rationals/fp_polyrat_t.cpp  | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/spffl/rationals/f2_polyrat_t.cpp b/spffl/rationals/f2_polyrat_t.cpp
index e3c2da0..7a36c99 100644
--- a/spffl/rationals/f2_polyrat_t.cpp
+++ b/spffl/rationals/f2_polyrat_t.cpp
@@ -204,6 +204,9 @@ std::istream &operator>>(std::istream &is, f2_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = 1;
   }
@@ -237,6 +240,9 @@ std::istringstream &operator>>(std::istringstream &iss, f2_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = 1;
   } else if (iss.peek() == '/') {
diff --git a/spffl/rationals/f2n_polyrat_t.cpp b/spffl/rationals/f2n_polyrat_t.cpp
index 179fe19..4a6bdcf 100644
--- a/spffl/rationals/f2n_polyrat_t.cpp
+++ b/spffl/rationals/f2n_polyrat_t.cpp
@@ -201,6 +201,9 @@ std::istream &operator>>(std::istream &is, f2n_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   }
@@ -234,6 +237,9 @@ std::istringstream &operator>>(std::istringstream &iss, f2n_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   } else if (iss.peek() == '/') {
diff --git a/spffl/rationals/fp_polyrat_t.cpp b/spffl/rationals/fp_polyrat_t.cpp
index 1e1dc75..e8ab64d 100644
--- a/spffl/rationals/fp_polyrat_t.cpp
+++ b/spffl/rationals/fp_polyrat_t.cpp
@@ -201,6 +201,9 @@ std::istream &operator>>(std::istream &is, fp_polyrat_t &a) {
   }
 
   is >> a.numer;
+  if (is.fail()) {
+    return is;
+  }
   if (is.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   }
@@ -234,6 +237,9 @@ std::istringstream &operator>>(std::istringstream &iss, fp_polyrat_t &a) {
   }
 
   iss >> a.numer;
+  if (iss.fail()) {
+    return iss;
+  }
   if (iss.eof()) {
     a.denom = a.numer.prime_subfield_element(1);
   } else if (iss.peek() == '/') {
-- 
2.43.0


From 3abe8395a3106614827a27a4dc6135cb2ff0b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 53/61] fix: zero times a polynomial over F2 of degree 64 or
 more kept zero high words, and multiplying that again overran the heap

---
 spffl/polynomials/f2_poly_t.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index bedf8f7..a581ca5 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -153,6 +153,8 @@ f2_poly_t f2_poly_t::operator*(const f2_poly_t &that) const {
     }
     ashift._promote_1();
   }
+  // A zero factor of lower degree than the other leaves high parts unused.
+  out.trim_parts();
   return out;
 }
 
-- 
2.43.0


From fc24c95142a8453712599d3948155f6d93eeb7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:54 +0000
Subject: [PATCH 54/61] fix: extracting a polynomial over F_2^n failed when its
 text ended the stream

---
 spffl/polynomials/f2n_poly_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index b8627a5..f7c4484 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -846,7 +846,7 @@ std::istream &operator>>(std::istream &is, f2n_poly_t &poly) {
       return is;
     }
     poly.coeffs[0] = f2_polymod_t(r, m);
-    while (is.peek() == ':') {
+    while (!is.eof() && (is.peek() == ':')) {
       (void)is.get();
       is >> r;
       if (is.fail()) {
-- 
2.43.0


From 8a8a1e53778db79d9d5a0f6edac0ffc9a78b0d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:07 +0000
Subject: [PATCH 55/61] fix: the mat_ord commands reject an unreadable matrix

---
 cli/spiff/f2_handlers.cpp         | 3 +++
 cli/spiff/f2_polymod_handlers.cpp | 3 +++
 cli/spiff/fp_handlers.cpp         | 3 +++
 cli/spiff/fp_polymod_handlers.cpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/cli/spiff/f2_handlers.cpp b/cli/spiff/f2_handlers.cpp
index 0d5ed80..99b2356 100644
--- a/cli/spiff/f2_handlers.cpp
+++ b/cli/spiff/f2_handlers.cpp
@@ -88,6 +88,9 @@ int f2_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::bits::bit_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/f2_polymod_handlers.cpp b/cli/spiff/f2_polymod_handlers.cpp
index 8ca3f67..4a24dc5 100644
--- a/cli/spiff/f2_polymod_handlers.cpp
+++ b/cli/spiff/f2_polymod_handlers.cpp
@@ -585,6 +585,9 @@ int f2_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::polynomials::f2_polymod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index 9172113..abfdb03 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -473,6 +473,9 @@ int fp_mat_ord_main(int argc, char **argv, usage_t *pusage) {
 
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::intmath::intmod_t d = A.det();
 
   if (d == zero) {
diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index 3e775ba..df72aa7 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -269,6 +269,9 @@ int fp_pm_mat_ord_main(int argc, char **argv, usage_t *pusage) {
   tmatrix<spffl::polynomials::fp_polymod_t> A;
   A = zero;
   std::cin >> A;
+  if (std::cin.fail()) {
+    pusage(argv[0]);
+  }
   spffl::polynomials::fp_polymod_t d = A.det();
 
   if (d == zero) {
-- 
2.43.0


From 9ec1670e825bdfa717acb188c055aecb069772f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:07 +0000
Subject: [PATCH 56/61] fix: the nth-prime command is z_nth_prime

---
 cli/spiff/spiff_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index ff535cd..24cf2a1 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -42,7 +42,7 @@ std::vector<lookup_t> z_lookups {
   {"z_lcm",                     z_lcm_main,        z_lcm_usage},
   {"z_totient",                 z_totient_main,    z_totient_usage},
   {"z_test_prime",              z_test_prime_main, z_test_prime_usage},
-  {"spffl::intmath::nth_prime", nth_prime_main,    nth_prime_usage},
+  {"z_nth_prime",  nth_prime_main,    nth_prime_usage},
   {"z_list",                    z_list_main,       z_list_usage},
   {"z_factor",                  z_factor_main,     z_factor_usage},
   {"z_divisors",                z_divisors_main,   z_divisors_usage},
-- 
2.43.0


From 3faf721aa399871aadb12d67f8832ab94f6b57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:29 +0000
Subject: [PATCH 57/61] fix: fp_pm_mat_op and fp_pm_vecop have usage messages

---
 cli/spiff/fp_polymod_handlers.cpp | 10 ++++++++++
 cli/spiff/fp_polymod_handlers.h   |  2 ++
 cli/spiff/spiff_main.cpp          |  4 ++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cli/spiff/fp_polymod_handlers.cpp b/cli/spiff/fp_polymod_handlers.cpp
index df72aa7..c5ce74b 100644
--- a/cli/spiff/fp_polymod_handlers.cpp
+++ b/cli/spiff/fp_polymod_handlers.cpp
@@ -201,6 +201,11 @@ int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_mat_op_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {...}\n";
+  exit(1);
+}
+
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
@@ -221,6 +226,11 @@ int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage) {
   return 0;
 }
 
+void fp_pm_vecop_usage(char *argv0) {
+  std::cerr << "Usage: " << argv0 << " {p} {m} {...}\n";
+  exit(1);
+}
+
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage) {
   int p;
   spffl::polynomials::fp_poly_t m;
diff --git a/cli/spiff/fp_polymod_handlers.h b/cli/spiff/fp_polymod_handlers.h
index 4e3133e..06898f8 100644
--- a/cli/spiff/fp_polymod_handlers.h
+++ b/cli/spiff/fp_polymod_handlers.h
@@ -12,8 +12,10 @@ int fp_pm_op_main(int argc, char **argv, usage_t *pusage);
 void fp_pm_tbl_usage(char *argv0);
 int fp_pm_tbl_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_mat_op_usage(char *argv0);
 int fp_pm_mat_op_main(int argc, char **argv, usage_t *pusage);
 
+void fp_pm_vecop_usage(char *argv0);
 int fp_pm_vecop_main(int argc, char **argv, usage_t *pusage);
 
 void fp_pm_mat_ord_usage(char *argv0);
diff --git a/cli/spiff/spiff_main.cpp b/cli/spiff/spiff_main.cpp
index 24cf2a1..2f93ab5 100644
--- a/cli/spiff/spiff_main.cpp
+++ b/cli/spiff/spiff_main.cpp
@@ -194,8 +194,8 @@ std::vector<lookup_t> fp_pm_lookups {
   {"fp_pm_ch_pol",     fp_pm_ch_pol_main,     fp_pm_ch_pol_usage},
   {"fp_pm_min_pol",    fp_pm_min_pol_main,    fp_pm_min_pol_usage},
   {"fp_pm_random",     fp_pm_random_main,     fp_pm_random_usage},
-  {"fp_pm_mat_op",     fp_pm_mat_op_main,     nullptr/*fppmmatop_usage*/},
-  {"fp_pm_vecop",      fp_pm_vecop_main,      nullptr/*fppmvecop_usage*/},
+  {"fp_pm_mat_op",     fp_pm_mat_op_main,     fp_pm_mat_op_usage},
+  {"fp_pm_vecop",      fp_pm_vecop_main,      fp_pm_vecop_usage},
   {"fp_pm_mat_ord",    fp_pm_mat_ord_main,    fp_pm_mat_ord_usage},
   {"fp_pm_mat_random", fp_pm_mat_random_main, fp_pm_mat_random_usage},
 };
-- 
2.43.0


From 8dfefe97e53708bd15f59c0de08584b677cabfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:49 +0000
Subject: [PATCH 58/61] fix: q_poly text lost the fractions and refused
 negative coefficients

---
 spffl/polynomials/q_poly_t.cpp | 64 +++++++++++++---------------------
 1 file changed, 25 insertions(+), 39 deletions(-)

diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index 9dc2107..c9fce2e 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -7,10 +7,10 @@
 #include "spffl/polynomials/q_poly_t.h"
 #include "spffl/base/cmps.h"
 #include "spffl/base/spffl_exception.h"
-#include "spffl/base/tokenize.h"
 #include "spffl/intmath/intrat_t.h"
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 namespace spffl::polynomials {
 
@@ -699,7 +699,7 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
     return is;
   }
 
-  while (isdigit(c) || (c == ',')) {
+  while (isdigit(c) || (c == ',') || (c == '-') || (c == '/')) {
     c = is.get();
     ss << c;
     c = is.peek();
@@ -725,16 +725,12 @@ std::istream &operator>>(std::istream &is, q_poly_t &poly) {
 bool q_poly_t::from_string(const std::string &string) {
   q_poly_t rv; // Leave *this as is on failure.
 
-  int num_commas = 0;
-  for (const char *q = string.c_str(); *q; q++) {
-    if (*q == ',') {
-      num_commas++;
-    }
-  }
+  // Allow comma-free input as long as all coefficients are single-digit.  A
+  // minus sign or a slash makes it a single rational coefficient.
+  bool bare = string.find(',') == std::string::npos;
+  bool single = string.find_first_of("-/") != std::string::npos;
 
-  if (num_commas == 0) {
-    // Allow comma-free input as long as all residues are
-    // single-digit.
+  if (bare && !single) {
     int len      = string.length();
     if (len < 1) {
       return false;
@@ -746,45 +742,35 @@ bool q_poly_t::from_string(const std::string &string) {
     for (si = 0, ci = rv.degree; si < len; si++, ci--) {
       char ascii_digit = string[si];
       if ((ascii_digit < '0') || (ascii_digit > '9')) {
-        std::stringstream ss;
-        ss << "q_poly_t::from_string: "
-           << "non-numerical input \"" << string << "\"\n";
-        ss << "Didn't like '" << ascii_digit << "'\n";
         return false;
       }
       rv.coeffs[ci] = spffl::intmath::intrat_t(ascii_digit - '0');
     }
   } else {
-    char *dup   = strdup(string.c_str());
-    char **argv = new char *[num_commas + 1];
-    int argc    = spffl::base::tokenize(dup, ",", argv, num_commas + 1);
-    if (argc < 1) {
-      // Needs an error message, but this coding error is
-      // unlikely since we already counted commas.
+    // Scan each coefficient; empty places between commas are skipped.
+    std::vector<spffl::intmath::intrat_t> scanned;
+    std::istringstream iss(string, std::ios_base::in);
+    std::string piece;
+    while (std::getline(iss, piece, ',')) {
+      if (piece.empty()) {
+        continue;
+      }
+      spffl::intmath::intrat_t coeff;
+      if (!coeff.from_string(piece)) {
+        return false;
+      }
+      scanned.push_back(coeff);
+    }
+    if (scanned.empty()) {
       return false;
     }
 
-    rv.degree = argc - 1;
+    rv.degree = (int)scanned.size() - 1;
     delete[] rv.coeffs;
     rv.coeffs = new spffl::intmath::intrat_t[rv.degree + 1];
-    int argi, ci;
-    for (argi = 0, ci = rv.degree; argi < argc; argi++, ci--) {
-      // Scan each coefficient.
-      int r;
-
-      std::istringstream iss(argv[argi], std::ios_base::in);
-      iss >> r;
-      if (iss.fail()) {
-        std::stringstream ss;
-        ss << "q_poly_t::from_string: "
-           << "scan failure at \"" << string << "\"\n";
-        return false;
-      } else {
-        rv.coeffs[ci] = spffl::intmath::intrat_t(r);
-      }
+    for (int ci = 0; ci <= rv.degree; ci++) {
+      rv.coeffs[ci] = scanned[rv.degree - ci];
     }
-    delete[] argv;
-    free(dup);
   }
 
   rv.recompute_degree();
-- 
2.43.0


From a0a153a4ca096018a45499af4b2999ebaeb5e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:52 +0000
Subject: [PATCH 59/61] fix: fp_orbit took the GCD of constant polynomials
 instead of integers

---
 cli/spiff/fp_handlers.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cli/spiff/fp_handlers.cpp b/cli/spiff/fp_handlers.cpp
index abfdb03..d4cc6a1 100644
--- a/cli/spiff/fp_handlers.cpp
+++ b/cli/spiff/fp_handlers.cpp
@@ -5,6 +5,7 @@
 #include "spffl/cli_parser/cmd_line_ops.h"
 #include "spffl/cli_parser/cmd_line_vector_ops.h"
 #include "spffl/containers/tmatrix.h"
+#include "spffl/intmath/int_gcd.h"
 #include "spffl/intmath/intmod_t.h"
 #include "spffl/linalg/fp_linear_algebra.h"
 #include "spffl/list/list_elements.h"
@@ -275,7 +276,10 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       pusage(argv[0]);
     }
   }
-  if (gcd(a, p) != 1) {
+  if (p < 1) {
+    pusage(argv[0]);
+  }
+  if (spffl::intmath::gcd(a, p) != 1) {
     std::cerr << "fp_orbit_main: a must be coprime to p.\n";
     exit(1);
   }
@@ -286,7 +290,7 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
 
   int counter = 0;
   while (1) {
-    std::cout << ((apower * a0) % p) << "\n";
+    std::cout << (((long long)apower * a0) % p) << "\n";
 
     if (apower == 1) {
       break;
@@ -299,7 +303,7 @@ int fp_orbit_main(int argc, char **argv, usage_t *pusage) {
       exit(1);
     }
 
-    apower = (apower * a) % p;
+    apower = ((long long)apower * a) % p;
   }
 
   return 0;
-- 
2.43.0


From b4e19aa6a41e04b24d1679050c53129205fadab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:43 +0000
Subject: [PATCH 60/61] fix: polynomial quot_and_rem and ext_gcd lost the
 inputs when an output was the same object

---
 spffl/polynomials/f2_poly_t.cpp  | 21 +++++++++++++--------
 spffl/polynomials/f2n_poly_t.cpp | 17 +++++++++++------
 spffl/polynomials/fp_poly_t.cpp  | 17 +++++++++++------
 spffl/polynomials/fpn_poly_t.cpp | 17 +++++++++++------
 spffl/polynomials/q_poly_t.cpp   | 17 +++++++++++------
 5 files changed, 57 insertions(+), 32 deletions(-)

diff --git a/spffl/polynomials/f2_poly_t.cpp b/spffl/polynomials/f2_poly_t.cpp
index a581ca5..aad1c7d 100644
--- a/spffl/polynomials/f2_poly_t.cpp
+++ b/spffl/polynomials/f2_poly_t.cpp
@@ -245,8 +245,8 @@ void f2_poly_t::quot_and_rem(
   l1_diff = dividend_l1_pos - divisor_l1_pos;
   if (l1_diff < 0) {
     // Dividend has lower degree than divisor.
-    rquot = f2_poly_t(0);
     rrem  = *this;
+    rquot = f2_poly_t(0);
     return;
   }
   f2_poly_t quot = f2_poly_t(0);
@@ -289,18 +289,21 @@ f2_poly_t f2_poly_t::gcd(const f2_poly_t &that) const {
 // ----------------------------------------------------------------
 // Blankinship's algorithm.
 f2_poly_t f2_poly_t::ext_gcd(
-    const f2_poly_t &that, f2_poly_t &rm, f2_poly_t &rn) const {
+    const f2_poly_t &that, f2_poly_t &rmout, f2_poly_t &rnout) const {
   f2_poly_t mprime, nprime, c, q, r, t, qm, qn;
   f2_poly_t d; // Return value.
+  f2_poly_t rm, rn; // The outputs may be the same objects as the inputs.
   if (*this == 0) {
-    rm = 0;
-    rn = 1;
-    return that;
+    d     = that;
+    rmout = 0;
+    rnout = 1;
+    return d;
   }
   if (that == 0) {
-    rm = 1;
-    rn = 0;
-    return *this;
+    d     = *this;
+    rmout = 1;
+    rnout = 0;
+    return d;
   }
   mprime = 1;
   rn     = 1;
@@ -324,6 +327,8 @@ f2_poly_t f2_poly_t::ext_gcd(
     qn     = q * rn;
     rn     = t - qn;
   }
+  rmout = rm;
+  rnout = rn;
   return d;
 }
 // ----------------------------------------------------------------
diff --git a/spffl/polynomials/f2n_poly_t.cpp b/spffl/polynomials/f2n_poly_t.cpp
index f7c4484..029e497 100644
--- a/spffl/polynomials/f2n_poly_t.cpp
+++ b/spffl/polynomials/f2n_poly_t.cpp
@@ -352,8 +352,8 @@ void f2n_poly_t::quot_and_rem(
     throw spffl::exception_t(ss.str());
   }
   if (*this == zero) {
-    rquot = this->prime_subfield_element(0);
     rrem  = *this;
+    rquot = this->prime_subfield_element(0);
     return;
   }
 
@@ -361,8 +361,8 @@ void f2n_poly_t::quot_and_rem(
   int divisor_degree  = that.degree;
 
   if (dividend_degree < divisor_degree) {
-    rquot = this->prime_subfield_element(0);
     rrem  = *this;
+    rquot = this->prime_subfield_element(0);
     return;
   }
 
@@ -455,9 +455,10 @@ f2n_poly_t f2n_poly_t::gcd(const f2n_poly_t &that) const {
 // Blankinship's algorithm.
 
 f2n_poly_t f2n_poly_t::ext_gcd(
-    const f2n_poly_t &that, f2n_poly_t &rm, f2n_poly_t &rn) const {
+    const f2n_poly_t &that, f2n_poly_t &rmout, f2n_poly_t &rnout) const {
   f2n_poly_t mprime, nprime, c, q, r, t, qm, qn;
   f2n_poly_t d; // Return value.
+  f2n_poly_t rm, rn; // The outputs may be the same objects as the inputs.
 
   // Initialize
   mprime = this->prime_subfield_element(1);
@@ -468,9 +469,11 @@ f2n_poly_t f2n_poly_t::ext_gcd(
   d      = that;
 
   if (that == 0) {
-    rm = this->prime_subfield_element(1);
-    rn = this->prime_subfield_element(0);
-    return *this;
+    rm    = this->prime_subfield_element(1);
+    rn    = this->prime_subfield_element(0);
+    rmout = rm;
+    rnout = rn;
+    return c;
   }
 
   while (1) {
@@ -492,6 +495,8 @@ f2n_poly_t f2n_poly_t::ext_gcd(
     qn     = q * rn;
     rn     = t - qn;
   }
+  rmout = rm;
+  rnout = rn;
   return d;
 }
 
diff --git a/spffl/polynomials/fp_poly_t.cpp b/spffl/polynomials/fp_poly_t.cpp
index d822889..141a215 100644
--- a/spffl/polynomials/fp_poly_t.cpp
+++ b/spffl/polynomials/fp_poly_t.cpp
@@ -342,8 +342,8 @@ void fp_poly_t::quot_and_rem(
     throw spffl::exception_t(ss.str());
   }
   if (*this == zero) {
-    rquot = this->prime_subfield_element(0);
     rrem  = *this;
+    rquot = this->prime_subfield_element(0);
     return;
   }
 
@@ -351,8 +351,8 @@ void fp_poly_t::quot_and_rem(
   int divisor_degree  = that.degree;
 
   if (dividend_degree < divisor_degree) {
-    rquot = this->prime_subfield_element(0);
     rrem  = *this;
+    rquot = this->prime_subfield_element(0);
     return;
   }
 
@@ -445,9 +445,10 @@ fp_poly_t fp_poly_t::gcd(const fp_poly_t &that) const {
 // Blankinship's algorithm.
 
 fp_poly_t fp_poly_t::ext_gcd(
-    const fp_poly_t &that, fp_poly_t &rm, fp_poly_t &rn) const {
+    const fp_poly_t &that, fp_poly_t &rmout, fp_poly_t &rnout) const {
   fp_poly_t mprime, nprime, c, q, r, t, qm, qn;
   fp_poly_t d; // Return value.
+  fp_poly_t rm, rn; // The outputs may be the same objects as the inputs.
 
   // Initialize
   mprime = this->prime_subfield_element(1);
@@ -458,9 +459,11 @@ fp_poly_t fp_poly_t::ext_gcd(
   d      = that;
 
   if (that == 0) {
-    rm = this->prime_subfield_element(1);
-    rn = this->prime_subfield_element(0);
-    return *this;
+    rm    = this->prime_subfield_element(1);
+    rn    = this->prime_subfield_element(0);
+    rmout = rm;
+    rnout = rn;
+    return c;
   }
 
   while (1) {
@@ -482,6 +485,8 @@ fp_poly_t fp_poly_t::ext_gcd(
     qn     = q * rn;
     rn     = t - qn;
   }
+  rmout = rm;
+  rnout = rn;
   return d;
 }
 
diff --git a/spffl/polynomials/fpn_poly_t.cpp b/spffl/polynomials/fpn_poly_t.cpp
index afe6c75..3c02da4 100644
--- a/spffl/polynomials/fpn_poly_t.cpp
+++ b/spffl/polynomials/fpn_poly_t.cpp
@@ -322,8 +322,8 @@ void fpn_poly_t::quot_and_rem(
     throw spffl::exception_t(ss.str());
   }
   if (*this == zero) {
-    rquot = this->prime_subfield_element(0);
     rrem  = *this;
+    rquot = this->prime_subfield_element(0);
     return;
   }
 
@@ -331,8 +331,8 @@ void fpn_poly_t::quot_and_rem(
   int divisor_degree  = that.degree;
 
   if (dividend_degree < divisor_degree) {
-    rquot = this->prime_subfield_element(0);
     rrem  = *this;
+    rquot = this->prime_subfield_element(0);
     return;
   }
 
@@ -425,9 +425,10 @@ fpn_poly_t fpn_poly_t::gcd(const fpn_poly_t &that) const {
 // Blankinship's algorithm.
 
 fpn_poly_t fpn_poly_t::ext_gcd(
-    const fpn_poly_t &that, fpn_poly_t &rm, fpn_poly_t &rn) const {
+    const fpn_poly_t &that, fpn_poly_t &rmout, fpn_poly_t &rnout) const {
   fpn_poly_t mprime, nprime, c, q, r, t, qm, qn;
   fpn_poly_t d; // Return value.
+  fpn_poly_t rm, rn; // The outputs may be the same objects as the inputs.
 
   // Initialize
   mprime = this->prime_subfield_element(1);
@@ -438,9 +439,11 @@ fpn_poly_t fpn_poly_t::ext_gcd(
   d      = that;
 
   if (that == 0) {
-    rm = this->prime_subfield_element(1);
-    rn = this->prime_subfield_element(0);
-    return *this;
+    rm    = this->prime_subfield_element(1);
+    rn    = this->prime_subfield_element(0);
+    rmout = rm;
+    rnout = rn;
+    return c;
   }
 
   while (1) {
@@ -462,6 +465,8 @@ fpn_poly_t fpn_poly_t::ext_gcd(
     qn     = q * rn;
     rn     = t - qn;
   }
+  rmout = rm;
+  rnout = rn;
   return d;
 }
 
diff --git a/spffl/polynomials/q_poly_t.cpp b/spffl/polynomials/q_poly_t.cpp
index c9fce2e..9ab5eb1 100644
--- a/spffl/polynomials/q_poly_t.cpp
+++ b/spffl/polynomials/q_poly_t.cpp
@@ -295,8 +295,8 @@ void q_poly_t::quot_and_rem(
     throw spffl::exception_t(ss.str());
   }
   if (*this == zero) {
-    rquot = q_poly_t(0);
     rrem  = *this;
+    rquot = q_poly_t(0);
     return;
   }
 
@@ -304,8 +304,8 @@ void q_poly_t::quot_and_rem(
   int divisor_degree  = that.degree;
 
   if (dividend_degree < divisor_degree) {
-    rquot = q_poly_t(0);
     rrem  = *this;
+    rquot = q_poly_t(0);
     return;
   }
 
@@ -391,9 +391,10 @@ q_poly_t q_poly_t::gcd(const q_poly_t &that) const {
 // Blankinship's algorithm.
 
 q_poly_t q_poly_t::ext_gcd(
-    const q_poly_t &that, q_poly_t &rm, q_poly_t &rn) const {
+    const q_poly_t &that, q_poly_t &rmout, q_poly_t &rnout) const {
   q_poly_t mprime, nprime, c, q, r, t, qm, qn;
   q_poly_t d; // Return value.
+  q_poly_t rm, rn; // The outputs may be the same objects as the inputs.
 
   // Initialize
   mprime = q_poly_t(1);
@@ -404,9 +405,11 @@ q_poly_t q_poly_t::ext_gcd(
   d      = that;
 
   if (that == 0) {
-    rm = q_poly_t(1);
-    rn = q_poly_t(0);
-    return *this;
+    rm    = q_poly_t(1);
+    rn    = q_poly_t(0);
+    rmout = rm;
+    rnout = rn;
+    return c;
   }
 
   while (1) {
@@ -428,6 +431,8 @@ q_poly_t q_poly_t::ext_gcd(
     qn     = q * rn;
     rn     = t - qn;
   }
+  rmout = rm;
+  rnout = rn;
   return d;
 }
 
-- 
2.43.0


From 02a7b987ce36b99784d9a483481ec628fc946621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:33 +0000
Subject: [PATCH 61/61] fix: matrix split lost the columns when an output was
 the matrix itself

---
 spffl/bits/bit_matrix_t.cpp | 11 +++++++----
 spffl/containers/tmatrix.h  | 13 ++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/spffl/bits/bit_matrix_t.cpp b/spffl/bits/bit_matrix_t.cpp
index 4bcfb4c..97e9796 100644
--- a/spffl/bits/bit_matrix_t.cpp
+++ b/spffl/bits/bit_matrix_t.cpp
@@ -903,22 +903,25 @@ void bit_matrix_t::split(
     throw spffl::exception_t(ss.str());
   }
 
-  rleft  = bit_matrix_t(this->num_rows, split_column);
-  rright = bit_matrix_t(this->num_rows, this->num_cols - split_column);
+  bit_matrix_t left(this->num_rows, split_column);
+  bit_matrix_t right(this->num_rows, this->num_cols - split_column);
 
   int i, j;
 
   for (i = 0; i < this->num_rows; i++) {
     for (j = 0; j < split_column; j++) {
-      rleft.rows[i].set(j, this->rows[i].get(j));
+      left.rows[i].set(j, this->rows[i].get(j));
     }
   }
 
   for (i = 0; i < this->num_rows; i++) {
     for (j = split_column; j < this->num_cols; j++) {
-      rright.rows[i].set(j - split_column, this->rows[i].get(j));
+      right.rows[i].set(j - split_column, this->rows[i].get(j));
     }
   }
+
+  rleft  = left;
+  rright = right;
 }
 
 // ----------------------------------------------------------------
diff --git a/spffl/containers/tmatrix.h b/spffl/containers/tmatrix.h
index 2d29d77..77f750e 100644
--- a/spffl/containers/tmatrix.h
+++ b/spffl/containers/tmatrix.h
@@ -1358,23 +1358,26 @@ public:
       throw spffl::exception_t(ss.str());
     }
 
-    rleft = tmatrix<element_type>(this->num_rows, split_column);
-    rright =
-        tmatrix<element_type>(this->num_rows, this->num_cols - split_column);
+    tmatrix<element_type> left(this->num_rows, split_column);
+    tmatrix<element_type> right(
+        this->num_rows, this->num_cols - split_column);
 
     int i, j;
 
     for (i = 0; i < this->num_rows; i++) {
       for (j = 0; j < split_column; j++) {
-        rleft.rows[i][j] = this->rows[i][j];
+        left.rows[i][j] = this->rows[i][j];
       }
     }
 
     for (i = 0; i < this->num_rows; i++) {
       for (j = split_column; j < this->num_cols; j++) {
-        rright.rows[i][j - split_column] = this->rows[i][j];
+        right.rows[i][j - split_column] = this->rows[i][j];
       }
     }
+
+    rleft  = left;
+    rright = right;
   }
 
   // ----------------------------------------------------------------
-- 
2.43.0

