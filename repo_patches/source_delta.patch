From 3fa3b64bdb28bb5d2d49f12b066b0923fa8cc3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 1/9] fix: clear the target in _mzed_mul before the
 accumulating Karatsuba product

_mzed_mul is documented as C = A*B.  For dimensions of at least 512 it
called _mzed_addmul_karatsuba, so a target holding old data received
C + A*B, while smaller dimensions overwrite it.
---
 src/mzed.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mzed.c b/src/mzed.c
index 093b9ee..d9ebd07 100644
--- a/src/mzed.c
+++ b/src/mzed.c
@@ -100,8 +100,10 @@ mzed_t *mzed_addmul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
 }
 
 mzed_t *_mzed_mul(mzed_t *C, const mzed_t *A, const mzed_t *B) {
-  if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512)
+  if (A->nrows >= 512 && A->ncols >= 512 && B->ncols >= 512) {
+    mzed_set_ui(C, 0);
     return _mzed_addmul_karatsuba(C, A, B);
+  }
 
   const rci_t cutoff = _mzed_strassen_cutoff(C, A, B);
   return _mzed_mul_strassen(C, A, B, cutoff);
-- 
2.43.0


From 34da63077968ea8886a0696d1be37396a4e69afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 2/9] fix: keep the TRSM base case up to one word when a
 smaller cutoff is given

---
 src/trsm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trsm.inl b/src/trsm.inl
index 2e8d154..27e4fb4 100644
--- a/src/trsm.inl
+++ b/src/trsm.inl
@@ -9,7 +9,7 @@
 void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff) {
   assert((L->finite_field == B->finite_field) && (L->nrows == L->ncols) && (B->nrows == L->ncols));
 
-  if (L->nrows <= cutoff || B->ncols <= cutoff) {
+  if (L->nrows <= MAX(cutoff, m4ri_radix) || B->ncols <= cutoff) {
     matrix_trsm_lower_left_newton_john(L,B);
     return;
   }
@@ -53,7 +53,7 @@ void _matrix_trsm_lower_left(const matrix_t *L, matrix_t *B, const rci_t cutoff)
 void _matrix_trsm_upper_left(matrix_t const *U, matrix_t *B, const rci_t cutoff) {
   assert((U->finite_field == B->finite_field) && (U->nrows == U->ncols) && (B->nrows == U->ncols));
 
-  if (U->nrows <= cutoff || B->ncols <= cutoff) {
+  if (U->nrows <= MAX(cutoff, m4ri_radix) || B->ncols <= cutoff) {
     matrix_trsm_upper_left_newton_john(U,B);
     return;
   }
-- 
2.43.0


From c6197fd08531ccc234924174e89512af82309e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 3/9] fix: enlarge the coefficient array when a matrix
 polynomial grows

---
 src/mzd_poly.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4736c0d..4dbaf9a 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -130,10 +130,16 @@ static inline mzd_poly_t *_mzd_poly_adapt_depth(mzd_poly_t *A, const deg_t new_d
       mzd_free(A->x[i]);
       A->x[i] = NULL;
     }
-  } else {
+  } else if (new_depth > A->depth) {
+    mzd_t **x = (mzd_t**)m4ri_mm_malloc(sizeof(mzd_t*)*new_depth);
+    for(int i=0; i<A->depth; i++) {
+      x[i] = A->x[i];
+    }
     for(int i=A->depth; i<new_depth; i++) {
-      A->x[i] = mzd_init(A->nrows,A->ncols);
+      x[i] = mzd_init(A->nrows,A->ncols);
     }
+    m4ri_mm_free(A->x);
+    A->x = x;
   }
   A->depth = new_depth;
   return A;
-- 
2.43.0


From 230e8dfc1f2226d7ad1834e34f340bef8ae731ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 4/9] fix: accumulate in _mzd_poly_addmul_blm for compiled maps
 and return the allocated result

---
 src/mzd_poly.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mzd_poly.h b/src/mzd_poly.h
index 4dbaf9a..1384360 100644
--- a/src/mzd_poly.h
+++ b/src/mzd_poly.h
@@ -219,7 +219,12 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
   if (C == NULL)
     C = mzd_poly_init(A->depth+B->depth-1, A->nrows, B->ncols);
 
-  _mzd_ptr_apply_blm(C->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  /* a compiled map overwrites its target */
+  mzd_poly_t *T = mzd_poly_init(f->H->nrows-1, A->nrows, B->ncols);
+  _mzd_ptr_apply_blm(T->x, (const mzd_t**)A->x, (const mzd_t**)B->x, f);
+  for(int i=0; i<T->depth; i++)
+    mzd_add(C->x[i], C->x[i], T->x[i]);
+  mzd_poly_free(T);
   return C;
 }
 
@@ -231,7 +236,7 @@ static inline mzd_poly_t *_mzd_poly_addmul_blm(mzd_poly_t *C, mzd_poly_t *A, mzd
 static inline mzd_poly_t *_mzd_poly_addmul_crt(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   int *p = crt_init(A->depth, B->depth);
   blm_t *f = blm_init_crt(NULL, A->depth, B->depth, p, 1);
-  _mzd_poly_addmul_blm(C, A, B, f);
+  C = _mzd_poly_addmul_blm(C, A, B, f);
   blm_free(f);
   m4ri_mm_free(p);
   return C;
-- 
2.43.0


From 9231dbf500cb6d0eef3b4f89f47c1dcc84c34c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 5/9] fix: matrix polynomial products with less than three
 coefficients in _mzd_poly_addmul_ext1

---
 src/mzd_poly.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mzd_poly.c b/src/mzd_poly.c
index 0cd0815..2790c1f 100644
--- a/src/mzd_poly.c
+++ b/src/mzd_poly.c
@@ -11,6 +11,9 @@ static inline mzd_slice_t * mzd_slice_addmul_mzd(mzd_slice_t *C, const word a, c
 
 mzd_poly_t *_mzd_poly_addmul_ext1(mzd_poly_t *C, mzd_poly_t *A, mzd_poly_t *B) {
   const int d = A->depth + B->depth-1;
+  /* there is no extension field of degree less than two */
+  if (d < 3)
+    return _mzd_poly_addmul_naive(C, A, B);
   const int log2d = (int)ceil(log2( (double)d ));
   assert(log2d <= 16);
 
-- 
2.43.0


From 3d9b03149522109ec354686a59c398fe738f9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:50 +0000
Subject: [PATCH 6/9] fix: blm_free for maps without compiled DJB maps

---
 src/blm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 1cff88b..02c0234 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -612,10 +612,13 @@ void blm_free(blm_t *f) {
   mzd_free(f->F);
   mzd_free(f->G);
   mzd_free(f->H);
-  if (f->f != f->g)
+  /* the DJB maps are only there if they were asked for */
+  if (f->g && f->f != f->g)
     djb_free(f->g);
-  djb_free(f->f);
-  djb_free(f->h);
+  if (f->f)
+    djb_free(f->f);
+  if (f->h)
+    djb_free(f->h);
 
   m4ri_mm_free(f);
 }
-- 
2.43.0


From 04829f1ae4bb40be42da645d95ceb41d9ea8757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 7/9] fix: address the only row of the converted window in
 mzd_slice_rescale_row

The row is extracted as a one row window before it is converted, so the
row to scale is row 0 of the packed copy; using r read and wrote past it
for every r > 0.
---
 src/conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.h b/src/conversion.h
index 81068bc..bda003b 100644
--- a/src/conversion.h
+++ b/src/conversion.h
@@ -287,7 +287,7 @@ static inline void mzd_slice_rescale_row(mzd_slice_t *A, rci_t r, rci_t c, word
   mzd_slice_t *A_w = mzd_slice_init_window(A, r, 0, r+1, A->ncols);
   mzed_t *A_we = mzed_cling(NULL, A_w);
 
-  mzed_rescale_row(A_we, r, c, x);
+  mzed_rescale_row(A_we, 0, c, x);
 
   mzed_slice(A_w, A_we);
   mzed_free(A_we);
-- 
2.43.0


From 76a1ca328b35c7a467fdab277f615ed9f7dbd8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:09 +0000
Subject: [PATCH 8/9] fix: release the temporary matrices of the bilinear map
 generator

---
 src/blm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blm.c b/src/blm.c
index 02c0234..79a3e64 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -375,6 +375,8 @@ mzd_t *_crt_modred_mat(const deg_t length, const word poly, const deg_t d) {
     for(deg_t j=0; j<= ii; j++) 
       mzd_write_bit(A, j, i, (f->rows[0][j/m4ri_radix]>>(j%m4ri_radix)) & 0x1);
   }
+  mzd_free(f);
+  mzd_free(t);
   return A;
 }
 
@@ -468,6 +470,7 @@ blm_t *_blm_finish_polymult(const gf2e *ff, blm_t *f) {
   }
   mzd_free(a);
   mzd_free(b);
+  mzd_free(DT);
   mzd_free(pivots);
 
   if (ff == NULL) {
-- 
2.43.0


From 8ab5e32f76a18d11212f6cd97a055016de008390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:24 +0000
Subject: [PATCH 9/9] fix: blm_init_crt: use powers of polynomials only where
 they have the requested degree

For an odd degree with more factors requested than there are irreducible
polynomials, d/2 was rounded down and a square of too small a degree was
used as modulus, the reduction by it never ends.
---
 src/blm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blm.c b/src/blm.c
index 79a3e64..e43c4d8 100644
--- a/src/blm.c
+++ b/src/blm.c
@@ -552,18 +552,18 @@ blm_t *blm_init_crt(const gf2e *ff, const deg_t f_ncols, const deg_t g_ncols, co
       if (p_it[d] < irreducible_polynomials[d][0]) {
         poly = irreducible_polynomials[d][ 1 + p_it[d] ];
         p_it[d]++;
-      } else if (d/2 && p_it[d/2] < irreducible_polynomials[d/2][0]) {
+      } else if (d%2 == 0 && p_it[d/2] < irreducible_polynomials[d/2][0]) {
         /** the minimal polynomial is a square */
         poly = irreducible_polynomials[d/2][ 1 + p_it[d/2]];
         p_it[d/2]++;
         poly = gf2x_mul(poly, poly, d/2+1);
-      } else if (d/4 && p_it[d/4] < irreducible_polynomials[d/4][0]) {
+      } else if (d%4 == 0 && p_it[d/4] < irreducible_polynomials[d/4][0]) {
         /** the minimal polynomial is a fourth power */
         poly = irreducible_polynomials[d/4][1 + p_it[d/4]];
         p_it[d/4]++;
         poly = gf2x_mul(poly, poly, d/4+1);
         poly = gf2x_mul(poly, poly, d/2+1);
-      } else if (d/8 && p_it[d/8] < irreducible_polynomials[d/8][0]) {
+      } else if (d%8 == 0 && p_it[d/8] < irreducible_polynomials[d/8][0]) {
         /** the minimal polynomial is an eigth power */
         poly = irreducible_polynomials[d/8][p_it[d/8]+ 1];
         p_it[d/8]++;
-- 
2.43.0

