From b7f44dd7b46f7886d3286cc62b0f841566e5526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 01/12] fix: reduce sums and differences of rationals to lowest
 terms

1/2 + 1/2 was 4/4, which did not compare equal to 1/1.
---
 src/core/num/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..7f939d6 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -84,7 +84,7 @@ impl Add for Rational {
         if numer.is_zero() {
             Rational::ZERO
         } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
+            Rational::new(numer, self.denom * other.denom)
         }
     }
 }
@@ -104,7 +104,7 @@ impl Sub for Rational {
         if numer.is_zero() {
             Rational::ZERO
         } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
+            Rational::new(numer, self.denom * other.denom)
         }
     }
 }
-- 
2.43.0


From 588d2f2d9e86523a12b1dc8c2ed63e9d49f8f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 02/12] fix: reciprocal of the zero rational panics instead of
 returning 0/0

---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 7f939d6..cc152ab 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -64,7 +64,7 @@ impl Rational {
     }
 
     pub fn recip(&self) -> Self {
-        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)
+        Self::new(self.denom, self.numer)
     }
 }
 
-- 
2.43.0


From 18bc32e2ddf292da51e11d24b8b92973168e819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 03/12] fix: negative powers of rationals keep the denominator
 positive

(-1/2)^-1 was 2/-1 and 0^-1 was 1/0; the latter now panics.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index cc152ab..61e5a63 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -47,7 +47,7 @@ impl Rational {
 
     pub fn pow(&self, exp: Integer) -> Self {
         if exp.is_neg() {
-            Self::new_unchecked(self.denom.pow(-exp), self.numer.pow(-exp))
+            self.recip().pow(-exp)
         } else {
             Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))
         }
-- 
2.43.0


From e7de3500655563d124632d69e3694c67d01c57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 04/12] fix: lcm is nonnegative and lcm(0, 0) is 0

---
 src/core/num/int.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index e1d1617..e212cd5 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -81,7 +81,13 @@ impl Integer {
     /// 
     /// That is, the smallest nonnegative integer which both divide.
     pub fn lcm(a: Integer, b: Integer) -> Integer {
-        a / Self::gcd(a, b) * b
+        let gcd = Self::gcd(a, b);
+
+        if gcd.0 == 0 {
+            return gcd;
+        }
+
+        (a / gcd * b).abs()
     }
 }
 
-- 
2.43.0


From 3f3dfd40443736eea2da780878549d6c2a10b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 05/12] fix: trim_zeros clears a multidegree whose entries are
 all zero

---
 src/poly/mdeg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..3c6d272 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -35,6 +35,8 @@ impl MultiDegree {
     pub fn trim_zeros(&mut self) {
         if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
             self.0.truncate(idx + 1);
+        } else {
+            self.0.clear();
         }
     }
 
-- 
2.43.0


From 644430dce1ceba2e9878924da78804ea1954b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 06/12] fix: get_col_iter_mut steps by the row length

It split the row-major entries into chunks of `rows` instead of `cols`.
---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From ceec97278d8e7d19c8b2e08c82882c17a46ee4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 07/12] fix: graded orders compare total degrees beyond 255

The u8 sum overflowed (panic in debug, wrong order in release).
---
 src/poly/ord.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/poly/ord.rs b/src/poly/ord.rs
index 2dd3cbc..9ee4194 100644
--- a/src/poly/ord.rs
+++ b/src/poly/ord.rs
@@ -78,7 +78,9 @@ impl MonomialOrder for RevLex {
 /// Important note: this is not a 'monomial order' as it is not antisymmetric;
 /// should probably be moved or hidden to avoid confusion
 pub fn grad(a: &MultiDegree, b: &MultiDegree) -> Ordering {
-    a.total_deg().cmp(&b.total_deg())
+    let total = |m: &MultiDegree| m.degs().map(|&deg| usize::from(deg)).sum::<usize>();
+
+    total(a).cmp(&total(b))
 }
 
 /// The [Graded Lexicographic Order](https://w.wiki/3zwp) on multidegrees.
-- 
2.43.0


From 557dd00415b385779172fa31e9de6a0b5ac8bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 08/12] fix: buchberger_algorithm returns monic polynomials

Input generators that stayed in the basis kept their leading coefficient,
so the result was not a reduced basis.
---
 src/poly/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..76fc60f 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -260,6 +260,13 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
+
+        // a reduced Gröbner basis is monic
+        for g in generators.iter_mut() {
+            if let Some(lc_g) = Self::leading_coef(g) {
+                *g = &*g / lc_g;
+            }
+        }
     }
 }
 
-- 
2.43.0


From c0ee089c12067fb2e468a25aabb2b25c7641d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 09/12] fix: facet normals of a cone lie in the span of the
 cone

For a cone of dimension below the ambient one the normal could be
orthogonal to every generator, so a subset that spans no facet was
reported as one. One-dimensional cones panicked.
---
 src/linalg/cone.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 28a04ee..6fff1ff 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -41,15 +41,23 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 		'outer: for subset in generators.iter().combinations(dim-1) {
 			// this is very inefficient to copy this all the time
 			let subset_owned : Vec<Mat<F>> = subset.iter().map(|&m| m.clone()).collect();
-			let subset_mat = Mat::from_row_vectors(&subset_owned);
+
+			// together with the orthogonal complement of the cone, so that the
+			// normal is determined up to scale even if dim != ambient_dim
+			let rows : Vec<&Mat<F>> = subset_owned.iter().chain(orth_comp_basis.iter()).collect();
+			let subset_mat = Mat::new(
+				rows.len(),
+				ambient_dim,
+				rows.iter().flat_map(|v| v.entries().iter().cloned()).collect()
+			);
 			let subset_rref = subset_mat.row_echelon().to_rref();
 
 			// (1) check linearly independent
-			if subset_rref.rank() != dim-1 {
+			if subset_rref.rank() != rows.len() {
 				continue;
 			}
 
-			// (2) get a normal (there are potentially multiple in dim != ambient_dim)
+			// (2) get a normal
 			let subset_kernel = subset_rref.compute_kernel();
 			let mut normal = subset_kernel[0].clone();
 
-- 
2.43.0


From 00d3054f4a83d932d66c7964e04ed6d9ca2504f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 10/12] hooks: read access for the verification harness behind
 cfg(algeo_verif)

---
 src/linalg/algorithm.rs | 11 +++++++++++
 src/linalg/cone.rs      | 20 +++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..07a6a91 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -195,6 +195,17 @@ impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R>
 	}
 }
 
+/// Read access to the private parts, for the external verification harness.
+#[cfg(algeo_verif)]
+impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R> {
+	pub fn verif_p(&self) -> &Mat<F> {
+		&self.p
+	}
+	pub fn verif_b(&self) -> &Mat<F> {
+		&self.b
+	}
+}
+
 type RowEchelonForm<'a, F> = RowEquivalentForm<'a, F, true, false>;
 type ReducedRowEchelonForm<'a, F> = RowEquivalentForm<'a, F, true, true>;
 
diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 6fff1ff..ffc8ffe 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -107,4 +107,22 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			dim
 		}
 	}
-}
\ No newline at end of file
+}
+
+/// Read access to the private parts, for the external verification harness.
+#[cfg(algeo_verif)]
+impl<F: Field> Cone<F> {
+	pub fn verif_generators(&self) -> &[Mat<F>] {
+		&self.generators
+	}
+	/// normal and generators of each facet
+	pub fn verif_facets(&self) -> Vec<(&Mat<F>, &[Mat<F>])> {
+		self.facets.iter().map(|f| (&f.normal, &f.generators[..])).collect()
+	}
+	pub fn verif_orth_comp_basis(&self) -> &[Mat<F>] {
+		&self.orth_comp_basis
+	}
+	pub fn verif_dims(&self) -> (usize, usize) {
+		(self.ambient_dim, self.dim)
+	}
+}
-- 
2.43.0


From 75f0eb1eeceac0fce964454d1da08a6a2785b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 11/12] fix: a zero rational is not ranked below zero by the
 stability comparison

stability_cmp(0, 0) returned Less, so the comparison of two zeros was
not antisymmetric.
---
 src/core/num/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/num/traits.rs b/src/core/num/traits.rs
index 215bd84..794d04e 100644
--- a/src/core/num/traits.rs
+++ b/src/core/num/traits.rs
@@ -213,7 +213,9 @@ stability_cmp_impl! { f32 f64 }
 /// avoid very large denominators/numerators.
 impl StabilityCmp for Rational {
     fn stability_cmp(&self, other: &Self) -> Option<Ordering> {
-        if *self == Rational::ZERO {
+        if *self == *other {
+            Some(Ordering::Equal)
+        } else if *self == Rational::ZERO {
             Some(Ordering::Less)
         } else if *other == Rational::ZERO {
             Some(Ordering::Greater)
-- 
2.43.0


From 28cf47ba108da3cf8ce71ec6ee73cbd0a7583ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 12/12] fix: Cone::new missed facets through its first
 generator

The normal of a candidate facet was oriented by the first generator only.
When that generator lies on the hyperplane its product with the normal is
zero, the normal kept an arbitrary direction, and the facet was dropped
whenever that direction was the wrong one.
---
 src/linalg/cone.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index ffc8ffe..f581e64 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -61,10 +61,15 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			let subset_kernel = subset_rref.compute_kernel();
 			let mut normal = subset_kernel[0].clone();
 
-			// (3) check that all generators are on one side
-			if let Some(ordering) = generators[0].dot(&normal).partial_cmp(&F::ZERO) {
-
-				// re-orient the normal in the direction of the first generator
+			// (3) check that all generators are on one side: the side of the first
+			// generator which is not on the hyperplane itself
+			let off_plane = generators.iter()
+				.map(|g| g.dot(&normal))
+				.find(|d| *d != F::ZERO)
+				.unwrap_or(F::ZERO);
+			if let Some(ordering) = off_plane.partial_cmp(&F::ZERO) {
+
+				// re-orient the normal in the direction of that generator
 				let is_above = match ordering {
 					std::cmp::Ordering::Less => false,
 					_ => true
-- 
2.43.0

