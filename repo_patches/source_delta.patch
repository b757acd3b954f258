From 3df5331f66a1277116b59355a3ecd1d3f30e7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 001/164] fix: floor of negative non-integer numbers below -1

---
 src/core/real_analysis.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..6267128 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -270,12 +270,11 @@ namespace theoretica {
 	/// e.g. floor(-0.3) = -1
 	TH_CONSTEXPR inline int floor(real x) {
 
-		if(x < 0 && x > -1)
-			return -1;
+		// Truncation rounds towards zero, so that negative
+		// non-integer numbers need to be corrected
+		const int n = int(x);
 
-		// Compute the biggest integer number
-		// that is smaller than x
-		return x - (int(x) % 1);
+		return (x < n) ? n - 1 : n;
 	}
 
 
-- 
2.43.0


From 13edb2ffba4f0920bd28ec8f6e87d32f5fc955e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 002/164] fix: wrong quadrant of atan2 for negative coordinates

---
 src/core/real_analysis.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 6267128..28876e7 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1106,11 +1106,11 @@ namespace theoretica {
 			return sgn(y) * PI2;
 		}
 
-		if(x > 0) {
-			return sgn(y) * atan(y / x);
-		} else {
-			return sgn(y) * atan(y / -x) + PI2;
-		}
+		if(x > 0)
+			return atan(y / x);
+
+		// Translate the angle to the second and third quadrants
+		return (y < 0) ? atan(y / x) - PI : atan(y / x) + PI;
 	}
 
 
-- 
2.43.0


From 8cfbc8eae6d4de7e177daef88172faf0893cf495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 003/164] fix: exp of NaN and of arguments which do not fit in
 an int

---
 src/core/real_analysis.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 28876e7..15a750a 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -740,6 +740,14 @@ namespace theoretica {
 		if(x < 0)
 			return 1.0 / exp(-x);
 
+		// e^x > 2^x overflows, while the integer part
+		// may not be representable
+		if(x > std::numeric_limits<real>::max_exponent)
+			return inf();
+
+		if(is_nan(x))
+			return x;
+
 		const real fract_x = fract(x);
 		const int floor_x = floor(x);
 
-- 
2.43.0


From cf57205857fa830bf1565a9dc027eed9883ffc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 004/164] fix: tanh and coth of large arguments returned NaN

---
 src/core/real_analysis.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 15a750a..e862006 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1148,8 +1148,9 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic tangent of x
 	inline real tanh(real x) {
-		real exp_x = exp(x);
-		return (exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x);
+		// This form saturates when the exponential
+		// overflows or underflows
+		return 1.0 - 2.0 / (exp(2.0 * x) + 1.0);
 	}
 
 
@@ -1157,8 +1158,9 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic cotangent of x
 	inline real coth(real x) {
-		real exp_x = exp(x);
-		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
+		// This form saturates when the exponential
+		// overflows or underflows
+		return 1.0 + 2.0 / (exp(2.0 * x) - 1.0);
 	}
 
 
-- 
2.43.0


From ae04ae023d0133ba2b41f969ddfdfc6296a0f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 005/164] fix: catastrophic cancellation in asinh of negative
 numbers

---
 src/core/real_analysis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e862006..ba1a49a 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1166,6 +1166,11 @@ namespace theoretica {
 
 	/// Compute the inverse hyperbolic sine
 	inline real asinh(real x) {
+
+		// asinh(x) is odd
+		if(x < 0)
+			return -asinh(-x);
+
 		return ln(x + sqrt(square(x) + 1));
 	}
 
-- 
2.43.0


From 007b062baf1471fd9a08f627f599231f0c8f3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 006/164] fix: infinite recursion in root of a negative number

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index ba1a49a..7486e2f 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -841,6 +841,10 @@ namespace theoretica {
 			if(x == 0)
 				return 0;
 
+			// Roots of odd index are odd functions
+			if(x < 0)
+				return -root(-x, n);
+
 			// Approximate root between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
-- 
2.43.0


From e4c3bf126327ed86775b59e1df9c4108b527a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 007/164] fix: cbrt did not converge for very large and very
 small numbers

---
 src/core/real_analysis.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 7486e2f..d34edf8 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -213,8 +213,16 @@ namespace theoretica {
 			return 1.0 / cbrt(1.0 / x);
 		}
 
-		// Approximate cbrt(x) using Newton-Raphson
-		real y = x;
+		if(is_inf(x) || is_nan(x))
+			return x;
+
+		// Approximate cbrt(x) using Newton-Raphson,
+		// starting from a power of 2 close to the root
+		real y = 1;
+
+		while(cube(y) < x)
+			y *= 2.0;
+
 		unsigned int i = 0;
 
 		while((cube(y) - x) > OPTIMIZATION_TOL && i < OPTIMIZATION_NEWTON_ITER) {
-- 
2.43.0


From 25970cb41743ed444d756ce58b9d4162570364db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 008/164] fix: portable sqrt did not converge for very large
 and very small numbers

---
 src/core/real_analysis.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index d34edf8..dc73e64 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -171,8 +171,16 @@ namespace theoretica {
 			return 1.0 / sqrt(1.0 / x);
 		}
 
-		// Approximate sqrt(x) using Newton-Raphson
-		real y = x;
+		if(is_inf(x) || is_nan(x))
+			return x;
+
+		// Approximate sqrt(x) using Newton-Raphson,
+		// starting from a power of 2 close to the root
+		real y = 1;
+
+		while(square(y) < x)
+			y *= 2.0;
+
 		unsigned int i = 0;
 
 		while((square(y) - x) > OPTIMIZATION_TOL && i < OPTIMIZATION_NEWTON_ITER) {
-- 
2.43.0


From af0ea1726aebab374e065a09c78910effb9b29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 009/164] fix: portable log2 did not terminate for numbers
 above 2^63

---
 src/core/real_analysis.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index dc73e64..1c33658 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -461,13 +461,16 @@ namespace theoretica {
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
-		// Compute the biggest power of 2 so that x <= 2^i
+		if(is_inf(x))
+			return x;
+
+		// Compute the smallest power of 2 so that x <= 2^i,
+		// reducing the domain to (0.5, 1]
 		unsigned int i = 0;
-		while(x > (uint64_t(1) << i))
+		while(x > 1.0) {
+			x /= 2.0;
 			i++;
-
-		// Domain reduction to [1, 2]
-		x /= (uint64_t(1) << i);
+		}
 
 		// Use the Taylor expansion of the logarithm
 		// ln(1 + x) = \sum_k^n (-1)^(k+1) x^k / k
-- 
2.43.0


From ba866c7dbcbe67d4abf5405bcd32ef346ca72a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 010/164] fix: portable log2 of NaN returned zero

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 1c33658..081d067 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -478,7 +478,7 @@ namespace theoretica {
 		const real z = x - 1;
 
 		// Exact powers of 2 don't need further computation
-		if(abs(z) > MACH_EPSILON) {
+		if(!(abs(z) <= MACH_EPSILON)) {
 
 			int sign = 1;
 			real pow_z = z;
-- 
2.43.0


From fe612d037a87140c7872a82d1d750d370ddd5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 011/164] fix: division by zero in isqrt and icbrt of the
 largest integer

---
 src/core/real_analysis.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 081d067..b7be316 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -54,8 +54,8 @@ namespace theoretica {
 	template<typename UnsignedIntType = uint64_t>
 	inline UnsignedIntType isqrt(UnsignedIntType n) {
 
-		// Upper bound
-		UnsignedIntType upper = n + 1;
+		// Upper bound (computed without overflowing)
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
@@ -94,8 +94,8 @@ namespace theoretica {
 	template<typename UnsignedIntType = uint64_t>
 	inline UnsignedIntType icbrt(UnsignedIntType n) {
 
-		// Upper bound
-		UnsignedIntType upper = n + 1;
+		// Upper bound (computed without overflowing)
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
-- 
2.43.0


From 3567a7240fd79195d6454ba96e925bac3db4e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 012/164] fix: pad2 of numbers larger than 2^30

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index b7be316..083f71f 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -605,11 +605,11 @@ namespace theoretica {
 				// Check if x is a power of 2
 				for (int j = 0; j < i; ++j)
 					if(x & ((UnsignedIntType) 1 << j))
-						return (1 << (bit + 1));
+						return (UnsignedIntType) 1 << (bit + 1);
 			}
 		}
 
-		return (1 << bit);
+		return (UnsignedIntType) 1 << bit;
 	}
 
 
-- 
2.43.0


From 338c32e91f61d1a880a86fea25ef6ba5f441c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 013/164] fix: overflow in binomial coefficients which are
 representable

---
 src/core/real_analysis.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 083f71f..af4a932 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1274,10 +1274,12 @@ namespace theoretica {
 
 		IntType res = 1;
 
-		for (unsigned int i = n; i > m; --i)
-			res *= i;
+		// Every partial product is itself a binomial coefficient,
+		// so that the division is always exact
+		for (unsigned int i = 1; i <= n - m; ++i)
+			res = res * (m + i) / i;
 
-		return res / fact(n - m);
+		return res;
 	}
 
 
-- 
2.43.0


From 423e903d28f7bc639f0a8286bbc3fab8f45cf6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 014/164] fix: Gamma function of integers overflowed 64 bits

---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index 352576e..0ce5fee 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -27,7 +27,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return fact(k - 1);
+			return fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From df276838518822e1191fc43464d65fa7abcb1390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:29 +0000
Subject: [PATCH 015/164] fix: half Gamma function overflowed integer types

---
 src/core/special.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 0ce5fee..14c9106 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -45,9 +45,16 @@ namespace theoretica {
 				return nan();
 			}
 
-			return (k % 2 == 0)
-		        ? fact<uint64_t>(k / 2 - 1)
-		        : double_fact<uint64_t>(k - 2) * SQRTPI / (1 << ((k - 1) / 2));
+			if(k % 2 == 0)
+				return fact<real>(k / 2 - 1);
+
+			// Gamma(x + 1) = x Gamma(x), starting from Gamma(1/2)
+			real res = SQRTPI;
+
+			for (unsigned int i = 1; i + 1 < k; i += 2)
+				res *= i / 2.0;
+
+			return res;
 		}
 
 
-- 
2.43.0


From 7a17328816e0b620551e9ab8750eb4bba4d8a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 016/164] fix: in-place sum and difference of vectors of
 different types did not compile

---
 src/algebra/vec.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..71dcf23 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -249,7 +249,7 @@ namespace theoretica {
 		inline vec<Type, N>& operator+=(const Vector& other) {
 
 			for (unsigned int i = 0; i < N; ++i)
-				data[i] += other.data[i];
+				data[i] += other[i];
 		
 			return *this;
 		}
@@ -260,7 +260,7 @@ namespace theoretica {
 		inline vec<Type, N>& operator-=(const Vector& other) {
 
 			for (unsigned int i = 0; i < N; ++i)
-				data[i] -= other.data[i];
+				data[i] -= other[i];
 		
 			return *this;
 		}
@@ -654,7 +654,7 @@ namespace theoretica {
 			}
 
 			for (unsigned int i = 0; i < size(); ++i)
-				data[i] += other.data[i];
+				data[i] += other[i];
 		
 			return *this;
 		}
@@ -670,7 +670,7 @@ namespace theoretica {
 			}
 
 			for (unsigned int i = 0; i < size(); ++i)
-				data[i] -= other.data[i];
+				data[i] -= other[i];
 		
 			return *this;
 		}
-- 
2.43.0


From 9f1801bab2ce8c77080e3df6a552ee710d6239b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 017/164] fix: in-place division of static vectors did not
 compile

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 71dcf23..e8f51a3 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From 587ddcdb2780522e81940694e5700a3a8cf2fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 018/164] fix: in-place vec_sum, vec_diff, mat_sum, mat_diff
 and mat_lincomb with different types did not compile

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..06db26e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -761,7 +761,7 @@ namespace theoretica {
 		/// @param B The second matrix to add
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_sum(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_sum(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_sum", A.rows(), INVALID_ARGUMENT);
@@ -829,7 +829,7 @@ namespace theoretica {
 		/// @param B The second matrix
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_diff(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_diff(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_diff", A.rows(), INVALID_ARGUMENT);
@@ -898,7 +898,7 @@ namespace theoretica {
 		/// @param B The second matrix to combine
 		/// @return A reference to the overwritten matrix
 		template<typename Field1, typename Matrix1, typename Field2, typename Matrix2>
-		inline Matrix2& mat_lincomb(
+		inline Matrix1& mat_lincomb(
 			Field1 alpha, Matrix1& A, Field2 beta, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
@@ -1132,7 +1132,7 @@ namespace theoretica {
 		/// @param v2 The second vector to add
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_sum(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_sum(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_sum", v1.size(), INVALID_ARGUMENT);
@@ -1180,7 +1180,7 @@ namespace theoretica {
 		/// @param v2 The second vector
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_diff(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_diff(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_diff", v1.size(), INVALID_ARGUMENT);
-- 
2.43.0


From f1758bcf837aa0b0d7d1a614bda59372ca5d6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 019/164] fix: mat_lincomb with a destination matrix did not
 compile

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 06db26e..bb7bb9e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -937,14 +937,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -963,7 +963,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From b28c3a8164e2784e8b58cf75d2c4da85ed490206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 020/164] fix: constructor of dynamic matrices from other
 matrix types was never viable

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..a549300 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -720,7 +720,7 @@ namespace theoretica {
 		/// @tparam Matrix A compatible matrix type.
 		/// @param m The matrix to copy from.
 		template <
-			typename Matrix, enable_matrix<Matrix>
+			typename Matrix, enable_matrix<Matrix> = true
 		>
 		mat(const Matrix& m) {
 			resize(m.rows(), m.cols());
-- 
2.43.0


From 34be7281d12663726b87dff2393e965722414dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 021/164] fix: element access of non-square dynamic matrices

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index a549300..4200cde 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From 809cbdd2d63e285367e260bac71bcf9a0e018775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:10 +0000
Subject: [PATCH 022/164] fix: resizing a dynamic matrix scrambled its elements

---
 src/algebra/mat.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 4200cde..dc8db49 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1237,21 +1237,17 @@ namespace theoretica {
 			if (row_sz == rows && col_sz == cols)
 				return *this;
 
-			std::vector<Type> new_data (rows * cols);
+			const mat<Type> old = *this;
 
-			if (data.size()) {
-
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
-
-				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
-			}
-
-			data = new_data;
+			data = std::vector<Type>(rows * cols);
 			row_sz = rows;
 			col_sz = cols;
 
+			// Copy the overlapping elements
+			for (unsigned int i = 0; i < min(rows, old.rows()); ++i)
+				for (unsigned int j = 0; j < min(cols, old.cols()); ++j)
+					at(i, j) = old.at(i, j);
+
 			return *this;
 		}
 
-- 
2.43.0


From ac3aac54f91fd9a49e5fc7faabdc2ee0af2b2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:10 +0000
Subject: [PATCH 023/164] fix: diagonal constructor of static matrices without
 sizes gave a null matrix

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index dc8db49..29f4d92 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = min(N, K);
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From c9247b298c613384dd5369cc4aac7fb0879b9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 024/164] fix: transformation of vectors by non-square matrices

---
 src/algebra/algebra.h | 6 +++---
 src/algebra/mat.h     | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index bb7bb9e..044b167 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -702,9 +702,9 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
-			if(v.size() != A.cols()) {
+			if(v.size() != A.cols() || res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
@@ -736,7 +736,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 29f4d92..34da91f 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -332,7 +332,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -877,7 +878,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
@@ -894,7 +895,9 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		template<unsigned int N = 0, unsigned int K = 0>
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			res.resize(rows());
+			return algebra::transform(res, *this, v);
 		}
 
 
-- 
2.43.0


From 9b944095049fc4768281fb3d140377316aa51b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 025/164] fix: apply_transform discarded the transformed vector

---
 src/algebra/algebra.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 044b167..063840a 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -681,14 +681,20 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 			vec_zeroes(res);
 
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::apply_transform", A.rows(), INVALID_ARGUMENT);
+				vec_error(v);
+				return v;
+			}
+
 			for (unsigned int i = 0; i < A.rows(); ++i)
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
-- 
2.43.0


From fe60b76154f7676dfe6a474e4966c1fc676eee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:49 +0000
Subject: [PATCH 026/164] fix: mat_swap_cols iterated over columns instead of
 rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 063840a..4583c76 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -211,7 +211,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From c9666383036e6af7006c896461931bf4ea50b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:21 +0000
Subject: [PATCH 027/164] fix: product of static non-square matrices with
 operator*

---
 src/algebra/mat.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 34da91f..726cda8 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -379,6 +379,16 @@ namespace theoretica {
 		}
 
 
+   		/// Overloads the `*` operator for the multiplication of fixed-size matrices.
+   		/// @tparam M The number of columns of the matrix to multiply with.
+   		/// @param B The matrix to multiply with.
+   		/// @return The resulting N x M matrix.
+		template<unsigned int M>
+		inline mat<Type, N, M> operator*(const mat<Type, K, M>& B) const {
+			return mul(B);
+		}
+
+
    		/// Overloads the `*` operator for matrix multiplication.
    		/// @tparam Matrix The type of the matrix to multiply with.
    		/// @param B The matrix to multiply with.
-- 
2.43.0


From a35bb6a4f4534a2094301eafc0ab99f4dfaae88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:21 +0000
Subject: [PATCH 028/164] fix: copying into a static vector or matrix of
 another size wrote out of bounds

---
 src/algebra/algebra.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 4583c76..278896e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -126,6 +126,10 @@ namespace theoretica {
 
 			dest.resize(src.rows(), src.cols());
 
+			// Statically allocated matrices cannot be resized
+			if(dest.rows() != src.rows() || dest.cols() != src.cols())
+				return mat_error(dest);
+
 			for (unsigned int i = 0; i < src.rows(); ++i)
 				for (unsigned int j = 0; j < src.cols(); ++j)
 					dest(i, j) = src(i, j);
@@ -144,6 +148,10 @@ namespace theoretica {
 
 			dest.resize(src.size());
 
+			// Statically allocated vectors cannot be resized
+			if(dest.size() != src.size())
+				return vec_error(dest);
+
 			for (unsigned int i = 0; i < src.size(); ++i)
 				dest[i] = src[i];
 
-- 
2.43.0


From 0e448296b0084a9cb152ed6ce02517b93e3475c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 029/164] fix: LU decomposition of complex matrices and into
 used destinations

The products were conjugated, so that LU differed from A for complex
matrices, and the upper part of L was left as it was found.
---
 src/algebra/algebra.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 278896e..a3eba4d 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1406,9 +1406,10 @@ namespace theoretica {
 
 			using Type = matrix_element_t<Matrix1>;
 
-			// Set the diagonal of L to 1.0
+			// Set the diagonal of L to 1.0 and the other elements to zero
 			for (unsigned int i = 0; i < A.rows(); ++i)
-				L(i, i) = (Type) 1.0;
+				for (unsigned int j = 0; j < A.cols(); ++j)
+					L(i, j) = (Type) (i == j ? 1.0 : 0.0);
 
 			// Compute L and U
 			for(unsigned int i = 0; i < A.rows(); ++i) {
@@ -1418,7 +1419,7 @@ namespace theoretica {
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1426,7 +1427,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1458,7 +1459,7 @@ namespace theoretica {
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From c5528a905e1341c80bc3c4cb9182cbfbe2c9509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 030/164] fix: solve_triangular_upper read out of bounds

The last row has no element after the diagonal.
---
 src/algebra/algebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index a3eba4d..8d52a36 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1642,9 +1642,9 @@ namespace theoretica {
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-				Type sum = U(i, i + 1) * x[i + 1];
+				Type sum = Type(0.0);
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From 2a6d254e1ac09c1c09e07ee694608e723423447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 031/164] fix: linear systems with a null or small pivot were
 not solved

solve and solve_lu divided by zero for invertible matrices such as a
permutation matrix; rows are now exchanged to use the largest pivot and
singular systems are reported.
---
 src/algebra/algebra.h | 45 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 8d52a36..4bdd841 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1743,8 +1743,49 @@ namespace theoretica {
 		template<typename Matrix, typename Vector>
 		inline Vector solve_lu(Matrix A, Vector b) {
 
-			// Apply in-place LU decomposition
-			decompose_lu_inplace(A);
+			if (!is_square(A)) {
+				TH_MATH_ERROR("algebra::solve_lu", A.rows(), INVALID_ARGUMENT);
+				return vec_error(b);
+			}
+
+			if (A.rows() != b.size()) {
+				TH_MATH_ERROR("algebra::solve_lu", b.size(), INVALID_ARGUMENT);
+				return vec_error(b);
+			}
+
+			using Type = matrix_element_t<Matrix>;
+
+			// Apply in-place LU decomposition with partial pivoting
+			for (unsigned int j = 0; j < A.cols(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i)
+					if (abs(A(i, j)) > abs(A(pivot, j)))
+						pivot = i;
+
+				if (A(pivot, j) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_lu", j, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
+				if (pivot != j) {
+
+					mat_swap_rows(A, pivot, j);
+
+					const auto b_j = b[j];
+					b[j] = b[pivot];
+					b[pivot] = b_j;
+				}
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i) {
+
+					A(i, j) /= A(j, j);
+
+					for (unsigned int k = j + 1; k < A.cols(); ++k)
+						A(i, k) -= A(i, j) * A(j, k);
+				}
+			}
 
 			// Apply forward and backward substitution
 			return solve_lu_inplace(A, b);
-- 
2.43.0


From 056dcb1ec92adce2b6e643b7df9121dc1f0b11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 032/164] fix: determinant of matrices with a null or small
 pivot

The determinant was computed without exchanging rows, giving NaN for
matrices as simple as a permutation.
---
 src/algebra/algebra.h | 50 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 4bdd841..c2b674e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2071,20 +2071,56 @@ namespace theoretica {
 
 
 		/// Compute the determinant of a square matrix.
-		/// In-place LU decomposition is used to reduce the
-		/// matrix to triangular form.
+		/// Gaussian elimination with partial pivoting is used
+		/// to reduce the matrix to triangular form.
 		///
 		/// @param A The matrix to compute the determinant of
 		/// @return The determinant of the matrix
 		template<typename Matrix>
 		inline auto det(const Matrix& A) {
 
-			Matrix LU = A;
-			decompose_lu_inplace(LU);
+			using Type = matrix_element_t<Matrix>;
+
+			if (!is_square(A)) {
+				TH_MATH_ERROR("algebra::det", A.rows(), INVALID_ARGUMENT);
+				return Type(nan());
+			}
+
+			Matrix U = A;
+			Type res = Type(1.0);
+
+			// Reduce the matrix to upper triangular form with partial pivoting
+			for (unsigned int j = 0; j < U.cols(); ++j) {
+
+				unsigned int pivot = j;
+
+				for (unsigned int i = j + 1; i < U.rows(); ++i)
+					if (abs(U(i, j)) > abs(U(pivot, j)))
+						pivot = i;
+
+				if (U(pivot, j) == Type(0.0))
+					return Type(0.0);
+
+				// Exchanging two rows changes the sign of the determinant
+				if (pivot != j) {
+					mat_swap_rows(U, pivot, j);
+					res *= Type(-1.0);
+				}
+
+				for (unsigned int i = j + 1; i < U.rows(); ++i) {
 
-			// The determinant of a triangular matrix
-			// is the product of the elements on its diagonal
-			return diagonal_product(LU);
+					const Type coeff = U(i, j) / U(j, j);
+
+					for (unsigned int k = j + 1; k < U.cols(); ++k)
+						U(i, k) -= coeff * U(j, k);
+				}
+
+				// The determinant of a triangular matrix
+				// is the product of the elements on its diagonal
+				res *= U(j, j);
+			}
+
+			return res;
 		}
 
 
-- 
2.43.0


From a99a8bcaf410723158f3b0444edba1867b7dad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 033/164] fix: matrix inversion lost all accuracy with small
 pivots

Only exactly null pivots were replaced, so that an element reduced to
rounding error was used as a pivot; the largest pivot is now used.
---
 src/algebra/algebra.h | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index c2b674e..5946f3c 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1968,34 +1968,23 @@ namespace theoretica {
 			// Iterate on all columns
 			for (unsigned int i = 0; i < src.rows(); ++i) {
 				
-				// Make sure the element on the diagonal
-				// is non-zero by adding the first non-zero row
-				if(A(i, i) == (Type) 0) {
-
-					bool flag = false;
-
-					// Iterate on all rows
-					for (unsigned int j = i + 1; j < src.rows(); ++j) {
-
-						// Add the j-th row to the i-th row
-						// if Aji is non-zero
-						if(A(j, i) != (Type) 0) {
-
-							for (unsigned int k = 0; k < src.rows(); ++k) {
-								A(i, k) += A(j, k);
-								dest(i, k) += dest(j, k);
-							}
-
-							flag = true;
-							break;
-						}
-					}
+				// Use the row with the biggest element
+				// in the current column as the pivot row
+				unsigned int pivot = i;
+
+				for (unsigned int j = i + 1; j < src.rows(); ++j)
+					if(abs(A(j, i)) > abs(A(pivot, i)))
+						pivot = j;
+
+				if(A(pivot, i) == (Type) 0) {
+					TH_MATH_ERROR("algebra::inverse", i, IMPOSSIBLE_OPERATION);
+					mat_error(dest);
+					return dest;
+				}
 
-					if(!flag) {
-						TH_MATH_ERROR("algebra::inverse", flag, IMPOSSIBLE_OPERATION);
-						mat_error(dest);
-						return dest;
-					}
+				if(pivot != i) {
+					mat_swap_rows(A, pivot, i);
+					mat_swap_rows(dest, pivot, i);
 				}
 
 				auto inv_pivot = ((Type) 1.0) / A(i, i);
-- 
2.43.0


From f89c24c352524376fad27dc5bd35dbd43a06047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:39 +0000
Subject: [PATCH 034/164] fix: wrong sign in the rotation matrix around an
 arbitrary axis

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..e9e8547 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From e0fb2e872fd54b4f383292a721d5c9dfdd21db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:39 +0000
Subject: [PATCH 035/164] fix: rotations around the y and z axes wrote out of
 bounds

The element (3, 3) does not exist in a 3x3 matrix; bigger matrices are
already set to the identity.
---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e9e8547..1e8ed94 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -286,7 +286,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -329,7 +328,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From 3a6a59cf5b6e04d735995cdd1665048c8a03df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:39 +0000
Subject: [PATCH 036/164] fix: look_at read its axes out of bounds and negated
 them

The indices were shifted by one, and the axes were negated in place
while computing the translation.
---
 src/algebra/transform.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 1e8ed94..5b81294 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -487,20 +487,20 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
-			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
-
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
-			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
-
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
-			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
+			m(0, 3) = -dot(camera, x_axis);
+
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
+			m(1, 3) = -dot(camera, y_axis);
+
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
+			m(2, 3) = -dot(camera, z_axis);
 
 			m(3, 0) = 0;
 			m(3, 1) = 0;
-- 
2.43.0


From bf2a714267455621fcb6c6185f5862b706e0d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:39 +0000
Subject: [PATCH 037/164] fix: perspective and ortho gave the transposed
 projection matrices

All other transformations, such as translation and look_at, act on column
vectors.
---
 src/algebra/transform.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 5b81294..985cf5a 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -377,12 +377,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 * near / (right - left);
-			m(2, 0)  = (right + left) / (right - left);
+			m(0, 2)  = (right + left) / (right - left);
 			m(1, 1)  = 2 * near / (top - bottom);
-			m(2, 1)  = (top + bottom) / (top - bottom);
+			m(1, 2)  = (top + bottom) / (top - bottom);
 			m(2, 2) = -(far + near) / (far - near);
-			m(3, 2) = -(2 * far * near) / (far - near);
-			m(2, 3) = -1;
+			m(2, 3) = -(2 * far * near) / (far - near);
+			m(3, 2) = -1;
 			m(3, 3) = 0;
 
 			return m;
@@ -445,11 +445,12 @@ namespace theoretica {
 			mat_zeroes(m);
 
 			m(0, 0)  = 2 / (right - left);
-			m(3, 0)  = -(right + left) / (right - left);
+			m(0, 3)  = -(right + left) / (right - left);
 			m(1, 1)  = 2 / (top - bottom);
-			m(3, 1)  = -(top + bottom) / (top - bottom);
+			m(1, 3)  = -(top + bottom) / (top - bottom);
 			m(2, 2) = -2 / (far - near);
-			m(3, 2) = -(far + near) / (far - near);
+			m(2, 3) = -(far + near) / (far - near);
+			m(3, 3) = 1;
 
 			return m;
 		}
-- 
2.43.0


From 22a15b78f846343167e49dca753bd4d72dbfd507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:39 +0000
Subject: [PATCH 038/164] fix: perspective_fov ignored the size of dynamic
 matrices

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 985cf5a..328e495 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -415,7 +415,7 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(-width, width, -height, height, near, far, rows, cols);
 		}
 
 
-- 
2.43.0


From 8f98988674edf62151cdf78438def3b9b91ad6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:39 +0000
Subject: [PATCH 039/164] fix: quat::invert and quat::rotation did not compile

---
 src/complex/quat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..b8c2657 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
@@ -323,9 +323,13 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
+
+				const Vector n_axis = algebra::normalize(axis);
+				const Type s = sin(rad / 2.0);
+
 				return quat(
 					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
+					n_axis[0] * s, n_axis[1] * s, n_axis[2] * s
 				);
 			}
 
-- 
2.43.0


From 02a6bdb88d4cb75dec47e3f1e659a86fc77ac756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 040/164] fix: root of large and small numbers did not converge

The stopping condition compared the residual to an absolute tolerance,
below its rounding error for numbers above 1e8, and the iteration started
too far from the root without hardware logarithms.
---
 src/core/real_analysis.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index af4a932..a32326c 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -870,14 +870,13 @@ namespace theoretica {
 			return 1.0 / root(1.0 / x, n);
 		}
 
-		// Approximate n-th root using Newton-Raphson.
-		// If fast exponentials and logarithms are available,
-		// use a first calculation to speed up convergence.
-#ifdef THEORETICA_X86
+		// Approximate n-th root using Newton-Raphson,
+		// starting from an approximation of the root.
 		real y = exp(ln(x) / n);
-#else
-		real y = x;
-#endif
+
+		// The residual is subject to rounding errors
+		// which are proportional to x.
+		const real tol = max(OPTIMIZATION_TOL, 10 * n * MACH_EPSILON * x);
 
 		unsigned int i = 0;
 
@@ -885,7 +884,7 @@ namespace theoretica {
 
 			const real y_pow = pow(y, n - 1);
 
-			if((y_pow * y - x) < OPTIMIZATION_TOL)
+			if(abs(y_pow * y - x) < tol)
 				break;
 
 			y = (y * (n - 1) + x / y_pow) / (real) n;
-- 
2.43.0


From 9630d988dcb4bcf6ce5e734ed8a0a1a3af3ed17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 041/164] fix: hermitian_distance conjugated one of the vectors

The distance of a complex vector from itself was not zero.
---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 3c7be56..96b4d44 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -207,7 +207,7 @@ namespace theoretica {
 			complex<T> sum = 0;
 
 			for (size_t i = 0; i < v1.size(); ++i) {
-				const complex<T> diff = v1[i] - conjugate(v2[i]);
+				const complex<T> diff = v1[i] - v2[i];
 				sum += diff * diff.conjugate();
 			}
 
-- 
2.43.0


From 89c5cf10199ff4c96565530c2e7320fa493fb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 042/164] fix: canberra_distance of vectors which are zero in
 the same component

---
 src/algebra/distance.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 96b4d44..9c962cf 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -312,8 +312,14 @@ namespace theoretica {
 
 			real sum = 0;
 
-			for (size_t i = 0; i < v1.size(); ++i)
-				sum += abs(v1[i] - v2[i]) / (abs(v1[i]) + abs(v2[i]));
+			for (size_t i = 0; i < v1.size(); ++i) {
+
+				const real scale = abs(v1[i]) + abs(v2[i]);
+
+				// Null pairs of elements give no contribution
+				if(scale != 0)
+					sum += abs(v1[i] - v2[i]) / scale;
+			}
 
 			return sum;
 		}
-- 
2.43.0


From 82d07dcf4c7d7ae8351ec6fd1e7fed77cef21a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 043/164] fix: cosine_distance returned the cosine similarity

The distance of a vector from itself was one.
---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 9c962cf..703a56d 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -348,7 +348,7 @@ namespace theoretica {
 				sum_sqr_y += square(v2[i]);
 			}
 
-			return product / sqrt(sum_sqr_x * sum_sqr_y);
+			return 1 - product / sqrt(sum_sqr_x * sum_sqr_y);
 		}
 
 
-- 
2.43.0


From 92687ce92c9948ade71e149a06e64988d2805cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 044/164] fix: in-place division of complex by real numbers did
 not compile

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..c3ba180 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From bafae1878e7a9c364873a10e7e7cc34cfe3319f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 045/164] fix: complex square root of negative real numbers was
 zero

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..91c7af9 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -113,7 +113,7 @@ namespace theoretica {
 
 		return complex<T>(
 			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From 500a5468ef3874976a3f850cda0af958f8a346e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 046/164] fix: complex arccosine was not on the principal
 branch

Half of the complex plane was mapped to a negative real part.
---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 91c7af9..b617c40 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -137,7 +137,7 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
-		return ln(z + sqrt(square(z) - 1)) * complex<T>(0, -1);
+		return ln(z + complex<T>(0, 1) * sqrt(complex<T>(1, 0) - square(z))) * complex<T>(0, -1);
 	}
 
 
-- 
2.43.0


From 79d77a830ab3bc8ca08622ba61568780417ec603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 047/164] fix: phasor::inverse did not compile

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..f4f4406 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
 				if(modulus < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor(nan(), nan());
 				}
 
 				return phasor(
-- 
2.43.0


From f263f67b1021a8bf990fd2d67645894f286fcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:20 +0000
Subject: [PATCH 048/164] fix: difference of phasors with the same phase had a
 negative modulus

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index f4f4406..1af8a00 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -181,7 +181,7 @@ namespace theoretica {
 			/// in algebraic form.
 			inline phasor operator-(const phasor& other) const {
 
-				if(abs(phase - other.phase) < MACH_EPSILON)
+				if(abs(phase - other.phase) < MACH_EPSILON && modulus >= other.modulus)
 					return phasor(modulus - other.modulus, phase);
 
 				return phasor(to_complex() - other.to_complex());
@@ -248,7 +248,7 @@ namespace theoretica {
 			/// Subtract a phasor from this one
 			inline phasor& operator-=(const phasor& other) {
 
-				if(phase == other.phase)
+				if(phase == other.phase && modulus >= other.modulus)
 					modulus -= other.modulus;
 				else
 					*this = phasor(to_complex() - other.to_complex());
-- 
2.43.0


From cdc04614774a8851fc53e8da3da45a694b6783d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 049/164] fix: in-place products and quotients of dual numbers

The real part was overwritten before being used to compute the dual part.
---
 src/autodiff/dual.h      | 8 ++------
 src/autodiff/dual2.h     | 5 +----
 src/autodiff/multidual.h | 8 ++------
 3 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..eb69c96 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,9 +215,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this dual number by a real number
@@ -231,9 +229,7 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
-				b = (b * other.a - a * other.b) / square(other.a);
-				return *this;
+				return (*this = *this / other);
 			}
 
 			/// Divide a dual number by a real number
diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..c766d15 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -207,10 +207,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this dual number by a real number
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..d88e9c7 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -205,9 +205,7 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
-				v = (other.v * a) + (v * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this multidual number by a real number
@@ -221,9 +219,7 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
-				v = (v * other.a - other.v * a) / (other.a * other.a);
-				return *this;
+				return (*this = *this / other);
 			}
 
 			/// Divide a multidual number by a real number
-- 
2.43.0


From 1ce6cdf671381213879f9c89ceba7ac61e82474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 050/164] fix: derivative of the hyperbolic tangent lacked a
 factor of four

---
 src/autodiff/dual_functions.h      | 2 +-
 src/autodiff/multidual_functions.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..f63506d 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,7 +218,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..75a4159 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -213,7 +213,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
 	}
 
 }
-- 
2.43.0


From e520a70a2da21f34490bb7e49d5c510d77b54f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 051/164] fix: zeroth and first powers of dual numbers at zero

The power x^(n - 1) was computed also when its coefficient is null.
---
 src/autodiff/dual_functions.h      | 3 +++
 src/autodiff/multidual_functions.h | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index f63506d..5f7e051 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,9 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		if(n == 0)
+			return dual(1, 0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 75a4159..fec8d94 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,10 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+
+		if(n == 0)
+			return multidual<N>(1, x.Dual() * 0.0);
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
 	}
-- 
2.43.0


From 2159d416b91114bb134e17ccbb87a48b69ed8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 052/164] fix: a multidual number with null real part could not
 be divided

The dividend was checked to be non zero instead of the divisor.
---
 src/autodiff/multidual.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index d88e9c7..45c6ddb 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -156,7 +156,7 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
 					return multidual(nan(), vec<real, N>(nan(), N));
 				}
-- 
2.43.0


From 045f3185cb4723ffdfee3be975bf41e1b516a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 053/164] fix: error values of multidual numbers

The size and the value of the vectors were exchanged, or the value was
used as the size of a dynamic vector.
---
 src/autodiff/autodiff.h            |  2 +-
 src/autodiff/multidual.h           |  6 +++---
 src/autodiff/multidual_functions.h | 16 ++++++++--------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..f243d1a 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -288,7 +288,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 45c6ddb..226d5d3 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 				if(a == 0) {
 					TH_MATH_ERROR("multidual::inverse", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(N, nan()));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(1.0 / a, v * (-1 / (a * a)));
@@ -158,7 +158,7 @@ namespace theoretica {
 
 				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(a / other.a,
@@ -228,7 +228,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(v.size(), nan());
 					return *this;
 				}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index fec8d94..f1f8654 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -55,7 +55,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(multidual)", sqrt_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(sqrt_x, x.Dual() * 0.5 / sqrt_x);
@@ -84,7 +84,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(multidual)", cos_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(tan(x.Re()), x.Dual() / square(cos_x));
@@ -99,7 +99,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(multidual)", sin_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(cot(x.Re()), x.Dual() * (-1 / square(sin_x)));
@@ -120,7 +120,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(ln(x.Re()), x.Dual() / x.Re());
@@ -133,7 +133,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log2(x.Re()), x.Dual() * LOG2E / x.Re());
@@ -146,7 +146,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log10(x.Re()), x.Dual() * LOG10E / x.Re());
@@ -166,7 +166,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(asin(x.Re()), x.Dual() / sqrt(1 - square(x.Re())));
@@ -179,7 +179,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(acos(x.Re()), x.Dual() * (-1 / sqrt(1 - square(x.Re()))));
-- 
2.43.0


From 5d2081f787f37d544691ad4ab374024d77dc46ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 054/164] fix: extraction of the parts of dynamic multidual
 vectors

The template argument is zero for dynamic vectors.
---
 src/autodiff/multidual.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 226d5d3..43b5221 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -272,7 +272,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -288,8 +288,8 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
+				for (unsigned int i = 0; i < v.size(); ++i)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 				
 				return J;
@@ -304,9 +304,12 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
+				x.resize(v.size());
+				J.resize(v.size(), v.size());
+
+				for (unsigned int i = 0; i < v.size(); ++i) {
 					
-					for (unsigned int j = 0; j < N; ++j)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 					
 					x[i] = v.get(i).Re();
-- 
2.43.0


From 051aa804b5f3e038df60e3bf8dce73a584e8b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 055/164] fix: real constants as dynamic multidual numbers

A dynamic multidual number constructed from a real number has an empty
dual part, which could not be added to or multiplied by other numbers.
---
 src/autodiff/multidual.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 43b5221..da8c244 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -37,6 +37,20 @@ namespace theoretica {
 			// The template argument of the vector type used
 			static constexpr size_t vector_argument = N;
 
+			/// Linear combination of two dual parts, where
+			/// an empty dynamic vector is the null vector.
+			inline static vec<real, N> dual_lincomb(
+				real alpha, const vec<real, N>& u, real beta, const vec<real, N>& w) {
+
+				if(u.size() == 0)
+					return w * beta;
+
+				if(w.size() == 0)
+					return u * alpha;
+
+				return u * alpha + w * beta;
+			}
+
 
 			/// Construct a multidual number
 			/// as \f$(0 + \vec 0)\f$
@@ -113,7 +127,7 @@ namespace theoretica {
 
 			/// Sum two multidual numbers
 			inline multidual operator+(const multidual& other) const {
-				return multidual(a + other.a, v + other.v);
+				return multidual(a + other.a, dual_lincomb(1, v, 1, other.v));
 			}
 
 
@@ -131,7 +145,7 @@ namespace theoretica {
 
 			/// Subtract two multidual numbers
 			inline multidual operator-(const multidual& other) const {
-				return multidual(a - other.a, v - other.v);
+				return multidual(a - other.a, dual_lincomb(1, v, -1, other.v));
 			}
 
 
@@ -143,7 +157,7 @@ namespace theoretica {
 
 			/// Multiply two multidual numbers
 			inline multidual operator*(const multidual& other) const {
-				return multidual(a * other.a, other.v * a + v * other.a);
+				return multidual(a * other.a, dual_lincomb(other.a, v, a, other.v));
 			}
 
 
@@ -162,7 +176,7 @@ namespace theoretica {
 				}
 
 				return multidual(a / other.a,
-					(v * other.a - other.v * a) / (other.a * other.a));
+					dual_lincomb(other.a, v, -a, other.v) / (other.a * other.a));
 			}
 
 			/// Divide a multidual number by a real number
@@ -174,9 +188,7 @@ namespace theoretica {
 			/// Sum a real number to this one
 			inline multidual& operator+=(const multidual& other) {
 
-				a += other.a;
-				v += other.v;
-				return *this;
+				return (*this = *this + other);
 			}
 
 
@@ -190,9 +202,7 @@ namespace theoretica {
 			/// Subtract a real number from this one
 			inline multidual& operator-=(const multidual& other) {
 
-				a -= other.a;
-				v -= other.v;
-				return *this;
+				return (*this = *this - other);
 			}
 
 			/// Subtract a real number from this multidual number
-- 
2.43.0


From 694a9827abdd2cac56dfcaf49a3c7847fc036d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 056/164] fix: directional_derivative and sturm_liouville did
 not compile

---
 src/autodiff/autodiff.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index f243d1a..207fc1c 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -11,6 +11,7 @@
 #include "multidual.h"
 #include "../algebra/vec.h"
 #include "../algebra/mat.h"
+#include "../algebra/transform.h"
 #include "../core/error.h"
 #include "../core/core_traits.h"
 #include "./autodiff_types.h"
@@ -341,7 +342,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * algebra::dot(v, gradient(f, x));
 		}
 
 
@@ -436,9 +437,8 @@ namespace theoretica {
 			multidual<N>(*H)(vec<multidual<N>, N>),
 			vec<real, N> eta) {
 
-			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+			const auto J = algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size());
+			return algebra::dot(gradient(f, eta), algebra::transform(J, gradient(H, eta)));
 		}
 
 	}
-- 
2.43.0


From 09c1411707be8c72b0b9e8518decf7a4578d6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 057/164] fix: second order part of the inverse of a dual2
 number

---
 src/autodiff/dual2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index c766d15..5918a1b 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,7 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a), 2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From 8e3a9f2eec7cdb7e604c87bfbc940c1d50227e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 058/164] fix: second order part of powers of dual2 numbers

The second derivative of the argument was multiplied by the derivative of
the composite function, and the powers at zero divided by zero.
---
 src/autodiff/dual2_functions.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..7d62235 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,13 +40,15 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
-		const real pow_n_2_x = pow(x.Re(), n - 2);
+		const real f = pow(x.Re(), n);
+		const real df = (n != 0) ? n * pow(x.Re(), n - 1) : 0;
+		const real d2f = (n != 0 && n != 1) ? n * (n - 1.0) * pow(x.Re(), n - 2) : 0;
 
-		real f = pow_n_2_x * square(x.Re());
-		real df = pow_n_2_x * x.Re() * n * x.Dual1();
-		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
-
-		return dual2(f, df, d2f);
+		return dual2(
+			f,
+			df * x.Dual1(),
+			d2f * square(x.Dual1()) + df * x.Dual2()
+		);
 	}
 
 
-- 
2.43.0


From e1b251bb86fdbf810473103a31ef0abc34bea386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:34 +0000
Subject: [PATCH 059/164] fix: second order part of abs, cot and atan of dual2
 numbers

---
 src/autodiff/dual2_functions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 7d62235..fa9ee93 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -131,7 +131,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
@@ -198,7 +198,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
@@ -246,7 +246,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From 8f526d50a13dfac50d3ed7fb1cabc2a4123cb126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:24 +0000
Subject: [PATCH 060/164] fix: integer powers of multidual numbers did not
 compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index f1f8654..492953b 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -43,7 +43,7 @@ namespace theoretica {
 			return multidual<N>(1, x.Dual() * 0.0);
 
 		real pow_n_1_x = pow(x.Re(), n - 1);
-		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
+		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
 
 
-- 
2.43.0


From c148399e48e663e1203cd19645431384e62ad5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 061/164] fix: acos of negative zero was outside of its range

The quotient by zero depends on the sign of zero.
---
 src/core/real_analysis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index a32326c..9da2280 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1110,6 +1110,9 @@ namespace theoretica {
 			return nan();
 		}
 
+		if(x == 0)
+			return PI2;
+
 		if(x < 0)
 			return atan(sqrt(1 - x * x) / x) + PI;
 		else
-- 
2.43.0


From b0b16db1d135ec45033566c27e67eaaa600c559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:13 +0000
Subject: [PATCH 062/164] fix: multiplication of vectors by scalars of another
 type did not compile

The product of a vector by an integer, or of a complex vector by a real
number, was taken as an inner product.
---
 src/algebra/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index e8f51a3..c529af8 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -218,7 +218,7 @@ namespace theoretica {
 
 
 		/// Dot product between vectors (v * w = v.x * w.x + ...)
-		template<typename Vector>
+		template<typename Vector, enable_vector<Vector> = true>
 		inline Type operator*(const Vector& other) const {
 			return dot(other);
 		}
@@ -619,7 +619,7 @@ namespace theoretica {
 
 
 		/// Dot product between vectors (v * w = v.x * w.x + ...)
-		template<typename Vector>
+		template<typename Vector, enable_vector<Vector> = true>
 		inline Type operator*(const Vector& other) const {
 			return dot(other);
 		}
-- 
2.43.0


From 31c752bc63a505cf5d1d39c073e78c2c8027f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:37 +0000
Subject: [PATCH 063/164] fix: hyperbolic tangent of dual numbers with a large
 real part

The quotient of the overflowing exponentials was not a number.
---
 src/autodiff/dual_functions.h      | 7 ++-----
 src/autodiff/multidual_functions.h | 6 ++----
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 5f7e051..65959bd 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,11 +218,8 @@ namespace theoretica {
 	/// Compute the hyperbolic tangent of a dual number
 	inline dual tanh(dual x) {
 
-		const real exp_x = exp(x.Re());
-		return dual(
-			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
-		);
+		const real tanh_x = tanh(x.Re());
+		return dual(tanh_x, x.Dual() * (1.0 - square(tanh_x)));
 	}
 
 }
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 492953b..d250ab9 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -214,10 +214,8 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> tanh(multidual<N> x) {
 
-		real exp_x = exp(x.Re());
-		return multidual<N>(
-			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
+		real tanh_x = tanh(x.Re());
+		return multidual<N>(tanh_x, x.Dual() * (1.0 - square(tanh_x)));
 	}
 
 }
-- 
2.43.0


From ebd3ca094c46d249a61b52f725cb57400d10dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 064/164] fix: order of a polynomial ignored the non-null
 coefficients

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..45a76e1 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) >= MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From 5dc6a74c3ea5d6b71e376118bb7b0b2582db592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 065/164] fix: trimming a null polynomial read out of bounds

---
 src/polynomial/polynomial.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 45a76e1..1ead8de 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,12 +106,8 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) > MACH_EPSILON)
-						break;
-
+				while(coeff.size() && abs(coeff.back()) < MACH_EPSILON)
 					coeff.pop_back();
-				}
 			}
 
 
-- 
2.43.0


From 7009c430cb2ff56b900ee44a51767da0650d9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 066/164] fix: difference of polynomials read out of bounds
 when the second is longer

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1ead8de..6dc4d18 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -147,7 +147,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From 381f8c4d1c9da9fe4cf760cda6748a78f76024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 067/164] fix: product by an empty polynomial

---
 src/polynomial/polynomial.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 6dc4d18..8462bbf 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -165,7 +165,11 @@ namespace theoretica {
 			inline polynomial operator*(const polynomial& p) const {
 
 				polynomial r = polynomial();
-				r.coeff.resize(this->size() + p.size() - 1);
+
+				if(!size() || !p.size())
+					return r;
+
+				r.coeff.resize(this->size() + p.size() - 1, Type(0));
 
 				for (unsigned int i = 0; i < size(); ++i) {
 					for (unsigned int j = 0; j < p.size(); ++j) {
@@ -288,15 +292,7 @@ namespace theoretica {
 			/// Multiply two polynomials
 			inline polynomial& operator*=(const polynomial& p) {
 
-				polynomial r = polynomial();
-				r.coeff.resize(this->size() + p.size() - 1, Type(0));
-
-				for (unsigned int i = 0; i < coeff.size(); ++i)
-					for (unsigned int j = 0; j < p.size(); ++j)
-						r[i + j] += coeff[i] * p.get(j);
-
-				*this = r;
-				return *this;
+				return (*this = (*this * p));
 			}
 
 
-- 
2.43.0


From 8c384c6a7ff51e5f0baf57d0097cc18a72ed7f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 068/164] fix: polynomial division did not complete

The last step of the division was reported as a failure to converge
and rounding of the leading term could prevent the remainder from
decreasing in degree.
---
 src/polynomial/polynomial.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 8462bbf..96e92f7 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -187,8 +187,8 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
+				if(!d.size() || (d_order == 0 && abs(d.get(0)) < MACH_EPSILON)) {
+					TH_MATH_ERROR("polynomial::operator/", 0, DIV_BY_ZERO);
 					return polynomial(nan());
 				}
 
@@ -197,9 +197,9 @@ namespace theoretica {
 
 				// Quotient
 				polynomial q = polynomial();
-				unsigned int i = 0;
 
-				while(i < this_order) {
+				// The degree of the remainder decreases at each step
+				for (unsigned int i = 0; r.size() && i <= this_order; ++i) {
 
 					// Compute only once the degree of the polynomial
 					const unsigned int r_order = r.find_order();
@@ -219,14 +219,8 @@ namespace theoretica {
 					q += t;
 					r -= t * d;
 
-					i++;
-				}
-
-				// The algorithm has stopped iterating after a number
-				// of the dividend's degree counts
-				if(i == this_order) {
-					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
-					return polynomial(nan());
+					// The highest degree terms cancel out
+					r[r_order] = Type(0);
 				}
 
 				return q;
-- 
2.43.0


From fe0e84f33e374723ff02b503313b60d756dc103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 069/164] fix: equality of polynomials compared the common
 coefficients with zero

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 96e92f7..b066507 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -331,12 +331,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From aaa9c827414c63997750d611fac583bac55100c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 070/164] fix: repeated roots of Legendre polynomials of order
 above 5

---
 src/polynomial/orthogonal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..aea84b5 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -258,9 +258,11 @@ namespace theoretica {
 		std::vector<real> roots;
 		roots.reserve(n);
 
+		// Use the asymptotic expression of the roots as initial guess,
+		// so that each iteration converges to a different root
 		for (unsigned int i = 1; i <= n; ++i) {
 			roots.push_back(
-				root_newton(P, deriv(P), (2.0 / (n + 1)) * i - 1.0)
+				root_newton(P, deriv(P), -cos(PI * (i - 0.25) / (n + 0.5)))
 			);
 		}
 
-- 
2.43.0


From 24633f4966e19c0f26e7ef19506921ee677a9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 071/164] fix: wrong associated Legendre functions of odd
 negative order

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index aea84b5..5967e28 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1.0, m) * fact(l + m) / fact(l - m);
 		}
 
 		for (int i = 0; i < m; ++i)
-- 
2.43.0


From 131f08232da13872163da5e986c2ccb760c0f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:45 +0000
Subject: [PATCH 072/164] fix: overflow in the normalization and weights of
 Hermite polynomials

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 5967e28..0b835c5 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -205,7 +205,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(2.0, n) * fact<real>(n) * SQRTPI);
 	}
 
 
@@ -325,7 +325,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(2.0, n - 1) * fact<real>(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From d2ca4715eb01b1d06eb81f2d29cc6158d21dda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:57 +0000
Subject: [PATCH 073/164] fix: Simpson's rule was wrong for an odd number of
 steps

The rule needs an even number of subintervals.
---
 src/calculus/integral.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..1b18603 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -131,6 +131,10 @@ namespace theoretica {
 			return nan();
 		}
 		
+		// Simpson's rule needs an even number of steps
+		if(steps % 2 != 0)
+			steps++;
+
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
 
-- 
2.43.0


From 3d354c334dff9f0143a9a2825e1d171b5bf99101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:17 +0000
Subject: [PATCH 074/164] fix: ODE solvers did not compile for scalar equations

---
 src/calculus/ode.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..96d3ff4 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -315,8 +315,7 @@ namespace theoretica {
 
 			if (tf < t0) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
-				return err;
+				return ode_solution_t<Vector>(1, x0, nan());
 			}
 
 			const unsigned int steps = floor((tf - t0) / stepsize);
-- 
2.43.0


From 5f11c71859b18ba49024d2a4b1cd727cad8095bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:33 +0000
Subject: [PATCH 075/164] fix: wrong last stage of Kutta's 3/8 rule

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 96d3ff4..50942f1 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From 87f07789c7cb495326c46bf9d0f4f6330e35d501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:33 +0000
Subject: [PATCH 076/164] fix: wrong coefficient of the three-step
 Adams-Bashforth method

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 50942f1..af27496 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From e2e951e97f98ae7b70b5dc9d097754f97c96cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:07 +0000
Subject: [PATCH 077/164] fix: root_newton for complex functions does not
 compile

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..29ed7d9 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -302,10 +302,10 @@ namespace theoretica {
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
-		while(f_z * f_z.conjugate() > tol * tol && iter <= max_iter) {
+		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
-			z = z - (f_z / df(z));
+			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-- 
2.43.0


From c42b4e6bdbd3bb428fb65a30178a06b497be8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:07 +0000
Subject: [PATCH 078/164] fix: roots of a polynomial modified its constant
 argument and did not compile

---
 src/optimization/roots.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 29ed7d9..7613044 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -702,15 +702,18 @@ namespace theoretica {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+
+		// Monic polynomial with the same roots
+		polynomial<Field> q = p;
+		q /= p.coeff[n];
 
 		// Absolute value of the highest coefficient
-		Field a_hi = abs(p.coeff[n]);
+		Field a_hi = abs(q.coeff[n]);
 		Field a_sum = 0;
 
 		// Sum the absolute values of the lesser coefficients
 		for (unsigned int i = 0; i < n; ++i)
-			a_sum += abs(p.coeff[i]);
+			a_sum += abs(q.coeff[i]);
 
 		// The roots are bounded in absolute value by the maximum
 		const Field M = max(a_hi, a_sum);
@@ -718,7 +721,7 @@ namespace theoretica {
 		// Back track from the bounds to the first sign inversion ?
 		
 		return roots(
-			[p](real x) { return p(x); },
+			[q](real x) { return q(x); },
 			-M, M, tolerance, steps ? steps : (2 * n));
 	}
 
-- 
2.43.0


From 90f09eb44498290327772a1310a497cda54d7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:07 +0000
Subject: [PATCH 079/164] fix: root_bisect returned zero when the interval was
 already smaller than the tolerance

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 7613044..3936d86 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -70,7 +70,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		real x_avg = 0.0;
+		real x_avg = (a + b) / 2.0;
 		real x_min = a;
 		real x_max = b;
 
-- 
2.43.0


From b82b4069f2c5479a7f458793ead8ce70837e6a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:07 +0000
Subject: [PATCH 080/164] fix: root_steffensen never converged because of a
 shadowed variable

---
 src/optimization/roots.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 3936d86..4a67a92 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -426,7 +426,12 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
+
+			// An exact root has been found
+			if (f_x == 0.0)
+				break;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From ed4d58418c98e051033610c79803a41d2da4fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:07 +0000
Subject: [PATCH 081/164] fix: root_ostrowski returned NaN when an iterate was
 an exact root

---
 src/optimization/roots.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4a67a92..5620f20 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -572,6 +572,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// An exact root has been found
+			if (f_x == 0.0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
-- 
2.43.0


From d66e3acffe05c8246c910daa52119d9268b0fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:41 +0000
Subject: [PATCH 082/164] fix: root_steffensen divided by zero when an iterate
 was already a root within rounding

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 5620f20..25b356e 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -428,8 +428,8 @@ namespace theoretica {
 
 			f_x = f(x);
 
-			// An exact root has been found
-			if (f_x == 0.0)
+			// The divided difference is ill-defined at a root
+			if (abs(f_x) <= tol)
 				break;
 
 			const real g_x = (f(x + f_x) / f_x) - 1;
-- 
2.43.0


From 75f58858ad358020841a3b9c71a0dca1642a3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 083/164] fix: bezier modified its constant argument and did
 not compile

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..e0ee932 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -187,7 +187,7 @@ namespace theoretica {
 	/// \see quadratic_bezier
 	/// \see cubic_bezier
 	template<unsigned int N>
-	inline vec<real, N> bezier(const std::vector<vec<real, N>>& points, real t) {
+	inline vec<real, N> bezier(std::vector<vec<real, N>> points, real t) {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-- 
2.43.0


From f1d34a855dc327f0048b8cf88be43713c9fdbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 084/164] fix: cubic_splines wrote past the end of the
 coefficients

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index e0ee932..e0e24fb 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -271,7 +271,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -345,7 +345,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From 6c9f33c5b46287621daf321e65c91204bed3c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 085/164] fix: cubic_splines solved a wrong system for
 unequally spaced points

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index e0e24fb..48a8d1b 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -285,7 +285,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -359,7 +359,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From 2eff6e3bcc0a834d79769ea8bbde400497bfb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 086/164] fix: lagrange_polynomial only detected repeated
 points when adjacent

---
 src/interpolation/polynomial.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..0cf6102 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -30,10 +30,12 @@ namespace theoretica {
 
 		// Check that all x_i are different to prevent
 		// division by zero
-		for (unsigned int i = 0; i < points.size() - 1; ++i) {
-			if(points[i].get(0) == points[i + 1].get(0)) {
-				TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
-				return polynomial<T>({T(nan())});
+		for (unsigned int i = 0; i < points.size(); ++i) {
+			for (unsigned int j = i + 1; j < points.size(); ++j) {
+				if(points[i].get(0) == points[j].get(0)) {
+					TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
+					return polynomial<T>({T(nan())});
+				}
 			}
 		}
 
-- 
2.43.0


From bb6dcddbc0b7cdd2c705ee734d298c4b2d581af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 087/164] fix: interpolate_grid of order zero divided by zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index 0cf6102..46ba5ba 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -100,7 +100,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = order ? (b - a) / real(order) * real(i) + a : a;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From 9f9d599d19add1992414c9d34df2a3eeea4f92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:56 +0000
Subject: [PATCH 088/164] fix: gradient descent routines called an undeclared
 gradient and did not compile

---
 src/optimization/multi_extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..b9031cc 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -47,7 +47,7 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
-- 
2.43.0


From a01662e404d83ae58cc8d8886cc575f414acb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:56 +0000
Subject: [PATCH 089/164] fix: gradient descent routines ignored the tolerance
 argument

---
 src/optimization/multi_extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b9031cc..86e75c7 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -51,7 +51,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -126,7 +126,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
@@ -177,7 +177,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-- 
2.43.0


From 3d18b5ea336fa72a279257a64e66ac23fa08282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:56 +0000
Subject: [PATCH 090/164] fix: multi_maximize_grad always failed because it
 passed a step of the wrong sign

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 86e75c7..b23fa1c 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+
+			grad = autodiff::gradient(f, x);
+			x -= gamma * grad;
+			iter++;
+
+		} while(grad.norm() > tolerance && iter <= max_iter);
+
+		if(iter > max_iter) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From b2e01c4e883c1e22098202e97215d81ffa36ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:56 +0000
Subject: [PATCH 091/164] fix: minimize_bisection returned the point of a
 maximum

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From 08fec8bb5adce56dad92b495a6dc122cb78c65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:56 +0000
Subject: [PATCH 092/164] fix: fft did not report an invalid length

---
 src/signal/fft.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 5d6eefc..84e234d 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -38,6 +38,7 @@ namespace theoretica {
 
 			// Enforce power of 2 vector size
 			if (N != (unsigned int) (1 << log2N)) {
+				TH_MATH_ERROR("signal::fft", N, INVALID_ARGUMENT);
 				return algebra::vec_error(k);
 			}
 
-- 
2.43.0


From 9262a2455c7968ed9c0c68307fde9b3f2678862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 093/164] fix: sum of complex or integer data did not compile
 and the real overload was never selected

---
 src/core/dataset.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..951ca8a 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -214,7 +214,7 @@ namespace theoretica {
 	/// @param X The vector of values to sum
 	template <
 		typename Vector,
-		std::enable_if_t<has_real_elements<Vector>::value> = true
+		std::enable_if_t<has_real_elements<Vector>::value, bool> = true
 	>
 	inline auto sum(const Vector& X) {
 		return sum_pairwise(X);
@@ -224,15 +224,14 @@ namespace theoretica {
 	/// Compute the sum of a set of values.
 	///
 	/// @param X The vector of values to sum
-	template<typename Vector>
+	template <
+		typename Vector,
+		std::enable_if_t<!has_real_elements<Vector>::value, bool> = true
+	>
 	inline auto sum(const Vector& X) {
 
-		// Use pairwise sum to reduce floating point errors.
-		if TH_CONSTIF (has_real_elements<Vector>())
-			return sum_pairwise(X);
-
-		auto res = X[0];
-		for(unsigned int i = 1; i < X.size(); i++)
+		vector_element_t<Vector> res = vector_element_t<Vector>(0);
+		for(unsigned int i = 0; i < X.size(); i++)
 			res += X[i];
 
 		return res;
-- 
2.43.0


From fd387785b60a633cfc237f673553e7054f831bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 094/164] fix: quotient_sum read past the end of empty data

---
 src/core/dataset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 951ca8a..56782e9 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -97,7 +97,7 @@ namespace theoretica {
 	template<typename Vector>
 	inline auto quotient_sum(const Vector& X, const Vector& Y) {
 
-		if(X.size() != Y.size()) {
+		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
 			return nan();
 		}
-- 
2.43.0


From 6a269280bdafe0ecd9ab42411b864a490aaedd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 095/164] fix: map into a destination of the wrong size used
 NaN as a size

---
 src/core/dataset.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 56782e9..abd1fa9 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -266,7 +266,10 @@ namespace theoretica {
 
 		if(src.size() != dest.size()) {
 			TH_MATH_ERROR("th::map", dest.size(), INVALID_ARGUMENT);
-			dest = Vector2(nan());
+
+			for (unsigned int i = 0; i < dest.size(); ++i)
+				dest[i] = vector_element_t<Vector2>(nan());
+
 			return dest;
 		}
 
-- 
2.43.0


From 6cdab1b52aee86c5b22f5e76f5f98989ab9700d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 096/164] fix: autocorrelation was normalized over part of the
 data for a lag different from 1

---
 src/statistics/statistics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 2c2a88c..9822c21 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -304,20 +304,22 @@ namespace theoretica {
 		template<typename Dataset>
 		inline real autocorrelation(const Dataset& X, unsigned int n = 1) {
 
-			if(X.size() < n) {
+			if(X.size() < n || !X.size()) {
 				TH_MATH_ERROR("autocorrelation", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
 
 			const real mu = mean(X);
 			real num = 0;
-			real den = square(X[0] - mu);
+			real den = 0;
 
-			for (unsigned int i = n; i < X.size(); ++i) {
+			for (unsigned int i = 0; i < X.size(); ++i) {
 
 				const real delta = X[i] - mu;
-				num += delta * (X[i - n] - mu);
 				den += delta * delta;
+
+				if(i >= n)
+					num += delta * (X[i - n] - mu);
 			}
 
 			return num / den;
-- 
2.43.0


From 8705ad9d052a2c55a482d31ebee925d375238172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 097/164] fix: pvalue_chi_squared passed the tolerance as step
 size to the tail integral

---
 src/statistics/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 9822c21..0159a1e 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -508,7 +508,7 @@ namespace theoretica {
 					if(new_x < -3)
 						return 1 - integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, -new_x, 1E-16, 25);
+						}, -new_x, 1, 1E-16, 25);
 
 					return 0.5 + integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
@@ -518,7 +518,7 @@ namespace theoretica {
 					if(new_x > 3)
 						return integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, new_x, 1E-16, 25);
+						}, new_x, 1, 1E-16, 25);
 
 					return 0.5 - integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
-- 
2.43.0


From dd36ccae4ccf0c97255e8696dc178f5b7a6353b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 098/164] fix: pvalue_chi_squared was wrong by up to 50% below
 260 degrees of freedom

Gauss-Laguerre quadrature with 16 nodes cannot represent the integrand for
few degrees of freedom and small values, nor for many degrees of freedom and
values between half and all of them, and overflowed for large values. Use the
power series and the continued fraction of the incomplete Gamma function.
---
 src/statistics/statistics.h | 56 +++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 0159a1e..8e54ef2 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -479,8 +479,8 @@ namespace theoretica {
 		/// Compute the (right-tailed) p-value associated to a computed
 		/// Chi-square value as the integral of the Chi-squared
 		/// distribution from the given value to infinity (right-tailed).
-		/// An equivalent integral is computed using Gauss-Laguerre quadrature: 
-		/// \f$ p = \frac{e^{-X^2}}{2 \Gamma (k/2)} \int_0^{+\infty} (\sqrt{x + X^2})^{k - 2} e^{-x} dx \f$
+		/// The regularized upper incomplete Gamma function is computed using the power series
+		/// of the lower function or its continued fraction, depending on the argument.
 		///
 		/// @param chi_sqr The computed Chi-squared
 		/// @param ndf Number of Degrees of Freedom
@@ -526,29 +526,49 @@ namespace theoretica {
 				}
 			}
 
+			if(chi_sqr <= 0)
+				return 1;
+
+			const real a = ndf / 2.0;
+			const real x = chi_sqr / 2.0;
+			const unsigned int max_iter = 1000;
+
 			// Compute the coefficient using a stable equivalent formula
-			const real coeff = exp(-special::lngamma(ndf / 2.0) - chi_sqr / 2.0);
+			const real coeff = exp(a * ln(x) - x - special::lngamma(a));
 
-			// Use different methods when Gauss-Laguerre is not numerically stable
-			if((ndf > 70 && chi_sqr < (ndf / 2.0))) {
+			// Use the power series of the lower incomplete Gamma function
+			if(x < a + 1) {
 
-				// Use equivalent formula around potential singularity
-				real res = integral_romberg_tol([=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2) * exp(-x);
-				}, 0, 1, 1E-12);
+				real term = 1.0 / a;
+				real res = term;
 
-				res += integral_inf_riemann([=](real x) {
-					return exp((ndf - 2) / 2.0 * ln(x + chi_sqr / 2) - x);
-				}, 1, ndf / 2, 1E-12, 25);
+				for (unsigned int i = 1; i < max_iter && term > res * MACH_EPSILON; ++i) {
+					term *= x / (a + i);
+					res += term;
+				}
 
-				return coeff * res;
+				return 1 - coeff * res;
 			}
 
-			// Approximate the integral using Gauss-Laguerre quadrature
-			return coeff * integral_gauss(
-				[=](real x) {
-					return pow(sqrt(x + chi_sqr / 2), ndf - 2);
-			}, tables::laguerre_roots_16, tables::laguerre_weights_16, 16);
+			// Use the continued fraction of the upper incomplete Gamma function
+			real b = x + 1 - a;
+			real c = inf();
+			real d = 1.0 / b;
+			real res = d;
+
+			for (unsigned int i = 1; i < max_iter; ++i) {
+
+				const real num = i * (a - i);
+				b += 2;
+				d = 1.0 / (num * d + b);
+				c = b + num / c;
+				res *= d * c;
+
+				if(abs(d * c - 1) < MACH_EPSILON)
+					break;
+			}
+
+			return coeff * res;
 		}
 	  
 
-- 
2.43.0


From 5c652fe4b3cea61fb64553c632697217ac62b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 099/164] fix: poisson, multinomial and erlang densities
 overflowed an integer factorial

---
 src/statistics/distributions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 1121a78..2183a02 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -100,7 +100,7 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / (real) fact(k);
+			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
 
@@ -149,10 +149,10 @@ namespace theoretica {
 				return nan();
 			}
 
-			real res = fact(n);
+			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-				res *= pow(p[i], x[i]) / fact(x[i]);
+				res *= pow(p[i], x[i]) / fact<real>(x[i]);
 
 			return res;
 		}
@@ -458,7 +458,7 @@ namespace theoretica {
 			}
 
 			return pow(lambda, k) * pow(x, k - 1)
-					* exp(-lambda * x) / fact(k - 1);
+					* exp(-lambda * x) / fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From af67abebf9bdfb869c3216f1c4c7fefb82ad3f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:02 +0000
Subject: [PATCH 100/164] fix: some densities were not zero outside of their
 support

---
 src/statistics/distributions.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 2183a02..8aa01c5 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -217,6 +217,9 @@ namespace theoretica {
 		/// alpha (shape) and beta (rate)
 		inline real gamma(real x, real alpha, real beta) {
 
+			if(x < 0)
+				return 0;
+
 			return powf(beta, alpha) * powf(x, alpha - 1)
 				* exp(-beta * x) / special::gamma(alpha);
 		}
@@ -238,6 +241,9 @@ namespace theoretica {
 		/// alpha (shape) and beta (shape)
 		inline real beta(real x, real alpha, real beta) {
 
+			if(x < 0 || x > 1)
+				return 0;
+
 			return powf(x, alpha - 1) * powf(1 - x, beta - 1)
 				/ special::beta(alpha, beta);
 		}
@@ -280,6 +286,9 @@ namespace theoretica {
 		/// Log-normal distribution
 		inline real log_normal(real x, real mu, real sigma) {
 
+			if(x <= 0)
+				return 0;
+
 			return 1.0 / (2.50662827463 * sigma * x) *
 				exp(-square(ln(x) - mu) / (2 * square(sigma)));
 		}
@@ -387,6 +396,9 @@ namespace theoretica {
 		/// Maxwell-Boltzmann distribution
 		inline real maxwell(real x, real a) {
 
+			if(x < 0)
+				return 0;
+
 			return (SQRT2 / SQRTPI) * square(x) * exp(-square(x / a) / 2.0) / cube(a);
 		}
 
@@ -457,6 +469,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(x < 0)
+				return 0;
+
 			return pow(lambda, k) * pow(x, k - 1)
 					* exp(-lambda * x) / fact<real>(k - 1);
 		}
-- 
2.43.0


From ec8ea31bab598766d308e19a882d1bdee13cc1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:02 +0000
Subject: [PATCH 101/164] fix: binomial distribution overflowed an integer
 binomial coefficient

---
 src/statistics/distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 8aa01c5..89cad38 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -119,7 +119,7 @@ namespace theoretica {
 		/// Binomial distribution function
 		inline real binomial(unsigned int nu, unsigned int n, real p) {
 
-			return binomial_coeff(n, nu) *
+			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
 
-- 
2.43.0


From 9a2db2767043926c0eab5e15598e0437b8c9b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 102/164] fix: regression: report NaN uncertainties when the
 fit fails

---
 src/statistics/regression.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..c984d09 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -63,6 +63,7 @@ namespace theoretica {
 			if(X.size() != Y.size()) {
 				TH_MATH_ERROR("regression::ols_linear", X.size(), INVALID_ARGUMENT);
 				intercept = nan(); slope = nan();
+				sigma_A = nan(); sigma_B = nan();
 				return;
 			}
 
@@ -77,6 +78,7 @@ namespace theoretica {
 			if(abs(Delta) < MACH_EPSILON) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
+				sigma_A = nan(); sigma_B = nan();
 				return;
 			}
 
@@ -103,6 +105,7 @@ namespace theoretica {
 				TH_MATH_ERROR("regression::ols_linear", X.size(), INVALID_ARGUMENT);
 				intercept = nan();
 				slope = nan();
+				covar_mat = mat2(nan());
 				return;
 			}
 
@@ -117,6 +120,7 @@ namespace theoretica {
 			if(abs(Delta) < MACH_EPSILON) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
+				covar_mat = mat2(nan());
 				return;
 			}
 
@@ -143,6 +147,7 @@ namespace theoretica {
 			if(X.size() != Y.size() || X.size() != W.size()) {
 				TH_MATH_ERROR("wls_linear", X.size(), INVALID_ARGUMENT);
 				intercept = nan(); slope = nan();
+				covar_mat = mat2(nan());
 				return;
 			}
 
@@ -157,6 +162,7 @@ namespace theoretica {
 			if(abs(Delta) < MACH_EPSILON) {
 				TH_MATH_ERROR("wls_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
+				covar_mat = mat2(nan());
 				return;
 			}
 
@@ -184,6 +190,7 @@ namespace theoretica {
 				TH_MATH_ERROR("wls_linear", X.size(), INVALID_ARGUMENT);
 				intercept = nan();
 				slope = nan();
+				covar_mat = mat2(nan());
 				return;
 			}
 
-- 
2.43.0


From 41525c1087c90a2998a7e716b4a39ba63d4cee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 103/164] fix: ols_linear_orig, wls_linear_orig: use the least
 squares estimator of the slope

The slope of y = Bx is sum(xy) / sum(x^2), with variance sigma^2 / sum(x^2).
---
 src/statistics/regression.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index c984d09..1c3f94a 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -221,21 +221,21 @@ namespace theoretica {
 
 			if(X.size() != Y.size()) {
 				TH_MATH_ERROR("ols_linear_orig", X.size(), INVALID_ARGUMENT);
-				B = nan();
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			const real sum_x = sum(X);
-			const real sum_y = sum(Y);
+			const real sum_sqr_x = sum_squares(X);
+			const real sum_xy = product_sum(X, Y);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
-				B = nan();
+			if(abs(sum_sqr_x) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_sqr_x, DIV_BY_ZERO);
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
-			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
+			B = sum_xy / sum_sqr_x;
+			sigma_B = sqrt(square(sigma_Y) / sum_sqr_x);
 		}
 
 		/// Compute the Weight Least Squares regression
@@ -247,21 +247,21 @@ namespace theoretica {
 
 			if(X.size() != Y.size() || X.size() != W.size()) {
 				TH_MATH_ERROR("wls_linear_orig", X.size(), INVALID_ARGUMENT);
-				B = nan();
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			const real sum_xw = product_sum(X, W);
-			const real sum_yw = product_sum(Y, W);
+			const real sum_xxw = product_sum(X, X, W);
+			const real sum_xyw = product_sum(X, Y, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
-				B = nan();
+			if(abs(sum_xxw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
+				B = nan(); sigma_B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = sum_xyw / sum_xxw;
+			sigma_B = sqrt(1.0 / sum_xxw);
 		}
 
 
-- 
2.43.0


From b6e5374c0e8190ec7a0dbaa37d68d0974085837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 104/164] fix: linear_model: compute the chi-squared from the
 squared residuals

---
 src/statistics/regression.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 1c3f94a..5e78e54 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -434,8 +434,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = ndf * square(err / sigma_Y);
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -514,8 +514,9 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = ndf * square(err)
+					/ (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From 59e71db6aabdcf1ec433c068d748a76ed82ff30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 105/164] fix: linear_model::fit: build the weights with the
 argument order of apply()

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 5e78e54..b1aece3 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -464,9 +464,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From d4010d75bf1650e6a7b983b2e385667f377e03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 106/164] fix: linear_model::fit: ask for more than two points
 in all fits

With two points the fit has no degrees of freedom and the error
would be divided by zero.
---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index b1aece3..d073ca0 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -456,7 +456,7 @@ namespace theoretica {
 					return;
 				}
 
-				if(Y.size() < 2) {
+				if(Y.size() <= 2) {
 					TH_MATH_ERROR("linear_model::fit", Y.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
 					return;
@@ -499,7 +499,7 @@ namespace theoretica {
 					return;
 				}
 
-				if(Y.size() < 2) {
+				if(Y.size() <= 2) {
 					TH_MATH_ERROR("linear_model::fit", Y.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
 					return;
-- 
2.43.0


From b93790139d6080c77c1ed8ccde2d2e67f08fbc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 107/164] fix: linear_model: never leave results uninitialized
 or stale on error

---
 src/statistics/regression.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index d073ca0..506e3db 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -323,7 +323,10 @@ namespace theoretica {
 
 
 			/// Default constructor
-			linear_model() : A(nan()), B(nan()) {}
+			linear_model()
+				: A(nan()), sigma_A(nan()), B(nan()), sigma_B(nan()),
+				covar_mat(nan()), err(nan()), chi_squared(nan()),
+				ndf(0), p_value(nan()) {}
 
 
 			/// Construct a linear model from data
@@ -370,6 +373,8 @@ namespace theoretica {
 			template<typename Dataset1, typename Dataset2>
 			inline void fit(const Dataset1& X, const Dataset2& Y) {
 
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
@@ -407,6 +412,8 @@ namespace theoretica {
 			inline void fit(
 				const Dataset1& X, const Dataset2& Y, real sigma_Y) {
 
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
@@ -450,6 +457,8 @@ namespace theoretica {
 			inline void fit(
 				const Dataset1& X, const Dataset2& Y, const Dataset3& sigma) {
 
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
@@ -493,6 +502,8 @@ namespace theoretica {
 			inline void fit(
 				const Dataset1& X, const Dataset2& Y, real sigma_X, real sigma_Y) {
 
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
-- 
2.43.0


From de0e9320aadf9269f59010bfb68bb2c77d258600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:36 +0000
Subject: [PATCH 108/164] fix: wls_linear: signal the degenerate
 errors-in-variables fit

With no covariance between the coordinates, or no error on X, the
formula divides by zero.
---
 src/statistics/regression.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 506e3db..e148dad 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -202,6 +202,14 @@ namespace theoretica {
 			const real delta_xy = (product_sum(X, Y) / X.size()) - mean_x * mean_y;
 			const real Delta = square(sigma_X) * delta_y - square(sigma_Y) * delta_x;
 
+			if(square(sigma_X) * delta_xy == 0) {
+				TH_MATH_ERROR("wls_linear", delta_xy, DIV_BY_ZERO);
+				intercept = nan();
+				slope = nan();
+				covar_mat = mat2(nan());
+				return;
+			}
+
 			slope = (Delta + sqrt(
 					square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy)
 				)) / (2 * square(sigma_X) * delta_xy);
-- 
2.43.0


From e99d11cea04c667b2531b502f1fe64c08f91e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:00 +0000
Subject: [PATCH 109/164] fix: linear regression: compare the determinant with
 the scale of the data

An absolute threshold rejected every fit of data expressed in small
units (e.g. X of order 1E-9).
---
 src/statistics/regression.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index e148dad..923761e 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -38,7 +38,7 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			if(abs(Delta) <= X.size() * MACH_EPSILON * X.size() * sum_sqr_x) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				return;
@@ -75,7 +75,7 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			if(abs(Delta) <= X.size() * MACH_EPSILON * X.size() * sum_sqr_x) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				sigma_A = nan(); sigma_B = nan();
@@ -117,7 +117,7 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			if(abs(Delta) <= X.size() * MACH_EPSILON * X.size() * sum_sqr_x) {
 				TH_MATH_ERROR("ols_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				covar_mat = mat2(nan());
@@ -159,7 +159,7 @@ namespace theoretica {
 			const real sum_w = sum(W);
 			const real Delta = sum_w * sum_xxw - square(sum_xw);
 
-			if(abs(Delta) < MACH_EPSILON) {
+			if(abs(Delta) <= X.size() * MACH_EPSILON * abs(sum_w * sum_xxw)) {
 				TH_MATH_ERROR("wls_linear", Delta, DIV_BY_ZERO);
 				intercept = nan(); slope = nan();
 				covar_mat = mat2(nan());
@@ -236,7 +236,7 @@ namespace theoretica {
 			const real sum_sqr_x = sum_squares(X);
 			const real sum_xy = product_sum(X, Y);
 
-			if(abs(sum_sqr_x) < MACH_EPSILON) {
+			if(sum_sqr_x == 0) {
 				TH_MATH_ERROR("ols_linear_orig", sum_sqr_x, DIV_BY_ZERO);
 				B = nan(); sigma_B = nan();
 				return;
@@ -262,7 +262,7 @@ namespace theoretica {
 			const real sum_xxw = product_sum(X, X, W);
 			const real sum_xyw = product_sum(X, Y, W);
 
-			if(abs(sum_xxw) < MACH_EPSILON) {
+			if(sum_xxw == 0) {
 				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
 				B = nan(); sigma_B = nan();
 				return;
-- 
2.43.0


From 1b1cd20ab11d0ce756d33a6f417bbb9c6d944f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:20 +0000
Subject: [PATCH 110/164] fix: histogram: track the minimum of the values
 inserted from scratch

The minimum of a histogram constructed from its range started from
-inf and could never change.
---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From 5f0c028fea49aff166749d1a5f88c97ce87d702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:20 +0000
Subject: [PATCH 111/164] fix: histogram: keep bin indices inside the histogram

The rounding of the index could select the bin past the end for values
just below the upper extreme, values in small units were all placed in
the last bin, and NaN was not rejected.
---
 src/statistics/histogram.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..5d54b44 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,7 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				if(!(x >= range_min && x <= range_max))
 					return;
 
 				// Update average and TSS using Welford's method
@@ -134,13 +134,16 @@ namespace theoretica {
 			/// so care should be taken to use only valid inputs.
 			inline unsigned int index(real x) const {
 
-				if(abs(x - range_max) < MACH_EPSILON)
+				if(x >= range_max)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const unsigned int i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				// Rounding may reach the upper extreme
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
@@ -210,7 +213,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max))
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From 30b4c8f88e7b0ac044a4fc9ad8e0b96e54a9d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:28 +0000
Subject: [PATCH 112/164] fix: PRNG::seed: restart generators which keep their
 state in the parameters

The seed of xoshiro and wyrand generators was stored as last number
but never used.
---
 src/pseudorandom/prng.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..de6d2db 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -52,6 +52,16 @@ namespace theoretica {
 
 			/// Seed the PRNG.
 			inline void seed(uint64_t seed) {
+
+				// Generators which keep their state in the parameters
+				const pseudorandom_function xoshiro_f = randgen_xoshiro;
+				const pseudorandom_function wyrand_f = randgen_wyrand;
+
+				if(f == xoshiro_f)
+					param = PRNG::xoshiro(seed).param;
+				else if(f == wyrand_f && param.size())
+					param[0] = seed;
+
 				x = seed;
 			}
 
-- 
2.43.0


From 30739428244f65151074dcec44a8c0dd3f8d463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:28 +0000
Subject: [PATCH 113/164] fix: shuffle: return after signaling an empty set

The remainder by the size of the set was computed anyway.
---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index de6d2db..fbf084b 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -220,8 +220,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From b20670cde70f14c88e703788c5ef22ca5a099bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:53 +0000
Subject: [PATCH 114/164] fix: rand_gaussian: do not share spare values between
 generators

The value kept for the next call was returned whatever generator was
passed, so that sequences were not determined by their seed.
---
 src/pseudorandom/sampling.h | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..2c1259a 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -194,18 +194,11 @@ namespace theoretica {
 	/// Generate a random number following a Gaussian distribution
 	/// using Marsaglia's polar method.
 	///
-	/// @note This function may not be thread-safe as it uses
-	/// static variables to keep track of spare generated values.
+	/// @note Only one of the two independent values given by the method
+	/// is used, as keeping the other between calls would make the
+	/// result depend on previously used generators.
 	inline real rand_gaussian_polar(real mean, real sigma, PRNG& g) {
 
-		static real spare;
-		static bool has_spare = false;
-
-		if(has_spare) {
-			has_spare = false;
-			return mean + spare * sigma;
-		}
-
 		real x, y, s;
 
 		// Generate a random point inside the unit circle
@@ -220,10 +213,6 @@ namespace theoretica {
 		// Project the point
 		s = sqrt(-2 * ln(s) / s);
 
-		// Keep the second generated value for future calls
-		spare = y * s;
-		has_spare = true;
-
 		return mean + sigma * x * s;
 	}
 
@@ -231,18 +220,11 @@ namespace theoretica {
 	/// Generate a random number following a Gaussian distribution
 	/// using the Box-Muller method.
 	///
-	/// @note This function may not be thread-safe as it uses
-	/// static variables to keep track of spare generated values.
+	/// @note Only one of the two independent values given by the method
+	/// is used, as keeping the other between calls would make the
+	/// result depend on previously used generators.
 	inline real rand_gaussian_boxmuller(real mean, real sigma, PRNG& g) {
 
-		static real spare;
-		static bool has_spare = false;
-
-		if(has_spare) {
-			has_spare = false;
-			return mean + spare * sigma;
-		}
-
 		// Generate a random point inside the unit circle
 		
 		const real x = rand_uniform(0, 1, g);
@@ -251,10 +233,6 @@ namespace theoretica {
 		const real x_transf = sqrt(-2 * ln(x));
 
 		const real u = x_transf * cos(TAU * y);
-		const real v = x_transf * sin(TAU * y);
-
-		spare = v;
-		has_spare = true;
 
 		return mean + sigma * u;
 	}
-- 
2.43.0


From 2cfc9f8903c5b350e3cafed339a89cadeaca12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:53 +0000
Subject: [PATCH 115/164] fix: rand_gaussian_boxmuller: never take the
 logarithm of zero

---
 src/pseudorandom/sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 2c1259a..c51acbb 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -227,7 +227,7 @@ namespace theoretica {
 
 		// Generate a random point inside the unit circle
 		
-		const real x = rand_uniform(0, 1, g);
+		const real x = 1 - rand_uniform(0, 1, g);
 		const real y = rand_uniform(0, 1, g);
 
 		const real x_transf = sqrt(-2 * ln(x));
-- 
2.43.0


From ddc9405addc93abd0bb2c09ed74440192542688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:53 +0000
Subject: [PATCH 116/164] fix: integral_hom, integral_quasi_hom: count the area
 from the lower extreme

The points were counted from the minimum c of the function, without
adding back the area between zero and c.
---
 src/pseudorandom/montecarlo.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..c083d08 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -173,16 +173,13 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The points are counted from the lower extreme c
+		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c)
+			+ (b - a) * c;
 	}
 
 
@@ -241,16 +238,13 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f_x >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		// The points are counted from the lower extreme c
+		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c)
+			+ (b - a) * c;
 	}
 
 
-- 
2.43.0


From 069367d29782425d162800cd0771cd7bd70f253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:26 +0000
Subject: [PATCH 117/164] fix: rand_cauchy: discard the undefined lower extreme
 of the quantile

The tangent of -PI/2 was evaluated for a uniform number equal to zero.
---
 src/pseudorandom/sampling.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index c51acbb..89c9675 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -375,7 +375,14 @@ namespace theoretica {
 	/// distribution using the quantile (inverse) function method.
 	inline real rand_cauchy(real mu, real alpha, PRNG& g) {
 
-		return alpha * tan(PI * (rand_uniform(0, 1, g) - 0.5)) + mu;
+		real u;
+
+		// The quantile function is undefined at zero
+		do {
+			u = rand_uniform(0, 1, g);
+		} while(u == 0);
+
+		return alpha * tan(PI * (u - 0.5)) + mu;
 	}
 
 
-- 
2.43.0


From e93be62aed9e667ea2f450067e8ec56fd22b1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 118/164] fix: math_exception: inherit publicly from
 std::exception

---
 src/core/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..501fb20 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -86,7 +86,7 @@ namespace theoretica {
 
 #if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
 
-	class math_exception : std::exception {
+	class math_exception : public std::exception {
 
 	private:
 		MATH_ERRCODE err;
-- 
2.43.0


From 8560cce88e12fb4f495bd8b2caedfacba2828909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 119/164] fix: math_exception: describe OUT_OF_RANGE errors

---
 src/core/error.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/error.h b/src/core/error.h
index 501fb20..732a1e2 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -112,6 +112,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: return "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					return "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: return "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					return "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: return "The algorithm did not converge"; break;
@@ -166,6 +167,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: err_str << "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					err_str << "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: err_str << "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					err_str << "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: err_str << "The algorithm did not converge"; break;
-- 
2.43.0


From 47d8a787ad97ea6a7867895ea820d80892d605dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 120/164] fix: readln: stop at the end of the stream

---
 src/utility.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utility.h b/src/utility.h
index c561ed4..3432ef3 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -96,10 +96,9 @@ namespace theoretica {
 
 		while(true) {
 
-			std::getline(in, line);
-
-			// Stop reading when the terminator is reached.
-			if(line == terminator)
+			// Stop reading at the end of the stream
+			// or when the terminator is reached.
+			if(!std::getline(in, line) || line == terminator)
 				break;
 
 			// Skip empty lines.
-- 
2.43.0


From 1e11b1879d9b511831dd9e66677ea1a530998bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:07 +0000
Subject: [PATCH 121/164] fix: mat::to_string: end each row with a newline also
 without parentheses

---
 src/algebra/mat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 726cda8..753f352 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -667,7 +667,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
@@ -1290,7 +1292,9 @@ namespace theoretica {
 					}
 		
 					if(parenthesis)
-						res << ")" << std::endl;
+						res << ")";
+
+					res << std::endl;
 				}
 
 				return res.str();
-- 
2.43.0


From 3a355b91345bfd8c843f852adcf14f1f7432b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 122/164] fix: bit_op.h: include what the header uses

---
 src/core/bit_op.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 2a03594..49525b5 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -7,6 +7,9 @@
 #define THEORETICA_BIT_OP_H
 
 #include <cstdint>
+#include "./constants.h"
+#include "./core_traits.h"
+#include "./error.h"
 
 
 namespace theoretica {
-- 
2.43.0


From 0c8da3a7cfbf757ac8d6dc7b68e47e869c60a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 123/164] fix: autodiff_types.h: include what the header uses

---
 src/autodiff/autodiff_types.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autodiff/autodiff_types.h b/src/autodiff/autodiff_types.h
index 4afa4bf..281b981 100644
--- a/src/autodiff/autodiff_types.h
+++ b/src/autodiff/autodiff_types.h
@@ -6,6 +6,12 @@
 #ifndef THEORETICA_AUTODIFF_TYPES_H
 #define THEORETICA_AUTODIFF_TYPES_H
 
+#include <type_traits>
+#include "../core/core_traits.h"
+#include "./dual.h"
+#include "./dual2.h"
+#include "./multidual.h"
+
 
 namespace theoretica {
 
-- 
2.43.0


From aa23d2c3748a781446bb2d062ddee672c24ee39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 124/164] fix: utility.h: include what the header uses

---
 src/utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility.h b/src/utility.h
index 3432ef3..4e496c1 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <string>
 #include <algorithm>
+#include <functional>
 #include "./algebra/vec.h"
 
 
-- 
2.43.0


From 3fd20e250a76ee9f6f656032246c3684d27d41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 125/164] fix: ode.h: include what the header uses

---
 src/calculus/ode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index af27496..b230ee8 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -7,6 +7,7 @@
 #define THEORETICA_ODE_H
 
 #include "../algebra/vec.h"
+#include "../algebra/algebra_types.h"
 
 
 namespace theoretica {
-- 
2.43.0


From 00866b7a10f78879ebe61ac3e706cbe5ab48251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 126/164] fix: dataset.h: include the real functions, instead
 of depending on the absolute value of integers

---
 src/core/dataset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index abd1fa9..f5b7864 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -14,6 +14,7 @@
 #include "./core_traits.h"
 #include "./constants.h"
 #include "./error.h"
+#include "./real_analysis.h"
 
 
 namespace theoretica {
-- 
2.43.0


From b23e520af333bd4fb6320f912f466d7e09d1a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 127/164] fix: constants.h: declare size_t also without
 printing

---
 src/core/constants.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/constants.h b/src/core/constants.h
index 4aa399a..8837a8b 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -11,6 +11,7 @@
 
 #include <limits>
 #include <cstdint>
+#include <cstddef>
 
 /// THEORETICA_DISABLE_X86 Define this macro to disable
 /// Assembly x86 optimizations.
-- 
2.43.0


From 2f5c383402b54d9b86672498601c911a29759a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:54 +0000
Subject: [PATCH 128/164] fix: root_itp: do not depend on the namespace alias

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 25b356e..034347f 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -143,7 +143,7 @@ namespace theoretica {
 
 		real x_t, x_new;
 
-		const long int n_half = th::floor(th::log2((b - a) / tol));
+		const long int n_half = theoretica::floor(theoretica::log2((b - a) / tol));
 		const long int n_max = n_half + n0;
 
 		real eps = tol * pow(2.0, n_max);
-- 
2.43.0


From 5b7188e6b6b913ee53df84b5bd8d681e52957264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:01 +0000
Subject: [PATCH 129/164] fix: ode.h: include the header of std::function

---
 src/calculus/ode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index b230ee8..54cea7b 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -6,6 +6,7 @@
 #ifndef THEORETICA_ODE_H
 #define THEORETICA_ODE_H
 
+#include <functional>
 #include "../algebra/vec.h"
 #include "../algebra/algebra_types.h"
 
-- 
2.43.0


From 98a4275d9a0b8fe7fb952371773af95958e4672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:01 +0000
Subject: [PATCH 130/164] fix: pseudorandom.h: include what the header uses

---
 src/pseudorandom/pseudorandom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pseudorandom/pseudorandom.h b/src/pseudorandom/pseudorandom.h
index 7916277..94a6319 100644
--- a/src/pseudorandom/pseudorandom.h
+++ b/src/pseudorandom/pseudorandom.h
@@ -11,6 +11,7 @@
 
 #include "../core/bit_op.h"
 #include "../core/error.h"
+#include "../core/real_analysis.h"
 
 
 namespace theoretica {
-- 
2.43.0


From 5b63b1bb2401339646c89a5dab7f0f3b7552d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:45 +0000
Subject: [PATCH 131/164] fix: quadratic_roots compiles with clang

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index b066507..3bec662 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -397,7 +397,7 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = -sgn(p) * (abs(p) / 2.0
+					z1 = real(-sgn(p)) * (abs(p) / 2.0
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
-- 
2.43.0


From 569743cd77ce6ba94bd48022f2582e25d1e64bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:42 +0000
Subject: [PATCH 132/164] fix: complex cos and tan are not ambiguous for the
 other precisions

---
 src/complex/complex_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index b617c40..a8bf01b 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -89,7 +89,7 @@ namespace theoretica {
 	inline complex<T> cos(complex<T> z) {
 
 		const complex<T> t = z * complex<T>(0, 1);
-		return (exp(t) + exp(-t)) / 2.0;
+		return (exp(t) + exp(-t)) / T(2);
 	}
 
 
@@ -99,7 +99,7 @@ namespace theoretica {
 	inline complex<T> tan(complex<T> z) {
 
 		const complex<T> t = z * complex<T>(0, 2);
-		return (exp(t) - 1) / (exp(t) + 1) * complex<T>(0, -1);
+		return (exp(t) - T(1)) / (exp(t) + T(1)) * complex<T>(0, -1);
 	}
 
 
-- 
2.43.0


From e280e8773a18bc504bea36895f05cd968e39c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:42 +0000
Subject: [PATCH 133/164] fix: quadratic_roots compiles with clang in single
 precision

---
 src/polynomial/polynomial.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 3bec662..0fac67c 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -397,15 +397,15 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = real(-sgn(p)) * (abs(p) / 2.0
+					z1 = real(-sgn(p)) * (abs(p) / real(2)
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
 				} else {
 
 					const complex<> s = sqrt(complex<>(0.25 * square(p) - q));
-					z1 = -p / 2.0 + s;
-					z2 = -p / 2.0 - s;
+					z1 = -p / real(2) + s;
+					z2 = -p / real(2) - s;
 				}
 
 				return {z1, z2};
-- 
2.43.0


From e0f68ae38a3253fbf8d7f5bb36f2a201beae6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:30 +0000
Subject: [PATCH 134/164] fix: LOG10E, LN2, LN10 and SQRT3 are given to full
 precision

---
 src/core/constants.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 8837a8b..4c53c57 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -244,13 +244,13 @@ namespace theoretica {
 	constexpr real LOG210 = 3.32192809488736218170856773213;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903;
+	constexpr real LOG10E = 0.43429448190325182765112892;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.69314718056;
+	constexpr real LN2 = 0.69314718055994530941723212;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299;
+	constexpr real LN10 = 2.30258509299404568401799145;
 
 	/// The scalar conversion factor from degrees to radians
 	constexpr real DEG2RAD = 0.017453292519943295474371680598;
@@ -265,7 +265,7 @@ namespace theoretica {
 	constexpr real INVSQR2 = 0.7071067811865475;
 
 	/// The square root of 3
-	constexpr real SQRT3 = 1.732050807568877;
+	constexpr real SQRT3 = 1.7320508075688772935274463;
 
 	/// Tolerance for the elements of matrices
 	constexpr real ALGEBRA_ELEMENT_TOL = THEORETICA_ALGEBRA_ELEMENT_TOL;
-- 
2.43.0


From 2ae75e230ab870a07b2b546732b90a95c87ba099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 135/164] fix: the square root of a complex number close to the
 real axis is never NaN

---
 src/complex/complex_analysis.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index a8bf01b..1bf9459 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -111,9 +111,12 @@ namespace theoretica {
 		if(abs(z.a) < MACH_EPSILON && abs(z.b) < MACH_EPSILON)
 			return complex<T>(0);
 
+		// The computed norm may be lower than the real part because of rounding
+		const T norm = max(z.norm(), abs(z.Re()));
+
 		return complex<T>(
-			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
+			INVSQR2 * sqrt(norm + z.Re()),
+			INVSQR2 * sqrt(norm - z.Re()) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From e0793b0e83c1bda77ee967e9ed8604498b72ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:54 +0000
Subject: [PATCH 136/164] fix: complex sqrt of a small nonzero number is not
 zero

sqrt(z) returned 0 whenever both parts were below MACH_EPSILON, so the root of 1E-16 was 0 instead of 1E-08.
---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 1bf9459..58d716d 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -108,7 +108,7 @@ namespace theoretica {
 	template<typename T>
 	inline complex<T> sqrt(complex<T> z) {
 
-		if(abs(z.a) < MACH_EPSILON && abs(z.b) < MACH_EPSILON)
+		if(z.a == 0 && z.b == 0)
 			return complex<T>(0);
 
 		// The computed norm may be lower than the real part because of rounding
-- 
2.43.0


From 5eeb829aa666642c33c6dc21dbb6c1e3fc9f9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:25 +0000
Subject: [PATCH 137/164] fix: argument of a small complex number

complex::arg() took every part below MACH_EPSILON as zero, so the argument of (1 + i) * 1E-17 was 0 instead of pi/4.
---
 src/complex/complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index c3ba180..bbc92c4 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -173,12 +173,12 @@ namespace theoretica {
 			inline Type arg() const {
 
 				// Real number case
-				if(abs(b) < MACH_EPSILON) {
+				if(b == 0) {
 					return (a >= 0) ? ((Type) 0) : ((Type) PI);
 				}
 
 				// Pure imaginary number case
-				if(abs(a) < MACH_EPSILON) {
+				if(a == 0) {
 					return (b >= 0) ? ((Type) PI / 2.0) : ((Type) -PI / 2.0);
 				}
 
-- 
2.43.0


From 648a24568e2ebf09e8236c46deb84c41ef9d60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:11 +0000
Subject: [PATCH 138/164] fix: report a singular upper triangular system of
 order 1

---
 src/algebra/algebra.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 5946f3c..5f890d6 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1634,11 +1634,6 @@ namespace theoretica {
 				return vec_error(x);
 			}
 
-			if (U.rows() == 1) {
-				x[0] = b[0] / U(0, 0);
-				return x;
-			}
-
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-- 
2.43.0


From 31d0da6b972778c44f857a7ab2dc380d71fe613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:11 +0000
Subject: [PATCH 139/164] fix: report a matrix which is not triangular in
 solve_triangular

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 5f890d6..a135113 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1670,6 +1670,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("solve_triangular", false, INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From 92c10114423c9fee6292d5510c23a8d5b0197118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:19 +0000
Subject: [PATCH 140/164] fix: stop the Rayleigh iteration on an exact
 eigenvalue instead of failing

---
 src/algebra/algebra.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index a135113..d1d9ef7 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2520,6 +2520,11 @@ namespace theoretica {
 				// subsequent eigenvalues steps, to avoid copying matrix A
 				mat_shift_diagonal(A_shift, lambda_prev - lambda_curr);
 
+				// Stop when the residual is within the tolerance,
+				// as the shifted matrix is then nearly singular
+				if (norm(transform(A_shift, x_curr)) <= tolerance)
+					break;
+
 				// Solve the linear system each time, as the shifted
 				// matrix is continuously updated
 				x_prev = x_curr;
@@ -2597,6 +2602,11 @@ namespace theoretica {
 				// subsequent eigenvalues steps, to avoid copying matrix A
 				mat_shift_diagonal(A_shift, lambda_prev - lambda_curr);
 
+				// Stop when the residual is within the tolerance,
+				// as the shifted matrix is then nearly singular
+				if (norm(transform(A_shift, x_curr)) <= tolerance)
+					break;
+
 				// Solve the linear system each time, as the shifted
 				// matrix is continuously updated
 				x_prev = x_curr;
-- 
2.43.0


From 80c98a21153137b1248efbf03e911be97d6001c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 141/164] fix: associated Legendre functions of negative order
 divided by an overflowed factorial

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 0b835c5..d75cc37 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1.0, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1.0, m) * falling_fact<real>(l + m, 2 * m);
 		}
 
 		for (int i = 0; i < m; ++i)
@@ -121,7 +121,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= fact(l + m) / fact(l - m);
+			K *= falling_fact<real>(l + m, 2 * m);
 		}
 
 		polynomial<real> L = legendre_polynomial(l);
-- 
2.43.0


From d6fc699daeca1e84ea22c88093635e1ffc074a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:24 +0000
Subject: [PATCH 142/164] fix: complex arcsine and arccosine lost the branch
 and their value to cancellation

---
 src/complex/complex_analysis.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 58d716d..e968c60 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -132,6 +132,11 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> asin(complex<T> z) {
+
+		// Use the odd symmetry where the two addends would cancel
+		if(z.b > 0 || (z.b == 0 && z.a < 0))
+			return -asin(-z);
+
 		return ln(complex<T>(0, 1) * z + sqrt(complex<T>(1, 0) - square(z))) * complex<T>(0, -1);
 	}
 
@@ -140,6 +145,11 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
+
+		// Use the reflection formula where the two addends would cancel
+		if(z.a < 0)
+			return complex<T>(PI, 0) - acos(-z);
+
 		return ln(z + complex<T>(0, 1) * sqrt(complex<T>(1, 0) - square(z))) * complex<T>(0, -1);
 	}
 
-- 
2.43.0


From 8d1d2cf8cea5db871f264eb4261b9ed5b7305ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 143/164] fix: complex square root lost its smaller part to
 cancellation next to the real axis

---
 src/complex/complex_analysis.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index e968c60..7803186 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -114,9 +114,15 @@ namespace theoretica {
 		// The computed norm may be lower than the real part because of rounding
 		const T norm = max(z.norm(), abs(z.Re()));
 
-		return complex<T>(
-			INVSQR2 * sqrt(norm + z.Re()),
-			INVSQR2 * sqrt(norm - z.Re()) * (z.b < 0 ? -1 : 1));
+		// Compute the bigger part first, to avoid cancellation in the other
+		const T s = INVSQR2 * sqrt(norm + abs(z.Re()));
+		const T d = abs(z.Im()) / (2 * s);
+		const T sgn_b = (z.b < 0) ? -1 : 1;
+
+		if(z.Re() < 0)
+			return complex<T>(d, s * sgn_b);
+
+		return complex<T>(s, d * sgn_b);
 	}
 
 
-- 
2.43.0


From 5b8de46fbbb405ecdabc7d1249530a15b58648ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 144/164] fix: complex tangent overflowed far from the real
 axis

---
 src/complex/complex_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 7803186..9cca283 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -98,6 +98,10 @@ namespace theoretica {
 	template<typename T>
 	inline complex<T> tan(complex<T> z) {
 
+		// Use the symmetry under conjugation, as the exponential would overflow
+		if(z.Im() < 0)
+			return conjugate(tan(conjugate(z)));
+
 		const complex<T> t = z * complex<T>(0, 2);
 		return (exp(t) - T(1)) / (exp(t) + T(1)) * complex<T>(0, -1);
 	}
-- 
2.43.0


From aaafbf0f4239d78c9ce92cbfddc781ebf14a095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:40 +0000
Subject: [PATCH 145/164] fix: complex arccosine lost digits to cancellation
 below the real axis

---
 src/complex/complex_analysis.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 9cca283..9f67f67 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -156,10 +156,13 @@ namespace theoretica {
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
 
-		// Use the reflection formula where the two addends would cancel
+		// Use the symmetries of the function where the two addends would cancel
 		if(z.a < 0)
 			return complex<T>(PI, 0) - acos(-z);
 
+		if(z.b < 0)
+			return conjugate(acos(conjugate(z)));
+
 		return ln(z + complex<T>(0, 1) * sqrt(complex<T>(1, 0) - square(z))) * complex<T>(0, -1);
 	}
 
-- 
2.43.0


From 95bacf1bd7dbc397258786e776fcad93fd4c36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:18 +0000
Subject: [PATCH 146/164] fix: conjugate the diagonal in make_hermitian

---
 src/algebra/algebra.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index d1d9ef7..3e6b4eb 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -517,6 +517,8 @@ namespace theoretica {
 					m(i, j) = conjugate(m(j, i));
 					m(j, i) = conjugate(buff);
 				}
+
+				m(i, i) = conjugate(m(i, i));
 			}
 
 			return m;
-- 
2.43.0


From ed2e4be98527dc7d1652f78e4d6f800f6a59855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 147/164] fix: normalize the first vector of inverse iterations

Without it, matrices with eigenvalues above 1E+08 failed on the first step
---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 3e6b4eb..6866001 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2300,7 +2300,7 @@ namespace theoretica {
 			// Compute the first step to initialize the two vectors
 			Vector x_prev = normalize(x);
 			Vector x_curr = x_prev;
-			solve_lu_inplace(LU, x_curr);
+			make_normalized(solve_lu_inplace(LU, x_curr));
 
 			// Iteration counter
 			unsigned int i;
@@ -2366,7 +2366,7 @@ namespace theoretica {
 			// Compute the first step to initialize the two vectors
 			Vector1 x_prev = normalize(x);
 			Vector1 x_curr = x_prev;
-			solve_lu_inplace(LU, x_curr);
+			make_normalized(solve_lu_inplace(LU, x_curr));
 
 			// Iteration counter
 			unsigned int i;
@@ -2441,7 +2441,7 @@ namespace theoretica {
 			// Compute the first step to initialize the two vectors
 			Vector v_prev = normalize(x);
 			Vector v_curr = v_prev;
-			solve_lu_inplace(LU, v_curr);
+			make_normalized(solve_lu_inplace(LU, v_curr));
 
 			// Iteration counter
 			unsigned int i;
-- 
2.43.0


From c022ca4d2f4f811c84bd54e45c90a9d79b953654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:10 +0000
Subject: [PATCH 148/164] fix: cancellation of acos of complex numbers on the
 cut

---
 src/complex/complex_analysis.h | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 9f67f67..0820a09 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -155,15 +155,7 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
-
-		// Use the symmetries of the function where the two addends would cancel
-		if(z.a < 0)
-			return complex<T>(PI, 0) - acos(-z);
-
-		if(z.b < 0)
-			return conjugate(acos(conjugate(z)));
-
-		return ln(z + complex<T>(0, 1) * sqrt(complex<T>(1, 0) - square(z))) * complex<T>(0, -1);
+		return complex<T>(PI / 2.0, 0) - asin(z);
 	}
 
 
-- 
2.43.0


From feb8ee43ed7ea03d74e0d8fbbe6419ef2ce97d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:10 +0000
Subject: [PATCH 149/164] fix: roots of quadratics with small coefficients were
 lost to cancellation

---
 src/polynomial/polynomial.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 0fac67c..5f2b32f 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -389,17 +389,17 @@ namespace theoretica {
 				const Type q = coeff[0] / coeff[2];
 
 				// Case when 0 is a root
-				if(abs(q) < MACH_EPSILON)
+				if(q == 0)
 					return {complex<>(-p), complex<>(0)};
 
 				complex<> z1, z2;
 
 				// Use Vieta's theorem to avoid catastrophic cancellation
-				if(abs(p) > 1) {
+				if(square(p) > abs(q)) {
 
 					z1 = real(-sgn(p)) * (abs(p) / real(2)
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
-					z2 = q / z1;
+					z2 = conjugate(z1) * (q / z1.sqr_norm());
 
 				} else {
 
-- 
2.43.0


From 590824859abdca13ffa095521bb85dda4001e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:47 +0000
Subject: [PATCH 150/164] fix: solutions over intervals shorter than the
 machine epsilon missed the final time

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 54cea7b..dcdaee8 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -324,7 +324,7 @@ namespace theoretica {
 			unsigned int total_steps = steps;
 			unsigned int i;
 
-			if (abs(t0 + steps * stepsize - tf) > MACH_EPSILON)
+			if (abs(t0 + steps * stepsize - tf) > MACH_EPSILON * max(abs(t0), abs(tf)))
 				total_steps++;
 
 			// Initialize solution structure
-- 
2.43.0


From fcf3a3d9719220c704c7943be994d39399382694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:44 +0000
Subject: [PATCH 151/164] fix: roots() took every small value of the function
 for a root

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 034347f..e83ff01 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -677,12 +677,12 @@ namespace theoretica {
 
 			// Check whether the extremes of the candidate intervals
 			// happen to coincide with the roots
-			if(abs(f(intervals[i][0])) <= MACH_EPSILON) {
+			if(f(intervals[i][0]) == 0) {
 				res.push_back(intervals[i][0]);
 				continue;
 			}
 
-			if(abs(f(intervals[i][1])) <= MACH_EPSILON) {
+			if(f(intervals[i][1]) == 0) {
 				res.push_back(intervals[i][1]);
 				continue;
 			}
-- 
2.43.0


From 15f9098b6b9589bbb1592481c078c654ddef7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:39 +0000
Subject: [PATCH 152/164] fix: Lagrange interpolation of points closer than the
 machine epsilon

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index 46ba5ba..10cd8b7 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -55,7 +55,7 @@ namespace theoretica {
 
 				// l_j = product(x - x_m / x_j - x_m)
 				l_j *= polynomial<T>({-points[m].get(0), 1});
-				l_j /= points[j].get(0) - points[m].get(0);
+				l_j *= T(1) / (points[j].get(0) - points[m].get(0));
 			}
 
 			// L = sum(y_j * l_j)
-- 
2.43.0


From f8ca3337a18651e67476c8c34d7c850f2ced3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:52 +0000
Subject: [PATCH 153/164] fix: relative error, chi squared and sums of
 quotients of data in small units

---
 src/core/dataset.h          | 4 ++--
 src/statistics/statistics.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index f5b7864..5a6a41e 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -103,7 +103,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		if(abs(Y[0]) < MACH_EPSILON) {
+		if(Y[0] == 0) {
 			TH_MATH_ERROR("quotient_sum", Y[0], DIV_BY_ZERO);
 			return nan();
 		}
@@ -111,7 +111,7 @@ namespace theoretica {
 		auto res = X[0] / Y[0];
 		for(unsigned int i = 1; i < X.size(); i++) {
 
-			if(abs(Y[i]) < MACH_EPSILON) {
+			if(Y[i] == 0) {
 				TH_MATH_ERROR("quotient_sum", Y[i], DIV_BY_ZERO);
 				return nan();
 			}
diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 8e54ef2..0ff1130 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -240,7 +240,7 @@ namespace theoretica {
 
 			real x_mean = mean(X);
 
-			if(abs(x_mean) < MACH_EPSILON) {
+			if(x_mean == 0) {
 				TH_MATH_ERROR("standard_relative_error", x_mean, DIV_BY_ZERO);
 				return nan();
 			}
@@ -464,7 +464,7 @@ namespace theoretica {
 
 			for (unsigned int i = 0; i < O.size(); ++i) {
 
-				if(abs(sigma[i]) < MACH_EPSILON) {
+				if(sigma[i] == 0) {
 					TH_MATH_ERROR("chi_square", sigma[i], DIV_BY_ZERO);
 					return nan();
 				}
@@ -599,7 +599,7 @@ namespace theoretica {
 			real chi_squared = 0;
 			for (unsigned int i = 0; i < X.size(); ++i) {
 
-				if(abs(sigma[i]) <= MACH_EPSILON) {
+				if(sigma[i] == 0) {
 					TH_MATH_ERROR("chi_square_linear", sigma[i], DIV_BY_ZERO);
 					return nan();
 				}
-- 
2.43.0


From 06a583861899039a48d31d1f1d76606cfa7fd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:52 +0000
Subject: [PATCH 154/164] fix: Rayleigh distribution with a scale below the
 machine epsilon

---
 src/statistics/distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 89cad38..bf2b4e1 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -334,7 +334,7 @@ namespace theoretica {
 			if(x < 0)
 				return 0;
 
-			if(sigma < MACH_EPSILON) {
+			if(sigma <= 0) {
 				TH_MATH_ERROR("distribution::rayleigh", sigma, DIV_BY_ZERO);
 				return nan();
 			}
-- 
2.43.0


From 03250861459bec6e6d08b46d6d18888466a03156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:04 +0000
Subject: [PATCH 155/164] fix: powf of zero was NaN

The logarithm of zero was multiplied by sgn(0) = 0. As a consequence the
gamma and beta densities were NaN at the ends of their domain.
---
 src/core/real_analysis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 9da2280..3f863a1 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -820,6 +820,13 @@ namespace theoretica {
 	/// Approximated as \f$e^{a ln(|x|) sgn(x)}\f$
 	inline real powf(real x, real a) {
 
+		// The logarithm of zero is infinite
+		if(x == 0 && a == 0)
+			return 1;
+
+		if(x == 0)
+			return a > 0 ? real(0) : (a < 0 ? inf() : nan());
+
 		if(a < 0)
 			return 1.0 / exp(-a * ln(abs(x)) * sgn(x));
 
-- 
2.43.0


From 16745bbb80ba07644af9c30705a72073d4d45169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:04 +0000
Subject: [PATCH 156/164] fix: linear_model refused small uncertainties on Y

---
 src/statistics/regression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 923761e..75efb11 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -434,7 +434,7 @@ namespace theoretica {
 					return;
 				}
 
-				if(abs(sigma_Y) <= MACH_EPSILON) {
+				if(sigma_Y == 0) {
 					TH_MATH_ERROR("linear_model::fit", sigma_Y, DIV_BY_ZERO);
 					A = nan(); B = nan();
 					return;
-- 
2.43.0


From eb80cb91387a08a80c96b999ca28c9c324a3b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 157/164] fix: wls_linear lost the slope when sigma_X is much
 smaller than sigma_Y

The root of the quadratic equation for the slope was computed by
subtracting nearly equal numbers when Delta is negative.
---
 src/statistics/regression.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 75efb11..5ec70c0 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -210,9 +210,15 @@ namespace theoretica {
 				return;
 			}
 
-			slope = (Delta + sqrt(
-					square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy)
-				)) / (2 * square(sigma_X) * delta_xy);
+			const real discr = sqrt(
+				square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy)
+			);
+
+			// Choose the form which does not subtract nearly equal numbers
+			if(Delta >= 0)
+				slope = (Delta + discr) / (2 * square(sigma_X) * delta_xy);
+			else
+				slope = 2 * square(sigma_Y) * delta_xy / (discr - Delta);
 
 			intercept = mean_y - slope * mean_x;
 
-- 
2.43.0


From 0539a5613f580ca295d9782f27c7281da6a975cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:03 +0000
Subject: [PATCH 158/164] fix: rand_exponential refused small rates

---
 src/pseudorandom/sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 89c9675..50d4050 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -324,7 +324,7 @@ namespace theoretica {
 	/// distribution using the quantile (inverse) function method.
 	inline real rand_exponential(real lambda, PRNG& g) {
 
-		if(abs(lambda) < MACH_EPSILON) {
+		if(lambda == 0) {
 			TH_MATH_ERROR("rand_exponential", lambda, DIV_BY_ZERO);
 			return nan();
 		}
-- 
2.43.0


From b5689ebacba4cb4c2458607218e0983fae213d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:17 +0000
Subject: [PATCH 159/164] fix: fract of numbers which do not fit into an int

The integer part was computed by floor, which returns an int, so that
the Weyl sequence left [0, 1) for large indices.
---
 src/core/real_analysis.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 3f863a1..7196a8a 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -301,7 +301,13 @@ namespace theoretica {
 	/// e.g. fract(2.5) = 0.5
 	/// e.g. fract(-0.2) = 0.2
 	inline real fract(real x) {
-		return abs(x - floor(x));
+
+		// Such numbers do not have a fractional part
+		if(abs(x) >= 9223372036854775808.0)
+			return 0;
+
+		const int64_t n = static_cast<int64_t>(x);
+		return x - (x < n ? n - 1 : n);
 	}
 
 
-- 
2.43.0


From d79268b720cf8eacf10baf17b8ccfd0a3fb8c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:58 +0000
Subject: [PATCH 160/164] fix: gamma of large integer numbers

The number was converted to an unsigned integer, which may not represent
it, and the factorial was computed with as many products.
---
 src/core/special.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/special.h b/src/core/special.h
index 14c9106..95b4763 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -115,7 +115,7 @@ namespace theoretica {
 				if(x <= 0) {
 					TH_MATH_ERROR("gamma", x, OUT_OF_DOMAIN);
 					return inf();
-				} else
+				} else if(x < std::numeric_limits<real>::max_exponent)
 					return gamma((unsigned int) x);
 			}
 
-- 
2.43.0


From b3aea43eee3abcfd1a3aa6984832bd1ef27cf7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:05 +0000
Subject: [PATCH 161/164] fix: in-place sum and difference of static vectors
 with vectors of another size

---
 src/algebra/vec.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index c529af8..a646fdf 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -248,6 +248,11 @@ namespace theoretica {
 		template<typename Vector>
 		inline vec<Type, N>& operator+=(const Vector& other) {
 
+			if(size() != other.size()) {
+				TH_MATH_ERROR("vec::operator+=", other.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(*this);
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
 				data[i] += other[i];
 		
@@ -259,6 +264,11 @@ namespace theoretica {
 		template<typename Vector>
 		inline vec<Type, N>& operator-=(const Vector& other) {
 
+			if(size() != other.size()) {
+				TH_MATH_ERROR("vec::operator-=", other.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(*this);
+			}
+
 			for (unsigned int i = 0; i < N; ++i)
 				data[i] -= other[i];
 		
-- 
2.43.0


From a5bf2b24b460d882456af0961839a8bc2c0816d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:05 +0000
Subject: [PATCH 162/164] fix: symplectic accepted static matrices which are
 not square of even size

---
 src/algebra/transform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 328e495..f073729 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -520,8 +520,8 @@ namespace theoretica {
 			if(rows && cols)
 				m.resize(rows, cols);
 
-			if(rows != cols || (rows % 2 != 0)) {
-				TH_MATH_ERROR("algebra::symplectic", rows, INVALID_ARGUMENT);
+			if(rows != cols || m.rows() != m.cols() || (m.rows() % 2 != 0)) {
+				TH_MATH_ERROR("algebra::symplectic", m.rows(), INVALID_ARGUMENT);
 				mat_error(m);
 				return m;
 			}
-- 
2.43.0


From 83d80dc09da3281af4b35b8adeb4c614d2422503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:59 +0000
Subject: [PATCH 163/164] fix: the text of the solution of a single
 differential equation did not compile

---
 src/calculus/ode.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index dcdaee8..9c612fb 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -63,19 +63,35 @@ namespace theoretica {
 				for (unsigned int i = 0; i < t.size(); ++i) {
 					
 					res << t[i] << separator;
+					stream_state(res, x[i], separator);
+				}
+
+				return res.str();
+			}
+
 
-					for (unsigned int j = 0; j < x[i].size(); ++j) {
+			/// Stream the state of a system of equations
+			template<typename State>
+			inline static void stream_state(
+				std::ostream& out, const State& state, const std::string& separator) {
 
-						res << x[i][j];
+				for (unsigned int j = 0; j < state.size(); ++j) {
 
-						if(j != x[i].size() - 1)
-							res << separator;
-						else
-							res << "\n";
-					}
+					out << state[j];
+
+					if(j != state.size() - 1)
+						out << separator;
+					else
+						out << "\n";
 				}
+			}
 
-				return res.str();
+
+			/// Stream the state of a single equation
+			inline static void stream_state(
+				std::ostream& out, real state, const std::string&) {
+
+				out << state << "\n";
 			}
 
 
-- 
2.43.0


From 35695d7744dc5fd2050fe22cde70579a3866808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:59 +0000
Subject: [PATCH 164/164] fix: golden section and bisection never converged
 where the type is coarser than the tolerance

---
 src/optimization/extrema.h | 10 ++++++++--
 src/optimization/roots.h   |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 9f1b3a2..cec8f38 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -33,9 +33,12 @@ namespace theoretica {
 		real x3 = b - (b - a) / PHI;
 		real x4 = a + (b - a) / PHI;
 
+		// The interval cannot become smaller than the rounding of its extremes
+		const real tol = max(OPTIMIZATION_TOL, 2 * MACH_EPSILON * max(abs(a), abs(b)));
+
 		unsigned int iter = 0;
 
-		while(abs(x2 - x1) > OPTIMIZATION_TOL && iter <= OPTIMIZATION_GOLDENSECTION_ITER) {
+		while(abs(x2 - x1) > tol && iter <= OPTIMIZATION_GOLDENSECTION_ITER) {
 
 			if(f(x3) > f(x4)) {
 				x2 = x4;
@@ -78,9 +81,12 @@ namespace theoretica {
 		real x3 = b - (b - a) / PHI;
 		real x4 = a + (b - a) / PHI;
 
+		// The interval cannot become smaller than the rounding of its extremes
+		const real tol = max(OPTIMIZATION_TOL, 2 * MACH_EPSILON * max(abs(a), abs(b)));
+
 		unsigned int iter = 0;
 
-		while(abs(x2 - x1) > OPTIMIZATION_TOL && iter <= OPTIMIZATION_GOLDENSECTION_ITER) {
+		while(abs(x2 - x1) > tol && iter <= OPTIMIZATION_GOLDENSECTION_ITER) {
 
 			if(f(x3) < f(x4)) {
 				x2 = x4;
diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index e83ff01..100363f 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -74,6 +74,9 @@ namespace theoretica {
 		real x_min = a;
 		real x_max = b;
 
+		// The interval cannot become smaller than the rounding of its extremes
+		tol = max(tol, MACH_EPSILON * max(abs(a), abs(b)));
+
 		unsigned int iter = 0;
 
 		while((x_max - x_min) > (2 * tol) && iter <= max_iter) {
-- 
2.43.0

