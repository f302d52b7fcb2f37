From 9ec05b71825c265823fad798534f80672f7db683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 01/19] fix: fract() of a value too large to have a fraction is
 0, not the value

---
 include/dsga.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..747a0ca 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1044,7 +1044,10 @@ namespace dsga
 				{
 					// screen out unnecessary input
 					if (fails_fractional_input_constraints(value))
-						return value;
+					{
+						// finite values that fail the constraints have no fractional part
+						return isfinite(value) ? T(0) : value;
+					}
 
 					return relaxed::fract(value);
 				}
-- 
2.43.0


From f6b04c055f6cb76c18bdbace73adffc0f3550274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 02/19] fix: round() and roundEven() of the largest value below
 one half is 0

---
 include/dsga.hxx | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 747a0ca..118da20 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,20 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				const T truncated_value = trunc(value);
+
+				// this difference is exact, while (value +/- 0.5) could itself get rounded to the next integer
+				const T remainder = value - truncated_value;
 
 				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				if (remainder >= T(0.5f))
+					return truncated_value + T(1.0f);
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				// negative value, taking care of halfway case.
+				if (remainder <= T(-0.5f))
+					return truncated_value - T(1.0f);
+
+				return truncated_value;
 			}
 
 			//
@@ -653,14 +659,7 @@ namespace dsga
 				if (is_halfway && is_even)
 					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
-
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
-
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return round(value);
 			}
 
 			//
-- 
2.43.0


From 2c10a3897dd5e2aae41e90f905a1ad7d9931fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 03/19] fix: compile-time fmod() is exact, like the run-time
 one

---
 include/dsga.hxx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 118da20..b773183 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1072,7 +1072,27 @@ namespace dsga
 					if (y == 0)
 						return std::numeric_limits<T>::quiet_NaN();
 
-					return relaxed::fmod(x, y);
+					// long division on the magnitudes, as (x / y) might not fit in an integer, and it might get rounded.
+					// every step is exact.
+					const T abs_y = relaxed::abs(y);
+					T remainder = relaxed::abs(x);
+					if (remainder >= abs_y)
+					{
+						T part = abs_y;
+						while (remainder - part >= part)
+							part += part;
+
+						for (; part > abs_y; part *= T(0.5f))
+						{
+							if (remainder >= part)
+								remainder -= part;
+						}
+
+						if (remainder >= abs_y)
+							remainder -= abs_y;
+					}
+
+					return (x < T(0)) ? -remainder : remainder;
 				}
 
 				//
-- 
2.43.0


From 721ed84c0650672a8fad5e1f9f36a0df56e63864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 04/19] fix: abs() and fabs() of negative infinity is positive
 infinity

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index b773183..da0f912 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1316,7 +1316,7 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value) || (value == 0))
 					return value;
 
 				return relaxed::abs(value);
@@ -1335,7 +1335,7 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value) || (value == 0))
 					return value;
 
 				return relaxed::fabs(value);
-- 
2.43.0


From 5d22aeb78ea7607f58e418b0eaf39b5d423047d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 05/19] fix: abs() and fabs() of unsigned 0 is not undefined
 behavior

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index da0f912..ccf791f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1327,7 +1327,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr T abs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || (value != std::numeric_limits<T>::min()), "undefined behavior in abs()");
 
 				return relaxed::abs(value);
 			}
@@ -1344,7 +1344,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr double fabs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || (value != std::numeric_limits<T>::min()), "undefined behavior in fabs()");
 
 				return relaxed::fabs(value);
 			}
-- 
2.43.0


From 56142ca5a8c3b165523e2309dd7e664c7fa0a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 06/19] fix: free swap() of views lets the overlap exception
 out instead of terminating

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ccf791f..cedc036 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2059,7 +2059,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From dd454ba4a8dca347dfb24d21085af7edc1ba929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 07/19] fix: shift() by the most negative int clears the vector

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index cedc036..8218754 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2230,7 +2230,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From 24d6d525548b4b4f3f5c473f89f7d86588964105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 08/19] fix: swizzle iterators can move to their end position
 with += and -=

---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 8218754..3d7e6fe 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2425,7 +2425,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2433,7 +2433,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2687,7 +2687,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2695,7 +2695,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From c2c9c0c29b9c701195eaef64ebb303bbbdb83396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 09/19] fix: assigning a view_vector from its own swizzle reads
 before it writes

---
 include/dsga.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 3d7e6fe..acb3cb8 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5898,7 +5898,9 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other may be a swizzle of this, so read all of it before writing
+			const basic_vector<U, Count> values(other);
+			std::copy(values.begin(), values.end(), store);
 			return *this;
 		}
 
@@ -5906,7 +5908,9 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			// other may be a swizzle of this, so read all of it before writing
+			const basic_vector<U, Count> values(other);
+			std::copy(values.begin(), values.end(), store);
 			return *this;
 		}
 	};
-- 
2.43.0


From 279f56cf57b6ff3b8864c86d6617e1aa7be23c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 10/19] fix: lessThan() and friends compare 64-bit integers
 exactly

---
 include/dsga.hxx | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index acb3cb8..f9746a0 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7040,7 +7040,11 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			// integers would get converted to double, which can't represent all the 64-bit values
+			if constexpr (std::integral<T>)
+				return x < y;
+			else
+				return std::isless(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7059,7 +7063,11 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			// integers would get converted to double, which can't represent all the 64-bit values
+			if constexpr (std::integral<T>)
+				return x <= y;
+			else
+				return std::islessequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7078,7 +7086,11 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			// integers would get converted to double, which can't represent all the 64-bit values
+			if constexpr (std::integral<T>)
+				return x > y;
+			else
+				return std::isgreater(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7097,7 +7109,11 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			// integers would get converted to double, which can't represent all the 64-bit values
+			if constexpr (std::integral<T>)
+				return x >= y;
+			else
+				return std::isgreaterequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From 25e1b57911cfc211be3a85d1f76ee025c793bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 11/19] fix: modf() works when the whole part is written over
 the argument

---
 include/dsga.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index f9746a0..8f56a4d 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7804,12 +7804,13 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// arg and i could refer to the same data, so compute everything before writing to i
+			const basic_vector<T, C> whole(trunc(arg));
+			const auto fraction = machinery::apply_unitype_make(arg, whole, modf_op);
+
+			i.as_derived() = whole;
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fraction;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From 8eea3c91202ade46f2ffd77993980a36818963fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 12/19] fix: accept views and owning views as arguments of the
 vector constructors

component_count and to_tuple handle basic_view, indexed_view and view_vector,
and the matrix constructors accept them, but valid_vector_component left them
out, so vec4(view.xyz, 1.0f) and ivec3(double_view) did not compile.
---
 include/dsga.hxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 8f56a4d..58b0dc7 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -3504,6 +3504,24 @@ namespace dsga
 		{
 		};
 
+		template <bool M, dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<basic_view<M, U, S>, T> : std::true_type
+		{
+		};
+
+		template <bool M, dimensional_scalar U, std::size_t S, std::size_t C, std::size_t ...Is, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<indexed_view<M, U, S, C, Is...>, T> : std::true_type
+		{
+		};
+
+		template <dimensional_scalar U, std::size_t S, dimensional_scalar T>
+		requires std::convertible_to<U, T>
+		struct valid_vector_component<view_vector<U, S>, T> : std::true_type
+		{
+		};
+
 		template <bool W, dimensional_scalar U, std::size_t C, typename D, dimensional_scalar T>
 		requires std::convertible_to<U, T>
 		struct valid_vector_component<vector_base<W, U, C, D>, T> : std::true_type
-- 
2.43.0


From 2ed054167649e42358d93098f92306dd4e637ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 13/19] fix: inversesqrt(double) returned NaN for very large
 and very small values

---
 include/dsga.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 58b0dc7..d72a633 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -737,6 +737,13 @@ namespace dsga
 
 					if constexpr (std::is_same_v<T, double>)
 					{
+						// the double-double arithmetic would overflow for very large or very small values,
+						// so scale them by a power of 4, which is exact
+						if (arg > 0x1p+900 && arg <= std::numeric_limits<double>::max())
+							return inverse_sqrt(arg * 0x1p-200) * 0x1p-100;
+						else if (arg > 0.0 && arg < 0x1p-900)
+							return inverse_sqrt(arg * 0x1p+200) * 0x1p+100;
+
 						// arg is already a double
 						auto current_value = dd_real::dd_real(fast_rsqrt(arg));
 
-- 
2.43.0


From 487bda7c158753ed815af88a5ebdfd08d4b81940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 14/19] fix: compile-time sqrt(double) did not end for huge
 values and was inaccurate for tiny ones

---
 include/dsga.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index d72a633..ae7306e 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -700,6 +700,13 @@ namespace dsga
 
 					if constexpr (std::is_same_v<T, double>)
 					{
+						// the double-double arithmetic would overflow or lose bits for very large or very small values,
+						// so scale them by a power of 4, which is exact
+						if (arg > 0x1p+900 && arg <= std::numeric_limits<double>::max())
+							return converging_sqrt(arg * 0x1p-200) * 0x1p+100;
+						else if (arg > 0.0 && arg < 0x1p-900)
+							return converging_sqrt(arg * 0x1p+200) * 0x1p-100;
+
 						// boosted_arg doesn't need to be a dd_real for [T = double]
 
 						auto current_value = dd_real::dd_real(init_value);
-- 
2.43.0


From 8b6ea7cffd30da20e71e63cd118774b81cfd6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 15/19] fix: compile-time sqrt(double) was rounded up just
 below powers of 4

---
 include/dsga.hxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ae7306e..954918e 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -718,7 +718,21 @@ namespace dsga
 							current_value = 0.5 * (current_value + (boosted_arg / current_value));
 						}
 
-						return static_cast<double>(current_value);
+						double result = static_cast<double>(current_value);
+
+						// double-double is not enough to tell a root that is barely below the midpoint of two
+						// doubles from that midpoint, so check exactly whether the lower double is closer
+						if (result > 0.0)
+						{
+							const double lower = std::bit_cast<double>(std::bit_cast<long long>(result) - 1);
+							double error = 0.0;
+							const double square = dd_real::two_prod(result, result, error);
+
+							if (((arg - square) - error) + result * (result - lower) <= 0.0)
+								result = lower;
+						}
+
+						return result;
 					}
 					else if constexpr (std::is_same_v<T, float>)
 					{
-- 
2.43.0


From f92065b365a4966bce3f5541a9ba1090e2445a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 16/19] fix: row vector of integers times matrix compiles

operator *(vector, matrix) is declared for every non-bool component type, like
operator *(matrix, vector), but used dot(), which takes floating point only.
---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 954918e..6addf4b 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9207,7 +9207,7 @@ namespace dsga
 	{
 		return [&]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
 		{
-			return basic_vector{ functions::dot(lhs, rhs[Is])... };
+			return basic_vector{ functions::innerProduct(lhs, rhs[Is])... };
 		}(std::make_index_sequence<C>{});
 	}
 
-- 
2.43.0


From 0a957259dd799b6a1f543a76004909d91b22f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 17/19] fix: structured bindings of read-only swizzles and
 views

---
 include/dsga.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 6addf4b..0f6a826 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9520,7 +9520,7 @@ struct std::tuple_size<dsga::storage_wrapper<M, T, S>> : std::integral_constant<
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S>
 struct std::tuple_element<I, dsga::storage_wrapper<M, T, S>>
 {
-	using type = T;
+	using type = std::conditional_t<M, T, const T>;
 };
 
 template<bool M, dsga::dimensional_scalar T, std::size_t S>
@@ -9531,7 +9531,7 @@ struct std::tuple_size<dsga::view_wrapper<M, T, S>> : std::integral_constant<std
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S>
 struct std::tuple_element<I, dsga::view_wrapper<M, T, S>>
 {
-	using type = T;
+	using type = std::conditional_t<M, T, const T>;
 };
 
 template<dsga::dimensional_scalar T, std::size_t S>
@@ -9553,7 +9553,7 @@ struct std::tuple_size<dsga::basic_view<M, T, S>> : std::integral_constant<std::
 template <std::size_t I, bool M, dsga::dimensional_scalar T, std::size_t S>
 struct std::tuple_element<I, dsga::basic_view<M, T, S>>
 {
-	using type = T;
+	using type = std::conditional_t<M, T, const T>;
 };
 
 template<dsga::dimensional_scalar T, std::size_t S>
@@ -9575,7 +9575,7 @@ struct std::tuple_size<dsga::indexed_vector<M, T, S, C, Is...>> : std::integral_
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S, std::size_t C, std::size_t ...Is>
 struct std::tuple_element<I, dsga::indexed_vector<M, T, S, C, Is...>>
 {
-	using type = T;
+	using type = std::conditional_t<M && dsga::writable_swizzle<S, C, Is...>, T, const T>;
 };
 
 template <bool M, dsga::dimensional_scalar T, std::size_t S, std::size_t C, std::size_t ...Is>
@@ -9586,7 +9586,7 @@ struct std::tuple_size<dsga::indexed_view<M, T, S, C, Is...>> : std::integral_co
 template <bool M, std::size_t I, dsga::dimensional_scalar T, std::size_t S, std::size_t C, std::size_t ...Is>
 struct std::tuple_element<I, dsga::indexed_view<M, T, S, C, Is...>>
 {
-	using type = T;
+	using type = std::conditional_t<M && dsga::writable_swizzle<S, C, Is...>, T, const T>;
 };
 
 template <bool W, dsga::dimensional_scalar T, std::size_t C, typename D>
@@ -9597,7 +9597,7 @@ struct std::tuple_size<dsga::vector_base<W, T, C, D>> : std::integral_constant<s
 template <std::size_t I, bool W, dsga::dimensional_scalar T, std::size_t C, typename D>
 struct std::tuple_element<I, dsga::vector_base<W, T, C, D>>
 {
-	using type = T;
+	using type = std::conditional_t<W, T, const T>;
 };
 
 template <dsga::floating_point_scalar T, std::size_t C, std::size_t R>
-- 
2.43.0


From 6ba854faa4b24eeffdd02f7c3de04e98254b8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 18/19] fix: make_array_sequence accepts float and double
 elements, as documented

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 0f6a826..ca80263 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1734,7 +1734,7 @@ namespace dsga
 		// return std::index_sequence from constexpr std::array<std::size_t, N> elements
 		template <sequence_indexable auto vals, std::size_t ...Is>
 		requires ((vals[Is] >= 0) && ...)
-		constexpr std::index_sequence<vals[Is]...> indexable_to_sequence(std::index_sequence<Is...>) noexcept { return {}; }
+		constexpr std::index_sequence<static_cast<std::size_t>(vals[Is])...> indexable_to_sequence(std::index_sequence<Is...>) noexcept { return {}; }
 	}
 
 	// do the argument indexes and count/size make for valid indirect indexing
-- 
2.43.0


From f3b7187e14d0c8606a8c73cd923a28b5a7a5ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 19/19] fix: equal and notEqual no longer compare mixed numeric
 scalars as bool

---
 include/dsga.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ca80263..1c03ac1 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7204,8 +7204,9 @@ namespace dsga
 			return machinery::apply_unitype_make(x, y, bool_equal_op);
 		}
 
-		[[nodiscard]] constexpr auto equal(bool x,
-											   bool y) noexcept
+		template <bool_scalar T>
+		[[nodiscard]] constexpr auto equal(T x,
+											   T y) noexcept
 		{
 			return bool_equal_op(x, y);
 		}
@@ -7238,8 +7239,9 @@ namespace dsga
 			return machinery::apply_unitype_make(x, y, bool_not_equal_op);
 		}
 
-		[[nodiscard]] constexpr auto notEqual(bool x,
-												  bool y) noexcept
+		template <bool_scalar T>
+		[[nodiscard]] constexpr auto notEqual(T x,
+												  T y) noexcept
 		{
 			return bool_not_equal_op(x, y);
 		}
-- 
2.43.0

