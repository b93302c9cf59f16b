From 8645df151f3641720ccb8c58f1b93928f588d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 01/84] fix: x86 element-wise copy_from/copy_to index elements,
 not native vectors

The element-wise loops of simd_mask::copy_from/copy_to and of the masked
simd::copy_from/copy_to indexed the array of native vectors with an element
index (so they did not compile, and took every operation that converts a mask
down with them). Index elements instead.
---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..0d4e442 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From 63340b3b94733588b8a2f704a52fcda6f9f84579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 02/84] fix: x86 simd copies convert element-wise and stay
 within size() elements

---
 dpm/detail/x86/type.hpp    | 8 ++++----
 dpm/detail/x86/utility.hpp | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0d4e442..007b648 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -646,11 +646,11 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_copyable<U, T>)
 				if (!std::is_constant_evaluated())
 				{
 					const auto src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -660,11 +660,11 @@ namespace dpm
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<T, U>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_copyable<T, U>)
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..c30c3b0 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -310,9 +310,13 @@ namespace dpm::detail
 	template<typename V, typename T0, std::convertible_to<T0>... Ts>
 	[[nodiscard]] DPM_FORCEINLINE V set(T0 v0, Ts... vs) noexcept { return set<V>({v0, static_cast<T0>(vs)...}); }
 
-	template<typename To, typename From, typename VTo, typename VFrom>
+	/* Whole vectors can only be copied to and from memory if doing so is equivalent to an element-wise `static_cast`. */
+	template<typename From, typename To>
+	concept native_copyable = std::same_as<From, To> || (std::integral<From> && std::integral<To> && !std::same_as<From, bool> && !std::same_as<To, bool> && sizeof(From) == sizeof(To));
+
+	template<typename To, typename From, typename VTo, typename VFrom> requires(!std::is_pointer_v<VTo> && !std::is_pointer_v<VFrom>)
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
-	template<typename To, typename From, typename VTo, typename VFrom>
+	template<typename To, typename From, typename VTo, typename VFrom> requires(!std::is_pointer_v<VTo> && !std::is_pointer_v<VFrom>)
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
 	template<typename To, typename From, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept { native_vec_cast<To, From>(*reinterpret_cast<select_vector_t<To, sizeof(VFrom)> *>(dst), src); }
-- 
2.43.0


From 6eb587ff091146edcd70b63ab791a5404b1676e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 03/84] fix: x86 constructors from native vector arrays and
 spans

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 007b648..43acbf7 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -99,9 +99,9 @@ namespace dpm
 		/** Initializes the SIMD mask with a native mask vector. */
 		constexpr simd_mask(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD mask with an array of native mask vectors. */
-		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD mask with a span of native mask vectors. */
-		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -596,9 +596,9 @@ namespace dpm
 		/** Initializes the SIMD vector with a native vector. */
 		constexpr simd(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD vector with an array of native vectors. */
-		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD vector with a span of native mask vectors. */
-		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 1136819c4b013ea7f328a073df03eda4f9e6ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 04/84] fix: x86 simd_mask generator constructor

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 43acbf7..2655dc6 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -118,7 +118,7 @@ namespace dpm
 			{
 				std::array<value_alias, native_extent> buff = {};
 				for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
-					buff[k] = detail::extend_bool<value_alias>(std::invoke(gen, i + k));
+					buff[k] = static_cast<bool>(std::invoke(gen, i + k));
 				_data[j] = detail::native_bit_cast<native_type>(buff);
 			}
 		}
-- 
2.43.0


From 7615a558cffc00820818432e1bc550d6ffe7cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 05/84] fix: x86 blend compiles (extension namespace lookup)

---
 dpm/detail/x86/type.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 2655dc6..3248dbc 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -245,13 +245,13 @@ namespace dpm
 		else
 		{
 			detail::x86_mask<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto m_data = to_native_data(m);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
+			auto result_data = ext::to_native_data(result);
+			const auto m_data = ext::to_native_data(m);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
@@ -756,13 +756,13 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
-			const auto m_data = to_native_data(m);
+			auto result_data = ext::to_native_data(result);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
+			const auto m_data = ext::to_native_data(m);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
-- 
2.43.0


From 08d59711ef908a690edbbe8cead7252fe4d1eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 06/84] fix: x86 simd_mask operator&& starts from an all-true
 mask

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 3248dbc..fea7f6d 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -344,8 +344,8 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
 			detail::vectorize([z = zero](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
-				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
+				res = detail::bit_andnot(detail::mask_eq<T>(a, z), detail::mask_eq<T>(z, z));
+				res = detail::bit_andnot(detail::mask_eq<T>(b, z), res);
 			}, result, a, b);
 			return result;
 		}
-- 
2.43.0


From edab5a3ab9414b4c7ee83ffc7e586d248c453d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 07/84] fix: constrain x86 none_of to x86 masks

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index fea7f6d..5e663ef 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -429,7 +429,7 @@ namespace dpm
 		}
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
-	template<typename T, std::size_t N, std::size_t A>
+	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
 	{
 		if (std::is_constant_evaluated())
-- 
2.43.0


From c55617b4aef02203e6c409361be8dc6e93fa5dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 08/84] fix: x86 mask index reductions ignore padding lanes

---
 dpm/detail/x86/type.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5e663ef..d4365b9 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -524,7 +524,8 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<mask_t>>();
 			for (std::size_t i = 0; i < ext::native_data_size_v<mask_t>; ++i)
 			{
-				const auto bits = detail::movemask<T>(detail::cmp_ne<T>(mask_data[i], zero));
+				const auto vm = detail::maskzero<T>(mask_data[i], mask_t::size() - i * sizeof(mask_data[i]) / sizeof(T));
+				const auto bits = detail::movemask<T>(detail::cmp_ne<T>(vm, zero));
 				if (bits) return std::countr_zero(bits) / detail::movemask_bits_v<T> + i * sizeof(mask_data[i]) / sizeof(T);
 			}
 			DPM_UNREACHABLE();
@@ -536,7 +537,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
@@ -549,7 +550,7 @@ namespace dpm
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
 				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				if (bits) return (std::min<std::size_t>(j * native_extent, mask_t::size()) - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From 9697a97bb2809f91b1c2ddebe92ed85b2ddd7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 09/84] fix: x86 constant-evaluated element access indexes
 within the native vector

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index d4365b9..87593e3 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -169,7 +169,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
@@ -693,7 +693,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
-- 
2.43.0


From c2219672f8cf0b7e6d8afe835350b03bec3e0f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/84] fix: emulated 64-bit arithmetic right shift carries
 bits between halves

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From 2d7688e6032da67eaa61fd8a369870bd98f60ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 11/84] fix: x86 operator>> shifts right and propagates the
 sign of signed elements

---
 dpm/detail/x86/type.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 87593e3..5f1505d 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1108,11 +1108,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1123,7 +1123,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
@@ -1153,11 +1153,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From 04bc699f13c617a7375b51ff1b6c9f0557e9ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 12/84] fix: constant-evaluated x86 constant shifts convert
 through a buffer of the same size

---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5f1505d..baf223b 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1303,8 +1303,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1319,8 +1319,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1336,8 +1336,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1352,8 +1352,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
-- 
2.43.0


From e7e2129395b17973eb31392f4c31eb833b11e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 13/84] fix: generic lsr accepts unsigned elements and always
 shifts in zeros

---
 dpm/detail/generic/type.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..3d1b6e5 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -623,22 +623,8 @@ namespace dpm
 			return reduce_impl(buff, binary_op);
 		}
 
-		template<std::size_t N, std::unsigned_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
-		}
-		template<std::size_t N, std::signed_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
-		}
+		template<std::size_t N, std::integral T>
+		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept { return static_cast<T>(static_cast<std::make_unsigned_t<T>>(x) >> N); }
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
 		{
-- 
2.43.0


From 6609afef467b603d130adaf84be64e95dd1c6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 14/84] fix: generic reduce reads every element of the lower
 half

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 3d1b6e5..389725d 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From cfb7b72e4f7439dbb4b45dd106d718e0d994aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 15/84] fix: x86 reduce falls back to the generic reduction for
 other operations

---
 dpm/detail/x86/type.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index baf223b..a4d5ad4 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1416,28 +1416,22 @@ namespace dpm
 			return detail::reduce_impl<size>(x, op);
 		else if constexpr (detail::template_instance<Op, std::plus>)
 			return detail::reduce_add<T, size>(x_data);
-		if constexpr (detail::template_instance<Op, std::multiplies>)
-		{
-			if constexpr (std::floating_point<T>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && std::floating_point<T>)
+			return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 4>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 8>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
-		}
-		if constexpr (std::integral<T>)
-		{
-			if constexpr (detail::template_instance<Op, std::bit_and>)
-				return detail::reduce_and<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_xor>)
-				return detail::reduce_xor<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_or>)
-				return detail::reduce_or<T, size>(x_data);
-		}
+		else if constexpr (detail::template_instance<Op, std::bit_and> && std::integral<T>)
+			return detail::reduce_and<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_xor> && std::integral<T>)
+			return detail::reduce_xor<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_or> && std::integral<T>)
+			return detail::reduce_or<T, size>(x_data);
 		else
 			return detail::reduce_impl<size>(x, op);
 	}
-- 
2.43.0


From 8294440953194645f680a454cd831c31252a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 16/84] fix: x86 horizontal min/max and 128-bit fallback of
 integral reductions

---
 dpm/detail/x86/type.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index a4d5ad4..9d2b6a7 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1389,19 +1389,19 @@ namespace dpm
 		/* On 256-bit integral reductions without AVX2, reduce via 128-bit instead. */
 #ifndef DPM_HAS_AVX2
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_add<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_add<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_mul<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_mul<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_min<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_min<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_max<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_max<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_and(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_and<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_and(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_and<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_xor(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_xor<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_xor(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_xor<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_or(const V *data) noexcept requires(sizeof(V) == 32) { return reduce_or<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_or(const V *data) noexcept requires(std::integral<T> && sizeof(V) == 32) { return reduce_or<T, N>(reinterpret_cast<const select_vector_t<T, 16> *>(data)); }
 #endif
 	}
 
@@ -1465,7 +1465,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1474,7 +1474,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1484,7 +1484,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1493,7 +1493,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1503,7 +1503,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1512,7 +1512,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1521,7 +1521,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1530,7 +1530,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1541,7 +1541,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1550,7 +1550,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From 855d48b5f631cae53eb77480a5e2501020128707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 17/84] fix: x86 shuffle result size and padding indices within
 the source

---
 dpm/detail/x86/transform.hpp | 2 +-
 dpm/detail/x86/type.hpp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..b9bafad 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -644,7 +644,7 @@ namespace dpm::detail
 			shuffle<T, J>(extract_sequence_t<next_pos, sizeof...(Is) - native_extent, Is...>{}, dst + 1, src);
 		}
 		else
-			shuffle<T, J>(pad_sequence_t<native_extent, 1, Is...>{}, dst, src);
+			shuffle<T, J>(pad_sequence_t<native_extent, 0, Is...>{}, dst, src);
 	}
 
 	template<typename T, std::size_t N, typename V, typename Op>
diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9d2b6a7..8a97864 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -217,7 +217,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -729,7 +729,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 589ad8dda10aa08dfd245c6fa87e051d44e5fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 18/84] fix: maskblend of 64-bit elements returns the
 unmodified argument

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index b9bafad..d865f88 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -207,7 +207,7 @@ namespace dpm::detail
 			return std::bit_cast<V>(_mm_or_pd(_mm_andnot_pd(vm, va), _mm_and_pd(vm, vb)));
 #endif
 		}
-		return va;
+		return a;
 	}
 
 	template<integral_of_size<1> T>
-- 
2.43.0


From 2b2cc2d9bbd9745753251dc7c6119fbcd846158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 19/84] fix: 256-bit maskblend without AVX2 replaces the whole
 upper half when n is in the lower half

---
 dpm/detail/x86/transform.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index d865f88..a97f205 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -593,14 +593,16 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 16 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 16) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 8 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 8) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From cb8e812363a1b28640cc0b619cf26985c37c6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 20/84] fix: AVX2 horizontal reductions of 8 and 16 bit
 elements

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index a97f205..bec8e8f 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -571,6 +571,11 @@ namespace dpm::detail
 		return _mm256_blendv_epi8(a, b, m);
 	}
 
+	template<std::integral T, typename Op>
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept requires(sizeof(T) <= 2)
+	{
+		return reduce<T>(op(_mm256_extracti128_si256(v, 0), _mm256_extracti128_si256(v, 1)), op);
+	}
 	template<integral_of_size<4> T, typename Op>
 	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept
 	{
-- 
2.43.0


From 1316f5518d37c1c230703f7e1987fe454ec23700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 21/84] fix: generic increment and decrement use a scalar of
 the element type

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 389725d..afb144d 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -710,10 +710,10 @@ namespace dpm
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + static_cast<T>(1); }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - static_cast<T>(1); }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From 36de2c9c736aa3f6aa5480c26ef01b62ad28530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 22/84] fix: generic abs returns a vector and accepts unsigned
 elements

---
 dpm/detail/generic/math.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..d188f4f 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -31,8 +31,13 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::abs(x[i]);
-		return result;
+		{
+			if constexpr (std::unsigned_integral<T>)
+				result[i] = x[i];
+			else
+				result[i] = static_cast<T>(std::abs(x[i]));
+		}
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From 7280fe16dc239adbdb9f151143cfce2d27ee9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 23/84] fix: generic fmin with a scalar does not index the
 scalar

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index d188f4f..551ea5a 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -205,7 +205,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-- 
2.43.0


From 1c49ce7caed082eabae5f9f33f9940cf079142b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 24/84] fix: generic sincos passes elements to the builtin

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 551ea5a..54ed778 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -667,7 +667,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -675,7 +675,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -683,7 +683,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From de0c6bb49ed9a83b1ae21b484af50ee1d7009e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 25/84] fix: generic rint and lrint keep results in buffers of
 the result type

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 54ed778..50b2334 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -909,7 +909,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
@@ -918,7 +918,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr rebind_simd_t<long, simd<T, Abi>> lrint(const simd<T, Abi> &x) noexcept
 	{
-		rebind_simd_t<long, simd<T, Abi>> result = {};
+		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::lrint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From 546498dec00da578071bb8a5804d35e7785c35b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 26/84] fix: x86 fmax and fmin test elements of the first
 operand for NaN

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..5b4d810 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From b0760f0fe2b54bf6c3733a61589312f6078723d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 27/84] fix: constant-evaluated x86 lerp

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 5b4d810..28dc18b 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From c876076066bb9eb184be80032fac7286a7a8af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 28/84] fix: fnmsub without FMA keeps the sign of zero results

---
 dpm/detail/x86/mbase.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 28dc18b..a4b7716 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -25,8 +25,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128 fnmsub_sse(__m128 a, __m128 b, __m128 c) noexcept
 		{
-			const auto zero = setzero<__m128>();
-			return _mm_sub_ps(zero, fmadd_sse(a, b, c));
+			return _mm_sub_ps(_mm_xor_ps(_mm_mul_ps(a, b), _mm_set1_ps(-0.0f)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 fmadd(__m128 a, __m128 b, __m128 c) noexcept
@@ -82,9 +81,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128d fnmsub_sse(__m128d a, __m128d b, __m128d c) noexcept
 		{
-			const auto tmp = _mm_undefined_pd();
-			const auto zero = _mm_xor_pd(tmp, tmp);
-			return _mm_sub_pd(zero, fmadd_sse(a, b, c));
+			return _mm_sub_pd(_mm_xor_pd(_mm_mul_pd(a, b), _mm_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d fmadd(__m128d a, __m128d b, __m128d c) noexcept
@@ -160,9 +157,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256 fnmsub_avx(__m256 a, __m256 b, __m256 c) noexcept
 		{
-			const auto tmp = _mm256_undefined_ps();
-			const auto zero = _mm256_xor_ps(tmp, tmp);
-			return _mm256_sub_ps(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_ps(_mm256_xor_ps(_mm256_mul_ps(a, b), _mm256_set1_ps(-0.0f)), c);
 		}
 
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fmadd_avx(__m256d a, __m256d b, __m256d c) noexcept
@@ -179,9 +174,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fnmsub_avx(__m256d a, __m256d b, __m256d c) noexcept
 		{
-			const auto tmp = _mm256_undefined_pd();
-			const auto zero = _mm256_xor_pd(tmp, tmp);
-			return _mm256_sub_pd(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_pd(_mm256_xor_pd(_mm256_mul_pd(a, b), _mm256_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 fmadd(__m256 a, __m256 b, __m256 c) noexcept
-- 
2.43.0


From 65cdc15e4ed106fc65ffdc1bce7e95727086af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 29/84] fix: 256-bit set of 64-bit integers keeps all bits

---
 dpm/detail/x86/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index c30c3b0..213318d 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -217,10 +217,10 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE V set(const T (&vals)[4]) noexcept
 	{
 		return _mm256_set_epi64x(
-				static_cast<std::int32_t>(vals[3]),
-				static_cast<std::int32_t>(vals[2]),
-				static_cast<std::int32_t>(vals[1]),
-				static_cast<std::int32_t>(vals[0])
+				static_cast<std::int64_t>(vals[3]),
+				static_cast<std::int64_t>(vals[2]),
+				static_cast<std::int64_t>(vals[1]),
+				static_cast<std::int64_t>(vals[0])
 		);
 	}
 
-- 
2.43.0


From 6142a54b29f8a493e50cbd3d0f4260d8f1ba1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 30/84] fix: 256-bit integral min and max without AVX2

---
 dpm/detail/x86/minmax.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..0c8d963 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -59,6 +59,33 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256d max(__m256d a, __m256d b) noexcept { return _mm256_max_pd(a, b); }
 #endif
 
+#if defined(DPM_HAS_AVX) && !defined(DPM_HAS_AVX2)
+	template<signed_integral_of_size<1> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<signed_integral_of_size<1> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<unsigned_integral_of_size<1> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<unsigned_integral_of_size<1> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<signed_integral_of_size<2> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<signed_integral_of_size<2> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<unsigned_integral_of_size<2> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<unsigned_integral_of_size<2> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<signed_integral_of_size<4> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<signed_integral_of_size<4> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<unsigned_integral_of_size<4> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<unsigned_integral_of_size<4> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+#endif
+
 #ifdef DPM_HAS_AVX2
 	template<signed_integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epi8(a, b); }
-- 
2.43.0


From d8a025debe907bde65824ff317e8af160c48064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 31/84] fix: x86 integral abs propagates the sign bit and
 leaves unsigned elements unchanged

---
 dpm/detail/x86/mbase.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index a4b7716..7e9ea0b 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -124,20 +124,25 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
-			return sub<T>(bit_xor(x, t), t);
+			if constexpr (std::unsigned_integral<T>)
+				return x;
+			else
+			{
+				const auto t = cmp_gt<T>(setzero<V>(), x);
+				return sub<T>(bit_xor(x, t), t);
+			}
 		}
 
 #ifdef DPM_HAS_SSSE3
-		template<integral_of_size<1> T>
+		template<signed_integral_of_size<1> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi8(x); }
-		template<integral_of_size<2> T>
+		template<signed_integral_of_size<2> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi16(x); }
-		template<integral_of_size<4> T>
+		template<signed_integral_of_size<4> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi32(x); }
 #endif
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-		template<integral_of_size<8> T>
+		template<signed_integral_of_size<8> T>
 		[[nodiscard]] DPM_FORCEINLINE __m128i abs(__m128i x) noexcept { return _mm_abs_epi64(x); }
 #endif
 #endif
@@ -252,15 +257,15 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d abs(__m256d x) noexcept { return _mm256_and_pd(x, _mm256_set1_pd(std::bit_cast<T>(0x7fff'ffff'ffff'ffff))); }
 
 #ifdef DPM_HAS_AVX2
-		template<integral_of_size<1> T>
+		template<signed_integral_of_size<1> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi8(x); }
-		template<integral_of_size<2> T>
+		template<signed_integral_of_size<2> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi16(x); }
-		template<integral_of_size<4> T>
+		template<signed_integral_of_size<4> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi32(x); }
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-		template<integral_of_size<8> T>
+		template<signed_integral_of_size<8> T>
 		[[nodiscard]] DPM_FORCEINLINE __m256i abs(__m256i x) noexcept { return _mm256_abs_epi64(x); }
 #endif
 #endif
-- 
2.43.0


From dd6f21c384143f800e92948ccfc423fd42ca9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 32/84] fix: vector shift-assignment operators shift in their
 own direction

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index afb144d..cdafc39 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -942,10 +942,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
-- 
2.43.0


From 7973b20698ed007be40d62de5394fef816e07a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 33/84] fix: x86 isnormal is false for NaN

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..36d9978 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpge_ps(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmpge_pd(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From 793c2eee5ea9636f540fe03d3c7ec69d02cf01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 34/84] fix: x86 islessgreater is false for equal elements

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 36d9978..44a6e25 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -263,7 +263,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 675ef8990ffaca9677cd9762b7124a78bcf16631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 35/84] fix: x86 signbit produces a complete mask

---
 dpm/detail/x86/class.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 44a6e25..d276457 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -177,7 +177,12 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { res = detail::masksign<T>(x); }, result, x);
+			detail::vectorize([]<typename V>(V &res, V x)
+			{
+				using int_t = std::conditional_t<sizeof(T) == 8, std::int64_t, std::int32_t>;
+				using ivec_t = detail::select_vector_t<int_t, sizeof(V)>;
+				res = std::bit_cast<V>(detail::cmp_gt<int_t>(detail::setzero<ivec_t>(), std::bit_cast<ivec_t>(x)));
+			}, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From c199a74cc0a67039c17d9cfb0ef7e4a28e847948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 36/84] fix: trunc_sse2 compares the lower half of 64-bit
 exponents

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..09e7643 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -147,7 +147,7 @@ namespace dpm::detail
 		auto small_e = _mm_cmpgt_epi32(_mm_set1_epi64x(12), e);
 #ifndef DPM_HAS_SSE3
 		const auto ie = std::bit_cast<__m128>(small_e);
-		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(3, 3, 1, 1)));
+		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(2, 2, 0, 0)));
 #else
 		small_e = std::bit_cast<__m128i>(_mm_moveldup_ps(std::bit_cast<__m128>(small_e)));
 #endif
-- 
2.43.0


From 5152d270e5a959879ab8f33c24aeee9f35dbf713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 37/84] fix: SSE2 rounding keeps signed zeros, large and
 non-finite elements and rounds halves away from zero

---
 dpm/detail/x86/round.hpp | 47 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..fd3a802 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -17,14 +17,13 @@ namespace dpm
 	namespace detail
 	{
 #ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 trunc_sse2(__m128 x) noexcept
 		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
-#else
-			return result;
-#endif
+			/* Elements with magnitude of at least 2^23 (as well as infinity and NaN) do not have a fraction. */
+			const auto abs_x = abs<float>(x);
+			const auto small = _mm_cmplt_ps(abs_x, _mm_set1_ps(8388608.0f));
+			const auto tx = bit_or(_mm_cvtepi32_ps(_mm_cvttps_epi32(abs_x)), masksign<float>(x));
+			return bit_or(bit_and(small, tx), bit_andnot(small, x));
 		}
 #endif
 
@@ -35,8 +34,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return bit_or(_mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))), masksign<float>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 floor(__m128 x) noexcept
@@ -46,8 +45,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return bit_or(_mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))), masksign<float>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
@@ -57,7 +56,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_trunc_ps(x);
 #else
-			return mask_domain(x, _mm_cvtepi32_ps(_mm_cvttps_epi32(x)));
+			return trunc_sse2(x);
 #endif
 		}
 
@@ -68,8 +67,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return bit_or(_mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))), masksign<double>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
@@ -79,8 +78,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return bit_or(_mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))), masksign<double>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
@@ -151,10 +150,10 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
+			const auto sign = masksign<float>(x);
+			const auto tx = trunc_sse2(x);
+			const auto away = _mm_cmpge_ps(abs<float>(_mm_sub_ps(x, tx)), _mm_set1_ps(0.5));
+			*dst = bit_or(_mm_add_ps(tx, bit_and(away, bit_or(sign, _mm_set1_ps(1.0)))), sign);
 #endif
 		}
 
@@ -242,10 +241,10 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
+			const auto sign = masksign<double>(x);
+			const auto tx = trunc_sse2(x);
+			const auto away = _mm_cmpge_pd(abs<double>(_mm_sub_pd(x, tx)), _mm_set1_pd(0.5));
+			*dst = bit_or(_mm_add_pd(tx, bit_and(away, bit_or(sign, _mm_set1_pd(1.0)))), sign);
 #endif
 		}
 
-- 
2.43.0


From 6716e1affd64dbef20f94165acd3563d64f2e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 38/84] fix: AVX round of float elements adds the rounding
 offset

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index fd3a802..5c92a63 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -346,7 +346,7 @@ namespace dpm
 		{
 			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
 			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 1453d360b2557b5546b0f0bd39352e992ff4153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 39/84] fix: SSE2 rint of double elements keeps large elements

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 5c92a63..fd1ff1d 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -264,7 +264,7 @@ namespace dpm
 
 			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
 			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
 
-- 
2.43.0


From 9251b705c92a47010be29b78aed3cd587bfa4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 40/84] fix: x86 conversions of vectors to integers handle
 every element and round halves away from zero

---
 dpm/detail/x86/round.hpp | 132 ++++++++++-----------------------------
 1 file changed, 33 insertions(+), 99 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index fd1ff1d..1dd9bad 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -109,14 +109,14 @@ namespace dpm
 #endif
 		}
 
+		template<std::same_as<float> T>
+		inline void round(__m128 x, __m128 *dst) noexcept;
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
 		{
-			const auto ix = _mm_cvttps_epi32(x);
-			const auto tx = _mm_cvtepi32_ps(ix);
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
+			__m128 rx;
+			round<float>(x, &rx);
+			*dst = _mm_cvttps_epi32(rx);
 		}
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
@@ -304,18 +304,14 @@ namespace dpm
 #endif
 		}
 
+		template<std::same_as<float> T>
+		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept;
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
 		{
-			const auto ix = _mm256_cvttps_epi32(x);
-			const auto tx = _mm256_cvtepi32_ps(ix);
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-#ifdef DPM_HAS_AVX2
-			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
-#else
-			*dst = mux_128x2<__m256i>([](auto i) { return _mm_add_epi32(i); }, _mm256_cvttps_epi32(rem));
-#endif
+			__m256 rx;
+			round<float>(x, &rx);
+			*dst = _mm256_cvttps_epi32(rx);
 		}
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
@@ -429,9 +425,6 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
-
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
 		template<typename T, typename V>
@@ -439,8 +432,6 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -528,47 +519,17 @@ namespace dpm
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long, N, A> lround(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long, N, A>>(lround(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		/* There is no vector conversion to 64-bit integers without AVX512. */
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long, N, A>>(lround(packed));
 	}
 	/** Casts elements of vector \a x to `long long` rounding away from zero. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long long, N, A> llround(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long long, N, A>>(llround(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		/* There is no vector conversion to 64-bit integers without AVX512. */
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long long, N, A>>(llround(packed));
 	}
 
 	/** Rounds elements of vector \a x to nearest integer using current rounding mode with exceptions. */
@@ -591,64 +552,35 @@ namespace dpm
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long, N, A> lrint(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long, N, A>>(lrint(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		/* There is no vector conversion to 64-bit integers without AVX512. */
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long, N, A>>(lrint(packed));
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long long, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<long long, N, A> llrint(const detail::x86_simd<T, N, A> &x) noexcept
 	{
-		if (std::is_constant_evaluated())
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-			return static_cast<detail::x86_simd<long long, N, A>>(llrint(packed));
-		}
-		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+		/* There is no vector conversion to 64-bit integers without AVX512. */
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+		return static_cast<detail::x86_simd<long long, N, A>>(llrint(packed));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
 	{
 		/** Casts elements of vector \a x to integer type \a I with truncation. */
-		template<std::integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
+		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
 		[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<I, N, A> itrunc(const detail::x86_simd<T, N, A> &x) noexcept
 		{
-			if (std::is_constant_evaluated())
+			/* Only conversions between 32-bit elements keep the layout of native vectors. */
+			if (sizeof(I) != 4 || sizeof(T) != 4 || std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 				return static_cast<detail::x86_simd<I, N, A>>(itrunc<I>(packed));
 			}
-			else
+			else if constexpr (sizeof(I) == 4 && sizeof(T) == 4)
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
+				detail::vectorize([](auto &res, auto x) { detail::itrunc<I>(x, &res); }, result, x);
 				return result;
 			}
 		}
@@ -656,12 +588,13 @@ namespace dpm
 		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
 		[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<I, N, A> iround(const detail::x86_simd<T, N, A> &x) noexcept
 		{
-			if (std::is_constant_evaluated())
+			/* Only conversions between 32-bit elements keep the layout of native vectors. */
+			if (sizeof(I) != 4 || sizeof(T) != 4 || std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 				return static_cast<detail::x86_simd<I, N, A>>(iround<I>(packed));
 			}
-			else
+			else if constexpr (sizeof(I) == 4 && sizeof(T) == 4)
 			{
 				detail::x86_simd <I, N, A> result = {};
 				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
@@ -672,12 +605,13 @@ namespace dpm
 		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
 		[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<I, N, A> irint(const detail::x86_simd<T, N, A> &x) noexcept
 		{
-			if (std::is_constant_evaluated())
+			/* Only conversions between 32-bit elements keep the layout of native vectors. */
+			if (sizeof(I) != 4 || sizeof(T) != 4 || std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 				return static_cast<detail::x86_simd<I, N, A>>(irint<I>(packed));
 			}
-			else
+			else if constexpr (sizeof(I) == 4 && sizeof(T) == 4)
 			{
 				detail::x86_simd <I, N, A> result = {};
 				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
-- 
2.43.0


From 0a37d373101874ef380988d986d793e2bac2b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 41/84] fix: AVX2 movemask of 8 and 16 bit elements is not
 sign-extended

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 213318d..1ad30c2 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -248,7 +248,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::size_t>(static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x))));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From 1c540db5aed359e6e9c1cd1b6f6b64ca838ec32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 42/84] fix: generic simd_mask operator~ negates elements

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index cdafc39..bfb3cab 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From d350b5fc2fbd276ebd902cecaa22ee68a16d70d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 43/84] fix: generic minmax does not refer to destroyed
 temporaries

---
 dpm/detail/generic/type.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index bfb3cab..b495e5f 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1186,7 +1186,8 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
+			const T x = a[i], y = b[i];
+			const auto [min, max] = std::minmax(x, y);
 			result[0][i] = min;
 			result[1][i] = max;
 		}
@@ -1199,7 +1200,8 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b);
+			const T x = a[i];
+			const auto [min, max] = std::minmax(x, b);
 			result[0][i] = min;
 			result[1][i] = max;
 		}
-- 
2.43.0


From 14d0254675fdef07b0f75d1bd57789c5109aca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 44/84] fix: headers compile without inline extensions

---
 dpm/detail/generic/abi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index f2985b4..0232323 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -101,7 +101,7 @@ namespace dpm
 			struct common_impl : common_impl<tag_sequence<>, Ts...> {};
 
 			template<std::size_t... Ns, std::size_t... As>
-			struct common_impl<tag_sequence<aligned_vector<Ns, As>...>> { using type = aligned_vector<std::max({Ns...}), std::max({As...})>; };
+			struct common_impl<tag_sequence<ext::aligned_vector<Ns, As>...>> { using type = ext::aligned_vector<std::max({Ns...}), std::max({As...})>; };
 
 			template<typename... Ts, typename U, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, U, Us...> : common_impl<tag_sequence<U, Ts...>, Us...> {};
-- 
2.43.0


From e786e1c8542b1c21d7f51c70a3a603293ef7cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:41 +0000
Subject: [PATCH 45/84] fix: remquo with a quotient taken by reference can be
 called

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 50b2334..d19aebf 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -281,8 +281,8 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi>
-		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, rebind_simd_t<int, simd<T, Abi>> &quo) noexcept { return dpm::remquo(a, b, &quo); }
+		template<typename T, typename Abi, typename QAbi>
+		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, Abi> fmadd(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &c) noexcept { return a * b + c; }
-- 
2.43.0


From 0065840ba6feac3fe2491d69d36fc78253c9e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 46/84] fix: x86 fmax and fmin select the first operand when
 the second is NaN

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 7e9ea0b..be8d1dd 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -306,7 +306,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), a, detail::isunord(b, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -324,7 +324,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), a, detail::isunord(b, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -360,7 +360,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), a, detail::isunord(b, b)); }, result, a);
 			return result;
 		}
 	}
@@ -378,7 +378,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), a, detail::isunord(b, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From d123474809b67457e44aea75c9c30f9ba2e250ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 47/84] fix: SSE4.1 conversion of 64-bit integers to double
 uses the high half

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 09e7643..58f0985 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -87,7 +87,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From fa9e2adce6dcba760030febc5754394d71b62ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 48/84] fix: x86 modf selects the integral part of every class
 of inputs

---
 dpm/detail/x86/modf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..963c3d4 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -39,10 +39,10 @@ namespace dpm::detail
 		const auto x1 = bit_and(x, fill<V>(sign_bit<T>));   /* x1 = x & -0.0 */
 		const auto x2 = bit_andnot(mask, x);                /* x2 = x & ~mask */
 
-		/* i = e < 0 ? x : x & -0.0 */
-		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = e >= mant_bits || !(ix & mask) ? x : x2 */
+		auto i = blendv<T>(x2, x, bit_or(mask_zero, int_mask));
+		/* i = e < 0 ? x & -0.0 : i */
+		i = blendv<T>(i, fract_ip, fract_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From cad5af3b53e7df5b278a751fa6337e2ff12345b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 49/84] fix: x86 frexp exponent of subnormal values

---
 dpm/detail/x86/frexp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/frexp.cpp b/dpm/detail/x86/frexp.cpp
index 6b9be4c..26daf16 100644
--- a/dpm/detail/x86/frexp.cpp
+++ b/dpm/detail/x86/frexp.cpp
@@ -20,7 +20,7 @@ namespace dpm::detail
 		const auto is_zero = cmp_eq<T>(x, setzero<V>());
 
 		/* off = is_subn ? mant_bits + 2 : 0 */
-		const auto off = bit_and(is_subn, fill<Vi>(std::numeric_limits<I>::digits));
+		const auto off = bit_and(is_subn, fill<Vi>(mant_bits<I> + 2));
 		auto norm_x = mul<T>(bit_and(std::bit_cast<V>(is_subn), x), fill<V>(exp_mult<T>));
 		norm_x = blendv<T>(x, norm_x, std::bit_cast<V>(is_subn));
 		auto norm_exp = bit_and(std::bit_cast<Vi>(norm_x), fill<Vi>(exp_ones));
-- 
2.43.0


From 42df6148172d41edc2360ebf9e486f7290d2031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 50/84] fix: x86 scalbn overflow of the exponent sum

---
 dpm/detail/x86/scalbn.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/scalbn.cpp b/dpm/detail/x86/scalbn.cpp
index eaec43e..b7fbbb2 100644
--- a/dpm/detail/x86/scalbn.cpp
+++ b/dpm/detail/x86/scalbn.cpp
@@ -36,8 +36,13 @@ namespace dpm::detail
 		norm_exp = add<I>(norm_exp, n);
 
 #ifdef DPM_HANDLE_ERRORS
-		const auto has_overflow = bit_andnot(fwd_mask, bit_or(cmp_gt_l32<I>(n, fill<Vi>(max_scalbn<I>)), cmp_gt_l32<I>(norm_exp, fill<Vi>(exp_mask<I> - 1))));
-		const auto has_underflow = bit_andnot(fwd_mask, bit_or(cmp_gt_l32<I>(fill<Vi>(-max_scalbn<I>), n), cmp_gt_l32<I>(fill<Vi>(-mant_bits<I> - 1), norm_exp)));
+		/* norm_exp + n may wrap around, in which case only the sign of n matters. */
+		const auto large_n = cmp_gt_l32<I>(n, fill<Vi>(max_scalbn<I>));
+		const auto small_n = cmp_gt_l32<I>(fill<Vi>(-max_scalbn<I>), n);
+		const auto large_exp = bit_andnot(small_n, cmp_gt_l32<I>(norm_exp, fill<Vi>(exp_mask<I> - 1)));
+		const auto small_exp = bit_andnot(large_n, cmp_gt_l32<I>(fill<Vi>(-mant_bits<I> - 1), norm_exp));
+		const auto has_overflow = bit_andnot(fwd_mask, bit_or(large_n, large_exp));
+		const auto has_underflow = bit_andnot(fwd_mask, bit_or(small_n, small_exp));
 #endif
 
 		/* Handle subnormal result for norm_exp <= 0. */
-- 
2.43.0


From f105d906e1a6e9452d2f177bff51b178f21f383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 51/84] fix: x86 scalbn and scalbln match every element with
 its own exponent

---
 dpm/detail/x86/fmanip.hpp | 45 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..2ba3b86 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -62,13 +62,23 @@ namespace dpm
 			return scalbn(x, exp64);
 		}
 
+		/* Saturate 64-bit exponents to the range of 32-bit integers (result is sign-extended to 64 bits). */
+		[[nodiscard]] DPM_FORCEINLINE __m128i saturate_exp64(__m128i exp) noexcept
+		{
+			const auto sign = _mm_srai_epi32(_mm_shuffle_epi32(exp, _MM_SHUFFLE(3, 3, 1, 1)), 31);
+			const auto top = _mm_srai_epi32(_mm_shuffle_epi32(exp, _MM_SHUFFLE(2, 2, 0, 0)), 31);
+			const auto in_range = _mm_cmpeq_epi32(_mm_shuffle_epi32(exp, _MM_SHUFFLE(3, 3, 1, 1)), top);
+			const auto limit = _mm_xor_si128(sign, _mm_set1_epi64x(std::numeric_limits<std::int32_t>::max()));
+			return _mm_or_si128(_mm_and_si128(in_range, exp), _mm_andnot_si128(in_range, limit));
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + 1]);
-			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
+			const auto exph = std::bit_cast<__m128>(saturate_exp64(exp[i * 2 + 1]));
+			const auto expl = std::bit_cast<__m128>(saturate_exp64(exp[i * 2]));
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
+		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, saturate_exp64(exp[i])); }
 
 		[[nodiscard]] vec2_return_t<__m128, __m128> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x4(__m128 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m128d, __m128d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x2(__m128d x) noexcept;
@@ -128,36 +138,25 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
-			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
-			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
-			return _mm256_set_m128d(h, l);
+			const auto exp32 = exp[i];
+			const auto sign = _mm_srai_epi32(exp32, 31);
+			return scalbn(x, _mm256_set_m128i(_mm_unpackhi_epi32(exp32, sign), _mm_unpacklo_epi32(exp32, sign)));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
-#ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
-#else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
-#endif
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
+		[[nodiscard]] DPM_FORCEINLINE __m256i saturate_exp64(__m256i exp) noexcept { return mux_128x2<__m256i>([](auto e) { return saturate_exp64(e); }, exp); }
+
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, cvt_i64_i32(saturate_exp64(exp[i]))); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
+			const auto exph = cvt_i64_i32(saturate_exp64(exp[i * 2 + 1]));
+			const auto expl = cvt_i64_i32(saturate_exp64(exp[i * 2]));
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
+		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, saturate_exp64(exp[i])); }
 
 		[[nodiscard]] vec2_return_t<__m256, __m256> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x8(__m256 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m256d, __m256d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x4(__m256d x) noexcept;
-- 
2.43.0


From 7156a4163c6f6cba2d429546bad947ad661d33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 52/84] fix: x86 scalbln with a scalar exponent does not
 truncate it

---
 dpm/detail/x86/fmanip.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 2ba3b86..512390a 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -366,6 +366,10 @@ namespace dpm
 			using exp_t = int_of_size_t<sizeof(T)>;
 			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
 
+			/* Saturate exp to the range of 32-bit integers, which is enough to overflow or underflow any value. */
+			exp = static_cast<long>(std::max<std::int64_t>(exp, std::numeric_limits<std::int32_t>::min()));
+			exp = static_cast<long>(std::min<std::int64_t>(exp, std::numeric_limits<std::int32_t>::max()));
+
 			detail::x86_simd <T, N, A> result = {};
 			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(exp))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
 			return result;
-- 
2.43.0


From 44f0ce623ae9b28c8146f1b678835754c7ddb88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 53/84] fix: constant-evaluated x86 copysign uses the sign
 operand

---
 dpm/detail/x86/fmanip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 512390a..0a7cd21 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -402,7 +402,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(sign);
 			const auto packed_x = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 			return static_cast<detail::x86_simd<T, N, A>>(copysign(packed_x, packed_sign));
 		}
-- 
2.43.0


From bea719e995ec63277a2d576223675d10c070256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 54/84] fix: SSE2 ceil and floor keep the sign of zero under
 any rounding mode

---
 dpm/detail/x86/round.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 1dd9bad..c790cfd 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -35,7 +35,7 @@ namespace dpm
 			return _mm_svml_ceil_ps(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return bit_or(_mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))), masksign<float>(x));
+			return copysign<float>(_mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))), masksign<float>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 floor(__m128 x) noexcept
@@ -46,7 +46,7 @@ namespace dpm
 			return _mm_svml_floor_ps(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return bit_or(_mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))), masksign<float>(x));
+			return copysign<float>(_mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))), masksign<float>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
@@ -68,7 +68,7 @@ namespace dpm
 			return _mm_svml_ceil_pd(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return bit_or(_mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))), masksign<double>(x));
+			return copysign<double>(_mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))), masksign<double>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
@@ -79,7 +79,7 @@ namespace dpm
 			return _mm_svml_floor_pd(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return bit_or(_mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))), masksign<double>(x));
+			return copysign<double>(_mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))), masksign<double>(x));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
-- 
2.43.0


From 1ee9b83f153e195ce44a5fb4bd2301d793e9994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 55/84] fix: SSE2 rint and nearbyint respect the current
 rounding mode

---
 dpm/detail/x86/round.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index c790cfd..9e608a7 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -179,11 +179,13 @@ namespace dpm
 			*dst = _mm_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0));
-			const auto x_offset = _mm_set1_ps(8388608.0);
+			const auto abs_offset = _mm_set1_ps(8388608.0);
 			const auto abs_x = _mm_xor_ps(x, sign_x);
 
-			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
+			/* Offset must have the sign of x in order for directed rounding modes to round in the right direction. */
+			const auto x_offset = _mm_or_ps(abs_offset, sign_x);
+			const auto tmp_mask = _mm_cmpnlt_ps(abs_x, abs_offset);
+			const auto tmp = _mm_or_ps(_mm_andnot_ps(_mm_set1_ps(-0.0), _mm_sub_ps(_mm_add_ps(x, x_offset), x_offset)), sign_x);
 			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
@@ -259,11 +261,13 @@ namespace dpm
 			*dst = _mm_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_pd(x, _mm_set1_pd(-0.0));
-			const auto x_offset = _mm_set1_pd(4503599627370496.0);
+			const auto abs_offset = _mm_set1_pd(4503599627370496.0);
 			const auto abs_x = _mm_xor_pd(x, sign_x);
 
-			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
-			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
+			/* Offset must have the sign of x in order for directed rounding modes to round in the right direction. */
+			const auto x_offset = _mm_or_pd(abs_offset, sign_x);
+			const auto tmp_mask = _mm_cmpnlt_pd(abs_x, abs_offset);
+			const auto tmp = _mm_or_pd(_mm_andnot_pd(_mm_set1_pd(-0.0), _mm_sub_pd(_mm_add_pd(x, x_offset), x_offset)), sign_x);
 			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
-- 
2.43.0


From 6e98cbb72c164f30095b218ec7856edbfacd62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 56/84] fix: x86 round does not depend on the current rounding
 mode

---
 dpm/detail/x86/round.hpp | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 9e608a7..3a88864 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -27,6 +27,17 @@ namespace dpm
 		}
 #endif
 
+		/* Every operation is exact, as such halfway cases are rounded away from zero under any rounding mode. */
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V round_truncated(V x, V tx) noexcept
+		{
+			const auto sign = masksign<T>(x);
+			const auto small = cmp_lt<T>(abs<T>(x), fill<V>(one<T> / std::numeric_limits<T>::epsilon()));
+			const auto fract = sub<T>(bit_and(small, x), bit_and(small, tx));
+			const auto away = cmp_ge<T>(abs<T>(fract), fill<V>(half<T>));
+			return copysign<T>(add<T>(tx, bit_and(away, bit_or(sign, fill<V>(one<T>)))), sign);
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128 ceil(__m128 x) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
@@ -144,16 +155,11 @@ namespace dpm
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
-			*dst = _mm_round_ps(_mm_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = round_truncated<float>(x, trunc(x));
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			const auto sign = masksign<float>(x);
-			const auto tx = trunc_sse2(x);
-			const auto away = _mm_cmpge_ps(abs<float>(_mm_sub_ps(x, tx)), _mm_set1_ps(0.5));
-			*dst = bit_or(_mm_add_ps(tx, bit_and(away, bit_or(sign, _mm_set1_ps(1.0)))), sign);
+			*dst = round_truncated<float>(x, trunc_sse2(x));
 #endif
 		}
 
@@ -237,16 +243,11 @@ namespace dpm
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm_round_pd(_mm_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = round_truncated<double>(x, trunc(x));
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto sign = masksign<double>(x);
-			const auto tx = trunc_sse2(x);
-			const auto away = _mm_cmpge_pd(abs<double>(_mm_sub_pd(x, tx)), _mm_set1_pd(0.5));
-			*dst = bit_or(_mm_add_pd(tx, bit_and(away, bit_or(sign, _mm_set1_pd(1.0)))), sign);
+			*dst = round_truncated<double>(x, trunc_sse2(x));
 #endif
 		}
 
@@ -344,9 +345,7 @@ namespace dpm
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = round_truncated<float>(x, trunc(x));
 		}
 
 		template<integral_of_size<4> T>
@@ -407,9 +406,7 @@ namespace dpm
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256d>(_mm256_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = round_truncated<double>(x, trunc(x));
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From b42a222f6005d8de9ca73b8053cb914e88ac1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 57/84] fix: x86 reduce_min and reduce_max of infinities

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 8a97864..6df9822 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1373,9 +1373,9 @@ namespace dpm
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest())), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 5e6b26cd0a78fb0436360d8c8b3e1ad01459df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 58/84] fix: x86 reduce keeps the sign of a negative zero sum

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6df9822..f6f740b 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1369,7 +1369,7 @@ namespace dpm
 	namespace detail
 	{
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept { return reduce<T, N>(data, setzero<V>(), [](auto a, auto b) { return add<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(-0.0f)), [](auto a, auto b) { return add<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 7f42160daf111ec544d6cc757230f18e3a5b9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 59/84] fix: sincos returns the cosine through std::pair
 instead of a clobbered register

---
 dpm/detail/x86/math_fwd.hpp | 47 -------------------------------------
 1 file changed, 47 deletions(-)

diff --git a/dpm/detail/x86/math_fwd.hpp b/dpm/detail/x86/math_fwd.hpp
index 43b75da..41d7ce6 100644
--- a/dpm/detail/x86/math_fwd.hpp
+++ b/dpm/detail/x86/math_fwd.hpp
@@ -9,52 +9,6 @@
 
 namespace dpm::detail
 {
-	/* On GNU-compatible systems return 2 registers at once. */
-#ifdef __GNUC__
-	template<typename T0, typename T1>
-	using vec2_return_t = T0;
-
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 16)
-	{
-		/* Avoid discarding y */
-#ifdef DPM_HAS_AVX
-		__asm__ ("vmovaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#else
-		__asm__ ("movaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#endif
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 16)
-	{
-		x = f(x);
-		/* Read second variable from xmm1 */
-#ifdef DPM_HAS_AVX
-		__asm__ volatile ("vmovaps %%xmm1, %[out]" : [out] "=xm"(out));
-#else
-		__asm__ volatile ("movaps %%xmm1, %[out]" : [out] "=xm"(out));
-#endif
-		return x;
-	}
-#ifdef DPM_HAS_AVX
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 32)
-	{
-		/* Avoid discarding y */
-		__asm__ ("vmovaps %[y], %%ymm1" : : [y] "x"(y) : "ymm1");
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 32)
-	{
-		x = f(x);
-		/* Read second variable from ymm1 */
-		__asm__ volatile ("vmovaps %%ymm1, %[out]" : [out] "=xm"(out));
-		return x;
-	}
-#endif
-#else
 	template<typename T0, typename T1>
 	using vec2_return_t = std::pair<T0, T1>;
 
@@ -67,5 +21,4 @@ namespace dpm::detail
 		out = res.second;
 		return res.first;
 	}
-#endif
 }
\ No newline at end of file
-- 
2.43.0


From 57f9159694d37cda407f0573338b6ba1492f2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 60/84] fix: tan polynomial evaluates its coefficients in
 descending order

---
 dpm/detail/fconst.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..86fa71f 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,12 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {
+			T{1.4558343870513183e-3}, T{3.5921280365724810e-3},
+			T{8.8632355299021966e-3}, T{2.1869488536155203e-2},
+			T{5.3968253968253968e-2}, T{1.3333333333333333e-1},
+			T{3.3333333333333333e-1}, T{1.0}
+	};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From 6763a24c053c220ab21ace4e4c593bfb38866e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 61/84] fix: sin, cos and tan reduce their argument with enough
 precision

---
 dpm/detail/fconst.hpp     | 11 ++++++++++-
 dpm/detail/x86/sincos.cpp |  4 ++--
 dpm/detail/x86/tan.cpp    |  2 +-
 dpm/detail/x86/trig.hpp   |  1 +
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 86fa71f..e612089 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -77,7 +77,16 @@ namespace dpm::detail
 	static constexpr T max_scalbn = 50000;
 
 	template<std::floating_point T>
-	static constexpr T dp_sincos[] = {T{-7.85398125648498535156e-1}, T{-3.77489470793079817668e-8}, T{-2.69515142907905952645e-15}};
+	static constexpr T dp_sincos[] = {
+			/* -Pi / 4 split so that products of all but the last part with the octant index are exact below sincos_max */
+			std::same_as<T, float> ? T{-0x1.92p-1} : T{-0x1.921fb4p-1},
+			std::same_as<T, float> ? T{-0x1.fb4p-13} : T{-0x1.4442dp-25},
+			std::same_as<T, float> ? T{-0x1.444p-25} : T{-0x1.8469880000000p-49},
+			std::same_as<T, float> ? T{-0x1.68c234p-40} : static_cast<T>(-0x1.8cc51701b839ap-73)
+	};
+	/* Arguments above this limit can not be reduced accurately using dp_sincos. */
+	template<std::floating_point T>
+	static constexpr T sincos_max = std::same_as<T, float> ? T{0x1p12} : T{0x1p27};
 
 	template<std::floating_point T>
 	static constexpr T sincof[] = {
diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..f35fd64 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -24,8 +24,8 @@ namespace dpm::detail
 			[[unlikely]] abs_x = except_invalid<T>(abs_x, abs_x, m);
 #endif
 
-		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		/* Check for arguments outside of the reduction range. */
+		const auto oflow_mask = cmp_gt<T>(abs_x, fill<V>(sincos_max<T>));
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..faefe36 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,7 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		if (const auto m = movemask<I>(cmp_gt<T>(abs_x, fill<V>(sincos_max<T>))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
diff --git a/dpm/detail/x86/trig.hpp b/dpm/detail/x86/trig.hpp
index 5a25a82..7f24754 100644
--- a/dpm/detail/x86/trig.hpp
+++ b/dpm/detail/x86/trig.hpp
@@ -52,6 +52,7 @@ namespace dpm
 			auto z = fmadd(y, fill<V>(dp_sincos<T>[0]), abs_x);
 			z = fmadd(y, fill<V>(dp_sincos<T>[1]), z);
 			z = fmadd(y, fill<V>(dp_sincos<T>[2]), z);
+			z = fmadd(y, fill<V>(dp_sincos<T>[3]), z);
 			const auto zz = mul<T>(z, z);
 
 			/* 0 <= a <= Pi/4 : sincof(zz) * zz * z + z */
-- 
2.43.0


From 24adc9467bc1a8d13d0ef7302ce71a833254c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 62/84] fix: log2 of double uses the table offset its table was
 made for

---
 dpm/detail/x86/log2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log2.cpp b/dpm/detail/x86/log2.cpp
index dc71893..3d6e65e 100644
--- a/dpm/detail/x86/log2.cpp
+++ b/dpm/detail/x86/log2.cpp
@@ -48,7 +48,7 @@ namespace dpm::detail
 		auto ix = log_normalize<T>(x);
 
 		/* Load invc & logc constants from the lookup table. */
-		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'9009'0000'0000));
+		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'0000'0000'0000));
 		auto i = bit_shiftr<I, 52 - log2tab_bits_f64>(tmp);
 		i = bit_and(i, fill<Vi>((1 << log2tab_bits_f64) - 1));
 		const auto [invc, logc] = log_get_table<V>(i, log2tab_v<T>, DPM_SOURCE_LOC_CURRENT);
-- 
2.43.0


From d6b1d2b1ea4764f50b90d0185a8ab22ffa5d1cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 63/84] fix: log10 scales subnormal arguments

---
 dpm/detail/x86/log10.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..b15a9b3 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25)));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
@@ -49,7 +49,7 @@ namespace dpm::detail
 		auto k = setzero<Vi>();
 
 		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt_l32<I>(fill<Vi>(0x10ull), top16);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 8200758ef837ad2098c05826a64c0be664408ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 64/84] fix: logarithms of zero are negative infinity

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..cfc56bc 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From 3d0390a9bf717cba40588a7c8e0cdc54e57b2a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 65/84] fix: logarithms normalize subnormal arguments

---
 dpm/detail/x86/exp.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index cfc56bc..fa9725e 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,10 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
-			constexpr std::int32_t sub_off = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal, zero or negative. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(0x80'0000), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +106,11 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
-			constexpr std::int32_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal or zero. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(0x10ull), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From 79583c50149c05f99644bf6e323bef6a68e65501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 66/84] fix: log1p applies its correction term to every
 argument and keeps signed zeroes

---
 dpm/detail/x86/log1p.cpp | 42 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..9e10292 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -47,58 +47,36 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
-		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
-
-		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
-		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
+		/* c = x < 1 ? x - (u - 1) : 1 - (u - x) */
+		const auto c_mask = cmp_lt<T>(x, fill<V>(1.0f));
 		const auto c0 = sub<T>(fill<V>(1.0f), sub<T>(u, x));
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
-		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
-
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
-		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
+		const auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
 		/* log1p(x) ~= log(u) + c / u */
 		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
-		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
-
-		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
-		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
+		/* c = x < 1 ? x - (u - 1) : 1 - (u - x) */
+		const auto c_mask = cmp_lt<T>(x, fill<V>(1.0));
 		const auto c0 = sub<T>(fill<V>(1.0), sub<T>(u, x));
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
-		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
-
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
-		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
+		const auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
 		/* log1p(x) ~= log(u) + c / u */
 		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
-- 
2.43.0


From 54d8e937b019a084edf4708e9bee426edc676895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 67/84] fix: hypot of two tiny doubles does not add them

---
 dpm/detail/x86/hypot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..ad207dd 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -101,7 +101,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(std::bit_cast<V>(cmp_eq<T>(b, setzero<V>())), ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
-- 
2.43.0


From be75cca74ce60b946fddd4b8762808dcdcef2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 68/84] fix: common_t of scalar tags is scalar

---
 dpm/detail/generic/abi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index 0232323..d3046aa 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -108,8 +108,8 @@ namespace dpm
 			template<typename... Ts, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, scalar, Us...> : common_impl<tag_sequence<Ts...>, Us...> {};
 
-			template<std::same_as<scalar>... Ts>
-			struct common_impl<tag_sequence<>, Ts...> { using type = scalar; };
+			template<>
+			struct common_impl<tag_sequence<>> { using type = scalar; };
 		}
 
 		DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From 4eeb87282832962bb65efbf1aa95d7dbb5be0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 69/84] fix: compatible and native of types without an
 architecture-specific backend are scalar

---
 dpm/detail/generic/abi.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index d3046aa..44b0d54 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -18,6 +18,15 @@ namespace dpm
 			constexpr static std::size_t size = 1;
 		};
 
+		namespace detail
+		{
+			/* Types without an architecture-specific backend use scalar vectors. */
+			template<typename T>
+			struct select_compatible { using type = scalar; };
+			template<typename T>
+			struct select_native { using type = scalar; };
+		}
+
 		/** @brief ABI tag used to select an implementation-defined SIMD vector type guaranteeing ABI compatibility between
 		 * translation units built for the current target architecture. */
 		template<typename T>
-- 
2.43.0


From f4d5579cceb0ca514cfcfce4a3a5a851a60c2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 70/84] fix: minmax keeps both result buffers aligned

---
 dpm/detail/generic/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index b495e5f..65d025b 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1183,29 +1183,29 @@ namespace dpm
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
 			const T x = a[i], y = b[i];
 			const auto [min, max] = std::minmax(x, y);
-			result[0][i] = min;
-			result[1][i] = max;
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 	/** Returns a pair of SIMD vectors of minimum and maximum elements of \a a and scalar \a b. */
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, T b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
 			const T x = a[i];
 			const auto [min, max] = std::minmax(x, b);
-			result[0][i] = min;
-			result[1][i] = max;
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 
 	/** Clamps elements of \a x between corresponding elements of \a min and \a max. */
-- 
2.43.0


From 7c2c03c7ca4cbec3aa06d2e827a4f98dc512a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:20 +0000
Subject: [PATCH 71/84] fix: x86 vectors and their integer operators can be
 used in constant expressions

---
 dpm/detail/x86/type.hpp | 237 ++++++++++++++++++++++++----------------
 1 file changed, 142 insertions(+), 95 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index f6f740b..40d4b24 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -136,8 +136,22 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+			{
+				/* Elements of native vectors can not be referenced in a constant expression. */
+				for (std::size_t i = 0, j = 0; i < size(); i += native_extent, ++j)
+				{
+					std::array<value_alias, native_extent> buff = {};
+					for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
+						buff[k] = static_cast<value_type>(mem[i + k]);
+					_data[j] = detail::native_bit_cast<native_type>(buff);
+				}
+			}
+			else
+			{
+				for (std::size_t i = 0; i < size(); ++i)
+					operator[](i) = static_cast<value_type>(mem[i]);
+			}
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -151,8 +165,22 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+			{
+				/* Elements of native vectors can not be referenced in a constant expression. */
+				for (std::size_t i = 0, j = 0; i < size(); i += native_extent, ++j)
+				{
+					auto buff = detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[j]);
+					for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
+						if (m[i + k]) buff[k] = static_cast<value_type>(mem[i + k]);
+					_data[j] = detail::native_bit_cast<native_type>(buff);
+				}
+			}
+			else
+			{
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			}
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -647,13 +675,24 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_copyable<U, T>)
-				if (!std::is_constant_evaluated())
+			if (std::is_constant_evaluated())
+			{
+				/* Elements of native vectors can not be referenced in a constant expression. */
+				for (std::size_t j = 0; i < size(); i += native_extent, ++j)
 				{
-					const auto src = std::to_address(mem);
-					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
-						detail::native_vec_cast<T, U>(_data[j], src + i);
+					std::array<value_type, native_extent> buff = {};
+					for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
+						buff[k] = static_cast<T>(mem[i + k]);
+					_data[j] = detail::native_bit_cast<native_type>(buff);
 				}
+				return;
+			}
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && detail::native_copyable<U, T>)
+			{
+				const auto src = std::to_address(mem);
+				for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
+					detail::native_vec_cast<T, U>(_data[j], src + i);
+			}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
@@ -675,8 +714,22 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+			{
+				/* Elements of native vectors can not be referenced in a constant expression. */
+				for (std::size_t i = 0, j = 0; i < size(); i += native_extent, ++j)
+				{
+					auto buff = detail::native_bit_cast<std::array<value_type, native_extent>>(_data[j]);
+					for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
+						if (m[i + k]) buff[k] = static_cast<value_type>(mem[i + k]);
+					_data[j] = detail::native_bit_cast<native_type>(buff);
+				}
+			}
+			else
+			{
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			}
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -926,45 +979,43 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		if constexpr(sizeof(T) == 2 || sizeof(T) == 4)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		if constexpr(sizeof(T) == 2)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, T b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		if constexpr(sizeof(T) == 2 || sizeof(T) == 4)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		if constexpr(sizeof(T) == 2)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed * b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
+				detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed * b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
@@ -1086,90 +1137,86 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(sizeof(T) == 4 || sizeof(T) == 8)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(sizeof(T) == 4 || sizeof(T) == 8)
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed << n);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed << n);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && sizeof(T) == 8)
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
-		}
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
 	}
 
 	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
-- 
2.43.0


From 413774db3c76477b15194f022ad66bf645065f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 72/84] fix: generic shuffle can be used in constant
 expressions

---
 dpm/detail/generic/type.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 65d025b..a4f3a82 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -120,19 +120,19 @@ namespace dpm
 			}
 		}
 
-		template<std::size_t J, std::size_t I, std::size_t... Is, typename T, typename FromAbi, typename ToAbi>
+		template<std::size_t... Is, typename T, typename FromAbi, typename ToAbi>
 		constexpr DPM_FORCEINLINE void shuffle_impl(const simd_mask<T, FromAbi> &from, simd_mask<T, ToAbi> &to) noexcept
 		{
-			static_assert(J < simd_mask<T, ToAbi>::size() && I < simd_mask<T, FromAbi>::size());
-			if constexpr (sizeof...(Is) != 0) shuffle_impl<J + 1, Is...>(from, to);
-			to[J] = from[I];
+			static_assert(sizeof...(Is) == simd_mask<T, ToAbi>::size() && ((Is < simd_mask<T, FromAbi>::size()) && ...));
+			alignas(simd_mask<T, ToAbi>) const std::array<bool, sizeof...(Is)> result_buff = {from[Is]...};
+			to.copy_from(result_buff.data(), vector_aligned);
 		}
-		template<std::size_t J, std::size_t I, std::size_t... Is, typename T, typename FromAbi, typename ToAbi>
+		template<std::size_t... Is, typename T, typename FromAbi, typename ToAbi>
 		constexpr DPM_FORCEINLINE void shuffle_impl(const simd<T, FromAbi> &from, simd<T, ToAbi> &to) noexcept
 		{
-			static_assert(J < simd<T, ToAbi>::size() && I < simd<T, FromAbi>::size());
-			if constexpr (sizeof...(Is) != 0) shuffle_impl<J + 1, Is...>(from, to);
-			to[J] = from[I];
+			static_assert(sizeof...(Is) == simd<T, ToAbi>::size() && ((Is < simd<T, FromAbi>::size()) && ...));
+			alignas(simd<T, ToAbi>) const std::array<T, sizeof...(Is)> result_buff = {from[Is]...};
+			to.copy_from(result_buff.data(), vector_aligned);
 		}
 	}
 
@@ -279,7 +279,7 @@ namespace dpm
 			else
 			{
 				result_t result = {};
-				detail::shuffle_impl<0, I, Is...>(x, result);
+				detail::shuffle_impl<I, Is...>(x, result);
 				return result;
 			}
 		}
@@ -662,7 +662,7 @@ namespace dpm
 			else
 			{
 				result_t result = {};
-				detail::shuffle_impl<0, I, Is...>(x, result);
+				detail::shuffle_impl<I, Is...>(x, result);
 				return result;
 			}
 		}
-- 
2.43.0


From a7ae837fa8c0e74cf75c595e36bec79577211551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 73/84] fix: poles of logarithms keep their sign when rounding
 downward

---
 dpm/detail/x86/except.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/except.hpp b/dpm/detail/x86/except.hpp
index 3142b19..594525b 100644
--- a/dpm/detail/x86/except.hpp
+++ b/dpm/detail/x86/except.hpp
@@ -34,6 +34,7 @@ namespace dpm::detail
 	{
 		/* x = mask ? +-1.0 / x - x : x; 1.0 / 0.0 == inf + FE_DIVBYZERO */
 		const auto v_one = fill<V>(Sign < 0 ? -one<T> : one<T>);
-		return blendv<T>(y, div<T>(v_one, sub<T>(x, x)), mask);
+		const auto zero = sub<T>(x, x); /* -0.0 if rounding downward */
+		return blendv<T>(y, div<T>(v_one, mul<T>(zero, zero)), mask);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 7a2d3df0744955bc69a383210c4c89fe087ba04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 74/84] fix: lerp propagates NaN arguments on ABIs without
 vector kernels

---
 dpm/detail/generic/math.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index d19aebf..385c53b 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -22,6 +22,20 @@ namespace dpm
 	{
 		template<typename... Ts>
 		using promote_t = std::conditional_t<std::disjunction_v<std::is_same<Ts, long double>...>, long double, double>;
+
+		/* std::lerp selects between values using comparisons, and is thus free to discard NaN arguments. */
+		template<typename T>
+		[[nodiscard]] constexpr T propagate_lerp(T a, T b, T f) noexcept
+		{
+#ifdef DPM_PROPAGATE_NAN
+			if constexpr (std::is_floating_point_v<T>)
+			{
+				if (a != a || b != b || f != f) [[unlikely]]
+					return a + b + f;
+			}
+#endif
+			return static_cast<T>(std::lerp(a, b, f));
+		}
 	}
 
 #pragma region "basic operations"
@@ -109,7 +123,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::lerp(a[i], b[i], f[i]);
+			result[i] = detail::propagate_lerp<T>(a[i], b[i], f[i]);
 		return {result.data(), vector_aligned};
 	}
 
@@ -223,7 +237,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::lerp(a[i], b[i], f);
+			result[i] = detail::propagate_lerp<T>(a[i], b[i], f);
 		return {result.data(), vector_aligned};
 	}
 
-- 
2.43.0


From ccc5e3666e5510d91d5720f78907bf41538f22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 75/84] fix: rounding to 64-bit integers compiles with AVX-512

---
 dpm/detail/x86/round.hpp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 3a88864..9e95089 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -133,16 +133,10 @@ namespace dpm
 		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			auto il = _mm_cvttps_epi64(x);
-			const auto th = _mm_cvtepi64_ps(ih);
-			const auto tl = _mm_cvtepi64_ps(il);
-			const auto tx = _mm_movelh_ps(tl, th);
-
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
+			__m128 rx;
+			round<float>(x, &rx);
+			dst[1] = _mm_cvttps_epi64(_mm_movehl_ps(rx, rx));
+			dst[0] = _mm_cvttps_epi64(rx);
 #else
 			__m128i tmp;
 			round<std::int32_t>(x, &tmp);
@@ -298,7 +292,7 @@ namespace dpm
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			dst[0] = _mm256_cvttps_epi64(x);
+			dst[0] = _mm256_cvttps_epi64(_mm256_castps256_ps128(x));
 #else
 			const auto tmp = cvtt<std::int32_t, float>(x);
 			const auto sign = _mm256_srai_epi32(tmp, 31);
@@ -322,16 +316,10 @@ namespace dpm
 		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ih = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			const auto il = _mm256_cvttps_epi64(x);
-			const auto th = _mm256_cvtepi64_ps(ih);
-			const auto tl = _mm256_cvtepi64_ps(il);
-			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
-
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
-			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
+			__m256 rx;
+			round<float>(x, &rx);
+			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(rx, 1));
+			dst[0] = _mm256_cvttps_epi64(_mm256_castps256_ps128(rx));
 #else
 			__m256i tmp;
 			round<std::int32_t>(x, &tmp);
-- 
2.43.0


From f77ae48c593693e013f351e29a8db5742c3465f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 76/84] fix: truncation to 64-bit integers truncates with
 AVX-512

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 58f0985..3139ef3 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -177,7 +177,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvtt(__m128d x) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-		return _mm_cvtpd_epi64(x);
+		return _mm_cvttpd_epi64(x);
 #else
 		/* Truncate, then convert. */
 		return cvt_f64_i64_sse(trunc_sse2(x));
-- 
2.43.0


From 21b6cf1545b50f4ebb0fbf22d49c28b860323e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 77/84] fix: fdim returns positive zero unless the first
 argument is greater

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index be8d1dd..dde231b 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -341,7 +341,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -395,7 +395,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From f41d780a8e9643b089286135da4e3e369de7db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 78/84] fix: conversion of zero to double is positive when
 rounding downward

---
 dpm/detail/x86/cvt.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3139ef3..f15636e 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -72,7 +72,9 @@ namespace dpm::detail
 #else
 		const auto b = _mm_blend_epi16(x, exp52, 0xcc);
 #endif
-		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(a), adjust), std::bit_cast<__m128d>(b));
+		const auto y = _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(a), adjust), std::bit_cast<__m128d>(b));
+		/* Zero must stay positive when rounding downward. */
+		return _mm_andnot_pd(_mm_cmpeq_pd(y, _mm_setzero_pd()), y);
 	}
 	[[maybe_unused]] [[nodiscard]] inline __m128d cvt_i64_f64_sse(__m128i x) noexcept
 	{
@@ -90,7 +92,9 @@ namespace dpm::detail
 		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
-		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
+		const auto y = _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
+		/* Zero must stay positive when rounding downward. */
+		return _mm_andnot_pd(_mm_cmpeq_pd(y, _mm_setzero_pd()), y);
 	}
 	[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128i cvt_f64_u64_sse(__m128d x) noexcept
 	{
@@ -266,7 +270,9 @@ namespace dpm::detail
 
 		const auto a = _mm256_or_si256(_mm256_srli_epi64(x, 32), exp84);
 		const auto b = _mm256_blend_epi32(x, exp52, 0xaa);
-		return _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(a), adjust), std::bit_cast<__m256d>(b));
+		const auto y = _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(a), adjust), std::bit_cast<__m256d>(b));
+		/* Zero must stay positive when rounding downward. */
+		return _mm256_andnot_pd(_mm256_cmp_pd(y, _mm256_setzero_pd(), _CMP_EQ_OQ), y);
 #else
 		const auto l = cvt_u64_f64_sse(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u64_f64_sse(_mm256_extractf128_si256(x, 1));
@@ -284,7 +290,9 @@ namespace dpm::detail
 		const auto zero = _mm256_xor_si256(tmp, tmp);
 		const auto a = _mm256_blend_epi32(zero, _mm256_srai_epi32(x, 16), 0xaa);
 		const auto b = _mm256_blend_epi16(x, exp52, 0x88);
-		return _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(_mm256_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m256d>(b));
+		const auto y = _mm256_add_pd(_mm256_sub_pd(std::bit_cast<__m256d>(_mm256_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m256d>(b));
+		/* Zero must stay positive when rounding downward. */
+		return _mm256_andnot_pd(_mm256_cmp_pd(y, _mm256_setzero_pd(), _CMP_EQ_OQ), y);
 #else
 		const auto l = cvt_i64_f64_sse(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_i64_f64_sse(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From 4851ba3bfe63140bbc3ce94211e417bca549db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 79/84] fix: 64-bit integer comparison needs SSE4.2 rather than
 SSE4.1

---
 dpm/detail/x86/cmp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/cmp.hpp b/dpm/detail/x86/cmp.hpp
index 017dbe1..6ccc5aa 100644
--- a/dpm/detail/x86/cmp.hpp
+++ b/dpm/detail/x86/cmp.hpp
@@ -90,7 +90,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt(__m128i a, __m128i b) noexcept
 	{
-#ifdef DPM_HAS_SSE4_1
+#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 #else
 		const auto tmp = _mm_or_si128(_mm_and_si128(_mm_cmpeq_epi32(a, b), _mm_sub_epi64(b, a)), _mm_cmpgt_epi32(a, b));
@@ -102,7 +102,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_l32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
@@ -113,7 +113,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_h32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
-- 
2.43.0


From 57ef6e44835f38a5ecd8bf0a846a110b23f3b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:26 +0000
Subject: [PATCH 80/84] fix: x86 cpuid selects subleaf 0 of leaf 7

---
 dpm/detail/x86/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..6f8f480 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From 137b91a3282aac30b323749fc52ea3df7713fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:26 +0000
Subject: [PATCH 81/84] fix: x86 cpuid reports AVX extensions only with AVX
 state enabled

---
 dpm/detail/x86/cpuid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 6f8f480..ca4c899 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
@@ -218,6 +219,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* Without XSAVE the OS does not manage the state used by AVX and AVX512. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0


From 228f235c0caf25eabac26ac2086e76d17df624ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:30 +0000
Subject: [PATCH 82/84] fix: x86 quiet comparisons do not raise invalid for
 quiet NaN elements

---
 dpm/detail/x86/class.hpp | 44 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d276457..cdd7d90 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -99,6 +99,40 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d isfinite(__m256d x) noexcept { return isfinite_abs(abs<double>(x)); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d isnormal(__m256d x) noexcept { return isnormal_abs(abs<double>(x)); }
 #endif
+
+		/* Ordering comparisons that do not set floating-point exceptions for quiet NaN elements. */
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V isgreater(V a, V b) noexcept
+		{
+#ifdef DPM_HAS_AVX
+			if constexpr (std::same_as<V, __m128>)
+				return _mm_cmp_ps(a, b, _CMP_GT_OQ);
+			else if constexpr (std::same_as<V, __m128d>)
+				return _mm_cmp_pd(a, b, _CMP_GT_OQ);
+			else
+				return cmp_gt<T>(a, b);
+#else
+			/* There are no quiet ordering comparisons without AVX, compare unordered elements as zeros. */
+			const auto unord = isunord(a, b);
+			return bit_andnot(unord, cmp_gt<T>(bit_andnot(unord, a), bit_andnot(unord, b)));
+#endif
+		}
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V isgreaterequal(V a, V b) noexcept
+		{
+#ifdef DPM_HAS_AVX
+			if constexpr (std::same_as<V, __m128>)
+				return _mm_cmp_ps(a, b, _CMP_GE_OQ);
+			else if constexpr (std::same_as<V, __m128d>)
+				return _mm_cmp_pd(a, b, _CMP_GE_OQ);
+			else
+				return cmp_ge<T>(a, b);
+#else
+			/* There are no quiet ordering comparisons without AVX, compare unordered elements as zeros. */
+			const auto unord = isunord(a, b);
+			return bit_andnot(unord, cmp_ge<T>(bit_andnot(unord, a), bit_andnot(unord, b)));
+#endif
+		}
 	}
 
 	/** Determines if elements of \a x are NaN. */
@@ -200,7 +234,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_lt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::isgreater<T>(a, b); }, result, a, b);
 			return result;
 		}
 	}
@@ -217,7 +251,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_le<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::isgreaterequal<T>(a, b); }, result, a, b);
 			return result;
 		}
 	}
@@ -234,7 +268,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_gt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::isgreater<T>(b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -251,7 +285,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_ge<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::isgreaterequal<T>(b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -268,7 +302,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_andnot(detail::isunord(a, b), detail::cmp_ne<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 0543263cf6d5b21648c73eeae5df081774453640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:30 +0000
Subject: [PATCH 83/84] fix: x86 64-bit reductions compile with clang

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index bec8e8f..b8010d3 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -366,7 +366,7 @@ namespace dpm::detail
 	{
 		const auto vf = std::bit_cast<__m128d>(v);
 		const auto a = _mm_shuffle_pd(vf, vf, _MM_SHUFFLE2(1, 1));
-		return _mm_cvtsi128_si64x(op(v, std::bit_cast<__m128i>(a)));
+		return _mm_cvtsi128_si64(op(v, std::bit_cast<__m128i>(a)));
 	}
 #endif
 
-- 
2.43.0


From dee6a223c7d95d6b9759ef48a4db81d1a80f05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:46 +0000
Subject: [PATCH 84/84] fix: promoted scalar arguments of math functions are
 converted explicitly

---
 dpm/detail/generic/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 385c53b..414e757 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -247,7 +247,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmod(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmod(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmod(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc remainder
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -255,7 +255,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto remainder(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return remainder(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return remainder(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fmax
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -263,7 +263,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmax(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmax(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmax(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fmin
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -271,7 +271,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmin(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmin(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmin(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fdim
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -279,7 +279,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fdim(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fdim(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fdim(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc lerp
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -287,7 +287,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto lerp(const simd<T0, Abi> &a, const simd<T1, Abi> &b, T2 f) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1, T2>, simd<T0, Abi>>;
-		return lerp(promoted_t{a}, promoted_t{b}, detail::promote_t<T0, T1, T2>{f});
+		return lerp(promoted_t{a}, promoted_t{b}, static_cast<detail::promote_t<T0, T1, T2>>(f));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -446,7 +446,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto pow(const simd<T0, Abi> &x, T1 p) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return pow(promoted_t{x}, detail::promote_t<T0, T1>{p});
+		return pow(promoted_t{x}, static_cast<detail::promote_t<T0, T1>>(p));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -1204,7 +1204,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto copysign(const simd<T0, Abi> &x, T1 sign) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return copysign(promoted_t{x}, detail::promote_t<T0, T1>{sign});
+		return copysign(promoted_t{x}, static_cast<detail::promote_t<T0, T1>>(sign));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0

