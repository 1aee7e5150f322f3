From 851acdf561c52f9852586d879c53e2bd7bf424e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/18] fix: allow including the headers in several translation
 units in C++14

The out-of-class definitions of powers_ten<float> and powers_ten<double>
static members were ordinary (non-template, non-inline) definitions with
external linkage, so two translation units including the library failed
to link with 'multiple definition' errors in C++14.
---
 include/floaxie/powers_ten.h        |  5 ++++-
 include/floaxie/powers_ten_double.h | 10 +++++-----
 include/floaxie/powers_ten_single.h | 10 +++++-----
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/floaxie/powers_ten.h b/include/floaxie/powers_ten.h
index 208ee1c..3114d51 100644
--- a/include/floaxie/powers_ten.h
+++ b/include/floaxie/powers_ten.h
@@ -40,8 +40,11 @@ namespace floaxie
 	 *
 	 * \tparam FloatType floating point type, for which precision the values are
 	 * calculated.
+	 * \tparam Placeholder unused parameter, which keeps the specializations
+	 * partial (i.e. still templates), so that the out-of-class definitions of
+	 * their static members can be included to several translation units.
 	 */
-	template<typename FloatType> struct powers_ten;
+	template<typename FloatType, typename Placeholder = void> struct powers_ten;
 }
 
 #endif // FLOAXIE_POWERS_TEN_H
diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index cac7efe..bb0e7cb 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -40,7 +40,7 @@ namespace floaxie
 	 * Values are calculated for powers of 10 in the range of [-343, 343]
 	 * exponent.
 	 */
-	template<> struct powers_ten<double>
+	template<typename Placeholder> struct powers_ten<double, Placeholder>
 	{
 		/** \brief Pre-calculated binary 64-bit representation of mantissa of
 		 * powers of 10 in the range of [-343, 343] for single precision
@@ -410,10 +410,10 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -343, 343 };
 	};
 
-	constexpr decltype(powers_ten<double>::f) powers_ten<double>::f;
-	constexpr decltype(powers_ten<double>::e) powers_ten<double>::e;
-	constexpr std::size_t powers_ten<double>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<double>::boundaries;
+	template<typename Placeholder> constexpr std::uint64_t powers_ten<double, Placeholder>::f[];
+	template<typename Placeholder> constexpr int powers_ten<double, Placeholder>::e[];
+	template<typename Placeholder> constexpr std::size_t powers_ten<double, Placeholder>::pow_0_offset;
+	template<typename Placeholder> constexpr std::pair<int, int> powers_ten<double, Placeholder>::boundaries;
 }
 
 #endif // FLOAXIE_POWERS_TEN_DOUBLE_H
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index 3b67d8b..9fe74d1 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -39,7 +39,7 @@ namespace floaxie
 	 * Values are calculated for powers of 10 in the range of [-50, 50]
 	 * exponent.
 	 */
-	template<> struct powers_ten<float>
+	template<typename Placeholder> struct powers_ten<float, Placeholder>
 	{
 		/** \brief Pre-calculated binary 32-bit representation of mantissa of
 		 * powers of 10 in the range of [-50, 50] for single precision
@@ -267,10 +267,10 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -50, 50 };
 	};
 
-	constexpr decltype(powers_ten<float>::f) powers_ten<float>::f;
-	constexpr decltype(powers_ten<float>::e) powers_ten<float>::e;
-	constexpr std::size_t powers_ten<float>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<float>::boundaries;
+	template<typename Placeholder> constexpr std::uint32_t powers_ten<float, Placeholder>::f[];
+	template<typename Placeholder> constexpr int powers_ten<float, Placeholder>::e[];
+	template<typename Placeholder> constexpr std::size_t powers_ten<float, Placeholder>::pow_0_offset;
+	template<typename Placeholder> constexpr std::pair<int, int> powers_ten<float, Placeholder>::boundaries;
 }
 
 #endif // FLOAXIE_POWERS_TEN_SINGLE_H
-- 
2.43.0


From 0ed6948aa3c2c2ab304b24d02f336ccc53391115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/18] fix: provide character buffer operations for char16_t
 and char32_t

to_u16string(), to_u32string() and ftoa() to char16_t/char32_t buffers
failed to link, as wrap::memset() and wrap::memmove() were only defined
for char and wchar_t.
---
 include/floaxie/memwrap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..16999c1 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -19,6 +19,8 @@
 
 #include <cstring>
 #include <cwchar>
+#include <cstddef>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +30,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +49,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From 6043454ee777bf5c77b1a4006d64d558faf7e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 03/18] fix: parse exponent part as plain decimal integer

Exponent digits were parsed by parse_digits(), so that
  - exponents with trailing zeros or decimal point (1e10000, 1e1.5) read
    out of bounds of the powers array;
  - exponents of 10 and more digits overflowed;
  - the part without digits (1e, 1e+, 1enan) was consumed, though the
    accepted format requires at least one digit.
---
 include/floaxie/krosh.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..aa269cc 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -45,8 +45,10 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Absolute value, which exponent part is saturated at (whatever
+	 * the mantissa is, the value with such an exponent is out of range).
+	 */
+	constexpr int maximum_exponent(100000);
 
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
@@ -485,16 +487,25 @@ namespace floaxie
 		}
 		else
 		{
-			++str;
+			const CharType* cp = str + 1;
+			const bool negative = *cp == '-';
 
-			const auto& digit_parts(parse_digits<float>(str));
+			if (*cp == '-' || *cp == '+')
+				++cp;
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+			ret.value = 0;
+			ret.str_end = str; // no digits - no exponent part
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+			while (*cp >= '0' && *cp <= '9')
+			{
+				if (ret.value < maximum_exponent)
+					ret.value = ret.value * 10 + (*cp - '0');
+
+				ret.str_end = ++cp;
+			}
 
-			ret.str_end = digit_parts.str_end;
+			if (negative)
+				ret.value = -ret.value;
 		}
 
 		return ret;
-- 
2.43.0


From 578baf2a859e4bf665230ad372de3fa134dc7166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 04/18] fix: consume exponent part of zero value

For zero mantissa (0e5, 0.0e-10) the exponent part was left out of the
parsed value, so the returned end pointer was wrong.
---
 include/floaxie/krosh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index aa269cc..f2ba5d6 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -614,6 +614,8 @@ namespace floaxie
 
 			default:
 				ret.value = 0;
+				// exponent part of zero is still a part of the value
+				mp.str_end = mp.str_end != str ? parse_exponent(mp.str_end).str_end : str;
 				break;
 			}
 
-- 
2.43.0


From d698bc5a237a4d08e9b04a8418dcb2417387ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 05/18] fix: don't consume input without a single digit

Lone sign, decimal point or the first letter of misspelled 'nan' and
'inf' were reported as parsed by the returned end pointer, though the
accepted format requires at least one digit.
---
 include/floaxie/krosh.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index f2ba5d6..c11012e 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -243,6 +243,7 @@ namespace floaxie
 		bool dot_set(false);
 		bool sign_set(false);
 		bool frac_calculated(false);
+		bool digits_found(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
 
@@ -255,6 +256,7 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digits_found = true;
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -271,6 +273,7 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digits_found = true;
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -367,7 +370,8 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
-		ret.str_end = str + (pos - 1);
+		// sign or decimal point alone doesn't make up a value
+		ret.str_end = digits_found || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From 915384855375afd0dadf613d6d82e616d4fbf794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 06/18] fix: correct downsampling at range limits and on carry
 of rounding

diy_fp::downsample()
  - lost the carry out of mantissa (0.99999999999999999 was parsed as 0.5,
    1.17549435e-38f as 0);
  - checked overflow against the exponent of the lowest mantissa bit, so
    1e309 or 1e40f gave garbage of the wrong sign, 4e38f gave NaN;
  - flushed to zero values between a half of the minimum subnormal value
    and the minimum subnormal value.
---
 include/floaxie/diy_fp.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..44bf414 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -197,41 +197,52 @@ namespace floaxie
 			constexpr auto full_mantissa_bit_size(std::numeric_limits<FloatType>::digits);
 			constexpr auto mantissa_bit_size(full_mantissa_bit_size - 1); // remember hidden bit
 			constexpr mantissa_storage_type my_mantissa_size(bit_size<mantissa_storage_type>());
-			constexpr mantissa_storage_type mantissa_mask(mask<mantissa_storage_type>(mantissa_bit_size));
 			constexpr exponent_storage_type exponent_bias(std::numeric_limits<FloatType>::max_exponent - 1 + mantissa_bit_size);
 			constexpr std::size_t lsb_pow(my_mantissa_size - full_mantissa_bit_size);
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			// the highest bit of normalized value
+			const exponent_storage_type msb_exp(m_e + int(my_mantissa_size) - 1);
+
+			if (msb_exp >= std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
 				return ret;
 			}
 
-			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size))
+			const std::size_t denorm_exp(positive_part(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - 1));
+
+			// less, than a half of the minimum subnormal value
+			if (denorm_exp > my_mantissa_size)
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
 				return ret;
 			}
 
-			const std::size_t denorm_exp(positive_part(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - 1));
+			const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));
 
-			assert(denorm_exp < my_mantissa_size);
+			const auto& round(round_up(f, shift_amount));
+			const mantissa_storage_type rounded((shift_amount < my_mantissa_size ? f >> shift_amount : 0) + round.value);
 
-			const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));
+			mantissa_storage_type parts(0);
 
-			mantissa_storage_type parts = m_e + shift_amount + exponent_bias - (denorm_exp > lsb_pow);
-			parts <<= mantissa_bit_size;
+			// hidden bit (including the carry of rounding) is added to the exponent
+			if (denorm_exp <= lsb_pow)
+				parts = mantissa_storage_type(m_e + shift_amount + exponent_bias - 1) << mantissa_bit_size;
 
-			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			parts += rounded;
 
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
 
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+			else if (ret.value == FloatType(0))
+				ret.status = conversion_status::underflow;
+
 			return ret;
 		}
 
-- 
2.43.0


From 6d637329b77b1b1d8cd4a58d4b11c9fb56febe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 07/18] fix: keep the sign of overflowed and underflowed values

-1e999 was parsed as positive infinity, -1e-999 as positive zero.
---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c11012e..fcc4bdc 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -590,6 +590,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 802e57d6836b3050f539f9d3617f2dcfbf53a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 08/18] fix: don't flush single precision subnormal values to
 zero

Decimal exponents below -50 aren't in the table of single precision
powers, but along with 9-digit mantissa they still can give a subnormal
value (123456789e-51). Use fallback conversion in this case.
---
 include/floaxie/krosh.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index fcc4bdc..7d5967b 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -594,7 +594,9 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
+					// the table of single precision powers doesn't cover all the subnormal values
+					ret.is_accurate = b1 || mp.K + int(decimal_q<FloatType>) <
+						std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10;
 
 					return ret;
 				}
-- 
2.43.0


From ebf61678e4b0238b1a4bbe76ad8cd3d74aa6ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 09/18] fix: take calculation error into account when detecting
 inaccurate result

Krosh only resorted to the fallback conversion, when the approximate
mantissa was exactly in the middle of two adjacent values. As it may be
several units off, the values close to the middle were rounded
incorrectly (about 1 of 3000 random values of double and 1 of 300 of
float).
---
 include/floaxie/diy_fp.h | 12 ++++++++++--
 include/floaxie/krosh.h  | 27 +++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 44bf414..2a79fc9 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param max_error maximum possible error of the mantissa value (in units
+		 * of its last place) to take into account, when detecting, if the
+		 * conversion is accurate.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type max_error = 0)
 		{
 			downsample_result ret;
 
@@ -219,6 +223,7 @@ namespace floaxie
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+				ret.is_accurate = denorm_exp > my_mantissa_size + 1;
 				return ret;
 			}
 
@@ -236,7 +241,10 @@ namespace floaxie
 			parts += rounded;
 
 			ret.value = type_punning_cast<FloatType>(parts);
-			ret.is_accurate = round.is_accurate;
+
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			ret.is_accurate = (tail > half ? tail - half : half - tail) > max_error;
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 7d5967b..d1ae7dc 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -50,6 +50,19 @@ namespace floaxie
 	 */
 	constexpr int maximum_exponent(100000);
 
+	/** \brief Maximum error of the scaled mantissa (in units of its last place)
+	 * for the values, which digits all fit in the mantissa.
+	 *
+	 * It consists of halves of ULP of the cached power and of the rounding of
+	 * the product, doubled by the following normalization.
+	 */
+	constexpr unsigned int scaled_mantissa_error(2);
+
+	/** \brief Same as above, but for the values with more digits, than fit in
+	 * the mantissa.
+	 */
+	constexpr unsigned int scaled_truncated_mantissa_error(10);
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -188,7 +201,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true), truncated(false) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -209,6 +222,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag of significant digits, which don't fit in the mantissa. */
+		bool truncated;
 	};
 
 	/** \brief Unified method to extract and parse digits in one pass.
@@ -300,6 +316,8 @@ namespace floaxie
 				}
 				else
 				{
+					ret.truncated = true;
+
 					if (!frac_calculated)
 					{
 						const std::size_t frac_suffix_size = parsed_digits.size() + zero_substring_length - kappa;
@@ -398,6 +416,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag of significant digits, which don't fit in the mantissa. */
+		bool truncated;
 	};
 
 	/** \brief Tides up results of `parse_digits` for **Krosh** to use.
@@ -425,6 +446,7 @@ namespace floaxie
 		ret.special = digits_parts.special;
 		ret.str_end = digits_parts.str_end;
 		ret.sign = digits_parts.sign;
+		ret.truncated = digits_parts.truncated;
 
 		if (digits_parts.special == speciality::no)
 		{
@@ -603,7 +625,8 @@ namespace floaxie
 			}
 
 			w.normalize();
-			const auto& v(w.downsample());
+			// not scaled value can only be inaccurate, if it's right in the middle
+			const auto& v(w.downsample(!mp.K ? 0 : mp.truncated ? scaled_truncated_mantissa_error : scaled_mantissa_error));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From 7a9b2a8737100b336a8c565fb7296de5506a3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 10/18] fix: don't take stale errno for the result of fallback
 conversion

Once errno was ERANGE for any reason, every following fallback conversion
was reported as overflow, as C library functions never reset it.
---
 include/floaxie/atof.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..43c8108 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -18,6 +18,7 @@
 #define FLOAXIE_ATOF_H
 
 #include <string>
+#include <cerrno>
 
 #include <floaxie/krosh.h>
 
@@ -112,9 +113,16 @@ namespace floaxie
 			}
 			else
 			{
+				// errno may be left set by any of the previous calls
+				const int saved_errno = errno;
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (!errno)
+					errno = saved_errno;
+
 				return result;
 			}
 		}
-- 
2.43.0


From 22c206fd813edfa1e85b3148d3e990cfebb23110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 11/18] fix: don't report overflow for subnormal values

strtod() and friends may set errno to ERANGE for non-zero subnormal
values, which was treated as overflow. Report the same success status as
Krosh does for such values.
---
 include/floaxie/default_fallback.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..2cc7ee1 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,6 +17,8 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cwchar>
 
@@ -87,6 +89,10 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
+		// accurate enough subnormal value isn't a failure
+		if (returned_value && std::abs(returned_value) < FloatType(1))
+			return conversion_status::success;
+
 		return returned_value ? conversion_status::overflow : conversion_status::underflow;
 	}
 }
-- 
2.43.0


From f59f3cc31d6acbcf9ac3f386af3495ca53c488bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 12/18] fix: recognize special values regardless of the current
 locale

Letters of 'infinity' and 'nan(...)' were compared using the global
locale, so e.g. 'INFINITY' wasn't recognized in Turkish one.
---
 include/floaxie/krosh.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index d1ae7dc..6c3e48d 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -18,7 +18,7 @@
 #define FLOAXIE_CROSH_H
 
 #include <vector>
-#include <locale>
+#include <array>
 #include <cstddef>
 #include <cmath>
 #include <cassert>
@@ -63,6 +63,14 @@ namespace floaxie
 	 */
 	constexpr unsigned int scaled_truncated_mantissa_error(10);
 
+	/** \brief Converts ASCII upper case letter to lower case regardless of
+	 * the current locale, keeps all the other characters as they are.
+	 */
+	template<typename CharType> constexpr CharType ascii_tolower(CharType c) noexcept
+	{
+		return c >= 'A' && c <= 'Z' ? c + ('a' - 'A') : c;
+	}
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -89,7 +97,7 @@ namespace floaxie
 				do
 					++cp;
 				while ((*cp >= '0' && *cp <= '9') ||
-					   (std::tolower(*cp, std::locale()) >= 'a' && std::tolower(*cp, std::locale()) <= 'z') ||
+					   (ascii_tolower(*cp) >= 'a' && ascii_tolower(*cp) <= 'z') ||
 						*cp == '_');
 
 				if (*cp == ')')
@@ -126,7 +134,7 @@ namespace floaxie
 				const std::array<CharType, 4> suffix {{ 'n', 'i', 't', 'y' }};
 				auto it = suffix.cbegin();
 
-				while (it != suffix.cend() && std::tolower(*cp, std::locale()) == *it)
+				while (it != suffix.cend() && ascii_tolower(*cp) == *it)
 				{
 					++cp;
 					++it;
-- 
2.43.0


From 1088fe60b30eff85a83e8500bccc942204097e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 13/18] fix: let diy_fp values be written to wide streams, too

The operator is a template on the character type, but didn't compile for
anything but char, as there's no output operator for std::string there.
---
 include/floaxie/diy_fp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 2a79fc9..238a3fa 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -491,7 +491,7 @@ namespace floaxie
 		template<typename Ch, typename Alloc>
 		friend std::basic_ostream<Ch, Alloc>& operator<<(std::basic_ostream<Ch, Alloc>& os, const diy_fp& v)
 		{
-			os << "(f = " << print_binary(v.m_f) << ", e = " << v.m_e << ')';
+			os << "(f = " << print_binary(v.m_f).c_str() << ", e = " << v.m_e << ')';
 			return os;
 		}
 
-- 
2.43.0


From f0d7127d5147688eb19828eea422134e927ef9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 14/18] fix: don't terminate the program, when there's no
 memory for parsed digits

parse_digits() allocates memory, so it may throw std::bad_alloc.
---
 include/floaxie/krosh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 6c3e48d..b56b38e 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -255,7 +255,7 @@ namespace floaxie
 	 * \return `digit_parse_result` with the parsing results.
 	 */
 	template<typename FloatType, typename CharType>
-	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str) noexcept
+	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str)
 	{
 		digit_parse_result<FloatType, CharType> ret;
 
-- 
2.43.0


From 018856d2b725b6afc5b1776a8c46281e1bdadf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 15/18] fix: calculate static_pow() in the type of its result

The powers above the range of unsigned int were silently wrapped around.
---
 include/floaxie/static_pow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/static_pow.h b/include/floaxie/static_pow.h
index 2024786..24eecd5 100644
--- a/include/floaxie/static_pow.h
+++ b/include/floaxie/static_pow.h
@@ -37,14 +37,14 @@ namespace floaxie
 		 *
 		 * Is calculated recursively in intermediate steps.
 		 */
-		static const unsigned int value = base * static_pow_helper<base, pow - 1>::value;
+		static const unsigned long value = base * static_pow_helper<base, pow - 1>::value;
 	};
 
 	/** \brief Terminal specialization of `static_pow_helper` template. */
 	template<unsigned int base> struct static_pow_helper<base, 0>
 	{
 		/** \brief Any value in zero power is `1`. */
-		static const unsigned int value = 1;
+		static const unsigned long value = 1;
 	};
 
 	/** \brief Handy wrapper function to calculate positive power in compile
-- 
2.43.0


From 3aecb590dccea3f35c815d573fa4d1b9b9c834a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 16/18] fix: include all the headers the tables of powers of
 ten need

cached_power.h and the headers of tables couldn't be included first.
---
 include/floaxie/powers_ten_double.h | 2 ++
 include/floaxie/powers_ten_single.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index bb0e7cb..d42f8c5 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -25,7 +25,9 @@
 #define FLOAXIE_POWERS_TEN_DOUBLE_H
 
 #include <cstddef>
+#include <cstdint>
 #include <array>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index 9fe74d1..ac83c72 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -25,6 +25,8 @@
 #define FLOAXIE_POWERS_TEN_SINGLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
-- 
2.43.0


From 4e7b5cfff8b33a57392158101e3498f478cb8669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 17/18] fix: keep errno, when the fallback conversion throws an
 exception

---
 include/floaxie/atof.h             |  6 +-----
 include/floaxie/default_fallback.h | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 43c8108..63edc59 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -114,15 +114,11 @@ namespace floaxie
 			else
 			{
 				// errno may be left set by any of the previous calls
-				const int saved_errno = errno;
-				errno = 0;
+				const errno_keeper keeper;
 
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
-				if (!errno)
-					errno = saved_errno;
-
 				return result;
 			}
 		}
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index 2cc7ee1..8f5140a 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -71,6 +71,25 @@ namespace floaxie
 		return std::wcstold(str, str_end);
 	}
 
+	/** \brief Clears `errno` for the time of fallback conversion and gets its
+	 * value back afterwards (unless it's set by the conversion), also if the
+	 * conversion is left by throwing an exception.
+	 */
+	class errno_keeper
+	{
+	public:
+		/** \brief Saves and clears `errno`. */
+		errno_keeper() noexcept : m_saved(errno) { errno = 0; }
+		/** \brief Restores `errno`, if it's still clear. */
+		~errno_keeper() { if (!errno) errno = m_saved; }
+
+		errno_keeper(const errno_keeper&) = delete;
+		errno_keeper& operator=(const errno_keeper&) = delete;
+
+	private:
+		const int m_saved;
+	};
+
 	/** \brief Returns `conversion_status` based on `errno` value.
 	 *
 	 * Analyzes current value of `errno` together with the passed conversion
-- 
2.43.0


From 641179da4750b4999f44901b77f703258c1a12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:06 +0000
Subject: [PATCH 18/18] fix: don't subtract from arbitrary wide characters

The difference of a wide character close to the lowest value of its type
and '0' overflows, when it follows more digits than fit in the mantissa.
---
 include/floaxie/krosh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index b56b38e..f1cedbc 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -174,9 +174,9 @@ namespace floaxie
 
 		for (std::size_t pos = 0; pos < kappa; ++pos)
 		{
-			const auto c = str[pos] - '0';
-			if (c >= 0 && c <= 9)
-				parsed_digits[pos] = c;
+			const auto c = str[pos];
+			if (c >= '0' && c <= '9')
+				parsed_digits[pos] = c - '0';
 			else
 				break;
 		}
-- 
2.43.0

