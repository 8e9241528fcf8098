From 4ea251131a15fbdea462058bac4a559b6653c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 01/17] fix: define memory wrappers for any character type

to_u16string() and to_u32string() didn't link: generic templates of
wrap::memset() and wrap::memmove() were only declared.
---
 include/floaxie/memwrap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..e93b5fa 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -17,8 +17,10 @@
 #ifndef FLOAXIE_MEMWRAP_H
 #define FLOAXIE_MEMWRAP_H
 
+#include <cstddef>
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +30,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +49,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From c4f54a3e647b705041d3dab1c28ddc1dcbaf1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/17] fix: don't consume anything from strings with no number
 in them

'nope', 'in', '-', '.', '+.' and the like were partly consumed, as if they
contained a value.
---
 include/floaxie/krosh.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..484fdf7 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -241,6 +241,7 @@ namespace floaxie
 		bool dot_set(false);
 		bool sign_set(false);
 		bool frac_calculated(false);
+		bool digits_found(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
 
@@ -253,6 +254,7 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digits_found = true;
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -269,6 +271,7 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digits_found = true;
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -318,10 +321,12 @@ namespace floaxie
 				if (pos == sign_set)
 				{
 					const std::size_t eaten = eat_nan(str + pos + 1);
-					pos += eaten + 1;
 
 					if (eaten)
+					{
+						pos += eaten + 1;
 						ret.special = speciality::nan;
+					}
 				}
 
 				go_to_beach = true;
@@ -332,10 +337,12 @@ namespace floaxie
 				if (pos == sign_set)
 				{
 					const std::size_t eaten = eat_inf(str + pos + 1);
-					pos += eaten + 1;
 
 					if (eaten)
+					{
+						pos += eaten + 1;
 						ret.special = speciality::inf;
+					}
 				}
 
 				go_to_beach = true;
@@ -365,7 +372,8 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
-		ret.str_end = str + (pos - 1);
+		// nothing is consumed, if there's neither digit, nor special value
+		ret.str_end = digits_found || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From 8c92f3508da404966ee10b316199b13f5fa5f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/17] fix: parse exponent value on its own

Exponent was parsed as if it were a mantissa, so that exponents of more than
three digits led to reading past the powers array or to integer overflow
('1e10000', '1e4294967296'), decimal point, 'inf' and 'nan' were accepted
inside of it ('1e5.5', '1einf'), and exponent mark without any digit after it
was treated as a part of the value ('1e', '1ex').
---
 include/floaxie/krosh.h | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 484fdf7..9b458f4 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -45,8 +45,12 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Maximum meaningful absolute value of the exponent.
+	 *
+	 * It can't be compensated by the mantissa of `maximum_offset` length, so
+	 * that any exponent value of greater magnitude is treated as this one.
+	 */
+	constexpr int maximum_exponent(9999);
 
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
@@ -486,23 +490,30 @@ namespace floaxie
 	template<typename CharType> inline exponent_parse_result<CharType> parse_exponent(const CharType* str)
 	{
 		exponent_parse_result<CharType> ret;
-		if (*str != 'e' && *str != 'E')
-		{
-			ret.value = 0;
-			ret.str_end = str;
-		}
-		else
+
+		ret.value = 0;
+		ret.str_end = str;
+
+		if (*str == 'e' || *str == 'E')
 		{
 			++str;
 
-			const auto& digit_parts(parse_digits<float>(str));
+			const bool negative(*str == '-');
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+			if (*str == '-' || *str == '+')
+				++str;
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+			// exponent mark not followed by any digit doesn't belong to the value
+			if (*str >= '0' && *str <= '9')
+			{
+				for (; *str >= '0' && *str <= '9'; ++str)
+					ret.value = std::min(ret.value * 10 + static_cast<int>(*str - '0'), maximum_exponent);
 
-			ret.str_end = digit_parts.str_end;
+				if (negative)
+					ret.value = -ret.value;
+
+				ret.str_end = str;
+			}
 		}
 
 		return ret;
-- 
2.43.0


From 1750124d60f85adcd46245d67d3dc493e954c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 04/17] fix: consume exponent part of zero

'0e5' or '0.000000e+00' were parsed only up to the exponent mark.
---
 include/floaxie/krosh.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 9b458f4..7cac229 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -626,6 +626,11 @@ namespace floaxie
 			}
 
 			ret.str_end = mp.str_end;
+
+			// exponent of zero doesn't affect the value, but still belongs to it
+			if (mp.special == speciality::no && mp.str_end != str)
+				ret.str_end = parse_exponent(mp.str_end).str_end;
+
 			ret.is_accurate = true;
 			ret.status = conversion_status::success;
 		}
-- 
2.43.0


From 38fd5b691999f4555e1472b6aabc9c4eaf175062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 05/17] fix: keep sign of the values out of range

'-1e999' was parsed as positive infinity, '-1e-999' as positive zero.
---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 7cac229..d0cb261 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -594,6 +594,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 43e8302b149194993eb0127c7d5beb94032e31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 06/17] fix: propagate carry of rounding to the exponent in
 downsample()

Mantissa rounded up to the next power of two lost the carry, so that e.g.
'0.99999999999999999' was parsed as 0.5 and '2.2250738585072012e-308' as 0.
---
 include/floaxie/diy_fp.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..ae53628 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -227,11 +227,15 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			// carry of rounding should propagate to the exponent
+			parts += ((f >> shift_amount) & mantissa_mask) + round.value;
 
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
 
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+
 			return ret;
 		}
 
-- 
2.43.0


From 7c8edef0f9c79636aa5227735479d26315d7c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 07/17] fix: detect overflow and underflow in downsample()
 properly

Value of e.g. '1e309' wasn't recognized as overflowed, which resulted in
garbage, and '3e-324' was flushed to zero rather than rounded to the minimum
subnormal value.
---
 include/floaxie/diy_fp.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index ae53628..af9f213 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -203,7 +203,7 @@ namespace floaxie
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
@@ -214,6 +214,11 @@ namespace floaxie
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+
+				// values close to or greater, than the half of the minimum
+				// subnormal value, may still need to be rounded up to it
+				ret.is_accurate = m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 2;
+
 				return ret;
 			}
 
-- 
2.43.0


From bcf6a32ac1b7099447ce49286353d37ab2a9f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 08/17] fix: don't flush subnormal values with long mantissa to
 zero

Decimal exponent was checked against the powers range regardless of mantissa
length, so that '9.99999999e-43' was parsed as float zero.
---
 include/floaxie/krosh.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index d0cb261..6aa7ee3 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -598,7 +598,9 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
+
+					// long mantissa may still compensate the power being too small
+					ret.is_accurate = b1 || mp.K + static_cast<int>(decimal_q<FloatType>) < powers_ten<FloatType>::boundaries.first;
 
 					return ret;
 				}
-- 
2.43.0


From 2afce093eb7e628b591b9cfbfc610166bf08e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 09/17] fix: collect extra mantissa digits properly around
 decimal point

Digits exceeding mantissa capacity were re-read from the buffer by offset, which
lost them, if decimal point occurred among them ('1234567890123456789.99' vs.
'12345678901234567899.9').
---
 include/floaxie/krosh.h | 57 +++++++++--------------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 6aa7ee3..07cb258 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -129,47 +129,6 @@ namespace floaxie
 		return eaten;
 	}
 
-	/** \brief Extracts up to \p **kappa** decimal digits from fraction part.
-	 *
-	 * Extracts decimal digits from fraction part and returns it as numerator
-	 * value with denominator equal to \f$10^{\kappa}\f$.
-	 *
-	 * \tparam kappa maximum number of decimal digits to extract.
-	 * \tparam FloatType destination type of floating point value to store the
-	 * results.
-	 * \tparam CharType character type (typically `char` or `wchar_t`) \p **str**
-	 * consists of.
-	 *
-	 * \param str character buffer to extract from.
-	 *
-	 * \return Numerator value of the extracted decimal digits (i.e. as they
-	 * are actually written after the decimal point).
-	 */
-	template<std::size_t kappa, typename CharType>
-	inline unsigned int extract_fraction_digits(const CharType* str)
-	{
-		static_assert(kappa <= std::numeric_limits<int>::digits10, "Extracting values, exceeding 'int' capacity, is not supported.");
-
-		std::array<unsigned char, kappa> parsed_digits;
-		parsed_digits.fill(0);
-
-		for (std::size_t pos = 0; pos < kappa; ++pos)
-		{
-			const auto c = str[pos] - '0';
-			if (c >= 0 && c <= 9)
-				parsed_digits[pos] = c;
-			else
-				break;
-		}
-
-		unsigned int result(0);
-		std::size_t pow(0);
-		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
-			result += (*rit) * seq_pow<unsigned int, 10, kappa>(pow++);
-
-		return result;
-	}
-
 	/** \brief Type of special value. */
 	enum class speciality : unsigned char
 	{
@@ -248,6 +207,8 @@ namespace floaxie
 		bool digits_found(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
+		std::size_t tail_digits_count(0);
+		unsigned int tail(0);
 
 		bool go_to_beach(false);
 		std::size_t pos(0);
@@ -262,6 +223,7 @@ namespace floaxie
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
+					tail_digits_count += frac_calculated;
 					pow_gain += !dot_set;
 				}
 				break;
@@ -304,13 +266,16 @@ namespace floaxie
 				{
 					if (!frac_calculated)
 					{
-						const std::size_t frac_suffix_size = parsed_digits.size() + zero_substring_length - kappa;
-						auto tail = extract_fraction_digits<fraction_decimal_digits>(str + pos - frac_suffix_size);
-						ret.frac = convert_numerator<fraction_decimal_digits, fraction_binary_digits>(tail);
-
+						tail_digits_count = zero_substring_length;
 						frac_calculated = true;
 					}
 
+					if (tail_digits_count < fraction_decimal_digits)
+					{
+						++tail_digits_count;
+						tail += (c - '0') * seq_pow<unsigned int, 10, fraction_decimal_digits>(fraction_decimal_digits - tail_digits_count);
+					}
+
 					pow_gain += !dot_set;
 				}
 				break;
@@ -376,6 +341,8 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
+		ret.frac = convert_numerator<fraction_decimal_digits, fraction_binary_digits>(tail);
+
 		// nothing is consumed, if there's neither digit, nor special value
 		ret.str_end = digits_found || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
-- 
2.43.0


From f70fe312ffc400600ef24d19a8614e93aa74a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 10/17] fix: fall back, if rounding decision is within the
 error of mantissa

Only exact halfway of the calculated (approximate) mantissa was treated as
unsafe to round, so that e.g. '38907218125348081144e197' was rounded
incorrectly without any fallback conversion.
---
 include/floaxie/diy_fp.h | 11 +++++++++--
 include/floaxie/krosh.h  |  8 +++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index af9f213..803bbf5 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param max_error maximum error of the mantissa (in its least significant
+		 * bits); if rounding decision could be different within it, the result is
+		 * marked as inaccurate.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type max_error = 0)
 		{
 			downsample_result ret;
 
@@ -236,7 +240,10 @@ namespace floaxie
 			parts += ((f >> shift_amount) & mantissa_mask) + round.value;
 
 			ret.value = type_punning_cast<FloatType>(parts);
-			ret.is_accurate = round.is_accurate;
+
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			ret.is_accurate = round.is_accurate && (tail > half ? tail - half : half - tail) > max_error;
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 07cb258..c8050a8 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -42,6 +42,12 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits of fraction part, which can be observed. */
 	constexpr std::size_t fraction_decimal_digits(4);
 
+	/** \brief Maximum error of the calculated mantissa in its least significant
+	 * bits (as accumulated by fraction part conversion, power of ten rounding
+	 * and multiplication, doubled by the following normalization).
+	 */
+	constexpr unsigned int mantissa_max_error(4);
+
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
@@ -574,7 +580,7 @@ namespace floaxie
 			}
 
 			w.normalize();
-			const auto& v(w.downsample());
+			const auto& v(w.downsample(mantissa_max_error));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From 0178751dd982e755c91f69531408acb0460529ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 11/17] fix: report status of fallback conversion properly

Status depended on errno value left by any previous call, and subnormal results
of the fallback conversion were reported as overflow.
---
 include/floaxie/atof.h             | 8 ++++++++
 include/floaxie/default_fallback.h | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..8293390 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_ATOF_H
 #define FLOAXIE_ATOF_H
 
+#include <cerrno>
 #include <string>
 
 #include <floaxie/krosh.h>
@@ -112,9 +113,16 @@ namespace floaxie
 			}
 			else
 			{
+				// ignore any error reported by previous calls
+				const auto saved_errno = errno;
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (!errno)
+					errno = saved_errno;
+
 				return result;
 			}
 		}
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..9058921 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,10 +17,12 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
 #include <cstdlib>
 #include <cwchar>
 
 #include <floaxie/conversion_status.h>
+#include <floaxie/huge_val.h>
 
 namespace floaxie
 {
@@ -87,7 +89,11 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		if (returned_value == huge_value<FloatType>() || returned_value == -huge_value<FloatType>())
+			return conversion_status::overflow;
+
+		// `ERANGE` is also set for subnormal results, which are successful
+		return returned_value ? conversion_status::success : conversion_status::underflow;
 	}
 }
 
-- 
2.43.0


From 08888648644d199e16247bbe0968539bd25cfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 12/17] fix: allow including headers to several translation
 units

---
 include/floaxie/powers_ten_double.h | 29 +++++++++++++++++++++++------
 include/floaxie/powers_ten_single.h | 29 +++++++++++++++++++++++------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index cac7efe..ddf5e9e 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -25,22 +25,27 @@
 #define FLOAXIE_POWERS_TEN_DOUBLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 #include <array>
 
 #include <floaxie/powers_ten.h>
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for double precision
+	/** \brief Values of **powers_ten** for double precision
 	 * floating point type (`double`).
 	 *
+	 * It's a template for its static members could be defined in header, which
+	 * is included to several translation units.
+	 *
 	 * Significand (mantissa) type is `std::uint64_t`, exponent type is
 	 * `int` (typically 32 bit, at least 16 bit).
 	 *
 	 * Values are calculated for powers of 10 in the range of [-343, 343]
 	 * exponent.
 	 */
-	template<> struct powers_ten<double>
+	template<typename FloatType> struct powers_ten_double
 	{
 		/** \brief Pre-calculated binary 64-bit representation of mantissa of
 		 * powers of 10 in the range of [-343, 343] for single precision
@@ -410,10 +415,22 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -343, 343 };
 	};
 
-	constexpr decltype(powers_ten<double>::f) powers_ten<double>::f;
-	constexpr decltype(powers_ten<double>::e) powers_ten<double>::e;
-	constexpr std::size_t powers_ten<double>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<double>::boundaries;
+	template<typename FloatType>
+	constexpr std::uint64_t powers_ten_double<FloatType>::f[];
+
+	template<typename FloatType>
+	constexpr int powers_ten_double<FloatType>::e[];
+
+	template<typename FloatType>
+	constexpr std::size_t powers_ten_double<FloatType>::pow_0_offset;
+
+	template<typename FloatType>
+	constexpr std::pair<int, int> powers_ten_double<FloatType>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for double precision
+	 * floating point type (`double`).
+	 */
+	template<> struct powers_ten<double> : powers_ten_double<double> {};
 }
 
 #endif // FLOAXIE_POWERS_TEN_DOUBLE_H
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index 3b67d8b..83a52ba 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -25,21 +25,26 @@
 #define FLOAXIE_POWERS_TEN_SINGLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for single precision
+	/** \brief Values of **powers_ten** for single precision
 	 * floating point type (`float`).
 	 *
+	 * It's a template for its static members could be defined in header, which
+	 * is included to several translation units.
+	 *
 	 * Significand (mantissa) type is `std::uint32_t`, exponent type is
 	 * `int` (typically 32 bit, at least 16 bit).
 	 *
 	 * Values are calculated for powers of 10 in the range of [-50, 50]
 	 * exponent.
 	 */
-	template<> struct powers_ten<float>
+	template<typename FloatType> struct powers_ten_single
 	{
 		/** \brief Pre-calculated binary 32-bit representation of mantissa of
 		 * powers of 10 in the range of [-50, 50] for single precision
@@ -267,10 +272,22 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -50, 50 };
 	};
 
-	constexpr decltype(powers_ten<float>::f) powers_ten<float>::f;
-	constexpr decltype(powers_ten<float>::e) powers_ten<float>::e;
-	constexpr std::size_t powers_ten<float>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<float>::boundaries;
+	template<typename FloatType>
+	constexpr std::uint32_t powers_ten_single<FloatType>::f[];
+
+	template<typename FloatType>
+	constexpr int powers_ten_single<FloatType>::e[];
+
+	template<typename FloatType>
+	constexpr std::size_t powers_ten_single<FloatType>::pow_0_offset;
+
+	template<typename FloatType>
+	constexpr std::pair<int, int> powers_ten_single<FloatType>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for single precision
+	 * floating point type (`float`).
+	 */
+	template<> struct powers_ten<float> : powers_ten_single<float> {};
 }
 
 #endif // FLOAXIE_POWERS_TEN_SINGLE_H
-- 
2.43.0


From 9418eaa52e6aef9575417f7d182afa1f24e21925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 13/17] fix: recognize special values regardless of the current
 locale

---
 include/floaxie/krosh.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c8050a8..c94028e 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -18,7 +18,8 @@
 #define FLOAXIE_CROSH_H
 
 #include <vector>
-#include <locale>
+#include <array>
+#include <algorithm>
 #include <cstddef>
 #include <cmath>
 #include <cassert>
@@ -58,6 +59,18 @@ namespace floaxie
 	 */
 	constexpr int maximum_exponent(9999);
 
+	/** \brief Converts Latin letter to lower case, whatever the current locale is.
+	 *
+	 * \param c character to convert.
+	 *
+	 * \return lower case letter, if \p **c** is a Latin letter in upper case,
+	 * \p **c** itself otherwise.
+	 */
+	template<typename CharType> constexpr inline CharType to_lower(CharType c) noexcept
+	{
+		return c >= 'A' && c <= 'Z' ? static_cast<CharType>(c - 'A' + 'a') : c;
+	}
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -84,7 +97,7 @@ namespace floaxie
 				do
 					++cp;
 				while ((*cp >= '0' && *cp <= '9') ||
-					   (std::tolower(*cp, std::locale()) >= 'a' && std::tolower(*cp, std::locale()) <= 'z') ||
+					   (to_lower(*cp) >= 'a' && to_lower(*cp) <= 'z') ||
 						*cp == '_');
 
 				if (*cp == ')')
@@ -121,7 +134,7 @@ namespace floaxie
 				const std::array<CharType, 4> suffix {{ 'n', 'i', 't', 'y' }};
 				auto it = suffix.cbegin();
 
-				while (it != suffix.cend() && std::tolower(*cp, std::locale()) == *it)
+				while (it != suffix.cend() && to_lower(*cp) == *it)
 				{
 					++cp;
 					++it;
-- 
2.43.0


From a78d10a1c6ba51fba448eaa65eba773d8006c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 14/17] fix: don't let current locale change decimal point of
 the default fallback

---
 include/floaxie/default_fallback.h | 88 ++++++++++++++++++++++++++++--
 1 file changed, 82 insertions(+), 6 deletions(-)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index 9058921..ceba20e 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -18,14 +18,90 @@
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
 #include <cerrno>
+#include <cstddef>
+#include <cstdio>
 #include <cstdlib>
 #include <cwchar>
+#include <string>
 
 #include <floaxie/conversion_status.h>
 #include <floaxie/huge_val.h>
 
 namespace floaxie
 {
+	/** \brief Prints number with decimal point to find out what the latter is
+	 * in the current locale, `char` version.
+	 */
+	inline int print_point(char* buffer, std::size_t size)
+	{
+		return std::snprintf(buffer, size, "%.1f", 0.5);
+	}
+
+	/** \brief Prints number with decimal point to find out what the latter is
+	 * in the current locale, `wchar_t` version.
+	 */
+	inline int print_point(wchar_t* buffer, std::size_t size)
+	{
+		return std::swprintf(buffer, size, L"%.1f", 0.5);
+	}
+
+	/** \brief Calls conversion function of C Standard Library so, that decimal
+	 * point is always '.', while the function itself expects the one of the
+	 * current locale.
+	 *
+	 * \param convert conversion function of C Standard Library to call.
+	 * \param str string to parse.
+	 * \param str_end out parameter, as of the conversion function.
+	 *
+	 * \return result of the conversion function.
+	 */
+	template<typename FloatType, typename CharType>
+	inline FloatType convert_with_point(FloatType (*convert)(const CharType*, CharType**), const CharType* str, CharType** str_end)
+	{
+		CharType buffer[32];
+		const int length(print_point(buffer, 32));
+
+		// the buffer contains '0', decimal point and '5'
+		if (length < 3 || (length == 3 && buffer[1] == '.'))
+			return convert(str, str_end);
+
+		const std::basic_string<CharType> point(buffer + 1, length - 2);
+		std::basic_string<CharType> localized;
+		std::size_t point_end(0);
+
+		const CharType* cp = str;
+		for (; (*cp >= '0' && *cp <= '9') || *cp == '+' || *cp == '-' || *cp == 'e' || *cp == 'E' || (*cp == '.' && !point_end); ++cp)
+		{
+			if (*cp == '.')
+			{
+				localized += point;
+				point_end = localized.size();
+			}
+			else
+			{
+				localized += *cp;
+			}
+		}
+
+		if (cp == str)
+			return convert(str, str_end);
+
+		CharType* localized_end;
+		const FloatType ret(convert(localized.c_str(), &localized_end));
+
+		if (str_end)
+		{
+			std::size_t consumed(localized_end - localized.c_str());
+
+			if (point_end && consumed >= point_end)
+				consumed -= point.size() - 1;
+
+			*str_end = const_cast<CharType*>(str) + consumed;
+		}
+
+		return ret;
+	}
+
 	/** \brief Function template to wrap C Standard Library floating point
 	 * parse function based on floating-point type and character type (normal
 	 * or wide).
@@ -38,37 +114,37 @@ namespace floaxie
 	/** \brief `float` and `char`. */
 	template<> inline float default_fallback<float, char>(const char* str, char** str_end)
 	{
-		return std::strtof(str, str_end);
+		return convert_with_point(std::strtof, str, str_end);
 	}
 
 	/** \brief `double` and `char`. */
 	template<> inline double default_fallback<double, char>(const char* str, char** str_end)
 	{
-		return std::strtod(str, str_end);
+		return convert_with_point(std::strtod, str, str_end);
 	}
 
 	/** \brief `long double` and `char`. */
 	template<> inline long double default_fallback<long double, char>(const char* str, char** str_end)
 	{
-		return std::strtold(str, str_end);
+		return convert_with_point(std::strtold, str, str_end);
 	}
 
 	/** \brief `float` and `wchar_t`. */
 	template<> inline float default_fallback<float, wchar_t>(const wchar_t* str, wchar_t** str_end)
 	{
-		return std::wcstof(str, str_end);
+		return convert_with_point(std::wcstof, str, str_end);
 	}
 
 	/** \brief `double` and `wchar_t`. */
 	template<> inline double default_fallback<double, wchar_t>(const wchar_t* str, wchar_t** str_end)
 	{
-		return std::wcstod(str, str_end);
+		return convert_with_point(std::wcstod, str, str_end);
 	}
 
 	/** \brief `long double` and `wchar_t`. */
 	template<> inline long double default_fallback<long double, wchar_t>(const wchar_t* str, wchar_t** str_end)
 	{
-		return std::wcstold(str, str_end);
+		return convert_with_point(std::wcstold, str, str_end);
 	}
 
 	/** \brief Returns `conversion_status` based on `errno` value.
-- 
2.43.0


From ac6eab2b09e0c7bbb98b8a11c9ca2412b2ef19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 15/17] fix: make streaming of diy_fp work for any character
 type

---
 include/floaxie/diy_fp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 803bbf5..6bcc2af 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -488,7 +488,7 @@ namespace floaxie
 		template<typename Ch, typename Alloc>
 		friend std::basic_ostream<Ch, Alloc>& operator<<(std::basic_ostream<Ch, Alloc>& os, const diy_fp& v)
 		{
-			os << "(f = " << print_binary(v.m_f) << ", e = " << v.m_e << ')';
+			os << "(f = " << print_binary(v.m_f).c_str() << ", e = " << v.m_e << ')';
 			return os;
 		}
 
-- 
2.43.0


From 68be8401e71abaef876b52ae1aa3821cbd60370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:31 +0000
Subject: [PATCH 16/17] fix: errno is given back when the fallback conversion
 throws

The error number of earlier calls was put aside during the fallback
conversion, but lost if that ended by an exception.
---
 include/floaxie/atof.h             |  6 +-----
 include/floaxie/default_fallback.h | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 8293390..f54b10f 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -114,15 +114,11 @@ namespace floaxie
 			else
 			{
 				// ignore any error reported by previous calls
-				const auto saved_errno = errno;
-				errno = 0;
+				const errno_keeper keeper;
 
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
-				if (!errno)
-					errno = saved_errno;
-
 				return result;
 			}
 		}
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index ceba20e..d36bb91 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -147,6 +147,25 @@ namespace floaxie
 		return convert_with_point(std::wcstold, str, str_end);
 	}
 
+	/** \brief Clears `errno` for a conversion, and gives the previous value back
+	 * when leaving the scope, normally or by exception, if no error was
+	 * reported meanwhile.
+	 */
+	struct errno_keeper
+	{
+		/** \brief Puts the current value of `errno` aside. */
+		errno_keeper() noexcept : m_saved(errno) { errno = 0; }
+
+		/** \brief Gives it back. */
+		~errno_keeper() { if (!errno) errno = m_saved; }
+
+		errno_keeper(const errno_keeper&) = delete;
+		errno_keeper& operator=(const errno_keeper&) = delete;
+
+	private:
+		int m_saved;
+	};
+
 	/** \brief Returns `conversion_status` based on `errno` value.
 	 *
 	 * Analyzes current value of `errno` together with the passed conversion
-- 
2.43.0


From 41fd94cde82ed263e7eef9badb1e64a3ea2118f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:00 +0000
Subject: [PATCH 17/17] fix: the default fallback accepts in any locale what it
 does in the one of C

---
 include/floaxie/default_fallback.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index d36bb91..4c7e4fc 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -45,6 +45,15 @@ namespace floaxie
 		return std::swprintf(buffer, size, L"%.1f", 0.5);
 	}
 
+	/** \brief Checks, if the character may occur in a floating point value, as
+	 * understood by C Standard Library, the decimal point aside.
+	 */
+	template<typename CharType> constexpr inline bool is_value_character(CharType c) noexcept
+	{
+		return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+			c == '+' || c == '-' || c == '_' || c == '(' || c == ')';
+	}
+
 	/** \brief Calls conversion function of C Standard Library so, that decimal
 	 * point is always '.', while the function itself expects the one of the
 	 * current locale.
@@ -69,8 +78,12 @@ namespace floaxie
 		std::basic_string<CharType> localized;
 		std::size_t point_end(0);
 
+		// take everything what may belong to the value
 		const CharType* cp = str;
-		for (; (*cp >= '0' && *cp <= '9') || *cp == '+' || *cp == '-' || *cp == 'e' || *cp == 'E' || (*cp == '.' && !point_end); ++cp)
+		for (; *cp == ' ' || (*cp >= '\t' && *cp <= '\r'); ++cp)
+			localized += *cp;
+
+		for (; is_value_character(*cp) || (*cp == '.' && !point_end); ++cp)
 		{
 			if (*cp == '.')
 			{
@@ -83,9 +96,6 @@ namespace floaxie
 			}
 		}
 
-		if (cp == str)
-			return convert(str, str_end);
-
 		CharType* localized_end;
 		const FloatType ret(convert(localized.c_str(), &localized_end));
 
-- 
2.43.0

