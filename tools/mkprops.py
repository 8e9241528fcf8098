#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
R = "include/floaxie/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files],
            state=[dict(name=a, meaning=b, where=R+c) for a, b, c in state],
            mechanism=[dict(name=a, where=R+b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Printed text identifies the printed value exactly",
  "For every finite non-zero float or double, the decimal number written by ftoa() lies in the value's own round-to-nearest-even interval and carries its sign, so that any correctly rounding reader gets back exactly the bits that were printed.",
  ["inputs"], "all 2^32 float and 2^64 double bit patterns that are finite and non-zero (normal, subnormal, binade boundaries, extremes)",
  "power_of_two_boundaries tests 42 values through strtod; a wrong cached power, boundary or digit-loop step shows up only for particular exponents and mantissas.",
  ["ftoa.h", "grisu.h", "diy_fp.h", "cached_power.h", "powers_ten_single.h", "powers_ten_double.h", "k_comp.h"],
  [("boundaries(): M-/M+ midpoints, asymmetric at powers of two", "diy_fp.h"), ("grisu2(): scaling, conservative ++w_m/--w_p", "grisu.h"), ("digit_gen: emits digits of M+ until inside delta", "grisu.h"), ("pre-computed powers of ten", "powers_ten_double.h")],
  [("Mp, Mm", "scaled upper/lower boundary of the printed value", "grisu.h"), ("K", "decimal exponent of the generated digits", "grisu.h")],
  ["ftoa(v, buffer)"])
p("C02", "Printing then parsing with the library returns the same value",
  "For every finite float or double, parsing the text printed by ftoa() with atof() of the same type consumes the whole text, reports success and returns a value equal to the original (bit-identical unless it is a negative zero, which prints as 0).",
  ["inputs"], "all finite float and double values; both conversions composed",
  "The full-circle tests cannot be built (their data file is missing) and would sample one random list; the two algorithms meet in corner cases (carry into the next binade, subnormals, shortest forms) that no fixed list covers.",
  ["ftoa.h", "atof.h", "grisu.h", "krosh.h", "prettify.h", "diy_fp.h"],
  [("ftoa()", "ftoa.h"), ("krosh()", "krosh.h"), ("downsample(): rounding of the scaled significand", "diy_fp.h")],
  [], ["ftoa(v, buffer)", "atof<T>(buffer, &end)"])
p("C03", "Printed text is canonical and uses the documented notation",
  "The text for a finite non-zero value is an optional '-', then decimal digits with an optional '.', then optionally 'e', an optional '-' and the exponent written with two digits, or three if it needs them; it has no '+', no redundant leading zero, no trailing '.' and no trailing fractional zero. Plain decimal notation is used exactly when neither the integer part nor the fraction part of the printed number needs more than 16 digits; otherwise exponent notation with exactly one non-zero digit before the point is used.",
  ["inputs"], "all finite non-zero float and double values, every number of digits and decimal exponent, both sides of the notation threshold",
  "No test looks at the text itself except '0' and '0.5'; layout depends on digit count and exponent jointly (several hundred combinations).",
  ["prettify.h", "ftoa.h", "grisu.h"],
  [("choose_format<16>()", "prettify.h"), ("print_decimal(): shifts, zero fill, point", "prettify.h"), ("print_scientific(), fill_exponent()", "prettify.h")],
  [("len, k", "number of generated digits and their decimal exponent", "prettify.h")], ["ftoa(v, buffer)"])
p("C04", "Returned length, terminator and buffer bound of printing agree",
  "For every value of float or double (NaN, infinities and zeros included), ftoa() returns the number of characters before the terminating NUL it writes, and it touches no character of memory before the buffer or at or beyond max_buffer_size<T>() characters.",
  ["inputs"], "all float and double bit patterns, char and wide buffers of exactly the advertised size",
  "ftoa_len cannot be built and ftoa_zero checks one value; an off-by-one in a length term or an over-long write needs particular digit counts and exponents, and writes past the end are invisible to the tests.",
  ["ftoa.h", "prettify.h", "grisu.h"],
  [("max_buffer_size(), max_digits()", "ftoa.h"), ("return values of print_decimal/print_scientific/fill_exponent", "prettify.h")],
  [], ["ftoa() return value and the memory around the buffer"])
p("C05", "Printed text is compact",
  "No float is printed with more than 9 and no double with more than 17 significant digits, and over uniformly distributed bit patterns of normal values at least 99% of the outputs have the minimum number of significant digits that identifies the value.",
  ["inputs"], "all finite non-zero floats and doubles for the bound; the uniform distribution over normal values for the 99% guarantee",
  "The guarantee is about the whole value set and a distribution over it; no test measures digit counts.",
  ["grisu.h", "diy_fp.h"],
  [("digit_gen stops as soon as the remainder is within delta", "grisu.h"), ("boundaries()", "diy_fp.h")],
  [("delta", "width of the admissible interval", "grisu.h")], ["ftoa(v, buffer)"])
p("C06", "Special values, zeros and signs print in their fixed form",
  "ftoa() prints every NaN as 'nan', positive infinity as 'inf', negative infinity as '-inf' and both zeros as '0'; for every finite non-zero value the text of -v is exactly '-' followed by the text of v.",
  ["inputs"], "every NaN payload, infinities, zeros, and every finite non-zero value paired with its negation",
  "ftoa_zero checks positive double zero only; no test prints NaN, infinity, a negative zero or a negative value.",
  ["ftoa.h"], [("special-value branches and sign prefix of ftoa()", "ftoa.h")], [], ["ftoa(v, buffer)"])
p("C07", "Decimal literals parse to the correctly rounded value",
  "For every decimal literal of up to 2048 characters whose value rounds to a finite number, atof() returns the float or double nearest to the exact value of the literal (ties to even, subnormals included) with the sign of the literal.",
  ["inputs"], "all decimal literals: any number of digits, any point position, any exponent, halfway cases and values one digit away from them",
  "atof_test has 33 literals; misrounding happens for one in thousands of random literals and for each cached power, digit count and rounding pattern separately.",
  ["atof.h", "krosh.h", "fraction.h", "diy_fp.h", "bit_ops.h", "cached_power.h", "powers_ten_single.h", "powers_ten_double.h"],
  [("parse_digits(): significant digits, zero runs, decimal exponent", "krosh.h"), ("operator*=, downsample(), round_up(), accuracy flag", "diy_fp.h"), ("fallback conversion when unsure", "atof.h")],
  [("w", "approximate significand and exponent", "krosh.h"), ("is_accurate", "whether rounding is certain", "krosh.h")], ["atof<T>(), from_string<T>()"])
p("C08", "Out-of-range literals saturate with the right sign and status",
  "A literal whose correctly rounded magnitude exceeds the largest finite value yields infinity and status overflow; a non-zero literal that rounds to zero yields zero and status underflow; both keep the sign of the literal, and every other literal (zero, subnormal results included) reports success.",
  ["inputs"], "all decimal literals, in particular exponents of any length and mantissas that compensate large exponents, around both range limits of float and double",
  "overflow and underflow tests use four literals, all positive and far from the limits.",
  ["krosh.h", "atof.h", "diy_fp.h", "default_fallback.h", "huge_val.h"],
  [("power range check in krosh()", "krosh.h"), ("range checks in downsample()", "diy_fp.h"), ("check_errno()", "default_fallback.h"), ("parse_exponent()", "krosh.h")],
  [], ["value and status of atof<T>()"])
p("C09", "Parsing consumes exactly the longest numeric prefix",
  "For strings of up to 2048 characters, atof() sets the end pointer just past the longest prefix matching the documented grammar (optional sign; digits with an optional point, at least one digit; optional e/E, optional sign, at least one digit; or an infinity or NaN form), and what follows the prefix does not influence the value; when there is no such prefix it sets the end pointer to the start and returns positive zero with success.",
  ["inputs"], "all character strings, any characters, literals followed by anything, incomplete literals",
  "The end pointer is asserted for 'aazz' and a dozen inf/nan strings; incomplete exponents, lone points and signs, repeated points and trailing characters are not covered.",
  ["krosh.h", "atof.h"],
  [("character loop of parse_digits()", "krosh.h"), ("parse_exponent()", "krosh.h"), ("str_end handling in atof()", "atof.h")],
  [("pos, dot_set, sign_set", "scanner state", "krosh.h")], ["value, status and *str_end of atof<T>()"])
p("C10", "Infinity and NaN spellings are recognised exactly",
  "atof() recognises 'inf', 'infinity', 'nan' and 'nan(' followed by any letters, digits or underscores and ')' in any letter case with an optional sign, consuming exactly the longest such form, and returns the infinity of that sign or a NaN with status success; nothing else yields a NaN, and an infinity otherwise comes only with status overflow.",
  ["inputs"], "all strings over letters, parentheses, digits and signs, every case variation and truncation of the spellings",
  "inf and nan tests use nine spellings each, a few case patterns and no partial parenthesised form beyond one.",
  ["krosh.h", "atof.h"], [("eat_inf(), eat_nan()", "krosh.h"), ("special branch of krosh()", "krosh.h")], [], ["value, status and *str_end of atof<T>()"])
p("C11", "The fallback conversion is consulted only when needed, and obeyed",
  "A caller-supplied fallback is called at most once per parse, with the caller's string and end pointer, never for specials, zeros or strings without a number, and only when the literal is within 1/16 unit in the last place of a rounding boundary or in the subnormal range; its value and end pointer are then returned unchanged, and an exception it throws reaches the caller. Every entry point taking a fallback (with and without an end pointer, from_string()) and every kind of callable consults it for the same strings. Whenever it is not called, the returned value is already the correctly rounded one.",
  ["inputs", "programs"], "all strings and all fallback functions (including ones that return arbitrary values), char and wide, with and without an end pointer",
  "Tests only count fallback calls and print the count; a fallback that is skipped when needed, called always, or whose answer is dropped passes them.",
  ["atof.h", "krosh.h", "diy_fp.h", "bit_ops.h", "default_fallback.h"],
  [("is_accurate decision of downsample()", "diy_fp.h"), ("fallback branch of atof()", "atof.h"), ("default_fallback<>", "default_fallback.h")],
  [("is_accurate", "certainty of rounding", "krosh.h")], ["calls to the fallback callable; value and *str_end of atof<T>()"])
p("C12", "Conversions are pure: no history, errno or thread dependence",
  "The result of every conversion (text, value, end, status) depends on its arguments only: it is the same for every order and number of preceding conversions, every errno value left by earlier calls, any number of threads converting at the same time, and calls made from within a fallback conversion while another parse is under way; the input string is never modified.",
  ["schedules", "histories"], "all sequences of calls and environment changes within a thread and all interleavings of concurrent calls",
  "Every test calls the library from one thread in one fixed order with errno clear.",
  ["atof.h", "ftoa.h", "krosh.h", "grisu.h", "default_fallback.h"],
  [("no shared mutable state; locals only", "krosh.h"), ("errno handling around the fallback", "atof.h"), ("check_errno()", "default_fallback.h")],
  [("errno", "error state left by any C library call", "default_fallback.h")], ["replies of concurrent and repeated calls"])
p("C13", "All character types and wrappers give the same result",
  "For every value, ftoa() into char, wchar_t, char16_t and char32_t buffers and to_string(), to_wstring(), to_u16string() and to_u32string() produce the same characters; for every string of ASCII characters, atof() on char and wchar_t, with or without an end pointer, and from_string() on std::string and std::wstring give the same value, status and consumed length, and so do these for char16_t and char32_t with a fallback of the caller's; from_string() reads a string up to its first null character.",
  ["inputs", "programs"], "all float and double values and all ASCII strings, across every public overload",
  "string_wrappers uses one wide parse and one narrow print; the u16/u32 wrappers are never instantiated.",
  ["ftoa.h", "atof.h", "memwrap.h", "default_fallback.h", "prettify.h"],
  [("to_basic_string()", "ftoa.h"), ("wrap::memset/memmove", "memwrap.h"), ("default_fallback<> per character type", "default_fallback.h"), ("from_string()", "atof.h")],
  [], ["all public printing and parsing entry points"])
p("C14", "Parsing any terminated string is safe and total",
  "For every NUL-terminated character string atof() and from_string() return normally: they read nothing before the string or past its terminator, never crash, hang, throw or run into undefined behaviour, and leave the end pointer inside the string.",
  ["inputs"], "all NUL-terminated narrow and wide strings, including arbitrary bytes, truncated literals, very long digit runs and exponents",
  "Tests pass well-formed short literals in ordinary memory where a stray read or an out-of-range table access goes unnoticed.",
  ["krosh.h", "atof.h", "static_pow.h", "cached_power.h", "fraction.h", "diy_fp.h"],
  [("scanner termination conditions", "krosh.h"), ("bounded exponent and power index", "krosh.h"), ("shift and index preconditions", "diy_fp.h")],
  [], ["process behaviour while calling atof<T>() and from_string<T>()"])
p("C15", "Equal decimals parse equally and order is preserved",
  "Two literals that denote the same decimal number parse to identical bits and status however they are spelled (leading or trailing zeros, point position against exponent, e or E, explicit plus), and a literal denoting a larger number never parses to a smaller value.",
  ["inputs"], "all pairs of decimal literals of up to 2048 characters",
  "A relation between pairs of inputs; no test compares two spellings or two neighbours.",
  ["krosh.h", "atof.h", "diy_fp.h"],
  [("zero-run and point bookkeeping of parse_digits()", "krosh.h"), ("exponent sum", "krosh.h")],
  [("pow_gain, zero_substring_length, fraction_digits_count", "decimal exponent bookkeeping", "krosh.h")], ["values of atof<T>() on related inputs"])
p("C16", "The extended-precision number type is exact where it claims to be",
  "Converting any finite non-zero value to the library's integer significand/exponent form, normalising it and converting back gives the same value; converting any normalised significand back rounds to nearest-even or reports overflow, underflow or inaccuracy (inaccuracy only for ties, within the error bound given, and below the smallest subnormal value); differences of numbers of the same exponent are exact; its product is within one unit of the exact one, its boundaries are the exact midpoints to the neighbouring values (never wider), and each tabulated power of ten is within half a unit of the exact power.",
  ["inputs"], "all float and double values, all normalised 32/64-bit significands with all exponents, all pairs of factors, all tabulated powers",
  "diy_fp tests use pi and six hand-picked pairs; the tables have 788 entries and none is checked.",
  ["diy_fp.h", "bit_ops.h", "cached_power.h", "powers_ten_single.h", "powers_ten_double.h"],
  [("diy_fp constructor, normalize(), downsample()", "diy_fp.h"), ("operator*=, ++, --, boundaries()", "diy_fp.h"), ("round_up()", "bit_ops.h"), ("tables", "powers_ten_double.h")],
  [("m_f, m_e", "significand and binary exponent", "diy_fp.h")], ["diy_fp operations, cached_power<T>(k), round_up()"])
p("C17", "Binary renderings show the exact bits",
  "print_binary() of a double shows its sign, exponent and mantissa bits separated by single spaces, print_binary() of an unsigned integer shows exactly its bits, and streaming an extended-precision number (to a stream of any character type) shows exactly its significand bits and exponent.",
  ["inputs"], "all double and unsigned integer values",
  "Tests only print these strings to the console.",
  ["print.h", "diy_fp.h", "type_punning_cast.h"], [("print_binary() overloads", "print.h"), ("operator<<", "diy_fp.h")], [], ["returned and streamed strings"])
p("C18", "errno and the fallback's error report are kept apart and passed on",
  "When the fallback conversion is consulted, the status is overflow if it reports ERANGE with an infinite value, underflow if it reports ERANGE with zero, and success otherwise, whatever errno held before the call; errno after any conversion, one which ends by an exception of the fallback included, is what it was before or the error its fallback reported (printing never changes it); and the default fallback of each floating type (long double included) and character type is the correctly rounding conversion of that very type.",
  ["histories", "inputs", "programs"], "all values of errno before a call, all fallback functions (any value, any errno, with calls of their own), all literals that need the fallback, float, double and long double, char and wchar_t",
  "Tests run with errno clear and the default fallback of one type; stale errors, negative overflow, subnormal results and the long double and wide specialisations are never observed.",
  ["default_fallback.h", "atof.h", "huge_val.h", "conversion_status.h"],
  [("errno saved, cleared, restored around the fallback", "atof.h"), ("check_errno()", "default_fallback.h"), ("default_fallback<> specialisations", "default_fallback.h"), ("huge_value<>", "huge_val.h")],
  [("errno", "error state shared with the caller and the C library", "default_fallback.h")], ["status of atof<T>(), errno before and after, replies of default_fallback<T, C>()"])
p("C19", "Any program may include the headers, in any order and any number of units",
  "A program in C++14 or later may include ftoa.h, atof.h, diy_fp.h and print.h in any order, in any number of translation units, and use them from all of these: it compiles and links, and every unit gets the same replies.",
  ["programs"], "all programs of several translation units including any sequence of the headers, for every language standard from C++14 on and both compilers",
  "Each test is one translation unit including the headers in one fixed order, so multiple definitions, missing includes and unit-dependent definitions never show.",
  ["ftoa.h", "atof.h", "diy_fp.h", "print.h", "powers_ten.h", "powers_ten_single.h", "powers_ten_double.h", "cached_power.h", "default_fallback.h", "huge_val.h", "fraction.h", "k_comp.h", "static_pow.h"],
  [("inline functions, templates and their specialisations", "default_fallback.h"), ("static tables as template members", "powers_ten_double.h"), ("print_binary() overloads", "print.h")],
  [], ["compilation, linking and replies of generated programs"])
p("C20", "Locale and rounding mode don't matter",
  "Whatever locale is current - in the C library, the C++ library or the thread - ftoa(), atof(), from_string() and the default fallback give the same replies as in the \"C\" locale: '.' is the decimal point, and special values are spelled with Latin letters only. ftoa() gives the same text in every rounding mode, and atof() the same reply wherever it doesn't consult the fallback. No conversion changes locale or rounding mode, whatever other threads are doing.",
  ["inputs", "configurations"], "all values and strings under every locale (decimal points of any characters, any rules for letter case) and every rounding mode, however they were set",
  "Tests run in the default locale and rounding mode only; a decimal comma or Turkish letter case changes replies for the few literals which need the fallback or spell infinity in capitals.",
  ["default_fallback.h", "krosh.h", "atof.h", "ftoa.h", "k_comp.h", "grisu.h"],
  [("convert_with_point(): fallback under a locale with another decimal point", "default_fallback.h"), ("eat_inf(), eat_nan(): letter case", "krosh.h"), ("integer arithmetic throughout", "diy_fp.h")],
  [("locale", "process-wide and per-thread locale of the C and C++ libraries", "default_fallback.h")], ["replies of all public entry points under changed locales and rounding modes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
