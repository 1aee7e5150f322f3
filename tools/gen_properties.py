#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=["include/floaxie/" + f for f in files],
                               state=[dict(name=n, meaning=m, where="include/floaxie/" + w) for n, m, w in state],
                               mechanism=[dict(name=n, where="include/floaxie/" + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

PRINT = ["ftoa.h", "grisu.h", "prettify.h", "diy_fp.h", "cached_power.h", "powers_ten_double.h", "k_comp.h"]
PARSE = ["atof.h", "krosh.h", "diy_fp.h", "cached_power.h", "fraction.h", "bit_ops.h", "default_fallback.h"]

prop("C01", "Printed double text reads back as exactly the same value",
 "For every finite double, of either sign, the text produced by printing it is a decimal number whose correctly rounded double value is bit for bit the printed one (negative zero is printed as zero). This holds for every binary exponent, subnormals and the extreme values included.",
 ["inputs"], "all 2^64 double bit patterns",
 "the tests print a handful of values; a wrong digit shows up only for particular mantissa/exponent combinations",
 PRINT, [("digit generation inside the rounding interval", "grisu.h"), ("boundary computation", "diy_fp.h"), ("decimal layout", "prettify.h")],
 observe=["text written by ftoa<double>", "strtod / std::from_chars of that text"])

prop("C02", "Printed float text reads back as exactly the same value",
 "For every finite float, of either sign, the text produced by printing it is a decimal number whose correctly rounded float value is bit for bit the printed one (negative zero is printed as zero). There is no exception among all single precision values.",
 ["inputs"], "all 2^32 float bit patterns",
 "the tests print no more than a few floats out of 2^32",
 ["ftoa.h", "grisu.h", "prettify.h", "diy_fp.h", "cached_power.h", "powers_ten_single.h", "k_comp.h"],
 [("digit generation inside the rounding interval", "grisu.h"), ("single precision power table", "powers_ten_single.h")],
 observe=["text written by ftoa<float>", "strtof of that text"])

prop("C03", "Printed text follows the documented notations in canonical form",
 "The printed text is 'nan', 'inf', '-inf', '0', or an optional minus sign followed by a number whose first significant digit is never preceded by superfluous zeros: in decimal notation (digits with a decimal point, '0.' for values below one) when it needs at most 16 positions on either side of the point, otherwise in exponent notation with one digit before the point, no plus sign, and an exponent of two or three digits. The minus sign appears exactly for negative non-zero values, the significant digits end in a non-zero digit, and nothing else (no locale separators, spaces or stray characters) ever occurs.",
 ["inputs"], "all float and double values, all layouts (position of the point, number of digits, exponent width)",
 "the tests fix a few literal outputs; the layout decision depends on digit count and exponent jointly",
 ["ftoa.h", "prettify.h", "grisu.h"], [("decimal/scientific choice", "prettify.h"), ("exponent digits", "prettify.h")],
 observe=["text written by ftoa"])

prop("C04", "Printing stays inside the documented buffer and reports its length",
 "Printing any float or double value writes only inside a buffer of the advertised maximum size, never reads or writes outside it, terminates the text, and returns exactly the number of characters before the terminator. This needs no particular previous content of the buffer and involves no undefined behaviour.",
 ["inputs"], "all float/double bit patterns, all supported character types, arbitrary buffer contents and placement",
 "tests use generous buffers on the stack and no sanitizer, so an overrun or a wrong length for a rare layout stays silent",
 ["ftoa.h", "grisu.h", "prettify.h", "memwrap.h"], [("max_buffer_size", "ftoa.h"), ("length bookkeeping", "prettify.h")],
 observe=["guard page faults, canaries, ASan/UBSan reports, ftoa's return value"])

prop("C05", "Printed text is short",
 "A printed double never has more than 17 significant digits and a printed float never more than 9. Over values spread evenly across the bit patterns, at least 99 percent of the printed texts have the minimum number of significant digits that still identifies the value.",
 ["inputs"], "all finite values for the bound; the distribution of all values for the rate",
 "shortness is a statement about digit counts over the whole value space; tests look at single values",
 ["grisu.h", "diy_fp.h", "ftoa.h", "k_comp.h"], [("early termination of digit generation", "grisu.h"), ("width of the rounding interval", "diy_fp.h")],
 observe=["text written by ftoa", "shortest digits by std::to_chars"])

prop("C06", "Every character type and wrapper prints the same text",
 "For every value, printing to char, wchar_t, char16_t and char32_t (and, where the language has it, char8_t) buffers and through each string-returning function yields the same sequence of characters, and the returned strings have exactly that length without embedded or trailing terminators.",
 ["inputs", "programs"], "all values times all supported character types and string wrappers",
 "tests call a few wrappers on a few values; the wide variants run different memory routines",
 ["ftoa.h", "memwrap.h", "prettify.h"], [("per character type fill and move", "memwrap.h"), ("string construction", "ftoa.h")],
 observe=["ftoa<.., CharT> and to_*string results"])

prop("C07", "Parsing a double yields the correctly rounded value",
 "For every decimal number text of up to 2048 characters, parsing it as double returns the double nearest to the exact mathematical value of the text, ties going to even, whatever the number of digits, leading or trailing zeros, position of the decimal point and exponent. Values beyond the range give infinity or zero of the proper sign.",
 ["inputs"], "all decimal texts up to the documented 2048 characters (C locale, default rounding mode)",
 "misrounding occurs for rare texts near midpoints; the tests contain only a few such texts",
 PARSE + ["powers_ten_double.h"], [("accuracy detection", "krosh.h"), ("downsampling", "diy_fp.h"), ("digits beyond the capacity", "krosh.h")],
 observe=["value returned by atof<double>", "strtod of the same text"])

prop("C08", "Parsing a float yields the correctly rounded value",
 "For every decimal number text of up to 2048 characters, parsing it as float returns the float nearest to the exact mathematical value of the text (a single rounding, ties to even), including subnormal results and texts with far more digits than a float holds. Values beyond the range give infinity or zero of the proper sign.",
 ["inputs"], "all decimal texts up to the documented 2048 characters (C locale, default rounding mode)",
 "misrounding and double rounding occur for rare texts near float midpoints; the tests contain hardly any",
 PARSE + ["powers_ten_single.h"], [("accuracy detection", "krosh.h"), ("downsampling", "diy_fp.h"), ("range of the single precision power table", "powers_ten_single.h")],
 observe=["value returned by atof<float>", "strtof of the same text"])

prop("C09", "Parsing consumes exactly the documented number syntax",
 "The reported end of the parsed number is right after the longest prefix of the form [sign] digits-with-optional-point [e|E [sign] digits]; an incomplete exponent part, a second point or any other character is left unread. If the text doesn't start with a number (leading space, lone sign, lone point and so on), nothing is consumed and the result is zero with successful status.",
 ["inputs"], "all texts up to 2048 characters, any terminating character, both character types and float types",
 "the tests check the end pointer for a few texts; the extent depends on every character that may follow",
 ["atof.h", "krosh.h"], [("digit scanner", "krosh.h"), ("exponent scanner", "krosh.h")],
 observe=["str_end of atof", "an independently written grammar scanner"])

prop("C10", "Conversion status tells overflow and underflow truthfully",
 "The status is overflow exactly when the correctly rounded magnitude exceeds the largest finite value (the value then is infinity with the sign of the text), underflow exactly when a non-zero number rounds to zero (the value then is zero with the sign of the text), and success otherwise, including for subnormal results, zeros with any exponent and explicit infinities. The decision is exact at the limits, however the number is spelt.",
 ["inputs"], "all decimal texts up to 2048 characters; in particular both sides of every range limit, in every spelling",
 "tests probe one far overflow and one far underflow per type",
 ["atof.h", "krosh.h", "diy_fp.h", "default_fallback.h", "conversion_status.h", "huge_val.h"], [("range checks by decimal exponent", "krosh.h"), ("range checks by binary exponent", "diy_fp.h"), ("errno interpretation", "default_fallback.h")],
 observe=["status and value of atof"])

prop("C11", "Special values are recognised in every spelling and only there",
 "The texts nan, inf and infinity, in any mixture of cases and with an optional sign, and nan followed by a parenthesised, possibly empty sequence of letters, digits and underscores are read as a quiet NaN or an infinity, either with that sign, with successful status and the whole special text consumed. Incomplete or different words consume just the complete recognised part ('infinit' reads 'inf', an unclosed 'nan(' reads 'nan') or nothing.",
 ["inputs"], "all case mixtures, signs, prefixes, suffixes and n-char sequences, both character types",
 "the tests try a few spellings; every case mixture and following character matters",
 ["krosh.h", "atof.h"], [("NaN scanner", "krosh.h"), ("infinity scanner", "krosh.h")],
 observe=["value, status and str_end of atof"])

prop("C12", "All parsing entry points agree",
 "For every text, parsing it as narrow or wide characters, with or without asking for the end of the number, from a raw buffer or from a string object, gives the same value, the same status and the same consumed length; with a caller supplied fallback the same holds for char16_t and char32_t text. A string with embedded terminators is read up to the first one.",
 ["inputs", "programs"], "all texts times all entry points and argument forms",
 "tests call each entry point on separate few inputs and don't compare them",
 ["atof.h", "krosh.h", "default_fallback.h"], [("overload forwarding", "atof.h")],
 observe=["results of every atof/from_string form on the same text"])

prop("C13", "The fallback conversion is used exactly as documented",
 "A caller supplied fallback is called at most once per conversion, with the very text and end pointer passed by the caller, and its value and end pointer are what the caller gets; it is never called for special values, zeros or texts which are not numbers, and whether it is called doesn't depend on the entry point. Whenever it's not called, the result is already correctly rounded, and for printed representations of values it's rarely needed (below 2 percent for double and 5 percent for float). For numbers of random digits it is needed below 2 percent for double and 6 percent for float, when all the digits fit into the extended mantissa (19 and 9 digits), and below 4 and 20 percent otherwise.",
 ["inputs", "histories"], "all texts, all fallback callables",
 "tests pass one fallback on one text; the decision to use it depends on the distance of every text from a rounding boundary",
 ["atof.h", "krosh.h", "diy_fp.h", "default_fallback.h"], [("fallback call", "atof.h"), ("accuracy flag", "krosh.h")],
 observe=["calls received by a recording fallback"])

prop("C14", "Parsing is memory safe and free of undefined behaviour on any text",
 "Parsing any terminated text, however long or malformed, in any supported character type, never reads past the terminator or before the beginning, never writes to the text, never crashes or hangs, leaks nothing and involves no undefined behaviour. The reported end of the number always lies inside the text.",
 ["inputs"], "all terminated character sequences of any length and content",
 "the tests contain no hostile input and run without sanitizers",
 ["krosh.h", "atof.h", "fraction.h", "bit_ops.h", "diy_fp.h", "cached_power.h"], [("digit scanner lookups", "krosh.h"), ("power table indexing", "cached_power.h"), ("fraction digit extraction", "krosh.h")],
 observe=["guard page faults, ASan/UBSan/MSan reports, assertion failures, timeouts"])

prop("C15", "A value survives the print and parse circle of the library itself",
 "For every finite value other than negative zero, parsing with the library what the library printed gives the identical value (bit for bit), with successful status, consuming the whole text; infinities survive with their sign and NaNs stay NaNs. This holds for both float types and for narrow and wide text, and also when other text follows after a separator.",
 ["inputs"], "all float and double values",
 "the tests don't combine the two directions over the value space",
 PRINT + ["atof.h", "krosh.h"], [("printing", "ftoa.h"), ("parsing", "atof.h")],
 observe=["atof of the text written by ftoa"])

prop("C16", "Conversions may run concurrently in any number of threads",
 "Any number of threads may print and parse at the same time, sharing nothing but read-only text and values, without data races, and each call gives the result it gives alone.",
 ["schedules", "inputs"], "all interleavings of conversions in several threads",
 "the tests are single threaded",
 ["atof.h", "ftoa.h", "krosh.h", "grisu.h", "cached_power.h", "powers_ten.h"], [("absence of mutable shared state", "krosh.h"), ("errno is per thread", "atof.h")],
 observe=["ThreadSanitizer reports", "results of concurrent calls against serial ones"])

prop("C17", "Each conversion depends only on its argument and leaves no trace",
 "The result of a conversion depends neither on earlier conversions, their number and their outcome, nor on the current errno, the environment variables, the time, the calling thread, the previous contents of the buffers and the alignment or location of the text. A conversion leaves no trace: it doesn't keep or lose memory, doesn't modify its input, writes nothing to the standard streams, leaves the floating point control state and the locale as they were, and leaves errno either as it was or, only after parsing a number outside the range of normal values, set to ERANGE.",
 ["histories", "inputs"], "all sequences of conversions of any length mixed with arbitrary errno values and buffer contents",
 "each test makes a few calls in a fresh process with clean errno",
 ["atof.h", "ftoa.h", "krosh.h", "default_fallback.h"], [("errno save and restore", "atof.h"), ("no static state", "krosh.h")],
 state=[("errno", "may be stale from any previous call", "atof.h")],
 observe=["results along random histories against a fresh process", "allocation counters", "errno and rounding mode before and after"])

prop("C18", "Conversions don't depend on the current locale",
 "Whatever C and C++ global locales are set, printing gives the same text (decimal point '.', no grouping) and parsing accepts the same syntax with the same values, consumed lengths and statuses as in the \"C\" locale; conversions never change the locale.",
 ["configurations", "inputs"], "all locales (decimal comma, grouping, Turkish case rules, multibyte) times all inputs",
 "the tests run in the C locale only",
 ["krosh.h", "atof.h", "ftoa.h", "prettify.h", "default_fallback.h"], [("own digit and case handling", "krosh.h"), ("locale dependent C library fallback", "default_fallback.h")],
 observe=["results under each locale against those in the C locale"])

prop("C19", "Pre-calculated powers of ten are correct in every entry",
 "Every pre-calculated power of ten the conversions use (powers -343 to 343 for double, -50 to 50 for float) is normalized and within half a unit of the last place of the exact power. Looking up any of them gives that very power.",
 ["inputs"], "all 687 + 101 entries",
 "the tests touch a few entries indirectly; most table errors only shift results for particular exponents",
 ["powers_ten_double.h", "powers_ten_single.h", "powers_ten.h", "cached_power.h"], [("tables", "powers_ten_double.h"), ("index computation", "cached_power.h")],
 observe=["mantissa and exponent of every table entry against exact integer arithmetic"])

prop("C20", "Extended precision arithmetic keeps its stated accuracy",
 "Splitting a float or double into mantissa and exponent, normalizing it and rounding it back is the identity for every finite positive value, and rounding back an arbitrary extended value gives the nearest value (ties to even) or reports over- or underflow. The product of two extended values is within one unit of its last place of the exact product, increment and decrement move by one unit with carry handled, the difference of values with the same exponent is exact, and the interval boundaries calculated for a value enclose only numbers that round to this value, the upper one being the exact midpoint.",
 ["inputs"], "all values and all pairs of mantissas and exponents within range",
 "tests check a few increments, conversions and boundaries",
 ["diy_fp.h", "bit_ops.h", "type_punning_cast.h"], [("decomposition and downsampling", "diy_fp.h"), ("multiplication", "diy_fp.h"), ("boundaries", "diy_fp.h"), ("rounding decision", "bit_ops.h")],
 observe=["diy_fp results against 128 bit and long double arithmetic"])

prop("C21", "Results are the same in every supported build configuration",
 "The headers compile, also when included in several translation units of one program, each of them also as the first one, with both compilers, each language standard from C++14 on, any optimisation level, with assertions on or off, with signed or unsigned plain char and with or without exceptions, and the same inputs give the same texts, values, statuses and consumed lengths in all of them.",
 ["configurations", "programs"], "compilers x standards x optimisation levels x assertion settings x char signedness x multi-unit programs, times all inputs",
 "the tests are built in one configuration, one translation unit per program",
 ["ftoa.h", "atof.h", "powers_ten.h", "powers_ten_double.h", "powers_ten_single.h", "krosh.h", "static_pow.h"], [("inline and template definitions", "powers_ten_double.h"), ("constexpr arithmetic", "k_comp.h"), ("value dependent assertions", "diy_fp.h")],
 observe=["digest of the results of one workload in every configuration"])

prop("C22", "Different spellings of one number give one result",
 "Rewriting a number text without changing its mathematical value - adding leading zeros, trailing zeros after the point, a plus sign, zeros in the exponent, 'E' for 'e', or moving the point while adjusting the exponent accordingly - changes neither the parsed value nor the status.",
 ["inputs"], "all number texts times all value preserving rewritings up to 2048 characters",
 "tests use one spelling per value",
 ["krosh.h", "atof.h"], [("zero run bookkeeping", "krosh.h"), ("decimal exponent bookkeeping", "krosh.h")],
 observe=["values and statuses of atof for a family of spellings"])

prop("C23", "Conversions are symmetric in sign and monotonic in magnitude",
 "Printing a negated non-zero value gives the same text with a minus sign in front, and parsing a text with a minus sign in front gives the exactly negated value (zero, subnormal, overflow and underflow results included), the same status and one more character consumed. Of two numbers, parsing never gives a smaller value for the larger one.",
 ["inputs"], "all values and texts, all pairs of texts",
 "the tests hardly use negative values and never compare results",
 ["ftoa.h", "atof.h", "krosh.h", "diy_fp.h"], [("sign application", "krosh.h"), ("sign printing", "ftoa.h")],
 observe=["paired calls of ftoa and atof"])

prop("C24", "The provided default fallback and range check mirror the C library",
 "For each float type, long double included, and for narrow and wide text, the provided default fallback returns exactly the value and end pointer of the C library function for this type. The provided range check reports, from errno and the returned value, overflow for huge results, underflow for zero results and success otherwise, and itself leaves errno unchanged.",
 ["inputs", "programs"], "all texts times the six type combinations; all errno and value combinations",
 "the test covers one text per combination; a fallback of the wrong precision agrees on most texts",
 ["default_fallback.h", "conversion_status.h"], [("specializations", "default_fallback.h"), ("errno interpretation", "default_fallback.h")],
 observe=["results of default_fallback and check_errno against strtof/strtod/strtold/wcsto*"])

prop("C25", "Diagnostic renderings show the exact bits",
 "The binary rendering of a double shows its sign, eleven exponent bits and 52 mantissa bits, separated by spaces, and that of an integer of any width, signed or unsigned, shows exactly its bits, so that the value can be restored from the text; the rendering of a 64 bit integer as a normalized double shows its highest bit, the 52 bits below it, the next bit (which decides the rounding) and the ten remaining ones, separated by spaces. Writing an extended value to an output stream, narrow or wide, shows its mantissa in binary and its exponent as the stream shows integers (in decimal by default) and leaves the formatting state of the stream as it was.",
 ["inputs"], "all bit patterns of the rendered types",
 "no test looks at these texts apart from being compiled into messages",
 ["print.h", "diy_fp.h", "bit_ops.h"], [("renderings", "print.h"), ("stream output", "diy_fp.h")],
 observe=["text of print_binary, print_double_presentation and operator<<"])

prop("C26", "Failures pass cleanly through the conversions",
 "When memory runs out during a conversion, it ends with std::bad_alloc or, if it gets along without that memory, with the usual result; an exception thrown by a caller supplied fallback arrives at the caller unchanged. In either case nothing is leaked, the caller's text is untouched, errno is as before, and all later conversions give their usual results. Printing to a caller's buffer asks for no memory at all.",
 ["fault_sequences", "inputs"], "every allocation of every conversion failing, every exception thrown by a fallback, all inputs",
 "the tests never run out of memory and their fallbacks never throw",
 ["atof.h", "ftoa.h", "krosh.h", "default_fallback.h"], [("digit buffer of the parser", "krosh.h"), ("fallback call and errno keeping", "atof.h"), ("string construction", "ftoa.h")],
 observe=["operator new made to fail", "exceptions arriving at the caller", "live allocations, errno and later results"])

prop("C27", "Conversions are reentrant",
 "A conversion interrupted at any point by a signal handler which itself prints values into its own buffer gives the result it gives undisturbed, and so do the conversions in the handler. A fallback may itself perform any conversions, nested to any level.",
 ["schedules", "inputs"], "all interruption points (machine instructions) of all conversions; all nestings of conversions in fallbacks",
 "the tests never interrupt or nest conversions; hidden static or thread local state survives even multithreaded runs",
 ["ftoa.h", "grisu.h", "prettify.h", "atof.h", "krosh.h"], [("no static or thread local state", "grisu.h"), ("state of the parser kept in automatic objects", "krosh.h")],
 observe=["results of conversions executed instruction by instruction with conversions in between"])

prop("C28", "Numeric building blocks are exact",
 "The compile time powers are the exact powers whenever the result type holds them, the choice of the decimal exponent for a value always brings its scaled binary exponent into the range the digit generation needs, and decimal fractions are converted, keeping their order, to binary ones less than one unit of the last place away. Bit tests and masks, the number and the division of leading decimal digits, the exponent digits and the choice of the notation are exact for every argument.",
 ["inputs"], "all arguments within the documented ranges",
 "the tests check a few arguments of some of these functions; an error shows in the results only for rare values",
 ["static_pow.h", "k_comp.h", "fraction.h", "bit_ops.h", "grisu.h", "prettify.h"], [("compile time powers", "static_pow.h"), ("choice of the power", "k_comp.h"), ("decimal fraction to binary", "fraction.h"), ("masks", "bit_ops.h"), ("kappa and divisor", "grisu.h"), ("exponent digits", "prettify.h")],
 observe=["results of these functions against exact integer arithmetic"])

prop("C29", "Parsing looks no further than the number",
 "Parsing reads no character after the first one that decides where the number ends, so a number followed by any other character may stand at the very end of readable memory without a terminator. This holds for narrow and wide text, for numbers, special words and texts which are neither, and also when the default fallback is consulted.",
 ["inputs"], "all texts up to 2048 characters and everything that may follow",
 "in the tests readable memory follows every text",
 ["krosh.h", "atof.h"], [("digit and exponent scanner", "krosh.h"), ("extraction of digits beyond the capacity", "krosh.h"), ("special word scanners", "krosh.h")],
 observe=["page faults of texts which end at an inaccessible page", "consumed length and value"])

prop("C30", "Conversions take bounded work and memory",
 "Printing takes a bounded number of steps for any value, and parsing takes at most a number of steps linear in the length of the number (not of the text that follows it), apart from the fallback. Neither asks for more than a few hundred bytes of memory or takes more than some kilobytes of stack, however long the text is.",
 ["inputs"], "all values; all texts of any length",
 "the tests use short texts and don't measure",
 ["krosh.h", "atof.h", "grisu.h", "prettify.h", "ftoa.h"], [("digit collection", "krosh.h"), ("limit of text length", "krosh.h"), ("digit generation loops", "grisu.h")],
 observe=["executed control flow edges, lengths passed to memory routines, bytes requested"])

prop("C31", "Conversions don't depend on the floating point environment",
 "Printing any value other than a signaling NaN, and parsing any text that needs no fallback, gives the same result in every rounding direction, raises no floating point exception other than inexact, even when these are set to trap, and leaves the floating point environment as it was. Whether the fallback is consulted doesn't depend on that environment either, and it's called in the caller's one.",
 ["configurations", "inputs"], "all rounding directions, exception masks and flags times all values and texts",
 "the tests run in the default floating point environment",
 ["grisu.h", "k_comp.h", "ftoa.h", "krosh.h", "diy_fp.h", "atof.h"], [("choice of the power of ten, calculated in floating point", "k_comp.h"), ("integer arithmetic of the conversions", "diy_fp.h"), ("comparisons of special values", "ftoa.h")],
 observe=["results in each environment, SIGFPE, exception flags, control words"])

prop("C32", "Documents of numbers survive writing and reading",
 "Values of both types printed one after another into one buffer, each taking the place of the terminator or separator before it, give exactly the texts they give alone, leave all that was written before untouched, and are read back one after another, the pointer to the text being moved by the parser itself, as the same values in the same order with the same extents. Foreign spellings, special words and other words in between, any separator (a mere sign or terminator included) and the position of a number in the document make no difference, and a table of adjacent fields of the promised size may be rewritten in any order. A document written anew from what was read doesn't change any more.",
 ["inputs", "histories"], "all sequences of values, spellings, words and separators",
 "the tests convert single numbers in buffers of their own",
 ["ftoa.h", "atof.h", "krosh.h", "prettify.h", "grisu.h"], [("length of the printed text", "ftoa.h"), ("end of the parsed number", "atof.h"), ("layout written in place", "prettify.h")],
 observe=["text of the whole document, values, extents and order of what is read"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
        n = p["statement"].count(". ") + 1
        if n > 3: print("statement too long", p["id"], n)
    print(len(P))
