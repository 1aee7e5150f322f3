"""The checks: which monitors run, in which builds, with which workload."""
from run import Build, Inconclusive, SRC, HERE, BUILD

CHECKS = {}
ASSUME = ["glibc's strtod/strtof and libstdc++'s std::from_chars/to_chars are correctly rounded (their results are cross-checked against each other on a part of the cases)",
          "the sandbox's x86-64 hardware and compilers"]

def check(pid, **kw):
    kw.setdefault("assumptions", ASSUME)
    CHECKS[pid] = kw

PRINT = Build("print.cpp")
PRINT_RULE = ("values: every binary exponent times telling mantissas (0.., ..max, around the middle, single bits, runs of ones, random), then random values of 16 families "
              "(uniform bits, subnormals, short decimals, neighbours of powers of ten, integers, [0,1)); a case is one value of one type; it counts when not seen before in the run (64 bit hash)")

check("C01", rule=PRINT_RULE, need={"binary_exponents_double": 2047, "cross_checked": 10000},
      jobs=lambda tier: [dict(build=PRINT, args=["--check", "C01"])])
def c02_post(res, tier):
    pass
check("C02", rule="all 2^31 float magnitudes but the NaN and infinity patterns, each with both signs; every printed text is read back by std::from_chars (strtof too for one in 512)",
      need={"float_magnitudes_enumerated": 2139095040}, exhaustive=True,
      jobs=lambda tier: [dict(build=PRINT, args=["--check", "C02"])])
check("C03", rule=PRINT_RULE + "; NaNs and infinities included; the expected text is rebuilt from the digits and the position of the point",
      need={k: 1000 for k in ("decimal_below_one", "decimal_fraction", "decimal_integer", "scientific_1_digit_value", "scientific_2_digit_exponent", "scientific_3_digit_exponent", "layout_limit_16", "layout_limit_17", "zero", "nan", "inf")},
      jobs=lambda tier: [dict(build=PRINT, args=["--check", "C03"])])
def c05_post(res, tier):
    for t in ("double", "float"):
        n, l = res.counters.get("rate_%s_total" % t, 0), res.counters.get("rate_%s_longer" % t, 0)
        if n: res.notes.append("%s: %.4f%% of %d uniformly drawn values printed longer than necessary" % (t, 100.0 * l / n, n))
        if n and l > 0.01 * n: res.fail("rate_" + t, "", "%s: %.3f%% of %d uniformly drawn values are printed longer than necessary (at most 1%% allowed)" % (t, 100.0 * l / n, n))
check("C05", rule=PRINT_RULE + "; the rate is measured over values drawn uniformly from the finite bit patterns",
      need={"rate_double_total": 1000000, "rate_float_total": 1000000, "binary_exponents_double": 2047, "binary_exponents_float": 255}, post=c05_post,
      jobs=lambda tier: [dict(build=PRINT, args=["--check", "C05"])])

def fuzz(kind, quick, thorough, **kw):
    """Coverage guided part of a check."""
    def run(R, res, tier, seed, pid):
        n = thorough if tier == "thorough" else quick
        if n: R.run_fuzz(res, pid, kind, n, tier, seed, cap=1500 if tier == "thorough" else 100, **kw)
    return run

def custom(pid, *parts):
    def run(R, res, tier, seed):
        for p in parts:
            if res.viol: break
            p(R, res, tier, seed, pid)
    return run

def msan(kind, quick, thorough):
    return lambda R, res, tier, seed, pid: R.run_msan(res, kind, thorough if tier == "thorough" else quick, tier, seed)

CHECKS["C01"]["custom"] = custom("C01", fuzz("corpus_value", 160000, 40000000))
CHECKS["C05"]["custom"] = custom("C05", fuzz("corpus_value", 0, 40000000))

# --- printing: memory, forms, circle -----------------------------------------
PRINTMEM = Build("printmem.cpp")
PRINTMEM_ASAN = Build("printmem.cpp", "clang++", opt="-O1", san="asan")
check("C04", rule=PRINT_RULE + "; each value is printed into a buffer of exactly the promised size ending at an inaccessible page, into one following an inaccessible page and into one between canaries, as char and wchar_t (char16_t, char32_t too), then under AddressSanitizer/UBSan and MemorySanitizer from exactly sized heap blocks",
      need={"before_guard_page": 1000000, "after_guard_page": 1000000, "between_canaries": 1000000, "msan_value_cases": 100000, "max_length_double": 20, "max_length_float": 13},
      jobs=lambda tier: [dict(build=PRINTMEM, args=["--check", "C04"]), dict(build=PRINTMEM_ASAN, args=["--check", "C04"], scale=0.3)],
      custom=custom("C04", msan("value", 400000, 40000000), fuzz("corpus_value", 80000, 20000000)))
check("C06", rule=PRINT_RULE + "; every value is printed through every entry point and character type; a case is one value, compared in all forms",
      need={"forms_compared": 1000000, "leading_zeros": 10000, "scientific": 10000, "fraction": 10000}, compile_is_property=True,
      jobs=lambda tier: [dict(build=PRINTMEM, args=["--check", "C06"]), dict(build=Build("printmem.cpp", "clang++", std="c++20"), args=["--check", "C06"], scale=0.3)])
check("C15", rule=PRINT_RULE + "; each printed text is parsed again, alone and with text of 20 kinds following it",
      need={"circles": 1000000, "circles_wide": 1000000},
      jobs=lambda tier: [dict(build=PRINTMEM, args=["--check", "C15"])], custom=custom("C15", fuzz("corpus_value", 100000, 40000000)))

# --- parsing -------------------------------------------------------------------
PARSE = Build("parse.cpp")
PARSE_RULE = ("texts of 40 families: short, long (up to 2048) and boundary spellings of numbers - exact midpoints of neighbouring values and one digit around them, halves of the smallest and largest "
              "values, printed values, zero runs, huge exponents - for each decimal exponent and at random, with signs, following text and noise; a case is one text for one type and counts when not seen before in the run (64 bit hash)")
GIANT = Build("giant.cpp")
def parse_giant(pid): return lambda tier: [dict(build=PARSE, args=["--check", pid]), dict(build=GIANT, args=["--check", pid])]
def parse(pid): return lambda tier: [dict(build=PARSE, args=["--check", pid])]
check("C07", rule=PARSE_RULE, jobs=parse("C07"), need={"normals": 1000000, "subnormals": 50000, "zeros": 1000, "overflows": 1000, "underflows": 1000, "decimal_exponents_double": 600},
      custom=custom("C07", fuzz("corpus", 160000, 30000000)))
check("C08", rule=PARSE_RULE, jobs=parse("C08"), need={"normals": 1000000, "subnormals": 50000, "zeros": 1000, "overflows": 1000, "underflows": 1000, "decimal_exponents_float": 80},
      custom=custom("C08", fuzz("corpus", 160000, 30000000)))
check("C09", rule=PARSE_RULE + "; besides all texts of up to 5 characters over a 14 letter alphabet and all 255 (65535 wide) characters following telling prefixes, and exponents and n-char sequences of more than 2^31 and 2^32 characters", jobs=parse_giant("C09"),
      need={"giants": 22, "enumerated_texts": 100000, "every_character_sweeps": 10, "not_a_number": 10000, "with_rest": 100000}, custom=custom("C09", fuzz("corpus_tagged", 120000, 30000000)))
check("C10", rule=PARSE_RULE + "; both sides of every range limit in many spellings, exponents of more than 2^31 and 2^32 characters", jobs=parse_giant("C10"),
      need={"giants": 22, "overflows": 10000, "underflows": 10000, "zeros": 10000, "subnormals": 10000, "normals": 100000}, custom=custom("C10", fuzz("corpus_tagged", 80000, 30000000)))
check("C11", rule="every case mixture of the special words with signs and following text, all n-char sequences of up to 2 characters, every character after and inside the words, random specials and near misses; a case is one text for one type and character type",
      jobs=parse("C11"), need={"case_mixtures": 1000, "nan_sequences": 1000, "nan": 10000, "inf": 10000, "not_a_number": 1000}, custom=custom("C11", fuzz("corpus_tagged", 80000, 30000000)))
check("C12", rule=PARSE_RULE + "; each text goes through every entry point and argument form, results are compared with each other", jobs=parse("C12"), compile_is_property=True,
      need={"forms_compared": 1000000, "nothing_consumed": 1000, "range_errors": 1000, "specials": 1000, "numbers": 100000})
def c13_post(res, tier):
    for t, limit in (("double", 2.0), ("float", 5.0)):
        n, f = res.counters.get("printed_" + t, 0), res.counters.get("printed_%s_fallback" % t, 0)
        if n: res.notes.append("%s: fallback needed for %.3f%% of %d printed values" % (t, 100.0 * f / n, n))
        if n and 100.0 * f > limit * n: res.fail("rate_" + t, "", "%s: the fallback was needed for %.2f%% of %d printed values (at most %.0f%% allowed)" % (t, 100.0 * f / n, n, limit))
    for t, limit in (("short_double", 2.0), ("long_double", 4.0), ("short_float", 6.0), ("long_float", 20.0)):
        n, f = res.counters.get(t, 0), res.counters.get(t + "_fallback", 0)
        if n: res.notes.append("random digits, %s: fallback needed for %.3f%% of %d texts" % (t.replace("_", " "), 100.0 * f / n, n))
        if n and 100.0 * f > limit * n: res.fail("rate_" + t, "", "%s: the fallback was needed for %.2f%% of %d texts of random digits (at most %.0f%% allowed)" % (t.replace("_", " "), 100.0 * f / n, n, limit))
check("C13", rule=PARSE_RULE + "; the fallback records its calls and returns a recognisable value", jobs=parse("C13"), post=c13_post,
      need={"fallback_used": 10000, "own_result": 1000000, "printed_double": 100000, "printed_float": 100000, "long_double": 50000, "long_float": 50000, "short_double": 50000, "short_float": 50000})
check("C14", rule="hostile texts of 22 families (truncated, corrupted and concatenated numbers, exponents of every length, zero and digit runs up to 300 000, noise of all characters) read through a read-only mapping right before and right after an inaccessible page; a case is one text for one type and character type; the same under AddressSanitizer/UBSan from exactly sized heap blocks, MemorySanitizer, and libFuzzer",
      need={"short": 100000, "medium": 100000, "long": 100000, "longer_than_limit": 100000, "max_length": 250000, "msan_text_cases": 10000, "fuzz_executions": 50000, "giants": 22},
      jobs=lambda tier: [dict(build=Build("giant.cpp", "clang++", opt="-O1", san="asan"), args=["--check", "C14"]), dict(build=Build("hostile.cpp", defs=["COUNT_ALLOC"]), args=["--check", "C14"]),
                         dict(build=Build("hostile.cpp", "clang++", opt="-O1", san="asan", defs=["HEAP_COPY"]), args=["--check", "C14"], scale=0.4)],
      custom=custom("C14", msan("text", 200000, 20000000), fuzz("corpus_tagged", 160000, 60000000, max_len=600)))
check("C22", rule=PARSE_RULE + "; each number is spelt in a group of value preserving rewritings (zeros added, point moved, exponent adjusted), which must agree", jobs=parse("C22"),
      need={"spellings": 1000000, "groups_in_range": 100000, "groups_out_of_range": 1000, "groups_zero": 1000, "groups_of_very_long_spellings": 1000})
check("C23", rule=PARSE_RULE + "; pairs differing by sign, and ordered pairs of numbers a few digits apart", jobs=parse("C23"),
      need={"printed_pairs": 100000, "ordered_pairs_less": 100000, "ordered_pairs_equal": 10000})
check("C24", rule=PARSE_RULE + "; every combination of errno and returned value for the range check", jobs=parse("C24"), compile_is_property=True,
      need={k: 100000 for k in ("strtof", "strtod", "strtold", "wcstof", "wcstod", "wcstold")} | {"range_checks": 1000})

# --- arithmetic -----------------------------------------------------------------
ARITH_SECTIONS = {"POWER": ["double_entries", "float_entries"], "PRESENT": ["presentations"]}
ARITH = Build("arith.cpp", sections=ARITH_SECTIONS)
check("C19", rule="all 687 powers for double and 101 for float, looked up in order and at random; a case is one power", exhaustive=True,
      need={"double_entries": 687, "float_entries": 101}, jobs=lambda tier: [dict(build=ARITH, args=["--check", "C19"]), dict(build=Build("arith.cpp", "clang++", opt="-O1", san="asan", sections=ARITH_SECTIONS), args=["--check", "C19"])])
check("C20", rule="all positive floats (decomposition, normalization, rounding back, boundaries), every exponent of double times telling mantissas, random extended values of telling mantissas and exponents for product, increment, decrement, difference and rounding",
      need={"floats_enumerated": 2139095039, "double_exponents_swept": 2047, "products": 1000000, "steps": 1000000, "carries": 10000, "ties": 10000, "rounded_to_normal": 100000, "rounded_to_subnormal": 10000, "rounded_to_overflow": 10000, "rounded_to_underflow": 10000},
      jobs=lambda tier: [dict(build=ARITH, args=["--check", "C20"]), dict(build=Build("arith.cpp", "clang++", opt="-O1", san="asan", sections=ARITH_SECTIONS), args=["--check", "C20", "--floats", "no"], scale=0.2)])
check("C25", rule="doubles of every exponent, sign and single bit, random doubles and integers of all four widths (8 and 16 bits: all), random extended values; a case is one value", compile_is_property=True,
      need={"presentations": 100000, "stream_states": 10000, "doubles": 100000, "nans": 1000, "infs": 2, "u8": 256, "u16": 65536, "u32": 100000, "u64": 100000, "streamed": 100000, "streamed_wide": 100000},
      jobs=lambda tier: [dict(build=ARITH, args=["--check", "C25"]), dict(build=Build("arith.cpp", "clang++", opt="-O1", san="asan", sections=ARITH_SECTIONS), args=["--check", "C25"], scale=0.2)])

# --- schedules, histories, locales, configurations ------------------------------------
THREADS_SECTIONS = {"BITS": [], "FIELDS": [], "DEFAULT": []}
check("C16", rule="rounds of 2 to 300 threads (started together, or coming and going) doing 1 to many conversions of shared read-only cases, each round in a fresh process so that first use is concurrent too; delays at random points (fallback callback, signals); a distinct case is a distinct order of call starts and ends",
      need={"rounds_with_overlap": 1000, "concurrent_calls": 50000, "distinct_interleavings": 1000, "threads_in_conversions_at_once": 3, "rounds_of_many_threads": 200, "rounds_of_passing_threads": 100},
      jobs=lambda tier: [dict(build=Build("threads.cpp", "clang++", opt="-O1", san="tsan", sections=THREADS_SECTIONS), args=["--rounds", "3000"]),
                         dict(build=Build("threads.cpp", sections=THREADS_SECTIONS), args=["--rounds", "4000", "--jitter", "yes"])])
check("C17", rule="random histories of conversions over working sets of cases, with stale errno, dirty buffers, moved and shifted text, changing environment and time, other threads; every result is compared with that of a fresh process; all ordered pairs of a working set; sixteen processes of up to 20 million conversions each",
      need={"marathons": 16, "ordered_pairs": 20000, "calls_in_histories": 1000000, "silent_conversions": 5000, "errno_set_by_range_error": 1000, "longest_history": 100000},
      jobs=lambda tier: [dict(build=Build("history.cpp"), args=[])])

LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("fr_FR", "ISO-8859-15"), ("fa_IR", "UTF-8"), ("ps_AF", "UTF-8"), ("en_US", "UTF-8"), ("hi_IN", "UTF-8"),
           ("az_AZ", "UTF-8"), ("de_CH", "UTF-8"), ("lt_LT", "UTF-8"), ("ru_RU", "KOI8-R"), ("pt_BR", "UTF-8"), ("ar_EG", "UTF-8")]
LOCALES_THOROUGH = LOCALES + [("ja_JP", "EUC-JP"), ("zh_CN", "GB18030"), ("th_TH", "TIS-620"), ("el_GR", "ISO-8859-7"), ("bn_BD", "UTF-8"), ("my_MM", "UTF-8"), ("cs_CZ", "UTF-8")]
def build_locales(tier):
    """Compiles locales (localedef, from the system's sources) into a directory of our own."""
    import os, subprocess
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(BUILD, "loc"); os.makedirs(d, exist_ok=True)
    def one(l):
        name = "%s.%s" % l; p = os.path.join(d, name)
        if not os.path.isdir(p):
            subprocess.run(["localedef", "--no-archive", "-c", "-i", l[0], "-f", l[1], p + ".tmp"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            if os.path.exists(os.path.join(p + ".tmp", "LC_CTYPE")): os.rename(p + ".tmp", p)
        return name if os.path.isdir(p) else None
    with ThreadPoolExecutor(max_workers=8) as ex: names = [n for n in ex.map(one, LOCALES_THOROUGH if tier == "thorough" else LOCALES) if n]
    if len(names) < 5: raise Inconclusive("can't build locales")
    return d, names + ["C", "C.utf8", "POSIX"]
def c18(R, res, tier, seed):
    b = Build("locale.cpp")
    R.build_all([b])
    d, names = build_locales(tier)
    res.notes.append("locales: " + ", ".join(names))
    R.run_job(res, dict(build=b, args=["--locales", ",".join(names)], env={"LOCPATH": d}), tier, seed)
check("C18", rule="batches of 400 random conversions (texts with commas, grouping, native digits, dotless i ...), performed in the C locale and then in every locale, set in one of six ways; a case is one conversion in one locale",
      need={"batches_with_point": 1000, "batches_with_comma": 1000, "batches_with_other_point": 100, "setlocale": 100, "std::locale::global": 100, "uselocale": 100, "facets": 100, "LC_NUMERIC": 100, "LC_CTYPE": 100}, custom=c18)

C21_HEADERS = ["atof.h", "bit_ops.h", "cached_power.h", "conversion_status.h", "default_fallback.h", "diy_fp.h", "fraction.h", "ftoa.h", "grisu.h", "huge_val.h", "integer_of_size.h", "k_comp.h", "krosh.h", "memwrap.h",
               "powers_ten.h", "powers_ten_double.h", "powers_ten_single.h", "prettify.h", "print.h", "static_pow.h", "type_punning_cast.h"]
C21_DIMENSIONS = [["g++", "clang++"], ["c++14", "gnu++14", "c++17", "gnu++17", "c++20", "gnu++20", "c++23", "gnu++23"], ["-O0", "-Og", "-O1", "-O2", "-O3", "-Os"], ["", "-DNDEBUG"], ["", "-funsigned-char"],
    ["", "-march=x86-64-v2", "-march=x86-64-v3 -ffp-contract=fast"], ["", "-fno-exceptions", "-fno-rtti", "-fno-exceptions -fno-rtti"], ["", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=3", "-D_GLIBCXX_USE_CXX11_ABI=0"],
    ["", "", "", "-fsanitize=undefined,address -fno-sanitize-recover=all"],
    ["", "-fPIC", "-fno-pie -no-pie", "-fwrapv", "-ftrapv", "-fno-builtin", "-fno-inline", "-fno-strict-aliasing", "-fshort-enums", "-fno-threadsafe-statics", "-fvisibility=hidden", "-fno-math-errno", "-pthread", "-flto", "-mfpmath=387"]]
def c21_pairs(rows):
    """Rows covering all pairs of values of the dimensions, as far as rows suffice."""
    import random
    rng = random.Random(21); D = C21_DIMENSIONS
    def fits(v):
        if v[0] == "clang++" and v[9] in ("-flto", "-mfpmath=387"): return False
        if "ABI=0" in v[7] and (v[0] != "g++" or v[1][-2:] in ("20", "23")): return False # libstdc++ itself doesn't compile
        return not ("-O0" == v[2] and "FORTIFY" in v[7])
    need = {(i, a, j, b) for i in range(len(D)) for j in range(i + 1, len(D)) for a in D[i] for b in D[j]}
    out = []
    while len(out) < rows:
        best, gain = None, -1
        for _ in range(300):
            v = [rng.choice(d) for d in D]
            if not fits(v): continue
            g = sum((i, v[i], j, v[j]) in need for i in range(len(D)) for j in range(i + 1, len(D)))
            if g > gain: best, gain = v, g
        for i in range(len(D)):
            for j in range(i + 1, len(D)): need.discard((i, best[i], j, best[j]))
        out.append((best[0], best[1], " ".join(x for x in best[2:] if x)))
    return out
def c21_configs(tier):
    """(compiler, standard, flags) of the configurations to compare."""
    if tier == "quick":
        return [("g++", "c++14", "-O0"), ("g++", "c++14", "-O2"), ("g++", "c++17", "-O3 -DNDEBUG"), ("g++", "c++20", "-O1 -funsigned-char"), ("g++", "c++23", "-O2 -flto"), ("g++", "gnu++17", "-Os -D_GLIBCXX_DEBUG"),
                ("g++", "c++17", "-O3 -march=x86-64-v3 -ffp-contract=fast"), ("g++", "c++14", "-O2 -mfpmath=387 -fno-exceptions -fno-rtti"), ("g++", "c++20", "-O2 -funroll-loops -ftrapv -fsanitize=undefined,address -fno-sanitize-recover=all"),
                ("clang++", "c++14", "-O0"), ("clang++", "c++14", "-O2 -funsigned-char"), ("clang++", "c++17", "-O2 -DNDEBUG"), ("clang++", "c++20", "-O3"), ("clang++", "c++23", "-O1"), ("clang++", "gnu++20", "-O3 -march=x86-64-v3 -ffp-contract=fast -DNDEBUG")] + c21_pairs(27)
    r = c21_pairs(120)
    for cxx in ("g++", "clang++"):
        for std in ("c++14", "gnu++14", "c++17", "c++20", "c++23"):
            for opt in ("-O0", "-O1", "-O2", "-O3", "-Os"):
                for nd in ("", " -DNDEBUG"):
                    for ch in ("", " -funsigned-char"): r.append((cxx, std, opt + nd + ch))
        for std in ("c++14", "c++17", "c++20"):
            for x in ("-O2 -flto" if cxx == "g++" else "-O2 -fno-inline", "-O2 -D_GLIBCXX_DEBUG", "-O3 -march=x86-64-v3 -ffp-contract=fast", "-O3 -march=x86-64-v4 -DNDEBUG", "-O2 -fno-strict-aliasing", "-O2 -fno-exceptions -fno-rtti", "-O2 -fwrapv", "-O2 -ftrapv", "-O2 -D_GLIBCXX_ASSERTIONS -D_FORTIFY_SOURCE=2", "-O2 -fno-builtin", "-O3 -fPIC -fvisibility=hidden", "-O2 -fshort-enums", "-O1 -fsanitize=undefined,address -fno-sanitize-recover=all") + (("-O2 -mfpmath=387", "-O0 -mfpmath=387", "-Og", "-Ofast -fno-finite-math-only -fno-unsafe-math-optimizations") if cxx == "g++" else ("-O2 -stdlib=libstdc++ -fno-plt",)): r.append((cxx, std, x))
    return r
def c21(R, res, tier, seed):
    import subprocess, os
    from concurrent.futures import ThreadPoolExecutor
    units = ["config_print.cpp", "config_parse.cpp", "config_both.cpp"]
    bs = [Build("config.cpp", c, std=s, opt=o, extra_src=units, name="%s -std=%s %s" % (c, s, o)) for c, s, o in c21_configs(tier)]
    # each header by itself, too
    singles = [Build("config_print.cpp", c, std=s, opt="-O0 -c", name="%s -std=%s, ftoa.h alone" % (c, s)) for c in ("g++", "clang++") for s in ("c++14", "c++20")] + \
              [Build("config_parse.cpp", c, std=s, opt="-O0 -c", name="%s -std=%s, atof.h alone" % (c, s)) for c in ("g++", "clang++") for s in ("c++14", "c++20")]
    # every public header can be included first and alone
    heads = [Build("header_alone.cpp", c, std=s, opt="-O0 -c", defs=["HEADER=<floaxie/%s>" % h], name="%s -std=%s, %s first" % (c, s, h)) for h in C21_HEADERS if os.path.exists(os.path.join(R.REPO, "include/floaxie", h)) for c, s in (("g++", "c++14"), ("clang++", "c++20"))]
    singles += heads; res.count("headers_included_first", len(heads))
    # the examples of the documentation, as they are
    readme = [(Build("readme_%s.cpp" % k, c, std=st, opt="-O1", name="%s -std=%s, the %s example of README.md" % (c, st, k)), want) for k, want in (("print", "pi: 0.1, buffer: 0.1\n"), ("parse", "pi: 0.1, str: 0.1, str_end: \n")) for c, st in (("g++", "c++14"), ("clang++", "c++20"))]
    singles += [b for b, _ in readme]
    R.build_all(bs + singles, must=False)
    for b in bs + singles:
        if not b.ok: res.fail("compile", "", "%s: %s" % (b.name, next((l for l in b.log.splitlines() if "error" in l or "undefined" in l or "multiple definition" in l), b.log[-300:])), None)
    for b, want in readme:
        if not b.ok: continue
        try: o = subprocess.run([b.path], env=R.job_env({}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
        except subprocess.TimeoutExpired: res.fail("hang", "", b.name + " doesn't finish", None); continue
        res.count("documented_examples")
        if o.returncode or o.stdout != want: res.fail("example", "", "%s ended with %s and printed %r instead of %r" % (b.name, o.returncode, o.stdout[:200], want), None)
    nt, nv = (40000, 60000) if tier == "quick" else (400000, 1000000)
    R.build_all([R.GENCASES])
    ft, fv = os.path.join(BUILD, "c21.texts%d" % os.getpid()), os.path.join(BUILD, "c21.values%d" % os.getpid())
    R.generate(["--kind", "text", "--count", nt, "--file", ft, "--seed", seed * 83])
    R.generate(["--kind", "value", "--count", nv, "--file", fv, "--seed", seed * 83 + 1])
    def run(b, extra=()):
        e = R.job_env({})
        try: return subprocess.run([b.path, ft, fv] + list(extra), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired: return None
    good = [b for b in bs if b.ok]
    with ThreadPoolExecutor(max_workers=8) as ex: outs = list(ex.map(run, good))
    base = None; blocks_compared = 0; table = {}
    for b, o in zip(good, outs):
        if o is None: res.fail("hang", "", b.name + ": the workload didn't finish", None); continue
        lines = o.stdout.splitlines()
        done = [l.split("\t") for l in lines if l.startswith("DONE\t")]
        for l in lines:
            if l.startswith("UNITS"): res.fail("units", "", b.name + ": translation units of one program disagree: " + l, None)
        if o.returncode or not done:
            res.fail("crash", "", "%s: the workload ended with %s %s" % (b.name, o.returncode, R.describe_stderr(o.stderr)), None); continue
        res.evaluations += int(done[0][1]) + int(done[0][2]); res.count("configurations")
        dig = {tuple(l.split("\t")[1:3]): l.split("\t")[3] for l in lines if l.startswith("B\t")}
        table[b.name] = dig
        if base is None: base = (b, dig); res.distinct += int(done[0][1]) + int(done[0][2]); continue
        blocks_compared += len(dig)
        for k in sorted(set(dig) | set(base[1])):
            if dig.get(k) == base[1].get(k): continue
            x, y = run(base[0], k), run(b, k)
            case = "?"
            if x and y:
                for l, m in zip(x.stdout.splitlines(), y.stdout.splitlines()):
                    if l != m and l.startswith("C\t"):
                        case = "%s gave %s, but with %s %s" % (l.split("\t")[1], l.split("\t", 2)[2].replace("\t", " "), b.name, m.split("\t", 2)[2].replace("\t", " ")); break
            res.fail("differs", "", "results depend on the configuration: %s: %s" % (base[0].name, case[:600]), None); break
    res.count("blocks_compared", blocks_compared)
    if base:
        o = run(base[0], sorted(base[1])[0])
        if o: res.samples += [l[:300].replace("\t", " ") for l in o.stdout.splitlines() if l.startswith("C\t")][:4]
        o = run(base[0], sorted(base[1])[-1])
        if o: res.samples += [l[:300].replace("\t", " ") for l in o.stdout.splitlines() if l.startswith("C\t")][:4]
    os.unlink(ft); os.unlink(fv)
    res.builds += [{"build": b.name} for b in good + [x for x in singles if x.ok]]
check("C21", rule="one workload of texts and values of every family (gen.hpp), run by a program of four translation units in every configuration; digests of blocks of results are compared, differing blocks are expanded to the first differing case; conversions are also done during static initialization and destruction",
      need={"configurations": 40, "blocks_compared": 50, "headers_included_first": 10, "documented_examples": 4}, custom=c21)

# --- failures, interruptions, building blocks -------------------------------------
check("C26", rule="conversions of random values and texts in twelve forms: each allocation made to fail in turn (alone, and with all following), then again with memory; hard texts with fallbacks throwing exceptions of seven kinds; a case is one value or text in one form", compile_is_property=True,
      need={"failures_injected": 1000, "bad_alloc_thrown": 1000, "buffer_printings": 100000, "string_printings": 100000, "parsings": 100000, "exceptions_passed": 100000, "not_asked": 10000},
      jobs=lambda tier: [dict(build=Build("faults.cpp"), args=[]), dict(build=Build("faults.cpp", "clang++", std="c++14", opt="-O1"), args=[], scale=0.3)])
check("C27", rule="random conversions run with the processor's trap flag on: after every instruction a signal handler prints other values into its own buffer; a case is one interrupted conversion, told apart by its path of instructions; fallbacks perform trees of up to four and chains of up to 600 levels of nested conversions", compile_is_property=True,
      need={"interruption_points": 2000000, "interrupted_parsings": 2000, "interrupted_printings": 2000, "whole_conversions": 4000, "distinct_instruction_paths": 2000, "nested_conversions": 100000, "fallbacks_converting": 20000, "chains_of_fallbacks": 500},
      jobs=lambda tier: [dict(build=Build("reenter.cpp"), args=[]), dict(build=Build("reenter.cpp", "clang++", opt="-O1"), args=[], scale=0.25)])
BLOCKS_SECTIONS = {"STATIC": ["static_powers"], "SEQUENCE": ["sequence_powers"], "CHOICE": ["choices_double", "choices_float"], "FRACTION": ["fractions", "exact_fractions"], "BITS": ["bit_tests", "masks"], "LIMITS": [], "PUNS": [], "KAPPA": ["kappas"], "EXPONENT": ["exponents"], "FORMAT": ["formats"]}
BLOCKS = Build("blocks.cpp", sections=BLOCKS_SECTIONS)
check("C28", rule="all powers of eight bases fitting the types, all bits and masks of four integer types, all exponents of normalized values, all decimal fractions of up to six digits, all three-digit exponents, random integers; a case is one argument of one function",
      need={"static_powers": 200, "sequence_powers": 100, "choices_double": 2000, "choices_float": 300, "fractions": 200000, "exact_fractions": 100, "bit_tests": 5000, "masks": 100, "kappas": 1000000, "exponents": 4000, "formats": 100},
      jobs=lambda tier: [dict(build=BLOCKS, args=[]), dict(build=Build("blocks.cpp", "clang++", std="c++14", opt="-O1", san="asan", sections=BLOCKS_SECTIONS), args=[])])

# --- extent of reading, work, floating point environment ----------------------------
check("C29", rule="number texts, special words and noise of every family cut right after the character which decides where the number ends, which is the last one before an inaccessible page (no terminator); every character after every prefix of telling texts; a case is one text for one type and character type",
      need={"texts_without_terminator": 1000000, "number_then_other_character": 1000000, "exponent_looked_into": 50000, "special": 50000, "not_a_number": 10000, "decided_by_terminator": 100000, "every_character_sweeps": 60},
      jobs=lambda tier: [dict(build=Build("lookahead.cpp"), args=[]), dict(build=Build("lookahead.cpp", "clang++", std="c++20", opt="-O3"), args=[], scale=0.3)])
WRAPS = "strlen wcslen memset memmove memcpy memchr".split()
WORK = Build("work.cpp", "clang++", opt="-O1 -fno-builtin -fsanitize-coverage=trace-pc-guard " + " ".join("-Wl,--wrap=" + w for w in WRAPS))
WORK0 = Build("work.cpp", "clang++", opt=WORK.opt.replace("-O1", "-O0")) # nothing is removed as dead code
check("C30", rule="values of every exponent; number texts of all families, hostile texts of up to 100000 characters (long digit and zero runs, long exponents and n-char sequences, long rests after short numbers); executed control flow edges, requested bytes and the depth of the stack of each conversion are measured, in an optimised and in an unoptimised build; a case is one value or text",
      need={"values": 1000000, "texts": 1000000, "long_numbers": 10000, "long_rests": 5000, "most_steps_printing": 30, "most_steps_parsing": 1000, "most_stack_parsing": 64},
      jobs=lambda tier: [dict(build=WORK, args=[]), dict(build=WORK0, args=["--unoptimised", "yes"], scale=0.5)])
check("C31", rule="values of every exponent and texts of every family, converted in all four rounding directions and three x87 precisions, with floating point exceptions trapping or their flags watched, against the result in the default environment; a case is one value or text in one environment",
      need={"printings": 1000000, "parsings": 1000000, "parsings_asking": 100000, "with_traps": 1000000, "with_flags_watched": 1000000, "upward": 100000, "downward": 100000, "toward zero": 100000, "subnormals_printed": 10000},
      jobs=lambda tier: [dict(build=Build("fpenv.cpp", opt="-O2 -frounding-math"), args=[]), dict(build=Build("fpenv.cpp", "clang++", opt="-O2 -frounding-math"), args=[], scale=0.5), dict(build=Build("fpenv.cpp", opt="-O0 -frounding-math"), args=[], scale=0.2)])

# --- whole documents ------------------------------------------------------------------
check("C32", rule="documents of 1 to 6000 numbers: own values of every family printed one after another into one buffer, foreign spellings and words, separated by twenty separators, signs alone or terminators; read in order, walked through without knowledge of the tokens, read from anywhere, written anew; tables of adjacent fields of exactly the promised size rewritten in random order; a case is one document or table",
      need={"documents": 10000, "separated_by_signs": 1000, "terminated_in_a_row": 1000, "tables": 10000, "values_written": 1000000, "read_back_whole": 1000000, "lexed_numbers": 1000000, "read_anywhere": 1000000, "rewritten": 1000, "fields_read": 1000000},
      jobs=lambda tier: [dict(build=Build("document.cpp"), args=[]), dict(build=Build("document.cpp", "clang++", opt="-O1", san="asan"), args=[], scale=0.15)])
