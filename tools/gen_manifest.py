#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
TRUST = " Trusts glibc's strto*, libstdc++'s charconv (cross-checked against each other) and this sandbox's compilers and hardware."
N = {
"C01": ("Online reread oracle over printed doubles + coverage guided fuzzing under ASan/UBSan", "Every printed double is read back by two independent correctly rounding readers; all binary exponents times telling mantissas and tens of millions of random values. Doubles are sampled, not enumerated."),
"C02": ("Exhaustive run of all 2^32 float patterns under a reread oracle", "Exhaustive over every finite float of both signs, in one build."),
"C03": ("Independent layout oracle (grammar recogniser and rebuilt text) over printed values", "Every printed text is recognised by an independently written grammar and rebuilt from its digits; values are sampled over all exponents and layouts."),
"C04": ("Guard pages, canaries, ASan, UBSan and MSan around exactly sized buffers", "Every overrun by one unit, on either side, in any character type would fault or be reported for the values explored."),
"C05": ("Shortness oracle (std::to_chars) with exact error bound and rate monitor", "Digit limit and nearness judged per value, the rate of longer than necessary texts measured over uniformly drawn values."),
"C06": ("Differential monitor across entry points and character types", "All forms are compared on the same value, in two compilers and standards."),
"C07": ("Correct rounding oracle over boundary-directed texts + coverage guided fuzzing", "Oracle is exact (glibc strtod, cross-checked with from_chars); texts are directed at midpoints, range limits and every decimal exponent."),
"C08": ("Correct rounding oracle over boundary-directed texts + coverage guided fuzzing", "As C07 with strtof."),
"C09": ("Independent grammar scanner as oracle; enumerated short texts, every following character, fuzzing", "All texts up to 5 characters of a telling alphabet are enumerated, all following characters are swept; longer ones sampled."),
"C10": ("Status oracle (exact value) over both sides of every range limit, fuzzing", "Limits in every spelling, sampled."),
"C11": ("Independent special value scanner; enumerated case mixtures and n-char sequences, fuzzing", "All case mixtures are enumerated; the surroundings sampled."),
"C12": ("Differential monitor across parsing entry points", "All entry points and argument forms compared on the same text."),
"C13": ("Recording fallback (call log monitor) + exactness oracle where it wasn't called", "Call count, arguments, passing on of result; rates over printed values."),
"C14": ("Read-only guard page mappings, allocation counting, ASan, UBSan, MSan, libFuzzer on hostile texts", "A read of one character outside the text, a write to it, undefined behaviour or a leak on any text explored is reported."),
"C15": ("Round trip monitor (ftoa then atof) + fuzzing", "Sampled values of all exponents, in the thorough tier all floats."),
"C16": ("ThreadSanitizer and serial-result oracle over overlapping conversions with injected delays", "TSan reports any race on executed accesses; rounds are fresh processes; interleavings are sampled and counted."),
"C17": ("History monitor: results along random histories against a fresh process; hooked allocator, errno and fenv", "Histories of up to a million calls, all ordered pairs of a working set."),
"C18": ("Differential monitor across locales set in six ways", "17 locales (24 thorough); results compared with the C locale. One known finding: the locale dependent default fallback."),
"C19": ("Exhaustive table monitor against exact integer arithmetic", "Exhaustive over every entry."),
"C20": ("Exact 128 bit oracle over extended precision operations, ASan/UBSan", "All floats for decomposition; the rest directed and sampled."),
"C21": ("Differential monitor across build configurations (result digests)", "42 configurations, covering most pairs of compiler, standard and option values (some 380 thorough), four translation units each; each header included first."),
"C22": ("Metamorphic monitor over value preserving spellings", "Sampled groups of spellings."),
"C23": ("Metamorphic monitor over sign and order", "Sampled pairs."),
"C24": ("Differential monitor against the C library functions", "Six specialisations over sampled texts, all errno and value classes for the range check."),
"C25": ("Bit-exact rendering oracle, ASan/UBSan", "8 and 16 bit integers enumerated, the rest sampled."),
"C26": ("Fault injection (every allocation fails in turn, throwing fallbacks) under leak, errno and result monitors", "Every allocation of every explored conversion is made to fail; 7 kinds of exceptions."),
"C27": ("Interruption at every machine instruction (trap flag) with a converting signal handler; nested fallbacks; result monitor", "Every instruction of the explored conversions is an interruption point; x86-64 only."),
"C28": ("Exact arithmetic oracle over the building blocks, ASan/UBSan", "Small domains enumerated, the others sampled."),
"C29": ("Read-only texts without terminator before an inaccessible page", "A read of one character beyond the deciding one faults for any text explored."),
"C30": ("Edge counting instrumentation and allocation counting against bounds", "Bounds are about ten times (printing) and six times (parsing, per character) what is observed."),
"C31": ("Differential monitor across floating point environments, trapping exceptions and watched flags", "Four directions, three x87 precisions, two compilers; x86-64."),
"C32": ("Write log against read log (order, exactly once, conservation, extents) over documents and tables of numbers; guard page, UBSan", "Documents of up to 6000 numbers in one buffer, narrow and wide, sampled."),
}
def main():
    checks = [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
               "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n + TRUST} for p, (t, n) in sorted(N.items())]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the monitors observe the public interface, no guarded change was made to /repo. known_findings.txt lists one finding (C18) and the repaired defects."}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "MANIFEST.json"), "w") as f: f.write(json.dumps(m, indent=1) + "\n")
    try:
        import jsonschema; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError: pass
main()
