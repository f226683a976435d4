#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing against a reference model (schoolbook addition), generated operands and operator forms",
 "C02": "property-based testing against a reference model (schoolbook subtraction), generated operands and operator forms",
 "C03": "property-based testing: every generated subtraction of a larger number has to be refused with an underflow panic",
 "C04": "property-based testing against a reference product (schoolbook, or residues modulo three primes for long operands)",
 "C05": "property-based testing against a reference product and power, structured operands around the algorithm switches",
 "C06": "property-based testing of the division identity n = q*d + r, r < d, with constructed adversarial dividends; differential between the division operations",
 "C07": "property-based testing: every generated division by zero has to be refused, state of the dividend checked afterwards",
 "C08": "property-based testing against a reference model (multiplication by a power of two)",
 "C09": "property-based testing against a reference model (floor of division by a power of two)",
 "C10": "property-based testing against a reference order, pairs derived from each other",
 "C11": "stateful model-based testing: generated histories against exact arithmetic, canonical form checked after every step",
 "C12": "property-based testing against a reference parser, grammar-generated strings",
 "C13": "property-based testing with mutated strings: every string with a foreign character has to be rejected",
 "C14": "property-based testing against reference digits and standard integer formatting, plus round trip through parsing",
 "C15": "property-based testing against a reference radix conversion",
 "C16": "differential stateful testing: one generated program run in all eight number types in lockstep",
 "C17": "differential property-based testing between all operator forms of one operation",
 "C18": "property-based testing of construction against given digits and of the identities of zero and one",
 "C20": "differential stateful testing: generated computations repeated in generated orders and thread schedules, against each other, a fresh process and a reference model",
 "C19": "metamorphic property-based testing: algebraic laws on numbers of up to thousands of digits",
}
note = ("Random search over structured, edge-biased cases, fixed in number and determined by VERIF_SEED, in a build with and a build "
        "without overflow checks; saved reproductions of past defects run first. It shows the absence of violations only on what it "
        "ran. Trusts the reference model in harness/src/model.rs, rustc, the standard library and num-traits. ")
extra = {
 "C04": "Products of more than 60 000 digit products are checked by residues modulo three 61/62-bit primes and the digit count, not digit by digit.",
 "C06": "Identities with more than 60 000 digit products are checked by residues modulo three primes.",
 "C03": "Trusts that the panic message names the reason.",
 "C11": "Histories of up to 28 (rarely, and thorough: 60) operations on four numbers of up to 70 (one history in 150: 420) digits.",
 "C16": "Where the eight types agree on a wrong value this check is silent; C01 to C15 decide values.",
 "C17": "Where all forms agree on a wrong value this check is silent; C01 to C09 decide values.",
 "C20": "Schedules are whatever the operating system makes of up to four threads at a time on eight busy workers; they are not enumerated. A result that is always wrong is the business of the other properties, not of this one.",
 "C19": "A wrong result that satisfies the law it occurs in goes unnoticed here.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py build",
 "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
             "technique": t, "level": "exploration", "level_note": note + extra.get(p, "")} for p, t in sorted(T.items())],
 "not_applicable": [],
 "notes": "No hooks: everything is observed through the public interface. Genuine defects found and repaired are listed in known_findings.txt; "
          "'python3 check.py replay FILE' runs a replay file against /repo's working tree.",
}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
