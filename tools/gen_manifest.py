#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
SM = "stateful model-based random testing and coverage-guided fuzzing against "
DF = "generated-input differential testing and coverage-guided fuzzing against "
T = {
 "C01": SM + "an ideal byte-string model", "C02": SM + "a model of fixed-capacity buffers, with guarded memory", "C03": "metamorphic twin runs (own view vs. separate copy) over generated histories",
 "C04": SM + "an auditing allocator", "C05": SM + "a capacity model, for several growth steps", "C06": DF + "the C library's and prnf's own formatted output",
 "C07": SM + "a positional insertion model", "C08": SM + "a fetcher that audits its arguments", "C09": SM + "a lifecycle model with an auditing allocator, including calls without a buffer",
 "C10": "generated histories at sizes around INT_MAX on sparse memory, against a size-only model", "C11": "generated views in exact-size guarded memory, containment and immutability invariants (property-based + fuzzing)",
 "C12": DF + "byte-wise reference comparisons, with order laws", "C13": DF + "a naive reference search", "C14": DF + "a naive reference trim, with idempotence", "C15": DF + "reference slicing semantics",
 "C16": DF + "a reference splitter, with lossless round trip", "C17": DF + "a two-way partition reference", "C18": "differential testing against a reference line splitter under generated chunkings", "C19": DF + "a reference dequoter",
 "C20": DF + "reference conversions in guarded memory", "C21": DF + "exact 128-bit integer parsing", "C22": "generated failing and succeeding parses with poisoned destinations (invariants)", "C23": DF + "correctly rounded strtof/strtod/strtold",
 "C24": DF + "a reference grammar", "C25": DF + "an independent AES-256-CBC/PKCS#7 implementation, with round trips", "C26": "generated corrupt ciphertexts against an independent AES reference, under sanitizers",
 "C27": "round-trip and byte-order testing of generated pack/unpack sequences", "C28": SM + "a byte-accounting model, with injected short and failing transfers and real sockets", "C29": "differential testing of generated calls across build configurations against one model",
 "C30": "compose-then-parse round trip over generated URIs, and fuzzing of arbitrary text",
 "C31": "metamorphic testing of generated operation sequences: alone vs. re-entrant through callbacks vs. concurrent on threads under the thread sanitizer",
 "C34": SM + "an ideal sparse model of buffers up to INT_MAX bytes, with recorded and short transfers",
 "C35": "metamorphic testing of generated macro call sites (argument expressions of every kind) over generated operands, against plain operands and the buffer model, with evaluation counters",
 "C36": "property-based testing with generated programs (header subsets, orders and repeats, source files, names, configurations, compilers) compiled, linked and run against computed results, with shrinking",
 "C37": SM + "a buffer model, with allocations of the C library made to fail at generated points",
 "C38": "the generated cases and oracles of the other properties, repeated with every source text in memory the library can only read",
 "C39": "generated operations and histories on texts larger than the stack they run on, against models, with an inaccessible region below the stack",
 "C40": "metamorphic testing: generated number texts, view and buffer operations repeated under other locales, against the same call in the C locale (and printf in that locale)",
 "C33": DF + "a sparse model of texts up to INT_MAX bytes, on memory mapped many times; metamorphic relation for numbers",
 "C32": "the generated cases and oracles of the other properties, repeated across compilers, optimisation levels and plain char signedness",
}
PROG = ("Seeded random generation of C programs, compiled by gcc and clang, linked with the library and run; a failure is confirmed and shrunk to a replay file. "
        "No guarantee beyond the explored programs. Trusts the compilers, the linker and the generator's arithmetic; x86-64 Linux.")
NOTE = ("Seeded random generation in a sanitizer build (ASan+UBSan) and an optimised gcc build, plus libFuzzer; every failure is confirmed three times and shrunk to a replay file. "
        "No guarantee beyond the explored cases. Trusts the oracle in harness/, the compilers and libc; x86-64, C locale, allocators that do not fail.")
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[
    dict(property=p["id"], quick_cmd="python3 run.py check %s --tier quick" % p["id"], thorough_cmd="python3 run.py check %s --tier thorough" % p["id"],
         evidence_file="evidence/%s.json" % p["id"], technique=T[p["id"]], level="exploration", level_note=PROG if p["id"] == "C36" else NOTE) for p in P],
    not_applicable=[], notes="No hooks in /repo: the harness compiles /repo's sources directly, redirecting read/write and the C library's allocator with -D. Genuine defects found and repaired are listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
