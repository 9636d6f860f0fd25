#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

TECHNIQUE = {
    "C01": "property-based fuzzing of command texts in exact-size buffers under address/UB sanitizers, with bounds invariants on the parsed input",
    "C02": "property-based round trip: random command structures rendered as text and parsed back, random delimiter configurations",
    "C03": "differential testing of mutated command texts against an independent reference parser",
    "C04": "property-based testing of integer conversion against an arbitrary-precision reference, and print/read round trip",
    "C05": "property-based testing of float conversion against std::from_chars and printf, and print/read relations",
    "C06": "property-based testing of text and bool arguments: identity oracle over all bytes through several entry points",
    "C07": "stateful model-based testing of the registry against std::map, with colliding names",
    "C08": "stateful model-based testing of functor lifetimes with counted, self-checking captures",
    "C09": "property-based testing of dispatch over generated overload sets and signatures against a call recorder",
    "C10": "stateful testing of execution results against a model of scripts of logs, errors, returns and nested executions",
    "C11": "fault injection: exceptions thrown at generated points of generated histories, against a model",
    "C12": "stateful model-based testing of variables of many types: reads, writes, rejected writes, aliases",
    "C13": "stateful model-based testing of bound properties and member functions over several objects",
    "C14": "property-based testing of named-argument lookups against a first-match list model",
    "C15": "property-based testing of compound conversions and printing against an independent model",
    "C16": "stateful testing of commands running generated scripts on their own registry, against an interpreter",
    "C17": "stateful model-based testing of String, StringView and Buffer against std::string",
    "C18": "stateful model-based testing of Vector with counted, self-checking elements",
    "C19": "stateful model-based testing of UnorderedMap against std::map, with colliding keys and counted values",
    "C20": "stateful model-based testing of metadata over generated registries of 47 signatures, two naming configurations",
    "C21": "stateful model-based testing of Optional, Expected, Unexpected and UniquePtr with counted payloads",
    "C22": "stateful model-based testing of lexer replacement with recording lexers and a reference parser",
    "C23": "property-based testing of error messages over hostile and long texts against exact expected messages",
    "C24": "differential testing of formatting against snprintf, and histories of logging against concatenation",
    "C25": "randomised concurrent workloads against single-threaded runs, under the thread sanitizer",
    "C26": "metamorphic testing of repeated rounds of operations: allocated bytes after the last round against those after the third",
    "C28": "fault injection: every allocation and every copy of each operation of a history fails in turn; differential oracle against a twin registry that never fails, captures counted",
    "C29": "metamorphic testing of counted work: branches, bytes moved and bytes allocated by a generated scenario at k times and 16 k times its size",
    "C27": "generated programs: random signatures, kinds of callables and ways of binding, compiled, run under sanitizers and compared with what the generator knows; pairs of programs of which one must not compile",
}
COMMON = "Holds on every generated case of the run, no more; cases are random but reproducible from VERIF_SEED. Trusts the compilers, sanitizers, C library and the reference written in /verif."
NOTES = {
    "C01": "Termination is judged by a time limit per case.",
    "C03": "The one text class with an unspecified meaning (bare list beginning with a separator) only has to be handled safely.",
    "C04": "Leading white space and '-0' for unsigned types are left open.",
    "C05": "Subnormals, hexadecimal, inf and nan notations are left open; the C locale is assumed.",
    "C11": "Variant A checks containment; variant B (exceptions not caught by configuration) checks that they propagate and leave the registry intact.",
    "C23": "Texts with NUL bytes are excluded: messages pass through C strings.",
    "C28": "Failures are injected into global operator new and into a user-defined type; malloc inside the C library does not fail. At most 400 points of one operation.",
    "C29": "Work at 16 times the size may be 40 times as much plus a constant; names chosen to collide and load factors the user made smaller are left out.",
    "C27": "Two compilers (GCC 13, Clang 18), C++17 to C++23.",
    "C26": "Memory is what the sanitizers' allocator has handed out; growth that stops before the third round is not seen.",
    "C25": "Schedules are whatever the machine produces; the thread sanitizer sees unsynchronised accesses whatever the timing, provided the code runs on two threads.",
}
checks = []
for pid in sorted(CHECKS):
    variants = sorted(CHECKS[pid]["quick"]["cases"])
    checks.append(dict(property=pid,
                       quick_cmd=f"python3 check.py {pid} --tier quick",
                       thorough_cmd=f"python3 check.py {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json",
                       technique=TECHNIQUE[pid], level="exploration",
                       level_note=(NOTES.get(pid, "") + " " + COMMON + " Configurations: " + ", ".join(variants) + " (see check.py).").strip()))
listed = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
missing = [p for p in listed if p not in CHECKS]
manifest = dict(version=1, setup_cmd="python3 check.py --self-test", checks=checks,
                not_applicable=[dict(property=p, reason="no check yet") for p in missing],
                notes="No hooks: the checks use coil's public headers and sources as they are. known-findings.txt lists the defects found and repaired.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
