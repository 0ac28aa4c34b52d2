"""Writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "random and enumerated expressions over all operators, operand forms and evaluation orders (every operand can be a call of the host which is recorded)",
 "C02": "token streams, escapes, number formats, precedence tables and random layouts",
 "C03": "random nested control flow; every statement executed leaves a recorded call",
 "C04": "functions of every number of parameters and locals, recursion, shadowing, scopes in every position",
 "C05": "well-typed programs, the table of operators over type pairs, and programs with one injected error or random damage",
 "C06": "programs which build, alias, mutate and compare structs",
 "C07": "programs which hold objects in every kind of place while the collector runs; the order of finalizers is recorded",
 "C08": "every finalizer is recorded; the number of objects which are not reclaimed is compared with the number reachable in the specification",
 "C09": "up to eight threads of one state, stepped, run, called into and destroyed in random interleavings",
 "C10": "host calls before, between, inside (from foreign functions, nested) and after executions",
 "C11": "failing sources of every kind between sources which succeed",
 "C12": "programs cut into pieces at every statement",
 "C13": "random bytes, damaged programs, extreme sizes and nesting, under AddressSanitizer",
 "C14": "a recording allocator for each state and thread, in every kind of history, also aborted ones",
 "C15": "random operations on arrays of every element type",
 "C16": "random operations on dictionaries with colliding keys of every type",
 "C17": "strings from every source with every byte, every operation on them",
 "C18": "conversions, formats, files and JSON with random arguments",
 "C19": "the line reported at every call of the host in programs with random layout",
 "C20": "the listing of every program, and its execution by a machine which knows only the listing",
 "C21": "host macros, arrays, JSON and delegates with random arguments",
 "C22": "random signatures and argument lists",
 "C23": "globals read and written by the host at every point",
 "C24": "behaviours of the specification of the containers replayed into the C functions",
 "C25": "every short text and every index, and the positions of compile errors",
 "C26": "queries for types, functions and constants after every source, from macros, and while a program runs",
}
DONE = [l.strip() for l in open(os.path.join(V, "tools", "claimed")) if l.strip()]
TECH = {"C24": "TLA+ specification of the containers; behaviours generated by TLC replayed into the C functions, recorded traces validated by TLC",
        "C25": "TLA+ specification of positions; recorded results validated by TLC",
        "C20": "TLA+ machine executing the disassembly, recorded histories validated by TLC against it"}
checks, na = [], []
for p in sorted(NOTE):
    if p not in DONE:
        na.append({"property": p, "reason": "The specification of this part is being written; not claimed yet."})
        continue
    checks.append({"property": p, "quick_cmd": "python3 /verif/tools/check.py %s quick" % p, "thorough_cmd": "python3 /verif/tools/check.py %s thorough" % p,
                   "technique": TECH.get(p, "TLC trace validation of recorded histories of the real library against an executable TLA+ specification"),
                   "level": "model_checking",
                   "level_note": "Histories of the real library (built from the working tree with AddressSanitizer) are checked by TLC to be behaviours of the TLA+ specification: "
                                 + NOTE[p] + ". Exhaustive only where DESIGN.md says so, otherwise as far as the generated histories reach. Trusts TLC and the recorder harness/tinyh.c; behaviour the specification leaves open is not judged."})
json.dump({"version": 1, "setup_cmd": "sh /verif/harness/build.sh /verif/build/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. known-findings.txt lists repaired defects and findings."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
