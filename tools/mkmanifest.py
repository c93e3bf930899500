#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential trace monitoring of rebuilt programs with no mutant enabled", "Traces of values, events and exit status of the instrumented program are compared with the original's on generated, enumerated and handwritten programs, two inputs and two optimisation levels. Assumes the workload's programs are deterministic and free of undefined behaviour, which is monitored with ASan/UBSan before use."),
 "C02": ("compiler and linker as monitors over rewritten programs in all modes", "The real compiler decides for every program of the workload in every mode. Constructs outside the workload are not seen."),
 "C03": ("ASan, LSan and UBSan on instrumented programs, dormant, tracking and with mutants enabled", "Sanitizer reports count only where the equivalent uninstrumented program is clean under the same sanitizers."),
 "C04": ("runtime comparison of each enabled mutant with an independently built reference mutant", "The reference is made by editing the original source at the reported range with types from clang's own AST; runs with undefined behaviour in the reference are inconclusive and counted."),
 "C05": ("checker over the mutation report plus hooked id queries at run time", "Every id in the report is matched with the ids the running code asks for or records."),
 "C06": ("offline checker of the report against clang's AST dump", "Ranges, snippets, operators and nesting of every mutant of the workload are compared with an independent AST dump."),
 "C07": ("runtime monitoring of enabled sets against composed references and equivalent spellings", "Sets are sampled; composition is judged only for mutants at disjoint ranges."),
 "C08": ("online reach probes compared with the recorded coverage log", "Probes are compiled into the original at the ranges the report gives and record which were evaluated."),
 "C09": ("differential trace monitoring of coverage-tracking builds, with fault injection on the tracking file", "Compared with the original and with the report of real mutation."),
 "C10": ("ThreadSanitizer and stress runs of multi-threaded instrumented programs", "Races are reported only if the uninstrumented program has none; interleavings are sampled with injected delays."),
 "C11": ("monitoring of the file system and exit status over scenarios of good, bad and repeated files", "All files of a scratch tree are hashed before and after."),
 "C12": ("metamorphic monitoring of repeated and differently reported runs", "Byte comparison of outputs over runs, options and file groupings."),
 "C13": ("report comparison with and without optimisations and runtime domination monitor", "Inclusion and behaviour of kept mutants are compared on whole programs; domination and equality of dropped ones are evaluated on enumerated inputs of one-expression functions."),
 "C14": ("monitoring the query script's output against behaviour of the enabled mutants", "The printed replacement is spliced into the original, compiled and compared at run time."),
 "C15": ("ASan and UBSan build of dredd on valid, broken and byte-mutated sources", "Inputs on which clang itself crashes are left out."),
 "C16": ("checker of the report against an independent model of the documented mutants over clang's AST dump", "The model is written from the documentation and from the rules stated in comments beside the code, over clang's AST dump. Constructs whose eligibility the dump does not settle are marked unclear and not judged; the evidence counts them."),
 "C17": ("text monitors over rewritten files", "The original text must be a subsequence of the output outside operators; the prelude block is located and compared."),
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = "checks/%s.py" % p.lower()
    if os.path.exists(os.path.join(V, f)):
        t, n = T[p]
        checks.append({"property": p, "quick_cmd": "python3 " + f, "thorough_cmd": "env VERIF_TIER=thorough python3 " + f, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the machinery observes dredd through its output and the programs it rewrites."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks])
