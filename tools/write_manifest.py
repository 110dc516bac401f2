#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential testing of generated C/C++ programs: original vs instrumented build", "generated programs are free of undefined behaviour (sanitizers, -O2 and gcc agree before a mismatch counts)"),
 "C02": ("fuzzing with generated and recombined sources in random layouts; oracle: dredd exits 0 and clang accepts its output", "sources must compile with clang 17 on their own"),
 "C03": ("differential testing against a reference model that applies each described mutant as a source edit", "mutants whose edit has unspecified order of effects are not judged"),
 "C04": ("metamorphic testing of enabled-id lists: order, repetition, foreign ids, combined independent mutants", ""),
 "C05": ("property-based testing of id assignment over generated multi-file invocations and all modes", ""),
 "C06": ("differential testing of tracked ids against hit probes inserted at each reported site", ""),
 "C07": ("generated programs; every reported range, snippet, operator and tree edge checked against clang's own AST and the text", ""),
 "C08": ("generated programs: subset relation and kill-set dominance of dropped mutants over enumerated inputs", ""),
 "C09": ("metamorphic testing: repeated runs, added options, reordered and combined files", ""),
 "C10": ("generated directory trees and command lines with injected faults; byte comparison of every file", ""),
 "C11": ("generated multi-threaded programs under ThreadSanitizer and many schedules", ""),
 "C12": ("generated programs that observe every compile-time constant at run time under every mutant", ""),
 "C13": ("generated info files queried for every id; compared with an independent reading", ""),
 "C14": ("generated programs: reported mutants compared with a model of the repertoire evaluated on clang's AST", ""),
 "C15": ("generated multi-file programs instrumented together, linked, and compared file by file", ""),
}
have = [p for p in T if os.path.exists(os.path.join(ROOT, "dv/checks/%s.py" % p.lower()))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                 "technique": "property-based testing: " + T[p][0], "level": "exploration",
                 "level_note": "Holds on every generated case of the run (counts in the evidence file); no claim beyond the generator's reach." +
                 ((" " + T[p][1][0].upper() + T[p][1][1:] + ".") if T[p][1] else "")} for p in have],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in T if p not in have]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
