#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
T = "property-based testing (rapid): "
C = {
 "C01": (T+"tokens by construction, and a reference lexer on generated texts", "Random token lists, mutated configurations and character soup; exact comparison of every token and error."),
 "C02": (T+"tree by construction, and a reference parser", "Random trees with random layout, with deep, wide and long classes; exact comparison of trees and lines."),
 "C03": (T+"round trip parse/build/parse and idempotence of build", "Valid, mutated and argument-focused texts; comparison of trees and bytes."),
 "C04": (T+"inverse (parse of build) on trees made by a program", "Random trees with hostile strings; exact comparison."),
 "C05": ("fuzzing (rapid): arbitrary and mutated bytes x options, validity predicate, crash/hang/leak oracle", "Every worker is a process of its own; crash and hang are attributed to the case in flight."),
 "C06": (T+"reference validator over directive masks", "Random definitions, contexts, arguments and options, and the library's own tables."),
 "C07": (T+"metamorphic insertion of invalid statements, and a reference parser", "Exact errors (file, line, statement, block) and exact remaining tree."),
 "C08": (T+"entries of map-like blocks by construction", "All map-like blocks, arities and terminators."),
 "C09": (T+"reference include resolver over a generated file system", "In-memory and on-disk file sets; payload compared in everything."),
 "C10": (T+"reference cycle detector over generated include graphs", "Random multigraphs."),
 "C11": (T+"reference inliner over parsed and hand-made payloads", "Exact comparison of the combined tree, errors and the unchanged original."),
 "C12": (T+"metamorphic relations between option sets", "Same files parsed under related options."),
 "C13": (T+"JSON round trip, document by construction", "Payloads from parsing and made by a program."),
 "C14": (T+"differential between build targets, file-system snapshots, failing targets", "Runs as an unprivileged user in a scratch directory."),
 "C15": (T+"verbatim by construction, recording extensions", "Random Lua bodies with nesting, strings, comments and long brackets; recording lexers and builders."),
 "C16": (T+"differential over chunkings, capacities, histories and concurrent use under the race detector", "The race detector sees only the interleavings that occur."),
 "C17": (T+"fault enumeration over an instrumented generated file system", "Every operation of each generated case is made to fail in turn."),
 "C18": (T+"containment and metamorphic relations between directive tables, upstream definition lists", "Names, contexts and argument counts of the tables are enumerated."),
 "C19": (T+"generated C source trees, expected tables by construction", "Output is parsed with go/parser and compared."),
 "C20": (T+"differential between flags and config file of the built command", "Runs the built command as an unprivileged user in a scratch directory."),
 "C21": (T+"model-based equality on trees and single edits", "Random trees, all single-field edits."),
 "C22": (T+"differential between stop and collect modes, callback log", "Files with generated errors."),
}
LEVEL = {"C17": "fault_enumeration"}
have = set()
import re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in glob.glob(root + "/harness/c*.go"):
    have |= set(re.findall(r'Prop: "(C\d\d)"', open(f).read()))
m = {"version": 1,
 "setup_cmd": "bash bin/check --setup",
 "checks": [], "not_applicable": [],
 "notes": "Only exported API is used; no hooks in /repo. bin/replay FILE re-runs a replay file. DESIGN.md describes oracles, domains, findings and planted changes."}
for k in sorted(C):
    t, n = C[k]
    if k in have:
        m["checks"].append({"property": k, "quick_cmd": "bash bin/check " + k,
          "thorough_cmd": "VERIF_TIER=thorough bash bin/check " + k, "evidence_file": f"evidence/{k}.json", "technique": t,
          "level": LEVEL.get(k, "exploration"),
          "level_note": n + " Assurance is that of generated-input search: what was not generated is not judged. Trusts the oracle in /verif/harness and rapid."})
    else:
        m["not_applicable"].append({"property": k, "reason": "check under construction"})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
