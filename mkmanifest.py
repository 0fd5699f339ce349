#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the table below
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "generated grammars and texts against a reference interpreter, permuted alternatives, and each alternative on its own",
 "C02": "generated grammars and texts against a reference interpreter",
 "C03": "generated terminals, offsets and whitespace against a reference interpreter; every code point once",
 "C04": "generated block definitions and texts against a reference interpreter",
 "C05": "generated grammars and texts: conservation of chars over an instrumented stream",
 "C06": "generated grammars and multi-line texts: positions recomputed from the text",
 "C07": "generated grammars with many roots: whole-text reference, permuted rules, repeated parses",
 "C08": "generated nullable grammars through every entry point under CPU, memory and stack limits",
 "C09": "fuzzed definitions against a reference parser, and valid definitions with one injected defect",
 "C10": "print-and-reload round trip of generated grammars",
 "C11": "model-based histories of adding, failing, validating and printing",
 "C12": "generated annotated grammars against a reference interpreter and against their unannotated form",
 "C13": "generated trees and parses against a reference simplifier, with text and name conservation",
 "C14": "generated annotated parses against reference simplification stages",
 "C15": "generated trees against a reference renderer and counters, and a parser of the rendered tree",
 "C16": "model-based stream histories against a list with a cursor",
 "C17": "generated concurrent histories under the race detector, compared with sequential runs",
 "C18": "generated texts with embedded matches: leftmost tiling against the rule itself and a reference",
 "C19": "generated JSON, arithmetic and property documents against independent parsers and transcribed grammars",
 "C20": "metamorphic: the same generated grammar in two notations, against each other and a reference",
 "C21": "generated histories on one grammar and stream: snapshots of all results, and replay on a fresh grammar",
 "C22": "generated command lines: output of the built tool against the library",
 "C23": "generated grammars and texts that don't fit: index and reason of the error against bounds from a reference interpreter",
 "C24": "outlines of generated rules, parsed and compared with the definitions part by part",
 "C25": "metamorphic: generated grammars with rules renamed, reordered and added, and texts with other surroundings, give the same results",
 "C26": "metamorphic: generated grammars rewritten at several places into ones that mean the same give the same matches and leaves",
}
N = {
 "C08": " Left recursion is a known finding and is not generated. Termination is judged by CPU time per case (12 s, confirmed alone with 90 s).",
 "C12": " The effect of a token annotation on merging is a known finding and is not generated.",
 "C14": " Merging marked with unmarked sticky nodes is a known finding; cases where that happens are left out of the conservation check only.",
 "C17": " Only schedules that happened are seen; the race detector widens that to unordered accesses in them.",
 "C22": " The tool is built from the same tree; the library it is compared with is decided by the other checks.",
}
note = "No failing case among those generated (counts, share of non-trivial cases and samples are in the evidence file); nothing is proved. Trusts the reference oracle in /verif/harness, the Go toolchain and rapid."
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = [dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
               technique="property-based testing: " + T[p["id"]], level="exploration", level_note=note + N.get(p["id"], "")) for p in props]
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo. The put-back stream is exported to the harness by a build overlay (harness/overlay), not by a change of /repo. known_findings.txt lists findings and fixed defects.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
