#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "C01": "validity predicate: parsing any text terminates without panic, and has a module or an error; spans within the source",
 "C02": "model-based: generated module, printed by the harness's own formatter, must parse to the same model",
 "C03": "differential: an independently written lexer and parser of the documented grammar",
 "C04": "reference decoder for quoted identifiers",
 "C05": "metamorphic: two formattings of one module give the same tree and the same SVG",
 "C06": "round trip: parse, print, parse, print",
 "C07": "model-based: the document's tables and rows against the generated module",
 "C08": "model-based: reference name resolution",
 "C09": "invariant over the layout of generated modules",
 "C10": "invariant over the terminal ports of generated modules",
 "C11": "invariant over the routes of generated modules",
 "C12": "invariant: exact segment/rectangle geometry in the harness",
 "C13": "reference model: Dijkstra over the engine's own route graph, all port pairs",
 "C14": "validity predicate: every accepted program is drawn, without panic and with every element finite",
 "C15": "model-based histories: reused engine and document against a fresh run",
 "C16": "reference XML reader: well-formedness and exact texts",
 "C17": "reference reading of the SVG: boxes, labels and badges of generated documents",
 "C18": "reference reading of the SVG paths against the routes",
 "C19": "fault injection: documents with missing positions and failing writers",
 "C20": "repeat and process-to-process determinism",
 "C21": "metamorphic: the SVG with the route graph contains the SVG without it, plus the graph",
 "C22": "reference model: exact rational (integer) clipping",
 "C23": "algebraic laws and integer reference arithmetic",
 "C24": "differential: the command-line process against the library",
 "C25": "differential: the notebook text of another process against the SVG",
 "C26": "round trip and reference table of colours",
 "C27": "stateful: operation sequences on a path against a list model",
 "C28": "stateful: operation sequences on a document against a map model",
 "C29": "invariant over the route graph, with a reference nearest-neighbour computation",
 "C30": "metamorphic: inserted stray characters are reported and change nothing else",
 "C31": "metamorphic: each table's SVG elements in the diagram against those of the table alone, renamed and moved",
 "C32": "reference model: shortest rectilinear way with clearance, found on the grid of relevant lines",
 "C33": "metamorphic: layouts of related modules (renamed, retyped, extended, reordered)",
 "C34": "differential: position and possible continuations from the independently written parser",
 "C35": "differential: the command-line process's reports against the library's errors",
 "C36": "stateful: operation sequences on a route graph against a list model",
 "C37": "stateful and metamorphic: documents built step by step against their twins without the shapes and edges outside the diagram",
 "C38": "stateful: operation sequences on modules and their copies against a list model",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing (proptest generators, shrinking); oracle: " + ORACLE[i],
        "level": "exploration",
        "level_note": "Seeded search over generated inputs with a fixed number of cases; shows the presence of violations, "
                      "and their absence only for the cases run. Trusts the harness's oracle and proptest. See DESIGN.md.",
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: all modules of seiren are public. known-findings.txt lists the defects repaired by fix: commits."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
