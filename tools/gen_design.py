#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, with a table of cases taken from a run's evidence files. usage: gen_design.py"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
title = {p["id"]: p["title"] for p in props}

HEAD = """# Deciding the properties of seiren by property-based testing and fuzzing

seiren turns the text of a small ER-diagram language into SVG:
`parser` (text -> `erd::Module`), `erd` (module -> `mir::Document`), `layout` (grid placement, connection
points, orthogonal routing), `renderer` (document -> SVG), plus `geometry`, `color`, `evcxr` (notebook output)
and the `seiren` command-line tool. Everything the properties speak about is reachable through public items, so
no hooks are needed in /repo, and every listed property is decided by generated-input search: none is "not
applicable".

## Machinery

One crate, `/verif/harness` (path dependency on /repo, proptest 1.12 for generators and shrinking, own runner).

* Each property is one or more *facets*: a proptest strategy for a serialisable case, and a check against an
  explicit oracle. Every run executes a fixed number of cases (no time budgets), split over a fixed number of
  shards whose ChaCha seeds derive from (VERIF_SEED, property, facet, shard): a run is a pure function of the
  code and the seed, whatever the number of cores. The thorough tier runs 30 times the cases, with bigger generators where that helps.
* Calls into seiren run under `catch_unwind`; a panic there is a violation. A panic in the harness itself is an
  error exit (2), never a violation.
* `check` runs the cases in a child process. If the child hangs (100 s on one case), overflows its stack, aborts
  or runs out of memory, the supervisor (`supervise.rs`) knows from shared slots which cases were running, runs
  these again one by one in processes of their own (15 s each), and shrinks the culprit the same way; it becomes
  a replay file like any other. Tried with a hang, a stack overflow and unbounded growth planted in the layout.
  The limits are far above what any case takes (milliseconds to a few seconds), so that a loaded machine does not
  make a case fail; if no case fails on its own, the run is an error (2), not a violation.
* A failing case is shrunk by proptest (for at most 90 s) and written as JSON to `/verif/replays/`; `./check.sh replay <file>` runs
  the check on it without the generators. `/verif/harness/regress/<id>/` holds saved cases (shrunk witnesses of
  the defects repaired in /repo, and boundary cases) that are replayed first on every run.
* The evidence file counts generated cases, distinct non-trivial ones (by a stated rule per facet), a class
  histogram, and samples.
* Scratch files of the command-line checks live in a directory of their own under the system's temporary
  directory, which the check removes. Nothing else is written, and nothing in seiren deletes files.

Parts of the harness that serve as oracles, all written from the documentation and not from the code:
`model.rs` (a module as data), `fmtsrc.rs` (writes a module as text in a random layout, driven by a reel of random
numbers, so that it shrinks), `refparse.rs` (lexer, recogniser and viable-prefix parser of the documented
grammar), `xml.rs` (XML reader that rejects ill-formed documents), `props_units.rs` (exact integer clipping).

Generators: `gen::ast` (modules: names plain, colliding, or any Unicode up to thousands of characters; duplicate and
dangling names by choice; relations scattered), `uneven` (tables of very different heights), `tall` (thousands of rows,
for large coordinates and costs), `vast` (hundreds of tables, rows or relations), `hand` (laid-out tables moved to another grid of 1-5 columns, to leave the
engine's own geometry), `any_source` / `edits` / `sequences` (texts: arbitrary, damaged, token by token), `mdoc`
(documents built through the API with random geometry, colours and routes), operation lists for the stateful ones.

## How each property is decided

"Cases" are those of a quick run with seed 1 (a run takes 3 to 25 s on 8 cores); thorough runs 30 times as many (5 to 12 minutes).
"""

HOW = {
"C01": ("Any text: random Unicode, token soup, damaged programs, very deep repetitions. Oracle: parsing returns (supervised for hangs and stack overflow), gives a module or an error, and every error span lies in 0..=length counted in characters.", "Tests parse a dozen texts; totality is about all of them."),
"C02": ("A generated module is written by the harness's own writer in a random layout (padding, separators, comments, quoting, escapes); the parsed module must equal it.", "Every combination of layout decisions and names."),
"C03": ("Programs are edited token by token and character by character, truncated, or composed as random token sequences; the harness's independent recogniser decides membership in the grammar. Outside: at least one error. Inside: no error and the reference parser's module.", "Decides acceptance both ways on near misses."),
"C04": ("Quoted names built from pieces (raw characters, every escape, \\\\u escapes of every code unit, bad escapes) placed as name of module, entity, field or relation end; a reference decoder gives the expected string or demands an error.", "All 65536 \\\\u units are sampled; tests use a handful."),
"C05": ("The same module in two writings (layout and quoting drawn independently); the SVGs must be byte-identical.", "Metamorphic; needs no idea of the right SVG."),
"C06": ("Round trip parse(display(m)) = m and display is a fixed point.", "Any module over plain identifiers, including names that begin with keywords."),
"C07": ("The document made from a generated module is compared with the module table by table and row by row, also through the parser.", "Duplicate names, wide modules, relations anywhere."),
"C08": ("Reference name resolution over the whole module (duplicates: any node of that name is a legal end) gives the edges expected, in order; removing dangling relations must leave the remaining edges the same.", "Collisions and forward references by construction (tiny name pool)."),
"C09": ("Invariant over every laid-out module: rows tile tables, grid alignment, spacing, margins, view box.", "Every number of tables and heights up to thousands of rows."),
"C10": ("Invariant: the exact set of connection points of each table and row.", "Also on tables moved to other grids."),
"C11": ("Invariant over every route: axis-parallel, no zero-length or reversing step, both ends at a connection point of the right node with the right direction.", "Self relations, relations inside a table, shared points."),
"C12": ("Every segment of every route against every table rectangle with exact comparisons in the harness (not seiren's own intersection test).", "Any diagram; obstacles of any height."),
"C13": ("Dijkstra in the harness over the engine's published graph, for all pairs of connection points of the two ends; and the relation reversed.", "The optimum for each generated diagram."),
"C14": ("Text -> SVG for generated programs up to 40 tables, tall tables, and for every module recovered from damaged text; the result must be complete, well-formed and finite.", "Panics depend on the whole diagram."),
"C15": ("Stateful: several documents and engines, layouts and extensions in random order; each result is compared with a fresh engine and a fresh copy of the document, and sequences of nearly equal modules with new engines in another process.", "Histories; tests use each engine once."),
"C16": ("The SVG is read by the harness's XML reader; texts must be exactly the names (white space as XML treats it), and the shape of the document must be that of the same diagram under harmless names.", "Any Unicode name, control characters and thousands of characters included."),
"C17": ("Documents built through the API with random geometry and style: every element the drawing may consist of is predicted and compared, numbers within rounding.", "Every attribute is compared, not one sample drawing."),
"C18": ("Path data parsed and walked along the route: start, end, segments, tangent points and control point of each bend, one radius for all; circles at the ends.", "All eight kinds of bends, random staircases, laid-out routes."),
"C19": ("Documents with any subset of geometry missing; writers that take few bytes, interrupt, or fail at a random byte with a random kind of error.", "Fault injection at every point."),
"C20": ("The answer for a text is compared across repetitions, threads and processes; nearly equal texts are answered one after the other here and in the opposite order elsewhere, and under environment variables, working directories and thread names of all kinds; a dense facet has many ties for the route search to break.", "Hash-order dependence shows only across map instances."),
"C21": ("The SVG with view box and/or overlay is compared with the one without: prefix equality of elements, then the overlay is matched with the graph.", "Random graphs, not only the laid-out ones."),
"C22": ("Coordinates on integer grids of four sizes; exact rational clipping in the harness says which segments meet the closed rectangle and where they enter and leave. Grids are small enough to be covered densely (tiny-grid) and large enough for rounding (wide).", "All degenerate and touching positions."),
"C23": ("The documented laws computed in exact integer arithmetic for the same grids.", "As C22."),
"C24": ("The built command-line tool is run on generated texts by file name and standard input (also undecodable bytes, missing files, directories, file names of any bytes, environment variables and working directories of all kinds, outputs that take only so many bytes or none); its standard output, standard error and exit status are compared with what the library says.", "No test runs the tool."),
"C25": ("A helper process draws documents received as cases through the evcxr display function; its standard output must be the two marker lines around the renderer's bytes.", "Any document and view box."),
"C26": ("Random colours and whole planes of the colour cube against a two-digit reference; named colours against the CSS keywords.", "Digit order and padding errors show on few colours."),
"C27": ("Random command lists against a list model, after every command.", "Stateful."),
"C28": ("Random operation histories on a document against a map model, the whole state compared after every step.", "Stateful; unrelated nodes are compared too."),
"C29": ("Invariant over the route graph after layout, links against tables with the harness's own comparisons, reachability by search.", "Any diagram, also on other grids."),
"C30": ("1-3 runs of characters that start no token are inserted before tokens; the module must stay the same and the errors must be located at them.", "Any position in any program."),
"C31": ("Each table's elements in the diagram against those of the table drawn alone, moved by the difference of the origins; against the same table under other names; one style per role over the whole diagram.", "Metamorphic over every place on the grid, every combination of types and keys."),
"C32": ("An independent shortest-path search on the grid spanned by all table borders widened by 40 units and the ends of the stubs: seiren's route may be no longer. Independent of seiren's own graph, so that missing junctions or links show.", "C13 trusts the graph, this does not."),
"C33": ("Layouts of related modules are compared: other names (line breaks, long, markup), types and keys; without relations; tables appended; relations appended, prepended, reordered.", "Metamorphic; needs no reference layout."),
"C34": ("The reference parser finds the first token without viable continuation and the set of tokens that may follow; span, found token and soundness of the expected set are compared. Completeness of the expected set is only required of non-emptiness, because the combinator library prunes it.", "Every way of going wrong in generated texts."),
"C35": ("Reports on standard error are parsed and compared with the library's errors in order: file name, line, column, found token, every expected token.", "Multi-line texts, comments, wide characters, odd file names."),
"C36": ("Random additions to a RouteGraph against a list model, compared after every step; places may be as close as two neighbouring floating-point numbers.", "Stateful."),
"C37": ("A module's document is extended by a random history: rows of no table, tables outside the body, rows and tables attached later, edges between any two shapes, layouts in between. The result is compared with a twin built by the same steps without what is outside the diagram in the end: rectangles, connection points, view box, length of routes, and, where every edge can be drawn, the bytes of the SVG.", "Stateful and metamorphic."),
"C38": ("Random additions to erd::Module and EntityDefinition by all methods, with copies, against a list model, compared on the way and in the end for all copies.", "Stateful."),
}

TAIL = open(os.path.join(root, "tools", "design_tail.md")).read()
out = [HEAD]
for p in props:
    i = p["id"]
    how, why = HOW[i]
    try:
        ev = json.load(open(os.path.join(root, "evidence", i + ".json")))
        cov = ", ".join(f"{f['facet']} {f['evaluations']:,}" for f in ev["coverage"]["facets"])
        cov = f"\n  Cases: {cov}."
    except Exception:
        cov = ""
    how = how.replace("\\\\", "\\"); why = why.replace("\\\\", "\\")
    out.append(f"* **{i} {p['title']}.** {how}\n  Reach: {why}{cov}\n")
rows = []
sd = os.path.join(root, "seeded")
out.append(TAIL)
out.append("\n| planted bug | check | what it breaks |\n|---|---|---|\n")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |\n")
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
