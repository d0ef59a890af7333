#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

p("C01", "Parsing is total and never silent",
  "Parsing any Unicode text returns normally: it never panics or hangs. It yields a module, or at least one error, or both, and every reported error points at a character range inside the text (or at the end of input, one position past its last character).",
  ["inputs"], "every Unicode string, well-formed program or not",
  "The two parser tests feed two well-formed programs; no test feeds a malformed one, so nothing exercises recovery, spans or the empty result.",
  ["src/parser.rs"], [("parse / tokenizer error recovery", "src/parser.rs: parse(), tokenizer()")],
  ["seiren::parser::parse"])

p("C02", "Every program of the documented grammar parses to exactly what it says",
  "Any text generated by the documented ERD grammar (module with optional name, entities, fields with type and optional key, relations between entities or fields, newline or `;` separators, blank space and `//` comments wherever padding is allowed) is accepted without any error. The resulting module has exactly the written name, entities, fields, types, keys and relation ends, in the written order.",
  ["inputs", "programs"], "every module structure and every way of writing it down within the grammar",
  "The tests parse five fixed texts; they cannot cover combinations of optional parts, separators, padding and identifier spellings (e.g. no test has a relation that names a whole entity).",
  ["src/parser.rs", "src/erd.rs"], [("token grammar", "src/parser.rs: tokenizer()"), ("module grammar", "src/parser.rs: erd_module_parser()")],
  ["seiren::parser::parse", "erd::Module::entries", "erd::EntityDefinition::fields", "erd::EntityRelation"])

p("C03", "Text outside the grammar is always reported as an error",
  "If the whole text is not a program of the documented grammar - a missing, extra, misplaced or misspelt token anywhere, trailing text after the closing brace, an unterminated or ill-escaped quoted name, a truncated file - parsing reports at least one error. A malformed program is never silently accepted as if it were a different, well-formed one.",
  ["inputs", "programs"], "every text that is not in the language, in particular every small edit of a program",
  "No existing test contains a malformed program; rejection over all edits at all positions is a universally quantified claim.",
  ["src/parser.rs"], [("end of input and separator handling", "src/parser.rs: tokenizer(), erd_module_parser()")],
  ["seiren::parser::parse"])

p("C04", "Quoted names denote exactly the characters written",
  "A back-quoted name may hold any characters, including keywords, punctuation, newlines and the empty name, and denotes exactly the string obtained by decoding its escapes (\\\\ \\/ \\\" \\` \\b \\f \\n \\r \\t and \\uXXXX). A \\u escape that is not a Unicode scalar value is reported as an error, and so is an unknown or incomplete escape.",
  ["inputs"], "every Unicode string as a name, in every mixture of literal and escaped characters, in every position where a name may stand",
  "The tests quote only `uuid` and `text`, with no escape at all.",
  ["src/parser.rs"], [("quoted identifier and escape parsers", "src/parser.rs: tokenizer() escape / quoted_ident")],
  ["seiren::parser::parse", "names reachable from erd::Module"])

p("C05", "Formatting and comments never change the diagram",
  "Two programs with the same tokens that differ only in blank space, line breaks (LF or CRLF), `;` versus newline separators, comments and redundant quoting of names produce byte-identical SVG.",
  ["inputs", "programs"], "every module and every pair of ways to lay out its text",
  "A relation between two runs on different texts; the tests compare single texts with fixed outputs.",
  ["src/parser.rs", "src/erd.rs", "src/layout.rs", "src/renderer.rs"], [("trivia handling in the tokenizer, padding in the grammar", "src/parser.rs")],
  ["SVG bytes of the whole pipeline"])

p("C06", "The printed form of a module parses back to the same module",
  "For every module whose names are plain identifiers (not keywords), the text obtained by displaying the module is accepted by the parser without errors and yields an equal module; displaying that one gives the same text again.",
  ["inputs", "programs"], "every module over plain identifiers, with every mixture of entities, fields, keys and relations between entities or fields",
  "Tests only compare two printed modules with fixed strings and never parse printed text.",
  ["src/erd.rs", "src/parser.rs"], [("Display impls", "src/erd.rs"), ("grammar", "src/parser.rs")],
  ["ToString of erd::Module", "seiren::parser::parse"])

p("C07", "Every declared entity and field reaches the diagram, once and in order",
  "The diagram built from a module has exactly one table per declared entity, in declaration order, each with a header carrying the entity's name followed by one row per declared field in order, carrying the field's name, its type and, if and only if it has one, its PK/FK badge. Relations and the module's name add no tables or rows.",
  ["inputs", "programs"], "every module, whatever the names, duplicate names included",
  "Tests convert three fixed modules; none has an empty entity, duplicate names or interleaved relations.",
  ["src/erd.rs", "src/mir.rs"], [("AST to MIR translation", "src/erd.rs: Module::into_mir")],
  ["mir::Document body, node kinds and children"])

p("C08", "A relation is drawn exactly when both its ends are declared",
  "Each relation whose two ends name an entity or field declared anywhere in the module - before or after the relation - yields exactly one edge, from a node with the first end's name to a node with the second end's name, in declaration order. A relation with an undeclared end yields none and affects nothing else.",
  ["inputs", "programs"], "every module, every placement of relations among the entity declarations, every mixture of resolvable and dangling ends, self relations included",
  "Tests put all relations last and all of them resolve.",
  ["src/erd.rs", "src/mir.rs"], [("path resolution", "src/erd.rs: Module::into_mir node_paths")],
  ["mir::Document edges and their endpoints"])

p("C09", "Tables are placed on a grid without overlap, inside the view box",
  "For every module, layout gives each table and each row a finite rectangle: rows tile their table exactly, in order and with equal height; tables fill a three-column grid in declaration order, aligned in columns and rows, and never overlap or come closer than 80 units; columns are evenly spaced, and so are the grid rows, counted from the lowest table of the row above. The margin below the tables equals the one above them. The returned view box has positive finite size and strictly encloses every table, also when there are none. The same holds for tables built through the library, those without any rows included.",
  ["inputs", "programs"], "every number of tables and every combination of table heights, for modules and for documents built through the library",
  "Tests lay out zero to five tables with fixed field counts; the empty case ignores the view box.",
  ["src/layout.rs"], [("grid placement", "src/layout.rs: SimpleLayoutEngine::place_nodes")],
  ["node origin and size", "view box returned by LayoutEngine::place_nodes"])

p("C10", "Connection points lie on the outer border of their shape, facing outwards",
  "After port placement every table has exactly four connection points, at the middles of its four sides; every row has one at the middle of its left and right sides, the first row also at the top and the last row also at the bottom. Each faces away from its shape, and no two connection points in a document share an id. The same holds for tables built through the library, those without any rows included.",
  ["inputs", "programs"], "every module layout, every document of tables built through the library",
  "No test inspects connection points; only the few that a fixed route happens to start from are visible in expected SVGs.",
  ["src/layout.rs", "src/mir.rs"], [("port placement", "src/layout.rs: place_terminal_ports")],
  ["mir::NodeData::terminal_ports"])

p("C11", "Every edge gets a proper right-angled route between its own ends",
  "After layout every edge has a route of at least two points whose consecutive points differ in exactly one coordinate and which never doubles back. It starts at a connection point of the first end, leaving in the direction that point faces, and ends at a connection point of the second end, arriving against the direction that point faces.",
  ["inputs", "programs"], "every module, including self relations, parallel relations and ends sharing a connection point",
  "Tests fix the routes of four small diagrams.",
  ["src/layout.rs"], [("route search", "src/layout.rs: draw_edge_path, find_shortest_edges_path")],
  ["mir::EdgeData::path_points", "mir::NodeData::terminal_ports"])

p("C12", "Routes never pass through tables",
  "No route of any edge enters or touches the rectangle of any table, its own two tables included, except at the route's two end points, which lie on the border of the tables it connects.",
  ["inputs", "programs"], "every module: every combination of table heights, grid positions and connected rows",
  "Whether a route hits an obstacle depends on the whole diagram; the tests fix four diagrams with at most five tables.",
  ["src/layout.rs", "src/geometry.rs"], [("collision test when joining junctions", "src/layout.rs: connect_nearest_neighbor_edge_junctions"), ("segment/rectangle intersection", "src/geometry.rs: Rect::intersects_line")],
  ["mir::EdgeData::path_points", "mir::NodeData::rect"])

p("C13", "Each edge takes a shortest available route",
  "The route of an edge is a path of the engine's published route graph, and no path of that graph between any connection point of the first end and any other connection point of the second end is shorter, up to rounding of less than one unit per segment. Writing the relation the other way round gives a route of the same length, up to the same rounding.",
  ["inputs", "programs"], "every module and every edge; all pairs of connection points of its two ends",
  "Optimality against all alternatives is not visible in an expected SVG.",
  ["src/layout.rs"], [("A* over the route graph", "src/layout.rs: compute_shortest_path, find_shortest_edges_path")],
  ["mir::EdgeData::path_points", "SimpleLayoutEngine::edge_route_graph"])

p("C14", "Every accepted program can be drawn",
  "For every text from which the parser yields a module, conversion, layout and SVG rendering all succeed without panicking and produce a complete SVG document. This includes modules with no entities, empty entities, duplicate names, dangling relations, self relations and many tables and relations.",
  ["inputs", "programs"], "every module the parser can yield, from well-formed or recovered text",
  "The tests draw five fixed diagrams; the pipeline contains a dozen unwrap/panic/assert sites whose unreachability depends on the whole input.",
  ["src/erd.rs", "src/layout.rs", "src/renderer.rs"], [("panic and assert sites", "src/layout.rs: _add_node, compute_shortest_path, draw_edge_path; src/renderer.rs: draw_edge_connection")],
  ["whole pipeline: parse, into_mir, LayoutEngine, Renderer"])

p("C15", "Layout depends only on the document, not on earlier layouts",
  "Laying out a document gives the same geometry, routes, route graph and SVG whatever the layout engine was used for before, and however often the document itself was laid out before. If a laid-out document is extended (tables, rows or relations appended) and laid out again, the result equals laying out the extended document for the first time.",
  ["histories"], "every history of documents, edits and layouts on shared engines",
  "Every test uses a fresh engine and lays each document out once.",
  ["src/layout.rs", "src/mir.rs"], [("engine-held route graph", "src/layout.rs: SimpleLayoutEngine::edge_route_graph"), ("ports stored in the document", "src/layout.rs: place_terminal_ports")],
  ["node geometry, routes and SVG after each layout"])

p("C16", "The SVG is well-formed XML and shows every name verbatim",
  "For every document, whatever characters its names contain, the rendered output is a well-formed XML document with a single svg root. The text elements of the tables hold, in order, exactly the header, row, type and badge texts (up to white-space normalisation, characters that XML cannot represent being substituted), and names never turn into markup.",
  ["inputs"], "every Unicode string as entity or field name, or as text given through the API",
  "All names in the tests are ASCII identifiers.",
  ["src/renderer.rs"], [("text output", "src/renderer.rs: draw_text")],
  ["SVG bytes, parsed as XML"])

p("C17", "The SVG depicts exactly the laid-out tables",
  "Rendering a laid-out document draws, for each table in order, one background rectangle with the table's geometry and colours and with rounded corners exactly when the table asks for them, and for each row its texts with the given colours, fonts and sizes, vertically centred inside the row's rectangle (title at the left, type at the right, badge on a disc inside the row), a separator line along the top of every row but the first, and any row background clipped to the table's own shape. Clip references resolve to unique ids with that table's geometry, and nothing else is drawn besides the page background and connectors.",
  ["inputs", "configurations"], "every laid-out document: any geometry, colours, fonts, optional subtitle, badge and background",
  "Expected SVGs fix one style and at most five tables.",
  ["src/renderer.rs", "src/mir.rs"], [("shape drawing", "src/renderer.rs: SVGRenderer::render")],
  ["SVG elements and attributes"])

p("C18", "Each drawn connector follows its route from end to end",
  "For every edge the SVG has one stroked, unfilled path and two end circles, in edge order. The path starts and ends at the first and last point of the edge's route, its straight pieces run along the route's segments, every bend of the route is rounded with the bend itself as control point and tangent points a fixed radius away along the incoming and outgoing directions, and the circles are centred on the two end points.",
  ["inputs"], "every route made of horizontal and vertical segments, with bends in all eight combinations of directions",
  "Expected SVGs contain only a few of the eight kinds of bend and never a straight-through point in every direction.",
  ["src/renderer.rs", "src/geometry.rs"], [("path drawing", "src/renderer.rs: draw_edge_connection"), ("direction of a segment", "src/geometry.rs: Point::orthogonal_direction")],
  ["path d attribute and circles in the SVG"])

p("C19", "Rendering fails cleanly on missing layout and on failing writers",
  "Rendering a document in which a table or row has no geometry or an edge has no route returns an invalid-layout error naming such a node, without panicking and without writing anything; its message names the node too; a complete document renders. If the writer fails, rendering returns that I/O error and what was written is a prefix of the full output; short or interrupted writes lose or repeat nothing.",
  ["inputs", "fault_sequences"], "every document with any subset of geometry missing; every point and kind of write failure",
  "No test renders an incomplete document or uses a writer other than a Vec.",
  ["src/renderer.rs", "src/error.rs"], [("layout checks before writing", "src/renderer.rs: SVGRenderer::render"), ("BackendError", "src/error.rs")],
  ["Result of Renderer::render and the bytes received by the writer"])

p("C20", "The output is a deterministic function of the input text",
  "The same program text always gives the same module, the same layout and byte-identical SVG, with and without the debug overlay - within a process, on other threads and in other processes, whatever was drawn before, whatever the thread, the environment variables and the working directory - and rendering a document repeatedly gives the same bytes each time.",
  ["inputs", "histories"], "every program; every repetition, thread, process and environment; every order of texts",
  "Hash maps with random seeds are used on the way; a test that runs each input once per process cannot see order dependence.",
  ["src/erd.rs", "src/layout.rs", "src/renderer.rs"], [("hash maps used for look-up only", "src/erd.rs node_paths; src/layout.rs RouteGraph::terminal_ports")],
  ["module text, routes and SVG bytes of repeated runs"])

p("C21", "View box and debug overlay never alter the drawing itself",
  "Setting a view box only adds the corresponding viewBox to the svg root; omitting it omits the attribute. Supplying the route graph for debugging only appends elements after the normal drawing: one stroked link per route-graph edge with an arrow head at its target pointing there, a marker and beside it a label with its id per junction, a marker per route point, and beside a corner of each table a label with its id.",
  ["inputs", "configurations"], "every document and every combination of view box and debug overlay",
  "No test renders with the debug overlay, and the tests never compare renderer settings.",
  ["src/renderer.rs"], [("renderer options", "src/renderer.rs: SVGRenderer::render, draw_debug_info")],
  ["SVG elements with and without the options"])

p("C22", "Segment-rectangle intersection is exact and direction-independent",
  "A segment is reported to intersect a rectangle exactly when it has a point in common with the closed rectangle and does not lie entirely in its interior. The answer does not depend on which end of the segment comes first, and the reported points are the two ends of the part of the segment inside the rectangle.",
  ["inputs"], "all rectangles and segments with coordinates of ordinary magnitude, up to about 100,000 (up to floating-point rounding for slanted segments)",
  "Tests try about thirty hand-picked segments against one rectangle.",
  ["src/geometry.rs"], [("Liang-Barsky clipping", "src/geometry.rs: Rect::intersected_line, intersects_line")],
  ["Rect::intersects_line", "Rect::intersected_line"])

p("C23", "Rectangle and point operations obey their documented laws",
  "Insetting a rectangle offsets its origin by (dx, dy) and changes its size by (2dx, 2dy), never below zero; containment of a point in a non-empty rectangle agrees with its edges, borders included; centre, mid and max coordinates agree with origin and size. Distance is a symmetric, non-negative metric, and the direction of a horizontal or vertical segment is where its end lies as seen from its start, reversing with the segment.",
  ["inputs"], "all finite coordinates of moderate size, positive and negative insets",
  "Tests evaluate a handful of points.",
  ["src/geometry.rs"], [("Rect and Point methods", "src/geometry.rs")],
  ["Rect::inset_by, contains_point, accessors; Point::distance, orthogonal_direction"])

p("C24", "The command-line tool prints exactly the library's SVG, or diagnostics",
  "Given any UTF-8 program by file name or on standard input, the tool terminates without crashing (no panic, no signal; the exit status after syntax errors is not prescribed), writes to standard output exactly the SVG of the parsed module with its view box (nothing if there is no module), and writes one diagnostic per error to standard error (nothing if there are none). The file may have any name the system allows, and neither environment variables nor the working directory matter. If the file cannot be read or is not UTF-8 it fails with a non-zero status and prints nothing on standard output. If the output cannot all be written, it fails without crashing, with a non-zero status if any of the SVG is lost, and what has been written is the beginning of the SVG.",
  ["inputs", "configurations", "fault_sequences"], "every text, both input channels, unreadable and undecodable inputs",
  "No test runs the binary.",
  ["src/main.rs", "src/parser.rs"], [("main", "src/main.rs")],
  ["exit status, stdout and stderr of the seiren binary"])

p("C25", "Notebook output carries the exact SVG",
  "Displaying a drawn document in a notebook prints the image/svg+xml begin marker line, then exactly the SVG the renderer produces for that document and view box, then the end marker line, and nothing else. Any text given to the notebook's SVG wrapper is shown the same way, unchanged.",
  ["inputs", "configurations"], "every laid-out document, with and without view box",
  "No test touches the notebook extension.",
  ["src/evcxr.rs"], [("draw_erd and SVGOutput", "src/evcxr.rs")],
  ["standard output of evcxr_display"])

p("C26", "Colours are written as the CSS colour they denote",
  "Every RGB colour is written as `#` followed by its red, green and blue components as two upper-case hexadecimal digits each, so that distinct colours give distinct text and the components can be read back; named colours are written as their CSS keyword, also when wrapped in the general colour type.",
  ["inputs"], "all 16,777,216 RGB triples and all named colours",
  "Tests format three colours.",
  ["src/color.rs"], [("Display impls", "src/color.rs")],
  ["ToString of color types"])

p("C27", "Geometric paths report their commands and ends faithfully",
  "A path built by any sequence of move, line and curve commands lists exactly those commands, in order, after its initial move; its start point is the point it was created with and its end point is the destination of the last command.",
  ["histories"], "every sequence of path-building calls",
  "No test uses the path type.",
  ["src/geometry.rs"], [("Path", "src/geometry.rs: Path")],
  ["Path::commands, start_point, end_point"])

p("C28", "A document stores nodes, children, ports and edges faithfully",
  "Under any sequence of node and edge creations, child insertions, geometry and route updates and port insertions, every id stays valid and distinct and keeps denoting the same node or edge, whose kind, children, rectangle, ports, ends and route are exactly those last given; iteration yields every edge once in creation order, and unrelated nodes and edges never change.",
  ["histories"], "every sequence of document operations",
  "One test creates a single field and edits its title.",
  ["src/mir.rs"], [("graph-backed document", "src/mir.rs: Document, NodeData, EdgeData")],
  ["mir::Document accessors"])

p("C29", "The route graph is a clean orthogonal grid that avoids tables",
  "After layout the published route graph has one node per location, links only nodes that lie on a common horizontal or vertical line, at most one link per pair and at most one neighbour per direction, and no link crosses or touches a table except at a connection point where it ends. A node that is a connection point is linked only in the direction it faces, every connection point of a related node is in the graph, and all of them are mutually reachable.",
  ["inputs", "programs"], "every module",
  "No test looks at the route graph.",
  ["src/layout.rs"], [("junction placement and linking", "src/layout.rs: RouteGraph, draw_edge_path, connect_nearest_neighbor_edge_junctions")],
  ["SimpleLayoutEngine::edge_route_graph"])

p("C30", "Stray characters are reported but do not lose the rest of the module",
  "If characters that belong to no token are inserted directly before a token of a well-formed program, or at its end, parsing reports errors located at inserted characters, and still yields the same module as without them.",
  ["inputs", "programs"], "every program, every token and the end of the text, every kind and number of stray characters",
  "No test contains a lexical error.",
  ["src/parser.rs"], [("token-level error recovery", "src/parser.rs: tokenizer() recover_with")],
  ["seiren::parser::parse"])

p("C31", "A table is drawn the same wherever it stands, in one style per role",
  "Apart from being moved, the SVG elements that draw a table are those drawn when its entity is the module's only entry: other tables, relations and the place on the grid have no influence, and names influence nothing but the texts. Within a diagram all table frames, header backgrounds, table names, field names and separators have one style each (colours, fonts, sizes, corner radius), every type has one text style and every key has one badge style.",
  ["inputs", "programs"], "every module, every table of it",
  "Tests render nothing but one fixed document.",
  ["src/renderer.rs", "src/erd.rs", "src/layout.rs"], [("table drawing", "src/renderer.rs: SVGRenderer::render"), ("styles", "src/erd.rs: Module::into_mir, EntityFieldKey::into_mir, column_type_color")],
  ["SVG text of a module and of each of its entities alone"])

p("C32", "Routes are no longer than a way round the tables needs to be",
  "The route of an edge is no longer - up to rounding of less than one unit per segment - than the shortest right-angled way from a connection point of the first end to a different one of the second end that leaves and arrives straight for 40 units in the directions these points face and otherwise keeps at least 40 units away from every table.",
  ["inputs", "programs"], "every module, every edge",
  "Tests route a handful of edges and compare no lengths.",
  ["src/layout.rs"], [("junctions and shortest paths", "src/layout.rs: draw_edge_path, create_edge_junctions, connect_nearest_neighbor_edge_junctions, compute_shortest_path")],
  ["EdgeData::path_points after SimpleLayoutEngine::draw_edge_path"])

p("C33", "Layout changes only where the module changes",
  "The rectangles of tables and rows and the view box depend only on the tables and their numbers of rows: names, types, keys and relations have no influence, and neither do tables appended later on earlier ones (the view box then only grows downwards). Names, types and keys do not influence routes. Adding relations, before or after the others, never makes the route of another relation longer, and the order of relations does not change the length of any route, both up to rounding of less than one unit per segment.",
  ["inputs", "programs"], "every pair of modules related in one of these ways",
  "Tests never compare two layouts.",
  ["src/layout.rs", "src/erd.rs"], [("placement and routing", "src/layout.rs: place_nodes, draw_edge_path"), ("edges in order", "src/erd.rs: Module::into_mir")],
  ["NodeData::rect, view box, EdgeData::path_points of two related modules"])

p("C34", "Syntax errors point at the first token that cannot stand where it does",
  "If the tokens of a text are all well formed but it is no program of the documented grammar, parsing yields no module and exactly one error. Its span is that of the first token that no program can have after the tokens before it (or the position after the last character, if the text just ends too early), it names that token (or none) as found, and every token it says to expect could indeed stand there - at least one, if any keyword, punctuation, line break or the end could. If the text contains a malformed token or a character of no token, the first token error lies within the first such place, between where the offending token starts and the character that makes it malformed.",
  ["inputs", "programs"], "every text that is not a program",
  "Tests contain no erroneous program.",
  ["src/parser.rs"], [("token spans and end of input", "src/parser.rs: parse, tokenizer"), ("grammar", "src/parser.rs: erd_module_parser")],
  ["spans, found and expected tokens of the errors of seiren::parser::parse"])

p("C35", "The command-line tool's diagnostics say what is wrong, and where",
  "For each error the library reports for the text, in that order, the tool prints one report to standard error. It points to the file as named on the command line (`(stdin)` for standard input) with line and column of the error's first character, counted in characters from 1, and says what was found there - the token's source spelling, or that the input ended - and every keyword, punctuation mark or line break that was expected instead, or the error's own message if it has one.",
  ["inputs", "programs"], "every text with errors, every file name",
  "No test runs the command-line tool.",
  ["src/main.rs", "src/parser.rs"], [("reports", "src/main.rs: main"), ("token spelling", "src/parser.rs: Token")],
  ["standard error of the seiren binary"])

p("C36", "A route graph stores places, connection points and links faithfully",
  "Under any sequence of additions of places, connection points (those at the same place facing the same way) and links, a route graph has one node per place, in order of first addition, whose id, location and direction never change; adding a place again gives the id it already has, and every connection point leads to the node of its place. It has one link per linked pair of nodes, however often and in whichever direction the pair was added, in order of first addition with the ends first given. A node can be connected in any direction if it is no connection point, and only in the direction it faces if it is one.",
  ["histories"], "every sequence of additions",
  "No test builds a route graph.",
  ["src/layout.rs"], [("RouteGraph", "src/layout.rs: RouteGraph, RouteNodeData::is_connectable")],
  ["RouteGraph accessors"])
p("C37", "Shapes and edges outside the diagram do not disturb its layout",
  "In a document built through the API, possibly laid out in between, a shape that is no part of the diagram (a table, with at least one row, that is not in the body, its rows, and rows of no table) gets neither rectangle nor connection points from a layout, and an edge with such an end gets no route. They disturb nothing: layout succeeds, all other shapes get the same rectangles and connection points, and the document the same view box, as without them; every other edge gets a route between connection points of its own ends that is no longer than without them (up to rounding), and if every edge can be drawn, the SVG is the same. As soon as such a shape is made part of the diagram, the next layout places it, and draws its edges, like any other.",
  ["histories"], "every document under construction, and every order of its steps",
  "Layout tests use complete two-table documents.",
  ["src/layout.rs", "src/mir.rs"], [("place_nodes / place_terminal_ports / draw_edge_path", "src/layout.rs: SimpleLayoutEngine"), ("append_child / add_edge", "src/mir.rs: Document, NodeData")],
  ["Document after layout"])
p("C38", "A module lists exactly what was added to it, in order",
  "Under any sequence of additions of entities with their fields and of relations, by either of the methods for it, a module has exactly its name and its entries in the order of addition, with exactly the names, types, keys, order of fields and ends of relations they were given, duplicates included. A copy of a module is independent of it, and reading, printing or converting a module changes nothing.",
  ["histories"], "every sequence of additions and copies",
  "No test builds a module of more than a few entries by hand.",
  ["src/erd.rs"], [("Module / EntityDefinition / EntityRelation", "src/erd.rs")],
  ["erd accessors"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
