P, L, E_, R, M, G, C, MAIN = "src/parser.rs", "src/layout.rs", "src/erd.rs", "src/renderer.rs", "src/mir.rs", "src/geometry.rs", "src/color.rs", "src/main.rs"

bug("c01-byte-eoi", "C01", "a program with a character outside ASCII that ends too early",
    "The end-of-input error points at a byte count instead of a character count, past the end of the text.",
    [(P, "let len = src.chars().count();", "let len = src.len();")],
    r'''fn main() {
    let src = "erd { `éèê` { id int }";
    let n = src.chars().count();
    let (_, a, b) = parse(src);
    let spans: Vec<_> = a.iter().map(|e| e.span()).chain(b.iter().map(|e| e.span())).collect();
    assert!(!spans.is_empty());
    for s in spans { assert!(s.start <= n && s.end <= n + 1, "{:?} in a text of {} characters", s, n); }
}''')

bug("c02-keyword-prefix", "C02", "a name that begins with the keyword `text`, such as `text_body`",
    "An identifier that starts with a keyword is read as the keyword followed by another identifier.",
    [(P, 'text::keyword("text").to(Token::Text)', 'just("text").to(Token::Text)')],
    r'''fn main() {
    let (m, a, b) = parse("erd { t { textual text } }");
    assert!(a.is_empty() && b.is_empty(), "{:?} {:?}", a, b);
    assert_eq!(m.unwrap().to_string(), "erd {\n    t { textual text }\n}");
}''')

bug("c03-entries-without-separator", "C03", "two entries of a module on one line, without a separator",
    "Entries need no separator any more, so that malformed programs are accepted.",
    [(P, '''                .clone()
                .ignore_then(pad.clone())
                .ignore_then(module_entry.clone())''', '''                .clone()
                .or_not()
                .ignore_then(pad.clone())
                .ignore_then(module_entry.clone())''')],
    r'''fn main() {
    let (_, a, b) = parse("erd { a { id int } b { id int } }");
    assert!(!(a.is_empty() && b.is_empty()), "accepted without an error");
}''')

bug("c04-long-unicode-escape", "C04", "a \\u escape directly followed by another hexadecimal digit",
    "The escape swallows up to six digits, so that the name is another one.",
    [(P, "                    .exactly(4)\n", "                    .at_least(4)\n                    .at_most(6)\n")],
    r'''fn main() {
    let (m, a, b) = parse("erd { `\\u0041bc` {} }");
    assert!(a.is_empty() && b.is_empty(), "{:?} {:?}", a, b);
    let m = m.unwrap();
    let ModuleEntry::EntityDefinition(d) = m.entries().next().unwrap() else { panic!() };
    assert_eq!(d.name(), "Abc");
}''')

bug("c05-comment-cr", "C05", "a carriage return inside a comment",
    "A comment ends at a carriage return, so that a CR that is not part of a line break makes the rest of the comment part of the program.",
    [(P, "filter(|c| *c != '\\n').repeated()", "filter(|c| *c != '\\n' && *c != '\\r').repeated()")],
    r'''fn main() {
    let a = lay("erd {\n a { id int // first\r second\n b int }\n}");
    let b = lay("erd {\n a { id int\n b int }\n}");
    assert_eq!(svg(&a.0), svg(&b.0));
}''')

bug("c06-display-entity-dot", "C06", "a printed module with a relation to a whole entity",
    "The end of a relation that names a whole entity is printed with a trailing dot, which does not parse.",
    [(E_, '    #[display(fmt = "{}", _0)]\n    Entity(String),', '    #[display(fmt = "{}.", _0)]\n    Entity(String),')],
    r'''fn main() {
    let mut m = Module::new(None);
    m.add_entity_definition(EntityDefinition::new("a".into()));
    m.add_entity_relation(EntityRelation::new(EntityPath::Entity("a".into()), EntityPath::Entity("a".into())));
    let (n, a, b) = parse(&m.to_string());
    assert!(a.is_empty() && b.is_empty(), "{} {:?} {:?}", m, a, b);
    assert_eq!(n.unwrap().to_string(), m.to_string());
}''')

bug("c07-badge-by-type", "C07", "a field with a key whose type is neither int nor uuid",
    "Key badges are only drawn for the types usually used as keys.",
    [(E_, ".badge(field.field_key.map(|key| key.into_mir()))", '''.badge(match field.field_type {
                                    EntityFieldType::Timestamp => None,
                                    _ => field.field_key.map(|key| key.into_mir()),
                                })''')],
    r'''fn main() {
    let d = lay("erd { a { at timestamp PK } }").0;
    assert!(svg(&d).contains("\nPK\n"), "no PK badge");
}''')

bug("c08-empty-entity", "C08", "a relation to an entity without fields",
    "Entities without fields are not registered as possible ends of relations.",
    [(E_, "node_paths.insert(EntityPath::Entity(definition.name.clone()), record_id);", '''if let Some(_) = field_ids.first() {
                        node_paths.insert(EntityPath::Entity(definition.name.clone()), record_id);
                    }''')],
    r'''fn main() {
    let d = lay("erd { a { id int }\n b {}\n a.id o--o b\n a o--o b }").0;
    assert_eq!(d.edges().count(), 2);
}''')

bug("c09-empty-table-height", "C09", "an entity without fields",
    "A table has a minimum height of two rows, so that the header of an empty table does not fill it.",
    [(L, "let record_height = Self::LINE_HEIGHT * n_fields;", "let record_height = Self::LINE_HEIGHT * n_fields.max(2.0);")],
    """fn main() {
    let (d, _, _) = lay("erd { a {} }");
    let t = d.get_node(d.body().children().next().unwrap()).unwrap();
    let h: f32 = t.children().map(|i| d.get_node(i).unwrap().rect().unwrap().height()).sum();
    assert_eq!(t.rect().unwrap().height(), h);
}""")

bug("c10-single-row-port", "C10", "a table that consists of its header only",
    "The bottom connection point of the only row of a table faces upwards.",
    [(L, '''                        (field_rect.min_x(), field_rect.mid_y(), Orientation::Left),
                    ] {
                        field_node.add_terminal_port(field_node_index, Point::new(x, y), d);
                    }
                } else if field_index == 0 {''', '''                        (field_rect.min_x(), field_rect.mid_y(), Orientation::Right),
                    ] {
                        field_node.add_terminal_port(field_node_index, Point::new(x, y), d);
                    }
                } else if field_index == 0 {''')],
    r'''fn main() {
    let (d, _, _) = lay("erd { a {} }");
    let t = d.get_node(d.body().children().next().unwrap()).unwrap();
    let row = d.get_node(t.children().next().unwrap()).unwrap();
    let r = row.rect().unwrap();
    for p in row.terminal_ports() {
        let want = match p.orientation() {
            Orientation::Up => Point::new(r.mid_x(), r.min_y()),
            Orientation::Down => Point::new(r.mid_x(), r.max_y()),
            Orientation::Left => Point::new(r.min_x(), r.mid_y()),
            Orientation::Right => Point::new(r.max_x(), r.mid_y()),
        };
        assert_eq!(*p.location(), want, "{:?}", p);
    }
}''')

bug("c11-route-cache", "C11", "two relations between the same ends, written in opposite directions",
    "Routes are looked up by the unordered pair of ends, so that the second relation gets a route from its end to its start.",
    [(L, "let Some((source_id, target_id)) = doc.edge_endpoints(edge_id) else { return None };", """let Some(ends) = doc.edge_endpoints(edge_id) else { return None };
        // Relations between the same ends share their route.
        let (source_id, target_id) = doc
            .edges()
            .map(|e| (e.source_id(), e.target_id()))
            .find(|e| *e == ends || *e == (ends.1, ends.0))?;""")],
    """fn main() {
    let (d, _, _) = lay("erd { a { x int }\\n b { y int }\\n a.x o--o b.y\\n b.y o--o a.x }");
    for e in d.edges() {
        let first = e.path_points().unwrap()[0];
        assert!(d.get_node(e.source_id()).unwrap().terminal_ports().any(|p| *p.location() == first), "starts elsewhere");
    }
}""")

bug("c12-empty-table-in-between", "C12", "an entity without fields between two related tables",
    "Tables without fields are not taken for obstacles.",
    [(L, """        // Collision detection
        let shape_rects = doc
            .body()
            .children()""", """        // Collision detection
        let shape_rects = doc
            .body()
            .children()
            .filter(|id| doc.get_node(*id).map_or(false, |n| n.children().len() > 1))""")],
    """fn main() {
    let (d, _, _) = lay("erd { a {}\\n b {}\\n c {}\\n a o--o c }");
    let b = d.get_node(d.body().children().nth(1).unwrap()).unwrap().rect().unwrap();
    let e = d.edges().next().unwrap();
    for w in e.path_points().unwrap().windows(2) {
        assert!(!b.intersects_line(&w[0], &w[1]), "{:?} crosses {:?}", w, b);
    }
}""")

bug("c13-early-exit", "C13", "a target whose best connection point comes after a worse one",
    "The search stops at the first connection point of the target that is no better than the one before it.",
    [(L, """                    path.replace(p);
                    cost = c;
                }""", """                    path.replace(p);
                    cost = c;
                } else {
                    break;
                }""")],
    """fn main() {
    use std::collections::HashMap;
    let mut worse = 0;
    for k in 0..40usize {
        let mut s = String::from("erd {\\n");
        for i in 0..9usize {
            let f: Vec<String> = (0..(i * 7 + k * 3) % 6).map(|j| format!("f{} int", j)).collect();
            s += &format!("t{} {{ {} }}\\n", i, f.join("; "));
        }
        let (x, y) = (k % 9, (k * 5 + 4) % 9);
        if x == y { continue; }
        s += &format!("t{} o--o t{}\\n}}", x, y);
        let (d, eng, _) = lay(&s);
        let g = eng.edge_route_graph();
        let ids: Vec<_> = g.node_ids().collect();
        let at: HashMap<_, _> = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
        let loc: Vec<Point> = ids.iter().map(|i| *g.get_node(*i).unwrap().location()).collect();
        let mut adj = vec![vec![]; ids.len()];
        for e in g.edges() {
            let (a, b) = (at[&e.source_id()], at[&e.target_id()]);
            adj[a].push(b);
            adj[b].push(a);
        }
        let e = d.edges().next().unwrap();
        let len = |p: &[Point]| p.windows(2).map(|w| w[0].distance(&w[1])).sum::<f32>();
        let mut best = f32::MAX;
        for src in d.get_node(e.source_id()).unwrap().terminal_ports() {
            let mut dist = vec![f32::MAX; ids.len()];
            dist[at[&g.get_terminal_port(src.id()).unwrap()]] = 0.0;
            for _ in 0..ids.len() {
                for a in 0..ids.len() {
                    if dist[a] == f32::MAX { continue; }
                    for b in &adj[a] { dist[*b] = dist[*b].min(dist[a] + loc[a].distance(&loc[*b])); }
                }
            }
            for dst in d.get_node(e.target_id()).unwrap().terminal_ports() {
                best = best.min(dist[at[&g.get_terminal_port(dst.id()).unwrap()]]);
            }
        }
        let p = e.path_points().unwrap();
        if len(p) > best + p.len() as f32 { worse += 1; }
    }
    assert_eq!(worse, 0, "routes longer than necessary");
}""")

bug("c15-keep-size", "C15", "a document that is laid out, gets another row, and is laid out again",
    "A table keeps the size of its first layout.",
    [(L, "record_node.size = Some(Size::new(Self::RECORD_WIDTH.into(), record_height.into()));", "record_node.size.get_or_insert(Size::new(Self::RECORD_WIDTH, record_height));")],
    """fn main() {
    let mut d = lay("erd { a { x int } }").0;
    let t = d.body().children().next().unwrap();
    let f = d.create_field(mir::FieldShapeBuilder::default().build().unwrap());
    d.get_node_mut(t).unwrap().append_child(f);
    SimpleLayoutEngine::new().place_nodes(&mut d);
    assert_eq!(d.get_node(t).unwrap().rect().unwrap().max_y(), d.get_node(f).unwrap().rect().unwrap().max_y());
}""")

bug("c17-fixed-middle", "C17", "a row whose height is not the 35 units of the built-in layout",
    "The title of a row is placed by a constant instead of the row's height.",
    [(R, "Point::new(x + px, field_rect.mid_y()),", "Point::new(x + px, y + 17.5),")],
    """fn main() {
    let mut d = lay("erd { a {} }").0;
    let t = d.body().children().next().unwrap();
    let f = d.get_node(t).unwrap().children().next().unwrap();
    for n in [t, f] {
        let n = d.get_node_mut(n).unwrap();
        n.origin = Some(Point::new(0.0, 0.0));
        n.size = Some(Size::new(300.0, 60.0));
    }
    assert!(svg(&d).contains("y=\\"30\\">\\na\\n"), "{}", svg(&d));
}""")

bug("c18-up-right-bend", "C18", "a route that turns from up to right",
    "One of the eight kinds of bends is rounded towards the wrong side.",
    [(R, """                        //  |
                        //  o (bp)
                        // ```
                        d.push(format!("L{} {}", pt.x, pt.y + path_radius));
                        d.push(format!(
                            "Q{} {} {} {}",
                            pt.x,
                            pt.y,
                            pt.x + path_radius,""", """                        //  |
                        //  o (bp)
                        // ```
                        d.push(format!("L{} {}", pt.x, pt.y + path_radius));
                        d.push(format!(
                            "Q{} {} {} {}",
                            pt.x,
                            pt.y,
                            pt.x - path_radius,""")],
    """fn main() {
    let mut d = lay("erd { a { x int }\\n b { y int }\\n a o--o b }").0;
    let p = vec![Point::new(100.0, 90.0), Point::new(100.0, 10.0), Point::new(180.0, 10.0)];
    d.edges_mut().next().unwrap().set_path_points(Some(p));
    assert!(svg(&d).contains("M100 90 L100 16 Q100 10 106 10 L180 10"), "{}", svg(&d));
}""")

bug("c19-short-write", "C19", "a writer that accepts only a part of what it is given",
    "The SVG is written with a single call whose count is ignored, so that the rest is lost without an error.",
    [(R, "writer.write_all(svg_doc.to_string().as_bytes())?;", "writer.write(svg_doc.to_string().as_bytes())?;\n        writer.flush()?;")],
    """struct Slow(Vec<u8>);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(10);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let d = lay("erd { a { x int } }").0;
    let mut w = Slow(vec![]);
    SVGRenderer::new().render(&d, &mut w).unwrap();
    assert_eq!(String::from_utf8(w.0).unwrap(), svg(&d));
}""")

bug("c20-port-order", "C20", "a relation with two equally short routes, and the random order of a hash set",
    "Connection points are collected in a hash set before they enter the route graph, so that ties are broken at random.",
    [(L, """        // Add start/end terminal ports.
        for edge in doc.edges() {
            let Some(start_node) = doc.get_node(edge.source_id()) else { continue };
            let Some(end_node) = doc.get_node(edge.target_id()) else { continue };

            for pt in start_node.terminal_ports() {
                self.edge_route_graph.add_terminal_port(pt);
            }
            for pt in end_node.terminal_ports() {
                self.edge_route_graph.add_terminal_port(pt);
            }
        }
""", """        // Add start/end terminal ports, once for each node.
        let end_ids = doc
            .edges()
            .flat_map(|edge| [edge.source_id(), edge.target_id()])
            .collect::<std::collections::HashSet<_>>();

        for end_id in end_ids {
            let Some(node) = doc.get_node(end_id) else { continue };

            for pt in node.terminal_ports() {
                self.edge_route_graph.add_terminal_port(pt);
            }
        }
""")],
    """fn main() {
    let mut s = String::from("erd {\\n");
    for i in 0..8 { s += &format!("t{} {{ a int; b int; c int }}\\n", i); }
    for i in 0..8 { for j in 0..8 { s += &format!("t{} o--o t{}.b\\n", i, j); } }
    s += "}";
    let first = svg(&lay(&s).0);
    let g = |e: &SimpleLayoutEngine| e.edge_route_graph().nodes().map(|n| n.location().to_string()).collect::<Vec<_>>();
    let nodes = g(&lay(&s).1);
    for _ in 0..40 {
        let (d, e, _) = lay(&s);
        assert!(svg(&d) == first, "another SVG");
        assert!(g(&e) == nodes, "another route graph");
    }
}""")

bug("c21-inner-markers", "C21", "the debug overlay of a document with an edge",
    "The overlay leaves out the markers of the two ends of each route.",
    [(R, "            for p in path_points {", "            for p in &path_points[1..path_points.len() - 1] {")],
    """fn main() {
    let (d, e, _) = lay("erd { a { x int }\\n b { y int }\\n a.x o--o b.y }");
    let mut r = SVGRenderer::new();
    r.edge_route_graph = Some(e.edge_route_graph());
    let mut b = vec![];
    r.render(&d, &mut b).unwrap();
    let n = String::from_utf8(b).unwrap().matches("fill=\\"orange\\"").count();
    assert_eq!(n, d.edges().next().unwrap().path_points().unwrap().len());
}""")

bug("c22-right-edge", "C22", "a vertical segment along the right edge of a rectangle",
    "A segment that runs along the right edge is not seen as touching the rectangle.",
    [(G, "|| (p2 == 0.0 && q2 < 0.0)", "|| (p2 == 0.0 && q2 <= 0.0)")],
    """fn main() {
    let r = Rect::new(Point::new(10.0, 10.0), Size::new(20.0, 20.0));
    assert!(r.intersects_line(&Point::new(30.0, 0.0), &Point::new(30.0, 50.0)));
}""")

bug("c23-large-outset", "C23", "a rectangle that is enlarged by more than its own height",
    "The origin moves by at most the height of the rectangle, so that the enlarged one is not centred.",
    [(G, "self.origin.y + dy);", "self.origin.y + dy.max(-self.size.height));")],
    """fn main() {
    let r = Rect::new(Point::new(0.0, 0.0), Size::new(10.0, 10.0));
    assert_eq!(r.inset_by(-20.0, -20.0), Rect::new(Point::new(-20.0, -20.0), Size::new(50.0, 50.0)));
}""")

bug("c27-curve-end", "C27", "a path whose last command is a curve",
    "The end of a path that ends in a curve is reported as the curve's control point.",
    [(G, "PathCommand::QuadTo(_, pt) => pt,", "PathCommand::QuadTo(pt, _) => pt,")],
    """fn main() {
    let mut p = Path::new(Point::new(0.0, 0.0));
    p.quad_to(Point::new(1.0, 2.0), Point::new(3.0, 4.0));
    assert_eq!(*p.end_point(), Point::new(3.0, 4.0));
}""")

bug("c28-parallel-edges", "C28", "two edges between the same two nodes",
    "A second edge between the same nodes replaces the first one.",
    [(G.replace("geometry", "mir"), ".add_edge(edge.source_id().0, edge.target_id().0, edge);", ".update_edge(edge.source_id().0, edge.target_id().0, edge);")],
    """fn main() {
    let d = lay("erd { a { x int }\\n b { y int }\\n a o--o b\\n b o--o a }").0;
    assert_eq!(d.edges().count(), 2);
}""")

bug("c29-double-links", "C29", "two junctions that are each other's nearest neighbours",
    "A link is only recognised in the direction in which it was added, so that most pairs are linked twice.",
    [(L, "any(|e| e.target() == to.0)", "any(|e| e.weight().target_id() == to)")],
    """fn main() {
    let (_, e, _) = lay("erd { a { x int }\\n b { y int }\\n a.x o--o b.y }");
    let g = e.edge_route_graph();
    let mut seen = std::collections::HashSet::new();
    for e in g.edges() {
        let (a, b) = (e.source_id(), e.target_id());
        assert!(!seen.contains(&(a, b)) && !seen.contains(&(b, a)), "linked twice: {} {}", a, b);
        seen.insert((a, b));
    }
}""")

bug("c30-stop-at-space", "C30", "a stray character that is followed by a space",
    "Recovery stops at a space, so that a stray word loses the rest of the module.",
    [(P, ".recover_with(skip_then_retry_until([]));", ".recover_with(skip_then_retry_until([' ']));")],
    """fn main() {
    let (m, a, _) = parse("erd {\\n a { id int }\\n ? b { id int }\\n}");
    assert!(!a.is_empty(), "no error");
    assert_eq!(m.expect("the module is lost").entries().len(), 2);
}""")

bug("c24-lossy-file", "C24", "a file that is not UTF-8",
    "A file with undecodable bytes is drawn with replacement characters instead of being rejected.",
    [(MAIN, "fs::read_to_string(path)?", "String::from_utf8_lossy(&fs::read(path)?).into_owned()")],
    """printf 'erd { `\\377` { id int } }' > bad.erd
"$tool" bad.erd > out 2> err
status=$?
[ $status -ne 0 ] && [ ! -s out ]
""", "sh")

bug("c14-short-cost", "C14", "a table of some two thousand rows, and a route past it",
    "The cost of a route is added up in 16 bits and overflows.",
    [(L, "struct RouteCost(u32);", "struct RouteCost(u16);"), (L, "Self(u32::MAX)", "Self(u16::MAX)"), (L, "RouteCost(distance as u32)", "RouteCost(distance as u16)")],
    """fn main() {
    let f: Vec<String> = (0..2500).map(|j| format!("f{} int", j)).collect();
    lay(&format!("erd {{ t0 {{ {} }}\\n t1 {{}}\\n t2 {{}}\\n t3 {{}}\\n t4 {{}}\\n t1 o--o t4 }}", f.join("; ")));
}""")

bug("c16-long-title", "C16", "a name of more than 40 characters",
    "Long names are cut off in the drawing.",
    [(R, """                    &field.title,
                    Point::new(x + px""", """                    &mir::TextSpan {
                        text: field.title.text.chars().take(40).collect(),
                        ..field.title.clone()
                    },
                    Point::new(x + px""")],
    r'''fn main() {
    let name = "a_rather_long_name_of_an_entity_with_many_words_in_it";
    let s = svg(&lay(&format!("erd {{ {} {{ id int }} }}", name)).0);
    assert!(s.contains(name), "the name is cut off");
}''')

bug("c25-trimmed", "C25", "a name with an empty line in it, or one that ends in a carriage return",
    "The notebook output is printed line by line, without empty lines.",
    [("src/evcxr.rs", """        println!(
            "EVCXR_BEGIN_CONTENT image/svg+xml\\n{}\\nEVCXR_END_CONTENT",
            self.svg
        );""", """        println!("EVCXR_BEGIN_CONTENT image/svg+xml");
        for line in self.svg.lines().filter(|line| !line.is_empty()) {
            println!("{}", line);
        }
        println!("EVCXR_END_CONTENT");""")],
    r'''use seiren::evcxr::{draw_erd, CustomDisplay};
fn main() {
    if std::env::args().count() > 1 {
        let (d, _, v) = lay("erd { `a\\n\\nb` { id int } }");
        draw_erd(&d, v).evcxr_display();
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let (d, _, v) = lay("erd { `a\\n\\nb` { id int } }");
    let mut r = SVGRenderer::new();
    r.view_box = v;
    let mut b = vec![];
    r.render(&d, &mut b).unwrap();
    assert_eq!(String::from_utf8(o.stdout).unwrap(), format!("EVCXR_BEGIN_CONTENT image/svg+xml\n{}\nEVCXR_END_CONTENT\n", String::from_utf8(b).unwrap()));
}''')

bug("c26-shorthand", "C26", "a colour other than a grey whose components all consist of two equal digits",
    "Colours are shortened to three digits where that is possible.",
    [(C, """#[derive(Debug, Clone, Default, Display)]
#[display(fmt = "#{:02X}{:02X}{:02X}", red, green, blue)]
""", """#[derive(Debug, Clone, Default)]
"""), (C, """impl RGBColor {
""", """impl std::fmt::Display for RGBColor {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let Self { red, green, blue } = self;

        if (red != green || green != blue) && [red, green, blue].iter().all(|c| **c % 17 == 0) {
            write!(f, "#{:X}{:X}{:X}", red / 17, green / 17, blue / 17)
        } else {
            write!(f, "#{:02X}{:02X}{:02X}", red, green, blue)
        }
    }
}

impl RGBColor {
""")],
    r'''fn main() {
    assert_eq!(seiren::color::RGBColor::new(0x11, 0x22, 0xff).to_string(), "#1122FF");
}''')

bug("c31-composite-key", "C31", "an entity with two PK fields",
    "The names of the fields are bold in tables with a composite primary key.",
    [(E_, """                            let name = mir::TextSpanBuilder::default()
                                .text(field.name.clone())
                                .color(Some(text_color.clone()))
                                .font_family(Some(mir::FontFamily::Monospace2))
                                .font_weight(Some(mir::FontWeight::Lighter))""", """                            let composite = definition
                                .fields
                                .iter()
                                .filter(|f| matches!(f.field_key, Some(EntityFieldKey::PrimaryKey)))
                                .count()
                                > 1;
                            let name = mir::TextSpanBuilder::default()
                                .text(field.name.clone())
                                .color(Some(text_color.clone()))
                                .font_family(Some(mir::FontFamily::Monospace2))
                                .font_weight(Some(match composite {
                                    true => mir::FontWeight::Bold,
                                    false => mir::FontWeight::Lighter,
                                }))""")],
    r'''fn main() {
    let s = svg(&lay("erd { a { alpha int PK; beta int PK }\n b { gamma int PK } }").0);
    let style = |name: &str| {
        let end = s.find(&format!("\n{}\n", name)).or_else(|| s.find(name)).unwrap();
        let start = s[..end].rfind("<text").unwrap();
        s[start..end].contains("bold")
    };
    assert_eq!(style("alpha"), style("gamma"), "field names are drawn in different styles");
}''')

bug("c31-disc-place", "C31", "a keyed field more than 1200 units below the top of the page",
    "The disc of a badge is sized by the distance of its row from the top of the page.",
    [(R, "let bg_radius = (field_rect.height() / 2.0) - 6.0;", "let bg_radius = (field_rect.height() / 2.0) - (6.0f32).max((field_rect.max_y() - 600.0) / 100.0).min(10.0);")],
    r'''fn main() {
    let rows: Vec<String> = (0..40).map(|i| format!("f{} int FK", i)).collect();
    let s = svg(&lay(&format!("erd {{ a {{ {} }} }}", rows.join("; "))).0);
    let mut r: Vec<&str> = s.split("<circle").skip(1).map(|c| c.split(" r=\"").nth(1).unwrap().split('"').next().unwrap()).collect();
    r.dedup();
    assert_eq!(r.len(), 1, "discs of {:?}", r);
}''')

bug("c32-far-junctions", "C32", "a connection point with much free space in front of it, and a way that turns off far from it",
    "Junctions in front of a connection point are only placed up to a distance of 400.",
    [(L, "if j.x >= conn_pt.x && j.x <= max_x {", "if j.x >= conn_pt.x && j.x <= max_x.min(conn_pt.x + 400.0) {"),
     (L, "if j.x <= conn_pt.x && j.x >= min_x {", "if j.x <= conn_pt.x && j.x >= min_x.max(conn_pt.x - 400.0) {")],
    r'''fn main() {
    let long: Vec<String> = (0..30).map(|i| format!("f{} int", i)).collect();
    // from the right side of the first table over the second, short one, to the left side of the third
    let (d, _, _) = lay(&format!("erd {{ a {{ {} }}\n b {{ x int }}\n c {{ {} }}\n d {{}}\n a.f12 o--o c.f20 }}", long.join("; "), long.join("; ")));
    let p = d.edges().next().unwrap().path_points().unwrap().to_vec();
    let len: f32 = p.windows(2).map(|w| w[0].distance(&w[1])).sum();
    let direct = (p[0].x - p.last().unwrap().x).abs() + 8.0 * 35.0;
    assert!(len <= direct + 10.0, "a route of length {} where {} is possible: {:?}", len, direct, p);
}''')

bug("c33-tall-name", "C33", "a name with a line break in a table that is not on the last grid row",
    "The space below a grid row grows with the number of line breaks in the names of its tables' rows.",
    [(L, "max_height = record_height.max(max_height);", "let breaks = record_node.children().len();\n            let _ = breaks;\n            max_height = record_height.max(max_height);"),
     (L, """                let ShapeKind::Field(_) = field_node.kind() else  { continue };

                field_node.origin""", """                let ShapeKind::Field(field) = field_node.kind() else  { continue };
                let n_lines = field.title.text.split('\\n').count() as f32;
                max_height = max_height.max(record_height + Self::LINE_HEIGHT * (n_lines - 1.0));

                field_node.origin""")],
    r'''fn main() {
    let y = |name: &str| {
        let d = lay(&format!("erd {{ {} {{ id int }}\n b {{}}\n c {{}}\n d {{}} }}", name)).0;
        let r: Vec<_> = d.body().children().map(|i| d.get_node(i).unwrap().rect().unwrap()).collect();
        r[3].origin.y
    };
    assert_eq!(y("a"), y("`a\\nb\\nc`"), "the name moves the next grid row");
}''')

bug("c33-type-order", "C33", "a relation to a field of which another field of the same table has another type",
    "Relations from timestamp fields are routed by their first connection point only.",
    [(L, "        for src in start_node.terminal_ports() {\n            for dst in", """        let is_timestamp = match start_node.kind() {
            ShapeKind::Field(f) => f.subtitle.as_ref().map_or(false, |s| s.text == "timestamp"),
            _ => false,
        };

        for src in start_node.terminal_ports().skip(is_timestamp.into()) {
            for dst in""")],
    r'''fn main() {
    let route = |ty: &str| {
        let d = lay(&format!("erd {{ a {{}}\n b {{}}\n c {{ x int; y {}; z int }}\n b o--o c }}", ty)).0;
        let e = lay(&format!("erd {{ a {{ x int; y {}; z int }}\n b {{ x int; y {}; z int }}\n a.y o--o b.y }}", ty, ty)).0;
        let v: Vec<Vec<Point>> = d.edges().chain(e.edges()).map(|e| e.path_points().unwrap().to_vec()).collect();
        v
    };
    assert_eq!(route("int"), route("timestamp"), "the type of a field changes routes");
}''')

bug("c34-blank-span", "C34", "a misplaced token with blanks in front of it",
    "The span of a token includes the blanks before it.",
    [(P, """    token
        .map_with_span(|tok, span| (tok, span))
        .padded_by(comment.clone().repeated())
        .padded_by(spaces.clone())
""", """    token
        .padded_by(comment.clone().repeated())
        .padded_by(spaces.clone())
        .map_with_span(|tok, span| (tok, span))
""")],
    r'''fn main() {
    let (_, _, e) = parse("erd {   int }");
    assert_eq!(e[0].span(), 8..11);
}''')

bug("c34-eoi-newlines", "C34", "a text that ends too early, with trailing blank lines",
    "An unexpected end is reported where the last word ends instead of at the end of the text.",
    [(P, "let eoi = len..len + 1;", "let eoi = src.trim_end().chars().count();\n        let eoi = eoi..len.max(eoi + 1);")],
    r'''fn main() {
    let (_, _, e) = parse("erd { a { id int }\n\n\n");
    assert_eq!(e[0].span().start, 21, "{:?}", e);
}''')

bug("c35-end-column", "C35", "an error at a token of several characters",
    "A report points behind the offending token.",
    [(MAIN, "Report::build(ReportKind::Error, filename, e.span().start);", "Report::build(ReportKind::Error, filename, e.span().end - 1);")],
    r"""printf 'erd {\n  a { id timestamp timestamp }\n}\n' > p.erd
"$tool" p.erd > out 2> err
sed 's/\x1b\[[0-9;]*m//g' err | grep -q '\[p.erd:2:20\]'
""", "sh")

bug("c35-last-expected", "C35", "an error where the text could have ended",
    "A report only mentions the tokens that were expected and not that the text could have ended.",
    [(MAIN, """                            .map(|expected| match expected {
                                Some(expected) => expected.to_string(),
                                None => "end of input".to_string(),
                            })
                            .collect::<Vec<_>>()
                            .join(", ")""", """                            .flatten()
                            .skip_while(|expected| expected.as_str() == "'\\\\n'")
                            .cloned()
                            .collect::<Vec<_>>()
                            .join(", ")""")],
    r"""printf 'erd {} x' | "$tool" > out 2> err
sed 's/\x1b\[[0-9;]*m//g' err | head -1 | grep -q "end of input"
""", "sh")

bug("c36-close-places", "C36", "two places less than a unit apart",
    "Places that nearly coincide become one node.",
    [(L, ".find(|(_, w)| *w.location() == location)", ".find(|(_, w)| w.location().distance(&location) < 1.0)")],
    r'''fn main() {
    let mut g = RouteGraph::new();
    let a = g.add_node(Point::new(0.0, 0.0));
    let b = g.add_node(Point::new(0.5, 0.0));
    assert_ne!(a, b);
    assert_eq!(*g.get_node(b).unwrap().location(), Point::new(0.5, 0.0));
}''')

bug("c09-grid-rest", "C09", "a grid row of entities without fields that is not the first",
    "The height of a grid row is not quite forgotten at the next one, so that the space below a row of empty tables is larger.",
    [(L, "                max_height = 0.0;\n            }", "                max_height = max_height.min(Self::LINE_HEIGHT * 2.0);\n            }")],
    r'''fn main() {
    let d = lay("erd { a { x int; y int; z int }\n b {}\n c {}\n d {}\n e {}\n f {}\n g {} }").0;
    let r: Vec<_> = d.body().children().map(|i| d.get_node(i).unwrap().rect().unwrap()).collect();
    assert_eq!(r[3].min_y() - r[0].max_y(), r[6].min_y() - r[3].max_y(), "grid rows are unevenly spaced");
}''')

bug("c21-label-corner", "C21", "the debug overlay of a document whose tables are not at the origin",
    "The label of a table stands at its size instead of its corner.",
    [(R, '.set("x", rect.max_x() + 2.0)', '.set("x", rect.width() + 2.0)'), (R, '.set("y", rect.max_y() + 4.0)', '.set("y", rect.height() + 4.0)')],
    r'''fn main() {
    let (d, e, _) = lay("erd { a { id int }\n b { id int } }");
    let mut r = SVGRenderer::new();
    r.edge_route_graph = Some(e.edge_route_graph());
    let mut b = vec![];
    r.render(&d, &mut b).unwrap();
    let s = String::from_utf8(b).unwrap();
    let mut seen = std::collections::HashSet::new();
    for t in s.split("<text").skip(1).filter(|t| t.contains("hanging")) {
        let at = |k: &str| t.split(&format!(" {}=\"", k)).nth(1).unwrap().split('"').next().unwrap().to_string();
        assert!(seen.insert((at("x"), at("y"))), "two labels in one place");
    }
}''')

bug("c37-empty-route", "C37", "an edge from or to a shape that is not part of the diagram",
    "An edge that cannot be drawn gets an empty route instead of none.",
    [(L, """        path.map(|path| {
            path.iter()""", """        Some(path.unwrap_or_default()).map(|path| {
            path.iter()""")],
    r'''fn main() {
    let (mut d, mut e, _) = lay("erd { a { x int }\n b { y int }\n a.x o--o b.y }");
    let t = mir::TextSpanBuilder::default().text("loose".to_string()).build().unwrap();
    let f = d.create_field(mir::FieldShapeBuilder::default().title(t).build().unwrap());
    let a = d.body().children().next().unwrap();
    d.add_edge(mir::EdgeData::new(a, f, None));
    e.place_nodes(&mut d);
    e.place_terminal_ports(&mut d);
    e.draw_edge_path(&mut d);
    assert!(d.edges().nth(1).unwrap().path_points().is_none());
}''')

bug("c37-keep-rows", "C37", "a row added to a table above others after a layout, and another layout",
    "Rows that are placed already stay where they are, even if their table moves.",
    [(L, "let ShapeKind::Field(_) = field_node.kind() else  { continue };", """let ShapeKind::Field(_) = field_node.kind() else  { continue };

                if field_node.rect().is_some() && field_index > 0 {
                    continue;
                }""")],
    r'''fn main() {
    let (mut d, mut e, _) = lay("erd { a { x int }\n b { y int }\n c {}\n d { z int } }");
    let t = mir::TextSpanBuilder::default().text("late".to_string()).build().unwrap();
    let f = d.create_field(mir::FieldShapeBuilder::default().title(t).build().unwrap());
    let ids: Vec<_> = d.body().children().collect();
    d.get_node_mut(ids[0]).unwrap().append_child(f);
    e.place_nodes(&mut d);
    let table = d.get_node(ids[3]).unwrap();
    let row = table.children().nth(1).unwrap();
    assert_eq!(d.get_node(row).unwrap().rect().unwrap().max_y(), table.rect().unwrap().max_y());
}''')

bug("c38-merge", "C38", "an entity without fields that is added by its own method after another entity of that name",
    "Adding a bare entity again is taken for a mention of the one that is there.",
    [("src/erd.rs", "        self.entries.push(ModuleEntry::EntityDefinition(definition));", """        let known = self.entries.iter().any(|e| match e {
            ModuleEntry::EntityDefinition(d) => d.name == definition.name,
            _ => false,
        });

        if !known || definition.fields.len() > 0 {
            self.entries.push(ModuleEntry::EntityDefinition(definition));
        }""")],
    r'''fn main() {
    let mut m = Module::new(None);
    for _ in 0..2 {
        m.add_entity_definition(EntityDefinition::new("a".to_string()));
    }
    assert_eq!(m.entries().len(), 2);
}''')

bug("c08-trimmed-end", "C08", "a quoted name with blanks around it at the end of a relation",
    "The entity at the end of a relation is looked up without the blanks around its name as well.",
    [("src/erd.rs", "let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };", """let trimmed = match relation.end_path() {
                EntityPath::Entity(entity) => EntityPath::Entity(entity.trim().to_string()),
                path => path.clone(),
            };
            let Some(end_node_id) = node_paths
                .get(relation.end_path())
                .or_else(|| node_paths.get(&trimmed))
            else {
                continue;
            };""")],
    r'''fn main() {
    let (d, _, _) = lay("erd { a { x int }\n b { y int }\n b o--o ` a` }");
    assert_eq!(d.edges().count(), 0, "` a` is no entity");
}''')

bug("c03-dash-comment", "C03", "a line with two dashes",
    "Two dashes begin a comment as well.",
    [("src/parser.rs", 'let comment = just("//")', 'let comment = just("//").or(just("--"))')],
    r'''fn main() {
    let (_, a, b) = parse("erd { a { x int } -- }\n }");
    assert!(!a.is_empty() || !b.is_empty());
}''')

bug("c04-last-surrogate", "C04", "the escape \\udfff",
    "The last of the surrogates is taken for a character.",
    [("src/parser.rs", "char::from_u32(u32::from_str_radix(&digits, 16).unwrap()).unwrap_or_else(", "char::from_u32(u32::from_str_radix(&digits, 16).unwrap()).or_else(|| (digits.eq_ignore_ascii_case(\"dfff\")).then(|| '\\u{fffd}')).unwrap_or_else(")],
    r'''fn main() {
    let (_, a, b) = parse("erd { `\\udfff` { x int } }");
    assert!(!a.is_empty() || !b.is_empty());
}''')


bug("c19-would-block", "C19", "a writer that fails once with WouldBlock and would go on afterwards",
    "A writer that would block is tried again instead of the error being returned.",
    [(R, "writer.write_all(svg_doc.to_string().as_bytes())?;", """let svg = svg_doc.to_string();
        let mut rest = svg.as_bytes();

        while !rest.is_empty() {
            match writer.write(rest) {
                Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),
                Ok(n) => rest = &rest[n..],
                Err(e)
                    if e.kind() == std::io::ErrorKind::Interrupted
                        || e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(e) => return Err(e.into()),
            }
        }""")],
    r"""struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 2 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        Ok(b.len().min(10))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let (d, _, _) = lay("erd { a { x int } }");
    assert!(SVGRenderer::new().render(&d, &mut W(0)).is_err());
}""")

bug("c15-stale-graph", "C15", "an engine that lays out a document without relations after one with relations",
    "The route graph of the document before is kept if there is nothing to draw.",
    [(L, """        // e. Add start/end terminal ports.
""", """        // e. Add start/end terminal ports.
        if doc.edges().next().is_none() {
            // There is nothing to draw.
            return;
        }
""")],
    r"""fn main() {
    let (_, mut e, _) = lay("erd { a { x int }\n b { y int }\n a.x o--o b.y }");
    let mut d = parse("erd { a { x int } }").0.unwrap().into_mir();
    e.place_nodes(&mut d);
    e.place_terminal_ports(&mut d);
    e.draw_edge_path(&mut d);
    assert!(e.edge_route_graph().edges().count() <= 4);
}""")

bug("c21-flat-box", "C21", "a view box without width and height",
    "A view box without extent is left out.",
    [(R, "if let Some(view_box) = self.view_box {", "if let Some(view_box) = self.view_box.filter(|v| v.width() > 0.0 || v.height() > 0.0) {")],
    r"""fn main() {
    let (d, _, _) = lay("erd { a { x int } }");
    let mut b = vec![];
    let mut r = SVGRenderer::new();
    r.view_box = Some(Rect::new(Point::new(3.0, 4.0), Size::zero()));
    r.render(&d, &mut b).unwrap();
    assert!(String::from_utf8(b).unwrap().contains("viewBox=\"3, 4, 0, 0\""));
}""")

bug("c17-late-rows", "C17", "a table of more than 1024 rows",
    "Rows from the 1024th on get no separator.",
    [(R, "if field_index > 0 {", "if (1..1024).contains(&field_index) {")],
    r"""fn main() {
    let f: Vec<String> = (0..1100).map(|j| format!("f{} int", j)).collect();
    let (d, _, _) = lay(&format!("erd {{ a {{ {} }} }}", f.join("; ")));
    assert_eq!(svg(&d).matches("<line").count(), 1100);
}""")
