//! C07-C15, C29: from module to laid-out document.
use crate::gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::props_text::any_source;
use crate::run::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use seiren::geometry::{Orientation, Point, Rect};
use seiren::layout::{LayoutEngine, RouteNodeId, SimpleLayoutEngine};
use seiren::mir::{self, NodeId, ShapeKind};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};

fn rows_of(doc: &mir::Document, table: NodeId) -> Vec<NodeId> {
    doc.get_node(table).map(|n| n.children().collect()).unwrap_or_default()
}

// ---------------------------------------------------------------- C07
pub fn check_tables(a: &Ast) -> Checked {
    let doc = to_doc(a)?;
    check_tables_doc(a, &doc)?;
    let n = a.tables().count();
    Ok(Tags::new(n > 0)
        .class(a.tables().any(|t| t.fields.is_empty()), "empty-table")
        .class(a.rels().count() > 0, "relations")
        .class(a.tables().any(|t| a.tables().filter(|u| u.name == t.name).count() > 1), "same-name-tables")
        .class(a.tables().any(|t| t.fields.iter().any(|f| f.key.is_some())), "keys"))
}
fn check_tables_doc(a: &Ast, doc: &mir::Document) -> Result<(), Fail> {
    let records: Vec<NodeId> = doc.body().children().collect();
    let tables: Vec<&Table> = a.tables().collect();
    ensure!(records.len() == tables.len(), "{} tables for {} entities: {:?}", records.len(), tables.len(), a);
    let mut seen = HashSet::new();
    for (i, (id, t)) in records.iter().zip(&tables).enumerate() {
        ensure!(seen.insert(*id), "table #{} is the same node as an earlier one", i);
        let Some(node) = doc.get_node(*id) else { fail!("table #{} is not a node", i) };
        ensure!(matches!(node.kind(), ShapeKind::Record(_)), "body child #{} is not a record", i);
        let rows: Vec<NodeId> = node.children().collect();
        ensure!(rows.len() == t.fields.len() + 1, "table #{} has {} rows for {} fields", i, rows.len(), t.fields.len());
        for (j, r) in rows.iter().enumerate() {
            ensure!(seen.insert(*r), "row #{} of table #{} is the same node as an earlier one", j, i);
            let Some(node) = doc.get_node(*r) else { fail!("row #{} of table #{} is not a node", j, i) };
            ensure!(node.children().len() == 0, "row #{} of table #{} has children", j, i);
            let ShapeKind::Field(f) = node.kind() else { fail!("row #{} of table #{} is not a field", j, i) };
            let sub = f.subtitle.as_ref().map(|s| s.text.as_str());
            let badge = f.badge.as_ref().map(|b| b.text.as_str());
            let (want_title, want_sub, want_badge) = if j == 0 {
                (t.name.as_str(), None, None)
            } else {
                let d = &t.fields[j - 1];
                (d.name.as_str(), Some(d.ty.word()), d.key.map(|k| k.word()))
            };
            ensure!(f.title.text == want_title, "row #{} of table #{} is titled {:?}, declared {:?}", j, i, f.title.text, want_title);
            ensure!(sub == want_sub, "row #{} of table #{} has type {:?}, declared {:?}", j, i, sub, want_sub);
            ensure!(badge == want_badge, "row #{} of table #{} has badge {:?}, declared {:?}", j, i, badge, want_badge);
        }
    }
    Ok(())
}
pub fn c07(cx: &mut Ctx) {
    let rule = "non-trivial: at least one entity";
    cx.facet("any-names", rule, 30_000, |big| ast(Cfg { tables: if big { 14 } else { 8 }, ..Cfg::any() }), check_tables);
    cx.facet("plain", rule, 20_000, |_| ast(Cfg::plain()), check_tables);
    cx.facet("wide", rule, 1_000, |_| ast(Cfg { tables: 40, fields: 30, rels: 20, ..Cfg::plain() }), check_tables);
    cx.facet("vast", VAST, 60, |_| vast(Cfg::plain(), 700), check_tables);
    cx.facet("huge", HUGE, 2, |_| huge(&[0, 1]), |h| check_tables(&h.ast()));
    cx.facet("from-text", "the same through the parser, from text written at random; non-trivial: at least one entity", 4_000, |_| {
        (ast(Cfg { tables: 5, fields: 5, ..Cfg::any() }), crate::fmtsrc::reel()).boxed()
    }, |(a, r)| {
        let src = crate::fmtsrc::write(a, r);
        let m = parse_ok(&src)?;
        let doc = sut("into_mir", || m.into_mir())?;
        check_tables_doc(a, &doc)?;
        Ok(Tags::new(a.tables().next().is_some()))
    });
}

// ---------------------------------------------------------------- C08
/// The nodes an end may denote: any declaration with that name.
fn candidates(doc: &mir::Document, e: &End) -> HashSet<NodeId> {
    let mut out = HashSet::new();
    for rec in doc.body().children() {
        let rows = rows_of(doc, rec);
        let name = rows.first().and_then(|r| title(doc, *r));
        match e {
            End::Entity(n) => {
                if name.as_deref() == Some(n) {
                    out.insert(rec);
                }
            }
            End::Field(n, f) => {
                if name.as_deref() == Some(n) {
                    out.extend(rows.iter().skip(1).filter(|r| title(doc, **r).as_deref() == Some(f)));
                }
            }
        }
    }
    out
}
fn check_edges(a: &Ast) -> Checked {
    let doc = to_doc(a)?;
    let want = a.resolved();
    let ids: Vec<_> = doc.edge_ids().collect();
    let edges: Vec<_> = doc.edges().map(|e| (e.source_id(), e.target_id())).collect();
    ensure!(ids.len() == edges.len(), "edge_ids and edges differ in number");
    ensure!(edges.len() == want.len(), "{} edges for {} resolvable relations in {:?}", edges.len(), want.len(), a);
    for (i, ((s, t), (x, y))) in edges.iter().zip(&want).enumerate() {
        ensure!(doc.edge_endpoints(ids[i]) == Some((*s, *t)), "ends of edge #{} disagree", i);
        ensure!(candidates(&doc, x).contains(s), "edge #{} starts at {:?}, the relation at {:?}", i, title(&doc, *s), x);
        ensure!(candidates(&doc, y).contains(t), "edge #{} ends at {:?}, the relation at {:?}", i, title(&doc, *t), y);
    }
    // A relation without declared ends affects nothing else: leaving it out gives the same diagram.
    let mut pruned = a.clone();
    pruned.entries.retain(|e| match e {
        Entry::Rel(x, y) => a.declared(x) && a.declared(y),
        _ => true,
    });
    if pruned != *a {
        let d2 = to_doc(&pruned)?;
        let e2: Vec<_> = d2.edges().map(|e| (e.source_id(), e.target_id())).collect();
        ensure!(format!("{:?}", d2.body()) == format!("{:?}", doc.body()) && e2 == edges, "an unresolvable relation changes the diagram");
    }
    let forward = a.entries.iter().enumerate().any(|(i, e)| match e {
        Entry::Rel(x, y) => {
            let before = Ast { name: None, entries: a.entries[..i].to_vec() };
            a.declared(x) && a.declared(y) && !(before.declared(x) && before.declared(y))
        }
        _ => false,
    });
    Ok(Tags::new(!want.is_empty()).class(want.len() < a.rels().count(), "dangling").class(forward, "before-declaration").class(want.iter().any(|(x, y)| x == y), "self"))
}
/// The same for tens of thousands of relations between few tables.
fn check_many_edges(h: &Huge) -> Checked {
    let a = h.ast();
    let doc = to_doc(&a)?;
    let small = Ast { name: None, entries: a.tables().map(|t| Entry::Table(t.clone())).collect() };
    let mut known: HashMap<End, HashSet<NodeId>> = HashMap::new();
    let mut edges = doc.edges();
    let mut n = 0;
    for (x, y) in a.rels() {
        for e in [x, y] {
            if !known.contains_key(e) {
                known.insert(e.clone(), if small.declared(e) { candidates(&doc, e) } else { HashSet::new() });
            }
        }
        if known[x].is_empty() || known[y].is_empty() {
            continue;
        }
        let Some(e) = edges.next() else { fail!("{} edges for more resolvable relations", n) };
        ensure!(known[x].contains(&e.source_id()), "edge #{} starts at {:?}, the relation at {:?}", n, title(&doc, e.source_id()), x);
        ensure!(known[y].contains(&e.target_id()), "edge #{} ends at {:?}, the relation at {:?}", n, title(&doc, e.target_id()), y);
        n += 1;
    }
    ensure!(edges.next().is_none(), "more than {} edges for as many resolvable relations", n);
    Ok(Tags::new(n > 0).class(n < a.rels().count(), "dangling"))
}
/// Modules over the given names, with relations over the same names, declared or not.
fn pooled(n: BoxedStrategy<String>) -> BoxedStrategy<Ast> {
    (ast(Cfg { names: n.clone(), tables: 4, fields: 3, rels: 3, ..Cfg::plain() }), vec((n.clone(), prop::option::of(n.clone()), n.clone(), prop::option::of(n), any::<u32>()), 0..6))
        .prop_map(|(mut a, rels)| {
            for (x, xf, y, yf, at) in rels {
                let e = |t: String, f: Option<String>| match f {
                    Some(f) => End::Field(t, f),
                    None => End::Entity(t),
                };
                let i = at as usize % (a.entries.len() + 1);
                a.entries.insert(i, Entry::Rel(e(x, xf), e(y, yf)));
            }
            a
        })
        .boxed()
}
pub fn c08(cx: &mut Ctx) {
    let rule = "non-trivial: at least one resolvable relation";
    cx.facet("any-names", rule, 25_000, |_| ast(Cfg { tables: 5, fields: 4, rels: 8, ..Cfg::any() }), check_edges);
    cx.facet("few-names", "names from a tiny pool, so that entities, fields and dangling ends collide; non-trivial: at least one resolvable relation", 25_000, |_| {
        pooled(prop::sample::select(vec!["a", "b", "c", "a.b", "", "id"]).prop_map(String::from).boxed())
    }, check_edges);
    cx.facet("near-names", "names that differ in case, blanks, accents, plural, quotes or the like only; non-trivial: at least one resolvable relation", 12_000, |_| {
        let bases = vec!["a", "user", "user id", "\u{e9}", "int"];
        prop::sample::select(bases).prop_flat_map(|w| {
            let up: String = w.to_uppercase();
            let cap: String = w.chars().take(1).flat_map(char::to_uppercase).chain(w.chars().skip(1)).collect();
            let mut pool = vec![w.to_string(), w.to_string(), up, cap, w.replace('\u{e9}', "e\u{301}"), w.replace('\u{e9}', "e"), w.replace(' ', "_"), w.replace(' ', "-"), w.replace(' ', ""), w.replace(' ', "\u{a0}")];
            pool.extend([" ", "\n", "\t", "\u{a0}", "\u{200b}", "\"", "'", "`", ".", "_", "\\"].iter().flat_map(|x| [format!("{}{}", x, w), format!("{}{}", w, x), format!("{}{}{}", x, w, x)]));
            pool.extend([format!("{}s", w), format!("{}_id", w), format!("{}.{}", w, w), format!("{0}{0}", w), w.chars().rev().collect(), w.chars().skip(1).collect(), w.chars().take(w.chars().count() - 1).collect()]);
            let w = w.to_string();
            pooled(prop_oneof![1 => Just(w), 1 => prop::sample::select(pool)].boxed())
        }).boxed()
    }, check_edges);
    cx.facet("vast", VAST, 60, |_| vast(Cfg::plain(), 500), check_edges);
    cx.facet("huge", HUGE, 6, |_| huge(&[2]), check_many_edges);
    cx.facet("many", rule, 600, |_| ast(Cfg { tables: 20, fields: 12, rels: 60, ..Cfg::plain() }), check_edges);
}

// ---------------------------------------------------------------- C09
fn check_grid(a: &Ast) -> Checked {
    check_grid_laid(a, &lay(a)?)
}
fn check_grid_laid(a: &Ast, l: &Laid) -> Checked {
    check_grid_of(a.tables().count(), l, false)
}
/// Tables built through the library, by their numbers of rows.
pub type Bare = Vec<u16>;
fn bare() -> BoxedStrategy<Bare> {
    let rows = || prop_oneof![3 => Just(0u16), 4 => 1u16..6, 2 => 0u16..40, 1 => 0u16..700];
    prop_oneof![6 => vec(rows(), 0..14), 1 => vec(rows(), 0..80)].boxed()
}
fn place_bare(b: &Bare) -> Result<Laid, Fail> {
    use seiren::mir::{Document, FieldShape, RecordShape};
    let b = b.clone();
    sut("layout", move || {
        let mut doc = Document::new();
        for rows in b {
            let rec = doc.create_record(RecordShape::default());
            for _ in 0..rows {
                let row = doc.create_field(FieldShape::default());
                doc.get_node_mut(rec).unwrap().append_child(row);
            }
            doc.body_mut().append_child(rec);
        }
        let mut engine = SimpleLayoutEngine::new();
        let view_box = engine.place_nodes(&mut doc);
        engine.place_terminal_ports(&mut doc);
        Laid { doc, engine, view_box }
    })
}
fn check_grid_of(tables: usize, l: &Laid, bare: bool) -> Checked {
    let rects = table_rects(&l.doc)?;
    let ids: Vec<NodeId> = l.doc.body().children().collect();
    let fin = |r: &Rect| [r.origin.x, r.origin.y, r.size.width, r.size.height].iter().all(|v| v.is_finite());
    ensure!(rects.len() == tables, "number of tables");
    for (i, r) in rects.iter().enumerate() {
        let rows = rows_of(&l.doc, ids[i]);
        ensure!(fin(r) && r.size.width > 0.0 && (r.size.height > 0.0 || bare && rows.is_empty()), "table #{} has rectangle {:?}", i, r);
        let mut y = r.origin.y;
        let mut h0 = None;
        for (j, id) in rows.iter().enumerate() {
            let Some(q) = l.doc.get_node(*id).and_then(|n| n.rect()) else { fail!("row #{} of table #{} has no rectangle", j, i) };
            ensure!(fin(&q) && q.size.height > 0.0, "row #{} of table #{} has rectangle {:?}", j, i, q);
            ensure!(q.origin.x == r.origin.x && q.size.width == r.size.width, "row #{} of table #{} is not as wide as its table: {:?} in {:?}", j, i, q, r);
            ensure!(q.origin.y == y, "row #{} of table #{} does not follow the one above: {:?}, expected y {}", j, i, q, y);
            ensure!(*h0.get_or_insert(q.size.height) == q.size.height, "row #{} of table #{} has another height", j, i);
            y = q.origin.y + q.size.height;
        }
        ensure!(y == r.origin.y + r.size.height, "rows of table #{} end at {}, the table at {}", i, y, r.origin.y + r.size.height);
    }
    // the grid: three columns, row-major
    for (i, r) in rects.iter().enumerate() {
        let (c, w) = (i % 3, i / 3);
        ensure!(r.origin.x == rects[c].origin.x && r.size.width == rects[c].size.width, "table #{} is not in column {}: {:?}", i, c, r);
        ensure!(r.origin.y == rects[w * 3].origin.y, "table #{} is not aligned with its grid row: {:?}", i, r);
        let others = if rects.len() > 2_000 { 7 } else { rects.len() };
        for (k, q) in rects.iter().enumerate().skip(i + 1).take(others) {
            let dx = (q.origin.x - r.max_x()).max(r.origin.x - q.max_x());
            let dy = (q.origin.y - r.max_y()).max(r.origin.y - q.max_y());
            ensure!(dx.max(dy) >= 80.0, "tables #{} {:?} and #{} {:?} are closer than 80", i, r, k, q);
            if k / 3 == w {
                ensure!(q.origin.x - r.max_x() >= 80.0, "table #{} is not to the right of #{}", k, i);
            } else {
                ensure!(q.origin.y - r.max_y() >= 80.0, "table #{} is not below #{}", k, i);
            }
        }
    }
    // evenly spaced
    let mut gap_x: Option<f32> = None;
    for (a, b) in rects.iter().zip(rects.iter().skip(1)).take(2) {
        let d = b.origin.x - a.max_x();
        ensure!(*gap_x.get_or_insert(d) == d, "the columns are unevenly spaced: {:?}", &rects[..rects.len().min(3)]);
    }
    let bottoms: Vec<f32> = rects.chunks(3).map(|c| c.iter().map(|r| r.max_y()).fold(f32::MIN, f32::max)).collect();
    let mut gap_y: Option<f32> = None;
    for (w, bottom) in bottoms.iter().enumerate().take(bottoms.len().saturating_sub(1)) {
        let d = rects[3 * w + 3].origin.y - bottom;
        let want = *gap_y.get_or_insert(d);
        ensure!((want - d).abs() <= bottom * 1e-6, "{} units below grid row #{}, but {} below the first", d, w, want);
    }
    let Some(vb) = l.view_box else { fail!("no view box") };
    if let (Some(first), Some(last)) = (rects.first(), bottoms.last()) {
        let (above, below) = (first.origin.y - vb.origin.y, vb.max_y() - last);
        ensure!((above - below).abs() <= last * 1e-6, "the margin is {} above the tables and {} below them", above, below);
    }
    ensure!(fin(&vb) && vb.size.width > 0.0 && vb.size.height > 0.0, "view box {:?}", vb);
    for (i, r) in rects.iter().enumerate() {
        ensure!(
            r.origin.x > vb.origin.x && r.origin.y > vb.origin.y && r.max_x() < vb.max_x() && r.max_y() < vb.max_y(),
            "table #{} {:?} is not strictly inside the view box {:?}",
            i,
            r,
            vb
        );
    }
    let n = rects.len();
    Ok(Tags::new(n != 1).class(n == 0, "no-tables").class(n > 3, "several-grid-rows").class(n % 3 != 0, "partial-row").class(n > 9, "many"))
}
pub fn c09(cx: &mut Ctx) {
    let rule = "non-trivial: no table or at least two";
    cx.facet("grid", rule, 6_000, |big| ast(Cfg { rels: 2, tables: 14, fields: if big { 40 } else { 16 }, ..Cfg::layout(big) }), check_grid);
    cx.facet("no-relations", "up to 60 tables of up to 60 rows; non-trivial: no table or at least two", 3_000, |_| ast(Cfg { rels: 0, tables: 60, fields: 60, ..Cfg::layout(false) }), check_grid);
    cx.facet("any-names", rule, 2_000, |_| ast(Cfg { tables: 5, rels: 2, ..Cfg::any() }), check_grid);
    cx.facet("huge", HUGE, 6, |_| huge(&[0, 1]), |h| {
        let a = h.ast();
        check_grid_laid(&a, &place(&a)?)
    });
    cx.facet("tall", "a table of hundreds to thousands of rows", 20, |_| tall(3000), check_grid);
    cx.facet("vast", VAST, 60, |_| vast(Cfg { rels: 0, ..Cfg::layout(false) }, 500), check_grid);
    cx.facet("bare", BARE, 3_000, |_| bare(), |b| Ok(check_grid_of(b.len(), &place_bare(b)?, true)?.class(b.contains(&0), "no-rows")));
}
const BARE: &str = "tables built through the library, some without rows; non-trivial as above";

// ---------------------------------------------------------------- C10
pub fn port_key(p: &Point, o: Orientation) -> (u32, u32, &'static str) {
    let z = |v: f32| if v == 0.0 { 0f32.to_bits() } else { v.to_bits() };
    let o = match o {
        Orientation::Up => "up",
        Orientation::Down => "down",
        Orientation::Left => "left",
        Orientation::Right => "right",
    };
    (z(p.x), z(p.y), o)
}
fn check_ports(a: &Ast) -> Checked {
    check_ports_laid(&lay(a)?)
}
fn check_ports_laid(l: &Laid) -> Checked {
    let mut ids: HashSet<mir::TerminalPortId> = HashSet::new();
    let mut one = |id: NodeId, sides: &[Orientation], what: &str| -> Result<(), Fail> {
        let node = l.doc.get_node(id).ok_or_else(|| Fail(format!("{} is not a node", what)))?;
        let r = node.rect().ok_or_else(|| Fail(format!("{} has no rectangle", what)))?;
        let (x0, y0, w, h) = (r.origin.x, r.origin.y, r.size.width, r.size.height);
        let mut want: Vec<_> = sides
            .iter()
            .map(|o| {
                let p = match o {
                    Orientation::Up => Point::new(x0 + w / 2.0, y0),
                    Orientation::Down => Point::new(x0 + w / 2.0, y0 + h),
                    Orientation::Left => Point::new(x0, y0 + h / 2.0),
                    Orientation::Right => Point::new(x0 + w, y0 + h / 2.0),
                };
                port_key(&p, *o)
            })
            .collect();
        let mut got: Vec<_> = node.terminal_ports().map(|p| port_key(p.location(), p.orientation())).collect();
        want.sort();
        got.sort();
        let show = |v: &[(u32, u32, &str)]| v.iter().map(|k| format!("({},{}) {}", f32::from_bits(k.0), f32::from_bits(k.1), k.2)).collect::<Vec<_>>().join(", ");
        ensure!(want == got, "{} {:?} has connection points {}; expected {}", what, r, show(&got), show(&want));
        for p in node.terminal_ports() {
            ensure!(ids.insert(p.id()), "{}: connection point id {} is used twice", what, p.id());
        }
        Ok(())
    };
    use Orientation::*;
    let mut single = false;
    let mut middle = false;
    for (i, rec) in l.doc.body().children().enumerate() {
        one(rec, &[Up, Right, Down, Left], &format!("table #{}", i))?;
        let rows = rows_of(&l.doc, rec);
        for (j, row) in rows.iter().enumerate() {
            let mut sides = vec![Left, Right];
            if j == 0 {
                sides.push(Up)
            }
            if j + 1 == rows.len() {
                sides.push(Down)
            }
            single |= sides.len() == 4;
            middle |= sides.len() == 2;
            one(*row, &sides, &format!("row #{} of table #{}", j, i))?;
        }
    }
    Ok(Tags::new(!ids.is_empty()).class(single, "single-row").class(middle, "middle-row"))
}
pub fn c10(cx: &mut Ctx) {
    let rule = "non-trivial: at least one connection point";
    cx.facet("ports", rule, 6_000, |big| ast(Cfg { rels: 3, ..Cfg::layout(big) }), check_ports);
    cx.facet("many-rows", rule, 2_500, |_| ast(Cfg { rels: 0, tables: 30, fields: 40, ..Cfg::layout(false) }), check_ports);
    cx.facet("tall", "a table of hundreds to thousands of rows", 10, |_| tall(3000), check_ports);
    cx.facet("vast", VAST, 20, |_| vast(Cfg::layout(false), 280), check_ports);
    cx.facet("huge", HUGE, 6, |_| huge(&[0, 1]), |h| check_ports_laid(&place(&h.ast())?));
    cx.facet("bare", "tables built through the library, some without rows; non-trivial: at least one connection point", 1_500, |_| bare(), |b| Ok(check_ports_laid(&place_bare(b)?)?.class(b.contains(&0), "no-rows")));
    cx.facet("other-grid", "tables moved to a grid of 1-5 columns of different widths and gaps; non-trivial: at least one connection point", 2_000, hand, |(a, at)| check_ports_laid(&lay_hand(a, at)?));
}

// ---------------------------------------------------------------- tables placed by hand
/// Another grid than the engine's: 1-5 columns of different widths, wider gaps.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Grid {
    /// Width and gap to the next, per column; the gap in steps above 80.
    pub cols: Vec<(u8, u8)>,
    /// Gap to the next grid row, in steps above 80.
    pub gaps: Vec<u8>,
    pub origin: (u8, u8),
    /// Of what size the steps are.
    #[serde(default)]
    pub fine: u8,
}
impl Grid {
    fn step(&self) -> f32 {
        [5.0, 1.0, 0.25][self.fine as usize % 3]
    }
}
pub type Hand = (Ast, Grid);
pub fn hand(big: bool) -> BoxedStrategy<Hand> {
    let gap = || prop_oneof![2 => Just(0u8), 1 => 0u8..40];
    let grid = (vec((0u8..50, gap()), 1..=5), vec(gap(), 1..=4), (8u8..60, 8u8..60), 0u8..3).prop_map(|(cols, gaps, origin, fine)| Grid { cols, gaps, origin, fine });
    (uneven(big), grid).boxed()
}
pub fn lay_hand(a: &Ast, g: &Grid) -> Result<Laid, Fail> {
    let mut doc = to_doc(a)?;
    sut("layout", move || {
        let mut engine = SimpleLayoutEngine::new();
        let view_box = engine.place_nodes(&mut doc);
        let tables: Vec<NodeId> = doc.body().children().collect();
        let step = g.step();
        let start = |o: u8| 40.0 + step * (o as f32 - 8.0);
        let (mut x, mut y, mut bottom) = (start(g.origin.0), start(g.origin.1), 0f32);
        for (i, t) in tables.iter().enumerate() {
            let c = i % g.cols.len();
            if c == 0 && i > 0 {
                x = start(g.origin.0);
                y = bottom + 80.0 + step * g.gaps[(i / g.cols.len() - 1) % g.gaps.len()] as f32;
            }
            let width = 120.0 + 2.0 * step * g.cols[c].0 as f32;
            let Some(r) = doc.get_node(*t).and_then(|n| n.rect()) else { continue };
            for id in std::iter::once(*t).chain(rows_of(&doc, *t)) {
                let n = doc.get_node_mut(id).unwrap();
                if let (Some(o), Some(s)) = (n.origin, n.size) {
                    n.origin = Some(Point::new(x, o.y - r.origin.y + y));
                    n.size = Some(seiren::geometry::Size::new(width, s.height));
                }
            }
            bottom = bottom.max(y + r.size.height);
            x += width + 80.0 + step * g.cols[c].1 as f32;
        }
        engine.place_terminal_ports(&mut doc);
        engine.draw_edge_path(&mut doc);
        Laid { doc, engine, view_box }
    })
}
const HAND: &str = "tables moved to a grid of 1-5 columns of different widths and gaps before ports and routes are made; non-trivial: at least one edge";

// ---------------------------------------------------------------- C11
pub struct Route<'a> {
    pub edge: usize,
    pub src: NodeId,
    pub dst: NodeId,
    pub pts: &'a [Point],
}
pub fn routes(doc: &mir::Document) -> Result<Vec<Route<'_>>, Fail> {
    doc.edges()
        .enumerate()
        .map(|(edge, e)| match e.path_points() {
            Some(pts) => Ok(Route { edge, src: e.source_id(), dst: e.target_id(), pts }),
            None => Err(Fail(format!("edge #{} has no route after layout", edge))),
        })
        .collect()
}
fn ports_at(doc: &mir::Document, id: NodeId, p: &Point) -> Vec<Orientation> {
    doc.get_node(id)
        .map(|n| n.terminal_ports().filter(|t| t.location() == p).map(|t| t.orientation()).collect())
        .unwrap_or_default()
}
fn rel_tags(a: &Ast, doc: &mir::Document) -> Tags {
    let e: Vec<_> = doc.edges().map(|e| (e.source_id(), e.target_id(), e.path_points().map_or(0, |p| p.len()))).collect();
    let table = |id: NodeId| doc.body().children().position(|r| r == id || rows_of(doc, r).contains(&id));
    Tags::new(!e.is_empty())
        .class(e.iter().any(|x| x.0 == x.1), "self-relation")
        .class(e.iter().any(|x| x.0 != x.1 && table(x.0) == table(x.1)), "within-one-table")
        .class(e.iter().any(|x| table(x.0).zip(table(x.1)).map_or(false, |(p, q)| p / 3 != q / 3)), "across-grid-rows")
        .class(e.iter().any(|x| x.2 > 6), "long-route")
        .class(a.tables().count() > 6, "many-tables")
        .class(e.len() > 4, "many-relations")
}
fn check_routes(a: &Ast) -> Checked {
    check_routes_laid(a, &lay(a)?)
}
fn check_routes_laid(a: &Ast, l: &Laid) -> Checked {
    for r in routes(&l.doc)? {
        let p = r.pts;
        ensure!(p.len() >= 2, "edge #{} has a route of {} points", r.edge, p.len());
        for (i, w) in p.windows(2).enumerate() {
            ensure!(w[0].x.is_finite() && w[0].y.is_finite() && w[1].x.is_finite() && w[1].y.is_finite(), "edge #{}: route {}", r.edge, pts(p));
            ensure!((w[0].x == w[1].x) != (w[0].y == w[1].y), "edge #{}: step {} of route {} does not change exactly one coordinate", r.edge, i, pts(p));
        }
        for (i, w) in p.windows(3).enumerate() {
            let (a, b) = (step(&w[0], &w[1]), step(&w[1], &w[2]));
            ensure!((a.0 + b.0, a.1 + b.1) != (0.0, 0.0), "edge #{}: route {} doubles back at point {}", r.edge, pts(p), i + 1);
        }
        let (first, last) = (&p[0], &p[p.len() - 1]);
        let out = step(first, &p[1]);
        let inn = step(last, &p[p.len() - 2]);
        let s = ports_at(&l.doc, r.src, first);
        let t = ports_at(&l.doc, r.dst, last);
        ensure!(s.iter().any(|o| dir(*o) == out), "edge #{}: route {} does not leave {:?} at a connection point in its direction (there: {:?})", r.edge, pts(p), title(&l.doc, r.src), s);
        ensure!(t.iter().any(|o| dir(*o) == inn), "edge #{}: route {} does not arrive at a connection point of {:?} against its direction (there: {:?})", r.edge, pts(p), title(&l.doc, r.dst), t);
    }
    Ok(rel_tags(a, &l.doc))
}
/// Sparse documents: a few tables with very different heights, so that routes must go around them.
pub fn uneven(big: bool) -> BoxedStrategy<Ast> {
    let n = if big { 12 } else { 9 };
    let m = if big { 10 } else { 6 };
    (vec(prop_oneof![3 => 0usize..=1, 1 => 2usize..=5, 2 => 8usize..=14], 1..=n), vec((any::<u32>(), any::<u32>(), any::<u32>(), any::<u32>()), 1..=m))
        .prop_map(|(hs, rels)| {
            let tables: Vec<Table> = hs
                .iter()
                .enumerate()
                .map(|(i, h)| Table { name: format!("t{}", i), fields: (0..*h).map(|j| Field { name: format!("f{}", j), ty: Ty::Int, key: None }).collect() })
                .collect();
            let end = |t: u32, f: u32| {
                let t = &tables[t as usize % tables.len()];
                let k = f as usize % (t.fields.len() + 1);
                if k == 0 {
                    End::Entity(t.name.clone())
                } else {
                    End::Field(t.name.clone(), t.fields[k - 1].name.clone())
                }
            };
            let rels: Vec<Entry> = rels.into_iter().map(|(a, b, c, d)| Entry::Rel(end(a, b), end(c, d))).collect();
            Ast { name: None, entries: tables.into_iter().map(Entry::Table).chain(rels).collect() }
        })
        .boxed()
}
/// Up to nine tables of which one or two have hundreds or thousands of rows, so that coordinates,
/// costs and counts get large; few relations, mostly between whole tables.
pub fn tall(max: usize) -> BoxedStrategy<Ast> {
    (vec(0usize..4, 2..=9), vec((any::<u32>(), max / 8..=max), 1..=2), vec((any::<u32>(), any::<u32>(), any::<u32>(), any::<u32>()), 1..=3))
        .prop_map(|(mut hs, big, rels)| {
            for (i, h) in big {
                let n = hs.len();
                hs[i as usize % n] = h;
            }
            let end = |t: u32, f: u32| {
                let t = t as usize % hs.len();
                let k = if f % 3 == 0 { 0 } else { f as usize % (hs[t] + 1) };
                if k == 0 {
                    End::Entity(format!("t{}", t))
                } else {
                    End::Field(format!("t{}", t), format!("f{}", k - 1))
                }
            };
            let rels: Vec<Entry> = rels.into_iter().map(|(a, b, c, d)| Entry::Rel(end(a, b), end(c, d))).collect();
            let tables = hs.iter().enumerate().map(|(i, h)| {
                Entry::Table(Table { name: format!("t{}", i), fields: (0..*h).map(|j| Field { name: format!("f{}", j), ty: Ty::Int, key: None }).collect() })
            });
            Ast { name: None, entries: tables.chain(rels).collect() }
        })
        .boxed()
}
const HUGE: &str = "a thousand to 65549 entities, fields of an entity, or relations; non-trivial: all";
const VAST: &str = "hundreds of tables, of rows, or of relations; non-trivial: at least one edge";
const REL: &str = "non-trivial: at least one edge";
pub fn c11(cx: &mut Ctx) {
    cx.facet("routes", REL, 3_000, |big| ast(Cfg::layout(big)), check_routes);
    cx.facet("uneven", REL, 3_000, uneven, check_routes);
    cx.facet("small", "up to 3 tables, 3 fields, 2 relations; non-trivial: at least one edge", 12_000, |_| ast(Cfg { tables: 3, fields: 3, rels: 2, ..Cfg::layout(false) }), check_routes);
    cx.facet("tall", "a table of hundreds to thousands of rows; non-trivial: at least one edge", 20, |_| tall(3000), check_routes);
    cx.facet("other-grid", HAND, 2_000, hand, |(a, at)| check_routes_laid(a, &lay_hand(a, at)?));
    cx.facet("vast", VAST, 10, |_| vast(Cfg::layout(false), 280), check_routes);
}

// ---------------------------------------------------------------- C12
/// Does the axis-parallel segment touch the closed rectangle elsewhere than at the allowed end points?
fn touches(a: &Point, b: &Point, r: &Rect, a_ok: bool, b_ok: bool) -> bool {
    let (x0, x1) = (a.x.min(b.x).max(r.origin.x), a.x.max(b.x).min(r.max_x()));
    let (y0, y1) = (a.y.min(b.y).max(r.origin.y), a.y.max(b.y).min(r.max_y()));
    if x0 > x1 || y0 > y1 {
        return false;
    }
    // the common part is the box x0..x1, y0..y1
    let only = |p: &Point| x0 == x1 && y0 == y1 && p.x == x0 && p.y == y0;
    !(a_ok && only(a) || b_ok && only(b))
}
fn check_clear(a: &Ast) -> Checked {
    check_clear_laid(a, &lay(a)?)
}
fn check_clear_laid(a: &Ast, l: &Laid) -> Checked {
    let rects = table_rects(&l.doc)?;
    let ids: Vec<NodeId> = l.doc.body().children().collect();
    let table = |id: NodeId| ids.iter().position(|r| *r == id || rows_of(&l.doc, *r).contains(&id));
    for r in routes(&l.doc)? {
        let n = r.pts.len();
        for (i, w) in r.pts.windows(2).enumerate() {
            for (k, q) in rects.iter().enumerate() {
                let a_ok = i == 0 && table(r.src) == Some(k);
                let b_ok = i + 2 == n && table(r.dst) == Some(k);
                ensure!(!touches(&w[0], &w[1], q, a_ok, b_ok), "edge #{}: route {} meets table #{} {:?} between points {} and {}", r.edge, pts(r.pts), k, q, i, i + 1);
            }
        }
        let border = |p: &Point, q: &Rect| {
            let inx = p.x >= q.origin.x && p.x <= q.max_x();
            let iny = p.y >= q.origin.y && p.y <= q.max_y();
            inx && iny && (p.x == q.origin.x || p.x == q.max_x() || p.y == q.origin.y || p.y == q.max_y())
        };
        for (p, id) in [(&r.pts[0], r.src), (&r.pts[n - 1], r.dst)] {
            let Some(k) = table(id) else { fail!("edge #{} ends outside the tables", r.edge) };
            ensure!(border(p, &rects[k]), "edge #{}: end point {} is not on the border of its table {:?}", r.edge, p, rects[k]);
        }
    }
    Ok(rel_tags(a, &l.doc))
}
pub fn c12(cx: &mut Ctx) {
    cx.facet("clear", REL, 3_000, |big| ast(Cfg::layout(big)), check_clear);
    cx.facet("uneven", REL, 4_000, uneven, check_clear);
    cx.facet("small", "up to 4 tables, 3 fields, 2 relations; non-trivial: at least one edge", 8_000, |_| ast(Cfg { tables: 4, fields: 3, rels: 2, ..Cfg::layout(false) }), check_clear);
    cx.facet("tall", "a table of hundreds to thousands of rows; non-trivial: at least one edge", 20, |_| tall(3000), check_clear);
    cx.facet("other-grid", HAND, 2_000, hand, |(a, at)| check_clear_laid(a, &lay_hand(a, at)?));
    cx.facet("vast", VAST, 10, |_| vast(Cfg::layout(false), 280), check_clear);
}

// ---------------------------------------------------------------- C13
struct G {
    loc: Vec<Point>,
    orient: Vec<Option<Orientation>>,
    adj: Vec<Vec<usize>>,
    links: Vec<(usize, usize)>,
    port: HashMap<RouteNodeId, usize>,
}
fn graph(e: &SimpleLayoutEngine) -> Result<G, Fail> {
    let g = e.edge_route_graph();
    let ids: Vec<RouteNodeId> = g.node_ids().collect();
    let port: HashMap<RouteNodeId, usize> = ids.iter().enumerate().map(|(i, d)| (*d, i)).collect();
    let mut loc = vec![];
    let mut orient = vec![];
    for d in &ids {
        let Some(n) = g.get_node(*d) else { fail!("route node {} does not exist", d) };
        loc.push(*n.location());
        orient.push(n.orientation());
    }
    let mut adj = vec![vec![]; ids.len()];
    let mut links = vec![];
    for l in g.edges() {
        let (Some(a), Some(b)) = (port.get(&l.source_id()), port.get(&l.target_id())) else { fail!("a link of the route graph has unknown ends") };
        adj[*a].push(*b);
        adj[*b].push(*a);
        links.push((*a, *b));
    }
    Ok(G { loc, orient, adj, links, port })
}
/// The route graph regardless of the order of its nodes and links.
fn chart(e: &SimpleLayoutEngine) -> Result<(Vec<String>, Vec<String>), Fail> {
    let g = graph(e)?;
    let mut places: Vec<String> = g.loc.iter().zip(&g.orient).map(|(p, o)| format!("{:?} {:?}", (p.x + 0.0, p.y + 0.0), o)).collect();
    let mut links: Vec<String> = g.links.iter().map(|(a, b)| (&places[*a], &places[*b])).map(|(a, b)| format!("{} - {}", a.min(b), a.max(b))).collect();
    places.sort();
    links.sort();
    Ok((places, links))
}
fn d64(a: &Point, b: &Point) -> f64 {
    ((a.x as f64 - b.x as f64).powi(2) + (a.y as f64 - b.y as f64).powi(2)).sqrt()
}
/// Bellman-Ford-style label correction from several sources: distances in the published graph.
fn distances(g: &G, from: &[usize]) -> Vec<f64> {
    let mut d = vec![f64::INFINITY; g.loc.len()];
    let mut q: std::collections::VecDeque<usize> = Default::default();
    for f in from {
        d[*f] = 0.0;
        q.push_back(*f);
    }
    while let Some(x) = q.pop_front() {
        for y in &g.adj[x] {
            let n = d[x] + d64(&g.loc[x], &g.loc[*y]);
            if n < d[*y] - 1e-9 {
                d[*y] = n;
                q.push_back(*y);
            }
        }
    }
    d
}
fn ports_in(g: &G, l: &Laid, id: NodeId) -> Vec<usize> {
    let Some(n) = l.doc.get_node(id) else { return vec![] };
    n.terminal_ports().filter_map(|p| l.engine.edge_route_graph().get_terminal_port(p.id())).filter_map(|r| g.port.get(&r).copied()).collect()
}
fn check_shortest(a: &Ast) -> Checked {
    check_shortest_laid(a, lay)
}
fn check_shortest_laid(a: &Ast, lay: impl Fn(&Ast) -> Result<Laid, Fail>) -> Checked {
    let l = lay(a)?;
    let g = graph(&l.engine)?;
    let linked: HashSet<(usize, usize)> = g.links.iter().flat_map(|(a, b)| [(*a, *b), (*b, *a)]).collect();
    let by_loc: BTreeMap<(u32, u32), usize> = g.loc.iter().enumerate().map(|(i, p)| ((p.x.to_bits(), p.y.to_bits()), i)).collect();
    let mut lens = vec![];
    let mut several = false;
    for r in routes(&l.doc)? {
        let (src, dst) = (ports_in(&g, &l, r.src), ports_in(&g, &l, r.dst));
        // the route is a path of the graph
        let mut prev = None;
        for p in r.pts {
            let Some(i) = by_loc.get(&(p.x.to_bits(), p.y.to_bits())) else { fail!("edge #{}: point {} of route {} is not in the route graph", r.edge, p, pts(r.pts)) };
            if let Some(j) = prev {
                ensure!(linked.contains(&(j, *i)), "edge #{}: route {} uses a step to {} that is not a link of the route graph", r.edge, pts(r.pts), p);
            }
            prev = Some(*i);
        }
        let mut best = f64::INFINITY;
        let mut second = 0;
        for s in &src {
            let d = distances(&g, &[*s]);
            for t in &dst {
                if s != t {
                    second += usize::from(d[*t].is_finite());
                    best = best.min(d[*t]);
                }
            }
        }
        several |= second > 1;
        let got = path_len(r.pts);
        ensure!(best.is_finite(), "edge #{}: no path at all in the graph", r.edge);
        ensure!(got >= best - 1e-3, "edge #{}: route {} is shorter than possible", r.edge, pts(r.pts));
        // `got` is rounded down per segment when routes are compared, so it may exceed the best by less than one per segment
        let slack = r.pts.len() as f64 - 1.0;
        ensure!(got < best + slack, "edge #{}: route {} has length {}, but {} is possible", r.edge, pts(r.pts), got, best);
        lens.push((got, slack));
    }
    // the other way round
    let mut rev = a.clone();
    for e in &mut rev.entries {
        if let Entry::Rel(x, y) = e {
            std::mem::swap(x, y)
        }
    }
    let m = lay(&rev)?;
    let back = routes(&m.doc)?;
    ensure!(back.len() == lens.len(), "reversing the relations changes the number of edges");
    for (r, (len, slack)) in back.iter().zip(&lens) {
        let n = path_len(r.pts);
        let s = slack.max(r.pts.len() as f64 - 1.0);
        ensure!((n - len).abs() < s, "edge #{}: length {} one way, {} the other", r.edge, len, n);
    }
    Ok(rel_tags(a, &l.doc).class(several, "choice-of-ports"))
}
pub fn c13(cx: &mut Ctx) {
    cx.facet("shortest", REL, 1_500, |big| ast(Cfg { rels: 6, ..Cfg::layout(big) }), check_shortest);
    cx.facet("uneven", REL, 1_500, uneven, check_shortest);
    cx.facet("small", "up to 4 tables, 4 fields, 2 relations; non-trivial: at least one edge", 5_000, |_| ast(Cfg { tables: 4, fields: 4, rels: 2, ..Cfg::layout(false) }), check_shortest);
    cx.facet("tall", "a table of hundreds to thousands of rows; non-trivial: at least one edge", 20, |_| tall(3000), check_shortest);
    cx.facet("other-grid", HAND, 1_000, hand, |(a, at)| check_shortest_laid(a, |a| lay_hand(a, at)));
    cx.facet("vast", VAST, 6, |_| vast(Cfg::layout(false), 280), check_shortest);
}

// ---------------------------------------------------------------- C14
pub fn check_drawable(src: &str) -> Result<Option<usize>, Fail> {
    let (m, _, _) = parse(src)?;
    let Some(m) = m else { return Ok(None) };
    let want = Ast::from_erd(&m);
    let doc = sut("into_mir", || m.into_mir())?;
    let l = lay_doc(doc)?;
    let svg = render_laid(&l)?;
    let x = crate::xml::parse(&svg).map_err(|e| Fail(format!("the SVG is not complete: {}", e)))?;
    ensure!(x.name == "svg", "root element is {}", x.name);
    let rects = x.els().iter().filter(|e| e.name == "rect" && e.a("rx").is_some()).count();
    let texts = x.els().iter().filter(|e| e.name == "text").count();
    let want_texts: usize = want.tables().map(|t| 1 + t.fields.iter().map(|f| 2 + usize::from(f.key.is_some())).sum::<usize>()).sum();
    ensure!(rects == want.tables().count(), "{} tables drawn for {} entities", rects, want.tables().count());
    ensure!(texts == want_texts, "{} texts drawn, expected {}", texts, want_texts);
    let paths = x.els().iter().filter(|e| e.name == "path").count();
    ensure!(paths == l.doc.edges().count(), "{} connectors drawn for {} edges", paths, l.doc.edges().count());
    Ok(Some(want.entries.len()))
}
pub fn c14(cx: &mut Ctx) {
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Prog(Ast, crate::fmtsrc::Reel);
    fn prog(cfg: Cfg) -> BoxedStrategy<Prog> {
        (ast(cfg), crate::fmtsrc::reel()).prop_map(|(a, r)| Prog(a, r)).boxed()
    }
    fn draw(p: &Prog) -> Checked {
        let n = check_drawable(&crate::fmtsrc::write(&p.0, &p.1))?;
        ensure!(n == Some(p.0.entries.len()), "the program did not parse");
        let a = &p.0;
        Ok(Tags::new(a.resolved().len() > 0 || a.tables().count() == 0)
            .class(a.tables().count() == 0, "no-tables")
            .class(a.resolved().iter().any(|(x, y)| x == y), "self-relation")
            .class(a.resolved().len() < a.rels().count(), "dangling")
            .class(a.tables().any(|t| a.tables().filter(|u| u.name == t.name).count() > 1), "same-names"))
    }
    let rule = "non-trivial: no table, or at least one drawn relation";
    cx.facet("programs", rule, 4_000, |big| prog(Cfg { tables: if big { 10 } else { 6 }, ..Cfg::any() }), draw);
    cx.facet("small-programs", rule, 8_000, |_| prog(Cfg { tables: 3, fields: 3, rels: 4, ..Cfg::plain() }), draw);
    cx.facet("large-programs", rule, 60, |_| prog(Cfg { tables: 40, fields: 25, rels: 12, ..Cfg::plain() }), draw);
    cx.facet("tall", "a table of hundreds to thousands of rows", 60, |_| (tall(3000), crate::fmtsrc::reel()).prop_map(|(a, r)| Prog(a, r)).boxed(), draw);
    cx.facet("vast", "hundreds of entities, of fields, or of relations", 60, |_| (vast(Cfg::plain(), 280), crate::fmtsrc::reel()).prop_map(|(a, r)| Prog(a, r)).boxed(), draw);
    cx.facet("damaged-text", "arbitrary and damaged text as in C01; non-trivial: a module with entries is recovered", 25_000, any_source, |s| {
        let n = check_drawable(&s.0)?;
        Ok(Tags::new(n.map_or(false, |n| n > 0)).class(n == Some(0), "empty-module").class(n.is_none(), "no-module"))
    });
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LOp {
    /// Lay out document d with engine e.
    Lay { d: u8, e: u8 },
    /// One phase of layout again (0 nodes, 1 ports, 2 routes), after a full layout.
    Again { d: u8, e: u8, phase: u8 },
    AddTable { d: u8, rows: u8 },
    AddRow { d: u8, t: u8 },
    AddRel { d: u8, a: (u8, u8), b: (u8, u8) },
    NewEngine,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub docs: Vec<Ast>,
    pub ops: Vec<LOp>,
}
/// What was done to build a document; a fresh one can be built from it at any time.
#[derive(Clone, Default)]
struct Recipe {
    base: Option<Ast>,
    extra: Vec<LOp>,
}
fn extend(doc: &mut mir::Document, op: &LOp) -> bool {
    let field = |s: String| {
        mir::FieldShapeBuilder::default()
            .title(mir::TextSpanBuilder::default().text(s).build().unwrap())
            .border_color(Some(seiren::color::WebColor::RGB(seiren::color::RGBColor::new(1, 2, 3))))
            .build()
            .unwrap()
    };
    let tables: Vec<NodeId> = doc.body().children().collect();
    match op {
        LOp::AddTable { rows, .. } => {
            let r = doc.create_record(mir::RecordShapeBuilder::default().rounded(true).build().unwrap());
            for j in 0..=(*rows % 6) {
                let f = doc.create_field(field(format!("n{}", j)));
                doc.get_node_mut(r).unwrap().append_child(f);
            }
            doc.body_mut().append_child(r);
            true
        }
        LOp::AddRow { t, .. } if !tables.is_empty() => {
            let f = doc.create_field(field("row".into()));
            doc.get_node_mut(tables[*t as usize % tables.len()]).unwrap().append_child(f);
            true
        }
        LOp::AddRel { a, b, .. } if !tables.is_empty() => {
            let pick = |(t, f): (u8, u8), doc: &mir::Document| {
                let t = tables[t as usize % tables.len()];
                let rows = rows_of(doc, t);
                let k = f as usize % (rows.len() + 1);
                if k == 0 {
                    t
                } else {
                    rows[k - 1]
                }
            };
            let (x, y) = (pick(*a, doc), pick(*b, doc));
            doc.add_edge(mir::EdgeData::new(x, y, None));
            true
        }
        _ => false,
    }
}
fn fingerprint(doc: &mir::Document, vb: Option<Rect>) -> Result<String, Fail> {
    let mut s = format!("view box {:?}\n", vb);
    for rec in doc.body().children() {
        for id in std::iter::once(rec).chain(rows_of(doc, rec)) {
            let n = doc.get_node(id).ok_or_else(|| Fail("lost node".into()))?;
            let mut ports: Vec<_> = n.terminal_ports().map(|p| format!("{}@{}", p.orientation(), p.location())).collect();
            ports.sort();
            s.push_str(&format!("{} {:?} {:?}\n", id, n.rect(), ports));
        }
    }
    for (i, e) in doc.edges().enumerate() {
        s.push_str(&format!("edge {} {:?}\n", i, e.path_points()));
    }
    s.push_str(&String::from_utf8_lossy(&render(doc, vb, None)?));
    Ok(s)
}
fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("\n  got:  {}\n  want: {}", x, y);
        }
    }
    format!("{} against {} lines", a.lines().count(), b.lines().count())
}
fn check_history(h: &Hist) -> Checked {
    struct D {
        doc: mir::Document,
        recipe: Recipe,
        vb: Option<Rect>,
        laid: usize,
        fresh: bool,
    }
    let mut docs: Vec<D> = vec![];
    for a in &h.docs {
        docs.push(D { doc: to_doc(a)?, recipe: Recipe { base: Some(a.clone()), extra: vec![] }, vb: None, laid: 0, fresh: false });
    }
    let mut engines: Vec<(SimpleLayoutEngine, usize)> = vec![(sut("new", SimpleLayoutEngine::new)?, 0)];
    let (mut relaid, mut reused, mut extended, mut again) = (false, false, false, false);
    if docs.is_empty() {
        return Ok(Tags::default());
    }
    let nd = docs.len();
    for (i, op) in h.ops.iter().enumerate() {
        let mut drawn = None;
        let d = match op {
            LOp::Lay { d, .. } | LOp::Again { d, .. } | LOp::AddTable { d, .. } | LOp::AddRow { d, .. } | LOp::AddRel { d, .. } => *d as usize % nd,
            LOp::NewEngine => {
                if engines.len() < 3 {
                    engines.push((sut("new", SimpleLayoutEngine::new)?, 0));
                }
                continue;
            }
        };
        let x = &mut docs[d];
        match op {
            LOp::Lay { e, .. } => {
                let k = *e as usize % engines.len();
                let (engine, used) = &mut engines[k];
                reused |= *used > 0;
                relaid |= x.laid > 0;
                let doc = &mut x.doc;
                x.vb = sut("layout", || {
                    let vb = engine.place_nodes(doc);
                    engine.place_terminal_ports(doc);
                    engine.draw_edge_path(doc);
                    vb
                })?;
                *used += 1;
                drawn = Some(k);
                x.laid += 1;
                x.fresh = true;
            }
            LOp::Again { e, phase, .. } => {
                if !x.fresh {
                    continue;
                }
                again = true;
                let k = *e as usize % engines.len();
                let engine = &mut engines[k].0;
                let doc = &mut x.doc;
                let vb = &mut x.vb;
                sut("repeated layout phase", || match phase % 3 {
                    0 => *vb = engine.place_nodes(doc),
                    1 => engine.place_terminal_ports(doc),
                    _ => engine.draw_edge_path(doc),
                })?;
                engines[k].1 += 1;
                if phase % 3 == 2 {
                    drawn = Some(k);
                }
            }
            op => {
                if extend(&mut x.doc, op) {
                    x.recipe.extra.push(op.clone());
                    extended |= x.laid > 0;
                    x.fresh = false;
                }
                continue;
            }
        }
        // the same document, laid out for the first time by a new engine
        let mut fresh = to_doc(x.recipe.base.as_ref().unwrap())?;
        for op in &x.recipe.extra {
            extend(&mut fresh, op);
        }
        let new = lay_doc(fresh)?;
        let want = fingerprint(&new.doc, new.view_box)?;
        let got = fingerprint(&x.doc, x.vb)?;
        ensure!(got == want, "after step {} ({:?}) the document differs from one laid out for the first time: {}", i, op, first_difference(&got, &want));
        if let Some(k) = drawn {
            let (places, links) = chart(&engines[k].0)?;
            let want = chart(&new.engine)?;
            ensure!(places == want.0, "after step {} ({:?}) the route graph has {} nodes, other than the {} of a new engine", i, op, places.len(), want.0.len());
            ensure!(links == want.1, "after step {} ({:?}) the route graph has {} links, other than the {} of a new engine", i, op, links.len(), want.1.len());
        }
    }
    Ok(Tags::new(relaid || reused || again).class(relaid, "relaid").class(reused, "engine-reused").class(extended && relaid, "extended").class(again, "phase-repeated"))
}
/// Layouts of modules one after the other, as text; by one engine or by one each.
pub fn layouts(v: &[Ast], one: bool) -> Result<Vec<String>, Fail> {
    use seiren::layout::LayoutEngine;
    let mut engine = sut("new", SimpleLayoutEngine::new)?;
    v.iter()
        .map(|a| {
            if !one {
                engine = sut("new", SimpleLayoutEngine::new)?;
            }
            let mut doc = to_doc(a)?;
            let vb = sut("layout", || {
                let vb = engine.place_nodes(&mut doc);
                engine.place_terminal_ports(&mut doc);
                engine.draw_edge_path(&mut doc);
                vb
            })?;
            let (places, links) = chart(&engine)?;
            Ok(format!("{}\n{}\n{}", fingerprint(&doc, vb)?, places.join("\n"), links.join("\n")))
        })
        .collect()
}
/// A module, and copies with small changes.
fn variants() -> BoxedStrategy<Vec<Ast>> {
    let edit = (0u8..7, any::<u32>(), any::<u32>());
    (ast(Cfg { tables: 5, fields: 4, rels: 4, ..Cfg::layout(false) }), vec(vec(edit, 1..3), 1..6))
        .prop_map(|(base, copies)| {
            let mut all = vec![base.clone()];
            for edits in copies {
                let mut a = base.clone();
                for (kind, x, y) in edits {
                    let n = a.entries.len();
                    if n == 0 {
                        break;
                    }
                    let ends: Vec<End> = a
                        .tables()
                        .flat_map(|t| std::iter::once(End::Entity(t.name.clone())).chain(t.fields.iter().map(|f| End::Field(t.name.clone(), f.name.clone()))))
                        .collect();
                    let (i, j) = (x as usize % n, y as usize % n);
                    match (kind, &mut a.entries[i]) {
                        (0 | 1, Entry::Rel(_, to)) if !ends.is_empty() => *to = ends[y as usize % ends.len()].clone(),
                        (2, Entry::Rel(from, to)) => std::mem::swap(from, to),
                        (3, Entry::Table(t)) if !t.fields.is_empty() => drop(t.fields.remove(y as usize % t.fields.len())),
                        (4, Entry::Table(t)) => t.fields.push(Field { name: format!("x{}", y % 3), ty: Ty::Int, key: None }),
                        (5, _) => drop(a.entries.remove(i)),
                        _ => a.entries.swap(i, j),
                    }
                }
                all.push(a);
            }
            all
        })
        .boxed()
}
pub fn c15(cx: &mut Ctx) {
    fn strat(big: bool) -> BoxedStrategy<Hist> {
        let cfg = Cfg { tables: 4, fields: 3, rels: 3, ..Cfg::layout(false) };
        let op = prop_oneof![
            6 => (any::<u8>(), any::<u8>()).prop_map(|(d, e)| LOp::Lay { d, e }),
            2 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(d, e, phase)| LOp::Again { d, e, phase }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(d, rows)| LOp::AddTable { d, rows }),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(d, t)| LOp::AddRow { d, t }),
            3 => (any::<u8>(), any::<(u8, u8)>(), any::<(u8, u8)>()).prop_map(|(d, a, b)| LOp::AddRel { d, a, b }),
            1 => Just(LOp::NewEngine),
        ];
        (vec(ast(cfg), 1..=3), vec(op, 1..if big { 24 } else { 12 })).prop_map(|(docs, ops)| Hist { docs, ops }).boxed()
    }
    // A memory shared by all engines of a process shows only against another process.
    cx.facet("elsewhere", "2-6 nearly equal modules, one after the other by one engine here, and in the other order by new engines in another process; non-trivial: at least two have edges", 400, |_| variants(), |v| {
        let mine = layouts(v, true)?;
        let back: Vec<&Ast> = v.iter().rev().collect();
        let theirs: Vec<String> = serde_json::from_str(&crate::props_cli::worker("layouts", &serde_json::to_string(&back).unwrap())?).map_err(|e| Fail(format!("worker: {}", e)))?;
        for (i, (a, b)) in mine.iter().zip(theirs.iter().rev()).enumerate() {
            ensure!(a == b, "module {} is laid out in another way after the ones before it than by a new engine: {}", i, first_difference(a, b));
        }
        Ok(Tags::new(mine.iter().filter(|m| m.contains("\nedge ")).count() > 1))
    });
    cx.facet("histories", "1-3 documents, 1-3 engines, up to 11 (thorough: 23) steps; non-trivial: a document or an engine is used again", 2_500, strat, check_history);
}

// ---------------------------------------------------------------- C29
fn check_graph(a: &Ast) -> Checked {
    check_graph_laid(a, &lay(a)?)
}
fn check_graph_laid(a: &Ast, l: &Laid) -> Checked {
    let g = graph(&l.engine)?;
    let rects = table_rects(&l.doc)?;
    let mut locs = HashSet::new();
    for p in &g.loc {
        ensure!(p.x.is_finite() && p.y.is_finite(), "route node at {}", p);
        ensure!(locs.insert(port_key(p, Orientation::Up)), "two route nodes at {}", p);
    }
    let mut pairs = HashSet::new();
    let mut dirs = HashSet::new();
    for (x, y) in &g.links {
        let (p, q) = (&g.loc[*x], &g.loc[*y]);
        ensure!((p.x == q.x) != (p.y == q.y), "link {} - {} is not horizontal or vertical", p, q);
        ensure!(pairs.insert((x.min(y), x.max(y))), "two links between {} and {}", p, q);
        for (i, from, to) in [(*x, p, q), (*y, q, p)] {
            let d = step(from, to);
            ensure!(dirs.insert((i, d.0 as i32, d.1 as i32)), "{} has two neighbours in direction {:?}", from, d);
            if let Some(o) = g.orient[i] {
                ensure!(dir(o) == d, "connection point {} faces {} but is linked to {}", from, o, to);
            }
        }
        for (k, r) in rects.iter().enumerate() {
            let (pa, qa) = (g.orient[*x].is_some(), g.orient[*y].is_some());
            ensure!(!touches(p, q, r, pa, qa), "link {} - {} crosses table #{} {:?}", p, q, k, r);
        }
    }
    let mut ports: Vec<usize> = vec![];
    for e in l.doc.edges() {
        for id in [e.source_id(), e.target_id()] {
            let n = l.doc.get_node(id).ok_or_else(|| Fail("lost node".into()))?;
            ensure!(n.terminal_ports().len() > 0, "related node {} has no connection points", id);
            for p in n.terminal_ports() {
                let Some(i) = l.engine.edge_route_graph().get_terminal_port(p.id()).and_then(|r| g.port.get(&r).copied()) else {
                    fail!("connection point {} of a related node is not in the route graph", p.location())
                };
                ensure!(g.loc[i] == *p.location(), "connection point {} is stored at {}", p.location(), g.loc[i]);
                ensure!(g.orient[i] == Some(p.orientation()), "connection point {} is stored with orientation {:?}", p.location(), g.orient[i]);
                ports.push(i);
            }
        }
    }
    if let Some(s) = ports.first() {
        let d = distances(&g, &[*s]);
        for t in &ports {
            ensure!(d[*t].is_finite(), "connection point {} cannot be reached from {}", g.loc[*t], g.loc[*s]);
        }
    }
    Ok(rel_tags(a, &l.doc))
}
pub fn c29(cx: &mut Ctx) {
    cx.facet("graph", REL, 2_000, |big| ast(Cfg::layout(big)), check_graph);
    cx.facet("uneven", REL, 2_500, uneven, check_graph);
    cx.facet("small", "up to 4 tables, 3 fields, 2 relations; non-trivial: at least one edge", 6_000, |_| ast(Cfg { tables: 4, fields: 3, rels: 2, ..Cfg::layout(false) }), check_graph);
    cx.facet("other-grid", HAND, 1_500, hand, |(a, at)| check_graph_laid(a, &lay_hand(a, at)?));
    cx.facet("vast", VAST, 5, |_| vast(Cfg::layout(false), 280), check_graph);
}
