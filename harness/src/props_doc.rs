//! C37, C38: documents and modules built by hand.
use crate::gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::run::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use seiren::erd;
use seiren::geometry::{Orientation, Point, Rect};
use seiren::layout::SimpleLayoutEngine;
use seiren::mir::{self, NodeId};
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C37
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    /// A row that belongs to no table.
    Row,
    /// A table that is not in the body, with at least one row.
    Table(u8),
    /// Make a loose row the last of a table.
    AttachRow(u16, u16),
    /// Append a loose table to the body.
    AttachTable(u16),
    /// An edge between any two shapes.
    Edge(u16, u16),
    Lay,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Loose {
    pub ast: Ast,
    pub ops: Vec<DOp>,
}
/// A shape of the document under construction: a row's parent is a shape, a table's is the body.
#[derive(Clone, Debug)]
struct Sh {
    table: bool,
    parent: Option<Option<usize>>,
}
impl Sh {
    fn placed(&self, all: &[Sh]) -> bool {
        match self.parent {
            Some(None) => true,
            Some(Some(t)) => all[t].parent.is_some(),
            None => false,
        }
    }
}
#[derive(Clone, Debug)]
enum Act {
    Create(usize),
    Attach(usize),
    Edge(usize, usize),
    Lay,
}
/// What the operations do: the shapes in order of creation, and the steps.
fn plan(base: Vec<Sh>, ops: &[DOp]) -> (Vec<Sh>, Vec<Act>) {
    let (mut shapes, mut acts) = (base, vec![]);
    for op in ops {
        match op {
            DOp::Row => {
                acts.push(Act::Create(shapes.len()));
                shapes.push(Sh { table: false, parent: None });
            }
            DOp::Table(rows) => {
                let t = shapes.len();
                acts.push(Act::Create(t));
                shapes.push(Sh { table: true, parent: None });
                for _ in 0..1 + rows % 5 {
                    acts.push(Act::Create(shapes.len()));
                    acts.push(Act::Attach(shapes.len()));
                    shapes.push(Sh { table: false, parent: Some(Some(t)) });
                }
            }
            DOp::AttachRow(r, t) => {
                let rows: Vec<usize> = (0..shapes.len()).filter(|i| !shapes[*i].table && shapes[*i].parent.is_none()).collect();
                let tables: Vec<usize> = (0..shapes.len()).filter(|i| shapes[*i].table).collect();
                if !rows.is_empty() && !tables.is_empty() {
                    let r = rows[*r as usize % rows.len()];
                    shapes[r].parent = Some(Some(tables[*t as usize % tables.len()]));
                    acts.push(Act::Attach(r));
                }
            }
            DOp::AttachTable(t) => {
                let tables: Vec<usize> = (0..shapes.len()).filter(|i| shapes[*i].table && shapes[*i].parent.is_none()).collect();
                if !tables.is_empty() {
                    let t = tables[*t as usize % tables.len()];
                    shapes[t].parent = Some(None);
                    acts.push(Act::Attach(t));
                }
            }
            DOp::Edge(a, b) => {
                if !shapes.is_empty() {
                    acts.push(Act::Edge(*a as usize % shapes.len(), *b as usize % shapes.len()));
                }
            }
            DOp::Lay => acts.push(Act::Lay),
        }
    }
    (shapes, acts)
}
fn base_shapes(doc: &mir::Document) -> (Vec<Sh>, Vec<NodeId>) {
    let (mut shapes, mut ids) = (vec![], vec![]);
    for t in doc.body().children() {
        let k = shapes.len();
        shapes.push(Sh { table: true, parent: Some(None) });
        ids.push(t);
        for r in doc.get_node(t).map(|n| n.children().collect::<Vec<_>>()).unwrap_or_default() {
            shapes.push(Sh { table: false, parent: Some(Some(k)) });
            ids.push(r);
        }
    }
    (shapes, ids)
}
fn relay(doc: &mut mir::Document, engine: &mut SimpleLayoutEngine) -> Result<Option<Rect>, Fail> {
    use seiren::layout::LayoutEngine;
    sut("layout", || {
        let v = engine.place_nodes(doc);
        engine.place_terminal_ports(doc);
        engine.draw_edge_path(doc);
        v
    })
}
/// The SVG with the ids it declares renamed by their order, for what they are called is nobody's business.
fn rename_ids(svg: &[u8]) -> String {
    let mut svg = String::from_utf8_lossy(svg).into_owned();
    let ids: Vec<String> = svg.split(" id=\"").skip(1).filter_map(|s| s.split('"').next()).map(String::from).collect();
    for (i, id) in ids.iter().enumerate() {
        for (a, z) in [(" id=\"", "\""), ("url(#", ")")] {
            svg = svg.replace(&format!("{}{}{}", a, id, z), &format!("{}~{}{}", a, i, z));
        }
    }
    svg
}
struct Built {
    doc: mir::Document,
    ids: Vec<Option<NodeId>>,
    /// For every edge step, whether the document has it.
    edges: Vec<bool>,
    view_box: Option<Rect>,
}
/// Follows the plan; with `only_placed`, without the shapes that are loose in the end, and the edges with such an end.
fn build(ast: &Ast, shapes: &[Sh], acts: &[Act], only_placed: bool) -> Result<Built, Fail> {
    let mut doc = to_doc(ast)?;
    let (base, ids) = base_shapes(&doc);
    ensure!(base.len() <= shapes.len(), "a document of {} shapes", base.len());
    let mut ids: Vec<Option<NodeId>> = ids.into_iter().map(Some).collect();
    ids.resize(shapes.len(), None);
    let keep = |i: usize| !only_placed || shapes[i].placed(shapes);
    let mut edges = vec![];
    let mut engine = sut("new", SimpleLayoutEngine::new)?;
    for a in acts {
        match a {
            Act::Create(i) if keep(*i) => {
                ids[*i] = Some(if shapes[*i].table {
                    doc.create_record(mir::RecordShapeBuilder::default().rounded(true).build().unwrap())
                } else {
                    let t = mir::TextSpanBuilder::default().text(format!("shape {}", i)).build().unwrap();
                    doc.create_field(mir::FieldShapeBuilder::default().title(t).build().unwrap())
                });
            }
            Act::Attach(i) if keep(*i) => match (shapes[*i].parent, ids[*i]) {
                (Some(None), Some(id)) => doc.body_mut().append_child(id),
                (Some(Some(t)), Some(id)) => {
                    let Some(n) = ids[t].and_then(|t| doc.get_node_mut(t)) else { fail!("lost table") };
                    n.append_child(id)
                }
                _ => fail!("bad plan"),
            },
            Act::Edge(x, y) => {
                let ok = keep(*x) && keep(*y);
                edges.push(ok);
                if ok {
                    let (Some(s), Some(t)) = (ids[*x], ids[*y]) else { fail!("lost shape") };
                    doc.add_edge(mir::EdgeData::new(s, t, None));
                }
            }
            Act::Lay if !only_placed => {
                relay(&mut doc, &mut engine)?;
            }
            _ => {}
        }
    }
    let view_box = relay(&mut doc, &mut engine)?;
    Ok(Built { doc, ids, edges, view_box })
}
type Port = (Orientation, Point);
fn ports_of(n: &mir::NodeData) -> Vec<Port> {
    let mut v: Vec<Port> = n.terminal_ports().map(|p| (p.orientation(), *p.location())).collect();
    v.sort_by_key(|p| (p.0.to_string(), p.1.x.to_bits(), p.1.y.to_bits()));
    v
}
fn check_loose(c: &Loose) -> Checked {
    let (base, _) = base_shapes(&to_doc(&c.ast)?);
    let (shapes, acts) = plan(base, &c.ops);
    let base_edges = c.ast.resolved().len();
    let all = build(&c.ast, &shapes, &acts, false)?;
    let twin = build(&c.ast, &shapes, &acts, true)?;
    ensure!(all.view_box == twin.view_box, "shapes outside the diagram turn its view box {:?} into {:?}", twin.view_box, all.view_box);
    let mut loose = 0;
    for (i, s) in shapes.iter().enumerate() {
        let Some(n) = all.ids[i].and_then(|id| all.doc.get_node(id)) else { fail!("shape #{} is lost", i) };
        if s.placed(&shapes) {
            let Some(m) = twin.ids[i].and_then(|id| twin.doc.get_node(id)) else { fail!("shape #{} is lost", i) };
            ensure!(n.rect().is_some() && n.rect() == m.rect(), "shape #{} is at {:?} with, and at {:?} without shapes outside the diagram", i, n.rect(), m.rect());
            ensure!(ports_of(n) == ports_of(m), "shape #{} has connection points {:?} with, and {:?} without shapes outside the diagram", i, ports_of(n), ports_of(m));
        } else {
            loose += 1;
            ensure!(n.rect().is_none() && n.terminal_ports().count() == 0, "shape #{} is not part of the diagram, but has the rectangle {:?} and {} connection points", i, n.rect(), n.terminal_ports().count());
        }
    }
    let have = vec![true; base_edges].into_iter().chain(twin.edges.iter().copied());
    let mut others = twin.doc.edges();
    let (mut undrawn, mut drawn) = (0, 0);
    ensure!(all.doc.edges().count() == base_edges + twin.edges.len(), "{} edges instead of {}", all.doc.edges().count(), base_edges + twin.edges.len());
    for (k, (e, has)) in all.doc.edges().zip(have).enumerate() {
        if !has {
            undrawn += 1;
            ensure!(e.path_points().is_none(), "edge #{} has an end outside the diagram, but a route: {}", k, pts(e.path_points().unwrap()));
            continue;
        }
        drawn += 1;
        let Some(o) = others.next() else { fail!("an edge is lost") };
        let (Some(p), Some(q)) = (e.path_points(), o.path_points()) else { fail!("edge #{} has no route", k) };
        ensure!(p.len() >= 2, "edge #{} has a route of {} points", k, p.len());
        for (id, at) in [(e.source_id(), p.first()), (e.target_id(), p.last())] {
            let n = all.doc.get_node(id).ok_or_else(|| Fail("lost node".into()))?;
            ensure!(n.terminal_ports().any(|t| Some(t.location()) == at), "edge #{}: {:?} is no connection point of its end", k, at);
        }
        let (x, y) = (path_len(p), path_len(q));
        ensure!(x < y + p.len() as f64, "edges that can't be drawn lengthen the route of edge #{} from {} to {}", k, y, x);
        if twin.edges.iter().all(|x| *x) {
            ensure!(p == q, "edge #{} has the route {} with, and {} without shapes outside the diagram", k, pts(p), pts(q));
        }
    }
    if undrawn == 0 {
        let (a, b) = (render(&all.doc, all.view_box, None)?, render(&twin.doc, twin.view_box, None)?);
        ensure!(rename_ids(&a) == rename_ids(&b), "shapes outside the diagram change the drawing");
    }
    Ok(Tags::new(loose > 0 || undrawn > 0)
        .class(loose > 0, "loose-shapes")
        .class(undrawn > 0, "undrawable-edges")
        .class(undrawn > 0 && drawn > 0, "both-kinds-of-edges")
        .class(acts.iter().any(|a| matches!(a, Act::Lay)), "laid-out-in-between")
        .class(acts.iter().any(|a| matches!(a, Act::Attach(i) if shapes[*i].table)), "table-attached"))
}
pub fn c37(cx: &mut Ctx) {
    fn ops(n: usize, max: u16) -> BoxedStrategy<Vec<DOp>> {
        let k = move || 0..max;
        vec(
            prop_oneof![
                3 => Just(DOp::Row),
                3 => any::<u8>().prop_map(DOp::Table),
                3 => (k(), k()).prop_map(|(a, b)| DOp::AttachRow(a, b)),
                2 => k().prop_map(DOp::AttachTable),
                6 => (k(), k()).prop_map(|(a, b)| DOp::Edge(a, b)),
                1 => Just(DOp::Lay),
            ],
            0..n,
        )
        .boxed()
    }
    const RULE: &str = "modules extended by loose rows and tables, edges to them, and layouts in between; non-trivial: a shape is loose or an edge cannot be drawn in the end";
    cx.facet("histories", RULE, 6_000, |big| {
        (ast(Cfg { tables: 5, fields: 4, rels: 4, dangling: false, ..Cfg::plain() }), ops(if big { 40 } else { 16 }, 60)).prop_map(|(ast, ops)| Loose { ast, ops }).boxed()
    }, check_loose);
    cx.facet("vast", "the same with hundreds of steps", 12, |_| {
        (ast(Cfg { tables: 5, fields: 4, rels: 4, dangling: false, ..Cfg::plain() }), ops(300, 2_000)).prop_map(|(ast, ops)| Loose { ast, ops }).boxed()
    }, check_loose);
}

// ---------------------------------------------------------------- C38
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Entity(String),
    /// Add a field to the definition under construction (which is added to the module by `Finish`).
    Field(Field),
    Finish(bool),
    Rel(End, End, bool),
    /// Go on with a copy; the original is checked in the end.
    Copy,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Modules {
    pub name: Option<String>,
    pub ops: Vec<MOp>,
}
fn check_modules(c: &Modules) -> Checked {
    let mut m = sut("new", || erd::Module::new(c.name.clone()))?;
    let mut want = Ast { name: c.name.clone(), entries: vec![] };
    let mut open: Option<(erd::EntityDefinition, Table)> = None;
    let mut kept: Vec<(erd::Module, Ast)> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            MOp::Entity(n) => open = Some((sut("new", || erd::EntityDefinition::new(n.clone()))?, Table { name: n.clone(), fields: vec![] })),
            MOp::Field(f) => {
                if let Some((d, t)) = &mut open {
                    sut("add_field", || d.add_field(field_to_erd(f)))?;
                    t.fields.push(f.clone());
                    ensure!(d.name() == t.name && d.fields().len() == t.fields.len(), "the definition of {:?} has {} fields instead of {}", d.name(), d.fields().len(), t.fields.len());
                }
            }
            MOp::Finish(entry) => {
                if let Some((d, t)) = open.take() {
                    sut("add", || if *entry { m.add_entry(erd::ModuleEntry::EntityDefinition(d)) } else { m.add_entity_definition(d) })?;
                    want.entries.push(Entry::Table(t));
                }
            }
            MOp::Rel(a, b, entry) => {
                let r = erd::EntityRelation::new(end_to_erd(a), end_to_erd(b));
                ensure!(*r.start_path() == end_to_erd(a) && *r.end_path() == end_to_erd(b), "relation {:?} has other ends", r);
                sut("add", || if *entry { m.add_entry(erd::ModuleEntry::EntityRelation(r)) } else { m.add_entity_relation(r) })?;
                want.entries.push(Entry::Rel(a.clone(), b.clone()));
            }
            MOp::Copy => kept.push((std::mem::replace(&mut m, erd::Module::new(None)), want.clone())),
        }
        if let MOp::Copy = op {
            m = kept.last().unwrap().0.clone();
        }
        if i % 17 == 0 || i + 1 == c.ops.len() {
            let got = sut("reading", || Ast::from_erd(&m))?;
            ensure!(got == want, "the module holds {:?} instead of {:?}", got, want);
            ensure!(m.entries().len() == want.entries.len(), "{} entries instead of {}", m.entries().len(), want.entries.len());
        }
        if i % 5 == 0 {
            // reading is without effect
            let _ = (sut("into_mir", || m.into_mir())?, sut("display", || m.to_string())?);
        }
    }
    kept.push((m, want));
    for (m, want) in &kept {
        let got = sut("reading", || Ast::from_erd(m))?;
        ensure!(got == *want, "a module holds {:?} instead of {:?}", got, want);
    }
    let n = kept.last().unwrap().1.entries.len();
    Ok(Tags::new(n > 1).class(kept.len() > 1, "copied"))
}
pub fn c38(cx: &mut Ctx) {
    fn ops(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<MOp>> {
        let name = || prop_oneof![3 => proptest::sample::select(vec!["a", "b", "users", "id", ""]).prop_map(String::from), 1 => any_name()].boxed();
        let end = move || prop_oneof![name().prop_map(End::Entity), (name(), name()).prop_map(|(a, b)| End::Field(a, b))];
        vec(
            prop_oneof![
                3 => name().prop_map(MOp::Entity),
                5 => field(name()).prop_map(MOp::Field),
                4 => any::<bool>().prop_map(MOp::Finish),
                3 => (end(), end(), any::<bool>()).prop_map(|(a, b, e)| MOp::Rel(a, b, e)),
                1 => Just(MOp::Copy),
            ],
            n,
        )
        .boxed()
    }
    const RULE: &str = "random additions of entities, fields and relations, and copies, against a list model; non-trivial: at least two entries";
    cx.facet("histories", RULE, 15_000, |big| (proptest::option::of(any_name()), ops(0..if big { 80 } else { 30 })).prop_map(|(name, ops)| Modules { name, ops }).boxed(), check_modules);
    cx.facet("vast", "the same with hundreds of steps", 60, |_| (proptest::option::of(any_name()), ops(300..2_000)).prop_map(|(name, ops)| Modules { name, ops }).boxed(), check_modules);
}
