//! Running seiren: parse, convert, lay out, render.
use crate::model::*;
use crate::run::*;
use seiren::geometry::{Orientation, Point, Rect};
use seiren::layout::{LayoutEngine, RouteGraph, SimpleLayoutEngine};
use seiren::mir;
use seiren::parser;
use seiren::renderer::{Renderer, SVGRenderer};

pub struct Laid {
    pub doc: mir::Document,
    pub engine: SimpleLayoutEngine,
    pub view_box: Option<Rect>,
}

pub fn lay_doc(mut doc: mir::Document) -> Result<Laid, Fail> {
    sut("layout", move || {
        let mut engine = SimpleLayoutEngine::new();
        let view_box = engine.place_nodes(&mut doc);
        engine.place_terminal_ports(&mut doc);
        engine.draw_edge_path(&mut doc);
        Laid { doc, engine, view_box }
    })
}
/// Layout without routes.
pub fn place(a: &Ast) -> Result<Laid, Fail> {
    let mut doc = to_doc(a)?;
    sut("layout", move || {
        let mut engine = SimpleLayoutEngine::new();
        let view_box = engine.place_nodes(&mut doc);
        engine.place_terminal_ports(&mut doc);
        Laid { doc, engine, view_box }
    })
}
pub fn to_doc(a: &Ast) -> Result<mir::Document, Fail> {
    let m = a.to_erd();
    sut("into_mir", || m.into_mir())
}
pub fn lay(a: &Ast) -> Result<Laid, Fail> {
    lay_doc(to_doc(a)?)
}
pub fn render(doc: &mir::Document, view_box: Option<Rect>, graph: Option<&RouteGraph>) -> Result<Vec<u8>, Fail> {
    sut("render", || {
        let mut r = SVGRenderer::new();
        r.view_box = view_box;
        r.edge_route_graph = graph;
        let mut out: Vec<u8> = vec![];
        r.render(doc, &mut out).map(|_| out)
    })?
    .map_err(|e| Fail(format!("render failed: {}", e)))
}
pub fn render_laid(l: &Laid) -> Result<String, Fail> {
    let b = render(&l.doc, l.view_box, None)?;
    String::from_utf8(b).map_err(|_| Fail("SVG is not UTF-8".into()))
}
pub fn parse(src: &str) -> Result<parser::ParseResult, Fail> {
    sut("parse", || parser::parse(src))
}
/// Parses text that must be accepted.
pub fn parse_ok(src: &str) -> Result<seiren::erd::Module, Fail> {
    let (m, e1, e2) = parse(src)?;
    if !e1.is_empty() || !e2.is_empty() {
        return Err(Fail(format!("errors reported: {:?} {:?} for {:?}", e1, e2, src)));
    }
    m.ok_or_else(|| Fail(format!("no module and no error for {:?}", src)))
}

pub fn title(doc: &mir::Document, id: mir::NodeId) -> Option<String> {
    match doc.get_node(id)?.kind() {
        mir::ShapeKind::Field(f) => Some(f.title.text.clone()),
        _ => None,
    }
}

/// Rectangles of all tables (body children), in order.
pub fn table_rects(doc: &mir::Document) -> Result<Vec<Rect>, Fail> {
    doc.body()
        .children()
        .enumerate()
        .map(|(i, id)| {
            doc.get_node(id).and_then(|n| n.rect()).ok_or_else(|| Fail(format!("table #{} has no rectangle after layout", i)))
        })
        .collect()
}

pub fn dir(o: Orientation) -> (f32, f32) {
    match o {
        Orientation::Up => (0.0, -1.0),
        Orientation::Down => (0.0, 1.0),
        Orientation::Left => (-1.0, 0.0),
        Orientation::Right => (1.0, 0.0),
    }
}
pub fn step(a: &Point, b: &Point) -> (f32, f32) {
    let s = |d: f32| if d > 0.0 { 1.0 } else if d < 0.0 { -1.0 } else { 0.0 };
    (s(b.x - a.x), s(b.y - a.y))
}
pub fn pts(p: &[Point]) -> String {
    p.iter().map(|p| format!("({},{})", p.x, p.y)).collect::<Vec<_>>().join(" ")
}
pub fn path_len(p: &[Point]) -> f64 {
    p.windows(2).map(|w| ((w[0].x as f64 - w[1].x as f64).powi(2) + (w[0].y as f64 - w[1].y as f64).powi(2)).sqrt()).sum()
}
