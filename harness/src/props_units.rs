//! C22, C23, C26-C28: geometry, colours, paths, the document store.
use crate::gen::Blocks;
use crate::run::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::geometry::{Orientation, Path, PathCommand, Point, Rect, Size};
use seiren::mir::{self, Document, NodeId, ShapeKind};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

// ---------------------------------------------------------------- C22
/// Coordinates in quarters, so that f32 arithmetic on them is exact and the oracle can use integers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Clip {
    pub rect: (i64, i64, i64, i64),
    pub a: (i64, i64),
    pub b: (i64, i64),
}
fn f(v: i64) -> f32 {
    v as f32 / 4.0
}
fn coord(range: i64) -> BoxedStrategy<i64> {
    (-range..=range).boxed()
}
fn clip(range: i64) -> BoxedStrategy<Clip> {
    let c = || coord(range);
    let size = move || prop_oneof![8 => 1..=range, 1 => Just(0i64)];
    // ends: anywhere, on the rectangle's lines, or equal to the other end's coordinate
    let end = move || ((c(), 0u8..8), (c(), 0u8..8));
    ((c(), c(), size(), size()), end(), end(), 0u8..6)
        .prop_map(|(rect, ea, eb, par)| {
            let (x, y, w, h) = rect;
            let place = |((cx, kx), (cy, ky)): ((i64, u8), (i64, u8))| {
                let px = match kx {
                    0 => x,
                    1 => x + w,
                    2 => x + w / 2,
                    _ => cx,
                };
                let py = match ky {
                    0 => y,
                    1 => y + h,
                    2 => y + h / 2,
                    _ => cy,
                };
                (px, py)
            };
            let a = place(ea);
            let mut b = place(eb);
            match par {
                0 | 1 => b.0 = a.0,
                2 | 3 => b.1 = a.1,
                _ => {}
            }
            Clip { rect, a, b }
        })
        .boxed()
}
#[derive(Clone, Copy)]
struct Frac(i128, i128); // denominator > 0
impl Frac {
    fn new(n: i64, d: i64) -> Frac {
        if d < 0 {
            Frac(-(n as i128), -(d as i128))
        } else {
            Frac(n as i128, d as i128)
        }
    }
    fn lt(self, o: Frac) -> bool {
        self.0 * o.1 < o.0 * self.1
    }
    fn eq(self, o: Frac) -> bool {
        self.0 * o.1 == o.0 * self.1
    }
    fn f(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}
enum Exact {
    Miss,
    Inside,
    Part(f64, f64),
    Unclear,
}
fn exact(c: &Clip) -> Exact {
    let (x, y, w, h) = c.rect;
    let (mut lo, mut hi) = (Frac(0, 1), Frac(1, 1));
    for (p, d, l, u) in [(c.a.0, c.b.0 - c.a.0, x, x + w), (c.a.1, c.b.1 - c.a.1, y, y + h)] {
        if d == 0 {
            if p < l || p > u {
                return Exact::Miss;
            }
            continue;
        }
        let (mut s, mut t) = (Frac::new(l - p, d), Frac::new(u - p, d));
        if t.lt(s) {
            std::mem::swap(&mut s, &mut t);
        }
        if lo.lt(s) {
            lo = s
        }
        if t.lt(hi) {
            hi = t
        }
    }
    let inside = |p: (i64, i64)| p.0 > x && p.0 < x + w && p.1 > y && p.1 < y + h;
    if inside(c.a) && inside(c.b) {
        return Exact::Inside;
    }
    let slanted = c.a.0 != c.b.0 && c.a.1 != c.b.1;
    let at_end = lo.eq(hi) && (lo.eq(Frac(0, 1)) || lo.eq(Frac(1, 1)));
    if slanted && !at_end && (lo.f() - hi.f()).abs() < 1e-4 {
        // within the rounding of f32
        return Exact::Unclear;
    }
    if hi.lt(lo) {
        Exact::Miss
    } else {
        Exact::Part(lo.f(), hi.f())
    }
}
fn check_clip(c: &Clip) -> Checked {
    let r = Rect::new(Point::new(f(c.rect.0), f(c.rect.1)), Size::new(f(c.rect.2), f(c.rect.3)));
    let (a, b) = (Point::new(f(c.a.0), f(c.a.1)), Point::new(f(c.b.0), f(c.b.1)));
    let (there, back) = sut("intersected_line", || (r.intersected_line(&a, &b), r.intersected_line(&b, &a)))?;
    let (i1, i2) = sut("intersects_line", || (r.intersects_line(&a, &b), r.intersects_line(&b, &a)))?;
    let ctx = || format!("rectangle {:?}, segment {} - {}", r, a, b);
    ensure!(i1 == there.is_some() && i2 == back.is_some(), "intersects_line and intersected_line disagree: {}", ctx());
    let ex = exact(c);
    if matches!(ex, Exact::Unclear) {
        return Ok(Tags::new(false).class(true, "within-rounding"));
    }
    ensure!(i1 == i2, "reported {} one way and {} the other: {}", i1, i2, ctx());
    let want = matches!(ex, Exact::Part(..));
    ensure!(i1 == want, "reported {}, but it is {}: {}", i1, want, ctx());
    if let Exact::Part(lo, hi) = ex {
        let scale = [a.x, a.y, b.x, b.y, r.origin.x, r.origin.y].iter().fold(1.0f64, |m, v| m.max(v.abs() as f64));
        let at = |t: f64| ((a.x as f64) + t * (b.x as f64 - a.x as f64), (a.y as f64) + t * (b.y as f64 - a.y as f64));
        let (p, q) = (at(lo), at(hi));
        let near = |g: &Point, w: (f64, f64)| (g.x as f64 - w.0).abs() <= scale * 2e-5 + 1e-4 && (g.y as f64 - w.1).abs() <= scale * 2e-5 + 1e-4;
        for got in [there.unwrap(), back.unwrap()] {
            let ok = near(&got.0, p) && near(&got.1, q) || near(&got.0, q) && near(&got.1, p);
            ensure!(ok, "reported points {} and {}, expected ({}, {}) and ({}, {}): {}", got.0, got.1, p.0, p.1, q.0, q.1, ctx());
        }
    }
    let slanted = c.a.0 != c.b.0 && c.a.1 != c.b.1;
    Ok(Tags::new(want || matches!(ex, Exact::Inside))
        .class(want, "intersects")
        .class(matches!(ex, Exact::Inside), "inside")
        .class(matches!(ex, Exact::Miss), "misses")
        .class(slanted, "slanted")
        .class(c.a == c.b, "point")
        .class(c.rect.2 == 0 || c.rect.3 == 0, "empty-rectangle"))
}
pub fn c22(cx: &mut Ctx) {
    let rule = "non-trivial: the segment meets the rectangle";
    cx.facet("tiny-grid", rule, 400_000, |_| clip(6), check_clip);
    cx.facet("small", rule, 200_000, |_| clip(60), check_clip);
    cx.facet("page", rule, 100_000, |_| clip(8_000), check_clip);
    cx.facet("wide", rule, 50_000, |_| clip(400_000), check_clip);
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Laws {
    pub rect: (i64, i64, i64, i64),
    pub d: (i64, i64),
    pub p: (i64, i64),
    pub q: (i64, i64),
    pub r: (i64, i64),
}
fn check_laws(c: &Laws) -> Checked {
    let (x, y, w, h) = c.rect;
    let r = Rect::new(Point::new(f(x), f(y)), Size::new(f(w), f(h)));
    let got = sut("inset_by", || r.inset_by(f(c.d.0), f(c.d.1)))?;
    let (dx, dy) = c.d;
    let want = Rect::new(Point::new(f(x + dx), f(y + dy)), Size::new(f((w - 2 * dx).max(0)), f((h - 2 * dy).max(0))));
    ensure!(got == want, "{:?} inset by ({}, {}) is {:?}, expected {:?}", r, f(dx), f(dy), got, want);
    for (name, got, want) in [
        ("min_x", r.min_x(), f(x)),
        ("min_y", r.min_y(), f(y)),
        ("max_x", r.max_x(), f(x + w)),
        ("max_y", r.max_y(), f(y + h)),
        ("mid_x", r.mid_x(), f(2 * x + w) / 2.0),
        ("mid_y", r.mid_y(), f(2 * y + h) / 2.0),
        ("width", r.width(), f(w)),
        ("height", r.height(), f(h)),
        ("center.x", r.center().x, f(2 * x + w) / 2.0),
        ("center.y", r.center().y, f(2 * y + h) / 2.0),
        ("origin.x", r.origin().x, f(x)),
        ("origin.y", r.origin().y, f(y)),
        ("size.width", r.size().width, f(w)),
        ("size.height", r.size().height, f(h)),
    ] {
        ensure!(got == want, "{} of {:?} is {}, expected {}", name, r, got, want);
    }
    let p = Point::new(f(c.p.0), f(c.p.1));
    let inside = c.p.0 >= x && c.p.0 <= x + w && c.p.1 >= y && c.p.1 <= y + h;
    if w > 0 && h > 0 {
        let got = sut("contains_point", || r.contains_point(&p))?;
        ensure!(got == inside, "{:?} contains {}: {}, expected {}", r, p, got, inside);
    }
    let (q, s) = (Point::new(f(c.q.0), f(c.q.1)), Point::new(f(c.r.0), f(c.r.1)));
    let d = |a: &Point, b: &Point| a.distance(b) as f64;
    let want = (((c.p.0 - c.q.0) as f64 / 4.0).powi(2) + ((c.p.1 - c.q.1) as f64 / 4.0).powi(2)).sqrt();
    ensure!((d(&p, &q) - want).abs() <= want * 1e-6, "distance {} - {} is {}, expected {}", p, q, d(&p, &q), want);
    ensure!(d(&p, &q) == d(&q, &p), "distance {} - {} is not symmetric", p, q);
    ensure!(d(&p, &q) >= 0.0 && (d(&p, &q) == 0.0) == (c.p == c.q), "distance {} - {} is {}", p, q, d(&p, &q));
    ensure!(d(&p, &s) <= (d(&p, &q) + d(&q, &s)) * (1.0 + 1e-5), "distance {} - {} is longer than by way of {}", p, s, q);
    // directions
    let mut seg = false;
    for b in [Point::new(q.x, p.y), Point::new(p.x, q.y)] {
        if b == p {
            continue;
        }
        seg = true;
        let want = if b.x < p.x {
            Orientation::Left
        } else if b.x > p.x {
            Orientation::Right
        } else if b.y < p.y {
            Orientation::Up
        } else {
            Orientation::Down
        };
        let back = match want {
            Orientation::Left => Orientation::Right,
            Orientation::Right => Orientation::Left,
            Orientation::Up => Orientation::Down,
            Orientation::Down => Orientation::Up,
        };
        let (g1, g2) = (p.orthogonal_direction(&b), b.orthogonal_direction(&p));
        ensure!(g1 == want && g2 == back, "direction {} to {} is {}, back {}; expected {} and {}", p, b, g1, g2, want, back);
    }
    Ok(Tags::new(seg && w > 0 && h > 0)
        .class(inside, "contained")
        .class(c.p.0 == x || c.p.0 == x + w, "on-edge-line")
        .class(2 * dx > w || 2 * dy > h, "inset-below-zero")
        .class(dx < 0 || dy < 0, "outset"))
}
pub fn c23(cx: &mut Ctx) {
    fn laws(range: i64) -> BoxedStrategy<Laws> {
        let c = || coord(range);
        let pt = || (c(), c());
        ((c(), c(), 0..=range, 0..=range), pt(), pt(), pt(), pt(), 0u8..10, 0u8..10)
            .prop_map(|(rect, d, mut p, q, r, kx, ky)| {
                match kx {
                    0 => p.0 = rect.0,
                    1 => p.0 = rect.0 + rect.2,
                    2 | 3 => p.0 = rect.0 + rect.2 / 2,
                    _ => {}
                }
                match ky {
                    0 => p.1 = rect.1,
                    1 => p.1 = rect.1 + rect.3,
                    2 | 3 => p.1 = rect.1 + rect.3 / 2,
                    _ => {}
                }
                Laws { rect, d, p, q, r }
            })
            .boxed()
    }
    let rule = "non-trivial: a non-empty rectangle and a proper segment";
    cx.facet("tiny-grid", rule, 300_000, |_| laws(6), check_laws);
    cx.facet("page", rule, 200_000, |_| laws(8_000), check_laws);
}

// ---------------------------------------------------------------- C26
pub fn c26(cx: &mut Ctx) {
    fn check_rgb(r: u8, g: u8, b: u8) -> Result<(), Fail> {
        let want = format!("#{:02X}{:02X}{:02X}", r, g, b);
        let c = RGBColor::new(r, g, b);
        let (s, t) = (c.to_string(), WebColor::RGB(c.clone()).to_string());
        ensure!((c.red, c.green, c.blue) == (r, g, b), "components of {} {} {} are stored as {:?}", r, g, b, c);
        ensure!(s == want && t == want, "({}, {}, {}) is written {:?} and {:?}, expected {:?}", r, g, b, s, t, want);
        let back = |i: usize| u8::from_str_radix(&s[i..i + 2], 16);
        ensure!((back(1), back(3), back(5)) == (Ok(r), Ok(g), Ok(b)), "{:?} does not read back", s);
        Ok(())
    }
    cx.facet("rgb", "random components; non-trivial: all", 300_000, |_| any::<(u8, u8, u8)>().boxed(), |(r, g, b)| {
        sut("display", || check_rgb(*r, *g, *b))??;
        Ok(Tags::new(true).class(*r < 16 || *g < 16 || *b < 16, "leading-zero"))
    });
    cx.facet("every-colour", "one red component in turn with all the other components, which takes all 16777216 colours in 256 cases; non-trivial: all", 26, |_| Blocks { bits: 24, blocks: 256 }.boxed(), |s| {
        for v in s.from..s.to {
            check_rgb((v >> 16) as u8, (v >> 8) as u8, v as u8)?;
        }
        Ok(Tags::new(true))
    });
    cx.facet("named", "the named colours, bare and wrapped; non-trivial: all", 64, |_| any::<bool>().boxed(), |w| {
        let (c, want) = if *w { (NamedColor::White, "white") } else { (NamedColor::Black, "black") };
        ensure!(c.to_string() == want, "{:?} is written {:?}", c, c.to_string());
        ensure!(WebColor::Named(c).to_string() == want, "wrapped {:?} is written {:?}", c, WebColor::Named(c).to_string());
        ensure!(WebColor::default().to_string() == "black", "the default colour is written {:?}", WebColor::default().to_string());
        Ok(Tags::new(true))
    });
}

// ---------------------------------------------------------------- C27
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PCmd {
    Move(f32, f32),
    Line(f32, f32),
    Quad(f32, f32, f32, f32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathOps {
    pub start: (f32, f32),
    pub ops: Vec<PCmd>,
}
pub fn c27(cx: &mut Ctx) {
    fn strat(big: bool) -> BoxedStrategy<PathOps> {
        let n = || prop_oneof![3 => (-8i32..8).prop_map(|v| v as f32), 2 => (-1e6f32..1e6f32).boxed()];
        let op = prop_oneof![
            (n(), n()).prop_map(|(x, y)| PCmd::Move(x, y)),
            (n(), n()).prop_map(|(x, y)| PCmd::Line(x, y)),
            (n(), n(), n(), n()).prop_map(|(a, b, x, y)| PCmd::Quad(a, b, x, y)),
        ];
        ((n(), n()), vec(op, 0..if big { 200 } else { 24 })).prop_map(|(start, ops)| PathOps { start, ops }).boxed()
    }
    fn apply(path: &mut Path, op: &PCmd) {
        let p = |x: f32, y: f32| Point::new(x, y);
        match op {
            PCmd::Move(x, y) => path.move_to(p(*x, *y)),
            PCmd::Line(x, y) => path.line_to(p(*x, *y)),
            PCmd::Quad(a, b, x, y) => path.quad_to(p(*a, *b), p(*x, *y)),
        }
    }
    fn check(c: &PathOps) -> Checked {
        let p = |x: f32, y: f32| Point::new(x, y);
        let start = p(c.start.0, c.start.1);
        let mut path = sut("new", || Path::new(start))?;
        let mut want = vec![PCmd::Move(c.start.0, c.start.1)];
        for step in 0..=c.ops.len() {
            if step > 200 && step % 97 != 0 && step < c.ops.len() {
                if let Some(op) = c.ops.get(step) {
                    apply(&mut path, op);
                    want.push(op.clone());
                }
                continue;
            }
            let got: Vec<PCmd> = path
                .commands()
                .map(|c| match c {
                    PathCommand::MoveTo(a) => PCmd::Move(a.x, a.y),
                    PathCommand::LineTo(a) => PCmd::Line(a.x, a.y),
                    PathCommand::QuadTo(a, b) => PCmd::Quad(a.x, a.y, b.x, b.y),
                })
                .collect();
            ensure!(path.commands().len() == want.len() && got == want, "after {} commands the path lists {:?}, expected {:?}", step, got, want);
            let (s, e) = sut("ends", || (*path.start_point(), *path.end_point()))?;
            ensure!(s == start, "the start point is {}, expected {}", s, start);
            let end = match want.last().unwrap() {
                PCmd::Move(x, y) | PCmd::Line(x, y) | PCmd::Quad(_, _, x, y) => p(*x, *y),
            };
            ensure!(e == end, "the end point is {}, expected {}", e, end);
            if let Some(op) = c.ops.get(step) {
                apply(&mut path, op);
                want.push(op.clone());
            }
        }
        let copy = path.clone();
        ensure!(format!("{:?}", copy) == format!("{:?}", path), "a copy differs");
        Ok(Tags::new(c.ops.len() >= 2))
    }
    cx.facet("vast", "hundreds to thousands of commands", 60, |_| {
        let n = || (-1e6f32..1e6f32).boxed();
        let op = prop_oneof![(n(), n()).prop_map(|(x, y)| PCmd::Move(x, y)), (n(), n()).prop_map(|(x, y)| PCmd::Line(x, y)), (n(), n(), n(), n()).prop_map(|(a, b, x, y)| PCmd::Quad(a, b, x, y))];
        ((n(), n()), vec(op, 100..1500)).prop_map(|(start, ops)| PathOps { start, ops }).boxed()
    }, check);
    cx.facet("paths", "random command sequences, compared after every command; non-trivial: at least two commands", 60_000, strat, check);
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum DOp {
    Record(u8),
    Field(u8),
    Child(u32, u32),
    BodyChild(u32),
    Origin(u32, Option<(f32, f32)>),
    Size(u32, Option<(f32, f32)>),
    Port(u32, f32, f32, u8),
    Clear(u32),
    Edge(u32, u32, Option<Vec<(f32, f32)>>),
    Route(u32, Option<Vec<(f32, f32)>>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    pub before: Vec<DOp>,
    pub kind: u8,
    pub n: usize,
    pub after: Vec<DOp>,
}
struct MNode {
    id: NodeId,
    kind: Result<u8, u8>, // Ok record, Err field
    children: Vec<NodeId>,
    origin: Option<Point>,
    size: Option<Size>,
    ports: Vec<(mir::TerminalPortId, Point, Orientation)>,
}
struct MEdge {
    id: mir::EdgeId,
    ends: (NodeId, NodeId),
    route: Option<Vec<Point>>,
}
fn points(v: &Option<Vec<(f32, f32)>>) -> Option<Vec<Point>> {
    v.as_ref().map(|v| v.iter().map(|p| Point::new(p.0, p.1)).collect())
}
fn compare(doc: &Document, nodes: &[MNode], body: &[NodeId], edges: &[MEdge]) -> Result<(), Fail> {
    let got: Vec<NodeId> = doc.body().children().collect();
    ensure!(got == body && doc.body().children().len() == body.len(), "the body's children are {:?}, expected {:?}", got, body);
    ensure!(matches!(doc.body().kind(), ShapeKind::Body(_)), "the body is not a body");
    let mut port_ids = HashSet::new();
    for (i, m) in nodes.iter().enumerate() {
        let Some(n) = doc.get_node(m.id) else { fail!("node #{} is gone", i) };
        match (n.kind(), m.kind) {
            (ShapeKind::Record(r), Ok(k)) => ensure!(r.rounded == (k % 2 == 0), "record #{} changed", i),
            (ShapeKind::Field(f), Err(k)) => ensure!(f.title.text == format!("f{}", k), "field #{} changed", i),
            (k, _) => fail!("node #{} has kind {:?}", i, k),
        }
        let ch: Vec<NodeId> = n.children().collect();
        ensure!(ch == m.children && n.children().len() == ch.len(), "children of node #{} are {:?}, expected {:?}", i, ch, m.children);
        ensure!(n.origin == m.origin && n.size == m.size, "geometry of node #{} is {:?} {:?}, expected {:?} {:?}", i, n.origin, n.size, m.origin, m.size);
        let rect = match (m.origin, m.size) {
            (Some(o), Some(s)) => Some(Rect::new(o, s)),
            _ => None,
        };
        ensure!(n.rect() == rect, "rectangle of node #{} is {:?}, expected {:?}", i, n.rect(), rect);
        let ports: Vec<_> = n.terminal_ports().map(|p| (p.id(), *p.location(), p.orientation())).collect();
        ensure!(ports == m.ports && n.terminal_ports().len() == ports.len(), "ports of node #{} are {:?}, expected {:?}", i, ports, m.ports);
        for p in ports {
            ensure!(port_ids.insert(p.0), "port id {} is used twice", p.0);
        }
    }
    let ids: Vec<mir::EdgeId> = doc.edge_ids().collect();
    ensure!(ids == edges.iter().map(|e| e.id).collect::<Vec<_>>() && doc.edge_ids().len() == ids.len(), "edge ids are {:?}", ids);
    let all: Vec<&mir::EdgeData> = doc.edges().collect();
    ensure!(all.len() == edges.len(), "{} edges, expected {}", all.len(), edges.len());
    for (i, m) in edges.iter().enumerate() {
        let Some(e) = doc.edge(m.id) else { fail!("edge #{} is gone", i) };
        for e in [e, all[i]] {
            ensure!((e.source_id(), e.target_id()) == m.ends, "ends of edge #{} are {} {}, expected {:?}", i, e.source_id(), e.target_id(), m.ends);
            ensure!(e.path_points() == m.route.as_deref(), "route of edge #{} is {:?}, expected {:?}", i, e.path_points(), m.route);
        }
        ensure!(doc.edge_endpoints(m.id) == Some(m.ends), "edge_endpoints of edge #{} is {:?}, expected {:?}", i, doc.edge_endpoints(m.id), m.ends);
    }
    Ok(())
}
pub fn c28(cx: &mut Ctx) {
    fn strat(big: bool) -> BoxedStrategy<Vec<DOp>> {
        vec(dop(), 0..if big { 160 } else { 40 }).boxed()
    }
    fn dop() -> BoxedStrategy<DOp> {
        let n = || (-20i32..20).prop_map(|v| v as f32);
        let pt = move || (n(), n());
        let route = move || option::of(vec((n(), n()), 0..5));
        prop_oneof![
            3 => any::<u8>().prop_map(DOp::Record),
            5 => any::<u8>().prop_map(DOp::Field),
            4 => any::<(u32, u32)>().prop_map(|(a, b)| DOp::Child(a, b)),
            3 => any::<u32>().prop_map(DOp::BodyChild),
            2 => (any::<u32>(), option::of(pt())).prop_map(|(a, b)| DOp::Origin(a, b)),
            2 => (any::<u32>(), option::of(pt())).prop_map(|(a, b)| DOp::Size(a, b)),
            4 => (any::<u32>(), n(), n(), 0u8..4).prop_map(|(a, x, y, o)| DOp::Port(a, x, y, o)),
            1 => any::<u32>().prop_map(DOp::Clear),
            4 => (any::<u32>(), any::<u32>(), route()).prop_map(|(a, b, r)| DOp::Edge(a, b, r)),
            3 => (any::<u32>(), route()).prop_map(|(a, r)| DOp::Route(a, r)),
        ]
        .boxed()
    }
    fn check(ops: &Vec<DOp>) -> Checked {
        let mut doc = Document::new();
        let mut nodes: Vec<MNode> = vec![];
        let mut body: Vec<NodeId> = vec![];
        let mut edges: Vec<MEdge> = vec![];
        let mut ids = HashSet::new();
        let mut eids = HashSet::new();
        for (step, op) in ops.iter().enumerate() {
            let n = nodes.len();
            sut("document operation", || -> Result<(), Fail> {
                match op {
                    DOp::Record(k) => {
                        let id = doc.create_record(mir::RecordShapeBuilder::default().rounded(k % 2 == 0).build().unwrap());
                        ensure!(ids.insert(id), "node id {} is used twice", id);
                        nodes.push(MNode { id, kind: Ok(*k), children: vec![], origin: None, size: None, ports: vec![] });
                    }
                    DOp::Field(k) => {
                        let t = mir::TextSpanBuilder::default().text(format!("f{}", k)).build().unwrap();
                        let id = doc.create_field(mir::FieldShapeBuilder::default().title(t).build().unwrap());
                        ensure!(ids.insert(id), "node id {} is used twice", id);
                        nodes.push(MNode { id, kind: Err(*k), children: vec![], origin: None, size: None, ports: vec![] });
                    }
                    _ if n == 0 => {}
                    DOp::Child(a, b) => {
                        let (i, c) = (*a as usize % n, nodes[*b as usize % n].id);
                        doc.get_node_mut(nodes[i].id).ok_or_else(|| Fail("node is gone".into()))?.append_child(c);
                        nodes[i].children.push(c);
                    }
                    DOp::BodyChild(a) => {
                        let c = nodes[*a as usize % n].id;
                        doc.body_mut().append_child(c);
                        body.push(c);
                    }
                    DOp::Origin(a, v) => {
                        let m = &mut nodes[*a as usize % n];
                        m.origin = v.map(|p| Point::new(p.0, p.1));
                        doc.get_node_mut(m.id).ok_or_else(|| Fail("node is gone".into()))?.origin = m.origin;
                    }
                    DOp::Size(a, v) => {
                        let m = &mut nodes[*a as usize % n];
                        m.size = v.map(|p| Size::new(p.0, p.1));
                        doc.get_node_mut(m.id).ok_or_else(|| Fail("node is gone".into()))?.size = m.size;
                    }
                    DOp::Port(a, x, y, o) => {
                        let m = &mut nodes[*a as usize % n];
                        let o = [Orientation::Up, Orientation::Down, Orientation::Left, Orientation::Right][*o as usize % 4];
                        let id = doc.get_node_mut(m.id).ok_or_else(|| Fail("node is gone".into()))?.add_terminal_port(m.id, Point::new(*x, *y), o);
                        m.ports.push((id, Point::new(*x, *y), o));
                    }
                    DOp::Clear(a) => {
                        let m = &mut nodes[*a as usize % n];
                        doc.get_node_mut(m.id).ok_or_else(|| Fail("node is gone".into()))?.clear_terminal_ports();
                        m.ports.clear();
                    }
                    DOp::Edge(a, b, r) => {
                        let ends = (nodes[*a as usize % n].id, nodes[*b as usize % n].id);
                        let id = doc.add_edge(mir::EdgeData::new(ends.0, ends.1, points(r)));
                        ensure!(eids.insert(id), "edge id {} is used twice", id);
                        edges.push(MEdge { id, ends, route: points(r) });
                    }
                    DOp::Route(a, r) => {
                        if !edges.is_empty() {
                            let i = *a as usize % edges.len();
                            doc.edges_mut().nth(i).ok_or_else(|| Fail("edge is gone".into()))?.set_path_points(points(r));
                            edges[i].route = points(r);
                        }
                    }
                }
                Ok(())
            })??;
            if step > 200 && step % (ops.len() / 20).max(97) != 0 && step + 1 < ops.len() {
                continue;
            }
            sut("reading the document", || compare(&doc, &nodes, &body, &edges))??;
        }
        Ok(Tags::new(nodes.len() > 1 && !edges.is_empty()).class(edges.len() > 2, "several-edges").class(nodes.iter().any(|n| n.ports.len() > 1), "several-ports"))
    }
    cx.facet("vast", "hundreds to thousands of operations", 40, |_| vec(dop(), 100..2500).boxed(), check);
    cx.facet("crowded", "one operation on the same node hundreds to tens of thousands of times, between random ones", 6, |_| {
        let n = prop_oneof![3 => 250usize..300, 3 => 1_000usize..1_100, 2 => 4_000usize..4_200, 1 => 65_530usize..65_560];
        (vec(dop(), 10..40), 0u8..6, n, vec(dop(), 1..20)).prop_map(|(before, kind, n, after)| Crowd { before, kind, n, after }).boxed()
    }, |c| {
        let at = |i: usize| (i % 40) as f32;
        let mut ops = vec![DOp::Record(0), DOp::Field(1)];
        ops.extend(c.before.iter().cloned());
        ops.extend((0..c.n).map(|i| match c.kind {
            0 => DOp::Child(0, i as u32),
            1 => DOp::BodyChild(i as u32),
            2 => DOp::Port(0, at(i), at(i / 40), i as u8 % 4),
            3 => DOp::Edge(0, i as u32, if i % 3 == 0 { None } else { Some(vec![(at(i), 0.0), (0.0, 1.0)]) }),
            4 => DOp::Record(i as u8),
            _ => DOp::Field(i as u8),
        }));
        ops.extend(c.after.iter().cloned());
        check(&ops)
    });
    cx.facet("histories", "random operation sequences against a model, compared after every step; non-trivial: several nodes and an edge", 30_000, strat, check);
}
