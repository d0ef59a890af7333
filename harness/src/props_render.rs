//! C16-C21: the SVG renderer.
use crate::gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::run::*;
use crate::xml::{self, El};
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use seiren::color::{NamedColor, RGBColor, WebColor};
use seiren::error::BackendError;
use seiren::geometry::{Point, Rect, Size};
use seiren::layout::RouteGraph;
use seiren::mir::{self, NodeId};
use seiren::renderer::{Renderer, SVGRenderer};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{self, Write};

// ---------------------------------------------------------------- documents built node by node
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Col {
    Rgb(u8, u8, u8),
    White,
    Black,
}
impl Col {
    fn real(self) -> WebColor {
        match self {
            Col::Rgb(r, g, b) => WebColor::RGB(RGBColor::new(r, g, b)),
            Col::White => WebColor::Named(NamedColor::White),
            Col::Black => WebColor::Named(NamedColor::Black),
        }
    }
    fn css(self) -> String {
        match self {
            Col::Rgb(r, g, b) => format!("#{:02x}{:02x}{:02x}", r, g, b),
            Col::White => "white".into(),
            Col::Black => "black".into(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Span {
    pub text: String,
    pub color: Option<Col>,
    pub family: Option<u8>,
    pub weight: Option<u8>,
    pub size: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MBadge {
    pub text: String,
    pub color: Option<Col>,
    pub bg: Option<Col>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MRow {
    pub height: f32,
    pub title: Span,
    pub subtitle: Option<Span>,
    pub badge: Option<MBadge>,
    pub bg: Option<Col>,
    pub border: Option<Col>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MTable {
    pub x: f32,
    pub y: f32,
    pub width: f32,
    pub rounded: bool,
    pub bg: Option<Col>,
    pub border: Option<Col>,
    pub rows: Vec<MRow>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MEdge {
    pub a: (u8, u8),
    pub b: (u8, u8),
    pub pts: Vec<(f32, f32)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MDoc {
    pub tables: Vec<MTable>,
    pub edges: Vec<MEdge>,
    /// Create nodes in reverse order, so that ids do not follow the order of the tables.
    pub reversed: bool,
}
const FAMILIES: [(mir::FontFamily, &str); 5] = [
    (mir::FontFamily::SansSerif1, "Arial,sans-serif"),
    (mir::FontFamily::SansSerif2, "Verdana,sans-serif"),
    (mir::FontFamily::SansSerif3, "Trebuchet MS,sans-serif"),
    (mir::FontFamily::Monospace1, "Monaco,Lucida Console,monospace"),
    (mir::FontFamily::Monospace2, "Courier New,monospace"),
];
const WEIGHTS: [(mir::FontWeight, &str); 4] = [
    (mir::FontWeight::Normal, "normal"),
    (mir::FontWeight::Bold, "bold"),
    (mir::FontWeight::Lighter, "lighter"),
    (mir::FontWeight::Bolder, "bolder"),
];
const SIZES: [(mir::FontSize, &str); 8] = [
    (mir::FontSize::XXSmall, "xx-small"),
    (mir::FontSize::XSmall, "x-small"),
    (mir::FontSize::Small, "small"),
    (mir::FontSize::Medium, "medium"),
    (mir::FontSize::Large, "large"),
    (mir::FontSize::XLarge, "x-large"),
    (mir::FontSize::XXLarge, "xx-large"),
    (mir::FontSize::XXXLarge, "xxx-large"),
];
impl Span {
    fn real(&self) -> mir::TextSpan {
        mir::TextSpanBuilder::default()
            .text(self.text.clone())
            .color(self.color.map(|c| c.real()))
            .font_family(self.family.map(|i| FAMILIES[i as usize % 5].0))
            .font_weight(self.weight.map(|i| WEIGHTS[i as usize % 4].0))
            .font_size(self.size.map(|i| SIZES[i as usize % 8].0))
            .build()
            .unwrap()
    }
}
pub struct Built {
    pub doc: mir::Document,
    pub tables: Vec<NodeId>,
    pub rows: Vec<Vec<NodeId>>,
}
impl MDoc {
    pub fn build(&self) -> Built {
        let mut doc = mir::Document::new();
        let n = self.tables.len();
        let mut tables: Vec<Option<NodeId>> = vec![None; n];
        let mut rows: Vec<Vec<NodeId>> = vec![vec![]; n];
        let order: Vec<usize> = if self.reversed { (0..n).rev().collect() } else { (0..n).collect() };
        for i in order {
            let t = &self.tables[i];
            let mut rec = mir::RecordShapeBuilder::default();
            rec.rounded(t.rounded).bg_color(t.bg.map(|c| c.real())).border_color(t.border.map(|c| c.real()));
            let id = doc.create_record(rec.build().unwrap());
            tables[i] = Some(id);
            let mut y = t.y;
            for r in &t.rows {
                let f = mir::FieldShapeBuilder::default()
                    .title(r.title.real())
                    .subtitle(r.subtitle.as_ref().map(|s| s.real()))
                    .badge(r.badge.as_ref().map(|b| {
                        mir::BadgeBuilder::default().text(b.text.clone()).color(b.color.map(|c| c.real())).bg_color(b.bg.map(|c| c.real())).build().unwrap()
                    }))
                    .bg_color(r.bg.map(|c| c.real()))
                    .border_color(r.border.map(|c| c.real()))
                    .build()
                    .unwrap();
                let fid = doc.create_field(f);
                let node = doc.get_node_mut(fid).unwrap();
                node.origin = Some(Point::new(t.x, y));
                node.size = Some(Size::new(t.width, r.height));
                y += r.height;
                rows[i].push(fid);
                doc.get_node_mut(id).unwrap().append_child(fid);
            }
            let node = doc.get_node_mut(id).unwrap();
            node.origin = Some(Point::new(t.x, t.y));
            node.size = Some(Size::new(t.width, y - t.y));
        }
        let tables: Vec<NodeId> = tables.into_iter().map(|t| t.unwrap()).collect();
        for t in &tables {
            doc.body_mut().append_child(*t);
        }
        for e in &self.edges {
            if n == 0 {
                break;
            }
            let pick = |(t, r): (u8, u8)| {
                let i = t as usize % n;
                let k = r as usize % (rows[i].len() + 1);
                if k == 0 {
                    tables[i]
                } else {
                    rows[i][k - 1]
                }
            };
            doc.add_edge(mir::EdgeData::new(pick(e.a), pick(e.b), Some(e.pts.iter().map(|p| Point::new(p.0, p.1)).collect())));
        }
        Built { doc, tables, rows }
    }
}
fn col() -> BoxedStrategy<Col> {
    prop_oneof![1 => Just(Col::White), 1 => Just(Col::Black), 4 => any::<(u8, u8, u8)>().prop_map(|(r, g, b)| Col::Rgb(r, g, b))].boxed()
}
fn span(text: BoxedStrategy<String>) -> BoxedStrategy<Span> {
    (text, option::of(col()), option::of(0u8..5), option::of(0u8..4), option::of(0u8..8))
        .prop_map(|(text, color, family, weight, size)| Span { text, color, family, weight, size })
        .boxed()
}
fn q(lo: i32, hi: i32) -> BoxedStrategy<f32> {
    (lo * 4..=hi * 4).prop_map(|v| v as f32 / 4.0).boxed()
}
/// A rectilinear walk: steps of random length, any two consecutive ones straight or bent.
pub fn walk(max: usize) -> BoxedStrategy<Vec<(f32, f32)>> {
    let len = prop_oneof![4 => q(16, 200), 1 => q(1, 16)];
    ((q(-50, 500), q(-50, 500)), 0u8..4, vec((len, 0u8..5), 1..=max))
        .prop_map(|(start, d0, steps)| {
            let mut p = start;
            let mut d = d0 as i32; // 0 right 1 down 2 left 3 up
            let mut out = vec![p];
            for (i, (l, turn)) in steps.into_iter().enumerate() {
                if i > 0 {
                    d = match turn {
                        0 | 1 => d + 1,
                        2 | 3 => d + 3,
                        _ => d,
                    } % 4;
                }
                match d {
                    0 => p.0 += l,
                    1 => p.1 += l,
                    2 => p.0 -= l,
                    _ => p.1 -= l,
                }
                out.push(p);
            }
            out
        })
        .boxed()
}
pub fn mdoc(text: BoxedStrategy<String>, tables: usize, rows: usize, edges: usize) -> BoxedStrategy<MDoc> {
    let t2 = text.clone();
    let t3 = text.clone();
    let badge = (t3, option::of(col()), option::of(col())).prop_map(|(text, color, bg)| MBadge { text, color, bg });
    let row = (q(20, 80), span(text), option::of(span(t2)), option::of(badge), option::of(col()), option::of(col()))
        .prop_map(|(height, title, subtitle, badge, bg, border)| MRow { height, title, subtitle, badge, bg, border });
    let table = (q(-100, 900), q(-100, 900), q(120, 500), any::<bool>(), option::of(col()), option::of(col()), vec(row, 0..=rows))
        .prop_map(|(x, y, width, rounded, bg, border, rows)| MTable { x, y, width, rounded, bg, border, rows });
    let edge = (any::<(u8, u8)>(), any::<(u8, u8)>(), walk(6)).prop_map(|(a, b, pts)| MEdge { a, b, pts });
    (vec(table, 0..=tables), vec(edge, 0..=edges), any::<bool>())
        .prop_map(|(tables, edges, reversed)| MDoc { tables, edges, reversed })
        .boxed()
}

// ---------------------------------------------------------------- C16
/// Text up to white space and characters that XML cannot carry.
pub fn norm(s: &str) -> String {
    let kept: String = s.chars().filter(|c| xml::xml_char(*c) && *c != '\u{fffd}').collect();
    kept.split(|c| matches!(c, ' ' | '\t' | '\n' | '\r')).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}
pub fn parse_svg(svg: &str) -> Result<El, Fail> {
    let x = xml::parse(svg).map_err(|e| Fail(format!("the SVG is not well-formed: {}", e)))?;
    ensure!(x.name == "svg", "the root element is <{}>", x.name);
    Ok(x)
}
fn texts(x: &El) -> Vec<String> {
    x.els().iter().filter(|e| e.name == "text").map(|e| norm(&e.text())).collect()
}
fn shape(x: &El, out: &mut String) {
    out.push_str(&format!("<{}", x.name));
    for k in x.attrs.keys() {
        out.push_str(&format!(" {}", k));
    }
    out.push('>');
    for e in x.els() {
        shape(e, out)
    }
    out.push_str("</>");
}
fn check_texts(svg: &str, want: &[String], neutral: &str) -> Result<(), Fail> {
    let x = parse_svg(svg)?;
    let got = texts(&x);
    let want: Vec<String> = want.iter().map(|s| norm(s)).collect();
    ensure!(got == want, "the SVG shows the texts {:?}, expected {:?}", got, want);
    for e in x.els() {
        if e.name == "text" {
            ensure!(e.els().is_empty(), "a <text> contains elements");
        }
    }
    // the same document with harmless names has the same elements and attributes
    let n = parse_svg(neutral)?;
    let (mut a, mut b) = (String::new(), String::new());
    shape(&x, &mut a);
    shape(&n, &mut b);
    ensure!(a == b, "names change the elements of the SVG:\n{}\n{}", a, b);
    Ok(())
}
fn special(s: &str) -> bool {
    s.chars().any(|c| !(c.is_ascii_alphanumeric() || c == '_'))
}
fn check_doc(d: &MDoc) -> Checked {
    let b = sut("build", || d.build())?;
    let out = render(&b.doc, None, None)?;
    let svg = String::from_utf8(out).map_err(|_| Fail("the SVG is not UTF-8".into()))?;
    let mut want = vec![];
    let mut plain = d.clone();
    for t in &mut plain.tables {
        for r in &mut t.rows {
            want.push(std::mem::replace(&mut r.title.text, "x".into()));
            if let Some(s) = &mut r.subtitle {
                want.push(std::mem::replace(&mut s.text, "x".into()));
            }
            if let Some(s) = &mut r.badge {
                want.push(std::mem::replace(&mut s.text, "x".into()));
            }
        }
    }
    let p = plain.build();
    let neutral = String::from_utf8(render(&p.doc, None, None)?).map_err(|_| Fail("the SVG is not UTF-8".into()))?;
    check_texts(&svg, &want, &neutral)?;
    Ok(Tags::new(want.iter().any(|w| special(w))).class(want.iter().any(|w| w.contains("]]>")), "cdata-end"))
}
fn check_module_texts(a: &Ast) -> Checked {
    let svg = render_laid(&lay(a)?)?;
    let mut want = vec![];
    let mut plain = a.clone();
    for t in a.tables() {
        want.push(t.name.clone());
        for f in &t.fields {
            want.push(f.name.clone());
            want.push(f.ty.word().into());
            if let Some(k) = f.key {
                want.push(k.word().into());
            }
        }
    }
    // harmless names, in one-to-one correspondence
    let mut map: HashMap<String, String> = HashMap::new();
    let mut ren = |s: &mut String| {
        let k = map.len();
        *s = map.entry(s.clone()).or_insert_with(|| format!("n{}", k)).clone();
    };
    for e in &mut plain.entries {
        match e {
            Entry::Table(t) => {
                ren(&mut t.name);
                for f in &mut t.fields {
                    ren(&mut f.name)
                }
            }
            Entry::Rel(x, y) => {
                for z in [x, y] {
                    match z {
                        End::Entity(n) => ren(n),
                        End::Field(n, f) => {
                            ren(n);
                            ren(f)
                        }
                    }
                }
            }
        }
    }
    let neutral = render_laid(&lay(&plain)?)?;
    check_texts(&svg, &want, &neutral)?;
    Ok(Tags::new(want.iter().any(|w| special(w)))
        .class(want.iter().any(|w| w.contains(['<', '&', '>'])), "markup-characters")
        .class(want.iter().any(|w| w.chars().any(|c| !xml::xml_char(c))), "unrepresentable"))
}
pub fn c16(cx: &mut Ctx) {
    cx.facet("modules", "modules over arbitrary names, through layout; non-trivial: a name has a character other than letters, digits and _", 10_000, |_| {
        ast(Cfg { tables: 3, fields: 4, rels: 2, ..Cfg::any() })
    }, check_module_texts);
    cx.facet("every-character", "all characters of the basic plane, and blocks of the others, at the start, the middle and the end of names; non-trivial: as above", 10, |_| Spans(1024).boxed(), |s| {
        let mut fields = vec![];
        for (i, c) in s.chars().enumerate() {
            let name = match i % 4 {
                0 => format!("{}b", c),
                1 => format!("a{}", c),
                2 => format!("a{}b", c),
                _ => format!("a {} {} b", c, c),
            };
            fields.push(Field { name, ty: Ty::Int, key: None });
        }
        let halves = fields.split_off(fields.len() / 2);
        let t = |n: &str, fields| Entry::Table(Table { name: n.into(), fields });
        check_module_texts(&Ast { name: None, entries: vec![t("x", fields), t("y", halves)] })
    });
    cx.facet("long-names", "names of up to 70000 characters; non-trivial: as above", 60, |_| {
        let n = prop_oneof![2 => 1_000usize..1_100, 2 => 4_000usize..4_200, 1 => 1_000usize..20_000, 1 => 32_700usize..32_800, 2 => 65_400usize..65_600];
        let long = (vec(any_char(), 1..6), n, vec(any_char(), 1..4)).prop_map(|(unit, n, end)| unit.iter().cycle().take(n).chain(&end).collect::<String>());
        let names = prop_oneof![3 => plain_name(), 1 => long].boxed();
        ast(Cfg { names, tables: 2, fields: 3, rels: 1, ..Cfg::any() })
    }, check_module_texts);
    cx.facet("vast", "documents with hundreds of tables or rows; non-trivial as above", 30, |_| prop_oneof![mdoc(any_name(), 300, 1, 2), mdoc(any_name(), 2, 400, 2)].boxed(), check_doc);
    cx.facet("documents", "documents built node by node, arbitrary titles, types and badges; non-trivial as above", 12_000, |_| mdoc(any_name(), 3, 4, 2), check_doc);
}

// ---------------------------------------------------------------- C17
fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-3 * (1.0 + a.abs().max(b.abs()) * 1e-3)
}
fn num(e: &El, k: &str) -> Result<f32, Fail> {
    e.num(k).map_err(Fail)
}
fn rect_is(e: &El, r: &Rect, what: &str) -> Result<(), Fail> {
    ensure!(e.name == "rect", "{}: expected a rect, found <{}>", what, e.name);
    for (k, v) in [("x", r.origin.x), ("y", r.origin.y), ("width", r.size.width), ("height", r.size.height)] {
        let g = num(e, k)?;
        ensure!(close(g, v), "{}: {}={}, expected {}", what, k, g, v);
    }
    Ok(())
}
fn color_is(e: &El, k: &str, c: Option<Col>, what: &str) -> Result<(), Fail> {
    let got = e.a(k).map(|s| s.to_ascii_lowercase());
    let want = c.map(|c| c.css());
    ensure!(got == want, "{}: {}={:?}, expected {:?}", what, k, got, want);
    Ok(())
}
fn text_is(e: &El, s: &Span, anchor: &str, what: &str) -> Result<(), Fail> {
    ensure!(e.name == "text", "{}: expected a text, found <{}>", what, e.name);
    ensure!(norm(&e.text()) == norm(&s.text), "{}: text {:?}, expected {:?}", what, e.text(), s.text);
    color_is(e, "fill", s.color, what)?;
    for (k, v) in [
        ("font-family", s.family.map(|i| FAMILIES[i as usize % 5].1)),
        ("font-weight", s.weight.map(|i| WEIGHTS[i as usize % 4].1)),
        ("font-size", s.size.map(|i| SIZES[i as usize % 8].1)),
    ] {
        ensure!(e.a(k) == v, "{}: {}={:?}, expected {:?}", what, k, e.a(k), v);
    }
    ensure!(e.a("text-anchor").unwrap_or("start") == anchor, "{}: text-anchor {:?}, expected {}", what, e.a("text-anchor"), anchor);
    ensure!(matches!(e.a("dominant-baseline"), Some("middle" | "central")), "{}: not vertically centred", what);
    Ok(())
}
/// The radii of a rectangle's corners: one that is not given equals the other.
fn corners(e: &El) -> Result<(f32, f32), Fail> {
    let of = |a: &str| if e.a(a).is_some_and(|v| v != "auto") { num(e, a).map(Some) } else { Ok(None) };
    let (rx, ry) = (of("rx")?, of("ry")?);
    Ok((rx.or(ry).unwrap_or(0.0), ry.or(rx).unwrap_or(0.0)))
}
fn check_drawing(d: &MDoc, doc: &mir::Document, svg: &str) -> Result<(), Fail> {
    let x = parse_svg(svg)?;
    // clip paths
    let mut clips: HashMap<String, El> = HashMap::new();
    let mut rest: Vec<&El> = vec![];
    for e in x.els() {
        if e.name == "defs" || e.name == "clipPath" {
            let list = if e.name == "defs" { e.els() } else { vec![e] };
            for c in list {
                ensure!(c.name == "clipPath", "<{}> in defs", c.name);
                let Some(id) = c.a("id") else { fail!("clip path without id") };
                ensure!(clips.insert(id.to_string(), c.clone()).is_none(), "two clip paths with id {:?}", id);
            }
        } else {
            rest.push(e);
        }
    }
    let mut it = rest.into_iter();
    let Some(bg) = it.next() else { fail!("nothing drawn") };
    ensure!(bg.name == "rect" && bg.a("width") == Some("100%") && bg.a("height") == Some("100%") && bg.a("fill").is_some(), "the first element is not the page background: {:?}", bg);
    for (i, (t, id)) in d.tables.iter().zip(doc.body().children()).enumerate() {
        let node = doc.get_node(id).ok_or_else(|| Fail("lost table".into()))?;
        let r = node.rect().ok_or_else(|| Fail("table has no rectangle".into()))?;
        let what = format!("table #{}", i);
        let Some(e) = it.next() else { fail!("{} is not drawn", what) };
        rect_is(e, &r, &what)?;
        color_is(e, "fill", t.bg, &what)?;
        color_is(e, "stroke", t.border, &what)?;
        ensure!(e.a("clip-path").is_none(), "{}: background is clipped", what);
        let corner = corners(e)?;
        ensure!((corner.0 > 0.0 && corner.1 > 0.0) == t.rounded, "{}: corners of radius {:?} although rounded is {}", what, corner, t.rounded);
        for (j, (row, rid)) in t.rows.iter().zip(node.children()).enumerate() {
            let what = format!("row #{} of table #{}", j, i);
            let q = doc.get_node(rid).and_then(|n| n.rect()).ok_or_else(|| Fail("row has no rectangle".into()))?;
            let (l, rt, top, mid, bot) = (q.origin.x, q.origin.x + q.size.width, q.origin.y, q.origin.y + q.size.height / 2.0, q.origin.y + q.size.height);
            let mut next = |w: &str| it.next().ok_or_else(|| Fail(format!("{}: {} is not drawn", what, w)));
            if let Some(c) = row.bg {
                let e = next("background")?;
                rect_is(e, &q, &format!("background of {}", what))?;
                color_is(e, "fill", Some(c), &what)?;
                let Some(url) = e.a("clip-path").and_then(|u| u.strip_prefix("url(#")).and_then(|u| u.strip_suffix(')')) else {
                    fail!("{}: background is not clipped: {:?}", what, e.a("clip-path"))
                };
                let Some(clip) = clips.get(url) else { fail!("{}: no clip path {:?}", what, url) };
                let inner = clip.els();
                ensure!(inner.len() == 1, "clip path {:?} has {} elements", url, inner.len());
                rect_is(inner[0], &r, &format!("clip path of {}", what))?;
                ensure!(corners(inner[0])? == corner, "{}: clip path corners {:?} differ from the table's {:?}", what, inner[0].attrs, corner);
            }
            if j > 0 {
                let e = next("separator")?;
                ensure!(e.name == "line", "{}: expected a separator line, found <{}>", what, e.name);
                let (x1, x2, y1, y2) = (num(e, "x1")?, num(e, "x2")?, num(e, "y1")?, num(e, "y2")?);
                ensure!(close(x1.min(x2), l) && close(x1.max(x2), rt) && close(y1, top) && close(y2, top), "{}: separator from ({},{}) to ({},{}), row {:?}", what, x1, y1, x2, y2, q);
                color_is(e, "stroke", row.border, &what)?;
            }
            let e = next("title")?;
            text_is(e, &row.title, "start", &format!("title of {}", what))?;
            let (tx, ty) = (num(e, "x")?, num(e, "y")?);
            ensure!(close(ty, mid) && tx >= l && tx < l + q.size.width / 4.0, "{}: title at ({},{}), row {:?}", what, tx, ty, q);
            if let Some(s) = &row.subtitle {
                let e = next("type")?;
                text_is(e, s, "end", &format!("type of {}", what))?;
                let (sx, sy) = (num(e, "x")?, num(e, "y")?);
                ensure!(close(sy, mid) && sx > l + q.size.width / 2.0 && sx <= rt, "{}: type at ({},{}), row {:?}", what, sx, sy, q);
            }
            if let Some(b) = &row.badge {
                let mut disc = None;
                if let Some(c) = b.bg {
                    let e = next("badge disc")?;
                    ensure!(e.name == "circle", "{}: expected the badge's disc, found <{}>", what, e.name);
                    color_is(e, "fill", Some(c), &what)?;
                    let (cx, cy, r) = (num(e, "cx")?, num(e, "cy")?, num(e, "r")?);
                    ensure!(r > 0.0 && close(cy, mid) && cx - r >= l && cx + r <= rt && cy - r >= top && cy + r <= bot, "{}: badge disc at ({},{}) radius {} is not inside the row {:?}", what, cx, cy, r, q);
                    disc = Some((cx, cy));
                }
                let e = next("badge")?;
                let s = Span { text: b.text.clone(), color: b.color, family: Some(2), weight: None, size: Some(0) };
                text_is(e, &s, "middle", &format!("badge of {}", what))?;
                let (bx, by) = (num(e, "x")?, num(e, "y")?);
                ensure!(close(by, mid) && bx > l + q.size.width / 2.0 && bx < rt, "{}: badge at ({},{}), row {:?}", what, bx, by, q);
                if let Some((cx, cy)) = disc {
                    ensure!(close(bx, cx) && close(by, cy), "{}: badge at ({},{}), its disc at ({},{})", what, bx, by, cx, cy);
                }
            }
        }
    }
    let left: Vec<&El> = it.collect();
    let n = doc.edges().count();
    let paths = left.iter().filter(|e| e.name == "path").count();
    let circles = left.iter().filter(|e| e.name == "circle").count();
    ensure!(left.len() == paths + circles && paths == n && circles == 2 * n, "besides the tables, {:?} are drawn for {} edges", left.iter().map(|e| e.name.as_str()).collect::<Vec<_>>(), n);
    Ok(())
}
/// What the documented styles of a module are not fixed here: read back from the document itself.
fn describe(doc: &mir::Document) -> Result<MDoc, Fail> {
    fn c(c: &Option<WebColor>) -> Option<Col> {
        c.as_ref().map(|c| match c {
            WebColor::RGB(x) => Col::Rgb(x.red, x.green, x.blue),
            WebColor::Named(NamedColor::White) => Col::White,
            WebColor::Named(NamedColor::Black) => Col::Black,
        })
    }
    let span = |t: &mir::TextSpan| Span {
        text: t.text.clone(),
        color: c(&t.color),
        family: t.font_family.and_then(|f| FAMILIES.iter().position(|x| x.0 == f)).map(|i| i as u8),
        weight: t.font_weight.and_then(|f| WEIGHTS.iter().position(|x| x.0 == f)).map(|i| i as u8),
        size: t.font_size.and_then(|f| SIZES.iter().position(|x| x.0 == f)).map(|i| i as u8),
    };
    let mut tables = vec![];
    for id in doc.body().children() {
        let n = doc.get_node(id).ok_or_else(|| Fail("lost table".into()))?;
        let mir::ShapeKind::Record(rec) = n.kind() else { fail!("body child is not a record") };
        let mut rows = vec![];
        for rid in n.children() {
            let m = doc.get_node(rid).ok_or_else(|| Fail("lost row".into()))?;
            let mir::ShapeKind::Field(f) = m.kind() else { fail!("row is not a field") };
            rows.push(MRow {
                height: 0.0,
                title: span(&f.title),
                subtitle: f.subtitle.as_ref().map(&span),
                badge: f.badge.as_ref().map(|b| MBadge { text: b.text.clone(), color: c(&b.color), bg: c(&b.bg_color) }),
                bg: c(&f.bg_color),
                border: c(&f.border_color),
            });
        }
        tables.push(MTable { x: 0.0, y: 0.0, width: 0.0, rounded: rec.rounded, bg: c(&rec.bg_color), border: c(&rec.border_color), rows });
    }
    Ok(MDoc { tables, edges: vec![], reversed: false })
}
fn check_mdoc(d: &MDoc) -> Checked {
    let b = sut("build", || d.build())?;
    let svg = String::from_utf8(render(&b.doc, None, None)?).map_err(|_| Fail("not UTF-8".into()))?;
    check_drawing(d, &b.doc, &svg)?;
    let rows = || d.tables.iter().flat_map(|t| t.rows.iter());
    Ok(Tags::new(rows().count() >= 2)
        .class(rows().any(|r| r.bg.is_some()), "row-background")
        .class(rows().any(|r| r.badge.as_ref().map_or(false, |b| b.bg.is_some())), "badge-disc")
        .class(rows().any(|r| r.badge.as_ref().map_or(false, |b| b.bg.is_none())), "bare-badge")
        .class(d.tables.len() > 1, "several-tables"))
}
pub fn c17(cx: &mut Ctx) {
    cx.facet("documents", "documents with random geometry, colours and fonts; non-trivial: at least two rows", 20_000, |_| {
        mdoc(select(vec!["a", "users", "x y", "<b>", "id", "", "&"]).prop_map(String::from).boxed(), 4, 5, 2)
    }, check_mdoc);
    cx.facet("vast", "documents with hundreds of tables or rows; non-trivial as above", 40, |_| {
        let n = || select(vec!["a", "users", ""]).prop_map(String::from).boxed();
        prop_oneof![mdoc(n(), 300, 1, 300), mdoc(n(), 2, 400, 2)].boxed()
    }, check_mdoc);
    cx.facet("huge", "a thousand to 65549 tables, or rows of a table; non-trivial: all", 5, |_| huge(&[0, 1]), |h| {
        let l = place(&h.ast())?;
        let svg = render_laid(&l)?;
        check_drawing(&describe(&l.doc)?, &l.doc, &svg)?;
        Ok(Tags::new(true))
    });
    cx.facet("modules", "modules after layout; non-trivial: at least one field", 5_000, |_| ast(Cfg { tables: 6, fields: 6, rels: 3, ..Cfg::plain() }), |a| {
        let l = lay(a)?;
        let svg = render_laid(&l)?;
        let d = describe(&l.doc)?;
        check_drawing(&d, &l.doc, &svg)?;
        Ok(Tags::new(a.tables().any(|t| !t.fields.is_empty())))
    });
}

// ---------------------------------------------------------------- C18
#[derive(Debug)]
enum Cmd {
    M(f32, f32),
    L(f32, f32),
    Q(f32, f32, f32, f32),
}
fn parse_d(d: &str) -> Result<Vec<Cmd>, Fail> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        if c.is_ascii_alphabetic() && c != 'e' && c != 'E' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            toks.push(c.to_string());
        } else if c == ' ' || c == ',' || c == '\n' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut out = vec![];
    let mut i = 0;
    while i < toks.len() {
        let n = match toks[i].as_str() {
            "M" | "L" => 2,
            "Q" => 4,
            t => fail!("unexpected {:?} in path {:?}", t, d),
        };
        let mut v = vec![];
        for t in toks.iter().skip(i + 1).take(n) {
            let f: f32 = t.parse().map_err(|_| Fail(format!("bad number {:?} in path {:?}", t, d)))?;
            ensure!(f.is_finite(), "number {} in path {:?}", f, d);
            v.push(f);
        }
        ensure!(v.len() == n, "path {:?} is cut short", d);
        out.push(match toks[i].as_str() {
            "M" => Cmd::M(v[0], v[1]),
            "L" => Cmd::L(v[0], v[1]),
            _ => Cmd::Q(v[0], v[1], v[2], v[3]),
        });
        i += n + 1;
    }
    Ok(out)
}
fn same(a: (f32, f32), b: (f32, f32)) -> bool {
    close(a.0, b.0) && close(a.1, b.1)
}
/// `radius` is shared by all bends of a document.
fn check_path(d: &str, p: &[Point], radius: &mut Option<f32>) -> Result<(), Fail> {
    let cmds = parse_d(d)?;
    let mut it = cmds.iter().peekable();
    match it.next() {
        Some(Cmd::M(x, y)) if same((*x, *y), (p[0].x, p[0].y)) => {}
        c => fail!("path {:?} starts with {:?}, route {}", d, c, pts(p)),
    }
    let mut at = (p[0].x, p[0].y);
    for i in 1..p.len() {
        let pt = (p[i].x, p[i].y);
        if i == p.len() - 1 {
            match it.next() {
                Some(Cmd::L(x, y)) if same((*x, *y), pt) => at = pt,
                c => fail!("path {:?} ends with {:?}, route {}", d, c, pts(p)),
            }
            continue;
        }
        let (din, dout) = (step(&p[i - 1], &p[i]), step(&p[i], &p[i + 1]));
        if din == dout {
            // a straight joint: the point may be named or left out
            if let Some(Cmd::L(x, y)) = it.peek() {
                if same((*x, *y), pt) {
                    at = pt;
                    it.next();
                }
            }
            continue;
        }
        // the incoming tangent point
        match it.next() {
            Some(Cmd::L(x, y)) => {
                let r = (pt.0 - x) * din.0 + (pt.1 - y) * din.1;
                ensure!(r > 0.0 && same((pt.0 - r * din.0, pt.1 - r * din.1), (*x, *y)), "bend {} of route {}: the path comes in at ({},{}); path {:?}", i, pts(p), x, y, d);
                let want = *radius.get_or_insert(r);
                ensure!(close(want, r), "bend {} of route {}: radius {} on the way in, elsewhere {}; path {:?}", i, pts(p), r, want, d);
                // straight pieces are axis-parallel, along the segment
                ensure!(if din.0 == 0.0 { close(at.0, *x) } else { close(at.1, *y) }, "piece before bend {} of route {} is slanted; path {:?}", i, pts(p), d);
            }
            c => fail!("bend {} of route {}: found {:?}; path {:?}", i, pts(p), c, d),
        }
        match it.next() {
            Some(Cmd::Q(cx, cy, x, y)) => {
                ensure!(same((*cx, *cy), pt), "bend {} of route {}: control point ({},{}); path {:?}", i, pts(p), cx, cy, d);
                let r = radius.unwrap();
                ensure!(same((pt.0 + r * dout.0, pt.1 + r * dout.1), (*x, *y)), "bend {} of route {}: the curve ends at ({},{}), radius {}; path {:?}", i, pts(p), x, y, r, d);
                at = (*x, *y);
            }
            c => fail!("bend {} of route {}: found {:?}; path {:?}", i, pts(p), c, d),
        }
    }
    ensure!(it.next().is_none(), "path {:?} goes on after the end of route {}", d, pts(p));
    Ok(())
}
fn check_connectors(doc: &mir::Document, svg: &str) -> Result<(usize, usize), Fail> {
    let x = parse_svg(svg)?;
    let els = x.els();
    let paths: Vec<_> = els.iter().filter(|e| e.name == "path").collect();
    let edges: Vec<&mir::EdgeData> = doc.edges().collect();
    ensure!(paths.len() == edges.len(), "{} paths for {} edges", paths.len(), edges.len());
    // circles after the last table element
    let circles: Vec<_> = els.iter().filter(|e| e.name == "circle").collect();
    ensure!(circles.len() >= 2 * edges.len(), "{} circles for {} edges", circles.len(), edges.len());
    let circles = &circles[circles.len() - 2 * edges.len()..];
    let mut radius = None;
    let mut bends = 0;
    for (i, e) in edges.iter().enumerate() {
        let p = e.path_points().ok_or_else(|| Fail("edge without route".into()))?;
        let path = paths[i];
        let Some(d) = path.a("d") else { fail!("path #{} has no d", i) };
        check_path(d, p, &mut radius).map_err(|f| Fail(format!("edge #{}: {}", i, f.0)))?;
        ensure!(matches!(path.a("fill"), Some("none" | "transparent")), "path #{} is filled: {:?}", i, path.a("fill"));
        ensure!(path.a("stroke").map_or(false, |s| s != "none" && s != "transparent"), "path #{} is not stroked", i);
        let (c1, c2) = (circles[2 * i], circles[2 * i + 1]);
        let at = |c: &El| -> Result<(f32, f32), Fail> {
            ensure!(num(c, "r")? > 0.0, "end circle without radius");
            Ok((num(c, "cx")?, num(c, "cy")?))
        };
        let (a, b) = (at(c1)?, at(c2)?);
        let (s, t) = ((p[0].x, p[0].y), (p[p.len() - 1].x, p[p.len() - 1].y));
        ensure!(same(a, s) && same(b, t) || same(a, t) && same(b, s), "edge #{}: circles at {:?} and {:?}, route {}", i, a, b, pts(p));
        bends += p.windows(3).filter(|w| step(&w[0], &w[1]) != step(&w[1], &w[2])).count();
    }
    Ok((edges.len(), bends))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Routes(Vec<Vec<(f32, f32)>>);
fn check_walks(r: &Routes) -> Checked {
    let d = MDoc {
        tables: vec![MTable { x: 0.0, y: 0.0, width: 100.0, rounded: false, bg: None, border: None, rows: vec![] }],
        edges: r.0.iter().map(|pts| MEdge { a: (0, 0), b: (0, 0), pts: pts.clone() }).collect(),
        reversed: false,
    };
    let b = sut("build", || d.build())?;
    let svg = String::from_utf8(render(&b.doc, None, None)?).map_err(|_| Fail("not UTF-8".into()))?;
    let (n, bends) = check_connectors(&b.doc, &svg)?;
    Ok(Tags::new(bends > 0).class(n > 1, "several-edges").class(bends > 4, "many-bends"))
}
pub fn c18(cx: &mut Ctx) {
    cx.facet("random-routes", "1-4 random rectilinear routes of up to 9 points; non-trivial: at least one bend", 30_000, |big| {
        vec(walk(if big { 24 } else { 8 }), 1..=4).prop_map(Routes).boxed()
    }, check_walks);
    cx.facet("vast", "hundreds of routes, or of points on a route; non-trivial: at least one bend", 60, |_| {
        prop_oneof![vec(walk(500), 1..=3), vec(walk(4), 0..=500)].prop_map(Routes).boxed()
    }, check_walks);
    cx.facet("documents", "documents with tables, badges and random routes; non-trivial: at least one bend", 5_000, |_| mdoc(plain_name(), 3, 3, 4), |d| {
        let b = sut("build", || d.build())?;
        let svg = String::from_utf8(render(&b.doc, None, None)?).map_err(|_| Fail("not UTF-8".into()))?;
        let (n, bends) = check_connectors(&b.doc, &svg)?;
        Ok(Tags::new(bends > 0).class(n > 1, "several-edges"))
    });
    cx.facet("laid-out", "routes of laid-out modules; non-trivial: at least one bend", 2_500, |big| ast(Cfg { tables: 8, rels: 6, ..Cfg::layout(big) }), |a| {
        let l = lay(a)?;
        let svg = render_laid(&l)?;
        let (n, bends) = check_connectors(&l.doc, &svg)?;
        Ok(Tags::new(bends > 0).class(n > 1, "several-edges"))
    });
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flawed {
    pub doc: MDoc,
    /// (what, index, which): 0 table, 1 row, 2 edge; which: 0 no origin, 1 no size, 2 neither
    pub flaws: Vec<(u8, u32, u8)>,
    pub view_box: bool,
}
#[derive(Default)]
struct Sink {
    got: Vec<u8>,
    /// 0 accept all, n>0 accept at most n bytes; interleaved
    plan: Vec<u8>,
    calls: usize,
    fail_at: Option<(usize, io::ErrorKind)>,
    /// The failure happens once; later writes would succeed.
    once: bool,
    failed: bool,
    interrupts: usize,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let step = if self.plan.is_empty() { 255 } else { self.plan[self.calls % self.plan.len()] };
        self.calls += 1;
        if step == 0 && self.interrupts < 2000 {
            self.interrupts += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = match step {
            255 => buf.len(),
            k => (k as usize * 7).min(buf.len()),
        };
        if step == 0 {
            n = buf.len();
        }
        if let Some((at, kind)) = self.fail_at.filter(|_| !(self.once && self.failed)) {
            if self.got.len() >= at {
                self.failed = true;
                return if kind == io::ErrorKind::WriteZero { Ok(0) } else { Err(kind.into()) };
            }
            n = n.min(at - self.got.len());
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadWriter {
    pub doc: MDoc,
    pub plan: Vec<u8>,
    pub fail: Option<(u32, u8)>,
}
fn check_writer(w: &BadWriter) -> Checked {
    let b = w.doc.build();
    let full = render(&b.doc, None, None)?;
    const KINDS: [io::ErrorKind; 16] = [
        io::ErrorKind::NotFound,
        io::ErrorKind::ConnectionRefused,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::ConnectionAborted,
        io::ErrorKind::NotConnected,
        io::ErrorKind::AlreadyExists,
        io::ErrorKind::InvalidInput,
        io::ErrorKind::InvalidData,
        io::ErrorKind::TimedOut,
        io::ErrorKind::Unsupported,
        io::ErrorKind::BrokenPipe,
        io::ErrorKind::PermissionDenied,
        io::ErrorKind::WriteZero,
        io::ErrorKind::WouldBlock,
        io::ErrorKind::Other,
        io::ErrorKind::UnexpectedEof,
    ];
    let fail_at = w.fail.map(|(at, k)| (at as usize % full.len(), KINDS[k as usize % KINDS.len()]));
    let once = w.fail.map_or(false, |f| f.1 >= 128);
    let mut out = Sink { plan: w.plan.clone(), fail_at, once, ..Sink::default() };
    let res = sut("render", || SVGRenderer::new().render(&b.doc, &mut out))?;
    match (fail_at, res) {
        (None, Ok(())) => ensure!(out.got == full, "short or interrupted writes change the output"),
        (None, Err(e)) => fail!("error {:?} from a working writer", e),
        (Some(_), Ok(())) => fail!("the writer's failure is not reported"),
        (Some((at, kind)), Err(BackendError::IoFailure(e))) => {
            ensure!(e.kind() == kind, "the writer failed with {:?}, reported is {:?}", kind, e.kind());
            ensure!(full.starts_with(&out.got), "what was written before the failure at {} is not a prefix of the output", at);
        }
        (Some(_), Err(e)) => fail!("the writer's failure is reported as {:?}", e),
    }
    Ok(Tags::new(fail_at.is_some() || !w.plan.is_empty()).class(fail_at.is_some(), "failing").class(once, "failing-once").class(w.plan.contains(&0), "interrupted"))
}
pub fn c19(cx: &mut Ctx) {
    cx.facet("missing-layout", "documents with tables or rows lacking origin and/or size and edges lacking a route; non-trivial: something is missing", 25_000, |_| {
        let flaw = (prop_oneof![2 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8)], any::<u32>(), 0u8..3);
        (mdoc(plain_name(), 3, 3, 3), vec(flaw, 0..3), any::<bool>()).prop_map(|(doc, flaws, view_box)| Flawed { doc, flaws, view_box }).boxed()
    }, |f| {
        let mut b = f.doc.build();
        let rows: Vec<NodeId> = b.rows.iter().flatten().copied().collect();
        let mut bad: Vec<NodeId> = vec![];
        let (mut t, mut r, mut e) = (false, false, false);
        let mut no_route: Vec<usize> = vec![];
        for (what, i, which) in &f.flaws {
            let list = match what {
                0 => &b.tables,
                1 => &rows,
                _ => {
                    let n = b.doc.edges().count();
                    if n > 0 {
                        no_route.push(*i as usize % n);
                        e = true;
                    }
                    continue;
                }
            };
            if list.is_empty() {
                continue;
            }
            let id = list[*i as usize % list.len()];
            let n = b.doc.get_node_mut(id).unwrap();
            if *which != 1 {
                n.origin = None
            }
            if *which != 0 {
                n.size = None
            }
            bad.push(id);
            t |= *what == 0;
            r |= *what == 1;
        }
        for (k, edge) in b.doc.edges_mut().enumerate() {
            if no_route.contains(&k) {
                edge.set_path_points(None);
                bad.push(edge.source_id());
                bad.push(edge.target_id());
            }
        }
        let mut out = Sink::default();
        let res = sut("render", || {
            let mut rr = SVGRenderer::new();
            if f.view_box {
                rr.view_box = Some(Rect::new(Point::zero(), Size::new(10.0, 10.0)));
            }
            rr.render(&b.doc, &mut out)
        })?;
        match res {
            Ok(()) => {
                ensure!(bad.is_empty(), "rendered although nodes {:?} are not laid out", bad.iter().map(|b| b.to_string()).collect::<Vec<_>>());
                let s = String::from_utf8(out.got).map_err(|_| Fail("not UTF-8".into()))?;
                parse_svg(&s)?;
            }
            Err(BackendError::InvalidLayout(id)) => {
                ensure!(bad.contains(&id), "InvalidLayout names {}, but {:?} are not laid out", id, bad.iter().map(|b| b.to_string()).collect::<Vec<_>>());
                let said = BackendError::InvalidLayout(id).to_string();
                ensure!(said.split(|c: char| !c.is_ascii_digit()).any(|n| n == id.to_string()), "the message {:?} does not name node {}", said, id);
                ensure!(out.got.is_empty(), "{} bytes were written before the error", out.got.len());
            }
            Err(other) => fail!("unexpected error {:?}", other),
        }
        Ok(Tags::new(!bad.is_empty()).class(t, "table").class(r, "row").class(e, "edge").class(bad.is_empty(), "complete"))
    });
    cx.facet("writers", "writers taking few bytes at a time, interrupting, or failing at a random point; non-trivial: the writer is not plain", 12_000, |_| {
        (mdoc(any_name(), 2, 2, 2), vec(prop_oneof![2 => Just(0u8), 5 => 1u8..60, 2 => Just(255u8)], 0..8), option::of(any::<(u32, u8)>()))
            .prop_map(|(doc, plan, fail)| BadWriter { doc, plan, fail })
            .boxed()
    }, check_writer);
    cx.facet("vast", "the same for documents with hundreds of tables or rows", 20, |_| {
        (prop_oneof![mdoc(any_name(), 300, 1, 20), mdoc(any_name(), 2, 300, 2)], vec(prop_oneof![2 => Just(0u8), 1 => 1u8..60, 5 => Just(255u8)], 0..200), option::of(any::<(u32, u8)>()))
            .prop_map(|(doc, plan, fail)| BadWriter { doc, plan, fail })
            .boxed()
    }, check_writer);
}

// ---------------------------------------------------------------- C20
pub fn svg_answer(src: &str) -> String {
    let r = (|| -> Result<String, Fail> {
        let (m, e1, e2) = parse(src)?;
        // the order of what an error expected is that of a hash set: not part of the property
        let spans: Vec<_> = e1.iter().map(|e| e.span()).chain(e2.iter().map(|e| e.span())).collect();
        let Some(m) = m else { return Ok(format!("none {:?}", spans)) };
        let ast = Ast::from_erd(&m);
        let l = lay_doc(sut("into_mir", || m.into_mir())?)?;
        let svg = render_laid(&l)?;
        let again = render_laid(&l)?;
        ensure!(svg == again, "rendering twice gives different bytes");
        let routes: Vec<_> = l.doc.edges().map(|e| e.path_points().map(pts)).collect();
        let overlay = render(&l.doc, l.view_box, Some(l.engine.edge_route_graph()))?;
        Ok(format!("{:?} {:?} {:?} {:?}\n{}\n{}", spans, ast, l.view_box, routes, svg, String::from_utf8_lossy(&overlay)))
    })();
    match r {
        Ok(s) => s,
        Err(Fail(m)) => format!("FAIL {}", m),
    }
}
pub fn c20(cx: &mut Ctx) {
    fn src(tables: usize, rels: usize) -> BoxedStrategy<String> {
        let cfg = Cfg { tables, fields: 4, rels, ..Cfg::any() };
        prop_oneof![
            4 => (ast(cfg), crate::fmtsrc::reel()).prop_map(|(a, r)| crate::fmtsrc::write(&a, &r)),
            1 => crate::props_text::any_source(false).prop_map(|s| s.0),
        ]
        .boxed()
    }
    cx.facet("repeats", "the same text four times in one process, on two threads; non-trivial: an SVG is produced", 3_000, |_| src(6, 6), |s| {
        let first = svg_answer(s);
        ensure!(!first.starts_with("FAIL"), "{}", first);
        for i in 0..2 {
            let next = svg_answer(s);
            ensure!(next == first, "run {} gives another answer for {:?}:\n{}\n{}", i + 2, s, first, next);
        }
        let t = s.clone();
        let other = std::thread::Builder::new().stack_size(64 << 20).spawn(move || svg_answer(&t)).unwrap().join().map_err(|_| Fail("thread panicked".into()))?;
        ensure!(other == first, "another thread gives another answer for {:?}:\n{}\n{}", s, first, other);
        Ok(Tags::new(first.contains("<svg")).class(first.contains("<path"), "with-edges"))
    });
    cx.facet("dense", "up to 9 tables with up to 40 relations, eight times in one process; non-trivial: at least one edge is drawn", 120, |_| {
        ast(Cfg { tables: 9, fields: 3, rels: 40, ..Cfg::layout(false) }).prop_map(|a| a.to_erd().to_string()).boxed()
    }, |s| {
        let first = svg_answer(s);
        ensure!(!first.starts_with("FAIL"), "{}", first);
        for i in 0..7 {
            let next = svg_answer(s);
            ensure!(next == first, "run {} gives another answer for {:?}:\n{}\n{}", i + 2, s, first, next);
        }
        Ok(Tags::new(first.contains("<path")))
    });
    cx.facet("vast", "programs with hundreds of entities, fields or relations; non-trivial: an SVG is produced", 8, |_| {
        (vast(Cfg::plain(), 280), crate::fmtsrc::reel()).prop_map(|(a, r)| crate::fmtsrc::write(&a, &r)).boxed()
    }, |s| {
        let first = svg_answer(s);
        ensure!(!first.starts_with("FAIL"), "{}", first);
        let next = svg_answer(s);
        ensure!(next == first, "another run gives another answer for {:?}:\n{}\n{}", s, first, next);
        Ok(Tags::new(first.contains("<svg")).class(first.contains("<path"), "with-edges"))
    });
    cx.facet("processes", "eight texts at a time in another process; non-trivial: an SVG is produced", 250, |_| vec(src(5, 5), 8..=8).boxed(), |v| {
        let mine: Vec<String> = v.iter().map(|s| svg_answer(s)).collect();
        for m in &mine {
            ensure!(!m.starts_with("FAIL"), "{}", m);
        }
        let theirs: Vec<String> = serde_json::from_str(&crate::props_cli::worker("svg", &serde_json::to_string(v).unwrap())?).map_err(|e| Fail(format!("worker: {}", e)))?;
        for ((s, a), b) in v.iter().zip(&mine).zip(&theirs) {
            ensure!(a == b, "another process gives another answer for {:?}:\n{}\n{}", s, a, b);
        }
        Ok(Tags::new(mine.iter().any(|m| m.contains("<svg"))).class(mine.iter().any(|m| m.contains("<path")), "with-edges"))
    });
    cx.facet("surroundings", "a text in a thread of some name, and in another process under environment variables and in directories of all kinds; non-trivial: an SVG is produced", 600, |_| (src(4, 4), crate::props_cli::around()).boxed(), |(s, around)| {
        const NAMES: [&str; 8] = ["", "main", "worker", "worker-1", "tokio-runtime-worker", "rayon-0", "render", "test"];
        let mine = svg_answer(s);
        ensure!(!mine.starts_with("FAIL"), "{}", mine);
        let (t, name) = (s.clone(), NAMES[around[0].1 as usize % NAMES.len()]);
        let other = std::thread::Builder::new().name(name.into()).stack_size(64 << 20).spawn(move || svg_answer(&t)).unwrap().join().map_err(|_| Fail("thread panicked".into()))?;
        ensure!(other == mine, "a thread called {:?} gives another answer for {:?}:\n{}\n{}", name, s, mine, other);
        let theirs: Vec<String> = serde_json::from_str(&crate::props_cli::worker_in("svg", &serde_json::to_string(&[s]).unwrap(), around)?).map_err(|e| Fail(format!("worker: {}", e)))?;
        ensure!(theirs[0] == mine, "in other surroundings, the answer for {:?} is another:\n{}\n{}", s, mine, theirs[0]);
        Ok(Tags::new(mine.contains("<svg")).class(around[0].0 % 3 == 0, "empty environment"))
    });
    // What was drawn before must not show: texts that are nearly the same, one after the other.
    cx.facet("similar", "2-6 texts that differ in a few characters, one after the other here and in the other order in another process; non-trivial: an SVG is produced", 500, |_| {
        let edit = (any::<u32>(), 0u8..5, any::<u8>());
        (src(4, 4), vec(vec(edit, 1..3), 1..6))
            .prop_map(|(s, edits)| {
                let base: Vec<char> = s.chars().collect();
                let mut all = vec![s];
                for e in edits {
                    let mut t = base.clone();
                    for (at, kind, with) in e {
                        let words: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_alphanumeric()).collect();
                        if words.is_empty() {
                            continue;
                        }
                        let k = words[at as usize % words.len()];
                        match kind {
                            0 | 1 => t[k] = (b'a' + with % 26) as char,
                            2 => t[k] = (b'0' + with % 10) as char,
                            3 if k + 1 < t.len() => t.swap(k, k + 1),
                            3 => {}
                            _ => t.insert(k, t[k]),
                        }
                    }
                    all.push(t.into_iter().collect());
                }
                all
            })
            .boxed()
    }, |v| {
        let mine: Vec<String> = v.iter().map(|s| svg_answer(s)).collect();
        let back: Vec<&String> = v.iter().rev().collect();
        let theirs: Vec<String> = serde_json::from_str(&crate::props_cli::worker("svg", &serde_json::to_string(&back).unwrap())?).map_err(|e| Fail(format!("worker: {}", e)))?;
        for ((s, a), b) in v.iter().zip(&mine).zip(theirs.iter().rev()) {
            ensure!(a == b, "{:?} has another answer after other texts than before them:\n{}\n{}", s, a, b);
        }
        Ok(Tags::new(mine.iter().any(|m| m.contains("<svg"))).class(mine.iter().filter(|m| m.contains("<svg")).count() > 1, "several SVGs"))
    });
}

// ---------------------------------------------------------------- C21
fn pt_key(x: f32, y: f32) -> (i64, i64) {
    ((x as f64 * 1000.0).round() as i64, (y as f64 * 1000.0).round() as i64)
}
/// A hexadecimal colour or one of the basic colour keywords.
fn is_css_color(c: &str) -> bool {
    const KEYWORDS: [&str; 30] = [
        "none", "black", "silver", "gray", "grey", "white", "maroon", "red", "purple", "fuchsia", "green", "lime", "olive", "yellow", "navy", "blue", "teal", "aqua", "orange",
        "cyan", "magenta", "pink", "brown", "gold", "tomato", "crimson", "violet", "orangered", "darkorange", "currentcolor",
    ];
    match c.strip_prefix('#') {
        Some(h) => matches!(h.len(), 3 | 4 | 6 | 8) && h.chars().all(|x| x.is_ascii_hexdigit()),
        None => KEYWORDS.contains(&c.to_ascii_lowercase().as_str()) || c.starts_with("rgb"),
    }
}
/// Gives link `k` one of the arrow heads it may have, passing on those of other links (bipartite matching).
fn assign(k: usize, may: &[Vec<usize>], owner: &mut [Option<usize>], tried: &mut [bool]) -> bool {
    for &i in &may[k] {
        if !tried[i] {
            tried[i] = true;
            let free = match owner[i] {
                None => true,
                Some(other) => assign(other, may, owner, tried),
            };
            if free {
                owner[i] = Some(k);
                return true;
            }
        }
    }
    false
}
fn check_overlay(doc: &mir::Document, g: &RouteGraph, vb: Option<Rect>) -> Result<(usize, usize), Fail> {
    let utf = |b: Vec<u8>| String::from_utf8(b).map_err(|_| Fail("not UTF-8".into()));
    let plain = parse_svg(&utf(render(doc, None, None)?)?)?;
    let boxed = parse_svg(&utf(render(doc, vb, None)?)?)?;
    ensure!(plain.a("viewBox").is_none(), "a view box appears although none is set");
    ensure!(plain.kids == boxed.kids, "setting a view box changes the drawing");
    let mut attrs = boxed.attrs.clone();
    let got = attrs.remove("viewBox");
    ensure!(attrs == plain.attrs, "setting a view box changes other attributes: {:?} {:?}", boxed.attrs, plain.attrs);
    match (vb, got) {
        (None, None) => {}
        (Some(r), Some(s)) => {
            let v: Result<Vec<f32>, _> = s.split(|c| c == ',' || c == ' ').filter(|t| !t.is_empty()).map(|t| t.parse::<f32>()).collect();
            let want = vec![r.origin.x, r.origin.y, r.size.width, r.size.height];
            ensure!(v.as_ref().ok() == Some(&want), "viewBox is {:?}, expected {:?}", s, want);
        }
        (w, g) => fail!("viewBox is {:?}, set was {:?}", g, w),
    }
    let over = parse_svg(&utf(render(doc, vb, Some(g))?)?)?;
    ensure!(over.attrs == boxed.attrs, "the overlay changes the root's attributes");
    let (a, b) = (boxed.els(), over.els());
    ensure!(b.len() >= a.len() && b[..a.len()] == a[..], "the overlay changes the normal drawing");
    let extra = &b[a.len()..];
    let nodes: Vec<_> = g.node_ids().collect();
    let mut want_lines: Vec<_> = vec![];
    let mut links: Vec<(Point, Point)> = vec![];
    for e in g.edges() {
        let (Some(p), Some(q)) = (g.get_node(e.source_id()), g.get_node(e.target_id())) else { fail!("link without ends") };
        links.push((*p.location(), *q.location()));
        let (p, q) = (pt_key(p.location().x, p.location().y), pt_key(q.location().x, q.location().y));
        want_lines.push((p.min(q), p.max(q)));
    }
    let mut want_circles: Vec<_> = vec![];
    let mut want_texts: Vec<String> = vec![];
    // what the labels belong to
    let mut named: Vec<(String, Rect)> = vec![];
    for id in &nodes {
        let n = g.get_node(*id).ok_or_else(|| Fail("junction does not exist".into()))?;
        want_circles.push(pt_key(n.location().x, n.location().y));
        want_texts.push(id.to_string());
        named.push((id.to_string(), Rect::new(*n.location(), Size::new(0.0, 0.0))));
    }
    for e in doc.edges() {
        for p in e.path_points().unwrap_or(&[]) {
            want_circles.push(pt_key(p.x, p.y));
        }
    }
    for id in doc.body().children() {
        want_texts.push(id.to_string());
        if let Some(r) = doc.get_node(id).and_then(|n| n.rect()) {
            named.push((id.to_string(), r));
        }
    }
    let mut arrows: Vec<Vec<(f32, f32)>> = vec![];
    let (mut lines, mut circles, mut labels) = (vec![], vec![], vec![]);
    for e in extra {
        for k in ["fill", "stroke"] {
            if let Some(c) = e.a(k) {
                ensure!(is_css_color(c), "the overlay's <{}> has {}={:?}, which is no colour", e.name, k, c);
            }
        }
        match e.name.as_str() {
            "line" => {
                ensure!(e.a("stroke").is_some_and(|c| c != "none"), "an overlay link is drawn without a stroke");
                ensure!(e.a("stroke-width").map_or(Ok(1.0), |_| num(e, "stroke-width"))? > 0.0, "an overlay link has no width");
                let (p, q) = (pt_key(num(e, "x1")?, num(e, "y1")?), pt_key(num(e, "x2")?, num(e, "y2")?));
                lines.push((p.min(q), p.max(q)));
            }
            "circle" => {
                ensure!(num(e, "r")? > 0.0, "an overlay marker has no size");
                circles.push(pt_key(num(e, "cx")?, num(e, "cy")?));
            }
            "text" => {
                let (x, y) = (num(e, "x")?, num(e, "y")?);
                let gap = |r: &Rect| {
                    let d = |v: f32, a: f32, b: f32| (a - v).max(v - b).max(0.0);
                    // a table is labelled at one of its corners
                    let (dx, dy) = (d(x, r.origin.x, r.origin.x), d(y, r.origin.y, r.origin.y));
                    let (ex, ey) = (d(x, r.origin.x + r.size.width, r.origin.x + r.size.width), d(y, r.origin.y + r.size.height, r.origin.y + r.size.height));
                    dx.min(ex).max(dy.min(ey))
                };
                let text = norm(&e.text());
                let Some(i) = named.iter().position(|(n, r)| *n == text && gap(r) <= 12.0) else {
                    fail!("the overlay label {:?} at {},{} stands beside nothing of that id", text, x, y)
                };
                named.remove(i);
                ensure!(e.a("fill").is_some(), "an overlay label has no colour (and would be black on black)");
                labels.push(text);
            }
            "polygon" => {
                let v: Result<Vec<f32>, _> = e.a("points").unwrap_or("").split(|c: char| c == ',' || c.is_whitespace()).filter(|t| !t.is_empty()).map(|t| t.parse::<f32>()).collect();
                let Ok(v) = v else { fail!("an arrow head with points={:?}", e.a("points")) };
                ensure!(v.len() == 6 && v.iter().all(|x| x.is_finite()), "an arrow head with points={:?}", e.a("points"));
                arrows.push(v.chunks(2).map(|c| (c[0], c[1])).collect());
            }
            n => fail!("the overlay contains <{}>", n),
        }
    }
    for v in [&mut lines, &mut want_lines] {
        v.sort();
    }
    for v in [&mut circles, &mut want_circles] {
        v.sort();
    }
    for v in [&mut labels, &mut want_texts] {
        v.sort();
    }
    ensure!(lines == want_lines, "overlay links {:?}, expected {:?}", lines, want_lines);
    ensure!(circles == want_circles, "overlay markers {:?}, expected {:?}", circles, want_circles);
    ensure!(labels == want_texts, "overlay labels {:?}, expected {:?}", labels, want_texts);
    // arrow heads, where links are drawn with them: one per link, at its target, pointing to it
    if !arrows.is_empty() {
        ensure!(arrows.len() == links.len(), "{} arrow heads for {} links", arrows.len(), links.len());
        let mut may: Vec<Vec<usize>> = vec![];
        for (p, q) in &links {
            let points_to = |a: &Vec<(f32, f32)>| {
                let near = a.iter().all(|v| (v.0 - q.x).hypot(v.1 - q.y) <= 20.0);
                let (dx, dy) = (p.x - q.x, p.y - q.y);
                if dx != 0.0 && dy != 0.0 {
                    return near;
                }
                let len = dx.hypot(dy);
                let along: Vec<f32> = a.iter().map(|v| ((v.0 - q.x) * dx + (v.1 - q.y) * dy) / len).collect();
                let aside: Vec<f32> = a.iter().map(|v| ((v.0 - q.x) * dy - (v.1 - q.y) * dx) / len).collect();
                let Some(tip) = (0..3).min_by(|i, j| along[*i].total_cmp(&along[*j])) else { return false };
                let base: Vec<usize> = (0..3).filter(|i| *i != tip).collect();
                near && along[tip] >= -0.01
                    && base.iter().all(|i| along[*i] > along[tip] + 1.0)
                    && aside[tip].abs() < 0.1
                    && aside[base[0]] * aside[base[1]] < -0.5
            };
            may.push((0..arrows.len()).filter(|i| points_to(&arrows[*i])).collect());
        }
        // arrow heads of several links can be close together: any assignment will do
        let mut owner: Vec<Option<usize>> = vec![None; arrows.len()];
        for (k, (p, q)) in links.iter().enumerate() {
            let found = assign(k, &may, &mut owner, &mut vec![false; arrows.len()]);
            ensure!(found, "no arrow head points along the link from {},{} to {},{}", p.x, p.y, q.x, q.y);
        }
    }
    Ok((nodes.len(), want_lines.len()))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Overlay {
    pub doc: MDoc,
    pub nodes: Vec<(f32, f32)>,
    pub links: Vec<(u32, u32)>,
    pub view_box: Option<(f32, f32, f32, f32)>,
}
fn check_any_overlay(o: &Overlay) -> Checked {
    let b = o.doc.build();
    let g = sut("building a route graph", || {
        let mut g = RouteGraph::new();
        let ids: Vec<_> = o.nodes.iter().map(|p| g.add_node(Point::new(p.0, p.1))).collect();
        for (x, y) in &o.links {
            if !ids.is_empty() {
                let (x, y) = (ids[*x as usize % ids.len()], ids[*y as usize % ids.len()]);
                if x != y {
                    g.add_edge(x, y);
                }
            }
        }
        g
    })?;
    let vb = o.view_box.map(|(x, y, w, h)| Rect::new(Point::new(x, y), Size::new(w, h)));
    let (_, m) = check_overlay(&b.doc, &g, vb)?;
    Ok(Tags::new(m > 0 && vb.is_some()).class(vb.is_none(), "no-view-box"))
}
fn any_box() -> BoxedStrategy<(f32, f32, f32, f32)> {
    let at = || prop_oneof![6 => q(-900, 900), 1 => Just(0.0), 1 => -1e7f32..1e7];
    let side = || prop_oneof![6 => q(1, 2000), 1 => Just(0.0), 1 => 0.0f32..1e7];
    (at(), at(), side(), side()).boxed()
}
pub fn c21(cx: &mut Ctx) {
    cx.facet("laid-out", "laid-out modules with their own route graph; non-trivial: the graph has links", 600, |_| ast(Cfg { tables: 4, fields: 3, rels: 3, ..Cfg::any() }), |a| {
        let l = lay(a)?;
        let (n, m) = check_overlay(&l.doc, l.engine.edge_route_graph(), l.view_box)?;
        Ok(Tags::new(m > 0).class(n == 0, "empty-graph"))
    });
    cx.facet("any-graph", "random documents, view boxes and route graphs; non-trivial: the graph has links and a view box is set", 10_000, |_| {
        (mdoc(any_name(), 2, 3, 2), vec((q(-50, 50), q(-50, 50)), 0..8), vec(any::<(u32, u32)>(), 0..8), option::of(any_box()))
            .prop_map(|(doc, nodes, links, view_box)| Overlay { doc, nodes, links, view_box })
            .boxed()
    }, check_any_overlay);
    cx.facet("vast", "hundreds of junctions and links, or of tables; non-trivial as above", 10, |_| {
        let n = |k| vec((q(-500, 500), q(-500, 500)), 0..k);
        prop_oneof![
            (mdoc(any_name(), 2, 3, 2), n(400), vec(any::<(u32, u32)>(), 0..400), option::of(any_box())),
            (mdoc(any_name(), 300, 1, 50), n(8), vec(any::<(u32, u32)>(), 0..8), option::of(any_box())),
        ]
        .prop_map(|(doc, nodes, links, view_box)| Overlay { doc, nodes, links, view_box })
        .boxed()
    }, check_any_overlay);
}
