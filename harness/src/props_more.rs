//! C31-C36.
use crate::fmtsrc::{reel, write};
use crate::gen::*;
use crate::model::*;
use crate::pipe::*;
use crate::props_layout::{routes, tall, uneven};
use crate::run::*;
use crate::{ensure, fail};
use crate::props_render::parse_svg;
use crate::xml::El;
use proptest::collection::vec;
use proptest::prelude::*;
use seiren::geometry::{Orientation, Point, Rect};
use seiren::layout::{RouteGraph, RouteNodeId};
use seiren::mir::{self, NodeId, TerminalPortId};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use seiren::parser::Token;
use crate::refparse::{can_follow, place, Place, Tok};

/// Shortest right-angled way from one of the ports of `a` to one of `b` that keeps `gap` away from
/// every table, apart from straight stubs at its ends; found on the grid of all relevant lines.
pub fn reference_length(doc: &mir::Document, a: NodeId, b: NodeId, gap: f32) -> Result<Option<f64>, Fail> {
    let rects = table_rects(doc)?;
    let fat: Vec<(f32, f32, f32, f32)> = rects.iter().map(|r| (r.origin.x - gap, r.origin.y - gap, r.origin.x + r.size.width + gap, r.origin.y + r.size.height + gap)).collect();
    let ports = |id: NodeId| -> Vec<(Point, Orientation)> {
        doc.get_node(id).map(|n| n.terminal_ports().map(|p| (*p.location(), p.orientation())).collect()).unwrap_or_default()
    };
    let out = |p: &(Point, Orientation)| {
        let d = dir(p.1);
        Point::new(p.0.x + d.0 * gap, p.0.y + d.1 * gap)
    };
    let (pa, pb) = (ports(a), ports(b));
    let mut xs: Vec<f32> = fat.iter().flat_map(|f| [f.0, f.2]).collect();
    let mut ys: Vec<f32> = fat.iter().flat_map(|f| [f.1, f.3]).collect();
    for p in pa.iter().chain(&pb) {
        let q = out(p);
        xs.push(q.x);
        ys.push(q.y);
    }
    for v in [&mut xs, &mut ys] {
        v.sort_by(|a, b| a.total_cmp(b));
        v.dedup();
    }
    let (w, h) = (xs.len(), ys.len());
    let free_h = |i: usize, j: usize| !fat.iter().any(|f| ys[j] > f.1 && ys[j] < f.3 && xs[i + 1] > f.0 && xs[i] < f.2);
    let free_v = |i: usize, j: usize| !fat.iter().any(|f| xs[i] > f.0 && xs[i] < f.2 && ys[j + 1] > f.1 && ys[j] < f.3);
    let at = |p: &Point| (xs.iter().position(|x| *x == p.x).unwrap(), ys.iter().position(|y| *y == p.y).unwrap());
    let mut best: Option<f64> = None;
    for s in &pa {
        // label-correcting search from the end of the stub
        let mut d = vec![f64::INFINITY; w * h];
        let (i, j) = at(&out(s));
        d[j * w + i] = 0.0;
        let mut queue = std::collections::VecDeque::from([(i, j)]);
        while let Some((i, j)) = queue.pop_front() {
            let here = d[j * w + i];
            let mut go = |i2: usize, j2: usize, len: f64| {
                if here + len < d[j2 * w + i2] - 1e-9 {
                    d[j2 * w + i2] = here + len;
                    queue.push_back((i2, j2));
                }
            };
            if i + 1 < w && free_h(i, j) {
                go(i + 1, j, (xs[i + 1] - xs[i]) as f64)
            }
            if i > 0 && free_h(i - 1, j) {
                go(i - 1, j, (xs[i] - xs[i - 1]) as f64)
            }
            if j + 1 < h && free_v(i, j) {
                go(i, j + 1, (ys[j + 1] - ys[j]) as f64)
            }
            if j > 0 && free_v(i, j - 1) {
                go(i, j - 1, (ys[j] - ys[j - 1]) as f64)
            }
        }
        for t in &pb {
            if s.0 == t.0 {
                continue;
            }
            let (i, j) = at(&out(t));
            let len = d[j * w + i] + 2.0 * gap as f64;
            if len.is_finite() && best.map_or(true, |b| len < b) {
                best = Some(len);
            }
        }
    }
    Ok(best)
}
fn check_ref(a: &Ast) -> Checked {
    let l = lay(a)?;
    let mut n = 0;
    for r in routes(&l.doc)? {
        n += 1;
        let Some(want) = reference_length(&l.doc, r.src, r.dst, 40.0)? else { fail!("edge #{}: no reference route", r.edge) };
        let got = path_len(r.pts);
        ensure!(got < want + (r.pts.len() - 1) as f64, "edge #{}: route {} has length {}, but {} is possible with a clearance of 40", r.edge, pts(r.pts), got, want);
    }
    Ok(Tags::new(n > 0))
}
pub fn c32(cx: &mut Ctx) {
    cx.facet("tables", "non-trivial: at least one edge", 2_000, |big| ast(Cfg::layout(big)), check_ref);
    cx.facet("uneven", "tables of very different heights; non-trivial: at least one edge", 2_000, uneven, check_ref);
    cx.facet("vast", "hundreds of tables, of rows, or of relations; non-trivial: at least one edge", 1, |_| vast(Cfg::layout(false), 120), check_ref);
    cx.facet("tall", "tables of hundreds or thousands of rows; non-trivial: at least one edge", 15, |big| tall(if big { 12_000 } else { 3_000 }), check_ref);
}

// ---------------------------------------------------------------- C34
fn ref_tok(t: &Token) -> Tok {
    match t {
        Token::Ident(s) => Tok::Quoted(s.clone()),
        Token::Edge => Tok::Edge,
        Token::Ctrl(c) => Tok::Ctrl(*c),
        Token::Newline => Tok::Nl,
        Token::Erd => Tok::Word("erd".into()),
        Token::Int => Tok::Word("int".into()),
        Token::Uuid => Tok::Word("uuid".into()),
        Token::Text => Tok::Word("text".into()),
        Token::Timestamp => Tok::Word("timestamp".into()),
        Token::PK => Tok::Word("PK".into()),
        Token::FK => Tok::Word("FK".into()),
    }
}
fn all_tokens() -> Vec<Tok> {
    let mut v: Vec<Tok> = KEYWORDS.iter().map(|k| Tok::Word(k.to_string())).collect();
    v.extend("{};.".chars().map(Tok::Ctrl));
    v.extend([Tok::Edge, Tok::Nl]);
    v
}
pub fn same_tok(a: &Tok, b: &Tok) -> bool {
    let name = |t: &Tok| match t {
        Tok::Quoted(s) => Some(s.clone()),
        Tok::Word(s) if !KEYWORDS.contains(&s.as_str()) => Some(s.clone()),
        _ => None,
    };
    match (name(a), name(b)) {
        (Some(x), Some(y)) => x == y,
        (None, None) => a == b,
        _ => false,
    }
}
pub fn check_location(src: &str) -> Checked {
    let (m, e1, e2) = parse(src)?;
    match place(src) {
        Place::Nowhere | Place::Neutral => Ok(Tags::new(false)),
        Place::Lexical(b) => {
            let Some(first) = e1.iter().map(|e| e.span().start).min() else { fail!("{} is not reported as a token error in {:?}", b.what, src) };
            ensure!(first >= b.start && first <= b.at, "{}: expected an error between {} and {}, the first is at {} in {:?}", b.what, b.start, b.at, first, src);
            Ok(Tags::new(true).class(true, "lexical"))
        }
        Place::Syntactic { found, span, before } => {
            ensure!(e1.is_empty(), "all tokens are well formed, but {:?} is reported for {:?}", e1, src);
            ensure!(m.is_none() && e2.len() == 1, "{} syntax errors and {} for {:?}", e2.len(), if m.is_some() { "a module" } else { "no module" }, src);
            let e = &e2[0];
            ensure!(e.span() == span, "the first misplaced token is {:?} at {:?}, but the error is at {:?} in {:?}", found, span, e.span(), src);
            let same = match (e.found(), &found) {
                (None, None) => true,
                (Some(a), Some(b)) => same_tok(&ref_tok(a), b),
                _ => false,
            };
            ensure!(same, "the misplaced token is {:?}, but the error names {:?} in {:?}", found, e.found(), src);
            let expected: Vec<Option<Tok>> = e.expected().map(|t| t.as_ref().map(ref_tok)).collect();
            for t in &expected {
                ensure!(can_follow(&before, t.clone()), "the error at {:?} expects {:?}, which cannot stand there either, in {:?}", span, t, src);
            }
            let possible: Vec<Option<Tok>> = all_tokens().into_iter().map(Some).chain([None]).filter(|t| can_follow(&before, t.clone())).collect();
            ensure!(!expected.is_empty() || possible.is_empty(), "the error at {:?} expects nothing, though {:?} could stand there, in {:?}", span, possible, src);
            Ok(Tags::new(true).class(found.is_none(), "end-of-text").class(found.is_some(), "token"))
        }
    }
}
pub fn c34(cx: &mut Ctx) {
    const RULE: &str = "non-trivial: the reference parser finds where the text departs from the grammar";
    cx.facet("any-text", RULE, 3_000, crate::props_text::any_source, |s| check_location(&s.0));
    cx.facet("edited", RULE, 6_000, crate::props_text::edits, |s| check_location(&crate::props_text::edited(s)));
    cx.facet("sequences", RULE, 6_000, crate::props_text::sequences, |s| check_location(&s.0));
    cx.facet("far", "1-2 tokens changed in a program far down its text; non-trivial as above", 30, |_| crate::props_text::far_edits(1..3), |c| check_location(&c.text()));
    cx.facet("every-character", "one character, for all characters of the basic plane, and blocks of the others, in a name, in a comment, and as it is, before a misplaced token, or misplaced itself; non-trivial: always", 7, |_| Spans(1024).boxed(), |s| {
        for c in s.chars() {
            if !['`', '\\'].contains(&c) {
                check_location(&format!("erd {{ `{}` {{ `{}{}` int }} ?", c, c, c))?;
                check_location(&format!("erd {{ `{}` {{ id int `{}` }} }}", c, c))?;
            }
            if c != '\n' {
                check_location(&format!("// {}\nerd {{ //{}\n a {{ int }} }}", c, c))?;
            }
            check_location(&format!("erd {{ a {{ {} }} }}", c))?;
        }
        Ok(Tags::new(true))
    });
    cx.facet("vast", "programs of hundreds of entities, fields or relations with 1-3 tokens changed; non-trivial as above", 40, crate::props_text::vast_edits, |s| check_location(&crate::props_text::edited(s)));
    cx.facet("truncated", "a program of the grammar cut off anywhere; non-trivial as above", 6_000, |_| {
        (ast(Cfg { tables: 3, fields: 4, rels: 2, ..Cfg::any() }), reel(), any::<u32>())
            .prop_map(|(a, r, at)| {
                let c: Vec<char> = write(&a, &r).chars().collect();
                crate::props_text::Src(c[..at as usize % (c.len() + 1)].iter().collect())
            })
            .boxed()
    }, |s| check_location(&s.0));
}

// ---------------------------------------------------------------- C31
/// An SVG element, its position relative to an origin in front, everything else after it.
#[derive(Clone, PartialEq, Debug)]
struct Piece {
    name: String,
    at: BTreeMap<String, f32>,
    rest: BTreeMap<String, String>,
    clip: Option<Box<Piece>>,
    text: String,
}
const POS_X: [&str; 4] = ["x", "x1", "x2", "cx"];
const POS_Y: [&str; 4] = ["y", "y1", "y2", "cy"];
fn piece(e: &El, o: &Point, clips: &HashMap<String, El>) -> Result<Piece, Fail> {
    let mut p = Piece { name: e.name.clone(), at: BTreeMap::new(), rest: BTreeMap::new(), clip: None, text: e.text() };
    for (k, v) in &e.attrs {
        let base = if POS_X.contains(&k.as_str()) {
            o.x
        } else if POS_Y.contains(&k.as_str()) {
            o.y
        } else if k == "clip-path" {
            let Some(c) = v.strip_prefix("url(#").and_then(|s| s.strip_suffix(')')).and_then(|id| clips.get(id)) else { fail!("clip-path {:?} refers to nothing", v) };
            let [shape] = c.els()[..] else { fail!("clip path {:?} has {} shapes", v, c.els().len()) };
            p.clip = Some(Box::new(piece(shape, o, clips)?));
            continue;
        } else {
            p.rest.insert(k.clone(), v.clone());
            continue;
        };
        p.at.insert(k.clone(), e.num(k).map_err(Fail)? - base);
    }
    Ok(p)
}
fn differ(a: &Piece, b: &Piece, texts: bool) -> bool {
    a.name != b.name
        || a.rest != b.rest
        || texts && a.text != b.text
        || a.at.len() != b.at.len()
        || a.at.iter().zip(&b.at).any(|(x, y)| x.0 != y.0 || (x.1 - y.1).abs() > 0.01)
        || match (&a.clip, &b.clip) {
            (None, None) => false,
            (Some(x), Some(y)) => differ(x, y, texts),
            _ => true,
        }
}
/// The elements that draw the tables of a document, in order: all but the page and the connectors.
fn table_elements(svg: &str, edges: usize) -> Result<(Vec<El>, HashMap<String, El>), Fail> {
    let x = parse_svg(svg)?;
    let mut clips = HashMap::new();
    let mut rest: Vec<El> = vec![];
    for e in x.els() {
        let list = match e.name.as_str() {
            "defs" => e.els(),
            "clipPath" => vec![e],
            _ => {
                rest.push(e.clone());
                continue;
            }
        };
        for c in list {
            ensure!(clips.insert(c.a("id").unwrap_or("").to_string(), c.clone()).is_none(), "two clip paths share an id");
        }
    }
    ensure!(rest.len() >= 1 + 3 * edges, "{} elements in a drawing with {} edges", rest.len(), edges);
    rest.truncate(rest.len() - 3 * edges);
    rest.remove(0);
    Ok((rest, clips))
}
/// The pieces of each table drawn on its own, relative to its origin.
fn alone(t: &Table) -> Result<Vec<Piece>, Fail> {
    let l = lay(&Ast { name: None, entries: vec![Entry::Table(t.clone())] })?;
    let o = table_rects(&l.doc)?[0].origin;
    let (els, clips) = table_elements(&render_laid(&l)?, 0)?;
    els.iter().map(|e| piece(e, &o, &clips)).collect()
}
fn style_of(seen: &mut BTreeMap<String, BTreeMap<String, String>>, role: String, e: &El) -> Result<(), Fail> {
    let mut s = e.attrs.clone();
    for k in POS_X.iter().chain(&POS_Y).chain(&["clip-path", "height"]) {
        s.remove(*k);
    }
    match seen.get(&role) {
        None => {
            seen.insert(role, s);
        }
        Some(t) => ensure!(*t == s, "two {}s are drawn in different styles: {:?} and {:?}", role, t, s),
    }
    Ok(())
}
fn check_alike(a: &Ast) -> Checked {
    let l = lay(a)?;
    let (els, clips) = table_elements(&render_laid(&l)?, l.doc.edges().count())?;
    let rects = table_rects(&l.doc)?;
    let mut i = 0;
    let mut seen = BTreeMap::new();
    let tables: Vec<&Table> = a.tables().collect();
    ensure!(rects.len() == tables.len(), "{} tables instead of {}", rects.len(), tables.len());
    for (t, r) in tables.iter().zip(&rects) {
        let want = alone(t)?;
        let from = i;
        for w in &want {
            let Some(e) = els.get(i) else { fail!("the drawing of {:?} ends early: no {:?}", t.name, w) };
            let got = piece(e, &r.origin, &clips)?;
            ensure!(!differ(&got, w, true), "table {:?} is drawn with {:?} here, but with {:?} on its own (relative to the table)", t.name, got, w);
            i += 1;
        }
        // the same with other names
        let renamed = Table { name: "n".into(), fields: t.fields.iter().map(|f| Field { name: "n".into(), ..f.clone() }).collect() };
        for (w, v) in want.iter().zip(&alone(&renamed)?) {
            ensure!(!differ(w, v, false), "names change how table {:?} is drawn: {:?} became {:?}", t.name, v, w);
        }
        // one style per role
        let mine = &els[from..i];
        let mut roles = vec!["table name".to_string()];
        for f in &t.fields {
            roles.push("field name".into());
            roles.push(format!("type {}", f.ty.word()));
            roles.extend(f.key.map(|k| format!("badge {}", k.word())));
        }
        let texts: Vec<&El> = mine.iter().filter(|e| e.name == "text").collect();
        ensure!(texts.len() == roles.len(), "table {:?} is drawn with {} texts instead of {}", t.name, texts.len(), roles.len());
        for (role, e) in roles.into_iter().zip(texts) {
            style_of(&mut seen, role, e)?;
        }
        let discs: Vec<&El> = mine.iter().filter(|e| e.name == "circle").collect();
        let keys: Vec<Key> = t.fields.iter().filter_map(|f| f.key).collect();
        ensure!(discs.len() == keys.len(), "table {:?} is drawn with {} discs for {} badges", t.name, discs.len(), keys.len());
        for (k, e) in keys.iter().zip(discs) {
            style_of(&mut seen, format!("disc {}", k.word()), e)?;
        }
        for e in mine.iter() {
            match e.name.as_str() {
                "line" => style_of(&mut seen, "separator".into(), e)?,
                "rect" if e.a("clip-path").is_some() => style_of(&mut seen, "header background".into(), e)?,
                "rect" => style_of(&mut seen, "table background".into(), e)?,
                _ => {}
            }
        }
    }
    ensure!(i == els.len(), "{} elements belong to no table", els.len() - i);
    Ok(Tags::new(tables.len() > 1 && tables.iter().any(|t| !t.fields.is_empty())).class(l.doc.edges().count() > 0, "edges").class(tables.len() > 3, "several-grid-rows"))
}
pub fn c31(cx: &mut Ctx) {
    const RULE: &str = "non-trivial: several tables, one with rows";
    cx.facet("modules", RULE, 2_500, |big| ast(Cfg { fields: if big { 14 } else { 7 }, tables: if big { 14 } else { 9 }, ..Cfg::plain() }), check_alike);
    cx.facet("any-names", RULE, 1_500, |_| ast(Cfg { tables: 5, fields: 5, ..Cfg::any() }), check_alike);
    cx.facet("tall", "tables of tens to hundreds of rows of all types and keys, several grid rows deep; non-trivial as above", 60, |big| {
        let n: usize = if big { 800 } else { 60 };
        (vec(prop_oneof![3 => 0usize..6, 1 => n / 4..n], 2..10), any::<u32>())
            .prop_map(|(hs, salt)| Ast {
                name: None,
                entries: hs
                    .iter()
                    .enumerate()
                    .map(|(i, h)| {
                        let k = |j: usize, n: usize| (salt as usize).wrapping_add(i * 31 + j * 7 + j / 3) % n;
                        let field = |j: usize| Field {
                            name: format!("f{}", j),
                            ty: [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp][k(j, 4)],
                            key: [None, Some(Key::Pk), Some(Key::Fk)][k(j, 3)],
                        };
                        Entry::Table(Table { name: format!("t{}", i), fields: (0..*h).map(field).collect() })
                    })
                    .collect(),
            })
            .boxed()
    }, check_alike);
    cx.facet("vast", "hundreds of tables, of rows, or of relations; non-trivial as above", 20, |_| vast(Cfg::plain(), 280), check_alike);
    cx.facet("very-tall", "tables of hundreds of rows; non-trivial as above", 10, |big| tall(if big { 1_500 } else { 400 }), check_alike);
}

// ---------------------------------------------------------------- C33
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Locality {
    pub ast: Ast,
    /// Appended at the end.
    pub more: Vec<Table>,
    pub rels: Vec<(u32, u32, u32, u32)>,
    pub salt: u32,
}
/// The same structure under other names, types and keys, and relations by position.
fn disguise(a: &Ast, salt: u32) -> Ast {
    let mut n = salt;
    let mut pick = |k: usize| {
        n = n.wrapping_mul(1664525).wrapping_add(1013904223);
        (n >> 16) as usize % k
    };
    let mut names: HashMap<String, String> = HashMap::new();
    let mut fields: HashMap<String, String> = HashMap::new();
    let fresh = |map: &mut HashMap<String, String>, s: &String| -> String {
        let k = map.len();
        map.entry(s.clone())
            .or_insert_with(|| {
                let stem = ["z", "a longer name ", "`<&\"", "\u{1f980}", "_", "line\nbreak\n", "\t \r\n", "\u{0}\u{85}\u{2028}"][(k + salt as usize) % 8];
                format!("{}{}", stem.repeat([1, 1, 3, 40][(k / 8 + salt as usize / 8) % 4]), k)
            })
            .clone()
    };
    let entries = a
        .entries
        .iter()
        .map(|e| match e {
            Entry::Table(t) => Entry::Table(Table {
                name: fresh(&mut names, &t.name),
                fields: t
                    .fields
                    .iter()
                    .map(|f| Field {
                        name: fresh(&mut fields, &f.name),
                        ty: [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp][pick(4)],
                        key: [None, Some(Key::Pk), Some(Key::Fk)][pick(3)],
                    })
                    .collect(),
            }),
            Entry::Rel(x, y) => {
                let mut end = |e: &End| match e {
                    End::Entity(n) => End::Entity(fresh(&mut names, n)),
                    End::Field(n, f) => End::Field(fresh(&mut names, n), fresh(&mut fields, f)),
                };
                Entry::Rel(end(x), end(y))
            }
        })
        .collect();
    Ast { name: a.name.as_ref().map_or(Some("other".into()), |_| None), entries }
}
fn boxes(doc: &mir::Document) -> Vec<Option<Rect>> {
    let mut v = vec![];
    for t in doc.body().children() {
        let rows: Vec<NodeId> = doc.get_node(t).map(|n| n.children().collect()).unwrap_or_default();
        for id in std::iter::once(t).chain(rows) {
            v.push(doc.get_node(id).and_then(|n| n.rect()));
        }
    }
    v
}
fn lengths(doc: &mir::Document) -> Result<Vec<(f64, usize)>, Fail> {
    Ok(routes(doc)?.iter().map(|r| (path_len(r.pts), r.pts.len())).collect())
}
fn check_local(c: &Locality) -> Checked {
    let l = lay(&c.ast)?;
    let base = boxes(&l.doc);
    let lens = lengths(&l.doc)?;
    // names, types, keys
    let d = lay(&disguise(&c.ast, c.salt))?;
    ensure!(boxes(&d.doc) == base && d.view_box == l.view_box, "names, types or keys move tables: {:?} {:?} became {:?} {:?}", base, l.view_box, boxes(&d.doc), d.view_box);
    for (x, y) in routes(&l.doc)?.iter().zip(&routes(&d.doc)?) {
        ensure!(x.pts == y.pts, "names, types or keys change the route of edge #{}: {} became {}", x.edge, pts(x.pts), pts(y.pts));
    }
    // relations do not move tables
    let bare = Ast { name: None, entries: c.ast.entries.iter().filter(|e| matches!(e, Entry::Table(_))).cloned().collect() };
    let b = lay(&bare)?;
    ensure!(boxes(&b.doc) == base && b.view_box == l.view_box, "relations move tables: {:?} {:?} became {:?} {:?}", boxes(&b.doc), b.view_box, base, l.view_box);
    // tables appended later
    let mut m = c.ast.clone();
    m.entries.extend(c.more.iter().cloned().map(Entry::Table));
    let m = lay(&m)?;
    let now = boxes(&m.doc);
    ensure!(now.len() >= base.len() && now[..base.len()] == base[..], "appended tables move earlier ones: {:?} became {:?}", base, now);
    if let (Some(v), Some(w)) = (l.view_box, m.view_box) {
        ensure!(v.origin == w.origin && v.size.width == w.size.width && v.size.height <= w.size.height, "appended tables turn the view box {:?} into {:?}", v, w);
    }
    // relations appended later, in front, or in another order
    let tables: Vec<&Table> = c.ast.tables().collect();
    let mut extra: Vec<Entry> = vec![];
    if !tables.is_empty() {
        let end = |t: u32, f: u32| {
            let t = tables[t as usize % tables.len()];
            match f as usize % (t.fields.len() + 1) {
                0 => End::Entity(t.name.clone()),
                k => End::Field(t.name.clone(), t.fields[k - 1].name.clone()),
            }
        };
        extra = c.rels.iter().map(|(a, b, x, y)| Entry::Rel(end(*a, *b), end(*x, *y))).collect();
    }
    let mut after = c.ast.clone();
    after.entries.extend(extra.iter().cloned());
    let mut before = c.ast.clone();
    before.entries.splice(0..0, extra.iter().cloned());
    for (what, a, skip) in [("appended", &after, 0), ("prepended", &before, extra.len())] {
        let x = lay(a)?;
        let now = lengths(&x.doc)?;
        ensure!(now.len() == lens.len() + extra.len(), "{} edges after {} relations were {} to {}", now.len(), extra.len(), what, lens.len());
        for (i, (old, new)) in lens.iter().zip(&now[skip..]).enumerate() {
            ensure!(new.0 < old.0 + new.1 as f64, "{} relations lengthen the route of edge #{} from {} to {}", what, i, old.0, new.0);
        }
        let (v, w) = (lengths(&lay(&after)?.doc)?, &now);
        for (i, (old, new)) in v.iter().zip(w.iter().skip(skip)).enumerate() {
            ensure!((old.0 - new.0).abs() < old.1.max(new.1) as f64, "the order of relations changes the length of the route of edge #{} from {} to {}", i, old.0, new.0);
        }
    }
    Ok(Tags::new(!lens.is_empty()).class(!extra.is_empty(), "more-relations").class(!c.more.is_empty(), "more-tables"))
}
pub fn c33(cx: &mut Ctx) {
    fn with(a: BoxedStrategy<Ast>) -> BoxedStrategy<Locality> {
        let f = || Field { name: "f".into(), ty: Ty::Int, key: None };
        let table = (0usize..6).prop_map(move |k| Table { name: "more".into(), fields: (0..k).map(|_| f()).collect() });
        (a, vec(table, 0..4), vec((any::<u32>(), any::<u32>(), any::<u32>(), any::<u32>()), 0..4), any::<u32>())
            .prop_map(|(ast, more, rels, salt)| Locality { ast, more, rels, salt })
            .boxed()
    }
    cx.facet("modules", "non-trivial: at least one edge", 1_500, |big| with(ast(Cfg::layout(big))), check_local);
    cx.facet("uneven", "tables of very different heights; non-trivial: at least one edge", 1_500, |big| with(uneven(big)), check_local);
    cx.facet("vast", "hundreds of tables, of rows, or of relations; non-trivial: at least one edge", 6, |_| with(vast(Cfg::layout(false), 280)), check_local);
}

// ---------------------------------------------------------------- C36
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GOp {
    Node(u16),
    Port(u16),
    Edge(u16, u16),
}
fn check_graph_ops(ops: &Vec<GOp>) -> Checked {
    let side = [Orientation::Up, Orientation::Down, Orientation::Left, Orientation::Right];
    // places 0..35 are junctions, ports of one place always face the same way; some places are close
    // together: by less than a unit, down to the next number
    const X: [f32; 7] = [0.0, 12.5, 12.5625, f32::MIN_POSITIVE, -12.5, 12.500001, 1.0e6];
    const Y: [f32; 10] = [0.0, -7.0, -6.75, -6.9999995, 7.0, 0.5, 1.0e-3, 400.0, 400.03125, -1.0e6];
    let spot = |k: u16| match k {
        0..=69 => Point::new(X[k as usize % 7], Y[k as usize / 7]),
        _ => Point::new((k % 61) as f32 * 20.0 + 0.25, (k / 61) as f32 * 30.0 + 2_000.0),
    };
    // junctions: 0..35 and 1000..2000, ports: 35..70 and 2000..3000
    let junction = |k: u16| if k < 1000 { k % 35 } else { 1000 + k % 1000 };
    let port = |k: u16| if k < 1000 { 35 + k % 35 } else { 2000 + k % 1000 };
    let mut doc = mir::Document::new();
    let owner = doc.create_record(mir::RecordShapeBuilder::default().rounded(true).build().unwrap());
    let mut g = RouteGraph::new();
    let mut nodes: Vec<(RouteNodeId, Point, Option<Orientation>)> = vec![];
    let mut ports: Vec<(TerminalPortId, usize)> = vec![];
    let mut links: Vec<(usize, usize)> = vec![];
    let (mut again, mut twice) = (false, false);
    for (step, op) in ops.iter().enumerate() {
        // zero and negative zero are one place
        let place = |k: u16| {
            let p = spot(k);
            let z = |v: f32| if v == 0.0 && step % 3 == 2 { -v } else { v };
            Point::new(z(p.x), z(p.y))
        };
        match op {
            GOp::Node(_) | GOp::Port(_) => {
                let (at, o, id) = match op {
                    GOp::Node(k) => {
                        let at = place(junction(*k));
                        (at, None, sut("add_node", || g.add_node(at))?)
                    }
                    GOp::Port(k) | GOp::Edge(k, _) => {
                        let (at, o) = (place(port(*k)), side[port(*k) as usize % 4]);
                        let n = doc.get_node_mut(owner).unwrap();
                        let pid = n.add_terminal_port(owner, at, o);
                        let p = mir::TerminalPort::new(pid, at, o);
                        let id = sut("add_terminal_port", || g.add_terminal_port(&p))?;
                        ports.push((pid, 0));
                        (at, Some(o), id)
                    }
                };
                let i = match nodes.iter().position(|n| n.1 == at) {
                    Some(i) => {
                        again = true;
                        ensure!(nodes[i].0 == id, "adding {} again gives node {} instead of {}", at, id, nodes[i].0);
                        i
                    }
                    None => {
                        ensure!(nodes.iter().all(|n| n.0 != id), "the id {} of a new node is taken", id);
                        nodes.push((id, at, o));
                        nodes.len() - 1
                    }
                };
                if o.is_some() {
                    ports.last_mut().unwrap().1 = i;
                }
            }
            GOp::Edge(a, b) if !nodes.is_empty() => {
                let (a, b) = (*a as usize % nodes.len(), *b as usize % nodes.len());
                sut("add_edge", || g.add_edge(nodes[a].0, nodes[b].0))?;
                if links.contains(&(a, b)) || links.contains(&(b, a)) {
                    twice = true
                } else {
                    links.push((a, b))
                }
            }
            _ => {}
        }
        if step > 100 && step % 97 != 0 && step + 1 < ops.len() {
            continue;
        }
        sut("reading the graph", || -> Result<(), Fail> {
            ensure!(g.node_ids().collect::<Vec<_>>() == nodes.iter().map(|n| n.0).collect::<Vec<_>>(), "node ids are {:?} instead of {:?}", g.node_ids().collect::<Vec<_>>(), nodes);
            ensure!(g.nodes().count() == nodes.len(), "{} nodes instead of {}", g.nodes().count(), nodes.len());
            for (d, (id, at, o)) in g.nodes().zip(&nodes) {
                let Some(n) = g.get_node(*id) else { fail!("node {} is gone", id) };
                for n in [n, d] {
                    ensure!(n.location() == at && n.orientation() == *o, "node {} is {:?} instead of {:?} {:?}", id, n, at, o);
                    for s in side {
                        ensure!(n.is_connectable(s) == o.map_or(true, |o| o == s), "node {:?} facing {:?}: is_connectable({}) is wrong", at, o, s);
                    }
                }
            }
            for (p, i) in &ports {
                ensure!(g.get_terminal_port(*p) == Some(nodes[*i].0), "connection point {:?} is at {:?} instead of node {}", p, g.get_terminal_port(*p), nodes[*i].0);
            }
            let got: Vec<(RouteNodeId, RouteNodeId)> = g.edges().map(|e| (e.source_id(), e.target_id())).collect();
            let want: Vec<(RouteNodeId, RouteNodeId)> = links.iter().map(|l| (nodes[l.0].0, nodes[l.1].0)).collect();
            ensure!(got == want, "links are {:?} instead of {:?}", got, want);
            Ok(())
        })??;
    }
    Ok(Tags::new(links.len() > 1 && (again || twice)).class(again, "place-again").class(twice, "link-again").class(!ports.is_empty(), "ports"))
}
pub fn c36(cx: &mut Ctx) {
    cx.facet("histories", "random additions against a model, compared after every step; non-trivial: several links and a place or link added again", 20_000, |big| {
        let k = || prop_oneof![3 => 0u16..6, 1 => 0u16..256];
        let op = prop_oneof![3 => k().prop_map(GOp::Node), 2 => k().prop_map(GOp::Port), 5 => (k(), k()).prop_map(|(a, b)| GOp::Edge(a, b))];
        vec(op, 0..if big { 80 } else { 30 }).boxed()
    }, check_graph_ops);
    cx.facet("vast", "hundreds of additions; non-trivial as above", 60, |_| {
        let k = || prop_oneof![1 => 0u16..256, 4 => any::<u16>()];
        let op = prop_oneof![3 => k().prop_map(GOp::Node), 2 => k().prop_map(GOp::Port), 5 => (k(), k()).prop_map(|(a, b)| GOp::Edge(a, b))];
        vec(op, 100..1200).boxed()
    }, check_graph_ops);
}
