//! C01-C06, C30: the language.
use crate::fmtsrc::{self, reel, Piece, Reel, Writer};
use crate::gen::*;
use crate::model::*;
use crate::pipe;
use crate::refparse::{judge, Verdict};
use crate::run::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Src(pub String);

fn token_soup() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        6 => select(vec!["erd", "{", "}", ";", ".", "o--o", "\n", " ", "int", "uuid", "text", "timestamp", "PK", "FK"]).prop_map(String::from),
        3 => plain_name(),
        2 => select(vec!["`a`", "`", "``", "`\\u0041`", "`\\ud800`", "`\\q`", "`\\", "\\u", "//", "// x\n", "/", "\r\n", "\r", "\t", "-", "--", "o-", "?", "1", "é",
                         "\u{0}", "😀", "\u{feff}", "erd {", "o--oo"]).prop_map(String::from),
    ];
    (vec(piece, 0..40), any::<bool>())
        .prop_map(|(v, sp)| v.join(if sp { " " } else { "" }))
        .boxed()
}
fn raw_text() -> BoxedStrategy<String> {
    vec(any_char(), 0..120).prop_map(|v| v.into_iter().collect()).boxed()
}
/// Text of a program, then character-level damage.
fn damaged() -> BoxedStrategy<String> {
    let cfg = Cfg { tables: 4, fields: 4, rels: 4, ..Cfg::any() };
    (ast(cfg), reel(), vec((any::<u32>(), any::<u8>(), any_char()), 0..6))
        .prop_map(|(a, r, edits)| {
            let mut cs: Vec<char> = fmtsrc::write(&a, &r).chars().collect();
            for (p, k, c) in edits {
                let n = cs.len();
                if n == 0 {
                    break;
                }
                let i = p as usize % n;
                match k % 6 {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, c),
                    2 => cs[i] = c,
                    3 => cs.truncate(i),
                    4 => {
                        let j = (i + 1 + k as usize / 6) % n;
                        cs.swap(i, j)
                    }
                    _ => {
                        let t: Vec<char> = cs[i..(i + 1 + k as usize / 6).min(n)].to_vec();
                        for (o, x) in t.into_iter().enumerate() {
                            cs.insert(i + o, x)
                        }
                    }
                }
            }
            cs.into_iter().collect()
        })
        .boxed()
}
pub fn any_source(_: bool) -> BoxedStrategy<Src> {
    prop_oneof![3 => token_soup(), 2 => raw_text(), 5 => damaged()].prop_map(Src).boxed()
}

/// The oracle shared with the fuzz target.
pub fn check_total(src: &str) -> Result<(bool, bool), Fail> {
    let (m, e1, e2) = pipe::parse(src)?;
    ensure!(m.is_some() || !e1.is_empty() || !e2.is_empty(), "neither a module nor an error for {:?}", src);
    let n = src.chars().count();
    let spans = e1.iter().map(|e| e.span()).chain(e2.iter().map(|e| e.span()));
    for s in spans {
        ensure!(s.start <= s.end && s.start <= n && s.end <= n + 1, "error span {:?} is outside the text of {} characters: {:?}", s, n, src);
    }
    Ok((m.is_some(), !e1.is_empty() || !e2.is_empty()))
}

pub fn c01(cx: &mut Ctx) {
    cx.facet(
        "total",
        "arbitrary Unicode text, token soup, and damaged programs; non-trivial: at least one error was reported",
        60_000,
        any_source,
        |s| {
            let (m, e) = check_total(&s.0)?;
            Ok(Tags::new(e).class(m, "module").class(e, "errors").class(m && e, "recovered"))
        },
    );
    cx.facet("every-character", EVERY, 44, spans, |s| every_character(s, |t| check_total(t).map(|_| ())));
    cx.facet(
        "deep-repeats",
        "one fragment repeated many times around a program; non-trivial: at least 200 repetitions",
        400,
        |big| {
            let max: usize = if big { 3000 } else { 600 };
            (select(vec!["{", "}", "`", "?", "\n", ";", "a {", "a.", "o--o ", "// ", "erd ", "\\", "a int;", "a. o--o ", "`\\u", "\r", "é"]), 1usize..max, any::<bool>())
                .prop_map(|(f, n, tail)| Src(if tail { format!("erd {{ {}", f.repeat(n)) } else { format!("{} erd {{}}", f.repeat(n)) }))
                .boxed()
        },
        |s| {
            let (m, e) = check_total(&s.0)?;
            Ok(Tags::new(s.0.len() > 200).class(m, "module").class(e, "errors"))
        },
    );
}

/// Texts with one character in every kind of position.
const HOLES: [&str; 18] = [
    "~erd { a { id int } }",
    "erd~{ a { id int } }",
    "erd {} ~",
    "erd{}~",
    "erd { a ~{ id int } }",
    "erd { a~ { id int } }",
    "erd { ~a { id int } }",
    "erd { a { id int~PK } }",
    "erd { a { id int ~ z text } }",
    "erd { a { id~int } b.c o--o d.e }",
    "erd { a { id in~t } }",
    "erd { a.~b o--o c.d }",
    "erd { a.b ~o--o c.d }",
    "erd { a.b o--~o c.d }",
    "erd { /~ x\n a { id int } }",
    "erd { // x~y?\n a { id int } }",
    "erd { `a~b` { `~` int } }",
    "erd { `a\\~b` { id int } }",
];
fn every_character(s: &Span, f: fn(&str) -> Result<(), Fail>) -> Checked {
    for c in s.chars() {
        for h in HOLES {
            f(&h.replace('~', c.encode_utf8(&mut [0; 4])))?;
        }
    }
    Ok(Tags::new(true))
}
fn spans(_: bool) -> BoxedStrategy<Span> {
    Spans(1024).boxed()
}
const EVERY: &str = "all characters of the basic plane, and blocks of the others, each in eighteen kinds of position; non-trivial: always";
const VAST: &str = "hundreds of entities, of fields, or of relations; non-trivial: it has entries";
// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Written {
    pub ast: Ast,
    pub reel: Reel,
}
fn written(cfg: Cfg) -> BoxedStrategy<Written> {
    (ast(cfg), reel()).prop_map(|(ast, reel)| Written { ast, reel }).boxed()
}
fn small(cfg: Cfg) -> Cfg {
    Cfg { tables: 5, fields: 5, rels: 5, ..cfg }
}

/// Tags of how a module was written.
fn tags(a: &Ast, w: &Writer) -> Tags {
    let mut t = Tags::new(!a.entries.is_empty());
    t = t
        .class(w.used_comment, "comment")
        .class(w.used_crlf, "crlf")
        .class(w.used_semi, "semicolon")
        .class(w.used_quote, "quoted")
        .class(w.used_escape, "escape")
        .class(a.name.is_some(), "named")
        .class(a.rels().next().is_some(), "relation")
        .class(a.rels().any(|(x, y)| matches!(x, End::Entity(_)) || matches!(y, End::Entity(_))), "entity-end")
        .class(a.tables().any(|t| t.fields.is_empty()), "empty-entity");
    t
}

fn check_written(c: &Written) -> Checked {
    let mut w = Writer::new(&c.reel, true);
    w.module(&c.ast);
    let src = w.text();
    match judge(&src) {
        Verdict::Accept(a) if a == c.ast => {}
        v => panic!("reference parser disagrees with the writer: {:?} on {:?}", v, src),
    }
    let m = pipe::parse_ok(&src)?;
    let got = Ast::from_erd(&m);
    ensure!(got == c.ast, "parsed module differs\n  text: {:?}\n  got:  {:?}\n  want: {:?}", src, got, c.ast);
    Ok(tags(&c.ast, &w))
}

pub fn c02(cx: &mut Ctx) {
    cx.facet(
        "plain",
        "module over plain identifiers written in a random layout (blanks, newlines, CRLF, comments, `;`, quoting); non-trivial: it has entries",
        24_000,
        |_| written(small(Cfg::plain())),
        check_written,
    );
    cx.facet(
        "any-names",
        "module whose names are arbitrary strings, quoted with random escapes; non-trivial: it has entries",
        16_000,
        |_| written(small(Cfg::any())),
        check_written,
    );
    cx.facet(
        "wide",
        "larger modules (up to 24 entities, 20 fields each, 24 relations)",
        600,
        |_| written(Cfg { tables: 24, fields: 20, rels: 24, ..Cfg::any() }),
        check_written,
    );
    cx.facet(
        "far",
        FAR,
        100,
        |_| far_edits(0..1),
        |c| {
            let src = c.far.text() + &fmtsrc::write(&c.rest.ast, &c.rest.reel) + &c.far.text();
            let got = Ast::from_erd(&pipe::parse_ok(&src)?);
            ensure!(got == c.rest.ast, "parsed module is {:?} instead of {:?}", got, c.rest.ast);
            Ok(Tags::new(!got.entries.is_empty()))
        },
    );
    cx.facet(
        "vast",
        VAST,
        150,
        |_| (vast(Cfg::any(), 600), reel()).prop_map(|(ast, reel)| Written { ast, reel }).boxed(),
        check_written,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarText {
    pub far: Far,
    pub rest: Edits,
}
impl FarText {
    pub fn text(&self) -> String {
        self.far.text() + &edited(&self.rest)
    }
}
/// A program with `edits.start..edits.end` tokens changed, far down its text.
pub fn far_edits(edits: std::ops::Range<usize>) -> BoxedStrategy<FarText> {
    let cfg = Cfg { tables: 2, fields: 2, rels: 2, ..Cfg::plain() };
    (far(), ast(cfg), reel(), vec((any::<u32>(), any::<u8>(), any::<u8>()), edits)).prop_map(|(far, ast, reel, edits)| FarText { far, rest: Edits { ast, reel, edits } }).boxed()
}
pub const FAR: &str = "a program far down its text, after hundreds to tens of thousands of blanks, lines, or characters of comment";

// ---------------------------------------------------------------- C03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edits {
    pub ast: Ast,
    pub reel: Reel,
    pub edits: Vec<(u32, u8, u8)>,
}

/// Text-level differential against the reference parser. Returns what the reference said.
pub fn check_against_reference(src: &str) -> Result<&'static str, Fail> {
    let v = judge(src);
    let (m, e1, e2) = pipe::parse(src)?;
    let errs = e1.len() + e2.len();
    match v {
        Verdict::Neutral(_) => Ok("neutral"),
        Verdict::Reject(why) => {
            ensure!(errs > 0, "not a program ({}) but no error is reported for {:?}; module: {:?}", why, src, m.map(|m| m.to_string()));
            Ok("reject")
        }
        Verdict::Accept(a) => {
            ensure!(errs == 0, "a program of the grammar, but errors are reported: {:?} {:?} for {:?}", e1, e2, src);
            match m {
                None => fail!("no module for {:?}", src),
                Some(m) => ensure!(Ast::from_erd(&m) == a, "module differs for {:?}: {:?} instead of {:?}", src, Ast::from_erd(&m), a),
            }
            Ok("accept")
        }
    }
}

const INSERT: [&str; 22] = [
    "erd", "int", "uuid", "text", "timestamp", "PK", "FK", "a", "b", "`x`", "o--o", "{", "}", ".", ";", "\n", "?", "1", ":", ",", "`", "id int",
];

fn tokens(a: &Ast, r: &Reel) -> Vec<String> {
    let mut w = Writer::new(r, false);
    w.module(a);
    // gaps: keep separators as tokens, drop blanks
    let mut out = vec![];
    for p in &w.pieces {
        match p {
            Piece::Text(t) => out.push(t.clone()),
            Piece::Gap(g) => {
                for c in g.chars() {
                    match c {
                        ';' => out.push(";".into()),
                        '\n' => out.push("\n".into()),
                        _ => {}
                    }
                }
            }
        }
    }
    out
}

pub fn edited(c: &Edits) -> String {
    let mut ts = tokens(&c.ast, &c.reel);
    for (p, k, x) in &c.edits {
        let n = ts.len();
        if n == 0 {
            break;
        }
        let i = *p as usize % n;
        match k % 7 {
            0 | 1 => {
                ts.remove(i);
            }
            2 => ts.insert(i, INSERT[*x as usize % INSERT.len()].into()),
            3 => ts[i] = INSERT[*x as usize % INSERT.len()].into(),
            4 => {
                let t = ts[i].clone();
                ts.insert(i, t)
            }
            5 => {
                let j = (i + 1) % n;
                ts.swap(i, j)
            }
            _ => {
                ts.push(INSERT[*x as usize % INSERT.len()].into());
            }
        }
    }
    ts.join(" ")
}

fn check_reference_tags(src: &str) -> Checked {
    let v = check_against_reference(src)?;
    Ok(Tags::new(v == "reject").class(true, v))
}

pub fn edits(_: bool) -> BoxedStrategy<Edits> {
    let cfg = Cfg { tables: 3, fields: 3, rels: 3, ..Cfg::plain() };
    (ast(cfg), reel(), vec((any::<u32>(), any::<u8>(), any::<u8>()), 1..4)).prop_map(|(ast, reel, edits)| Edits { ast, reel, edits }).boxed()
}
pub fn vast_edits(_: bool) -> BoxedStrategy<Edits> {
    (vast(Cfg::plain(), 500), reel(), vec((any::<u32>(), any::<u8>(), any::<u8>()), 1..4)).prop_map(|(ast, reel, edits)| Edits { ast, reel, edits }).boxed()
}
pub fn sequences(_: bool) -> BoxedStrategy<Src> {
    let t = select(vec!["a", "b", "`int`", "int", "text", "PK", "FK", "o--o", "{", "}", ".", ".", "\n", ";", "erd", "a.b", "id int"]);
    (vec(t, 0..9), 0u8..5)
        .prop_map(|(v, ctx)| {
            let s = v.join(" ");
            Src(match ctx {
                0 => format!("erd {{ {} }}", s),
                1 => format!("erd {{ t {{ {} }} }}", s),
                2 => format!("erd {{ t {{ id int }}\n {} }}", s),
                3 => format!("erd {{ t.id {} }}", s),
                _ => format!("erd {} }}", s),
            })
        })
        .boxed()
}

pub fn c03(cx: &mut Ctx) {
    cx.facet(
        "token-edits",
        "program with 1-3 tokens deleted, inserted, replaced, duplicated, swapped or appended; non-trivial: the reference grammar rejects the result",
        40_000,
        edits,
        |c| check_reference_tags(&edited(c)),
    );
    cx.facet(
        "char-edits",
        "program text with characters deleted, inserted, replaced, swapped, duplicated, or truncated; token soup; non-trivial: rejected by the reference",
        40_000,
        |_| prop_oneof![4 => damaged(), 1 => token_soup()].prop_map(Src).boxed(),
        |s| check_reference_tags(&s.0),
    );
    cx.facet("every-character", EVERY, 56, spans, |s| every_character(s, |t| check_against_reference(t).map(|_| ())));
    cx.facet(
        "truncated",
        "every proper prefix class: a program cut anywhere before its last brace, or with a tail after it; non-trivial: rejected by the reference",
        16_000,
        |_| {
            let cfg = Cfg { tables: 3, fields: 3, rels: 3, ..Cfg::any() };
            let tail = prop_oneof![
                select(vec!["x", "}", "{", "erd {}", "erd { a { id int } }", ";x", "\n x", "?", "`", "`x`", "o--o", ".", "1", "a.b o--o c.d", "// c\nx", "a { id int }", "/", "int", "\n\n}", "\\"])
                    .prop_map(String::from),
                plain_name()
            ];
            (ast(cfg), reel(), any::<u32>(), prop::option::of(tail))
                .prop_map(|(a, r, at, tail)| {
                    let t = fmtsrc::write(&a, &r);
                    match tail {
                        Some(x) => {
                            // keep a trailing comment from swallowing the tail
                            Src(format!("{}\n{}", t, x))
                        }
                        None => {
                            let cs: Vec<char> = t.chars().collect();
                            let k = at as usize % cs.len();
                            Src(cs[..k].iter().collect())
                        }
                    }
                })
                .boxed()
        },
        |s| check_reference_tags(&s.0),
    );
    cx.facet(
        "token-sequences",
        "short random token sequences inside a module or entity body; non-trivial: rejected by the reference",
        30_000,
        sequences,
        |s| check_reference_tags(&s.0),
    );
    cx.facet(
        "far",
        "the same far down the text; non-trivial: rejected by the reference",
        200,
        |_| far_edits(1..3),
        |c| check_reference_tags(&c.text()),
    );
    cx.facet(
        "vast",
        "programs of hundreds of entities, fields, or relations with 1-3 tokens changed; non-trivial: rejected by the reference",
        150,
        vast_edits,
        |c| check_reference_tags(&edited(c)),
    );
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ch {
    Lit(char),
    Short(char),
    Hex(u16, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Quoted {
    pub chars: Vec<Ch>,
    pub place: u8,
}
fn ch() -> BoxedStrategy<Ch> {
    prop_oneof![
        5 => any_char().prop_map(Ch::Lit),
        3 => select("\\/\"`bfnrt".chars().collect::<Vec<_>>()).prop_map(Ch::Short),
        2 => (prop_oneof![any::<u16>(), 0u16..128, 0xd700u16..0xe010], any::<bool>()).prop_map(|(n, u)| Ch::Hex(n, u)),
    ]
    .boxed()
}
fn place(place: u8, q: &str) -> (String, fn(&Ast) -> Option<String>) {
    fn table(a: &Ast, i: usize) -> Option<&Table> {
        a.tables().nth(i)
    }
    match place % 6 {
        0 => (format!("erd {} {{}}", q), |a| a.name.clone()),
        1 => (format!("erd {{ {} {{ id int }} }}", q), |a| table(a, 0).map(|t| t.name.clone())),
        2 => (format!("erd {{ a {{ {} int PK; z text }} }}", q), |a| table(a, 0).and_then(|t| t.fields.get(0)).map(|f| f.name.clone())),
        3 => (format!("erd {{ a {{ id int }}\n {} o--o a.id }}", q), |a| match a.entries.last() {
            Some(Entry::Rel(End::Entity(n), _)) => Some(n.clone()),
            _ => None,
        }),
        4 => (format!("erd {{ a.{} o--o b.c }}", q), |a| match a.entries.last() {
            Some(Entry::Rel(End::Field(_, n), _)) => Some(n.clone()),
            _ => None,
        }),
        _ => (format!("erd {{ a.b o--o {}.c }}", q), |a| match a.entries.last() {
            Some(Entry::Rel(_, End::Field(n, _))) => Some(n.clone()),
            _ => None,
        }),
    }
}
fn check_quoted(c: &Quoted) -> Checked {
    let mut src = String::from("`");
    let mut want = String::new();
    let mut bad = false;
    let (mut esc, mut special) = (false, false);
    for x in &c.chars {
        match x {
            Ch::Lit('`') | Ch::Lit('\\') => {
                // not literal characters of a quoted name: write them escaped
                let Ch::Lit(l) = x else { unreachable!() };
                src.push('\\');
                src.push(*l);
                want.push(*l);
            }
            Ch::Lit(l) => {
                special |= !l.is_ascii_alphanumeric();
                src.push(*l);
                want.push(*l);
            }
            Ch::Short(s) => {
                esc = true;
                src.push('\\');
                src.push(*s);
                want.push(match s {
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    x => *x,
                });
            }
            Ch::Hex(n, up) => {
                esc = true;
                src.push_str(&if *up { format!("\\u{:04X}", n) } else { format!("\\u{:04x}", n) });
                match char::from_u32(*n as u32) {
                    Some(ch) => want.push(ch),
                    None => bad = true,
                }
            }
        }
    }
    src.push('`');
    let (text, pick) = place(c.place, &src);
    if bad {
        let (_, e1, e2) = pipe::parse(&text)?;
        ensure!(!e1.is_empty() || !e2.is_empty(), "an escape that is no Unicode scalar value is accepted silently: {:?}", text);
        return Ok(Tags::new(true).class(true, "surrogate"));
    }
    let m = pipe::parse_ok(&text)?;
    let got = pick(&Ast::from_erd(&m));
    ensure!(got.as_deref() == Some(&want[..]), "name decoded as {:?} instead of {:?} in {:?}", got, want, text);
    Ok(Tags::new(esc || special)
        .class(esc, "escape")
        .class(special, "special-literal")
        .class(want.is_empty(), "empty")
        .class(KEYWORDS.contains(&want.as_str()), "keyword"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Units {
    before: String,
    after: String,
    case: u64,
}
fn check_units(c: &Units) -> Checked {
    let mut r = c.case | 1;
    let mut spelt = |n: u32| -> String {
        format!("{:04x}", n)
            .chars()
            .map(|d| {
                r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if r >> 63 == 1 { d.to_ascii_uppercase() } else { d }
            })
            .collect()
    };
    for block in 0..256u32 {
        let units: Vec<(u32, String)> = (block * 256..block * 256 + 256).map(|n| (n, format!("`{}\\u{}{}`", c.before, spelt(n), c.after))).collect();
        let (good, bad): (Vec<_>, Vec<_>) = units.into_iter().partition(|u| char::from_u32(u.0).is_some());
        for (n, q) in bad {
            let (_, e1, e2) = pipe::parse(&format!("erd {{ {} {{ }} }}", q))?;
            ensure!(!e1.is_empty() || !e2.is_empty(), "the escape {:04x} is no Unicode scalar value, but accepted silently in {}", n, q);
        }
        let fields: Vec<String> = good.iter().map(|u| format!("{} int", u.1)).collect();
        let m = pipe::parse_ok(&format!("erd {{ a {{ {} }} }}", fields.join("\n")))?;
        let a = Ast::from_erd(&m);
        let Some(Entry::Table(t)) = a.entries.first() else { fail!("no entity") };
        ensure!(t.fields.len() == good.len(), "{} fields instead of {}", t.fields.len(), good.len());
        for (f, (n, q)) in t.fields.iter().zip(&good) {
            let want = format!("{}{}{}", c.before, char::from_u32(*n).unwrap(), c.after);
            ensure!(f.name == want, "name decoded as {:?} instead of {:?} in {}", f.name, want, q);
        }
    }
    Ok(Tags::new(true))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Literals {
    before: String,
    after: String,
    span: Span,
}
fn check_literals(c: &Literals) -> Checked {
    let chars: Vec<char> = c.span.chars().filter(|c| !['`', '\\'].contains(c)).collect();
    let want: Vec<String> = chars.iter().flat_map(|x| [format!("{}{}{}", c.before, x, c.after), x.to_string()]).collect();
    let fields: Vec<String> = want.iter().map(|n| format!("`{}` text", n)).collect();
    let m = pipe::parse_ok(&format!("erd {{ a {{ {} }} }}", fields.join("\n")))?;
    let a = Ast::from_erd(&m);
    let Some(Entry::Table(t)) = a.entries.first() else { fail!("no entity") };
    ensure!(t.fields.len() == want.len(), "{} fields instead of {}", t.fields.len(), want.len());
    for (f, w) in t.fields.iter().zip(&want) {
        ensure!(&f.name == w, "name decoded as {:?} instead of {:?}", f.name, w);
    }
    Ok(Tags::new(!chars.is_empty()))
}
pub fn c04(cx: &mut Ctx) {
    cx.facet("every-literal", "all characters of the basic plane, and blocks of the others, written as they are in names that begin and end at random, and alone; non-trivial: all but the surrogates", 20, |_| {
        ("[a-z\u{e9}\u{65e5} .]{0,3}", "[0-9a-z\u{e9}\u{1f600} .]{0,3}", Spans(1024)).prop_map(|(before, after, span)| Literals { before, after, span }).boxed()
    }, check_literals);
    cx.facet(
        "decode",
        "quoted name of literal characters and escapes, in each of six positions; non-trivial: it has an escape or a character other than a letter or digit",
        60_000,
        |_| {
            prop_oneof![
                1 => (vec(ch(), 10..400), any::<u8>()).prop_map(|(chars, place)| Quoted { chars, place }),
                16 => (vec(ch(), 0..10), any::<u8>()).prop_map(|(chars, place)| Quoted { chars, place }),
                1 => (select(KEYWORDS.to_vec()), any::<u8>()).prop_map(|(k, place)| Quoted { chars: k.chars().map(Ch::Lit).collect(), place }),
                1 => (any::<char>(), any::<u8>()).prop_map(|(k, place)| Quoted { chars: vec![Ch::Lit(k)], place }),
            ]
            .boxed()
        },
        check_quoted,
    );
    cx.facet(
        "every-unit",
        "one \\u escape; non-trivial: always",
        20_000,
        |_| (any::<u16>(), any::<bool>(), any::<u8>()).prop_map(|(n, u, place)| Quoted { chars: vec![Ch::Lit('a'), Ch::Hex(n, u), Ch::Lit('z')], place }).boxed(),
        |c| check_quoted(c).map(|t| Tags { nontrivial: true, ..t }),
    );
    cx.facet("all-units", "all 65,536 code units as \\u escapes, in random upper and lower case, within names that begin and end at random; non-trivial: always", 1, |_| {
        ("[a-z\u{e9}\u{65e5} .]{0,3}", "[g-z\u{e9}\u{1f600} .]{0,3}", any::<u64>()).prop_map(|(before, after, case)| Units { before, after, case }).boxed()
    }, check_units);
    cx.facet(
        "bad-escapes",
        "a quoted name with an unknown escape letter or an incomplete \\u escape; non-trivial: always",
        16_000,
        |_| {
            let bad = prop_oneof![
                any_char().prop_filter("known escape", |c| !"\\/\"`bfnrtu".contains(*c)).prop_map(|c| format!("\\{}", c)),
                ("[0-9a-fA-F]{0,3}", select("gGzZ-_ .é`".chars().collect::<Vec<_>>())).prop_map(|(h, c)| format!("\\u{}{}", h, c)),
            ];
            ("[a-z0-9 ]{0,4}", bad, "[a-z ]{0,4}", any::<u8>()).prop_map(|(a, b, c, p)| Src(place(p, &format!("`{}{}{}`", a, b, c)).0)).boxed()
        },
        |s| {
            match judge(&s.0) {
                Verdict::Reject(_) => {}
                v => panic!("reference does not reject {:?}: {:?}", s.0, v),
            }
            let (_, e1, e2) = pipe::parse(&s.0)?;
            ensure!(!e1.is_empty() || !e2.is_empty(), "an ill-formed escape is accepted silently: {:?}", s.0);
            Ok(Tags::new(true))
        },
    );
}

// ---------------------------------------------------------------- C05
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TwoWays {
    pub ast: Ast,
    pub r1: Reel,
    pub r2: Reel,
}
fn svg_of_text(src: &str) -> Result<String, Fail> {
    let m = pipe::parse_ok(src)?;
    let doc = sut("into_mir", || m.into_mir())?;
    let l = pipe::lay_doc(doc)?;
    pipe::render_laid(&l)
}
pub fn c05(cx: &mut Ctx) {
    fn two(cfg: Cfg) -> BoxedStrategy<TwoWays> {
        (ast(cfg), reel(), reel()).prop_map(|(ast, r1, r2)| TwoWays { ast, r1, r2 }).boxed()
    }
    fn check(c: &TwoWays) -> Checked {
        let (s1, s2) = (fmtsrc::write(&c.ast, &c.r1), fmtsrc::write(&c.ast, &c.r2));
        let (a, b) = (svg_of_text(&s1)?, svg_of_text(&s2)?);
        ensure!(a == b, "different SVG for the same tokens\n  {:?}\n  {:?}", s1, s2);
        // and the diagram is the module's own
        let direct = pipe::render_laid(&pipe::lay(&c.ast)?)?;
        ensure!(a == direct, "SVG of the text differs from the SVG of the module it says\n  {:?}", s1);
        Ok(Tags::new(s1 != s2 && !c.ast.entries.is_empty())
            .class(c.ast.resolved().len() > 0, "edges")
            .class(s1.contains("//") || s2.contains("//"), "comment")
            .class(s1.contains("\r\n") != s2.contains("\r\n"), "crlf-vs-lf")
            .class(s1.contains(';') != s2.contains(';'), "semicolon-vs-newline"))
    }
    cx.facet("two-writings", "one module written in two random layouts; non-trivial: the texts differ and the module has entries", 5_000, |_| two(Cfg { tables: 4, fields: 5, rels: 4, ..Cfg::plain() }), check);
    cx.facet("every-comment", "a comment holding one character, for all characters of the basic plane, and blocks of the others, in two places; non-trivial: all but the surrogates", 20, |_| Spans(1024).boxed(), |s| {
        let (mut a, mut b) = (String::new(), String::new());
        for c in s.chars().filter(|c| *c != '\n') {
            a.push_str(&format!("// {} ?}} {{\n", c));
            b.push_str(&format!("//{}\n", c));
        }
        let (x, y) = (svg_of_text("erd {\n a { id int PK }\n a o--o a.id }")?, svg_of_text(&format!("{}erd {{\n{} a {{ id int PK // x\n{} }}\n a o--o a.id }}\n{}", b, a, b, a))?);
        ensure!(x == y, "comments change the diagram");
        Ok(Tags::new(!a.is_empty()))
    });
    cx.facet("far", FAR, 40, |_| far_edits(0..1), |c| {
        let t = fmtsrc::write(&c.rest.ast, &c.rest.reel);
        let (x, y) = (svg_of_text(&t)?, svg_of_text(&(c.far.text() + &t))?);
        ensure!(x == y, "a diagram changes with the white space in front");
        Ok(Tags::new(!c.rest.ast.entries.is_empty()))
    });
    cx.facet("vast", VAST, 30, |_| (vast(Cfg::plain(), 260), reel(), reel()).prop_map(|(ast, r1, r2)| TwoWays { ast, r1, r2 }).boxed(), check);
    cx.facet("two-writings-any-names", "the same with arbitrary names, escaped differently", 3_000, |_| two(Cfg { tables: 4, fields: 4, rels: 3, ..Cfg::any() }), check);
}

// ---------------------------------------------------------------- C06
pub fn c06(cx: &mut Ctx) {
    fn check(a: &Ast) -> Checked {
        let m = a.to_erd();
        let text = sut("display", || m.to_string())?;
        let m2 = pipe::parse_ok(&text)?;
        let got = Ast::from_erd(&m2);
        ensure!(&got == a, "printed module reads back differently\n  text: {:?}\n  got: {:?}\n  want: {:?}", text, got, a);
        let text2 = sut("display", || m2.to_string())?;
        ensure!(text == text2, "printing is not stable: {:?} vs {:?}", text, text2);
        Ok(Tags::new(!a.entries.is_empty())
            .class(a.name.is_some(), "named")
            .class(a.rels().any(|(x, y)| matches!(x, End::Entity(_)) || matches!(y, End::Entity(_))), "entity-end")
            .class(a.tables().any(|t| t.fields.is_empty()), "empty-entity")
            .class(a.tables().any(|t| t.fields.iter().any(|f| f.key == Some(Key::Fk))), "FK"))
    }
    cx.facet("print-parse", "module over plain identifiers; non-trivial: it has entries", 40_000, |_| ast(small(Cfg::plain())), check);
    cx.facet("vast", VAST, 100, |_| vast(Cfg::plain(), 600), check);
    cx.facet("print-parse-wide", "up to 24 entities, 20 fields each, 24 relations", 600, |_| ast(Cfg { tables: 24, fields: 20, rels: 24, ..Cfg::plain() }), check);
}

// ---------------------------------------------------------------- C30
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stray {
    pub ast: Ast,
    pub reel: Reel,
    pub strays: Vec<(u32, String)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Strays {
    ast: Ast,
    reel: Reel,
    span: Span,
}
pub fn c30(cx: &mut Ctx) {
    fn strat(_: bool) -> BoxedStrategy<Stray> {
        let c = select("?@#$%&*()+=<>,:!~^|'\"[]0123456789éßλ日😀\\".chars().collect::<Vec<_>>());
        let run = vec(prop_oneof![5 => c, 1 => Just(' ')], 0..4);
        let first = select("?@#$%&*+=<>,:!~^|'\"[]09é日😀\\".chars().collect::<Vec<_>>());
        let stray = (first, run).prop_map(|(f, r)| {
            let mut s = String::from(f);
            s.extend(r);
            s
        });
        (ast(Cfg { tables: 3, fields: 4, rels: 3, ..Cfg::plain() }), reel(), vec((any::<u32>(), stray), 1..4))
            .prop_map(|(ast, reel, strays)| Stray { ast, reel, strays })
            .boxed()
    }
    fn check(c: &Stray) -> Checked {
        let mut w = Writer::new(&c.reel, false);
        w.module(&c.ast);
        // positions: just before a token, or at the very end
        let texts: Vec<usize> = w.pieces.iter().enumerate().filter(|(_, p)| matches!(p, Piece::Text(_))).map(|(i, _)| i).collect();
        let mut at: std::collections::BTreeMap<usize, String> = Default::default();
        for (p, s) in &c.strays {
            let k = *p as usize % (texts.len() + 1);
            let i = texts.get(k).copied().unwrap_or(w.pieces.len());
            at.entry(i).or_insert_with(|| s.clone());
        }
        let mut src = String::new();
        let mut inserted: Vec<std::ops::Range<usize>> = vec![];
        let mut n = 0;
        let (mut head, mut tail) = (false, false);
        for i in 0..=w.pieces.len() {
            if let Some(s) = at.get(&i) {
                let s = format!(" {} ", s);
                let k = s.chars().count();
                inserted.push(n..n + k);
                src.push_str(&s);
                n += k;
                head |= Some(&i) == texts.first();
                tail |= i == w.pieces.len();
            }
            if let Some(p) = w.pieces.get(i) {
                let t = match p {
                    Piece::Text(t) => t,
                    Piece::Gap(g) => g,
                };
                src.push_str(t);
                n += t.chars().count();
            }
        }
        let (m, e1, e2) = pipe::parse(&src)?;
        ensure!(!e1.is_empty() || !e2.is_empty(), "stray characters are not reported in {:?}", src);
        for e in e1.iter().map(|e| e.span()).chain(e2.iter().map(|e| e.span())) {
            ensure!(inserted.iter().any(|r| r.start <= e.start && e.start < r.end), "error at {:?}, but the stray characters are at {:?} in {:?}", e, inserted, src);
        }
        let Some(m) = m else { fail!("the module is lost for {:?} (errors {:?} {:?})", src, e1, e2) };
        let got = Ast::from_erd(&m);
        ensure!(got == c.ast, "another module is read\n  text: {:?}\n  got: {:?}\n  want: {:?}", src, got, c.ast);
        Ok(Tags::new(!c.ast.entries.is_empty()).class(head, "before").class(tail, "after").class(inserted.len() > 1, "several"))
    }
    cx.facet("every-character", "a program with one stray character, for all characters of the basic plane that belong to no token, and blocks of the others; non-trivial: there are such characters in the block", 16, |_| {
        (ast(Cfg { tables: 2, fields: 3, rels: 2, ..Cfg::plain() }), reel(), Spans(1024)).prop_map(|(ast, reel, span)| Strays { ast, reel, span }).boxed()
    }, |s| {
        let mut n = 0;
        for c in s.span.chars() {
            if c == '_' || c == '-' || c.is_ascii_alphabetic() || "{}.;/`\u{feff}".contains(c) || c.is_whitespace() || c.is_control() {
                continue;
            }
            n += 1;
            check(&Stray { ast: s.ast.clone(), reel: s.reel.clone(), strays: vec![(c as u32 / 3 * 7, c.to_string())] })?;
        }
        Ok(Tags::new(n > 0))
    });
    cx.facet("vast", "the same for programs of hundreds of entities, fields or relations, with up to 300 runs", 15, |_| {
        let stray = select(vec!["?", "#", "[]", "9", "日", "@ @", "\\"]).prop_map(String::from);
        (vast(Cfg::plain(), 400), reel(), vec((any::<u32>(), stray), 1..300)).prop_map(|(ast, reel, strays)| Stray { ast, reel, strays }).boxed()
    }, check);
    cx.facet("strays", "program with 1-3 runs of characters belonging to no token inserted before tokens or at the end; non-trivial: the module has entries", 20_000, strat, check);
}
