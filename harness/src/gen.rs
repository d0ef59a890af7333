//! Generators for names and modules.
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// Identifiers that need no quoting.
pub fn plain_name() -> BoxedStrategy<String> {
    let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['_']).collect();
    let cont: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
    prop_oneof![
        4 => select(vec!["a", "b", "c", "id", "o", "x1", "_", "users", "posts", "oo", "created_by"]).prop_map(String::from),
        2 => select(vec!["erd_", "ints", "integer", "uuid4", "pk", "fk", "Pk", "PKs", "FK2", "texts", "timestamps", "erdx",
                         "ERD", "Int", "_int", "in", "tex", "K", "P", "F", "PK_", "_PK", "int0", "er", "UUID", "timestam"]).prop_map(String::from),
        4 => (select(first), vec(select(cont), 0..9)).prop_map(|(f, c)| {
            let mut s = String::from(f);
            s.extend(c);
            s
        }),
    ]
    .prop_map(|s| if is_plain_ident(&s) { s } else { format!("{}_", s) })
    .boxed()
}

pub fn any_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => prop::char::range(' ', '~'),
        3 => select("<>&'\"`\\/;.{}o- ]=?!".chars().collect::<Vec<_>>()),
        2 => prop::char::range('\0', '\x1f'),
        1 => select(vec!['\u{7f}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{10000}']),
        3 => prop::char::any(),
    ]
    .boxed()
}

/// Any string at all, biased towards what could be mistaken for something else.
pub fn any_name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => plain_name(),
        2 => select(KEYWORDS.to_vec()).prop_map(String::from),
        3 => select(vec!["", " ", "a b", "<b>", "a<b", "&amp;", "&", "]]>", "<!--", "-->", "o--o", "a.b", "//x", "x // y", "`", "\\", "\\u0041",
                         "\n", "\r\n", "a\tb", "</text>", "\"", "'", "é", "日本語", "{", "}", ";", "a;b", "1", "\u{0}", "\u{8}", "%s", "{}", "&#0;", "<![CDATA["]).prop_map(String::from),
        4 => vec(any_char(), 0..8).prop_map(|v| v.into_iter().collect()),
        1 => long_name(),
    ]
    .boxed()
}
/// Names of tens to thousands of characters.
pub fn long_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(any_char(), 8..150).prop_map(|v| v.into_iter().collect()),
        2 => (any_char(), 8usize..400).prop_map(|(c, n)| std::iter::repeat(c).take(n).collect()),
        2 => (plain_name(), 2usize..60).prop_map(|(s, n)| vec![s; n].join(" ")),
        1 => (any_char(), any_char(), prop_oneof![3 => 100usize..300, 1 => 1_000usize..3_000]).prop_map(|(a, b, n)| {
            let mut s: String = std::iter::repeat(a).take(n).collect();
            s.push(b);
            s
        }),
    ]
    .boxed()
}

pub fn ty() -> BoxedStrategy<Ty> {
    select(vec![Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp]).boxed()
}
pub fn key() -> BoxedStrategy<Option<Key>> {
    select(vec![None, Some(Key::Pk), Some(Key::Fk)]).boxed()
}
pub fn field(name: BoxedStrategy<String>) -> BoxedStrategy<Field> {
    (name, ty(), key()).prop_map(|(name, ty, key)| Field { name, ty, key }).boxed()
}

#[derive(Clone)]
pub struct Cfg {
    pub names: BoxedStrategy<String>,
    /// Allow duplicate table / field names, and relations with undeclared ends.
    pub dups: bool,
    pub dangling: bool,
    pub tables: usize,
    pub fields: usize,
    pub rels: usize,
    /// Relations may stand anywhere among the tables.
    pub scatter: bool,
}
impl Cfg {
    pub fn plain() -> Cfg {
        Cfg { names: plain_name(), dups: true, dangling: true, tables: 8, fields: 7, rels: 8, scatter: true }
    }
    pub fn any() -> Cfg {
        Cfg { names: any_name(), ..Cfg::plain() }
    }
    /// For layout checks: names are irrelevant, so short ones; nothing dangling.
    pub fn layout(big: bool) -> Cfg {
        Cfg {
            names: select(vec!["a", "b", "c", "d"]).prop_map(String::from).boxed(),
            dups: false,
            dangling: false,
            tables: if big { 18 } else { 11 },
            fields: if big { 16 } else { 11 },
            rels: if big { 14 } else { 9 },
            scatter: false,
        }
    }
}

/// Modules that are large in one way: hundreds of tables, of rows in a table, or of relations.
pub fn vast(cfg: Cfg, n: usize) -> BoxedStrategy<Ast> {
    let (a, b, c) = (cfg.clone(), cfg.clone(), cfg);
    prop_oneof![
        1 => ast(Cfg { tables: n, fields: 2, rels: 4, ..a }),
        1 => ast(Cfg { tables: 3, fields: n, rels: 4, ..b }),
        1 => ast(Cfg { tables: 3, fields: 4, rels: n, ..c }),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
struct RelSpec {
    a: (u32, Option<u32>),
    b: (u32, Option<u32>),
    kind: u8,
    pos: u32,
}

/// Number of rows of a table: mostly small, sometimes tall, to vary heights in a grid row.
fn rows(max: usize) -> BoxedStrategy<usize> {
    let small = max.min(4);
    prop_oneof![3 => 0..=small, 2 => 0..=max].boxed()
}

pub fn ast(cfg: Cfg) -> BoxedStrategy<Ast> {
    let names = cfg.names.clone();
    let n2 = cfg.names.clone();
    let table = (names.clone(), rows(cfg.fields)).prop_flat_map(move |(n, k)| (Just(n), vec(field(n2.clone()), k..=k)));
    let end = || (any::<u32>(), prop_oneof![1 => Just(None), 4 => any::<u32>().prop_map(Some)]);
    let rel = (end(), end(), any::<u8>(), any::<u32>()).prop_map(|(a, b, kind, pos)| RelSpec { a, b, kind, pos });
    let c2 = cfg.clone();
    (
        prop::option::of(cfg.names.clone()),
        prop_oneof![1 => vec(table.clone(), 0..=2), 6 => vec(table, 0..=cfg.tables)],
        vec(rel, 0..=cfg.rels),
        any::<u8>(),
        any::<u8>(),
        cfg.names.clone(),
    )
        .prop_map(move |(name, tables, rels, dup, scatter, other)| lower(&c2, name, tables, rels, dup, scatter, other))
        .boxed()
}

fn lower(
    cfg: &Cfg,
    name: Option<String>,
    tables: Vec<(String, Vec<Field>)>,
    rels: Vec<RelSpec>,
    dup: u8,
    scatter: u8,
    other: String,
) -> Ast {
    let dups = cfg.dups && dup >= 200;
    let scatter = cfg.scatter && scatter >= 128;
    let mut ts: Vec<Table> = tables.into_iter().map(|(name, fields)| Table { name, fields }).collect();
    if !dups {
        let mut seen = std::collections::HashSet::new();
        for (i, t) in ts.iter_mut().enumerate() {
            while !seen.insert(t.name.clone()) {
                t.name = format!("{}_{}", t.name, i);
            }
            let mut fseen = std::collections::HashSet::new();
            for (j, f) in t.fields.iter_mut().enumerate() {
                while !fseen.insert(f.name.clone()) {
                    f.name = format!("{}{}", f.name, j);
                }
            }
        }
    }
    let end = |(t, f): (u32, Option<u32>)| -> End {
        if ts.is_empty() {
            return match f {
                None => End::Entity(other.clone()),
                Some(_) => End::Field(other.clone(), other.clone()),
            };
        }
        let t = &ts[t as usize % ts.len()];
        match f {
            Some(f) if !t.fields.is_empty() => End::Field(t.name.clone(), t.fields[f as usize % t.fields.len()].name.clone()),
            _ => End::Entity(t.name.clone()),
        }
    };
    let mut out: Vec<(u64, Entry)> = vec![];
    let n = ts.len() as u64;
    for (i, r) in rels.iter().enumerate() {
        let mut a = end(r.a);
        let mut b = end(r.b);
        match r.kind {
            0..=20 => b = a.clone(),
            21..=30 => {
                // same table
                if let (End::Field(t, _), false) = (&a, ts.is_empty()) {
                    b = End::Entity(t.clone());
                }
            }
            31..=45 if cfg.dangling => a = End::Entity(other.clone()),
            46..=60 if cfg.dangling => {
                if let End::Field(t, _) = &b {
                    b = End::Field(t.clone(), other.clone())
                } else {
                    b = End::Field(other.clone(), other.clone())
                }
            }
            61..=64 if cfg.dangling => {
                // an entity's field under another entity's name
                if let (End::Field(_, f), true) = (&a, ts.len() > 1) {
                    b = End::Field(ts[r.pos as usize % ts.len()].name.clone(), f.clone());
                }
            }
            _ => {}
        }
        if ts.is_empty() && !cfg.dangling {
            continue;
        }
        let pos = if scatter { r.pos as u64 % (n + 1) } else { n };
        out.push((pos * 1000 + i as u64, Entry::Rel(a, b)));
    }
    for (i, t) in ts.into_iter().enumerate() {
        out.push((i as u64 * 1000 + 999, Entry::Table(t)));
    }
    out.sort_by_key(|x| x.0);
    Ast { name, entries: out.into_iter().map(|x| x.1).collect() }
}

/// Consecutive code points, `from..to`. The cases of a facet take the basic plane block by block, then
/// blocks of the other planes at random; a failing block is halved until one character is left.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Span {
    pub from: u32,
    pub to: u32,
}
impl Span {
    pub fn chars(&self) -> impl Iterator<Item = char> {
        (self.from..self.to).filter_map(char::from_u32)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Spans(pub u32);
/// The numbers below `1 << bits`, in `blocks` equal blocks taken one after the other by the cases of a facet.
#[derive(Clone, Copy, Debug)]
pub struct Blocks {
    pub bits: u32,
    pub blocks: u32,
}
impl Strategy for Blocks {
    type Tree = Halving;
    type Value = Span;
    fn new_tree(&self, _: &mut proptest::test_runner::TestRunner) -> proptest::strategy::NewTree<Self> {
        let size = (1 << self.bits) / self.blocks;
        let k = crate::run::case_number() % self.blocks;
        let now = (k * size, (k + 1) * size);
        Ok(Halving { now, before: now, second: true })
    }
}
#[derive(Clone, Debug)]
pub struct Halving {
    now: (u32, u32),
    before: (u32, u32),
    second: bool,
}
impl Strategy for Spans {
    type Tree = Halving;
    type Value = Span;
    fn new_tree(&self, r: &mut proptest::test_runner::TestRunner) -> proptest::strategy::NewTree<Self> {
        use proptest::prelude::Rng as _;
        let n = crate::run::case_number();
        let bmp = 0x10000 / self.0;
        let any = r.rng().next_u32();
        let k = if n < bmp { n } else { bmp + any % (16 * bmp) };
        let now = (k * self.0, (k + 1) * self.0);
        Ok(Halving { now, before: now, second: true })
    }
}
impl proptest::strategy::ValueTree for Halving {
    type Value = Span;
    fn current(&self) -> Span {
        Span { from: self.now.0, to: self.now.1 }
    }
    fn simplify(&mut self) -> bool {
        let (a, b) = self.now;
        if b - a < 2 {
            return false;
        }
        self.before = self.now;
        self.now = (a, (a + b) / 2);
        self.second = false;
        true
    }
    fn complicate(&mut self) -> bool {
        if self.second {
            self.now = self.before;
            return false;
        }
        self.second = true;
        self.now = ((self.before.0 + self.before.1) / 2, self.before.1);
        true
    }
}

/// White space and comments that push what follows hundreds or tens of thousands of characters or lines away.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Far {
    pub kind: u8,
    pub n: usize,
}
impl Far {
    pub fn text(&self) -> String {
        let n = self.n;
        match self.kind % 8 {
            0 => "\n".repeat(n),
            1 => "\r\n".repeat(n),
            2 => " ".repeat(n),
            3 => "\t \n".repeat(n / 3 + 1),
            4 => format!("//{}\n", "x".repeat(n)),
            5 => format!("//{}\n", "\u{e9}\u{65e5}".repeat(n / 2 + 1)),
            6 => "// \u{1f600}\n".repeat(n / 5 + 1),
            _ => format!("//{}\n", "?} { `".repeat(n / 6 + 1)),
        }
    }
}
pub fn far() -> BoxedStrategy<Far> {
    let n = prop_oneof![3 => 100usize..1_100, 2 => 65_400usize..65_600, 1 => 1_000usize..70_000, 1 => 32_700usize..32_800, 1 => 4_000usize..4_200];
    (any::<u8>(), n).prop_map(|(kind, n)| Far { kind, n }).boxed()
}

/// A module of thousands or tens of thousands of entities, fields or relations, given by their number.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Huge {
    pub kind: u8,
    pub n: u32,
}
impl Huge {
    pub fn ast(&self) -> Ast {
        use crate::model::{Key, Ty};
        let n = self.n as usize;
        let fields = |k: usize| -> Vec<Field> {
            (0..k)
                .map(|i| Field {
                    name: format!("f{}", i),
                    ty: [Ty::Int, Ty::Uuid, Ty::Text, Ty::Timestamp][i / 3 % 4],
                    key: [None, Some(Key::Pk), None, Some(Key::Fk), None][i % 5],
                })
                .collect()
        };
        let table = |i: usize, k: usize| Entry::Table(Table { name: format!("t{}", i), fields: fields(k) });
        let entries = match self.kind % 3 {
            0 => (0..n).map(|i| table(i, i % 3)).collect(),
            1 => vec![table(0, 2), table(1, n), table(2, 1), table(3, 3)],
            _ => {
                let end = |i: usize| match i % 5 {
                    0 => End::Entity(format!("t{}", i % 3)),
                    1 => End::Field("t3".into(), "f0".into()),
                    k => End::Field(format!("t{}", i % 3), format!("f{}", k % 4)),
                };
                (0..3).map(|i| table(i, 3)).chain((0..n).map(|i| Entry::Rel(end(i), end(i / 5 + 1)))).collect()
            }
        };
        Ast { name: None, entries }
    }
}
pub fn huge(kinds: &'static [u8]) -> BoxedStrategy<Huge> {
    let n = prop_oneof![3 => 1_000u32..1_100, 2 => 4_090u32..4_110, 2 => 1_000u32..10_000, 1 => 32_760u32..32_780, 2 => 65_530u32..65_550];
    (select(kinds.to_vec()), n).prop_map(|(kind, n)| Huge { kind, n }).boxed()
}
