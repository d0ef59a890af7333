//! Writes a module down as program text, in any of the ways the grammar allows.
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A reel of choices; read cyclically, so that any reel (also an empty one) formats any module.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reel(pub Vec<u8>);

pub fn reel() -> BoxedStrategy<Reel> {
    prop_oneof![1 => Just(vec![]), 8 => vec(any::<u8>(), 1..48)].prop_map(Reel).boxed()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Gap {
    /// Blank space only.
    Inline,
    /// Blank space that may not be empty.
    Blank,
    /// PAD: blank space, newlines, comments.
    Pad,
    /// SEP, PAD
    Sep,
}

#[derive(Clone, Debug)]
pub enum Piece {
    Text(String),
    Gap(String),
}

pub struct Writer<'a> {
    reel: &'a [u8],
    pos: usize,
    pub pieces: Vec<Piece>,
    pub comments: bool,
    pub used_comment: bool,
    pub used_crlf: bool,
    pub used_semi: bool,
    pub used_escape: bool,
    pub used_quote: bool,
    last_word: bool,
}

const COMMENTS: [&str; 14] = [
    "//", "// x", "//{", "// }", "// `", "// erd a {", "//o--o", "/// a.b o--o c.d", "// é日本", "// ; \\ \"", "//\t//", "// `unterminated", "// ?#@",
    "//}{;.`",
];

impl<'a> Writer<'a> {
    pub fn new(reel: &'a Reel, comments: bool) -> Self {
        Writer {
            reel: &reel.0,
            pos: 0,
            pieces: vec![],
            comments,
            used_comment: false,
            used_crlf: false,
            used_semi: false,
            used_escape: false,
            used_quote: false,
            last_word: false,
        }
    }
    fn pick(&mut self, n: usize) -> usize {
        if self.reel.is_empty() {
            return 0;
        }
        // a cheap position-dependent twist so that a short reel does not repeat itself exactly
        let b = self.reel[self.pos % self.reel.len()] as usize + 37 * (self.pos / self.reel.len());
        self.pos += 1;
        (b % 251) % n
    }
    fn blanks(&mut self, min: usize) -> String {
        const B: [&str; 6] = ["", " ", "  ", "\t", " \t ", "     "];
        let k = self.pick(251);
        if k >= 249 {
            return [" ", "\t"][k - 249].repeat(300);
        }
        let s = B[k % 6];
        if min > 0 && s.is_empty() {
            " ".into()
        } else {
            s.into()
        }
    }
    fn newline(&mut self) -> &'static str {
        if self.pick(4) == 3 {
            self.used_crlf = true;
            "\r\n"
        } else {
            "\n"
        }
    }
    /// A comment, without the newline that ends it: a fixed one or a random one. Everything but a
    /// newline belongs to it, also what other languages take for one.
    fn comment(&mut self) -> String {
        const C: [&str; 24] = [
            "a", " ", "\r", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}", "\u{feff}", "\0", "/", "*", "{", "}", "`", "\\", ";", ".", "o--o", "erd", " id int",
            "\u{1f600}", "#",
        ];
        self.used_comment = true;
        if self.pick(2) == 0 {
            return COMMENTS[self.pick(COMMENTS.len())].to_string();
        }
        let k = self.pick(251);
        let n = if k >= 247 { 300 } else { k % 7 };
        let mut s = String::from("//");
        for _ in 0..n {
            s.push_str(C[self.pick(C.len())]);
        }
        s
    }
    fn lines(&mut self, n: usize, out: &mut String) {
        for _ in 0..n {
            out.push_str(&self.blanks(0));
            if self.comments && self.pick(3) == 2 {
                let c = self.comment();
                out.push_str(&c);
            }
            let nl = self.newline();
            out.push_str(nl);
        }
        out.push_str(&self.blanks(0));
    }
    fn gap(&mut self, g: Gap, need_blank: bool) {
        let mut s = String::new();
        match g {
            Gap::Inline => s = self.blanks(usize::from(need_blank)),
            Gap::Blank => s = self.blanks(1),
            Gap::Pad => {
                let k = self.pick(251);
                let n = if k == 250 { 70 } else { [0, 0, 0, 1, 2, 3][k % 6] };
                self.lines(n, &mut s);
                if s.is_empty() && need_blank {
                    s.push(' ');
                }
            }
            Gap::Sep => {
                if self.pick(3) == 2 {
                    self.used_semi = true;
                    s = self.blanks(0);
                    s.push(';');
                    let n = [0, 0, 1, 2][self.pick(4)];
                    self.lines(n, &mut s);
                } else {
                    let n = 1 + [0, 0, 1, 2][self.pick(4)];
                    self.lines(n, &mut s);
                }
            }
        }
        self.pieces.push(Piece::Gap(s));
    }
    fn raw(&mut self, t: &str) {
        self.pieces.push(Piece::Text(t.to_string()));
        self.last_word = t.chars().last().map_or(false, |c| c == '_' || c.is_ascii_alphanumeric());
    }
    fn spell(&mut self, name: &str) -> String {
        let quote = !is_plain_ident(name) || self.pick(4) == 3;
        if !quote {
            return name.to_string();
        }
        self.used_quote = true;
        self.quoted(name)
    }
    pub fn quoted(&mut self, name: &str) -> String {
        let mut s = String::from("`");
        for c in name.chars() {
            let simple = match c {
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '"' => Some("\\\""),
                '`' => Some("\\`"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            let must = c == '\\' || c == '`';
            match self.pick(5) {
                3 if (c as u32) < 0x10000 => {
                    self.used_escape = true;
                    if self.pick(2) == 0 {
                        s.push_str(&format!("\\u{:04x}", c as u32))
                    } else {
                        s.push_str(&format!("\\u{:04X}", c as u32))
                    }
                }
                k => match simple {
                    Some(e) if must || k == 4 || k == 2 => {
                        self.used_escape = true;
                        s.push_str(e)
                    }
                    _ => s.push(c),
                },
            }
        }
        s.push('`');
        s
    }
    /// Puts a token after a gap; adds a blank where two words would run together.
    fn tok(&mut self, g: Gap, t: &str) {
        let word = t.chars().next().map_or(false, |c| c == '_' || c.is_ascii_alphanumeric());
        let need = self.last_word && word;
        self.gap(g, need);
        self.raw(t);
    }
    fn name(&mut self, g: Gap, n: &str) {
        let t = self.spell(n);
        self.tok(g, &t);
    }
    fn end(&mut self, g: Gap, e: &End) {
        match e {
            End::Entity(n) => self.name(g, n),
            End::Field(n, f) => {
                self.name(g, n);
                self.tok(Gap::Inline, ".");
                self.name(Gap::Inline, f);
            }
        }
    }
    pub fn module(&mut self, a: &Ast) {
        self.tok(Gap::Pad, "erd");
        if let Some(n) = &a.name {
            self.name(Gap::Pad, n);
        }
        self.tok(Gap::Pad, "{");
        for (i, e) in a.entries.iter().enumerate() {
            let g = if i == 0 { Gap::Pad } else { Gap::Sep };
            match e {
                Entry::Table(t) => {
                    self.name(g, &t.name);
                    self.tok(Gap::Pad, "{");
                    for (j, f) in t.fields.iter().enumerate() {
                        self.name(if j == 0 { Gap::Pad } else { Gap::Sep }, &f.name);
                        self.tok(Gap::Inline, f.ty.word());
                        if let Some(k) = f.key {
                            self.tok(Gap::Inline, k.word());
                        }
                    }
                    self.tok(Gap::Pad, "}");
                }
                Entry::Rel(x, y) => {
                    self.end(g, x);
                    self.edge_gap();
                    self.raw("o--o");
                    self.edge_gap();
                    self.end(Gap::Inline, y);
                }
            }
        }
        self.tok(Gap::Pad, "}");
        self.gap(Gap::Pad, false);
        if self.comments && self.pick(4) == 3 {
            let c = self.comment();
            self.pieces.push(Piece::Gap(c));
        }
    }
    fn edge_gap(&mut self) {
        // never glued to the edge operator
        let before = self.pieces.len();
        self.gap(Gap::Pad, true);
        self.last_word = false;
        debug_assert!(self.pieces.len() == before + 1);
        let _ = Gap::Blank;
    }
    pub fn text(&self) -> String {
        self.pieces
            .iter()
            .map(|p| match p {
                Piece::Text(t) => t.as_str(),
                Piece::Gap(g) => g.as_str(),
            })
            .collect()
    }
}

pub fn write(a: &Ast, reel: &Reel) -> String {
    let mut w = Writer::new(reel, true);
    w.module(a);
    w.text()
}
