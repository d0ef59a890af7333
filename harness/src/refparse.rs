//! Independent reading of the documented ERD grammar (EBNF at the top of src/parser.rs, comments as in the
//! examples). Used as the oracle for acceptance, rejection and the resulting module.
//!
//! Where the documentation is silent or the implementation is deliberately more lenient (`;` used as padding),
//! the verdict is `Neutral` and nothing is claimed.
use crate::model::*;
use std::ops::Range;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Word(String), // bare identifier or keyword
    Quoted(String),
    Edge,
    Ctrl(char), // { } ; .
    Nl,
}

#[derive(Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept(Ast),
    Reject(String),
    Neutral(&'static str),
}

/// The first thing that is no token: what, where it begins, and the first character after which no
/// continuation could have made it one.
#[derive(Clone, Debug)]
pub struct Bad {
    pub what: String,
    pub start: usize,
    pub at: usize,
}
enum LexOut {
    /// Tokens and their character ranges.
    Toks(Vec<(Tok, Range<usize>)>),
    Bad(Bad),
    Neutral(&'static str),
}

fn lex(src: &str) -> LexOut {
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out: Vec<(Tok, Range<usize>)> = vec![];
    let mut bad: Option<Bad> = None;
    let oops = |bad: &mut Option<Bad>, what: String, start: usize, at: usize| {
        if bad.is_none() {
            *bad = Some(Bad { what, start, at })
        }
    };
    let word = |c: char| c == '_' || c.is_ascii_alphanumeric();
    while i < cs.len() {
        let c = cs[i];
        match c {
            ' ' | '\t' => i += 1,
            '\n' => {
                out.push((Tok::Nl, i..i + 1));
                i += 1
            }
            '\r' => {
                if cs.get(i + 1) == Some(&'\n') {
                    out.push((Tok::Nl, i..i + 2));
                    i += 2
                } else {
                    return LexOut::Neutral("lone carriage return");
                }
            }
            '/' => {
                if cs.get(i + 1) == Some(&'/') {
                    while i < cs.len() && cs[i] != '\n' {
                        i += 1
                    }
                } else {
                    oops(&mut bad, format!("stray '/' at {}", i), i, i + 1);
                    i += 1
                }
            }
            '{' | '}' | ';' | '.' => {
                out.push((Tok::Ctrl(c), i..i + 1));
                i += 1
            }
            '`' => {
                let mut s = String::new();
                let mut j = i + 1;
                loop {
                    match cs.get(j) {
                        None => {
                            oops(&mut bad, format!("unterminated quoted name at {}", i), i, cs.len());
                            return LexOut::Bad(bad.unwrap());
                        }
                        Some('`') => break,
                        Some('\\') => {
                            let d = cs.get(j + 1).copied();
                            j += 2;
                            match d {
                                Some(x @ ('\\' | '/' | '"' | '`')) => s.push(x),
                                Some('b') => s.push('\u{8}'),
                                Some('f') => s.push('\u{c}'),
                                Some('n') => s.push('\n'),
                                Some('r') => s.push('\r'),
                                Some('t') => s.push('\t'),
                                Some('u') => {
                                    let hex: String = cs[j.min(cs.len())..(j + 4).min(cs.len())].iter().collect();
                                    let ok = hex.len() == 4 && hex.chars().all(|c| c.is_ascii_hexdigit());
                                    if !ok {
                                        let good = cs[j.min(cs.len())..].iter().take_while(|c| c.is_ascii_hexdigit()).count();
                                        oops(&mut bad, format!("bad \\u escape at {}", j), i, (j + good).min(cs.len()));
                                        return LexOut::Bad(bad.unwrap());
                                    }
                                    match char::from_u32(u32::from_str_radix(&hex, 16).unwrap()) {
                                        Some(c) => s.push(c),
                                        None => {
                                            oops(&mut bad, format!("not a scalar value at {}", j), i, j + 4);
                                        }
                                    }
                                    j += 4;
                                }
                                _ => {
                                    oops(&mut bad, format!("unknown escape at {}", j), i, (j - 1).min(cs.len()));
                                    return LexOut::Bad(bad.unwrap());
                                }
                            }
                        }
                        Some(x) => {
                            s.push(*x);
                            j += 1
                        }
                    }
                }
                out.push((Tok::Quoted(s), i..j + 1));
                i = j + 1;
            }
            c if c == '_' || c.is_ascii_alphabetic() => {
                if cs[i..].starts_with(&['o', '-', '-', 'o']) {
                    if cs.get(i + 4).map_or(false, |c| word(*c) || *c == '-') {
                        return LexOut::Neutral("o--o glued to a word");
                    }
                    out.push((Tok::Edge, i..i + 4));
                    i += 4;
                    continue;
                }
                let mut s = String::new();
                let start = i;
                while i < cs.len() && word(cs[i]) {
                    s.push(cs[i]);
                    i += 1
                }
                out.push((Tok::Word(s), start..i));
            }
            c if c.is_whitespace() || c.is_control() || c == '\u{feff}' => return LexOut::Neutral("other white space"),
            _ => {
                oops(&mut bad, format!("stray character {:?} at {}", c, i), i, i);
                i += 1
            }
        }
    }
    match bad {
        Some(b) => LexOut::Bad(b),
        None => LexOut::Toks(out),
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    strict: bool,
}
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn err<T>(&self, what: &str) -> R<T> {
        Err(format!("expected {} at token #{}, found {:?}", what, self.i, self.peek()))
    }
    /// PAD: newlines (a `;` here is beyond the documented grammar, but tolerated).
    fn pad(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Nl) => self.i += 1,
                Some(Tok::Ctrl(';')) => {
                    self.strict = false;
                    self.i += 1
                }
                _ => return,
            }
        }
    }
    /// SEP, PAD. Returns whether there was a separator at all.
    fn sep(&mut self) -> bool {
        match self.peek() {
            Some(Tok::Nl) | Some(Tok::Ctrl(';')) => {
                self.i += 1;
                self.pad();
                true
            }
            _ => false,
        }
    }
    fn ctrl(&mut self, c: char) -> R<()> {
        if self.peek() == Some(&Tok::Ctrl(c)) {
            self.i += 1;
            Ok(())
        } else {
            self.err(&format!("{:?}", c))
        }
    }
    fn ident_opt(&mut self) -> Option<String> {
        let s = match self.peek() {
            Some(Tok::Word(w)) if !KEYWORDS.contains(&w.as_str()) => w.clone(),
            Some(Tok::Quoted(q)) => q.clone(),
            _ => return None,
        };
        self.i += 1;
        Some(s)
    }
    fn ident(&mut self) -> R<String> {
        match self.ident_opt() {
            Some(s) => Ok(s),
            None => self.err("identifier"),
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Some(Tok::Word(x)) if x == w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn program(&mut self) -> R<Ast> {
        self.pad();
        if !self.word("erd") {
            return self.err("erd");
        }
        self.pad();
        let name = self.ident_opt();
        if name.is_some() {
            self.pad();
        }
        self.ctrl('{')?;
        self.pad();
        let mut entries = vec![];
        if self.peek() != Some(&Tok::Ctrl('}')) {
            entries.push(self.entry()?);
            loop {
                let at = self.i;
                let strict = self.strict;
                let sep = self.sep();
                if self.peek() == Some(&Tok::Ctrl('}')) {
                    // what was read is PAD, not SEP: only newlines are documented there
                    self.strict = strict && !self.t[at..self.i].contains(&Tok::Ctrl(';'));
                    break;
                }
                if !sep {
                    return self.err("separator or '}'");
                }
                entries.push(self.entry()?);
            }
        }
        self.ctrl('}')?;
        self.pad();
        if self.i < self.t.len() {
            return self.err("end of input");
        }
        Ok(Ast { name, entries })
    }
    fn entry(&mut self) -> R<Entry> {
        let name = self.ident()?;
        let a = if self.peek() == Some(&Tok::Ctrl('.')) {
            self.i += 1;
            End::Field(name, self.ident()?)
        } else {
            self.pad();
            if self.peek() == Some(&Tok::Ctrl('{')) {
                self.i += 1;
                return Ok(Entry::Table(Table { name, fields: self.fields()? }));
            }
            End::Entity(name)
        };
        self.pad();
        if self.peek() != Some(&Tok::Edge) {
            return self.err("o--o");
        }
        self.i += 1;
        self.pad();
        let name = self.ident()?;
        let b = if self.peek() == Some(&Tok::Ctrl('.')) {
            self.i += 1;
            End::Field(name, self.ident()?)
        } else {
            End::Entity(name)
        };
        Ok(Entry::Rel(a, b))
    }
    fn fields(&mut self) -> R<Vec<Field>> {
        self.pad();
        let mut fs = vec![];
        if self.peek() != Some(&Tok::Ctrl('}')) {
            fs.push(self.field()?);
            loop {
                let at = self.i;
                let strict = self.strict;
                let sep = self.sep();
                if self.peek() == Some(&Tok::Ctrl('}')) {
                    self.strict = strict && !self.t[at..self.i].contains(&Tok::Ctrl(';'));
                    break;
                }
                if !sep {
                    return self.err("separator or '}'");
                }
                fs.push(self.field()?);
            }
        }
        self.ctrl('}')?;
        Ok(fs)
    }
    fn field(&mut self) -> R<Field> {
        let name = self.ident()?;
        let ty = if self.word("int") {
            Ty::Int
        } else if self.word("uuid") {
            Ty::Uuid
        } else if self.word("text") {
            Ty::Text
        } else if self.word("timestamp") {
            Ty::Timestamp
        } else {
            return self.err("field type");
        };
        let key = if self.word("PK") {
            Some(Key::Pk)
        } else if self.word("FK") {
            Some(Key::Fk)
        } else {
            None
        };
        Ok(Field { name, ty, key })
    }
}

fn bare(t: &[(Tok, Range<usize>)]) -> Vec<Tok> {
    t.iter().map(|x| x.0.clone()).collect()
}

pub fn judge(src: &str) -> Verdict {
    let toks = match lex(src) {
        LexOut::Toks(t) => bare(&t),
        LexOut::Bad(b) => return Verdict::Reject(b.what),
        LexOut::Neutral(n) => return Verdict::Neutral(n),
    };
    let mut p = P { t: &toks, i: 0, strict: true };
    match p.program() {
        Err(e) => Verdict::Reject(e),
        Ok(_) if !p.strict => Verdict::Neutral("`;` used as padding"),
        Ok(a) => Verdict::Accept(a),
    }
}

/// Where a text first departs from the grammar.
pub enum Place {
    Nowhere,
    Neutral,
    Lexical(Bad),
    /// The token no program can have there (`None`: the text ends too early), and its characters.
    Syntactic { found: Option<Tok>, span: Range<usize>, before: Vec<Tok> },
}
pub fn place(src: &str) -> Place {
    let toks = match lex(src) {
        LexOut::Toks(t) => t,
        LexOut::Bad(b) => return Place::Lexical(b),
        LexOut::Neutral(_) => return Place::Neutral,
    };
    let t = bare(&toks);
    let mut p = P { t: &t, i: 0, strict: true };
    if p.program().is_ok() {
        return Place::Nowhere;
    }
    let n = src.chars().count();
    match toks.get(p.i) {
        Some((t, r)) => Place::Syntactic { found: Some(t.clone()), span: r.clone(), before: bare(&toks[..p.i]) },
        None => Place::Syntactic { found: None, span: n..n + 1, before: t },
    }
}
/// Can a program begin with these tokens followed by `next` (`None`: is it one as it stands)?
pub fn can_follow(before: &[Tok], next: Option<Tok>) -> bool {
    let mut t = before.to_vec();
    let n = t.len();
    t.extend(next.clone());
    let mut p = P { t: &t, i: 0, strict: true };
    match p.program() {
        Ok(_) => true,
        Err(_) => next.is_some() && p.i > n,
    }
}
