//! A small strict XML 1.0 reader: elements, attributes, text, references; no DTD, comments or CDATA (the renderer
//! emits none of them). Anything not well-formed is an error.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: BTreeMap<String, String>,
    pub kids: Vec<Node>,
}

impl El {
    pub fn els(&self) -> Vec<&El> {
        self.kids
            .iter()
            .filter_map(|k| match k {
                Node::El(e) => Some(e),
                _ => None,
            })
            .collect()
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .map(|k| match k {
                Node::Text(t) => t.clone(),
                Node::El(e) => e.text(),
            })
            .collect()
    }
    pub fn a(&self, k: &str) -> Option<&str> {
        self.attrs.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str) -> Result<f32, String> {
        let v = self.a(k).ok_or_else(|| format!("<{}> has no {}", self.name, k))?;
        let x: f32 = v.parse().map_err(|_| format!("<{}> {}={:?} is not a number", self.name, k, v))?;
        if !x.is_finite() {
            return Err(format!("<{}> {}={:?} is not finite", self.name, k, v));
        }
        Ok(x)
    }
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

struct X {
    c: Vec<char>,
    i: usize,
}
type R<T> = Result<T, String>;

impl X {
    fn err<T>(&self, m: &str) -> R<T> {
        let from = self.i.saturating_sub(30);
        let ctx: String = self.c[from..(self.i + 30).min(self.c.len())].iter().collect();
        Err(format!("{} at character {} (near {:?})", m, self.i, ctx))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1
        }
        self.i > s
    }
    fn name(&mut self) -> R<String> {
        let start = |c: char| c == '_' || c == ':' || c.is_alphabetic();
        let cont = |c: char| start(c) || c == '-' || c == '.' || c.is_numeric();
        let s = self.i;
        match self.peek() {
            Some(c) if start(c) => self.i += 1,
            _ => return self.err("expected a name"),
        }
        while matches!(self.peek(), Some(c) if cont(c)) {
            self.i += 1
        }
        Ok(self.c[s..self.i].iter().collect())
    }
    fn reference(&mut self) -> R<char> {
        // at '&'
        let s = self.i + 1;
        let mut j = s;
        while j < self.c.len() && self.c[j] != ';' && j - s < 12 {
            j += 1
        }
        if self.c.get(j) != Some(&';') {
            return self.err("bare '&'");
        }
        let body: String = self.c[s..j].iter().collect();
        let ch = match body.as_str() {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let code = if let Some(h) = body.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = body.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match code.and_then(char::from_u32) {
                    Some(c) if xml_char(c) => c,
                    _ => return self.err("bad reference"),
                }
            }
        };
        self.i = j + 1;
        Ok(ch)
    }
    fn element(&mut self) -> R<El> {
        // at '<'
        self.i += 1;
        let name = self.name()?;
        let mut attrs = BTreeMap::new();
        loop {
            let had = self.ws();
            match self.peek() {
                Some('>') => {
                    self.i += 1;
                    break;
                }
                Some('/') => {
                    self.i += 1;
                    if self.peek() != Some('>') {
                        return self.err("expected '>'");
                    }
                    self.i += 1;
                    return Ok(El { name, attrs, kids: vec![] });
                }
                _ => {}
            }
            if !had {
                return self.err("expected white space before an attribute");
            }
            let k = self.name()?;
            self.ws();
            if self.peek() != Some('=') {
                return self.err("expected '='");
            }
            self.i += 1;
            self.ws();
            let q = match self.peek() {
                Some(q @ ('"' | '\'')) => q,
                _ => return self.err("expected a quote"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c == q => break,
                    Some('<') => return self.err("'<' in an attribute"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) => {
                        v.push(c);
                        self.i += 1
                    }
                }
            }
            self.i += 1;
            if attrs.insert(k.clone(), v).is_some() {
                return self.err(&format!("duplicate attribute {}", k));
            }
        }
        let mut kids: Vec<Node> = vec![];
        let mut text = String::new();
        loop {
            match self.peek() {
                None => return self.err(&format!("<{}> is not closed", name)),
                Some('<') => {
                    if !text.is_empty() {
                        kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    if self.c.get(self.i + 1) == Some(&'/') {
                        self.i += 2;
                        let n = self.name()?;
                        if n != name {
                            return self.err(&format!("</{}> closes <{}>", n, name));
                        }
                        self.ws();
                        if self.peek() != Some('>') {
                            return self.err("expected '>'");
                        }
                        self.i += 1;
                        return Ok(El { name, attrs, kids });
                    }
                    kids.push(Node::El(self.element()?));
                }
                Some('&') => text.push(self.reference()?),
                Some(c) => {
                    if c == '>' && self.c[..self.i].ends_with(&[']', ']']) {
                        return self.err("']]>' in text");
                    }
                    text.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

pub fn parse(src: &str) -> Result<El, String> {
    // end-of-line normalisation
    let s = src.replace("\r\n", "\n").replace('\r', "\n");
    if let Some(c) = s.chars().find(|c| !xml_char(*c)) {
        return Err(format!("character U+{:04X} is not allowed in XML", c as u32));
    }
    let mut x = X { c: s.chars().collect(), i: 0 };
    x.ws();
    if x.peek() != Some('<') {
        return x.err("expected the root element");
    }
    let e = x.element()?;
    x.ws();
    if x.i < x.c.len() {
        return x.err("content after the root element");
    }
    Ok(e)
}
