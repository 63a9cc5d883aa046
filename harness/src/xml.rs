//! Strict XML 1.0 + namespaces parser, independent of the code under test.

use std::fmt::Write;

pub const NS_W: &str = "http://schemas.openxmlformats.org/wordprocessingml/2006/main";
pub const NS_R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const NS_W14: &str = "http://schemas.microsoft.com/office/word/2010/wordml";
pub const NS_W15: &str = "http://schemas.microsoft.com/office/word/2012/wordml";
pub const NS_XML: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub ns: String,
    pub prefix: String,
    pub local: String,
    pub value: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct El {
    pub ns: String,
    pub prefix: String,
    pub local: String,
    pub attrs: Vec<Attr>,
    pub kids: Vec<Node>,
    /// byte offsets of the element in the source
    pub start: usize,
    pub end: usize,
    pub open_end: usize,
    pub self_closed: bool,
}

impl El {
    /// Conventional prefix for well-known namespaces, so oracles do not depend on the prefixes chosen.
    pub fn q(&self) -> String {
        qname(&self.ns, &self.prefix, &self.local)
    }
    pub fn is(&self, q: &str) -> bool {
        self.q() == q
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn child(&self, q: &str) -> Option<&El> {
        self.els().find(|e| e.is(q))
    }
    pub fn children(&self, q: &str) -> Vec<&El> {
        self.els().filter(|e| e.is(q)).collect()
    }
    pub fn attr(&self, q: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.q() == q).map(|a| a.value.as_str())
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    /// Text of a paragraph without the paragraphs nested in it.
    pub fn own_paragraph_text(&self) -> String {
        let mut s = String::new();
        for e in self.els() {
            if e.is("w:t") || e.is("w:delText") {
                s.push_str(&e.text());
            } else if !e.is("w:p") {
                s.push_str(&e.own_paragraph_text());
            }
        }
        s
    }
    pub fn own_text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Node::Text(t) = k {
                s.push_str(t)
            }
        }
        s
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn all(&self, q: &str) -> Vec<&El> {
        let mut v = Vec::new();
        self.walk(&mut |e| {
            if e.is(q) {
                v.push(e)
            }
        });
        v
    }
    pub fn path(&self, p: &[&str]) -> Option<&El> {
        let mut e = self;
        for q in p {
            e = e.child(q)?;
        }
        Some(e)
    }
    /// Canonical text: attributes sorted, namespace declarations dropped.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_to(&mut s);
        s
    }
    fn canon_to(&self, s: &mut String) {
        let _ = write!(s, "<{}", self.q());
        let mut at: Vec<(String, &str)> =
            self.attrs.iter().map(|a| (a.q(), a.value.as_str())).collect();
        at.sort();
        for (k, v) in at {
            let _ = write!(s, " {k}={v:?}");
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::Text(t) => {
                    let _ = write!(s, "{t:?}");
                }
                Node::El(e) => e.canon_to(s),
            }
        }
        s.push_str("</>");
    }
}

impl Attr {
    pub fn q(&self) -> String {
        qname(&self.ns, &self.prefix, &self.local)
    }
}

fn qname(ns: &str, prefix: &str, local: &str) -> String {
    let p = match ns {
        NS_W => "w",
        NS_R => "r",
        NS_W14 => "w14",
        NS_W15 => "w15",
        NS_XML => "xml",
        "" => "",
        _ => prefix,
    };
    if p.is_empty() {
        local.to_string()
    } else {
        format!("{p}:{local}")
    }
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32 >= 0xC0 && c != '\u{D7}' && c != '\u{F7}' && !c.is_whitespace() && !is_nonchar(c))
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == '\u{B7}'
}
fn is_nonchar(c: char) -> bool {
    matches!(c as u32, 0xFFFE | 0xFFFF)
}
pub fn legal_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.i.saturating_sub(30);
        let b = (self.i + 30).min(self.b.len());
        Err(format!("{m} at {} near {:?}", self.i, String::from_utf8_lossy(&self.b[a..b])))
    }
    fn peek(&self, p: &str) -> bool {
        self.b[self.i..].starts_with(p.as_bytes())
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\r' | b'\n') {
            self.i += 1;
        }
        self.i > a
    }
    fn qn(&mut self) -> R<(&'a str, &'a str)> {
        let a = self.i;
        let mut colon = None;
        let mut part_start = true;
        for (k, c) in self.s[a..].char_indices() {
            if c == ':' {
                if colon.is_some() || part_start {
                    return self.err("bad qualified name");
                }
                colon = Some(a + k);
                part_start = true;
                continue;
            }
            let ok = if part_start { name_start(c) } else { name_char(c) };
            if !ok {
                self.i = a + k;
                break;
            }
            part_start = false;
            self.i = a + k + c.len_utf8();
        }
        if self.i == a || part_start {
            return self.err("bad name");
        }
        match colon {
            Some(c) => Ok((&self.s[a..c], &self.s[c + 1..self.i])),
            None => Ok(("", &self.s[a..self.i])),
        }
    }
    fn reference(&mut self) -> R<char> {
        // at '&'
        let a = self.i;
        let Some(e) = self.s[a..].find(';').filter(|e| *e < 12) else { return self.err("bare &") };
        let body = &self.s[a + 1..a + e];
        let c = match body {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = body.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = body.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match n.and_then(char::from_u32).filter(|c| legal_char(*c)) {
                    Some(c) => c,
                    None => return self.err("undefined entity or bad character reference"),
                }
            }
        };
        self.i = a + e + 1;
        Ok(c)
    }
    fn comment(&mut self) -> R<()> {
        let a = self.i + 4;
        match self.s[a..].find("--") {
            Some(e) if self.b.get(a + e + 2) == Some(&b'>') => {
                self.i = a + e + 3;
                Ok(())
            }
            _ => self.err("bad comment"),
        }
    }
    fn pi(&mut self) -> R<()> {
        match self.s[self.i..].find("?>") {
            Some(e) => {
                if self.s[self.i + 2..].to_ascii_lowercase().starts_with("xml ") {
                    return self.err("misplaced XML declaration");
                }
                self.i += e + 2;
                Ok(())
            }
            None => self.err("bad processing instruction"),
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.peek("<!--") {
                self.comment()?;
            } else if self.peek("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self, scope: &mut Vec<(String, String)>, depth: usize) -> R<El> {
        if depth > 5000 {
            return self.err("too deep");
        }
        let start = self.i;
        self.i += 1;
        let (prefix, local) = self.qn()?;
        let mut raw: Vec<(&str, &str, String)> = Vec::new();
        let mark = scope.len();
        let self_closed;
        loop {
            let had_ws = self.ws();
            if self.peek("/>") {
                self.i += 2;
                self_closed = true;
                break;
            }
            if self.peek(">") {
                self.i += 1;
                self_closed = false;
                break;
            }
            if !had_ws {
                return self.err("expected space before attribute");
            }
            let (ap, al) = self.qn()?;
            self.ws();
            if !self.peek("=") {
                return self.err("expected =");
            }
            self.i += 1;
            self.ws();
            let quote = match self.b.get(self.i) {
                Some(q @ (b'"' | b'\'')) => *q,
                _ => return self.err("expected quote"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.s[self.i..].chars().next() {
                    None => return self.err("unterminated attribute"),
                    Some(c) if c as u32 == quote as u32 => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in attribute"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) if !legal_char(c) => return self.err("illegal character"),
                    // attribute-value normalisation
                    Some(c @ ('\t' | '\n' | '\r')) => {
                        v.push(' ');
                        self.i += c.len_utf8();
                    }
                    Some(c) => {
                        v.push(c);
                        self.i += c.len_utf8();
                    }
                }
            }
            if ap.is_empty() && al == "xmlns" {
                scope.push((String::new(), v));
            } else if ap == "xmlns" {
                if v.is_empty() {
                    return self.err("empty namespace for prefix");
                }
                if scope[mark..].iter().any(|(p, _)| p == al) {
                    return self.err("duplicate namespace declaration");
                }
                scope.push((al.to_string(), v));
            } else {
                raw.push((ap, al, v));
            }
        }
        let open_end = self.i;
        let lookup = |scope: &Vec<(String, String)>, p: &str| -> Option<String> {
            if p == "xml" {
                return Some(NS_XML.to_string());
            }
            scope.iter().rev().find(|(q, _)| q == p).map(|(_, u)| u.clone())
        };
        let ns = match lookup(scope, prefix) {
            Some(u) => u,
            None if prefix.is_empty() => String::new(),
            None => return self.err(&format!("undeclared prefix {prefix}")),
        };
        let mut attrs: Vec<Attr> = Vec::new();
        for (ap, al, v) in raw {
            let ans = if ap.is_empty() {
                String::new()
            } else {
                match lookup(scope, ap) {
                    Some(u) => u,
                    None => return self.err(&format!("undeclared attribute prefix {ap}")),
                }
            };
            if attrs.iter().any(|a| a.ns == ans && a.local == al) {
                return self.err(&format!("duplicate attribute {ap}:{al}"));
            }
            attrs.push(Attr { ns: ans, prefix: ap.to_string(), local: al.to_string(), value: v });
        }
        let mut el = El {
            ns,
            prefix: prefix.to_string(),
            local: local.to_string(),
            attrs,
            kids: vec![],
            start,
            end: self.i,
            open_end,
            self_closed,
        };
        if !self_closed {
            let mut text = String::new();
            loop {
                if self.i >= self.b.len() {
                    return self.err("unexpected end of input");
                }
                if self.peek("</") {
                    if !text.is_empty() {
                        el.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    self.i += 2;
                    let (p, l) = self.qn()?;
                    if p != prefix || l != local {
                        return self.err(&format!("mismatched end tag {p}:{l} for {prefix}:{local}"));
                    }
                    self.ws();
                    if !self.peek(">") {
                        return self.err("bad end tag");
                    }
                    self.i += 1;
                    break;
                } else if self.peek("<!--") {
                    self.comment()?;
                } else if self.peek("<![CDATA[") {
                    let a = self.i + 9;
                    match self.s[a..].find("]]>") {
                        Some(e) => {
                            if !self.s[a..a + e].chars().all(legal_char) {
                                return self.err("illegal character");
                            }
                            text.push_str(&self.s[a..a + e]);
                            self.i = a + e + 3;
                        }
                        None => return self.err("unterminated CDATA"),
                    }
                } else if self.peek("<?") {
                    self.pi()?;
                } else if self.peek("<") {
                    if !text.is_empty() {
                        el.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    el.kids.push(Node::El(self.element(scope, depth + 1)?));
                } else if self.peek("&") {
                    text.push(self.reference()?);
                } else if self.peek("]]>") {
                    return self.err("]]> in text");
                } else {
                    let c = self.s[self.i..].chars().next().unwrap();
                    if !legal_char(c) {
                        return self.err("illegal character");
                    }
                    self.i += c.len_utf8();
                    if c == '\r' {
                        // end-of-line normalisation
                        if !self.peek("\n") {
                            text.push('\n');
                        }
                    } else {
                        text.push(c);
                    }
                }
            }
        }
        el.end = self.i;
        scope.truncate(mark);
        Ok(el)
    }
}

pub fn parse(bytes: &[u8]) -> R<El> {
    let bytes = bytes.strip_prefix(b"\xef\xbb\xbf").unwrap_or(bytes);
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    if p.peek("<?xml") {
        match s.find("?>") {
            Some(e) => {
                let d = &s[..e];
                if !d.contains("version=\"1.0\"") {
                    return p.err("bad XML declaration");
                }
                let l = d.to_ascii_lowercase();
                if l.contains("encoding=") && !l.contains("encoding=\"utf-8\"") {
                    return p.err("declared encoding is not UTF-8");
                }
                p.i = e + 2;
            }
            None => return p.err("bad XML declaration"),
        }
    }
    p.misc()?;
    if !p.peek("<") {
        return p.err("no root element");
    }
    let mut scope = Vec::new();
    let el = p.element(&mut scope, 0)?;
    p.misc()?;
    if p.i != s.len() {
        return p.err("content after root element");
    }
    Ok(el)
}
