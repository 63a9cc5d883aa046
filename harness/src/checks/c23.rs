//! C23: the JSON export is valid, shows every setting and tells different documents apart.

use super::{Group, Meta};
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::xml;
use crate::Tier;
use docx_rs::*;
use std::collections::HashMap;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "the export is read by a JSON parser of the harness, which rejects members given twice".into(),
            "paragraph ids and relationship ids drawn by the library are renamed in order of appearance".into(),
            "which documents mean the same is decided by the models of the writer checks, not by the library".into(),
        ],
    }
}

// ------------------------------------------------------------------------------------------- JSON

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn fail<T>(&self, what: &str) -> Result<T, String> {
        let a = self.i.saturating_sub(30);
        Err(format!("{what} at {} near {:?}", self.i, String::from_utf8_lossy(&self.s[a..(self.i + 20).min(self.s.len())])))
    }
    fn eat(&mut self, t: &str) -> bool {
        let ok = self.s[self.i..].starts_with(t.as_bytes());
        if ok {
            self.i += t.len();
        }
        ok
    }
    fn hex(&mut self) -> Result<u32, String> {
        let Some(h) = self.s.get(self.i..self.i + 4).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u32::from_str_radix(h, 16).ok()) else {
            return self.fail("bad escape");
        };
        self.i += 4;
        Ok(h)
    }
    fn string(&mut self) -> Result<String, String> {
        if !self.eat("\"") {
            return self.fail("expected a string");
        }
        let mut out: Vec<u8> = vec![];
        loop {
            match self.s.get(self.i) {
                None => return self.fail("string without end"),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|_| "not UTF-8".into());
                }
                Some(c) if *c < 0x20 => return self.fail("control character in a string"),
                Some(b'\\') => {
                    self.i += 2;
                    let c = match self.s.get(self.i - 1) {
                        Some(b'"') => '"',
                        Some(b'\\') => '\\',
                        Some(b'/') => '/',
                        Some(b'b') => '\u{8}',
                        Some(b'f') => '\u{c}',
                        Some(b'n') => '\n',
                        Some(b'r') => '\r',
                        Some(b't') => '\t',
                        Some(b'u') => {
                            let mut h = self.hex()?;
                            if (0xd800..0xdc00).contains(&h) {
                                if !self.eat("\\u") {
                                    return self.fail("half of a surrogate pair");
                                }
                                let low = self.hex()?;
                                h = 0x10000 + ((h - 0xd800) << 10) + (low.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            match char::from_u32(h) {
                                Some(c) => c,
                                None => return self.fail("bad escape"),
                            }
                        }
                        _ => return self.fail("bad escape"),
                    };
                    out.extend(c.to_string().bytes());
                }
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let a = self.i;
        self.eat("-");
        let digits = |p: &mut Self| {
            let b = p.i;
            while p.s.get(p.i).is_some_and(|c| c.is_ascii_digit()) {
                p.i += 1;
            }
            p.i - b
        };
        let lead = self.s.get(self.i) == Some(&b'0');
        let n = digits(self);
        if n == 0 || (lead && n > 1) {
            return self.fail("bad number");
        }
        if self.eat(".") && digits(self) == 0 {
            return self.fail("bad number");
        }
        if self.eat("e") || self.eat("E") {
            let _ = self.eat("+") || self.eat("-");
            if digits(self) == 0 {
                return self.fail("bad number");
            }
        }
        Ok(J::Num(String::from_utf8_lossy(&self.s[a..self.i]).into()))
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 500 {
            return self.fail("too deep");
        }
        self.ws();
        let v = match self.s.get(self.i) {
            Some(b'{') => {
                self.i += 1;
                let mut o: Vec<(String, J)> = vec![];
                self.ws();
                if !self.eat("}") {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        if o.iter().any(|x| x.0 == k) {
                            return self.fail(&format!("member {k:?} given twice"));
                        }
                        self.ws();
                        if !self.eat(":") {
                            return self.fail("expected a colon");
                        }
                        let v = self.value()?;
                        o.push((k, v));
                        self.ws();
                        if self.eat("}") {
                            break;
                        }
                        if !self.eat(",") {
                            return self.fail("expected a comma");
                        }
                    }
                }
                J::Obj(o)
            }
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if !self.eat("]") {
                    loop {
                        a.push(self.value()?);
                        self.ws();
                        if self.eat("]") {
                            break;
                        }
                        if !self.eat(",") {
                            return self.fail("expected a comma");
                        }
                    }
                }
                J::Arr(a)
            }
            Some(b'"') => J::Str(self.string()?),
            Some(b'-' | b'0'..=b'9') => self.number()?,
            _ if self.eat("true") => J::Bool(true),
            _ if self.eat("false") => J::Bool(false),
            _ if self.eat("null") => J::Null,
            _ => return self.fail("expected a value"),
        };
        self.depth -= 1;
        Ok(v)
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s: s.as_bytes(), i: 0, depth: 0 };
    let v = p.value()?;
    p.ws();
    if p.i < s.len() {
        return p.fail("text after the value");
    }
    Ok(v)
}

impl J {
    fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    fn holds(&self, s: &str) -> bool {
        match self {
            J::Str(x) => x.contains(s),
            J::Arr(a) => a.iter().any(|x| x.holds(s)),
            J::Obj(o) => o.iter().any(|(k, x)| k.contains(s) || x.holds(s)),
            _ => false,
        }
    }
    fn leaves(&self, at: &str, out: &mut Vec<(String, String)>) {
        match self {
            J::Arr(a) => a.iter().enumerate().for_each(|(i, x)| x.leaves(&format!("{at}/{i}"), out)),
            J::Obj(o) => o.iter().for_each(|(k, x)| x.leaves(&format!("{at}/{k}"), out)),
            x => out.push((at.to_string(), format!("{x:?}"))),
        }
    }
}

/// Renames ids drawn by the library in order of appearance.
fn rename(j: &mut J, ids: &mut Vec<String>) {
    match j {
        J::Obj(o) => {
            let paragraph = o.iter().any(|x| x.0 == "hasNumbering");
            for (k, v) in o.iter_mut() {
                match v {
                    J::Str(s) if (k == "id" && paragraph) || (k == "id" && s.starts_with("rId")) || k == "rid" || (k == "parentParagraphId") => {
                        let n = ids.iter().position(|i| i == s).unwrap_or_else(|| {
                            ids.push(s.clone());
                            ids.len() - 1
                        });
                        *s = format!("#{n}");
                    }
                    _ => rename(v, ids),
                }
            }
        }
        J::Arr(a) => a.iter_mut().for_each(|x| rename(x, ids)),
        _ => {}
    }
}

fn export(d: &Docx) -> Result<J, String> {
    let text = guarded(|| d.json())?;
    let mut j = parse(&text)?;
    rename(&mut j, &mut vec![]);
    Ok(j)
}

// ----------------------------------------------------------------------------------------- judging

/// Exports every document of a group; documents with the same export must mean the same.
fn tell_apart(l: &mut Leaf, g: &Group, carry: bool) {
    let mut seen: HashMap<String, usize> = HashMap::new();
    for (i, c) in g.cases.iter().enumerate() {
        // the export is documented to leave theme metadata of colors out
        if c.name.starts_with("theme ") || g.name.starts_with("theme ") || g.name.starts_with("style theme ") {
            continue;
        }
        l.evals += 1;
        l.transitions += 1;
        l.cases.push(hash64(format!("{}/{}", g.name, c.name).as_bytes()));
        let j = match export(&(c.make)()) {
            Ok(j) => j,
            Err(e) => {
                l.fail("not valid JSON", format!("{}: {}: {e}", g.name, c.name));
                continue;
            }
        };
        let text = format!("{j:?}");
        l.states.push(hash64(text.as_bytes()));
        // blanks at the ends of custom items are not kept (a finding of the string check)
        let (trims, json) = (g.name.starts_with("custom item text"), g.name.starts_with("web extension property value"));
        let want = match () {
            _ if trims => c.want.trim().to_string(),
            _ if json => c.want.replace('"', "\\\""),
            _ => c.want.clone(),
        };
        if carry && want.chars().all(xml::legal_char) && !j.holds(&want) {
            l.fail(format!("not shown: {}", g.name), format!("{} = {}", g.name, c.name));
            continue;
        }
        match seen.get(&text) {
            Some(&k) => {
                let (a, b) = (&g.cases[k], c);
                let legal = |s: &str| -> String {
                    let s: String = s.chars().filter(|c| !carry || xml::legal_char(*c)).collect();
                    if trims { s.trim().into() } else { s }
                };
                if legal(&a.want) != legal(&b.want) {
                    l.fail(if carry { format!("not told apart: {}", g.name) } else { format!("not told apart: {}: {}", g.name, c.name) }, format!("{}: {:?} and {:?} export the same", g.name, a.name, b.name));
                    continue;
                }
            }
            None => {
                seen.insert(text, i);
            }
        }
        l.validated += 1;
    }
    l.outcome = format!("{} exports", seen.len());
}

fn structures() -> Vec<Group> {
    let mut out = vec![];
    for &h in PARA_HOSTS.iter().filter(|h| !h.starts_with("toc")) {
        let mut cases = vec![];
        let mut add = |name: String, d: Doc| {
            cases.push(super::Case { name, want: doc_show(&d.neutral()), make: Box::new(move || d.to_docx()) });
        };
        for w in RUN_HOSTS {
            for (n, k) in run_leaves() {
                add(format!("{n} in {w}"), place(h, Pa { id: None, num: None, style: None, kids: vec![wrap(w, vec![k.clone()])] }, 1));
            }
        }
        for (n, f) in features() {
            add(format!("feature {n}"), place(h, f(1), 1));
        }
        out.push(Group { name: format!("structures in {h}"), cases });
    }
    out
}

/// What sections and paragraphs can hold besides runs.
fn containers() -> Vec<Group> {
    let p = |t: &str| Paragraph::new().add_run(Run::new().add_text(t));
    let t = |s: &str| Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().add_run(Run::new().add_text(s)))])]);
    let c = |id: usize| Comment::new(id).author("a").date("2020-01-01T00:00:00Z").add_paragraph(Paragraph::new().add_run(Run::new().add_text("remark")));
    type Add<T> = Box<dyn Fn(T) -> T + Send + Sync>;
    let sections: Vec<(&str, Add<Section>)> = vec![
        ("paragraph", Box::new(move |s| s.add_paragraph(p("x")))),
        ("other paragraph", Box::new(move |s| s.add_paragraph(p("y")))),
        ("table", Box::new(move |s| s.add_table(t("x")))),
        ("bookmark start", Box::new(|s| s.add_bookmark_start(7, "b"))),
        ("other bookmark start", Box::new(|s| s.add_bookmark_start(7, "c"))),
        ("bookmark end", Box::new(|s| s.add_bookmark_end(7))),
        ("other bookmark end", Box::new(|s| s.add_bookmark_end(8))),
        ("comment start", Box::new(move |s| s.add_comment_start(c(3)))),
        ("other comment start", Box::new(move |s| s.add_comment_start(c(4)))),
        ("comment end", Box::new(|s| s.add_comment_end(3))),
        ("other comment end", Box::new(|s| s.add_comment_end(4))),
    ];
    let paragraphs: Vec<(&str, Add<Paragraph>)> = vec![
        ("text", Box::new(|p| p.add_run(Run::new().add_text("1")))),
        ("page number", Box::new(|p| p.add_page_num(PageNum::new()))),
        ("page count", Box::new(|p| p.add_num_pages(NumPages::new()))),
        ("tag", Box::new(|p| p.add_structured_data_tag(StructuredDataTag::new().add_run(Run::new().add_text("1"))))),
        ("named tag", Box::new(|p| p.add_structured_data_tag(StructuredDataTag::new().alias("n").add_run(Run::new().add_text("1"))))),
        ("tag in a tag", Box::new(|p| {
            let mut t = StructuredDataTag::new();
            t.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_run(Run::new().add_text("1")))));
            p.add_structured_data_tag(t)
        })),
    ];
    let (s, q) = (Arc::new(sections), Arc::new(paragraphs));
    let mut cases = (vec![], vec![]);
    let case = |name: String, make: Box<dyn Fn() -> Docx + Send + Sync>| super::Case { want: name.clone(), name, make };
    for i in 0..=s.len() {
        for j in 0..=i.min(1) * s.len() {
            let s = s.clone();
            let names: Vec<&str> = [i, j].iter().filter(|k| **k > 0).map(|k| s[*k - 1].0).collect();
            cases.0.push(case(format!("{names:?}"), Box::new(move || {
                let mut x = Section::new();
                for k in [i, j].into_iter().filter(|k| *k > 0) {
                    x = s[k - 1].1(x);
                }
                Docx::new().add_section(x)
            })));
        }
    }
    for i in 0..=q.len() {
        for j in 0..=i.min(1) * q.len() {
            let q = q.clone();
            let names: Vec<&str> = [i, j].iter().filter(|k| **k > 0).map(|k| q[*k - 1].0).collect();
            cases.1.push(case(format!("{names:?}"), Box::new(move || {
                let mut x = Paragraph::new();
                for k in [i, j].into_iter().filter(|k| *k > 0) {
                    x = q[k - 1].1(x);
                }
                Docx::new().add_paragraph(x)
            })));
        }
    }
    vec![Group { name: "section contents".into(), cases: cases.0 }, Group { name: "paragraph contents".into(), cases: cases.1 }]
}

/// Leaves of the second export that the first one does not have.
fn added(a: &J, b: &J) -> Vec<(String, String)> {
    let (mut x, mut y) = (vec![], vec![]);
    a.leaves("", &mut x);
    b.leaves("", &mut y);
    let x: std::collections::HashSet<(String, String)> = x.into_iter().collect();
    y.into_iter().filter(|l| !x.contains(l)).collect()
}

/// Parts that are written but have no reader.
const NOT_READ: &[&str] = &["/contentType", "/documentRels", "/rels", "/docProps/core", "/taskpanes", "/customItem", "/webExtensions"];

/// Values that mean what an absent one means.
const EXCUSED: &[(&str, &str)] = &[("orient<pageSize", "Str(\"portrait\")"), ("styleId<styles", "Str(\"Normal\")")];

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut out = vec![];
    let mut groups = super::c04::groups(t);
    groups.extend(super::c05::groups(t));
    groups.extend(super::c19::groups());
    groups.extend(super::c20::groups());
    groups.extend(super::c12::groups());
    groups.extend(super::c24::groups());
    let groups = Arc::new(groups);
    {
        let groups = groups.clone();
        out.push(Phase::new("settings", "every setting with every value in every place", move |ch, l| {
            let g = ch.pick(&groups);
            l.label = g.name.clone();
            tell_apart(l, g, false);
        }));
    }
    {
        let mut groups = structures();
        groups.extend(super::c27::groups());
        groups.extend(containers());
        let groups = Arc::new(groups);
        out.push(Phase::new("structures", "every kind of content in every run and paragraph place, every field code, all pairs of section and paragraph contents", move |ch, l| {
            let g = ch.pick(&groups);
            l.label = g.name.clone();
            tell_apart(l, g, false);
        }));
    }
    {
        let groups = Arc::new(super::c02::groups(t));
        out.push(Phase::new("strings", "every string argument in every place with every string", move |ch, l| {
            let g = ch.pick(&groups);
            l.label = g.name.clone();
            tell_apart(l, g, true);
        }));
    }
    {
        out.push(Phase::new("read back", "every setting with every value in every place: what it adds to the export is there after packing and reading", move |ch, l| {
            let g = ch.pick(&groups);
            if g.name.contains("footnote") || g.name == "table of contents" {
                l.skip = true; // notes are not read, a table of contents is read as the content it had
                return;
            }
            let c = &g.cases[ch.choose(g.cases.len())];
            l.label = format!("{}: {}", g.name, c.name);
            let both = |c: &super::Case| -> Result<(J, J), String> {
                let d = (c.make)();
                let j = export(&d)?;
                let b = pack_build(d)?;
                let r = guarded(|| read_docx(&b))?.map_err(|e| e.to_string())?;
                Ok((j, export(&r)?))
            };
            let (Ok((a, ra)), Ok((b, rb))) = (both(&g.cases[0]), both(c)) else {
                l.outcome = "not read".into();
                return;
            };
            l.evals += 1;
            l.transitions += 2;
            let (d, rd) = (added(&a, &b), added(&ra, &rb));
            l.states.push(hash64(format!("{d:?}").as_bytes()));
            let tail = |p: &str| -> String { p.rsplit('/').filter(|s| s.parse::<usize>().is_err()).take(2).collect::<Vec<_>>().join("<").replace("sectionProperty", "property") };
            for (p, v) in &d {
                if v == "Null" || NOT_READ.iter().any(|n| p.starts_with(n)) || EXCUSED.contains(&(tail(p).as_str(), v.as_str())) {
                    continue;
                }
                // the style of that name is there after reading in any case
                if c.name == "style Normal" && p.contains("/styles/styles") {
                    continue;
                }
                if !rd.iter().any(|(q, w)| v == w && tail(p) == tail(q)) {
                    let name = p.rsplit('/').next().unwrap_or("");
                    // a rule for the height of a row needs a height
                    if name == "heightRule" && !d.iter().any(|x| x.0.ends_with("/rowHeight")) {
                        continue;
                    }
                    let exact = v.starts_with("Bool") || ["stretch", "width"].contains(&name);
                    let key = if exact { format!("forgotten on reading: {name} {v}") } else { format!("forgotten on reading: {name}") };
                    return l.fail(key, format!("{p} = {v} became {}", clip(&format!("{rd:?}"))));
                }
            }
            l.validated += 1;
        }));
    }
    out
}
