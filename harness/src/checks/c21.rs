//! C21: the streaming XML writer emits one well-formed tree per legal event sequence.

use super::Meta;
use crate::explore::*;
use crate::xml::{self, El, Node};
use crate::Tier;
use docx_rs::xml::common::XmlVersion;
use docx_rs::xml::writer::{EmitterConfig, EventWriter, XmlEvent};
use std::io::Write;

pub fn meta() -> Meta {
    Meta {
        level: "model_checking",
        assumptions: vec![
            "carriage returns and characters XML cannot represent are not used in attribute values".into(),
            "the writer accepts fragments: several top-level elements and texts are legal, a document declaration is legal only first".into(),
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Decl(usize),
    Start(String, Vec<(String, String, bool)>),
    Text(String),
    End,
}

/// Reference model: the forest built so far and the path of open elements.
#[derive(Default)]
struct Model {
    roots: Vec<T>,
    open: Vec<T>,
    escaping: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    E(String, Vec<(String, String)>, Vec<T>),
    S(String),
}

impl Model {
    fn push(&mut self, t: T) {
        let kids = match self.open.last_mut() {
            Some(T::E(_, _, k)) => k,
            _ => &mut self.roots,
        };
        match (kids.last_mut(), t) {
            (_, T::S(s)) if s.is_empty() => {}
            (Some(T::S(a)), T::S(b)) => a.push_str(&b),
            (_, t) => kids.push(t),
        }
    }
    /// Returns whether the event is legal here.
    fn step(&mut self, e: &Ev) -> bool {
        match e {
            Ev::Decl(_) => {}
            Ev::Start(n, a) => {
                let at = a.iter().map(|(k, v, _)| (k.clone(), v.clone())).collect();
                self.open.push(T::E(n.clone(), at, vec![]));
            }
            Ev::Text(s) => {
                let s = if self.escaping { s.clone() } else { unescape(s) };
                self.push(T::S(s));
            }
            Ev::End => match self.open.pop() {
                Some(t) => self.push(t),
                None => return false,
            },
        }
        true
    }
    fn key(&self) -> String {
        let names: Vec<&str> = self.open.iter().map(|t| if let T::E(n, _, k) = t { if k.is_empty() { "-" } else { n.as_str() } } else { "" }).collect();
        format!("{names:?}/{}/{}", self.roots.len(), self.escaping)
    }
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&amp;", "&")
}

fn send<W: Write>(w: &mut EventWriter<W>, e: &Ev) -> Result<(), String> {
    match e {
        Ev::Decl(k) => {
            let (enc, alone) = DECLS[*k];
            w.write(XmlEvent::StartDocument { version: XmlVersion::Version10, encoding: enc, standalone: alone })
        }
        Ev::Start(n, at) => {
            let mut s = XmlEvent::start_element(n);
            for (k, v, display) in at {
                s = if *display { s.attr_display(k, format_args!("{}{}", &v[..v.len() / 2], &v[v.len() / 2..])) } else { s.attr(k, v) };
            }
            w.write(s)
        }
        Ev::Text(t) => w.write(t.as_str()),
        Ev::End => w.write(XmlEvent::end_element()),
    }
    .map_err(|e| e.to_string())
}

const DECLS: &[(Option<&str>, Option<bool>)] = &[(Some("UTF-8"), None), (None, None), (Some("UTF-8"), Some(true)), (Some("UTF-8"), Some(false))];

fn config(escaping: bool) -> EmitterConfig {
    EmitterConfig { write_document_declaration: false, perform_escaping: escaping, perform_indent: false, line_separator: "".into() }
}

fn tree(e: &El) -> Vec<T> {
    e.kids
        .iter()
        .map(|k| match k {
            Node::Text(s) => T::S(s.clone()),
            Node::El(e) => {
                let q = |p: &str, l: &str| if p.is_empty() { l.to_string() } else { format!("{p}:{l}") };
                let at = e.attrs.iter().map(|a| (q(&a.prefix, &a.local), a.value.clone())).collect();
                T::E(q(&e.prefix, &e.local), at, tree(e))
            }
        })
        .collect()
}

/// Declaration (if any) and the forest read from the bytes written.
fn reread(bytes: &[u8]) -> Result<(Option<String>, Vec<T>), String> {
    let s = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let (decl, rest) = match s.strip_prefix("<?xml") {
        Some(r) => {
            let e = r.find("?>").ok_or("unterminated declaration")?;
            (Some(r[..e].split_whitespace().collect::<Vec<_>>().join(" ")), &r[e + 2..])
        }
        None => (None, s),
    };
    let root = xml::parse(format!("<root xmlns:w=\"urn:w\">{rest}</root>").as_bytes())?;
    Ok((decl, tree(&root)))
}

fn decl_text(k: usize) -> String {
    let (enc, alone) = DECLS[k];
    let mut s = "version=\"1.0\"".to_string();
    if let Some(e) = enc {
        s.push_str(&format!(" encoding=\"{e}\""));
    }
    if let Some(a) = alone {
        s.push_str(&format!(" standalone=\"{}\"", if a { "yes" } else { "no" }));
    }
    s
}

/// Runs the events on the real writer and on the model; open elements are closed at the end.
fn judge(l: &mut Leaf, escaping: bool, evs: &[Ev]) -> Vec<u8> {
    let mut m = Model { escaping, ..Model::default() };
    let mut w = config(escaping).create_writer(Vec::new());
    let mut decl = None;
    let mut all: Vec<Ev> = evs.to_vec();
    let mut i = 0;
    while i < all.len() {
        let e = all[i].clone();
        let legal = m.step(&e);
        if let Ev::Decl(k) = e {
            decl = Some(decl_text(k));
        }
        let r = send(&mut w, &e);
        l.transitions += 1;
        l.states.push(hash64(m.key().as_bytes()));
        match (legal, r) {
            (true, Err(x)) => l.fail("refused-legal", format!("legal event {e:?} refused: {x}")),
            (false, Ok(())) => l.fail("accepted-illegal", format!("closing with nothing open was accepted in {evs:?}")),
            _ => {}
        }
        i += 1;
        if i == all.len() && !m.open.is_empty() {
            all.push(Ev::End);
        }
    }
    let bytes = match w.into_inner() {
        Ok(b) => b,
        Err(e) => {
            l.fail("into-inner", e.to_string());
            return vec![];
        }
    };
    l.evals += 1;
    match reread(&bytes) {
        Err(e) => l.fail("ill-formed", format!("{e}: {}", crate::gen::clip(&String::from_utf8_lossy(&bytes)))),
        Ok((d, t)) => {
            if d != decl {
                l.fail("declaration", format!("declaration {d:?} instead of {decl:?}"));
            }
            if t != m.roots {
                l.fail("tree", format!("wrote {}, which reads {:?} instead of {:?}", crate::gen::clip(&String::from_utf8_lossy(&bytes)), t, m.roots));
            }
            l.validated += 1;
        }
    }
    bytes
}

fn attrs(k: usize) -> Vec<(String, String, bool)> {
    let a = |n: &str, v: &str, d: bool| (n.to_string(), v.to_string(), d);
    match k {
        0 => vec![],
        1 => vec![a("x", "1", false)],
        2 => vec![a("w:y", "&lt;<&>\"'\t\n ", true), a("x", "", false)],
        _ => vec![a("x", &"v".repeat(150), true), a("w:y", &"é".repeat(80), false)],
    }
}

fn alphabet(escaping: bool, rich: bool) -> Vec<Ev> {
    let mut v = vec![Ev::End, Ev::Start("a".into(), attrs(0)), Ev::Start("w:b".into(), attrs(1)), Ev::Text("t".into())];
    v.push(Ev::Text(if escaping { " &<>\"'&amp;]] ".into() } else { "&lt;&amp;".into() }));
    v.push(Ev::Start("a".into(), attrs(2)));
    if rich {
        v.push(Ev::Text("".into()));
        v.push(Ev::Start("w:b".into(), attrs(3)));
    }
    v
}

fn word(ch: &mut Chooser, alpha: &[Ev], max: usize) -> Vec<Ev> {
    let mut evs = Vec::new();
    let d = ch.choose(DECLS.len() + 1);
    if d > 0 {
        evs.push(Ev::Decl(d - 1));
    }
    let n = ch.choose(max + 1);
    for _ in 0..n {
        evs.push(ch.pick(alpha).clone());
    }
    evs
}

/// A destination that fails, or writes short, from its k-th call on.
struct Dest {
    out: Vec<u8>,
    calls: usize,
    fail_at: usize,
    short: bool,
}

impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > self.fail_at {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = if self.short { b.len().min(1) } else { b.len() };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    let max = if t == Tier::Quick { 6 } else { 7 };
    v.push(Phase::new("words", format!("all event sequences up to length {max} over two element names, three attribute sets, two texts and closing, with and without a declaration, escaping on and off"), move |ch: &mut Chooser, l: &mut Leaf| {
        let escaping = ch.flag();
        let evs = word(ch, &alphabet(escaping, false), max);
        l.label = format!("{escaping}{evs:?}");
        judge(l, escaping, &evs);
    }));
    let max = if t == Tier::Quick { 4 } else { 5 };
    v.push(Phase::new("long-words", format!("all event sequences up to length {max} with empty texts and start tags longer than 128 bytes added"), move |ch: &mut Chooser, l: &mut Leaf| {
        let escaping = ch.flag();
        let evs = word(ch, &alphabet(escaping, true), max);
        l.label = format!("{escaping}{evs:?}");
        judge(l, escaping, &evs);
    }));
    v.push(Phase::new("deep", "nesting 1..64 deep, names of 1..200 bytes growing or shrinking with depth, text before, inside or after each level", |ch: &mut Chooser, l: &mut Leaf| {
        let depth = ch.choose(64) + 1;
        let grow = ch.choose(3);
        let texts = ch.choose(8);
        l.label = format!("{depth} {grow} {texts}");
        let mut evs = Vec::new();
        for i in 0..depth {
            let len = match grow {
                0 => 1,
                1 => 1 + i * 3,
                _ => 1 + (depth - i) * 3,
            };
            evs.push(Ev::Start(format!("n{}", "m".repeat(len)), attrs(i % 4)));
            if texts & 1 == 1 {
                evs.push(Ev::Text(format!("t{i}")));
            }
            if texts & 2 == 2 {
                evs.push(Ev::Start("e".into(), attrs(i % 3)));
                evs.push(Ev::End);
            }
        }
        for i in 0..depth {
            if texts & 4 == 4 {
                evs.push(Ev::Text(format!("u{i}")));
            }
            evs.push(Ev::End);
        }
        judge(l, true, &evs);
    }));
    let max = if t == Tier::Quick { 3 } else { 4 };
    v.push(Phase::new("destination", format!("all event sequences up to length {max}, destination failing at every one of its calls, and accepting one byte per call"), move |ch: &mut Chooser, l: &mut Leaf| {
        let escaping = ch.flag();
        let mut evs = word(ch, &alphabet(escaping, true), max);
        l.label = format!("{escaping}{evs:?}");
        let mut m = Model { escaping, ..Model::default() };
        evs.retain(|e| m.step(e));
        for _ in 0..m.open.len() {
            evs.push(Ev::End);
        }
        let ideal = judge(l, escaping, &evs);
        for short in [false, true] {
            let mut k = 0;
            loop {
                let mut w = config(escaping).create_writer(Dest { out: vec![], calls: 0, fail_at: k, short });
                let mut err = false;
                for e in &evs {
                    if send(&mut w, e).is_err() {
                        err = true;
                        break;
                    }
                }
                let d = match w.into_inner() {
                    Ok(d) => d,
                    Err(e) => return l.fail("into-inner", e.to_string()),
                };
                l.evals += 1;
                l.transitions += 1;
                let hit = d.calls > k;
                if hit && !err {
                    return l.fail("failure-hidden", format!("the destination failed at call {k} (short={short}) and every event succeeded"));
                }
                if !hit {
                    if err {
                        l.fail("failure-invented", "an error without a failing destination");
                    } else if d.out != ideal {
                        l.fail("short-write", format!("short={short}: {} instead of {}", String::from_utf8_lossy(&d.out), String::from_utf8_lossy(&ideal)));
                    }
                    break;
                }
                if !ideal.starts_with(&d.out) {
                    return l.fail("partial", "bytes before the failure differ from the complete output");
                }
                k += 1;
            }
        }
    }));
    v
}
