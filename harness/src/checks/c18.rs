//! C18: packages that differ only in their encoding read to the same document.

use super::c17::{fixtures, settled};
use super::Meta;
use crate::explore::*;
use crate::opc::resolve_target;
use crate::vocab::*;
use crate::zipread::{write_stored, write_with, Style};
use crate::Tier;
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "two documents are compared through their JSON export, with relationship ids replaced by what they lead to and paragraph ids drawn by the library renamed in order of appearance".into(),
            "foreign elements and attributes carry names the format does not know; foreign names that equal known ones are a separate phase".into(),
            "text is significant in elements that hold text only; white space is only added between tags elsewhere".into(),
        ],
    }
}

// --------------------------------------------------------------------------------------- comparing

fn answer(bytes: &[u8]) -> Result<Value, String> {
    shown(|| read_docx(bytes))
}

/// What a reading yields, in a form that can be compared.
pub fn shown(read: impl FnOnce() -> Result<Docx, ReaderError>) -> Result<Value, String> {
    match guarded(read) {
        Ok(Ok(d)) => {
            let mut j = settled(&d)?;
            let mut ids: Vec<String> = vec![];
            paragraphs(&mut j, &mut ids);
            let mut imgs: Vec<u64> = d.images.iter().map(|i| hash64(&i.2 .0)).collect();
            imgs.sort();
            j["imgs"] = json!(imgs);
            let mut links: Vec<&String> = d.hyperlinks.iter().map(|h| &h.1).collect();
            links.sort();
            j["links"] = json!(links);
            for k in ["rels", "contentType", "documentRels"] {
                j.as_object_mut().unwrap().remove(k);
            }
            Ok(j)
        }
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {}", panic_class(&p))),
    }
}

fn paragraphs(v: &mut Value, ids: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if o.contains_key("hasNumbering") && o.contains_key("property") {
                if let Some(Value::String(s)) = o.get_mut("id") {
                    let k = ids.iter().position(|i| i == s).unwrap_or_else(|| {
                        ids.push(s.clone());
                        ids.len() - 1
                    });
                    *s = format!("#{k}");
                }
            }
            o.values_mut().for_each(|x| paragraphs(x, ids));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| paragraphs(x, ids)),
        _ => {}
    }
}

fn judge(l: &mut Leaf, rule: &str, base: &Result<Value, String>, bytes: &[u8]) {
    l.transitions += 1;
    l.evals += 1;
    let got = answer(bytes);
    match (base, &got) {
        (Ok(a), Ok(b)) => {
            l.states.push(hash64(b.to_string().as_bytes()));
            if let Some((at, what)) = super::c17::differ(a, b, "") {
                let at = at.trim_start_matches('.').replace(".data", "").replace(".children", "/");
                return l.fail(format!("{rule}: {at}"), what);
            }
            l.validated += 1;
        }
        (Err(_), _) => l.outcome = "not read".into(),
        (Ok(_), Err(e)) => l.fail(format!("{rule}: not read"), e),
    }
}

// ------------------------------------------------------------------------------------- XML rewriting

const X: &str = "urn:example:foreign";

/// For every gap before token i: whether white space and elements may be added there.
fn open_gaps(toks: &[Tok]) -> Vec<bool> {
    // elements that hold text directly
    let mut stack: Vec<usize> = vec![];
    let mut parent = vec![usize::MAX; toks.len()];
    let mut textual = vec![false; toks.len()];
    let mut blank = vec![false; toks.len()];
    let mut kids = vec![0usize; toks.len()];
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::End(_) => {
                parent[i] = stack.pop().unwrap_or(usize::MAX);
            }
            _ => {
                if let Some(&p) = stack.last() {
                    parent[i] = p;
                    kids[p] += 1;
                    match t {
                        Tok::Text(s) if !s.trim().is_empty() => textual[p] = true,
                        Tok::Text(_) => blank[p] = true,
                        _ => {}
                    }
                }
                if matches!(t, Tok::Start { empty: false, .. }) {
                    stack.push(i);
                }
            }
        }
    }
    (0..toks.len())
        .map(|i| {
            let p = parent[i];
            p != usize::MAX && !textual[p] && kids[p] > usize::from(blank[p])
        })
        .collect()
}

fn inside(toks: &[Tok]) -> Vec<bool> {
    let mut d = 0i32;
    toks.iter()
        .map(|t| {
            let was = d;
            match t {
                Tok::Start { empty: false, .. } => d += 1,
                Tok::End(_) => d -= 1,
                _ => {}
            }
            was > 0
        })
        .collect()
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

fn refs(s: &str, hex: bool) -> String {
    unescape(s).chars().map(|c| if hex { format!("&#x{:X};", c as u32) } else { format!("&#{};", c as u32) }).collect()
}

/// Raw text of a start tag with another layout.
fn tag(t: &Tok, quote: char, gap: &str, eq: &str) -> Tok {
    let Tok::Start { name, attrs, empty } = t else { return t.clone() };
    let mut s = format!("<{name}");
    for (k, v) in attrs {
        let v = if quote == '\'' { v.replace('\'', "&apos;") } else { v.clone() };
        s += &format!("{gap}{k}{eq}{quote}{v}{quote}");
    }
    s += gap;
    s += if *empty { "/>" } else { ">" };
    Tok::Raw(s)
}

const FOREIGN: &[&str] = &[
    r#"<x:zz xmlns:x="urn:example:foreign"/>"#,
    r#"<x:zz xmlns:x="urn:example:foreign" x:k="1" val="0">text</x:zz>"#,
    r#"<x:zz xmlns:x="urn:example:foreign"><x:zq x:val="1"><x:zq>deep</x:zq>tail</x:zq><x:zq/></x:zz>"#,
    r#"<zz0 xmlns="urn:example:foreign"><zq0/></zz0>"#,
];

/// Rewrites one site. Returns the text, the rule and the site.
fn rewrite(ch: &mut Chooser, toks: &[Tok], gaps: &[bool], within: &[bool]) -> Option<(String, String, String)> {
    let i = ch.choose(toks.len());
    let mut ts = toks.to_vec();
    let site = match &toks[i] {
        Tok::Start { name, .. } => format!("<{name}>"),
        Tok::End(n) => format!("</{n}>"),
        Tok::Text(_) => "text".into(),
        Tok::Raw(_) => "declaration".into(),
    };
    let is_decl = matches!(&toks[i], Tok::Raw(s) if s.starts_with("<?xml"));
    if is_decl {
        let (rule, text) = match ch.choose(5) {
            0 => ("without declaration", render(&ts[1..])),
            1 => ("declaration", format!("<?xml version='1.0' encoding='utf-8' standalone='yes' ?>{}", render(&ts[1..]))),
            2 => ("declaration", format!("<?xml version=\"1.0\"?>\r\n{}", render(&ts[1..]))),
            3 => ("byte-order mark", format!("\u{feff}{}", render(&ts))),
            _ => ("byte-order mark", format!("\u{feff}{}", render(&ts[1..]))),
        };
        return Some((text, rule.into(), site));
    }
    // what can be added before the token
    let adds: Vec<(&str, String)> = {
        let mut v: Vec<(&str, String)> =
            vec![("comment", "<!-- c -->".into()), ("comment", "<!---->".into()), ("comment", "<!-- <w:b/> & ]]> -->".into()), ("processing instruction", "<?x y?>".into())];
        if gaps[i] || !within[i] {
            v.push(("white space", "\n  ".into()));
            v.push(("white space", "\r\n\t".into()));
        }
        if gaps[i] {
            for f in FOREIGN {
                v.push(("foreign element", f.to_string()));
            }
        }
        v
    };
    let k = match &toks[i] {
        Tok::Start { attrs, .. } => {
            let n = attrs.len();
            let orders = if n < 2 { 0 } else { n + n - 1 }; // reversed, n-1 rotations, n-1 swaps
            (orders, n)
        }
        _ => (0, 0),
    };
    let own = match &toks[i] {
        Tok::Start { .. } => 1 + k.0 + 4 + 3 * k.1 + 4,
        Tok::Text(t) => 4 + 6 * t.chars().count(),
        _ => 0,
    };
    let c = ch.choose(adds.len() + own);
    if c < adds.len() {
        let (rule, s) = &adds[c];
        ts.insert(i, Tok::Raw(s.clone()));
        return Some((render(&ts), rule.to_string(), format!("{s:?} before {site}")));
    }
    let c = c - adds.len();
    let rule;
    match &toks[i] {
        Tok::Start { name, attrs, empty } => {
            let n = attrs.len();
            if c == 0 {
                rule = "empty element form";
                if *empty {
                    ts[i] = Tok::Start { name: name.clone(), attrs: attrs.clone(), empty: false };
                    ts.insert(i + 1, Tok::End(name.clone()));
                } else if matches!(toks.get(i + 1), Some(Tok::End(_))) {
                    ts[i] = Tok::Start { name: name.clone(), attrs: attrs.clone(), empty: true };
                    ts.remove(i + 1);
                } else {
                    return None;
                }
            } else if c < 1 + k.0 {
                rule = "attribute order";
                let mut a = attrs.clone();
                match c - 1 {
                    0 => a.reverse(),
                    r if r < n => a.rotate_left(r),
                    r => a.swap(r - n, r - n + 1),
                }
                ts[i] = Tok::Start { name: name.clone(), attrs: a, empty: *empty };
            } else if c < 1 + k.0 + 4 {
                rule = "layout of tags";
                ts[i] = match c - 1 - k.0 {
                    0 => tag(&toks[i], '\'', " ", "="),
                    1 => tag(&toks[i], '"', "\n\t", "="),
                    2 => tag(&toks[i], '"', "  ", " = "),
                    _ => tag(&toks[i], '\'', "\r\n", "\n=\n"),
                };
                if c - 1 - k.0 == 0 {
                    // the matching end tag may hold white space as well
                    let e = end_of(toks, i);
                    if !*empty {
                        ts[e - 1] = Tok::Raw(format!("</{name} >"));
                    }
                }
            } else if c < 1 + k.0 + 4 + 3 * n {
                rule = "character references in attributes";
                let m = c - 1 - k.0 - 4;
                let mut a = attrs.clone();
                if a[m / 3].0.starts_with("xmlns") || a[m / 3].1.is_empty() {
                    return None;
                }
                let v = unescape(&a[m / 3].1);
                let first: String = v.chars().take(1).collect();
                let rest: String = v.chars().skip(1).collect();
                a[m / 3].1 = match m % 3 {
                    0 => refs(&a[m / 3].1, false),
                    1 => refs(&a[m / 3].1, true),
                    _ => format!("{}{}", refs(&escape(&first), true), escape(&rest)),
                };
                ts[i] = Tok::Start { name: name.clone(), attrs: a, empty: *empty };
            } else {
                rule = "foreign attribute";
                let mut a = attrs.clone();
                let ns = ("xmlns:x".to_string(), X.to_string());
                let at = |v: &str| ("x:zz0".to_string(), v.to_string());
                match c - 1 - k.0 - 4 - 3 * n {
                    0 => {
                        a.insert(0, at("0"));
                        a.insert(0, ns);
                    }
                    1 => {
                        a.insert(0, at("text"));
                        a.push(ns);
                    }
                    2 => {
                        a.push(ns);
                        a.push(at("0"));
                    }
                    _ => a.insert(0, ns),
                }
                ts[i] = Tok::Start { name: name.clone(), attrs: a, empty: *empty };
            }
        }
        Tok::Text(t) => {
            let plain = unescape(t);
            if plain.trim().is_empty() {
                return None;
            }
            let text = match c {
                0 => {
                    rule = "character references in text";
                    refs(t, false)
                }
                1 => {
                    rule = "character references in text";
                    refs(t, true)
                }
                2 => {
                    rule = "character data section";
                    format!("<![CDATA[{plain}]]>")
                }
                3 => {
                    rule = "character data section";
                    format!("<![CDATA[]]>{t}<![CDATA[]]>")
                }
                _ => {
                    let m = c - 4;
                    let at = m / 6;
                    let a: String = plain.chars().take(at).collect();
                    let one: String = plain.chars().skip(at).take(1).collect();
                    let b: String = plain.chars().skip(at + 1).collect();
                    let (a, one_e, b) = (escape(&a), escape(&one), escape(&b));
                    match m % 6 {
                        0 => {
                            rule = "comment in text";
                            format!("{a}<!-- c -->{one_e}{b}")
                        }
                        1 => {
                            rule = "processing instruction in text";
                            format!("{a}<?x y?>{one_e}{b}")
                        }
                        2 => {
                            rule = "character data section";
                            format!("{a}<![CDATA[{one}]]>{b}")
                        }
                        3 => {
                            rule = "character data section";
                            format!("<![CDATA[{}]]>{one_e}{b}", unescape(&a))
                        }
                        4 => {
                            rule = "character references in text";
                            format!("{a}{}{b}", refs(&one_e, false))
                        }
                        _ => {
                            rule = "comment in text";
                            format!("{a}{one_e}<!-- c --><!-- d -->{b}")
                        }
                    }
                }
            };
            ts[i] = Tok::Raw(text);
        }
        _ => return None,
    }
    Some((render(&ts), rule.into(), format!("at {site}")))
}

/// Rewritings of a whole part.
const WHOLE: &[&str] = &["attribute order", "empty element form", "open element form", "comment", "white space", "character references", "character data section", "foreign element", "layout of tags", "prefix", "default namespace", "repeated declarations"];

fn rewrite_whole(rule: &str, toks: &[Tok]) -> String {
    let gaps = open_gaps(toks);
    let mut out: Vec<Tok> = vec![];
    let map = |n: &str, attr: bool| -> String {
        match (rule, n.split_once(':')) {
            ("prefix", Some(("xmlns", p))) if p != "xml" => format!("xmlns:n{p}"),
            ("prefix", Some((p, l))) if p != "xml" => format!("n{p}:{l}"),
            ("default namespace", Some(("w", l))) if !attr => l.to_string(),
            _ => n.to_string(),
        }
    };
    let mut skip = false;
    for (i, t) in toks.iter().enumerate() {
        if skip {
            skip = false;
            continue;
        }
        match rule {
            "comment" => out.push(Tok::Raw(if i == 0 { String::new() } else { "<!-- c -->".into() })),
            "white space" if gaps[i] => out.push(Tok::Raw("\r\n  ".into())),
            "foreign element" if gaps[i] => out.push(Tok::Raw(FOREIGN[2].into())),
            _ => {}
        }
        out.push(match t {
            Tok::Start { name, attrs, empty } => {
                let mut a: Vec<(String, String)> = attrs.iter().map(|(k, v)| (map(k, true), v.clone())).collect();
                let mut e = *empty;
                let mut n = map(name, false);
                match rule {
                    "attribute order" => a.reverse(),
                    "empty element form" if !e && matches!(toks.get(i + 1), Some(Tok::End(_))) => {
                        e = true;
                        skip = true;
                    }
                    "character references" => a.iter_mut().filter(|x| !x.0.starts_with("xmlns")).for_each(|x| x.1 = refs(&x.1, true)),
                    "repeated declarations" => {
                        // bindings in force at the root are stated again
                        if let Some(Tok::Start { attrs: root, .. }) = toks.iter().find(|t| matches!(t, Tok::Start { .. })) {
                            for r in root.iter().filter(|r| r.0.starts_with("xmlns:")) {
                                if !a.iter().any(|x| x.0 == r.0) {
                                    a.push(r.clone());
                                }
                            }
                        }
                    }
                    "default namespace" => {
                        let w = a.iter().find(|x| x.0 == "xmlns:w").map(|x| x.1.clone());
                        if let Some(w) = w.filter(|_| !a.iter().any(|x| x.0 == "xmlns")) {
                            a.push(("xmlns".into(), w));
                        } else if a.iter().any(|x| x.0 == "xmlns") {
                            n = name.clone();
                        }
                    }
                    _ => {}
                }
                let t = Tok::Start { name: n.clone(), attrs: a, empty: e };
                if rule == "open element form" && e {
                    let mut s = String::new();
                    render_one(&Tok::Start { name: n.clone(), attrs: attrs.clone(), empty: false }, &mut s);
                    Tok::Raw(format!("{s}</{n}>"))
                } else if rule == "layout of tags" {
                    tag(&t, '\'', "\n", " = ")
                } else {
                    t
                }
            }
            Tok::End(n) => Tok::End(map(n, false)),
            Tok::Text(s) if rule == "character references" && !s.trim().is_empty() => Tok::Raw(refs(s, false)),
            Tok::Text(s) if rule == "character data section" && !s.trim().is_empty() => Tok::Raw(format!("<![CDATA[{}]]>", unescape(s))),
            t => t.clone(),
        });
    }
    render(&out)
}

// --------------------------------------------------------------------------------- package rewriting

fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}

fn rels_of(part: &str) -> String {
    match part.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &part[..i], &part[i + 1..]),
        None => format!("_rels/{part}.rels"),
    }
}

fn source_of(rels: &str) -> Option<String> {
    let s = rels.strip_suffix(".rels")?;
    let (dir, file) = s.rsplit_once('/').unwrap_or(("", s));
    let dir = dir.strip_suffix("_rels")?.trim_end_matches('/');
    Some(if file.is_empty() {
        String::new()
    } else if dir.is_empty() {
        file.to_string()
    } else {
        format!("{dir}/{file}")
    })
}

fn each_rel(parts: &mut Parts, f: &mut dyn FnMut(&str, &mut Vec<(String, String)>)) {
    for (n, b) in parts.iter_mut() {
        if let Some(src) = n.ends_with(".rels").then(|| source_of(n)).flatten() {
            let mut ts = tokens(std::str::from_utf8(b).unwrap_or(""));
            for t in ts.iter_mut() {
                if let Tok::Start { name, attrs, .. } = t {
                    if name.ends_with("Relationship") {
                        f(&src, attrs);
                    }
                }
            }
            *b = render(&ts).into_bytes();
        }
    }
}

fn get<'a>(a: &'a [(String, String)], k: &str) -> &'a str {
    a.iter().find(|x| x.0 == k).map(|x| x.1.as_str()).unwrap_or("")
}

fn set(a: &mut [(String, String)], k: &str, v: String) {
    if let Some(x) = a.iter_mut().find(|x| x.0 == k) {
        x.1 = v;
    }
}

fn external(a: &[(String, String)]) -> bool {
    get(a, "TargetMode") == "External"
}

/// The target as seen from another folder.
fn relative(src: &str, target: &str) -> String {
    let up = src.matches('/').count();
    format!("{}{}", "../".repeat(up), target)
}

fn renamed_ids(parts: &mut Parts, f: &dyn Fn(usize, usize, &str) -> String) {
    // per source: old -> new
    let mut maps: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    let mut all: BTreeMap<String, Vec<String>> = BTreeMap::new();
    each_rel(parts, &mut |s, a| all.entry(s.into()).or_default().push(get(a, "Id").to_string()));
    for (s, ids) in &all {
        maps.insert(s.clone(), ids.iter().enumerate().map(|(i, id)| (id.clone(), f(i, ids.len(), id))).collect());
    }
    // a function of the list for permutations
    let perm = |s: &str, id: &str| -> Option<String> {
        let m = maps.get(s)?;
        let (_, n) = m.iter().find(|x| x.0 == id)?;
        match n.strip_prefix('@') {
            Some(k) => Some(m[k.parse::<usize>().unwrap()].0.clone()),
            None => Some(n.clone()),
        }
    };
    each_rel(parts, &mut |s, a| {
        let id = get(a, "Id").to_string();
        if let Some(n) = perm(s, &id) {
            set(a, "Id", n);
        }
    });
    for (n, b) in parts.iter_mut() {
        if is_xml(n) && !n.ends_with(".rels") && maps.contains_key(n.as_str()) {
            let mut ts = tokens(std::str::from_utf8(b).unwrap_or(""));
            for t in ts.iter_mut() {
                if let Tok::Start { attrs, .. } = t {
                    for (k, v) in attrs.iter_mut() {
                        if k.starts_with("r:") {
                            if let Some(x) = perm(n, v) {
                                *v = x;
                            }
                        }
                    }
                }
            }
            *b = render(&ts).into_bytes();
        }
    }
}

/// Moves a part, its relationships and everything that points at it.
fn moved(parts: &mut Parts, old: &str, new: &str, absolute: bool) {
    // targets of the moved part itself
    each_rel(parts, &mut |s, a| {
        if external(a) {
            return;
        }
        let full = resolve_target(s, get(a, "Target"));
        let to = if full == old { new.to_string() } else { full.clone() };
        let from = if s == old { new } else { s };
        if full == old || s == old {
            set(a, "Target", if absolute { format!("/{to}") } else if dir(from) == dir(&to) { to.rsplit('/').next().unwrap().to_string() } else { relative(from, &to) });
        }
    });
    let (or, nr) = (rels_of(old), rels_of(new));
    for (n, b) in parts.iter_mut() {
        if n == old {
            *n = new.to_string();
        } else if *n == or {
            *n = nr.clone();
        } else if n == "[Content_Types].xml" {
            let t = String::from_utf8_lossy(b).replace(&format!("\"/{old}\""), &format!("\"/{new}\""));
            *b = t.into_bytes();
        }
    }
}

fn dir(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}

/// Rewrites the package as a whole; returns its bytes and the rule.
fn repackage(ch: &mut Chooser, parts: &Parts) -> Option<(Vec<u8>, String)> {
    let n = parts.len();
    let mut p = parts.clone();
    Some(match ch.choose(9) {
        0 => {
            let k = ch.choose(n + 1);
            if k == 0 {
                p.reverse();
            } else {
                p.rotate_left(k % n);
            }
            (write_stored(&p), "entry order".into())
        }
        1 => {
            let k = ch.choose(n);
            let x = p.remove(k);
            if ch.flag() {
                p.insert(0, x);
            } else {
                p.push(x);
            }
            (write_stored(&p), "entry order".into())
        }
        2 => {
            let styles = [
                Style { deflate: true, ..Style::default() },
                Style { descriptor: true, deflate: true, ..Style::default() },
                Style { descriptor: true, ..Style::default() },
                Style { folders: true, deflate: true, ..Style::default() },
                Style { comment: b"a comment".to_vec(), ..Style::default() },
                Style { extra: true, deflate: true, ..Style::default() },
                Style { utf8: false, deflate: true, ..Style::default() },
            ];
            (write_with(&p, ch.pick(&styles)), "archive form".into())
        }
        3 => {
            // one entry compressed, the others stored
            let k = ch.choose(n);
            (write_with(&p, &Style { only: Some(k), deflate: true, ..Style::default() }), "archive form".into())
        }
        4 => {
            match ch.choose(4) {
                0 => renamed_ids(&mut p, &|i, _, _| format!("R{i:04x}")),
                1 => renamed_ids(&mut p, &|i, n, _| format!("@{}", n - 1 - i)),
                2 => renamed_ids(&mut p, &|i, n, _| format!("@{}", (i + 1) % n)),
                _ => renamed_ids(&mut p, &|i, n, _| format!("rId{}", 100 - n + i)),
            }
            (write_stored(&p), "relationship ids".into())
        }
        5 => {
            let k = ch.choose(5);
            each_rel(&mut p, &mut |s, a| {
                if external(a) {
                    return;
                }
                let full = resolve_target(s, get(a, "Target"));
                let t = match k {
                    0 => format!("/{full}"),
                    1 => format!("./{}", get(a, "Target").trim_start_matches('/')),
                    2 if !s.is_empty() => relative(s, &full),
                    3 => format!("{}/../{}", "zz", get(a, "Target").trim_start_matches('/')),
                    4 => {
                        a.push(("TargetMode".into(), "Internal".into()));
                        return;
                    }
                    _ => return,
                };
                if (k == 1 || k == 3) && get(a, "Target").starts_with('/') {
                    return;
                }
                set(a, "Target", t);
            });
            let rule = ["absolute targets", "dotted targets", "targets through the parent folder", "targets through another folder", "stated target mode"][k];
            (write_stored(&p), rule.into())
        }
        6 => {
            // order of the relationships of one part
            let rels: Vec<usize> = (0..n).filter(|&i| p[i].0.ends_with(".rels")).collect();
            let i = *ch.pick(&rels);
            let ts = tokens(std::str::from_utf8(&p[i].1).unwrap_or(""));
            let at: Vec<usize> = (0..ts.len()).filter(|&k| matches!(&ts[k], Tok::Start { name, empty: true, .. } if name.ends_with("Relationship"))).collect();
            if at.len() < 2 {
                return None;
            }
            let k = ch.choose(at.len());
            let mut items: Vec<Tok> = at.iter().map(|&k| ts[k].clone()).collect();
            if k == 0 {
                items.reverse();
            } else {
                items.rotate_left(k);
            }
            let mut ts = ts;
            for (j, t) in at.iter().zip(items) {
                ts[*j] = t;
            }
            p[i].1 = render(&ts).into_bytes();
            (write_stored(&p), "relationship order".into())
        }
        7 => {
            // one part under another name
            let movable: Vec<usize> = (0..n).filter(|&i| !p[i].0.ends_with(".rels") && p[i].0 != "[Content_Types].xml" && !p[i].0.ends_with('/')).collect();
            let i = *ch.pick(&movable);
            let old = p[i].0.clone();
            let (d, f) = (dir(&old).to_string(), old.rsplit('/').next().unwrap().to_string());
            let (stem, ext) = f.rsplit_once('.').unwrap_or((&f, "xml"));
            let join = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
            let new = match ch.choose(5) {
                4 => join(&d, &format!("a.b.{ext}")),
                0 => join(&d, &format!("{stem}7.{ext}")),
                1 => join("other", &f),
                2 => join(&format!("{d}/deep"), &format!("p.{ext}")),
                _ => format!("top.{ext}"),
            };
            let abs = ch.flag();
            moved(&mut p, &old, &new, abs);
            (write_stored(&p), format!("part names: {}", if old.contains("document") { "main document" } else if old.contains("media") { "picture" } else { "other part" }))
        }
        _ => {
            // content types in another order
            let i = p.iter().position(|x| x.0 == "[Content_Types].xml")?;
            let ts = tokens(std::str::from_utf8(&p[i].1).unwrap_or(""));
            let at: Vec<usize> = (0..ts.len()).filter(|&k| matches!(&ts[k], Tok::Start { empty: true, .. })).collect();
            if at.len() < 2 {
                return None;
            }
            let mut items: Vec<Tok> = at.iter().map(|&k| ts[k].clone()).collect();
            items.reverse();
            let mut ts = ts;
            for (j, t) in at.iter().zip(items) {
                ts[*j] = t;
            }
            p[i].1 = render(&ts).into_bytes();
            (write_stored(&p), "content type order".into())
        }
    })
}

// ------------------------------------------------------------------------------------------ sources

/// A package whose texts are long enough to be split.
fn texts() -> Pack {
    let body = r#"<w:p><w:r><w:t>ab cd</w:t></w:r><w:r><w:t xml:space="preserve"> x&amp;y &lt;z&gt; é </w:t></w:r><w:del w:id="1" w:author="a" w:date="2020-01-01T00:00:00Z"><w:r><w:delText>gone</w:delText></w:r></w:del><w:r><w:instrText xml:space="preserve"> TOC \o "1-3" \h </w:instrText></w:r><w:r><w:instrText>PAGEREF _Toc1 \h</w:instrText></w:r><w:r><w:instrText>NUMPAGES</w:instrText></w:r><w:r><w:instrText>OTHER x</w:instrText></w:r><w:r><w:delInstrText>PAGE</w:delInstrText></w:r></w:p>"#;
    Pack { name: "texts", parts: package(&document(body), &[], &[]), focus: vec!["word/document.xml".into()] }
}

fn sources() -> Vec<Pack> {
    let mut v = sound_packs();
    v.push(texts());
    for p in v.iter_mut() {
        p.focus = p.parts.iter().map(|q| q.0.clone()).filter(|n| is_xml(n)).collect();
    }
    v
}

fn unpack(b: &[u8]) -> Option<Parts> {
    Some(crate::zipread::read(b).ok()?.into_iter().map(|e| (e.name, e.data)).collect())
}

/// Switches that no style or default can turn on: saying off is saying nothing.
const PLAIN_SWITCHES: &[&str] = &["titlePg", "evenAndOddHeaders", "adjustLineHeightInTable", "isLgl", "cantSplit", "tblHeader"];

const ON_OFF: &[&str] = &[
    "b", "bCs", "i", "iCs", "caps", "smallCaps", "strike", "dstrike", "vanish", "specVanish", "keepNext", "keepLines", "pageBreakBefore", "widowControl", "bidi", "adjustRightInd", "snapToGrid", "cantSplit", "tblHeader",
    "titlePg", "evenAndOddHeaders", "adjustLineHeightInTable", "isLgl", "contextualSpacing", "outline", "shadow", "rtl", "rtlGutter",
];

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    let packs: Arc<Vec<Pack>> = Arc::new(sources());
    let tg: Arc<Vec<(crate::fault::Target, Vec<bool>, Vec<bool>)>> = Arc::new(
        crate::fault::targets(&packs)
            .into_iter()
            .map(|t| {
                let (g, w) = (open_gaps(&t.toks), inside(&t.toks));
                (t, g, w)
            })
            .collect(),
    );
    let base: Arc<Vec<Result<Value, String>>> = Arc::new(packs.iter().map(|p| answer(&write_stored(&p.parts))).collect());
    for (p, b) in packs.iter().zip(base.iter()) {
        assert!(b.is_ok(), "package {} is not read: {b:?}", p.name);
    }
    {
        let (packs, tg, base) = (packs.clone(), tg.clone(), base.clone());
        out.push(Phase::new("single sites", "every rewriting of the XML encoding at every site of every part of packages that use the whole vocabulary", move |ch, l| {
            let (t, g, w) = ch.pick(&tg);
            let Some((text, rule, site)) = rewrite(ch, &t.toks, g, w) else {
                l.skip = true;
                return;
            };
            l.label = format!("{} {rule} {site}", t.name);
            judge(l, &rule, &base[t.pack], &crate::fault::with_part(&packs[t.pack], t.part, text.into_bytes()));
        }));
    }
    {
        let (packs, tg, base) = (packs.clone(), tg.clone(), base.clone());
        out.push(Phase::new("foreign names", "a foreign element or attribute with every name known nearby, at every site", move |ch, l| {
            let (t, g, _) = ch.pick(&tg);
            let i = ch.choose(t.toks.len());
            let mut ts = t.toks.clone();
            let Tok::Start { name, attrs, empty } = &t.toks[i] else {
                l.skip = true;
                return;
            };
            let local = |n: &str| n.split_once(':').map(|x| x.1).unwrap_or(n).to_string();
            let n = attrs.iter().filter(|a| !a.0.starts_with("xmlns")).count();
            let c = ch.choose(2 + 2 * n);
            let rule = if c < 2 {
                if !g[i] {
                    l.skip = true;
                    return;
                }
                let foreign = match c {
                    0 => format!(r#"<x:{0} xmlns:x="{X}"/>"#, local(name)),
                    _ => format!(r#"<x:{0} xmlns:x="{X}" x:val="7" x:id="7">7</x:{0}>"#, local(name)),
                };
                ts.insert(i, Tok::Raw(foreign));
                "foreign element with a known name"
            } else {
                let k = attrs.iter().enumerate().filter(|a| !a.1 .0.starts_with("xmlns")).nth((c - 2) / 2).unwrap().0;
                let mut a = attrs.clone();
                let f = (format!("x:{}", local(&attrs[k].0)), "7".to_string());
                if c % 2 == 0 {
                    a.insert(0, f);
                } else {
                    a.push(f);
                }
                a.push(("xmlns:x".into(), X.into()));
                ts[i] = Tok::Start { name: name.clone(), attrs: a, empty: *empty };
                "foreign attribute with a known name"
            };
            l.label = format!("{} {rule} at <{name}>", t.name);
            judge(l, rule, &base[t.pack], &crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes()));
            for v in l.violations.iter_mut() {
                v.key = rule.replace(" ", "_");
            }
        }));
    }
    // whole packages: the vocabulary and the fixtures
    let mut all: Vec<(String, Parts)> = packs.iter().map(|p| (p.name.to_string(), p.parts.clone())).collect();
    for (n, b) in fixtures() {
        if let Some(p) = unpack(&b) {
            all.push((n, p));
        }
    }
    let all = Arc::new(all);
    let whole_base: Arc<Vec<Result<Value, String>>> = Arc::new(all.iter().map(|p| answer(&write_stored(&p.1))).collect());
    {
        let (all, base) = (all.clone(), whole_base.clone());
        out.push(Phase::new("whole parts", "every rewriting applied to every site of one part or of all parts, for the vocabulary and every fixture", move |ch, l| {
            let k = ch.choose(all.len());
            let (name, parts) = &all[k];
            let rule = *ch.pick(WHOLE);
            let xmls: Vec<usize> = (0..parts.len()).filter(|&i| is_xml(&parts[i].0)).collect();
            let one = ch.choose(1 + xmls.len());
            let mut p = parts.clone();
            for (j, &i) in xmls.iter().enumerate() {
                if one == 0 || one == j + 1 {
                    let Ok(text) = std::str::from_utf8(&p[i].1) else { continue };
                    let (bom, text) = match text.strip_prefix('\u{feff}') {
                        Some(t) => ("\u{feff}", t),
                        None => ("", text),
                    };
                    p[i].1 = format!("{bom}{}", rewrite_whole(rule, &tokens(text))).into_bytes();
                }
            }
            l.label = format!("{name}: {rule} {}", if one == 0 { "everywhere" } else { parts[xmls[one - 1]].0.as_str() });
            judge(l, rule, &base[k], &write_stored(&p));
        }));
    }
    {
        let (all, base) = (all.clone(), whole_base.clone());
        out.push(Phase::new("packaging", "every rewriting of the archive, part names, relationship ids, order and targets, for the vocabulary and every fixture", move |ch, l| {
            let k = ch.choose(all.len());
            let (name, parts) = &all[k];
            let Some((bytes, rule)) = repackage(ch, parts) else {
                l.skip = true;
                return;
            };
            l.label = format!("{name}: {rule} {:?}", ch.choices());
            judge(l, &rule, &base[k], &bytes);
        }));
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        out.push(Phase::new("spellings", "every spelling of every on/off value and of lengths that accept points", move |ch, l| {
            let (t, ..) = ch.pick(&tg);
            let i = ch.choose(t.toks.len());
            let Tok::Start { name, attrs, empty } = &t.toks[i] else {
                l.skip = true;
                return;
            };
            let local = name.split_once(':').map(|x| x.1).unwrap_or(name);
            let with = |a: Vec<(String, String)>| {
                let mut ts = t.toks.clone();
                ts[i] = Tok::Start { name: name.clone(), attrs: a, empty: *empty };
                crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes())
            };
            let val = |v: Option<&str>| {
                let mut a: Vec<(String, String)> = attrs.iter().filter(|x| x.0 != "w:val").cloned().collect();
                if let Some(v) = v {
                    a.push(("w:val".into(), v.into()));
                }
                a
            };
            if ON_OFF.contains(&local) && name.starts_with("w:") {
                if ch.flag() {
                    // off is not on, and nothing but off where no style or default can say otherwise
                    l.label = format!("{} <{name}> off", t.name);
                    if !*empty {
                        l.skip = true;
                        return;
                    }
                    let mut ts = t.toks.clone();
                    ts.remove(i);
                    let gone = crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes());
                    let (on, off) = (answer(&with(val(None))), answer(&with(val(Some("0")))));
                    l.evals += 2;
                    let absent = answer(&gone);
                    if let (Ok(on), Ok(off), Ok(absent)) = (&on, &off, &absent) {
                        if on != absent && on == off {
                            l.fail(format!("off is read as on: {local}"), format!("<{name} w:val=\"0\"/> reads like <{name}/>"));
                        }
                    }
                    if PLAIN_SWITCHES.contains(&local) {
                        judge(l, "switched off", &absent, &with(val(Some("0"))));
                    }
                    return;
                }
                let (one, other) = *ch.pick(&[
                    (Some("1"), None),
                    (Some("1"), Some("true")),
                    (Some("1"), Some("on")),
                    (Some("0"), Some("false")),
                    (Some("0"), Some("off")),
                ]);
                l.label = format!("{} <{name}> {one:?} {other:?}", t.name);
                judge(l, "on/off value", &answer(&with(val(one))), &with(val(other)));
                return;
            }
            let lengths: &[&str] = match local {
                "pgSz" => &["w:w", "w:h"],
                "pgMar" => &["w:top", "w:right", "w:bottom", "w:left", "w:header", "w:footer", "w:gutter"],
                "ind" => &["w:left", "w:right", "w:firstLine", "w:hanging"],
                _ => &[],
            };
            let here: Vec<usize> = (0..attrs.len()).filter(|&k| lengths.contains(&attrs[k].0.as_str())).collect();
            if here.is_empty() {
                l.skip = true;
                return;
            }
            let k = *ch.pick(&here);
            let (twips, points) = *ch.pick(&[("240", "12pt"), ("210", "10.5pt"), ("0", "0pt"), ("1", "0.05pt"), ("720", "36.0pt")]);
            let (mut a, mut b) = (attrs.clone(), attrs.clone());
            a[k].1 = twips.into();
            b[k].1 = points.into();
            l.label = format!("{} <{name}> {} {twips} {points}", t.name, attrs[k].0);
            judge(l, "length in points", &answer(&with(a)), &with(b));
        }));
    }
    if deep {
        let (packs, tg, base) = (packs.clone(), tg.clone(), base.clone());
        out.push(Phase::new("two sites", "a rewriting of a whole part together with every rewriting of one site", move |ch, l| {
            let (t, ..) = ch.pick(&tg);
            let rule = *ch.pick(&["attribute order", "open element form", "comment", "white space", "foreign element"]);
            let text = rewrite_whole(rule, &t.toks);
            let toks = tokens(&text);
            let (g, w) = (open_gaps(&toks), inside(&toks));
            let Some((text, rule2, site)) = rewrite(ch, &toks, &g, &w) else {
                l.skip = true;
                return;
            };
            l.label = format!("{} {rule} and {rule2} {site}", t.name);
            judge(l, &format!("{rule} and {rule2}"), &base[t.pack], &crate::fault::with_part(&packs[t.pack], t.part, text.into_bytes()));
        }));
    }
    out
}
