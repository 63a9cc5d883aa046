//! C17: reading, packing and reading again reaches a fixed point.

use super::c01::main_text_only;
use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::fault::*;
use crate::gen::*;
use crate::opc::Package;
use crate::vocab::*;
use crate::xml::{El, Node};
use crate::zipread::write_stored;
use crate::Tier;
use docx_rs::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "relationship ids, names of media parts and write-time ids are compared through what they lead to".into(),
            "the first packing may add the library's built-in style and numbering where their ids are free, a comment thread entry per comment and the row height rule that holds when none is stated; it leaves out numbering definitions of a document that uses no numbering, unused links and pictures, drawings of unknown kind and runs without content or formatting".into(),
            "a package counts as read when the library reads it; what the first reading does not take in is the subject of other properties".into(),
        ],
    }
}

// -------------------------------------------------------------------------------- comparable forms

/// The document as JSON with relationship ids replaced by what they lead to.
pub fn settled(d: &Docx) -> Result<Value, String> {
    let mut j: Value = serde_json::from_str(&d.json()).map_err(|e| format!("JSON export: {e}"))?;
    let mut ids: BTreeMap<String, String> = BTreeMap::new();
    for (id, _, img, _) in &d.images {
        ids.insert(id.clone(), format!("#{:016x}", hash64(&img.0)));
    }
    for (id, target, _) in &d.hyperlinks {
        ids.insert(id.clone(), format!("#{target}"));
    }
    // which comment threads are resolved
    let mut of_comments: BTreeMap<String, Value> = BTreeMap::new();
    every(&mut j["document"], &mut |o| {
        let kids = o.get("children").and_then(|k| k.as_array()).filter(|_| o.contains_key("parentCommentId"));
        let last = kids.and_then(|k| k.iter().rev().find(|k| k["type"] == "paragraph"));
        if let Some(id) = last.and_then(|k| k["data"]["id"].as_str()) {
            of_comments.insert(id.to_string(), o["id"].clone());
        }
        false
    });
    let mut resolved: Vec<&Value> =
        d.comments_extended.children.iter().filter(|e| e.done).filter_map(|e| of_comments.get(&e.paragraph_id)).collect();
    resolved.sort_by_key(|i| i.as_u64());
    let o = j.as_object_mut().unwrap();
    o.insert("resolved".into(), json!(resolved));
    for k in ["images", "hyperlinks", "commentsExtended"] {
        o.remove(k);
    }
    tidy(&mut j, &ids);
    if let Some(Value::Array(a)) = j.pointer_mut("/comments/comments") {
        a.sort_by_key(|c| c["id"].as_u64());
    }
    Ok(j)
}

const REFS: &[&str] = &["header", "firstHeader", "evenHeader", "footer", "firstFooter", "evenFooter"];

fn tidy(v: &mut Value, ids: &BTreeMap<String, String>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if let (true, Value::String(s)) = (["rid", "id", "path"].contains(&k.as_str()), &*x) {
                    if let Some(t) = ids.get(s) {
                        *x = json!(t);
                    } else if k == "rid" {
                        *x = json!("#");
                    }
                }
                if k.ends_with("Reference") && REFS.contains(&k.trim_end_matches("Reference")) {
                    if let Some(r) = x.as_object_mut() {
                        r.insert("id".into(), json!("#"));
                    }
                }
                if REFS.contains(&k.as_str()) {
                    if let Some(Value::String(s)) = x.as_array_mut().and_then(|a| a.first_mut()) {
                        *s = "#".into();
                    }
                }
                tidy(x, ids);
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                tidy(x, ids);
            }
            a.retain(|x| {
                let kind = x.get("type").and_then(|t| t.as_str());
                let blank_run = kind == Some("run")
                    && x.pointer("/data/children").and_then(|c| c.as_array()).is_some_and(|c| c.is_empty())
                    && x.pointer("/data/runProperty").and_then(|c| c.as_object()).is_some_and(|c| c.is_empty());
                let blank_drawing = kind == Some("drawing") && x.pointer("/data").and_then(|d| d.as_object()).is_some_and(|d| d.is_empty());
                !blank_run && !blank_drawing
            });
        }
        _ => {}
    }
}

/// What writing is known to lose or add: name and change of the expected document.
type Limit = (&'static str, fn(&mut Value) -> bool);
const LIMITS: &[Limit] = &[
    ("themes are not written", |v| clear(v, "/themes")),
    ("web settings are not written", |v| clear(v, "/webSettings/divs")),
    ("the division of a paragraph is not written", |v| every(v, &mut |o| o.remove("divId").is_some())),
    ("an unstated right indent is written as 0", |v| {
        every(v, &mut |o| match o.get_mut("indent") {
            Some(Value::Object(i)) if i.get("end") == Some(&Value::Null) => {
                i.insert("end".into(), json!(0));
                true
            }
            _ => false,
        })
    }),
    ("an unstated link history is written as 1", |v| {
        every(v, &mut |o| {
            let hit = o.get("history") == Some(&Value::Null);
            if hit {
                o.insert("history".into(), json!(1));
            }
            hit
        })
    }),
];

fn clear(v: &mut Value, at: &str) -> bool {
    match v.pointer_mut(at) {
        Some(Value::Array(a)) if !a.is_empty() => {
            a.clear();
            true
        }
        _ => false,
    }
}

fn every(v: &mut Value, f: &mut dyn FnMut(&mut serde_json::Map<String, Value>) -> bool) -> bool {
    match v {
        Value::Object(o) => {
            let mut hit = f(o);
            for x in o.values_mut() {
                hit |= every(x, f);
            }
            hit
        }
        Value::Array(a) => a.iter_mut().fold(false, |h, x| every(x, f) | h),
        _ => false,
    }
}

fn builtin() -> &'static Value {
    static B: OnceLock<Value> = OnceLock::new();
    B.get_or_init(|| {
        let p = pack_build(Docx::new().add_paragraph(Paragraph::new().numbering(NumberingId::new(1), IndentLevel::new(0)))).unwrap();
        settled(&read_docx(&p).unwrap()).unwrap()
    })
}

/// Adds what the first packing may add, so that both sides can be compared.
fn complete(j1: &mut Value, j2: &Value) {
    let add = |j1: &mut Value, at: &str, key: &str, front: bool| {
        let Some(b) = builtin().pointer(at).and_then(|a| a.as_array()).and_then(|a| a.first()).cloned() else { return };
        let want = j2.pointer(at).and_then(|a| a.as_array()).map(|a| a.contains(&b)).unwrap_or(false);
        if let Some(Value::Array(a)) = j1.pointer_mut(at) {
            if want && !a.iter().any(|x| x.get(key) == b.get(key)) {
                if front {
                    a.insert(0, b);
                } else {
                    a.push(b);
                }
            }
        }
    };
    add(j1, "/styles/styles", "styleId", true);
    let uses = |v: &Value| v.to_string().contains("\"numberingProperty\":{");
    let used = uses(&j1["document"]) || uses(&j1["styles"]) || uses(&j1["comments"]);
    let none = j2.pointer("/numberings/abstractNums") == Some(&json!([])) && j2.pointer("/numberings/numberings") == Some(&json!([]));
    if !used && none {
        clear(j1, "/numberings/abstractNums");
        clear(j1, "/numberings/numberings");
    } else {
        add(j1, "/numberings/abstractNums", "id", true);
        add(j1, "/numberings/numberings", "id", true);
    }
    let rule = |o: &mut serde_json::Map<String, Value>| {
        let hit = o.contains_key("rowHeight") && o.get("heightRule").is_none_or(|r| r.is_null());
        if hit {
            o.insert("heightRule".into(), json!("atLeast"));
        }
        hit
    };
    every(j1, &mut |o| rule(o));
    every(j1, &mut |o| !o.contains_key("rowHeight") && o.remove("heightRule").is_some());
    every(j1, &mut |o| {
        let plain = o.contains_key("styleId") && o.get("styleType").is_some_and(|t| t != "table");
        if plain {
            for k in ["tableProperty", "tableCellProperty"] {
                if let Some(v) = builtin().pointer("/styles/styles/0").and_then(|b| b.get(k)) {
                    o.insert(k.into(), v.clone());
                }
            }
        }
        plain
    });
    cells(j1, j2);
    // comments nothing refers to are left out
    let mut marked = BTreeSet::new();
    let mut doc = j1["document"].clone();
    every(&mut doc, &mut |o| {
        if let (Some(Value::String(k)), Some(id)) = (o.get("type"), o.get("data").and_then(|d| d.get("id"))) {
            if k == "commentRangeStart" {
                marked.insert(id.to_string());
            }
        }
        false
    });
    let kept: BTreeSet<String> =
        j2.pointer("/comments/comments").and_then(|c| c.as_array()).map(|a| a.iter().map(|c| c["id"].to_string()).collect()).unwrap_or_default();
    if let Some(Value::Array(a)) = j1.pointer_mut("/comments/comments") {
        a.retain(|c| marked.contains(&c["id"].to_string()) || kept.contains(&c["id"].to_string()));
    }
}

/// A cell without content is written with one empty paragraph.
fn cells(v: &mut Value, got: &Value) {
    match (v, got) {
        (Value::Object(o), Value::Object(g)) => {
            let bare = o.contains_key("children") && o.get("property").is_some_and(|p| p.get("verticalMerge").is_some());
            if bare && o["children"] == json!([]) {
                if let Some([p]) = g.get("children").and_then(|c| c.as_array()).map(|a| a.as_slice()) {
                    if p["type"] == "paragraph" && p["data"]["children"] == json!([]) && p["data"]["property"] == json!({"runProperty": {}, "tabs": []}) {
                        o.insert("children".into(), json!([p]));
                    }
                }
            }
            for (k, x) in o.iter_mut() {
                if let Some(y) = g.get(k) {
                    cells(x, y);
                }
            }
        }
        (Value::Array(a), Value::Array(b)) => a.iter_mut().zip(b).for_each(|(x, y)| cells(x, y)),
        _ => {}
    }
}

/// First difference: place without positions and the two values.
pub fn differ(a: &Value, b: &Value, at: &str) -> Option<(String, String)> {
    let clip = |v: &Value| v.to_string().chars().take(160).collect::<String>();
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            for k in keys {
                let p = format!("{at}.{k}");
                match (x.get(k), y.get(k)) {
                    (Some(p1), Some(q)) => {
                        if let Some(d) = differ(p1, q, &p) {
                            return Some(d);
                        }
                    }
                    (Some(v), None) => return Some((format!("{p} lost"), clip(v))),
                    (None, Some(v)) => return Some((format!("{p} added"), clip(v))),
                    _ => {}
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            for (p, q) in x.iter().zip(y) {
                if let Some(d) = differ(p, q, at) {
                    return Some(d);
                }
            }
            (x.len() != y.len()).then(|| (format!("{at} count"), format!("{} became {}: {} / {}", x.len(), y.len(), clip(a), clip(b))))
        }
        _ => (a != b).then(|| (at.to_string(), format!("{} became {}", clip(a), clip(b)))),
    }
}

/// The parts of a package with relationship ids, media names and write-time ids resolved.
fn parts(pkg: &Package) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let shown = |source: &str, id: &str| -> String {
        match pkg.rel(source, id) {
            None => "#none".into(),
            Some(r) if r.external => format!("#{}", r.target),
            Some(r) => match pkg.resolve(source, id) {
                Some(b) if r.kind() == "image" => format!("#{:016x}", hash64(&b)),
                _ => format!("#{}", r.target),
            },
        }
    };
    let related = pkg.reachable();
    for n in &pkg.names {
        if n.contains("/media/") || n.ends_with(".xml") && !n.starts_with('[') && !related.contains(n) {
            continue;
        }
        let text = if n.ends_with(".rels") {
            let source = n.replace("_rels/", "").trim_end_matches(".rels").to_string();
            let mut v: Vec<String> =
                pkg.rels.get(&source).map(|r| r.iter().map(|r| format!("{} {}", r.typ, shown(&source, &r.id))).collect()).unwrap_or_default();
            v.sort();
            v.join("\n")
        } else {
            match pkg.xml(n) {
                Some(x) => {
                    let mut x = x.clone();
                    let mut ids: Vec<String> = vec![];
                    rename(&mut x, &|id| shown(n, id), &mut ids);
                    x.canon()
                }
                None => format!("{:016x}", hash64(pkg.parts.get(n).map(|b| b.as_slice()).unwrap_or_default())),
            }
        };
        out.insert(n.clone(), text);
    }
    out
}

const DRAWN: &[&str] = &["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange", "w:rPrChange", "w:sectPrChange"];

fn rename(e: &mut El, shown: &dyn Fn(&str) -> String, ids: &mut Vec<String>) {
    let q = e.q();
    for a in e.attrs.iter_mut() {
        let aq = a.q();
        if aq.starts_with("r:") {
            a.value = shown(&a.value);
        }
        if aq == "w:id" && DRAWN.contains(&q.as_str()) {
            let k = ids.iter().position(|i| *i == a.value).unwrap_or_else(|| {
                ids.push(a.value.clone());
                ids.len() - 1
            });
            a.value = format!("#{k}");
        }
    }
    for k in e.kids.iter_mut() {
        if let Node::El(c) = k {
            rename(c, shown, ids);
        }
    }
}

// ------------------------------------------------------------------------------------------ cycle

/// Whether every reference of the package leads somewhere, no id repeats, and every number is one a document can hold.
fn sound(bytes: &[u8]) -> bool {
    let Ok(pkg) = Package::open(bytes) else { return false };
    let aside = ["wrong-content-type", "no-content-type", "unreachable", "override-without-part"];
    if pkg.problems().iter().any(|(c, _)| !aside.iter().any(|a| c.starts_with(a))) {
        return false;
    }
    let (mut paras, mut starts) = (BTreeSet::new(), BTreeSet::new());
    let mut good = true;
    for n in &pkg.names {
        if let Some(x) = pkg.xml(n) {
            x.walk(&mut |e| {
                for a in &e.attrs {
                    good &= a.local != "paraId" || e.local == "commentEx" || !a.value.is_empty() && paras.insert(a.value.clone());
                    good &= plain(&a.value, e.local == "pgSz");
                }
                let id = e.attr("w:id").unwrap_or("").to_string();
                good &= match e.local.as_str() {
                    "headerReference" | "footerReference" => e.attrs.iter().any(|a| a.q() == "r:id"),
                    "commentRangeStart" => starts.insert(id),
                    "commentRangeEnd" => starts.contains(&id),
                    "pic" => e.all("a:blip").iter().any(|b| b.attrs.iter().any(|a| a.q() == "r:embed")),
                    "drawing" => e.els().all(|c| !c.local.starts_with("position")),
                    _ => true,
                };
                good &= e.kids.iter().all(|k| !matches!(k, Node::Text(t) if t.contains('\u{0}')));
            });
        }
    }
    good
}

/// Whether two marks start the same comment; such a comment is written once per mark.
fn repeats(pkg: &Package) -> bool {
    let mut seen = BTreeSet::new();
    pkg.document().is_some_and(|(_, d)| d.all("w:commentRangeStart").iter().any(|c| !seen.insert(c.attr("w:id"))))
}

/// A value that is no number, or one within the range every setting can hold.
fn plain(v: &str, positive: bool) -> bool {
    let digits = v.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '%');
    let low = if positive { 0.0 } else { -2147483648.0 };
    !v.contains('\u{0}') && digits.parse::<f64>().map(|x| (low..2147483648.0).contains(&x)).unwrap_or(true)
}

fn steps<T>(l: &mut Leaf, what: &str, f: impl FnOnce() -> Result<T, String>) -> Option<T> {
    l.transitions += 1;
    match guarded(f) {
        Ok(Ok(t)) => Some(t),
        Ok(Err(e)) => {
            l.fail(format!("{what} fails"), &e);
            None
        }
        Err(p) => {
            l.fail(format!("{what} panics: {}", panic_class(&p)), &p);
            None
        }
    }
}

/// Cycles from a package. The first one is judged, and closure demanded, when the package itself is sound.
fn cycles(l: &mut Leaf, bytes: &[u8], n: usize) {
    let closed = sound(bytes);
    let n = if closed { n } else { 3 };
    let Ok(Ok(d1)) = guarded(|| read_docx(bytes).map_err(|e| e.to_string())) else {
        l.outcome = "not read".into();
        return;
    };
    let Some(mut expect) = steps(l, "exporting", || settled(&d1)) else { return };
    let mut known: Vec<&str> = vec![];
    for (name, f) in LIMITS {
        if f(&mut expect) {
            known.push(name);
        }
    }
    let mut d = d1;
    let mut before: Option<BTreeMap<String, String>> = None;
    for cycle in 1..=n {
        let Some(p) = steps(l, "packing a document that was read", || pack_build(d)) else { return };
        l.evals += 1;
        let pkg = match Package::open(&p) {
            Ok(p) => p,
            Err(e) => return l.fail("the written package is no package", &e),
        };
        for (code, why) in pkg.problems() {
            let shape = ["not-well-formed", "duplicate-entry", "no-content-types"].iter().any(|c| code.starts_with(c));
            let aside = code.starts_with("dangling-rel@comments") || code.starts_with("dangling-rel@footnotes");
            if shape || closed && !aside {
                return l.fail(format!("written package: {code}"), why);
            }
        }
        let now = parts(&pkg);
        if let Some(b) = before.as_ref().filter(|_| closed || cycle > 2) {
            let names: BTreeSet<&String> = b.keys().chain(now.keys()).collect();
            for n in names {
                if b.get(n) != now.get(n) {
                    let (x, y) = (b.get(n).cloned().unwrap_or_default(), now.get(n).cloned().unwrap_or_default());
                    let i = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count().saturating_sub(60);
                    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.min(s.len())..(i + 220).min(s.len())]).into_owned();
                    return l.fail(format!("part {n} changes in cycle {cycle}"), format!("{} / {}", cut(&x), cut(&y)));
                }
            }
        }
        if repeats(&pkg) {
            l.outcome = "a comment mark repeats".into();
            return;
        }
        before = Some(now);
        let Some(next) = steps(l, "reading what was written", || read_docx(&p).map_err(|e| e.to_string())) else { return };
        let Some(got) = steps(l, "exporting", || settled(&next)) else { return };
        l.states.push(hash64(got.to_string().as_bytes()));
        if cycle == 1 {
            complete(&mut expect, &got);
        }
        if let Some((at, what)) = differ(&expect, &got, "").filter(|_| closed || cycle > 2) {
            let at = at.trim_start_matches('.').replace(".data", "").replace(".children", "/");
            let at = if cycle == 1 { format!("first cycle: {at}") } else { format!("later cycle: {at}") };
            return l.fail(at, what);
        }
        expect = got;
        d = next;
    }
    l.validated += 1;
    for k in known {
        l.fail(k, "");
    }
}

pub fn fixtures() -> Vec<(String, Vec<u8>)> {
    let root = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("fixtures");
    let mut v = vec![];
    for dir in [std::path::PathBuf::from("/repo/fixtures"), root] {
        let Ok(rd) = std::fs::read_dir(&dir) else { continue };
        for e in rd.flatten() {
            let Ok(rd) = std::fs::read_dir(e.path()) else { continue };
            for f in rd.flatten() {
                if f.path().extension().is_some_and(|x| x == "docx") {
                    if let Ok(b) = std::fs::read(f.path()) {
                        v.push((format!("{}", f.path().strip_prefix(&dir).unwrap_or(&f.path()).display()), b));
                    }
                }
            }
        }
        if !v.is_empty() {
            break;
        }
    }
    v.sort();
    v
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    let fx = Arc::new(fixtures());
    assert!(!fx.is_empty(), "no package fixtures found in /repo/fixtures");
    {
        let fx = fx.clone();
        out.push(Phase::new("fixtures", "every package fixture of the repository, three cycles", move |ch, l| {
            let (name, b) = ch.pick(&fx);
            l.label = name.clone();
            cycles(l, b, 3);
        }));
    }
    let packs: Arc<Vec<Pack>> = Arc::new(sound_packs());
    let tg: Arc<Vec<Target>> = Arc::new(targets(&packs));
    {
        let packs = packs.clone();
        out.push(Phase::new("vocabulary", "every hand-written package that uses the whole vocabulary, three cycles", move |ch, l| {
            let p = ch.pick(&packs);
            l.label = p.name.into();
            cycles(l, &write_stored(&p.parts), 3);
        }));
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        out.push(
            Phase::new("variations", "every single structural or value variation of those packages that is still read, two cycles", move |ch, l| {
                let t = ch.pick(&tg);
                let (text, what) = damage(ch, &t.toks);
                l.label = format!("{} {what}", t.name);
                cycles(l, &with_part(&packs[t.pack], t.part, text.into_bytes()), 2);
            })
            .limit(10),
        );
    }
    {
        let feats = Arc::new(features());
        out.push(Phase::new("built documents", "every feature in every place, alone and with every core feature in every other place, three cycles", move |ch, l| {
            let h = *ch.pick(PARA_HOSTS);
            let (f, make) = ch.pick(&feats);
            if !main_text_only(h, f) {
                l.skip = true;
                return;
            }
            let second = ch.choose(1 + if deep { CORE_FEATURES.len() * PARA_HOSTS.len() } else { CORE_FEATURES.len() });
            l.label = format!("{h} {f}");
            let mut doc = place(h, make(1), 1);
            if second > 0 {
                let k = second - 1;
                let (h2, f2) = (PARA_HOSTS[if deep { k / CORE_FEATURES.len() } else { 0 }], CORE_FEATURES[k % CORE_FEATURES.len()]);
                if !main_text_only(h2, f2) {
                    l.skip = true;
                    return;
                }
                l.label += &format!(" + {h2} {f2}");
                let make2 = &feats.iter().find(|x| x.0 == f2).unwrap().1;
                doc = doc.merge(place(h2, make2(2), 2));
            }
            let Ok(Ok(b)) = guarded(|| pack_build(doc.to_docx())) else {
                l.skip = true;
                return;
            };
            cycles(l, &b, 3);
        }));
    }
    out
}
