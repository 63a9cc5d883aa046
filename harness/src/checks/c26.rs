//! C26: custom XML data is packed with its content unchanged.

use super::Meta;
use crate::explore::*;
use crate::gen::{pack_build, pack_stream};
use crate::opc::{resolve_target, Package};
use crate::xml::{parse, El, Node};
use crate::Tier;
use docx_rs::*;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "comments and processing instructions carry no data; a CDATA section is the text it holds".into(),
            "white space at either end of an element's text is not compared (recorded as a finding of C02)".into(),
            "prefixes may change as long as names stay in their namespaces".into(),
            "the data handed over is one well-formed document".into(),
        ],
    }
}

// ------------------------------------------------------------------------------------- comparing

/// Elements with names, attributes and texts; the second form leaves open where text stands among elements.
fn shape(e: &El, exact: bool) -> String {
    let mut at: Vec<String> = e.attrs.iter().filter(|a| a.prefix != "xmlns" && !(a.prefix.is_empty() && a.local == "xmlns")).map(|a| format!("{{{}}}{}={:?}", a.ns, a.local, a.value)).collect();
    at.sort();
    let mut s = format!("<{{{}}}{} {}>", e.ns, e.local, at.join(" "));
    let els = e.kids.iter().any(|k| matches!(k, Node::El(_)));
    let mut text = String::new();
    let mut kids = String::new();
    let mut piece = String::new();
    let flush = |piece: &mut String, kids: &mut String| {
        if !piece.trim().is_empty() {
            *kids += &format!("{:?}", piece.trim());
        }
        piece.clear();
    };
    for k in &e.kids {
        match k {
            Node::Text(t) => {
                text += t;
                piece += t;
            }
            Node::El(c) => {
                if exact {
                    flush(&mut piece, &mut kids);
                }
                kids += &shape(c, exact);
            }
        }
    }
    if exact {
        flush(&mut piece, &mut kids);
    } else {
        let t: String = if els { text.split_whitespace().collect() } else { text.trim().to_string() };
        s += &format!("{t:?}");
    }
    s + &kids + "</>"
}

fn items(pkg: &Package) -> Result<Vec<(String, El)>, String> {
    let doc = pkg.doc_part().ok_or("no document part")?;
    let parts = |src: &str, kind: &str| -> Vec<String> {
        pkg.rels.get(src).map(|r| r.iter().filter(|r| r.kind() == kind).map(|r| resolve_target(src, &r.target)).collect()).unwrap_or_default()
    };
    let mut v = vec![];
    for p in parts(&doc, "customXml") {
        let x = pkg.xml(&p).ok_or(format!("{p} is missing or not well-formed"))?;
        let pr = parts(&p, "customXmlProps");
        if pr.len() != 1 {
            return Err(format!("{p} has {} property parts", pr.len()));
        }
        v.push((pkg.xml(&pr[0]).and_then(|e| e.attr("ds:itemID")).unwrap_or("?").to_string(), x.clone()));
    }
    Ok(v)
}

fn check(l: &mut Leaf, given: &[(String, String)], stream: bool) {
    l.states.push(hash64(format!("{given:?}").as_bytes()));
    l.transitions += 1;
    let packed = guarded(|| {
        let mut d = Docx::new();
        for (id, x) in given {
            d = d.add_custom_item(id, x);
        }
        if stream {
            pack_stream(d)
        } else {
            pack_build(d)
        }
    });
    let b = match packed {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return l.fail("not written", e),
        Err(p) => return l.fail(format!("panic: {}", panic_class(&p)), p),
    };
    let got = match Package::open(&b).and_then(|p| items(&p)) {
        Ok(g) => g,
        Err(e) => return l.fail("items", e),
    };
    if got.len() != given.len() {
        return l.fail("number of items", format!("{} became {}", given.len(), got.len()));
    }
    for ((id, x), (gid, g)) in given.iter().zip(&got) {
        l.evals += 1;
        let w = parse(x.as_bytes()).unwrap();
        if *gid != format!("{{{id}}}") {
            return l.fail("item id", format!("{id} became {gid}"));
        }
        if shape(&w, false) != shape(g, false) {
            return l.fail("content", format!("{x} became {}", String::from_utf8_lossy(g.canon().as_bytes())));
        }
        if shape(&w, true) != shape(g, true) {
            return l.fail("order of text and elements", format!("{x} became {}", g.canon()));
        }
    }
    l.validated += 1;
}

const ID: &str = "06AC5857-5C65-A94A-BCEC-37356A209BC3";

const LEAVES: &[&str] = &["x", "&lt;y&amp;&#x41; z", "\n  ", "<![CDATA[<c>&]]>", "<!-- n -->", "<?pi d?>", "<b/>"];
const ATTRS: &[&str] = &[
    "",
    r#" a="1""#,
    r#" a="1" b="2""#,
    r#" p:a="1" a="2""#,
    r#" a="&lt;&quot;&amp;&apos;&gt;""#,
    r#" a="l1&#10;l2&#9;t""#,
    r#" xmlns="urn:d""#,
    r#" xmlns="urn:d" a="1""#,
    r#" xmlns:q="urn:q" q:a="1""#,
    r#" xmlns:p="urn:other" p:a="1""#,
    r#" xml:lang="en""#,
    r#" a="""#,
    r#" a='"' b=" x ""#,
];
const NAMES: &[&str] = &["b", "p:b", "x-y.z_1", "\u{e9}l\u{e9}ment"];

/// A list of contents, at most n long; nested lists are at most m long.
fn contents(ch: &mut Chooser, n: usize, m: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let k = ch.choose(LEAVES.len() + 1 + (m > 0) as usize);
        if k == 0 {
            break;
        }
        if k <= LEAVES.len() {
            s += LEAVES[k - 1];
        } else {
            s += &format!("<c>{}</c>", contents(ch, m, 0));
        }
    }
    s
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    out.push(Phase::new(
        "contents",
        "all lists of up to four contents of an element (text, text with references, white space, CDATA, comment, processing instruction, empty element, element with up to one such content), and all of up to two (deep: three) with up to two in the nested element",
        move |ch, l| {
            let c = match ch.choose(2) {
                0 => contents(ch, 4, 1),
                _ => contents(ch, if deep { 3 } else { 2 }, 2),
            };
            let x = format!("<a>{c}</a>");
            l.label = x.clone();
            check(l, &[(ID.into(), x)], false);
        },
    ).limit(60));
    out.push(Phase::new("names", "every list of attributes and namespace declarations on the root x on a child x on a grandchild x element names x preamble", move |ch, l| {
        let (a, b, c) = (*ch.pick(ATTRS), *ch.pick(ATTRS), *ch.pick(ATTRS));
        let (n, m) = (*ch.pick(NAMES), *ch.pick(NAMES));
        let head = *ch.pick(&["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- c -->"]);
        if !deep && (!a.is_empty()) as u8 + (!b.is_empty()) as u8 + (!c.is_empty()) as u8 > 2 {
            l.skip = true;
            return;
        }
        let x = format!(r#"{head}<{n} xmlns:p="urn:p"{}><{m}{b}>t<x{c}/></{m}><{m}{b}>u</{m}></{n}>"#, a.replace(r#"xmlns:p="urn:other""#, r#"xmlns:pp="urn:other""#));
        l.label = x.clone();
        check(l, &[(ID.into(), x)], false);
    }));
    let some: Arc<Vec<&str>> = Arc::new(vec!["<a/>", "<a>1</a>", r#"<b xmlns="urn:x"><c>2</c></b>"#, "<a>\n  <b>3</b>\n</a>"]);
    out.push(Phase::new("items", "all lists of up to four items of four kinds, through both output routes", move |ch, l| {
        let mut v = vec![];
        for i in 0..4 {
            let k = ch.choose(some.len() + 1);
            if k == 0 {
                break;
            }
            v.push((format!("06AC5857-5C65-A94A-BCEC-37356A209BC{i}"), some[k - 1].to_string()));
        }
        let stream = ch.flag();
        l.label = format!("{v:?} {stream}");
        check(l, &v, stream);
    }));
    out
}
