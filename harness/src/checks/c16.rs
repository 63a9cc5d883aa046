//! C16: packing is repeatable and the output routes agree.

use super::c01::{main_text_only, options};
use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::Tier;
use docx_rs::*;
use std::sync::OnceLock;

pub fn meta() -> Meta {
    Meta {
        level: "model_checking",
        assumptions: vec![
            "ids of tracked changes, of paragraphs the library adds and of bookmarks generated for a table of contents are drawn anew at each packing; they are renamed in order of appearance before comparing".into(),
            "the comparison across processes runs the same constructions in the same order in several fresh processes".into(),
        ],
    }
}

/// Elements whose id is drawn when the part is written.
const DRAWN: &[&str] = &["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange", "w:rPrChange", "w:bookmarkStart", "w:bookmarkEnd"];

/// Canonical texts of the parts with drawn ids and generated bookmark names renamed in order of appearance.
fn settle(parts: &Parts) -> Vec<String> {
    let mut ids: Vec<String> = Vec::new();
    let mut names: Vec<String> = Vec::new();
    parts
        .iter()
        .map(|(n, b)| match crate::xml::parse(b) {
            Ok(mut e) => {
                rename(&mut e, &mut ids, &mut names);
                e.canon()
            }
            Err(_) => format!("{n} {:016x}", hash64(b)),
        })
        .collect()
}

fn index(list: &mut Vec<String>, s: &str) -> usize {
    list.iter().position(|x| x == s).unwrap_or_else(|| {
        list.push(s.to_string());
        list.len() - 1
    })
}

fn toc_names(s: &str, names: &mut Vec<String>) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("_Toc") {
        out.push_str(&rest[..i]);
        rest = &rest[i + 4..];
        let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        out.push_str(&format!("#toc{}", index(names, &rest[..e])));
        rest = &rest[e..];
    }
    out + rest
}

fn rename(e: &mut crate::xml::El, ids: &mut Vec<String>, names: &mut Vec<String>) {
    let q = e.q();
    for a in e.attrs.iter_mut() {
        if DRAWN.contains(&q.as_str()) && a.q() == "w:id" {
            let space = if q.starts_with("w:bookmark") { "b" } else { "t" };
            a.value = format!("#{space}{}", index(ids, &format!("{space}{}", a.value)));
        } else if matches!(a.q().as_str(), "w14:paraId" | "w15:paraId" | "w15:paraIdParent") {
            a.value = format!("#p{}", index(ids, &format!("p{}", a.value)));
        } else {
            a.value = toc_names(&a.value, names);
        }
    }
    for k in e.kids.iter_mut() {
        match k {
            crate::xml::Node::El(e) => rename(e, ids, names),
            crate::xml::Node::Text(t) => *t = toc_names(t, names),
        }
    }
}

type Parts = Vec<(String, Vec<u8>)>;

fn parts(bytes: &[u8]) -> Result<Parts, String> {
    let mut v: Parts = crate::zipread::read(bytes)?.into_iter().filter(|e| !e.name.ends_with('/')).map(|e| (e.name, e.data)).collect();
    v.sort();
    Ok(v)
}

fn packed(d: Docx, stream: bool) -> Result<Parts, String> {
    let b = guarded(|| if stream { pack_stream(d) } else { pack_build(d) }).map_err(|p| format!("panic: {p}"))??;
    parts(&b)
}

fn differ(a: &Parts, b: &Parts) -> Option<(String, String)> {
    let names = |p: &Parts| p.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    if names(a) != names(b) {
        return Some(("parts".into(), format!("{:?} and {:?}", names(a), names(b))));
    }
    if a == b {
        return None;
    }
    let (sa, sb) = (settle(a), settle(b));
    for ((x, y), (p, q)) in a.iter().zip(b).zip(sa.iter().zip(&sb)) {
        if p != q {
            let at = x.1.iter().zip(&y.1).position(|(p, q)| p != q).unwrap_or(x.1.len().min(y.1.len()));
            let show = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(60).min(v.len())..(at + 60).min(v.len())]).into_owned();
            return Some((crate::opc::role_name(&x.0), format!("{}: ...{}... and ...{}...", x.0, show(&x.1), show(&y.1))));
        }
    }
    None
}

const OPS: &[&str] = &["pack", "build", "clone", "json", "json-update", "comments-json", "collect"];

fn apply(l: &mut Leaf, d: &mut Docx, op: &str) {
    match op {
        "pack" => {
            let _ = packed(d.clone(), true);
        }
        "build" => {
            let _ = packed(d.clone(), false);
        }
        "clone" => *d = d.clone(),
        "json" => {
            let before = d.clone();
            let a = d.json();
            let b = d.json();
            if a != b {
                l.fail("json-unstable", "two exports of one document differ");
            }
            if serde_json::from_str::<serde_json::Value>(&a).is_err() {
                l.fail("json-invalid", "the export is not JSON");
            }
            if !same(&before, d) {
                l.fail("json-changes", "exporting changed the document");
            }
            if before.json() != a {
                l.fail("json-clone", "a clone exports differently");
            }
        }
        "json-update" => {
            let a = d.json_with_update_comments();
            let b = d.json_with_update_comments();
            if a != b {
                l.fail("json-update-unstable", "two exports with comment update differ");
            }
            if serde_json::from_str::<serde_json::Value>(&a).is_err() {
                l.fail("json-invalid", "the export is not JSON");
            }
        }
        "comments-json" => {
            let a = d.comments_json();
            let b = d.comments_json();
            if a != b {
                l.fail("comments-json-unstable", "two comment exports differ");
            }
            if serde_json::from_str::<serde_json::Value>(&a).is_err() {
                l.fail("json-invalid", "the comment export is not JSON");
            }
        }
        _ => {
            d.collect_footnotes();
        }
    }
    l.transitions += 1;
}

fn same(a: &Docx, b: &Docx) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

fn judge(l: &mut Leaf, d: Docx, ops: &[&str]) {
    let mut l2 = std::mem::take(l);
    let want = match packed(d.clone(), true) {
        Ok(p) => p,
        Err(e) => {
            l2.fail("write-failed", e);
            *l = l2;
            return;
        }
    };
    let mut d = d;
    for op in ops {
        let r = guarded(|| {
            apply(&mut l2, &mut d, op);
        });
        if let Err(p) = r {
            l2.fail(format!("panic:{}", panic_class(&p)), p);
        }
    }
    for stream in [true, false] {
        l2.evals += 1;
        match packed(d.clone(), stream) {
            Ok(got) => {
                if let Some((k, m)) = differ(&want, &got) {
                    let how = if ops.is_empty() { "route" } else { "history" };
                    l2.fail(format!("{how}@{k}"), format!("after {ops:?}, stream={stream}: {m}"));
                }
            }
            Err(e) => l2.fail("repeat-failed", format!("after {ops:?}: {e}")),
        }
    }
    l2.validated += 1;
    *l = l2;
}

/// Documents whose contents draw on every counter and table of the builder.
fn rich(k: usize) -> Docx {
    let head = |s: &str| Paragraph::new().style("Heading1").add_run(Run::new().add_text(s));
    let base = Docx::new().add_style(Style::new("Heading1", StyleType::Paragraph).name("Heading 1"));
    match k {
        0 => base
            .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto())
            .add_paragraph(head("a"))
            .add_paragraph(head("b").add_comment_start(Comment::new(3).add_paragraph(Paragraph::new())).add_comment_end(3)),
        1 => base
            .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto().add_before_paragraph(Paragraph::new()))
            .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 1).auto())
            .add_paragraph(head("a"))
            .add_section(Section::new().add_paragraph(head("in section"))),
        2 => (0..4).fold(base, |d, i| d.custom_property(format!("key{i}"), format!("value{i}")).add_doc_var(&format!("var{i}"), "x")),
        3 => base
            .header(Header::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(png(1), 3, 3)))))
            .first_footer(Footer::new().add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new("http://a/", HyperlinkType::External).add_run(Run::new().add_text("l")))))
            .add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(png(1), 3, 3)).add_image(Pic::new_with_dimensions(png(2), 3, 3)))),
        4 => {
            let p = Paragraph::new().id("0000000A").add_run(Run::new().add_footnote_reference(Footnote::new()));
            base.add_paragraph(p.clone()).add_paragraph(p)
        }
        5 => {
            let c = |i: usize| Comment::new(i).author("a").add_paragraph(Paragraph::new().id("0000000B").add_run(Run::new().add_text(format!("c{i}"))));
            base.add_paragraph(Paragraph::new().add_comment_start(c(1)).add_comment_start(c(2).parent_comment_id(1)).add_comment_end(2).add_comment_end(1))
        }
        6 => base
            .taskpanes()
            .web_extension(WebExtension::new("i", "s", "1.0", "st", "t").property("a", "b").property("c", "d"))
            .add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC3", "<root/>")
            .add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC4", "<root2/>"),
        _ => base
            .add_abstract_numbering(AbstractNumbering::new(5))
            .add_numbering(Numbering::new(5, 5))
            .add_paragraph(Paragraph::new().numbering(NumberingId::new(5), IndentLevel::new(0)))
            .add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().add_insert(Insert::new(Run::new().add_text("i"))))])])),
    }
}

const RICH: usize = 8;

/// Every document of the cross-process comparison, in a fixed order.
fn census() -> Vec<Box<dyn Fn() -> Docx>> {
    let mut v: Vec<Box<dyn Fn() -> Docx>> = Vec::new();
    for k in 0..RICH {
        v.push(Box::new(move || rich(k)));
    }
    for n in 0..8 {
        v.push(Box::new(move || (0..n).fold(Docx::new(), |d, i| d.custom_property(format!("p{i}"), "v").add_doc_var(&format!("d{i}"), "v"))));
    }
    for h in PARA_HOSTS {
        for f in CORE_FEATURES {
            if main_text_only(h, f) {
                v.push(Box::new(move || {
                    let fs = features();
                    let f = fs.iter().find(|x| x.0 == *f).unwrap();
                    place(h, (f.1)(1), 1).merge(place("body", (f.1)(2), 2)).to_docx()
                }));
            }
        }
    }
    v
}

/// Entry of a child process: one line per document with the hash of its parts and of its export.
pub fn child() {
    for f in census() {
        let d = f();
        let j = hash64(d.json().as_bytes());
        let p = match pack_build(d).and_then(|b| parts(&b)) {
            Ok(p) => p.iter().map(|(n, b)| format!("{n}={:016x}", hash64(b))).collect::<Vec<_>>().join(" "),
            Err(e) => format!("error {e}"),
        };
        println!("json={j:016x} {p}");
    }
}

const CHILDREN: usize = 8;

fn children() -> &'static Vec<Vec<String>> {
    static OUT: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    OUT.get_or_init(|| {
        (0..CHILDREN)
            .map(|_| {
                let exe = std::env::current_exe().expect("own path");
                let o = std::process::Command::new(exe).arg("census").output().expect("child");
                String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
            })
            .collect()
    })
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let quick = t == Tier::Quick;
    let mut v = Vec::new();
    v.push(Phase::new("routes", "every feature at every position, then every pair of core features at core positions: both routes, packed twice", {
        let fs = features();
        move |ch: &mut Chooser, l: &mut Leaf| {
            if ch.flag() {
                let core: Vec<_> = fs.iter().filter(|f| CORE_FEATURES.contains(&f.0.as_str())).collect();
                let hosts = if quick { &["body", "section", "header", "comment", "toc-before"][..] } else { PARA_HOSTS };
                let mut d = Doc::default();
                for i in 0..2 {
                    let h = *ch.pick(hosts);
                    let f = core[ch.choose(core.len())];
                    l.label.push_str(&format!("{h} <- {}; ", f.0));
                    if !main_text_only(h, &f.0) {
                        l.skip = true;
                        return;
                    }
                    d = d.merge(place(h, (f.1)(i), i));
                }
                judge(l, d.to_docx(), &["pack", "json-update"]);
            } else {
                let h = *ch.pick(PARA_HOSTS);
                let f = &fs[ch.choose(fs.len())];
                l.label = format!("{h} <- {}", f.0);
                if !main_text_only(h, &f.0) {
                    l.skip = true;
                    return;
                }
                judge(l, place(h, (f.1)(1), 1).to_docx(), &[]);
            }
        }
    }));
    v.push(Phase::new("options", "all combinations of package options: both routes, packed twice", |ch: &mut Chooser, l: &mut Leaf| {
        let mut label = String::new();
        let d = options(ch, Docx::new(), &mut label);
        l.label = label;
        judge(l, d, &[]);
    }));
    let depth = if quick { 4 } else { 5 };
    v.push(Phase::new("histories", format!("all histories of up to {depth} operations from {OPS:?} on {RICH} documents that use every counter and table"), move |ch: &mut Chooser, l: &mut Leaf| {
        let k = ch.choose(RICH);
        let n = ch.choose(depth + 1);
        let ops: Vec<&str> = (0..n).map(|_| *ch.pick(OPS)).collect();
        l.label = format!("{k} {ops:?}");
        l.states.push(hash64(l.label.as_bytes()));
        judge(l, rich(k), &ops);
    }));
    v.push(Phase::new("read-histories", format!("the same histories on documents that were read from a package, up to {} operations", depth - 1), move |ch: &mut Chooser, l: &mut Leaf| {
        let k = ch.choose(RICH);
        let n = ch.choose(depth);
        let ops: Vec<&str> = (0..n).map(|_| *ch.pick(OPS)).collect();
        l.label = format!("read {k} {ops:?}");
        l.states.push(hash64(l.label.as_bytes()));
        let d = match guarded(|| read_docx(&pack_build(rich(k)).expect("pack"))) {
            Ok(Ok(d)) => d,
            e => return l.fail("read-failed", format!("{:?}", e.map(|_| ()))),
        };
        judge(l, d, &ops);
    }));
    v.push(Phase::new("processes", format!("{} documents constructed in the same order in {CHILDREN} fresh processes", census().len()), |ch: &mut Chooser, l: &mut Leaf| {
        let k = ch.choose(census().len());
        l.label = format!("document {k}");
        let all = children();
        let first = all[0].get(k);
        l.evals += CHILDREN as u64;
        for (i, c) in all.iter().enumerate() {
            if c.get(k).is_none() || c.get(k).is_some_and(|s| s.contains("error")) {
                return l.fail("process-failed", format!("process {i} gave {:?}", c.get(k)));
            }
            if c.get(k) != first {
                let (a, b) = (first.unwrap(), c.get(k).unwrap());
                let d: Vec<&str> = a.split(' ').zip(b.split(' ')).filter(|(x, y)| x != y).map(|(x, _)| x.split('=').next().unwrap()).collect();
                return l.fail(format!("process@{}", d.first().unwrap_or(&"?")), format!("processes 0 and {i} differ in {d:?}"));
            }
        }
        l.validated += 1;
    }).limit(120));
    v
}
