//! C07: paragraph ids are unique within a package and references to them agree.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::Tier;
use docx_rs::*;
use std::collections::BTreeMap;

pub fn meta() -> Meta {
    Meta {
        level: "model_checking",
        assumptions: vec![
            "an id the caller sets to something that is no eight-digit hexadecimal number is kept as given, as the repository's tests ask".into(),
            "ids are compared as numbers, so letter case does not distinguish them".into(),
        ],
    }
}

/// Marked texts with the id their paragraph must keep, if any.
#[derive(Default)]
pub struct Want {
    keep: Vec<(String, String)>,
    given: Vec<String>,
}

pub fn judge(l: &mut Leaf, made: Docx, want: &Want, stream: bool) {
    let r = guarded(|| if stream { pack_stream(made) } else { pack_build(made) });
    let bytes = match r {
        Ok(Ok(b)) => b,
        e => return l.fail("write-failed", format!("{e:?}")),
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("write-archive", e),
    };
    l.evals += 1;
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut by_text: BTreeMap<String, String> = BTreeMap::new();
    for part in pkg.parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>() {
        let Some(root) = pkg.xml(&part) else { continue };
        let role = crate::opc::role_name(&part);
        for p in root.all("w:p") {
            l.transitions += 1;
            let Some(id) = p.attr("w14:paraId") else {
                l.fail(format!("missing@{role}"), format!("a paragraph of {part} has no id: {}", clip(&p.text())));
                continue;
            };
            let given = want.given.iter().any(|k| k == id);
            let num = u32::from_str_radix(id, 16).ok().filter(|_| id.len() == 8 && id.bytes().all(|c| c.is_ascii_hexdigit()));
            if !given && !matches!(num, Some(1..=0x7fff_ffff)) {
                l.fail(format!("malformed@{role}"), format!("paragraph id {id:?} in {part}"));
            }
            let key = num.map(|n| n.to_string()).unwrap_or_else(|| id.to_string());
            if let Some(other) = seen.insert(key, role.clone()) {
                let mut two = [other, role.clone()];
                two.sort();
                l.fail(format!("duplicate@{}+{}", two[0], two[1]), format!("two paragraphs carry id {id}; one of them in {part}: {}", clip(&p.text())));
            }
            by_text.insert(p.own_paragraph_text(), id.to_string());
        }
    }
    for (t, id) in &want.keep {
        match by_text.get(t) {
            Some(got) if got == id => {}
            got => l.fail("changed", format!("the paragraph {t:?} was given the unique id {id} and carries {got:?}")),
        }
    }
    // the comment extension part names comment paragraphs
    let mut comment_ids: Vec<String> = Vec::new();
    if let Some(c) = pkg.comments() {
        for p in c.all("w:p") {
            comment_ids.push(p.attr("w14:paraId").unwrap_or("").to_string());
        }
    }
    if let Some(x) = pkg.related("commentsExtended") {
        for e in x.all("w15:commentEx") {
            for a in ["w15:paraId", "w15:paraIdParent"] {
                if let Some(v) = e.attr(a) {
                    if comment_ids.iter().filter(|c| *c == v).count() != 1 {
                        l.fail("dangling-extension", format!("{a}={v} does not name one comment paragraph of {comment_ids:?}"));
                    }
                }
            }
        }
    }
    l.validated += 1;
}

/// How the id of a paragraph comes about.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Id {
    Auto,
    A,
    /// the same number as A in the other letter case
    Alower,
    B,
    Empty,
    /// the number automatic ids start with
    One,
    Named,
}

const IDS: &[Id] = &[Id::Auto, Id::A, Id::Alower, Id::B, Id::Empty, Id::One, Id::Named];

impl Id {
    fn text(self) -> Option<&'static str> {
        match self {
            Id::Auto => None,
            Id::A => Some("0000ABCD"),
            Id::Alower => Some("0000abcd"),
            Id::B => Some("00001234"),
            Id::Empty => Some(""),
            Id::One => Some("00000001"),
            Id::Named => Some("first"),
        }
    }
}

fn pa(id: Id, text: &str) -> Pa {
    Pa { id: id.text().map(|s| s.to_string()), num: None, style: None, kids: vec![rtext(text)] }
}

/// Ids given to exactly one paragraph must be kept.
fn wanted(ids: &[(Id, String)]) -> Want {
    let mut w = Want::default();
    for (id, text) in ids {
        if let Some(t) = id.text() {
            if !t.is_empty() {
                w.given.push(t.to_string());
            }
            let clash = ids.iter().filter(|o| o.0.text().is_some_and(|s| s.eq_ignore_ascii_case(t))).count() > 1;
            let auto = *id == Id::One; // may meet an automatic id
            if !t.is_empty() && !clash && !auto {
                w.keep.push((text.clone(), t.to_string()));
            }
        }
    }
    w
}

const CORE: &[&str] = &["body", "cell", "sdt", "section", "header", "section-footer", "comment", "footnote", "toc-before"];

/// Placements that take the same header or footer slot of the document replace one another.
fn same_slot(hosts: &[&str]) -> bool {
    let slot = |h: &str| h.strip_suffix("-table").unwrap_or(h).to_string();
    let own = ["header", "first-header", "even-header", "footer", "first-footer", "even-footer"];
    (0..hosts.len()).any(|i| own.contains(&slot(hosts[i]).as_str()) && hosts[..i].iter().any(|h| slot(h) == slot(hosts[i])))
}

fn with_host(hosts: &[&str], ids: &[Id]) -> (Doc, Want) {
    let mut d = Doc::default();
    let mut given = Vec::new();
    for (i, (h, id)) in hosts.iter().zip(ids).enumerate() {
        let t = format!("mark{i}");
        d = d.merge(place(h, pa(*id, &t), i));
        given.push((*id, t));
    }
    (d, wanted(&given))
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let quick = t == Tier::Quick;
    let mut v = Vec::new();
    v.push(Phase::new("pairs", "every ordered pair of paragraph positions x every pair of {automatic, fixed, the same in other case, other fixed, empty, first automatic value, free text} ids, both routes", move |ch: &mut Chooser, l: &mut Leaf| {
        let a = *ch.pick(PARA_HOSTS);
        let b = *ch.pick(PARA_HOSTS);
        let x = *ch.pick(IDS);
        let y = *ch.pick(IDS);
        let stream = if quick { a.len() % 2 == 0 } else { ch.flag() };
        l.label = format!("{a}:{x:?} {b}:{y:?} {stream}");
        if same_slot(&[a, b]) {
            l.skip = true;
            return;
        }
        let (d, w) = with_host(&[a, b], &[x, y]);
        judge(l, d.to_docx(), &w, stream);
    }));
    v.push(Phase::new("several", "three paragraphs over the core positions x all id assignments", move |ch: &mut Chooser, l: &mut Leaf| {
        let core = if quick { &CORE[2..8] } else { CORE };
        let ids = if quick { &[Id::Auto, Id::A, Id::Empty, Id::One][..] } else { IDS };
        let hs: Vec<&str> = (0..3).map(|_| *ch.pick(core)).collect();
        let xs: Vec<Id> = (0..3).map(|_| *ch.pick(ids)).collect();
        l.label = format!("{hs:?} {xs:?}");
        if same_slot(&hs) {
            l.skip = true;
            return;
        }
        let (d, w) = with_host(&hs, &xs);
        judge(l, d.to_docx(), &w, true);
    }));
    v.push(Phase::new("cloned", "a paragraph, table, header, comment or footnote placed 2..4 times as clones, over the positions", |ch: &mut Chooser, l: &mut Leaf| {
        let h = *ch.pick(PARA_HOSTS);
        let id = *ch.pick(IDS);
        let n = ch.choose(3) + 2;
        let stream = ch.flag();
        l.label = format!("{h} {id:?} x{n} {stream}");
        let base = place(h, pa(id, "m"), 1);
        let mut d = base.to_docx();
        // the same values again: clones of the children of the document
        let kids = d.document.children.clone();
        for _ in 1..n {
            d.document.children.extend(kids.clone());
        }
        if let (Some(hd), true) = (d.document.section_property.header.clone(), h.starts_with("header")) {
            d = d.first_header(hd.1.clone()).even_header(hd.1);
        }
        let given = Want { given: id.text().iter().map(|s| s.to_string()).filter(|s| !s.is_empty()).collect(), ..Want::default() };
        judge(l, d, &given, stream);
    }));
    v.push(Phase::new("histories", "all histories of up to five steps over {add a paragraph, add one made on another thread, pack a clone, export JSON, export with comment update, export comments, build another document} before packing", move |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(if quick { 5 } else { 6 }) + 1;
        let host = *ch.pick(&["body", "footnote", "comment", "section"]);
        let mut d = Docx::new();
        let mut log = String::new();
        for i in 0..n {
            let op = ch.choose(7);
            log.push_str(&format!("{op}"));
            let one = |d: Docx| {
                let x = place(host, pa(Id::Auto, &format!("t{i}")), i);
                x.body.iter().fold(d, add_block)
            };
            d = match op {
                0 => one(d),
                1 => {
                    let x = place(host, pa(Id::Auto, &format!("t{i}")), i);
                    std::thread::scope(|s| s.spawn(move || x.body.iter().fold(d, add_block)).join().expect("thread"))
                }
                2 => {
                    let _ = pack_stream(d.clone());
                    d
                }
                3 => {
                    d.json();
                    d
                }
                4 => {
                    d.json_with_update_comments();
                    d
                }
                5 => {
                    d.comments_json();
                    d
                }
                _ => {
                    let _ = Docx::new().add_paragraph(Paragraph::new()).build();
                    d
                }
            };
            l.transitions += 1;
            l.states.push(hash64(format!("{host}{log}").as_bytes()));
        }
        l.label = format!("{host} {log}");
        judge(l, d, &Want::default(), true);
    }));
    v.push(Phase::new("generated", "tables of contents with 0..3 headings, automatic or given items, sections, empty cells, empty headers, empty notes: paragraphs the library adds itself", |ch: &mut Chooser, l: &mut Leaf| {
        let heads = ch.choose(4);
        let auto = ch.flag();
        let given = ch.choose(3);
        let sections = ch.choose(3);
        let empties = ch.choose(16);
        let stream = ch.flag();
        l.label = format!("{heads} {auto} {given} {sections} {empties} {stream}");
        let mut toc = TableOfContents::new().heading_styles_range(1, 3);
        if auto {
            toc = toc.auto();
        }
        for i in 0..given {
            toc = toc.add_item(TableOfContentsItem::new().text(format!("i{i}")).toc_key(format!("k{i}")).level(1).page_ref("1"));
        }
        let mut d = Docx::new().add_style(Style::new("Heading1", StyleType::Paragraph).name("Heading 1")).add_table_of_contents(toc);
        for i in 0..heads {
            d = d.add_paragraph(Paragraph::new().style("Heading1").add_run(Run::new().add_text(format!("h{i}"))));
        }
        for i in 0..sections {
            let mut s = Section::new();
            if i == 0 {
                s = s.add_paragraph(Paragraph::new());
            }
            d = d.add_section(s);
        }
        if empties & 1 == 1 {
            d = d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new(), TableCell::new()])]));
        }
        if empties & 2 == 2 {
            d = d.header(Header::new()).footer(Footer::new());
        }
        if empties & 4 == 4 {
            d = d.add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(Footnote::new())));
        }
        if empties & 8 == 8 {
            d = d.add_paragraph(Paragraph::new().add_comment_start(Comment::new(1)).add_comment_end(1));
        }
        judge(l, d, &Want::default(), stream);
    }));
    v.push(Phase::new("read", "every paragraph position with automatic or fixed ids, packed, read, extended by a new paragraph at every position and packed again", move |ch: &mut Chooser, l: &mut Leaf| {
        let a = *ch.pick(PARA_HOSTS);
        let b = *ch.pick(CORE);
        let x = *ch.pick(&[Id::Auto, Id::A, Id::One]);
        let y = *ch.pick(&[Id::Auto, Id::A, Id::Alower]);
        l.label = format!("{a}:{x:?} read {b}:{y:?}");
        let bytes = match pack_build(place(a, pa(x, "m0"), 1).to_docx()) {
            Ok(b) => b,
            Err(e) => return l.fail("write-failed", e),
        };
        let mut d = match guarded(|| read_docx(&bytes)) {
            Ok(Ok(d)) => d,
            e => return l.fail("read-failed", format!("{:?}", e.map(|_| ()))),
        };
        let more = place(b, pa(y, "m1"), 2);
        for x in &more.body {
            d = add_block(d, x);
        }
        for (s, bs) in &more.hf {
            d = set_header(d, *s, bs);
        }
        judge(l, d, &Want::default(), true);
    }));
    v
}
