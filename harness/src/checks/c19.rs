//! C19: numbering definitions and their use survive packing and reading.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::{pack_build, pack_stream, rtext, Pa};
use crate::opc::Package;
use crate::props::*;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "the library may add a definition of its own under an id the caller did not use; its content is not compared, but it must be there whenever something refers to it".into(),
            "two definitions given under one id by the caller are outside the property".into(),
            "a level without a stated suffix is followed by a tab".into(),
            "definitions are observed in documents that use numbering somewhere; a document that uses none need not relate to the numbering part".into(),
        ],
    }
}

const MK: &str = "MK";

fn marker() -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text(MK))
}

// ----------------------------------------------------------------------------------- levels

#[derive(Clone)]
struct Lv {
    l: Level,
    t: Box_,
    ilvl: usize,
}

fn level(ilvl: usize, start: usize, fmt: &str, text: &str, jc: &str) -> Lv {
    let mut t = Box_::default();
    t.set("start", &[("val", &start.to_string())]);
    t.set("numFmt", &[("val", fmt)]);
    t.set("lvlText", &[("val", text)]);
    t.set("lvlJc", &[("val", jc)]);
    Lv { l: Level::new(ilvl, Start::new(start), NumberFormat::new(fmt), LevelText::new(text), LevelJc::new(jc)), t, ilvl }
}
fn plain(ilvl: usize) -> Lv {
    level(ilvl, 3, "upperRoman", "%1)", "center")
}
impl Lv {
    fn tree(&self) -> T {
        let mut x = T { name: "lvl".into(), at: BTreeMap::from([("ilvl".to_string(), self.ilvl.to_string())]), kids: self.t.list() };
        x = x.norm();
        clean(x)
    }
}

/// Containers that hold nothing say nothing.
fn clean(mut t: T) -> T {
    t.kids = t.kids.into_iter().map(clean).filter(|k| !(["rPr", "pPr"].contains(&k.name.as_str()) && k.kids.is_empty())).collect();
    if t.name == "lvl" {
        t.kids.retain(|k| !(k.name == "suff" && k.at.get("val").is_some_and(|v| v == "tab")));
        t.at.retain(|k, _| k == "ilvl");
        t.kids.sort();
    }
    if t.name == "abstractNum" {
        t.at.retain(|k, _| k == "abstractNumId");
    }
    t
}

type Mod = Arc<dyn Fn(Lv) -> Lv + Send + Sync>;
struct Op {
    name: String,
    rep: bool,
    f: Mod,
}

const FORMATS: &[&str] = &[
    "decimal", "bullet", "upperRoman", "lowerRoman", "upperLetter", "lowerLetter", "ordinal", "cardinalText", "none", "decimalZero",
    "decimalEnclosedCircle", "aiueo", "iroha", "ideographDigital", "japaneseCounting", "koreanDigital", "hex", "custom",
];

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, rep: bool, f: Mod| v.push(Op { name, rep, f });
    for (i, n) in [7usize, 0, 1, 65536, 4294967295].into_iter().enumerate() {
        add(
            format!("start {n}"),
            i < 2,
            Arc::new(move |mut x| {
                x.l.start = Start::new(n);
                x.t.set("start", &[("val", &n.to_string())]);
                x
            }),
        );
    }
    for (i, &f) in FORMATS.iter().enumerate() {
        add(
            format!("format {f}"),
            i < 2,
            Arc::new(move |mut x| {
                x.l.format = NumberFormat::new(f);
                x.t.set("numFmt", &[("val", f)]);
                x
            }),
        );
    }
    for (i, s) in ["%1.%2", "", "•", " ", "%9", "a&b<\"'>", "第%1章"].into_iter().enumerate() {
        add(
            format!("text {s:?}"),
            i < 2,
            Arc::new(move |mut x| {
                x.l.text = LevelText::new(s);
                x.t.set("lvlText", &[("val", s)]);
                x
            }),
        );
    }
    for (i, s) in ["right", "left", "center", "start", "end"].into_iter().enumerate() {
        add(
            format!("justification {s}"),
            i < 1,
            Arc::new(move |mut x| {
                x.l.jc = LevelJc::new(s);
                x.t.set("lvlJc", &[("val", s)]);
                x
            }),
        );
    }
    for (s, n) in [(LevelSuffixType::Nothing, "nothing"), (LevelSuffixType::Space, "space"), (LevelSuffixType::Tab, "tab")] {
        add(
            format!("suffix {n}"),
            true,
            Arc::new(move |mut x| {
                x.l = x.l.suffix(s.clone());
                x.t.set("suff", &[("val", n)]);
                x
            }),
        );
    }
    for (i, s) in ["Heading1", "a b", ""].into_iter().enumerate() {
        add(
            format!("style {s:?}"),
            i < 1,
            Arc::new(move |mut x| {
                x.l = x.l.paragraph_style(s);
                x.t.set("pStyle", &[("val", s)]);
                x
            }),
        );
    }
    for (i, n) in [0u32, 1, 2, 8, 9, u32::MAX].into_iter().enumerate() {
        add(
            format!("restart {n}"),
            i < 2,
            Arc::new(move |mut x| {
                x.l = x.l.level_restart(n);
                x.t.set("lvlRestart", &[("val", &n.to_string())]);
                x
            }),
        );
    }
    add(
        "legal".into(),
        true,
        Arc::new(|mut x| {
            x.l = x.l.is_lgl();
            x.t.set("isLgl", &[]);
            x
        }),
    );
    add(
        "indent".into(),
        true,
        Arc::new(|mut x| {
            x.l = x.l.indent(Some(420), Some(SpecialIndentType::Hanging(210)), Some(5), None);
            x.t.put(T::with("pPr", vec![T::new("ind", &[("left", "420"), ("right", "5"), ("hanging", "210")])]));
            x
        }),
    );
    add(
        "bold".into(),
        true,
        Arc::new(|mut x| {
            x.l = x.l.bold();
            x.t.put(T::with("rPr", vec![T::new("b", &[]), T::new("bCs", &[])]));
            x
        }),
    );
    v
}

// ------------------------------------------------------------------------------- definitions

#[derive(Clone, Default)]
struct Defs {
    abs: Vec<AbstractNumbering>,
    nums: Vec<Numbering>,
    /// expected definitions
    ta: Vec<T>,
    tn: Vec<T>,
}

fn abs_tree(id: usize, extra: Vec<T>, levels: &[Lv]) -> T {
    let mut t = T::new("abstractNum", &[("abstractNumId", &id.to_string())]);
    t.kids = extra;
    t.kids.sort();
    t.kids.extend(levels.iter().map(|l| l.tree()));
    t
}
fn num_tree(id: usize, abs: usize, over: Vec<T>) -> T {
    let mut t = T::new("num", &[("numId", &id.to_string())]);
    t.kids = vec![T::new("abstractNumId", &[("val", &abs.to_string())])];
    t.kids.extend(over);
    t
}
fn over_tree(ilvl: usize, start: Option<usize>, l: Option<&Lv>) -> T {
    let mut t = T::new("lvlOverride", &[("ilvl", &ilvl.to_string())]);
    if let Some(l) = l {
        t.kids.push(l.tree());
    }
    if let Some(s) = start {
        t.kids.push(T::new("startOverride", &[("val", &s.to_string())]));
    }
    t.kids.sort();
    t
}
/// Elements of a definition in a fixed order; levels and overrides keep theirs.
fn arrange(e: &El) -> T {
    let mut t = clean(T::of(e));
    let (mut rest, ordered): (Vec<T>, Vec<T>) = t.kids.into_iter().partition(|k| k.name != "lvl" && k.name != "lvlOverride");
    rest.sort();
    t.kids = rest;
    t.kids.extend(ordered.into_iter().map(|mut k| {
        if k.name == "lvlOverride" {
            k.kids.sort();
        }
        k
    }));
    t
}

impl Defs {
    fn abs(&mut self, id: usize, shape: usize) {
        let a = AbstractNumbering::new(id);
        let p = [level(0, id + 10, "decimal", "%1.", "left"), level(1, 1, "lowerLetter", "(%2)", "right"), level(8, 4, "bullet", "-", "left")];
        let (a, t) = match shape {
            0 => (a.add_level(p[0].l.clone()), abs_tree(id, vec![], &p[..1])),
            1 => {
                let mut a = a.add_level(p[0].l.clone()).add_level(p[1].l.clone()).add_level(p[2].l.clone());
                a.multi_level_type = Some("multilevel".into());
                (a, abs_tree(id, vec![T::new("multiLevelType", &[("val", "multilevel")])], &p))
            }
            2 => (a.style_link("ListA").add_level(p[1].l.clone()), abs_tree(id, vec![T::new("styleLink", &[("val", "ListA")])], &p[1..2])),
            3 => (a.num_style_link("ListB"), abs_tree(id, vec![T::new("numStyleLink", &[("val", "ListB")])], &[])),
            _ => {
                let mut all: Vec<Lv> = (0..9).map(plain).collect();
                all[8] = level(8, 9, "decimal", "%9", "left");
                let mut a = a.style_link("x").num_style_link("y");
                a.multi_level_type = Some("hybridMultilevel".into());
                for l in &all {
                    a = a.add_level(l.l.clone());
                }
                (
                    a,
                    abs_tree(
                        id,
                        vec![
                            T::new("styleLink", &[("val", "x")]),
                            T::new("numStyleLink", &[("val", "y")]),
                            T::new("multiLevelType", &[("val", "hybridMultilevel")]),
                        ],
                        &all,
                    ),
                )
            }
        };
        self.abs.push(a);
        self.ta.push(t);
    }
    fn num(&mut self, id: usize, abs: usize, over: usize) {
        let n = Numbering::new(id, abs);
        let l0 = plain(0);
        let l1 = level(1, 8, "ordinal", "%2", "end");
        let (n, o) = match over {
            0 => (n, vec![]),
            1 => (n.add_override(LevelOverride::new(0).start(5)), vec![over_tree(0, Some(5), None)]),
            2 => (n.add_override(LevelOverride::new(1).level(l1.l.clone())), vec![over_tree(1, None, Some(&l1))]),
            3 => (n.add_override(LevelOverride::new(0).level(l0.l.clone()).start(0)), vec![over_tree(0, Some(0), Some(&l0))]),
            4 => (
                n.overrides(vec![LevelOverride::new(0).start(2), LevelOverride::new(1).start(7).level(l1.l.clone())]),
                vec![over_tree(0, Some(2), None), over_tree(1, Some(7), Some(&l1))],
            ),
            _ => (n.add_override(LevelOverride::new(8)), vec![over_tree(8, None, None)]),
        };
        self.nums.push(n);
        self.tn.push(num_tree(id, abs, o));
    }
    fn apply(&self, mut d: Docx) -> Docx {
        for a in &self.abs {
            d = d.add_abstract_numbering(a.clone());
        }
        for n in &self.nums {
            d = d.add_numbering(n.clone());
        }
        d
    }
}

/// All definitions of a package by kind and id.
fn definitions(pkg: &Package) -> Result<(BTreeMap<String, T>, BTreeMap<String, T>), String> {
    let n = pkg.numbering().ok_or("the document does not relate to a numbering part")?;
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    let mut seen_num = false;
    for e in n.els() {
        if e.is("w:abstractNum") {
            if seen_num {
                return Err("an abstract numbering follows an instance".into());
            }
            if a.insert(e.attr("w:abstractNumId").unwrap_or("?").to_string(), arrange(e)).is_some() {
                return Err("two abstract numberings under one id".into());
            }
        } else if e.is("w:num") {
            seen_num = true;
            if b.insert(e.attr("w:numId").unwrap_or("?").to_string(), arrange(e)).is_some() {
                return Err("two instances under one id".into());
            }
        }
    }
    for (id, t) in &b {
        let r = t.kids.iter().find(|k| k.name == "abstractNumId").and_then(|k| k.at.get("val")).cloned().unwrap_or_default();
        if !a.contains_key(&r) {
            return Err(format!("instance {id} refers to a missing abstract numbering"));
        }
    }
    Ok((a, b))
}

/// (instance, level) references of the marked paragraphs, in order of the parts.
fn references(pkg: &Package) -> Vec<(String, String)> {
    let mut out = vec![];
    for part in &pkg.names {
        if let Some(e) = pkg.xml(part) {
            for p in e.all("w:p") {
                if p.own_paragraph_text().starts_with(MK) {
                    let n = p.path(&["w:pPr", "w:numPr"]);
                    let at = |q: &str| n.and_then(|n| n.child(q)).and_then(|e| e.attr("w:val")).unwrap_or("-").to_string();
                    out.push((at("w:numId"), at("w:ilvl")));
                }
            }
        }
    }
    out
}

/// What is left of a definition after reading (known finding).
fn forgotten(mut t: T) -> T {
    t.kids.retain(|k| k.name != "multiLevelType");
    t
}

fn check(l: &mut Leaf, stage: &str, read: bool, pkg: &Package, d: &Defs, refs: &[(usize, usize)]) -> Option<(BTreeMap<String, T>, BTreeMap<String, T>)> {
    let (a, n) = match definitions(pkg) {
        Ok(x) => x,
        Err(e) => {
            l.fail(format!("{stage}: {e}"), &e);
            return None;
        }
    };
    for (kind, want, got) in [("abstract numbering", &d.ta, &a), ("instance", &d.tn, &n)] {
        for t in want.iter() {
            let id = t.at.values().next().unwrap();
            match got.get(id) {
                None => {
                    l.fail(format!("{stage}: {kind} missing"), format!("id {id}"));
                    return None;
                }
                Some(g) if read && g != t && *g == forgotten(t.clone()) => l.fail("the kind of a multilevel list is forgotten on reading", t.show()),
                Some(g) if g != t => {
                    let key = match crate::props::diff(&t.kids, &g.kids) {
                        Some((k, _)) => k,
                        None => "order of levels".into(),
                    };
                    l.fail(format!("{stage}: {kind} {key}"), format!("expected {} | found {}", t.show(), g.show()));
                    return None;
                }
                _ => {}
            }
        }
    }
    let got = references(pkg);
    let want: Vec<(String, String)> = refs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let (mut g, mut w) = (got.clone(), want.clone());
    g.sort();
    w.sort();
    if g != w {
        l.fail(format!("{stage}: other references"), format!("expected {want:?}, found {got:?}"));
        return None;
    }
    for (id, lvl) in &got {
        let Some(t) = n.get(id) else {
            l.fail(format!("{stage}: reference to a missing instance"), id.to_string());
            return None;
        };
        let abs = &t.kids.iter().find(|k| k.name == "abstractNumId").unwrap().at["val"];
        if d.ta.is_empty() && !a[abs].kids.iter().any(|k| k.name == "lvl" && k.at.get("ilvl") == Some(lvl)) {
            l.fail(format!("{stage}: the built-in numbering lacks a level"), lvl.to_string());
            return None;
        }
    }
    l.evals += 1;
    Some((a, n))
}

/// Packs (both ways of writing), checks, then goes through `cycles` rounds of reading and packing.
fn verify(l: &mut Leaf, make: &dyn Fn() -> Docx, d: &Defs, refs: &[(usize, usize)], cycles: usize) {
    l.states.push(hash64(format!("{:?}{:?}{:?}", d.ta, d.tn, refs).as_bytes()));
    let mut bytes = vec![];
    for (route, f) in [("streamed", pack_stream as fn(Docx) -> Result<Vec<u8>, String>), ("written", pack_build)] {
        l.transitions += 1;
        bytes = match guarded(|| f(make())) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return l.fail("cannot be written", &e),
            Err(e) => return l.fail(format!("panic while writing: {}", panic_class(&e)), &e),
        };
        let pkg = match Package::open(&bytes) {
            Ok(p) => p,
            Err(e) => return l.fail("package unreadable", &e),
        };
        if check(l, route, false, &pkg, d, refs).is_none() {
            return;
        }
    }
    let first = definitions(&Package::open(&bytes).unwrap()).unwrap();
    for _ in 0..cycles {
        l.transitions += 2;
        let again = guarded(|| {
            let d = read_docx(&bytes).map_err(|e| format!("not readable: {e}"))?;
            pack_build(d)
        });
        bytes = match again {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return l.fail("cannot be read and written again", &e),
            Err(e) => return l.fail(format!("panic on the way back: {}", panic_class(&e)), &e),
        };
        let pkg = match Package::open(&bytes) {
            Ok(p) => p,
            Err(e) => return l.fail("second package unreadable", &e),
        };
        match check(l, "read back", true, &pkg, d, refs) {
            None => return,
            Some(now) => {
                let ids = |x: &(BTreeMap<String, T>, BTreeMap<String, T>)| -> (Vec<String>, Vec<String>) {
                    (x.0.keys().cloned().collect(), x.1.keys().cloned().collect())
                };
                if ids(&now) != ids(&first) {
                    return l.fail("read back: definitions added or dropped", format!("{:?} became {:?}", ids(&first), ids(&now)));
                }
                let strip = |x: &BTreeMap<String, T>| -> Vec<T> { x.values().cloned().map(forgotten).collect() };
                if strip(&now.0) != strip(&first.0) || now.1 != first.1 {
                    return l.fail("read back: a definition changed", format!("{first:?} became {now:?}").chars().take(600).collect::<String>());
                }
            }
        }
    }
    l.validated += 1;
}

fn using(refs: &[(usize, usize)]) -> Docx {
    let mut d = Docx::new();
    for (n, lv) in refs {
        d = d.add_paragraph(marker().numbering(NumberingId::new(*n), IndentLevel::new(*lv)));
    }
    d
}

/// Ways of using numbering that the shared vocabulary of places does not cover.
const EXTRA: &[&str] = &[
    "style", "style-based", "row added to a table", "header, row added to a table", "footer, row added to a table", "comment, row added to a table",
    "header, content control", "footer, table in content control", "header, nested table", "comment, nested table", 
    "cell, content control in nested table", "section header, row added",
];

fn extra(which: &str, n: usize, lv: usize) -> Option<Docx> {
    let p = || marker().numbering(NumberingId::new(n), IndentLevel::new(lv));
    let e = || Paragraph::new().add_run(Run::new().add_text("e"));
    let cell = |p: Paragraph| TableRow::new(vec![TableCell::new().add_paragraph(p)]);
    let added = || Table::new(vec![cell(e())]).add_row(cell(p()));
    let nested = || Table::new(vec![TableRow::new(vec![TableCell::new().add_table(Table::new(vec![cell(p())])).add_paragraph(e())])]);
    let d = Docx::new();
    Some(match which {
        "style" => d
            .add_style({
                let mut s = Style::new("Num", StyleType::Paragraph).name("Num");
                s.paragraph_property = ParagraphProperty::new().numbering(NumberingId::new(n), IndentLevel::new(lv));
                s
            })
            .add_paragraph(e().style("Num")),
        "style-based" => d
            .add_style({
                let mut s = Style::new("Num", StyleType::Paragraph).name("Num");
                s.paragraph_property = ParagraphProperty::new().numbering(NumberingId::new(n), IndentLevel::new(lv));
                s
            })
            .add_style(Style::new("Sub", StyleType::Paragraph).name("Sub").based_on("Num"))
            .add_paragraph(e().style("Sub")),
        "row added to a table" => d.add_table(added()),
        "header, row added to a table" => d.header(Header::new().add_table(added())),
        "footer, row added to a table" => d.footer(Footer::new().add_table(added())),
        "comment, row added to a table" => d.add_paragraph(
            Paragraph::new()
                .add_comment_start(Comment::new(1).add_table(added()).add_paragraph(e()))
                .add_run(Run::new().add_text("x"))
                .add_comment_end(1),
        ),
        "header, content control" => {
            let mut h = Header::new();
            h.children.push(HeaderChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_paragraph(p()))));
            d.header(h)
        }
        "footer, table in content control" => {
            let mut f = Footer::new();
            let t = Table::new(vec![cell(p())]);
            f.children.push(FooterChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_table(t))));
            d.footer(f)
        }
        "header, nested table" => d.header(Header::new().add_table(nested())),
        "comment, nested table" => d.add_paragraph(
            Paragraph::new()
                .add_comment_start(Comment::new(1).add_table(nested()).add_paragraph(e()))
                .add_run(Run::new().add_text("x"))
                .add_comment_end(1),
        ),
        "cell, content control in nested table" => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new()
            .add_table(Table::new(vec![TableRow::new(vec![
                TableCell::new().add_structured_data_tag(StructuredDataTag::new().add_paragraph(p())).add_paragraph(e()),
            ])]))
            .add_paragraph(e())])])),
        "section header, row added" => {
            d.add_section(Section::new().header(Header::new().add_table(added())).add_paragraph(e()))
        }
        _ => return None,
    })
}

/// Places whose content is not read back (known findings of other properties) or reads back elsewhere.
fn read_back(host: &str) -> bool {
    host != "footnote" && !host.starts_with("toc") && !host.starts_with("style")
}

/// Every level setting with every value, every shape of definition and override.
pub fn groups() -> Vec<super::Group> {
    let all = Arc::new(ops());
    let mut out = vec![];
    let case = |name: String, d: Defs, at: (usize, usize)| super::Case {
        name,
        want: format!("{:?} {:?}", d.ta, d.tn),
        make: Box::new(move || d.apply(using(&[at]))),
    };
    for over in [false, true] {
        let mut cases = vec![];
        for i in 0..=all.len() {
            let lv = if i == 0 { plain(2) } else { (all[i - 1].f)(plain(2)) };
            let mut d = Defs::default();
            if over {
                d.abs(3, 0);
                d.nums.push(Numbering::new(5, 3).add_override(LevelOverride::new(2).level(lv.l.clone())));
                d.tn.push(num_tree(5, 3, vec![over_tree(2, None, Some(&lv))]));
            } else {
                d.abs.push(AbstractNumbering::new(3).add_level(lv.l.clone()));
                d.ta.push(abs_tree(3, vec![], &[lv.clone()]));
                d.num(5, 3, 0);
            }
            cases.push(case(if i == 0 { String::new() } else { all[i - 1].name.to_string() }, d, (5, 2)));
        }
        out.push(super::Group { name: format!("level override={over}"), cases });
    }
    let mut cases = vec![];
    for id in [3, 7] {
        for shape in 0..5 {
            for num in [5, 9] {
                for o in 0..6 {
                    let mut d = Defs::default();
                    d.abs(id, shape);
                    d.num(num, id, o);
                    cases.push(case(format!("A{id}/{shape} N{num}/{o}"), d, (5, 0)));
                }
            }
        }
    }
    out.push(super::Group { name: "definitions".into(), cases });
    out
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let all = Arc::new(ops());
    let mut out = vec![];
    let deep = t != Tier::Quick;
    {
        let all = all.clone();
        out.push(Phase::new(
            "level values",
            "every level setting with every value on each of the nine levels of an abstract numbering and of an override",
            move |ch, l| {
                let ilvl = ch.choose(9);
                let over = ch.flag();
                let i = ch.choose(all.len());
                let lv = (all[i].f)(plain(ilvl));
                let mut d = Defs::default();
                if over {
                    d.abs(3, 0);
                    d.nums.push(Numbering::new(5, 3).add_override(LevelOverride::new(ilvl).level(lv.l.clone())));
                    d.tn.push(num_tree(5, 3, vec![over_tree(ilvl, None, Some(&lv))]));
                } else {
                    d.abs.push(AbstractNumbering::new(3).add_level(lv.l.clone()));
                    d.ta.push(abs_tree(3, vec![], &[lv.clone()]));
                    d.num(5, 3, 0);
                }
                l.label = format!("level {ilvl} override={over} {}", all[i].name);
                verify(l, &|| d.apply(using(&[(5, ilvl)])), &d, &[(5, ilvl)], 1);
            },
        ));
    }
    {
        let all = all.clone();
        out.push(Phase::new(
            "level pairs",
            "all ordered pairs of level settings, in an abstract numbering or an override",
            move |ch, l| {
                let over = ch.flag();
                let reps: Vec<usize> = (0..all.len()).filter(|i| deep || all[*i].rep).collect();
                let (i, j) = (*ch.pick(&reps), *ch.pick(&reps));
                let lv = (all[j].f)((all[i].f)(plain(2)));
                let mut d = Defs::default();
                if over {
                    d.abs(3, 0);
                    d.nums.push(Numbering::new(5, 3).add_override(LevelOverride::new(2).level(lv.l.clone())));
                    d.tn.push(num_tree(5, 3, vec![over_tree(2, None, Some(&lv))]));
                } else {
                    d.abs.push(AbstractNumbering::new(3).add_level(plain(0).l).add_level(lv.l.clone()));
                    d.ta.push(abs_tree(3, vec![], &[plain(0), lv.clone()]));
                    d.num(5, 3, 0);
                }
                l.label = format!("override={over} {}, {}", all[i].name, all[j].name);
                verify(l, &|| d.apply(using(&[(5, 2)])), &d, &[(5, 2)], 1);
            },
        ));
    }
    out.push(Phase::new(
        "definitions",
        "all ordered sets of one or two abstract numberings and one to three instances over small id sets including the id of the built-in numbering, every link between them, five shapes of abstract numbering, six shapes of overrides (two shapes each with three instances in the quick tier)",
        move |ch, l| {
            let mut ids = vec![1usize, 2, 7];
            let mut d = Defs::default();
            let mut names = vec![];
            let na = 1 + ch.choose(2);
            let mut abs = vec![];
            for k in 0..na {
                let i = ch.choose(ids.len());
                let id = ids.remove(i);
                let shape = if k == 0 { ch.choose(5) } else { 1 };
                d.abs(id, shape);
                abs.push(id);
                names.push(format!("A{id}/{shape}"));
            }
            let nn = 1 + ch.choose(3);
            let mut nids = vec![1usize, 2, 9];
            let mut refs = vec![];
            for _ in 0..nn {
                let i = ch.choose(nids.len());
                let id = nids.remove(i);
                let a = *ch.pick(&abs);
                let o = if nn == 3 && !deep { [0, 3][ch.choose(2)] } else { ch.choose(6) };
                d.num(id, a, o);
                refs.push((id, refs.len()));
                names.push(format!("N{id}->{a}/{o}"));
            }
            l.label = names.join(" ");
            verify(l, &|| d.apply(using(&refs)), &d, &refs, 2);
        },
    ));
    out.push(Phase::new(
        "places",
        "numbering used at every place a paragraph can be, with the built-in numbering and with the caller's, on levels 0, 1 and 8",
        move |ch, l| {
            let h = ch.choose(PARA_HOSTS.len() + EXTRA.len());
            let n = *ch.pick(&[1usize, 5]);
            let lv = *ch.pick(&[0usize, 1, 8]);
            let mut d = Defs::default();
            if n == 5 {
                d.abs(3, 4);
                d.num(5, 3, 1);
            }
            if h < PARA_HOSTS.len() {
                let ph = PARA_HOSTS[h];
                l.label = format!("{ph} {n}/{lv}");
                let make = || d.apply(place(ph, Pa { id: None, num: Some((n, lv)), style: None, kids: vec![rtext(MK)] }, 1).to_docx());
                verify(l, &make, &d, &[(n, lv)], if read_back(ph) { 2 } else { 0 });
            } else {
                let w = EXTRA[h - PARA_HOSTS.len()];
                l.label = format!("{w} {n}/{lv}");
                if extra(w, n, lv).is_none() {
                    l.skip = true;
                    return;
                }
                let refs: Vec<(usize, usize)> = if w.starts_with("style") { vec![] } else { vec![(n, lv)] };
                verify(l, &|| d.apply(extra(w, n, lv).unwrap()), &d, &refs, 1);
                // a style's reference must resolve too
                if w.starts_with("style") {
                    let b = pack_build(d.apply(extra(w, n, lv).unwrap())).unwrap_or_default();
                    let Ok(pkg) = Package::open(&b) else { return };
                    let got = pkg
                        .styles()
                        .and_then(|s| s.children("w:style").into_iter().find(|s| s.attr("w:styleId") == Some("Num")))
                        .and_then(|s| s.path(&["w:pPr", "w:numPr", "w:numId"]))
                        .and_then(|e| e.attr("w:val"))
                        .map(|s| s.to_string());
                    if got != Some(n.to_string()) {
                        l.fail("written: the style lost its numbering", format!("{got:?}"));
                    }
                }
            }
        },
    ));
    out.push(Phase::new(
        "histories",
        "all sequences of up to five steps {define and use another numbering, use the built-in numbering, use the newest numbering again, pack and read} from the empty document; the definitions and references present are compared after every packing",
        move |ch, l| {
            let n = ch.choose(if deep { 7 } else { 6 });
            let mut d = Defs::default();
            let mut refs: Vec<(usize, usize)> = vec![];
            let mut doc = Docx::new();
            let mut names = vec![];
            for _ in 0..n {
                match ch.choose(4) {
                    0 => {
                        let k = d.abs.len();
                        let mut one = Defs::default();
                        one.abs(2 + k, [1, 0, 2, 4, 3][k % 5]);
                        one.num(3 + k, 2 + k, [1, 4, 0, 3, 2][k % 5]);
                        doc = one.apply(doc).add_paragraph(marker().numbering(NumberingId::new(3 + k), IndentLevel::new(0)));
                        refs.push((3 + k, 0));
                        d.abs.extend(one.abs);
                        d.nums.extend(one.nums);
                        d.ta.extend(one.ta);
                        d.tn.extend(one.tn);
                        names.push("define");
                    }
                    1 => {
                        doc = doc.add_paragraph(marker().numbering(NumberingId::new(1), IndentLevel::new(1)));
                        refs.push((1, 1));
                        names.push("built-in");
                    }
                    2 => {
                        let id = d.nums.last().map(|n| n.id).unwrap_or(1);
                        doc = doc.add_paragraph(marker().numbering(NumberingId::new(id), IndentLevel::new(2)));
                        refs.push((id, 2));
                        names.push("again");
                    }
                    _ => {
                        l.transitions += 2;
                        let r = guarded(|| {
                            let b = pack_build(doc)?;
                            let pkg = Package::open(&b)?;
                            let d = read_docx(&b).map_err(|e| format!("not readable: {e}"))?;
                            Ok::<_, String>((d, pkg))
                        });
                        match r {
                            Ok(Ok((back, pkg))) => {
                                doc = back;
                                if !refs.is_empty() && check(l, "history", names.contains(&"cycle"), &pkg, &d, &refs).is_none() {
                                    l.label = names.join(", ");
                                    return;
                                }
                                names.push("cycle");
                            }
                            Ok(Err(e)) => return l.fail("cannot be written and read", &e),
                            Err(e) => return l.fail(format!("panic: {}", panic_class(&e)), &e),
                        }
                    }
                }
                l.transitions += 1;
            }
            l.label = names.join(", ");
            l.states.push(hash64(format!("{:?}{:?}{:?}", d.ta, d.tn, refs).as_bytes()));
            if refs.is_empty() {
                return;
            }
            match guarded(|| pack_build(doc)) {
                Ok(Ok(b)) => match Package::open(&b) {
                    Ok(pkg) => {
                        if check(l, "history", names.contains(&"cycle"), &pkg, &d, &refs).is_some() {
                            l.validated += 1;
                        }
                    }
                    Err(e) => l.fail("package unreadable", &e),
                },
                Ok(Err(e)) => l.fail("cannot be written", &e),
                Err(e) => l.fail(format!("panic: {}", panic_class(&e)), &e),
            }
        },
    ));
    out
}
