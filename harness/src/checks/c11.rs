//! C11: footnote references and footnote bodies correspond one to one.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a note without content is written with one empty paragraph, as the format asks".into(),
            "references outside the main text (headers, footers, comments, notes) are outside the format and skipped".into(),
        ],
    }
}

/// The ways of getting an archive from a document value.
const ROUTES: &[&str] = &["pack", "build", "collect-pack", "collect-twice-pack", "json-pack", "clone-pack", "pack-clone-then-pack"];

fn route(name: &str, mut d: Docx) -> Result<Vec<u8>, String> {
    match name {
        "pack" => pack_stream(d),
        "build" => pack_build(d),
        "collect-pack" => {
            d.collect_footnotes();
            pack_stream(d)
        }
        "collect-twice-pack" => {
            d.collect_footnotes();
            d.collect_footnotes();
            pack_build(d)
        }
        "json-pack" => {
            d.json_with_update_comments();
            pack_stream(d)
        }
        "clone-pack" => {
            let c = d.clone();
            drop(d);
            pack_stream(c)
        }
        _ => {
            pack_stream(d.clone())?;
            pack_build(d)
        }
    }
}

fn notes(ns: &[N], out: &mut Vec<N>) {
    for n in ns {
        if n.tag.starts_with("fn") {
            out.push(n.clone());
        }
        notes(&n.kids, out);
    }
}

/// What stands before and after the entries of a table of contents, in place of it.
fn unfolded(bs: &[B]) -> Vec<B> {
    bs.iter()
        .flat_map(|b| match b {
            B::Toc(t) => unfolded(&t.before).into_iter().chain(unfolded(&t.after)).collect(),
            B::T(rows) => vec![B::T(rows.iter().map(|r| r.iter().map(|c| unfolded(c)).collect()).collect())],
            b => vec![b.clone()],
        })
        .collect()
}

/// Footnotes in document order with their contents; an empty note holds one empty paragraph.
fn wanted(d: &Doc) -> Vec<N> {
    let mut v = Vec::new();
    notes(&Doc { body: unfolded(&d.body), ..d.clone() }.neutral(), &mut v);
    for n in v.iter_mut() {
        if n.kids.is_empty() {
            n.kids.push(N::new("p", vec![]));
        }
    }
    v
}

fn judge(l: &mut Leaf, want: &[N], distinct: usize, how: &str, made: Docx) {
    let bytes = match guarded(|| route(how, made)) {
        Ok(Ok(b)) => b,
        e => return l.fail("write-failed", format!("packing failed: {e:?}")),
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("write-archive", e),
    };
    l.evals += 1;
    let mut got = Vec::new();
    notes(&from_package(&pkg), &mut got);
    if got != want {
        let m = diff(want, &got, "").map(|d| d.1).unwrap_or_default();
        l.fail("content", format!("footnotes reached from the references: {m}"));
    }
    let ids: Vec<String> = pkg
        .footnotes()
        .map(|r| r.children("w:footnote").iter().map(|f| f.attr("w:id").unwrap_or("?").to_string()).collect())
        .unwrap_or_default();
    let own: Vec<&String> = ids.iter().filter(|i| *i != "0" && *i != "-1").collect();
    if own.len() != distinct {
        l.fail("count", format!("{distinct} different footnotes were given, the part holds {ids:?}"));
    }
    let mut u = ids.clone();
    u.sort();
    u.dedup();
    if u.len() != ids.len() {
        l.fail("duplicate-id", format!("footnote ids repeat: {ids:?}"));
    }
    let mut refs = Vec::new();
    if let Some((_, r)) = pkg.document() {
        for e in r.all("w:footnoteReference") {
            refs.push(e.attr("w:id").unwrap_or("?").to_string());
        }
    }
    if let Some(bad) = refs.iter().find(|r| r.as_str() == "0" || r.as_str() == "-1") {
        l.fail("reserved-id", format!("a reference uses the reserved id {bad}"));
    }
    if let Some(lost) = own.iter().find(|i| !refs.contains(i)) {
        l.fail("orphan", format!("footnote {lost} is not referenced"));
    }
    l.validated += 1;
}

fn body_host(h: &str) -> bool {
    super::c01::main_text_only(h, "footnote")
}

fn pa(kids: Vec<I>) -> Pa {
    Pa { id: None, num: None, style: None, kids }
}

fn note(i: usize, size: usize) -> K {
    K::Fnote((0..size).map(|k| vec![rtext(&format!("note{i}.{k}"))]).collect())
}

/// Paragraphs a note may consist of; none refers to another part.
fn contents() -> Vec<(&'static str, Paragraph)> {
    let p = Paragraph::new;
    let t = |s: &str| Run::new().add_text(s);
    vec![
        ("empty", p()),
        ("empty styled", p().style("Keep")),
        ("empty aligned", p().align(AlignmentType::Right)),
        ("empty numbered", p().numbering(NumberingId::new(3), IndentLevel::new(1))),
        ("empty indented", p().indent(Some(100), None, None, None).keep_next(true).page_break_before(true)),
        ("empty run", p().add_run(Run::new())),
        ("blank text", p().add_run(t(" "))),
        ("no text", p().add_run(t(""))),
        ("text", p().add_run(t("a < b & c"))),
        ("formatted", p().add_run(t("a").bold().size(30).color("FF0000")).style("Keep")),
        ("breaks", p().add_run(Run::new().add_break(BreakType::Page).add_tab().add_text("z"))),
        ("inserted", p().add_insert(Insert::new(t("i")).author("x").date("2000-01-01T00:00:00Z"))),
        ("deleted", p().add_delete(Delete::new().author("x").date("2000-01-01T00:00:00Z").add_run(Run::new().add_delete_text("d")))),
        ("bookmark", p().add_bookmark_start(9, "m").add_run(t("b")).add_bookmark_end(9)),
        ("bookmark only", p().add_bookmark_start(9, "m").add_bookmark_end(9)),
        ("link", p().add_hyperlink(Hyperlink::new("m", HyperlinkType::Anchor).add_run(t("l")))),
        ("field", p().add_run(Run::new().add_field_char(FieldCharType::Begin, false).add_instr_text(InstrText::PAGE(InstrPAGE::new())).add_field_char(FieldCharType::End, false))),
        ("symbol", p().add_run(Run::new().add_sym(Sym::new("Wingdings", "F04A")))),
        ("content control", {
            let mut q = p();
            q.children.push(ParagraphChild::StructuredDataTag(Box::new(StructuredDataTag::new().alias("s").add_run(t("c")))));
            q
        }),
        ("section", p().section_property(SectionProperty::new())),
        ("mark inserted", {
            let mut q = p();
            q.property.run_property.ins = Some(Insert::new_with_empty().author("x").date("2000-01-01T00:00:00Z"));
            q
        }),
    ]
}

/// The paragraphs of a part, without the ids that are made up on writing.
fn paragraphs(ps: &[&crate::xml::El]) -> Vec<String> {
    fn strip(e: &mut crate::xml::El) {
        e.attrs.retain(|a| !matches!(a.q().as_str(), "w14:paraId" | "w:id"));
        for k in e.kids.iter_mut() {
            if let crate::xml::Node::El(k) = k {
                strip(k);
            }
        }
    }
    ps.iter()
        .map(|p| {
            let mut p = (*p).clone();
            strip(&mut p);
            p.canon()
        })
        .collect()
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    let quick = t == Tier::Quick;
    v.push(Phase::new("single", "one footnote of 0..2 paragraphs at every run position of the main text, every way of packing", |ch: &mut Chooser, l: &mut Leaf| {
        let h = *ch.pick(PARA_HOSTS);
        let w = *ch.pick(RUN_HOSTS);
        let size = ch.choose(3);
        let how = *ch.pick(ROUTES);
        l.label = format!("{h} <- {w}, {size} paragraphs, {how}");
        if !body_host(h) {
            l.skip = true;
            return;
        }
        let d = place(h, pa(vec![wrap(w, vec![note(1, size)])]), 1);
        judge(l, &wanted(&d), 1, how, d.to_docx());
    }));
    let hosts: &[&str] = &["body", "cell", "nested-cell", "sdt", "section", "section-table", "toc-after", "toc-before-table"];
    let runs: &[&str] = if quick { &["direct", "link-ins", "moveTo-del"] } else { &["direct", "link", "ins", "del", "sdt", "link-ins", "moveTo-del", "moveFrom"] };
    v.push(Phase::new("several", "two or three footnotes over the positions, contents of 0..2 paragraphs, every way of packing", move |ch: &mut Chooser, l: &mut Leaf| {
        let n = 2 + ch.choose(2);
        let how = if n == 3 { *ch.pick(&ROUTES[..3]) } else { *ch.pick(ROUTES) };
        let mut d = Doc::default();
        for i in 0..n {
            let h = *ch.pick(if n == 3 { &hosts[..4] } else { hosts });
            let w = *ch.pick(if n == 3 && quick { &runs[..2] } else { runs });
            let size = if n == 3 { 1 + i % 2 } else { ch.choose(3) };
            l.label.push_str(&format!("{h}/{w}:{size} "));
            d = d.merge(place(h, pa(vec![wrap(w, vec![note(i, size)])]), i));
        }
        l.label.push_str(how);
        judge(l, &wanted(&d), n, how, d.to_docx());
    }));
    v.push(Phase::new("same-run", "up to four footnotes and texts in one run, every way of packing", |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(4) + 1;
        let kinds: Vec<usize> = (0..n).map(|_| ch.choose(4)).collect();
        let how = *ch.pick(ROUTES);
        l.label = format!("{kinds:?} {how}");
        let ks: Vec<K> = kinds.iter().enumerate().map(|(i, k)| if *k == 3 { K::T(format!("t{i}")) } else { note(i, *k) }).collect();
        let count = kinds.iter().filter(|k| **k < 3).count();
        let d = Doc { body: vec![para(vec![I::R(ks)])], hf: vec![] };
        judge(l, &wanted(&d), count, how, d.to_docx());
    }));
    v.push(Phase::new("cloned", "paragraphs with footnotes cloned into the document 1..3 times, every way of packing", |ch: &mut Chooser, l: &mut Leaf| {
        let copies = ch.choose(3) + 1;
        let size = ch.choose(3);
        let both = ch.flag();
        let how = *ch.pick(ROUTES);
        l.label = format!("{copies} copies, {size} paragraphs, second={both}, {how}");
        let p1 = paragraph(&pa(vec![I::R(vec![note(1, size)])]));
        let p2 = paragraph(&pa(vec![I::R(vec![note(2, 1)])]));
        let mut d = Docx::new();
        let mut doc = Doc::default();
        for _ in 0..copies {
            d = d.add_paragraph(p1.clone());
            doc.body.push(para(vec![I::R(vec![note(1, size)])]));
            if both {
                d = d.add_paragraph(p2.clone());
                doc.body.push(para(vec![I::R(vec![note(2, 1)])]));
            }
        }
        judge(l, &wanted(&doc), 1 + both as usize, how, d);
    }));
    v.push(Phase::new("content", "a note of up to three paragraphs of 21 kinds, next to a plain note or alone, three ways of packing, compared with the same paragraphs in the main text", move |ch: &mut Chooser, l: &mut Leaf| {
        let all = contents();
        let n = ch.choose(4);
        let kinds: Vec<usize> = (0..n).map(|_| ch.choose(all.len())).collect();
        if quick && n == 3 && kinds[2] > 8 {
            l.skip = true;
            return;
        }
        let how = if n < 3 { *ch.pick(&ROUTES[..3]) } else { ROUTES[0] };
        let second = n < 3 && ch.flag();
        l.label = format!("{:?} second={second} {how}", kinds.iter().map(|k| all[*k].0).collect::<Vec<_>>());
        let ps: Vec<Paragraph> = kinds.iter().map(|k| all[*k].1.clone()).collect();
        let body = if ps.is_empty() { vec![Paragraph::new()] } else { ps.clone() };
        let plain = body.into_iter().fold(Docx::new(), |d, p| d.add_paragraph(p));
        let mut note = Footnote::new();
        for p in ps {
            note.add_content(p);
        }
        let mut run = Run::new().add_footnote_reference(note);
        if second {
            let mut other = Footnote::new();
            other.add_content(Paragraph::new().add_run(Run::new().add_text("other")));
            run = run.add_footnote_reference(other);
        }
        let d = Docx::new().add_paragraph(Paragraph::new().add_run(run));
        let get = |b: Result<Result<Vec<u8>, String>, String>| match b {
            Ok(Ok(b)) => Package::open(&b),
            e => Err(format!("{e:?}")),
        };
        let (plain, noted) = match (get(guarded(|| pack_stream(plain))), get(guarded(|| route(how, d)))) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return l.fail("write-failed", format!("{:?} {:?}", a.err(), b.err())),
        };
        l.evals += 1;
        let want = plain.document().and_then(|(_, r)| r.child("w:body").map(|b| paragraphs(&b.children("w:p")))).unwrap_or_default();
        let first = noted.document().and_then(|(_, r)| r.all("w:footnoteReference").first().and_then(|e| e.attr("w:id").map(String::from)));
        let got = noted
            .footnotes()
            .and_then(|r| r.children("w:footnote").into_iter().find(|f| f.attr("w:id") == first.as_deref()))
            .map(|f| paragraphs(&f.children("w:p")));
        match got {
            None => l.fail("lost", "the first reference leads to no note"),
            Some(got) if got != want => {
                let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
                l.fail("content", format!("paragraph {i} of the note is {:?}, in the main text it is {:?}", got.get(i), want.get(i)))
            }
            _ => l.validated += 1,
        }
    }));
    let most = if quick { 40 } else { 300 };
    v.push(Phase::new("many", format!("1..{most} footnotes in one document"), move |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(most) + 1;
        l.label = format!("{n}");
        let d = Doc { body: (0..n).map(|i| para(vec![I::R(vec![note(i, 1)])])).collect(), hf: vec![] };
        judge(l, &wanted(&d), n, "pack", d.to_docx());
    }));
    v
}
