//! C09: every section shows exactly the headers and footers it was given last.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "model_checking",
        assumptions: vec![
            "the reference model of a section is a table from its six slots to the content last given".into(),
            "a model state is the table of every section added so far plus that of the section under construction".into(),
        ],
    }
}

fn content(i: usize, kind: usize) -> Vec<B> {
    match kind % 3 {
        0 => vec![ptext(&format!("call{i}"))],
        1 => vec![para(vec![I::R(vec![K::Pic(png(i as u8), false)]), rtext(&format!("call{i}"))])],
        _ => vec![para(vec![I::Ext(format!("http://e.x/{i}"), vec![rtext(&format!("call{i}"))])])],
    }
}

fn section_call(s: Section, slot: usize, b: &[B]) -> Section {
    match slot {
        0 => s.header(header(b)),
        1 => s.first_header(header(b)),
        2 => s.even_header(header(b)),
        3 => s.footer(footer(b)),
        4 => s.first_footer(footer(b)),
        _ => s.even_footer(footer(b)),
    }
}

fn sec_slot(s: &mut Sec, slot: usize, b: Vec<B>) {
    if slot < 3 {
        s.headers[slot] = Some(b);
    } else {
        s.footers[slot - 3] = Some(b);
    }
}

fn on(e: Option<&El>) -> bool {
    e.is_some_and(|e| !matches!(e.attr("w:val"), Some("0" | "false" | "off")))
}

/// Writes and reads the built document and compares both with the reference.
fn judge(l: &mut Leaf, want: &Doc, built: Docx) {
    let tree = want.neutral();
    let bytes = match guarded(|| pack_stream(built)) {
        Ok(Ok(b)) => b,
        e => return l.fail("write-failed", format!("packing failed: {e:?}")),
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("write-archive", e),
    };
    l.evals += 1;
    if let Some((path, m)) = diff(&tree, &from_package(&pkg), "") {
        l.fail(format!("write:{path}"), format!("the package differs from the calls made: {m}"));
    }
    // title page and even/odd switches
    let first = |s: &Sec| s.headers[1].is_some() || s.footers[1].is_some();
    let even = |s: &Sec| s.headers[2].is_some() || s.footers[2].is_some();
    let mut titles: Vec<bool> = Vec::new();
    let mut evens = want.hf.iter().any(|(s, _)| s % 3 == 2);
    for b in &want.body {
        if let B::Sec(s) = b {
            titles.push(first(s));
            evens |= even(s);
        }
    }
    titles.push(want.hf.iter().any(|(s, _)| s % 3 == 1));
    let got: Vec<bool> = pkg
        .document()
        .map(|(_, r)| r.all("w:sectPr").iter().map(|s| on(s.child("w:titlePg"))).collect())
        .unwrap_or_default();
    if got != titles {
        l.fail("title-page", format!("title page switches are {got:?}, expected {titles:?}"));
    }
    let got = on(pkg.settings().and_then(|s| s.child("w:evenAndOddHeaders")));
    if got != evens {
        l.fail("even-odd", format!("even and odd headers are {got}, expected {evens}"));
    }
    l.validated += 1;
    let read = match guarded(|| read_docx(&bytes)) {
        Ok(Ok(d)) => d,
        e => return l.fail("read-failed", format!("reading failed: {:?}", e.map(|r| r.map(|_| ())))),
    };
    l.evals += 1;
    if let Some((path, m)) = diff(&tree, &from_model(&read), "") {
        l.fail(format!("read:{path}"), format!("reading differs from the calls made: {m}"));
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    let depth = if t == Tier::Quick { 4 } else { 5 };
    v.push(Phase::new(
        "history",
        format!("every history of at most {depth} calls over the six slots of the document, the six slots of the section under construction, and adding that section"),
        move |ch: &mut Chooser, l: &mut Leaf| {
            let n = ch.choose(depth) + 1;
            let shift = if n < depth { ch.choose(3) } else { ch.choose(2) };
            let mut want = Doc::default();
            let mut built = Docx::new();
            let mut open: Option<(Sec, Section)> = None;
            let mut table = String::new();
            fn close(want: &mut Doc, built: Docx, o: Option<(Sec, Section)>) -> Docx {
                let (mut s, mut b) = o.unwrap_or((Sec::default(), Section::new()));
                let t = format!("s{}", want.body.len());
                s.kids.push(ptext(&t));
                b = b.add_paragraph(Paragraph::new().add_run(Run::new().add_text(&t)));
                want.body.push(B::Sec(s));
                built.add_section(b)
            }
            for i in 0..n {
                let op = ch.choose(13);
                let c = content(i, i + shift);
                match op {
                    0..=5 => {
                        built = set_header(built, op, &c);
                        want.hf.push((op, c));
                        table.push_str(&format!("D{op}={i};"));
                    }
                    6..=11 => {
                        let (mut s, b) = open.take().unwrap_or((Sec::default(), Section::new()));
                        let b = section_call(b, op - 6, &c);
                        sec_slot(&mut s, op - 6, c);
                        open = Some((s, b));
                        table.push_str(&format!("S{}={i};", op - 6));
                    }
                    _ => {
                        built = close(&mut want, built, open.take());
                        table.push_str("end;");
                    }
                }
                l.transitions += 1;
                // the tables after this call, whatever calls led to them
                let hf: Vec<Option<usize>> =
                    (0..6).map(|s| want.hf.iter().rposition(|(x, _)| *x == s)).collect();
                let key = format!("{hf:?}{:?}{:?}", want.body, open.as_ref().map(|o| &o.0));
                l.states.push(hash64(key.as_bytes()));
            }
            if open.is_some() {
                built = close(&mut want, built, open.take());
            }
            l.label = format!("shift={shift} {table}");
            judge(l, &want, built);
        },
    ));
    let most = if t == Tier::Quick { 14 } else { 40 };
    v.push(Phase::new(
        "many",
        format!("1..{most} sections, each with one slot, two slots, or all six, all different, with and without the document's own"),
        move |ch: &mut Chooser, l: &mut Leaf| {
            let n = ch.choose(most) + 1;
            let lay = ch.choose(9);
            let own = ch.flag();
            l.label = format!("{n} sections layout {lay} own={own}");
            let mut want = Doc::default();
            for i in 0..n {
                let mut s = Sec { kids: vec![ptext(&format!("s{i}"))], ..Default::default() };
                let slots: Vec<usize> = match lay {
                    x @ 0..=5 => vec![x],
                    6 => vec![i % 6, (i + 3) % 6],
                    7 => (0..6).collect(),
                    _ => (0..6).filter(|k| i >> (k % 4) & 1 == 1).collect(),
                };
                for k in slots {
                    sec_slot(&mut s, k, content(i * 6 + k, i + k));
                }
                want.body.push(B::Sec(s));
            }
            if own {
                for k in 0..6 {
                    want.hf.push((k, content(250 - k, k)));
                }
            }
            let built = want.to_docx();
            judge(l, &want, built);
        },
    ));
    v
}
