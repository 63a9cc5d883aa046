//! C28: the plain text of a paragraph is the text its final version shows.

use super::Meta;
use crate::explore::*;
use crate::gen::*;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "tabs of either kind show as a tab, breaks of any kind and carriage returns as a line break".into(),
            "symbols, drawings and numbers computed by fields have no plain text".into(),
        ],
    }
}

/// The contents of a run and the plain text they stand for.
const RUNS: &[&str] = &["text", "empty", "blank", "tab", "positional tab", "line break", "page break", "column break", "carriage return", "symbol", "deleted text", "code", "mixed"];

fn run(kind: &str, k: usize) -> (Run, String) {
    let r = Run::new();
    match kind {
        "text" => (r.add_text(format!("t{k}")), format!("t{k}")),
        "empty" => (r, String::new()),
        "blank" => (r.add_text(" "), " ".into()),
        "tab" => (r.add_tab(), "\t".into()),
        "positional tab" => (r.add_ptab(PositionalTab::new(PositionalTabAlignmentType::Left, PositionalTabRelativeTo::Margin, TabLeaderType::None)), "\t".into()),
        "line break" => (r.add_break(BreakType::TextWrapping), "\n".into()),
        "page break" => (r.add_break(BreakType::Page), "\n".into()),
        "column break" => (r.add_break(BreakType::Column), "\n".into()),
        "carriage return" => (r.add_carriage_return(), "\n".into()),
        "symbol" => (r.add_sym(Sym::new("Wingdings", "F0FC")), String::new()),
        "deleted text" => (r.add_delete_text("gone"), String::new()),
        "code" => (r.add_field_char(FieldCharType::Begin, false).add_instr_text(InstrText::Unsupported("DATE".into())).add_field_char(FieldCharType::End, false), String::new()),
        _ => (
            r.bold()
                .add_text(format!("a{k}"))
                .add_tab()
                .add_text("<&>")
                .add_break(BreakType::TextWrapping)
                .add_ptab(PositionalTab::new(PositionalTabAlignmentType::Right, PositionalTabRelativeTo::Margin, TabLeaderType::Dot))
                .add_text("\u{3042} ")
                .add_carriage_return()
                .add_text("z"),
            format!("a{k}\t<&>\n\t\u{3042} \nz"),
        ),
    }
}

const KINDS: &[&str] = &["run", "inserted", "inserted twice", "inserted and deleted", "deleted", "moved away", "moved here", "moved here and deleted", "linked", "linked insertion", "linked deletion", "tagged", "bookmarked", "commented", "page number", "tag in link", "tagged twice"];

/// Appends an item to a paragraph and its plain text to the text.
fn add(p: Paragraph, kind: &str, rk: &str, k: usize, text: &mut String) -> Paragraph {
    let (r, t) = run(rk, k);
    let gone = || Delete::new().add_run(Run::new().add_delete_text("gone").add_tab());
    let here = || Hyperlink::new("here", HyperlinkType::Anchor);
    if kind != "deleted" && kind != "moved away" && kind != "linked deletion" {
        text.push_str(&t);
    }
    match kind {
        "run" => p.add_run(r),
        "inserted" => p.add_insert(Insert::new(r)),
        "inserted twice" => {
            text.push_str(&t);
            p.add_insert(Insert::new(r.clone()).add_run(r))
        }
        "inserted and deleted" => p.add_insert(Insert::new_with_del(gone()).add_run(r).add_delete(gone())),
        "deleted" => p.add_delete(Delete::new().add_run(r)),
        "moved away" => p.add_move_from(MoveFrom::new().add_run(r)),
        "moved here" => p.add_move_to(MoveTo::new(r)),
        "moved here and deleted" => p.add_move_to(MoveTo::new_with_empty().add_delete(gone()).add_run(r)),
        "linked" => p.add_hyperlink(here().add_run(r)),
        "linked insertion" => p.add_hyperlink(here().add_insert(Insert::new(r))),
        "linked deletion" => p.add_hyperlink(here().add_delete(Delete::new().add_run(r))),
        "tagged" => p.add_structured_data_tag(StructuredDataTag::new().add_run(r)),
        "tag in link" => p.add_hyperlink(here().add_structured_data_tag(StructuredDataTag::new().add_run(r))),
        "tagged twice" => {
            let mut t = StructuredDataTag::new();
            t.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(StructuredDataTag::new().add_run(r))));
            p.add_structured_data_tag(t)
        }
        "bookmarked" => p.add_bookmark_start(k + 1, format!("b{k}")).add_run(r).add_bookmark_end(k + 1),
        "commented" => p
            .add_comment_start(Comment::new(k).author("a").date("2020-01-01T00:00:00Z").add_paragraph(Paragraph::new().add_run(Run::new().add_text("remark"))))
            .add_run(r)
            .add_comment_end(k),
        _ => p.add_run(r).add_page_num(PageNum::new()).add_num_pages(NumPages::new()),
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let most = if t == Tier::Quick { 2 } else { 3 };
    let judge = |l: &mut Leaf, items: &[(&str, &str)]| {
        l.label = format!("{items:?}");
        l.states.push(hash64(l.label.as_bytes()));
        let make = || {
            let mut text = String::new();
            let mut p = Paragraph::new();
            for (k, (kind, rk)) in items.iter().enumerate() {
                p = add(p, kind, rk, k, &mut text);
            }
            (p, text)
        };
        let (p, want) = make();
        l.transitions += 1;
        l.evals += 1;
        let got = guarded(|| p.raw_text());
        if got != Ok(want.clone()) {
            return l.fail(format!("text of {}", items.last().map_or("nothing", |i| i.0)), format!("{got:?} instead of {want:?}"));
        }
        // fields show a number once they are read; links drop tags
        if items.iter().any(|i| matches!(i.0, "page number" | "tag in link" | "tagged twice")) {
            return;
        }
        let b = match guarded(|| pack_stream(Docx::new().add_paragraph(make().0))) {
            Ok(Ok(b)) => b,
            e => return l.fail("packing", format!("{e:?}")),
        };
        let read = guarded(|| read_docx(&b).map(|d| d.document.children.iter().find_map(|c| if let DocumentChild::Paragraph(p) = c { Some(p.raw_text()) } else { None })));
        l.validated += 1;
        l.evals += 1;
        match read {
            Ok(Ok(Some(t))) if t == want => {}
            e => l.fail("text after reading", format!("{e:?} instead of {want:?}")),
        }
    };
    vec![
        Phase::new("runs", "all lists of up to two runs of thirteen contents, each in one of the seventeen positions", move |ch, l| {
            let n = 1 + ch.choose(2);
            let items: Vec<(&str, &str)> = (0..n).map(|_| (*ch.pick(KINDS), *ch.pick(RUNS))).collect();
            judge(l, &items);
        }),
        Phase::new("positions", "all lists of up to three positions (four in the thorough tier), each holding a text or a mixed run", move |ch, l| {
            let n = ch.choose(most + 2);
            let items: Vec<(&str, &str)> = (0..n).map(|k| (*ch.pick(KINDS), if k % 2 == 0 { "mixed" } else { "text" })).collect();
            judge(l, &items);
        }),
    ]
}
