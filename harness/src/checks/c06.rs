//! C06: identifiers drawn automatically are distinct under every thread schedule.

use super::Meta;
use crate::explore::*;
use crate::sched;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "model_checking",
        assumptions: vec![
            "threads interact through the program's static memory only; each access to it is one step".into(),
            "sequential consistency of single machine instructions (reordering of relaxed atomics is not explored)".into(),
            "the number of preemptions per schedule is bounded".into(),
            "paragraph ids are kept per thread by design and made unique when packing; they are judged under C07".into(),
        ],
    }
}

/// Identifier spaces: the kinds of elements that draw from each.
const SPACES: &[(&str, &[&str])] = &[
    ("tracked-change", &["insert", "delete", "move-from", "move-to", "property-change"]),
    ("link", &["link"]),
    ("picture", &["picture"]),
    ("footnote", &["footnote"]),
    ("heading-bookmark", &["toc"]),
];

fn attr_of(xml: &[u8], start: &str, attr: &str) -> Vec<String> {
    // every value of an attribute on elements with this name
    let s = String::from_utf8_lossy(xml);
    let mut v = Vec::new();
    for (i, _) in s.match_indices(&format!("<{start} ")) {
        let tag = &s[i..i + s[i..].find('>').unwrap_or(0)];
        if let Some(a) = tag.find(&format!("{attr}=\"")) {
            let rest = &tag[a + attr.len() + 2..];
            v.push(rest[..rest.find('"').unwrap_or(0)].to_string());
        }
    }
    v
}

/// Draws the identifiers one element of this kind takes.
fn draw(kind: &str) -> Vec<String> {
    match kind {
        "insert" => attr_of(&Insert::new(Run::new()).build(), "w:ins", "w:id"),
        "delete" => attr_of(&Delete::new().add_run(Run::new()).build(), "w:del", "w:id"),
        "move-from" => attr_of(&MoveFrom::new().add_run(Run::new()).build(), "w:moveFrom", "w:id"),
        "move-to" => attr_of(&MoveTo::new(Run::new()).build(), "w:moveTo", "w:id"),
        "property-change" => attr_of(&ParagraphPropertyChange::new().build(), "w:pPrChange", "w:id"),
        "link" => match Hyperlink::new("http://e.x/", HyperlinkType::External).link {
            HyperlinkData::External { rid, .. } => vec![rid],
            _ => vec![],
        },
        "picture" => vec![Pic::new_with_dimensions(vec![1, 2, 3], 1, 1).id],
        "footnote" => vec![Footnote::new().id.to_string()],
        _ => {
            let d = Docx::new()
                .add_style(Style::new("Heading1", StyleType::Paragraph).name("Heading 1"))
                .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto())
                .add_paragraph(Paragraph::new().style("Heading1").add_run(Run::new().add_text("h")));
            let x = d.build().document;
            let mut v = attr_of(&x, "w:bookmarkStart", "w:id");
            v.extend(attr_of(&x, "w:bookmarkStart", "w:name"));
            v
        }
    }
}

/// Learns which static words drawing writes, before any schedule is explored.
fn calibrate() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let n = sched::calibrate(|| {
            for (_, kinds) in SPACES {
                for k in *kinds {
                    draw(k);
                    draw(k);
                }
            }
        });
        assert!(n < 100, "drawing identifiers writes too many static words");
    });
}

fn judge(l: &mut Leaf, ch: &mut Chooser, bound: usize, threads: Vec<Vec<&'static str>>) {
    let want: usize = threads.iter().map(|t| t.len()).sum();
    let per = if threads.iter().flatten().any(|k| *k == "toc") { 2 } else { 1 };
    let label = format!("{threads:?}");
    let bodies: Vec<Box<dyn FnOnce() -> Vec<String> + Send>> = threads
        .into_iter()
        .map(|ks| Box::new(move || ks.iter().flat_map(|k| draw(k)).collect::<Vec<String>>()) as Box<dyn FnOnce() -> Vec<String> + Send>)
        .collect();
    calibrate();
    let r = sched::run(ch, bound, bodies);
    l.label = format!("{label} schedule {:?}", r.trace);
    l.transitions += r.steps;
    l.states.extend(r.states.iter().map(|s| hash64(format!("{label}{s}").as_bytes())));
    l.evals += 1;
    let mut all = Vec::new();
    for t in r.results {
        match t {
            Ok(ids) => all.extend(ids),
            Err(_) => {
                l.fail("panic", "drawing an identifier panicked".to_string());
                return;
            }
        }
    }
    if all.len() != want * per {
        l.fail("undrawn", format!("{} identifiers found for {want} elements: {all:?}", all.len()));
    }
    l.validated += 1;
    let n = all.len();
    let mut u = all.clone();
    u.sort();
    u.dedup();
    if u.len() != n {
        l.fail("duplicate", format!("identifiers {all:?} are not distinct under schedule {:?}", r.trace));
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let quick = t == Tier::Quick;
    let mut v = Vec::new();
    let b1 = if quick { 3 } else { 6 };
    v.push(
        Phase::new("one-each", format!("two threads drawing one identifier each, every ordered pair of kinds of every space, at most {b1} preemptions"), move |ch: &mut Chooser, l: &mut Leaf| {
            let (_, kinds) = *ch.pick(SPACES);
            let (a, b) = (*ch.pick(kinds), *ch.pick(kinds));
            judge(l, ch, b1, vec![vec![a], vec![b]]);
        })
        .single_thread(),
    );
    let b2 = if quick { 2 } else { 3 };
    v.push(
        Phase::new("two-each", format!("two threads drawing one or two identifiers each, at most {b2} preemptions"), move |ch: &mut Chooser, l: &mut Leaf| {
            let (_, kinds) = *ch.pick(SPACES);
            let (a, b) = (*ch.pick(kinds), *ch.pick(kinds));
            let more = ch.flag();
            let t1 = vec![a, b];
            let t2 = if more { vec![b, a] } else { vec![b] };
            judge(l, ch, b2, vec![t1, t2]);
        })
        .single_thread(),
    );
    v.push(
        Phase::new("three", format!("three threads drawing one identifier each, at most {b2} preemptions"), move |ch: &mut Chooser, l: &mut Leaf| {
            let (_, kinds) = *ch.pick(SPACES);
            let (a, b) = (*ch.pick(kinds), *ch.pick(kinds));
            judge(l, ch, b2, vec![vec![a], vec![b], vec![a]]);
        })
        .single_thread(),
    );
    v
}
