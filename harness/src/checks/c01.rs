//! C01: every produced package is closed under the packaging rules.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "archive and XML are read by independent readers written for this harness".into(),
            "parts that carry nothing the document uses (empty comments, default numbering, unused footnotes) may stay unrelated".into(),
        ],
    }
}

/// Footnotes and comments belong to the main text; the format has no place for them elsewhere.
pub fn main_text_only(host: &str, feature: &str) -> bool {
    let note = feature.starts_with("footnote") || feature.starts_with("comment");
    let aside = host.contains("header") || host.contains("footer") || host.starts_with("comment") || host == "footnote";
    !(note && aside)
}

/// Packs through both routes and records every closure breach.
pub fn judge(l: &mut Leaf, d: impl Fn() -> Docx) {
    for (route, bytes) in [("build", guarded(|| pack_build(d()))), ("pack", guarded(|| pack_stream(d())))] {
        l.evals += 1;
        let bytes = match bytes {
            Err(p) => {
                l.fail(format!("panic-{route}"), format!("packing panicked: {p}"));
                continue;
            }
            Ok(Err(e)) => {
                l.fail(format!("error-{route}"), format!("packing into memory failed: {e}"));
                continue;
            }
            Ok(Ok(b)) => b,
        };
        match Package::open(&bytes) {
            Err(e) => l.fail(format!("archive-{route}"), format!("the archive cannot be opened: {e}")),
            Ok(p) => {
                l.validated += 1;
                l.outcome = format!("{} parts", p.parts.len());
                for (k, m) in p.problems() {
                    l.fail(k, format!("[{route}] {m}"));
                }
            }
        }
    }
}

/// Package-level options.
pub fn options(ch: &mut Chooser, mut d: Docx, label: &mut String) -> Docx {
    let panes = ch.choose(3);
    let exts = ch.choose(3);
    let items = ch.choose(3);
    let props = ch.choose(2);
    let nums = ch.choose(2);
    let toc = ch.choose(2);
    let foot = ch.choose(2);
    let comm = ch.choose(2);
    let order = ch.choose(2);
    *label = format!("panes{panes} exts{exts} items{items} props{props} num{nums} toc{toc} fn{foot} cm{comm} order{order}");
    let web = |mut d: Docx| {
        for i in 0..exts {
            d = d.web_extension(
                WebExtension::new(&format!("id{i}"), "wa1", "1.0", "store", "en-US").property("k", "v"),
            );
        }
        d
    };
    let pane = |mut d: Docx| {
        for _ in 0..panes {
            d = d.taskpanes();
        }
        d
    };
    d = if order == 0 { web(pane(d)) } else { pane(web(d)) };
    for i in 0..items {
        d = d.add_custom_item(&format!("06AC5857-5C65-A94A-BCEC-37356A209BC{i}"), "<a xmlns=\"urn:x\"><b>1</b></a>");
    }
    if props == 1 {
        d = d.custom_property("k1", "v1").custom_property("k2", "v2");
    }
    if nums == 1 {
        d = d
            .add_abstract_numbering(AbstractNumbering::new(2).add_level(Level::new(
                0,
                Start::new(1),
                NumberFormat::new("decimal"),
                LevelText::new("%1."),
                LevelJc::new("left"),
            )))
            .add_numbering(Numbering::new(2, 2))
            .add_paragraph(paragraph(&Pa { id: None, num: Some((2, 0)), style: None, kids: vec![rtext("n")] }));
    }
    if toc == 1 {
        d = d.add_table_of_contents(crate::gen::toc(&Toc { after: vec![ptext("a")], ..Default::default() }));
    }
    if foot == 1 {
        d = d.add_paragraph(paragraph(&Pa {
            id: None,
            num: None,
            style: None,
            kids: vec![I::R(vec![K::Fnote(vec![vec![rtext("f")]])])],
        }));
    }
    if comm == 1 {
        d = add_block(d, &para(vec![I::Cs(comment(1, "c")), rtext("x"), I::Ce(1)]));
    }
    d
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    v.push(Phase::new(
        "single",
        format!(
            "every placement ({} hosts) of every package-relevant feature ({}), both packing routes",
            PARA_HOSTS.len(),
            features().len()
        ),
        {
            let fs = features();
            move |ch: &mut Chooser, l: &mut Leaf| {
                let h = *ch.pick(PARA_HOSTS);
                let f = &fs[ch.choose(fs.len())];
                l.label = format!("{h} <- {}", f.0);
                if !main_text_only(h, &f.0) {
                    l.skip = true;
                    return;
                }
                let d = place(h, (f.1)(1), 1);
                judge(l, || d.to_docx());
            }
        },
    ));
    v.push(Phase::new("pair", "every ordered pair of (host, core feature) placements in one document", {
        let fs: Vec<_> = features().into_iter().filter(|f| CORE_FEATURES.contains(&f.0.as_str())).collect();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let h1 = *ch.pick(PARA_HOSTS);
            let f1 = &fs[ch.choose(fs.len())];
            let h2 = *ch.pick(PARA_HOSTS);
            let f2 = &fs[ch.choose(fs.len())];
            l.label = format!("{h1} <- {} ; {h2} <- {}", f1.0, f2.0);
            if !main_text_only(h1, &f1.0) || !main_text_only(h2, &f2.0) {
                l.skip = true;
                return;
            }
            let d = place(h1, (f1.1)(1), 1).merge(place(h2, (f2.1)(2), 2));
            judge(l, || d.to_docx());
        }
    }));
    v.push(Phase::new(
        "options",
        "all combinations of task panes, web extensions, custom XML items, custom properties, numbering, TOC, footnote, comment and call order",
        |ch: &mut Chooser, l: &mut Leaf| {
            let start = ch.choices().len();
            let mut label = String::new();
            let _ = options(ch, Docx::new(), &mut label);
            let cs: Vec<u16> = ch.choices()[start..].to_vec();
            l.label = label;
            judge(l, || options(&mut Chooser::new(cs.clone(), None), Docx::new(), &mut String::new()));
        },
    ));
    v.push(Phase::new(
        "ids",
        format!("three pictures or links with every combination of chosen relationship ids from {IDS:?}, in the main text or in a header"),
        |ch: &mut Chooser, l: &mut Leaf| {
            let aside = ch.flag();
            let items: Vec<(usize, usize)> = (0..3).map(|_| (ch.choose(4), ch.choose(IDS.len()))).collect();
            l.label = format!("{} {:?}", if aside { "header" } else { "body" }, items);
            judge(l, || with_ids(aside, &items));
        },
    ));
    let depth = if t == Tier::Quick { 4 } else { 5 };
    v.push(Phase::new(
        "headers",
        format!("every sequence of at most {depth} header/footer/section calls"),
        move |ch: &mut Chooser, l: &mut Leaf| {
            let n = ch.choose(depth) + 1;
            let ops: Vec<usize> = (0..n).map(|_| ch.choose(HOPS.len())).collect();
            l.label = ops.iter().map(|o| HOPS[*o]).collect::<Vec<_>>().join(";");
            judge(l, || {
                let mut d = Docx::new();
                for (i, o) in ops.iter().enumerate() {
                    d = header_op(d, HOPS[*o], i);
                }
                d
            });
        },
    ));
    v
}

pub const IDS: &[&str] = &["a", "a_2", "rId1", "rId8", "rId9", "rIdHeader1"];

/// Pictures (two different byte strings) and links (two different targets) under chosen relationship ids,
/// as they arise when content read from several packages is put together.
pub fn with_ids(aside: bool, items: &[(usize, usize)]) -> Docx {
    let mut ps = Vec::new();
    for (kind, id) in items {
        let id = IDS[*id].to_string();
        let p = if *kind < 2 {
            let mut p = Pic::new_with_dimensions(png(*kind as u8 + 1), 10, 10);
            p.id = id;
            Paragraph::new().add_run(Run::new().add_image(p))
        } else {
            let mut h = Hyperlink::new(format!("http://x/{kind}"), HyperlinkType::External).add_run(Run::new().add_text("l"));
            if let HyperlinkData::External { rid, .. } = &mut h.link {
                *rid = id;
            }
            Paragraph::new().add_hyperlink(h)
        };
        ps.push(p);
    }
    let d = Docx::new().add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC0", "<a/>");
    if aside {
        d.header(ps.into_iter().fold(Header::new(), |h, p| h.add_paragraph(p))).add_paragraph(Paragraph::new())
    } else {
        ps.into_iter().fold(d.header(Header::new()), |d, p| d.add_paragraph(p))
    }
}

pub const HOPS: &[&str] = &["H", "HF", "HE", "F", "FF", "FE", "section", "section+H", "section+F", "section+HF+FE"];

pub fn header_op(d: Docx, op: &str, i: usize) -> Docx {
    let b = vec![ptext(&format!("{op}#{i}"))];
    let mut s = Sec { kids: vec![ptext(&format!("s{i}"))], ..Default::default() };
    match op {
        "H" => set_header(d, 0, &b),
        "HF" => set_header(d, 1, &b),
        "HE" => set_header(d, 2, &b),
        "F" => set_header(d, 3, &b),
        "FF" => set_header(d, 4, &b),
        "FE" => set_header(d, 5, &b),
        "section" => add_block(d, &B::Sec(s)),
        "section+H" => {
            s.headers[0] = Some(b);
            add_block(d, &B::Sec(s))
        }
        "section+F" => {
            s.footers[0] = Some(b);
            add_block(d, &B::Sec(s))
        }
        _ => {
            s.headers[1] = Some(b.clone());
            s.footers[2] = Some(b);
            add_block(d, &B::Sec(s))
        }
    }
}
