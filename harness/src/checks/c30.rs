//! C30: content controls keep their settings and content.

use super::Meta;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a control among the runs of a paragraph or link is read as its bare runs (listed under content structure), so only its written form is judged".into(),
            "the formatting of a control is judged through bold and colour".into(),
        ],
    }
}

#[derive(Clone, Default, Debug)]
struct Ctl {
    alias: Option<String>,
    bind: Option<[Option<String>; 3]>,
    bold: bool,
    color: bool,
    kids: Vec<Kid>,
}

#[derive(Clone, Debug)]
enum Kid {
    Run(String),
    Par(String),
    Tab(String),
    Bs(usize),
    Be(usize),
    Cs(usize),
    Ce(usize),
    Nest(Ctl),
}

fn text(t: &str) -> Run {
    Run::new().add_text(t)
}

fn tag(c: &Ctl) -> StructuredDataTag {
    let mut t = StructuredDataTag::new();
    if let Some(a) = &c.alias {
        t = t.alias(a);
    }
    if let Some(b) = &c.bind {
        let mut d = DataBinding::new();
        if let Some(v) = &b[0] {
            d = d.xpath(v);
        }
        if let Some(v) = &b[1] {
            d = d.prefix_mappings(v);
        }
        if let Some(v) = &b[2] {
            d = d.store_item_id(v);
        }
        t = t.data_binding(d);
    }
    if c.bold {
        t.property.run_property = t.property.run_property.bold();
    }
    if c.color {
        t.property.run_property = t.property.run_property.color("00FF00");
    }
    for k in &c.kids {
        match k {
            Kid::Run(s) => t = t.add_run(text(s)),
            Kid::Par(s) => t = t.add_paragraph(Paragraph::new().add_run(text(s))),
            Kid::Tab(s) => t = t.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().add_run(text(s)))])])),
            Kid::Bs(n) => t.children.push(StructuredDataTagChild::BookmarkStart(BookmarkStart::new(*n, format!("m{n}")))),
            Kid::Be(n) => t.children.push(StructuredDataTagChild::BookmarkEnd(BookmarkEnd::new(*n))),
            Kid::Cs(n) => t.children.push(StructuredDataTagChild::CommentStart(Box::new(CommentRangeStart::new(
                Comment::new(*n).author("a").date("2020-01-01T00:00:00Z").add_paragraph(Paragraph::new().add_run(text("c"))),
            )))),
            Kid::Ce(n) => t.children.push(StructuredDataTagChild::CommentEnd(CommentRangeEnd::new(*n))),
            Kid::Nest(c) => t.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(tag(c)))),
        }
    }
    t
}

// ------------------------------------------------------------------------------- common listing

fn list(alias: Option<&str>, bind: Option<[Option<&str>; 3]>, bold: bool, color: Option<&str>, kids: Vec<String>) -> String {
    format!("control name={alias:?} binding={bind:?} bold={bold} color={color:?} {{{}}}", kids.join("; "))
}

fn wanted(c: &Ctl) -> String {
    let kids = c
        .kids
        .iter()
        .map(|k| match k {
            Kid::Run(s) => format!("run {s}"),
            Kid::Par(s) => format!("paragraph {s}"),
            Kid::Tab(s) => format!("table {s}"),
            Kid::Bs(n) => format!("bookmark {n} m{n}"),
            Kid::Be(n) => format!("bookmark end {n}"),
            Kid::Cs(n) => format!("comment {n}"),
            Kid::Ce(n) => format!("comment end {n}"),
            Kid::Nest(c) => wanted(c),
        })
        .collect();
    let b = c.bind.as_ref();
    list(c.alias.as_deref(), b.map(|b| [b[0].as_deref(), b[1].as_deref(), b[2].as_deref()]), c.bold, c.color.then_some("00FF00"), kids)
}

fn written(e: &El) -> String {
    let mut kids = vec![];
    for k in e.child("w:sdtContent").map(|c| c.els().collect::<Vec<_>>()).unwrap_or_default() {
        let id = || k.attr("w:id").unwrap_or("?").to_string();
        match k.q().as_str() {
            // the marks of a comment's end come with runs of their own
            "w:r" if k.child("w:t").is_none() => {}
            "w:r" => kids.push(format!("run {}", k.text())),
            "w:p" => kids.push(format!("paragraph {}", k.text())),
            "w:tbl" => kids.push(format!("table {}", k.text())),
            "w:bookmarkStart" => kids.push(format!("bookmark {} {}", id(), k.attr("w:name").unwrap_or("?"))),
            "w:bookmarkEnd" => kids.push(format!("bookmark end {}", id())),
            "w:commentRangeStart" => kids.push(format!("comment {}", id())),
            "w:commentRangeEnd" => kids.push(format!("comment end {}", id())),
            "w:sdt" => kids.push(written(k)),
            q => kids.push(format!("<{q}>")),
        }
    }
    if e.children("w:sdtContent").len() != 1 || e.children("w:sdtPr").len() != 1 {
        kids.push("not one content and one set of settings".into());
    }
    let p = e.child("w:sdtPr");
    let one = |n: &str| p.and_then(|p| p.child(n));
    if p.map_or(false, |p| ["w:alias", "w:dataBinding", "w:rPr"].iter().any(|n| p.children(n).len() > 1)) {
        kids.push("a setting stated twice".into());
    }
    let bind = one("w:dataBinding").map(|b| [b.attr("w:xpath"), b.attr("w:prefixMappings"), b.attr("w:storeItemID")]);
    let rpr = one("w:rPr");
    list(
        one("w:alias").and_then(|a| a.attr("w:val")),
        bind,
        rpr.map_or(false, |r| r.child("w:b").is_some()),
        rpr.and_then(|r| r.child("w:color")).and_then(|c| c.attr("w:val")),
        kids,
    )
}

fn read_back(t: &StructuredDataTag) -> String {
    let kids = t
        .children
        .iter()
        .filter(|k| !matches!(k, StructuredDataTagChild::Run(r) if r.children.iter().all(|c| !matches!(c, RunChild::Text(_)))))
        .map(|k| match k {
            StructuredDataTagChild::Run(r) => format!("run {}", Paragraph::new().add_run((**r).clone()).raw_text()),
            StructuredDataTagChild::Paragraph(p) => format!("paragraph {}", p.raw_text()),
            StructuredDataTagChild::Table(t) => {
                let mut s = String::new();
                for TableChild::TableRow(r) in &t.rows {
                    for TableRowChild::TableCell(c) in &r.cells {
                        for k in &c.children {
                            if let TableCellContent::Paragraph(p) = k {
                                s += &p.raw_text();
                            }
                        }
                    }
                }
                format!("table {s}")
            }
            StructuredDataTagChild::BookmarkStart(b) => format!("bookmark {} {}", b.id, b.name),
            StructuredDataTagChild::BookmarkEnd(b) => format!("bookmark end {}", b.id),
            StructuredDataTagChild::CommentStart(c) => format!("comment {}", c.id),
            StructuredDataTagChild::CommentEnd(c) => format!("comment end {}", serde_json::to_value(c).ok().and_then(|j| j["id"].as_u64()).unwrap_or(u64::MAX)),
            StructuredDataTagChild::StructuredDataTag(t) => read_back(t),
        })
        .collect();
    let p = &t.property;
    let j = serde_json::to_value(&p.run_property).unwrap_or_default();
    list(
        p.alias.as_deref(),
        p.data_binding.as_ref().map(|b| [b.xpath.as_deref(), b.prefix_mappings.as_deref(), b.store_item_id.as_deref()]),
        j["bold"].as_bool() == Some(true),
        j["color"].as_str(),
        kids,
    )
}

// ---------------------------------------------------------------------------------------- places

const PLACES: &[&str] = &["body", "cell", "header", "footer", "paragraph", "link"];

fn host(d: Docx, place: &str, c: &Ctl) -> Docx {
    let p = || Paragraph::new().add_run(text("p"));
    match place {
        "body" => d.add_structured_data_tag(tag(c)),
        "cell" => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_structured_data_tag(tag(c)).add_paragraph(p())])])),
        "header" => {
            let mut h = Header::new();
            h.children.push(HeaderChild::StructuredDataTag(Box::new(tag(c))));
            d.header(h)
        }
        "footer" => {
            let mut f = Footer::new();
            f.children.push(FooterChild::StructuredDataTag(Box::new(tag(c))));
            d.footer(f)
        }
        "paragraph" => d.add_paragraph(Paragraph::new().add_run(text("p")).add_structured_data_tag(tag(c)).add_run(text("q"))),
        _ => d.add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new("m", HyperlinkType::Anchor).add_structured_data_tag(tag(c)))),
    }
}

/// The outermost controls of an element, in document order.
fn outer<'a>(e: &'a El, v: &mut Vec<&'a El>) {
    for k in e.els() {
        if k.is("w:sdt") {
            v.push(k);
        } else {
            outer(k, v);
        }
    }
}

fn in_cells(t: &Table, v: &mut Vec<String>) {
    for TableChild::TableRow(r) in &t.rows {
        for TableRowChild::TableCell(c) in &r.cells {
            for k in &c.children {
                match k {
                    TableCellContent::StructuredDataTag(t) => v.push(read_back(t)),
                    TableCellContent::Table(t) => in_cells(t, v),
                    _ => {}
                }
            }
        }
    }
}

fn controls(d: &Docx) -> Vec<String> {
    let mut v = vec![];
    for k in &d.document.children {
        match k {
            DocumentChild::StructuredDataTag(t) => v.push(read_back(t)),
            DocumentChild::Table(t) => in_cells(t, &mut v),
            _ => {}
        }
    }
    let s = &d.document.section_property;
    for (_, h) in s.get_headers() {
        for k in &h.children {
            if let HeaderChild::StructuredDataTag(t) = k {
                v.push(read_back(t));
            }
        }
    }
    for (_, f) in s.get_footers() {
        for k in &f.children {
            if let FooterChild::StructuredDataTag(t) = k {
                v.push(read_back(t));
            }
        }
    }
    v
}

fn check(l: &mut Leaf, want: &[(&str, Ctl)]) {
    let mut d = Docx::new();
    for (place, c) in want {
        d = host(d, place, c);
    }
    let bytes = match guarded(|| pack_stream(d)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) | Err(e) => return l.fail("refused", e),
    };
    let listed = |bytes: &[u8]| -> Result<Vec<String>, String> {
        let pkg = Package::open(bytes)?;
        let (part, e) = pkg.document().ok_or("no document")?;
        let mut v = vec![];
        outer(e, &mut v);
        for kind in ["header", "footer"] {
            let t = pkg.by_kind(&part, kind);
            if let Some(e) = t.as_ref().and_then(|t| pkg.xml(t)) {
                outer(e, &mut v);
            }
        }
        Ok(v.into_iter().map(written).collect())
    };
    let order = |keep: &dyn Fn(&str) -> bool| -> Vec<String> {
        let aside = |p: &str| p == "header" || p == "footer";
        let mut v: Vec<String> = want.iter().filter(|w| keep(w.0) && !aside(w.0)).map(|w| wanted(&w.1)).collect();
        for k in ["header", "footer"] {
            v.extend(want.iter().filter(|w| keep(w.0) && w.0 == k).map(|w| wanted(&w.1)));
        }
        v
    };
    let differ = |what: &str, want: &[String], got: &[String], l: &mut Leaf| {
        l.evals += 1;
        if want != got {
            let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            l.fail(what, format!("expected {:?}, found {:?}", want.get(k), got.get(k)));
            return true;
        }
        false
    };
    l.transitions += 1;
    match listed(&bytes) {
        Ok(got) => {
            l.states.push(hash64(format!("{got:?}").as_bytes()));
            if differ("written", &order(&|_| true), &got, l) {
                return;
            }
        }
        Err(e) => return l.fail("unreadable", e),
    }
    l.validated += 1;
    l.transitions += 1;
    let d = match guarded(|| read_docx(&bytes)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return l.fail("not read", e.to_string()),
        Err(p) => return l.fail("panic", p),
    };
    let block = |p: &str| p != "paragraph" && p != "link";
    if differ("read back", &order(&block), &controls(&d), l) {
        return;
    }
    l.transitions += 1;
    match guarded(|| pack_build(d)) {
        Ok(Ok(b)) => match listed(&b) {
            Ok(got) => {
                differ("written again", &order(&block), &got, l);
            }
            Err(e) => l.fail("unreadable", e),
        },
        Ok(Err(e)) | Err(e) => l.fail("refused again", e),
    }
}

fn settings(ch: &mut Chooser) -> Ctl {
    let alias = ch.pick(&[None, Some("n"), Some("a & <b> \"c\""), Some(" \u{e9} ")]).map(|s| s.to_string());
    let bind = if ch.flag() {
        let x = ch.pick(&[None, Some("/r[1]/a"), Some("//x[@k='1' and b<2]")]).map(|s| s.to_string());
        let p = ch.pick(&[None, Some("xmlns:a='urn:a'")]).map(|s| s.to_string());
        let s = ch.pick(&[None, Some("{06AC5857-5C65-A94A-BCEC-37356A209BC3}")]).map(|s| s.to_string());
        Some([x, p, s])
    } else {
        None
    };
    Ctl { alias, bind, bold: ch.flag(), color: ch.flag(), kids: vec![] }
}

fn kid(ch: &mut Chooser, inline: bool, n: usize, deep: usize) -> Kid {
    let k = ch.choose(if inline { if deep > 0 { 2 } else { 1 } } else { 5 + usize::from(deep > 0) });
    match (inline, k) {
        (true, 0) | (false, 1) => Kid::Run(format!("r{n}")),
        (false, 0) => Kid::Par(format!("p{n}")),
        (false, 2) => Kid::Tab(format!("t{n}")),
        (false, 3) => Kid::Bs(n),
        (false, 4) => Kid::Cs(n),
        _ => {
            let mut c = Ctl { alias: ch.flag().then(|| format!("k{n}")), ..Default::default() };
            if ch.flag() {
                c.bind = Some([Some(format!("/x{n}")), None, None]);
            }
            if ch.flag() {
                c.kids.push(kid(ch, inline, n * 10, deep - 1));
            }
            Kid::Nest(c)
        }
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    out.push(Phase::new("settings", "every combination of name, data binding and formatting in every place", |ch, l| {
        let place = *ch.pick(PLACES);
        let mut c = settings(ch);
        c.kids = vec![if place == "paragraph" || place == "link" { Kid::Run("r".into()) } else { Kid::Par("p".into()) }];
        l.label = format!("{place}: {c:?}");
        check(l, &[(place, c)]);
    }));
    let most = 2;
    out.push(Phase::new("contents", "every list of children up to the bound, controls in controls included, in every place", move |ch, l| {
        let place = *ch.pick(PLACES);
        let inline = place == "paragraph" || place == "link";
        let mut c = Ctl { alias: Some("outer".into()), ..Default::default() };
        for i in 0..ch.choose(most + 1) {
            c.kids.push(kid(ch, inline, i + 1, if deep || place == "body" { 2 } else { 1 }));
        }
        // every bookmark and comment range that was opened is closed at the end
        let mut ends = vec![];
        for k in &c.kids {
            match k {
                Kid::Bs(n) => ends.push(Kid::Be(*n)),
                Kid::Cs(n) => ends.push(Kid::Ce(*n)),
                _ => {}
            }
        }
        c.kids.extend(ends);
        l.label = format!("{place}: {c:?}");
        check(l, &[(place, c)]);
    }));
    out.push(Phase::new("several", "every two controls with small settings in every two places", |ch, l| {
        let mut v = vec![];
        for i in 0..2 {
            let place = *ch.pick(PLACES);
            let inline = place == "paragraph" || place == "link";
            let mut c = Ctl { alias: ch.flag().then(|| format!("n{i}")), bold: ch.flag(), ..Default::default() };
            if ch.flag() {
                c.bind = Some([Some(format!("/x{i}")), None, Some(format!("s{i}"))]);
            }
            if ch.flag() {
                let nested = Ctl { alias: ch.flag().then(|| format!("i{i}")), kids: vec![if inline { Kid::Run("x".into()) } else { Kid::Par("x".into()) }], ..Default::default() };
                c.kids.push(Kid::Nest(nested));
            }
            c.kids.push(if inline { Kid::Run("y".into()) } else { Kid::Par("y".into()) });
            v.push((place, c));
        }
        if v[0].0 == v[1].0 && (v[0].0 == "header" || v[0].0 == "footer") {
            l.skip = true;
            return;
        }
        l.label = format!("{v:?}");
        check(l, &v);
    }));
    out
}
