//! C12: a generated table of contents lists exactly the headings it should.

use super::Meta;
use crate::explore::*;
use crate::corpus::{place, PARA_HOSTS};
use crate::gen::{pack_build, pack_stream, rtext, Pa, DATE, I, K};
use crate::opc::Package;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a heading is a paragraph directly in the body or in a section whose style is named \"heading N\", or whose style id the caller listed with a level".into(),
            "whether a heading without text or one inside a table or content control gets an entry is left open; an entry that is made must be right".into(),
            "blanks, tabs and breaks of a heading may be rendered as any blanks".into(),
            "a style list without a heading range lists nothing, as the library documents".into(),
            "a heading that is also in the style list may carry either level, but is listed once".into(),
        ],
    }
}

// -------------------------------------------------------------------------------------- items

#[derive(Clone, Copy, Debug, PartialEq)]
enum It {
    H(usize),
    /// heading whose style name is written in capitals
    Caps,
    Custom,
    /// heading style that is also in the style list
    Both,
    Plain,
    Undefined,
    Empty,
    Inserted,
    InLink,
    Deleted,
    Moved,
    Runs,
    Marked,
    Breaks,
    Table,
    Sdt,
    Section,
    LinkInInsert,
}
use It::*;
const ITEMS: &[It] = &[
    H(1), H(2), H(3), H(9), Caps, Custom, Both, Plain, Undefined, Empty, Inserted, InLink, Deleted, Moved, Runs, Marked, Breaks, Table, Sdt, Section,
    LinkInInsert,
];

/// A heading the table has to list: level when listed as heading, in the style list, text.
#[derive(Clone, Debug)]
struct Head {
    heading: Option<usize>,
    id: String,
    text: String,
    open: bool,
}

fn r(s: &str) -> Run {
    Run::new().add_text(s)
}

fn styled(n: usize) -> Docx {
    let mut d = Docx::new();
    for i in 1..=9 {
        d = d.add_style(Style::new(format!("H{i}"), StyleType::Paragraph).name(format!("heading {i}")));
    }
    let _ = n;
    d.add_style(Style::new("Big", StyleType::Paragraph).name("HEADING 2"))
        .add_style(Style::new("Custom", StyleType::Paragraph).name("Custom"))
        .add_style(Style::new("Body", StyleType::Paragraph).name("Body text"))
}

fn head(id: &str, text: &str) -> Head {
    let heading = match id {
        "Big" => Some(2),
        _ => id.strip_prefix('H').and_then(|n| n.parse().ok()),
    };
    Head { heading, id: id.into(), text: text.into(), open: false }
}

fn put(d: Docx, it: It, k: usize, hs: &mut Vec<Head>) -> Docx {
    let t = format!("t{k}");
    let mut h = |id: &str, text: &str| {
        hs.push(head(id, text));
        Paragraph::new().style(id)
    };
    match it {
        H(n) => {
            let p = h(&format!("H{n}"), &t);
            d.add_paragraph(p.add_run(r(&t)))
        }
        Caps => {
            let p = h("Big", &t);
            d.add_paragraph(p.add_run(r(&t)))
        }
        Custom => {
            let p = h("Custom", &t);
            d.add_paragraph(p.add_run(r(&t)))
        }
        Both => {
            let p = h("H3", &t);
            d.add_paragraph(p.add_run(r(&t)))
        }
        Plain => d.add_paragraph(Paragraph::new().style("Body").add_run(r(&t))),
        Undefined => d.add_paragraph(Paragraph::new().style("heading 1").add_run(r(&t))),
        Empty => {
            hs.push(Head { open: true, ..head("H1", "") });
            d.add_paragraph(Paragraph::new().style("H1"))
        }
        Inserted => {
            let p = h("H1", &format!("{t}ab"));
            d.add_paragraph(p.add_run(r(&t)).add_insert(Insert::new(r("a")).add_run(r("b"))))
        }
        InLink => {
            let p = h("H2", &format!("{t}link"));
            d.add_paragraph(p.add_run(r(&t)).add_hyperlink(Hyperlink::new("x", HyperlinkType::Anchor).add_run(r("link"))))
        }
        Deleted => {
            let p = h("H2", &t);
            d.add_paragraph(
                p.add_delete(Delete::new().add_run(Run::new().add_delete_text("gone")))
                    .add_run(r(&t))
                    .add_insert(Insert::new_with_empty().add_delete(Delete::new().add_run(Run::new().add_delete_text("too")))),
            )
        }
        Moved => {
            let p = h("H1", &format!("{t}to"));
            d.add_paragraph(p.add_move_from(MoveFrom::new().add_run(r("from"))).add_run(r(&t)).add_move_to(MoveTo::new(r("to"))))
        }
        Runs => {
            let p = h("H1", &format!("{t}b c"));
            d.add_paragraph(p.add_run(r(&t).add_text("b")).add_run(Run::new().bold().add_text(" c")))
        }
        Marked => {
            let p = h("H2", &t);
            d.add_paragraph(p.add_bookmark_start(900_000_000 + k, format!("own{k}")).add_run(r(&t)).add_bookmark_end(900_000_000 + k))
        }
        Breaks => {
            let p = h("H1", &format!("{t}abc"));
            d.add_paragraph(p.add_run(r(&t).add_tab().add_text("a").add_break(BreakType::TextWrapping).add_text("b")).add_run(r("c")))
        }
        Table => {
            hs.push(Head { open: true, ..head("H1", &t) });
            d.add_table(docx_rs::Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().style("H1").add_run(r(&t)))])]))
        }
        Sdt => {
            hs.push(Head { open: true, ..head("H2", &t) });
            d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(Paragraph::new().style("H2").add_run(r(&t))))
        }
        Section => {
            hs.push(head("H1", &t));
            hs.push(head("Custom", &format!("{t}c")));
            d.add_section(
                docx_rs::Section::new()
                    .add_paragraph(Paragraph::new().style("H1").add_run(r(&t)))
                    .add_paragraph(Paragraph::new().add_run(r("plain")))
                    .add_paragraph(Paragraph::new().style("Custom").add_run(r(&format!("{t}c")))),
            )
        }
        LinkInInsert => {
            let p = h("H3", &format!("{t}xy"));
            let i = Insert::new(r("x"));
            d.add_paragraph(p.add_run(r(&t)).add_insert(i).add_hyperlink(
                Hyperlink::new("https://e.com", HyperlinkType::External).add_run(r("y")).add_delete(Delete::new().add_run(Run::new().add_delete_text("z"))),
            ))
        }
    }
}

// ------------------------------------------------------------------------------- configuration

#[derive(Clone, Debug)]
struct Cfg {
    range: Option<(usize, usize)>,
    link: bool,
    map: Vec<(&'static str, usize)>,
}
const RANGES: &[Option<(usize, usize)>] = &[Some((1, 3)), None, Some((2, 2)), Some((1, 1)), Some((1, 9)), Some((3, 9))];
const MAPS: &[&[(&str, usize)]] = &[&[], &[("Custom", 2)], &[("Custom", 1), ("H3", 2)]];

impl Cfg {
    fn toc(&self) -> TableOfContents {
        let mut t = TableOfContents::new();
        if let Some((a, b)) = self.range {
            t = t.heading_styles_range(a, b);
        }
        if self.link {
            t = t.hyperlink();
        }
        for (s, n) in &self.map {
            t = t.add_style_with_level(StyleWithLevel::new(*s, *n));
        }
        t
    }
    fn code(&self) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        if let Some((a, b)) = self.range {
            m.insert("o".into(), format!("{a}-{b}"));
        }
        if self.link {
            m.insert("h".into(), String::new());
        }
        if !self.map.is_empty() {
            m.insert("t".into(), self.map.iter().map(|(s, n)| format!("{s},{n}")).collect::<Vec<_>>().join(","));
        }
        m
    }
    /// Levels an entry for this heading may have; empty if it must not be listed.
    fn levels(&self, h: &Head) -> Vec<usize> {
        if self.range.is_none() && !self.map.is_empty() {
            return vec![];
        }
        let (a, b) = self.range.unwrap_or((1, 9));
        let ok = |n: &usize| a <= *n && *n <= b;
        let mut v: Vec<usize> = h.heading.iter().copied().filter(ok).collect();
        v.extend(self.map.iter().filter(|(s, _)| *s == h.id).map(|(_, n)| *n).filter(ok));
        v
    }
}

// --------------------------------------------------------------------------------- observation

/// Switches of a field code: letter to argument.
fn switches(code: &str) -> Result<(String, BTreeMap<String, String>), String> {
    let mut toks: Vec<(bool, String)> = vec![];
    let mut cur = String::new();
    let mut quoted = false;
    let mut was = false;
    for c in code.chars() {
        match c {
            '"' => {
                quoted = !quoted;
                was = true;
            }
            ' ' if !quoted => {
                if !cur.is_empty() || was {
                    toks.push((was, std::mem::take(&mut cur)));
                    was = false;
                }
            }
            c => cur.push(c),
        }
    }
    if quoted {
        return Err("unbalanced quotes".into());
    }
    if !cur.is_empty() || was {
        toks.push((was, cur));
    }
    let mut m = BTreeMap::new();
    let mut it = toks.into_iter();
    let name = it.next().map(|t| t.1).unwrap_or_default();
    let mut last: Option<String> = None;
    for (q, t) in it {
        if !q && t.starts_with('\\') {
            let k = t[1..].to_string();
            if m.insert(k.clone(), String::new()).is_some() {
                return Err(format!("switch {k} twice"));
            }
            last = Some(k);
        } else if let Some(k) = last.take() {
            m.insert(k, t);
        } else {
            return Err(format!("stray argument {t:?}"));
        }
    }
    Ok((name, m))
}

#[derive(Debug, Clone, PartialEq)]
struct Entry {
    text: String,
    level: String,
    page: String,
    refs: Vec<String>,
    anchors: Vec<String>,
}

/// The tables of contents of a document: code and entries.
fn tables(doc: &El) -> Vec<(String, Vec<Entry>)> {
    let mut out: Vec<(String, Vec<Entry>)> = vec![];
    for p in doc.all("w:p") {
        let codes: Vec<String> =
            p.all("w:instrText").into_iter().chain(p.all("w:delInstrText")).map(|e| e.text().trim().to_string()).collect();
        if let Some(c) = codes.iter().find(|c| c.starts_with("TOC")) {
            out.push((c.clone(), vec![]));
        }
        let style = p.path(&["w:pPr", "w:pStyle"]).and_then(|e| e.attr("w:val")).unwrap_or("").to_string();
        let refs: Vec<String> = codes.iter().filter(|c| c.starts_with("PAGEREF")).cloned().collect();
        if refs.is_empty() {
            continue;
        }
        let (mut text, mut page, mut in_page) = (String::new(), String::new(), false);
        p.walk(&mut |e| {
            if e.is("w:t") {
                if in_page {
                    page += &e.text();
                } else {
                    text += &e.text();
                }
            }
            in_page |= e.is("w:instrText") && e.text().trim().starts_with("PAGEREF");
        });
        let anchors = p.all("w:hyperlink").iter().map(|h| h.attr("w:anchor").unwrap_or("?").to_string()).collect();
        if let Some(t) = out.last_mut() {
            t.1.push(Entry { text, level: style, page, refs, anchors });
        }
    }
    out
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// begin, separate and end marks nest in every part.
fn balanced(pkg: &Package) -> Result<(), String> {
    for n in &pkg.names {
        let Some(x) = pkg.xml(n) else { continue };
        let mut stack: Vec<bool> = vec![];
        for e in x.all("w:fldChar") {
            match e.attr("w:fldCharType").unwrap_or("") {
                "begin" => stack.push(false),
                "separate" => match stack.last_mut() {
                    Some(s) if !*s => *s = true,
                    _ => return Err(format!("{n}: separate mark out of place")),
                },
                "end" => {
                    if stack.pop().is_none() {
                        return Err(format!("{n}: end mark without begin"));
                    }
                }
                o => return Err(format!("{n}: mark {o:?}")),
            }
        }
        if !stack.is_empty() {
            return Err(format!("{n}: {} field(s) never end", stack.len()));
        }
    }
    Ok(())
}

/// Text between the start and the end of a named bookmark.
fn marked(doc: &El, name: &str) -> Result<String, String> {
    let starts: Vec<&El> = doc.all("w:bookmarkStart").into_iter().filter(|b| b.attr("w:name") == Some(name)).collect();
    if starts.len() != 1 {
        return Err(format!("{} bookmarks named {name}", starts.len()));
    }
    let id = starts[0].attr("w:id").unwrap_or("?").to_string();
    let (mut on, mut ends, mut text) = (false, 0, String::new());
    doc.walk(&mut |e| {
        if e.is("w:bookmarkStart") && e.attr("w:name") == Some(name) {
            on = true;
        } else if e.is("w:bookmarkEnd") && e.attr("w:id") == Some(&id) {
            ends += 1;
            on = false;
        } else if on && e.is("w:t") {
            text += &e.text();
        }
    });
    if ends != 1 {
        return Err(format!("bookmark {name} ends {ends} times"));
    }
    Ok(text)
}

fn open(l: &mut Leaf, f: impl FnOnce() -> Result<Vec<u8>, String>) -> Option<Package> {
    l.transitions += 1;
    match guarded(f) {
        Ok(Ok(b)) => match Package::open(&b) {
            Ok(p) => Some(p),
            Err(e) => {
                l.fail("package unreadable", &e);
                None
            }
        },
        Ok(Err(e)) => {
            l.fail("cannot be written", &e);
            None
        }
        Err(e) => {
            l.fail(format!("panic: {}", panic_class(&e)), &e);
            None
        }
    }
}

fn check_entry(l: &mut Leaf, doc: &El, pkg: &Package, cfg: &Cfg, e: &Entry, heading: Option<&str>) -> bool {
    let key = match switches(&e.refs[0]) {
        Ok((n, m)) if n == "PAGEREF" => m,
        _ => BTreeMap::new(),
    };
    let _ = key;
    let target = e.refs[0].split_whitespace().nth(1).unwrap_or("").to_string();
    if e.refs.len() != 1 {
        l.fail("entry with several page references", format!("{e:?}"));
        return false;
    }
    match (cfg.link, e.anchors.as_slice()) {
        (true, [a]) if *a == target => {}
        (false, []) => {}
        _ => {
            l.fail("entry linked otherwise than asked", format!("{e:?}"));
            return false;
        }
    }
    if let Some(h) = heading {
        match marked(doc, &target) {
            Ok(t) if squash(&t) == squash(h) || squash(&t).contains(&squash(h)) => {}
            Ok(t) => {
                l.fail("bookmark does not enclose the heading", format!("{h:?} but the bookmark holds {t:?}"));
                return false;
            }
            Err(x) => {
                l.fail("bookmark of an entry", x);
                return false;
            }
        }
    }
    let known = pkg.styles().map(|s| s.children("w:style").iter().any(|s| s.attr("w:styleId") == Some(&e.level))).unwrap_or(false);
    if !known {
        l.fail("style of an entry is not defined", &e.level);
        return false;
    }
    true
}

/// Compares one table with the headings of the body.
fn check_table(l: &mut Leaf, doc: &El, pkg: &Package, cfg: &Cfg, heads: &[Head], got: &(String, Vec<Entry>)) -> bool {
    match switches(&got.0) {
        Ok((n, m)) if n == "TOC" && m == cfg.code() => {}
        x => {
            l.fail("field code", format!("{:?} for {:?}", x, cfg.code()));
            return false;
        }
    }
    let mut it = got.1.iter().peekable();
    for h in heads {
        let lv = cfg.levels(h);
        l.evals += 1;
        let hit = it.peek().is_some_and(|e| squash(&e.text) == squash(&h.text) && lv.iter().any(|n| e.level == format!("ToC{n}")));
        if hit {
            let e = it.next().unwrap();
            if lv.is_empty() {
                l.fail("a paragraph that is no heading is listed", format!("{e:?}"));
                return false;
            }
            if !check_entry(l, doc, pkg, cfg, e, Some(&h.text)) {
                return false;
            }
        } else if !lv.is_empty() && !h.open {
            let next = it.peek();
            let key = match next {
                Some(e) if squash(&e.text) == squash(&h.text) => "listed with another level",
                _ => "heading not listed",
            };
            l.fail(key, format!("{h:?} wants {lv:?}; next entry {next:?}; all {:?}", got.1));
            return false;
        }
    }
    if let Some(e) = it.next() {
        l.fail("entry too many", format!("{e:?} of {:?}", got.1));
        return false;
    }
    true
}

/// Switch, value, "bare" when the switch is written without its value, setter.
fn options() -> Vec<(&'static str, &'static str, &'static str, fn(InstrToC, &str) -> InstrToC)> {
    vec![
        ("a", "Figure", "", |i, v| i.caption_label(v)),
        ("a", "My Figure", "", |i, v| i.caption_label(v)),
        ("b", "mark", "", |i, v| i.entry_bookmark_name(v)),
        ("b", "a b", "", |i, v| i.entry_bookmark_name(v)),
        ("c", "Table", "", |i, v| i.caption_label_including_numbers(v)),
        ("c", "A & B", "", |i, v| i.caption_label_including_numbers(v)),
        ("d", "-", "", |i, v| i.sequence_and_page_numbers_separator(v)),
        ("d", " : ", "", |i, v| i.sequence_and_page_numbers_separator(v)),
        ("f", "", "", |i, _| i.tc_field_identifier(None)),
        ("f", "x", "", |i, v| i.tc_field_identifier(Some(v.into()))),
        ("f", "x y", "", |i, v| i.tc_field_identifier(Some(v.into()))),
        ("l", "1-3", "", |i, _| i.tc_field_level_range(1, 3)),
        ("l", "2-2", "", |i, _| i.tc_field_level_range(2, 2)),
        ("n", "2-4", "", |i, _| i.omit_page_numbers_level_range(2, 4)),
        ("n", "9-9", "", |i, _| i.omit_page_numbers_level_range(9, 9)),
        ("n", "1-9", "bare", |i, _| i.omit_page_numbers_level_range(1, 9)),
        ("o", "1-9", "", |i, _| i.heading_styles_range(1, 9)),
        ("o", "1-1", "", |i, _| i.heading_styles_range(1, 1)),
        ("o", "1-9", "bare", |i, _| i.heading_styles_range(1, 9)),
        ("p", ".", "", |i, v| i.entry_and_page_number_separator(v)),
        ("p", " ", "", |i, v| i.entry_and_page_number_separator(v)),
        ("s", "chap", "", |i, v| i.seq_field_identifier_for_prefix(v)),
        ("s", "a b", "", |i, v| i.seq_field_identifier_for_prefix(v)),
        ("t", "S,2", "", |i, _| i.add_style_with_level(StyleWithLevel::new("S", 2))),
        ("t", "S,2,My Style,3", "", |i, _| i.add_style_with_level(StyleWithLevel::new("S", 2)).add_style_with_level(StyleWithLevel::new("My Style", 3))),
        ("h", "", "", |i, _| i.hyperlink()),
        ("u", "", "", |i, _| i.use_applied_paragraph_line_level()),
        ("w", "", "", |i, _| i.preserve_tab()),
        ("x", "", "", |i, _| i.preserve_new_line()),
        ("z", "", "", |i, _| i.hide_tab_and_page_numbers_in_webview()),
    ]
}

/// Every option of the field code with every value.
pub fn groups() -> Vec<super::Group> {
    let mut cases = vec![super::Case {
        name: String::new(),
        want: String::new(),
        make: Box::new(|| Docx::new().add_table_of_contents(TableOfContents::new())),
    }];
    for (s, v, _, f) in options().into_iter().filter(|o| o.2.is_empty()) {
        cases.push(super::Case {
            name: format!("\\{s} {v}"),
            want: format!("{s} {v}"),
            make: Box::new(move || {
                let mut t = TableOfContents::new();
                t.instr = f(t.instr, v);
                Docx::new().add_table_of_contents(t)
            }),
        });
    }
    vec![super::Group { name: "table of contents".into(), cases }]
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    out.push(Phase::new(
        "bodies",
        "all sequences of up to two body items of 21 kinds with every heading range, style list, link option and position of the table; sequences of three with three ranges and two positions",
        move |ch, l| {
            let n = 1 + ch.choose(3);
            let full = n < 3 || deep;
            let cfg = if full {
                Cfg { range: *ch.pick(RANGES), link: ch.flag(), map: ch.pick(MAPS).to_vec() }
            } else {
                let range = RANGES[ch.choose(3)];
                Cfg { range, link: true, map: if range.is_some() { MAPS[2].to_vec() } else { vec![] } }
            };
            let pos = ch.choose(if full { n + 1 } else { 2 }) * if full { 1 } else { n };
            let items: Vec<It> = (0..n).map(|_| *ch.pick(ITEMS)).collect();
            let build = ch.choices().iter().map(|c| *c as usize).sum::<usize>() % 2 == 0;
            let mut heads = vec![];
            let mut make = || {
                heads.clear();
                let mut d = styled(n);
                for k in 0..=n {
                    if k == pos {
                        d = d.add_table_of_contents(cfg.toc().auto());
                    }
                    if k < n {
                        d = put(d, items[k], k, &mut heads);
                    }
                }
                d
            };
            l.label = format!("{items:?} table at {pos} {cfg:?} {}", if build { "built" } else { "streamed" });
            l.states.push(hash64(l.label.as_bytes()));
            let d = make();
            let Some(pkg) = open(l, || if build { pack_build(d) } else { pack_stream(d) }) else { return };
            if let Err(e) = balanced(&pkg) {
                return l.fail("field marks unbalanced", &e);
            }
            let Some((_, doc)) = pkg.document() else { return l.fail("no document part", "") };
            let ts = tables(doc);
            if ts.len() != 1 {
                return l.fail("number of tables of contents", format!("{}", ts.len()));
            }
            if check_table(l, doc, &pkg, &cfg, &heads, &ts[0]) {
                l.validated += 1;
            }
        },
    ));
    out.push(Phase::new(
        "several tables",
        "two automatic tables with all pairs of ranges, the second possibly given ready-made entries, around all pairs of six body items",
        move |ch, l| {
            let pool = [H(1), H(2), Both, Section, Runs, Plain];
            let a = Cfg { range: *ch.pick(RANGES), link: ch.flag(), map: vec![] };
            let b = Cfg { range: *ch.pick(RANGES), link: ch.flag(), map: vec![] };
            let (i, j) = (*ch.pick(&pool), *ch.pick(&pool));
            let kind = ch.choose(2);
            let mut heads = vec![];
            let mut d = styled(2).add_table_of_contents(a.toc().auto());
            d = put(d, i, 0, &mut heads);
            match kind {
                0 => d = d.add_table_of_contents(b.toc().auto()),
                _ => {
                    let mut t = TableOfContents { page_ref_placeholder: Some("9".into()), ..b.toc() };
                    for k in 0..2 {
                        let i = TableOfContentsItem::new().text(format!("own {k}")).toc_key(format!("key{k}")).level(k + 1);
                        t = t.add_item(if k == 0 { i.page_ref("7") } else { i });
                    }
                    d = d.add_table_of_contents(t)
                }
            }
            d = put(d, j, 1, &mut heads);
            l.label = format!("{a:?} {i:?} / {} {b:?} / {j:?}", ["auto", "given"][kind]);
            l.states.push(hash64(l.label.as_bytes()));
            let Some(pkg) = open(l, || pack_build(d)) else { return };
            if let Err(e) = balanced(&pkg) {
                return l.fail("field marks unbalanced", &e);
            }
            let Some((_, doc)) = pkg.document() else { return l.fail("no document part", "") };
            let ts = tables(doc);
            if ts.len() != 2 {
                return l.fail("number of tables of contents", format!("{}", ts.len()));
            }
            if !check_table(l, doc, &pkg, &a, &heads, &ts[0]) {
                return;
            }
            if kind == 1 {
                let want: Vec<(String, String, String)> = (0..2).map(|k| (format!("own {k}"), format!("ToC{}", k + 1), ["7", "9"][k].into())).collect();
                let got: Vec<(String, String, String)> = ts[1].1.iter().map(|e| (e.text.clone(), e.level.clone(), e.page.clone())).collect();
                if want != got {
                    return l.fail("given entries changed", format!("{got:?}"));
                }
                for (k, e) in ts[1].1.iter().enumerate() {
                    if e.refs[0].split_whitespace().nth(1) != Some(format!("key{k}").as_str()) || !check_entry(l, doc, &pkg, &b, e, None) {
                        return l.fail("given entries changed", format!("{e:?}"));
                    }
                }
            } else if !check_table(l, doc, &pkg, &b, &heads, &ts[1]) {
                return;
            }
            l.validated += 1;
        },
    ));
    out.push(Phase::new(
        "surroundings",
        "all lists of up to two contents before and after the table, paragraphs or tables, with and without entries, wrapper, alias, deletion, own paragraph formatting and refresh flag",
        move |ch, l| {
            let list = |ch: &mut Chooser| -> Vec<bool> {
                let n = ch.choose(3);
                (0..n).map(|_| ch.flag()).collect()
            };
            let before = list(ch);
            let after = list(ch);
            let entries = ch.choose(3);
            let (sdt, alias, del, fmt, dirty) = (ch.flag(), ch.flag(), ch.flag(), ch.flag(), ch.flag());
            let mut t = TableOfContents::new().heading_styles_range(1, 3);
            let tbl = |s: String| docx_rs::Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new().add_run(r(&s)))])]);
            for (i, p) in before.iter().enumerate() {
                let s = format!("before{i}");
                t = if *p { t.add_before_paragraph(Paragraph::new().add_run(r(&s))) } else { t.add_before_table(tbl(s)) };
            }
            for (i, p) in after.iter().enumerate() {
                let s = format!("after{i}");
                t = if *p { t.add_after_paragraph(Paragraph::new().add_run(r(&s))) } else { t.add_after_table(tbl(s)) };
            }
            if sdt {
                t = t.without_sdt();
            }
            if alias {
                t = t.alias("al");
            }
            if del {
                t = t.delete("who", DATE);
            }
            if fmt {
                t = t.paragraph_property(ParagraphProperty::new().align(AlignmentType::Center));
            }
            if dirty {
                t = t.dirty();
            }
            let mut want: Vec<String> = (0..before.len()).map(|i| format!("before{i}")).collect();
            let mut d = styled(1);
            match entries {
                0 => {}
                1 => {
                    t = t.add_item(TableOfContentsItem::new().text("entry").toc_key("k").level(1));
                    want.push("entry".into());
                }
                _ => {
                    t = t.auto();
                    want.push("entry".into());
                }
            }
            want.extend((0..after.len()).map(|i| format!("after{i}")));
            d = d.add_table_of_contents(t);
            if entries == 2 {
                d = d.add_paragraph(Paragraph::new().style("H1").add_run(r("entry")));
            }
            l.label = format!("before {before:?} after {after:?} entries {entries} bare={sdt} alias={alias} deleted={del} formatted={fmt} dirty={dirty}");
            l.states.push(hash64(l.label.as_bytes()));
            let Some(pkg) = open(l, || if alias { pack_build(d) } else { pack_stream(d) }) else { return };
            if let Err(e) = balanced(&pkg) {
                return l.fail("field marks unbalanced", &e);
            }
            let Some((_, doc)) = pkg.document() else { return l.fail("no document part", "") };
            let mut texts = vec![];
            let mut page = false;
            doc.walk(&mut |e| {
                if e.is("w:instrText") {
                    page = e.text().contains("PAGEREF");
                } else if e.is("w:fldChar") && e.attr("w:fldCharType") == Some("end") {
                    page = false;
                } else if e.is("w:t") && !page && !e.text().is_empty() {
                    texts.push(e.text());
                }
            });
            if entries == 2 {
                want.push("entry".into());
            }
            if texts != want {
                return l.fail("contents around the table changed", format!("{texts:?} instead of {want:?}"));
            }
            l.evals += 1;
            if tables(doc).len() != 1 {
                return l.fail("number of tables of contents", "");
            }
            let first = doc.all("w:fldChar").first().and_then(|e| e.attr("w:dirty")).unwrap_or("false").to_string();
            if entries == 1 && ["true", "1", "on"].contains(&first.as_str()) != dirty {
                return l.fail("refresh flag", first);
            }
            l.validated += 1;
        },
    ));
    out.push(Phase::new(
        "fields elsewhere",
        "page number, page count and caller-made fields in each of 30 places, with and without tables of contents in the document",
        move |ch, l| {
            let host = *ch.pick(PARA_HOSTS);
            let kind = ch.choose(5);
            let toc = ch.choose(3);
            use FieldCharType as F;
            let kids = match kind {
                0 => vec![I::PageNum],
                1 => vec![I::NumPages],
                2 => vec![I::PageNum, rtext("/"), I::NumPages],
                3 => vec![I::R(vec![K::Fld(F::Begin), K::Tc("x".into()), K::Fld(F::Separate), K::T("y".into()), K::Fld(F::End)])],
                _ => vec![I::R(vec![K::Fld(F::Begin), K::Page, K::Fld(F::End)])],
            };
            l.label = format!("{host} kind {kind} tables {toc}");
            l.states.push(hash64(l.label.as_bytes()));
            let doc = place(host, Pa { id: None, num: None, style: None, kids }, 1);
            let mut d = doc.to_docx();
            if toc > 0 {
                d = d.add_style(Style::new("H1", StyleType::Paragraph).name("heading 1")).add_table_of_contents(TableOfContents::new().auto());
            }
            if toc > 1 {
                d = d.add_paragraph(Paragraph::new().style("H1").add_run(r("h")).add_page_num(PageNum::new())).add_table_of_contents(TableOfContents::new().hyperlink().auto());
            }
            let Some(pkg) = open(l, || pack_build(d)) else { return };
            l.evals += 1;
            if let Err(e) = balanced(&pkg) {
                return l.fail("field marks unbalanced", &e);
            }
            let mut n = 0;
            for part in &pkg.names {
                if let Some(x) = pkg.xml(part) {
                    n += x.all("w:instrText").iter().filter(|e| ["PAGE", "NUMPAGES", "TC \"x\""].contains(&e.text().trim())).count();
                }
            }
            let want = [1, 1, 2, 1, 1][kind] + (toc > 1) as usize;
            if n != want {
                return l.fail("a field was lost or repeated", format!("{n} field codes instead of {want}"));
            }
            l.validated += 1;
        },
    ));
    let opts = Arc::new(options());
    out.push(Phase::new(
        "field codes",
        "every option of the field code with every value, alone, in all ordered pairs and all together, given through the setters or as field code text in each of its spellings (value left out where all levels are meant, extra blanks, no quotes), with and without entries; also after reading back",
        move |ch, l| {
            let text = ch.flag();
            let (gap, quote) = if text { *ch.pick(&[(" ", "\""), ("  ", "\""), (" ", "")]) } else { (" ", "\"") };
            let entries = ch.flag();
            let i = ch.choose(opts.len() + 1);
            let mut seq: Vec<usize> = vec![];
            if i == opts.len() {
                let drop = ch.choose(opts.len() + 1);
                let mut seen = std::collections::BTreeSet::new();
                for (k, o) in opts.iter().enumerate() {
                    if k != drop && (text || o.2.is_empty()) && !(quote.is_empty() && o.1.contains(' ')) && seen.insert(o.0) {
                        seq.push(k);
                    }
                }
            } else {
                seq.push(i);
                let j = ch.choose(opts.len() + 1);
                if j < opts.len() {
                    seq.push(j);
                }
            }
            let mut want = BTreeMap::new();
            let mut ins = InstrToC::new();
            let mut code = "TOC".to_string();
            for k in &seq {
                let (s, v, how, f) = opts[*k];
                if !how.is_empty() && !text || quote.is_empty() && v.contains(' ') {
                    l.skip = true;
                    return;
                }
                if s == "t" && want.contains_key("t") {
                    l.skip = true;
                    return;
                }
                if text && want.contains_key(s) {
                    l.skip = true;
                    return;
                }
                want.insert(s.to_string(), v.to_string());
                ins = f(ins, v);
                code += &format!("{gap}\\{s}");
                if !v.is_empty() && how.is_empty() {
                    code += &format!("{gap}{quote}{v}{quote}");
                }
            }
            l.label = format!("{} {code} entries={entries}", if text { "text" } else { "setters" });
            l.states.push(hash64(l.label.as_bytes()));
            let mut t = TableOfContents::new();
            if text {
                t = match guarded(|| TableOfContents::with_instr_text(&code)) {
                    Ok(t) => t,
                    Err(e) => return l.fail(format!("panic: {}", panic_class(&e)), &e),
                };
            } else {
                t.instr = ins;
            }
            if entries {
                t = t.add_item(TableOfContentsItem::new().text("e").toc_key("k").level(1));
            }
            let b = match guarded(|| pack_build(Docx::new().add_table_of_contents(t.clone()))) {
                Ok(Ok(b)) => b,
                x => return l.fail("cannot be written", format!("{x:?}").chars().take(200).collect::<String>()),
            };
            l.transitions += 1;
            let mut bytes = b;
            for stage in ["written", "read back"] {
                let Ok(pkg) = Package::open(&bytes) else { return l.fail("package unreadable", stage) };
                if let Err(e) = balanced(&pkg) {
                    return l.fail(format!("{stage}: field marks unbalanced"), &e);
                }
                let Some((_, doc)) = pkg.document() else { return l.fail("no document part", "") };
                let ts = tables(doc);
                let got = ts.first().map(|t| switches(&t.0));
                match got {
                    Some(Ok((n, m))) if n == "TOC" && m == want => {}
                    x => {
                        let which: Vec<String> = match &x {
                            Some(Ok((_, m))) => want
                                .keys()
                                .chain(m.keys())
                                .filter(|k| want.get(*k) != m.get(*k))
                                .cloned()
                                .collect::<std::collections::BTreeSet<_>>()
                                .into_iter()
                                .collect(),
                            _ => vec!["unreadable".into()],
                        };
                        return l.fail(
                            format!("{} {stage}: option {}", if text { "text" } else { "setters" }, which.first().cloned().unwrap_or_default()),
                            format!("{want:?} became {x:?}"),
                        );
                    }
                }
                l.evals += 1;
                if stage == "written" {
                    l.transitions += 1;
                    bytes = match guarded(|| pack_build(read_docx(&bytes).map_err(|e| e.to_string())?)) {
                        Ok(Ok(b)) => b,
                        x => return l.fail("cannot be read and written again", format!("{x:?}").chars().take(200).collect::<String>()),
                    };
                }
            }
            l.validated += 1;
        },
    ));
    out
}
