//! C27: field codes are written with the caller's settings and parse back to them.

use super::Meta;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::Tier;
use docx_rs::*;
use std::str::FromStr;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a code is parsed from its arguments, with or without the name of the field in front".into(),
            "a link code names either an address or a place, not both, as the setting holds one target".into(),
            "codes in deleted text are not read back (listed under content structure)".into(),
        ],
    }
}

/// A field code: the value handed to the builder and the name, arguments and switches it stands for.
#[derive(Clone, PartialEq, Debug)]
enum Code {
    Toc(InstrToC),
    Tc(InstrTC),
    Ref(InstrPAGEREF),
    Link(InstrHyperlink),
    Page,
    Pages,
    Free(String),
}

/// The tokens of a code: name, positional arguments, switches with their arguments.
type Tokens = (&'static str, Vec<String>, Vec<(char, Option<String>)>);

const TEXTS: &[&str] = &["x", "two words", "a  b", "a<b>&c", "\u{e9}\u{3042}", "it's", "a/b?c=d&e", "TC", "1"];

fn tc(ch: &mut Chooser, texts: &[&str]) -> (Code, Tokens) {
    let text = *ch.pick(texts);
    let mut i = InstrTC::new(text);
    let mut sw = vec![];
    if let Some(f) = *ch.pick(&[None, Some("q"), Some("Z")]) {
        i = i.item_type_identifier(f);
        sw.push(('f', Some(f.to_string())));
    }
    if let Some(l) = *ch.pick(&[None, Some(1), Some(9)]) {
        i = i.level(l);
        sw.push(('l', Some(l.to_string())));
    }
    if ch.flag() {
        i = i.omits_page_number();
        sw.push(('n', None));
    }
    (Code::Tc(i), ("TC", vec![text.to_string()], sw))
}

fn pageref(ch: &mut Chooser) -> (Code, Tokens) {
    let name = *ch.pick(&["_Toc1", "mark", "m\u{e9}", "PAGEREF"]);
    let mut i = InstrPAGEREF::new(name);
    let mut sw = vec![];
    if ch.flag() {
        i = i.relative_position();
        sw.push(('p', None));
    }
    if ch.flag() {
        i = i.hyperlink();
        sw.push(('h', None));
    }
    (Code::Ref(i), ("PAGEREF", vec![name.to_string()], sw))
}

fn link(ch: &mut Chooser, texts: &[&str]) -> (Code, Tokens) {
    let target = *ch.pick(texts);
    let mut i = InstrHyperlink::new(target);
    i.anchor = ch.flag();
    if i.anchor {
        (Code::Link(i), ("HYPERLINK", vec![], vec![('l', Some(target.to_string()))]))
    } else {
        (Code::Link(i), ("HYPERLINK", vec![target.to_string()], vec![]))
    }
}

fn contents(ch: &mut Chooser) -> (Code, Tokens) {
    let mut i = InstrToC::new();
    let mut sw = vec![];
    if let Some(r) = *ch.pick(&[None, Some((1, 3)), Some((2, 2))]) {
        i = i.heading_styles_range(r.0, r.1);
        sw.push(('o', Some(format!("{}-{}", r.0, r.1))));
    }
    if let Some(b) = *ch.pick(&[None, Some("mark"), Some("two words")]) {
        i = i.entry_bookmark_name(b);
        sw.push(('b', Some(b.to_string())));
    }
    if ch.flag() {
        i = i.hyperlink();
        sw.push(('h', None));
    }
    if ch.flag() {
        i = i.hide_tab_and_page_numbers_in_webview();
        sw.push(('z', None));
    }
    (Code::Toc(i), ("TOC", vec![], sw))
}

fn any(ch: &mut Chooser) -> (Code, Tokens) {
    match ch.choose(7) {
        0 => tc(ch, TEXTS),
        1 => pageref(ch),
        2 => link(ch, TEXTS),
        3 => contents(ch),
        4 => (Code::Page, ("PAGE", vec![], vec![])),
        5 => (Code::Pages, ("NUMPAGES", vec![], vec![])),
        _ => {
            let t = *ch.pick(&["SEQ x \\* ARABIC", "DATE", "IF 1 = 1 \"a\" \"b\"", "a<b", "x"]);
            (Code::Free(t.to_string()), ("", vec![t.to_string()], vec![]))
        }
    }
}

/// Splits a written code into blanks-separated tokens, quoted ones without their quotes.
fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cs = s.chars().peekable();
    while let Some(&c) = cs.peek() {
        if c.is_whitespace() {
            cs.next();
        } else if c == '"' {
            cs.next();
            v.push(cs.by_ref().take_while(|c| *c != '"').collect());
        } else {
            let mut t = String::new();
            while let Some(&c) = cs.peek() {
                if c.is_whitespace() || c == '"' {
                    break;
                }
                t.push(c);
                cs.next();
            }
            v.push(t);
        }
    }
    v
}

/// Whether a code says the same: name, arguments and the set of switches.
fn says(code: &str, want: &Tokens) -> bool {
    if want.0.is_empty() {
        return code == want.1[0];
    }
    let ts = tokens(code);
    if ts.first().map(|s| s.as_str()) != Some(want.0) {
        return false;
    }
    let mut args = vec![];
    let mut sw: Vec<(char, Option<String>)> = vec![];
    for t in &ts[1..] {
        match (t.strip_prefix('\\').filter(|s| s.chars().count() == 1), sw.last_mut()) {
            (Some(s), _) => sw.push((s.chars().next().unwrap(), None)),
            (None, None) => args.push(t.clone()),
            (None, Some((_, a @ None))) => *a = Some(t.clone()),
            (None, Some(_)) => return false,
        }
    }
    let mut w = want.2.clone();
    w.sort();
    sw.sort();
    args == want.1 && sw == w
}

fn parse(like: &Code, s: &str) -> Result<Code, String> {
    let e = |_| "error".to_string();
    Ok(match like {
        Code::Toc(_) => Code::Toc(InstrToC::from_str(s).map_err(e)?),
        Code::Tc(_) => Code::Tc(InstrTC::from_str(s).map_err(e)?),
        Code::Ref(_) => Code::Ref(InstrPAGEREF::from_str(s).map_err(e)?),
        Code::Link(_) => Code::Link(InstrHyperlink::from_str(s).map_err(e)?),
        c => c.clone(),
    })
}

fn live(c: &Code) -> InstrText {
    match c.clone() {
        Code::Toc(i) => InstrText::TOC(i),
        Code::Tc(i) => InstrText::TC(i),
        Code::Ref(i) => InstrText::PAGEREF(i),
        Code::Link(i) => InstrText::HYPERLINK(i),
        Code::Page => InstrText::PAGE(InstrPAGE::new()),
        Code::Pages => InstrText::NUMPAGES(InstrNUMPAGES::new()),
        Code::Free(s) => InstrText::Unsupported(s),
    }
}

fn dead(c: &Code) -> Option<DeleteInstrText> {
    Some(match c.clone() {
        Code::Toc(i) => DeleteInstrText::TOC(i),
        Code::Tc(i) => DeleteInstrText::TC(i),
        Code::Ref(i) => DeleteInstrText::PAGEREF(i),
        Code::Link(i) => DeleteInstrText::HYPERLINK(i),
        Code::Free(s) => DeleteInstrText::Unsupported(s),
        _ => return None,
    })
}

const HOSTS: &[&str] = &["body", "cell", "header", "footer", "note", "comment", "link", "inserted", "sdt"];

fn place(host: &str, r: Run) -> Docx {
    let p = |r: Run| Paragraph::new().add_run(r);
    let d = Docx::new();
    match host {
        "body" => d.add_paragraph(p(r)),
        "cell" => d.add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p(r))])])),
        "header" => d.header(Header::new().add_paragraph(p(r))),
        "footer" => d.footer(Footer::new().add_paragraph(p(r))),
        "note" => d.add_paragraph(p(Run::new().add_footnote_reference(Footnote::new().add_content(p(r))))),
        "comment" => d.add_paragraph(Paragraph::new().add_comment_start(Comment::new(1).author("a").date("2020-01-01T00:00:00Z").add_paragraph(p(r))).add_comment_end(1)),
        "link" => d.add_paragraph(Paragraph::new().add_hyperlink(Hyperlink::new("here", HyperlinkType::Anchor).add_run(r))),
        "inserted" => d.add_paragraph(Paragraph::new().add_insert(Insert::new(r))),
        _ => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p(r))),
    }
}

/// The codes of a package with the marks around them, in document order over all parts.
fn codes(b: &[u8]) -> Result<Vec<(String, String)>, String> {
    let pkg = Package::open(b)?;
    let mut v = vec![];
    for (name, _) in &pkg.parts {
        if let Some(x) = pkg.xml(name) {
            x.walk(&mut |e| {
                if e.is("w:instrText") || e.is("w:delInstrText") {
                    v.push((e.q(), e.text()));
                } else if e.is("w:fldChar") {
                    v.push((e.q(), format!("{}{}", e.attr("w:fldCharType").unwrap_or(""), if matches!(e.attr("w:dirty"), None | Some("0" | "false" | "off")) { "" } else { " dirty" })));
                }
            });
        }
    }
    Ok(v)
}

fn mark(kind: &str, dirty: bool) -> (String, String) {
    ("w:fldChar".into(), format!("{kind}{}", if dirty { " dirty" } else { "" }))
}

fn reread(b: &[u8]) -> Result<Vec<u8>, String> {
    pack_stream(read_docx(b).map_err(|e| format!("{e:?}"))?)
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    vec![
        Phase::new("written codes", "every kind of field code with every combination of its settings, live or deleted, in every place a run can be", move |ch, l| {
            let host = *ch.pick(HOSTS);
            let deleted = ch.flag();
            let (code, want) = any(ch);
            let entry = !deleted && matches!(code, Code::Tc(_));
            let (d1, d2) = if entry { (false, false) } else { *ch.pick(&[(false, false), (true, false), (false, true)]) };
            l.label = format!("{} {code:?} in {host} {d1} {d2}", if deleted { "deleted" } else { "live" });
            let run = if deleted {
                match dead(&code) {
                    Some(i) => Run::new().add_field_char(FieldCharType::Begin, d1).add_delete_instr_text(i).add_field_char(FieldCharType::End, d2),
                    None => {
                        l.skip = true;
                        return;
                    }
                }
            } else {
                match &code {
                    // the shorthand for entries puts the marks around the code itself
                    Code::Tc(i) => Run::new().add_tc(i.clone()),
                    c => Run::new().add_field_char(FieldCharType::Begin, d1).add_instr_text(live(c)).add_field_char(FieldCharType::End, d2),
                }
            };
            l.states.push(hash64(l.label.as_bytes()));
            l.transitions += 1;
            let kind = want.0.to_lowercase();
            let tag = if deleted { "w:delInstrText" } else { "w:instrText" };
            let check = |l: &mut Leaf, b: &[u8], when: &str| -> Option<String> {
                let cs = match codes(b) {
                    Ok(c) => c,
                    Err(e) => {
                        l.fail("unreadable", format!("{when}: {e}"));
                        return None;
                    }
                };
                l.evals += 1;
                l.validated += 1;
                let ok = cs.len() == 3 && cs[0] == mark("begin", d1) && cs[1].0 == tag && cs[2] == mark("end", d2);
                if !ok || !says(&cs[1].1, &want) {
                    l.fail(&format!("code {kind} {when}"), format!("{when}: {cs:?} instead of {want:?}"));
                    return None;
                }
                Some(cs[1].1.clone())
            };
            let b = match guarded(|| pack_stream(place(host, run))) {
                Ok(Ok(b)) => b,
                e => return l.fail("packing", format!("{e:?}")),
            };
            if let Some(text) = check(l, &b, "written") {
                l.evals += 1;
                l.validated += 1;
                match guarded(|| parse(&code, &text)) {
                    Ok(Ok(c)) if c == code => {}
                    e => l.fail(&format!("parse {kind}"), format!("{text:?} parses to {e:?}")),
                }
                if !deleted && host != "note" {
                    l.transitions += 1;
                    match guarded(|| reread(&b)) {
                        Ok(Ok(b)) => {
                            check(l, &b, "read");
                        }
                        e => l.fail("reading", format!("{e:?}")),
                    }
                }
            }
        }),
        Phase::new("page fields", "every list of up to three page numbers, page counts and texts in a paragraph of the body, a header or a footer", move |ch, l| {
            let host = ch.choose(3);
            let n = ch.choose(4);
            let mut p = Paragraph::new();
            let mut want = vec![];
            for _ in 0..n {
                let kind = *ch.pick(&["PAGE", "NUMPAGES", "text"]);
                l.label.push_str(&format!("{kind} "));
                p = match kind {
                    "PAGE" => p.add_page_num(PageNum::new()),
                    "NUMPAGES" => p.add_num_pages(NumPages::new()),
                    _ => p.add_run(Run::new().add_text("x")),
                };
                if kind != "text" {
                    want.extend([mark("begin", false), ("w:instrText".into(), kind.into()), mark("separate", false), mark("end", false)]);
                }
            }
            l.label.push_str(["body", "header", "footer"][host]);
            l.states.push(hash64(l.label.as_bytes()));
            let d = match host {
                0 => Docx::new().add_paragraph(p),
                1 => Docx::new().header(Header::new().add_paragraph(p)),
                _ => Docx::new().footer(Footer::new().add_paragraph(p)),
            };
            let mut b = match guarded(|| pack_stream(d)) {
                Ok(Ok(b)) => b,
                e => return l.fail("packing", format!("{e:?}")),
            };
            for when in ["written", "read"] {
                l.transitions += 1;
                l.evals += 1;
                let got = codes(&b);
                if got.as_ref() != Ok(&want) {
                    return l.fail(format!("page field {when}"), format!("{got:?} instead of {want:?}"));
                }
                b = match guarded(|| reread(&b)) {
                    Ok(Ok(b)) => b,
                    e => return l.fail("reading", format!("{e:?}")),
                };
            }
            l.validated += 1;
        }),
        Phase::new("spellings", "every code of every kind x every order of its switches x blanks, tabs or line breaks between and around the tokens x quoted or bare arguments x with or without the field's name", move |ch, l| {
            let texts = if deep { TEXTS } else { &TEXTS[..5] };
            let (code, (name, args, mut sw)) = match ch.choose(4) {
                0 => tc(ch, texts),
                1 => pageref(ch),
                2 => link(ch, texts),
                _ => contents(ch),
            };
            // further switches that say nothing about the target
            if name == "HYPERLINK" && ch.flag() {
                sw.push(ch.pick(&[('o', Some("tip text".to_string())), ('t', Some("_blank".to_string())), ('n', None), ('m', None)]).clone());
            }
            let mut order = vec![];
            while !sw.is_empty() {
                let i = ch.choose(sw.len());
                order.push(sw.remove(i));
            }
            let gap = *ch.pick(&[" ", "  ", "\t", "\r\n", " \n "]);
            let (before, after) = *ch.pick(&[("", ""), (" ", " "), ("\t", "\n"), ("  ", "")]);
            let quoted = ch.flag();
            let named = ch.flag();
            let arg = |a: &String| {
                if quoted || a.contains(' ') {
                    format!("\"{a}\"")
                } else {
                    a.clone()
                }
            };
            let mut ts = vec![];
            if named {
                ts.push(name.to_string());
            }
            ts.extend(args.iter().map(arg));
            for (c, a) in &order {
                ts.push(format!("\\{c}"));
                ts.extend(a.iter().map(arg));
            }
            // without its name, an argument that is the name itself cannot be told apart
            if !named && args.iter().any(|a| a == name) {
                l.skip = true;
                return;
            }
            let s = format!("{before}{}{after}", ts.join(gap));
            l.label = format!("{s:?}");
            l.states.push(hash64(l.label.as_bytes()));
            l.transitions += 1;
            l.evals += 1;
            match guarded(|| parse(&code, &s)) {
                Ok(Ok(c)) if c == code => {}
                e => l.fail(&format!("spelling {}", name.to_lowercase()), format!("{s:?} parses to {e:?} instead of {code:?}")),
            }
        }),
        Phase::new("awkward texts", "entries and links whose text holds quotation marks, backslashes, switch or entity look-alikes", move |ch, l| {
            let text = *ch.pick(&["a\"b", "\"", "a\\b", "\\", "\\l", "\\n 1", "c:\\new\\file", "a&quot;b", "&amp;", "-", "'", ""]);
            let (code, _) = if ch.flag() { tc(ch, &[text]) } else { link(ch, &[text]) };
            l.label = format!("{code:?}");
            l.states.push(hash64(l.label.as_bytes()));
            l.transitions += 1;
            // a link without a target is no link
            if code == Code::Link(InstrHyperlink { target: String::new(), anchor: false }) || code == Code::Link(InstrHyperlink { target: String::new(), anchor: true }) {
                l.skip = true;
                return;
            }
            let b = match guarded(|| pack_stream(place("body", Run::new().add_instr_text(live(&code))))) {
                Ok(Ok(b)) => b,
                e => return l.fail("packing", format!("{e:?}")),
            };
            let cs = codes(&b).unwrap_or_default();
            l.validated += 1;
            l.evals += 1;
            match cs.first().map(|c| guarded(|| parse(&code, &c.1))) {
                Some(Ok(Ok(c))) if c == code => {}
                e => {
                    let key = if text.contains('"') || text.contains("&quot;") { "quotation marks" } else { "text" };
                    l.fail(key, format!("{cs:?} parses to {e:?} instead of {code:?}"));
                }
            }
        }),
    ]
}

/// Every field code, live and deleted, for the export.
pub fn groups() -> Vec<super::Group> {
    let mut cases = vec![];
    for deleted in [false, true] {
        let mut ch = Chooser::new(vec![], None);
        loop {
            let (code, _) = any(&mut ch);
            if !deleted || dead(&code).is_some() {
                let name = format!("{} {code:?}", if deleted { "deleted" } else { "live" });
                let make = move || {
                    let r = Run::new();
                    place("body", if deleted { r.add_delete_instr_text(dead(&code).unwrap()) } else { r.add_instr_text(live(&code)) })
                };
                cases.push(super::Case { want: name.clone(), name, make: Box::new(make) });
            }
            match ch.next() {
                Some(c) => ch = Chooser::new(c, None),
                None => break,
            }
        }
    }
    vec![super::Group { name: "field codes".into(), cases }]
}
