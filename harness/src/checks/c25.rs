//! C25: the flat XML form of a package reads to the same document as the archive.

use super::c01::main_text_only;
use super::c10;
use super::c17::{differ, fixtures};
use super::c18::shown;
use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::fault::*;
use crate::gen::{pack_build, Doc};
use crate::vocab::*;
use crate::zipread::{self, write_stored};
use crate::Tier;
use docx_rs::*;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "documents are compared through their JSON export with ids replaced by what they lead to, plus the pictures' bytes and the links' targets".into(),
            "the flat form uses the prefix and double quotes every producer writes, and no CDATA sections".into(),
            "a numbering part no relationship leads to may be read or passed over".into(),
            "a link relationship that does not call its target external may be read or passed over".into(),
            "packages whose archive is refused are not compared, as the flat reader passes over parts it cannot read".into(),
        ],
    }
}

// ------------------------------------------------------------------------------------- the flat form

fn base64(b: &[u8], line: usize, eol: &str) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    let mut n = 0;
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if line > 0 && n > 0 && n % line == 0 {
                s += eol;
            }
            n += 1;
            s.push(if i > c.len() { '=' } else { A[(v >> (18 - 6 * i)) as usize & 63] as char });
        }
    }
    s
}

#[derive(Clone, Debug)]
struct Form {
    /// whether the content type comes before the name
    type_first: bool,
    /// further attributes of the part
    more: &'static str,
    /// attributes of the data element
    data: &'static str,
    /// white space between the attributes of a part
    gap: &'static str,
    /// white space between tags
    nl: &'static str,
    line: usize,
    eol: &'static str,
    slash: bool,
    head: &'static str,
    /// 0: as in the archive, 1: reversed, 2: relationships last
    order: usize,
}

const WORD: Form = Form {
    type_first: false,
    more: "",
    data: "",
    gap: " ",
    nl: "",
    line: 76,
    eol: "\n",
    slash: true,
    head: "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<?mso-application progid=\"Word.Document\"?>\n",
    order: 0,
};

fn flat(parts: &Parts, f: &Form) -> Option<String> {
    let mut s = format!(r#"{}<pkg:package xmlns:pkg="http://schemas.microsoft.com/office/2006/xmlPackage">{}"#, f.head, f.nl);
    let mut ps: Vec<&(String, Vec<u8>)> = parts.iter().filter(|p| p.0 != "[Content_Types].xml" && !p.0.ends_with('/')).collect();
    match f.order {
        1 => ps.reverse(),
        2 => ps.sort_by_key(|p| p.0.ends_with(".rels")),
        _ => {}
    }
    for (n, d) in ps {
        let xml = n.ends_with(".xml") || n.ends_with(".rels");
        let ty = match n.rsplit('.').next().unwrap() {
            "rels" => "application/vnd.openxmlformats-package.relationships+xml",
            "xml" => "application/xml",
            "png" => "image/png",
            _ => "application/octet-stream",
        };
        let name = format!(r#"pkg:name="{}{n}""#, if f.slash { "/" } else { "" });
        let ty = format!(r#"pkg:contentType="{ty}""#);
        let (a, b) = if f.type_first { (ty, name) } else { (name, ty) };
        s += &format!("<pkg:part{0}{a}{0}{b}{1}>{2}", f.gap, f.more, f.nl);
        if xml {
            let t = std::str::from_utf8(d).ok()?.trim_start_matches('\u{feff}');
            let t = if t.starts_with("<?xml") { &t[t.find("?>")? + 2..] } else { t };
            if t.contains("<![CDATA[") || t.contains("<!DOCTYPE") {
                return None;
            }
            s += &format!("<pkg:xmlData{}>{1}{t}{1}</pkg:xmlData>{1}", f.data, f.nl);
        } else {
            s += &format!("<pkg:binaryData>{1}{}{1}</pkg:binaryData>{1}", base64(d, f.line, f.eol), f.nl);
        }
        s += &format!("</pkg:part>{}", f.nl);
    }
    Some(s + "</pkg:package>")
}

/// The package as Word saves it in one file.
pub fn word_form(parts: &Parts) -> String {
    flat(parts, &WORD).unwrap_or_default()
}

fn compare(l: &mut Leaf, parts: &Parts, f: &Form) {
    let Some(text) = flat(parts, f) else {
        l.outcome = "no flat form".into();
        return;
    };
    let mut want = match shown(|| read_docx(&write_stored(parts))) {
        Ok(w) => w,
        Err(_) => {
            l.outcome = "archive not read".into();
            return;
        }
    };
    l.transitions += 2;
    l.evals += 1;
    match shown(|| read_xml(&text)) {
        Ok(mut got) => {
            let rels = parts.iter().filter(|p| p.0.ends_with(".rels"));
            if !rels.into_iter().any(|p| String::from_utf8_lossy(&p.1).contains("relationships/numbering\"")) {
                got["numberings"] = want["numberings"].clone();
            }
            // a relationship stated twice is one
            for j in [&mut want, &mut got] {
                if let Some(a) = j["links"].as_array_mut() {
                    a.dedup();
                }
            }
            l.states.push(hash64(got.to_string().as_bytes()));
            if let Some((at, what)) = differ(&want, &got, "") {
                let at = at.trim_start_matches('.').replace(".data", "").replace(".children", "/");
                return l.fail(at, what);
            }
            l.validated += 1;
            l.outcome = "same document".into();
        }
        Err(e) => l.fail("not read", e),
    }
}

/// The parts of an archive, with no entries for folders.
fn parts_of(bytes: &[u8]) -> Parts {
    zipread::read(bytes).unwrap().into_iter().filter(|e| !e.name.ends_with('/')).map(|e| (e.name, e.data)).collect()
}

/// Moves the parts in word/ elsewhere and names the main part differently.
fn moved(parts: &Parts, dir: &str, main: &str) -> Parts {
    parts
        .iter()
        .map(|(n, d)| {
            let to = n.replace("word/document.xml", &format!("word/{main}")).replace("word/_rels/document.xml", &format!("word/_rels/{main}"));
            let to = to.strip_prefix("word/").map(|r| format!("{dir}{r}")).unwrap_or(to);
            let d = if n == "_rels/.rels" || n == "[Content_Types].xml" {
                String::from_utf8_lossy(d).replace("word/document.xml", &format!("{dir}{main}")).replace("\"/word/", &format!("\"/{dir}")).into_bytes()
            } else {
                d.clone()
            };
            (to, d)
        })
        .collect()
}

/// Everything a package can hold, in one package.
fn full() -> Parts {
    let img = |h: usize| I::R(vec![K::Pic(png(h as u8), h % 2 == 0)]);
    use crate::gen::*;
    let link = |t: &str| wrap("link", vec![K::T(t.into())]);
    let slot = |i: usize| -> (usize, Vec<B>) { (i, vec![para(vec![rtext(&format!("slot{i}")), img(i + 1), link("l")])]) };
    let d = Docx::new()
        .custom_property("p", "v")
        .doc_id("AAAAAAAA-0000-0000-0000-000000000000")
        .add_doc_var("k", "w")
        .add_style(Style::new("S", StyleType::Paragraph).name("S"))
        .add_abstract_numbering(
            AbstractNumbering::new(3).add_level(Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1"), LevelJc::new("left"))),
        )
        .add_numbering(Numbering::new(3, 3))
        .add_paragraph(Paragraph::new().style("S").numbering(NumberingId::new(3), IndentLevel::new(0)).add_run(Run::new().add_text("n")));
    let mut d = add_block(d, &para(vec![I::Cs(comment(1, "c1")), rtext("x"), I::Ce(1), link("a"), img(9)]));
    d = add_block(d, &para(vec![I::Cs(comment(2, "c2")), rtext("y"), I::Ce(2), wrap("link", vec![K::T("b".into())])]));
    for i in 0..6 {
        let (i, b) = slot(i);
        d = set_header(d, i, &b);
    }
    let sec = Section::new()
        .header(header(&[para(vec![rtext("section"), img(20), link("s")])]))
        .footer(footer(&[para(vec![rtext("section"), img(21)])]))
        .add_paragraph(Paragraph::new().add_run(Run::new().add_text("in section")));
    parts_of(&pack_build(d.add_section(sec)).unwrap())
}

use crate::gen::{I, K};

/// Text that looks like the markup of the flat form.
const LIKE: &[&str] = &[
    r#"pkg:name=""/x"""#,
    r#"pkg:name="/word/document.xml""#,
    r#"pkg:contentType="x""#,
    r#"pkg:contentType=""x"""#,
    "&lt;pkg:part>",
    "&lt;/pkg:part&gt;",
    "&lt;pkg:xmlData&gt;x&lt;/pkg:xmlData&gt;",
    "&lt;pkg:binaryData&gt;AAAA&lt;/pkg:binaryData&gt;",
    "&amp;lt;&amp;amp;&amp;quot;",
    r#"""""#,
    "&#38;&#60;&#62;&#34;&#39;",
    "pkg:part /pkg:part > ' ' \u{1F600} \u{e9}",
];

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    let mut all: Vec<(String, Parts)> = fixtures().into_iter().filter_map(|(n, b)| std::panic::catch_unwind(|| (n, parts_of(&b))).ok()).collect();
    assert!(!all.is_empty(), "no package fixtures found in /repo/fixtures");
    let mut own: Vec<(String, Parts)> = vec![("full".into(), full())];
    own.extend(sound_packs().into_iter().map(|p| (p.name.to_string(), p.parts)));
    all.extend(own.iter().cloned());
    all.extend(packs().into_iter().map(|p| (format!("raw {}", p.name), p.parts)));
    let (all, own) = (Arc::new(all), Arc::new(own));
    {
        let all = all.clone();
        out.push(Phase::new("packages", "every package fixture of the repository and every hand-written package, in the form Word writes", move |ch, l| {
            let (n, p) = ch.pick(&all);
            l.label = n.clone();
            compare(l, p, &WORD);
        }));
    }
    {
        let own = own.clone();
        out.push(Phase::new(
            "forms",
            "every hand-written package and one that holds everything x order of attributes x further attributes x white space x line length of binary data x order of parts x leading slash x preamble",
            move |ch, l| {
                let (n, p) = ch.pick(&own);
                let f = Form {
                    type_first: ch.flag(),
                    more: *ch.pick(&["", r#" pkg:compression="store""#, r#" pkg:padding="512""#]),
                    data: *ch.pick(&["", r#" pkg:originalXmlStandalone="no""#]),
                    gap: *ch.pick(&[" ", "\n    "]),
                    nl: *ch.pick(&["", "\n  ", "\r\n"]),
                    line: *ch.pick(&[0, 76, 4]),
                    eol: *ch.pick(&["\n", "\r\n"]),
                    slash: ch.flag(),
                    head: *ch.pick(&["", WORD.head, "\u{feff}"]),
                    order: ch.choose(3),
                };
                if f.line == 0 && f.eol != "\n" || !deep && (f.gap != " ") as u8 + (f.head != WORD.head) as u8 + (f.order != 0) as u8 + !f.data.is_empty() as u8 + !f.more.is_empty() as u8 > 2 {
                    l.skip = true;
                    return;
                }
                l.label = format!("{n} {f:?}");
                compare(l, p, &f);
            },
        ).limit(20));
    }
    {
        let own = own.clone();
        out.push(Phase::new("places", "every hand-written package x folder and name of the main part", move |ch, l| {
            let (n, p) = ch.pick(&own);
            let dir = *ch.pick(&["word/", "", "a/", "a/b/", "word/word/", "document.xml/"]);
            let main = *ch.pick(&["document.xml", "document2.xml", "main.xml", "xdocument.xml"]);
            l.label = format!("{n} {dir}{main}");
            compare(l, &moved(p, dir, main), &WORD);
        }));
    }
    {
        let own = own.clone();
        out.push(Phase::new("texts", "text that looks like the markup of the flat form x every part it can stand in", move |ch, l| {
            let (n, p) = ch.pick(&own);
            let t = *ch.pick(LIKE);
            let i = ch.choose(p.len());
            let Ok(x) = std::str::from_utf8(&p[i].1) else {
                l.skip = true;
                return;
            };
            let places: Vec<usize> = x.match_indices("</w:t>").map(|m| m.0).collect();
            if places.is_empty() {
                l.skip = true;
                return;
            }
            let at = *ch.pick(&places);
            l.label = format!("{n} {} {at} {t}", p[i].0);
            let mut q = p.clone();
            q[i].1 = format!("{}{t}{}", &x[..at], &x[at..]).into_bytes();
            compare(l, &q, &WORD);
        }));
    }
    {
        let feats = Arc::new(features());
        out.push(Phase::new("built documents", "every feature in every place, alone and with every core feature in the body", move |ch, l| {
            let h = *ch.pick(PARA_HOSTS);
            let (f, make) = ch.pick(&feats);
            if !main_text_only(h, f) {
                l.skip = true;
                return;
            }
            let second = ch.choose(1 + if deep { CORE_FEATURES.len() * PARA_HOSTS.len() } else { CORE_FEATURES.len() });
            l.label = format!("{h} {f}");
            let mut doc = place(h, make(1), 1);
            if second > 0 {
                let k = second - 1;
                let (h2, f2) = (PARA_HOSTS[if deep { k / CORE_FEATURES.len() } else { 0 }], CORE_FEATURES[k % CORE_FEATURES.len()]);
                if !main_text_only(h2, f2) {
                    l.skip = true;
                    return;
                }
                l.label += &format!(" + {h2} {f2}");
                let make2 = &feats.iter().find(|x| x.0 == f2).unwrap().1;
                doc = doc.merge(place(h2, make2(2), 2));
            }
            let Ok(Ok(b)) = guarded(|| pack_build(doc.to_docx())) else {
                l.skip = true;
                return;
            };
            compare(l, &parts_of(&b), &WORD);
        }));
    }
    out.push(Phase::new("threads", "up to three comments of every content form with every parent forest", move |ch, l| {
        let n = 1 + ch.choose(3);
        let fs = c10::forests(n);
        let f = ch.pick(&fs).clone();
        let mut doc = Doc::default();
        for (i, parent) in f.iter().enumerate() {
            let body = *ch.pick(if n == 3 && !deep { &c10::BODY[..4] } else { c10::BODY });
            l.label += &format!("{body} {i}<-{parent:?}; ");
            doc = doc.merge(place("body", c10::pa(c10::ranged("direct", c10::cm(i, body, *parent))), i));
        }
        let Ok(Ok(b)) = guarded(|| pack_build(doc.to_docx())) else {
            l.skip = true;
            return;
        };
        compare(l, &parts_of(&b), &WORD);
    }));
    {
        let packs: Arc<Vec<Pack>> = Arc::new(sound_packs());
        let tg: Arc<Vec<Target>> = Arc::new(targets(&packs));
        out.push(
            Phase::new("variations", "every single structural or value variation of the hand-written packages whose archive is read", move |ch, l| {
                let t = ch.pick(&tg);
                let (text, what) = damage(ch, &t.toks);
                l.label = format!("{} {what}", t.name);
                if what.starts_with("drop attribute TargetMode") || crate::xml::parse(text.as_bytes()).is_err() {
                    l.skip = true;
                    return;
                }
                let mut p = packs[t.pack].parts.clone();
                p[t.part].1 = text.into_bytes();
                compare(l, &p, &WORD);
            })
            .limit(15),
        );
    }
    out
}
