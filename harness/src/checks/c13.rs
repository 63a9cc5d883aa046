//! C13: reading any bytes returns a document or an error.

use super::Meta;
use crate::alloc;
use crate::explore::*;
use crate::fault::*;
use crate::vocab::*;
use crate::zipread::write_stored;
use crate::Tier;
use docx_rs::*;
use std::str::FromStr;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "fault_enumeration",
        assumptions: vec![
            "promptly means within the leaf limit of 10 s for inputs below 2 MB; memory is bounded by 48 MB plus 64 bytes per input byte, and by 1 GB more where a picture declares a large size (the decoder has its own limit)".into(),
            "the nesting phase gives the reader a thread with a 2 MB stack, the default of the standard library".into(),
        ],
    }
}

/// Reads and reports; never returns a wrong outcome silently.
pub fn read_case(l: &mut Leaf, bytes: &[u8], what: &str) {
    read_bounded(l, bytes, 0, what)
}

fn read_bounded(l: &mut Leaf, bytes: &[u8], extra: i64, what: &str) {
    l.evals += 1;
    let (r, peak) = alloc::peak(|| guarded(|| read_docx(bytes).map(|_| ())));
    judge(l, r.map(|r| r.is_ok()), peak - extra, bytes.len(), what);
}

fn judge(l: &mut Leaf, r: Result<bool, String>, peak: i64, len: usize, what: &str) {
    l.transitions += 1;
    l.cases.push(hash64(what.as_bytes()));
    match r {
        Ok(ok) => l.outcome = if ok { "document" } else { "error" }.to_string(),
        Err(p) => l.fail(panic_class(&p), format!("reading panicked after {what}: {p}")),
    }
    if peak > (48 << 20) + 64 * len as i64 {
        l.fail("memory", format!("reading {len} bytes held {peak} bytes after {what}"));
    }
}

fn flat(p: &Pack) -> String {
    let mut s = String::from(r#"<?xml version="1.0"?><pkg:package xmlns:pkg="http://schemas.microsoft.com/office/2006/xmlPackage">"#);
    for (n, d) in &p.parts {
        if n == "[Content_Types].xml" {
            continue;
        }
        if n.ends_with(".png") {
            s += &format!(r#"<pkg:part pkg:name="/{n}" pkg:contentType="image/png" pkg:compression="store"><pkg:binaryData>AAAA</pkg:binaryData></pkg:part>"#);
            continue;
        }
        let t = String::from_utf8(d.clone()).unwrap();
        let t = t.trim_start_matches(r#"<?xml version="1.0" encoding="UTF-8"?>"#);
        s += &format!(r#"<pkg:part pkg:name="/{n}" pkg:contentType="application/xml"><pkg:xmlData>{t}</pkg:xmlData></pkg:part>"#);
    }
    s + "</pkg:package>"
}

pub fn nested(kind: &str, d: usize) -> (String, &'static str) {
    let rep = |a: &str, mid: &str, b: &str| format!("{}{}{}", a.repeat(d), mid, b.repeat(d));
    let doc = "word/document.xml";
    match kind {
        "table" => (document(&rep("<w:tbl><w:tr><w:tc>", "<w:p/>", "</w:tc></w:tr></w:tbl>")), doc),
        "sdt" => (document(&rep("<w:sdt><w:sdtContent>", "<w:p/>", "</w:sdtContent></w:sdt>")), doc),
        "ins-del" => (document(&format!("<w:p>{}</w:p>", rep("<w:ins><w:del>", "<w:r/>", "</w:del></w:ins>"))), doc),
        "hyperlink" => (document(&format!("<w:p>{}</w:p>", rep("<w:hyperlink>", "<w:r/>", "</w:hyperlink>"))), doc),
        "paragraph" => (document(&rep("<w:p>", "", "</w:p>")), doc),
        "run" => (document(&format!("<w:p>{}</w:p>", rep("<w:r>", "", "</w:r>"))), doc),
        "run-properties" => (document(&format!("<w:p><w:r>{}</w:r></w:p>", rep("<w:rPr>", "", "</w:rPr>"))), doc),
        "paragraph-properties" => (document(&format!("<w:p>{}</w:p>", rep("<w:pPr>", "", "</w:pPr>"))), doc),
        "paragraph-change" => (document(&format!("<w:p>{}</w:p>", rep("<w:pPr><w:pPrChange>", "", "</w:pPrChange></w:pPr>"))), doc),
        "textbox" => (document(&rep("<w:p><w:r><w:drawing><wps:txbx>", "<w:p/>", "</wps:txbx></w:drawing></w:r></w:p>")), doc),
        "vml" => (document(&rep("<w:p><w:r><w:pict><v:shape>", "", "</v:shape></w:pict></w:r></w:p>")), doc),
        "alternate" => (document(&rep("<w:p><w:r><mc:AlternateContent><mc:Fallback>", "", "</mc:Fallback></mc:AlternateContent></w:r></w:p>")), doc),
        "section" => (document(&rep("<w:sectPr>", "", "</w:sectPr>")), doc),
        "unknown" => (document(&rep("<w:foo>", "", "</w:foo>")), doc),
        "div" => (format!("<w:webSettings {NS}><w:divs>{}</w:divs></w:webSettings>", rep("<w:div w:id=\"1\"><w:divsChild>", "", "</w:divsChild></w:div>")), "word/webSettings.xml"),
        "style" => (format!("<w:styles {NS}>{}</w:styles>", rep("<w:style>", "", "</w:style>")), "word/styles.xml"),
        "table-style" => (format!("<w:styles {NS}><w:style>{}</w:style></w:styles>", rep("<w:tblPr>", "", "</w:tblPr>")), "word/styles.xml"),
        "level" => (format!("<w:numbering {NS}><w:num>{}</w:num></w:numbering>", rep("<w:lvlOverride><w:lvl>", "", "</w:lvl></w:lvlOverride>")), "word/numbering.xml"),
        "numbering" => (format!("<w:numbering {NS}>{}</w:numbering>", rep("<w:abstractNum>", "", "</w:abstractNum>")), "word/numbering.xml"),
        "comment" => (format!("<w:comments {NS}>{}</w:comments>", rep("<w:comment w:id=\"1\"><w:p>", "", "</w:p></w:comment>")), "word/comments.xml"),
        "theme" => (format!("<a:theme {NS}>{}</a:theme>", rep("<a:fontScheme><a:majorFont>", "", "</a:majorFont></a:fontScheme>")), "word/theme/theme1.xml"),
        "header" => (format!("<w:hdr {NS}>{}</w:hdr>", rep("<w:tbl><w:tr><w:tc>", "<w:p/>", "</w:tc></w:tr></w:tbl>")), "word/header1.xml"),
        _ => unreachable!(),
    }
}

pub const NEST: &[&str] = &[
    "table", "sdt", "ins-del", "hyperlink", "paragraph", "run", "run-properties", "paragraph-properties", "paragraph-change", "textbox", "vml", "alternate", "section", "unknown", "div", "style",
    "table-style", "level", "numbering", "comment", "theme", "header",
];

/// Runs f in a thread with the given stack.
fn in_thread<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let packs: Arc<Vec<Pack>> = Arc::new(packs());
    let tg: Arc<Vec<Target>> = Arc::new(targets(&packs));
    let all_names: Arc<Vec<String>> = Arc::new(names());
    let mut v = Vec::new();

    {
        let packs = packs.clone();
        v.push(
            Phase::new("sound", "every undamaged package is read, alone and as flat text", move |ch, l| {
                let p = ch.pick(&packs);
                l.label = p.name.into();
                l.evals += 2;
                match guarded(|| read_docx(&write_stored(&p.parts)).map(|_| ())) {
                    Ok(Ok(())) => {}
                    other => l.fail(format!("sound:{}", p.name), format!("package {} was not read: {other:?}", p.name)),
                }
                let f = flat(p);
                let (r, peak) = alloc::peak(|| guarded(|| read_xml(&f).map(|_| ())));
                judge(l, r.map(|r| r.is_ok()), peak, f.len(), "nothing");
                l.validated += 1;
            })
            .limit(10),
        );
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        v.push(
            Phase::new(
                "token faults",
                "part x token x {cut before, cut within, delete, insert each raw text, delete/duplicate/unwrap/swap/empty element, strip/reverse/drop/repeat attributes, each hostile value}",
                move |ch, l| {
                    let t = ch.pick(&tg);
                    let (text, what) = damage(ch, &t.toks);
                    l.label = format!("{} {what}", t.name);
                    ch.risk(&l.label);
                    l.states.push(hash64(text.as_bytes()));
                    read_case(l, &with_part(&packs[t.pack], t.part, text.into_bytes()), &l.label.clone());
                },
            )
            .limit(10),
        );
    }
    {
        let (packs, tg, nm) = (packs.clone(), tg.clone(), all_names.clone());
        v.push(
            Phase::new("renamed elements", "every element takes every known name", move |ch, l| {
                let t = ch.pick(&tg);
                let starts: Vec<usize> = t.toks.iter().enumerate().filter(|x| matches!(x.1, Tok::Start { .. })).map(|x| x.0).collect();
                let i = *ch.pick(&starts);
                let mut old = String::new();
                // all names in one leaf: the cases differ in one token only
                for to in nm.iter() {
                    let mut ts = t.toks.clone();
                    let e = end_of(&ts, i);
                    if let Tok::Start { name, .. } = &mut ts[i] {
                        old = std::mem::replace(name, to.clone());
                    }
                    if e > i + 1 {
                        ts[e - 1] = Tok::End(to.clone());
                    }
                    let what = format!("{} <{old}> becomes <{to}>", t.name);
                    ch.risk(&what);
                    read_case(l, &with_part(&packs[t.pack], t.part, render(&ts).into_bytes()), &what);
                }
                l.label = format!("{} <{old}> renamed", t.name);
                l.states.push(hash64(l.label.as_bytes()) ^ i as u64);
            })
            .limit(10),
        );
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        // distinct elements with their first subtree, and distinct containers
        let mut subs: Vec<(String, String)> = Vec::new();
        let mut hosts: Vec<(usize, usize, String)> = Vec::new();
        for (k, t) in tg.iter().enumerate() {
            for (i, tok) in t.toks.iter().enumerate() {
                if let Tok::Start { name, empty, .. } = tok {
                    if !subs.iter().any(|s| &s.0 == name) {
                        subs.push((name.clone(), render(&t.toks[i..end_of(&t.toks, i)])));
                    }
                    if !empty && !hosts.iter().any(|h| &h.2 == name && tg[h.0].name.split(':').next() == t.name.split(':').next()) {
                        hosts.push((k, i, name.clone()));
                    }
                }
            }
        }
        v.push(
            Phase::new("misplaced elements", "every known element with its content, and empty without attributes, as first child of every container", move |ch, l| {
                let (k, i, host) = ch.pick(&hosts);
                let t = &tg[*k];
                let bare = ch.flag();
                for (n, text) in &subs {
                    let x = if bare { format!("<{n}/>") } else { text.clone() };
                    let mut ts = t.toks.clone();
                    ts.insert(i + 1, Tok::Raw(x));
                    let what = format!("{} <{n}> bare={bare} inside <{host}>", t.name);
                    ch.risk(&what);
                    read_case(l, &with_part(&packs[t.pack], t.part, render(&ts).into_bytes()), &what);
                }
                l.label = format!("{} children of <{host}> bare={bare}", t.name);
                l.states.push(hash64(l.label.as_bytes()));
            })
            .limit(10),
        );
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        let subst: Vec<u8> = if t == Tier::Quick { vec![b'<', b'"', 0xff] } else { vec![b'<', b'>', b'"', b'&', b'/', b' ', b':', 0, 0xff, 0xc3] };
        v.push(
            Phase::new("byte faults", "part x byte x {removed, substituted by each of the listed bytes}", move |ch, l| {
                let t = ch.pick(&tg);
                let src = &packs[t.pack].parts[t.part].1;
                // start after the namespace declarations, which the reader does not look at
                let n = src.len();
                let block = 64;
                let b = ch.choose(n.div_ceil(block));
                l.label = format!("{} bytes {}..", t.name, b * block);
                for i in b * block..(b * block + block).min(n) {
                    for s in 0..=subst.len() {
                        let mut d = src.clone();
                        let what = if s == subst.len() {
                            d.remove(i);
                            format!("{} byte {i} removed", t.name)
                        } else {
                            d[i] = subst[s];
                            format!("{} byte {i} becomes {:#x}", t.name, subst[s])
                        };
                        ch.risk(&what);
                        read_case(l, &with_part(&packs[t.pack], t.part, d), &what);
                    }
                }
                l.states.push(hash64(l.label.as_bytes()));
            })
            .limit(10),
        );
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        let vals: Vec<Option<&'static str>> = if t == Tier::Quick { vec![None, Some("x"), Some("4294967296")] } else { vec![None, Some(""), Some("x"), Some("-1"), Some("4294967296"), Some("1e400")] };
        v.push(
            Phase::new("value pairs", "part x every pair of attributes x {dropped, no number, too large} each", move |ch, l| {
                let t = ch.pick(&tg);
                let at: Vec<(usize, usize)> = t
                    .toks
                    .iter()
                    .enumerate()
                    .skip(2)
                    .flat_map(|(i, k)| match k {
                        Tok::Start { attrs, .. } => (0..attrs.len()).map(|a| (i, a)).collect(),
                        _ => vec![],
                    })
                    .collect();
                if at.len() < 2 {
                    l.skip = true;
                    return;
                }
                let x = ch.choose(at.len() - 1);
                let vx = *ch.pick(&vals);
                for y in x + 1..at.len() {
                    for vy in &vals {
                        let mut ts = t.toks.clone();
                        // the later position first, so that removal does not shift the earlier one
                        for ((i, a), v) in [(at[y], *vy), (at[x], vx)] {
                            if let Tok::Start { attrs, .. } = &mut ts[i] {
                                match v {
                                    None => {
                                        attrs.remove(a);
                                    }
                                    Some(v) => attrs[a].1 = v.to_string(),
                                }
                            }
                        }
                        let what = format!("{} attributes {:?}={vx:?} and {:?}={vy:?}", t.name, at[x], at[y]);
                        ch.risk(&what);
                        read_case(l, &with_part(&packs[t.pack], t.part, render(&ts).into_bytes()), &what);
                    }
                }
                l.label = format!("{} {:?}={vx:?} and each later attribute", t.name, at[x]);
                l.states.push(hash64(l.label.as_bytes()));
            })
            .limit(10),
        );
    }
    {
        let packs = packs.clone();
        v.push(
            Phase::new("picture faults", "picture (PNG, BMP, GIF, TIFF of three depths) cut at every byte; every byte substituted; every 2-byte and 4-byte field set to each extreme, checksums repaired or not", move |ch, l| {
                let p = packs.iter().find(|p| p.name == "drawing").unwrap();
                let part = p.parts.iter().position(|q| q.0.ends_with(".png")).unwrap();
                let pics = crate::corpus::pictures();
                let f = ch.choose(pics.len() + 1);
                let src = if f == 0 { p.parts[part].1.clone() } else { pics[f - 1].1.clone() };
                let mode = ch.choose(4);
                let i = ch.choose(src.len());
                let repair = f == 0 && mode > 0 && ch.flag();
                let variants: Vec<Vec<u8>> = match mode {
                    3 => [0u16, 1, 2, 3, 8, 16, 32, 64, 0x7fff, 0x8000, 0xffff]
                        .into_iter()
                        .filter(|_| i + 2 <= src.len())
                        .map(|x| {
                            let mut d = src.clone();
                            d[i..i + 2].copy_from_slice(&x.to_le_bytes());
                            d
                        })
                        .collect(),
                    0 => vec![src[..i].to_vec()],
                    1 => (0..=255u8)
                        .filter(|b| *b != src[i])
                        .map(|b| {
                            let mut d = src.clone();
                            d[i] = b;
                            d
                        })
                        .collect(),
                    _ => [0u32, 1, 0x100, 0x2710, 0x4e20, 0xffff, 0x10000, 0x7fff_ffff, 0xffff_ffff]
                        .into_iter()
                        .filter(|_| i + 4 <= src.len())
                        .map(|x| {
                            let mut d = src.clone();
                            let b = if f == 0 { x.to_be_bytes() } else { x.to_le_bytes() };
                            d[i..i + 4].copy_from_slice(&b);
                            d
                        })
                        .collect(),
                };
                l.label = format!("picture {f} mode={mode} offset {i} repair={repair}");
                ch.risk(&l.label);
                l.states.push(hash64(l.label.as_bytes()));
                for (k, mut d) in variants.into_iter().enumerate() {
                    if repair {
                        repair_png(&mut d);
                    }
                    // the decoder allows itself 512 MB per picture, and the picture is encoded again
                    read_bounded(l, &with_part(p, part, d), 1 << 30, &format!("{} variant {k}", l.label));
                }
            })
            .limit(10),
        );
    }
    {
        let packs = packs.clone();
        v.push(
            Phase::new("part faults", "part x {removed, emptied, blank, other root, another part's content, twice, renamed, byte order mark, UTF-16}", move |ch, l| {
                let p = ch.pick(&packs);
                let i = ch.choose(p.parts.len());
                let mut parts = p.parts.clone();
                let n = parts.len();
                let what = match ch.choose(9) {
                    0 => {
                        parts.remove(i);
                        "removed"
                    }
                    1 => {
                        parts[i].1.clear();
                        "emptied"
                    }
                    2 => {
                        parts[i].1 = b" \n".to_vec();
                        "blank"
                    }
                    3 => {
                        parts[i].1 = b"<root/>".to_vec();
                        "other root"
                    }
                    4 => {
                        let k = ch.choose(n);
                        parts[i].1 = p.parts[k].1.clone();
                        "other part"
                    }
                    5 => {
                        let c = parts[i].clone();
                        parts.push(c);
                        "twice"
                    }
                    6 => {
                        parts[i].0 = parts[i].0.to_uppercase();
                        "upper case"
                    }
                    7 => {
                        let mut d = vec![0xef, 0xbb, 0xbf];
                        d.extend_from_slice(&parts[i].1);
                        parts[i].1 = d;
                        "byte order mark"
                    }
                    _ => {
                        let s = String::from_utf8_lossy(&parts[i].1).to_string();
                        parts[i].1 = [0xfe, 0xff].into_iter().chain(s.encode_utf16().flat_map(|c| c.to_be_bytes())).collect();
                        "utf-16"
                    }
                };
                l.label = format!("{} {} {what} {:?}", p.name, p.parts[i].0, ch.choices().last());
                ch.risk(&l.label);
                l.states.push(hash64(l.label.as_bytes()));
                read_case(l, &write_stored(&parts), &l.label.clone());
            })
            .limit(10),
        );
    }
    {
        let packs = packs.clone();
        v.push(
            Phase::new("archive faults", "archive cut at every byte; every byte substituted by 0, 0xff and its complement; every 4-byte field of the headers set to extreme values", move |ch, l| {
                // a small archive, stored and deflated
                let p = &packs[15];
                let deflated = ch.flag();
                let bytes = if deflated { deflate(&p.parts) } else { write_stored(&p.parts) };
                let mode = ch.choose(3);
                let block = 32;
                let b = ch.choose(bytes.len().div_ceil(block));
                l.label = format!("deflated={deflated} mode={mode} bytes {}..", b * block);
                for i in b * block..(b * block + block).min(bytes.len()) {
                    let variants: Vec<(String, Vec<u8>)> = match mode {
                        0 => vec![("cut".into(), bytes[..i].to_vec())],
                        1 => [0u8, 0xff, !bytes[i]]
                            .into_iter()
                            .map(|x| {
                                let mut d = bytes.clone();
                                d[i] = x;
                                (format!("byte={x:#x}"), d)
                            })
                            .collect(),
                        _ => [0u32, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]
                            .into_iter()
                            .filter(|_| i + 4 <= bytes.len())
                            .map(|x| {
                                let mut d = bytes.clone();
                                d[i..i + 4].copy_from_slice(&x.to_le_bytes());
                                (format!("field={x:#x}"), d)
                            })
                            .collect(),
                    };
                    for (w, d) in variants {
                        let what = format!("archive deflated={deflated} offset {i} {w}");
                        ch.risk(&what);
                        read_case(l, &d, &what);
                    }
                }
                l.states.push(hash64(l.label.as_bytes()));
            })
            .limit(10),
        );
    }
    {
        let packs = packs.clone();
        let targets_: &[&str] = &["", "/", ".", "..", "../..", "../../../../etc/passwd", "//", "\\", "word\\document.xml", "a//b", "/word/document.xml", "_rels/.rels", "document.xml", "é.xml", " ", "http://x", "file:///etc/passwd", "[Content_Types].xml", "word/"];
        v.push(
            Phase::new("targets", "every relationship of every package takes every odd target, with and without external mode", move |ch, l| {
                let p = ch.pick(&packs);
                let rp: Vec<usize> = (0..p.parts.len()).filter(|i| p.parts[*i].0.ends_with(".rels")).collect();
                let i = *ch.pick(&rp);
                let mut ts = tokens(std::str::from_utf8(&p.parts[i].1).unwrap());
                let at: Vec<usize> = (0..ts.len()).filter(|k| matches!(&ts[*k], Tok::Start { name, .. } if name == "Relationship")).collect();
                if at.is_empty() {
                    l.skip = true;
                    return;
                }
                let k = *ch.pick(&at);
                let tv = *ch.pick(targets_);
                let ext = ch.flag();
                if let Tok::Start { attrs, .. } = &mut ts[k] {
                    attrs.retain(|a| a.0 != "TargetMode");
                    for a in attrs.iter_mut().filter(|a| a.0 == "Target") {
                        a.1 = tv.to_string();
                    }
                    if ext {
                        attrs.push(("TargetMode".into(), "External".into()));
                    }
                }
                l.label = format!("{} {} relationship {k} target {tv:?} external={ext}", p.name, p.parts[i].0);
                ch.risk(&l.label);
                l.states.push(hash64(l.label.as_bytes()));
                read_case(l, &with_part(p, i, render(&ts).into_bytes()), &l.label.clone());
            })
            .limit(10),
        );
    }
    let max = if t == Tier::Quick { 14 } else { 16 };
    v.push(
        Phase::new("nesting", format!("every recursive structure nested 1..=40 and 2^6..=2^{max} deep"), move |ch, l| {
            let kind = *ch.pick(NEST);
            let k = ch.choose(40 + max - 5);
            let d = if k < 40 { k + 1 } else { 1usize << (k - 40 + 6) };
            let cut = ch.flag();
            let (mut text, part) = nested(kind, d);
            if cut {
                text.truncate(text.len() / 2);
            }
            l.label = format!("{kind} nested {d} cut={cut}");
            ch.risk(&format!("{kind} nested cut={cut}"));
            l.states.push(hash64(l.label.as_bytes()));
            let extra: Vec<(&str, &str, &str, String)> = match part {
                "word/document.xml" => vec![],
                "word/webSettings.xml" => vec![("webSettings.xml", "webSettings", "r1", text.clone())],
                "word/styles.xml" => vec![("styles.xml", "styles", "r1", text.clone())],
                "word/numbering.xml" => vec![("numbering.xml", "numbering", "r1", text.clone())],
                "word/comments.xml" => vec![("comments.xml", "comments", "r1", text.clone())],
                "word/header1.xml" => vec![("header1.xml", "header", "r1", text.clone())],
                _ => vec![("theme/theme1.xml", "theme", "r1", text.clone())],
            };
            let plain = document("<w:p/>");
            let bytes = write_stored(&package(if part == "word/document.xml" { &text } else { &plain }, &extra, &[]));
            let label = l.label.clone();
            in_thread(2 << 20, || read_case(l, &bytes, &label));
        })
        .limit(20),
    );
    v.push(
        Phase::new("long text", "flat texts and custom items with 2^k siblings or levels", move |ch, l| {
            let k = 1usize << ch.choose(max + 1);
            let deep = ch.flag();
            let which = ch.choose(2);
            let inner = if deep { format!("{}{}", "<a>".repeat(k), "</a>".repeat(k)) } else { "<a>t</a>".repeat(k) };
            l.label = format!("which={which} deep={deep} {k}");
            ch.risk(&format!("which={which} deep={deep}"));
            l.states.push(hash64(l.label.as_bytes()));
            let label = l.label.clone();
            in_thread(2 << 20, || {
                l.evals += 1;
                let (r, peak) = alloc::peak(|| {
                    guarded(|| {
                        if which == 0 {
                            CustomItem::from_str(&format!("<r>{inner}</r>")).is_ok()
                        } else {
                            read_xml(&format!("<pkg:package>{inner}</pkg:package>")).is_ok()
                        }
                    })
                });
                judge(l, r, peak, inner.len(), &label);
            });
        })
        .limit(20),
    );
    {
        let packs = packs.clone();
        v.push(
            Phase::new("flat text faults", "flat package text x token x fault", move |ch, l| {
                let use_ = [4usize, 11, 14, 15, 6];
                let p = &packs[*ch.pick(&use_)];
                let toks = tokens(&flat(p));
                let (text, what) = damage(ch, &toks);
                l.label = format!("flat {} {what}", p.name);
                ch.risk(&l.label);
                l.states.push(hash64(text.as_bytes()));
                l.evals += 1;
                let (r, peak) = alloc::peak(|| guarded(|| read_xml(&text).map(|_| ())));
                judge(l, r.map(|r| r.is_ok()), peak, text.len(), &l.label.clone());
            })
            .limit(10),
        );
    }
    {
        let tg = tg.clone();
        v.push(
            Phase::new("custom item faults", "custom item text x token x fault", move |ch, l| {
                let use_ = [8usize, 9];
                let t = &tg[*ch.pick(&use_)];
                let (text, what) = damage(ch, &t.toks[1..]);
                l.label = format!("custom item {what}");
                ch.risk(&l.label);
                l.states.push(hash64(text.as_bytes()));
                l.evals += 1;
                let (r, peak) = alloc::peak(|| guarded(|| CustomItem::from_str(&text).map(|_| ())));
                judge(l, r.map(|r| r.is_ok()), peak, text.len(), &l.label.clone());
            })
            .limit(10),
        );
    }
    v
}

pub fn deflate(parts: &Parts) -> Vec<u8> {
    use std::io::Write;
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
    for (n, d) in parts {
        z.start_file(n.as_str(), zip::write::SimpleFileOptions::default().compression_method(zip::CompressionMethod::Deflated)).unwrap();
        z.write_all(d).unwrap();
    }
    z.finish().unwrap().into_inner()
}

/// Recomputes the chunk checksums where the chunk lengths allow it.
fn repair_png(d: &mut [u8]) {
    let mut i = 8;
    while i + 12 <= d.len() {
        let n = u32::from_be_bytes(d[i..i + 4].try_into().unwrap()) as usize;
        if n > d.len() || i + 12 + n > d.len() {
            return;
        }
        let c = crc32fast::hash(&d[i + 4..i + 8 + n]);
        d[i + 8 + n..i + 12 + n].copy_from_slice(&c.to_be_bytes());
        i += 12 + n;
    }
}
