//! C14: a damaged part is reported, never read as a shorter document.

use super::Meta;
use crate::explore::*;
use crate::fault::*;
use crate::vocab::*;
use crate::xml;
use crate::zipread::write_stored;
use crate::Tier;
use docx_rs::*;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "fault_enumeration",
        assumptions: vec![
            "ill-formed means: the text ends inside a tag or before its root element closes, or opening and closing tags do not match; judged by a separate XML parser".into(),
            "each part is damaged in a package that is otherwise sound and that is read without error before the damage".into(),
        ],
    }
}

/// Parts whose damage must be reported.
fn judged(part: &str) -> bool {
    ["word/document.xml", "word/styles.xml", "word/numbering.xml", "word/settings.xml", "word/comments.xml", "word/commentsExtended.xml", "word/webSettings.xml", "_rels/.rels", "word/_rels/document.xml.rels"]
        .contains(&part)
}

fn must_fail(l: &mut Leaf, bytes: &[u8], part: &str, kind: &str, what: &str) {
    l.evals += 1;
    l.transitions += 1;
    match guarded(|| read_docx(bytes).map(|_| ())) {
        Ok(Err(_)) => l.outcome = "error".into(),
        Ok(Ok(())) => {
            l.outcome = "document".into();
            l.fail(format!("{kind}:{part}"), format!("{what}: read as a document without any error"));
        }
        Err(p) => l.fail(panic_class(&p), format!("{what}: reading panicked: {p}")),
    }
}


pub fn phases(t: Tier) -> Vec<Phase> {
    let packs: Arc<Vec<Pack>> = Arc::new(packs());
    let tg: Arc<Vec<Target>> = Arc::new(targets(&packs).into_iter().filter(|t| judged(&packs[t.pack].parts[t.part].0)).collect());
    let mut v = Vec::new();
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        v.push(Phase::new("cuts", "every judged part cut before every byte up to the end of its root element's closing tag", move |ch, l| {
            let t = ch.pick(&tg);
            let p = &packs[t.pack];
            let (name, src) = (&p.parts[t.part].0, &p.parts[t.part].1);
            let b = ch.choose(src.len().div_ceil(64));
            l.label = format!("{} cut at {}..", t.name, b * 64);
            if b == 0 {
                // the undamaged package reads
                l.evals += 1;
                if !matches!(guarded(|| read_docx(&write_stored(&p.parts)).map(|_| ())), Ok(Ok(()))) {
                    l.fail(format!("sound:{}", p.name), format!("package {} is not read", p.name));
                }
            }
            let last = src.iter().rposition(|c| *c == b'>').unwrap();
            for i in b * 64..(b * 64 + 64).min(last + 1) {
                l.cases.push(hash64(format!("{} {i}", t.name).as_bytes()));
                must_fail(l, &with_part(p, t.part, src[..i].to_vec()), name, "cut", &format!("{} cut to {i} of {} bytes", t.name, src.len()));
                l.validated += 1;
            }
            l.states.push(hash64(l.label.as_bytes()));
        }));
    }
    {
        let (packs, tg) = (packs.clone(), tg.clone());
        v.push(Phase::new("tags", "every opening or closing tag of every judged part removed, doubled, renamed or turned into the other kind", move |ch, l| {
            let t = ch.pick(&tg);
            let p = &packs[t.pack];
            let name = p.parts[t.part].0.clone();
            let i = ch.choose(t.toks.len());
            let mut ts = t.toks.clone();
            let (tag, is_end) = match &ts[i] {
                Tok::Start { name, empty: false, .. } => (name.clone(), false),
                Tok::End(n) => (n.clone(), true),
                _ => {
                    l.skip = true;
                    return;
                }
            };
            let op = ch.choose(4);
            // a root element opened or closed twice loses nothing
            let root = t.toks.iter().position(|k| matches!(k, Tok::Start { .. })).unwrap();
            if op == 1 && (i == root || i + 1 == end_of(&t.toks, root)) {
                l.skip = true;
                return;
            }
            match op {
                0 => {
                    ts.remove(i);
                }
                1 => {
                    let c = ts[i].clone();
                    ts.insert(i, c);
                }
                2 => match &mut ts[i] {
                    Tok::Start { name, .. } => *name = format!("{name}x"),
                    Tok::End(n) => *n = format!("{n}x"),
                    _ => {}
                },
                _ => {
                    ts[i] = if is_end { Tok::Start { name: tag.clone(), attrs: vec![], empty: false } } else { Tok::End(tag.clone()) };
                }
            }
            let text = render(&ts);
            l.label = format!("{} tag {i} <{}{tag}> {}", t.name, if is_end { "/" } else { "" }, ["removed", "doubled", "renamed", "reversed"][op]);
            l.states.push(hash64(text.as_bytes()));
            // a doubled closing tag of the root, or text after it, is judged by the separate parser
            if xml::parse(text.as_bytes()).is_ok() {
                l.skip = true;
                return;
            }
            l.validated += 1;
            must_fail(l, &with_part(p, t.part, text.into_bytes()), &name, "tags", &l.label.clone());
        }));
    }
    {
        let packs = packs.clone();
        let tg = tg.clone();
        v.push(Phase::new("missing", "every judged part absent, empty or blank although it is referenced", move |ch, l| {
            let t = ch.pick(&tg);
            let p = &packs[t.pack];
            let mut parts = p.parts.clone();
            let name = parts[t.part].0.clone();
            let op = ch.choose(3);
            match op {
                0 => {
                    parts.remove(t.part);
                }
                1 => parts[t.part].1.clear(),
                _ => parts[t.part].1 = b"  \n".to_vec(),
            }
            l.label = format!("{} {}", t.name, ["absent", "empty", "blank"][op]);
            l.states.push(hash64(l.label.as_bytes()));
            // without relationships the main part is found at its usual place
            // and a comments part may be absent altogether
            if (name.ends_with(".rels") || name.starts_with("word/comments")) && op == 0 {
                l.skip = true;
                return;
            }
            must_fail(l, &write_stored(&parts), &name, ["absent", "empty", "blank"][op], &l.label.clone());
            l.validated += 1;
        }));
    }
    {
        let packs = packs.clone();
        let tg = tg.clone();
        let step = if t == Tier::Quick { 1 } else { 1 };
        v.push(Phase::new("entry bytes", "every byte of every judged part's archive entry complemented (stored: checksum mismatch; deflated: broken stream or checksum mismatch)", move |ch, l| {
            let t = ch.pick(&tg);
            let p = &packs[t.pack];
            let name = &p.parts[t.part].0;
            let deflated = ch.flag();
            let bytes = if deflated { super::c13::deflate(&p.parts) } else { write_stored(&p.parts) };
            let es = crate::zipread::read(&bytes).unwrap();
            let e = es.iter().find(|e| &e.name == name).unwrap();
            let (at, n) = (e.off, e.clen);
            let block = ch.choose(n.div_ceil(64));
            l.label = format!("{} deflated={deflated} entry bytes {}..", t.name, block * 64);
            for i in (block * 64..(block * 64 + 64).min(n)).step_by(step) {
                let mut d = bytes.clone();
                d[at + i] = !d[at + i];
                // padding bits at the end of a compressed stream carry nothing
                if deflated {
                    use std::io::Read;
                    let mut out = Vec::new();
                    let ok = flate2::read::DeflateDecoder::new(&d[at..at + n]).read_to_end(&mut out).is_ok();
                    if ok && out == p.parts[t.part].1 {
                        continue;
                    }
                }
                l.cases.push(hash64(format!("{} {deflated} {i}", t.name).as_bytes()));
                must_fail(l, &d, name, "entry", &format!("{} deflated={deflated}, byte {i} of the entry complemented", t.name));
            }
            l.states.push(hash64(l.label.as_bytes()));
        }));
    }
    v
}
