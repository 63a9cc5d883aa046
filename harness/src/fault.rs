//! Single faults of XML parts, enumerated by a chooser.

use crate::explore::Chooser;
use crate::vocab::*;

pub const HOSTILE: &[&str] = &[
    "", " ", "x", "-1", "0", "1", "65536", "4294967295", "4294967296", "-2147483649", "9223372036854775808", "-9223372036854775809",
    "99999999999999999999999999", "1e400", "-1e400", "NaN", "1.5", "true", "false", "off", "100%", "-50%", "1mm", "9999999999in", "1pt", "99999999999pt", "-99999999999pt", "é", "&#x10FFFF;", "&#0;", "&bogus;", "&lt;&amp;&quot;",
];

pub const INSTR: &[&str] = &[
    "", " ", "\"", "\\", "TOC", "TOC \\", "TOC \\o", "TOC \\o \"", "TOC \\o \"-\"", "TOC \\o \"1\"", "TOC \\o \"x-y\"", "TOC \\o \"99999999999-1\"", "TOC \\t", "TOC \\t \"a\"", "TOC \\t \"a,x\"",
    "TOC \\t \",,,\"", "TOC \\l -", "TOC \\n -", "TOC \\f", "TOC \\b", "TC", "TC \\l x", "TC \"", "PAGEREF", "PAGEREF \\h", "HYPERLINK", "HYPERLINK \"", "HYPERLINK \\l", "é\\é", "PAGE PAGE",
];

pub const RAW: &[&str] = &["<!-- c -->", "<![CDATA[x]]>", "<?pi x?>", "<!DOCTYPE d [<!ENTITY e \"v\">]>", "&bogus;", "&#0;", "&#x110000;", "text", "]]>", "<", ">", "&", "</w:x>", "<w:x>", "<!--", "<![CDATA[", "\u{0}", "<?xml version=\"1.0\"?>"];

/// Keeps the elements of one part with their tokens.
pub struct Target {
    pub pack: usize,
    pub part: usize,
    pub name: String,
    pub toks: Vec<Tok>,
}

pub fn targets(packs: &[Pack]) -> Vec<Target> {
    let mut v = Vec::new();
    for (pi, p) in packs.iter().enumerate() {
        for f in &p.focus {
            let part = p.parts.iter().position(|q| &q.0 == f).unwrap();
            let toks = tokens(std::str::from_utf8(&p.parts[part].1).unwrap());
            v.push(Target { pack: pi, part, name: format!("{}:{}", p.name, f), toks });
        }
    }
    v
}

pub fn with_part(p: &Pack, part: usize, data: Vec<u8>) -> Vec<u8> {
    let mut parts = p.parts.clone();
    parts[part].1 = data;
    crate::zipread::write_stored(&parts)
}

fn is_start(t: &Tok) -> bool {
    matches!(t, Tok::Start { .. })
}

/// One structural or value fault of the token list. Returns the text and what was done.
pub fn damage(ch: &mut Chooser, toks: &[Tok]) -> (String, String) {
    let n = toks.len();
    let i = ch.choose(n);
    let mut what = match &toks[i] {
        Tok::Start { name, .. } => format!("<{name}>"),
        Tok::End(n) => format!("</{n}>"),
        Tok::Text(_) => "text".into(),
        Tok::Raw(_) => "declaration".into(),
    };
    let mut ts = toks.to_vec();
    // classes: 0 cut before, 1 cut within, 2 delete token, 3 insert raw before, then per kind
    let own = match &toks[i] {
        Tok::Start { .. } => 8,
        Tok::Text(_) => 1,
        _ => 0,
    };
    let text = match ch.choose(4 + own) {
        0 => {
            what = format!("cut before {what}");
            render(&toks[..i])
        }
        1 => {
            what = format!("cut within {what}");
            let mut s = render(&toks[..i]);
            let mut one = String::new();
            render_one(&toks[i], &mut one);
            let k = one.len() / 2;
            let k = (0..=k).rev().find(|k| one.is_char_boundary(*k)).unwrap();
            s.push_str(&one[..k]);
            s
        }
        2 => {
            what = format!("delete {what}");
            ts.remove(i);
            render(&ts)
        }
        3 => {
            let r = *ch.pick(RAW);
            what = format!("insert {r:?} before {what}");
            ts.insert(i, Tok::Raw(r.to_string()));
            render(&ts)
        }
        4 => match &toks[i] {
            Tok::Text(t) => {
                let instr = i > 0 && matches!(&toks[i - 1], Tok::Start { name, .. } if name.to_lowercase().contains("instrtext"));
                let v = if instr { ch.pick(INSTR) } else { ch.pick(HOSTILE) };
                what = format!("text {t:?} becomes {v:?}");
                ts[i] = Tok::Text(v.to_string());
                render(&ts)
            }
            _ => {
                let e = end_of(&ts, i);
                what = format!("delete element {what}");
                ts.drain(i..e);
                render(&ts)
            }
        },
        5 => {
            let e = end_of(&ts, i);
            what = format!("duplicate element {what}");
            let sub: Vec<Tok> = ts[i..e].to_vec();
            ts.splice(e..e, sub);
            render(&ts)
        }
        6 => {
            // unwrap: drop both tags, keep the children
            let e = end_of(&ts, i);
            what = format!("unwrap {what}");
            if e > i + 1 {
                ts.remove(e - 1);
            }
            ts.remove(i);
            render(&ts)
        }
        7 => {
            // swap with the next sibling
            let e = end_of(&ts, i);
            what = format!("swap {what} with next");
            if e < ts.len() && is_start(&ts[e]) {
                let f = end_of(&ts, e);
                ts[i..f].rotate_left(e - i);
            }
            render(&ts)
        }
        8 => {
            // empty the element
            let e = end_of(&ts, i);
            what = format!("empty {what}");
            if let Tok::Start { empty, .. } = &mut ts[i] {
                *empty = true;
            }
            ts.drain(i + 1..e);
            render(&ts)
        }
        9 => {
            what = format!("strip the attributes of {what}");
            if let Tok::Start { attrs, .. } = &mut ts[i] {
                attrs.clear();
            }
            render(&ts)
        }
        10 => {
            what = format!("reverse the attributes of {what}");
            if let Tok::Start { attrs, .. } = &mut ts[i] {
                attrs.reverse();
            }
            render(&ts)
        }
        _ => {
            let Tok::Start { attrs, .. } = &mut ts[i] else { unreachable!() };
            if !attrs.is_empty() {
                let k = ch.choose(attrs.len());
                let nm = attrs[k].0.clone();
                match ch.choose(2 + HOSTILE.len()) {
                    0 => {
                        attrs.remove(k);
                        what = format!("drop attribute {nm} of {what}");
                    }
                    1 => {
                        let a = attrs[k].clone();
                        attrs.insert(k, a);
                        what = format!("repeat attribute {nm} of {what}");
                    }
                    v => {
                        attrs[k].1 = HOSTILE[v - 2].to_string();
                        what = format!("attribute {nm} of {what} becomes {:?}", HOSTILE[v - 2]);
                    }
                }
            }
            render(&ts)
        }
    };
    (text, what)
}
