//! Shared vocabularies: where a paragraph or a run can live, and what it can carry.

use crate::gen::*;
use docx_rs::BreakType;

/// Places a paragraph can be put.
pub const PARA_HOSTS: &[&str] = &[
    "body", "cell", "nested-cell", "sdt", "sdt-in-cell", "table-in-sdt", "section", "section-table", "toc-before",
    "toc-after", "toc-before-table", "toc-after-table", "toc-in-cell", "header", "first-header", "even-header", "footer",
    "first-footer", "even-footer", "header-table", "footer-table", "section-header", "section-first-header",
    "section-even-header", "section-footer", "section-first-footer", "section-even-footer", "comment", "comment-table",
    "footnote", "sdt-in-sdt",
];

/// Hosts whose content belongs to the main body (excludes headers/footers/notes/TOC wrappers).
pub const BODY_HOSTS: &[&str] =
    &["body", "cell", "nested-cell", "sdt", "sdt-in-cell", "table-in-sdt", "section", "section-table", "sdt-in-sdt"];

fn tbl(b: Vec<B>) -> B {
    B::T(vec![vec![b]])
}

/// A document with `p` placed in the named host. `n` keeps ids of several placements apart.
pub fn place(host: &str, p: Pa, n: usize) -> Doc {
    let para_ = B::P(p.clone());
    let body = |b: B| Doc { body: vec![b], hf: vec![] };
    let hf = |s: usize, b: B| Doc { body: vec![], hf: vec![(s, vec![b])] };
    let sec_hf = |s: usize| {
        let mut sec = Sec { kids: vec![ptext("s")], ..Default::default() };
        if s < 3 {
            sec.headers[s] = Some(vec![para_.clone()]);
        } else {
            sec.footers[s - 3] = Some(vec![para_.clone()]);
        }
        body(B::Sec(sec))
    };
    match host {
        "body" => body(para_),
        "cell" => body(tbl(vec![para_])),
        "nested-cell" => body(tbl(vec![tbl(vec![para_]), ptext("n")])),
        "sdt" => body(B::S(vec![para_])),
        "sdt-in-sdt" => body(B::S(vec![ptext("o"), B::S(vec![para_])])),
        "sdt-in-cell" => body(tbl(vec![B::S(vec![para_])])),
        "table-in-sdt" => body(B::S(vec![tbl(vec![para_])])),
        "section" => body(B::Sec(Sec { kids: vec![para_], ..Default::default() })),
        "section-table" => body(B::Sec(Sec { kids: vec![tbl(vec![para_])], ..Default::default() })),
        "toc-before" => body(B::Toc(Toc { before: vec![para_], ..Default::default() })),
        "toc-after" => body(B::Toc(Toc { after: vec![ptext("a"), para_], ..Default::default() })),
        "toc-before-table" => body(B::Toc(Toc { before: vec![tbl(vec![para_])], ..Default::default() })),
        "toc-after-table" => body(B::Toc(Toc { after: vec![ptext("a"), tbl(vec![para_])], ..Default::default() })),
        "toc-in-cell" => {
            body(tbl(vec![B::Toc(Toc { before: vec![para_.clone()], after: vec![ptext("a")], ..Default::default() })]))
        }
        "header" => hf(0, para_),
        "first-header" => hf(1, para_),
        "even-header" => hf(2, para_),
        "footer" => hf(3, para_),
        "first-footer" => hf(4, para_),
        "even-footer" => hf(5, para_),
        "header-table" => hf(0, tbl(vec![para_])),
        "footer-table" => hf(3, tbl(vec![para_])),
        "section-header" => sec_hf(0),
        "section-first-header" => sec_hf(1),
        "section-even-header" => sec_hf(2),
        "section-footer" => sec_hf(3),
        "section-first-footer" => sec_hf(4),
        "section-even-footer" => sec_hf(5),
        "comment" => {
            let mut c = comment(900 + n, "c");
            c.kids = vec![para_];
            body(para(vec![I::Cs(c), rtext("x"), I::Ce(900 + n)]))
        }
        "comment-table" => {
            let mut c = comment(900 + n, "c");
            c.kids = vec![tbl(vec![para_]), ptext("after")];
            body(para(vec![I::Cs(c), rtext("x"), I::Ce(900 + n)]))
        }
        "footnote" => body(para(vec![I::R(vec![K::FnoteP(vec![p])])])),
        h => panic!("host {h}"),
    }
}

/// Places a run can be put inside a paragraph.
pub const RUN_HOSTS: &[&str] = &[
    "direct", "link", "anchor", "ins", "del", "moveFrom", "moveTo", "sdt", "ins-del", "moveTo-del", "link-ins", "link-del",
    "link-sdt", "link-ins-del",
];

pub fn wrap(host: &str, ks: Vec<K>) -> I {
    let r = I::R(ks);
    let u = "http://example.com/w".to_string();
    match host {
        "direct" => r,
        "link" => I::Ext(u, vec![r]),
        "anchor" => I::Anc("anc".into(), vec![r]),
        "ins" => I::Ins(vec![r]),
        "del" => I::Del(vec![r]),
        "moveFrom" => I::MvF(vec![r]),
        "moveTo" => I::MvT(vec![r]),
        "sdt" => I::Sdt(vec![r]),
        "ins-del" => I::Ins(vec![I::Del(vec![r])]),
        "moveTo-del" => I::MvT(vec![I::Del(vec![r])]),
        "link-ins" => I::Ext(u, vec![I::Ins(vec![r])]),
        "link-del" => I::Ext(u, vec![I::Del(vec![r])]),
        "link-sdt" => I::Ext(u, vec![I::Sdt(vec![r])]),
        "link-ins-del" => I::Ext(u, vec![I::Ins(vec![I::Del(vec![r])])]),
        h => panic!("run host {h}"),
    }
}

/// Containers of a comment range inside a paragraph.
pub const RANGE_HOSTS: &[&str] = &["direct", "link", "ins", "del", "moveFrom", "moveTo", "link-ins", "link-del", "ins-del"];

pub fn wrap_range(host: &str, c: Cm, text: &str) -> I {
    let id = c.id;
    let v = vec![I::Cs(c), rtext(text), I::Ce(id)];
    let u = "http://example.com/c".to_string();
    match host {
        "link" => I::Ext(u, v),
        "ins" => I::Ins(v),
        "del" => I::Del(v),
        "moveFrom" => I::MvF(v),
        "moveTo" => I::MvT(v),
        "link-ins" => I::Ext(u, vec![I::Ins(v)]),
        "link-del" => I::Ext(u, vec![I::Del(v)]),
        "ins-del" => I::Ins(vec![I::Del(v)]),
        h => panic!("range host {h}"),
    }
}

pub fn png(n: u8) -> Vec<u8> {
    let mut v = vec![0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a];
    v.extend([n, n.wrapping_mul(7), 0, 255]);
    v
}

/// Package-relevant things a paragraph can carry.
pub fn features() -> Vec<(String, Box<dyn Fn(usize) -> Pa + Sync + Send>)> {
    let mut v: Vec<(String, Box<dyn Fn(usize) -> Pa + Sync + Send>)> = Vec::new();
    let pa = |kids: Vec<I>| Pa { id: None, num: None, style: None, kids };
    v.push(("text".into(), Box::new(move |_| pa(vec![rtext("x")]))));
    v.push(("num".into(), Box::new(move |_| Pa { id: None, num: Some((1, 0)), style: None, kids: vec![rtext("x")] })));
    for h in RUN_HOSTS {
        v.push((format!("text/{h}"), Box::new(move |n| pa(vec![wrap(h, vec![K::T(format!("x{n}"))])]))));
        v.push((format!("pic/{h}"), Box::new(move |n| pa(vec![wrap(h, vec![K::Pic(png(n as u8), false)])]))));
        v.push((
            format!("footnote/{h}"),
            Box::new(move |n| pa(vec![wrap(h, vec![K::Fnote(vec![vec![rtext(&format!("note{n}"))]])])])),
        ));
    }
    v.push(("floating-pic".into(), Box::new(move |n| pa(vec![I::R(vec![K::Pic(png(n as u8), true)])]))));
    for h in RANGE_HOSTS {
        v.push((
            format!("comment/{h}"),
            Box::new(move |n| {
                let c = comment(10 + n, &format!("remark{n}"));
                if *h == "direct" {
                    pa(vec![I::Cs(c), rtext("x"), I::Ce(10 + n)])
                } else {
                    pa(vec![wrap_range(h, c, "x")])
                }
            }),
        ));
    }
    v
}

/// One feature of each kind, for products over several placements.
pub const CORE_FEATURES: &[&str] = &["num", "text/link", "pic/direct", "footnote/direct", "comment/direct", "text/ins"];

/// Leaves a run can carry.
pub fn run_leaves() -> Vec<(&'static str, K)> {
    use docx_rs::{FieldCharType as F, PositionalTabAlignmentType as A, PositionalTabRelativeTo as R, TabLeaderType as L};
    vec![
        ("text", K::T("abc".into())),
        ("space-text", K::T(" a  b ".into())),
        ("tab", K::Tab),
        ("ptab", K::PTab(A::Center, R::Margin, L::Dot)),
        ("page-break", K::Br(BreakType::Page)),
        ("column-break", K::Br(BreakType::Column)),
        ("line-break", K::Br(BreakType::TextWrapping)),
        ("cr", K::Cr),
        ("sym", K::Sym("Wingdings".into(), "F0FC".into())),
        ("fld-begin", K::Fld(F::Begin)),
        ("fld-separate", K::Fld(F::Separate)),
        ("fld-end", K::Fld(F::End)),
        ("instr", K::Page),
        ("instr-tc", K::Tc("item".into())),
        ("pic", K::Pic(png(3), false)),
        ("footnote", K::Fnote(vec![vec![rtext("note")]])),
        ("del-text", K::Dt("gone".into())),
        ("del-instr", K::DelToc),
    ]
}

/// Tiny pictures in the formats that are decoded when read: (extension, bytes).
pub fn pictures() -> Vec<(&'static str, Vec<u8>)> {
    let mut bmp = b"BM".to_vec();
    let px = [255u8, 0, 0, 0, 255, 0, 0, 0, 0, 0, 255, 9, 9, 9, 0, 0];
    bmp.extend((54 + px.len() as u32).to_le_bytes());
    bmp.extend([0; 4]);
    bmp.extend(54u32.to_le_bytes());
    bmp.extend(40u32.to_le_bytes());
    bmp.extend(2i32.to_le_bytes());
    bmp.extend(2i32.to_le_bytes());
    bmp.extend([1, 0, 24, 0]);
    bmp.extend([0; 24]);
    bmp.extend(px);
    let gif = b"GIF89a\x01\x00\x01\x00\x80\x00\x00\x00\x00\x00\xff\xff\xff\x2c\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02\x44\x01\x00\x3b".to_vec();
    let tiff = |bits: u16, format: u16| {
        let mut t = b"II*\x00\x08\x00\x00\x00".to_vec();
        let data_at = 8 + 2 + 10 * 12 + 4 + 6u32;
        let bytes = 3 * bits as u32 / 8;
        let e: [(u16, u16, u32, u32); 10] = [
            (256, 3, 1, 1),
            (257, 3, 1, 1),
            (258, 3, 3, data_at - 6),
            (259, 3, 1, 1),
            (262, 3, 1, 2),
            (273, 4, 1, data_at),
            (277, 3, 1, 3),
            (278, 3, 1, 1),
            (279, 4, 1, bytes),
            (339, 3, 1, format as u32),
        ];
        t.extend(10u16.to_le_bytes());
        for (tag, ty, n, v) in e {
            t.extend(tag.to_le_bytes());
            t.extend(ty.to_le_bytes());
            t.extend(n.to_le_bytes());
            t.extend(v.to_le_bytes());
        }
        t.extend([0; 4]);
        for _ in 0..3 {
            t.extend(bits.to_le_bytes());
        }
        t.extend(vec![0u8; bytes as usize]);
        t
    };
    vec![("bmp", bmp), ("gif", gif), ("tiff", tiff(8, 1)), ("tiff", tiff(16, 1)), ("tiff", tiff(32, 3))]
}
