//! C08: every picture leads to its own bytes, in the package and after reading.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "image bytes are compared as a whole; what a preview looks like is not judged".into(),
            "pictures in comments and footnotes are judged under C01 (known finding: no relationships)".into(),
        ],
    }
}

/// Two strings of equal length and equal CRC-32, then strings that differ otherwise.
pub fn colliding() -> (Vec<u8>, Vec<u8>) {
    let a: Vec<u8> = (0..16u8).map(|i| i.wrapping_mul(37).wrapping_add(11)).collect();
    let mut b = a.clone();
    // adding a multiple of the generator polynomial leaves the remainder alone (bits run low to high)
    let poly: u64 = 0x1_04C1_1DB7;
    for i in 0..33 {
        if poly >> (32 - i) & 1 == 1 {
            let bit = 24 + i;
            b[bit / 8] ^= 1 << (bit % 8);
        }
    }
    assert!(a != b && crc32(&a) == crc32(&b));
    (a, b)
}

fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in d {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

/// Image bytes by format; the decodable ones are one-pixel images.
pub fn formats() -> Vec<(&'static str, Vec<u8>)> {
    let bmp = {
        let mut v = b"BM".to_vec();
        v.extend(58u32.to_le_bytes());
        v.extend([0; 4]);
        v.extend(54u32.to_le_bytes());
        v.extend(40u32.to_le_bytes());
        v.extend(1u32.to_le_bytes());
        v.extend(1u32.to_le_bytes());
        v.extend(1u16.to_le_bytes());
        v.extend(24u16.to_le_bytes());
        v.extend([0; 24]);
        v.extend([1, 2, 3, 0]);
        v
    };
    let gif = b"GIF89a\x01\x00\x01\x00\x80\x00\x00\x00\x00\x00\xff\xff\xff!\xf9\x04\x01\x00\x00\x00\x00,\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02D\x01\x00;".to_vec();
    let emf = {
        let mut v = vec![1, 0, 0, 0, 108, 0, 0, 0];
        v.extend([0; 32]);
        v.extend(b" EMF");
        v.extend([0; 64]);
        v
    };
    let (a, b) = colliding();
    vec![
        ("png", png(1)),
        ("bmp", bmp),
        ("gif", gif),
        ("emf", emf),
        ("jpeg-header-only", vec![0xff, 0xd8, 0xff, 0xe0, 0, 16, b'J', b'F', b'I', b'F']),
        ("svg", b"<svg xmlns='http://www.w3.org/2000/svg'/>".to_vec()),
        ("unknown", a),
        ("unknown-2", b),
        ("one-byte", vec![0]),
    ]
}

/// Pictures named in a tree, in order.
fn pics(ns: &[N], out: &mut Vec<String>) {
    for n in ns {
        if n.tag.starts_with("pic:") {
            out.push(n.tag.clone());
        }
        pics(&n.kids, out);
    }
}

fn pics_of(ns: &[N]) -> Vec<String> {
    let mut v = Vec::new();
    pics(ns, &mut v);
    v
}

/// Compares the pictures a document was given with those its package and its reading show.
pub fn judge(l: &mut Leaf, want: &[N], make: impl Fn() -> Docx, streams: &[bool]) {
    let want = pics_of(want);
    for stream in streams {
        let bytes = match guarded(|| if *stream { pack_stream(make()) } else { pack_build(make()) }) {
            Ok(Ok(b)) => b,
            e => {
                l.fail("write-failed", format!("packing failed: {e:?}"));
                return;
            }
        };
        let pkg = match Package::open(&bytes) {
            Ok(p) => p,
            Err(e) => {
                l.fail("write-archive", e);
                return;
            }
        };
        l.evals += 1;
        let got = pics_of(&from_package(&pkg));
        if got != want {
            l.fail("packed-bytes", format!("pictures lead to {got:?} instead of {want:?}"));
        }
        let mut media: Vec<String> =
            pkg.parts.iter().filter(|p| p.0.contains("/media/")).map(|p| format!("pic:{}", short(&p.1))).collect();
        media.sort();
        let mut distinct = want.clone();
        distinct.sort();
        distinct.dedup();
        if media != distinct {
            l.fail("stored-once", format!("media parts hold {media:?}, pictures {distinct:?}"));
        }
        l.validated += 1;
        for preview in [true, false] {
            let opt = ReadDocxOptions::default().with_image_previews(preview);
            let read = match guarded(|| read_docx_with_options(&bytes, opt)) {
                Ok(Ok(d)) => d,
                e => {
                    l.fail("read-failed", format!("reading failed: {:?}", e.map(|r| r.map(|_| ()))));
                    return;
                }
            };
            l.evals += 1;
            let got = pics_of(&from_model(&read));
            if got != want {
                l.fail(
                    if preview { "read-bytes" } else { "read-bytes-without-preview" },
                    format!("after reading (previews {preview}) pictures lead to {got:?} instead of {want:?}"),
                );
            }
            if !preview && read.images.iter().any(|i| !i.3 .0.is_empty()) {
                l.fail("preview-unasked", "a preview was produced although none was requested".to_string());
            }
        }
    }
}

const SPOTS: &[(&str, &str)] = &[
    ("body", "direct"),
    ("body", "ins-del"),
    ("cell", "link"),
    ("section", "moveTo"),
    ("header", "direct"),
    ("footer", "direct"),
    ("section-header", "sdt"),
    ("section-first-footer", "direct"),
];

fn pa(kids: Vec<I>) -> Pa {
    Pa { id: None, num: None, style: None, kids }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    let quick = t == Tier::Quick;
    v.push(Phase::new("format", "every image format in every run position of every picture position, inline and floating", {
        let fs = formats();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let h = *ch.pick(PARA_HOSTS);
            let w = *ch.pick(RUN_HOSTS);
            let fl = ch.flag();
            let (name, b) = ch.pick(&fs).clone();
            l.label = format!("{h} <- {w} <- {name} floating={fl}");
            if h.contains("toc") || h.starts_with("comment") || h == "footnote" {
                l.skip = true;
                return;
            }
            let d = place(h, pa(vec![wrap(w, vec![K::Pic(b, fl)])]), 1);
            judge(l, &d.neutral(), || d.to_docx(), if quick { &[true] } else { &[true, false] });
        }
    }));
    let n = 3;
    v.push(Phase::new("equal", format!("up to {n} pictures over {} positions with every pattern of equal, CRC-equal and different bytes", SPOTS.len()), {
        let (a, b) = colliding();
        let vals = [a, b, png(1), png(2)];
        move |ch: &mut Chooser, l: &mut Leaf| {
            let k = 2 + ch.choose(n - 1);
            let mut d = Doc::default();
            for i in 0..k {
                let (h, w) = *ch.pick(SPOTS);
                let x = ch.choose(if k == 3 && quick { 3 } else { 4 });
                l.label.push_str(&format!("{h}/{w}:{x} "));
                d = d.merge(place(h, pa(vec![wrap(w, vec![K::Pic(vals[x].clone(), false)])]), i));
            }
            judge(l, &d.neutral(), || d.to_docx(), &[true]);
        }
    }));
    let ids = super::c01::IDS;
    v.push(Phase::new("ids", "up to three pictures and links whose relationship ids the caller chose, some equal, some taken", move |ch: &mut Chooser, l: &mut Leaf| {
        let aside = ch.flag();
        let n = ch.choose(3) + 1;
        let items: Vec<(usize, usize)> = (0..n).map(|_| (ch.choose(4), ch.choose(ids.len()))).collect();
        l.label = format!("aside={aside} {items:?}");
        if !items.iter().any(|i| i.0 < 2) {
            l.skip = true;
            return;
        }
        let want: Vec<N> =
            items.iter().filter(|i| i.0 < 2).map(|i| N::leaf(format!("pic:{}", short(&png(i.0 as u8 + 1))))).collect();
        judge(l, &want, || super::c01::with_ids(aside, &items), &[true]);
    }));
    v.push(Phase::new("reread", "a picture document read back, then up to two pictures added, then packed", {
        let (a, b) = colliding();
        let vals = [a, b, png(1)];
        move |ch: &mut Chooser, l: &mut Leaf| {
            let mut d = Doc::default();
            let mut spots = Vec::new();
            for i in 0..2 {
                let (h, w) = *ch.pick(&SPOTS[..6]);
                let x = ch.choose(3);
                spots.push(format!("{h}/{w}:{x}"));
                d = d.merge(place(h, pa(vec![wrap(w, vec![K::Pic(vals[x].clone(), false)])]), i));
            }
            let m = ch.choose(2) + 1;
            let added: Vec<usize> = (0..m).map(|_| ch.choose(3)).collect();
            let keep = ch.flag();
            l.label = format!("{spots:?} + {added:?} keep-id={keep}");
            let bytes = match guarded(|| pack_stream(d.to_docx())) {
                Ok(Ok(b)) => b,
                e => return l.fail("write-failed", format!("packing failed: {e:?}")),
            };
            let read = match guarded(|| read_docx(&bytes)) {
                Ok(Ok(d)) => d,
                _ => return l.fail("read-failed", "reading failed".to_string()),
            };
            // an added picture may carry an id that was read
            let known = read.images.first().map(|i| i.0.clone());
            let mut grown = d.clone();
            for x in &added {
                grown.body.push(para(vec![I::R(vec![K::Pic(vals[*x].clone(), false)])]));
            }
            let make = || {
                let mut r = read.clone();
                for x in &added {
                    let mut p = Pic::new_with_dimensions(vals[*x].clone(), 10, 10);
                    if let (true, Some(k)) = (keep, &known) {
                        p.id = k.clone();
                    }
                    r = r.add_paragraph(Paragraph::new().add_run(Run::new().add_image(p)));
                }
                r
            };
            judge(l, &grown.neutral(), make, &[true]);
        }
    }));
    let most = if quick { 24 } else { 120 };
    v.push(Phase::new("many", format!("1..{most} different pictures in the body, in one header and in the headers of as many sections"), move |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(most) + 1;
        let how = ch.choose(3);
        l.label = format!("{n} pictures, layout {how}");
        let p = |i: usize| para(vec![I::R(vec![K::Pic(png(i as u8), false)])]);
        let d = match how {
            0 => Doc { body: (0..n).map(p).collect(), hf: vec![] },
            1 => Doc { body: vec![ptext("x")], hf: vec![(0, (0..n).map(p).collect())] },
            _ => Doc {
                body: (0..n)
                    .map(|i| {
                        let mut s = Sec { kids: vec![ptext("s")], ..Default::default() };
                        s.headers[0] = Some(vec![p(i)]);
                        B::Sec(s)
                    })
                    .collect(),
                hf: vec![],
            },
        };
        judge(l, &d.neutral(), || d.to_docx(), &[true, false]);
    }));
    v
}
