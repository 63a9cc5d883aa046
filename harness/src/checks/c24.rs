//! C24: size, rotation and placement of a picture are written as the standard says and survive reading.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a picture in the line has no place for overlap, stacking order, position or cell layout; they are compared for floating pictures only".into(),
            "a picture in the line that was told to overlap may say that no text flows around it (an existing test pins this)".into(),
            "a floating picture that may overlap lets no text flow around it, any other one lets it flow on both sides".into(),
            "a rotation is a whole number of degrees; the file counts sixty-thousandths of a degree".into(),
        ],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Off(i32),
    Al(&'static str),
}
/// What a picture was told.
#[derive(Clone, Debug, PartialEq)]
pub struct M {
    float: bool,
    w: u32,
    h: u32,
    rot: u16,
    dist: [i32; 4],
    simple: bool,
    sxy: (i32, i32),
    overlap: bool,
    in_cell: bool,
    z: u32,
    x: At,
    y: At,
    fx: &'static str,
    fy: &'static str,
}

type Fp = Box<dyn Fn(Pic) -> Pic + Send + Sync>;
type Fm = Box<dyn Fn(&mut M) + Send + Sync>;
struct Op {
    name: String,
    kind: &'static str,
    /// one of the values that stand for the others in pairs
    rep: bool,
    f: Fp,
    m: Fm,
}

pub const HF: &[(RelativeFromHType, &str)] = &[
    (RelativeFromHType::Character, "character"),
    (RelativeFromHType::Column, "column"),
    (RelativeFromHType::InsideMargin, "insideMargin"),
    (RelativeFromHType::LeftMargin, "leftMargin"),
    (RelativeFromHType::Margin, "margin"),
    (RelativeFromHType::OutsizeMargin, "outsideMargin"),
    (RelativeFromHType::Page, "page"),
    (RelativeFromHType::RightMargin, "rightMargin"),
];
pub const VF: &[(RelativeFromVType, &str)] = &[
    (RelativeFromVType::BottomMargin, "bottomMargin"),
    (RelativeFromVType::InsideMargin, "insideMargin"),
    (RelativeFromVType::Line, "line"),
    (RelativeFromVType::Margin, "margin"),
    (RelativeFromVType::OutsizeMargin, "outsideMargin"),
    (RelativeFromVType::Page, "page"),
    (RelativeFromVType::Paragraph, "paragraph"),
    (RelativeFromVType::TopMargin, "topMargin"),
];
pub const HA: &[(PicAlign, &str)] = &[(PicAlign::Left, "left"), (PicAlign::Right, "right"), (PicAlign::Center, "center")];
pub const VA: &[(PicAlign, &str)] = &[(PicAlign::Top, "top"), (PicAlign::Bottom, "bottom"), (PicAlign::Center, "center")];
const OFFS: &[i32] = &[-7, 0, 1, 914_400, i32::MIN, i32::MAX];
const DISTS: &[i32] = &[11, 0, 1, 914_400, i32::MAX];
const U32S: &[u32] = &[5, 0, 1, 251_658_240, u32::MAX];

fn align(a: &str) -> PicAlign {
    match a {
        "left" => PicAlign::Left,
        "right" => PicAlign::Right,
        "top" => PicAlign::Top,
        "bottom" => PicAlign::Bottom,
        _ => PicAlign::Center,
    }
}

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |kind: &'static str, name: String, rep: bool, f: Fp, m: Fm| v.push(Op { name, kind, rep, f, m });
    add("floating", "floating".into(), true, Box::new(|p| p.floating()), Box::new(|m| m.float = true));
    add("overlapping", "overlapping".into(), true, Box::new(|p| p.overlapping()), Box::new(|m| m.overlap = true));
    for (i, &(w, h)) in [(3, 4), (1, 2), (9525, 19050), (u32::MAX, 1), (1, u32::MAX), (0, 5)].iter().enumerate() {
        add("size", format!("size {w} {h}"), i == 0, Box::new(move |p| p.size(w, h)), Box::new(move |m| (m.w, m.h) = (w, h)));
    }
    for (i, &r) in [45, 0, 1, 90, 180, 270, 359, 360, 721, u16::MAX].iter().enumerate() {
        add("rotate", format!("rotate {r}"), i == 0, Box::new(move |p| p.rotate(r)), Box::new(move |m| m.rot = r));
    }
    for (i, &o) in OFFS.iter().enumerate() {
        add("offset_x", format!("offset_x {o}"), i == 0, Box::new(move |p| p.offset_x(o)), Box::new(move |m| m.x = At::Off(o)));
        add("offset_y", format!("offset_y {o}"), i == 0, Box::new(move |p| p.offset_y(o)), Box::new(move |m| m.y = At::Off(o)));
        add("position_h", format!("position_h offset {o}"), false, Box::new(move |p| p.position_h(DrawingPosition::Offset(o))), Box::new(move |m| m.x = At::Off(o)));
        add("position_v", format!("position_v offset {o}"), false, Box::new(move |p| p.position_v(DrawingPosition::Offset(o))), Box::new(move |m| m.y = At::Off(o)));
        add("simple_pos_x", format!("simple_pos_x {o}"), i == 0, Box::new(move |mut p| { p.simple_pos_x = o; p }), Box::new(move |m| m.sxy.0 = o));
        add("simple_pos_y", format!("simple_pos_y {o}"), i == 0, Box::new(move |mut p| { p.simple_pos_y = o; p }), Box::new(move |m| m.sxy.1 = o));
    }
    for (i, &(a, n)) in HA.iter().enumerate() {
        add("position_h", format!("position_h {n}"), i == 1, Box::new(move |p| p.position_h(DrawingPosition::Align(a))), Box::new(move |m| m.x = At::Al(n)));
    }
    for (i, &(a, n)) in VA.iter().enumerate() {
        add("position_v", format!("position_v {n}"), i == 1, Box::new(move |p| p.position_v(DrawingPosition::Align(a))), Box::new(move |m| m.y = At::Al(n)));
    }
    for (i, &(t, n)) in HF.iter().enumerate() {
        add("relative_from_h", format!("relative_from_h {n}"), i == 1, Box::new(move |p| p.relative_from_h(t)), Box::new(move |m| m.fx = n));
    }
    for (i, &(t, n)) in VF.iter().enumerate() {
        add("relative_from_v", format!("relative_from_v {n}"), i == 2, Box::new(move |p| p.relative_from_v(t)), Box::new(move |m| m.fy = n));
    }
    for (i, &d) in DISTS.iter().enumerate() {
        let r = i == 0;
        add("dist_t", format!("dist_t {d}"), r, Box::new(move |p| p.dist_t(d)), Box::new(move |m| m.dist[0] = d));
        add("dist_b", format!("dist_b {d}"), r, Box::new(move |p| p.dist_b(d)), Box::new(move |m| m.dist[1] = d));
        add("dist_l", format!("dist_l {d}"), r, Box::new(move |p| p.dist_l(d)), Box::new(move |m| m.dist[2] = d));
        add("dist_r", format!("dist_r {d}"), r, Box::new(move |p| p.dist_r(d)), Box::new(move |m| m.dist[3] = d));
    }
    for b in [true, false] {
        add("simple_pos", format!("simple_pos {b}"), b, Box::new(move |p| p.simple_pos(b)), Box::new(move |m| m.simple = b));
        add("layout_in_cell", format!("layout_in_cell {b}"), b, Box::new(move |mut p| { p.layout_in_cell = b; p }), Box::new(move |m| m.in_cell = b));
    }
    for (i, &z) in U32S.iter().enumerate() {
        add("relative_height", format!("relative_height {z}"), i == 0, Box::new(move |p| p.relative_height(z)), Box::new(move |m| m.z = z));
    }
    v
}

/// A picture of 10 by 20 pixels as the library makes it.
fn fresh(n: u8) -> (Pic, M) {
    let m = M {
        float: false,
        w: 95_250,
        h: 190_500,
        rot: 0,
        dist: [0; 4],
        simple: false,
        sxy: (0, 0),
        overlap: false,
        in_cell: false,
        z: 190_500,
        x: At::Off(0),
        y: At::Off(0),
        fx: "margin",
        fy: "margin",
    };
    (Pic::new_with_dimensions(png(n), 10, 20), m)
}

/// What can be told from a package or a model: settings without a place in an inline picture are dropped.
fn facts(m: &M) -> Vec<(&'static str, String)> {
    let at = |a: At| match a {
        At::Off(o) => format!("offset {o}"),
        At::Al(a) => format!("align {a}"),
    };
    let mut v = vec![
        ("floating", m.float.to_string()),
        ("width", m.w.to_string()),
        ("height", m.h.to_string()),
        ("rotation", (m.rot as u64 * 60_000).to_string()),
        ("distance above", m.dist[0].to_string()),
        ("distance below", m.dist[1].to_string()),
        ("distance left", m.dist[2].to_string()),
        ("distance right", m.dist[3].to_string()),
    ];
    if m.float {
        v.extend([
            ("simple position", m.simple.to_string()),
            ("simple x", m.sxy.0.to_string()),
            ("simple y", m.sxy.1.to_string()),
            ("overlap", m.overlap.to_string()),
            ("layout in cell", m.in_cell.to_string()),
            ("stacking", m.z.to_string()),
            ("horizontal", at(m.x)),
            ("vertical", at(m.y)),
            ("horizontal from", m.fx.to_string()),
            ("vertical from", m.fy.to_string()),
        ]);
    }
    v
}

fn one<'a>(e: &'a El, q: &str) -> Result<&'a El, String> {
    let v = e.children(q);
    if v.len() == 1 {
        Ok(v[0])
    } else {
        Err(format!("{} {q} in {}", v.len(), e.q()))
    }
}
fn need(e: &El, a: &str) -> Result<String, String> {
    e.attr(a).map(|s| s.to_string()).ok_or(format!("no {a} on {}", e.q()))
}
fn on(e: &El, a: &str) -> Result<String, String> {
    match need(e, a)?.as_str() {
        "1" | "true" | "on" => Ok("true".into()),
        "0" | "false" | "off" => Ok("false".into()),
        s => Err(format!("{a}={s}")),
    }
}

/// The order the standard gives the children of an anchor.
const ORDER: &[&str] = &[
    "wp:simplePos", "wp:positionH", "wp:positionV", "wp:extent", "wp:effectExtent", "wp:wrapNone", "wp:wrapSquare",
    "wp:docPr", "wp:cNvGraphicFramePr", "a:graphic",
];

fn facts_of_drawing(d: &El) -> Result<(Vec<(&'static str, String)>, Option<bool>), String> {
    let kids: Vec<&El> = d.els().collect();
    if kids.len() != 1 {
        return Err(format!("{} elements in a drawing", kids.len()));
    }
    let k = kids[0];
    let float = match k.q().as_str() {
        "wp:anchor" => true,
        "wp:inline" => false,
        q => return Err(format!("{q} in a drawing")),
    };
    let mut last = 0;
    for c in k.els() {
        match ORDER.iter().position(|o| c.is(o)) {
            Some(p) if p >= last => last = p,
            Some(_) => return Err(format!("{} out of order in {}", c.q(), k.q())),
            None => return Err(format!("{} in {}", c.q(), k.q())),
        }
    }
    let ext = one(k, "wp:extent")?;
    let g = one(k, "a:graphic")?;
    let pics = g.all("pic:pic");
    if pics.len() != 1 {
        return Err(format!("{} pictures in a drawing", pics.len()));
    }
    let x = one(one(pics[0], "pic:spPr")?, "a:xfrm")?;
    let e2 = one(x, "a:ext")?;
    let (w, h) = (need(ext, "cx")?, need(ext, "cy")?);
    if (need(e2, "cx")?, need(e2, "cy")?) != (w.clone(), h.clone()) {
        return Err("the drawing and its picture differ in size".into());
    }
    let mut v = vec![
        ("floating", float.to_string()),
        ("width", w),
        ("height", h),
        ("rotation", x.attr("rot").unwrap_or("0").to_string()),
        ("distance above", need(k, "distT")?),
        ("distance below", need(k, "distB")?),
        ("distance left", need(k, "distL")?),
        ("distance right", need(k, "distR")?),
    ];
    if !float {
        if k.child("wp:wrapSquare").is_some() {
            return Err("text flows around a picture in the line".into());
        }
        return Ok((v, k.child("wp:wrapNone").map(|_| true)));
    }
    let s = one(k, "wp:simplePos")?;
    let pos = |q: &str| -> Result<(String, String), String> {
        let p = one(k, q)?;
        let c: Vec<&El> = p.els().collect();
        if c.len() != 1 {
            return Err(format!("{} children of {q}", c.len()));
        }
        let at = match c[0].q().as_str() {
            "wp:posOffset" => format!("offset {}", c[0].text()),
            "wp:align" => format!("align {}", c[0].text()),
            o => return Err(format!("{o} in {q}")),
        };
        Ok((need(p, "relativeFrom")?, at))
    };
    let (fx, px) = pos("wp:positionH")?;
    let (fy, py) = pos("wp:positionV")?;
    v.extend([
        ("simple position", on(k, "simplePos")?),
        ("simple x", need(s, "x")?),
        ("simple y", need(s, "y")?),
        ("overlap", on(k, "allowOverlap")?),
        ("layout in cell", on(k, "layoutInCell")?),
        ("stacking", need(k, "relativeHeight")?),
        ("horizontal", px),
        ("vertical", py),
        ("horizontal from", fx),
        ("vertical from", fy),
    ]);
    let none = k.child("wp:wrapNone").is_some();
    if none == k.child("wp:wrapSquare").is_some() {
        return Err("text flow is not stated once".into());
    }
    Ok((v, Some(none)))
}

fn model_of(p: &Pic) -> M {
    let at = |d: DrawingPosition| match d {
        DrawingPosition::Offset(o) => At::Off(o),
        DrawingPosition::Align(a) => At::Al(HA.iter().chain(VA).find(|x| x.0 == a).unwrap().1),
    };
    M {
        float: p.position_type == DrawingPositionType::Anchor,
        w: p.size.0,
        h: p.size.1,
        rot: p.rot,
        dist: [p.dist_t, p.dist_b, p.dist_l, p.dist_r],
        simple: p.simple_pos,
        sxy: (p.simple_pos_x, p.simple_pos_y),
        overlap: p.allow_overlap,
        in_cell: p.layout_in_cell,
        z: p.relative_height,
        x: at(p.position_h),
        y: at(p.position_v),
        fx: HF.iter().find(|x| x.0 == p.relative_from_h).unwrap().1,
        fy: VF.iter().find(|x| x.0 == p.relative_from_v).unwrap().1,
    }
}

fn compare(l: &mut Leaf, stage: &str, want: &[(&'static str, String)], got: &[(&'static str, String)]) {
    for (w, g) in want.iter().zip(got) {
        l.evals += 1;
        if w != g {
            return l.fail(&format!("{stage}: {}", w.0), format!("{stage}: {} is {:?}, was told {:?}", w.0, g.1, w.1));
        }
    }
    if want.len() != got.len() {
        l.fail(&format!("{stage}: kind"), format!("{stage}: {got:?} instead of {want:?}"));
    }
}

fn judge_package(l: &mut Leaf, stage: &str, bytes: &[u8], want: &[M]) {
    let pkg = match Package::open(bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("archive", e),
    };
    let mut ds: Vec<&El> = vec![];
    if let Some((_, e)) = pkg.document() {
        ds.extend(e.all("w:drawing"));
    }
    for (n, e) in &pkg.xmls {
        if let (true, Ok(e)) = (n.contains("header") || n.contains("footer"), e) {
            ds.extend(e.all("w:drawing"));
        }
    }
    if ds.len() != want.len() {
        return l.fail(&format!("{stage}: count"), format!("{stage}: {} drawings for {} pictures", ds.len(), want.len()));
    }
    for (d, m) in ds.iter().zip(want) {
        match facts_of_drawing(d) {
            Err(e) => return l.fail(&format!("{stage}: drawing"), format!("{stage}: {e}")),
            Ok((v, flow)) => {
                compare(l, stage, &facts(m), &v);
                if let Some(none) = flow {
                    if none != m.overlap {
                        l.fail(&format!("{stage}: text flow"), format!("{stage}: text flow none={none}, overlap {}", m.overlap));
                    }
                }
                l.validated += 1;
            }
        }
        if !l.violations.is_empty() {
            return;
        }
    }
}

/// Packs, judges, reads, judges, packs again and judges once more.
fn judge(l: &mut Leaf, make: impl Fn() -> Docx, want: &[M], read: bool) {
    let bytes = match guarded(|| pack_build(make())) {
        Ok(Ok(b)) => b,
        e => return l.fail("write failed", format!("packing failed: {e:?}")),
    };
    judge_package(l, "packed", &bytes, want);
    if !read || !l.violations.is_empty() {
        return;
    }
    let d = match guarded(|| read_docx(&bytes)) {
        Ok(Ok(d)) => d,
        e => return l.fail("read failed", format!("reading failed: {:?}", e.map(|r| r.map(|_| ())))),
    };
    let ps = model_pics(&d);
    if ps.len() != want.len() {
        return l.fail("read: count", format!("{} pictures read for {}", ps.len(), want.len()));
    }
    for (p, m) in ps.iter().zip(want) {
        compare(l, "read", &facts(m), &facts(&model_of(p)));
    }
    if !l.violations.is_empty() {
        return;
    }
    match guarded(|| pack_build(d.clone())) {
        Ok(Ok(b)) => judge_package(l, "packed again", &b, want),
        e => l.fail("second write failed", format!("packing what was read failed: {e:?}")),
    }
}

fn pa(kids: Vec<I>) -> Pa {
    Pa { id: None, num: None, style: None, kids }
}
fn doc_of(host: &str, run_host: &str, p: Pic) -> Doc {
    place(host, pa(vec![wrap(run_host, vec![K::Placed(Box::new(p))])]), 1)
}

/// Every setting with every value on a floating picture.
pub fn groups() -> Vec<super::Group> {
    let all = ops();
    let mut cases = vec![];
    for o in std::iter::once(None).chain(all.iter().map(Some)) {
        let (p, mut m) = fresh(1);
        let mut p = p.id("rIdP").floating();
        m.float = true;
        if let Some(o) = o {
            p = (o.f)(p);
            (o.m)(&mut m);
        }
        cases.push(super::Case {
            name: o.map_or("".into(), |o| o.name.clone()),
            want: format!("{:?}", facts(&m)),
            make: Box::new(move || doc_of("body", "direct", p.clone()).to_docx()),
        });
    }
    vec![super::Group { name: "picture".into(), cases }]
}

/// Places a picture can be put and read back from.
fn hosts() -> Vec<&'static str> {
    PARA_HOSTS.iter().copied().filter(|h| !h.contains("toc") && !h.starts_with("comment") && *h != "footnote").collect()
}
/// Runs the reader keeps.
const READ_RUNS: &[&str] = &["direct", "link", "anchor", "ins", "del", "moveFrom", "moveTo", "ins-del", "link-ins"];

pub fn phases(t: Tier) -> Vec<Phase> {
    let quick = t == Tier::Quick;
    let all = Arc::new(ops());
    let reps: Arc<Vec<usize>> = Arc::new((0..all.len()).filter(|i| all[*i].rep).collect());
    let mut v = vec![];
    v.push(Phase::new("single", "every setting with every value on an inline and a floating picture in every place, read back and packed again", {
        let all = all.clone();
        let reps = reps.clone();
        let hs = hosts();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let h = *ch.pick(&hs);
            let r = *ch.pick(READ_RUNS);
            let fl = ch.flag();
            let i = ch.choose(all.len());
            l.label = format!("{} floating={fl} in {h}/{r}", all[i].name);
            let full = h == "body" || r == "direct";
            if (quick && !full) || (!full && !reps.contains(&i)) {
                l.skip = true;
                return;
            }
            let (mut p, mut m) = fresh(1);
            if fl {
                p = p.floating();
                m.float = true;
            }
            p = (all[i].f)(p);
            (all[i].m)(&mut m);
            let d = doc_of(h, r, p);
            judge(l, || d.to_docx(), &[m], true);
        }
    }));
    v.push(Phase::new("sequences", format!("all ordered sequences of {} settings on a floating or inline picture; the last of a kind stands", if quick { "two" } else { "three" }), {
        let all = all.clone();
        let reps = reps.clone();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let fl = ch.flag();
            let (mut p, mut m) = fresh(1);
            if fl {
                p = p.floating();
                m.float = true;
            }
            let n = if quick { 2 } else { 3 };
            for k in 0..n {
                let i = if k < 2 { ch.choose(all.len()) } else { *ch.pick(&reps) };
                l.label.push_str(&format!("{}, ", all[i].name));
                p = (all[i].f)(p);
                (all[i].m)(&mut m);
            }
            l.label.push_str(&format!("floating={fl}"));
            let d = doc_of("body", "direct", p);
            judge(l, || d.to_docx(), &[m], true);
        }
    }));
    v.push(Phase::new("neighbours", "two pictures with one setting each, in one run, one paragraph, one table or two paragraphs: neither leaks into the other", {
        let all = all.clone();
        let reps = reps.clone();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let lay = ch.choose(4);
            let mut ps = vec![];
            let mut ms = vec![];
            for n in 0..2 {
                let fl = ch.flag();
                let i = *ch.pick(&reps);
                l.label.push_str(&format!("{} floating={fl}, ", all[i].name));
                let (mut p, mut m) = fresh(n + 1);
                if fl {
                    p = p.floating();
                    m.float = true;
                }
                ps.push(K::Placed(Box::new((all[i].f)(p))));
                (all[i].m)(&mut m);
                ms.push(m);
            }
            l.label.push_str(&format!("layout {lay}"));
            let (a, b) = (ps[0].clone(), ps[1].clone());
            let body = match lay {
                0 => vec![para(vec![I::R(vec![a, b])])],
                1 => vec![para(vec![I::R(vec![a]), rtext("x"), I::R(vec![b])])],
                2 => vec![B::T(vec![vec![vec![para(vec![I::R(vec![a])])], vec![para(vec![I::R(vec![b])])]]])],
                _ => vec![para(vec![I::R(vec![a])]), para(vec![I::R(vec![b])])],
            };
            let d = Doc { body, hf: vec![] };
            judge(l, || d.to_docx(), &ms, true);
        }
    }));
    v.push(Phase::new("together", "every setting at once and all but one of them, in two orders", {
        let all = all.clone();
        let reps = reps.clone();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let out = ch.choose(reps.len() + 1);
            let back = ch.flag();
            let (mut p, mut m) = fresh(1);
            let mut seq: Vec<usize> = reps.iter().enumerate().filter(|x| x.0 != out).map(|x| *x.1).collect();
            if back {
                seq.reverse();
            }
            l.label = format!("without {} back={back}", reps.get(out).map_or("none", |i| all[*i].name.as_str()));
            for i in seq {
                p = (all[i].f)(p);
                (all[i].m)(&mut m);
            }
            let d = doc_of("body", "direct", p);
            judge(l, || d.to_docx(), &[m], true);
        }
    }));
    v.push(Phase::new("pixels", "pictures of every size up to a bound in pixels are as many units of 1/914400 inch", move |ch: &mut Chooser, l: &mut Leaf| {
        let n = if quick { 24 } else { 80 };
        let (w, h) = (ch.choose(n) as u32, ch.choose(n) as u32);
        l.label = format!("{w}x{h} px");
        let p = Pic::new_with_dimensions(png(1), w, h);
        let mut m = fresh(1).1;
        (m.w, m.h) = (w * 9525, h * 9525);
        let d = doc_of("body", "direct", p);
        judge(l, || d.to_docx(), &[m], true);
    }));
    v.push(Phase::new("spelled", "anchors written by others: every spelling of the flags, lengths with fractions, rotations of either sign", move |ch: &mut Chooser, l: &mut Leaf| {
        const FLAG: &[(&str, bool)] = &[("1", true), ("0", false), ("true", true), ("false", false), ("on", true), ("off", false)];
        const ROT: &[(&str, u16)] = &[("", 0), ("0", 0), ("60000", 1), ("5400000", 90), ("21540000", 359), ("-5400000", 270), ("-60000", 359)];
        const OFF: &[(&str, At)] = &[
            ("<wp:posOffset>12</wp:posOffset>", At::Off(12)),
            ("<wp:posOffset>-12</wp:posOffset>", At::Off(-12)),
            ("<wp:align>center</wp:align>", At::Al("center")),
        ];
        let (s, o, c) = (*ch.pick(FLAG), *ch.pick(FLAG), *ch.pick(FLAG));
        let r = *ch.pick(ROT);
        let x = *ch.pick(OFF);
        let y = *ch.pick(OFF);
        l.label = format!("simplePos={} allowOverlap={} layoutInCell={} rot={:?} {} {}", s.0, o.0, c.0, r.0, x.0, y.0);
        let (p, mut m) = fresh(1);
        let d = doc_of("body", "direct", p.floating());
        m.float = true;
        let bytes = match guarded(|| pack_build(d.to_docx())) {
            Ok(Ok(b)) => b,
            e => return l.fail("write failed", format!("packing failed: {e:?}")),
        };
        let rot = if r.0.is_empty() { String::new() } else { format!(" rot=\"{}\"", r.0) };
        let pkg = match Package::open(&bytes) {
            Ok(p) => p,
            Err(e) => return l.fail("archive", e),
        };
        let id = pkg.document().and_then(|d| d.1.all("a:blip").first().and_then(|b| b.attr("r:embed").map(|s| s.to_string())));
        let drawing = format!(
            "<w:drawing><wp:anchor distT=\"1\" distB=\"2\" distL=\"3\" distR=\"4\" simplePos=\"{}\" relativeHeight=\"9\" behindDoc=\"0\" locked=\"0\" layoutInCell=\"{}\" allowOverlap=\"{}\"><wp:simplePos x=\"5\" y=\"6\"/><wp:positionH relativeFrom=\"page\">{}</wp:positionH><wp:positionV relativeFrom=\"line\">{}</wp:positionV><wp:extent cx=\"95250\" cy=\"190500\"/><wp:wrapNone/><wp:docPr id=\"1\" name=\"n\"/><a:graphic xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\"><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/picture\"><pic:pic xmlns:pic=\"http://schemas.openxmlformats.org/drawingml/2006/picture\"><pic:nvPicPr><pic:cNvPr id=\"0\" name=\"\"/><pic:cNvPicPr/></pic:nvPicPr><pic:blipFill><a:blip r:embed=\"{}\"/><a:stretch><a:fillRect/></a:stretch></pic:blipFill><pic:spPr><a:xfrm{rot}><a:off x=\"0\" y=\"0\"/><a:ext cx=\"95250\" cy=\"190500\"/></a:xfrm><a:prstGeom prst=\"rect\"><a:avLst/></a:prstGeom></pic:spPr></pic:pic></a:graphicData></a:graphic></wp:anchor></w:drawing>",
            s.0, c.0, o.0, x.0, y.0, id.unwrap_or_default()
        );
        let mut parts = pkg.parts.iter().map(|p| (p.0.clone(), p.1.clone())).collect::<Vec<_>>();
        for e in parts.iter_mut().filter(|e| e.0 == "word/document.xml") {
            let t = String::from_utf8_lossy(&e.1).to_string();
            let (Some(a), Some(b)) = (t.find("<w:drawing"), t.find("</w:drawing>")) else { continue };
            e.1 = format!("{}{drawing}{}", &t[..a], &t[b + "</w:drawing>".len()..]).into_bytes();
        }
        let z = crate::zipread::write_stored(&parts);
        m.dist = [1, 2, 3, 4];
        m.simple = s.1;
        m.overlap = o.1;
        m.in_cell = c.1;
        m.z = 9;
        m.sxy = (5, 6);
        (m.x, m.y) = (x.1, y.1);
        (m.fx, m.fy) = ("page", "line");
        m.rot = r.1;
        let d = match guarded(|| read_docx(&z)) {
            Ok(Ok(d)) => d,
            _ => return l.fail("read failed", "reading failed".to_string()),
        };
        let ps = model_pics(&d);
        if ps.len() != 1 {
            return l.fail("read: count", format!("{} pictures", ps.len()));
        }
        compare(l, "read", &facts(&m), &facts(&model_of(&ps[0])));
        match guarded(|| pack_build(d.clone())) {
            Ok(Ok(b)) if l.violations.is_empty() => judge_package(l, "packed again", &b, &[m]),
            Ok(Ok(_)) => {}
            e => l.fail("second write failed", format!("packing what was read failed: {e:?}")),
        }
    }));
    v
}
