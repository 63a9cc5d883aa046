//! C32: text boxes and shapes are read with their content and placement.

use super::c24::{HA, HF, VA, VF};
use super::Meta;
use crate::explore::*;
use crate::vocab::*;
use crate::zipread::write_stored;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a drawing holds one text box or one picture, as the model holds no more (groups are outside the bounds)".into(),
            "of two alternatives the first is the one that is read".into(),
            "the size of a text box is not compared, as it is not read".into(),
            "a floating drawing states whether it may overlap and whether it is laid out in a cell, as the format demands".into(),
        ],
    }
}

// --------------------------------------------------------------------------------------------- model

#[derive(Clone, Debug)]
enum Item {
    Text(&'static str),
    /// content and whether an older form stands next to it
    Box(Vec<Blk>, bool),
    Pic(bool),
    Shape(Option<&'static str>, Option<&'static str>, Vec<Blk>),
}

#[derive(Clone, Debug)]
enum Blk {
    P(Vec<Item>),
    T(Vec<Item>),
    Control(Vec<Item>),
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}

const BOX: &str = r#"<wps:wsp><wps:cNvSpPr txBox="1"/><wps:spPr><a:xfrm><a:off x="0" y="0"/><a:ext cx="5" cy="6"/></a:xfrm></wps:spPr>"#;

fn framed(frame: &str, inner: &str) -> String {
    let (head, end) = match frame {
        "inline" => (r#"<wp:inline distT="0" distB="0" distL="0" distR="0"><wp:extent cx="5" cy="6"/>"#.to_string(), "</wp:inline>"),
        "anchor" => (
            r#"<wp:anchor distT="0" distB="0" distL="0" distR="0" simplePos="0" relativeHeight="1" behindDoc="0" locked="0" layoutInCell="1" allowOverlap="1"><wp:simplePos x="0" y="0"/><wp:positionH relativeFrom="page"><wp:posOffset>1</wp:posOffset></wp:positionH><wp:positionV relativeFrom="page"><wp:posOffset>2</wp:posOffset></wp:positionV><wp:extent cx="5" cy="6"/>"#.to_string(),
            "</wp:anchor>",
        ),
        f => (f.to_string(), "</wp:anchor>"),
    };
    format!("<w:drawing>{head}{inner}{end}</w:drawing>")
}

fn graphic(kind: &str, inner: &str) -> String {
    format!(r#"<wp:docPr id="1" name="n"/><wp:cNvGraphicFramePr/><a:graphic><a:graphicData uri="http://schemas.microsoft.com/office/word/2010/{kind}">{inner}</a:graphicData></a:graphic>"#)
}

fn boxed(blocks: &str) -> String {
    graphic("wordprocessingShape", &format!("{BOX}<wps:txbx><w:txbxContent>{blocks}</w:txbxContent></wps:txbx><wps:bodyPr/></wps:wsp>"))
}

impl Item {
    fn xml(&self) -> String {
        match self {
            Item::Text(t) => format!("<w:t>{t}</w:t>"),
            Item::Box(b, alt) => {
                let b: String = b.iter().map(|b| b.xml()).collect();
                let d = framed(if *alt { "anchor" } else { "inline" }, &boxed(&b));
                if !alt {
                    return d;
                }
                // the content stands in both forms
                format!(
                    r#"<mc:AlternateContent><mc:Choice Requires="wps">{d}</mc:Choice><mc:Fallback><w:pict><v:shape style="old"><v:textbox><w:txbxContent>{b}</w:txbxContent></v:textbox></v:shape></w:pict></mc:Fallback></mc:AlternateContent>"#
                )
            }
            Item::Pic(float) => framed(
                if *float { "anchor" } else { "inline" },
                &graphic("picture", r#"<pic:pic><pic:nvPicPr><pic:cNvPr id="0" name=""/><pic:cNvPicPr/></pic:nvPicPr><pic:blipFill><a:blip r:embed="rIdP"/></pic:blipFill><pic:spPr><a:xfrm><a:off x="0" y="0"/><a:ext cx="5" cy="6"/></a:xfrm></pic:spPr></pic:pic>"#),
            ),
            Item::Shape(style, image, text) => {
                let s = style.map(|s| format!(r#" style="{}""#, esc(s))).unwrap_or_default();
                let i = image.map(|i| format!(r#"<v:imagedata r:id="{}" o:title="t"/>"#, esc(i))).unwrap_or_default();
                let t: String = text.iter().map(|b| b.xml()).collect();
                let t = if t.is_empty() { t } else { format!("<v:textbox><w:txbxContent>{t}</w:txbxContent></v:textbox>") };
                format!(r##"<w:pict><v:shapetype id="st"><v:stroke joinstyle="miter"/></v:shapetype><v:shape id="s" type="#st"{s}>{i}{t}<w10:wrap type="none"/></v:shape></w:pict>"##)
            }
        }
    }
    fn show(&self) -> String {
        match self {
            Item::Text(t) => format!("'{t}'"),
            Item::Box(b, _) => format!("box[{}]", b.iter().map(|b| b.show()).collect::<String>()),
            Item::Pic(_) => "picture".into(),
            Item::Shape(s, i, _) => format!("shape({s:?},{i:?})"),
        }
    }
}

fn runs(items: &[Item], together: bool) -> String {
    if together {
        return format!("<w:r>{}</w:r>", items.iter().map(|i| i.xml()).collect::<String>());
    }
    items.iter().map(|i| format!("<w:r>{}</w:r>", i.xml())).collect()
}

fn all(items: &[Item]) -> String {
    items.iter().map(|i| i.show()).collect()
}

impl Blk {
    fn xml(&self) -> String {
        match self {
            Blk::P(i) => format!("<w:p>{}</w:p>", runs(i, false)),
            Blk::T(i) => format!("<w:tbl><w:tr><w:tc><w:p>{}</w:p></w:tc></w:tr></w:tbl>", runs(i, false)),
            Blk::Control(i) => format!("<w:sdt><w:sdtPr/><w:sdtContent><w:p>{}</w:p></w:sdtContent></w:sdt>", runs(i, false)),
        }
    }
    fn show(&self) -> String {
        match self {
            Blk::P(i) | Blk::Control(i) => format!("P({})", all(i)),
            Blk::T(i) => format!("T(P({}))", all(i)),
        }
    }
}

// ---------------------------------------------------------------------------------------- what is read

fn of_run(r: &Run, boxes: &mut Vec<TextBox>) -> String {
    let mut s = String::new();
    for c in &r.children {
        match c {
            RunChild::Text(t) => s += &format!("'{}'", t.text),
            RunChild::Shape(x) => s += &format!("shape({:?},{:?})", x.style.as_deref(), x.image_data.as_ref().map(|i| i.id.as_str())),
            RunChild::Drawing(d) => match &d.data {
                Some(DrawingData::TextBox(b)) => {
                    boxes.push(b.clone());
                    let kids: String = b
                        .children
                        .iter()
                        .map(|c| match c {
                            TextBoxContentChild::Paragraph(p) => of_para(p, boxes),
                            TextBoxContentChild::Table(t) => of_table(t, boxes),
                        })
                        .collect();
                    s += &format!("box[{kids}]");
                }
                Some(DrawingData::Pic(_)) => s += "picture",
                None => s += "nothing",
            },
            _ => {}
        }
    }
    s
}
fn of_kids(kids: &[ParagraphChild], boxes: &mut Vec<TextBox>) -> String {
    kids.iter()
        .map(|c| match c {
            ParagraphChild::Run(r) => of_run(r, boxes),
            ParagraphChild::Insert(i) => i.children.iter().map(|c| if let InsertChild::Run(r) = c { of_run(r, boxes) } else { String::new() }).collect(),
            ParagraphChild::Hyperlink(h) => of_kids(&h.children, boxes),
            _ => String::new(),
        })
        .collect()
}
fn of_para(p: &Paragraph, boxes: &mut Vec<TextBox>) -> String {
    format!("P({})", of_kids(&p.children, boxes))
}
fn of_table(t: &Table, boxes: &mut Vec<TextBox>) -> String {
    let mut s = String::new();
    for TableChild::TableRow(r) in &t.rows {
        for TableRowChild::TableCell(c) in &r.cells {
            for k in &c.children {
                match k {
                    TableCellContent::Paragraph(p) => s += &of_para(p, boxes),
                    TableCellContent::Table(t) => s += &of_table(t, boxes),
                    _ => s += "?",
                }
            }
        }
    }
    format!("T({s})")
}
fn of_document(d: &Docx, boxes: &mut Vec<TextBox>) -> String {
    d.document
        .children
        .iter()
        .map(|c| match c {
            DocumentChild::Paragraph(p) => of_para(p, boxes),
            DocumentChild::Table(t) => of_table(t, boxes),
            DocumentChild::StructuredDataTag(s) => s
                .children
                .iter()
                .map(|c| match c {
                    StructuredDataTagChild::Paragraph(p) => of_para(p, boxes),
                    StructuredDataTagChild::Table(t) => of_table(t, boxes),
                    _ => "?".into(),
                })
                .collect(),
            _ => "?".into(),
        })
        .collect()
}

const HOSTS: &[&str] = &["body", "cell", "control", "link", "insertion"];

/// The document around one paragraph's runs, and how it is to be read.
fn around(host: &str, runs: &str, shown: &str) -> (String, String) {
    let (a, b) = match host {
        "body" => (format!("<w:p>{runs}</w:p>"), format!("P({shown})")),
        "cell" => (format!("<w:tbl><w:tr><w:tc><w:p>{runs}</w:p></w:tc></w:tr></w:tbl>"), format!("T(P({shown}))")),
        "control" => (format!("<w:sdt><w:sdtPr/><w:sdtContent><w:p>{runs}</w:p></w:sdtContent></w:sdt>"), format!("P({shown})")),
        "link" => (format!(r#"<w:p><w:hyperlink w:anchor="a">{runs}</w:hyperlink></w:p>"#), format!("P({shown})")),
        _ => (format!(r#"<w:p><w:ins w:id="1" w:author="a">{runs}</w:ins></w:p>"#), format!("P({shown})")),
    };
    const ENDS: &str = "<w:p><w:r><w:t>end</w:t></w:r></w:p>";
    (format!(r#"<w:document {NS} {MORE}><w:body>{ENDS}{a}{ENDS}</w:body></w:document>"#), format!("P('end'){b}P('end')"))
}

const MORE: &str = r#"xmlns:w10="urn:schemas-microsoft-com:office:word""#;

fn judge(l: &mut Leaf, host: &str, runs: &str, shown: &str, place: Option<&TextBox>) {
    let (doc, want) = around(host, runs, shown);
    let parts = package(&doc, &[("media/p.png", "image", "rIdP", "png".into())], &[]);
    l.states.push(hash64(doc.as_bytes()));
    l.transitions += 1;
    l.evals += 1;
    let d = match guarded(|| read_docx(&write_stored(&parts)).map_err(|e| e.to_string())) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return l.fail("not read", e),
        Err(e) => return l.fail("panic", e),
    };
    let mut boxes = vec![];
    let got = of_document(&d, &mut boxes);
    if got != want {
        return l.fail(format!("content in {host}"), format!("read {got}, stated {want}"));
    }
    if let Some(p) = place {
        let mut b = boxes.pop().unwrap_or_default();
        (b.children, b.size) = (p.children.clone(), p.size);
        let (a, b) = (format!("{p:?}"), format!("{b:?}"));
        if a != b {
            let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let name = a[..at].rsplit(", ").next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            return l.fail(format!("placement: {name}"), format!("stated {a}, read {b}"));
        }
    }
    l.validated += 1;
}

fn items(ch: &mut Chooser, depth: usize, rich: bool) -> Vec<Item> {
    let n = if depth == 0 { 2 } else if rich { 6 } else { 4 };
    match ch.choose(n) {
        0 => vec![Item::Text("a")],
        1 => vec![],
        2 => vec![Item::Text("b"), Item::Box(vec![Blk::P(items(ch, depth - 1, false))], ch.flag()), Item::Text("c")],
        3 => vec![Item::Pic(ch.flag())],
        4 => vec![Item::Shape(Some("s"), Some("rIdP"), vec![]), Item::Text("d")],
        _ => vec![Item::Text("e"), Item::Shape(Some("t"), None, vec![Blk::P(items(ch, depth - 1, false))]), Item::Text("f")],
    }
}

fn block(ch: &mut Chooser, depth: usize, rich: bool) -> Blk {
    match ch.choose(3) {
        0 => Blk::P(items(ch, depth, rich)),
        1 => Blk::T(items(ch, depth, rich)),
        _ => Blk::Control(items(ch, depth, rich)),
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    out.push(Phase::new("contents", "every text box of up to two blocks (paragraph, table, content control) of text, pictures, shapes and text boxes, in every place, with and without an older form next to it", move |ch, l| {
        let host = *ch.pick(HOSTS);
        let alt = ch.flag();
        let n = ch.choose(3);
        let kids: Vec<Blk> = (0..n).map(|i| block(ch, if deep { 2 } else { 1 }, i == 0 || deep)).collect();
        let all_ = [Item::Text("x"), Item::Box(kids, alt), Item::Text("y")];
        let together = ch.flag();
        l.label = format!("{host} {together} {all_:?}");
        judge(l, host, &runs(&all_, together), &all(&all_), None);
    }));
    out.push(Phase::new("nesting", "text boxes in text boxes up to four deep, each with or without an older form, with text before, after or between", move |ch, l| {
        let depth = 1 + ch.choose(4);
        let mut inner = vec![Item::Text("core")];
        for _ in 0..depth {
            let (alt, before, after, table) = (ch.flag(), ch.flag(), ch.flag(), ch.flag());
            let b = if table { Blk::T(inner) } else { Blk::P(inner) };
            inner = vec![];
            if before {
                inner.push(Item::Text("b"));
            }
            inner.push(Item::Box(vec![b], alt));
            if after {
                inner.push(Item::Text("a"));
            }
        }
        l.label = format!("{inner:?}");
        judge(l, "body", &runs(&inner, false), &all(&inner), None);
    }));
    out.push(Phase::new("shapes", "up to three shapes of the older form with every choice of style, image and text, in every place", move |ch, l| {
        let host = *ch.pick(HOSTS);
        let n = 1 + ch.choose(3);
        let mut v = vec![];
        for i in 0..n {
            let style = *ch.pick(&[None, Some("width:1pt;height:2pt"), Some(""), Some("a:\"&<\"")][..if i == 0 || deep { 4 } else { 2 }]);
            let image = *ch.pick(&[None, Some("rIdP"), Some("rId99")][..if i == 0 || deep { 3 } else { 2 }]);
            let text = match ch.choose(if n == 3 && !deep { 2 } else { 3 }) {
                0 => vec![],
                1 => vec![Blk::P(vec![Item::Text("in")])],
                _ => vec![Blk::P(vec![Item::Shape(Some("inner"), None, vec![])]), Blk::P(vec![Item::Text("in")])],
            };
            v.push(Item::Shape(style, image, text));
            if ch.flag() {
                v.push(Item::Text("t"));
            }
        }
        let together = ch.flag();
        l.label = format!("{host} {together} {v:?}");
        judge(l, host, &runs(&v, together), &all(&v), None);
    }));
    out.push(Phase::new("distances", "a floating or inline text box with every choice of its distances from the text", move |ch, l| {
        let float = ch.flag();
        let d: Vec<i32> = (0..4).map(|_| *ch.pick(&[0, 1, 114300, 2147483647])).collect();
        let at = format!(r#"distT="{}" distB="{}" distL="{}" distR="{}""#, d[0], d[1], d[2], d[3]);
        l.label = format!("{float} {at}");
        let plain = framed(if float { "anchor" } else { "inline" }, &boxed("<w:p/>"));
        let text = plain.replacen(r#"distT="0" distB="0" distL="0" distR="0""#, &at, 1);
        let mut b = TextBox::new().dist_t(d[0]).dist_b(d[1]).dist_l(d[2]).dist_r(d[3]);
        if float {
            b = b.floating().relative_height(1).offset_x(1).offset_y(2).relative_from_h(RelativeFromHType::Page).relative_from_v(RelativeFromVType::Page);
            (b.layout_in_cell, b.allow_overlap) = (true, true);
            judge(l, "body", &format!("<w:r>{text}</w:r>"), "box[P()]", Some(&b));
        } else {
            // what only floating drawings have
            b.layout_in_cell = true;
            b.relative_height = 0;
            judge(l, "body", &format!("<w:r>{text}</w:r>"), "box[P()]", Some(&b));
        }
    }));
    out.push(Phase::new("positions", "a floating text box with every horizontal and vertical position (relative to everything, by offset or alignment) x simple position x layout in cell x overlap x height in the stack", move |ch, l| {
        let (h, hn) = *ch.pick(HF);
        let (v, vn) = *ch.pick(VF);
        let offs = [0, 7, -914400];
        let pos = |ch: &mut Chooser, al: &[(PicAlign, &'static str)]| -> (DrawingPosition, String) {
            let k = ch.choose(offs.len() + al.len());
            match k {
                0..=2 => (DrawingPosition::Offset(offs[k]), format!("<wp:posOffset>{}</wp:posOffset>", offs[k])),
                _ => (DrawingPosition::Align(al[k - 3].0), format!("<wp:align>{}</wp:align>", al[k - 3].1)),
            }
        };
        let (ph, xh) = pos(ch, HA);
        let (pv, xv) = pos(ch, VA);
        let b = |ch: &mut Chooser| *ch.pick(&[(true, "1"), (false, "0"), (true, "true"), (false, "false")][..if deep { 4 } else { 2 }]);
        let (simple, cell, over) = (b(ch), b(ch), b(ch));
        let height = *ch.pick(&[0u32, 251658240]);
        let (x, y) = if simple.0 { (5, -6) } else { (0, 0) };
        let frame = format!(
            r#"<wp:anchor distT="1" distB="2" distL="3" distR="4" simplePos="{}" relativeHeight="{height}" behindDoc="0" locked="0" layoutInCell="{}" allowOverlap="{}"><wp:simplePos x="{x}" y="{y}"/><wp:positionH relativeFrom="{hn}">{xh}</wp:positionH><wp:positionV relativeFrom="{vn}">{xv}</wp:positionV><wp:extent cx="5" cy="6"/><wp:wrapNone/>"#,
            simple.1, cell.1, over.1
        );
        l.label = frame.clone();
        let mut want = TextBox::new()
            .floating()
            .dist_t(1)
            .dist_b(2)
            .dist_l(3)
            .dist_r(4)
            .simple_pos(simple.0)
            .relative_height(height)
            .position_h(ph)
            .position_v(pv)
            .relative_from_h(h)
            .relative_from_v(v);
        (want.simple_pos_x, want.simple_pos_y, want.layout_in_cell, want.allow_overlap) = (x, y, cell.0, over.0);
        judge(l, "body", &format!("<w:r>{}</w:r>", framed(&frame, &boxed("<w:p/>"))), "box[P()]", Some(&want));
    }));
    out
}
