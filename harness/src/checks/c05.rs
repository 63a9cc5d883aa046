//! C05: table, row, cell, section and page settings are written as the standard says and survive reading.

use super::c04::{BORDERS, SHADES};
use super::Meta;
use crate::explore::*;
use crate::gen::{pack_build, DATE};
use crate::opc::Package;
use crate::props::*;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a table always states its width, alignment and borders, a section always its page size, margins and columns; the values when nothing was set are those of the first package written by the library".into(),
            "a row states its height rule together with a height, and at-least when no rule was given".into(),
            "the first single border set on a cell starts from six plain borders, and clearing all covers the diagonals too".into(),
            "setting a whole object (page size, margins, position, border set, margin set) replaces the previous one".into(),
            "a page that states no orientation is a portrait page, so reading may forget that portrait was stated".into(),
            "a column of the table grid is its width; the unit written next to it is not compared".into(),
        ],
    }
}

#[derive(Clone)]
enum F {
    TP(TableProperty),
    Tb(Table),
    S(Style),
    Row(TableRow),
    CP(TableCellProperty),
    C(TableCell),
    SP(SectionProperty),
    Se(Section),
    D(Docx),
}

const FACADES: &[&str] =
    &["table-property", "table", "table-style", "row", "cell-property", "cell", "section-property", "section", "document"];

const MK: &str = "MK";

fn marker() -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text(MK))
}
fn fresh(i: usize) -> F {
    match FACADES[i] {
        "table-property" => F::TP(TableProperty::new()),
        "table" => F::Tb(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(marker())])])),
        "table-style" => F::S(Style::new("MKS", StyleType::Table)),
        "row" => F::Row(TableRow::new(vec![TableCell::new().add_paragraph(marker())])),
        "cell-property" => F::CP(TableCellProperty::new()),
        "cell" => F::C(TableCell::new().add_paragraph(marker())),
        "section-property" => F::SP(SectionProperty::new()),
        "section" => F::Se(Section::new().add_paragraph(marker())),
        _ => F::D(Docx::new().add_paragraph(marker())),
    }
}

/// Expected content of the containers.
#[derive(Clone, Debug, PartialEq)]
struct M {
    tbl: Box_,
    row: Box_,
    cell: Box_,
    sect: Box_,
    rule: Option<&'static str>,
    height: Option<String>,
}

const SIDES: &[&str] = &["top", "left", "bottom", "right", "insideH", "insideV"];

fn bd(name: &str, v: &str, sz: usize, c: &str) -> T {
    T::new(name, &[("val", v), ("sz", &sz.to_string()), ("space", "0"), ("color", c)])
}
fn plain_borders(name: &str) -> T {
    T::with(name, SIDES.iter().map(|s| bd(s, "single", 2, "000000")).collect())
}
fn set_kid(t: &mut T, k: T) {
    t.kids.retain(|x| x.name != k.name);
    t.kids.push(k);
    t.kids.sort();
}
fn cell_borders(m: &mut M) -> &mut T {
    if !m.cell.0.contains_key("tcBorders") {
        m.cell.put(plain_borders("tcBorders"));
    }
    m.cell.child("tcBorders")
}
fn mar(name: &str, v: usize, t: &str) -> T {
    T::new(name, &[("w", &v.to_string()), ("type", t)])
}
/// What a table states about its cells' margins before any is set.
fn table_margins(m: &mut M) -> &mut T {
    if !m.tbl.0.contains_key("tblCellMar") {
        m.tbl.put(T::with("tblCellMar", vec![mar("top", 0, "dxa"), mar("left", 55, "dxa"), mar("bottom", 0, "dxa"), mar("right", 55, "dxa")]));
    }
    m.tbl.child("tblCellMar")
}
fn cell_margins(m: &mut M) -> &mut T {
    m.cell.child("tcMar")
}

impl M {
    fn new() -> M {
        let mut m = M { tbl: Box_::default(), row: Box_::default(), cell: Box_::default(), sect: Box_::default(), rule: None, height: None };
        m.tbl.set("tblW", &[("w", "0"), ("type", "auto")]);
        m.tbl.set("jc", &[("val", "left")]);
        m.tbl.put(plain_borders("tblBorders"));
        m.sect.set("pgSz", &[("w", "11906"), ("h", "16838")]);
        m.sect.set(
            "pgMar",
            &[("top", "1985"), ("right", "1701"), ("bottom", "1701"), ("left", "1701"), ("header", "851"), ("footer", "992"), ("gutter", "0")],
        );
        m.sect.set("cols", &[("space", "425"), ("num", "1")]);
        m
    }
    fn height(&mut self) {
        if let Some(h) = &self.height {
            self.row.set("trHeight", &[("val", h), ("hRule", self.rule.unwrap_or("atLeast"))]);
        }
    }
}

type Apply = Arc<dyn Fn(F) -> Option<F> + Send + Sync>;
type Model = Arc<dyn Fn(&mut M) + Send + Sync>;

#[derive(Clone)]
struct Op {
    name: String,
    rep: bool,
    f: Apply,
    m: Model,
}

macro_rules! on {
    ($f:expr, [$($v:ident),*], |$x:ident| $e:expr) => {
        match $f { $(F::$v($x) => Some(F::$v($e)),)* _ => None }
    };
}

struct Ops(Vec<Op>);
impl Ops {
    fn add(
        &mut self,
        name: impl Into<String>,
        rep: bool,
        f: impl Fn(F) -> Option<F> + Send + Sync + 'static,
        m: impl Fn(&mut M) + Send + Sync + 'static,
    ) {
        self.0.push(Op { name: name.into(), rep, f: Arc::new(f), m: Arc::new(m) });
    }
}

const WIDTHS: &[(WidthType, &str)] =
    &[(WidthType::Dxa, "dxa"), (WidthType::Pct, "pct"), (WidthType::Auto, "auto"), (WidthType::Nil, "nil")];
const USIZES: &[usize] = &[5000, 1, 0, 255, 256, 65535, 65536, 16777217, 2147483647];
const I32S: &[i32] = &[720, -7, 0, 1, -1, 65536, i32::MAX, i32::MIN];
const U32S: &[u32] = &[3, 1, 0, 65535, 65536, 2147483647, 2147483648, u32::MAX];
const PAGE: &[u32] = &[12240, 1, 0, 65535, 65536, 16777217, 2147483647];

const TB: &[(&str, fn() -> TableBorderPosition)] = &[
    ("top", || TableBorderPosition::Top),
    ("left", || TableBorderPosition::Left),
    ("bottom", || TableBorderPosition::Bottom),
    ("right", || TableBorderPosition::Right),
    ("insideH", || TableBorderPosition::InsideH),
    ("insideV", || TableBorderPosition::InsideV),
];
const CB: &[(&str, fn() -> TableCellBorderPosition)] = &[
    ("top", || TableCellBorderPosition::Top),
    ("left", || TableCellBorderPosition::Left),
    ("bottom", || TableCellBorderPosition::Bottom),
    ("right", || TableCellBorderPosition::Right),
    ("insideH", || TableCellBorderPosition::InsideH),
    ("insideV", || TableCellBorderPosition::InsideV),
    ("tl2br", || TableCellBorderPosition::Tl2br),
    ("tr2bl", || TableCellBorderPosition::Tr2bl),
];
const DIRS: &[(TextDirectionType, &str)] = &[
    (TextDirectionType::TbRl, "tbRl"),
    (TextDirectionType::BtLr, "btLr"),
    (TextDirectionType::Lr, "lr"),
    (TextDirectionType::LrV, "lrV"),
    (TextDirectionType::Rl, "rl"),
    (TextDirectionType::RlV, "rlV"),
    (TextDirectionType::Tb, "tb"),
    (TextDirectionType::TbV, "tbV"),
    (TextDirectionType::TbRlV, "tbRlV"),
    (TextDirectionType::LrTbV, "lrTbV"),
];

fn table_ops(o: &mut Ops) {
    for (i, &v) in I32S.iter().enumerate() {
        o.add(
            format!("indent {v}"),
            i < 2,
            move |f| match f {
                F::S(x) => Some(F::S(x.table_indent(v))),
                f => on!(f, [TP, Tb], |x| x.indent(v)),
            },
            move |m| m.tbl.set("tblInd", &[("w", &v.to_string()), ("type", "dxa")]),
        );
    }
    for (i, (a, n)) in [(TableAlignmentType::Center, "center"), (TableAlignmentType::Right, "right"), (TableAlignmentType::Left, "left")]
        .into_iter()
        .enumerate()
    {
        o.add(
            format!("align {n}"),
            i < 2,
            move |f| match f {
                F::S(x) => Some(F::S(x.table_align(a))),
                f => on!(f, [TP, Tb], |x| x.align(a)),
            },
            move |m| m.tbl.set("jc", &[("val", n)]),
        );
    }
    for (i, v) in ["T1", "Grid Table", "a&b"].into_iter().enumerate() {
        o.add(
            format!("style {v}"),
            i < 1,
            move |f| on!(f, [TP, Tb, S], |x| x.style(v)),
            move |m| m.tbl.set("tblStyle", &[("val", v)]),
        );
    }
    for (a, n) in [(TableLayoutType::Fixed, "fixed"), (TableLayoutType::Autofit, "autofit")] {
        o.add(
            format!("layout {n}"),
            true,
            move |f| on!(f, [TP, Tb, S], |x| x.layout(a)),
            move |m| m.tbl.set("tblLayout", &[("type", n)]),
        );
    }
    for (i, &v) in USIZES.iter().enumerate() {
        for (j, &(t, n)) in WIDTHS.iter().enumerate() {
            o.add(
                format!("width {v} {n}"),
                i == 0 && j < 2,
                move |f| on!(f, [TP, Tb, S], |x| x.width(v, t)),
                move |m| m.tbl.set("tblW", &[("w", &v.to_string()), ("type", n)]),
            );
            for (k, side) in ["top", "right", "bottom", "left"].into_iter().enumerate() {
                o.add(
                    format!("cell margin {side} {v} {n}"),
                    i == 0 && j == 0,
                    move |f| {
                        on!(f, [TP], |x| match k {
                            0 => x.cell_margin_top(v, t),
                            1 => x.cell_margin_right(v, t),
                            2 => x.cell_margin_bottom(v, t),
                            _ => x.cell_margin_left(v, t),
                        })
                    },
                    move |m| set_kid(table_margins(m), mar(side, v, n)),
                );
                let mk = move || {
                    let x = TableCellMargins::new();
                    match k {
                        0 => x.margin_top(v, t),
                        1 => x.margin_right(v, t),
                        2 => x.margin_bottom(v, t),
                        _ => x.margin_left(v, t),
                    }
                };
                o.add(
                    format!("margins with {side} {v} {n}"),
                    i == 1 && j == 1 && k == 1,
                    move |f| match f {
                        F::TP(x) => Some(F::TP(x.set_margins(mk()))),
                        f => on!(f, [Tb, S], |x| x.margins(mk())),
                    },
                    move |m| {
                        m.tbl.del("tblCellMar");
                        set_kid(table_margins(m), mar(side, v, n))
                    },
                );
            }
        }
    }
    o.add(
        "margins 1 2 3 4",
        true,
        |f| {
            let mk = TableCellMargins::new().margin(1, 2, 3, 4);
            match f {
                F::TP(x) => Some(F::TP(x.set_margins(mk))),
                f => on!(f, [Tb, S], |x| x.margins(mk.clone())),
            }
        },
        |m| m.tbl.put(T::with("tblCellMar", vec![mar("top", 1, "dxa"), mar("right", 2, "dxa"), mar("bottom", 3, "dxa"), mar("left", 4, "dxa")])),
    );
    for (pi, &(n, p)) in TB.iter().enumerate() {
        for (i, &(bt, bn)) in BORDERS.iter().enumerate() {
            for (j, sz) in [6usize, 0, 255, 65536].into_iter().enumerate() {
                if j > 1 && i > 3 {
                    continue;
                }
                let c = ["FF0000", "auto", "00ff7F"][(i + j) % 3];
                let mk = move || TableBorder::new(p()).border_type(bt).size(sz).color(c);
                o.add(
                    format!("border {n} {bn} {sz}"),
                    i == 1 && j == 0 && pi % 3 == 0,
                    move |f| on!(f, [TP, Tb, S], |x| x.set_border(mk())),
                    move |m| set_kid(m.tbl.child("tblBorders"), bd(n, bn, sz, c)),
                );
                if j == 0 {
                    o.add(
                        format!("borders {n} {bn} {sz}"),
                        i == 2 && pi == 1,
                        move |f| on!(f, [TP, Tb, S], |x| x.set_borders(TableBorders::with_empty().set(mk()))),
                        move |m| m.tbl.put(T::with("tblBorders", vec![bd(n, bn, sz, c)])),
                    );
                }
            }
        }
        o.add(
            format!("default border {n}"),
            false,
            move |f| on!(f, [TP, Tb, S], |x| x.set_border(TableBorder::new(p()))),
            move |m| set_kid(m.tbl.child("tblBorders"), bd(n, "single", 2, "000000")),
        );
        o.add(
            format!("clear border {n}"),
            pi % 3 == 2,
            move |f| on!(f, [TP, Tb, S], |x| x.clear_border(p())),
            move |m| set_kid(m.tbl.child("tblBorders"), bd(n, "nil", 2, "000000")),
        );
    }
    o.add(
        "clear all borders",
        true,
        |f| on!(f, [TP, Tb, S], |x| x.clear_all_border()),
        |m| m.tbl.put(T::with("tblBorders", SIDES.iter().map(|s| bd(s, "nil", 2, "000000")).collect())),
    );
    o.add(
        "no borders",
        true,
        |f| on!(f, [TP, Tb, S], |x| x.set_borders(TableBorders::with_empty())),
        |m| m.tbl.put(T::with("tblBorders", vec![])),
    );
    o.add(
        "plain borders",
        false,
        |f| on!(f, [TP, Tb, S], |x| x.set_borders(TableBorders::new())),
        |m| m.tbl.put(plain_borders("tblBorders")),
    );
    // position
    for (i, &v) in I32S.iter().enumerate() {
        for (k, a) in ["leftFromText", "rightFromText", "tblpX", "tblpY"].into_iter().enumerate() {
            o.add(
                format!("position {a} {v}"),
                i == 0 && k % 2 == 0,
                move |f| {
                    let p = TablePositionProperty::new();
                    let p = match k {
                        0 => p.left_from_text(v),
                        1 => p.right_from_text(v),
                        2 => p.position_x(v),
                        _ => p.position_y(v),
                    };
                    on!(f, [TP, Tb], |x| x.position(p.clone()))
                },
                move |m| m.tbl.set("tblpPr", &[(a, &v.to_string())]),
            );
        }
    }
    for v in ["page", "margin", "text", "center", "bottom", "left", "outside"] {
        for (k, a) in ["vertAnchor", "horzAnchor", "tblpXSpec", "tblpYSpec"].into_iter().enumerate() {
            o.add(
                format!("position {a} {v}"),
                v == "page" && k == 1,
                move |f| {
                    let p = TablePositionProperty::new();
                    let p = match k {
                        0 => p.vertical_anchor(v),
                        1 => p.horizontal_anchor(v),
                        2 => p.position_x_alignment(v),
                        _ => p.position_y_alignment(v),
                    };
                    on!(f, [TP, Tb], |x| x.position(p.clone()))
                },
                move |m| m.tbl.set("tblpPr", &[(a, v)]),
            );
        }
    }
    o.add(
        "position all",
        true,
        |f| {
            let p = TablePositionProperty::new()
                .left_from_text(1)
                .right_from_text(2)
                .vertical_anchor("page")
                .horizontal_anchor("margin")
                .position_x_alignment("center")
                .position_y_alignment("bottom")
                .position_x(3)
                .position_y(-4);
            on!(f, [TP, Tb], |x| x.position(p.clone()))
        },
        |m| {
            m.tbl.set(
                "tblpPr",
                &[
                    ("leftFromText", "1"),
                    ("rightFromText", "2"),
                    ("vertAnchor", "page"),
                    ("horzAnchor", "margin"),
                    ("tblpXSpec", "center"),
                    ("tblpYSpec", "bottom"),
                    ("tblpX", "3"),
                    ("tblpY", "-4"),
                ],
            )
        },
    );
    for (i, g) in [vec![], vec![100], vec![2000, 0], vec![1, 65536, 2147483647]].into_iter().enumerate() {
        let gg = g.clone();
        o.add(
            format!("grid {g:?}"),
            i == 2 || i == 3,
            move |f| on!(f, [Tb], |x| x.set_grid(g.clone())),
            move |m| m.tbl.put(T::with("tblGrid", gg.iter().map(|w| T::new("gridCol", &[("w", &w.to_string())])).collect())),
        );
    }
}

fn row_ops(o: &mut Ops) {
    for (i, &v) in U32S.iter().enumerate() {
        o.add(format!("grid before {v}"), i < 1, move |f| on!(f, [Row], |x| x.grid_before(v)), move |m| {
            m.row.set("gridBefore", &[("val", &v.to_string())])
        });
        o.add(format!("grid after {v}"), i < 1, move |f| on!(f, [Row], |x| x.grid_after(v)), move |m| {
            m.row.set("gridAfter", &[("val", &v.to_string())])
        });
    }
    for (i, v) in [240u32, 1, 0, 31680, 65536, 16777216].into_iter().enumerate() {
        o.add(format!("width before {v}"), i < 1, move |f| on!(f, [Row], |x| x.width_before(v as f32)), move |m| {
            m.row.set("wBefore", &[("w", &v.to_string()), ("type", "dxa")])
        });
        o.add(format!("width after {v}"), i < 1, move |f| on!(f, [Row], |x| x.width_after(v as f32)), move |m| {
            m.row.set("wAfter", &[("w", &v.to_string()), ("type", "dxa")])
        });
        o.add(format!("height {v}"), i < 2, move |f| on!(f, [Row], |x| x.row_height(v as f32)), move |m| {
            m.height = Some(v.to_string());
            m.height()
        });
        for (k, (r, n)) in
            [(HeightRule::Exact, "exact"), (HeightRule::Auto, "auto"), (HeightRule::AtLeast, "atLeast")].into_iter().enumerate()
        {
            o.add(
                format!("height {v} {n}"),
                i == 0 && k == 1,
                move |f| on!(f, [Row], |x| x.row_height(v as f32).height_rule(r)),
                move |m| {
                    m.height = Some(v.to_string());
                    m.rule = Some(n);
                    m.height()
                },
            );
            if i == 0 {
                o.add(format!("height rule {n}"), k < 2, move |f| on!(f, [Row], |x| x.height_rule(r)), move |m| {
                    m.rule = Some(n);
                    m.height()
                });
            }
        }
    }
    o.add("cannot split", true, |f| on!(f, [Row], |x| x.cant_split()), |m| m.row.set("cantSplit", &[]));
    o.add(
        "deleted row",
        true,
        |f| on!(f, [Row], |x| x.delete(Delete::new().author("da").date(DATE))),
        |m| m.row.set("del", &[("author", "da"), ("date", DATE)]),
    );
    o.add(
        "inserted row",
        true,
        |f| on!(f, [Row], |x| x.insert(Insert::new_with_empty().author("ia").date(DATE))),
        |m| m.row.set("ins", &[("author", "ia"), ("date", DATE)]),
    );
}

fn cell_ops(o: &mut Ops) {
    for (t, n) in [(VMergeType::Restart, "restart"), (VMergeType::Continue, "continue")] {
        o.add(format!("vertical merge {n}"), true, move |f| on!(f, [CP, C], |x| x.vertical_merge(t)), move |m| {
            m.cell.set("vMerge", &[("val", n)])
        });
    }
    for (i, (t, n)) in [(VAlignType::Center, "center"), (VAlignType::Bottom, "bottom"), (VAlignType::Top, "top")].into_iter().enumerate() {
        o.add(format!("vertical align {n}"), i < 2, move |f| on!(f, [CP, C], |x| x.vertical_align(t)), move |m| {
            m.cell.set("vAlign", &[("val", n)])
        });
    }
    for (i, &(t, n)) in DIRS.iter().enumerate() {
        o.add(format!("text direction {n}"), i < 2, move |f| on!(f, [CP, C], |x| x.text_direction(t)), move |m| {
            m.cell.set("textDirection", &[("val", n)])
        });
    }
    for (i, v) in [2usize, 1, 0, 63, 65536, 4294967295].into_iter().enumerate() {
        o.add(format!("grid span {v}"), i < 2, move |f| on!(f, [CP, C], |x| x.grid_span(v)), move |m| {
            m.cell.set("gridSpan", &[("val", &v.to_string())])
        });
    }
    for (i, &v) in USIZES.iter().enumerate() {
        for (j, &(t, n)) in WIDTHS.iter().enumerate() {
            o.add(format!("cell width {v} {n}"), i == 0 && j < 2, move |f| on!(f, [CP, C], |x| x.width(v, t)), move |m| {
                m.cell.set("tcW", &[("w", &v.to_string()), ("type", n)])
            });
            for (k, side) in ["top", "right", "bottom", "left"].into_iter().enumerate() {
                o.add(
                    format!("margin {side} {v} {n}"),
                    i == 0 && j == 0,
                    move |f| {
                        on!(f, [CP], |x| match k {
                            0 => x.margin_top(v, t),
                            1 => x.margin_right(v, t),
                            2 => x.margin_bottom(v, t),
                            _ => x.margin_left(v, t),
                        })
                    },
                    move |m| set_kid(cell_margins(m), mar(side, v, n)),
                );
                o.add(
                    format!("margins with {side} {v} {n}"),
                    i == 1 && j == 1 && k == 3,
                    move |f| {
                        let x = CellMargins::new();
                        let mg = match k {
                            0 => x.margin_top(v, t),
                            1 => x.margin_right(v, t),
                            2 => x.margin_bottom(v, t),
                            _ => x.margin_left(v, t),
                        };
                        on!(f, [CP], |x| x.margins(mg.clone()))
                    },
                    move |m| m.cell.put(T::with("tcMar", vec![mar(side, v, n)])),
                );
            }
        }
    }
    for (i, &(s, n)) in SHADES.iter().enumerate() {
        o.add(
            format!("shading {n}"),
            i < 1,
            move |f| on!(f, [CP, C], |x| x.shading(Shading::new().shd_type(s).color("auto").fill("00FF00"))),
            move |m| m.cell.set("shd", &[("val", n), ("color", "auto"), ("fill", "00FF00")]),
        );
    }
    o.add(
        "default shading",
        true,
        |f| on!(f, [CP, C], |x| x.shading(Shading::new())),
        |m| m.cell.set("shd", &[("val", "clear"), ("color", "auto"), ("fill", "FFFFFF")]),
    );
    for (pi, &(n, p)) in CB.iter().enumerate() {
        for (i, &(bt, bn)) in BORDERS.iter().enumerate() {
            for (j, sz) in [6usize, 0, 255, 65536].into_iter().enumerate() {
                if j > 1 && i > 3 {
                    continue;
                }
                let c = ["FF0000", "auto", "00ff7F"][(i + j) % 3];
                let mk = move || TableCellBorder::new(p()).border_type(bt).size(sz).color(c);
                o.add(
                    format!("border {n} {bn} {sz}"),
                    i == 1 && j == 0 && (pi == 0 || pi == 6),
                    move |f| on!(f, [CP, C], |x| x.set_border(mk())),
                    move |m| set_kid(cell_borders(m), bd(n, bn, sz, c)),
                );
                if j == 0 {
                    o.add(
                        format!("borders {n} {bn} {sz}"),
                        i == 2 && pi == 7,
                        move |f| on!(f, [CP, C], |x| x.set_borders(TableCellBorders::with_empty().set(mk()))),
                        move |m| m.cell.put(T::with("tcBorders", vec![bd(n, bn, sz, c)])),
                    );
                }
            }
        }
        o.add(
            format!("default border {n}"),
            false,
            move |f| on!(f, [CP, C], |x| x.set_border(TableCellBorder::new(p()))),
            move |m| set_kid(cell_borders(m), bd(n, "single", 2, "000000")),
        );
        o.add(
            format!("clear border {n}"),
            pi == 1 || pi == 7,
            move |f| on!(f, [CP, C], |x| x.clear_border(p())),
            move |m| set_kid(cell_borders(m), bd(n, "nil", 2, "000000")),
        );
    }
    o.add(
        "clear all borders",
        true,
        |f| on!(f, [CP, C], |x| x.clear_all_border()),
        |m| m.cell.put(T::with("tcBorders", CB.iter().map(|(s, _)| bd(s, "nil", 2, "000000")).collect())),
    );
    o.add(
        "no borders",
        true,
        |f| on!(f, [CP, C], |x| x.set_borders(TableCellBorders::with_empty())),
        |m| m.cell.put(T::with("tcBorders", vec![])),
    );
    o.add(
        "plain borders",
        false,
        |f| on!(f, [CP, C], |x| x.set_borders(TableCellBorders::new())),
        |m| m.cell.put(plain_borders("tcBorders")),
    );
}

fn section_ops(o: &mut Ops) {
    let orients = [(PageOrientationType::Landscape, "landscape"), (PageOrientationType::Portrait, "portrait")];
    for (i, &v) in PAGE.iter().enumerate() {
        for (w, h) in [(v, 15840), (15840, v)] {
            o.add(
                format!("page size {w}x{h}"),
                i == 0,
                move |f| on!(f, [SP, Se], |x| x.page_size(PageSize::new().size(w, h))),
                move |m| m.sect.set("pgSz", &[("w", &w.to_string()), ("h", &h.to_string())]),
            );
            o.add(
                format!("page {w}x{h}"),
                i == 0,
                move |f| on!(f, [D], |x| x.page_size(w, h)),
                move |m| m.sect.merge("pgSz", &[], &[("w", &w.to_string()), ("h", &h.to_string())]),
            );
        }
        o.add(
            format!("page width {v}"),
            false,
            move |f| on!(f, [SP, Se], |x| x.page_size(PageSize::new().width(v))),
            move |m| m.sect.set("pgSz", &[("w", &v.to_string()), ("h", "16838")]),
        );
        o.add(
            format!("page height {v}"),
            false,
            move |f| on!(f, [SP, Se], |x| x.page_size(PageSize::new().height(v))),
            move |m| m.sect.set("pgSz", &[("w", "11906"), ("h", &v.to_string())]),
        );
        for (q, (ot, on_)) in orients.into_iter().enumerate() {
            o.add(
                format!("page size {v} {on_}"),
                i == 0 && q == 0,
                move |f| on!(f, [SP, Se], |x| x.page_size(PageSize::new().orient(ot).size(v, 10))),
                move |m| m.sect.set("pgSz", &[("w", &v.to_string()), ("h", "10"), ("orient", on_)]),
            );
        }
    }
    for (ot, on_) in orients {
        o.add(
            format!("orient {on_}"),
            true,
            move |f| on!(f, [SP, Se, D], |x| x.page_orient(ot)),
            move |m| m.sect.merge("pgSz", &[], &[("orient", on_)]),
        );
    }
    for (i, &v) in I32S.iter().enumerate() {
        for (k, a) in ["top", "right", "bottom", "left", "header", "footer", "gutter"].into_iter().enumerate() {
            o.add(
                format!("margin {a} {v}"),
                i == 0 && (k == 0 || k == 6),
                move |f| {
                    let p = PageMargin::new();
                    let p = match k {
                        0 => p.top(v),
                        1 => p.right(v),
                        2 => p.bottom(v),
                        3 => p.left(v),
                        4 => p.header(v),
                        5 => p.footer(v),
                        _ => p.gutter(v),
                    };
                    on!(f, [SP, Se, D], |x| x.page_margin(p))
                },
                move |m| {
                    let d = M::new().sect.0["pgMar"].clone();
                    m.sect.put(d);
                    m.sect.merge("pgMar", &[], &[(a, &v.to_string())]);
                },
            );
        }
    }
    for (i, (t, n)) in [
        (DocGridType::LinesAndChars, "linesAndChars"),
        (DocGridType::Default, "default"),
        (DocGridType::Lines, "lines"),
        (DocGridType::SnapToChars, "snapToChars"),
    ]
    .into_iter()
    .enumerate()
    {
        for (j, lp) in [Some(312usize), None, Some(0), Some(16777216)].into_iter().enumerate() {
            for (k, cs) in [Some(-71isize), None, Some(0), Some(16777216), Some(-2714)].into_iter().enumerate() {
                o.add(
                    format!("grid {n} {lp:?} {cs:?}"),
                    (i, j, k) == (0, 0, 0) || (i, j, k) == (2, 1, 1),
                    move |f| {
                        let mut g = DocGrid::with_empty().grid_type(t.clone());
                        if let Some(l) = lp {
                            g = g.line_pitch(l);
                        }
                        if let Some(c) = cs {
                            g = g.char_space(c);
                        }
                        match f {
                            F::D(mut d) => {
                                d.document = d.document.doc_grid(g);
                                Some(F::D(d))
                            }
                            f => on!(f, [SP, Se], |x| x.doc_grid(g.clone())),
                        }
                    },
                    move |m| {
                        m.sect.set("docGrid", &[("type", n)]);
                        if let Some(l) = lp {
                            m.sect.merge("docGrid", &[], &[("linePitch", &l.to_string())]);
                        }
                        if let Some(c) = cs {
                            m.sect.merge("docGrid", &[], &[("charSpace", &c.to_string())]);
                        }
                    },
                );
            }
        }
    }
    for (i, v) in ["tbRl", "btLr", "lrTbV", "tbRlV", "tbLrV", "lrTb"].into_iter().enumerate() {
        o.add(
            format!("text direction {v}"),
            i < 1,
            move |f| match f {
                F::D(mut d) => {
                    d.document = d.document.text_direction(v.into());
                    Some(F::D(d))
                }
                f => on!(f, [SP, Se], |x| x.text_direction(v.into())),
            },
            move |m| {
                if v == "lrTb" {
                    m.sect.del("textDirection"); // the direction a section has when it states none
                } else {
                    m.sect.set("textDirection", &[("val", v)])
                }
            },
        );
    }
    o.add("title page", true, |f| on!(f, [SP, Se, D], |x| x.title_pg()), |m| m.sect.set("titlePg", &[]));
    for (i, &v) in U32S.iter().enumerate() {
        o.add(
            format!("page number {v}"),
            i < 1,
            move |f| on!(f, [SP, Se, D], |x| x.page_num_type(PageNumType::new().start(v))),
            move |m| m.sect.set("pgNumType", &[("start", &v.to_string())]),
        );
        o.add(
            format!("page number {v} with chapters"),
            i < 1,
            move |f| on!(f, [SP, Se, D], |x| x.page_num_type(PageNumType::new().chap_style("1").start(v))),
            move |m| m.sect.set("pgNumType", &[("start", &v.to_string()), ("chapStyle", "1")]),
        );
    }
    o.add(
        "page number by chapter",
        false,
        |f| on!(f, [SP, Se, D], |x| x.page_num_type(PageNumType::new().chap_style("2"))),
        |m| m.sect.set("pgNumType", &[("chapStyle", "2")]),
    );
    for (i, (t, n)) in [
        (SectionType::Continuous, "continuous"),
        (SectionType::NextPage, "nextPage"),
        (SectionType::NextColumn, "nextColumn"),
        (SectionType::EvenPage, "evenPage"),
        (SectionType::OddPage, "oddPage"),
    ]
    .into_iter()
    .enumerate()
    {
        o.add(
            format!("section type {n}"),
            i < 2,
            move |f| match f {
                F::SP(mut s) => {
                    s.section_type = Some(t);
                    Some(F::SP(s))
                }
                F::D(mut d) => {
                    d.document.section_property.section_type = Some(t);
                    Some(F::D(d))
                }
                _ => None,
            },
            move |m| m.sect.set("type", &[("val", n)]),
        );
    }
    for (i, v) in [2usize, 1, 0, 45].into_iter().enumerate() {
        o.add(
            format!("columns {v}"),
            i < 1,
            move |f| match f {
                F::SP(mut s) => {
                    s.columns = v;
                    Some(F::SP(s))
                }
                F::D(mut d) => {
                    d.document.section_property.columns = v;
                    Some(F::D(d))
                }
                _ => None,
            },
            move |m| m.sect.merge("cols", &[], &[("num", &v.to_string())]),
        );
        o.add(
            format!("column space {v}"),
            i < 1,
            move |f| match f {
                F::SP(mut s) => {
                    s.space = v;
                    Some(F::SP(s))
                }
                F::D(mut d) => {
                    d.document.section_property.space = v;
                    Some(F::D(d))
                }
                _ => None,
            },
            move |m| m.sect.merge("cols", &[], &[("space", &v.to_string())]),
        );
    }
}

fn ops() -> Vec<Op> {
    let mut o = Ops(vec![]);
    table_ops(&mut o);
    row_ops(&mut o);
    cell_ops(&mut o);
    section_ops(&mut o);
    o.0
}

// ------------------------------------------------------------------------------------- documents

const TABLE_HOSTS: &[&str] = &[
    "body", "cell", "cell-cell", "section", "header", "footer", "first-header", "even-footer", "section-header", "comment", "sdt",
    "cell-sdt", "toc-before", "toc-after",
];
/// Settings of tables and cells can be given to a table style as well.
const STYLED_HOSTS: &[&str] = &[
    "body", "style", "cell", "cell-cell", "section", "header", "footer", "first-header", "even-footer", "section-header", "comment", "sdt",
    "cell-sdt", "toc-before", "toc-after",
];
const SECTION_HOSTS: &[&str] = &["only", "first", "middle", "last"];

fn table_of(f: &F) -> Option<Table> {
    let one = |c: TableCell| Table::new(vec![TableRow::new(vec![c])]);
    Some(match f.clone() {
        F::TP(p) => {
            let mut t = one(TableCell::new().add_paragraph(marker()));
            t.property = p;
            t
        }
        F::Tb(t) => t,
        F::Row(r) => Table::new(vec![
            TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())]),
            r,
            TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())]),
        ]),
        F::CP(p) => {
            let mut c = TableCell::new().add_paragraph(marker());
            c.property = p;
            Table::new(vec![TableRow::new(vec![
                TableCell::new().add_paragraph(Paragraph::new()),
                c,
                TableCell::new().add_paragraph(Paragraph::new()),
            ])])
        }
        F::C(c) => one(c),
        _ => return None,
    })
}

fn document(f: &F, host: &str) -> Docx {
    let d = Docx::new();
    if host == "style" {
        let s = Style::new("MKS", StyleType::Table);
        let s = match f.clone() {
            F::TP(p) => s.table_property(p),
            F::CP(p) => s.table_cell_property(p),
            _ => unreachable!(),
        };
        return d.add_style(s).add_paragraph(marker());
    }
    if let Some(t) = table_of(f) {
        let outer = |t: Table| {
            Table::without_borders(vec![TableRow::new(vec![TableCell::new().add_table(t).add_paragraph(Paragraph::new())])])
        };
        let end = |d: Docx| d.add_paragraph(Paragraph::new().add_run(Run::new().add_text("end")));
        return match host {
            "body" => end(d.add_table(t)),
            "cell" => end(d.add_table(outer(t))),
            "cell-cell" => end(d.add_table(outer(outer(t)))),
            "section" => end(d.add_section(Section::new().add_table(t))),
            "header" => end(d.header(Header::new().add_table(t).add_paragraph(Paragraph::new()))),
            "footer" => end(d.footer(Footer::new().add_table(t).add_paragraph(Paragraph::new()))),
            "first-header" => end(d.first_header(Header::new().add_table(t).add_paragraph(Paragraph::new()))),
            "even-footer" => end(d.even_footer(Footer::new().add_table(t).add_paragraph(Paragraph::new()))),
            "section-header" => end(d.add_section(
                Section::new().header(Header::new().add_table(t).add_paragraph(Paragraph::new())).add_paragraph(Paragraph::new()),
            )),
            "comment" => d.add_paragraph(
                Paragraph::new()
                    .add_comment_start(Comment::new(1).add_paragraph(Paragraph::new()).add_table(t))
                    .add_run(Run::new().add_text("x"))
                    .add_comment_end(1),
            ),
            "sdt" => end(d.add_structured_data_tag(StructuredDataTag::new().add_table(t))),
            "cell-sdt" => end(d.add_table(Table::without_borders(vec![TableRow::new(vec![TableCell::new()
                .add_structured_data_tag(StructuredDataTag::new().add_table(t))
                .add_paragraph(Paragraph::new())])]))),
            "toc-before" => end(d.add_table_of_contents(
                TableOfContents::new().add_item(TableOfContentsItem::new().text("a").level(1).toc_key("k")).add_before_table(t),
            )),
            "toc-after" => end(d.add_table_of_contents(
                TableOfContents::new().add_item(TableOfContentsItem::new().text("a").level(1).toc_key("k")).add_after_table(t),
            )),
            _ => unreachable!(),
        };
    }
    let sec = |d: Docx, n: &str| d.add_paragraph(Paragraph::new().add_run(Run::new().add_text(n)).section_property(SectionProperty::new()));
    match f.clone() {
        F::S(s) => d.add_style(s).add_paragraph(marker()),
        F::SP(s) => {
            let d = if host == "middle" || host == "last" { sec(d, "before") } else { d };
            if host == "last" || host == "only" {
                let mut d = d.add_paragraph(marker());
                d.document.section_property = s;
                return d;
            }
            let d = d.add_paragraph(marker().section_property(s));
            let d = if host == "middle" { sec(d, "after") } else { d };
            d.add_paragraph(Paragraph::new().add_run(Run::new().add_text("end")))
        }
        F::Se(s) => {
            let d = if host == "middle" || host == "last" { d.add_section(Section::new().add_paragraph(Paragraph::new())) } else { d };
            let d = d.add_section(s);
            if host == "middle" {
                d.add_section(Section::new().add_paragraph(Paragraph::new()))
            } else {
                d
            }
        }
        F::D(d) => match host {
            "only" | "first" => d,
            "middle" => sec(d, "before"),
            _ => d.add_section(Section::new().add_paragraph(Paragraph::new())),
        },
        _ => unreachable!(),
    }
}

fn kids(e: Option<&El>) -> Vec<T> {
    e.map(|e| {
        e.els()
            .map(T::of)
            .map(|mut t| {
                if t.name == "ins" || t.name == "del" {
                    t.at.remove("id");
                }
                t
            })
            .collect()
    })
    .unwrap_or_default()
}

fn one<'a>(e: &'a El, q: &str) -> Result<Option<&'a El>, String> {
    let v = e.children(q);
    if v.len() > 1 {
        return Err(format!("{q} repeated"));
    }
    Ok(v.into_iter().next())
}

/// Name of container and what it holds.
type Got = Vec<(&'static str, Vec<T>)>;

fn contains(e: &El) -> bool {
    e.all("w:t").iter().any(|t| t.text() == MK)
}
fn innermost<'a>(e: &'a El, q: &str) -> Option<&'a El> {
    e.all(q).into_iter().filter(|x| contains(x)).last()
}

fn extract(pkg: &Package, f: &F, host: &str) -> Result<Got, String> {
    let styled = host == "style" || matches!(f, F::S(_));
    match f {
        _ if styled => {
            let s = pkg.styles().ok_or("no styles part")?;
            let all: Vec<&El> = s.children("w:style").into_iter().filter(|s| s.attr("w:styleId") == Some("MKS")).collect();
            if all.len() != 1 {
                return Err(format!("the style appears {} times", all.len()));
            }
            Ok(vec![("table", kids(one(all[0], "w:tblPr")?)), ("cell", kids(one(all[0], "w:tcPr")?)), ("row", kids(one(all[0], "w:trPr")?))])
        }
        F::SP(_) | F::Se(_) | F::D(_) => {
            let (_, d) = pkg.document().ok_or("no document")?;
            let body = d.child("w:body").ok_or("no body")?;
            // paragraphs in order, then the body's own section
            let mut out = vec![];
            for s in body.all("w:sectPr") {
                out.push(("section", kids(Some(s))));
            }
            if one(body, "w:sectPr")?.is_none() {
                return Err("the body has no section".into());
            }
            Ok(out)
        }
        _ => {
            let mut hit = None;
            for part in &pkg.names {
                if let Some(t) = pkg.xml(part).and_then(|e| innermost(e, "w:tbl")) {
                    if hit.is_some() {
                        return Err("the table appears in two parts".into());
                    }
                    hit = Some(t);
                }
            }
            let t = hit.ok_or("the table is gone")?;
            let rows = t.children("w:tr");
            let mut out: Got = vec![];
            let mut g = kids(one(t, "w:tblPr")?);
            if let Some(grid) = one(t, "w:tblGrid")? {
                let cols: Vec<T> = grid.els().map(|c| T::new(c.q().trim_start_matches("w:"), &[("w", c.attr("w:w").unwrap_or("?"))])).collect();
                if !cols.is_empty() {
                    g.push(T::with("tblGrid", cols));
                }
            }
            out.push(("table", g));
            for r in rows {
                out.push((if contains(r) { "row" } else { "other row" }, kids(one(r, "w:trPr")?)));
                for c in r.children("w:tc") {
                    out.push((if contains(c) { "cell" } else { "other cell" }, kids(one(c, "w:tcPr")?)));
                }
            }
            Ok(out)
        }
    }
}

fn expected(m: &M, f: &F, host: &str) -> Got {
    let plain = M::new();
    let f = if host == "style" { &F::S(Style::default()) } else { f };
    match f {
        F::S(_) => vec![("table", m.tbl.list()), ("cell", m.cell.list()), ("row", m.row.list())],
        F::TP(_) | F::Tb(_) => {
            let mut t = m.tbl.list();
            t.retain(|x| x.name != "tblGrid" || !x.kids.is_empty());
            vec![("table", t), ("row", vec![]), ("cell", vec![])]
        }
        F::Row(_) => vec![
            ("table", plain.tbl.list()),
            ("other row", vec![]),
            ("other cell", vec![]),
            ("row", m.row.list()),
            ("cell", vec![]),
            ("other row", vec![]),
            ("other cell", vec![]),
        ],
        F::CP(_) => vec![("table", plain.tbl.list()), ("row", vec![]), ("other cell", vec![]), ("cell", m.cell.list()), ("other cell", vec![])],
        F::C(_) => vec![("table", plain.tbl.list()), ("row", vec![]), ("cell", m.cell.list())],
        F::SP(_) => {
            let p = ("section", plain.sect.list());
            let x = ("section", m.sect.list());
            match host {
                "only" => vec![x],
                "first" => vec![x, p],
                "middle" => vec![p.clone(), x, p.clone(), p],
                _ => vec![p, x],
            }
        }
        F::Se(_) => {
            let p = ("section", plain.sect.list());
            let x = ("section", m.sect.list());
            match host {
                "middle" => vec![p.clone(), x, p.clone(), p],
                "last" => vec![p.clone(), x, p],
                _ => vec![x, p],
            }
        }
        F::D(_) => {
            let p = ("section", plain.sect.list());
            let x = ("section", m.sect.list());
            match host {
                "only" | "first" => vec![x],
                _ => vec![p, x],
            }
        }
    }
}

fn compare(stage: &str, want: &Got, got: &Got) -> Option<(String, String)> {
    let names = |g: &Got| g.iter().map(|x| x.0).collect::<Vec<_>>();
    if names(want) != names(got) {
        return Some((format!("{stage}: other containers"), format!("expected {:?}, found {:?}", names(want), names(got))));
    }
    for ((n, w), (_, g)) in want.iter().zip(got) {
        if let Some((k, d)) = crate::props::diff(w, g) {
            return Some((format!("{stage}: {n} {k}"), d));
        }
    }
    None
}

/// Portrait is what a page is when it states no orientation.
fn portrait(g: &mut Got) {
    for (_, c) in g.iter_mut() {
        for t in c.iter_mut().filter(|t| t.name == "pgSz" && t.at.get("orient").is_some_and(|o| o == "portrait")) {
            t.at.remove("orient");
        }
    }
}

/// What reading is known to forget (listed as findings): the settings without it, and its name.
fn limits(g: &mut Got) -> Vec<&'static str> {
    let mut lost = vec![];
    for (_, c) in g.iter_mut() {
        let zero = |t: &T| t.name == "tblInd" && t.at.get("w").is_some_and(|w| w == "0");
        if c.iter().any(zero) {
            c.retain(|t| !zero(t));
            lost.push("a table indent of 0 is forgotten");
        }
        for t in c.iter_mut().filter(|t| t.name == "cols") {
            if t.at.insert("space".into(), "425".into()).as_deref() != Some("425") {
                lost.push("the space between columns is forgotten");
            }
        }
    }
    lost
}

fn verify(l: &mut Leaf, f: &F, m: &M, host: &str, reread: bool) {
    let want = expected(m, f, host);
    l.states.push(hash64(format!("{want:?}").as_bytes()));
    l.transitions += 1;
    let d = document(f, host);
    let bytes = match guarded(|| pack_build(d)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return l.fail("cannot be written", &e),
        Err(e) => return l.fail(format!("panic while writing: {}", panic_class(&e)), &e),
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("package unreadable", &e),
    };
    match extract(&pkg, f, host) {
        Ok(g) => {
            if let Some((k, d)) = compare("written", &want, &g) {
                return l.fail(&k, &d);
            }
        }
        Err(e) => return l.fail(format!("written: {e}"), &e),
    }
    l.evals += 1;
    if !reread {
        return;
    }
    l.transitions += 2;
    let again = guarded(|| {
        let d = read_docx(&bytes).map_err(|e| format!("not readable: {e}"))?;
        pack_build(d)
    });
    let again = match again {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return l.fail("cannot be read and written again", &e),
        Err(e) => return l.fail(format!("panic on the way back: {}", panic_class(&e)), &e),
    };
    let pkg = match Package::open(&again) {
        Ok(p) => p,
        Err(e) => return l.fail("second package unreadable", &e),
    };
    match extract(&pkg, f, host) {
        Ok(g) => {
            let (mut want, mut g) = (want, g);
            portrait(&mut want);
            portrait(&mut g);
            if let Some((k, d)) = compare("read back", &want, &g) {
                let lost = limits(&mut want);
                match (lost.is_empty(), compare("read back", &want, &g)) {
                    (false, None) => {
                        for w in lost {
                            l.fail(format!("read back: {w}"), &d);
                        }
                    }
                    (false, Some((k, d))) => return l.fail(&k, &d),
                    _ => return l.fail(&k, &d),
                }
            }
        }
        Err(e) => return l.fail(format!("read back: {e}"), &e),
    }
    l.evals += 1;
    l.validated += 1;
}

fn hosts(fi: usize) -> &'static [&'static str] {
    match FACADES[fi] {
        "table-style" => &["body"],
        "table-property" | "cell-property" => STYLED_HOSTS,
        "section-property" => SECTION_HOSTS,
        "section" => &["first", "middle", "last"],
        "document" => &["only", "middle", "last"],
        _ => TABLE_HOSTS,
    }
}

/// Hosts whose content is not read back (known findings of other properties).
fn read_back(host: &str) -> bool {
    !host.starts_with("toc")
}

/// Every setting with every value in every place.
pub fn groups(t: Tier) -> Vec<super::Group> {
    let all = Arc::new(ops());
    let mut out = vec![];
    for fi in 0..FACADES.len() {
        for (k, &host) in hosts(fi).iter().enumerate() {
            let mut seqs: Vec<Vec<usize>> = vec![vec![]];
            seqs.extend((0..all.len()).filter(|i| (k == 0 || t != Tier::Quick || all[*i].rep) && (all[*i].f)(fresh(fi)).is_some()).map(|i| vec![i]));
            let mut cases = vec![];
            for seq in seqs {
                let mut f = fresh(fi);
                let mut m = M::new();
                for i in &seq {
                    f = (all[*i].f)(f).unwrap();
                    (all[*i].m)(&mut m);
                }
                cases.push(super::Case {
                    name: seq.iter().map(|i| all[*i].name.as_str()).collect(),
                    want: format!("{:?}", expected(&m, &f, host)),
                    make: Box::new(move || document(&f, host)),
                });
            }
            out.push(super::Group { name: format!("{} in {host}", FACADES[fi]), cases });
        }
    }
    out
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let all = Arc::new(ops());
    let applicable = |fi: usize| -> Vec<usize> { (0..all.len()).filter(|i| (all[*i].f)(fresh(fi)).is_some()).collect() };
    let lists: Arc<Vec<Vec<usize>>> = Arc::new((0..FACADES.len()).map(applicable).collect());
    let reps: Arc<Vec<Vec<usize>>> =
        Arc::new(lists.iter().map(|l| l.iter().copied().filter(|i| all[*i].rep).collect()).collect());
    let apply = {
        let all = all.clone();
        move |fi: usize, seq: &[usize]| -> (F, M, String) {
            let mut f = fresh(fi);
            let mut m = M::new();
            for i in seq {
                f = (all[*i].f)(f).unwrap();
                (all[*i].m)(&mut m);
            }
            let names: Vec<&str> = seq.iter().map(|i| all[*i].name.as_str()).collect();
            (f, m, format!("{}: {}", FACADES[fi], names.join(", ")))
        }
    };
    let mut out = vec![];
    {
        let (lists, apply) = (lists.clone(), apply.clone());
        out.push(Phase::new(
            "values",
            "every setting of every kind of object with every one of its values (all enumeration values, boundary numbers), alone",
            move |ch, l| {
                let fi = ch.choose(FACADES.len());
                let i = *ch.pick(&lists[fi]);
                let (f, m, n) = apply(fi, &[i]);
                let h = hosts(fi)[if hosts(fi).get(1) == Some(&"style") { ch.choose(2) } else { 0 }];
                l.label = format!("{n} in {h}");
                verify(l, &f, &m, h, true);
            },
        ));
    }
    {
        let (reps, apply) = (reps.clone(), apply.clone());
        out.push(Phase::new(
            "pairs",
            "all ordered pairs of settings (one or two values each, including a setting given twice) on every kind of object",
            move |ch, l| {
                let fi = ch.choose(FACADES.len());
                let a = *ch.pick(&reps[fi]);
                let b = *ch.pick(&reps[fi]);
                let (f, m, n) = apply(fi, &[a, b]);
                l.label = n;
                verify(l, &f, &m, hosts(fi)[0], true);
            },
        ));
    }
    {
        let (reps, apply) = (reps.clone(), apply.clone());
        let deep = t != Tier::Quick;
        out.push(Phase::new("all together", "every setting at once, in two orders, and all but one of them", move |ch, l| {
            let fi = ch.choose(FACADES.len());
            let n = reps[fi].len();
            let skip = ch.choose(n + 1);
            let rev = ch.flag();
            let second = if deep { ch.choose(n + 1) } else { n };
            let mut seq: Vec<usize> = reps[fi].iter().enumerate().filter(|(k, _)| *k != skip && *k != second).map(|(_, i)| *i).collect();
            if rev {
                seq.reverse();
            }
            let (f, m, _) = apply(fi, &seq);
            l.label = format!("{}: all but #{skip},{second} reversed={rev}", FACADES[fi]);
            verify(l, &f, &m, hosts(fi)[0], true);
        }));
    }
    {
        let (lists, reps, apply) = (lists.clone(), reps.clone(), apply.clone());
        let quick = t == Tier::Quick;
        out.push(Phase::new(
            "hosts",
            "every setting in every place its object can be: tables in the body, cells, sections, headers, footers, comments, content controls and tables of contents; first, middle and last sections (every value in cells, headers and sections; one or two values each elsewhere in the quick tier)",
            move |ch, l| {
                let fi = ch.choose(FACADES.len());
                let h = *ch.pick(hosts(fi));
                let few = quick && !["cell", "header", "first", "middle", "last"].contains(&h);
                let i = *ch.pick(if few { &reps[fi] } else { &lists[fi] });
                let (f, m, n) = apply(fi, &[i]);
                l.label = format!("{h} {n}");
                verify(l, &f, &m, h, read_back(h));
            },
        ));
    }
    if t != Tier::Quick {
        let (reps, apply) = (reps.clone(), apply.clone());
        out.push(Phase::new("triples", "all ordered triples of settings on every kind of object", move |ch, l| {
            let fi = ch.choose(FACADES.len());
            let a = *ch.pick(&reps[fi]);
            let b = *ch.pick(&reps[fi]);
            let c = *ch.pick(&reps[fi]);
            let (f, m, n) = apply(fi, &[a, b, c]);
            l.label = n;
            verify(l, &f, &m, hosts(fi)[0], true);
        }));
    }
    out
}
