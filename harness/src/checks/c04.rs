//! C04: every run and paragraph setting is written as the standard says and survives reading.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::props::*;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "an indent always states its right distance, 0 when not given".into(),
            "an outline level above 9 is written as 9 (body text)".into(),
            "single and double strike-through exclude each other: switching one on withdraws the other".into(),
            "footnotes are not read back (known finding of C11), so only what is written is compared there".into(),
        ],
    }
}

/// What a caller can hold while formatting.
#[derive(Clone)]
enum F {
    RP(RunProperty),
    R(Run),
    PP(ParagraphProperty),
    P(Paragraph),
    S(Style),
    L(Level),
}

const FACADES: &[&str] = &["run-property", "run", "paragraph-property", "paragraph", "style", "level"];

const MK: &str = "MK";

fn fresh(i: usize) -> F {
    match FACADES[i] {
        "run-property" => F::RP(RunProperty::new()),
        "run" => F::R(Run::new()),
        "paragraph-property" => F::PP(ParagraphProperty::new()),
        "paragraph" => F::P(Paragraph::new()),
        "style" => F::S(Style::new("MKS", StyleType::Paragraph)),
        _ => F::L(level()),
    }
}
fn level() -> Level {
    Level::new(0, Start::new(1), NumberFormat::new("decimal"), LevelText::new("%1"), LevelJc::new("left"))
}

/// Expected content of the run container and of the paragraph container.
#[derive(Clone, Default, Debug, PartialEq)]
struct M {
    r: Box_,
    p: Box_,
}

type Apply = Arc<dyn Fn(F) -> Option<F> + Send + Sync>;
type Model = Arc<dyn Fn(&mut M) + Send + Sync>;

#[derive(Clone)]
struct Op {
    name: String,
    /// used in combinations with other settings
    rep: bool,
    f: Apply,
    m: Model,
}

macro_rules! on {
    ($f:expr, [$($v:ident),*], |$x:ident| $e:expr) => {
        match $f { $(F::$v($x) => Some(F::$v($e)),)* _ => None }
    };
}

struct Ops(Vec<Op>);
impl Ops {
    fn add(
        &mut self,
        name: impl Into<String>,
        rep: bool,
        f: impl Fn(F) -> Option<F> + Send + Sync + 'static,
        m: impl Fn(&mut M) + Send + Sync + 'static,
    ) {
        self.0.push(Op { name: name.into(), rep, f: Arc::new(f), m: Arc::new(m) });
    }
}

pub const BORDERS: &[(BorderType, &str)] = &[
    (BorderType::Single, "single"),
    (BorderType::Double, "double"),
    (BorderType::Nil, "nil"),
    (BorderType::None, "none"),
    (BorderType::Thick, "thick"),
    (BorderType::Dotted, "dotted"),
    (BorderType::Dashed, "dashed"),
    (BorderType::DotDash, "dotDash"),
    (BorderType::DotDotDash, "dotDotDash"),
    (BorderType::Triple, "triple"),
    (BorderType::ThinThickSmallGap, "thinThickSmallGap"),
    (BorderType::ThickThinSmallGap, "thickThinSmallGap"),
    (BorderType::ThinThickThinSmallGap, "thinThickThinSmallGap"),
    (BorderType::ThinThickMediumGap, "thinThickMediumGap"),
    (BorderType::ThickThinMediumGap, "thickThinMediumGap"),
    (BorderType::ThinThickThinMediumGap, "thinThickThinMediumGap"),
    (BorderType::ThinThickLargeGap, "thinThickLargeGap"),
    (BorderType::ThickThinLargeGap, "thickThinLargeGap"),
    (BorderType::ThinThickThinLargeGap, "thinThickThinLargeGap"),
    (BorderType::Wave, "wave"),
    (BorderType::DoubleWave, "doubleWave"),
    (BorderType::DashSmallGap, "dashSmallGap"),
    (BorderType::DashDotStroked, "dashDotStroked"),
    (BorderType::ThreeDEmboss, "threeDEmboss"),
    (BorderType::ThreeDEngrave, "threeDEngrave"),
    (BorderType::Outset, "outset"),
    (BorderType::Inset, "inset"),
    (BorderType::Apples, "apples"),
    (BorderType::ArchedScallops, "archedScallops"),
    (BorderType::BabyPacifier, "babyPacifier"),
    (BorderType::BabyRattle, "babyRattle"),
];

pub const SHADES: &[(ShdType, &str)] = &[
    (ShdType::Clear, "clear"),
    (ShdType::Nil, "nil"),
    (ShdType::Solid, "solid"),
    (ShdType::HorzStripe, "horzStripe"),
    (ShdType::VertStripe, "vertStripe"),
    (ShdType::ReverseDiagStripe, "reverseDiagStripe"),
    (ShdType::DiagStripe, "diagStripe"),
    (ShdType::HorzCross, "horzCross"),
    (ShdType::DiagCross, "diagCross"),
    (ShdType::ThinHorzStripe, "thinHorzStripe"),
    (ShdType::ThinVertStripe, "thinVertStripe"),
    (ShdType::ThinReverseDiagStripe, "thinReverseDiagStripe"),
    (ShdType::ThinDiagStripe, "thinDiagStripe"),
    (ShdType::ThinHorzCross, "thinHorzCross"),
    (ShdType::ThinDiagCross, "thinDiagCross"),
    (ShdType::Pct5, "pct5"),
    (ShdType::Pct10, "pct10"),
    (ShdType::Pct12, "pct12"),
    (ShdType::Pct15, "pct15"),
    (ShdType::Pct20, "pct20"),
    (ShdType::Pct25, "pct25"),
    (ShdType::Pct30, "pct30"),
    (ShdType::Pct35, "pct35"),
    (ShdType::Pct37, "pct37"),
    (ShdType::Pct40, "pct40"),
    (ShdType::Pct45, "pct45"),
    (ShdType::Pct50, "pct50"),
    (ShdType::Pct55, "pct55"),
    (ShdType::Pct60, "pct60"),
    (ShdType::Pct62, "pct62"),
    (ShdType::Pct65, "pct65"),
    (ShdType::Pct70, "pct70"),
    (ShdType::Pct75, "pct75"),
    (ShdType::Pct80, "pct80"),
    (ShdType::Pct85, "pct85"),
    (ShdType::Pct87, "pct87"),
    (ShdType::Pct90, "pct90"),
    (ShdType::Pct95, "pct95"),
];

const UNDERLINES: &[&str] = &[
    "single", "none", "words", "double", "thick", "dotted", "dottedHeavy", "dash", "dashedHeavy", "dashLong", "dashLongHeavy",
    "dotDash", "dashDotHeavy", "dotDotDash", "dashDotDotHeavy", "wave", "wavyHeavy", "wavyDouble",
];

const HIGHLIGHTS: &[&str] = &[
    "yellow", "none", "black", "blue", "cyan", "green", "magenta", "red", "white", "darkBlue", "darkCyan", "darkGreen", "darkMagenta",
    "darkRed", "darkYellow", "darkGray", "lightGray",
];

pub const ALIGNS: &[(AlignmentType, &str)] = &[
    (AlignmentType::Center, "center"),
    (AlignmentType::Left, "left"),
    (AlignmentType::Distribute, "distribute"),
    (AlignmentType::Right, "right"),
    (AlignmentType::Start, "start"),
    (AlignmentType::End, "end"),
    (AlignmentType::Both, "both"),
];

const THEMES: &[(ThemeColor, &str)] = &[
    (ThemeColor::Accent1, "accent1"),
    (ThemeColor::Dark1, "dark1"),
    (ThemeColor::Light1, "light1"),
    (ThemeColor::Dark2, "dark2"),
    (ThemeColor::Light2, "light2"),
    (ThemeColor::Accent2, "accent2"),
    (ThemeColor::Accent3, "accent3"),
    (ThemeColor::Accent4, "accent4"),
    (ThemeColor::Accent5, "accent5"),
    (ThemeColor::Accent6, "accent6"),
    (ThemeColor::Hyperlink, "hyperlink"),
    (ThemeColor::FollowedHyperlink, "followedHyperlink"),
    (ThemeColor::None, "none"),
    (ThemeColor::Background1, "background1"),
    (ThemeColor::Text1, "text1"),
    (ThemeColor::Background2, "background2"),
    (ThemeColor::Text2, "text2"),
];

const TABV: &[(TabValueType, &str)] = &[
    (TabValueType::Left, "left"),
    (TabValueType::Right, "right"),
    (TabValueType::Bar, "bar"),
    (TabValueType::Center, "center"),
    (TabValueType::Clear, "clear"),
    (TabValueType::Decimal, "decimal"),
    (TabValueType::End, "end"),
    (TabValueType::Num, "num"),
    (TabValueType::Start, "start"),
];
const TABL: &[(TabLeaderType, &str)] = &[
    (TabLeaderType::Dot, "dot"),
    (TabLeaderType::Heavy, "heavy"),
    (TabLeaderType::Hyphen, "hyphen"),
    (TabLeaderType::MiddleDot, "middleDot"),
    (TabLeaderType::None, "none"),
    (TabLeaderType::Underscore, "underscore"),
];

const PB: &[(&str, fn() -> ParagraphBorderPosition)] = &[
    ("top", || ParagraphBorderPosition::Top),
    ("left", || ParagraphBorderPosition::Left),
    ("bottom", || ParagraphBorderPosition::Bottom),
    ("right", || ParagraphBorderPosition::Right),
    ("between", || ParagraphBorderPosition::Between),
    ("bar", || ParagraphBorderPosition::Bar),
];

const I32S: &[i32] = &[20, -7, 0, 1, -1, 100, 32767, 32768, -32768, i32::MAX, i32::MIN];
const U32S: &[u32] = &[240, 1, 0, 65535, 65536, 2147483647, 2147483648, u32::MAX];
const SIZES: &[usize] = &[24, 3276, 0, 1, 255, 256, 65535, 65536, 16777217, 4294967295];

fn border(v: &str, sz: usize, sp: usize, c: &str) -> Vec<(&'static str, String)> {
    vec![("val", v.to_string()), ("sz", sz.to_string()), ("space", sp.to_string()), ("color", c.to_string())]
}
fn el(name: &str, at: &[(&'static str, String)]) -> T {
    T::new(name, &at.iter().map(|(k, v)| (*k, v.as_str())).collect::<Vec<_>>())
}
fn set_kid(t: &mut T, k: T) {
    t.kids.retain(|x| x.name != k.name);
    t.kids.push(k);
    t.kids.sort();
}
/// The borders a first single-border call starts from: four plain sides.
fn pbdr(m: &mut M) -> &mut T {
    if !m.p.0.contains_key("pBdr") {
        let mut t = T::new("pBdr", &[]);
        for s in ["top", "left", "bottom", "right"] {
            set_kid(&mut t, el(s, &border("single", 2, 0, "auto")));
        }
        m.p.put(t);
    }
    m.p.child("pBdr")
}

fn ops() -> Vec<Op> {
    let mut o = Ops(vec![]);
    // ---- run settings
    for (i, &v) in SIZES.iter().enumerate() {
        o.add(format!("size {v}"), i < 2, move |f| on!(f, [RP, R, P, S, L], |x| x.size(v)), move |m| {
            m.r.set("sz", &[("val", &v.to_string())]);
            m.r.set("szCs", &[("val", &v.to_string())]);
        });
        o.add(
            format!("fit text {v}"),
            i < 1,
            move |f| on!(f, [RP], |x| x.fit_text(v, None)),
            move |m| m.r.set("fitText", &[("val", &v.to_string())]),
        );
        for id in [1u32, 0, u32::MAX] {
            o.add(
                format!("fit text {v} id {id}"),
                i < 1 && id == 1,
                move |f| on!(f, [RP], |x| x.fit_text(v, Some(id))),
                move |m| m.r.set("fitText", &[("val", &v.to_string()), ("id", &id.to_string())]),
            );
        }
    }
    for (i, &v) in I32S.iter().enumerate() {
        o.add(
            format!("spacing {v}"),
            i < 2,
            move |f| match f {
                F::R(x) => Some(F::R(x.character_spacing(v))),
                F::P(x) => Some(F::P(x.character_spacing(v))),
                f => on!(f, [RP, L], |x| x.spacing(v)),
            },
            move |m| m.r.set("spacing", &[("val", &v.to_string())]),
        );
        o.add(
            format!("character spacing {v}"),
            i < 1,
            move |f| on!(f, [RP, PP], |x| x.character_spacing(v)),
            move |m| m.r.set("spacing", &[("val", &v.to_string())]),
        );
        o.add(
            format!("stretch {v}"),
            i < 2,
            move |f| on!(f, [RP, R], |x| x.stretch(v)),
            move |m| m.r.set("w", &[("val", &v.to_string())]),
        );
    }
    for (i, v) in ["FF0000", "auto", "00ff00", "ABCDEF", ""].into_iter().enumerate() {
        o.add(
            format!("color {v}"),
            i < 2,
            move |f| on!(f, [RP, R, P, S, L], |x| x.color(v)),
            move |m| m.r.set("color", &[("val", v)]),
        );
    }
    for (i, &(c, n)) in THEMES.iter().enumerate() {
        o.add(
            format!("theme color {n}"),
            i < 2,
            move |f| on!(f, [RP, R, S], |x| x.theme_color(c)),
            move |m| m.r.merge("color", &[("val", "auto")], &[("themeColor", n)]),
        );
    }
    for (i, v) in ["BF", "00", "FF", "7f"].into_iter().enumerate() {
        o.add(
            format!("theme shade {v}"),
            i < 1,
            move |f| on!(f, [RP, R, S], |x| x.theme_shade(v)),
            move |m| m.r.merge("color", &[("val", "auto")], &[("themeShade", v)]),
        );
        o.add(
            format!("theme tint {v}"),
            i < 1,
            move |f| on!(f, [RP, R, S], |x| x.theme_tint(v)),
            move |m| m.r.merge("color", &[("val", "auto")], &[("themeTint", v)]),
        );
    }
    for (i, &v) in HIGHLIGHTS.iter().enumerate() {
        o.add(
            format!("highlight {v}"),
            i < 2,
            move |f| on!(f, [RP, R, S, L], |x| x.highlight(v)),
            move |m| m.r.set("highlight", &[("val", v)]),
        );
    }
    for (i, (c, n)) in
        [(VertAlignType::SuperScript, "superscript"), (VertAlignType::SubScript, "subscript"), (VertAlignType::Baseline, "baseline")]
            .into_iter()
            .enumerate()
    {
        o.add(
            format!("vertical align {n}"),
            i < 2,
            move |f| on!(f, [RP], |x| x.vert_align(c)),
            move |m| m.r.set("vertAlign", &[("val", n)]),
        );
    }
    for (on_, v) in [(true, "1"), (false, "0")] {
        o.add(
            format!("bold {v}"),
            true,
            move |f| match (on_, f) {
                (true, f) => on!(f, [RP, R, P, S, L], |x| x.bold()),
                (false, f) => on!(f, [RP, R, L], |x| x.disable_bold()),
            },
            move |m| {
                m.r.set("b", &[("val", v)]);
                m.r.set("bCs", &[("val", v)]);
            },
        );
        o.add(
            format!("italic {v}"),
            true,
            move |f| match (on_, f) {
                (true, f) => on!(f, [RP, R, P, S, L], |x| x.italic()),
                (false, f) => on!(f, [RP, R, L], |x| x.disable_italic()),
            },
            move |m| {
                m.r.set("i", &[("val", v)]);
                m.r.set("iCs", &[("val", v)]);
            },
        );
        o.add(
            format!("strike {v}"),
            true,
            move |f| match (on_, f) {
                (true, f) => on!(f, [RP, R, L], |x| x.strike()),
                (false, f) => on!(f, [RP, L], |x| x.disable_strike()),
            },
            move |m| {
                m.r.set("strike", &[("val", v)]);
                if on_ {
                    m.r.del("dstrike");
                }
            },
        );
        o.add(
            format!("double strike {v}"),
            true,
            move |f| match (on_, f) {
                (true, f) => on!(f, [RP, R, L], |x| x.dstrike()),
                (false, f) => on!(f, [RP, L], |x| x.disable_dstrike()),
            },
            move |m| {
                m.r.set("dstrike", &[("val", v)]);
                if on_ {
                    m.r.del("strike");
                }
            },
        );
    }
    o.add(
        "caps off",
        true,
        |f| {
            on!(f, [RP], |x| {
                let mut x = x;
                x.caps = Some(Caps::new().disable());
                x
            })
        },
        |m| m.r.set("caps", &[("val", "0")]),
    );
    o.add("caps", true, |f| on!(f, [RP], |x| x.caps()), |m| m.r.set("caps", &[]));
    o.add("vanish", true, |f| on!(f, [RP, R, S, L], |x| x.vanish()), |m| m.r.set("vanish", &[]));
    o.add("spec vanish", true, |f| on!(f, [RP], |x| x.spec_vanish()), |m| m.r.set("specVanish", &[]));
    for (i, &v) in UNDERLINES.iter().enumerate() {
        o.add(
            format!("underline {v}"),
            i < 2,
            move |f| on!(f, [RP, R, S, L], |x| x.underline(v)),
            move |m| m.r.set("u", &[("val", v)]),
        );
    }
    type Fnt = fn(RunFonts, &str) -> RunFonts;
    let fonts: [(&'static str, Fnt); 9] = [
        ("ascii", |f, v| f.ascii(v)),
        ("hAnsi", |f, v| f.hi_ansi(v)),
        ("eastAsia", |f, v| f.east_asia(v)),
        ("cs", |f, v| f.cs(v)),
        ("asciiTheme", |f, v| f.ascii_theme(v)),
        ("hAnsiTheme", |f, v| f.hi_ansi_theme(v)),
        ("eastAsiaTheme", |f, v| f.east_asia_theme(v)),
        ("cstheme", |f, v| f.cs_theme(v)),
        ("hint", |f, v| f.hint(v)),
    ];
    for mask in 1u32..512 {
        if mask.count_ones() > 2 && mask != 511 {
            continue;
        }
        let rep = mask == 1 || mask == 511;
        o.add(
            format!("fonts {mask}"),
            rep,
            move |f| {
                let mut x = RunFonts::new();
                for (i, (n, s)) in fonts.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        x = s(x, &format!("v {n}"));
                    }
                }
                on!(f, [RP, R, P, S, L], |y| y.fonts(x))
            },
            move |m| {
                let at: Vec<(&'static str, String)> =
                    fonts.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, (n, _))| (*n, format!("v {n}"))).collect();
                m.r.put(el("rFonts", &at));
            },
        );
    }
    for (i, &(b, n)) in BORDERS.iter().enumerate() {
        for (j, (sz, sp, c)) in [(4usize, 0usize, "auto"), (12, 3, "FF0000"), (0, 31, "000000")].into_iter().enumerate() {
            o.add(
                format!("text border {n} {sz} {sp} {c}"),
                i + j < 2,
                move |f| {
                    let t = TextBorder::new().border_type(b).size(sz).space(sp).color(c);
                    on!(f, [RP, R, S], |x| x.text_border(t))
                },
                move |m| m.r.put(el("bdr", &border(n, sz, sp, c))),
            );
        }
    }
    for (i, &(s, n)) in SHADES.iter().enumerate() {
        for (j, (c, fill)) in [("auto", "FFFFFF"), ("FF0000", "00FF00")].into_iter().enumerate() {
            let sh = move || Shading::new().shd_type(s).color(c).fill(fill);
            let at = move || el("shd", &[("val", n.to_string()), ("color", c.to_string()), ("fill", fill.to_string())]);
            o.add(format!("shading {n} {c}"), i + j < 2, move |f| on!(f, [RP, R, S], |x| x.shading(sh())), move |m| m.r.put(at()));
            o.add(
                format!("paragraph shading {n} {c}"),
                i + j < 2,
                move |f| on!(f, [PP], |x| x.shading(sh())),
                move |m| m.p.put(at()),
            );
        }
    }
    for (i, v) in ["Strong", "a b"].into_iter().enumerate() {
        o.add(
            format!("run style {v}"),
            i < 1,
            move |f| on!(f, [RP, R], |x| x.style(v)),
            move |m| m.r.set("rStyle", &[("val", v)]),
        );
        o.add(
            format!("paragraph style {v}"),
            i < 1,
            move |f| on!(f, [PP, P], |x| x.style(v)),
            move |m| m.p.set("pStyle", &[("val", v)]),
        );
    }
    o.add(
        "run property",
        true,
        |f| on!(f, [PP, P], |x| x.run_property(RunProperty::new().size(9).bold())),
        |m| {
            m.r = Box_::default();
            for (n, v) in [("sz", "9"), ("szCs", "9"), ("b", "1"), ("bCs", "1")] {
                m.r.set(n, &[("val", v)]);
            }
        },
    );
    // ---- paragraph settings
    for (i, &(a, n)) in ALIGNS.iter().enumerate() {
        o.add(
            format!("align {n}"),
            i < 2,
            move |f| on!(f, [PP, P, S], |x| x.align(a)),
            move |m| m.p.set("jc", &[("val", n)]),
        );
    }
    for (i, (a, n)) in [
        (TextAlignmentType::Center, "center"),
        (TextAlignmentType::Auto, "auto"),
        (TextAlignmentType::Baseline, "baseline"),
        (TextAlignmentType::Bottom, "bottom"),
        (TextAlignmentType::Top, "top"),
    ]
    .into_iter()
    .enumerate()
    {
        o.add(
            format!("text alignment {n}"),
            i < 2,
            move |f| on!(f, [PP, S], |x| x.text_alignment(a)),
            move |m| m.p.set("textAlignment", &[("val", n)]),
        );
    }
    for v in [0usize, 3, 8, 9, 10, 100] {
        let w = v.min(9);
        o.add(
            format!("outline level {v}"),
            v < 4,
            move |f| on!(f, [PP, P, S], |x| x.outline_lvl(v)),
            move |m| m.p.set("outlineLvl", &[("val", &w.to_string())]),
        );
    }
    for (b, v) in [(true, "1"), (false, "0")] {
        let set = move |n: &'static str| move |m: &mut M| m.p.set(n, &[("val", v)]);
        o.add(format!("snap to grid {v}"), true, move |f| on!(f, [PP, P, S], |x| x.snap_to_grid(b)), set("snapToGrid"));
        o.add(format!("keep next {v}"), true, move |f| on!(f, [PP, P], |x| x.keep_next(b)), set("keepNext"));
        o.add(format!("keep lines {v}"), true, move |f| on!(f, [PP, P], |x| x.keep_lines(b)), set("keepLines"));
        o.add(format!("page break before {v}"), true, move |f| on!(f, [PP, P], |x| x.page_break_before(b)), set("pageBreakBefore"));
        o.add(format!("bidi {v}"), true, move |f| on!(f, [PP], |x| x.bidi(b)), set("bidi"));
        o.add(format!("widow control {v}"), true, move |f| on!(f, [PP, P], |x| x.widow_control(b)), set("widowControl"));
        let n = b as isize;
        o.add(format!("adjust right indent {v}"), true, move |f| on!(f, [PP], |x| x.adjust_right_ind(n)), set("adjustRightInd"));
    }
    for tv in 0..=TABV.len() {
        for tl in 0..=TABL.len() {
            for pos in [None, Some(720usize), Some(0), Some(31680)] {
                if tv + tl > 2 && pos != Some(720) {
                    continue;
                }
                let t = move || {
                    let mut t = Tab::new();
                    if tv > 0 {
                        t = t.val(TABV[tv - 1].0);
                    }
                    if tl > 0 {
                        t = t.leader(TABL[tl - 1].0);
                    }
                    if let Some(p) = pos {
                        t = t.pos(p);
                    }
                    t
                };
                let e = move || {
                    let mut at = vec![];
                    if tv > 0 {
                        at.push(("val", TABV[tv - 1].1.to_string()));
                    }
                    if tl > 0 {
                        at.push(("leader", TABL[tl - 1].1.to_string()));
                    }
                    if let Some(p) = pos {
                        at.push(("pos", p.to_string()));
                    }
                    el("tab", &at)
                };
                o.add(
                    format!("tab {tv} {tl} {pos:?}"),
                    tv <= 2 && tl <= 1 && tv > 0 && pos == Some(720),
                    move |f| on!(f, [PP, P], |x| x.add_tab(t())),
                    move |m| m.p.child("tabs").kids.push(e()),
                );
                if tv <= 2 && tl <= 2 {
                    o.add(
                        format!("tabs {tv} {tl} {pos:?}"),
                        tv == 1 && tl == 1 && pos == Some(720),
                        move |f| on!(f, [P], |x| x.tabs(&[t(), Tab::new().val(TabValueType::Center).pos(9000), t()])),
                        move |m| {
                            m.p.child("tabs").kids.extend([e(), T::new("tab", &[("val", "center"), ("pos", "9000")]), e()])
                        },
                    );
                }
            }
        }
    }
    for (i, left) in [None, Some(720), Some(0), Some(-5), Some(i32::MAX), Some(i32::MIN)].into_iter().enumerate() {
        for (j, sp) in [
            None,
            Some(SpecialIndentType::FirstLine(210)),
            Some(SpecialIndentType::Hanging(420)),
            Some(SpecialIndentType::FirstLine(0)),
            Some(SpecialIndentType::Hanging(0)),
        ]
        .into_iter()
        .enumerate()
        {
            for (k, end) in [None, Some(11), Some(-3), Some(0)].into_iter().enumerate() {
                for (l, sc) in [None, Some(100), Some(0), Some(-50)].into_iter().enumerate() {
                    o.add(
                        format!("indent {left:?} {sp:?} {end:?} {sc:?}"),
                        (i, j, k, l) == (1, 1, 0, 0) || (i, j, k, l) == (0, 2, 1, 1),
                        move |f| on!(f, [PP, P, S, L], |x| x.indent(left, sp, end, sc)),
                        move |m| {
                            let mut at = vec![("right", end.unwrap_or(0).to_string())];
                            if let Some(v) = left {
                                at.push(("left", v.to_string()));
                            }
                            match sp {
                                Some(SpecialIndentType::FirstLine(v)) => at.push(("firstLine", v.to_string())),
                                Some(SpecialIndentType::Hanging(v)) => at.push(("hanging", v.to_string())),
                                None => {}
                            }
                            if let Some(v) = sc {
                                at.push(("leftChars", v.to_string()));
                            }
                            m.p.put(el("ind", &at));
                        },
                    );
                }
            }
        }
    }
    for (i, v) in [100, 0, -25].into_iter().enumerate() {
        o.add(
            format!("hanging chars {v}"),
            i < 1,
            move |f| on!(f, [P, S], |x| x.hanging_chars(v)),
            move |m| m.p.merge("ind", &[("right", "0")], &[("hangingChars", &v.to_string())]),
        );
        o.add(
            format!("first line chars {v}"),
            i < 1,
            move |f| on!(f, [P, S], |x| x.first_line_chars(v)),
            move |m| m.p.merge("ind", &[("right", "0")], &[("firstLineChars", &v.to_string())]),
        );
    }
    for mask in 0u32..64 {
        for rule in 0..3usize {
            if mask >> 5 & 1 == 0 && rule > 0 {
                continue;
            }
            let rules =
                [(LineSpacingType::Auto, "auto"), (LineSpacingType::AtLeast, "atLeast"), (LineSpacingType::Exact, "exact")];
            for (vi, u) in [0usize, 1, 2].into_iter().enumerate() {
                if mask.count_ones() > 2 && vi > 0 {
                    continue;
                }
                let b = U32S[u];
                let b2 = U32S[(u + 4) % U32S.len()];
                let ln = I32S[(u * 3) % I32S.len()];
                o.add(
                    format!("line spacing {mask} {rule} {u}"),
                    vi == 0 && (mask == 1 || mask == 63) && rule == 0,
                    move |f| {
                        let mut s = LineSpacing::new();
                        if mask & 1 != 0 {
                            s = s.before(b);
                        }
                        if mask & 2 != 0 {
                            s = s.after(b2);
                        }
                        if mask & 4 != 0 {
                            s = s.before_lines(b2 / 2);
                        }
                        if mask & 8 != 0 {
                            s = s.after_lines(b / 2 + 7);
                        }
                        if mask & 16 != 0 {
                            s = s.line(ln);
                        }
                        if mask & 32 != 0 {
                            s = s.line_rule(rules[rule].0);
                        }
                        on!(f, [PP, P, S], |x| x.line_spacing(s))
                    },
                    move |m| {
                        let mut at = vec![];
                        if mask & 1 != 0 {
                            at.push(("before", b.to_string()));
                        }
                        if mask & 2 != 0 {
                            at.push(("after", b2.to_string()));
                        }
                        if mask & 4 != 0 {
                            at.push(("beforeLines", (b2 / 2).to_string()));
                        }
                        if mask & 8 != 0 {
                            at.push(("afterLines", (b / 2 + 7).to_string()));
                        }
                        if mask & 16 != 0 {
                            at.push(("line", ln.to_string()));
                        }
                        if mask & 32 != 0 {
                            at.push(("lineRule", rules[rule].1.to_string()));
                        }
                        m.p.put(el("spacing", &at));
                    },
                );
            }
        }
    }
    for (i, (id, lv)) in [(2usize, 0usize), (3, 8), (0, 1), (2147483647, 2)].into_iter().enumerate() {
        o.add(
            format!("numbering {id} {lv}"),
            i < 2,
            move |f| on!(f, [PP, P], |x| x.numbering(NumberingId::new(id), IndentLevel::new(lv))),
            move |m| {
                m.p.put(T::with("numPr", vec![T::new("numId", &[("val", &id.to_string())]), T::new("ilvl", &[("val", &lv.to_string())])]))
            },
        );
        o.add(
            format!("numbering id {id}"),
            i < 1,
            move |f| on!(f, [PP], |x| x.numbering_property(NumberingProperty::new().id(NumberingId::new(id)))),
            move |m| m.p.put(T::with("numPr", vec![T::new("numId", &[("val", &id.to_string())])])),
        );
    }
    // ---- frames
    macro_rules! frame {
        ($at:literal, $meth:ident, $fp:ident, $vals:expr) => {
            for (i, v) in $vals.into_iter().enumerate() {
                o.add(
                    format!("frame {} {v}", $at),
                    i < 1,
                    move |f| on!(f, [P, S], |x| x.$meth(v)),
                    move |m| m.p.merge("framePr", &[], &[($at, &v.to_string())]),
                );
                o.add(
                    format!("frame property {} {v}", $at),
                    i < 1 && $at == "x",
                    move |f| on!(f, [PP], |x| x.frame_property(FrameProperty::new().$fp(v))),
                    move |m| m.p.put(T::new("framePr", &[($at, &v.to_string())])),
                );
            }
        };
    }
    frame!("wrap", wrap, wrap, ["around", "auto", "none", "notBeside", "through", "tight"]);
    frame!("vAnchor", v_anchor, v_anchor, ["page", "margin", "text"]);
    frame!("hAnchor", h_anchor, h_anchor, ["page", "margin", "text"]);
    frame!("hRule", h_rule, h_rule, ["exact", "atLeast", "auto"]);
    frame!("xAlign", x_align, x_align, ["center", "left", "right", "inside", "outside"]);
    frame!("yAlign", y_align, y_align, ["top", "center", "bottom", "inside", "outside", "inline"]);
    frame!("hSpace", h_space, h_space, [142, 0, -1, 31680]);
    frame!("vSpace", v_space, v_space, [141, 0, -1, 31680]);
    frame!("x", frame_x, x, [100, 0, -31680]);
    frame!("y", frame_y, y, [200, 0, -31680]);
    frame!("w", frame_width, width, [300u32, 0, 31680]);
    frame!("h", frame_height, height, [400u32, 0, 31680]);
    // ---- paragraph borders
    for &(n, p) in PB {
        for (i, &(b, bn)) in BORDERS.iter().enumerate() {
            for (j, (sz, sp, c)) in [(8usize, 1usize, "00FF00"), (0, 31, "auto")].into_iter().enumerate() {
                if i > 3 && j > 0 {
                    continue;
                }
                let mk = move || ParagraphBorder::new(p()).val(b).size(sz).space(sp).color(c);
                let e = move || el(n, &border(bn, sz, sp, c));
                o.add(
                    format!("border {n} {bn} {sz}"),
                    i == 1 && j == 0 && (n == "top" || n == "bar"),
                    move |f| on!(f, [PP], |x| x.set_border(mk())),
                    move |m| set_kid(pbdr(m), e()),
                );
                o.add(
                    format!("borders {n} {bn} {sz}"),
                    i == 2 && j == 0 && n == "left",
                    move |f| on!(f, [PP, P], |x| x.set_borders(ParagraphBorders::with_empty().set(mk()))),
                    move |m| m.p.put(T::with("pBdr", vec![e()])),
                );
            }
        }
        o.add(
            format!("clear border {n}"),
            n == "top" || n == "between",
            move |f| on!(f, [PP], |x| x.clear_border(p())),
            move |m| set_kid(pbdr(m), el(n, &border("nil", 2, 0, "auto"))),
        );
        o.add(
            format!("default border {n}"),
            false,
            move |f| on!(f, [PP], |x| x.set_border(ParagraphBorder::new(p()))),
            move |m| set_kid(pbdr(m), el(n, &border("single", 2, 0, "auto"))),
        );
    }
    o.add(
        "clear all borders",
        true,
        |f| on!(f, [PP], |x| x.clear_all_borders()),
        |m| {
            for (n, _) in PB {
                set_kid(pbdr(m), el(n, &border("nil", 2, 0, "auto")));
            }
        },
    );
    o.0
}

// ------------------------------------------------------------------------------------- documents

/// Where the formatted thing is put.
#[derive(Clone)]
enum Pos {
    Natural,
    /// run hosted by (paragraph host, run host)
    RunIn(&'static str, &'static str),
    /// paragraph hosted by
    ParaIn(&'static str),
    Mark,
    Change,
    StyleOf(StyleType),
    LevelOf(bool),
}

/// Content of (run container, paragraph container, paragraph mark container).
type Three = (Vec<T>, Vec<T>, Vec<T>);

fn numbered(d: Docx, l: Level, over: bool) -> Docx {
    if over {
        d.add_abstract_numbering(AbstractNumbering::new(7).add_level(level()))
            .add_numbering(Numbering::new(7, 7).add_override(LevelOverride::new(0).level(l)))
    } else {
        d.add_abstract_numbering(AbstractNumbering::new(7).add_level(l)).add_numbering(Numbering::new(7, 7))
    }
}

fn pieces(f: &F) -> (RunProperty, ParagraphProperty) {
    match f.clone() {
        F::RP(r) => (r, ParagraphProperty::new()),
        F::R(r) => (r.run_property, ParagraphProperty::new()),
        F::PP(p) => (RunProperty::new(), p),
        F::P(p) => (RunProperty::new(), p.property),
        F::S(s) => (s.run_property, s.paragraph_property),
        F::L(l) => (l.run_property, l.paragraph_property),
    }
}

fn document(f: &F, pos: &Pos) -> Docx {
    let d = Docx::new();
    let (rp, pp) = pieces(f);
    let mut plain = Paragraph::new().add_run(Run::new().add_text(MK));
    match pos {
        Pos::Natural => match f.clone() {
            F::RP(r) => {
                let mut run = Run::new().add_text(MK);
                run.run_property = r;
                d.add_paragraph(Paragraph::new().add_run(run))
            }
            F::R(r) => d.add_paragraph(Paragraph::new().add_run(r.add_text(MK))),
            F::PP(p) => {
                plain.property = p;
                d.add_paragraph(plain)
            }
            F::P(p) => d.add_paragraph(p.add_run(Run::new().add_text(MK))),
            F::S(s) => d.add_style(s).add_paragraph(plain),
            F::L(l) => numbered(d, l, false).add_paragraph(plain.numbering(NumberingId::new(7), IndentLevel::new(0))),
        },
        Pos::RunIn(ph, rh) => {
            let text = if rh.contains("del") { K::Dt(MK.into()) } else { K::T(MK.into()) };
            let kids = vec![wrap(rh, vec![K::Props(Box::new(rp)), text])];
            place(ph, Pa { id: None, num: None, style: None, kids }, 1).to_docx()
        }
        Pos::ParaIn(ph) => {
            let kids = vec![I::Props(Box::new(pp)), rtext(MK)];
            place(ph, Pa { id: None, num: None, style: None, kids }, 1).to_docx()
        }
        Pos::Mark => d.add_paragraph(plain.run_property(rp)),
        Pos::Change => d.add_paragraph(
            plain.paragraph_property_change(ParagraphPropertyChange::new().author("a").date(DATE).property(pp)),
        ),
        Pos::StyleOf(t) => {
            let mut s = Style::new("MKS", *t);
            s.run_property = rp;
            s.paragraph_property = pp;
            d.add_style(s).add_paragraph(plain)
        }
        Pos::LevelOf(over) => {
            let mut l = level();
            l.run_property = rp;
            l.paragraph_property = pp;
            numbered(d, l, *over).add_paragraph(plain.numbering(NumberingId::new(7), IndentLevel::new(0)))
        }
    }
}

fn kids(e: Option<&El>) -> Vec<T> {
    e.map(|e| e.els().map(T::of).collect()).unwrap_or_default()
}
fn split(ppr: Option<&El>) -> (Vec<T>, Vec<T>) {
    let p = kids(ppr).into_iter().filter(|t| t.name != "rPr").collect();
    (p, kids(ppr.and_then(|e| e.child("w:rPr"))))
}

/// The run that carries the marker and its paragraph.
fn marked(e: &El) -> Option<(&El, &El)> {
    for p in e.all("w:p") {
        for r in p.all("w:r") {
            if r.els().any(|t| (t.is("w:t") || t.is("w:delText")) && t.text() == MK) {
                // the innermost paragraph: no paragraph between them that also contains the run
                if !p.all("w:p").iter().any(|q| q.start != p.start && q.start < r.start && r.end <= q.end) {
                    return Some((p, r));
                }
            }
        }
    }
    None
}

fn extract(pkg: &Package, f: &F, pos: &Pos) -> Result<Three, String> {
    enum W {
        Style,
        Level(bool),
        Body,
    }
    let w = match (pos, f) {
        (Pos::Natural, F::S(_)) | (Pos::StyleOf(_), _) => W::Style,
        (Pos::Natural, F::L(_)) => W::Level(false),
        (Pos::LevelOf(o), _) => W::Level(*o),
        _ => W::Body,
    };
    match w {
        W::Style => {
            let s = pkg.styles().ok_or("no styles part")?;
            let all: Vec<&El> = s.children("w:style").into_iter().filter(|s| s.attr("w:styleId") == Some("MKS")).collect();
            if all.len() != 1 {
                return Err(format!("the style appears {} times", all.len()));
            }
            if all[0].children("w:rPr").len() > 1 || all[0].children("w:pPr").len() > 1 {
                return Err("property container repeated".into());
            }
            let (p, k) = split(all[0].child("w:pPr"));
            Ok((kids(all[0].child("w:rPr")), p, k))
        }
        W::Level(over) => {
            let n = pkg.numbering().ok_or("no numbering part")?;
            let l = if over {
                n.children("w:num")
                    .into_iter()
                    .find(|n| n.attr("w:numId") == Some("7"))
                    .and_then(|n| n.path(&["w:lvlOverride", "w:lvl"]))
            } else {
                n.children("w:abstractNum").into_iter().find(|n| n.attr("w:abstractNumId") == Some("7")).and_then(|n| n.child("w:lvl"))
            }
            .ok_or("no level")?;
            if l.children("w:rPr").len() > 1 || l.children("w:pPr").len() > 1 {
                return Err("property container repeated".into());
            }
            let (p, k) = split(l.child("w:pPr"));
            Ok((kids(l.child("w:rPr")), p, k))
        }
        W::Body => {
            let mut hit = None;
            for part in &pkg.names {
                if let Some((p, r)) = pkg.xml(part).and_then(marked) {
                    if hit.is_some() {
                        return Err("the marked paragraph appears in two parts".into());
                    }
                    hit = Some((p, r));
                }
            }
            let (p, r) = hit.ok_or("the marked run is gone")?;
            if r.children("w:rPr").len() > 1 || p.children("w:pPr").len() > 1 {
                return Err("property container repeated".into());
            }
            let run = kids(r.child("w:rPr"));
            if matches!(pos, Pos::Change) {
                let c = p.path(&["w:pPr", "w:pPrChange", "w:pPr"]).ok_or("no previous paragraph properties")?;
                let (pp, k) = split(Some(c));
                let (now, now_k) = split(p.child("w:pPr"));
                if now.len() != 1 || !now_k.is_empty() || !run.is_empty() {
                    return Err("the previous formatting leaked into the current one".into());
                }
                return Ok((run, pp, k));
            }
            let (pp, k) = split(p.child("w:pPr"));
            Ok((run, pp, k))
        }
    }
}

/// Settings expected in the three containers.
fn expected(m: &M, f: &F, pos: &Pos) -> Three {
    let (r, p) = (m.r.list(), m.p.list());
    match (pos, f) {
        (Pos::Mark, _) => (vec![], p, r),
        (_, F::P(_)) | (_, F::PP(_)) => (vec![], p, r),
        _ => (r, p, vec![]),
    }
}

/// Ids handed out while writing are not settings.
fn compare(stage: &str, want: &Three, got: &Three) -> Option<(String, String)> {
    for (n, w, g) in [("run", &want.0, &got.0), ("paragraph", &want.1, &got.1), ("mark", &want.2, &got.2)] {
        if let Some((k, d)) = crate::props::diff(w, g) {
            return Some((format!("{stage}: {n} {k}"), d));
        }
    }
    None
}

/// Settings the reader is known to forget (listed as findings).
const LIMITS: &[(&str, &str, &str)] = &[
    ("widowControl", "0", "widow control switched off is forgotten"),
    ("bidi", "0", "right-to-left switched off is forgotten"),
    ("w", "100", "character scaling of 100 is forgotten"),
];

fn verify(l: &mut Leaf, f: &F, m: &M, pos: &Pos, reread: bool) {
    let want = expected(m, f, pos);
    l.states.push(hash64(format!("{want:?}").as_bytes()));
    let d = document(f, pos);
    l.transitions += 1;
    let bytes = match guarded(|| pack_build(d)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return l.fail("cannot be written", &e),
        Err(e) => return l.fail(&format!("panic while writing: {}", panic_class(&e)), &e),
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("package unreadable", &e),
    };
    match extract(&pkg, f, pos) {
        Ok(g) => {
            if let Some((k, d)) = compare("written", &want, &g) {
                return l.fail(&k, &d);
            }
        }
        Err(e) => return l.fail(&format!("written: {e}"), &e),
    }
    l.evals += 1;
    if !reread {
        return;
    }
    l.transitions += 2;
    let again = guarded(|| {
        let d = read_docx(&bytes).map_err(|e| format!("not readable: {e}"))?;
        pack_build(d)
    });
    let again = match again {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return l.fail("cannot be read and written again", &e),
        Err(e) => return l.fail(&format!("panic on the way back: {}", panic_class(&e)), &e),
    };
    let pkg = match Package::open(&again) {
        Ok(p) => p,
        Err(e) => return l.fail("second package unreadable", &e),
    };
    match extract(&pkg, f, pos) {
        Ok(g) => {
            if let Some((k, d)) = compare("read back", &want, &g) {
                let mut less = want.clone();
                let mut lost = vec![];
                for (n, v, what) in LIMITS {
                    for c in [&mut less.0, &mut less.1, &mut less.2] {
                        let t = T::new(n, &[("val", v)]);
                        if c.contains(&t) {
                            c.retain(|x| *x != t);
                            lost.push(*what);
                        }
                    }
                }
                match (lost.is_empty(), compare("read back", &less, &g)) {
                    (false, None) => {
                        for w in lost {
                            l.fail(&format!("read back: {w}"), &d);
                        }
                    }
                    (false, Some((k, d))) => return l.fail(&k, &d),
                    _ => return l.fail(&k, &d),
                }
            }
        }
        Err(e) => return l.fail(&format!("read back: {e}"), &e),
    }
    l.evals += 1;
    l.validated += 1;
}

// -------------------------------------------------------------------------------------- phases

/// Hosts a run is tried in: every paragraph host with a plain run, every run host in the body.
fn run_hosts() -> Vec<(&'static str, &'static str)> {
    let mut v: Vec<(&str, &str)> = PARA_HOSTS.iter().map(|h| (*h, "direct")).collect();
    v.extend(RUN_HOSTS.iter().skip(1).map(|h| ("body", *h)));
    v
}
/// Hosts whose content is not read back by the library (known findings of other properties).
fn read_back(ph: &str, rh: &str) -> bool {
    ph != "footnote" && !ph.starts_with("toc") && !["link-sdt"].contains(&rh)
}

/// Every setting with every value in every place.
pub fn groups(t: Tier) -> Vec<super::Group> {
    let all = Arc::new(ops());
    let mut at: Vec<(String, usize, Pos, bool)> = (0..FACADES.len()).map(|fi| (FACADES[fi].to_string(), fi, Pos::Natural, true)).collect();
    at.extend(run_hosts().into_iter().map(|(p, r)| (format!("run in {p}/{r}"), 0, Pos::RunIn(p, r), t != Tier::Quick)));
    at.extend(PARA_HOSTS.iter().map(|p| (format!("paragraph in {p}"), 2, Pos::ParaIn(p), t != Tier::Quick)));
    for fi in [0, 2] {
        for (n, p) in [("paragraph style", Pos::StyleOf(StyleType::Paragraph)), ("character style", Pos::StyleOf(StyleType::Character)), ("table style", Pos::StyleOf(StyleType::Table)), ("level", Pos::LevelOf(false)), ("override", Pos::LevelOf(true))] {
            at.push((format!("{} of {n}", FACADES[fi]), fi, p, true));
        }
    }
    at.push(("run of mark".into(), 0, Pos::Mark, true));
    at.push(("paragraph of change".into(), 2, Pos::Change, true));
    at.into_iter()
        .map(|(name, fi, pos, full)| {
            let mut cases = vec![];
            let mut seqs: Vec<Vec<usize>> = vec![vec![]];
            seqs.extend((0..all.len()).filter(|i| (full || all[*i].rep) && (all[*i].f)(fresh(fi)).is_some()).map(|i| vec![i]));
            for seq in seqs {
                let mut f = fresh(fi);
                let mut m = M::default();
                for i in &seq {
                    f = (all[*i].f)(f).unwrap();
                    (all[*i].m)(&mut m);
                }
                let pos = pos.clone();
                cases.push(super::Case {
                    name: seq.iter().map(|i| all[*i].name.as_str()).collect(),
                    want: format!("{:?}", expected(&m, &f, &pos)),
                    make: Box::new(move || document(&f, &pos)),
                });
            }
            super::Group { name, cases }
        })
        .collect()
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let all = Arc::new(ops());
    let applicable = |fi: usize| -> Vec<usize> { (0..all.len()).filter(|i| (all[*i].f)(fresh(fi)).is_some()).collect() };
    let lists: Arc<Vec<Vec<usize>>> = Arc::new((0..FACADES.len()).map(applicable).collect());
    let reps: Arc<Vec<Vec<usize>>> =
        Arc::new(lists.iter().map(|l| l.iter().copied().filter(|i| all[*i].rep).collect()).collect());
    let apply = {
        let all = all.clone();
        move |fi: usize, seq: &[usize]| -> (F, M, String) {
            let mut f = fresh(fi);
            let mut m = M::default();
            for i in seq {
                f = (all[*i].f)(f).unwrap();
                (all[*i].m)(&mut m);
            }
            let names: Vec<&str> = seq.iter().map(|i| all[*i].name.as_str()).collect();
            (f, m, format!("{}: {}", FACADES[fi], names.join(", ")))
        }
    };
    let mut out = vec![];
    {
        let (lists, apply) = (lists.clone(), apply.clone());
        out.push(Phase::new(
            "values",
            "every setting of every kind of object with every one of its values (all enumeration values, boundary numbers), alone",
            move |ch, l| {
                let fi = ch.choose(FACADES.len());
                let i = *ch.pick(&lists[fi]);
                let (f, m, n) = apply(fi, &[i]);
                l.label = n;
                verify(l, &f, &m, &Pos::Natural, true);
            },
        ));
    }
    {
        let (reps, apply) = (reps.clone(), apply.clone());
        out.push(Phase::new(
            "pairs",
            "all ordered pairs of settings (one or two values each, including a setting given twice) on every kind of object",
            move |ch, l| {
                let fi = ch.choose(FACADES.len());
                let a = *ch.pick(&reps[fi]);
                let b = *ch.pick(&reps[fi]);
                let (f, m, n) = apply(fi, &[a, b]);
                l.label = n;
                verify(l, &f, &m, &Pos::Natural, true);
            },
        ));
    }
    {
        let (reps, apply) = (reps.clone(), apply.clone());
        let deep = t != Tier::Quick;
        out.push(Phase::new(
            "all together",
            "every setting at once, in two orders, and all but one of them",
            move |ch, l| {
                let fi = ch.choose(FACADES.len());
                let n = reps[fi].len();
                let skip = ch.choose(n + 1);
                let rev = ch.flag();
                let second = if deep { ch.choose(n + 1) } else { n };
                let mut seq: Vec<usize> = reps[fi].iter().enumerate().filter(|(k, _)| *k != skip && *k != second).map(|(_, i)| *i).collect();
                if rev {
                    seq.reverse();
                }
                let (f, m, _) = apply(fi, &seq);
                l.label = format!("{}: all but #{skip},{second} reversed={rev}", FACADES[fi]);
                verify(l, &f, &m, &Pos::Natural, true);
            },
        ));
    }
    {
        let (reps, apply) = (reps.clone(), apply.clone());
        let lists = lists.clone();
        let quick = t == Tier::Quick;
        out.push(Phase::new(
            "run hosts",
            "every run setting in every place a run can be: body, cells, headers, footers, notes, comments, links, tracked changes, content controls",
            move |ch, l| {
                let (ph, rh) = *ch.pick(&run_hosts());
                let i = *ch.pick(if quick { &reps[0] } else { &lists[0] });
                let (f, m, n) = apply(0, &[i]);
                l.label = format!("{ph}/{rh} {n}");
                verify(l, &f, &m, &Pos::RunIn(ph, rh), read_back(ph, rh));
            },
        ));
    }
    {
        let (reps, apply) = (reps.clone(), apply.clone());
        let lists = lists.clone();
        let quick = t == Tier::Quick;
        out.push(Phase::new(
            "paragraph hosts",
            "every paragraph setting in every place a paragraph can be",
            move |ch, l| {
                let ph = *ch.pick(PARA_HOSTS);
                let i = *ch.pick(if quick { &reps[2] } else { &lists[2] });
                let (f, m, n) = apply(2, &[i]);
                l.label = format!("{ph} {n}");
                verify(l, &f, &m, &Pos::ParaIn(ph), read_back(ph, ""));
            },
        ));
    }
    {
        let (lists, apply) = (lists.clone(), apply.clone());
        out.push(Phase::new(
            "carriers",
            "every run setting with every value on a paragraph mark, a style of each type, a numbering level and a level override; every paragraph setting on the previous formatting of a tracked change, a style of each type, a level and a level override",
            move |ch, l| {
                let fi = *ch.pick(&[0usize, 2]);
                let mut ps = vec![("paragraph style", Pos::StyleOf(StyleType::Paragraph)), ("character style", Pos::StyleOf(StyleType::Character)), ("table style", Pos::StyleOf(StyleType::Table)), ("numbering style", Pos::StyleOf(StyleType::Numbering)), ("level", Pos::LevelOf(false)), ("override", Pos::LevelOf(true))];
                if fi == 0 {
                    ps.push(("mark", Pos::Mark));
                } else {
                    ps.push(("change", Pos::Change));
                }
                let (pn, pos) = ch.pick(&ps).clone();
                let i = *ch.pick(&lists[fi]);
                let (f, m, n) = apply(fi, &[i]);
                l.label = format!("{pn} {n}");
                verify(l, &f, &m, &pos, true);
            },
        ));
    }
    if t != Tier::Quick {
        let (reps, apply) = (reps.clone(), apply.clone());
        out.push(Phase::new("triples", "all ordered triples of settings on every kind of object", move |ch, l| {
            let fi = ch.choose(FACADES.len());
            let a = *ch.pick(&reps[fi]);
            let b = *ch.pick(&reps[fi]);
            let c = *ch.pick(&reps[fi]);
            let (f, m, n) = apply(fi, &[a, b, c]);
            l.label = n;
            verify(l, &f, &m, &Pos::Natural, true);
        }));
    }
    out
}
