//! C20: styles, defaults, settings and document properties.

use super::Meta;
use crate::explore::*;
use crate::gen::{pack_build, pack_stream};
use crate::opc::Package;
use crate::props::*;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a later call of the same setter replaces the earlier value; custom properties are keyed by name; variables, custom items, web extensions and styles accumulate".into(),
            "handing over a whole styles or settings object replaces what was set before".into(),
            "two styles given under one id by the caller are outside the property".into(),
            "dates, custom items and web extensions are not kept by the reader and are compared as written only".into(),
            "formatting inside styles is the subject of other properties; here one run and one paragraph setting stand for it".into(),
        ],
    }
}

// -------------------------------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq)]
struct St {
    id: String,
    typ: &'static str,
    t: Box_,
}
impl St {
    fn tree(&self) -> T {
        let mut k = self.t.clone();
        if k.0.get("qFormat").is_some_and(|q| q.at["val"] == "0") {
            k.del("qFormat");
        }
        let mut t = T::new("style", &[("type", self.typ), ("styleId", &self.id)]);
        t.kids = k.list();
        t
    }
}

#[derive(Clone, Debug, PartialEq)]
struct M {
    styles: Vec<St>,
    run: Box_,
    par: Box_,
    tab: usize,
    id: Option<String>,
    vars: Vec<(String, String)>,
    even: bool,
    adjust: bool,
    spacing: Option<&'static str>,
    custom: BTreeMap<String, String>,
    created: Option<String>,
    modified: Option<String>,
    items: Vec<(String, String)>,
    exts: Vec<Ext>,
    panes: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct Ext {
    at: [String; 5],
    props: Vec<(String, String)>,
}
impl Default for M {
    fn default() -> Self {
        M {
            styles: vec![],
            run: Box_::default(),
            par: Box_::default(),
            tab: 840,
            id: None,
            vars: vec![],
            even: false,
            adjust: false,
            spacing: None,
            custom: BTreeMap::new(),
            created: None,
            modified: None,
            items: vec![],
            exts: vec![],
            panes: false,
        }
    }
}
impl M {
    /// What the reader does not keep.
    fn read(mut self) -> M {
        self.created = None;
        self.modified = None;
        self.items.clear();
        self.exts.clear();
        self.panes = false;
        self
    }
}

type F = Arc<dyn Fn(Docx) -> Docx + Send + Sync>;
type G = Arc<dyn Fn(&mut M) + Send + Sync>;
#[derive(Clone)]
struct Op {
    name: String,
    rep: bool,
    f: F,
    m: G,
}

fn op(v: &mut Vec<Op>, name: String, rep: bool, f: impl Fn(Docx) -> Docx + Send + Sync + 'static, m: impl Fn(&mut M) + Send + Sync + 'static) {
    v.push(Op { name, rep, f: Arc::new(f), m: Arc::new(m) });
}

fn fonts() -> Vec<(&'static str, RunFonts, Vec<(&'static str, &'static str)>)> {
    vec![
        ("ascii", RunFonts::new().ascii("Arial"), vec![("ascii", "Arial")]),
        ("hi_ansi", RunFonts::new().hi_ansi("Arial"), vec![("hAnsi", "Arial")]),
        ("east_asia", RunFonts::new().east_asia("ＭＳ 明朝"), vec![("eastAsia", "ＭＳ 明朝")]),
        ("cs", RunFonts::new().cs("a b"), vec![("cs", "a b")]),
        ("ascii_theme", RunFonts::new().ascii_theme("minorHAnsi"), vec![("asciiTheme", "minorHAnsi")]),
        ("hi_ansi_theme", RunFonts::new().hi_ansi_theme("minorHAnsi"), vec![("hAnsiTheme", "minorHAnsi")]),
        ("east_asia_theme", RunFonts::new().east_asia_theme("minorEastAsia"), vec![("eastAsiaTheme", "minorEastAsia")]),
        ("cs_theme", RunFonts::new().cs_theme("minorBidi"), vec![("cstheme", "minorBidi")]),
        ("hint", RunFonts::new().hint("eastAsia"), vec![("hint", "eastAsia")]),
        ("all", RunFonts::new().ascii("A").hi_ansi("B").east_asia("C").cs("D"), vec![("ascii", "A"), ("hAnsi", "B"), ("eastAsia", "C"), ("cs", "D")]),
    ]
}

fn spacings() -> Vec<(&'static str, LineSpacing, Vec<(&'static str, &'static str)>)> {
    vec![
        ("line", LineSpacing::new().line(480), vec![("line", "480")]),
        ("auto", LineSpacing::new().line(240).line_rule(LineSpacingType::Auto), vec![("line", "240"), ("lineRule", "auto")]),
        ("exact", LineSpacing::new().line(300).line_rule(LineSpacingType::Exact), vec![("line", "300"), ("lineRule", "exact")]),
        ("before", LineSpacing::new().before(20), vec![("before", "20")]),
        ("after", LineSpacing::new().after(0), vec![("after", "0")]),
        ("lines", LineSpacing::new().before_lines(100).after_lines(50), vec![("beforeLines", "100"), ("afterLines", "50")]),
    ]
}

fn ops() -> Vec<Op> {
    let mut v = vec![];
    for (i, n) in [24usize, 1, 0, 3276].into_iter().enumerate() {
        op(&mut v, format!("default size {n}"), i < 2, move |d| d.default_size(n), move |m| {
            m.run.set("sz", &[("val", &n.to_string())]);
            m.run.set("szCs", &[("val", &n.to_string())]);
        });
    }
    for (i, n) in [7i32, -20, 0, 1000].into_iter().enumerate() {
        op(&mut v, format!("default spacing {n}"), i < 1, move |d| d.default_spacing(n), move |m| m.run.set("spacing", &[("val", &n.to_string())]));
    }
    for (i, (name, f, at)) in fonts().into_iter().enumerate() {
        op(&mut v, format!("default fonts {name}"), i == 0 || name == "all", move |d| d.default_fonts(f.clone()), move |m| m.run.set("rFonts", &at));
    }
    for (i, (name, s, at)) in spacings().into_iter().enumerate() {
        op(&mut v, format!("default line spacing {name}"), i < 2, move |d| d.default_line_spacing(s.clone()), move |m| m.par.set("spacing", &at));
    }
    for (i, n) in [420usize, 0, 1, 840, 31680].into_iter().enumerate() {
        op(&mut v, format!("tab stop {n}"), i < 2, move |d| d.default_tab_stop(n), move |m| m.tab = n);
    }
    for (i, s) in ["50419EC2-0000-0000-0000-0000000000AB", "x"].into_iter().enumerate() {
        op(&mut v, format!("document id {s}"), i < 2, move |d| d.doc_id(s), move |m| m.id = Some(s.into()));
    }
    for (i, (n, x)) in [("v", "1"), ("w", ""), ("v", "2"), ("", "y"), ("a b", " & ")].into_iter().enumerate() {
        op(&mut v, format!("variable {n:?}={x:?}"), i < 3, move |d| d.add_doc_var(n, x), move |m| m.vars.push((n.into(), x.into())));
    }
    op(&mut v, "even header".into(), true, |d| d.even_header(Header::new()), |m| m.even = true);
    op(&mut v, "even footer".into(), false, |d| d.even_footer(Footer::new()), |m| m.even = true);
    for (name, s, e) in whole_settings() {
        op(&mut v, format!("settings {name}"), ["fresh", "full"].contains(&name), move |d| d.settings(s.clone()), move |m| {
            let f = M::default();
            (m.tab, m.id, m.vars, m.even, m.adjust, m.spacing) = (f.tab, f.id, f.vars, f.even, f.adjust, f.spacing);
            e(m)
        });
    }
    op(&mut v, "styles fresh".into(), true, |d| d.styles(Styles::new()), |m| {
        m.styles.clear();
        m.run = Box_::default();
        m.par = Box_::default();
    });
    op(
        &mut v,
        "styles full".into(),
        true,
        |d| {
            d.styles(
                Styles::new()
                    .default_size(30)
                    .default_spacing(3)
                    .default_fonts(RunFonts::new().ascii("F"))
                    .default_line_spacing(LineSpacing::new().line(9))
                    .add_style(Style::new("Z", StyleType::Character).name("z")),
            )
        },
        |m| {
            m.styles = vec![St { id: "Z".into(), typ: "character", t: fresh("z") }];
            m.run = Box_::default();
            m.par = Box_::default();
            m.run.set("sz", &[("val", "30")]);
            m.run.set("szCs", &[("val", "30")]);
            m.run.set("spacing", &[("val", "3")]);
            m.run.set("rFonts", &[("ascii", "F")]);
            m.par.set("spacing", &[("line", "9")]);
        },
    );
    for (i, id) in ["A", "Normal", "a b"].into_iter().enumerate() {
        op(
            &mut v,
            format!("style {id}"),
            i < 2,
            move |d| d.add_style(Style::new(id, StyleType::Paragraph).name(format!("n{id}")).next("Q")),
            move |m| {
                let mut t = fresh(&format!("n{id}"));
                t.set("next", &[("val", "Q")]);
                m.styles.push(St { id: id.into(), typ: "paragraph", t })
            },
        );
    }
    for (i, s) in ["2019-01-01T00:00:00Z", "2026-11-15T23:59:59Z"].into_iter().enumerate() {
        op(&mut v, format!("created {s}"), i < 1, move |d| d.created_at(s), move |m| m.created = Some(s.into()));
        op(&mut v, format!("updated {s}"), i < 1, move |d| d.updated_at(s), move |m| m.modified = Some(s.into()));
    }
    for (i, (n, x)) in [("k", "1"), ("k", "2"), ("l", ""), ("日本", "値"), ("a b", " "), ("m", "x&y")].into_iter().enumerate() {
        op(&mut v, format!("custom property {n:?}={x:?}"), i < 4, move |d| d.custom_property(n, x), move |m| {
            m.custom.insert(n.into(), x.into());
        });
    }
    for (i, (id, x)) in [
        ("06AC5857-5C65-A94A-BCEC-37356A209BC3", "<root xmlns=\"https://e.com\"><item name=\"Cheap Item\" price=\"$193.95\"/></root>"),
        ("B", "<b/>"),
        ("C", "<c><d>t</d><d>u</d></c>"),
    ]
    .into_iter()
    .enumerate()
    {
        op(&mut v, format!("custom item {id}"), i < 3, move |d| d.add_custom_item(id, x), move |m| m.items.push((id.into(), x.into())));
    }
    op(&mut v, "task panes".into(), true, |d| d.taskpanes(), |m| m.panes = true);
    for i in 0..3usize {
        op(
            &mut v,
            format!("web extension {i}"),
            i < 2,
            move |d| d.web_extension(ext(i)),
            move |m| {
                m.exts.push(Ext {
                    at: [format!("{{id{i}}}"), format!("ref{i}"), format!("{i}.0"), format!("store{i}"), format!("type{i}")],
                    props: (0..i).map(|k| (format!("p{k}"), format!("\"v{k}\""))).collect(),
                })
            },
        );
    }
    v
}

fn ext(i: usize) -> WebExtension {
    let mut e = WebExtension::new(format!("id{i}"), format!("ref{i}"), format!("{i}.0"), format!("store{i}"), format!("type{i}"));
    for k in 0..i {
        e = e.property(format!("p{k}"), format!("v{k}"));
    }
    e
}

type SettingsCase = (&'static str, Settings, fn(&mut M));
fn whole_settings() -> Vec<SettingsCase> {
    use CharacterSpacingValues::*;
    vec![
        ("fresh", Settings::new(), |_| {}),
        ("adjust line height", Settings::new().adjust_line_height_in_table(), |m| m.adjust = true),
        ("not compressed", Settings::new().character_spacing_control(DoNotCompress), |m| m.spacing = Some("doNotCompress")),
        ("compressed", Settings::new().character_spacing_control(CompressPunctuation), |m| m.spacing = Some("compressPunctuation")),
        ("kana", Settings::new().character_spacing_control(CompressPunctuationAndJapaneseKana), |m| {
            m.spacing = Some("compressPunctuationAndJapaneseKana")
        }),
        ("even and odd", Settings::new().even_and_odd_headers(), |m| m.even = true),
        (
            "full",
            Settings::new()
                .doc_id("S")
                .default_tab_stop(5)
                .add_doc_var("s", "t")
                .even_and_odd_headers()
                .adjust_line_height_in_table()
                .character_spacing_control(DoNotCompress),
            |m| {
                m.id = Some("S".into());
                m.tab = 5;
                m.vars = vec![("s".into(), "t".into())];
                m.even = true;
                m.adjust = true;
                m.spacing = Some("doNotCompress");
            },
        ),
    ]
}

fn fresh(name: &str) -> Box_ {
    let mut b = Box_::default();
    b.set("name", &[("val", name)]);
    b.set("qFormat", &[]);
    b
}

// ------------------------------------------------------------------------------------- styles

type SF = Arc<dyn Fn(Style, &mut Box_) -> Style + Send + Sync>;
fn style_ops() -> Vec<(String, bool, SF)> {
    let mut v: Vec<(String, bool, SF)> = vec![];
    macro_rules! s {
        ($label:expr, $rep:expr, $f:expr) => {
            v.push(($label, $rep, Arc::new($f)))
        };
    }
    for (i, n) in ["x", "heading 1", "", "a & b"].into_iter().enumerate() {
        s!(format!("name {n:?}"), i < 2, move |st: Style, b: &mut Box_| {
            b.set("name", &[("val", n)]);
            st.name(n)
        });
    }
    for (i, n) in ["Normal", "B", ""].into_iter().enumerate() {
        s!(format!("based on {n:?}"), i < 2, move |st: Style, b: &mut Box_| {
            b.set("basedOn", &[("val", n)]);
            st.based_on(n)
        });
        s!(format!("next {n:?}"), i < 2, move |st: Style, b: &mut Box_| {
            b.set("next", &[("val", n)]);
            st.next(n)
        });
        s!(format!("link {n:?}"), i < 2, move |st: Style, b: &mut Box_| {
            b.set("link", &[("val", n)]);
            st.link(n)
        });
    }
    for q in [true, false] {
        s!(format!("quick format {q}"), true, move |st: Style, b: &mut Box_| {
            b.set("qFormat", &[("val", if q { "1" } else { "0" })]);
            st.q_format(q)
        });
    }
    for (i, n) in [9usize, 0, 99].into_iter().enumerate() {
        s!(format!("priority {n}"), i < 2, move |st: Style, b: &mut Box_| {
            b.set("uiPriority", &[("val", &n.to_string())]);
            st.ui_priority(n)
        });
    }
    s!("semi hidden".to_string(), true, |st: Style, b: &mut Box_| {
        b.set("semiHidden", &[]);
        st.semi_hidden()
    });
    s!("unhide when used".to_string(), true, |st: Style, b: &mut Box_| {
        b.set("unhideWhenUsed", &[]);
        st.unhide_when_used()
    });
    s!("bold".to_string(), true, |st: Style, b: &mut Box_| {
        b.put(T::with("rPr", vec![T::new("b", &[]), T::new("bCs", &[])]));
        st.bold()
    });
    s!("align".to_string(), true, |st: Style, b: &mut Box_| {
        b.put(T::with("pPr", vec![T::new("jc", &[("val", "center")])]));
        st.align(AlignmentType::Center)
    });
    v
}

const TYPES: [(StyleType, &str); 4] =
    [(StyleType::Paragraph, "paragraph"), (StyleType::Character, "character"), (StyleType::Table, "table"), (StyleType::Numbering, "numbering")];

// -------------------------------------------------------------------------------- observation

fn clean(mut t: T) -> T {
    t.kids = t.kids.into_iter().map(clean).filter(|k| !(["rPr", "pPr", "tblPr", "tcPr"].contains(&k.name.as_str()) && k.kids.is_empty())).collect();
    t
}
fn style_tree(e: &El) -> T {
    let mut t = clean(T::of(e));
    if t.at.get("type").is_some_and(|x| x == "table") {
        t.kids.retain(|k| k.name != "tblPr" && k.name != "tcPr");
    }
    t.kids.sort();
    t
}

/// Everything compared, by topic.
fn expected(m: &M) -> Vec<(String, Vec<T>)> {
    let mut out = vec![];
    for s in &m.styles {
        out.push((format!("style {}", s.id), vec![s.tree()]));
    }
    out.push(("run defaults".into(), m.run.list()));
    out.push(("paragraph defaults".into(), m.par.list()));
    out.push(("tab stop".into(), vec![T::new("defaultTabStop", &[("val", &m.tab.to_string())])]));
    out.push(("document id".into(), m.id.iter().map(|i| T::new("w15:docId", &[("w15:val", &format!("{{{i}}}"))])).collect()));
    out.push(("variables".into(), m.vars.iter().map(|(n, v)| T::new("docVar", &[("name", n), ("val", v)])).collect()));
    out.push(("even and odd headers".into(), if m.even { vec![T::new("evenAndOddHeaders", &[])] } else { vec![] }));
    out.push(("line height in tables".into(), if m.adjust { vec![T::new("adjustLineHeightInTable", &[])] } else { vec![] }));
    out.push(("character spacing".into(), m.spacing.iter().map(|s| T::new("characterSpacingControl", &[("val", s)])).collect()));
    out.push(("custom properties".into(), m.custom.iter().map(|(n, v)| T::new("property", &[("name", n), ("text", v)])).collect()));
    let date = |k: &str, d: &Option<String>| d.iter().map(|d| T::new(k, &[("text", d)])).collect();
    out.push(("creation date".into(), date("created", &m.created)));
    out.push(("modification date".into(), date("modified", &m.modified)));
    out.push((
        "custom items".into(),
        m.items.iter().map(|(id, x)| T::new("item", &[("id", &format!("{{{id}}}")), ("xml", &crate::xml::parse(x.as_bytes()).unwrap().canon())])).collect(),
    ));
    out.push((
        "web extensions".into(),
        if m.panes {
            m.exts
                .iter()
                .map(|e| {
                    let mut t = T::new("ext", &[("id", &e.at[0]), ("ref", &e.at[1]), ("version", &e.at[2]), ("store", &e.at[3]), ("type", &e.at[4])]);
                    t.kids = e.props.iter().map(|(n, v)| T::new("property", &[("name", n), ("value", v)])).collect();
                    t
                })
                .collect()
        } else {
            vec![]
        },
    ));
    out
}

fn observed(pkg: &Package, m: &M) -> Result<Vec<(String, Vec<T>)>, String> {
    let mut out = vec![];
    let st = pkg.styles().ok_or("no styles part")?;
    let all: Vec<&El> = st.children("w:style");
    let mut seen = std::collections::BTreeSet::new();
    for s in &all {
        if !seen.insert(s.attr("w:styleId").unwrap_or("").to_string()) {
            return Err(format!("two styles under one id: {}", s.attr("w:styleId").unwrap_or("")));
        }
    }
    for s in &m.styles {
        out.push((format!("style {}", s.id), all.iter().filter(|e| e.attr("w:styleId") == Some(&s.id)).map(|e| style_tree(e)).collect()));
    }
    let one = |q: &str, p: &str| -> Result<Vec<T>, String> {
        let d = st.children("w:docDefaults");
        if d.len() > 1 {
            return Err("defaults repeated".into());
        }
        Ok(d.first().and_then(|d| d.path(&[q, p])).map(|e| clean(T::of(e)).kids).unwrap_or_default())
    };
    out.push(("run defaults".into(), one("w:rPrDefault", "w:rPr")?));
    out.push(("paragraph defaults".into(), one("w:pPrDefault", "w:pPr")?));
    let se = pkg.settings().ok_or("no settings part")?;
    let find = |q: &str| -> Vec<T> { se.all(q).into_iter().map(T::of).collect() };
    out.push(("tab stop".into(), find("w:defaultTabStop")));
    out.push(("document id".into(), find("w15:docId")));
    out.push(("variables".into(), find("w:docVar")));
    out.push(("even and odd headers".into(), find("w:evenAndOddHeaders")));
    out.push(("line height in tables".into(), find("w:adjustLineHeightInTable")));
    out.push(("character spacing".into(), find("w:characterSpacingControl")));
    let mut props = vec![];
    if let Some(e) = pkg.by_kind("", "custom-properties").and_then(|p| pkg.xml(&p)) {
        let mut pids = std::collections::BTreeSet::new();
        for p in e.els() {
            let pid: u32 = p.attr("pid").and_then(|x| x.parse().ok()).unwrap_or(0);
            if pid < 2 || !pids.insert(pid) {
                return Err("custom property ids".into());
            }
            props.push(T::new("property", &[("name", p.attr("name").unwrap_or("?")), ("text", &p.text())]));
        }
        props.sort();
    }
    out.push(("custom properties".into(), props));
    let core = pkg.by_kind("", "core-properties").and_then(|p| pkg.xml(&p));
    let date = |q: &str, k: &str, want: &Option<String>| -> Vec<T> {
        let v: Vec<T> = core.map(|c| c.all(q)).unwrap_or_default().into_iter().map(|e| T::new(k, &[("text", &e.text())])).collect();
        // without a given date the part may say anything
        if want.is_none() && v.len() <= 1 {
            vec![]
        } else {
            v
        }
    };
    out.push(("creation date".into(), date("dcterms:created", "created", &m.created)));
    out.push(("modification date".into(), date("dcterms:modified", "modified", &m.modified)));
    let doc = pkg.doc_part().ok_or("no document part")?;
    let parts = |src: &str, kind: &str| -> Vec<String> {
        pkg.rels.get(src).map(|r| r.iter().filter(|r| r.kind() == kind).map(|r| crate::opc::resolve_target(src, &r.target)).collect()).unwrap_or_default()
    };
    let mut items = vec![];
    for p in parts(&doc, "customXml") {
        let x = pkg.xml(&p).map(|e| e.canon()).unwrap_or_default();
        let pr = parts(&p, "customXmlProps");
        if pr.len() != 1 {
            return Err(format!("custom item with {} property parts", pr.len()));
        }
        let id = pkg.xml(&pr[0]).and_then(|e| e.attr("ds:itemID")).unwrap_or("?").to_string();
        items.push(T::new("item", &[("id", &id), ("xml", &x)]));
    }
    out.push(("custom items".into(), items));
    let mut exts = vec![];
    for tp in parts("", "webextensiontaskpanes") {
        for p in parts(&tp, "webextension") {
            let Some(e) = pkg.xml(&p) else { continue };
            let r = e.child("we:reference");
            let at = |q: &str| r.and_then(|r| r.attr(q)).unwrap_or("?").to_string();
            let mut t = T::new(
                "ext",
                &[("id", e.attr("id").unwrap_or("?")), ("ref", &at("id")), ("version", &at("version")), ("store", &at("store")), ("type", &at("storeType"))],
            );
            t.kids = e
                .all("we:property")
                .into_iter()
                .map(|p| T::new("property", &[("name", p.attr("name").unwrap_or("?")), ("value", p.attr("value").unwrap_or("?"))]))
                .collect();
            exts.push(t);
        }
    }
    out.push(("web extensions".into(), exts));
    Ok(out)
}

fn check(l: &mut Leaf, stage: &str, pkg: &Package, m: &M) -> bool {
    let got = match observed(pkg, m) {
        Ok(g) => g,
        Err(e) => {
            l.fail(format!("{stage}: {}", e.split(": ").next().unwrap()), &e);
            return false;
        }
    };
    let mut ok = true;
    for ((topic, mut want), (_, mut have)) in expected(m).into_iter().zip(got) {
        if topic.starts_with("style ") {
            let forgotten: &[&str] = if stage == "read back" { FORGOTTEN } else { &[] };
            for f in forgotten {
                let lost = |v: &[T]| v.iter().any(|s| s.kids.iter().any(|k| k.name == *f));
                if lost(&want) != lost(&have) {
                    l.fail(format!("style {f} is forgotten on reading"), format!("{}", want[0].show()));
                    for t in want.iter_mut().chain(have.iter_mut()) {
                        t.kids.retain(|k| k.name != *f);
                    }
                }
            }
        }
        l.evals += 1;
        if want != have {
            let show = |v: &[T]| v.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ");
            let key = if want.len() == 1 && have.len() == 1 {
                crate::props::diff(&want[0].kids, &have[0].kids).map(|(k, _)| k).unwrap_or("value".into())
            } else {
                crate::props::diff(&want, &have).map(|(k, _)| k).unwrap_or("order".into())
            };
            let topic = topic.split(' ').next().filter(|w| *w == "style").map(|w| w.to_string()).unwrap_or(topic);
            l.fail(format!("{stage}: {topic} {key}"), format!("expected {} | found {}", show(&want), show(&have)));
            ok = false;
        }
    }
    ok
}

const FORGOTTEN: &[&str] = &["next", "qFormat", "uiPriority", "semiHidden", "unhideWhenUsed"];

fn pack(l: &mut Leaf, f: impl FnOnce() -> Result<Vec<u8>, String>) -> Option<(Vec<u8>, Package)> {
    l.transitions += 1;
    let b = match guarded(f) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => {
            l.fail("cannot be written or read", &e);
            return None;
        }
        Err(e) => {
            l.fail(format!("panic: {}", panic_class(&e)), &e);
            return None;
        }
    };
    match Package::open(&b) {
        Ok(p) => Some((b, p)),
        Err(e) => {
            l.fail("package unreadable", &e);
            None
        }
    }
}

fn verify(l: &mut Leaf, make: &dyn Fn() -> Docx, m: &M, cycles: usize) {
    l.states.push(hash64(format!("{m:?}").as_bytes()));
    let Some((_, p)) = pack(l, || pack_stream(make())) else { return };
    if !check(l, "streamed", &p, m) {
        return;
    }
    let Some((mut b, p)) = pack(l, || pack_build(make())) else { return };
    if !check(l, "written", &p, m) {
        return;
    }
    let ids = |p: &Package| -> Vec<String> {
        p.styles().map(|s| s.children("w:style").iter().map(|s| s.attr("w:styleId").unwrap_or("").to_string()).collect()).unwrap_or_default()
    };
    let first = ids(&p);
    let r = m.clone().read();
    for _ in 0..cycles {
        let Some((b2, p)) = pack(l, || pack_build(read_docx(&b).map_err(|e| format!("not readable: {e}"))?)) else { return };
        if !check(l, "read back", &p, &r) {
            return;
        }
        if ids(&p) != first {
            return l.fail("read back: styles added or dropped", format!("{first:?} became {:?}", ids(&p)));
        }
        b = b2;
    }
    l.validated += 1;
}

/// Two styles under one id are the caller's mistake; so is a style given to an object that gets replaced only later.
fn legal(m: &M) -> bool {
    let mut ids: Vec<&str> = m.styles.iter().map(|s| s.id.as_str()).collect();
    ids.sort();
    let n = ids.len();
    ids.dedup();
    n == ids.len()
}

/// Every document-level setter and every style setter with every value.
pub fn groups() -> Vec<super::Group> {
    let all = Arc::new(ops());
    let mut cases = vec![super::Case { name: String::new(), want: format!("{:?}", M::default()), make: Box::new(Docx::new) }];
    for i in 0..all.len() {
        let mut m = M::default();
        (all[i].m)(&mut m);
        let all = all.clone();
        cases.push(super::Case { name: all[i].name.clone(), want: format!("{m:?}"), make: Box::new(move || (all[i].f)(Docx::new())) });
    }
    let mut out = vec![super::Group { name: "document".into(), cases }];
    let sops = Arc::new(style_ops());
    let mut cases = vec![];
    for (st, typ) in TYPES {
        for i in 0..=sops.len() {
            let mut b = fresh("");
            let mut s = Style::new("S", st);
            if i > 0 {
                s = (sops[i - 1].2)(s, &mut b);
            }
            cases.push(super::Case {
                name: format!("{typ} {}", if i > 0 { sops[i - 1].0.as_str() } else { "" }),
                want: format!("{typ} {b:?}"),
                make: Box::new(move || Docx::new().add_style(s.clone())),
            });
        }
    }
    out.push(super::Group { name: "style".into(), cases });
    out
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let all = Arc::new(ops());
    // second values of one setter are left to the pairs
    const SECOND: &[&str] = &["default size 1", "tab stop 0", "document id x", "custom property \"日本\"=\"値\"", "custom item C", "default fonts all", "default line spacing auto"];
    let reps: Arc<Vec<Op>> = Arc::new(ops().into_iter().filter(|o| o.rep && (deep || !SECOND.contains(&o.name.as_str()))).collect());
    let sops = Arc::new(style_ops());
    let mut out = vec![];
    let run = |l: &mut Leaf, seq: &[&Op], cycles: usize| {
        let mut m = M::default();
        for o in seq {
            (o.m)(&mut m);
        }
        l.label = seq.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(", ");
        if !legal(&m) {
            l.skip = true;
            return;
        }
        verify(l, &|| seq.iter().fold(Docx::new(), |d, o| (o.f)(d)), &m, cycles);
    };
    {
        let all = all.clone();
        out.push(Phase::new("values", "every document-level setter with every value, alone and after every other setter and value", move |ch, l| {
            let i = ch.choose(all.len() + 1);
            let j = ch.choose(all.len());
            if i == all.len() {
                run(l, &[&all[j]], 2)
            } else {
                run(l, &[&all[i], &all[j]], 1)
            }
        }));
    }
    {
        let reps = reps.clone();
        out.push(Phase::new("triples", "all ordered triples of representative document-level calls", move |ch, l| {
            let (i, j, k) = (ch.choose(reps.len()), ch.choose(reps.len()), ch.choose(reps.len()));
            run(l, &[&reps[i], &reps[j], &reps[k]], 1)
        }));
    }
    {
        let sops = sops.clone();
        out.push(Phase::new(
            "styles",
            "a style of every type with every setter and value, alone and in all ordered pairs (all ordered triples of representatives as well)",
            move |ch, l| {
                let n = 1 + ch.choose(3);
                let (st, typ) = TYPES[[0, 2, 1, 3][ch.choose(if n < 3 || deep { 4 } else { 2 })]];
                let pool: Vec<usize> = (0..sops.len()).filter(|i| n < 3 || deep || sops[*i].1).collect();
                let seq: Vec<usize> = (0..n).map(|_| *ch.pick(&pool)).collect();
                let mut b = fresh("");
                let mut s = Style::new("S", st);
                for i in &seq {
                    s = (sops[*i].2)(s, &mut b);
                }
                let m = M { styles: vec![St { id: "S".into(), typ, t: b }], ..M::default() };
                l.label = format!("{typ}: {}", seq.iter().map(|i| sops[*i].0.as_str()).collect::<Vec<_>>().join(", "));
                verify(l, &|| Docx::new().add_style(s.clone()), &m, 1 + (n < 3) as usize);
            },
        ));
    }
    out.push(Phase::new(
        "style sets",
        "all sequences of up to four styles with distinct ids (one of them the built-in style's) and types, each with its own values",
        move |ch, l| {
            let mut ids = vec!["Normal", "A", "B", "Heading1"];
            let n = 1 + ch.choose(4);
            let mut m = M::default();
            let mut styles = vec![];
            for k in 0..n {
                let i = ch.choose(ids.len());
                let id = ids.remove(i);
                let (st, typ) = TYPES[ch.choose(if n < 4 || deep { 4 } else { 2 })];
                let mut b = fresh(&format!("name {k}"));
                b.set("uiPriority", &[("val", &k.to_string())]);
                let mut s = Style::new(id, st).name(format!("name {k}")).ui_priority(k);
                if k > 0 {
                    b.set("basedOn", &[("val", &m.styles[k - 1].id)]);
                    s = s.based_on(m.styles[k - 1].id.clone());
                }
                m.styles.push(St { id: id.into(), typ, t: b });
                styles.push(s);
            }
            l.label = m.styles.iter().map(|s| format!("{}/{}", s.id, s.typ)).collect::<Vec<_>>().join(" ");
            verify(l, &|| styles.iter().fold(Docx::new(), |d, s| d.add_style(s.clone())), &m, 2);
        },
    ));
    {
        let pool: Arc<Vec<Op>> = Arc::new(
            ops()
                .into_iter()
                .filter(|o| {
                    ["default size 24", "default line spacing line", "tab stop 420", "variable \"v\"=\"1\"", "variable \"w\"=\"\"", "style A", "style Normal", "custom property \"k\"=\"1\"", "custom property \"k\"=\"2\"", "even header", "settings full", "custom item B"]
                        .contains(&o.name.as_str())
                })
                .collect(),
        );
        out.push(Phase::new(
            "histories",
            "all sequences of up to four steps of {eleven calls, pack and read}; after every packing the parts are compared with what was given so far",
            move |ch, l| {
                let n = 1 + ch.choose(if deep { 5 } else { 4 });
                let mut m = M::default();
                let mut d = Docx::new();
                let mut names = vec![];
                let mut stage = "written";
                for _ in 0..n {
                    let i = ch.choose(pool.len() + 1);
                    if i < pool.len() {
                        d = (pool[i].f)(d);
                        (pool[i].m)(&mut m);
                        names.push(pool[i].name.clone());
                        if !legal(&m) {
                            l.skip = true;
                            return;
                        }
                    } else {
                        names.push("pack and read".into());
                        let Some((b, p)) = pack(l, || pack_build(d)) else { return };
                        if !check(l, stage, &p, &m) {
                            return;
                        }
                        stage = "read back";
                        // the built-in style is among the styles from here on
                        m = m.read();
                        if !m.styles.iter().any(|s| s.id == "Normal") {
                            m.styles.insert(0, St { id: "Normal".into(), typ: "paragraph", t: fresh("Normal") });
                        }
                        match guarded(|| read_docx(&b)) {
                            Ok(Ok(x)) => d = x,
                            Ok(Err(e)) => return l.fail("not readable", e.to_string()),
                            Err(e) => return l.fail(format!("panic: {}", panic_class(&e)), &e),
                        }
                    }
                }
                l.label = names.join(", ");
                l.states.push(hash64(format!("{m:?}").as_bytes()));
                let Some((_, p)) = pack(l, || pack_build(d)) else { return };
                if check(l, stage, &p, &m) {
                    l.validated += 1;
                }
            },
        ));
    }
    out
}
