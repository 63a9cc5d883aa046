//! C31: the fonts of the theme and the divisions of the web settings are read as the package states them.

use super::c25;
use super::Meta;
use crate::explore::*;
use crate::vocab::*;
use crate::zipread::write_stored;
use crate::Tier;
use docx_rs::*;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "what was read is observed through the JSON export".into(),
            "a font the theme does not name is reported as an empty name, a margin that is not stated as 0".into(),
            "margins are whole numbers of twentieths of a point that are not negative, as the model holds nothing else".into(),
        ],
    }
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}

/// Puts the text in place of a part and reads the package in both forms.
fn read(l: &mut Leaf, base: &Parts, part: &str, text: &str, at: &str, want: &Value) {
    let parts: Parts = base.iter().map(|(n, d)| (n.clone(), if n == part { text.as_bytes().to_vec() } else { d.clone() })).collect();
    l.states.push(hash64(want.to_string().as_bytes()));
    let flat = c25::word_form(&parts);
    for form in ["archive", "flat form"] {
        l.transitions += 1;
        l.evals += 1;
        let got = guarded(|| if form == "archive" { read_docx(&write_stored(&parts)) } else { read_xml(&flat) });
        let got = match got {
            Ok(Ok(d)) => serde_json::to_value(&d).unwrap_or_default(),
            Ok(Err(e)) => return l.fail(format!("{form} not read"), e.to_string()),
            Err(e) => return l.fail(format!("{form}: panic"), e),
        };
        let got = got.pointer(at).cloned().unwrap_or_default();
        if let Some((k, d)) = super::c17::differ(want, &got, "") {
            return l.fail(format!("{form}: {at}{k}").replace("/0", ""), d);
        }
    }
    l.validated += 1;
}

// --------------------------------------------------------------------------------------------- theme

#[derive(Clone, Default)]
struct Group {
    faces: [Option<&'static str>; 3],
    scripts: Vec<(&'static str, &'static str)>,
}

const KINDS: [&str; 3] = ["latin", "ea", "cs"];

impl Group {
    fn xml(&self, name: &str, extra: usize) -> String {
        let mut s = format!("<a:{name}>");
        for (k, f) in KINDS.iter().zip(&self.faces) {
            if let Some(f) = f {
                s += &match extra {
                    1 => format!(r#"<a:{k} typeface="{}" panose="020F0302020204030204" pitchFamily="34" charset="0"/>"#, esc(f)),
                    2 => format!(r#"<a:{k} panose="020F0302020204030204" typeface="{}"></a:{k}>"#, esc(f)),
                    _ => format!(r#"<a:{k} typeface="{}"/>"#, esc(f)),
                };
            }
        }
        for (a, b) in &self.scripts {
            s += &match extra {
                2 => format!(r#"<a:font typeface="{}" script="{}"></a:font>"#, esc(b), esc(a)),
                _ => format!(r#"<a:font script="{}" typeface="{}"/>"#, esc(a), esc(b)),
            };
        }
        if extra == 1 {
            s += r#"<a:extLst><a:ext uri="{X}"/></a:extLst>"#;
        }
        s + &format!("</a:{name}>")
    }
    fn json(&self) -> Value {
        json!({
            "latin": self.faces[0].unwrap_or(""),
            "ea": self.faces[1].unwrap_or(""),
            "cs": self.faces[2].unwrap_or(""),
            "fonts": self.scripts.iter().map(|(a, b)| json!({"script": a, "typeface": b})).collect::<Vec<_>>(),
        })
    }
}

fn theme_xml(major: &Group, minor: &Group, extra: usize, around: usize) -> String {
    // what else a theme holds names fonts as well
    const NAMES: &str = r#"<a:lvl1pPr><a:defRPr><a:latin typeface="WRONG"/><a:ea typeface="WRONG"/><a:cs typeface="WRONG"/></a:defRPr></a:lvl1pPr>"#;
    let colours = r#"<a:clrScheme name="c"><a:dk1><a:sysClr val="windowText" lastClr="000000"/></a:dk1><a:lt1><a:srgbClr val="FFFFFF"/></a:lt1></a:clrScheme>"#;
    let formats = r#"<a:fmtScheme name="f"><a:fillStyleLst><a:solidFill><a:schemeClr val="phClr"/></a:solidFill></a:fillStyleLst></a:fmtScheme>"#;
    let fonts = format!(r#"<a:fontScheme name="n">{}{}</a:fontScheme>"#, major.xml("majorFont", extra), minor.xml("minorFont", extra));
    let elements = match around {
        0 => fonts,
        1 => format!("{colours}{fonts}{formats}"),
        _ => format!("\n  {colours}\n  {fonts}\n  {formats}\n"),
    };
    let rest = if around > 0 { format!(r#"<a:objectDefaults><a:spDef><a:spPr/><a:bodyPr/><a:lstStyle>{NAMES}</a:lstStyle></a:spDef></a:objectDefaults><a:extraClrSchemeLst/>"#) } else { String::new() };
    format!(r#"<a:theme xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" name="t"><a:themeElements>{elements}</a:themeElements>{rest}</a:theme>"#)
}

// ----------------------------------------------------------------------------------------- divisions

#[derive(Clone, Default, Debug)]
struct Div_ {
    id: String,
    margins: [Option<usize>; 4],
    kids: Vec<Div_>,
}

const SIDES: [&str; 4] = ["Left", "Right", "Top", "Bottom"];

impl Div_ {
    fn xml(&self, extra: usize) -> String {
        let mut s = format!(r#"<w:div w:id="{}">"#, esc(&self.id));
        if extra > 0 {
            s += r#"<w:blockQuote w:val="1"/><w:bodyDiv w:val="1"/>"#;
        }
        for (k, m) in SIDES.iter().zip(&self.margins) {
            if let Some(m) = m {
                s += &format!(r#"<w:mar{k} w:val="{m}"/>"#);
            }
        }
        if extra > 0 {
            s += r#"<w:divBdr><w:top w:val="none" w:sz="7" w:space="9" w:color="auto"/><w:left w:val="single" w:sz="6" w:space="5" w:color="auto"/></w:divBdr>"#;
        }
        if !self.kids.is_empty() || extra > 1 {
            s += &format!("<w:divsChild>{}</w:divsChild>", self.kids.iter().map(|k| k.xml(extra)).collect::<String>());
        }
        s + "</w:div>"
    }
    fn json(&self) -> Value {
        let m = |i: usize| self.margins[i].unwrap_or(0);
        json!({
            "id": self.id,
            "marginLeft": m(0), "marginRight": m(1), "marginTop": m(2), "marginBottom": m(3),
            "divsChild": self.kids.iter().map(|k| k.json()).collect::<Vec<_>>(),
        })
    }
}

fn web_xml(divs: &[Div_], extra: usize) -> String {
    let (a, b) = if extra > 0 { (r#"<w:frameset><w:sz w:val="1"/></w:frameset>"#, r#"<w:optimizeForBrowser/><w:allowPNG/>"#) } else { ("", "") };
    format!(
        r#"<w:webSettings xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main">{a}<w:divs>{}</w:divs>{b}</w:webSettings>"#,
        divs.iter().map(|d| d.xml(extra)).collect::<String>()
    )
}

/// Every ordered forest of n numbered nodes: node k hangs under a node on the path to node k-1, or at the top.
fn forest(ch: &mut Chooser, n: usize, mut margins: impl FnMut(&mut Chooser, usize) -> [Option<usize>; 4]) -> Vec<Div_> {
    fn at<'a>(top: &'a mut Vec<Div_>, path: &[usize]) -> &'a mut Vec<Div_> {
        match path {
            [] => top,
            [i, rest @ ..] => at(&mut top[*i].kids, rest),
        }
    }
    let mut top = vec![];
    let mut path: Vec<usize> = vec![];
    for k in 0..n {
        let depth = ch.choose(path.len() + 1);
        path.truncate(depth);
        let m = margins(ch, k);
        let list = at(&mut top, &path);
        list.push(Div_ { id: format!("{}", 1000 + k), margins: m, kids: vec![] });
        let i = list.len() - 1;
        path.push(i);
    }
    top
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let pack = |n: &str| -> Arc<Parts> { Arc::new(sound_packs().into_iter().find(|p| p.name == n).expect("a package of the vocabulary").parts) };
    let (theme, web) = (pack("theme"), pack("web"));
    let mut out = vec![];
    const FACES: [Option<&str>; 4] = [None, Some(""), Some("A"), Some("ä & \"<日本>\"")];
    for which in ["major", "minor"] {
        let theme = theme.clone();
        out.push(Phase::new(
            if which == "major" { "heading fonts" } else { "body fonts" },
            "every choice of the three typefaces (absent, empty, plain, with special characters) x up to two fonts for scripts x form of the elements x what surrounds the fonts",
            move |ch, l| {
                let mut g = Group::default();
                for f in g.faces.iter_mut() {
                    *f = *ch.pick(&FACES);
                }
                const SCRIPTS: [(&str, &str); 4] = [("Jpan", "J"), ("Arab", ""), ("Jpan", "K"), ("Hans", "等线 \"&\"")];
                for _ in 0..ch.choose(3) {
                    g.scripts.push(*ch.pick(&SCRIPTS));
                }
                let (extra, around) = (ch.choose(3), ch.choose(3));
                let other = Group { faces: [Some("O1"), Some("O2"), Some("O3")], scripts: vec![("Thai", "O4")] };
                let (a, b) = if which == "major" { (&g, &other) } else { (&other, &g) };
                l.label = format!("{:?} {:?} {extra} {around}", g.faces, g.scripts);
                let want = json!({"majorFont": a.json(), "minorFont": b.json()});
                read(l, &theme, "word/theme/theme1.xml", &theme_xml(a, b, extra, around), "/themes/0/fontSchema", &want);
            },
        ));
    }
    {
        let theme = theme.clone();
        out.push(Phase::new("font lists", "lists of up to six fonts for scripts in both groups", move |ch, l| {
            const S: [&str; 6] = ["Jpan", "Hang", "Hans", "Hant", "Arab", "Hebr"];
            let (n, m) = (ch.choose(7), ch.choose(7));
            let shift = ch.choose(6);
            let g = |n: usize, f: [&'static str; 6]| Group { faces: [Some("L"), Some("E"), Some("C")], scripts: (0..n).map(|i| (S[(i + shift) % 6], f[i])).collect() };
            let (a, b) = (g(n, ["a", "b", "c", "d", "e", "f"]), g(m, ["u", "v", "w", "x", "y", "z"]));
            l.label = format!("{n} {m} {shift}");
            let want = json!({"majorFont": a.json(), "minorFont": b.json()});
            read(l, &theme, "word/theme/theme1.xml", &theme_xml(&a, &b, ch.choose(3), ch.choose(3)), "/themes/0/fontSchema", &want);
        }));
    }
    {
        let web = web.clone();
        out.push(Phase::new("margins", "a division with every choice of its four margins (absent, 0, small, large), alone, inside another and next to another", move |ch, l| {
            let mut d = Div_ { id: "77".into(), ..Div_::default() };
            for m in d.margins.iter_mut() {
                *m = *ch.pick(&[None, Some(0), Some(720), Some(31680)]);
            }
            let other = Div_ { id: "5".into(), margins: [Some(1), Some(2), Some(3), Some(4)], kids: vec![] };
            let divs = match ch.choose(4) {
                0 => vec![d],
                1 => vec![Div_ { kids: vec![d], ..other }],
                2 => vec![other, d],
                _ => vec![Div_ { kids: vec![other], ..d }],
            };
            let extra = ch.choose(3);
            l.label = format!("{divs:?} {extra}");
            read(l, &web, "word/webSettings.xml", &web_xml(&divs, extra), "/webSettings/divs", &Value::Array(divs.iter().map(|d| d.json()).collect()));
        }));
    }
    {
        let max = if deep { 7 } else { 6 };
        out.push(Phase::new("nesting", format!("every ordered forest of up to {max} divisions, each with margins of its own or none"), move |ch, l| {
            let n = ch.choose(max + 1);
            let divs = forest(ch, n, |ch, k| if ch.flag() { [Some(10 * k + 1), Some(10 * k + 2), Some(10 * k + 3), Some(10 * k + 4)] } else { [None; 4] });
            let extra = if n < 4 { ch.choose(3) } else { 0 };
            l.label = format!("{divs:?} {extra}");
            read(l, &web, "word/webSettings.xml", &web_xml(&divs, extra), "/webSettings/divs", &Value::Array(divs.iter().map(|d| d.json()).collect()));
        }));
    }
    out
}
