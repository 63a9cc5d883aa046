//! C29: markup that records something else than the current content does not alter what is read.

use super::c18::shown;
use super::Meta;
use crate::explore::*;
use crate::vocab::*;
use crate::zipread::write_stored;
use crate::Tier;
use docx_rs::*;
use serde_json::Value;
use std::sync::Arc;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "added markup stands inside the element the format allows it in, between any two of its children".into(),
            "two documents are compared through their JSON export, as in C18".into(),
        ],
    }
}

const WHO: &str = r#"w:id="901" w:author="former" w:date="2019-01-01T00:00:00Z""#;

const OLD_RPR: &str = r#"<w:rPr><w:rStyle w:val="Old"/><w:rFonts w:ascii="Old" w:hAnsi="Old" w:eastAsia="Old" w:cs="Old"/><w:b w:val="0"/><w:i w:val="0"/><w:caps w:val="0"/><w:strike w:val="0"/><w:dstrike w:val="0"/><w:vanish/><w:specVanish/><w:color w:val="0000FF"/><w:spacing w:val="77"/><w:w w:val="77"/><w:sz w:val="77"/><w:szCs w:val="77"/><w:highlight w:val="red"/><w:u w:val="wave"/><w:bdr w:val="double" w:sz="7" w:space="7" w:color="0000FF"/><w:shd w:val="clear" w:color="0000FF" w:fill="0000FF"/><w:fitText w:val="77" w:id="77"/><w:vertAlign w:val="subscript"/></w:rPr>"#;

const OLD_PPR: &str = r#"<w:pPr><w:pStyle w:val="Old"/><w:keepNext w:val="0"/><w:keepLines w:val="0"/><w:pageBreakBefore w:val="0"/><w:framePr w:w="77" w:h="77" w:x="77" w:y="77"/><w:widowControl/><w:numPr><w:ilvl w:val="7"/><w:numId w:val="77"/></w:numPr><w:pBdr><w:top w:val="double" w:sz="7" w:space="7" w:color="0000FF"/></w:pBdr><w:shd w:val="clear" w:color="0000FF" w:fill="0000FF"/><w:tabs><w:tab w:val="right" w:pos="777"/></w:tabs><w:snapToGrid/><w:spacing w:before="77" w:after="77" w:line="777"/><w:ind w:left="777" w:right="777" w:hanging="77"/><w:jc w:val="both"/><w:textAlignment w:val="top"/><w:adjustRightInd/><w:outlineLvl w:val="7"/></w:pPr>"#;

const OLD_TBLPR: &str = r#"<w:tblPr><w:tblStyle w:val="Old"/><w:tblpPr w:leftFromText="77" w:tblpX="77" w:tblpY="77"/><w:tblW w:w="777" w:type="pct"/><w:jc w:val="right"/><w:tblInd w:w="77" w:type="dxa"/><w:tblBorders><w:top w:val="double" w:sz="7" w:space="7" w:color="0000FF"/><w:insideH w:val="double" w:sz="7" w:space="7" w:color="0000FF"/></w:tblBorders><w:tblLayout w:type="autofit"/><w:tblCellMar><w:top w:w="77" w:type="dxa"/><w:left w:w="77" w:type="dxa"/></w:tblCellMar></w:tblPr>"#;

const OLD_TRPR: &str = r#"<w:trPr><w:gridBefore w:val="7"/><w:gridAfter w:val="7"/><w:wBefore w:w="77" w:type="dxa"/><w:wAfter w:w="77" w:type="dxa"/><w:cantSplit/><w:trHeight w:val="777" w:hRule="atLeast"/><w:tblHeader/><w:jc w:val="right"/></w:trPr>"#;

const OLD_TCPR: &str = r#"<w:tcPr><w:tcW w:w="777" w:type="dxa"/><w:gridSpan w:val="7"/><w:vMerge/><w:tcBorders><w:top w:val="double" w:sz="7" w:space="7" w:color="0000FF"/></w:tcBorders><w:shd w:val="clear" w:color="0000FF" w:fill="0000FF"/><w:tcMar><w:top w:w="77" w:type="dxa"/></w:tcMar><w:textDirection w:val="btLr"/><w:vAlign w:val="bottom"/></w:tcPr>"#;

const OLD_SECT: &str = r#"<w:sectPr><w:type w:val="continuous"/><w:pgSz w:w="777" w:h="777" w:orient="portrait"/><w:pgMar w:top="77" w:right="77" w:bottom="77" w:left="77" w:header="77" w:footer="77" w:gutter="77"/><w:pgNumType w:start="77" w:chapStyle="7"/><w:cols w:num="7" w:space="77"/><w:titlePg/><w:textDirection w:val="lrTb"/><w:docGrid w:type="linesAndChars" w:linePitch="77" w:charSpace="77"/></w:sectPr>"#;

const BORDERS: &str = r#"<w:top w:val="double" w:sz="7" w:space="7" w:color="0000FF"/><w:left w:val="double" w:sz="7" w:space="7" w:color="0000FF"/><w:bottom w:val="double" w:sz="7" w:space="7" w:color="0000FF"/><w:right w:val="double" w:sz="7" w:space="7" w:color="0000FF"/>"#;

const CONDITIONS: &[&str] = &["wholeTable", "firstRow", "lastRow", "firstCol", "lastCol", "band1Vert", "band2Vert", "band1Horz", "band2Horz", "neCell", "nwCell", "seCell", "swCell"];

/// Markup by the element it stands in.
pub struct Extra {
    pub host: &'static str,
    pub name: String,
    pub xml: String,
    /// where the format allows it: among the children, first, or last only
    pub place: Place,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    Any,
    First,
    Last,
}

pub fn extras() -> Vec<Extra> {
    let mut v: Vec<Extra> = vec![];
    let mut add = |host: &'static str, name: &str, place: Place, xml: String| v.push(Extra { host, name: name.to_string(), xml, place });
    use Place::*;
    // former formatting
    for (host, change, old, empty) in [
        ("w:rPr", "rPrChange", OLD_RPR, "<w:rPr/>"),
        ("w:sectPr", "sectPrChange", OLD_SECT, "<w:sectPr/>"),
        ("w:tblPr", "tblPrChange", OLD_TBLPR, "<w:tblPr/>"),
        ("w:trPr", "trPrChange", OLD_TRPR, "<w:trPr/>"),
        ("w:tcPr", "tcPrChange", OLD_TCPR, "<w:tcPr/>"),
        ("w:tblGrid", "tblGridChange", r#"<w:tblGrid><w:gridCol w:w="777"/><w:gridCol w:w="778"/></w:tblGrid>"#, "<w:tblGrid/>"),
        ("w:pPr", "pPrChange", OLD_PPR, "<w:pPr/>"),
    ] {
        for (k, inner) in [old, empty, ""].iter().enumerate() {
            let what = ["former formatting", "former formatting (none)", "former formatting (nothing said)"][k];
            for place in [Last, Any] {
                let xml = if inner.is_empty() { format!("<w:{change} {WHO}/>") } else { format!("<w:{change} {WHO}>{inner}</w:{change}>") };
                add(host, &format!("{what} in {change}"), place, xml);
            }
        }
    }
    // exceptions of a row from the table's settings
    let ex = OLD_TBLPR.replace("w:tblPr>", "w:tblPrEx>").replace(r#"<w:tblStyle w:val="Old"/>"#, "");
    add("w:tr", "table exceptions of a row", First, ex.clone());
    add("w:tr", "table exceptions of a row", First, ex.replace("</w:tblPrEx>", &format!("<w:tblPrExChange {WHO}>{ex}</w:tblPrExChange></w:tblPrEx>")));
    add("w:tr", "table exceptions of a row", First, "<w:tblPrEx/>".into());
    for host in ["w:trPr", "w:tcPr", "w:pPr"] {
        add(host, "conditions that apply", First, r#"<w:cnfStyle w:val="100000000000" w:firstRow="1" w:lastRow="0"/>"#.into());
    }
    add("w:trPr", "cell spacing", Any, r#"<w:tblCellSpacing w:w="77" w:type="dxa"/>"#.into());
    add("w:tblPr", "cell spacing", Any, r#"<w:tblCellSpacing w:w="77" w:type="dxa"/>"#.into());
    for x in ["tblCaption", "tblDescription"] {
        add("w:tblPr", x, Any, format!(r#"<w:{x} w:val="77"/>"#));
    }
    for x in [r#"<w:tblOverlap w:val="never"/>"#, r#"<w:bidiVisual/>"#, r#"<w:tblStyleRowBandSize w:val="7"/>"#, r#"<w:tblStyleColBandSize w:val="7"/>"#, r#"<w:tblLook w:val="04A0" w:firstRow="1"/>"#] {
        add("w:tblPr", "unmodelled table settings", Any, x.into());
    }
    for x in ["cellIns", "cellDel", "cellMerge"] {
        add("w:tcPr", &format!("tracked {x}"), Any, format!("<w:{x} {WHO}/>"));
    }
    for x in ["<w:noWrap/>", "<w:tcFitText/>", "<w:hideMark/>", r#"<w:headers><w:header w:val="77"/></w:headers>"#] {
        add("w:tcPr", "unmodelled cell settings", Any, x.into());
    }
    add("w:tcPr", "horizontal merge", Any, r#"<w:hMerge w:val="restart"/>"#.into());
    // numbering of a paragraph
    add("w:numPr", "tracked numbering", Last, format!("<w:ins {WHO}/>"));
    add("w:numPr", "tracked numbering", Last, format!(r#"<w:numberingChange {WHO} w:original="77"/>"#));
    // sections
    for x in ["footnotePr", "endnotePr"] {
        add("w:sectPr", &format!("note settings {x}"), Any, format!(r#"<w:{x}><w:pos w:val="beneathText"/><w:numFmt w:val="upperRoman"/><w:numStart w:val="77"/><w:numRestart w:val="eachPage"/></w:{x}>"#));
        add("w:settings", &format!("note settings {x}"), Any, format!(r#"<w:{x}><w:pos w:val="beneathText"/><w:numFmt w:val="upperRoman"/><w:numStart w:val="77"/><w:footnote w:id="-1"/><w:endnote w:id="0"/></w:{x}>"#));
    }
    add("w:sectPr", "page borders", Any, format!("<w:pgBorders w:offsetFrom=\"page\">{BORDERS}</w:pgBorders>"));
    for x in [r#"<w:lnNumType w:countBy="7" w:start="7" w:distance="77"/>"#, r#"<w:paperSrc w:first="7" w:other="7"/>"#, r#"<w:vAlign w:val="both"/>"#, "<w:noEndnote/>", "<w:bidi/>", "<w:rtlGutter/>", r#"<w:formProt w:val="0"/>"#] {
        add("w:sectPr", "unmodelled section settings", Any, x.into());
    }
    add("w:cols", "column widths", Any, r#"<w:col w:w="777" w:space="77"/><w:col w:w="778"/>"#.into());
    // styles
    for c in CONDITIONS {
        add("w:style", "conditional formatting", Last, format!(r#"<w:tblStylePr w:type="{c}">{OLD_PPR}{OLD_RPR}{OLD_TBLPR}{OLD_TRPR}{OLD_TCPR}</w:tblStylePr>"#));
    }
    for x in [OLD_PPR, OLD_RPR, OLD_TBLPR, OLD_TRPR, OLD_TCPR, ""] {
        add("w:style", "conditional formatting", Last, format!(r#"<w:tblStylePr w:type="firstRow">{x}</w:tblStylePr>"#));
    }
    for x in [r#"<w:aliases w:val="77"/>"#, "<w:autoRedefine/>", "<w:hidden/>", "<w:locked/>", "<w:personal/>", r#"<w:rsid w:val="00777777"/>"#] {
        add("w:style", "unmodelled style settings", Any, x.into());
    }
    add("w:styles", "latent styles", Any, r#"<w:latentStyles w:defLockedState="0" w:defUIPriority="77" w:defSemiHidden="1" w:count="2"><w:lsdException w:name="Normal" w:uiPriority="77" w:qFormat="1"/><w:lsdException w:name="T" w:semiHidden="1"/></w:latentStyles>"#.into());
    // numbering definitions
    for x in [r#"<w:nsid w:val="77777777"/>"#, r#"<w:tmpl w:val="77777777"/>"#, r#"<w:name w:val="77"/>"#] {
        add("w:abstractNum", "unmodelled numbering settings", Any, x.into());
    }
    for x in [r#"<w:lvlPicBulletId w:val="7"/>"#, r#"<w:legacy w:legacy="1" w:legacySpace="77" w:legacyIndent="77"/>"#] {
        add("w:lvl", "unmodelled level settings", Any, x.into());
    }
    add("w:numbering", "cleanup mark", Last, r#"<w:numIdMacAtCleanup w:val="7"/>"#.into());
    // settings
    for x in [
        r#"<w:compat><w:useFELayout/><w:compatSetting w:name="compatibilityMode" w:uri="http://schemas.microsoft.com/office/word" w:val="15"/></w:compat>"#,
        r#"<w:rsids><w:rsidRoot w:val="00777777"/><w:rsid w:val="00777778"/></w:rsids>"#,
        r#"<w:captions><w:caption w:name="n" w:pos="below" w:numFmt="upperRoman"/><w:autoCaptions><w:autoCaption w:name="x" w:caption="n"/></w:autoCaptions></w:captions>"#,
        r#"<w:mailMerge><w:mainDocumentType w:val="formLetters"/><w:dataType w:val="textFile"/><w:odso><w:type w:val="text"/><w:fieldMapData><w:type w:val="null"/><w:name w:val="77"/><w:column w:val="7"/></w:fieldMapData></w:odso></w:mailMerge>"#,
        r#"<w:writeProtection w:recommended="1"/>"#,
        r#"<w:documentProtection w:edit="readOnly" w:enforcement="1"/>"#,
        r#"<w:themeFontLang w:val="en-US"/>"#,
        r#"<w:shapeDefaults/>"#,
        r#"<w:hdrShapeDefaults/>"#,
    ] {
        add("w:settings", "unmodelled settings", Any, x.into());
    }
    // fields
    let ff = r#"<w:name w:val="77"/><w:enabled/><w:calcOnExit w:val="0"/><w:helpText w:type="text" w:val="77"/><w:statusText w:type="text" w:val="77"/>"#;
    for x in [
        r#"<w:checkBox><w:sizeAuto/><w:default w:val="1"/><w:checked/></w:checkBox>"#,
        r#"<w:checkBox><w:size w:val="77"/><w:default w:val="0"/></w:checkBox>"#,
        r#"<w:ddList><w:result w:val="1"/><w:default w:val="0"/><w:listEntry w:val="77"/><w:listEntry w:val="78"/></w:ddList>"#,
        r#"<w:textInput><w:type w:val="number"/><w:default w:val="77"/><w:maxLength w:val="7"/><w:format w:val="0"/></w:textInput>"#,
    ] {
        add("w:fldChar", "form field data", Any, format!("<w:ffData>{ff}{x}</w:ffData>"));
    }
    add("w:fldChar", "field data", Any, "<w:fldData>Nzc=</w:fldData>".into());
    // content controls
    for x in [
        r#"<w:tag w:val="77"/>"#,
        r#"<w:id w:val="77"/>"#,
        r#"<w:lock w:val="sdtLocked"/>"#,
        r#"<w:placeholder><w:docPart w:val="77"/></w:placeholder>"#,
        "<w:temporary/>",
        "<w:showingPlcHdr/>",
        r#"<w:comboBox><w:listItem w:displayText="77" w:value="77"/></w:comboBox>"#,
        r#"<w:dropDownList w:lastValue="77"><w:listItem w:displayText="77" w:value="77"/></w:dropDownList>"#,
        r#"<w:date w:fullDate="2019-01-01T00:00:00Z"><w:dateFormat w:val="77"/><w:lid w:val="en-US"/><w:storeMappedDataAs w:val="dateTime"/><w:calendar w:val="gregorian"/></w:date>"#,
        r#"<w:docPartList><w:docPartGallery w:val="77"/><w:docPartCategory w:val="77"/><w:docPartUnique/></w:docPartList>"#,
        "<w:picture/>",
        "<w:group/>",
        "<w:equation/>",
    ] {
        add("w:sdtPr", "content control settings", Any, x.into());
    }
    for x in [OLD_RPR, ""] {
        add("w:sdt", "end of a content control", Any, format!("<w:sdtEndPr>{x}</w:sdtEndPr>"));
    }
    // paragraph and run content without meaning of its own
    for x in [
        r#"<w:proofErr w:type="spellStart"/>"#.to_string(),
        r#"<w:permStart w:id="77" w:edGrp="everyone"/><w:permEnd w:id="77"/>"#.into(),
        format!(r#"<w:moveFromRangeStart {WHO} w:name="77"/><w:moveFromRangeEnd w:id="901"/>"#),
        format!(r#"<w:moveToRangeStart {WHO} w:name="77"/><w:moveToRangeEnd w:id="901"/>"#),
        format!(r#"<w:customXmlInsRangeStart {WHO}/><w:customXmlInsRangeEnd w:id="901"/>"#),
        format!(r#"<w:customXmlDelRangeStart {WHO}/><w:customXmlDelRangeEnd w:id="901"/>"#),
    ] {
        for host in ["w:p", "w:body", "w:hyperlink", "w:ins", "w:del", "w:hdr", "w:ftr", "w:tc", "w:comment", "w:sdtContent", "w:tbl", "w:tr", "w:moveTo", "w:moveFrom", "w:txbxContent"] {
            add(host, "range marks", Any, x.clone());
        }
    }
    for x in ["<w:lastRenderedPageBreak/>", "<w:softHyphen/>", "<w:annotationRef/>", "<w:footnoteRef/>", "<w:endnoteRef/>", "<w:separator/>", "<w:continuationSeparator/>", "<w:dayShort/>", "<w:yearLong/>", "<w:pgNum/>", r#"<w:endnoteReference w:id="7"/>"#] {
        add("w:r", "unmodelled run content", Any, x.into());
    }
    for x in [
        r#"<w:lang w:val="en-US" w:eastAsia="ja-JP"/>"#, r#"<w:kern w:val="77"/>"#, r#"<w:position w:val="77"/>"#, r#"<w:em w:val="dot"/>"#, r#"<w:effect w:val="shimmer"/>"#, "<w:emboss/>", "<w:imprint/>", "<w:noProof/>", "<w:webHidden/>", "<w:rtl/>", "<w:cs/>", "<w:oMath/>",
        r#"<w:eastAsianLayout w:id="7" w:combine="1"/>"#, "<w:bCs/>", "<w:iCs/>", "<w:outline/>", "<w:shadow/>", "<w:smallCaps/>",
    ] {
        add("w:rPr", "unmodelled run settings", Any, x.into());
    }
    for x in ["<w:suppressLineNumbers/>", "<w:suppressAutoHyphens/>", "<w:kinsoku/>", "<w:wordWrap/>", "<w:overflowPunct/>", "<w:topLinePunct/>", "<w:autoSpaceDE/>", "<w:autoSpaceDN/>", "<w:mirrorIndents/>", "<w:suppressOverlap/>", r#"<w:textDirection w:val="tbRl"/>"#, r#"<w:textboxTightWrap w:val="allLines"/>"#] {
        add("w:pPr", "unmodelled paragraph settings", Any, x.into());
    }
    v
}

// ------------------------------------------------------------------------------------- applying

/// For every token whether it stands inside former formatting, to which nothing is added.
fn frozen(ts: &[Tok]) -> Vec<bool> {
    let mut depth: Vec<bool> = vec![];
    ts.iter()
        .map(|t| {
            let was = depth.contains(&true);
            match t {
                Tok::Start { name, empty: false, .. } => depth.push(name.ends_with("Change")),
                Tok::End(_) => {
                    depth.pop();
                }
                _ => {}
            }
            was
        })
        .collect()
}

/// Gaps between the children of element i (indices of the token before which to insert).
fn gaps(ts: &[Tok], i: usize) -> Vec<usize> {
    if matches!(&ts[i], Tok::Start { empty: true, .. }) {
        return vec![i + 1];
    }
    let end = end_of(ts, i);
    let mut v = vec![];
    let mut d = 0;
    for k in i + 1..end {
        if d == 0 {
            v.push(k);
        }
        match &ts[k] {
            Tok::Start { empty: false, .. } => d += 1,
            Tok::End(_) => d -= 1,
            _ => {}
        }
    }
    v
}

fn put(ts: &mut Vec<Tok>, i: usize, gap: usize, xml: &str) {
    if let Tok::Start { name, attrs, empty: true } = &ts[i] {
        let (name, attrs) = (name.clone(), attrs.clone());
        ts[i] = Tok::Start { name: name.clone(), attrs, empty: false };
        ts.insert(i + 1, Tok::End(name));
    }
    ts.insert(gap, Tok::Raw(xml.to_string()));
}

/// Where the extra may stand in element i.
fn places(ts: &[Tok], i: usize, e: &Extra) -> Vec<usize> {
    let g = gaps(ts, i);
    match e.place {
        Place::Any => g,
        Place::First => vec![g[0]],
        Place::Last => vec![*g.last().unwrap()],
    }
}

fn answer(bytes: &[u8]) -> Result<Value, String> {
    shown(|| read_docx(bytes))
}

/// Former paragraph formatting is modelled: only what surrounds it is compared.
fn without_changes(v: &mut Value) {
    match v {
        Value::Object(o) => {
            o.remove("paragraphPropertyChange");
            o.values_mut().for_each(without_changes);
        }
        Value::Array(a) => a.iter_mut().for_each(without_changes),
        _ => {}
    }
}

fn judge(l: &mut Leaf, e: &Extra, base: &Value, bytes: &[u8]) {
    l.transitions += 1;
    l.evals += 1;
    match answer(bytes) {
        Ok(mut got) => {
            let mut base = base.clone();
            if e.host == "w:pPr" && e.xml.contains("pPrChange") {
                without_changes(&mut got);
                without_changes(&mut base);
            }
            l.states.push(hash64(got.to_string().as_bytes()));
            match super::c17::differ(&base, &got, "") {
                Some((_, what)) => l.fail(e.name.clone(), what),
                None => l.validated += 1,
            }
        }
        Err(x) => l.fail(e.name.clone(), x),
    }
}

/// Elements around runs that group them without meaning of their own.
const GROUPS: &[(&str, &str, &str)] = &[
    ("smart tag", r#"<w:smartTag w:uri="u" w:element="e"><w:smartTagPr><w:attr w:name="n" w:val="77"/></w:smartTagPr>"#, "</w:smartTag>"),
    ("smart tag", r#"<w:smartTag w:uri="u" w:element="e">"#, "</w:smartTag>"),
    ("custom XML element", r#"<w:customXml w:uri="u" w:element="e"><w:customXmlPr><w:placeholder w:val="77"/><w:attr w:name="n" w:val="77"/></w:customXmlPr>"#, "</w:customXml>"),
    ("direction", r#"<w:dir w:val="rtl">"#, "</w:dir>"),
    ("direction", r#"<w:bdo w:val="rtl">"#, "</w:bdo>"),
];

/// Elements that can be added to hold an addition, as the first child of their parent.
const PARENTS: &[(&str, &str)] = &[
    ("w:r", "w:rPr"),
    ("w:p", "w:pPr"),
    ("w:tr", "w:trPr"),
    ("w:tc", "w:tcPr"),
    ("w:tbl", "w:tblPr"),
    ("w:sdt", "w:sdtPr"),
    ("w:pPr", "w:numPr"),
    ("w:sectPr", "w:cols"),
    ("w:style", "w:tblPr"),
    ("w:body", "w:sectPr"),
];

fn sources() -> Vec<Pack> {
    let mut v = sound_packs();
    for p in v.iter_mut() {
        p.focus = p.parts.iter().map(|q| q.0.clone()).filter(|n| n.ends_with(".xml")).collect();
    }
    v
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let deep = t != Tier::Quick;
    let mut out = vec![];
    let packs = Arc::new(sources());
    let tg = Arc::new(crate::fault::targets(&packs));
    let base: Arc<Vec<Value>> = Arc::new(packs.iter().map(|p| answer(&write_stored(&p.parts)).expect("the package is read")).collect());
    let ex = Arc::new(extras());
    // sites: extra, target, element, gap
    let mut sites: Vec<(usize, usize, usize, usize)> = vec![];
    for (k, e) in ex.iter().enumerate() {
        for (j, t) in tg.iter().enumerate() {
            let frozen = frozen(&t.toks);
            for (i, tok) in t.toks.iter().enumerate() {
                if matches!(tok, Tok::Start { name, .. } if name == e.host) && !frozen[i] {
                    if e.xml.contains("pPrChange") && render(&t.toks[i..end_of(&t.toks, i)]).contains("pPrChange") {
                        continue; // stated once at most
                    }
                    sites.extend(places(&t.toks, i, e).into_iter().map(|g| (k, j, i, g)));
                }
            }
        }
    }
    let sites = Arc::new(sites);
    {
        let (packs, tg, base, ex, sites) = (packs.clone(), tg.clone(), base.clone(), ex.clone(), sites.clone());
        out.push(Phase::new("single sites", "every kind of added markup in every place that can hold it in packages that use the whole vocabulary", move |ch, l| {
            let &(k, j, i, g) = ch.pick(&sites);
            let (e, t) = (&ex[k], &tg[j]);
            let mut ts = t.toks.clone();
            put(&mut ts, i, g, &e.xml);
            l.label = format!("{} {} in token {i} before {g}", t.name, e.name);
            judge(l, e, &base[t.pack], &crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes()));
        }));
    }
    {
        let (packs, tg, base) = (packs.clone(), tg.clone(), base.clone());
        out.push(Phase::new("grouped runs", "every stretch of up to three neighbours that are runs, in every group, also twice", move |ch, l| {
            let t = ch.pick(&tg);
            let runs: Vec<usize> = (0..t.toks.len()).filter(|&i| matches!(&t.toks[i], Tok::Start { name, .. } if name == "w:r")).collect();
            if runs.is_empty() {
                l.skip = true;
                return;
            }
            let i = *ch.pick(&runs);
            let n = 1 + ch.choose(3);
            let mut end = end_of(&t.toks, i);
            for _ in 1..n {
                match t.toks.get(end) {
                    Some(Tok::Start { name, .. }) if name == "w:r" => end = end_of(&t.toks, end),
                    _ => {
                        l.skip = true;
                        return;
                    }
                }
            }
            let (name, a, b) = *ch.pick(GROUPS);
            let twice = ch.flag();
            let mut ts = t.toks.clone();
            ts.insert(end, Tok::Raw(if twice { b.repeat(2) } else { b.to_string() }));
            ts.insert(i, Tok::Raw(if twice { a.repeat(2) } else { a.to_string() }));
            l.label = format!("{} {name} around {n} from token {i}", t.name);
            let e = Extra { host: "", name: format!("runs in a {name}"), xml: String::new(), place: Place::Any };
            judge(l, &e, &base[t.pack], &crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes()));
        }));
    }
    {
        // two at once, in one element or in two
        let mut by_target: Vec<Vec<usize>> = vec![vec![]; tg.len()];
        for (n, s) in sites.iter().enumerate() {
            let e = &ex[s.0];
            let last = matches!(e.place, Place::Last | Place::First) || places(&tg[s.1].toks, s.2, e).last() == Some(&s.3);
            if last && (deep || e.xml.matches('<').count() > 2) {
                by_target[s.1].push(n);
            }
        }
        let by_target = Arc::new(by_target.into_iter().enumerate().filter(|x| !x.1.is_empty()).collect::<Vec<_>>());
        let (packs, tg, base, ex, sites) = (packs.clone(), tg.clone(), base.clone(), ex.clone(), sites.clone());
        out.push(Phase::new("two sites", "every ordered pair of additions to one part, each at the start or end of what holds it", move |ch, l| {
            let (j, here) = ch.pick(&by_target);
            let (a, b) = (sites[*ch.pick(here)], sites[*ch.pick(here)]);
            let (ea, eb) = (&ex[a.0], &ex[b.0]);
            if a.3 > b.3 || ea.xml.contains("pPrChange") || eb.xml.contains("pPrChange") {
                l.skip = true;
                return;
            }
            let t = &tg[*j];
            let mut ts = t.toks.clone();
            // the later one first, so that the places of the earlier one stay; an empty element opened twice would not
            if a.2 != b.2 && matches!((&ts[a.2], &ts[b.2]), (Tok::Start { empty: true, .. }, _) | (_, Tok::Start { empty: true, .. })) {
                l.skip = true;
                return;
            }
            put(&mut ts, b.2, b.3, &eb.xml);
            put(&mut ts, a.2, a.3, &ea.xml);
            l.label = format!("{} {} and {} at {a:?} {b:?}", t.name, ea.name, eb.name);
            judge(l, ea, &base[t.pack], &crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes()));
            for v in l.violations.iter_mut() {
                v.key = format!("{}_and_{}", ea.name, eb.name).replace(' ', "_");
            }
        }));
    }
    {
        // elements that hold nothing but the addition
        let (packs, tg, ex) = (packs.clone(), tg.clone(), ex.clone());
        out.push(Phase::new("otherwise empty", "every kind of added markup alone in an element that was not there", move |ch, l| {
            let e = ch.pick(&ex);
            let Some((parent, _)) = PARENTS.iter().find(|p| p.1 == e.host) else {
                l.skip = true;
                return;
            };
            let t = ch.pick(&tg);
            let frozen = frozen(&t.toks);
            let at: Vec<usize> = (0..t.toks.len())
                .filter(|&i| matches!(&t.toks[i], Tok::Start { name, .. } if name == parent) && !frozen[i])
                .filter(|&i| !matches!(t.toks.get(i + 1), Some(Tok::Start { name, .. }) if name == e.host))
                .collect();
            if at.is_empty() {
                l.skip = true;
                return;
            }
            let i = *ch.pick(&at);
            let with = |inner: &str| {
                let mut ts = t.toks.clone();
                put(&mut ts, i, i + 1, &format!("<{0}>{inner}</{0}>", e.host));
                crate::fault::with_part(&packs[t.pack], t.part, render(&ts).into_bytes())
            };
            l.label = format!("{} {} alone in a new <{}> in token {i}", t.name, e.name, e.host);
            let Ok(base) = answer(&with("")) else {
                l.outcome = "not read".into();
                return;
            };
            judge(l, e, &base, &with(&e.xml));
        }));
    }
    {
        let all: Arc<Vec<(String, Parts)>> = Arc::new(
            super::c17::fixtures()
                .into_iter()
                .filter_map(|(n, b)| Some((n, crate::zipread::read(&b).ok()?.into_iter().map(|e| (e.name, e.data)).collect::<Parts>())))
                .collect(),
        );
        let base: Arc<Vec<Result<Value, String>>> = Arc::new(all.iter().map(|p| answer(&write_stored(&p.1))).collect());
        let ex = ex.clone();
        out.push(Phase::new("everywhere", "every kind of added markup (in the quick tier those with content of their own) at the end of everything that can hold it, in every fixture", move |ch, l| {
            let k = ch.choose(all.len());
            let e = ch.pick(&ex);
            let (Ok(base), true) = (&base[k], (e.place != Place::Any || !e.xml.contains("Change")) && (deep || e.xml.matches('<').count() > 2)) else {
                l.skip = true;
                return;
            };
            let mut n = 0;
            let mut parts = all[k].1.clone();
            for p in parts.iter_mut().filter(|p| p.0.ends_with(".xml")) {
                let Ok(text) = std::str::from_utf8(&p.1) else { continue };
                if !text.contains(&format!("<{}", e.host)) {
                    continue;
                }
                let mut ts = tokens(text);
                let frozen = frozen(&ts);
                for i in (0..ts.len()).rev() {
                    if matches!(&ts[i], Tok::Start { name, .. } if name == e.host) && !frozen[i] {
                        if e.xml.contains("Change") && render(&ts[i..end_of(&ts, i)]).contains("PrChange") {
                            continue;
                        }
                        let g = places(&ts, i, e);
                        let g = if e.place == Place::First { g[0] } else { *g.last().unwrap() };
                        put(&mut ts, i, g, &e.xml);
                        n += 1;
                    }
                }
                p.1 = render(&ts).into_bytes();
            }
            if n == 0 {
                l.skip = true;
                return;
            }
            l.label = format!("{} {} in {n} places", all[k].0, e.name);
            judge(l, e, base, &write_stored(&parts));
        }));
    }
    out
}
