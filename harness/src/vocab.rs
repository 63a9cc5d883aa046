//! Hand-written packages that together use every element and attribute the reader knows, and a token
//! view of XML text used to damage them.

pub const NS: &str = concat!(
    r#"xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" "#,
    r#"xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" "#,
    r#"xmlns:wp="http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing" "#,
    r#"xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" "#,
    r#"xmlns:pic="http://schemas.openxmlformats.org/drawingml/2006/picture" "#,
    r#"xmlns:wps="http://schemas.microsoft.com/office/word/2010/wordprocessingShape" "#,
    r#"xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" "#,
    r#"xmlns:v="urn:schemas-microsoft-com:vml" xmlns:o="urn:schemas-microsoft-com:office:office" "#,
    r#"xmlns:w14="http://schemas.microsoft.com/office/word/2010/wordml" "#,
    r#"xmlns:w15="http://schemas.microsoft.com/office/word/2012/wordml""#
);

const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
const PKG: &str = "http://schemas.openxmlformats.org/package/2006";

pub type Parts = Vec<(String, Vec<u8>)>;

pub struct Pack {
    pub name: &'static str,
    pub parts: Parts,
    /// The parts that are damaged.
    pub focus: Vec<String>,
}

fn rels(items: &[(&str, &str, &str, bool)]) -> String {
    let mut s = format!(r#"<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="{PKG}/relationships">"#);
    for (id, ty, target, ext) in items {
        let ty = if ty.starts_with("http") { ty.to_string() } else { format!("{REL}/{ty}") };
        s += &format!(r#"<Relationship Id="{id}" Type="{ty}" Target="{target}"{}/>"#, if *ext { r#" TargetMode="External""# } else { "" });
    }
    s + "</Relationships>"
}

pub fn document(body: &str) -> String {
    format!(r#"<?xml version="1.0" encoding="UTF-8"?><w:document {NS}><w:body>{body}</w:body></w:document>"#)
}

fn root(name: &str, body: &str) -> String {
    format!(r#"<?xml version="1.0" encoding="UTF-8"?><{name} {NS}>{body}</{name}>"#)
}

/// A package around the given main document part and further parts related to it.
/// extra: (path, relationship type, id, content)
pub fn package(doc: &str, extra: &[(&str, &str, &str, String)], more: &[(&str, Vec<u8>)]) -> Parts {
    let mut ct = format!(
        r#"<?xml version="1.0" encoding="UTF-8"?><Types xmlns="{PKG}/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Default Extension="png" ContentType="image/png"/><Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/>"#
    );
    for (p, ..) in extra.iter().filter(|e| !e.0.starts_with("http") && !e.0.ends_with(".png")) {
        ct += &format!(r#"<Override PartName="/word/{p}" ContentType="application/xml"/>"#);
    }
    ct += "</Types>";
    let items: Vec<(&str, &str, &str, bool)> = extra.iter().map(|(p, t, id, _)| (*id, *t, *p, p.starts_with("http"))).collect();
    let mut parts: Parts = vec![
        ("[Content_Types].xml".into(), ct.into_bytes()),
        ("_rels/.rels".into(), rels(&[("rId1", "officeDocument", "word/document.xml", false)]).into_bytes()),
        ("word/_rels/document.xml.rels".into(), rels(&items).into_bytes()),
        ("word/document.xml".into(), doc.as_bytes().to_vec()),
    ];
    for (p, _, _, c) in extra.iter().filter(|e| !e.0.starts_with("http")) {
        parts.push((format!("word/{p}"), c.clone().into_bytes()));
    }
    for (p, c) in more {
        parts.push((p.to_string(), c.clone()));
    }
    parts
}

pub const RPR: &str = r#"<w:rPr><w:rStyle w:val="S1"/><w:rFonts w:ascii="A" w:hAnsi="B" w:eastAsia="C" w:cs="D" w:asciiTheme="minorHAnsi" w:hAnsiTheme="minorHAnsi" w:eastAsiaTheme="minorEastAsia" w:cstheme="minorBidi" w:hint="eastAsia"/><w:b/><w:bCs/><w:i/><w:iCs/><w:caps/><w:strike/><w:dstrike/><w:vanish/><w:specVanish/><w:color w:val="FF0000" w:themeColor="accent1" w:themeShade="80" w:themeTint="40"/><w:spacing w:val="10"/><w:w w:val="90"/><w:sz w:val="24"/><w:szCs w:val="24"/><w:highlight w:val="yellow"/><w:u w:val="single"/><w:bdr w:val="single" w:sz="4" w:space="0" w:color="00FF00"/><w:shd w:val="clear" w:color="auto" w:fill="FFFF00"/><w:fitText w:val="840" w:id="1266434317"/><w:vertAlign w:val="superscript"/><w:ins w:id="1" w:author="a" w:date="2020-01-01T00:00:00Z"/><w:del w:id="2" w:author="a" w:date="2020-01-01T00:00:00Z"/></w:rPr>"#;

pub const PPR: &str = r#"<w:pPr><w:pStyle w:val="P1"/><w:keepNext/><w:keepLines/><w:pageBreakBefore/><w:framePr w:wrap="notBeside" w:vAnchor="page" w:hAnchor="margin" w:hRule="exact" w:h="10" w:w="20" w:x="1" w:y="2" w:xAlign="left" w:yAlign="top" w:hSpace="3" w:vSpace="4"/><w:widowControl w:val="0"/><w:numPr><w:ilvl w:val="0"/><w:numId w:val="1"/></w:numPr><w:pBdr><w:top w:val="single" w:sz="4" w:space="1" w:color="000000"/><w:left w:val="single" w:sz="4" w:space="1" w:color="000000"/><w:bottom w:val="single" w:sz="4" w:space="1" w:color="000000"/><w:right w:val="single" w:sz="4" w:space="1" w:color="000000"/><w:between w:val="single" w:sz="4" w:space="1" w:color="000000"/><w:bar w:val="single" w:sz="4" w:space="1" w:color="000000"/></w:pBdr><w:shd w:val="clear" w:color="auto" w:fill="FFFF00"/><w:tabs><w:tab w:val="left" w:leader="dot" w:pos="100"/></w:tabs><w:snapToGrid w:val="0"/><w:spacing w:before="1" w:after="2" w:beforeLines="3" w:afterLines="4" w:line="240" w:lineRule="auto"/><w:ind w:left="10" w:right="20" w:firstLine="5" w:startChars="100" w:hangingChars="50"/><w:jc w:val="left"/><w:textAlignment w:val="center"/><w:adjustRightInd w:val="0"/><w:outlineLvl w:val="1"/><w:divId w:val="7"/><w:rPr><w:b/></w:rPr><w:sectPr><w:pgSz w:w="1" w:h="2"/></w:sectPr><w:pPrChange w:id="3" w:author="a" w:date="2020-01-01T00:00:00Z"><w:pPr><w:jc w:val="right"/></w:pPr></w:pPrChange></w:pPr>"#;

pub const SECT: &str = r#"<w:sectPr><w:headerReference w:type="default" r:id="rIdH1"/><w:headerReference w:type="first" r:id="rIdH2"/><w:headerReference w:type="even" r:id="rIdH3"/><w:footerReference w:type="default" r:id="rIdF1"/><w:footerReference w:type="first" r:id="rIdF2"/><w:footerReference w:type="even" r:id="rIdF3"/><w:type w:val="nextPage"/><w:pgSz w:w="11906" w:h="16838" w:orient="landscape" w:code="9"/><w:pgMar w:top="1" w:right="2" w:bottom="3" w:left="4" w:header="5" w:footer="6" w:gutter="7"/><w:pgNumType w:start="1" w:chapStyle="1"/><w:cols w:space="425" w:num="2"/><w:titlePg/><w:textDirection w:val="tbRl"/><w:docGrid w:type="lines" w:linePitch="360" w:charSpace="1"/></w:sectPr>"#;

pub const TABLE: &str = r#"<w:tbl><w:tblPr><w:tblStyle w:val="T1"/><w:tblpPr w:leftFromText="1" w:rightFromText="2" w:vertAnchor="page" w:horzAnchor="margin" w:tblpXSpec="left" w:tblpYSpec="top" w:tblpX="3" w:tblpY="4"/><w:tblW w:w="5000" w:type="dxa"/><w:jc w:val="center"/><w:tblInd w:w="5" w:type="dxa"/><w:tblBorders><w:top w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:left w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:bottom w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:right w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:insideH w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:insideV w:val="single" w:sz="4" w:space="0" w:color="000000"/></w:tblBorders><w:tblLayout w:type="fixed"/><w:tblCellMar><w:top w:w="1" w:type="dxa"/><w:left w:w="2" w:type="dxa"/><w:bottom w:w="3" w:type="dxa"/><w:right w:w="4" w:type="dxa"/></w:tblCellMar><w:tblPrChange w:id="4" w:author="a"><w:tblPr><w:tblW w:w="1" w:type="dxa"/></w:tblPr></w:tblPrChange></w:tblPr><w:tblGrid><w:gridCol w:w="100" w:type="dxa"/><w:gridCol w:w="200"/><w:tblGridChange w:id="5"><w:tblGrid><w:gridCol w:w="1"/></w:tblGrid></w:tblGridChange></w:tblGrid><w:tr><w:trPr><w:gridBefore w:val="1"/><w:gridAfter w:val="1"/><w:wBefore w:w="1" w:type="dxa"/><w:wAfter w:w="1" w:type="dxa"/><w:cantSplit/><w:trHeight w:val="10" w:hRule="exact"/><w:ins w:id="6" w:author="a" w:date="2020-01-01T00:00:00Z"/><w:del w:id="7" w:author="a" w:date="2020-01-01T00:00:00Z"/><w:trPrChange w:id="8" w:author="a"><w:trPr><w:trHeight w:val="1"/></w:trPr></w:trPrChange></w:trPr><w:tc><w:tcPr><w:tcW w:w="50" w:type="pct"/><w:gridSpan w:val="2"/><w:vMerge w:val="restart"/><w:tcBorders><w:top w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:left w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:bottom w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:right w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:insideH w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:insideV w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:tl2br w:val="single" w:sz="4" w:space="0" w:color="000000"/><w:tr2bl w:val="single" w:sz="4" w:space="0" w:color="000000"/></w:tcBorders><w:shd w:val="clear" w:color="auto" w:fill="FFFF00"/><w:tcMar><w:top w:w="1" w:type="dxa"/><w:left w:w="2" w:type="dxa"/><w:bottom w:w="3" w:type="dxa"/><w:right w:w="4" w:type="dxa"/></w:tcMar><w:textDirection w:val="tbRl"/><w:vAlign w:val="center"/><w:tcPrChange w:id="9" w:author="a"><w:tcPr><w:tcW w:w="1" w:type="dxa"/></w:tcPr></w:tcPrChange></w:tcPr><w:p><w:r><w:t>c1</w:t></w:r></w:p><w:tbl><w:tblPr/><w:tblGrid/><w:tr><w:tc><w:p><w:r><w:t>in</w:t></w:r></w:p></w:tc></w:tr></w:tbl><w:sdt><w:sdtContent><w:p/></w:sdtContent></w:sdt><w:p/></w:tc></w:tr></w:tbl>"#;

const DRAWING: &str = r#"<w:p><w:r><w:drawing><wp:inline distT="0" distB="1" distL="2" distR="3"><wp:extent cx="100" cy="200"/><wp:effectExtent l="0" t="0" r="0" b="0"/><wp:docPr id="1" name="pic"/><a:graphic><a:graphicData uri="http://schemas.openxmlformats.org/drawingml/2006/picture"><pic:pic><pic:nvPicPr><pic:cNvPr id="0" name=""/><pic:cNvPicPr/></pic:nvPicPr><pic:blipFill><a:blip r:embed="rIdImg"/><a:stretch><a:fillRect/></a:stretch></pic:blipFill><pic:spPr><a:xfrm rot="60000"><a:off x="1" y="2"/><a:ext cx="100" cy="200"/></a:xfrm><a:prstGeom prst="rect"><a:avLst/></a:prstGeom></pic:spPr></pic:pic></a:graphicData></a:graphic></wp:inline></w:drawing></w:r><w:r><w:drawing><wp:anchor distT="0" distB="1" distL="2" distR="3" simplePos="0" allowOverlap="0" behindDoc="0" locked="0" layoutInCell="0" relativeHeight="190500"><wp:simplePos x="3" y="4"/><wp:positionH relativeFrom="page"><wp:posOffset>5</wp:posOffset></wp:positionH><wp:positionV relativeFrom="margin"><wp:align>top</wp:align></wp:positionV><wp:extent cx="100" cy="200"/><wp:wrapNone/><wp:docPr id="1" name="pic"/><a:graphic><a:graphicData uri="http://schemas.microsoft.com/office/word/2010/wordprocessingShape"><wps:wsp><wps:cNvSpPr/><wps:spPr><a:xfrm><a:off x="0" y="0"/><a:ext cx="1" cy="2"/></a:xfrm><a:solidFill/><a:ln w="720"/></wps:spPr><wps:style/><wps:txbx><w:txbxContent><w:p><w:r><w:t>tb</w:t></w:r></w:p><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl></w:txbxContent></wps:txbx><wps:bodyPr/></wps:wsp></a:graphicData></a:graphic></wp:anchor></w:drawing></w:r></w:p>"#;

const VML: &str = r#"<w:p><w:r><mc:AlternateContent><mc:Choice Requires="wps"><w:drawing><wp:anchor><a:graphic><a:graphicData uri="http://schemas.microsoft.com/office/word/2010/wordprocessingShape"><wps:wsp><wps:txbx><w:txbxContent><w:p><w:r><w:t>ch</w:t></w:r></w:p></w:txbxContent></wps:txbx></wps:wsp></a:graphicData></a:graphic></wp:anchor></w:drawing></mc:Choice><mc:Fallback><w:pict><v:rect style="w"><v:textbox><w:txbxContent><w:p><w:r><w:t>fb</w:t></w:r></w:p></w:txbxContent></v:textbox></v:rect></w:pict></mc:Fallback></mc:AlternateContent></w:r><w:r><w:pict><v:shape id="s1" style="width:1pt"><v:stroke/><v:fill/><v:imagedata r:id="rIdImg" o:title="t"/></v:shape></w:pict></w:r></w:p>"#;

const INLINE: &str = r#"<w:p w14:paraId="5A000001"><w:bookmarkStart w:id="1" w:name="bm"/><w:commentRangeStart w:id="1"/><w:r><w:t xml:space="preserve">a &amp; b</w:t><w:tab/><w:ptab w:alignment="left" w:relativeTo="margin" w:leader="none"/><w:br w:type="page"/><w:br w:type="textWrapping" w:clear="all"/><w:br/><w:cr/><w:sym w:font="Wingdings" w:char="F04A"/><w:lastRenderedPageBreak/></w:r><w:commentRangeEnd w:id="1"/><w:r><w:commentReference w:id="1"/></w:r><w:bookmarkEnd w:id="1"/><w:ins w:id="2" w:author="a" w:date="2020-01-01T00:00:00Z"><w:r><w:t>i</w:t></w:r><w:del w:id="3" w:author="a" w:date="2020-01-01T00:00:00Z"><w:r><w:delText xml:space="preserve">d</w:delText></w:r></w:del><w:commentRangeStart w:id="1"/><w:commentRangeEnd w:id="1"/></w:ins><w:del w:id="4" w:author="a" w:date="2020-01-01T00:00:00Z"><w:r><w:delText>d</w:delText></w:r><w:commentRangeStart w:id="1"/><w:commentRangeEnd w:id="1"/></w:del><w:moveFrom w:id="5" w:author="a" w:date="2020-01-01T00:00:00Z"><w:r><w:t>m</w:t></w:r><w:commentRangeStart w:id="1"/><w:commentRangeEnd w:id="1"/></w:moveFrom><w:moveTo w:id="6" w:author="a" w:date="2020-01-01T00:00:00Z"><w:r><w:t>m</w:t></w:r><w:del w:id="7" w:author="a"><w:r><w:delText>d</w:delText></w:r></w:del></w:moveTo><w:hyperlink r:id="rIdL" w:history="1"><w:r><w:t>l</w:t></w:r><w:ins w:id="8" w:author="a"><w:r><w:t>x</w:t></w:r></w:ins><w:bookmarkStart w:id="2" w:name="b2"/><w:bookmarkEnd w:id="2"/></w:hyperlink><w:hyperlink w:anchor="bm"><w:r><w:t>k</w:t></w:r><w:del w:id="9" w:author="a"><w:r><w:delText>y</w:delText></w:r></w:del></w:hyperlink></w:p><w:bookmarkStart w:id="9" w:name="out"/><w:p><w:r><w:t>mid</w:t></w:r></w:p><w:bookmarkEnd w:id="9"/><w:commentRangeStart w:id="2"/><w:p/><w:commentRangeEnd w:id="2"/>"#;

const FIELDS: &str = r#"<w:p><w:r><w:fldChar w:fldCharType="begin" w:dirty="true"/></w:r><w:r><w:instrText xml:space="preserve"> TOC \o "1-3" \h \z \u \f A \l "1-2" \n 1-2 \t "H,1,G,2" \a x \b y \c z \d ":" \p "-" \s S \w \x</w:instrText></w:r><w:r><w:fldChar w:fldCharType="separate"/></w:r><w:r><w:t>x</w:t></w:r><w:r><w:fldChar w:fldCharType="end"/></w:r></w:p><w:p><w:r><w:instrText>PAGEREF _Toc1 \h</w:instrText></w:r><w:r><w:instrText>HYPERLINK "http://x" \l "y"</w:instrText></w:r><w:r><w:instrText>TC "text" \f C \l 1 \n</w:instrText></w:r><w:r><w:instrText>PAGE</w:instrText></w:r><w:r><w:instrText>NUMPAGES</w:instrText></w:r><w:r><w:instrText>OTHER x</w:instrText></w:r><w:r><w:delInstrText>PAGE</w:delInstrText></w:r></w:p><w:sdt><w:sdtPr><w:alias w:val="al"/><w:docPartObj><w:docPartGallery w:val="Table of Contents"/></w:docPartObj><w:dataBinding w:xpath="x" w:prefixMappings="p" w:storeItemID="s"/><w:text/></w:sdtPr><w:sdtContent><w:p><w:r><w:t>s</w:t></w:r></w:p><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl><w:r><w:t>r</w:t></w:r><w:bookmarkStart w:id="1" w:name="q"/><w:bookmarkEnd w:id="1"/><w:commentRangeStart w:id="1"/><w:commentRangeEnd w:id="1"/></w:sdtContent></w:sdt>"#;

fn text_run(s: &str) -> String {
    format!("<w:p><w:r><w:t>{s}</w:t></w:r></w:p>")
}

pub fn styles() -> String {
    root(
        "w:styles",
        &format!(
            r#"<w:docDefaults><w:rPrDefault>{}</w:rPrDefault><w:pPrDefault><w:pPr><w:spacing w:after="160"/></w:pPr></w:pPrDefault></w:docDefaults><w:style w:type="paragraph" w:default="1" w:styleId="Normal"><w:name w:val="Normal"/><w:basedOn w:val="X"/><w:next w:val="Y"/><w:link w:val="Z"/><w:uiPriority w:val="1"/><w:qFormat/>{}{}</w:style><w:style w:type="character" w:styleId="C1"><w:name w:val="C"/>{}</w:style><w:style w:type="table" w:styleId="T1"><w:name w:val="T"/><w:tblPr><w:tblW w:w="1" w:type="dxa"/><w:jc w:val="left"/></w:tblPr><w:tcPr><w:tcW w:w="1" w:type="dxa"/></w:tcPr></w:style><w:style w:type="numbering" w:styleId="N1"><w:name w:val="N"/></w:style>"#,
            r#"<w:rPr><w:sz w:val="24"/></w:rPr>"#, r#"<w:pPr><w:jc w:val="left"/></w:pPr>"#, r#"<w:rPr><w:b/></w:rPr>"#, r#"<w:rPr><w:i/></w:rPr>"#
        ),
    )
}

pub fn numbering() -> String {
    root(
        "w:numbering",
        r#"<w:abstractNum w:abstractNumId="1" w15:restartNumberingAfterBreak="0"><w:multiLevelType w:val="multilevel"/><w:styleLink w:val="sl"/><w:numStyleLink w:val="nsl"/><w:lvl w:ilvl="0" w:tplc="1"><w:start w:val="1"/><w:numFmt w:val="decimal"/><w:lvlRestart w:val="0"/><w:pStyle w:val="P1"/><w:isLgl/><w:suff w:val="tab"/><w:lvlText w:val="%1."/><w:lvlJc w:val="left"/><w:pPr><w:ind w:left="10" w:hanging="5"/><w:tabs><w:tab w:val="num" w:pos="10"/></w:tabs></w:pPr><w:rPr><w:b/></w:rPr></w:lvl></w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="1"/><w:lvlOverride w:ilvl="0"><w:startOverride w:val="3"/><w:lvl w:ilvl="0"><w:start w:val="2"/><w:numFmt w:val="bullet"/><w:lvlText w:val="x"/><w:lvlJc w:val="right"/></w:lvl></w:lvlOverride></w:num>"#,
    )
}

pub fn settings() -> String {
    root(
        "w:settings",
        r#"<w:zoom w:percent="100"/><w:evenAndOddHeaders/><w:adjustLineHeightInTable/><w:defaultTabStop w:val="840"/><w:characterSpacingControl w:val="doNotCompress"/><w:docVars><w:docVar w:name="n" w:val="v"/></w:docVars><w15:docId w15:val="{00000000-0000-0000-0000-000000000000}"/>"#,
    )
}

pub fn comments() -> String {
    root(
        "w:comments",
        r#"<w:comment w:id="1" w:author="A" w:date="2020-01-01T00:00:00Z" w:initials="A"><w:p w14:paraId="5A000011"><w:r><w:annotationRef/><w:t>c1</w:t></w:r></w:p></w:comment><w:comment w:id="2" w:author="B" w:date="2020-01-01T00:00:00Z"><w:p w14:paraId="5A000012"><w:r><w:t>c2</w:t></w:r></w:p><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl></w:comment>"#,
    )
}

pub fn comments_ex() -> String {
    root("w15:commentsEx", r#"<w15:commentEx w15:paraId="5A000011" w15:done="1"/><w15:commentEx w15:paraId="5A000012" w15:paraIdParent="5A000011" w15:done="0"/>"#)
}

pub fn web() -> String {
    root(
        "w:webSettings",
        r#"<w:divs><w:div w:id="1"><w:marLeft w:val="1"/><w:marRight w:val="2"/><w:marTop w:val="3"/><w:marBottom w:val="4"/><w:divsChild><w:div w:id="2"><w:marLeft w:val="1"/><w:marRight w:val="2"/><w:marTop w:val="3"/><w:marBottom w:val="4"/></w:div></w:divsChild></w:div></w:divs>"#,
    )
}

pub fn theme() -> String {
    root(
        "a:theme",
        r#"<a:themeElements><a:fontScheme name="O"><a:majorFont><a:latin typeface="L" panose="p"/><a:ea typeface="E"/><a:cs typeface="C"/><a:font script="Jpan" typeface="J"/></a:majorFont><a:minorFont><a:latin typeface="L"/><a:ea typeface="E"/><a:cs typeface="C"/><a:font script="Jpan" typeface="J"/></a:minorFont></a:fontScheme></a:themeElements>"#,
    )
}

pub fn custom() -> String {
    format!(
        r#"<?xml version="1.0" encoding="UTF-8"?><Properties xmlns="http://schemas.openxmlformats.org/officeDocument/2006/custom-properties" xmlns:vt="http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes"><property fmtid="f" pid="2" name="k"><vt:lpwstr>v</vt:lpwstr></property><property fmtid="f" pid="3" name="n"><vt:i4>3</vt:i4></property></Properties>"#
    )
}

fn header() -> String {
    root("w:hdr", &format!(r#"<w:p><w:r><w:t>h</w:t></w:r></w:p><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl><w:sdt><w:sdtContent><w:p/></w:sdtContent></w:sdt>"#))
}

fn footer() -> String {
    root("w:ftr", &format!(r#"<w:p><w:r><w:t>f</w:t></w:r></w:p><w:tbl><w:tr><w:tc><w:p/></w:tc></w:tr></w:tbl><w:sdt><w:sdtContent><w:p/></w:sdtContent></w:sdt>"#))
}

const T2011: &str = "http://schemas.microsoft.com/office/2011/relationships/commentsExtended";
const CUSTOM: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/custom-properties";

/// The packages; each exercises one area of the vocabulary and names the parts to damage.
pub fn packs() -> Vec<Pack> {
    let doc = |b: &str| document(b);
    let png = crate::corpus::png(1);
    let one = |name: &'static str, body: String, extra: Vec<(&'static str, &'static str, &'static str, String)>, more: Vec<(&'static str, Vec<u8>)>, focus: Vec<&str>| Pack {
        name,
        parts: package(&doc(&body), &extra, &more),
        focus: focus.into_iter().map(|s| s.to_string()).collect(),
    };
    let d = || vec!["word/document.xml"];
    let img = || vec![("media/image1.png", "image", "rIdImg", String::new())];
    let mut v = vec![
        one("run", format!("<w:p><w:r>{RPR}<w:t>t</w:t></w:r></w:p>"), vec![], vec![], d()),
        one("paragraph", format!("<w:p>{PPR}<w:r><w:t>t</w:t></w:r></w:p>"), vec![], vec![], d()),
        one("section", format!("<w:p><w:r><w:t>t</w:t></w:r></w:p>{SECT}"), vec![], vec![], d()),
        one("table", TABLE.to_string(), vec![], vec![], d()),
        one("inline", INLINE.to_string(), vec![("http://example.com/x", "hyperlink", "rIdL", String::new())], vec![], d()),
        one("fields", FIELDS.to_string(), vec![], vec![], d()),
        one("drawing", DRAWING.to_string(), img(), vec![], d()),
        one("vml", VML.to_string(), img(), vec![], d()),
        one("styles", text_run("t"), vec![("styles.xml", "styles", "rIdS", styles())], vec![], vec!["word/styles.xml"]),
        one("numbering", text_run("t"), vec![("numbering.xml", "numbering", "rIdN", numbering())], vec![], vec!["word/numbering.xml"]),
        one("settings", text_run("t"), vec![("settings.xml", "settings", "rIdT", settings())], vec![], vec!["word/settings.xml"]),
        one(
            "comments",
            r#"<w:p><w:commentRangeStart w:id="1"/><w:r><w:t>t</w:t></w:r><w:commentRangeEnd w:id="1"/></w:p>"#.to_string(),
            vec![("comments.xml", "comments", "rIdC", comments()), ("commentsExtended.xml", T2011, "rIdE", comments_ex())],
            vec![],
            vec!["word/comments.xml", "word/commentsExtended.xml"],
        ),
        one("web", text_run("t"), vec![("webSettings.xml", "webSettings", "rIdW", web())], vec![], vec!["word/webSettings.xml"]),
        one("theme", text_run("t"), vec![("theme/theme1.xml", "theme", "rIdM", theme())], vec![], vec!["word/theme/theme1.xml"]),
        one(
            "headers",
            format!(
                r#"<w:p/><w:sectPr><w:headerReference w:type="default" r:id="rIdH1"/><w:footerReference w:type="default" r:id="rIdF1"/></w:sectPr>"#
            ),
            vec![("header1.xml", "header", "rIdH1", header()), ("footer1.xml", "footer", "rIdF1", footer())],
            vec![
                ("word/_rels/header1.xml.rels", rels(&[("rId1", "image", "media/image1.png", false)]).into_bytes()),
                ("word/_rels/footer1.xml.rels", rels(&[("rId1", "image", "media/image1.png", false)]).into_bytes()),
            ],
            vec!["word/header1.xml", "word/footer1.xml", "word/_rels/header1.xml.rels", "word/_rels/footer1.xml.rels"],
        ),
        one(
            "package",
            text_run("t"),
            vec![("http://example.com/x", "hyperlink", "rIdL", String::new()), ("media/image1.png", "image", "rIdImg", String::new())],
            vec![],
            vec!["[Content_Types].xml", "_rels/.rels", "word/_rels/document.xml.rels"],
        ),
    ];
    // custom properties hang off the package relationships
    let mut p = package(&doc(&text_run("t")), &[], &[("docProps/custom.xml", custom().into_bytes())]);
    let i = p.iter().position(|x| x.0 == "_rels/.rels").unwrap();
    p[i].1 = rels(&[("rId1", "officeDocument", "word/document.xml", false), ("rId4", CUSTOM, "docProps/custom.xml", false)]).into_bytes();
    v.push(Pack { name: "custom", parts: p, focus: vec!["docProps/custom.xml".into()] });
    for p in v.iter_mut() {
        for (n, b) in p.parts.iter_mut() {
            if n.ends_with(".png") {
                *b = png.clone();
            }
        }
    }
    v
}

/// Packages with the same vocabulary whose every reference leads somewhere and whose ids do not repeat.
pub fn sound_packs() -> Vec<Pack> {
    let png = crate::corpus::png(1);
    let one = |name: &'static str, body: String, extra: Vec<(&'static str, &'static str, &'static str, String)>| Pack {
        name,
        parts: package(&document(&body), &extra, &[]),
        focus: vec!["word/document.xml".into()],
    };
    let img = || ("media/image1.png", "image", "rIdImg", String::new());
    let link = || ("http://example.com/x", "hyperlink", "rIdL", String::new());
    let notes = |ids: &[usize]| {
        let body: String = ids
            .iter()
            .map(|i| format!(r#"<w:comment w:id="{i}" w:author="A{i}" w:date="2020-01-01T00:00:00Z"><w:p w14:paraId="5A0000A{i}"><w:r><w:t>c{i}</w:t></w:r></w:p></w:comment>"#))
            .collect();
        ("comments.xml", "comments", "rIdC", root("w:comments", &body))
    };
    let mut inline = INLINE.to_string();
    for (i, host) in ["ins", "del", "moveFrom"].iter().enumerate() {
        let old = format!(r#"<w:commentRangeStart w:id="1"/><w:commentRangeEnd w:id="1"/></w:{host}>"#);
        assert!(inline.contains(&old));
        inline = inline.replace(&old, &format!(r#"<w:commentRangeStart w:id="{0}"/><w:commentRangeEnd w:id="{0}"/></w:{host}>"#, i + 3));
    }
    let (pic, anchored) = DRAWING.split_once("</w:drawing></w:r>").unwrap();
    let shape = &anchored[anchored.find("<a:graphic>").unwrap()..anchored.find("</wp:anchor>").unwrap()];
    let graphic = &pic[pic.find("<a:graphic>").unwrap()..pic.find("</wp:inline>").unwrap()];
    let floating = anchored.replace(shape, graphic);
    let (rect, vml) = VML.split_once("</mc:AlternateContent></w:r>").unwrap();
    let hf = |i: usize| [("header1.xml", "header", "rIdH1"), ("header2.xml", "header", "rIdH2"), ("header3.xml", "header", "rIdH3"), ("footer1.xml", "footer", "rIdF1"), ("footer2.xml", "footer", "rIdF2"), ("footer3.xml", "footer", "rIdF3")][i];
    let part = |i: usize| {
        let (p, t, id) = hf(i);
        let name = if i < 3 { "w:hdr" } else { "w:ftr" };
        (p, t, id, root(name, &format!("<w:p><w:r><w:t>{p}</w:t></w:r></w:p>")))
    };
    let num = || ("numbering.xml", "numbering", "rIdN", numbering());
    let mut v = vec![
        one("run", format!("<w:p><w:r>{RPR}<w:t>t</w:t></w:r></w:p>"), vec![]),
        one("paragraph", format!("<w:p>{PPR}<w:r><w:t>t</w:t></w:r></w:p>"), vec![num()]),
        one("section", format!("<w:p><w:r><w:t>t</w:t></w:r></w:p>{SECT}"), (0..6).map(part).collect()),
        one("table", TABLE.to_string(), vec![]),
        one("inline", inline, vec![link(), notes(&[1, 2, 3, 4, 5])]),
        one("fields", FIELDS.to_string(), vec![notes(&[1])]),
        one("picture", format!("{pic}</w:drawing></w:r></w:p>"), vec![img()]),
        one("floating", format!("<w:p>{floating}"), vec![img()]),
        one("text box", format!("<w:p>{anchored}"), vec![]),
        one("alternatives", format!("{rect}</mc:AlternateContent></w:r></w:p>"), vec![]),
        one("vml", format!("<w:p>{vml}"), vec![img()]),
    ];
    for p in v.iter_mut() {
        for (n, b) in p.parts.iter_mut() {
            if n.ends_with(".png") {
                *b = png.clone();
            }
        }
    }
    let mut rest: Vec<Pack> =
        packs().into_iter().filter(|p| ["styles", "settings", "comments", "web", "theme", "headers", "custom", "package"].contains(&p.name)).collect();
    let mut n = one("numbering", r#"<w:p><w:pPr><w:numPr><w:ilvl w:val="0"/><w:numId w:val="1"/></w:numPr></w:pPr><w:r><w:t>t</w:t></w:r></w:p>"#.into(), vec![num()]);
    n.focus = vec!["word/numbering.xml".into()];
    v.push(n);
    for p in rest.iter_mut().filter(|p| p.name == "headers") {
        p.parts.push(("word/media/image1.png".into(), png.clone()));
    }
    v.append(&mut rest);
    v
}

/// The names of elements known to the reader, as used in the packages above and a few more.
pub fn names() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for p in packs() {
        for f in &p.focus {
            let x = p.parts.iter().find(|q| &q.0 == f).unwrap();
            for t in tokens(&String::from_utf8_lossy(&x.1)) {
                if let Tok::Start { name, .. } = t {
                    if !v.contains(&name) {
                        v.push(name);
                    }
                }
            }
        }
    }
    for n in ["w:start", "w:end", "w:docGrid", "w:italic", "w:footnoteReference", "w:endnoteReference", "x:unknown", "unknown", "w:"] {
        if !v.contains(&n.to_string()) {
            v.push(n.to_string());
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Start { name: String, attrs: Vec<(String, String)>, empty: bool },
    End(String),
    Text(String),
    /// Declaration, comment and the like, kept as is.
    Raw(String),
}

/// Splits well-formed text into tokens; attribute values stay escaped.
pub fn tokens(x: &str) -> Vec<Tok> {
    let b = x.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        if b[i] == b'<' {
            let mut j = i + 1;
            let mut q = 0u8;
            while j < b.len() && (q != 0 || b[j] != b'>') {
                if q != 0 {
                    if b[j] == q {
                        q = 0;
                    }
                } else if b[j] == b'"' || b[j] == b'\'' {
                    q = b[j];
                }
                j += 1;
            }
            let inner = &x[i + 1..j];
            if inner.starts_with('?') || inner.starts_with('!') {
                out.push(Tok::Raw(x[i..=j].to_string()));
            } else if let Some(n) = inner.strip_prefix('/') {
                out.push(Tok::End(n.trim().to_string()));
            } else {
                let empty = inner.ends_with('/');
                let inner = inner.trim_end_matches('/');
                let cut = inner.find(|c: char| c.is_whitespace()).unwrap_or(inner.len());
                let name = inner[..cut].to_string();
                let mut attrs = Vec::new();
                let mut rest = inner[cut..].trim();
                while let Some(eq) = rest.find('=') {
                    let k = rest[..eq].trim().to_string();
                    let r = rest[eq + 1..].trim_start();
                    let q = r.chars().next().unwrap();
                    let end = r[1..].find(q).unwrap() + 1;
                    attrs.push((k, r[1..end].to_string()));
                    rest = r[end + 1..].trim();
                }
                out.push(Tok::Start { name, attrs, empty });
            }
            i = j + 1;
        } else {
            let j = x[i..].find('<').map_or(b.len(), |k| i + k);
            out.push(Tok::Text(x[i..j].to_string()));
            i = j;
        }
    }
    out
}

pub fn render_one(t: &Tok, s: &mut String) {
    match t {
        Tok::Start { name, attrs, empty } => {
            s.push('<');
            s.push_str(name);
            for (k, v) in attrs {
                s.push(' ');
                s.push_str(k);
                s.push_str("=\"");
                s.push_str(v);
                s.push('"');
            }
            s.push_str(if *empty { "/>" } else { ">" });
        }
        Tok::End(n) => {
            s.push_str("</");
            s.push_str(n);
            s.push('>');
        }
        Tok::Text(t) | Tok::Raw(t) => s.push_str(t),
    }
}

pub fn render(ts: &[Tok]) -> String {
    let mut s = String::new();
    for t in ts {
        render_one(t, &mut s);
    }
    s
}

/// Index one past the end of the subtree or token at i.
pub fn end_of(ts: &[Tok], i: usize) -> usize {
    match &ts[i] {
        Tok::Start { empty: false, .. } => {
            let mut d = 0;
            for (k, t) in ts.iter().enumerate().skip(i) {
                match t {
                    Tok::Start { empty: false, .. } => d += 1,
                    Tok::End(_) => {
                        d -= 1;
                        if d == 0 {
                            return k + 1;
                        }
                    }
                    _ => {}
                }
            }
            ts.len()
        }
        _ => i + 1,
    }
}
