//! C02: any string handed to the builder yields well-formed XML carrying that string.
//!
//! Every string-valued builder argument is a slot. Each slot is first packed with a plain marker; the
//! packed parts then say where the argument is carried. With any other string in the slot the packed
//! parts must be the same trees with the marker replaced by that string.

use super::Meta;
use crate::explore::*;
use crate::gen::{clip, pack_build, pack_stream};
use crate::xml::{self, El, Node};
use crate::zipread;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "line feeds and tabs in run text are breaks and tab stops by design, so run text is tried without them".into(),
            "carriage returns and characters XML 1.0 cannot represent may be dropped or replaced by U+FFFD; nothing else may change".into(),
            "web-extension property values are written as quoted strings with inner quotes escaped by a backslash".into(),
            "ids the library draws itself (paragraph ids, tracked-change ids, relationship ids, generated bookmarks) are not compared".into(),
        ],
    }
}

const MARK: &str = "Qzmarkzq";

type F<T> = Box<dyn Fn(&str) -> T + Sync + Send>;

enum Make {
    Para(F<Paragraph>),
    Doc(F<Docx>),
}

struct Slot {
    name: &'static str,
    make: Make,
    /// line feeds and tabs have a meaning of their own here
    splits: bool,
    /// how the argument is encoded where it is carried
    enc: fn(&str) -> String,
}

fn plain(s: &str) -> String {
    s.to_string()
}
fn quoted(s: &str) -> String {
    s.replace('"', "\\\"")
}

fn txt(s: &str) -> Run {
    Run::new().add_text(s)
}
fn one(s: impl Into<String>) -> Paragraph {
    Paragraph::new().add_run(Run::new().add_text(s.into()))
}
fn level(f: &str, t: &str, j: &str) -> Level {
    Level::new(0, Start::new(1), NumberFormat::new(f), LevelText::new(t), LevelJc::new(j))
}
fn numbered(l: Level) -> Docx {
    Docx::new()
        .add_abstract_numbering(AbstractNumbering::new(7).add_level(l))
        .add_numbering(Numbering::new(7, 7))
        .add_paragraph(one("n").numbering(NumberingId::new(7), IndentLevel::new(0)))
}
fn styled(s: Style) -> Docx {
    Docx::new().add_style(s).add_paragraph(one("t"))
}
fn st() -> Style {
    Style::new("St", StyleType::Paragraph).name("St")
}
fn in_table(t: TableCell) -> Docx {
    Docx::new().add_table(Table::new(vec![TableRow::new(vec![t])]))
}
fn table(f: impl Fn(Table) -> Table) -> Docx {
    Docx::new().add_table(f(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(one("c"))])])))
}
fn toc(t: TableOfContents) -> Docx {
    Docx::new().add_style(Style::new("Heading1", StyleType::Paragraph).name("heading 1")).add_table_of_contents(t).add_paragraph(one("H").style("Heading1"))
}
fn item(i: TableOfContentsItem) -> Docx {
    toc(TableOfContents::new().heading_styles_range(1, 3).add_item(i))
}
fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\n', "&#10;").replace('\t', "&#9;").replace('\r', "&#13;")
}
fn commented(c: Comment) -> Paragraph {
    Paragraph::new().add_comment_start(c).add_run(txt("x")).add_comment_end(1)
}
fn comment() -> Comment {
    Comment::new(1).author("A").date("D").add_paragraph(one("c"))
}
fn ext() -> WebExtension {
    WebExtension::new("i", "r", "v", "s", "t")
}

fn slots() -> Vec<Slot> {
    let mut v: Vec<Slot> = Vec::new();
    macro_rules! para {
        ($n:expr, $f:expr) => {
            v.push(Slot { name: $n, make: Make::Para(Box::new($f)), splits: false, enc: plain })
        };
    }
    // run content
    macro_rules! text {
        ($n:expr, $f:expr) => {
            v.push(Slot { name: $n, make: Make::Para(Box::new($f)), splits: true, enc: plain })
        };
    }
    text!("run text", |s| one(s));
    text!("run text twice", |s| Paragraph::new().add_run(txt(s).add_text(s)));
    text!("deleted text", |s| Paragraph::new().add_delete(Delete::new().author("A").date("D").add_run(Run::new().add_delete_text(s))));
    text!("inserted text", |s| Paragraph::new().add_insert(Insert::new(txt(s)).author("A").date("D")));
    text!("link text", |s| Paragraph::new().add_hyperlink(Hyperlink::new("http://x/", HyperlinkType::External).add_run(txt(s))));
    text!("moved text", |s| Paragraph::new().add_move_from(MoveFrom::new().author("A").date("D").add_run(txt(s))).add_move_to(MoveTo::new(txt(s)).author("A").date("D")));
    text!("content control text", |s| Paragraph::new().add_structured_data_tag(StructuredDataTag::new().add_run(txt(s))));
    para!("field instruction string", |s| Paragraph::new().add_run({
        let mut r = Run::new();
        r.children.push(RunChild::InstrTextString(s.to_string()));
        r
    }));
    para!("unknown field instruction", |s| Paragraph::new().add_run(Run::new().add_instr_text(InstrText::Unsupported(s.to_string()))));
    para!("deleted unknown field instruction", |s| Paragraph::new().add_run(Run::new().add_delete_instr_text(DeleteInstrText::Unsupported(s.to_string()))));
    para!("contents-entry field text", |s| Paragraph::new().add_run(Run::new().add_tc(InstrTC::new(s))));
    para!("contents-entry field type", |s| Paragraph::new().add_run(Run::new().add_tc(InstrTC::new("t").item_type_identifier(s))));
    para!("page-reference field", |s| Paragraph::new().add_run(Run::new().add_instr_text(InstrText::PAGEREF(InstrPAGEREF::new(s)))));
    para!("link field", |s| Paragraph::new().add_run(Run::new().add_instr_text(InstrText::HYPERLINK(InstrHyperlink::new(s)))));
    para!("symbol font", |s| Paragraph::new().add_run(Run::new().add_sym(Sym::new(s, "F04A"))));
    para!("symbol character", |s| Paragraph::new().add_run(Run::new().add_sym(Sym::new("Wingdings", s))));
    // run formatting
    para!("run style", |s| Paragraph::new().add_run(txt("x").style(s)));
    para!("run color", |s| Paragraph::new().add_run(txt("x").color(s)));
    para!("theme shade", |s| Paragraph::new().add_run(txt("x").color("FF0000").theme_color(ThemeColor::Accent1).theme_shade(s)));
    para!("theme tint", |s| Paragraph::new().add_run(txt("x").color("FF0000").theme_color(ThemeColor::Accent1).theme_tint(s)));
    para!("highlight", |s| Paragraph::new().add_run(txt("x").highlight(s)));
    para!("underline", |s| Paragraph::new().add_run(txt("x").underline(s)));
    para!("run shading color", |s| Paragraph::new().add_run(txt("x").shading(Shading::new().color(s))));
    para!("run shading fill", |s| Paragraph::new().add_run(txt("x").shading(Shading::new().fill(s))));
    para!("text border color", |s| Paragraph::new().add_run(txt("x").text_border(TextBorder::new().color(s))));
    para!("font ascii", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().ascii(s))));
    para!("font hi-ansi", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().hi_ansi(s))));
    para!("font east-asia", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().east_asia(s))));
    para!("font cs", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().cs(s))));
    para!("font ascii theme", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().ascii_theme(s))));
    para!("font hi-ansi theme", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().hi_ansi_theme(s))));
    para!("font east-asia theme", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().east_asia_theme(s))));
    para!("font cs theme", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().cs_theme(s))));
    para!("font hint", |s| Paragraph::new().add_run(txt("x").fonts(RunFonts::new().hint(s))));
    // paragraph level
    para!("paragraph style", |s| one("x").style(s));
    para!("paragraph mark color", |s| {
        let mut p = one("x");
        p.property = p.property.run_property(RunProperty::new().color(s));
        p
    });
    para!("paragraph mark inserted by", |s| one("x").insert(s, "D"));
    para!("paragraph mark inserted at", |s| one("x").insert("A", s));
    para!("paragraph mark deleted by", |s| one("x").delete(s, "D"));
    para!("paragraph mark deleted at", |s| one("x").delete("A", s));
    para!("bookmark name", |s| Paragraph::new().add_bookmark_start(3, s).add_run(txt("x")).add_bookmark_end(3));
    para!("frame wrap", |s| one("x").wrap(s));
    para!("frame v-anchor", |s| one("x").v_anchor(s));
    para!("frame h-anchor", |s| one("x").h_anchor(s));
    para!("frame h-rule", |s| one("x").h_rule(s));
    para!("frame x-align", |s| one("x").x_align(s));
    para!("frame y-align", |s| one("x").y_align(s));
    para!("paragraph border color", |s| {
        let mut p = one("x");
        p.property = p.property.set_borders(ParagraphBorders::with_empty().set(ParagraphBorder::new(ParagraphBorderPosition::Top).color(s)));
        p
    });
    para!("inserted by", |s| Paragraph::new().add_insert(Insert::new(txt("x")).author(s).date("D")));
    para!("inserted at", |s| Paragraph::new().add_insert(Insert::new(txt("x")).author("A").date(s)));
    para!("deleted by", |s| Paragraph::new().add_delete(Delete::new().author(s).date("D").add_run(Run::new().add_delete_text("x"))));
    para!("deleted at", |s| Paragraph::new().add_delete(Delete::new().author("A").date(s).add_run(Run::new().add_delete_text("x"))));
    para!("moved from by", |s| Paragraph::new().add_move_from(MoveFrom::new().author(s).date("D").add_run(txt("x"))));
    para!("moved from at", |s| Paragraph::new().add_move_from(MoveFrom::new().author("A").date(s).add_run(txt("x"))));
    para!("moved to by", |s| Paragraph::new().add_move_to(MoveTo::new(txt("x")).author(s).date("D")));
    para!("moved to at", |s| Paragraph::new().add_move_to(MoveTo::new(txt("x")).author("A").date(s)));
    para!("properties changed by", |s| one("x").paragraph_property_change(ParagraphPropertyChange::new().author(s).date("D").property(ParagraphProperty::new().keep_next(true))));
    para!("properties changed at", |s| one("x").paragraph_property_change(ParagraphPropertyChange::new().author("A").date(s).property(ParagraphProperty::new().keep_next(true))));
    para!("link target", |s| Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::External).add_run(txt("x"))));
    para!("link anchor", |s| Paragraph::new().add_hyperlink(Hyperlink::new(s, HyperlinkType::Anchor).add_run(txt("x"))));
    para!("content control alias", |s| Paragraph::new().add_structured_data_tag(StructuredDataTag::new().alias(s).add_run(txt("x"))));
    para!("data binding xpath", |s| Paragraph::new().add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().xpath(s)).add_run(txt("x"))));
    para!("data binding prefixes", |s| Paragraph::new().add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().prefix_mappings(s)).add_run(txt("x"))));
    para!("data binding store id", |s| Paragraph::new().add_structured_data_tag(StructuredDataTag::new().data_binding(DataBinding::new().store_item_id(s)).add_run(txt("x"))));

    macro_rules! doc {
        ($n:expr, $f:expr) => {
            v.push(Slot { name: $n, make: Make::Doc(Box::new($f)), splits: false, enc: plain })
        };
    }
    macro_rules! texts {
        ($n:expr, $f:expr) => {
            v.push(Slot { name: $n, make: Make::Doc(Box::new($f)), splits: true, enc: plain })
        };
    }
    doc!("comment author", |s| Docx::new().add_paragraph(commented(comment().author(s))));
    doc!("comment date", |s| Docx::new().add_paragraph(commented(comment().date(s))));
    doc!("body bookmark name", |s| Docx::new().add_bookmark_start(3, s).add_paragraph(one("x")).add_bookmark_end(3));
    doc!("section bookmark name", |s| Docx::new().add_section(Section::new().add_bookmark_start(3, s).add_paragraph(one("x")).add_bookmark_end(3)));
    // tables
    doc!("table style", |s| table(|t| t.style(s)));
    doc!("table position v-anchor", |s| table(|t| t.position(TablePositionProperty::new().vertical_anchor(s))));
    doc!("table position h-anchor", |s| table(|t| t.position(TablePositionProperty::new().horizontal_anchor(s))));
    doc!("table position x-align", |s| table(|t| t.position(TablePositionProperty::new().position_x_alignment(s))));
    doc!("table position y-align", |s| table(|t| t.position(TablePositionProperty::new().position_y_alignment(s))));
    doc!("table border color", |s| table(|t| t.set_border(TableBorder::new(TableBorderPosition::Top).color(s))));
    doc!("cell border color", |s| in_table(TableCell::new().set_border(TableCellBorder::new(TableCellBorderPosition::Top).color(s)).add_paragraph(one("c"))));
    doc!("cell shading color", |s| in_table(TableCell::new().shading(Shading::new().color(s)).add_paragraph(one("c"))));
    doc!("cell shading fill", |s| in_table(TableCell::new().shading(Shading::new().fill(s)).add_paragraph(one("c"))));
    texts!("nested table text", |s| in_table(TableCell::new().add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(one(s))])])).add_paragraph(Paragraph::new())));
    // styles
    doc!("style id", |s| styled(Style::new(s, StyleType::Paragraph).name("N")));
    doc!("style id, used", |s| Docx::new().add_style(Style::new(s, StyleType::Paragraph).name("N")).add_paragraph(one("t").style(s)));
    doc!("character style id", |s| styled(Style::new(s, StyleType::Character).name("N")));
    doc!("table style id", |s| styled(Style::new(s, StyleType::Table).name("N")));
    doc!("style name", |s| styled(Style::new("St", StyleType::Paragraph).name(s)));
    doc!("style based on", |s| styled(st().based_on(s)));
    doc!("style next", |s| styled(st().next(s)));
    doc!("style link", |s| styled(st().link(s)));
    doc!("style color", |s| styled(st().color(s)));
    doc!("style theme shade", |s| styled(st().color("FF0000").theme_color(ThemeColor::Accent1).theme_shade(s)));
    doc!("style theme tint", |s| styled(st().color("FF0000").theme_color(ThemeColor::Accent1).theme_tint(s)));
    doc!("style highlight", |s| styled(st().highlight(s)));
    doc!("style underline", |s| styled(st().underline(s)));
    doc!("style font", |s| styled(st().fonts(RunFonts::new().ascii(s))));
    doc!("style frame wrap", |s| styled(st().wrap(s)));
    doc!("style frame v-anchor", |s| styled(st().v_anchor(s)));
    doc!("style frame h-anchor", |s| styled(st().h_anchor(s)));
    doc!("style frame h-rule", |s| styled(st().h_rule(s)));
    doc!("style frame x-align", |s| styled(st().x_align(s)));
    doc!("style frame y-align", |s| styled(st().y_align(s)));
    doc!("style table style", |s| styled(Style::new("St", StyleType::Table).name("St").style(s)));
    doc!("default font", |s| Docx::new().default_fonts(RunFonts::new().east_asia(s)).add_paragraph(one("t")));
    // numbering
    doc!("level format", |s| numbered(level(s, "%1", "left")));
    doc!("level text", |s| numbered(level("decimal", s, "left")));
    doc!("level alignment", |s| numbered(level("decimal", "%1", s)));
    doc!("level style", |s| numbered(level("decimal", "%1", "left").paragraph_style(s)));
    doc!("level color", |s| numbered(level("decimal", "%1", "left").color(s)));
    doc!("level highlight", |s| numbered(level("decimal", "%1", "left").highlight(s)));
    doc!("level underline", |s| numbered(level("decimal", "%1", "left").underline(s)));
    doc!("level font", |s| numbered(level("decimal", "%1", "left").fonts(RunFonts::new().ascii(s))));
    doc!("override level text", |s| {
        Docx::new()
            .add_abstract_numbering(AbstractNumbering::new(7).add_level(level("decimal", "%1", "left")))
            .add_numbering(Numbering::new(7, 7).add_override(LevelOverride::new(0).level(level("decimal", s, "left"))))
            .add_paragraph(one("n").numbering(NumberingId::new(7), IndentLevel::new(0)))
    });
    // table of contents
    doc!("contents alias", |s| toc(TableOfContents::new().heading_styles_range(1, 3).alias(s)));
    doc!("contents deleted by", |s| toc(TableOfContents::new().heading_styles_range(1, 3).delete(s, "D")));
    doc!("contents deleted at", |s| toc(TableOfContents::new().heading_styles_range(1, 3).delete("A", s)));
    doc!("contents field identifier", |s| toc(TableOfContents::new().tc_field_identifier(Some(s.to_string()))));
    doc!("contents style with level", |s| toc(TableOfContents::new().add_style_with_level(StyleWithLevel::new(s, 2))));
    macro_rules! instr {
        ($n:expr, $m:ident) => {
            doc!($n, |s| Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().add_instr_text(InstrText::TOC(InstrToC::new().$m(s))))))
        };
    }
    instr!("contents field separator", entry_and_page_number_separator);
    instr!("contents field bookmark", entry_bookmark_name);
    instr!("contents field caption", caption_label);
    instr!("contents field numbered caption", caption_label_including_numbers);
    instr!("contents field sequence separator", sequence_and_page_numbers_separator);
    instr!("contents field sequence prefix", seq_field_identifier_for_prefix);
    texts!("contents item text", |s| item(TableOfContentsItem::new().text(s).level(1).toc_key("_Tk").page_ref("2")));
    doc!("contents item key", |s| item(TableOfContentsItem::new().text("t").level(1).toc_key(s).page_ref("2")));
    texts!("contents item page", |s| item(TableOfContentsItem::new().text("t").level(1).toc_key("_Tk").page_ref(s)));
    texts!("generated contents entry", |s| {
        Docx::new()
            .add_style(Style::new("Heading1", StyleType::Paragraph).name("heading 1"))
            .add_table_of_contents(TableOfContents::new().heading_styles_range(1, 3).auto())
            .add_paragraph(one(s).style("Heading1"))
    });
    texts!("text before contents", |s| toc(TableOfContents::new().heading_styles_range(1, 3).add_before_paragraph(one(s))));
    texts!("text after contents", |s| toc(TableOfContents::new().heading_styles_range(1, 3).add_after_paragraph(one(s))));
    // settings, properties, attachments
    doc!("document id", |s| Docx::new().doc_id(s));
    doc!("document variable name", |s| Docx::new().add_doc_var(s, "v"));
    doc!("document variable value", |s| Docx::new().add_doc_var("n", s));
    doc!("created at", |s| Docx::new().created_at(s));
    doc!("updated at", |s| Docx::new().updated_at(s));
    doc!("custom property name", |s| Docx::new().custom_property(s, "v"));
    doc!("custom property value", |s| Docx::new().custom_property("n", s));
    doc!("custom item id", |s| Docx::new().add_custom_item(s, "<root/>"));
    doc!("custom item attribute", |s| Docx::new().add_custom_item("{0}", &format!("<root a=\"{}\"/>", esc(s))));
    doc!("custom item text", |s| Docx::new().add_custom_item("{0}", &format!("<root><x>{}</x></root>", esc(s))));
    doc!("web extension id", |s| Docx::new().taskpanes().web_extension(WebExtension::new(s, "r", "v", "s", "t")));
    doc!("web extension reference", |s| Docx::new().taskpanes().web_extension(WebExtension::new("i", s, "v", "s", "t")));
    doc!("web extension version", |s| Docx::new().taskpanes().web_extension(WebExtension::new("i", "r", s, "s", "t")));
    doc!("web extension store", |s| Docx::new().taskpanes().web_extension(WebExtension::new("i", "r", "v", s, "t")));
    doc!("web extension store type", |s| Docx::new().taskpanes().web_extension(WebExtension::new("i", "r", "v", "s", s)));
    doc!("web extension property name", |s| Docx::new().taskpanes().web_extension(ext().property(s, "v")));
    v.push(Slot { name: "web extension property value", make: Make::Doc(Box::new(|s| Docx::new().taskpanes().web_extension(ext().property("n", s)))), splits: false, enc: quoted });
    // sections
    doc!("text direction", |s| {
        let mut d = Docx::new();
        d.document = d.document.text_direction(s.to_string());
        d
    });
    doc!("chapter style", |s| Docx::new().page_num_type(PageNumType::new().chap_style(s)));
    doc!("section chapter style", |s| Docx::new().add_section(Section::new().add_paragraph(one("x")).page_num_type(PageNumType::new().chap_style(s))));
    doc!("picture id", |s| Docx::new().add_paragraph(Paragraph::new().add_run(Run::new().add_image(Pic::new_with_dimensions(crate::corpus::png(1), 2, 2).id(s)))));
    v
}

const HOSTS: &[&str] = &["body", "cell", "header", "footer", "footnote", "comment", "block content control", "section"];

fn place(host: &str, p: Paragraph) -> Docx {
    let d = Docx::new();
    match host {
        "body" => d.add_paragraph(p),
        "cell" => in_table(TableCell::new().add_paragraph(p)),
        "header" => d.add_paragraph(one("b")).header(Header::new().add_paragraph(p)),
        "footer" => d.add_paragraph(one("b")).footer(Footer::new().add_paragraph(p)),
        "footnote" => {
            let mut f = Footnote::new();
            f.add_content(p);
            d.add_paragraph(Paragraph::new().add_run(Run::new().add_footnote_reference(f)))
        }
        "comment" => d.add_paragraph(commented(Comment::new(1).author("A").date("D").add_paragraph(p))),
        "block content control" => d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p)),
        _ => d.add_section(Section::new().add_paragraph(p)).add_paragraph(one("b")),
    }
}

/// All strings up to the given length over the alphabet, then longer look-alikes.
fn strings(t: Tier) -> Vec<String> {
    let alpha: &[char] = &['&', '<', '>', '"', '\'', 'a', ' ', '\n', '\t', ';', '#', ']', '\u{e9}', '\u{1F600}', '\u{1}', '\r'];
    let mut v = vec![String::new()];
    let mut last = vec![String::new()];
    for n in 1..=(if t == Tier::Quick { 2 } else { 3 }) {
        let set: &[char] = if n < 3 { alpha } else { &['&', '<', '>', '"', '\'', 'a', ' ', ';', '#', ']'] };
        let mut next = vec![];
        for s in &last {
            for c in set {
                next.push(format!("{s}{c}"));
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    for s in [
        "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#39;", "&nbsp;", "&amp;amp;", "&amp;lt;", "&bogus;", "&amp", "amp;", "]]>", "<![CDATA[x]]>", "<!--", "-->", "<!-- x -->", "<?x?>",
        "</w:t>", "<w:t>", "<w:br/>", "<a b=\"c\">", "\" x=\"y", "' x='y", "a=\"b\"", " a ", "a  b", "  ", "\u{a0}", "\u{3000}x", "\u{2028}", "\u{85}", "\u{7f}", "\u{feff}x", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{0}",
        "\u{b}", "\u{c}", "\u{1f}", "a\u{8}b", "\u{10ffff}", "e\u{301}", "\u{5d0}\u{200f}", "%41%20", "https://x/?a=1&b=2#c", "C:\\x\\y", "{0}", "{}", "a\nb", "a\r\nb", "a\tb", "1", "-1", "true", "日本語",
    ] {
        v.push(s.to_string());
    }
    v
}

type Parts = Vec<(String, El)>;

/// All parts, parsed; `Err` names the part that is not well-formed.
fn parts(bytes: &[u8]) -> Result<Parts, String> {
    let mut v = vec![];
    for e in zipread::read(bytes)? {
        if e.name.ends_with(".xml") || e.name.ends_with(".rels") {
            v.push((e.name.clone(), xml::parse(&e.data).map_err(|m| format!("{}: {m}", e.name))?));
        }
    }
    Ok(v)
}

/// What a reader may drop: carriage returns and characters outside XML.
fn loose(s: &str) -> String {
    s.chars().filter(|c| xml::legal_char(*c) && *c != '\r' && *c != '\u{fffd}').collect()
}

fn drawn(a: &xml::Attr) -> bool {
    matches!(a.local.as_str(), "id" | "Id" | "paraId" | "paraIdParent" | "name" | "anchor" | "embed" | "itemID")
}

fn same(a: &str, b: &str, rep: &str, exact: bool) -> bool {
    let want = a.replace(MARK, rep);
    want == b || (!exact && loose(&want) == loose(b))
}

/// First difference between the marker tree with the marker replaced, and the tree at hand.
fn compare(m: &El, e: &El, rep: &str, exact: bool, seen: &mut usize) -> Option<String> {
    if m.q() != e.q() {
        return Some(format!("element {} instead of {}", e.q(), m.q()));
    }
    if m.attrs.len() != e.attrs.len() {
        return Some(format!("{}: attributes {:?} instead of {:?}", m.q(), e.attrs.iter().map(|a| a.q()).collect::<Vec<_>>(), m.attrs.iter().map(|a| a.q()).collect::<Vec<_>>()));
    }
    for (x, y) in m.attrs.iter().zip(&e.attrs) {
        if x.q() != y.q() {
            return Some(format!("{}: attribute {} instead of {}", m.q(), y.q(), x.q()));
        }
        *seen += x.value.matches(MARK).count();
        if !same(&x.value, &y.value, rep, exact) && !(!x.value.contains(MARK) && drawn(x)) {
            return Some(format!("{}/@{} is {:?} instead of {:?}", m.q(), x.q(), y.value, x.value.replace(MARK, rep)));
        }
    }
    // a text that becomes empty disappears
    let kids = |e: &El| -> Vec<Node> {
        e.kids.iter().filter(|k| !matches!(k, Node::Text(t) if t.is_empty())).cloned().collect()
    };
    let subst: Vec<Node> = m
        .kids
        .iter()
        .filter(|k| match k {
            Node::Text(t) => !same(t, "", rep, exact),
            _ => true,
        })
        .cloned()
        .collect();
    let have = kids(e);
    for k in &m.kids {
        if let Node::Text(t) = k {
            *seen += t.matches(MARK).count();
        }
    }
    if subst.len() != have.len() {
        return Some(format!("{}: {} children instead of {}", m.q(), have.len(), subst.len()));
    }
    for (x, y) in subst.iter().zip(&have) {
        match (x, y) {
            (Node::El(x), Node::El(y)) => {
                if let Some(d) = compare(x, y, rep, exact, seen) {
                    return Some(d);
                }
            }
            (Node::Text(x), Node::Text(y)) => {
                let gen = !x.contains(MARK) && (x.contains("_Toc") || x.contains("rId"));
                if !gen && !same(x, y, rep, exact) {
                    return Some(format!("{} contains {y:?} instead of {:?}", m.q(), x.replace(MARK, rep)));
                }
            }
            _ => return Some(format!("{}: text and element exchanged", m.q())),
        }
    }
    None
}

fn pack(route: usize, s: &Slot, host: &str, text: &str) -> Result<Vec<u8>, String> {
    let d = guarded(|| match &s.make {
        Make::Para(f) => place(host, f(text)),
        Make::Doc(f) => f(text),
    })?;
    guarded(|| if route == 0 { pack_stream(d) } else { pack_build(d) })?
}

/// Tries one string in one slot against the marker trees.
fn judge(l: &mut Leaf, s: &Slot, host: &str, base: &Parts, route: usize, text: &str) {
    let key = s.name.replace(' ', "-");
    let bytes = match pack(route, s, host, text) {
        Ok(b) => b,
        Err(e) => return l.fail(&format!("refused/{key}"), format!("{} = {text:?} in {host}: {e}", s.name)),
    };
    l.evals += 1;
    l.transitions += 1;
    let got = match parts(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail(&format!("ill-formed/{key}"), format!("{} = {text:?} in {host}: {e}", s.name)),
    };
    l.states.push(hash64(format!("{:?}", got.iter().map(|p| &p.1).map(|e| e.canon()).collect::<Vec<_>>()).as_bytes()));
    if base.iter().map(|p| &p.0).ne(got.iter().map(|p| &p.0)) {
        return l.fail(&format!("parts/{key}"), format!("{} = {text:?} in {host}: other parts than with plain text", s.name));
    }
    if text.is_empty() {
        l.validated += 1;
        return;
    }
    let exact = text.chars().all(|c| xml::legal_char(c) && c != '\r');
    let rep = (s.enc)(text);
    for ((n, m), (_, e)) in base.iter().zip(&got) {
        let mut seen = 0;
        if let Some(d) = compare(m, e, &rep, exact, &mut seen) {
            let trimmed = (s.enc)(text.trim());
            let blanks = s.name == "custom item text" && compare(m, e, &trimmed, exact, &mut 0).is_none();
            let key = if blanks { "limit:custom-item-blanks".into() } else { format!("changed/{key}") };
            return l.fail(&key, format!("{} = {text:?} in {host}: {n}: {}", s.name, clip(&d)));
        }
    }
    l.validated += 1;
}

/// Every slot in every host with every string.
pub fn groups(t: Tier) -> Vec<super::Group> {
    let strs = strings(t);
    let all = std::sync::Arc::new(slots());
    let mut out = vec![];
    for i in 0..all.len() {
        let hosts: &[&'static str] = if matches!(all[i].make, Make::Para(_)) { HOSTS } else { &["document"] };
        for (k, &host) in hosts.iter().enumerate() {
            let cases = std::iter::once(MARK.to_string())
                .chain(strs.iter().cloned())
                .filter(|s| fits(&all[i], s) && (k == 0 || s.chars().count() != 2))
                .map(|s| {
                    let all = all.clone();
                    super::Case {
                        name: format!("{s:?}"),
                        want: s.clone(),
                        make: Box::new(move || match &all[i].make {
                            Make::Para(f) => place(host, f(&s)),
                            Make::Doc(f) => f(&s),
                        }),
                    }
                })
                .collect();
            out.push(super::Group { name: format!("{} in {host}", all[i].name), cases });
        }
    }
    out
}

fn fits(s: &Slot, text: &str) -> bool {
    !(s.splits && text.contains('\n')) && !(s.enc as usize == quoted as fn(&str) -> String as usize && text.contains('\\'))
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let all = std::sync::Arc::new(slots());
    let strs = std::sync::Arc::new(strings(t));
    let mut v = vec![];
    {
        let (all, strs) = (all.clone(), strs.clone());
        let full = t != Tier::Quick;
        v.push(
            Phase::new("strings", "every slot x every host part x both output routes x every string (strings of two characters: in the first host, on one route)", move |ch, l| {
                let s = &all[ch.choose(all.len())];
                let hosts: &[&str] = if matches!(s.make, Make::Para(_)) { HOSTS } else { &["document"] };
                let host = hosts[ch.choose(hosts.len())];
                let route = ch.choose(2);
                let two = full || (route == 0 && host == hosts[0]);
                l.label = format!("{} in {host}, route {route}", s.name);
                let key = s.name.replace(' ', "-");
                let base = match pack(route, s, host, MARK).and_then(|b| parts(&b)) {
                    Ok(p) => p,
                    Err(e) => return l.fail(&format!("refused/{key}"), format!("{} with plain text in {host}: {e}", s.name)),
                };
                let mut seen = 0;
                for (_, e) in &base {
                    compare(e, e, MARK, true, &mut seen);
                }
                if seen == 0 {
                    return l.fail(&format!("not-carried/{key}@{host}"), format!("{} in {host}: no part carries the text", s.name));
                }
                l.outcome = format!("{seen} carriers");
                for text in strs.iter() {
                    if fits(s, text) && (two || text.chars().count() != 2) {
                        judge(l, s, host, &base, route, text);
                        l.cases.push(hash64(format!("{}/{host}/{route}/{text}", s.name).as_bytes()));
                    }
                }
            })
            .limit(60),
        );
    }
    {
        // two slots filled at once through two paragraphs of one document
        let strs: Vec<&'static str> = vec!["&amp;", "<w:t>", "\"'", " a ", "]]>", "\u{1}&"];
        v.push(
            Phase::new("pairs", "every ordered pair of paragraph-level slots in one document x pairs of hostile strings", move |ch, l| {
                let idx: Vec<usize> = (0..all.len()).filter(|i| matches!(all[*i].make, Make::Para(_))).collect();
                let a = &all[idx[ch.choose(idx.len())]];
                let b = &all[idx[ch.choose(idx.len())]];
                l.label = format!("{} then {}", a.name, b.name);
                let build = |x: &str, y: &str| -> Result<Vec<u8>, String> {
                    guarded(|| {
                        let (Make::Para(f), Make::Para(g)) = (&a.make, &b.make) else { unreachable!() };
                        pack_stream(Docx::new().add_paragraph(f(x)).add_paragraph(g(y)))
                    })?
                };
                let base = match build(MARK, MARK).and_then(|b| parts(&b)) {
                    Ok(p) => p,
                    Err(e) => return l.fail("refused/pair", e),
                };
                for s in &strs {
                    l.evals += 1;
                    l.transitions += 1;
                    l.cases.push(hash64(format!("{}/{}/{s}", a.name, b.name).as_bytes()));
                    match build(s, s).and_then(|b| parts(&b)) {
                        Err(e) => l.fail(&format!("ill-formed/{}", a.name.replace(' ', "-")), format!("{} and {} = {s:?}: {e}", a.name, b.name)),
                        Ok(got) => {
                            let exact = s.chars().all(xml::legal_char);
                            for ((n, m), (_, e)) in base.iter().zip(&got) {
                                if let Some(d) = compare(m, e, s, exact, &mut 0) {
                                    l.fail(&format!("changed/{}", a.name.replace(' ', "-")), format!("{} and {} = {s:?}: {n}: {}", a.name, b.name, clip(&d)));
                                }
                            }
                            l.validated += 1;
                        }
                    }
                }
            }),
        );
    }
    v
}
