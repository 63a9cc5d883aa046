//! Abstract documents: a small AST over the builder's containers and leaves, its translation into builder
//! calls, and its rendering as a neutral tree that can also be extracted from a package or a read model.

use crate::opc::Package;
use crate::xml::{El, Node};
use docx_rs::*;

/// Neutral tree used for comparisons.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct N {
    pub tag: String,
    pub kids: Vec<N>,
}

impl N {
    pub fn leaf(t: impl Into<String>) -> N {
        N { tag: t.into(), kids: vec![] }
    }
    pub fn new(t: impl Into<String>, kids: Vec<N>) -> N {
        N { tag: t.into(), kids }
    }
    pub fn show(&self) -> String {
        if self.kids.is_empty() {
            return self.tag.clone();
        }
        let k: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        format!("{}({})", self.tag, k.join(" "))
    }
    /// Merges adjacent text, drops empty text, empty runs and reference-only runs.
    pub fn norm(mut self) -> N {
        let mut out: Vec<N> = Vec::new();
        for k in std::mem::take(&mut self.kids) {
            let k = k.norm();
            if k.tag == "t:" || k.tag == "dt:" || (k.tag == "r" && k.kids.is_empty()) || k.tag == "-" {
                continue;
            }
            if let Some(last) = out.last_mut() {
                for p in ["t:", "dt:", "instr:"] {
                    if last.tag.starts_with(p) && k.tag.starts_with(p) {
                        last.tag.push_str(&k.tag[p.len()..]);
                    }
                }
                if (k.tag.starts_with("t:") && last.tag.starts_with("t:"))
                    || (k.tag.starts_with("dt:") && last.tag.starts_with("dt:"))
                    || (k.tag.starts_with("instr:") && last.tag.starts_with("instr:"))
                {
                    continue;
                }
            }
            out.push(k);
        }
        // a cell has to end with a paragraph: an empty one behind other content is padding
        if self.tag == "tc" && out.last().is_some_and(|k| k.tag == "p" && k.kids.is_empty()) {
            let n = out.len();
            if n == 1 || out[n - 2].tag != "p" {
                out.pop();
            }
        }
        self.kids = out;
        self
    }
}

pub const SLOTS: [&str; 6] = ["hdr:default", "hdr:first", "hdr:even", "ftr:default", "ftr:first", "ftr:even"];

/// Normalises a sequence of blocks.
pub fn norm_all(v: Vec<N>) -> Vec<N> {
    N::new("", v).norm().kids
}

pub fn doc_show(ns: &[N]) -> String {
    ns.iter().map(|n| n.show()).collect::<Vec<_>>().join(" ")
}

/// The first place where two trees differ, as a short path plus the two subtrees.
pub fn diff(a: &[N], b: &[N], path: &str) -> Option<(String, String)> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => {
                if x == y {
                    continue;
                }
                let xt = x.tag.split(':').next().unwrap().to_string();
                if x.tag != y.tag {
                    return Some((
                        format!("{path}/{}", xt),
                        format!("at {path}[{i}]: expected {} but found {}", clip(&x.show()), clip(&y.show())),
                    ));
                }
                return diff(&x.kids, &y.kids, &format!("{path}/{xt}"));
            }
            (Some(x), None) => {
                let xt = x.tag.split(':').next().unwrap();
                return Some((format!("{path}/{xt}-lost"), format!("at {path}[{i}]: {} is missing", clip(&x.show()))));
            }
            (None, Some(y)) => {
                let yt = y.tag.split(':').next().unwrap();
                return Some((format!("{path}/{yt}-extra"), format!("at {path}[{i}]: unexpected {}", clip(&y.show()))));
            }
            (None, None) => {}
        }
    }
    None
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 160 {
        format!("{}...", s.chars().take(160).collect::<String>())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------------------------------------- AST

#[derive(Clone, Debug)]
pub struct Pa {
    pub id: Option<String>,
    pub num: Option<(usize, usize)>,
    pub style: Option<String>,
    pub kids: Vec<I>,
}

#[derive(Clone, Debug)]
pub struct Cm {
    pub id: usize,
    pub author: String,
    pub date: String,
    pub parent: Option<usize>,
    pub kids: Vec<B>,
}

#[derive(Clone, Debug, Default)]
pub struct Toc {
    pub before: Vec<B>,
    pub after: Vec<B>,
    pub items: Vec<(String, usize)>,
    pub auto: bool,
    pub no_sdt: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Sec {
    pub kids: Vec<B>,
    /// default, first, even
    pub headers: [Option<Vec<B>>; 3],
    pub footers: [Option<Vec<B>>; 3],
}

#[derive(Clone, Debug)]
pub enum B {
    P(Pa),
    T(Vec<Vec<Vec<B>>>),
    S(Vec<B>),
    /// run directly inside a block content control
    R(Vec<K>),
    Toc(Toc),
    Sec(Sec),
    Bs(usize, String),
    Be(usize),
    Cs(Cm),
    Ce(usize),
}

#[derive(Clone, Debug)]
pub enum I {
    R(Vec<K>),
    Ext(String, Vec<I>),
    Anc(String, Vec<I>),
    Ins(Vec<I>),
    Del(Vec<I>),
    MvF(Vec<I>),
    MvT(Vec<I>),
    Sdt(Vec<I>),
    Bs(usize, String),
    Be(usize),
    Cs(Cm),
    Ce(usize),
    PageNum,
    NumPages,
    /// not content: the formatting of the paragraph
    Props(Box<ParagraphProperty>),
}

#[derive(Clone, Debug)]
pub enum K {
    T(String),
    Dt(String),
    Tab,
    PTab(PositionalTabAlignmentType, PositionalTabRelativeTo, TabLeaderType),
    Br(BreakType),
    Cr,
    Sym(String, String),
    Fld(FieldCharType),
    /// a field mark whose field has to be worked out anew
    DirtyFld(FieldCharType),
    Page,
    NumPages,
    Tc(String),
    /// a field instruction and the text it stands for
    Instr(InstrText, String),
    DelToc,
    /// bytes, floating
    Pic(Vec<u8>, bool),
    /// a picture with its settings
    Placed(Box<Pic>),
    /// footnote with these paragraphs
    Fnote(Vec<Vec<I>>),
    /// footnote whose paragraphs are described in full
    FnoteP(Vec<Pa>),
    /// not content: the formatting of the run
    Props(Box<RunProperty>),
}

pub const AUTHOR: &str = "Auth";
pub const DATE: &str = "2019-01-02T03:04:05Z";

pub fn para(kids: Vec<I>) -> B {
    B::P(Pa { id: None, num: None, style: None, kids })
}
pub fn ptext(t: &str) -> B {
    para(vec![rtext(t)])
}
pub fn rtext(t: &str) -> I {
    I::R(vec![K::T(t.to_string())])
}
pub fn comment(id: usize, text: &str) -> Cm {
    Cm { id, author: format!("A{id}"), date: DATE.into(), parent: None, kids: vec![ptext(text)] }
}

// ------------------------------------------------------------------------------- AST -> builder calls

pub fn run(kids: &[K]) -> Run {
    let mut r = Run::new();
    for k in kids {
        r = match k {
            K::T(s) => r.add_text(s),
            K::Dt(s) => r.add_delete_text(s),
            K::Tab => r.add_tab(),
            K::PTab(a, t, l) => r.add_ptab(PositionalTab::new(*a, *t, *l)),
            K::Br(t) => r.add_break(*t),
            K::Cr => r.add_carriage_return(),
            K::Sym(f, c) => r.add_sym(Sym::new(f, c)),
            K::Fld(t) => r.add_field_char(t.clone(), false),
            K::DirtyFld(t) => r.add_field_char(t.clone(), true),
            K::Instr(i, _) => r.add_instr_text(i.clone()),
            K::Page => r.add_instr_text(InstrText::PAGE(InstrPAGE::new())),
            K::NumPages => r.add_instr_text(InstrText::NUMPAGES(InstrNUMPAGES::new())),
            K::Tc(t) => r.add_instr_text(InstrText::TC(InstrTC::new(t))),
            K::DelToc => r.add_delete_instr_text(DeleteInstrText::TOC(InstrToC::new().heading_styles_range(1, 3))),
            K::Pic(b, fl) => {
                let mut p = Pic::new_with_dimensions(b.clone(), 10, 10);
                if *fl {
                    p = p.floating();
                }
                r.add_image(p)
            }
            K::Placed(p) => r.add_image((**p).clone()),
            K::Fnote(ps) => {
                let mut f = Footnote::new();
                for p in ps {
                    f.add_content(paragraph(&Pa { id: None, num: None, style: None, kids: p.clone() }));
                }
                r.add_footnote_reference(f)
            }
            K::Props(p) => {
                r.run_property = (**p).clone();
                r
            }
            K::FnoteP(ps) => {
                let mut f = Footnote::new();
                for p in ps {
                    f.add_content(paragraph(p));
                }
                r.add_footnote_reference(f)
            }
        };
    }
    r
}

pub fn cmt(c: &Cm) -> Comment {
    let mut o = Comment::new(c.id).author(&c.author).date(&c.date);
    if let Some(p) = c.parent {
        o = o.parent_comment_id(p);
    }
    for k in &c.kids {
        o = match k {
            B::P(p) => o.add_paragraph(paragraph(p)),
            B::T(t) => o.add_table(table(t)),
            _ => panic!("comment child"),
        };
    }
    o
}

fn ins(kids: &[I]) -> Insert {
    let mut o = Insert::new_with_empty().author(AUTHOR).date(DATE);
    for (i, k) in kids.iter().enumerate() {
        // the general form of every second child
        o = match k {
            I::R(r) if i % 2 == 1 => o.add_child(InsertChild::Run(Box::new(run(r)))),
            I::Del(d) if i % 2 == 1 => o.add_child(InsertChild::Delete(del(d))),
            I::R(r) => o.add_run(run(r)),
            I::Del(d) => o.add_delete(del(d)),
            I::Cs(c) => o.add_comment_start(cmt(c)),
            I::Ce(id) => o.add_comment_end(*id),
            _ => panic!("insert child"),
        }
    }
    o
}
fn del(kids: &[I]) -> Delete {
    let mut o = Delete::new().author(AUTHOR).date(DATE);
    for k in kids {
        o = match k {
            I::R(r) => o.add_run(run(r)),
            I::Cs(c) => o.add_comment_start(cmt(c)),
            I::Ce(id) => o.add_comment_end(*id),
            _ => panic!("delete child"),
        }
    }
    o
}
fn mvf(kids: &[I]) -> MoveFrom {
    let mut o = MoveFrom::new().author(AUTHOR).date(DATE);
    for k in kids {
        o = match k {
            I::R(r) => o.add_run(run(r)),
            I::Cs(c) => o.add_comment_start(cmt(c)),
            I::Ce(id) => o.add_comment_end(*id),
            _ => panic!("movefrom child"),
        }
    }
    o
}
fn mvt(kids: &[I]) -> MoveTo {
    let mut o = MoveTo::new_with_empty().author(AUTHOR).date(DATE);
    for (i, k) in kids.iter().enumerate() {
        // the general form of every second child
        o = match k {
            I::R(r) if i % 2 == 1 => o.add_child(MoveToChild::Run(Box::new(run(r)))),
            I::Del(d) if i % 2 == 1 => o.add_child(MoveToChild::Delete(del(d))),
            I::R(r) => o.add_run(run(r)),
            I::Del(d) => o.add_delete(del(d)),
            I::Cs(c) => o.add_comment_start(cmt(c)),
            I::Ce(id) => o.add_comment_end(*id),
            _ => panic!("moveto child"),
        }
    }
    o
}
fn isdt(kids: &[I]) -> StructuredDataTag {
    let mut o = StructuredDataTag::new();
    for k in kids {
        o = match k {
            I::R(r) => o.add_run(run(r)),
            _ => panic!("sdt child"),
        }
    }
    o
}
fn link(mut o: Hyperlink, kids: &[I]) -> Hyperlink {
    for k in kids {
        o = match k {
            I::R(r) => o.add_run(run(r)),
            I::Ins(x) => o.add_insert(ins(x)),
            I::Del(x) => o.add_delete(del(x)),
            I::Sdt(x) => o.add_structured_data_tag(isdt(x)),
            I::Bs(i, n) => o.add_bookmark_start(*i, n),
            I::Be(i) => o.add_bookmark_end(*i),
            I::Cs(c) => o.add_comment_start(cmt(c)),
            I::Ce(i) => o.add_comment_end(*i),
            _ => panic!("link child"),
        }
    }
    o
}

pub fn paragraph(p: &Pa) -> Paragraph {
    let mut o = Paragraph::new();
    if let Some(id) = &p.id {
        o = o.id(id);
    }
    if let Some((n, l)) = p.num {
        o = o.numbering(NumberingId::new(n), IndentLevel::new(l));
    }
    if let Some(s) = &p.style {
        o = o.style(s);
    }
    for k in &p.kids {
        o = match k {
            I::R(r) => o.add_run(run(r)),
            I::Ext(u, x) => o.add_hyperlink(link(Hyperlink::new(u, HyperlinkType::External), x)),
            I::Anc(u, x) => o.add_hyperlink(link(Hyperlink::new(u, HyperlinkType::Anchor), x)),
            I::Ins(x) => o.add_insert(ins(x)),
            I::Del(x) => o.add_delete(del(x)),
            I::MvF(x) => o.add_move_from(mvf(x)),
            I::MvT(x) => o.add_move_to(mvt(x)),
            I::Sdt(x) => o.add_structured_data_tag(isdt(x)),
            I::Bs(i, n) => o.add_bookmark_start(*i, n),
            I::Be(i) => o.add_bookmark_end(*i),
            I::Cs(c) => o.add_comment_start(cmt(c)),
            I::Ce(i) => o.add_comment_end(*i),
            I::PageNum => o.add_page_num(PageNum::new()),
            I::NumPages => o.add_num_pages(NumPages::new()),
            I::Props(p) => {
                o.property = (**p).clone();
                o
            }
        }
    }
    o
}

pub fn cell(bs: &[B]) -> TableCell {
    let mut o = TableCell::new();
    for b in bs {
        o = match b {
            B::P(p) => o.add_paragraph(paragraph(p)),
            B::T(t) => o.add_table(table(t)),
            B::S(s) => o.add_structured_data_tag(sdt(s)),
            B::Toc(t) => o.add_table_of_contents(toc(t)),
            _ => panic!("cell child"),
        }
    }
    o
}
pub fn table(rows: &[Vec<Vec<B>>]) -> Table {
    Table::new(rows.iter().map(|r| TableRow::new(r.iter().map(|c| cell(c)).collect())).collect())
}
pub fn sdt(bs: &[B]) -> StructuredDataTag {
    let mut o = StructuredDataTag::new();
    for b in bs {
        o = match b {
            B::P(p) => o.add_paragraph(paragraph(p)),
            B::T(t) => o.add_table(table(t)),
            B::R(k) => o.add_run(run(k)),
            B::S(s) => {
                o.children.push(StructuredDataTagChild::StructuredDataTag(Box::new(sdt(s))));
                o
            }
            _ => panic!("sdt child"),
        }
    }
    o
}
pub fn toc(t: &Toc) -> TableOfContents {
    let mut o = TableOfContents::new().heading_styles_range(1, 3);
    if t.auto {
        o = o.auto();
    }
    if t.no_sdt {
        o = o.without_sdt();
    }
    for (text, level) in &t.items {
        o = o.add_item(TableOfContentsItem::new().text(text).level(*level).toc_key("_TocX"));
    }
    for b in &t.before {
        o = match b {
            B::P(p) => o.add_before_paragraph(paragraph(p)),
            B::T(t) => o.add_before_table(table(t)),
            _ => panic!("toc child"),
        }
    }
    for b in &t.after {
        o = match b {
            B::P(p) => o.add_after_paragraph(paragraph(p)),
            B::T(t) => o.add_after_table(table(t)),
            _ => panic!("toc child"),
        }
    }
    o
}
pub fn header(bs: &[B]) -> Header {
    let mut o = Header::new();
    for b in bs {
        o = match b {
            B::P(p) => o.add_paragraph(paragraph(p)),
            B::T(t) => o.add_table(table(t)),
            _ => panic!("header child"),
        }
    }
    o
}
pub fn footer(bs: &[B]) -> Footer {
    let mut o = Footer::new();
    for b in bs {
        o = match b {
            B::P(p) => o.add_paragraph(paragraph(p)),
            B::T(t) => o.add_table(table(t)),
            _ => panic!("footer child"),
        }
    }
    o
}
pub fn section(s: &Sec) -> Section {
    let mut o = Section::new();
    for b in &s.kids {
        o = match b {
            B::P(p) => o.add_paragraph(paragraph(p)),
            B::T(t) => o.add_table(table(t)),
            B::Bs(i, n) => o.add_bookmark_start(*i, n),
            B::Be(i) => o.add_bookmark_end(*i),
            B::Cs(c) => o.add_comment_start(cmt(c)),
            B::Ce(i) => o.add_comment_end(*i),
            _ => panic!("section child"),
        }
    }
    if let Some(h) = &s.headers[0] {
        o = o.header(header(h));
    }
    if let Some(h) = &s.headers[1] {
        o = o.first_header(header(h));
    }
    if let Some(h) = &s.headers[2] {
        o = o.even_header(header(h));
    }
    if let Some(h) = &s.footers[0] {
        o = o.footer(footer(h));
    }
    if let Some(h) = &s.footers[1] {
        o = o.first_footer(footer(h));
    }
    if let Some(h) = &s.footers[2] {
        o = o.even_footer(footer(h));
    }
    o
}
/// Adds a block at the end of the document body.
pub fn add_block(d: Docx, b: &B) -> Docx {
    match b {
        B::P(p) => d.add_paragraph(paragraph(p)),
        B::T(t) => d.add_table(table(t)),
        B::S(s) => d.add_structured_data_tag(sdt(s)),
        B::Toc(t) => d.add_table_of_contents(toc(t)),
        B::Sec(s) => d.add_section(section(s)),
        B::Bs(i, n) => d.add_bookmark_start(*i, n),
        B::Be(i) => d.add_bookmark_end(*i),
        B::Cs(_) | B::Ce(_) | B::R(_) => panic!("not offered by the document builder"),
    }
}

pub fn set_header(d: Docx, slot: usize, bs: &[B]) -> Docx {
    match slot {
        0 => d.header(header(bs)),
        1 => d.first_header(header(bs)),
        2 => d.even_header(header(bs)),
        3 => d.footer(footer(bs)),
        4 => d.first_footer(footer(bs)),
        _ => d.even_footer(footer(bs)),
    }
}

/// A whole document: body blocks plus document-level headers/footers in call order.
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub body: Vec<B>,
    /// (slot 0..6, content): default, first, even header, then footers
    pub hf: Vec<(usize, Vec<B>)>,
}

impl Doc {
    pub fn merge(mut self, o: Doc) -> Doc {
        self.body.extend(o.body);
        self.hf.extend(o.hf);
        self
    }
    pub fn to_docx(&self) -> Docx {
        let mut d = Docx::new();
        for (s, b) in &self.hf {
            d = set_header(d, *s, b);
        }
        for b in &self.body {
            d = add_block(d, b);
        }
        d
    }
}

pub fn pack_build(d: Docx) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(Vec::new());
    d.build().pack(&mut c).map_err(|e| format!("{e:?}"))?;
    Ok(c.into_inner())
}
pub fn pack_stream(d: Docx) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(Vec::new());
    d.pack(&mut c).map_err(|e| format!("{e:?}"))?;
    Ok(c.into_inner())
}

// ------------------------------------------------------------------------------------ AST -> neutral

fn esc(s: &str) -> String {
    s.to_string()
}

pub fn nrun(kids: &[K]) -> N {
    let mut v = Vec::new();
    for k in kids {
        v.push(match k {
            K::T(s) => N::leaf(format!("t:{}", esc(s))),
            K::Dt(s) => N::leaf(format!("dt:{}", esc(s))),
            K::Tab => N::leaf("tab"),
            K::PTab(a, t, l) => N::leaf(format!("ptab:{}|{}|{}", a, t, l)),
            K::Br(t) => N::leaf(format!("br:{}", br_name(t))),
            K::Cr => N::leaf("cr"),
            K::Sym(f, c) => N::leaf(format!("sym:{f}|{c}")),
            K::Fld(t) => N::leaf(format!("fld:{}", fld_name(t))),
            K::DirtyFld(t) => N::leaf(format!("fld:{}|dirty", fld_name(t))),
            K::Instr(_, s) => N::leaf(format!("instr:{s}")),
            K::Page => N::leaf("instr:PAGE"),
            K::NumPages => N::leaf("instr:NUMPAGES"),
            K::Tc(t) => N::leaf(format!("instr:TC \"{t}\"")),
            K::DelToc => N::leaf("dinstr:TOC \\o \"1-3\""),
            K::Pic(b, _) => N::leaf(format!("pic:{}", short(b))),
            K::Placed(p) => N::leaf(format!("pic:{}", short(&p.image))),
            K::Props(_) => continue,
            K::FnoteP(ps) => N::new("fn", ps.iter().map(|p| N::new("p", ninl(&p.kids))).collect()),
            K::Fnote(ps) => N::new("fn", ps.iter().map(|p| N::new("p", ninl(p))).collect()),
        });
    }
    N::new("r", v)
}

pub fn short(b: &[u8]) -> String {
    format!("{}b-{:08x}", b.len(), crate::explore::hash64(b) as u32)
}

pub fn br_name(t: &BreakType) -> &'static str {
    match t {
        BreakType::Page => "page",
        BreakType::Column => "column",
        BreakType::TextWrapping => "textWrapping",
        _ => "unsupported",
    }
}
pub fn fld_name(t: &FieldCharType) -> &'static str {
    match t {
        FieldCharType::Begin => "begin",
        FieldCharType::Separate => "separate",
        FieldCharType::End => "end",
        _ => "unsupported",
    }
}

fn ncm(c: &Cm) -> N {
    N::new(format!("cs:{}|{}|{}", c.id, c.author, c.date), c.kids.iter().flat_map(nblock).collect())
}

pub fn ninl(kids: &[I]) -> Vec<N> {
    kids.iter()
        .filter(|k| !matches!(k, I::Props(_)))
        .map(|k| match k {
            I::Props(_) => unreachable!(),
            I::R(r) => nrun(r),
            I::Ext(u, x) => N::new(format!("link:{u}"), ninl(x)),
            I::Anc(u, x) => N::new(format!("link:#{u}"), ninl(x)),
            I::Ins(x) => N::new(format!("ins:{AUTHOR}|{DATE}"), ninl(x)),
            I::Del(x) => N::new(format!("del:{AUTHOR}|{DATE}"), ninl(x)),
            I::MvF(x) => N::new(format!("moveFrom:{AUTHOR}|{DATE}"), ninl(x)),
            I::MvT(x) => N::new(format!("moveTo:{AUTHOR}|{DATE}"), ninl(x)),
            I::Sdt(x) => N::new("sdt", ninl(x)),
            I::Bs(i, n) => N::leaf(format!("bs:{i}|{n}")),
            I::Be(i) => N::leaf(format!("be:{i}")),
            I::Cs(c) => ncm(c),
            I::Ce(i) => N::leaf(format!("ce:{i}")),
            I::PageNum => N::new(
                "r",
                vec![
                    N::leaf("fld:begin"),
                    N::leaf("instr:PAGE"),
                    N::leaf("fld:separate"),
                    N::leaf("t:1"),
                    N::leaf("fld:end"),
                ],
            ),
            I::NumPages => N::new(
                "r",
                vec![
                    N::leaf("fld:begin"),
                    N::leaf("instr:NUMPAGES"),
                    N::leaf("fld:separate"),
                    N::leaf("t:1"),
                    N::leaf("fld:end"),
                ],
            ),
        })
        .collect()
}

fn nsect<'a>(hf: impl Iterator<Item = Option<&'a [B]>>) -> N {
    let kids = hf.zip(SLOTS).filter_map(|(c, s)| Some(N::new(s, c?.iter().flat_map(nblock).collect())));
    N::new("sect", kids.collect())
}

impl Doc {
    /// What a faithful package or model of this document shows.
    pub fn neutral(&self) -> Vec<N> {
        let mut v: Vec<N> = self.body.iter().flat_map(nblock).collect();
        let last = |slot| self.hf.iter().rev().find(|(s, _)| *s == slot).map(|(_, b)| b.as_slice());
        v.push(nsect((0..6).map(last)));
        norm_all(v)
    }
}

pub fn nblock(b: &B) -> Vec<N> {
    match b {
        B::P(p) => vec![N::new("p", ninl(&p.kids))],
        B::T(rows) => vec![N::new(
            "tbl",
            rows.iter()
                .map(|r| N::new("tr", r.iter().map(|c| N::new("tc", c.iter().flat_map(nblock).collect())).collect()))
                .collect(),
        )],
        B::S(k) => vec![N::new("sdt", k.iter().flat_map(nblock).collect())],
        B::R(k) => vec![nrun(k)],
        B::Bs(i, n) => vec![N::leaf(format!("bs:{i}|{n}"))],
        B::Be(i) => vec![N::leaf(format!("be:{i}"))],
        B::Cs(c) => vec![ncm(c)],
        B::Ce(i) => vec![N::leaf(format!("ce:{i}"))],
        B::Sec(s) => {
            let mut v: Vec<N> = s.kids.iter().flat_map(nblock).collect();
            let hf = s.headers.iter().chain(s.footers.iter()).map(|x| x.as_deref());
            v.push(N::new("p", vec![nsect(hf)]));
            v
        }
        B::Toc(_) => panic!("table of contents has no neutral form here"),
    }
}

// --------------------------------------------------------------------------------- package -> neutral

pub struct XCtx<'a> {
    pub pkg: &'a Package,
    pub part: &'a str,
}

impl XCtx<'_> {
    fn comment(&self, id: &str) -> N {
        let Some(c) = self.pkg.comments().and_then(|r| r.els().find(|e| e.attr("w:id") == Some(id))) else {
            return N::leaf(format!("cs:{id}|<no such comment>"));
        };
        let cp = self.pkg.comments_part().unwrap_or_default();
        let x = XCtx { pkg: self.pkg, part: &cp };
        let who = format!("{}|{}", c.attr("w:author").unwrap_or("<none>"), c.attr("w:date").unwrap_or("<none>"));
        N::new(format!("cs:{id}|{who}"), x.blocks(c))
    }
    fn footnote(&self, id: &str) -> N {
        let Some(c) = self.pkg.footnotes().and_then(|r| r.els().find(|e| e.attr("w:id") == Some(id))) else {
            return N::leaf("fn-undefined");
        };
        let fp = self.pkg.footnotes_part().unwrap_or_default();
        // the note's own mark (footnoteRef) is not part of its content
        N::new("fn", XCtx { pkg: self.pkg, part: &fp }.blocks(c))
    }
    pub fn runkids(&self, r: &El) -> Vec<N> {
        let mut v = Vec::new();
        for e in r.els() {
            let q = e.q();
            v.push(match q.as_str() {
                "w:rPr" => continue,
                "w:t" => N::leaf(format!("t:{}", e.own_text())),
                "w:delText" => N::leaf(format!("dt:{}", e.own_text())),
                "w:tab" => N::leaf("tab"),
                "w:cr" => N::leaf("cr"),
                "w:br" => N::leaf(format!("br:{}", e.attr("w:type").unwrap_or("textWrapping"))),
                "w:ptab" => N::leaf(format!(
                    "ptab:{}|{}|{}",
                    e.attr("w:alignment").unwrap_or("?"),
                    e.attr("w:relativeTo").unwrap_or("?"),
                    e.attr("w:leader").unwrap_or("?")
                )),
                "w:sym" => N::leaf(format!("sym:{}|{}", e.attr("w:font").unwrap_or("?"), e.attr("w:char").unwrap_or("?"))),
                "w:fldChar" => N::leaf(format!(
                    "fld:{}{}",
                    e.attr("w:fldCharType").unwrap_or("?"),
                    match e.attr("w:dirty") {
                        None | Some("0" | "false" | "off") => "",
                        _ => "|dirty",
                    }
                )),
                "w:instrText" => N::leaf(format!("instr:{}", e.own_text().trim())),
                "w:delInstrText" => N::leaf(format!("dinstr:{}", e.own_text().trim())),
                "w:footnoteReference" => self.footnote(e.attr("w:id").unwrap_or("?")),
                "w:commentReference" | "w:footnoteRef" => N::leaf("-"),
                "w:drawing" => {
                    let mut rid = None;
                    e.walk(&mut |x| {
                        if x.local == "blip" {
                            rid = x.attr("r:embed").map(|s| s.to_string());
                        }
                    });
                    match rid {
                        Some(r) => match self.pkg.resolve(self.part, &r) {
                            Some(d) => N::leaf(format!("pic:{}", short(&d))),
                            None => N::leaf("pic:<unresolved>"),
                        },
                        None => N::leaf("drawing"),
                    }
                }
                _ => N::leaf(format!("?{q}")),
            });
        }
        v
    }
    /// A section with the contents of the headers and footers it refers to.
    pub fn sect(&self, e: &El) -> N {
        let mut kids = Vec::new();
        for s in SLOTS {
            let (el, ty) = match s.split_once(':') {
                Some(("hdr", t)) => ("w:headerReference", t),
                Some((_, t)) => ("w:footerReference", t),
                None => continue,
            };
            for r in e.children(el) {
                if r.attr("w:type").unwrap_or("default") != ty {
                    continue;
                }
                let part = r.attr("r:id").and_then(|id| self.pkg.rel_part(self.part, id));
                kids.push(match part {
                    Some(p) => match self.pkg.xml(&p) {
                        Some(root) => N::new(s, XCtx { pkg: self.pkg, part: &p }.blocks(root)),
                        None => N::new(s, vec![N::leaf("<no part>")]),
                    },
                    None => N::new(s, vec![N::leaf("<no relationship>")]),
                });
            }
        }
        N::new("sect", kids)
    }
    fn who(e: &El) -> String {
        format!("{}|{}", e.attr("w:author").unwrap_or("<none>"), e.attr("w:date").unwrap_or("<none>"))
    }
    pub fn inline(&self, p: &El) -> Vec<N> {
        let mut v = Vec::new();
        for e in p.els() {
            let q = e.q();
            v.push(match q.as_str() {
                "w:pPr" => {
                    if let Some(s) = e.child("w:sectPr") {
                        v.push(self.sect(s));
                    }
                    continue;
                }
                "w:r" => N::new("r", self.runkids(e)),
                "w:hyperlink" => {
                    let t = match (e.attr("r:id"), e.attr("w:anchor")) {
                        (Some(r), _) => self.pkg.rel_target(self.part, r).unwrap_or("<unresolved>".into()),
                        (None, Some(a)) => format!("#{a}"),
                        _ => "<no target>".into(),
                    };
                    N::new(format!("link:{t}"), self.inline(e))
                }
                "w:ins" => N::new(format!("ins:{}", Self::who(e)), self.inline(e)),
                "w:del" => N::new(format!("del:{}", Self::who(e)), self.inline(e)),
                "w:moveFrom" => N::new(format!("moveFrom:{}", Self::who(e)), self.inline(e)),
                "w:moveTo" => N::new(format!("moveTo:{}", Self::who(e)), self.inline(e)),
                "w:sdt" => N::new("sdt", e.child("w:sdtContent").map(|c| self.inline(c)).unwrap_or_default()),
                _ => match self.mark(e) {
                    Some(n) => n,
                    None => N::leaf(format!("?{q}")),
                },
            });
        }
        v
    }
    fn mark(&self, e: &El) -> Option<N> {
        let id = e.attr("w:id").unwrap_or("?");
        Some(match e.q().as_str() {
            "w:bookmarkStart" => N::leaf(format!("bs:{id}|{}", e.attr("w:name").unwrap_or("?"))),
            "w:bookmarkEnd" => N::leaf(format!("be:{id}")),
            "w:commentRangeStart" => self.comment(id),
            "w:commentRangeEnd" => N::leaf(format!("ce:{id}")),
            _ => return None,
        })
    }
    pub fn blocks(&self, b: &El) -> Vec<N> {
        let mut v = Vec::new();
        for k in &b.kids {
            let Node::El(e) = k else { continue };
            let q = e.q();
            v.push(match q.as_str() {
                "w:p" => N::new("p", self.inline(e)),
                "w:r" => N::new("r", self.runkids(e)),
                "w:tbl" => N::new(
                    "tbl",
                    e.children("w:tr")
                        .iter()
                        .map(|r| N::new("tr", r.children("w:tc").iter().map(|c| N::new("tc", self.blocks(c))).collect()))
                        .collect(),
                ),
                "w:sdt" => N::new("sdt", e.child("w:sdtContent").map(|c| self.blocks(c)).unwrap_or_default()),
                "w:sectPr" | "w:tcPr" => continue,
                _ => match self.mark(e) {
                    Some(n) => n,
                    None => N::leaf(format!("?{q}")),
                },
            });
        }
        v
    }
}

/// Neutral form of the document body of a package.
pub fn from_package(pkg: &Package) -> Vec<N> {
    let Some((part, root)) = pkg.document() else { return vec![N::leaf("<no document part>")] };
    let x = XCtx { pkg, part: &part };
    let Some(body) = root.child("w:body") else { return vec![N::leaf("<no body>")] };
    let mut v = x.blocks(body);
    v.push(body.child("w:sectPr").map(|s| x.sect(s)).unwrap_or(N::leaf("<no section>")));
    norm_all(v)
}

/// Neutral form of the content of any block-level part (header, footer).
pub fn from_part(pkg: &Package, part: &str) -> Vec<N> {
    match pkg.xml(part) {
        Some(root) => norm_all(XCtx { pkg, part }.blocks(root)),
        None => vec![N::leaf("<no part>")],
    }
}

// ------------------------------------------------------------------------------------ model -> neutral

/// Neutral form of a document returned by the reader.
pub struct MCtx<'a> {
    pub d: &'a Docx,
    /// the pictures met, in order
    pub pics: std::cell::RefCell<Vec<Pic>>,
}

impl MCtx<'_> {
    fn cm(&self, c: &Comment) -> N {
        let body = c.children.iter().map(|k| match k {
            CommentChild::Paragraph(p) => self.para(p),
            CommentChild::Table(t) => self.table(t),
        });
        N::new(format!("cs:{}|{}|{}", c.id, c.author, c.date), body.collect())
    }
    pub fn run(&self, r: &Run) -> N {
        let mut v = Vec::new();
        for k in &r.children {
            v.push(match k {
                RunChild::Text(t) => N::leaf(format!("t:{}", t.text)),
                RunChild::DeleteText(t) => N::leaf(format!(
                    "dt:{}",
                    serde_json::to_value(t).ok().and_then(|v| v["text"].as_str().map(|s| s.to_string())).unwrap_or_default()
                )),
                RunChild::Sym(s) => N::leaf(format!("sym:{}|{}", s.font, s.char)),
                RunChild::Tab(_) => N::leaf("tab"),
                RunChild::PTab(p) => N::leaf(format!("ptab:{}|{}|{}", p.alignment, p.relative_to, p.leader)),
                RunChild::Break(b) => {
                    let j = serde_json::to_value(b).unwrap_or_default();
                    N::leaf(format!("br:{}", j["breakType"].as_str().unwrap_or("?")))
                }
                RunChild::CarriageReturn(_) => N::leaf("cr"),
                RunChild::Drawing(d) => match &d.data {
                    Some(DrawingData::Pic(p)) => {
                        self.pics.borrow_mut().push(p.clone());
                        let img = self.d.images.iter().find(|i| i.0 == p.id);
                        match img {
                            Some(i) => N::leaf(format!("pic:{}", short(&i.2 .0))),
                            None => N::leaf("pic:<unresolved>"),
                        }
                    }
                    Some(DrawingData::TextBox(_)) => N::leaf("textbox"),
                    None => N::leaf("drawing"),
                },
                RunChild::Shape(_) => N::leaf("shape"),
                RunChild::CommentStart(c) => self.cm(&c.comment),
                RunChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                RunChild::FieldChar(f) => {
                    N::leaf(format!("fld:{}{}", fld_name(&f.field_char_type), if f.dirty { "|dirty" } else { "" }))
                }
                RunChild::InstrText(_) => N::leaf("instr-structured"),
                RunChild::DeleteInstrText(_) => N::leaf("dinstr-structured"),
                RunChild::InstrTextString(s) => N::leaf(format!("instr:{}", s.trim())),
                RunChild::FootnoteReference(f) => N::leaf(format!("fnid:{}", f.id)),
                RunChild::Shading(_) => N::leaf("shading"),
            });
        }
        N::new("r", v)
    }
    fn bs(b: &BookmarkStart) -> N {
        N::leaf(format!("bs:{}|{}", b.id, b.name))
    }
    fn ins(&self, i: &Insert) -> N {
        N::new(
            format!("ins:{}|{}", i.author, i.date),
            i.children
                .iter()
                .map(|k| match k {
                    InsertChild::Run(r) => self.run(r),
                    InsertChild::Delete(d) => self.del(d),
                    InsertChild::CommentStart(c) => self.cm(&c.comment),
                    InsertChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                })
                .collect(),
        )
    }
    fn del(&self, i: &Delete) -> N {
        N::new(
            format!("del:{}|{}", i.author, i.date),
            i.children
                .iter()
                .map(|k| match k {
                    DeleteChild::Run(r) => self.run(r),
                    DeleteChild::CommentStart(c) => self.cm(&c.comment),
                    DeleteChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                })
                .collect(),
        )
    }
    pub fn inl(&self, ks: &[ParagraphChild]) -> Vec<N> {
        ks.iter()
            .map(|k| match k {
                ParagraphChild::Run(r) => self.run(r),
                ParagraphChild::Insert(i) => self.ins(i),
                ParagraphChild::Delete(i) => self.del(i),
                ParagraphChild::MoveFrom(i) => N::new(
                    format!("moveFrom:{}|{}", i.author, i.date),
                    i.children
                        .iter()
                        .map(|k| match k {
                            MoveFromChild::Run(r) => self.run(r),
                            MoveFromChild::CommentStart(c) => self.cm(&c.comment),
                            MoveFromChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                        })
                        .collect(),
                ),
                ParagraphChild::MoveTo(i) => N::new(
                    format!("moveTo:{}|{}", i.author, i.date),
                    i.children
                        .iter()
                        .map(|k| match k {
                            MoveToChild::Run(r) => self.run(r),
                            MoveToChild::Delete(d) => self.del(d),
                            MoveToChild::CommentStart(c) => self.cm(&c.comment),
                            MoveToChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                        })
                        .collect(),
                ),
                ParagraphChild::BookmarkStart(b) => Self::bs(b),
                ParagraphChild::BookmarkEnd(b) => N::leaf(format!("be:{}", b.id)),
                ParagraphChild::Hyperlink(h) => {
                    let t = match &h.link {
                        HyperlinkData::Anchor { anchor } => format!("#{anchor}"),
                        HyperlinkData::External { path, .. } if !path.is_empty() => path.clone(),
                        HyperlinkData::External { rid, .. } => self
                            .d
                            .hyperlinks
                            .iter()
                            .find(|l| &l.0 == rid)
                            .map(|l| l.1.clone())
                            .unwrap_or("<unresolved>".into()),
                    };
                    N::new(format!("link:{t}"), self.inl(&h.children))
                }
                ParagraphChild::CommentStart(c) => self.cm(&c.comment),
                ParagraphChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                ParagraphChild::StructuredDataTag(s) => self.sdt(s),
                ParagraphChild::PageNum(_) => N::leaf("pagenum"),
                ParagraphChild::NumPages(_) => N::leaf("numpages"),
            })
            .collect()
    }
    pub fn para(&self, p: &Paragraph) -> N {
        let mut v = Vec::new();
        if let Some(s) = &p.property.section_property {
            v.push(self.sect(s));
        }
        v.extend(self.inl(&p.children));
        N::new("p", v)
    }
    pub fn sdt(&self, s: &StructuredDataTag) -> N {
        N::new(
            "sdt",
            s.children
                .iter()
                .map(|k| match k {
                    StructuredDataTagChild::Run(r) => self.run(r),
                    StructuredDataTagChild::Paragraph(p) => self.para(p),
                    StructuredDataTagChild::Table(t) => self.table(t),
                    StructuredDataTagChild::BookmarkStart(b) => Self::bs(b),
                    StructuredDataTagChild::BookmarkEnd(b) => N::leaf(format!("be:{}", b.id)),
                    StructuredDataTagChild::CommentStart(c) => self.cm(&c.comment),
                    StructuredDataTagChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                    StructuredDataTagChild::StructuredDataTag(s) => self.sdt(s),
                })
                .collect(),
        )
    }
    pub fn table(&self, t: &Table) -> N {
        N::new(
            "tbl",
            t.rows
                .iter()
                .map(|TableChild::TableRow(r)| {
                    N::new(
                        "tr",
                        r.cells
                            .iter()
                            .map(|TableRowChild::TableCell(c)| {
                                N::new(
                                    "tc",
                                    c.children
                                        .iter()
                                        .map(|k| match k {
                                            TableCellContent::Paragraph(p) => self.para(p),
                                            TableCellContent::Table(t) => self.table(t),
                                            TableCellContent::StructuredDataTag(s) => self.sdt(s),
                                            TableCellContent::TableOfContents(_) => N::leaf("toc"),
                                        })
                                        .collect(),
                                )
                            })
                            .collect(),
                    )
                })
                .collect(),
        )
    }
    pub fn sect(&self, s: &SectionProperty) -> N {
        let h = [&s.header, &s.first_header, &s.even_header].map(|h| h.as_ref().map(|(_, h)| self.header(h)));
        let f = [&s.footer, &s.first_footer, &s.even_footer].map(|h| h.as_ref().map(|(_, h)| self.footer(h)));
        let kids = h.into_iter().chain(f).zip(SLOTS).filter_map(|(c, s)| Some(N::new(s, c?)));
        N::new("sect", kids.collect())
    }
    pub fn body(&self) -> Vec<N> {
        let last = self.sect(&self.d.document.section_property).norm();
        self.d
            .document
            .children
            .iter()
            .map(|k| match k {
                DocumentChild::Paragraph(p) => self.para(p),
                DocumentChild::Table(t) => self.table(t),
                DocumentChild::BookmarkStart(b) => Self::bs(b),
                DocumentChild::BookmarkEnd(b) => N::leaf(format!("be:{}", b.id)),
                DocumentChild::CommentStart(c) => self.cm(&c.comment),
                DocumentChild::CommentEnd(c) => N::leaf(format!("ce:{}", jid(c))),
                DocumentChild::StructuredDataTag(s) => self.sdt(s),
                DocumentChild::TableOfContents(_) => N::leaf("toc"),
                DocumentChild::Section(_) => N::leaf("section"),
            })
            .map(|n| n.norm())
            .chain([last])
            .collect()
    }
    pub fn header(&self, h: &Header) -> Vec<N> {
        h.children
            .iter()
            .map(|k| match k {
                HeaderChild::Paragraph(p) => self.para(p),
                HeaderChild::Table(t) => self.table(t),
                HeaderChild::StructuredDataTag(s) => self.sdt(s),
            })
            .map(|n| n.norm())
            .collect()
    }
    pub fn footer(&self, h: &Footer) -> Vec<N> {
        h.children
            .iter()
            .map(|k| match k {
                FooterChild::Paragraph(p) => self.para(p),
                FooterChild::Table(t) => self.table(t),
                FooterChild::StructuredDataTag(s) => self.sdt(s),
            })
            .map(|n| n.norm())
            .collect()
    }
}

/// The `id` a range end marker carries, taken from its serialised form.
fn jid<T: serde::Serialize>(c: &T) -> String {
    match serde_json::to_value(c) {
        Ok(v) => match &v["id"] {
            serde_json::Value::Number(n) => n.to_string(),
            serde_json::Value::String(s) => s.clone(),
            _ => "?".into(),
        },
        Err(_) => "?".into(),
    }
}

pub fn from_model(d: &Docx) -> Vec<N> {
    MCtx { d, pics: Default::default() }.body()
}

/// The pictures of a document returned by the reader, in order.
pub fn model_pics(d: &Docx) -> Vec<Pic> {
    let c = MCtx { d, pics: Default::default() };
    c.body();
    c.pics.into_inner()
}
