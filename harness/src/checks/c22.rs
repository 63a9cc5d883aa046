//! C22: tracked changes keep their author, date, kind and content.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "plain text extraction is specified for runs, insertions, moves and links directly inside a paragraph, and runs and insertions inside a link".into(),
            "a content control among the runs is read as its bare runs (known finding of C03), so none is used here".into(),
        ],
    }
}

/// A paragraph under construction: the builder value, the tree it should show, the text it should extract.
struct Made {
    p: Paragraph,
    tree: Vec<N>,
    text: String,
}

pub const WHO: &[(&str, &str)] = &[
    ("Ann", "2021-01-01T00:00:00Z"),
    ("Bo Li", "2022-02-02T10:20:30Z"),
    ("Ænne Ö", "2023-12-31T23:59:59+09:00"),
    ("", "1970-01-01T00:00:00Z"),
];

struct G<'a> {
    ch: &'a mut Chooser,
    left: usize,
    n: usize,
    shift: usize,
}

impl G<'_> {
    fn who(&mut self) -> (String, String) {
        self.n += 1;
        let (a, d) = WHO[(self.n + self.shift) % WHO.len()];
        (format!("{a}{}", self.n), d.to_string())
    }
    /// A run, its tree and its text.
    fn run(&mut self, deleted: bool) -> (Run, N, String) {
        self.n += 1;
        let t = format!("t{}", self.n);
        let r = Run::new();
        match (self.ch.choose(if deleted { 2 } else { 3 }), deleted) {
            (0, true) => (r.add_delete_text(&t), N::new("r", vec![N::leaf(format!("dt:{t}"))]), String::new()),
            (0, false) => (r.add_text(&t), N::new("r", vec![N::leaf(format!("t:{t}"))]), t),
            (1, _) => (
                r.add_tab().add_text(&t).add_break(BreakType::TextWrapping),
                N::new("r", vec![N::leaf("tab"), N::leaf(format!("t:{t}")), N::leaf("br:textWrapping")]),
                format!("\t{t}\n"),
            ),
            _ => (r.add_delete_text(&t), N::new("r", vec![N::leaf(format!("dt:{t}"))]), String::new()),
        }
    }
    fn more(&mut self, kinds: usize) -> Option<usize> {
        if self.left == 0 {
            return None;
        }
        let c = self.ch.choose(kinds + 1);
        if c == 0 {
            return None;
        }
        self.left -= 1;
        Some(c - 1)
    }
    fn del(&mut self) -> (Delete, N) {
        let (a, d) = self.who();
        let mut o = Delete::new().author(&a).date(&d);
        let mut t = N::leaf(format!("del:{a}|{d}"));
        while self.more(1).is_some() {
            let (r, n, _) = self.run(true);
            o = o.add_run(r);
            t.kids.push(n);
        }
        (o, t)
    }
    fn ins(&mut self) -> (Insert, N, String) {
        let (a, d) = self.who();
        let mut o = Insert::new_with_empty().author(&a).date(&d);
        let mut t = N::leaf(format!("ins:{a}|{d}"));
        let mut s = String::new();
        while let Some(k) = self.more(2) {
            if k == 0 {
                let (r, n, x) = self.run(false);
                o = o.add_run(r);
                t.kids.push(n);
                s.push_str(&x);
            } else {
                let (x, n) = self.del();
                o = o.add_delete(x);
                t.kids.push(n);
            }
        }
        (o, t, s)
    }
    fn para(&mut self) -> Made {
        let mut m = Made { p: Paragraph::new(), tree: vec![], text: String::new() };
        while let Some(k) = self.more(6) {
            let p = std::mem::take(&mut m.p);
            m.p = match k {
                0 => {
                    let (r, n, s) = self.run(false);
                    m.tree.push(n);
                    m.text.push_str(&s);
                    p.add_run(r)
                }
                1 => {
                    let (o, n, s) = self.ins();
                    m.tree.push(n);
                    m.text.push_str(&s);
                    p.add_insert(o)
                }
                2 => {
                    let (o, n) = self.del();
                    m.tree.push(n);
                    p.add_delete(o)
                }
                3 => {
                    let (a, d) = self.who();
                    let mut o = MoveFrom::new().author(&a).date(&d);
                    let mut t = N::leaf(format!("moveFrom:{a}|{d}"));
                    while self.more(1).is_some() {
                        let (r, n, _) = self.run(false);
                        o = o.add_run(r);
                        t.kids.push(n);
                    }
                    m.tree.push(t);
                    p.add_move_from(o)
                }
                4 => {
                    let (a, d) = self.who();
                    let mut o = MoveTo::new_with_empty().author(&a).date(&d);
                    let mut t = N::leaf(format!("moveTo:{a}|{d}"));
                    while let Some(k) = self.more(2) {
                        if k == 0 {
                            let (r, n, s) = self.run(false);
                            o = o.add_run(r);
                            t.kids.push(n);
                            m.text.push_str(&s);
                        } else {
                            let (x, n) = self.del();
                            o = o.add_delete(x);
                            t.kids.push(n);
                        }
                    }
                    m.tree.push(t);
                    p.add_move_to(o)
                }
                _ => {
                    let mut h = Hyperlink::new("anc", HyperlinkType::Anchor);
                    let mut t = N::leaf("link:#anc");
                    while let Some(k) = self.more(3) {
                        let n = match k {
                            0 => {
                                let (r, n, s) = self.run(false);
                                h = h.add_run(r);
                                m.text.push_str(&s);
                                n
                            }
                            1 => {
                                let (o, n, s) = self.ins();
                                h = h.add_insert(o);
                                m.text.push_str(&s);
                                n
                            }
                            _ => {
                                let (o, n) = self.del();
                                h = h.add_delete(o);
                                n
                            }
                        };
                        t.kids.push(n);
                    }
                    m.tree.push(t);
                    p.add_hyperlink(h)
                }
            };
        }
        m
    }
    /// Adds changes of the paragraph itself; returns what they should show.
    fn marks(&mut self, p: Paragraph) -> (Paragraph, Vec<String>) {
        let mut p = p;
        let mut v = Vec::new();
        let c = self.ch.choose(4);
        if c & 1 == 1 {
            let (a, d) = self.who();
            p = p.insert(&a, &d);
            v.push(format!("mark-ins:{a}|{d}"));
        }
        if c & 2 == 2 {
            let (a, d) = self.who();
            p = p.delete(&a, &d);
            v.push(format!("mark-del:{a}|{d}"));
        }
        if self.ch.flag() {
            let (a, d) = self.who();
            let old = ParagraphProperty::new().align(AlignmentType::Right);
            p = p.align(AlignmentType::Center).paragraph_property_change(
                ParagraphPropertyChange::new().author(&a).date(&d).property(old),
            );
            v.push(format!("change:{a}|{d}|center<-right"));
        }
        (p, v)
    }
}

fn who(e: &El) -> String {
    format!("{}|{}", e.attr("w:author").unwrap_or("<none>"), e.attr("w:date").unwrap_or("<none>"))
}

fn marks_of_el(p: &El) -> Vec<String> {
    let mut v = Vec::new();
    let Some(pr) = p.child("w:pPr") else { return v };
    if let Some(r) = pr.child("w:rPr") {
        for i in r.children("w:ins") {
            v.push(format!("mark-ins:{}", who(i)));
        }
        for i in r.children("w:del") {
            v.push(format!("mark-del:{}", who(i)));
        }
    }
    let jc = |e: &El| e.child("w:jc").and_then(|j| j.attr("w:val")).unwrap_or("?").to_string();
    for c in pr.children("w:pPrChange") {
        v.push(format!("change:{}|{}<-{}", who(c), jc(pr), c.child("w:pPr").map(jc).unwrap_or("?".into())));
    }
    v
}

fn marks_of_model(p: &Paragraph) -> Vec<String> {
    let mut v = Vec::new();
    if let Some(i) = &p.property.run_property.ins {
        v.push(format!("mark-ins:{}|{}", i.author, i.date));
    }
    if let Some(i) = &p.property.run_property.del {
        v.push(format!("mark-del:{}|{}", i.author, i.date));
    }
    let jc = |p: &ParagraphProperty| p.alignment.as_ref().map(|a| a.val.clone()).unwrap_or("?".into());
    if let Some(c) = &p.property.paragraph_property_change {
        v.push(format!("change:{}|{}|{}<-{}", c.author, c.date, jc(&p.property), jc(&c.property)));
    }
    v
}

fn packed(l: &mut Leaf, d: Docx) -> Option<(Package, Docx)> {
    let bytes = match guarded(|| pack_stream(d)) {
        Ok(Ok(b)) => b,
        e => {
            l.fail("write-failed", format!("packing failed: {e:?}"));
            return None;
        }
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => {
            l.fail("write-archive", e);
            return None;
        }
    };
    // ids of tracked changes over the whole package
    let mut ids = Vec::new();
    for (name, _) in &pkg.parts {
        if let Some(r) = pkg.xml(name) {
            for q in ["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange"] {
                for e in r.all(q) {
                    ids.push(e.attr("w:id").unwrap_or("?").to_string());
                }
            }
        }
    }
    let n = ids.len();
    ids.sort();
    ids.dedup();
    if ids.len() != n {
        l.fail("ids", format!("{n} tracked changes share {} ids", ids.len()));
    }
    let read = match guarded(|| read_docx(&bytes)) {
        Ok(Ok(d)) => d,
        e => {
            l.fail("read-failed", format!("reading failed: {:?}", e.map(|r| r.map(|_| ()))));
            return None;
        }
    };
    l.evals += 2;
    l.validated += 1;
    Some((pkg, read))
}

fn same<T: PartialEq + std::fmt::Debug>(l: &mut Leaf, key: &str, want: &T, got: &T) {
    if want != got {
        l.fail(key, format!("expected {want:?}, found {got:?}"));
    }
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    let quick = t == Tier::Quick;
    let n = if quick { 4 } else { 5 };
    v.push(Phase::new(
        "nesting",
        format!("every paragraph of at most {n} nodes over runs, insertions, deletions, moves and links, with every paragraph mark change and property change"),
        move |ch: &mut Chooser, l: &mut Leaf| {
            let mut g = G { ch, left: n, n: 0, shift: 0 };
            let m = g.para();
            let full = g.left == 0;
            let tree = norm_all(vec![N::new("p", m.tree)]);
            // the largest trees are combined with all marks at once only
            let (p, marks) = if full && quick {
                let p = m.p.insert("I", "2020-01-01T00:00:00Z").delete("D", "2020-01-02T00:00:00Z");
                let v = vec!["mark-ins:I|2020-01-01T00:00:00Z".to_string(), "mark-del:D|2020-01-02T00:00:00Z".to_string()];
                (p, v)
            } else {
                g.marks(m.p)
            };
            l.label = format!("{} {marks:?}", doc_show(&tree));
            same(l, "text-built", &m.text, &p.raw_text());
            let Some((pkg, read)) = packed(l, Docx::new().add_paragraph(p)) else { return };
            let mut want = tree.clone();
            want.push(N::leaf("sect"));
            if let Some((path, m)) = diff(&want, &from_package(&pkg), "") {
                l.fail(format!("write:{path}"), format!("the package differs from the document built: {m}"));
            }
            if let Some((path, m)) = diff(&want, &from_model(&read), "") {
                l.fail(format!("read:{path}"), format!("reading differs from the document built: {m}"));
            }
            let got = pkg.document().and_then(|(_, r)| r.all("w:p").first().map(|p| marks_of_el(p))).unwrap_or_default();
            same(l, "write-marks", &marks, &got);
            if let Some(DocumentChild::Paragraph(p)) = read.document.children.first() {
                same(l, "read-marks", &marks, &marks_of_model(p));
                same(l, "text-read", &m.text, &p.raw_text());
            }
        },
    ));
    let n = 2;
    v.push(Phase::new(
        "places",
        format!("every tracked paragraph of at most {n} nodes in every paragraph position"),
        move |ch: &mut Chooser, l: &mut Leaf| {
            let h = *ch.pick(PARA_HOSTS);
            let shift = ch.choose(2);
            let mut g = G { ch, left: n, n: 0, shift };
            let m = g.para();
            let (p, marks) = g.marks(m.p);
            let mut tree = N::new("", norm_all(vec![N::new("p", m.tree)]));
            l.label = format!("{h} <- {} {marks:?}", doc_show(&tree.kids));
            if h.contains("toc") {
                l.skip = true;
                return;
            }
            let Some((d, mut want)) = put(h, p, std::mem::take(&mut tree.kids)) else {
                l.skip = true;
                return;
            };
            want = norm_all(want);
            let Some((pkg, read)) = packed(l, d) else { return };
            if let Some((path, m)) = diff(&want, &from_package(&pkg), "") {
                l.fail(format!("write:{path}"), format!("the package differs from the document built: {m}"));
            }
            if let Some((path, m)) = diff(&want, &from_model(&read), "") {
                l.fail(format!("read:{path}"), format!("reading differs from the document built: {m}"));
            }
            // the only marks in the whole package are the ones given
            let mut got = Vec::new();
            for (name, _) in &pkg.parts {
                if let Some(r) = pkg.xml(name) {
                    for p in r.all("w:p") {
                        got.extend(marks_of_el(p));
                    }
                }
            }
            same(l, "write-marks", &marks, &got);
        },
    ));
    v.push(Phase::new("rows", "every assignment of {none, inserted, deleted, both} to the rows of a table of up to three rows, nested or not", |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(3) + 1;
        let nested = ch.flag();
        let mut rows = Vec::new();
        let mut want = Vec::new();
        for i in 0..n {
            let c = ch.choose(4);
            let mut r = TableRow::new(vec![TableCell::new().add_paragraph(Paragraph::new())]);
            let mut w = Vec::new();
            let (a, d) = WHO[i % WHO.len()];
            if c & 1 == 1 {
                r = r.insert(Insert::new_with_empty().author(format!("i{a}")).date(d));
                w.push(format!("ins:i{a}|{d}"));
            }
            if c & 2 == 2 {
                r = r.delete(Delete::new().author(format!("d{a}")).date(d));
                w.push(format!("del:d{a}|{d}"));
            }
            rows.push(r);
            want.push(w);
        }
        l.label = format!("nested={nested} {want:?}");
        let t = Table::new(rows);
        let t = if nested { Table::new(vec![TableRow::new(vec![TableCell::new().add_table(t)])]) } else { t };
        let Some((pkg, read)) = packed(l, Docx::new().add_table(t)) else { return };
        let mut got = Vec::new();
        if let Some((_, root)) = pkg.document() {
            for r in root.all("w:tr").iter().skip(nested as usize) {
                let mut w = Vec::new();
                if let Some(pr) = r.child("w:trPr") {
                    w.extend(pr.children("w:ins").iter().map(|e| format!("ins:{}", who(e))));
                    w.extend(pr.children("w:del").iter().map(|e| format!("del:{}", who(e))));
                }
                got.push(w);
            }
        }
        same(l, "write-rows", &want, &got);
        fn rows_of(t: &Table, nested: bool) -> Vec<Vec<String>> {
            let mut v = Vec::new();
            for TableChild::TableRow(r) in &t.rows {
                if nested {
                    let TableRowChild::TableCell(c) = &r.cells[0];
                    for k in &c.children {
                        if let TableCellContent::Table(t) = k {
                            return rows_of(t, false);
                        }
                    }
                    return v;
                }
                let mut w = Vec::new();
                if let Some(i) = &r.property.ins {
                    w.push(format!("ins:{}|{}", i.author, i.date));
                }
                if let Some(i) = &r.property.del {
                    w.push(format!("del:{}|{}", i.author, i.date));
                }
                v.push(w);
            }
            v
        }
        let got = match read.document.children.first() {
            Some(DocumentChild::Table(t)) => rows_of(t, nested),
            _ => vec![],
        };
        same(l, "read-rows", &want, &got);
    }));
    v.push(
        Phase::new("aligned-ids", "paragraphs of up to three changes of every kind, packed when the id of each pair of kinds would coincide if they were numbered apart", |ch: &mut Chooser, l: &mut Leaf| {
            let (a, b) = (ch.choose(KINDS.len()), ch.choose(KINDS.len()));
            let n = ch.choose(3) + 1;
            let ks: Vec<usize> = (0..n).map(|_| ch.choose(KINDS.len())).collect();
            l.label = format!("align {}/{} then {:?}", KINDS[a], KINDS[b], ks.iter().map(|k| KINDS[*k]).collect::<Vec<_>>());
            if a >= b || !ks.contains(&a) || !ks.contains(&b) {
                l.skip = true;
                return;
            }
            // bring the numbers the two kinds draw to the same value, as far as they are numbered apart
            match (draw(a, 1), draw(b, 1)) {
                (Some(p), Some(q)) if p < q => draw(a, q - p),
                (Some(p), Some(q)) if p > q => draw(b, p - q),
                _ => None,
            };
            let mut p = Paragraph::new();
            for k in &ks {
                p = change(p, *k);
            }
            packed(l, Docx::new().add_paragraph(p));
        })
        .single_thread(),
    );
    v
}

const KINDS: &[&str] = &["ins", "del", "moveFrom", "moveTo", "change", "mark-ins", "mark-del"];

fn change(p: Paragraph, k: usize) -> Paragraph {
    let r = || Run::new().add_text("x");
    match KINDS[k] {
        "ins" => p.add_insert(Insert::new(r())),
        "del" => p.add_delete(Delete::new().add_run(Run::new().add_delete_text("x"))),
        "moveFrom" => p.add_move_from(MoveFrom::new().add_run(r())),
        "moveTo" => p.add_move_to(MoveTo::new(r())),
        "change" => p.paragraph_property_change(ParagraphPropertyChange::new()),
        "mark-ins" => p.insert("a", DATE),
        _ => p.delete("a", DATE),
    }
}

/// Draws this many ids for changes of this kind and returns the first.
fn draw(k: usize, n: u64) -> Option<u64> {
    let d = (0..n).fold(Docx::new(), |d, _| d.add_paragraph(change(Paragraph::new(), k)));
    let b = pack_build(d).ok()?;
    let pkg = Package::open(&b).ok()?;
    let (_, root) = pkg.document()?;
    let q = ["w:ins", "w:del", "w:moveFrom", "w:moveTo", "w:pPrChange", "w:ins", "w:del"][k];
    root.all(q).first()?.attr("w:id")?.parse().ok()
}

/// Puts a finished paragraph in a host; the expected tree comes along.
fn put(h: &str, p: Paragraph, tree: Vec<N>) -> Option<(Docx, Vec<N>)> {
    let sect = || N::leaf("sect");
    let tc = |k: Vec<N>| N::new("tbl", vec![N::new("tr", vec![N::new("tc", k)])]);
    let cell = |p: Paragraph| Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p)])]);
    let hdr = |s: &str, k: Vec<N>| vec![N::new("sect", vec![N::new(s, k)])];
    let sec = |s: &str, k: Vec<N>| vec![N::new("p", vec![N::new("sect", vec![N::new(s, k)])]), sect()];
    let d = Docx::new();
    let hp = |p: Paragraph| Header::new().add_paragraph(p);
    let fp = |p: Paragraph| Footer::new().add_paragraph(p);
    Some(match h {
        "body" => (d.add_paragraph(p), [tree, vec![sect()]].concat()),
        "cell" => (d.add_table(cell(p)), vec![tc(tree), sect()]),
        "nested-cell" => {
            let t = Table::new(vec![TableRow::new(vec![TableCell::new().add_table(cell(p)).add_paragraph(Paragraph::new())])]);
            (d.add_table(t), vec![tc(vec![tc(tree)]), sect()])
        }
        "sdt" => (d.add_structured_data_tag(StructuredDataTag::new().add_paragraph(p)), vec![N::new("sdt", tree), sect()]),
        "table-in-sdt" => (d.add_structured_data_tag(StructuredDataTag::new().add_table(cell(p))), vec![N::new("sdt", vec![tc(tree)]), sect()]),
        "section" => (d.add_section(Section::new().add_paragraph(p)), [tree, vec![N::new("p", vec![sect()]), sect()]].concat()),
        "header" => (d.header(hp(p)), hdr("hdr:default", tree)),
        "first-header" => (d.first_header(hp(p)), hdr("hdr:first", tree)),
        "even-header" => (d.even_header(hp(p)), hdr("hdr:even", tree)),
        "footer" => (d.footer(fp(p)), hdr("ftr:default", tree)),
        "first-footer" => (d.first_footer(fp(p)), hdr("ftr:first", tree)),
        "even-footer" => (d.even_footer(fp(p)), hdr("ftr:even", tree)),
        "section-header" => (d.add_section(Section::new().header(hp(p))), sec("hdr:default", tree)),
        "section-footer" => (d.add_section(Section::new().footer(fp(p))), sec("ftr:default", tree)),
        "header-table" => (d.header(Header::new().add_table(cell(p))), hdr("hdr:default", vec![tc(tree)])),
        "comment" => {
            let c = Comment::new(4).author("C").date(DATE).add_paragraph(p);
            let p = Paragraph::new().add_comment_start(c).add_run(Run::new().add_text("x")).add_comment_end(4);
            let kids = vec![N::new(format!("cs:4|C|{DATE}"), tree), N::new("r", vec![N::leaf("t:x")]), N::leaf("ce:4")];
            (d.add_paragraph(p), vec![N::new("p", kids), sect()])
        }
        _ => return None,
    })
}
