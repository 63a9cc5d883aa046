//! C03: the content tree that was built is the tree that is written and the tree that is read.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::Tier;
use docx_rs::*;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "adjacent text pieces of one run count as one text, empty runs count as nothing".into(),
            "an empty paragraph behind other content at the end of a cell is the padding the format asks for".into(),
            "the package is interpreted by readers written for this harness".into(),
        ],
    }
}

/// Enumerates trees with a bounded number of nodes.
pub struct Gen<'a> {
    pub ch: &'a mut Chooser,
    pub left: usize,
    n: usize,
    cm: usize,
    bm: usize,
    pub notes: bool,
}

impl<'a> Gen<'a> {
    pub fn new(ch: &'a mut Chooser, nodes: usize) -> Self {
        Gen { ch, left: nodes, n: 0, cm: 0, bm: 0, notes: true }
    }
    fn text(&mut self) -> String {
        self.n += 1;
        format!("t{}", self.n)
    }
    fn inl_item(&mut self, kind: &str) -> I {
        match kind {
            "r" => I::R(vec![K::T(self.text())]),
            "rr" => {
                let (a, b) = (self.text(), self.text());
                I::R(vec![K::T(a), K::Tab, K::T(b)])
            }
            "d" => I::R(vec![K::Dt(self.text())]),
            "pic" => {
                self.n += 1;
                I::R(vec![K::Pic(png(self.n as u8), false)])
            }
            "fn" => {
                let t = self.text();
                I::R(vec![K::Fnote(vec![vec![rtext(&t)]])])
            }
            "link" => {
                self.n += 1;
                let u = format!("http://e.x/{}", self.n);
                I::Ext(u, self.inls("link"))
            }
            "anchor" => {
                self.n += 1;
                let u = format!("anc{}", self.n);
                I::Anc(u, self.inls("link"))
            }
            "ins" => I::Ins(self.inls("ins")),
            "del" => I::Del(self.inls("del")),
            "moveFrom" => I::MvF(self.inls("mvf")),
            "moveTo" => I::MvT(self.inls("ins")),
            "sdt" => I::Sdt(self.inls("sdt")),
            "cs" => {
                self.cm += 1;
                let t = self.text();
                I::Cs(comment(self.cm, &t))
            }
            "ce" => I::Ce(self.cm.max(1)),
            "bs" => {
                self.bm += 1;
                I::Bs(self.bm + 50, format!("bm{}", self.bm))
            }
            "be" => I::Be(self.bm.max(1) + 50),
            "page" => I::PageNum,
            k => panic!("{k}"),
        }
    }
    pub fn inls(&mut self, ctx: &str) -> Vec<I> {
        let kinds: &[&str] = match ctx {
            "p" => &[
                "r", "link", "ins", "del", "moveFrom", "moveTo", "sdt", "cs", "ce", "bs", "be", "pic", "fn", "anchor",
                "page", "rr",
            ],
            "link" => &["r", "ins", "del", "sdt", "cs", "ce", "bs", "be", "pic"],
            "ins" => &["r", "del", "cs", "ce", "pic"],
            "del" => &["d", "cs", "ce", "pic"],
            "mvf" => &["r", "cs", "ce"],
            "sdt" => &["r", "rr"],
            c => panic!("{c}"),
        };
        let mut v = Vec::new();
        while self.left > 0 {
            let c = self.ch.choose(kinds.len() + 1);
            if c == 0 {
                break;
            }
            self.left -= 1;
            v.push(self.inl_item(kinds[c - 1]));
        }
        v
    }
    pub fn blocks(&mut self, ctx: &str, depth: usize) -> Vec<B> {
        let kinds: &[&str] = match (ctx, depth) {
            ("body", _) => &["p", "t", "t2", "sdt", "sec", "bs", "be"],
            ("sec", _) => &["p", "t", "bs", "be", "cs", "ce"],
            ("cell", 0) | ("sdt", 0) | ("hf", 0) => &["p"],
            ("cell", _) => &["p", "t", "t2", "sdt"],
            ("sdt", _) => &["p", "t", "r"],
            ("hf", _) => &["p", "t"],
            c => panic!("{c:?}"),
        };
        let mut v = Vec::new();
        while self.left > 0 {
            let c = self.ch.choose(kinds.len() + 1);
            if c == 0 {
                break;
            }
            self.left -= 1;
            let b = match kinds[c - 1] {
                "p" => {
                    let t = self.text();
                    ptext(&t)
                }
                "r" => {
                    let t = self.text();
                    B::R(vec![K::T(t)])
                }
                "t" => B::T(vec![vec![self.blocks("cell", depth - 1)]]),
                "t2" => {
                    let a = self.blocks("cell", depth - 1);
                    let b = self.text();
                    let c = self.text();
                    B::T(vec![vec![a, vec![ptext(&b)]], vec![vec![ptext(&c)]]])
                }
                "sdt" => B::S(self.blocks("sdt", depth - 1)),
                "sec" => B::Sec(Sec { kids: self.blocks("sec", depth - 1), ..Default::default() }),
                "bs" => {
                    self.bm += 1;
                    B::Bs(self.bm + 50, format!("bm{}", self.bm))
                }
                "be" => B::Be(self.bm.max(1) + 50),
                "cs" => {
                    self.cm += 1;
                    let t = self.text();
                    B::Cs(comment(self.cm, &t))
                }
                _ => B::Ce(self.cm.max(1)),
            };
            v.push(b);
        }
        v
    }
}

/// What the library is known not to carry over, as transformations of the expected tree.
/// Each is a listed finding of its own; everything else still has to match exactly.
const WRITE_LIMITS: &[&str] = &["aside-references"];
const READ_LIMITS: &[&str] =
    &["aside-references", "footnote-references", "inline-sdt", "deleted-instructions"];

fn limit(name: &str, n: &N, aside: bool) -> Vec<N> {
    let aside = aside || n.tag.starts_with("cs:") || n.tag == "fn";
    let kids = || n.kids.iter().flat_map(|k| limit(name, k, aside)).collect::<Vec<N>>();
    match name {
        // pictures and links inside comments and footnotes have no relationships to go by
        "aside-references" if aside && n.tag.starts_with("pic:") => vec![N::leaf("pic:<unresolved>")],
        "aside-references" if aside && n.tag.starts_with("link:") && !n.tag.starts_with("link:#") => {
            vec![N::new("link:<unresolved>", kids())]
        }
        "footnote-references" if n.tag == "fn" => vec![],
        // a content control among the runs of a paragraph is read as its bare runs
        "inline-sdt" if n.tag == "p" || n.tag.starts_with("link:") => {
            let mut v = Vec::new();
            for k in kids() {
                if k.tag == "sdt" {
                    v.extend(k.kids);
                } else {
                    v.push(k);
                }
            }
            vec![N::new(n.tag.clone(), v)]
        }
        "deleted-instructions" if n.tag.starts_with("dinstr:") => vec![],
        _ => vec![N::new(n.tag.clone(), kids())],
    }
}

fn limited(want: &[N], names: &[&'static str]) -> (Vec<N>, Vec<&'static str>) {
    let mut cur = want.to_vec();
    let mut used = Vec::new();
    for name in names {
        let next = norm_all(cur.iter().flat_map(|n| limit(name, n, false)).collect());
        if next != cur {
            used.push(*name);
            cur = next;
        }
    }
    (cur, used)
}

/// Records how `got` differs from `want`, granting the listed limits.
pub fn compare(l: &mut Leaf, side: &str, want: &[N], got: &[N], names: &[&'static str]) {
    if want == got {
        return;
    }
    let (lim, used) = limited(want, names);
    if lim == got {
        for u in used {
            l.fail(format!("{side}-limit:{u}"), format!("{side} loses {u}"));
        }
        return;
    }
    if let Some((path, m)) = diff(&lim, got, "") {
        l.fail(format!("{side}:{path}"), format!("{side} differs from the document built: {m}"));
    }
}

/// Runs writer and reader on a document and compares both with what was asked for.
pub fn judge(l: &mut Leaf, d: &Doc) {
    let want = d.neutral();
    let bytes = match guarded(|| pack_stream(d.to_docx())) {
        Ok(Ok(b)) => b,
        e => {
            l.fail("write-failed", format!("packing failed: {e:?}"));
            return;
        }
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => {
            l.fail("write-archive", e);
            return;
        }
    };
    l.evals += 1;
    compare(l, "write", &want, &from_package(&pkg), WRITE_LIMITS);
    l.validated += 1;
    let read = match guarded(|| read_docx(&bytes)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => {
            l.fail("read-error", format!("reading back failed: {e:?}"));
            return;
        }
        Err(p) => {
            l.fail("read-panic", format!("reading back panicked: {p}"));
            return;
        }
    };
    l.evals += 1;
    compare(l, "read", &want, &from_model(&read), READ_LIMITS);
}

/// Every value the leaves of a run can take.
fn values() -> Vec<(String, K)> {
    use docx_rs::{FieldCharType as F, PositionalTabAlignmentType as A, PositionalTabRelativeTo as R, TabLeaderType as L};
    let mut v = Vec::new();
    for a in [A::Center, A::Left, A::Right] {
        for r in [R::Indent, R::Margin] {
            for l in [L::Dot, L::Heavy, L::Hyphen, L::MiddleDot, L::None, L::Underscore] {
                v.push((format!("ptab {a} {r} {l}"), K::PTab(a, r, l)));
            }
        }
    }
    for b in [BreakType::Page, BreakType::Column, BreakType::TextWrapping] {
        v.push((format!("break {b}"), K::Br(b)));
    }
    for f in [F::Begin, F::Separate, F::End] {
        v.push((format!("field {f}"), K::Fld(f.clone())));
        v.push((format!("field {f} dirty"), K::DirtyFld(f)));
    }
    for font in ["Wingdings", "Symbol", "My Font", "\u{ff2d}\u{ff33}"] {
        for c in ["F0FC", "0041", "f020", "\u{e9}"] {
            v.push((format!("symbol {font} {c}"), K::Sym(font.into(), c.into())));
        }
    }
    let mut instr = |i: InstrText, s: String| v.push((format!("instruction {s}"), K::Instr(i, s)));
    for text in ["x", "two words", "a<b&c", "\u{e9}\u{3042}"] {
        for mask in 0..8 {
            let (mut i, mut s) = (InstrTC::new(text), format!("TC \"{text}\""));
            if mask & 1 != 0 {
                i = i.item_type_identifier("q");
                s += " \\f q";
            }
            if mask & 2 != 0 {
                i = i.level(3);
                s += " \\l 3";
            }
            if mask & 4 != 0 {
                i = i.omits_page_number();
                s += " \\n";
            }
            instr(InstrText::TC(i), s);
        }
        for anchor in [false, true] {
            let mut i = InstrHyperlink::new(text);
            i.anchor = anchor;
            instr(InstrText::HYPERLINK(i), format!("HYPERLINK {}\"{text}\"", if anchor { "\\l " } else { "" }));
        }
        instr(InstrText::Unsupported(text.into()), text.into());
    }
    for mask in 0..4 {
        let (mut i, mut s) = (InstrPAGEREF::new("_Toc1"), "PAGEREF _Toc1".to_string());
        if mask & 1 != 0 {
            i = i.relative_position();
            s += " \\p";
        }
        if mask & 2 != 0 {
            i = i.hyperlink();
            s += " \\h";
        }
        instr(InstrText::PAGEREF(i), s);
    }
    instr(InstrText::PAGE(InstrPAGE::new()), "PAGE".into());
    instr(InstrText::NUMPAGES(InstrNUMPAGES::new()), "NUMPAGES".into());
    for text in ["", " ", "a", " a", "a ", "a  b", "\u{3042}", "<a>&", "a\tb", "a\u{a0}b", "\u{1f600}"] {
        v.push((format!("text {text:?}"), K::T(text.into())));
        v.push((format!("deleted text {text:?}"), K::Dt(text.into())));
    }
    v
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    v.push(Phase::new("value", "every value of every run content in every inline container", {
        let values = values();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let w = *ch.pick(RUN_HOSTS);
            let (name, k) = &values[ch.choose(values.len())];
            l.label = format!("{w} <- {name}");
            judge(l, &place("body", Pa { id: None, num: None, style: None, kids: vec![wrap(w, vec![k.clone()])] }, 1));
        }
    }));
    let n = if t == Tier::Quick { 3 } else { 4 };
    v.push(Phase::new("run", format!("every sequence of at most {n} contents in one run"), {
        let leaves = run_leaves();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let mut kids = Vec::new();
            while kids.len() < n {
                let c = ch.choose(leaves.len() + 1);
                if c == 0 {
                    break;
                }
                l.label += &format!(" {}", leaves[c - 1].0);
                kids.push(leaves[c - 1].1.clone());
            }
            judge(l, &Doc { body: vec![para(vec![rtext("x"), I::R(kids), rtext("y")])], hf: vec![] });
        }
    }));
    v.push(Phase::new("leaf", "every run content in every inline container in every block container", {
        let leaves = run_leaves();
        move |ch: &mut Chooser, l: &mut Leaf| {
            let h = *ch.pick(PARA_HOSTS);
            let w = *ch.pick(RUN_HOSTS);
            let (name, k) = &leaves[ch.choose(leaves.len())];
            l.label = format!("{h} <- {w} <- {name}");
            let note = *name == "footnote";
            if h.contains("toc") || (note && !super::c01::main_text_only(h, "footnote")) {
                l.skip = true;
                return;
            }
            let d = place(h, Pa { id: None, num: None, style: None, kids: vec![wrap(w, vec![k.clone()])] }, 1);
            judge(l, &d);
        }
    }));
    let n = if t == Tier::Quick { 4 } else { 5 };
    v.push(Phase::new("inline", format!("every inline tree of at most {n} nodes in one paragraph"), move |ch: &mut Chooser, l: &mut Leaf| {
        let kids = Gen::new(ch, n).inls("p");
        l.label = format!("{kids:?}");
        judge(l, &Doc { body: vec![para(kids)], hf: vec![] });
    }));
    let n = if t == Tier::Quick { 5 } else { 6 };
    v.push(Phase::new("block", format!("every block tree of at most {n} nodes and depth 3 in the body"), move |ch: &mut Chooser, l: &mut Leaf| {
        let body = Gen::new(ch, n).blocks("body", 3);
        l.label = format!("{body:?}");
        judge(l, &Doc { body, hf: vec![] });
    }));
    let n = if t == Tier::Quick { 4 } else { 6 };
    v.push(Phase::new("margin", format!("every block tree of at most {n} nodes in each header and footer position"), move |ch: &mut Chooser, l: &mut Leaf| {
        let slot = ch.choose(6);
        let b = Gen::new(ch, n).blocks("hf", 3);
        l.label = format!("{slot} {b:?}");
        judge(l, &Doc { body: vec![ptext("x")], hf: vec![(slot, b)] });
    }));
    v
}
