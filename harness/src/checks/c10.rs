//! C10: comments keep their range, content, author, date and thread.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::opc::Package;
use crate::xml::El;
use crate::Tier;
use docx_rs::*;
use std::collections::BTreeMap;

pub fn meta() -> Meta {
    Meta {
        level: "exploration",
        assumptions: vec![
            "a thread link is judged by the last paragraph of the reply and of its parent, as the extension part defines it".into(),
            "ranges outside the main text (headers, footers, notes) are outside the format and skipped".into(),
        ],
    }
}

type Links = BTreeMap<usize, Option<usize>>;

fn cms(ns: &[N], out: &mut Vec<N>) {
    for n in ns {
        if n.tag.starts_with("cs:") {
            out.push(n.clone());
        }
        cms(&n.kids, out);
    }
}

fn parents_of_model(d: &Docx) -> Links {
    d.comments.inner().iter().map(|c| (c.id, c.parent_comment_id)).collect()
}

fn resolved(e: &El) -> bool {
    !matches!(e.attr("w15:done"), None | Some("0" | "false" | "off"))
}

/// The comments marked resolved, by id.
fn resolved_in(pkg: &Package) -> BTreeMap<usize, bool> {
    let mut out = BTreeMap::new();
    let ex = pkg.parts.keys().find(|p| p.ends_with("commentsExtended.xml")).and_then(|p| pkg.xml(p));
    let (Some(cs), Some(ex)) = (pkg.comments(), ex) else { return out };
    for c in cs.children("w:comment") {
        let id = c.attr("w:id").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
        let last = c.all("w:p").last().and_then(|p| p.attr("w14:paraId"));
        out.insert(id, ex.children("w15:commentEx").iter().any(|e| e.attr("w15:paraId") == last && resolved(e)));
    }
    out
}

/// Parent links as the comment-extension part states them.
fn parents_of_package(pkg: &Package, l: &mut Leaf) -> Links {
    let mut by_para: BTreeMap<String, usize> = BTreeMap::new();
    let mut out = Links::new();
    let Some(cs) = pkg.comments() else { return out };
    for c in cs.children("w:comment") {
        let id: usize = c.attr("w:id").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
        if out.insert(id, None).is_some() {
            l.fail("comment-twice", format!("comment {id} is written more than once"));
        }
        // the last paragraph, or the last one outside tables
        for ps in [c.all("w:p"), c.children("w:p")] {
            if let Some(p) = ps.last().and_then(|p| p.attr("w14:paraId")) {
                by_para.insert(p.to_string(), id);
            }
        }
    }
    let ex = pkg.parts.iter().find(|p| p.0.ends_with("commentsExtended.xml")).and_then(|p| pkg.xml(&p.0));
    for e in ex.map(|e| e.children("w15:commentEx")).unwrap_or_default() {
        let id = e.attr("w15:paraId").and_then(|p| by_para.get(p));
        let Some(id) = id else {
            l.fail("extension-unknown", format!("the extension part names paragraph {:?}, which ends no comment", e.attr("w15:paraId")));
            continue;
        };
        if resolved(e) {
            l.fail("resolved", format!("comment {id} is marked resolved, which nobody asked for"));
        }
        if let Some(pp) = e.attr("w15:paraIdParent") {
            match by_para.get(pp) {
                Some(par) => {
                    out.insert(*id, Some(*par));
                }
                None => l.fail("extension-parent", format!("comment {id} names parent paragraph {pp}, which ends no comment")),
            }
        }
    }
    out
}

/// Records a difference of threads; links of comments that hold no paragraph of their own are a listed limit.
fn threads(l: &mut Leaf, key: &str, got: &Links, forest: &Links, bare: &[usize]) {
    if got == forest {
        return;
    }
    let lim: Links = forest
        .iter()
        .map(|(c, p)| (*c, p.filter(|p| !bare.contains(p) && !bare.contains(c))))
        .collect();
    if got == &lim {
        l.fail(format!("{key}-limit:no-paragraph"), "a thread link of a comment without a paragraph is lost");
    } else {
        l.fail(key, format!("threads are {got:?}, given {forest:?}"));
    }
}

fn judge(l: &mut Leaf, d: &Doc, forest: &Links) {
    judge_bare(l, d, forest, &[])
}

/// `bare` names the comments that hold no paragraph outside tables.
fn judge_bare(l: &mut Leaf, d: &Doc, forest: &Links, bare: &[usize]) {
    let want = d.neutral();
    let bytes = match guarded(|| pack_stream(d.to_docx())) {
        Ok(Ok(b)) => b,
        e => return l.fail("write-failed", format!("packing failed: {e:?}")),
    };
    let pkg = match Package::open(&bytes) {
        Ok(p) => p,
        Err(e) => return l.fail("write-archive", e),
    };
    l.evals += 1;
    let got = from_package(&pkg);
    if let Some((path, m)) = diff(&want, &got, "") {
        l.fail(format!("write:{path}"), format!("the package differs from the document built: {m}"));
    }
    let links = parents_of_package(&pkg, l);
    threads(l, "write-thread", &links, forest, bare);
    // one reference mark per range, directly behind its end
    if let Some((_, root)) = pkg.document() {
        let mut refs: Vec<&str> = root.all("w:commentReference").iter().filter_map(|e| e.attr("w:id")).collect();
        let mut ends: Vec<&str> = root.all("w:commentRangeEnd").iter().filter_map(|e| e.attr("w:id")).collect();
        refs.sort();
        ends.sort();
        if refs != ends {
            l.fail("reference", format!("reference marks {refs:?} for ranges ending {ends:?}"));
        }
        root.walk(&mut |e| {
            let ks: Vec<&El> = e.els().collect();
            for (i, k) in ks.iter().enumerate() {
                if k.is("w:commentRangeEnd") {
                    let ok = ks.get(i + 1).is_some_and(|r| {
                        r.is("w:r") && r.child("w:commentReference").is_some_and(|c| c.attr("w:id") == k.attr("w:id"))
                    });
                    if !ok {
                        l.fail("reference-place", "a range end is not followed by its reference mark".to_string());
                    }
                }
            }
        });
    }
    l.validated += 1;
    let read = match guarded(|| read_docx(&bytes)) {
        Ok(Ok(d)) => d,
        e => return l.fail("read-failed", format!("reading failed: {:?}", e.map(|r| r.map(|_| ())))),
    };
    l.evals += 1;
    if let Some((path, m)) = diff(&want, &from_model(&read), "") {
        l.fail(format!("read:{path}"), format!("reading differs from the document built: {m}"));
    }
    let links = parents_of_model(&read);
    threads(l, "read-thread", &links, forest, bare);
    // the comment attached to a range carries the same parent
    let mut at = Links::new();
    attached(&read, &mut at);
    threads(l, "read-attached-thread", &at, forest, bare);
}

/// Parent links of the comments hanging on ranges of a read document, taken from its JSON.
fn attached(d: &Docx, out: &mut Links) {
    fn go(v: &serde_json::Value, out: &mut Links) {
        match v {
            serde_json::Value::Object(m) => {
                if m.get("type").and_then(|t| t.as_str()) == Some("commentRangeStart") {
                    let c = &m["data"]["comment"];
                    if let Some(id) = c["id"].as_u64() {
                        out.insert(id as usize, c["parentCommentId"].as_u64().map(|p| p as usize));
                    }
                }
                m.values().for_each(|v| go(v, out));
            }
            serde_json::Value::Array(a) => a.iter().for_each(|v| go(v, out)),
            _ => {}
        }
    }
    if let Ok(v) = serde_json::to_value(&d.document) {
        go(&v, out);
    }
}

pub const BODY: &[&str] = &["para", "table", "para+para", "para+table", "table+para", "empty-para", "none"];

pub fn cm(id: usize, body: &str, parent: Option<usize>) -> Cm {
    let mut c = comment(id, "");
    c.parent = parent;
    c.author = format!("Writer {id}");
    c.date = format!("2020-02-0{}T00:00:00Z", id % 9 + 1);
    let p = |k: &str| ptext(&format!("{k}{id}"));
    let t = || B::T(vec![vec![vec![ptext(&format!("cell{id}"))]]]);
    c.kids = match body {
        "para" => vec![p("a")],
        "table" => vec![t()],
        "para+para" => vec![p("a"), p("b")],
        "para+table" => vec![p("a"), t()],
        "table+para" => vec![t(), p("b")],
        "empty-para" => vec![para(vec![])],
        _ => vec![],
    };
    c
}

pub fn pa(kids: Vec<I>) -> Pa {
    Pa { id: None, num: None, style: None, kids }
}

pub fn ranged(w: &str, c: Cm) -> Vec<I> {
    let id = c.id;
    if w == "direct" {
        vec![I::Cs(c), rtext("x"), I::Ce(id)]
    } else {
        vec![wrap_range(w, c, "x")]
    }
}

pub fn forests(n: usize) -> Vec<Vec<Option<usize>>> {
    // every assignment of a parent (or none) without cycles
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for f in &out {
            for p in 0..=n {
                let mut g: Vec<Option<usize>> = f.clone();
                g.push(if p == 0 { None } else { Some(p - 1) });
                next.push(g);
            }
        }
        out = next;
    }
    out.retain(|f| {
        (0..n).all(|i| {
            let mut at = i;
            for _ in 0..=n {
                match f[at] {
                    Some(p) => at = p,
                    None => return true,
                }
            }
            false
        })
    });
    out
}

pub fn phases(t: Tier) -> Vec<Phase> {
    let mut v = Vec::new();
    let quick = t == Tier::Quick;
    v.push(Phase::new("single", "one comment of every content form at every range position of the main text", |ch: &mut Chooser, l: &mut Leaf| {
        let h = *ch.pick(PARA_HOSTS);
        let w = *ch.pick(RANGE_HOSTS);
        let b = *ch.pick(BODY);
        l.label = format!("{h} <- {w} <- {b}");
        if h.contains("toc") || !super::c01::main_text_only(h, "comment") {
            l.skip = true;
            return;
        }
        let d = place(h, pa(ranged(w, cm(7, b, None))), 1);
        judge(l, &d, &Links::from([(7, None)]));
    }));
    let hosts: &[&str] = &["body", "cell", "sdt", "section"];
    let runs: &[&str] = &["direct", "ins", "link"];
    v.push(Phase::new("threads", "two or three comments over the positions with every parent forest and every order of ids", move |ch: &mut Chooser, l: &mut Leaf| {
        let n = 2 + ch.choose(2);
        let fs = forests(n);
        let f = ch.pick(&fs).clone();
        let order = ch.choose(if n == 2 { 2 } else { 6 });
        let ids: Vec<usize> = match (n, order) {
            (2, 0) => vec![0, 1],
            (2, _) => vec![5, 3],
            (_, o) => [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][o].to_vec(),
        };
        let mut d = Doc::default();
        let mut forest = Links::new();
        let mut bare = Vec::new();
        for i in 0..n {
            let h = *ch.pick(if n == 3 { &hosts[..2] } else { hosts });
            let w = *ch.pick(if n == 3 { &runs[..1] } else { runs });
            let body = *ch.pick(if n == 3 { &["para", "para+para"][..] } else { &["para", "para+para", "table+para", "para+table", "table", "none"][..] });
            if matches!(body, "table" | "none") {
                bare.push(ids[i]);
            }
            let parent = f[i].map(|p| ids[p]);
            l.label.push_str(&format!("{h}/{w}:{body} {}<-{parent:?}; ", ids[i]));
            forest.insert(ids[i], parent);
            d = d.merge(place(h, pa(ranged(w, cm(ids[i], body, parent))), i));
        }
        judge_bare(l, &d, &forest, &bare);
    }));
    let depth = if quick { 6 } else { 8 };
    v.push(Phase::new("ranges", format!("every interleaving of start and end marks of up to three comments and texts ({depth} items), split over paragraphs in every way"), move |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(depth) + 1;
        let mut ps: Vec<Vec<I>> = vec![vec![]];
        let (mut open, mut next) = (Vec::<usize>::new(), 0usize);
        let mut forest = Links::new();
        for i in 0..n {
            // 0 text, 1 new paragraph, 2 start (at most three), 3.. end one of the open ones
            let starts = (next < 3) as usize;
            let c = ch.choose(2 + starts + open.len());
            let at = ps.last_mut().unwrap();
            if c == 0 {
                at.push(rtext(&format!("t{i}")));
            } else if c == 1 {
                ps.push(vec![]);
            } else if c == 2 && starts == 1 {
                at.push(I::Cs(cm(next, "para", None)));
                forest.insert(next, None);
                open.push(next);
                next += 1;
            } else {
                let id = open.remove(c - 2 - starts);
                at.push(I::Ce(id));
            }
        }
        for id in open {
            ps.last_mut().unwrap().push(I::Ce(id));
        }
        l.label = format!("{ps:?}");
        judge(l, &Doc { body: ps.into_iter().map(para).collect(), hf: vec![] }, &forest);
    }));
    v.push(Phase::new("resolved", "up to three comments with every parent forest, every subset of them marked resolved in the package that is read", move |ch: &mut Chooser, l: &mut Leaf| {
        let n = 1 + ch.choose(3);
        let fs = forests(n);
        let f = ch.pick(&fs).clone();
        let mut d = Doc::default();
        let mut want = BTreeMap::new();
        for (i, p) in f.iter().enumerate() {
            let body = *ch.pick(&["para", "para+para"]);
            want.insert(i, ch.flag());
            l.label.push_str(&format!("{body} {i}<-{p:?} {}; ", want[&i]));
            d = d.merge(place("body", pa(ranged("direct", cm(i, body, *p))), i));
        }
        let Ok(Ok(bytes)) = guarded(|| pack_stream(d.to_docx())) else { return l.fail("write-failed", "packing failed") };
        let Ok(pkg) = Package::open(&bytes) else { return l.fail("write-archive", "no archive") };
        let mut parts: Vec<(String, Vec<u8>)> = pkg.parts.clone().into_iter().collect();
        let last: BTreeMap<String, usize> = pkg
            .comments()
            .map(|c| c.children("w:comment"))
            .unwrap_or_default()
            .iter()
            .filter_map(|c| Some((c.all("w:p").last()?.attr("w14:paraId")?.to_string(), c.attr("w:id")?.parse().ok()?)))
            .collect();
        let Some(part) = parts.iter_mut().find(|p| p.0.ends_with("commentsExtended.xml")) else { return l.fail("no-extension", "no comment-extension part") };
        let Some(ex) = pkg.xml(&part.0) else { return };
        let mut text = String::from_utf8_lossy(&part.1).into_owned();
        for e in ex.children("w15:commentEx") {
            let id = e.attr("w15:paraId").unwrap_or("");
            if last.get(id).is_some_and(|i| want[i]) {
                let (a, b) = text.split_once(&format!("w15:paraId=\"{id}\"")).unwrap();
                let (mid, rest) = b.split_once('>').unwrap();
                text = format!("{a}w15:paraId=\"{id}\"{}>{rest}", mid.replace("w15:done=\"0\"", "w15:done=\"1\""));
            }
        }
        part.1 = text.into_bytes();
        let mut b = crate::zipread::write_stored(&parts);
        l.states.push(hash64(l.label.as_bytes()));
        for round in ["read", "read again"] {
            l.transitions += 1;
            l.evals += 1;
            b = match guarded(|| read_docx(&b).map_err(|e| format!("{e:?}")).and_then(pack_stream)) {
                Ok(Ok(b)) => b,
                e => return l.fail("read-failed", format!("{e:?}")),
            };
            let Ok(pkg) = Package::open(&b) else { return l.fail("write-archive", "no archive") };
            let got = resolved_in(&pkg);
            if got != want {
                return l.fail(format!("resolved-{round}"), format!("{round}: resolved {got:?}, were {want:?}"));
            }
        }
        l.validated += 1;
    }));
    v.push(Phase::new("section-level", "comment marks between the paragraphs of a section", |ch: &mut Chooser, l: &mut Leaf| {
        let n = ch.choose(5) + 1;
        let mut kids = Vec::new();
        let mut open = Vec::new();
        let mut forest = Links::new();
        for i in 0..n {
            let c = ch.choose(2 + open.len());
            if c == 0 {
                kids.push(ptext(&format!("p{i}")));
            } else if c == 1 {
                let id = forest.len();
                kids.push(B::Cs(cm(id, "para", None)));
                forest.insert(id, None);
                open.push(id);
            } else {
                kids.push(B::Ce(open.remove(c - 2)));
            }
        }
        for id in open {
            kids.push(B::Ce(id));
        }
        l.label = format!("{kids:?}");
        judge(l, &Doc { body: vec![B::Sec(Sec { kids, ..Default::default() })], hf: vec![] }, &forest);
    }));
    v
}
