//! A package seen through the Open Packaging Conventions: parts, content types, relationships,
//! and the closure rules that a consumer relies on.

use crate::xml::{self, El};
use crate::zipread;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const REL: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
const PREL: &str = "http://schemas.openxmlformats.org/package/2006/relationships/";

#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
}

impl Rel {
    /// Last path segment of the relationship type.
    pub fn kind(&self) -> &str {
        self.typ.rsplit('/').next().unwrap_or("")
    }
}

pub struct Package {
    pub names: Vec<String>,
    pub parts: BTreeMap<String, Vec<u8>>,
    pub xmls: BTreeMap<String, Result<El, String>>,
    /// source part ("" for the package itself) -> relationships
    pub rels: BTreeMap<String, Vec<Rel>>,
}

fn is_xml_name(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}

/// The part a relationships part belongs to.
fn rels_source(n: &str) -> Option<String> {
    if n == "_rels/.rels" {
        return Some(String::new());
    }
    let base = n.strip_suffix(".rels")?;
    let i = base.rfind("_rels/")?;
    Some(format!("{}{}", &base[..i], &base[i + 6..]))
}

pub fn resolve_target(source: &str, target: &str) -> String {
    let mut segs: Vec<&str> = if target.starts_with('/') {
        vec![]
    } else {
        let mut s: Vec<&str> = source.split('/').collect();
        s.pop();
        s
    };
    for t in target.split('/') {
        match t {
            "" | "." => {}
            ".." => {
                segs.pop();
            }
            t => segs.push(t),
        }
    }
    segs.join("/")
}

impl Package {
    pub fn open(bytes: &[u8]) -> Result<Package, String> {
        let es = zipread::read(bytes)?;
        Ok(Package::from_parts(es.into_iter().map(|e| (e.name, e.data)).collect()))
    }

    pub fn from_parts(es: Vec<(String, Vec<u8>)>) -> Package {
        let mut names = Vec::new();
        let mut parts = BTreeMap::new();
        let mut xmls = BTreeMap::new();
        let mut rels = BTreeMap::new();
        for (name, data) in es {
            names.push(name.clone());
            if name.ends_with('/') {
                continue;
            }
            if is_xml_name(&name) {
                let x = xml::parse(&data);
                if let (Some(src), Ok(root)) = (rels_source(&name), &x) {
                    let v: Vec<Rel> = root
                        .els()
                        .filter(|e| e.local == "Relationship")
                        .map(|e| Rel {
                            id: e.attr("Id").unwrap_or("").to_string(),
                            typ: e.attr("Type").unwrap_or("").to_string(),
                            target: e.attr("Target").unwrap_or("").to_string(),
                            external: e.attr("TargetMode") == Some("External"),
                        })
                        .collect();
                    rels.insert(src, v);
                }
                xmls.insert(name.clone(), x);
            }
            parts.insert(name, data);
        }
        Package { names, parts, xmls, rels }
    }

    pub fn xml(&self, part: &str) -> Option<&El> {
        self.xmls.get(part).and_then(|x| x.as_ref().ok())
    }
    pub fn rel(&self, part: &str, id: &str) -> Option<&Rel> {
        self.rels.get(part)?.iter().find(|r| r.id == id)
    }
    pub fn rel_target(&self, part: &str, id: &str) -> Option<String> {
        self.rel(part, id).map(|r| r.target.clone())
    }
    /// The bytes an internal relationship id of `part` points at.
    /// The part an internal relationship leads to.
    pub fn rel_part(&self, part: &str, id: &str) -> Option<String> {
        let r = self.rel(part, id)?;
        (!r.external).then(|| resolve_target(part, &r.target))
    }
    pub fn resolve(&self, part: &str, id: &str) -> Option<Vec<u8>> {
        let r = self.rel(part, id)?;
        if r.external {
            return None;
        }
        self.parts.get(&resolve_target(part, &r.target)).cloned()
    }
    pub fn by_kind(&self, source: &str, kind: &str) -> Option<String> {
        let r = self.rels.get(source)?.iter().find(|r| r.kind() == kind)?;
        Some(resolve_target(source, &r.target))
    }
    pub fn doc_part(&self) -> Option<String> {
        self.by_kind("", "officeDocument")
    }
    pub fn document(&self) -> Option<(String, &El)> {
        let p = self.doc_part()?;
        let x = self.xml(&p)?;
        Some((p, x))
    }
    pub fn related(&self, kind: &str) -> Option<&El> {
        let d = self.doc_part()?;
        self.xml(&self.by_kind(&d, kind)?)
    }
    pub fn comments_part(&self) -> Option<String> {
        let d = self.doc_part()?;
        self.by_kind(&d, "comments")
    }
    pub fn footnotes_part(&self) -> Option<String> {
        let d = self.doc_part()?;
        self.by_kind(&d, "footnotes")
    }
    pub fn comments(&self) -> Option<&El> {
        self.related("comments")
    }
    pub fn footnotes(&self) -> Option<&El> {
        self.related("footnotes")
    }
    pub fn numbering(&self) -> Option<&El> {
        self.related("numbering")
    }
    pub fn styles(&self) -> Option<&El> {
        self.related("styles")
    }
    pub fn settings(&self) -> Option<&El> {
        self.related("settings")
    }

    /// The names of the parts that relationships lead to, starting at the package.
    pub fn reachable(&self) -> BTreeSet<String> {
        let mut reach: BTreeSet<String> = BTreeSet::new();
        let mut todo = vec![String::new()];
        while let Some(s) = todo.pop() {
            for r in self.rels.get(&s).map(|v| v.as_slice()).unwrap_or(&[]) {
                if !r.external {
                    let t = resolve_target(&s, &r.target);
                    if reach.insert(t.clone()) {
                        todo.push(t);
                    }
                }
            }
        }
        reach
    }

    /// Every breach of the closure rules: (short code incl. location, explanation).
    pub fn problems(&self) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = Vec::new();
        let mut bad = |c: String, d: String| out.push((c, d));

        // entries
        let mut seen = BTreeSet::new();
        for n in &self.names {
            let l = n.to_ascii_lowercase();
            if !seen.insert(l) {
                bad(format!("duplicate-entry@{}", role_name(n)), format!("archive has two entries named {n}"));
            }
        }
        for (n, x) in &self.xmls {
            if let Err(e) = x {
                bad(format!("not-well-formed@{}", role_name(n)), format!("{n}: {e}"));
            }
        }
        // content types
        let mut defaults: HashMap<String, String> = HashMap::new();
        let mut overrides: HashMap<String, String> = HashMap::new();
        match self.xml("[Content_Types].xml") {
            None => bad("no-content-types".into(), "no readable [Content_Types].xml".into()),
            Some(root) => {
                for e in root.els() {
                    let ct = e.attr("ContentType").unwrap_or("").to_string();
                    match e.local.as_str() {
                        "Default" => {
                            let ext = e.attr("Extension").unwrap_or("").to_ascii_lowercase();
                            if defaults.insert(ext.clone(), ct).is_some() {
                                bad(format!("duplicate-default@{ext}"), format!("extension {ext} is declared twice"));
                            }
                        }
                        "Override" => {
                            let pn = e.attr("PartName").unwrap_or("").to_string();
                            if overrides.insert(pn.clone(), ct).is_some() {
                                bad(format!("duplicate-override@{}", role_name(&pn)), format!("{pn} is declared twice"));
                            }
                            let p = pn.strip_prefix('/').unwrap_or("?");
                            if !self.parts.contains_key(p) {
                                bad(
                                    format!("override-without-part@{}", role_name(p)),
                                    format!("[Content_Types].xml declares {pn} but the archive has no such part"),
                                );
                            }
                        }
                        o => bad(format!("content-types-child@{o}"), format!("unexpected <{o}> in [Content_Types].xml")),
                    }
                }
            }
        }
        let ctype = |p: &str| -> Option<String> {
            if let Some(c) = overrides.get(&format!("/{p}")) {
                return Some(c.clone());
            }
            let ext = p.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
            defaults.get(&ext).cloned()
        };
        for p in self.parts.keys() {
            if p != "[Content_Types].xml" && ctype(p).is_none() {
                bad(format!("no-content-type@{}", role_name(p)), format!("part {p} has no content type"));
            }
        }
        // relationships
        let reach = self.reachable();
        for (src, rs) in &self.rels {
            let role = if src.is_empty() { "package".to_string() } else { role_name(src) };
            if !src.is_empty() && !self.parts.contains_key(src) {
                bad(format!("rels-without-source@{role}"), format!("relationships exist for {src}, which is not in the archive"));
            }
            let mut ids = BTreeMap::new();
            for r in rs {
                if let Some(prev) = ids.insert(r.id.clone(), r.kind().to_string()) {
                    bad(
                        format!("duplicate-rel-id@{role}:{}+{}", prev, r.kind()),
                        format!("two relationships of {} share the id {}", if src.is_empty() { "the package" } else { src }, r.id),
                    );
                }
                if !r.external {
                    let t = resolve_target(src, &r.target);
                    match self.parts.get(&t) {
                        None => bad(
                            format!("rel-target-missing@{role}:{}", r.kind()),
                            format!("relationship {} ({}) of {} points at {}, which is not in the archive", r.id, r.kind(), role, r.target),
                        ),
                        Some(_) => {
                            if let Some(want) = expected_type(r.kind()) {
                                let got = ctype(&t).unwrap_or_default();
                                let ok = if want.ends_with('*') { got.starts_with(&want[..want.len() - 1]) } else { got == want };
                                if !ok {
                                    bad(
                                        format!("wrong-content-type@{}", r.kind()),
                                        format!("{t} is used as {} but is declared as {got}", r.kind()),
                                    );
                                }
                            }
                        }
                    }
                    let want_ns = ["hyperlink"].contains(&r.kind());
                    if want_ns {
                        bad(format!("hyperlink-internal@{role}"), format!("hyperlink {} of {role} lacks TargetMode=External", r.id));
                    }
                }
            }
        }
        // singleton relations
        let dp = self.doc_part().unwrap_or_default();
        for k in ["styles", "settings", "fontTable", "numbering", "comments", "footnotes", "commentsExtended"] {
            let n = self.rels.get(&dp).map(|v| v.iter().filter(|r| r.kind() == k).count()).unwrap_or(0);
            if n > 1 {
                bad(format!("duplicate-relation@{k}"), format!("{n} relationships of kind {k} from the document"));
            }
        }
        for k in ["officeDocument", "core-properties", "extended-properties", "custom-properties", "webextensiontaskpanes"] {
            let n = self.rels.get("").map(|v| v.iter().filter(|r| r.kind() == k).count()).unwrap_or(0);
            if n > 1 {
                bad(format!("duplicate-relation@{k}"), format!("{n} relationships of kind {k} from the package"));
            }
        }
        if self.document().is_none() {
            bad("no-main-document".into(), "the package relationships do not lead to a readable main document".into());
        }
        // references from XML to relationships
        let (mut use_com, mut use_fn, mut use_num) = (vec![], vec![], vec![]);
        for (part, x) in &self.xmls {
            let Ok(root) = x else { continue };
            if rels_source(part).is_some() {
                continue;
            }
            walk_path(root, &mut Vec::new(), &mut |e, path| {
                for a in &e.attrs {
                    if a.ns != xml::NS_R {
                        continue;
                    }
                    let role = role_name(part);
                    let loc = if role == "comments" || role == "footnotes" {
                        format!("{role}:{}", e.local)
                    } else {
                        format!("{role}:{}", path_of(path, e))
                    };
                    let want = match (e.local.as_str(), a.local.as_str()) {
                        ("hyperlink", "id") => "hyperlink",
                        ("blip", "embed") => "image",
                        ("imagedata", "id") => "image",
                        ("headerReference", "id") => "header",
                        ("footerReference", "id") => "footer",
                        ("webextensionref", "id") => "webextension",
                        (_, "id") | (_, "embed") | (_, "link") => "",
                        _ => continue,
                    };
                    match self.rel(part, &a.value) {
                        None => bad(
                            format!("dangling-rel@{loc}"),
                            format!("{part}: <{}> uses relationship {} which {part} does not declare", e.q(), a.value),
                        ),
                        Some(r) => {
                            if !want.is_empty() && r.kind() != want {
                                bad(
                                    format!("wrong-rel-kind@{loc}"),
                                    format!("{part}: <{}> uses relationship {} of kind {}", e.q(), a.value, r.kind()),
                                );
                            }
                        }
                    }
                }
                let loc = || format!("{}:{}", role_name(part), path_of(path, e));
                let id = e.attr("w:id").unwrap_or("?").to_string();
                match e.q().as_str() {
                    "w:commentReference" | "w:commentRangeStart" | "w:commentRangeEnd" => use_com.push((loc(), id)),
                    "w:footnoteReference" => use_fn.push((loc(), id)),
                    "w:numId" if path.last().map(|p| p.as_str()) == Some("numPr") => {
                        use_num.push((loc(), e.attr("w:val").unwrap_or("?").to_string()))
                    }
                    _ => {}
                }
            });
        }
        let ids_of = |root: Option<&El>, q: &str, at: &str| -> Option<Vec<String>> {
            root.map(|r| r.els().filter(|e| e.is(q)).map(|e| e.attr(at).unwrap_or("?").to_string()).collect())
        };
        for (name, used, have, q) in [
            ("comment", &use_com, ids_of(self.comments(), "w:comment", "w:id"), "comments"),
            ("footnote", &use_fn, ids_of(self.footnotes(), "w:footnote", "w:id"), "footnotes"),
            ("numbering", &use_num, ids_of(self.numbering(), "w:num", "w:numId"), "numbering"),
        ] {
            if name == "numbering" {
                // a reference to an undefined or zero numbering is the user's choice; only the relation is required
                if let (Some((loc, id)), None) = (used.iter().find(|u| u.1 != "0"), &have) {
                    bad(format!("{name}-unrelated@{loc}"), format!("numbering {id} is used but the document has no {q} relationship"));
                }
                continue;
            }
            for (loc, id) in used {
                match &have {
                    None => bad(format!("{name}-unrelated@{loc}"), format!("{name} {id} is used but the document has no {q} relationship")),
                    Some(h) if !h.contains(id) => {
                        bad(format!("{name}-undefined@{loc}"), format!("{name} {id} is used but is not defined in the {q} part"))
                    }
                    _ => {}
                }
            }
            if let Some(h) = &have {
                let s: BTreeSet<_> = h.iter().collect();
                if s.len() != h.len() {
                    bad(format!("duplicate-{name}-id"), format!("{name} ids repeat in the {q} part: {h:?}"));
                }
            }
        }
        // reachability: parts that carry nothing the document uses may stay unrelated
        for p in self.parts.keys() {
            if p == "[Content_Types].xml" || rels_source(p).is_some() || reach.contains(p) {
                continue;
            }
            let idle = match p.as_str() {
                "word/comments.xml" => self.xml(p).map_or(false, |r| r.els().count() == 0),
                "word/footnotes.xml" => use_fn.is_empty(),
                "word/numbering.xml" => use_num.iter().all(|u| u.1 == "0"),
                _ => false,
            };
            if !idle {
                bad(format!("unreachable@{}", role_name(p)), format!("part {p} cannot be reached through relationships"));
            }
        }
        let mut u = BTreeSet::new();
        out.retain(|x| u.insert(x.clone()));
        out
    }
}

fn walk_path(e: &El, path: &mut Vec<String>, f: &mut dyn FnMut(&El, &[String])) {
    f(e, path);
    path.push(e.local.clone());
    for k in e.els() {
        walk_path(k, path, f);
    }
    path.pop();
}

/// Containers between the part root and an element, without the noise levels.
pub fn path_of(path: &[String], e: &El) -> String {
    const SKIP: [&str; 16] = [
        "document", "body", "tr", "tc", "sdtContent", "drawing", "inline", "anchor", "graphic", "graphicData", "pic",
        "blipFill", "hdr", "ftr", "comments", "footnotes",
    ];
    let mut v: Vec<&str> = path.iter().map(|s| s.as_str()).filter(|s| !SKIP.contains(s)).collect();
    v.push(&e.local);
    v.join("/")
}

/// Part name without its numbers, as a stable role.
pub fn role_name(p: &str) -> String {
    let b = p.rsplit('/').next().unwrap_or(p);
    let s: String = if p.contains("media/") { "media".into() } else { b.chars().filter(|c| !c.is_ascii_digit()).collect() };
    s.trim_end_matches(".xml").to_string()
}

fn expected_type(kind: &str) -> Option<&'static str> {
    Some(match kind {
        "officeDocument" => "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml",
        "styles" => "application/vnd.openxmlformats-officedocument.wordprocessingml.styles+xml",
        "settings" => "application/vnd.openxmlformats-officedocument.wordprocessingml.settings+xml",
        "fontTable" => "application/vnd.openxmlformats-officedocument.wordprocessingml.fontTable+xml",
        "numbering" => "application/vnd.openxmlformats-officedocument.wordprocessingml.numbering+xml",
        "comments" => "application/vnd.openxmlformats-officedocument.wordprocessingml.comments+xml",
        "commentsExtended" => "application/vnd.openxmlformats-officedocument.wordprocessingml.commentsExtended+xml",
        "footnotes" => "application/vnd.openxmlformats-officedocument.wordprocessingml.footnotes+xml",
        "header" => "application/vnd.openxmlformats-officedocument.wordprocessingml.header+xml",
        "footer" => "application/vnd.openxmlformats-officedocument.wordprocessingml.footer+xml",
        "core-properties" => "application/vnd.openxmlformats-package.core-properties+xml",
        "extended-properties" => "application/vnd.openxmlformats-officedocument.extended-properties+xml",
        "custom-properties" => "application/vnd.openxmlformats-officedocument.custom-properties+xml",
        "customXml" => "application/xml",
        "customXmlProps" => "application/vnd.openxmlformats-officedocument.customXmlProperties+xml",
        "webextension" => "application/vnd.ms-office.webextension+xml",
        "webextensiontaskpanes" => "application/vnd.ms-office.webextensiontaskpanes+xml",
        "image" => "image/*",
        _ => return None,
    })
}

#[allow(dead_code)]
pub fn rel_prefixes() -> [&'static str; 2] {
    [REL, PREL]
}
