//! Property containers as plain trees: what a formatting setting should look like on paper.

use crate::xml::El;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct T {
    pub name: String,
    pub at: BTreeMap<String, String>,
    pub kids: Vec<T>,
}

/// Elements whose value is on/off: absent, 1, true and on are the same.
const TOGGLES: &[&str] = &[
    "b", "bCs", "i", "iCs", "caps", "strike", "dstrike", "vanish", "specVanish", "keepNext", "keepLines", "pageBreakBefore",
    "widowControl", "bidi", "snapToGrid", "adjustRightInd", "titlePg", "cantSplit", "tblHeader", "noWrap", "isLgl", "evenAndOddHeaders",
    "qFormat", "semiHidden", "unhideWhenUsed", "autoHyphenation",
];
/// Containers whose children may come in any order.
const UNORDERED: &[&str] = &[
    "rPr", "pPr", "pBdr", "tblPr", "trPr", "tcPr", "tblBorders", "tcBorders", "tblCellMar", "tcMar", "sectPr", "rPrDefault", "pPrDefault",
    "docDefaults", "settings", "style", "lvl", "numPr", "compat",
];

impl T {
    pub fn new(name: &str, at: &[(&str, &str)]) -> T {
        T { name: name.into(), at: at.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids: vec![] }.norm()
    }
    pub fn with(name: &str, kids: Vec<T>) -> T {
        T { name: name.into(), at: BTreeMap::new(), kids }.norm()
    }
    pub fn of(e: &El) -> T {
        T {
            name: e.q().trim_start_matches("w:").to_string(),
            at: e.attrs.iter().filter(|a| a.prefix != "xmlns" && a.local != "xmlns").map(|a| (a.q().trim_start_matches("w:").to_string(), a.value.clone())).collect(),
            kids: e.els().map(T::of).collect(),
        }
        .norm()
    }
    pub fn norm(mut self) -> T {
        if TOGGLES.contains(&self.name.as_str()) {
            let v = match self.at.get("val").map(|s| s.as_str()) {
                None | Some("1") | Some("true") | Some("on") => "1".to_string(),
                Some("0") | Some("false") | Some("off") => "0".to_string(),
                Some(o) => o.to_string(),
            };
            self.at.insert("val".into(), v);
        }
        if UNORDERED.contains(&self.name.as_str()) {
            self.kids.sort();
        }
        self
    }
    pub fn show(&self) -> String {
        let mut s = self.name.clone();
        if !self.at.is_empty() {
            s += "[";
            s += &self.at.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ");
            s += "]";
        }
        if !self.kids.is_empty() {
            s += "(";
            s += &self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ");
            s += ")";
        }
        s
    }
}

/// A container being filled by setters: one element per name.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Box_(pub BTreeMap<String, T>);

impl Box_ {
    pub fn set(&mut self, name: &str, at: &[(&str, &str)]) {
        self.0.insert(name.into(), T::new(name, at));
    }
    pub fn put(&mut self, t: T) {
        self.0.insert(t.name.clone(), t.norm());
    }
    pub fn del(&mut self, name: &str) {
        self.0.remove(name);
    }
    /// Sets attributes of an element that may already be there.
    pub fn merge(&mut self, name: &str, fresh: &[(&str, &str)], at: &[(&str, &str)]) {
        let e = self.0.entry(name.into()).or_insert_with(|| T::new(name, fresh));
        for (k, v) in at {
            e.at.insert(k.to_string(), v.to_string());
        }
    }
    pub fn child(&mut self, name: &str) -> &mut T {
        self.0.entry(name.into()).or_insert_with(|| T::new(name, &[]))
    }
    pub fn list(&self) -> Vec<T> {
        let mut v: Vec<T> = self.0.values().cloned().collect();
        v.sort();
        v
    }
}

/// First difference between what should be in a container and what is.
pub fn diff(want: &[T], got: &[T]) -> Option<(String, String)> {
    let mut w = want.to_vec();
    w.sort();
    let mut g = got.to_vec();
    g.sort();
    if w == g {
        return None;
    }
    let missing: Vec<&T> = w.iter().filter(|x| !g.contains(x)).collect();
    let extra: Vec<&T> = g.iter().filter(|x| !w.contains(x)).collect();
    let key = match (missing.first(), extra.first()) {
        (Some(m), Some(e)) if extra.iter().any(|x| x.name == m.name) || m.name == e.name => {
            let e = extra.iter().find(|x| x.name == m.name).unwrap_or(e);
            let a: Vec<String> = m
                .at
                .keys()
                .chain(e.at.keys())
                .filter(|k| m.at.get(*k) != e.at.get(*k))
                .cloned()
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .collect();
            if a.is_empty() {
                format!("{} differs in content", m.name)
            } else {
                format!("{}@{} differs", m.name, a.join(","))
            }
        }
        (Some(m), _) => format!("{} missing", m.name),
        (None, Some(e)) => format!("{} not asked for", e.name),
        (None, None) => "element repeated".to_string(),
    };
    let show = |v: &[&T]| v.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ");
    Some((key, format!("missing: {} | unexpected: {}", show(&missing), show(&extra))))
}
