//! The registered checks: each property id maps to a list of exhaustively explored phases.

use crate::explore::Phase;
use crate::Tier;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;
pub mod c32;

/// A document with what it was told to hold.
pub struct Case {
    pub name: String,
    /// equal for documents that mean the same
    pub want: String,
    pub make: Box<dyn Fn() -> docx_rs::Docx + Send + Sync>,
}
/// Documents that differ from the first one in a single respect.
pub struct Group {
    pub name: String,
    pub cases: Vec<Case>,
}

pub struct Meta {
    pub level: &'static str,
    pub assumptions: Vec<String>,
}

type Entry = (&'static str, fn(Tier) -> Vec<Phase>, fn() -> Meta);

const TABLE: &[Entry] = &[
    ("C01", c01::phases, c01::meta),
    ("C02", c02::phases, c02::meta),
    ("C03", c03::phases, c03::meta),
    ("C04", c04::phases, c04::meta),
    ("C05", c05::phases, c05::meta),
    ("C06", c06::phases, c06::meta),
    ("C07", c07::phases, c07::meta),
    ("C08", c08::phases, c08::meta),
    ("C09", c09::phases, c09::meta),
    ("C10", c10::phases, c10::meta),
    ("C11", c11::phases, c11::meta),
    ("C12", c12::phases, c12::meta),
    ("C13", c13::phases, c13::meta),
    ("C14", c14::phases, c14::meta),
    ("C15", c15::phases, c15::meta),
    ("C16", c16::phases, c16::meta),
    ("C17", c17::phases, c17::meta),
    ("C18", c18::phases, c18::meta),
    ("C19", c19::phases, c19::meta),
    ("C20", c20::phases, c20::meta),
    ("C21", c21::phases, c21::meta),
    ("C22", c22::phases, c22::meta),
    ("C23", c23::phases, c23::meta),
    ("C24", c24::phases, c24::meta),
    ("C25", c25::phases, c25::meta),
    ("C26", c26::phases, c26::meta),
    ("C27", c27::phases, c27::meta),
    ("C28", c28::phases, c28::meta),
    ("C29", c29::phases, c29::meta),
    ("C30", c30::phases, c30::meta),
    ("C31", c31::phases, c31::meta),
    ("C32", c32::phases, c32::meta),
];

pub fn ids() -> Vec<&'static str> {
    TABLE.iter().map(|e| e.0).collect()
}

pub fn phases(id: &str, tier: Tier) -> Option<Vec<Phase>> {
    TABLE.iter().find(|e| e.0 == id).map(|e| (e.1)(tier))
}

pub fn meta(id: &str) -> Meta {
    TABLE.iter().find(|e| e.0 == id).map(|e| (e.2)()).expect("unknown id")
}

/// Small ad-hoc probes used while developing.
pub fn debug(args: &[&str]) {
    match args {
        ["doc", host, feature] => {
            let f = crate::corpus::features().into_iter().find(|f| f.0 == *feature).expect("feature");
            let d = crate::corpus::place(host, (f.1)(1), 1);
            let bytes = crate::gen::pack_build(d.to_docx()).expect("pack");
            let p = crate::opc::Package::open(&bytes).expect("open");
            for (n, b) in &p.parts {
                if n.contains("media") {
                    continue;
                }
                println!("=== {n}\n{}", String::from_utf8_lossy(b));
            }
            println!("=== neutral\n{}", crate::gen::doc_show(&crate::gen::from_package(&p)));
            for x in p.problems() {
                println!("problem {x:?}");
            }
        }
        _ => eprintln!("unknown debug request"),
    }
}
