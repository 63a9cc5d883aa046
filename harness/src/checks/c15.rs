//! C15: packing reports every write failure and tolerates every short write.

use super::Meta;
use crate::corpus::*;
use crate::explore::*;
use crate::gen::*;
use crate::Tier;
use docx_rs::*;
use std::io::{Error, ErrorKind, Result as Io, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex, OnceLock};

pub fn meta() -> Meta {
    Meta {
        level: "fault_enumeration",
        assumptions: vec![
            "the archive library's own finishing attempt after an error may write further bytes; they are not judged".into(),
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// this call fails, later calls work
    Once(ErrorKind),
    /// this call and all later ones fail
    Dead(ErrorKind),
    /// a write reports that nothing was accepted
    Zero,
    /// a write accepts one byte
    One,
    /// a write accepts half
    Half,
    Interrupted,
}

#[derive(Default)]
struct Log {
    calls: Vec<u8>,
    out: Vec<u8>,
    pos: usize,
    dead: Option<ErrorKind>,
    failed: bool,
}

/// In-memory destination whose behaviour at each call is chosen by the explorer.
struct Dest<'a> {
    log: Arc<Mutex<Log>>,
    plan: &'a (dyn Fn(usize, u8) -> Fault + Sync),
}

impl Dest<'_> {
    fn call(&self, kind: u8) -> (std::sync::MutexGuard<'_, Log>, Io<Fault>) {
        let mut g = self.log.lock().unwrap();
        let k = g.calls.len();
        g.calls.push(kind);
        if let Some(e) = g.dead {
            return (g, Err(Error::new(e, "dead")));
        }
        let r = match (self.plan)(k, kind) {
            Fault::Once(e) => {
                g.failed = true;
                Err(Error::new(e, "once"))
            }
            Fault::Dead(e) => {
                g.failed = true;
                g.dead = Some(e);
                Err(Error::new(e, "dead"))
            }
            Fault::Interrupted => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            f => Ok(f),
        };
        (g, r)
    }
}

impl Write for Dest<'_> {
    fn write(&mut self, b: &[u8]) -> Io<usize> {
        let (mut g, r) = self.call(b'w');
        let n = match r? {
            Fault::Zero if !b.is_empty() => {
                g.failed = true;
                return Ok(0);
            }
            Fault::One => b.len().min(1),
            Fault::Half => b.len().div_ceil(2),
            _ => b.len(),
        };
        let p = g.pos;
        if g.out.len() < p + n {
            g.out.resize(p + n, 0);
        }
        g.out[p..p + n].copy_from_slice(&b[..n]);
        g.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> Io<()> {
        self.call(b'f').1.map(|_| ())
    }
}

impl Seek for Dest<'_> {
    fn seek(&mut self, s: SeekFrom) -> Io<u64> {
        let (mut g, r) = self.call(b's');
        r?;
        let to = match s {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => g.out.len() as i64 + n,
            SeekFrom::Current(n) => g.pos as i64 + n,
        };
        if to < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "before start"));
        }
        g.pos = to as usize;
        Ok(to as u64)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Route {
    Stream,
    Build,
}

fn attempt(d: Docx, route: Route, plan: &(dyn Fn(usize, u8) -> Fault + Sync)) -> (Result<Result<(), String>, String>, Log) {
    let log = Arc::new(Mutex::new(Log::default()));
    let dest = Dest { log: log.clone(), plan };
    let r = guarded(move || {
        match route {
            Route::Stream => d.pack(dest),
            Route::Build => d.build().pack(dest),
        }
        .map_err(|e| e.to_string())
    });
    let log = std::mem::take(&mut *log.lock().unwrap_or_else(|e| e.into_inner()));
    (r, log)
}

const DOCS: &[&str] = &["empty", "text", "rich", "media"];

fn noise(n: usize) -> Vec<u8> {
    let mut x = 0x2545f4914f6cdd1du64;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect()
}

fn doc(name: &str) -> &'static Docx {
    static CACHE: OnceLock<Vec<Docx>> = OnceLock::new();
    let all = CACHE.get_or_init(|| {
        vec![
            Docx::new(),
            Docx::new().add_paragraph(Paragraph::new().id("00000011").add_run(Run::new().add_text("hello"))),
            {
                let c = |i: usize| Comment::new(i).author("a").date("2024-01-01T00:00:00Z").add_paragraph(Paragraph::new().id(format!("000001{i:02}")).add_run(Run::new().add_text("c")));
                let p = |i: usize, t: &str| Paragraph::new().id(format!("000002{i:02}")).add_run(Run::new().add_text(t));
                Docx::new()
                    .header(Header::new().add_paragraph(p(1, "h")))
                    .first_footer(Footer::new().add_paragraph(p(2, "f").add_run(Run::new().add_image(Pic::new_with_dimensions(png(1), 1, 1)))))
                    .add_abstract_numbering(AbstractNumbering::new(2))
                    .add_numbering(Numbering::new(2, 2))
                    .add_paragraph(p(3, "x").add_comment_start(c(1)).add_comment_end(1).add_hyperlink(Hyperlink::new("http://e/", HyperlinkType::External).add_run(Run::new().add_text("l"))))
                    .add_table(Table::new(vec![TableRow::new(vec![TableCell::new().add_paragraph(p(4, "cell"))])]))
                    .add_paragraph(p(5, "n").add_run(Run::new().add_footnote_reference(Footnote::new().add_content(p(6, "note")))))
                    .taskpanes()
                    .web_extension(WebExtension::new("i", "s", "1.0", "st", "t"))
                    .add_custom_item("06AC5857-5C65-A94A-BCEC-37356A209BC3", "<root/>")
                    .custom_property("k", "v")
            },
            Docx::new().add_paragraph(
                Paragraph::new()
                    .id("00000031")
                    .add_run(Run::new().add_image(Pic::new_with_dimensions(noise(150_000), 1, 1)))
                    .add_run(Run::new().add_image(Pic::new_with_dimensions(png(3), 1, 1))),
            ),
        ]
    });
    &all[DOCS.iter().position(|d| *d == name).unwrap()]
}

/// The call sequence and archive of an ideal destination.
fn ideal(name: &str, route: Route) -> &'static (Vec<u8>, Vec<u8>) {
    static CACHE: OnceLock<Vec<(Vec<u8>, Vec<u8>)>> = OnceLock::new();
    let all = CACHE.get_or_init(|| {
        let mut v = Vec::new();
        for d in DOCS {
            for r in [Route::Stream, Route::Build] {
                let (x, log) = attempt(doc(d).clone(), r, &|_, _| Fault::None);
                x.expect("panic while packing to an ideal destination").expect("error while packing to an ideal destination");
                let (_, again) = attempt(doc(d).clone(), r, &|_, _| Fault::None);
                assert!(again.calls == log.calls && again.out == log.out, "packing the same value twice differs");
                v.push((log.calls, log.out));
            }
        }
        v
    });
    let i = DOCS.iter().position(|d| *d == name).unwrap() * 2 + (route == Route::Build) as usize;
    &all[i]
}

fn judge(l: &mut Leaf, name: &str, route: Route, plan: &(dyn Fn(usize, u8) -> Fault + Sync), must_succeed: bool) {
    let want = ideal(name, route);
    let d = doc(name).clone();
    let (r, log) = attempt(d.clone(), route, plan);
    l.evals += 1;
    l.transitions += log.calls.len() as u64;
    match r {
        Err(p) => l.fail(format!("panic:{}", panic_class(&p)), format!("packing panicked: {p}")),
        Ok(Ok(())) => {
            if log.failed {
                l.fail("failure-hidden", "the destination failed and packing reported success");
            } else if log.out != want.1 {
                l.fail("archive-differs", format!("packing reported success with {} bytes that differ from the ideal destination's {}", log.out.len(), want.1.len()));
            }
            l.outcome = "ok".into();
        }
        Ok(Err(e)) => {
            if must_succeed {
                l.fail("spurious-error", format!("packing failed although the destination accepted everything: {e}"));
            }
            l.outcome = "error".into();
            let other = if route == Route::Stream { Route::Build } else { Route::Stream };
            let (r, log) = attempt(d, other, &|_, _| Fault::None);
            let full = matches!(r, Ok(Ok(()))) && log.out == ideal(name, other).1;
            if !full {
                l.fail("not-repeatable", format!("packing again after a failure: {r:?}"));
            }
        }
    }
    l.validated += 1;
}

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::WriteZero];

pub fn phases(t: Tier) -> Vec<Phase> {
    let quick = t == Tier::Quick;
    let mut v = Vec::new();
    v.push(Phase::new("one-fault", "every call of the destination (write, seek, flush) x {fails once, fails from then on; five error kinds; accepts nothing; is interrupted}, four documents, both routes", move |ch: &mut Chooser, l: &mut Leaf| {
        let name = *ch.pick(DOCS);
        let route = *ch.pick(&[Route::Stream, Route::Build]);
        let kinds = if quick && (name == "media" || name == "text") { 1 } else { KINDS.len() };
        let mut faults: Vec<Fault> = Vec::new();
        for k in &KINDS[..kinds] {
            faults.push(Fault::Once(*k));
            faults.push(Fault::Dead(*k));
        }
        faults.push(Fault::Zero);
        faults.push(Fault::Interrupted);
        let f = *ch.pick(&faults);
        let at = ch.choose(ideal(name, route).0.len());
        l.label = format!("{name} {route:?} {f:?} at {at}");
        if f == Fault::Zero && ideal(name, route).0[at] != b'w' {
            l.skip = true;
            return;
        }
        judge(l, name, route, &|k, _| if k == at { f } else { Fault::None }, f == Fault::Interrupted);
    }));
    v.push(Phase::new("short-writes", "every write accepting one byte or half, from every call on, for a stretch of 1, 2 or all later writes (in the quick tier the last from the first 20 and every 8th call on), four documents, both routes", move |ch: &mut Chooser, l: &mut Leaf| {
        let name = *ch.pick(DOCS);
        let route = *ch.pick(&[Route::Stream, Route::Build]);
        let f = *ch.pick(&[Fault::One, Fault::Half]);
        let stretch = *ch.pick(&[1usize, 2, usize::MAX]);
        let at = ch.choose(ideal(name, route).0.len());
        l.label = format!("{name} {route:?} {f:?} x{stretch} from {at}");
        if ideal(name, route).0[at] != b'w' || (quick && stretch == usize::MAX && at > 20 && at % 8 != 0) || (name == "media" && f == Fault::One && stretch == usize::MAX && at > 8) {
            l.skip = true;
            return;
        }
        judge(l, name, route, &|k, _| if k >= at && k - at < stretch { f } else { Fault::None }, true);
    }));
    let step = if quick { 7 } else { 1 };
    v.push(Phase::new("two-faults", format!("a short or interrupted write at every call followed by a failure at every {step}. later call, and every pair of short writes, smallest document"), move |ch: &mut Chooser, l: &mut Leaf| {
        let route = *ch.pick(&[Route::Stream, Route::Build]);
        let n = ideal("empty", route).0.len();
        let f1 = *ch.pick(&[Fault::One, Fault::Half, Fault::Interrupted]);
        let f2 = *ch.pick(&[Fault::Once(ErrorKind::Other), Fault::Dead(ErrorKind::Other), Fault::Zero, Fault::One]);
        let at = ch.choose(n);
        let gap = ch.choose(n / step) * step + 1;
        l.label = format!("{route:?} {f1:?} at {at}, {f2:?} {gap} later");
        if at + gap >= n {
            l.skip = true;
            return;
        }
        let must = f2 == Fault::One;
        judge(l, "empty", route, &|k, _| if k == at { f1 } else if k == at + gap { f2 } else { Fault::None }, must);
    }));
    v
}
