//! Minimal strict ZIP reader/writer, independent of the code under test.

use flate2::{Decompress, FlushDecompress};

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u16,
    /// offset of the raw data in the archive, and its length
    pub off: usize,
    pub clen: usize,
}

fn u16le(b: &[u8], i: usize) -> Result<usize, String> {
    b.get(i..i + 2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize).ok_or_else(|| "short archive".to_string())
}
fn u32le(b: &[u8], i: usize) -> Result<usize, String> {
    b.get(i..i + 4)
        .map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize)
        .ok_or_else(|| "short archive".to_string())
}

pub fn read(b: &[u8]) -> Result<Vec<Entry>, String> {
    let eocd = (0..b.len().saturating_sub(21))
        .rev()
        .find(|i| b[*i..].starts_with(b"PK\x05\x06"))
        .ok_or("no end of central directory")?;
    let n = u16le(b, eocd + 10)?;
    if u16le(b, eocd + 8)? != n {
        return Err("entry counts disagree".into());
    }
    let csize = u32le(b, eocd + 12)?;
    let mut c = u32le(b, eocd + 16)?;
    if c + csize != eocd {
        return Err("central directory does not end at its trailer".into());
    }
    let mut out = Vec::new();
    for _ in 0..n {
        if !b.get(c..).unwrap_or(&[]).starts_with(b"PK\x01\x02") {
            return Err("bad central directory entry".into());
        }
        let method = u16le(b, c + 10)?;
        let crc = u32le(b, c + 16)?;
        let clen = u32le(b, c + 20)?;
        let ulen = u32le(b, c + 24)?;
        let nl = u16le(b, c + 28)?;
        let el = u16le(b, c + 30)?;
        let cl = u16le(b, c + 32)?;
        let lo = u32le(b, c + 42)?;
        let name = String::from_utf8(b.get(c + 46..c + 46 + nl).ok_or("short")?.to_vec()).map_err(|_| "name not UTF-8")?;
        c += 46 + nl + el + cl;
        if !b.get(lo..).unwrap_or(&[]).starts_with(b"PK\x03\x04") {
            return Err(format!("{name}: bad local header"));
        }
        let lnl = u16le(b, lo + 26)?;
        let lel = u16le(b, lo + 28)?;
        if b.get(lo + 30..lo + 30 + lnl) != Some(name.as_bytes()) {
            return Err(format!("{name}: local name differs"));
        }
        let off = lo + 30 + lnl + lel;
        let raw = b.get(off..off + clen).ok_or("short data")?;
        let data = match method {
            0 => raw.to_vec(),
            8 => {
                let mut d = Decompress::new(false);
                let mut v = Vec::with_capacity(ulen + 16);
                d.decompress_vec(raw, &mut v, FlushDecompress::Finish).map_err(|e| format!("{name}: {e}"))?;
                v
            }
            m => return Err(format!("{name}: method {m}")),
        };
        if data.len() != ulen {
            return Err(format!("{name}: size differs"));
        }
        let mut h = crc32fast::Hasher::new();
        h.update(&data);
        if h.finalize() as usize != crc {
            return Err(format!("{name}: CRC differs"));
        }
        out.push(Entry { name, data, method: method as u16, off, clen });
    }
    Ok(out)
}

/// How an archive is written.
#[derive(Clone)]
pub struct Style {
    pub deflate: bool,
    /// Sizes follow the data.
    pub descriptor: bool,
    /// Entries for the folders.
    pub folders: bool,
    /// An extra field with a time stamp.
    pub extra: bool,
    pub utf8: bool,
    pub comment: Vec<u8>,
    /// Only this entry is compressed.
    pub only: Option<usize>,
}

impl Default for Style {
    fn default() -> Self {
        Style { deflate: false, descriptor: false, folders: false, extra: false, utf8: true, comment: vec![], only: None }
    }
}

/// Writes a plain archive with stored entries.
pub fn write_stored(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    write_with(parts, &Style::default())
}

pub fn write_with(parts: &[(String, Vec<u8>)], style: &Style) -> Vec<u8> {
    let mut all: Vec<(String, Vec<u8>, bool)> = vec![];
    for (i, (n, d)) in parts.iter().enumerate() {
        if style.folders {
            if let Some((f, _)) = n.rsplit_once('/') {
                let f = format!("{f}/");
                if !all.iter().any(|x| x.0 == f) {
                    all.push((f, vec![], false));
                }
            }
        }
        all.push((n.clone(), d.clone(), style.deflate && style.only.is_none_or(|o| o == i)));
    }
    let extra: &[u8] = if style.extra { &[0x55, 0x54, 5, 0, 1, 0, 0, 0, 0x5e] } else { &[] };
    let mut out = Vec::new();
    let mut cd = Vec::new();
    for (name, data, deflate) in &all {
        let mut h = crc32fast::Hasher::new();
        h.update(data);
        let crc = h.finalize();
        let off = out.len() as u32;
        let packed = if *deflate {
            use std::io::Write;
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::default());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        } else {
            data.clone()
        };
        let flags = if style.utf8 { 0x0800u16 } else { 0 } | if style.descriptor { 8 } else { 0 };
        let head = |late: bool| {
            let mut c = Vec::new();
            c.extend_from_slice(&20u16.to_le_bytes());
            c.extend_from_slice(&flags.to_le_bytes());
            c.extend_from_slice(&(if *deflate { 8u16 } else { 0 }).to_le_bytes());
            c.extend_from_slice(&[0, 0, 0x21, 0]);
            for v in [crc, packed.len() as u32, data.len() as u32] {
                c.extend_from_slice(&(if late { 0 } else { v }).to_le_bytes());
            }
            c.extend_from_slice(&(name.len() as u16).to_le_bytes());
            c.extend_from_slice(&(extra.len() as u16).to_le_bytes());
            c
        };
        out.extend_from_slice(b"PK\x03\x04");
        out.extend_from_slice(&head(style.descriptor));
        out.extend_from_slice(name.as_bytes());
        out.extend_from_slice(extra);
        out.extend_from_slice(&packed);
        if style.descriptor {
            out.extend_from_slice(b"PK\x07\x08");
            for v in [crc, packed.len() as u32, data.len() as u32] {
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
        cd.extend_from_slice(b"PK\x01\x02");
        cd.extend_from_slice(&20u16.to_le_bytes());
        cd.extend_from_slice(&head(false));
        cd.extend_from_slice(&0u16.to_le_bytes());
        cd.extend_from_slice(&0u16.to_le_bytes());
        cd.extend_from_slice(&0u16.to_le_bytes());
        cd.extend_from_slice(&0u32.to_le_bytes());
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(name.as_bytes());
        cd.extend_from_slice(extra);
    }
    let cdo = out.len() as u32;
    out.extend_from_slice(&cd);
    out.extend_from_slice(b"PK\x05\x06");
    out.extend_from_slice(&[0; 4]);
    out.extend_from_slice(&(all.len() as u16).to_le_bytes());
    out.extend_from_slice(&(all.len() as u16).to_le_bytes());
    out.extend_from_slice(&(cd.len() as u32).to_le_bytes());
    out.extend_from_slice(&cdo.to_le_bytes());
    out.extend_from_slice(&(style.comment.len() as u16).to_le_bytes());
    out.extend_from_slice(&style.comment);
    out
}
