//! Manifest text as duplicity writes it.

use crate::util::{Bytes, Mix};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct VolM {
    pub start: Bytes,
    pub start_block: Option<u64>,
    pub end: Bytes,
    pub end_block: Option<u64>,
    pub hash_type: String,
    pub hash: Bytes,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ManM {
    pub host: String,
    pub dir: Bytes,
    pub vols: Vec<VolM>,
}

/// duplicity's `Quote`.
pub fn quote(s: &[u8]) -> Vec<u8> {
    let special = |b: u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c | b'\\' | b'"' | b'\'');
    if !s.iter().any(|b| special(*b)) {
        return s.to_vec();
    }
    let mut r = vec![b'"'];
    for &b in s {
        if special(b) {
            r.extend_from_slice(format!("\\x{:02x}", b).as_bytes());
        } else {
            r.push(b);
        }
    }
    r.push(b'"');
    r
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Words of one line; the writer decides on spacing.
pub type Line = Vec<Vec<u8>>;

pub fn lines(m: &ManM) -> Vec<Line> {
    let mut v: Vec<Line> = vec![
        vec![b"Hostname".to_vec(), m.host.clone().into_bytes()],
        vec![b"Localdir".to_vec(), quote(&m.dir.0)],
    ];
    for (i, vol) in m.vols.iter().enumerate() {
        v.push(vec![b"Volume".to_vec(), format!("{}:", i + 1).into_bytes()]);
        for (k, p, b) in [
            ("StartingPath", &vol.start, vol.start_block),
            ("EndingPath", &vol.end, vol.end_block),
        ] {
            let mut l = vec![k.as_bytes().to_vec(), quote(&p.0)];
            if let Some(n) = b {
                l.push(n.to_string().into_bytes());
            }
            v.push(l);
        }
        v.push(vec![b"Hash".to_vec(), vol.hash_type.clone().into_bytes(), hex(&vol.hash.0).into_bytes()]);
    }
    v
}

/// Spacing seed 0 is exactly what duplicity writes.
pub fn render(ls: &[Line], spacing: u64) -> Vec<u8> {
    let mut m = Mix::new(spacing);
    let crlf = spacing != 0 && m.one_in(3);
    let last_newline = spacing == 0 || m.one_in(2);
    let mut out = Vec::new();
    for (n, l) in ls.iter().enumerate() {
        let key: &[u8] = l.first().map(|k| &k[..]).unwrap_or(b"");
        let inner = matches!(key, b"StartingPath" | b"EndingPath" | b"Hash");
        if spacing == 0 {
            if inner {
                out.extend_from_slice(b"    ");
            }
            for (i, w) in l.iter().enumerate() {
                if i > 0 {
                    out.push(b' ');
                }
                if i == 1 {
                    match key {
                        b"StartingPath" => out.extend_from_slice(b"  "),
                        b"EndingPath" => out.extend_from_slice(b"    "),
                        _ => (),
                    }
                }
                out.extend_from_slice(w);
            }
            // a missing block number leaves blanks
            if (key == b"StartingPath" || key == b"EndingPath") && l.len() == 2 {
                out.extend_from_slice(b"  ");
            }
        } else {
            let ind = if m.one_in(2) { m.below(9) } else if inner { 4 } else { 0 };
            out.resize(out.len() + ind as usize, b' ');
            for (i, w) in l.iter().enumerate() {
                if i > 0 {
                    let k = 1 + if m.one_in(2) { 0 } else { m.below(4) };
                    out.resize(out.len() + k as usize, b' ');
                }
                out.extend_from_slice(w);
            }
            let k = if m.one_in(2) { 0 } else { m.below(4) };
            out.resize(out.len() + k as usize, b' ');
        }
        let last = n + 1 == ls.len();
        if !last || last_newline {
            if crlf || (spacing != 0 && m.one_in(12)) {
                out.push(b'\r');
            }
            out.push(b'\n');
        }
    }
    out
}

pub fn text(m: &ManM, spacing: u64) -> Vec<u8> {
    render(&lines(m), spacing)
}

pub fn expected(m: &ManM) -> crate::dump::ManDump {
    crate::dump::ManDump {
        host: m.host.clone(),
        dir: m.dir.0.clone(),
        vols: m
            .vols
            .iter()
            .map(|v| crate::dump::VolDump {
                start: v.start.0.clone(),
                start_block: v.start_block.map(|n| n as usize),
                end: v.end.0.clone(),
                end_block: v.end_block.map(|n| n as usize),
                hash_type: v.hash_type.clone(),
                hash: v.hash.0.clone(),
            })
            .collect(),
    }
}
