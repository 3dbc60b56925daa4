//! A tar writer of our own, able to write every encoding a tar library may use for the headers of
//! a signature archive.

use crate::util::Mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Magic {
    Gnu,
    Ustar,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Num {
    /// zero padded octal ended by NUL
    OctalNul,
    /// octal ended by a space
    OctalSpace,
    /// octal, blank padded on the left
    OctalPad,
    /// base-256
    Binary,
}

#[derive(Clone, Debug)]
pub struct Member {
    /// full member name, with the `signature/`, `snapshot/` or `deleted/` prefix
    pub name: Vec<u8>,
    pub link: Option<Vec<u8>>,
    pub typeflag: u8,
    pub mode: Option<u64>,
    pub uid: Option<u64>,
    pub gid: Option<u64>,
    /// `None` writes a blank field
    pub mtime: Option<i64>,
    pub uname: Vec<u8>,
    pub gname: Vec<u8>,
    pub data: Vec<u8>,
    pub enc: Enc,
}

#[derive(Clone, Copy, Debug)]
pub struct Enc {
    pub magic: Magic,
    pub num: Num,
    /// write long names with PAX records rather than GNU members
    pub pax: bool,
    /// always write the extension member, even if the name fits
    pub force_long: bool,
    /// split the name with the ustar prefix where possible
    pub prefix: bool,
    /// directories end in a slash
    pub slash: bool,
    /// write uid/gid also as PAX records
    pub pax_ids: bool,
    /// what an octal or ASCII field cannot hold goes to PAX records and the header gets a
    /// substitute, as the tar library of Python 3 does it
    pub pax_py: bool,
    /// even for values that hold a newline (the `tar` crate takes these records apart)
    pub pax_nl: bool,
}

impl Enc {
    pub fn plain() -> Enc {
        Enc {
            magic: Magic::Gnu,
            num: Num::OctalNul,
            pax: false,
            force_long: false,
            prefix: false,
            slash: true,
            pax_ids: false,
            pax_py: false,
            pax_nl: false,
        }
    }
    /// As the tar library of Python 3 writes it, newlines included.
    pub fn python() -> Enc {
        Enc { magic: Magic::Ustar, pax: true, pax_py: true, pax_nl: true, ..Enc::plain() }
    }
    /// Seed zero is the plain encoding.
    pub fn from_seed(seed: u64) -> Enc {
        if seed == 0 {
            return Enc::plain();
        }
        let mut m = Mix::new(seed);
        Enc {
            magic: if m.one_in(2) { Magic::Gnu } else { Magic::Ustar },
            num: match m.below(5) {
                0 => Num::OctalSpace,
                1 => Num::OctalPad,
                2 => Num::Binary,
                _ => Num::OctalNul,
            },
            pax: m.one_in(3),
            force_long: m.one_in(4),
            prefix: m.one_in(2),
            slash: m.one_in(2),
            pax_ids: m.one_in(6),
            pax_py: m.one_in(3),
            pax_nl: false,
        }
    }
}

fn octal_fits(width: usize, v: u64) -> bool {
    let digits = (width - 1) * 3;
    digits >= 64 || v < (1u64 << digits)
}

fn put_num(f: &mut [u8], v: i64, num: Num) {
    let w = f.len();
    if v < 0 || !octal_fits(w, v as u64) || num == Num::Binary {
        // base-256, big endian, sign extended, top bit of the first byte set
        let fill = if v < 0 { 0xff } else { 0 };
        for b in f.iter_mut() {
            *b = fill;
        }
        let be = v.to_be_bytes();
        let n = w.min(8);
        f[w - n..].copy_from_slice(&be[8 - n..]);
        f[0] = if v < 0 { 0xff } else { f[0] | 0x80 };
        return;
    }
    let s = match num {
        Num::OctalNul => format!("{:0w$o}\0", v, w = w - 1),
        Num::OctalSpace => format!("{:0w$o} ", v, w = w - 1),
        Num::OctalPad => format!("{:>w$o}\0", v, w = w - 1),
        Num::Binary => unreachable!(),
    };
    f.copy_from_slice(s.as_bytes());
}


fn put_text(f: &mut [u8], t: &[u8]) {
    let n = t.len().min(f.len());
    f[..n].copy_from_slice(&t[..n]);
}

pub fn set_checksum(h: &mut [u8]) {
    for b in &mut h[148..156] {
        *b = b' ';
    }
    let sum: u32 = h[..512].iter().map(|b| *b as u32).sum();
    h[148..156].copy_from_slice(format!("{:06o}\0 ", sum).as_bytes());
}

fn blank(magic: Magic) -> [u8; 512] {
    let mut h = [0u8; 512];
    match magic {
        Magic::Gnu => h[257..265].copy_from_slice(b"ustar  \0"),
        Magic::Ustar => h[257..265].copy_from_slice(b"ustar\x0000"),
    }
    h
}

fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

fn ext_member(out: &mut Vec<u8>, magic: Magic, name: &[u8], flag: u8, data: &[u8]) {
    let mut h = blank(magic);
    put_text(&mut h[0..100], name);
    put_num(&mut h[100..108], 0, Num::OctalNul);
    put_num(&mut h[108..116], 0, Num::OctalNul);
    put_num(&mut h[116..124], 0, Num::OctalNul);
    put_num(&mut h[124..136], data.len() as i64, Num::OctalNul);
    put_num(&mut h[136..148], 0, Num::OctalNul);
    h[156] = flag;
    set_checksum(&mut h);
    out.extend_from_slice(&h);
    out.extend_from_slice(data);
    pad(out);
}

fn pax_record(key: &str, val: &[u8]) -> Vec<u8> {
    let body = key.len() + val.len() + 3;
    let mut total = body + 1;
    loop {
        let t = body + total.to_string().len();
        if t == total {
            break;
        }
        total = t;
    }
    let mut r = format!("{} {}=", total, key).into_bytes();
    r.extend_from_slice(val);
    r.push(b'\n');
    r
}

/// A text with its characters outside ASCII replaced, if it is UTF-8 and has some.
fn degrade(t: &[u8]) -> Option<Vec<u8>> {
    if t.is_ascii() {
        return None;
    }
    let t = std::str::from_utf8(t).ok()?;
    Some(t.chars().map(|c| if c.is_ascii() { c as u8 } else { b'?' }).collect())
}

/// Where each part of a member lies in the archive.
#[derive(Clone, Debug)]
pub struct Span {
    /// first byte of the first header (extension members included)
    pub start: usize,
    /// first byte of the member's own header
    pub header: usize,
    /// first byte of the data
    pub data: usize,
    pub data_len: usize,
    /// first byte after the padding
    pub end: usize,
}

fn ustar_split(name: &[u8]) -> Option<usize> {
    if name.len() <= 100 {
        // splitting is allowed even when not needed
        if name.len() < 3 {
            return None;
        }
    }
    (1..name.len() - 1).find(|&i| name[i] == b'/' && i <= 155 && name.len() - i - 1 <= 100)
}

pub fn write_member(out: &mut Vec<u8>, m: &Member) -> Span {
    let start = out.len();
    let e = &m.enc;
    let mut name = m.name.clone();
    if m.typeflag == b'5' && e.slash && !name.ends_with(b"/") {
        name.push(b'/');
    }
    let nl = !e.pax_nl && (name.contains(&b'\n') || m.link.as_ref().map_or(false, |l| l.contains(&b'\n')));
    let py = e.pax_py && !nl;
    let use_pax = (e.pax || e.pax_py) && !nl;
    let mut pax: Vec<u8> = Vec::new();
    let mut split = None;
    if e.magic == Magic::Ustar && e.prefix && !e.force_long && !py {
        split = ustar_split(&name);
    }
    let long = split.is_none() && (name.len() > 100 || e.force_long || (py && degrade(&name).is_some()));
    if long {
        if use_pax {
            pax.extend(pax_record("path", &name));
        } else {
            let mut d = name.clone();
            d.push(0);
            ext_member(out, Magic::Gnu, b"././@LongLink", b'L', &d);
        }
    }
    if let Some(l) = &m.link {
        if l.len() > 100 || e.force_long || (py && degrade(l).is_some()) {
            if use_pax {
                pax.extend(pax_record("linkpath", l));
            } else {
                let mut d = l.clone();
                d.push(0);
                ext_member(out, Magic::Gnu, b"././@LongLink", b'K', &d);
            }
        }
    }
    if e.pax_ids && use_pax {
        if let (Some(u), Some(g)) = (m.uid, m.gid) {
            pax.extend(pax_record("uid", u.to_string().as_bytes()));
            pax.extend(pax_record("gid", g.to_string().as_bytes()));
            pax.extend(pax_record("comment", b"ruplicity"));
        }
    }
    // what goes to the header
    let (mut uid, mut gid, mut mtime) = (m.uid, m.gid, m.mtime);
    let (mut uname, mut gname) = (m.uname.clone(), m.gname.clone());
    let mut link = m.link.clone();
    if py {
        name = degrade(&name).unwrap_or(name);
        link = link.map(|l| degrade(&l).unwrap_or(l));
        for (key, t) in [("uname", &mut uname), ("gname", &mut gname)] {
            if let Some(d) = degrade(t) {
                pax.extend(pax_record(key, t));
                *t = d;
            }
        }
        for (key, v) in [("uid", &mut uid), ("gid", &mut gid)] {
            if let Some(n) = v.filter(|n| !octal_fits(8, *n)) {
                pax.extend(pax_record(key, n.to_string().as_bytes()));
                *v = Some(0);
            }
        }
        if let Some(n) = mtime.filter(|n| *n < 0 || !octal_fits(12, *n as u64)) {
            pax.extend(pax_record("mtime", n.to_string().as_bytes()));
            mtime = Some(0);
        }
    }
    if !pax.is_empty() {
        ext_member(out, Magic::Ustar, b"././@PaxHeader", b'x', &pax);
    }
    let header = out.len();
    let mut h = blank(e.magic);
    match split {
        Some(i) => {
            put_text(&mut h[345..500], &name[..i]);
            put_text(&mut h[0..100], &name[i + 1..]);
        }
        None => put_text(&mut h[0..100], &name),
    }
    if let Some(v) = m.mode {
        // no writer uses the binary form where octal fits, and the tar library reads modes in octal only
        let num = if e.num == Num::Binary { Num::OctalNul } else { e.num };
        put_num(&mut h[100..108], v as i64, num);
    }
    if let Some(v) = uid {
        put_num(&mut h[108..116], v as i64, e.num);
    }
    if let Some(v) = gid {
        put_num(&mut h[116..124], v as i64, e.num);
    }
    put_num(&mut h[124..136], m.data.len() as i64, e.num);
    if let Some(v) = mtime {
        put_num(&mut h[136..148], v, e.num);
    }
    h[156] = m.typeflag;
    if let Some(l) = &link {
        put_text(&mut h[157..257], l);
    }
    put_text(&mut h[265..297], &uname);
    put_text(&mut h[297..329], &gname);
    set_checksum(&mut h);
    out.extend_from_slice(&h);
    let data = out.len();
    out.extend_from_slice(&m.data);
    pad(out);
    Span { start, header, data, data_len: m.data.len(), end: out.len() }
}

/// A whole archive: the members, then two zero blocks, then padding to `record` bytes.
pub fn write_tar(members: &[Member], record: usize) -> (Vec<u8>, Vec<Span>) {
    let mut out = Vec::new();
    let spans = members.iter().map(|m| write_member(&mut out, m)).collect();
    out.extend_from_slice(&[0u8; 1024]);
    if record > 0 {
        while out.len() % record != 0 {
            out.push(0);
        }
    }
    (out, spans)
}

pub fn gzip(data: &[u8], level: u32) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
