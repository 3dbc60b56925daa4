//! What the library has to report for a modelled tree.

use crate::dump::EntryDump;
use crate::hist::*;
use ruplicity::signatures::EntryType;

pub fn entry_type(m: &Meta) -> EntryType {
    match m.kind {
        Kind::File => EntryType::File,
        Kind::Dir => EntryType::Dir,
        Kind::Sym => EntryType::SymLink,
        Kind::Fifo => EntryType::Fifo,
        Kind::Hard => EntryType::HardLink,
        Kind::Char | Kind::Block => EntryType::Unknown(m.kind.flag()),
    }
}

/// Everything but the size bounds, which have rules of their own.
pub fn entry(p: &Path, r: &Rec) -> EntryDump {
    let m = &r.meta;
    let uid = if m.odd & ODD_UID != 0 { None } else { Some(m.uid) };
    let gid = if m.odd & ODD_GID != 0 { None } else { Some(m.gid) };
    EntryDump {
        path: join(p),
        uid,
        gid,
        mode: if m.odd & ODD_MODE != 0 { None } else { Some(m.mode) },
        uname: uid.map(|_| String::from_utf8(r.uname.clone()).unwrap()),
        gname: gid.map(|_| String::from_utf8(r.gname.clone()).unwrap()),
        mtime: (if m.odd & ODD_MTIME != 0 { 0 } else { m.mtime }, 0),
        size: None,
        tp: entry_type(m),
        link: if m.kind == Kind::Sym { Some(m.link.0.clone()) } else { None },
    }
}

/// Checks the size bounds of one entry against the real size.
pub fn size(r: &Rec, got: Option<(usize, usize)>) -> Result<(), String> {
    let m = &r.meta;
    if m.kind != Kind::File {
        return if got == Some((0, 0)) { Ok(()) } else { Err(format!("not a file: bounds {:?}, expected (0, 0)", got)) };
    }
    if m.odd & ODD_SIG != 0 {
        return if got.is_none() { Ok(()) } else { Err(format!("unreadable signature: bounds {:?}, expected none", got)) };
    }
    match got {
        None => Err(format!("no bounds for a file of {} bytes", m.size)),
        Some((lo, hi)) => {
            let (lo, hi, block) = (lo as u64, hi as u64, m.block.max(1) as u64);
            if lo <= m.size && m.size <= hi && hi - lo <= block {
                Ok(())
            } else {
                Err(format!("bounds ({}, {}) for a file of {} bytes in blocks of {}", lo, hi, m.size, block))
            }
        }
    }
}

pub fn paths(t: &Tree) -> Vec<Vec<u8>> {
    t.keys().map(|p| join(p)).collect()
}

/// Compares listed entries with a tree; `what` names the snapshot.
pub fn compare(got: &[EntryDump], tree: &Tree, what: &str) -> Result<(), String> {
    let gp: Vec<Vec<u8>> = got.iter().map(|e| e.path.clone()).collect();
    compare_paths(&gp, tree, what)?;
    for (g, (p, r)) in got.iter().zip(tree.iter()) {
        let mut want = entry(p, r);
        want.size = g.size;
        if *g != want {
            return Err(format!("{}: entry {:?}, expected {:?}", what, g, want));
        }
        size(r, g.size).map_err(|e| format!("{}: {}: {}", what, crate::util::esc(&g.path), e))?;
    }
    Ok(())
}

pub fn compare_paths(got: &[Vec<u8>], tree: &Tree, what: &str) -> Result<(), String> {
    let want = paths(tree);
    if got == &want[..] {
        return Ok(());
    }
    let show = |v: &[Vec<u8>]| v.iter().map(|p| crate::util::esc(p)).collect::<Vec<_>>();
    for w in &want {
        if !got.contains(w) {
            return Err(format!("{}: {} is missing; listed {:?}, expected {:?}", what, crate::util::esc(w), show(got), show(&want)));
        }
    }
    for (i, g) in got.iter().enumerate() {
        if !want.contains(g) {
            return Err(format!("{}: {} should not be listed; listed {:?}, expected {:?}", what, crate::util::esc(g), show(got), show(&want)));
        }
        if got[..i].contains(g) {
            return Err(format!("{}: {} is listed twice; listed {:?}", what, crate::util::esc(g), show(got)));
        }
    }
    Err(format!("{}: order is {:?}, expected {:?}", what, show(got), show(&want)))
}
