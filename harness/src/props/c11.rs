use crate::driver::{Cx, Prop};
use crate::dump::{self, EntryDump};
use crate::expect;
use crate::hist::{self, Meta, Path, Rec};
use super::c10::KINDS;
use crate::mem::{Fault, Files, Mem};
use crate::names::{self, BackupR, BuiltSet};
use crate::tarw::{self, Enc, Span};
use crate::util::{esc, Bytes, Mix};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;

pub struct C11;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// the file is these bytes, as they are
    Raw(Bytes),
    /// the archive holds these bytes, stored the way the name says
    Inner(Bytes),
    /// the archive is cut off here
    Cut(u32),
    /// the compressed file is cut off here
    CutStored(u32),
    /// bytes of a member's header change, the checksum stays
    Header { member: u16, bytes: Vec<(u16, u8)> },
    /// a field of a member's header gets a hostile value and a correct checksum
    Hostile { member: u16, field: u8, seed: u64 },
    /// bytes of a member's content change
    Content { member: u16, bytes: Vec<(u16, u8)> },
    /// bytes anywhere in the stored file change
    Stored(Vec<(u32, u8)>),
    /// a block is written over, inserted or left out
    Block { at: u16, how: u8, seed: u64 },
    /// made of whole headers in no particular order, with correct checksums
    Soup(Vec<(u16, u8, u64)>),
    /// reading the stored file fails here
    ReadFails(u32, u8),
    /// members that are none of duplicity's stand among the others: (before which, name, length)
    Strangers(Vec<(u16, u8, u16)>),
}

const STRANGERS: [&str; 12] = [
    "foo", "foo/bar", "snapshots/foo", "Signature/foo", "diff/foo", "multivol_diff/foo/1", "deleted", "snapshot", "signature", "signatur/foo",
    "xsignature/foo", "/",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub backup: BackupR,
    /// which archive
    pub set: u8,
    pub damage: Damage,
}

/// Header fields other than the checksum: (offset, length).
const FIELDS: [(usize, usize); 11] = [
    (124, 12), // size
    (156, 1),  // type flag
    (136, 12), // mtime
    (108, 8),
    (116, 8),
    (100, 8),
    (265, 32),
    (297, 32),
    (157, 100),
    (257, 8),
    (0, 100),
];

fn hostile(h: &mut [u8], field: usize, m: &mut Mix) {
    let (o, n) = FIELDS[field];
    let f = &mut h[o..o + n];
    match m.below(6) {
        0 => f.iter_mut().for_each(|b| *b = 0xff),
        1 => f.iter_mut().for_each(|b| *b = 0),
        2 => f.iter_mut().for_each(|b| *b = m.next() as u8),
        3 => {
            // base-256: extreme values
            f.iter_mut().for_each(|b| *b = 0);
            f[0] = 0x80;
            let k = m.below(n as u64) as usize;
            for b in f[n - k..].iter_mut() {
                *b = if m.one_in(2) { 0xff } else { 0x7f };
            }
        }
        4 => {
            for b in f.iter_mut() {
                *b = b'0' + m.below(8) as u8;
            }
        }
        _ => {
            f.iter_mut().for_each(|b| *b = b'7');
            if n > 1 {
                f[n - 1] = 0;
            }
        }
    }
    if field == 1 {
        h[156] = *[b'L', b'K', b'x', b'g', b'S', b'V', b'M', b'7', b'D', 0xff, b'1', b'2', b'5'].get(m.below(13) as usize).unwrap();
    }
    tarw::set_checksum(h);
}

struct Target {
    tar: Vec<u8>,
    spans: Vec<Span>,
}

/// What the damage is known to leave intact: the members before this index; the content-only
/// damaged one; whether later members may be reported as something else.
enum Judge {
    /// members below the first number are intact; later ones are either recorded or lost
    Either { intact: usize, loose: Option<usize> },
    /// everything is intact but the size bounds of one member
    SizeOnly(usize),
    /// only the archives before this one are judged, and the intact members before this index
    Before { intact: usize },
}

fn members_before(spans: &[Span], at: usize) -> usize {
    spans.iter().filter(|s| s.end <= at).count()
}

fn build(case: &Case, set: &BuiltSet, t: &Target, cx: &mut Cx) -> (Vec<u8>, Judge) {
    let store = |tar: Vec<u8>| if set.gz { tarw::gzip(&tar, 1) } else { tar };
    let n = t.spans.len();
    match &case.damage {
        Damage::Raw(b) => {
            cx.class("arbitrary file");
            (b.0.clone(), Judge::Before { intact: 0 })
        }
        Damage::Inner(b) => {
            cx.class("arbitrary archive");
            (store(b.0.clone()), Judge::Before { intact: 0 })
        }
        Damage::Cut(at) => {
            let at = *at as usize % (t.tar.len() + 1);
            cx.class("cut off");
            let k = members_before(&t.spans, at);
            // a member whose content is cut may be reported, with other bounds
            let loose = t.spans.get(k).filter(|s| at >= s.header + 512).map(|_| k);
            (store(t.tar[..at].to_vec()), Judge::Either { intact: k, loose })
        }
        Damage::CutStored(at) | Damage::ReadFails(at, _) => {
            let mut data = store(t.tar.clone());
            let at = *at as usize % (data.len() + 1);
            data.truncate(at);
            cx.class(if matches!(case.damage, Damage::ReadFails(..)) { "reading fails midway" } else { "stored file cut off" });
            let got = if set.gz {
                let mut out = Vec::new();
                let mut d = flate2::read::GzDecoder::new(&data[..]);
                let mut buf = [0u8; 512];
                while let Ok(n) = d.read(&mut buf) {
                    if n == 0 {
                        break;
                    }
                    out.extend_from_slice(&buf[..n]);
                }
                out.len()
            } else {
                at
            };
            let k = members_before(&t.spans, got);
            if set.gz && matches!(case.damage, Damage::ReadFails(..)) {
                // how much has been unpacked when the failure comes is up to the decoder
                return (data, Judge::Before { intact: 0 });
            }
            (data, Judge::Either { intact: if set.gz { k.saturating_sub(1) } else { k }, loose: Some(k) })
        }
        Damage::Header { member, bytes } if n > 0 => {
            let i = *member as usize % n;
            let h = t.spans[i].header;
            let mut tar = t.tar.clone();
            let before: u32 = tar[h..h + 512].iter().map(|b| *b as u32).sum();
            for (o, b) in bytes {
                let mut o = *o as usize % 504;
                if o >= 148 {
                    o += 8;
                }
                tar[h + o] = *b;
            }
            let after: u32 = tar[h..h + 512].iter().map(|b| *b as u32).sum();
            cx.class("damaged header");
            if before == after && tar[h..h + 512] != t.tar[h..h + 512] {
                // the checksum cannot tell
                return (store(tar), Judge::Before { intact: 0 });
            }
            (store(tar), Judge::Either { intact: i, loose: None })
        }
        Damage::Hostile { member, field, seed } if n > 0 => {
            let i = *member as usize % n;
            let mut tar = t.tar.clone();
            let h = t.spans[i].header;
            let mut m = Mix::new(*seed);
            hostile(&mut tar[h..h + 512], *field as usize % FIELDS.len(), &mut m);
            if m.one_in(3) {
                let f = m.below(FIELDS.len() as u64) as usize;
                hostile(&mut tar[h..h + 512], f, &mut m);
            }
            cx.class("hostile header");
            // under another name the member may touch paths recorded before it
            let renamed = [(0, 100), (257, 265), (345, 500)].iter().any(|(a, b)| tar[h + a..h + b] != t.tar[h + a..h + b]);
            (store(tar), Judge::Before { intact: if renamed { 0 } else { i } })
        }
        Damage::Content { member, bytes } if n > 0 => {
            let with: Vec<usize> = (0..n).filter(|i| t.spans[*i].data_len > 0).collect();
            if with.is_empty() {
                return (store(t.tar.clone()), Judge::Either { intact: n, loose: None });
            }
            let i = with[*member as usize % with.len()];
            let s = &t.spans[i];
            let mut tar = t.tar.clone();
            for (o, b) in bytes {
                // mostly in the header of the signature
                let o = if o % 2 == 0 { *o as usize / 2 % s.data_len } else { *o as usize / 2 % s.data_len.min(12) };
                tar[s.data + o] = *b;
            }
            cx.class("damaged content");
            (store(tar), Judge::SizeOnly(i))
        }
        Damage::Stored(v) => {
            let mut data = store(t.tar.clone());
            if !data.is_empty() {
                for (o, b) in v {
                    let o = *o as usize % data.len();
                    data[o] = *b;
                }
            }
            cx.class("noise in the stored file");
            (data, Judge::Before { intact: 0 })
        }
        Damage::Block { at, how, seed } => {
            let mut tar = t.tar.clone();
            let k = (*at as usize % (tar.len() / 512)) * 512;
            let mut m = Mix::new(*seed);
            let junk: Vec<u8> = match m.below(3) {
                0 => vec![0; 512],
                1 => (0..512).map(|_| m.next() as u8).collect(),
                _ => {
                    let j = (m.below(tar.len() as u64 / 512) as usize) * 512;
                    tar[j..j + 512].to_vec()
                }
            };
            match how % 3 {
                0 => tar[k..k + 512].copy_from_slice(&junk),
                1 => {
                    tar.splice(k..k, junk);
                }
                _ => {
                    tar.drain(k..k + 512);
                }
            }
            cx.class("block over, in or out");
            let i = members_before(&t.spans, k);
            (store(tar), Judge::Before { intact: i })
        }
        Damage::Soup(v) => {
            let mut tar = Vec::new();
            for (i, f, seed) in v {
                if n == 0 {
                    break;
                }
                let s = &t.spans[*i as usize % n];
                let at = tar.len();
                tar.extend_from_slice(&t.tar[s.header..s.end]);
                let mut m = Mix::new(*seed);
                let f = *f as usize % (FIELDS.len() + 4);
                if f < FIELDS.len() {
                    hostile(&mut tar[at..at + 512], f, &mut m);
                }
                if m.one_in(4) {
                    let l = tar.len();
                    tar.truncate(l - m.below(512) as usize);
                    while tar.len() % 512 != 0 {
                        tar.push(m.next() as u8);
                    }
                }
            }
            cx.class("headers in any order");
            (store(tar), Judge::Before { intact: 0 })
        }
        Damage::Strangers(v) => {
            let mut ms = hist::members(&set.model);
            for (at, name, len) in v {
                let mut m = hist::member(&vec![b"f".to_vec()], &Some(Rec { meta: Meta::simple(hist::Kind::File), uname: vec![], gname: vec![] }), Enc::plain());
                m.name = STRANGERS[*name as usize % STRANGERS.len()].as_bytes().to_vec();
                m.data.resize(*len as usize % 2000, 0x11);
                let at = *at as usize % (ms.len() + 1);
                ms.insert(at, m);
            }
            cx.class("members of unknown kinds");
            (store(tarw::write_tar(&ms, 0).0), Judge::Either { intact: n, loose: None })
        }
        _ => (store(t.tar.clone()), Judge::Either { intact: n, loose: None }),
    }
}

fn same(g: &EntryDump, p: &Path, r: &Rec, size: bool) -> bool {
    let mut e = expect::entry(p, r);
    e.size = g.size;
    *g == e && (!size || expect::size(r, g.size).is_ok())
}

impl Prop for C11 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A chain of up to 5 archives in every encoding, one of them damaged: cut at any byte (of the archive, or of the \
         compressed file), not readable from some byte on, header bytes changed under the old checksum, header fields set to extreme values under a new one, \
         content bytes changed, blocks replaced, inserted or removed, arbitrary bytes, members of unknown kinds in between. Every snapshot is opened, listed, \
         measured, printed; what lies before the damage must be as in the intact archive and every path must show a state \
         that was recorded. Non-trivial: something is recorded before and at or after the damaged place."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a header changed so that its checksum still holds counts as another header"]
    }
    fn cases(&self) -> u64 {
        80_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let flips = |n| vec((any::<u16>(), any::<u8>()), 1..n);
        let damage = prop_oneof![
            1 => vec(any::<u8>(), 0..1600).prop_map(|b| Damage::Raw(Bytes(b))),
            1 => vec(any::<u8>(), 0..1600).prop_map(|b| Damage::Inner(Bytes(b))),
            4 => any::<u32>().prop_map(Damage::Cut),
            2 => any::<u32>().prop_map(Damage::CutStored),
            4 => (any::<u16>(), flips(4)).prop_map(|(member, bytes)| Damage::Header { member, bytes }),
            6 => (any::<u16>(), any::<u8>(), any::<u64>()).prop_map(|(member, field, seed)| Damage::Hostile { member, field, seed }),
            5 => (any::<u16>(), flips(6)).prop_map(|(member, bytes)| Damage::Content { member, bytes }),
            2 => vec((any::<u32>(), any::<u8>()), 1..8).prop_map(Damage::Stored),
            2 => (any::<u16>(), any::<u8>(), any::<u64>()).prop_map(|(at, how, seed)| Damage::Block { at, how, seed }),
            3 => vec((any::<u16>(), any::<u8>(), any::<u64>()), 0..12).prop_map(Damage::Soup),
            2 => (any::<u32>(), any::<u8>()).prop_map(|(at, k)| Damage::ReadFails(at, k)),
            2 => vec((any::<u16>(), any::<u8>(), any::<u16>()), 1..5).prop_map(Damage::Strangers),
        ];
        (names::backup_r(hist::meta_wide(), 1..2, 4), any::<u8>(), damage)
            .prop_map(|(backup, set, damage)| Case { backup, set, damage })
            .boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let built = names::build(&case.backup);
        let chain = match built.first() {
            Some(c) => c,
            None => return Ok(()),
        };
        let j = case.set as usize % chain.len();
        let set = &chain[j];
        let (tar, spans) = hist::sigtar(&set.model);
        let target = Target { tar, spans };
        let (data, judge) = build(case, set, &target, cx);
        let mut files: Files = names::files(&built);
        files.insert(set.sig.clone().into_bytes(), std::rc::Rc::new(data));
        let mem = Mem::new(files);
        let fails = match &case.damage {
            Damage::ReadFails(_, kind) => {
                // the file ends where the failure comes
                let kind = KINDS[*kind as usize % KINDS.len()];
                mem.0.faults.borrow_mut().insert(set.sig.clone().into_bytes(), Fault::Read(usize::MAX, kind));
                true
            }
            _ => false,
        };
        let b = Backup::new(mem).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), chain.len(), "number of snapshots");
        let (intact, loose) = match judge {
            Judge::Either { intact, loose } => (intact, loose),
            Judge::SizeOnly(_) => (target.spans.len(), None),
            Judge::Before { intact } => (intact, None),
        };
        let recs = &set.model.records;
        cx.nontrivial = intact > 0 && intact < recs.len() || matches!(judge, Judge::SizeOnly(_)) || matches!(case.damage, Damage::Strangers(_)) && recs.len() > 1;
        cx.class_if(j > 0, "damage in an incremental archive");
        cx.class_if(j + 1 < chain.len(), "archives after the damaged one");
        for (k, s) in snaps.iter().enumerate() {
            let e = match s.entries() {
                Ok(e) => e,
                Err(e) if matches!(judge, Judge::Before { .. }) && k >= j && intact == 0 => {
                    // an archive nothing can be made of may be refused
                    let _ = e;
                    continue;
                }
                // a failure to read may surface instead
                Err(_) if fails => continue,
                Err(e) => return Err(format!("snapshot {}: {}", k, e)),
            };
            let got: Vec<EntryDump> = e.as_signature().map(|e| dump::entry(&e)).collect();
            let text = format!("{}", e);
            let _ = text.len();
            let what = format!("archive {} damaged, snapshot {}", j, k);
            if k < j {
                expect::compare(&got, &chain[k].model.tree, &what)?;
                continue;
            }
            if let Judge::SizeOnly(i) = judge {
                let paths: Vec<_> = got.iter().map(|e| e.path.clone()).collect();
                expect::compare_paths(&paths, &chain[k].model.tree, &what)?;
                // the damaged recording may still be the one in force
                let hit = &recs[i].0;
                let later = chain[j + 1..=k].iter().any(|s| s.model.records.iter().any(|r| r.0 == *hit));
                for (g, (p, r)) in got.iter().zip(chain[k].model.tree.iter()) {
                    ensure!(same(g, p, r, later || p != hit), "{}: {:?} should be {:?}", what, g, r);
                }
                continue;
            }
            let before = matches!(judge, Judge::Before { .. });
            // per path: the recordings in order, and which are certain
            let mut by: BTreeMap<&Path, Vec<(&Option<Rec>, bool, bool)>> = BTreeMap::new();
            for (a, s) in chain[..=k].iter().enumerate() {
                for (x, (p, r)) in s.model.records.iter().enumerate() {
                    let certain = a != j || x < intact;
                    by.entry(p).or_default().push((r, certain, a == j && loose == Some(x)));
                }
            }
            for (p, v) in &by {
                // possible states: the last certain one and the uncertain ones behind it
                let from = v.iter().rposition(|x| x.1).unwrap_or(0);
                let none_certain = !v.iter().any(|x| x.1);
                let path = hist::join(p);
                let g: Vec<&EntryDump> = got.iter().filter(|g| g.path == path).collect();
                ensure!(g.len() < 2 || before, "{}: {} is listed twice", what, esc(&path));
                // damaged headers may name any path at all, so a path is only judged here if
                // the damaged archive came to it before the damage
                if before {
                    let last = v.len() - 1;
                    let done_before = recs.iter().position(|r| r.0 == **p).map_or(false, |x| x < intact);
                    let after = chain[j + 1..=k].iter().any(|s| s.model.records.iter().any(|r| r.0 == **p));
                    if !(done_before && !after && v[last].1) || intact == 0 || touches_names(&case.damage) {
                        continue;
                    }
                }
                let fits = |x: &(&Option<Rec>, bool, bool)| match (x.0, g.first()) {
                    (None, None) => true,
                    (Some(r), Some(g)) => same(g, p, r, !x.2),
                    _ => false,
                };
                let ok = v[from..].iter().any(fits) || (none_certain && g.is_empty());
                ensure!(
                    ok,
                    "{}: {} is {:?}, which is none of the recorded states {:?}",
                    what,
                    esc(&path),
                    g.first(),
                    &v[from..]
                );
            }
            if !before {
                for g in &got {
                    ensure!(by.keys().any(|p| hist::join(p) == g.path), "{}: {} was never recorded", what, esc(&g.path));
                }
            }
        }
        Ok(())
    }
}

/// Damage after which the rest of the archive may name any path, the earlier ones included.
fn touches_names(d: &Damage) -> bool {
    !matches!(d, Damage::Hostile { .. } | Damage::Header { .. })
}
