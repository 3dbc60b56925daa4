use super::c10::KINDS;
use crate::alloc;
use crate::driver::{Cx, Prop};
use crate::dump;
use crate::expect;
use crate::hist::{self, Kind, Meta, Rec};
use crate::mani;
use crate::mem::{Fault, Files, Mem};
use crate::names::{self, file_name, BackupR, BuiltSet};
use crate::tarw::{self, Enc};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::{Backup, Snapshot};
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub struct C19;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// everything that follows from the names alone
    Names,
    Entries(u16),
    /// a snapshot is printed
    Print(u16),
    Manifest(u16),
    /// the list of snapshots is made again
    Again,
    /// all snapshots of the chain, from the last to the first
    Backwards(u16),
    /// all snapshots of all chains that can be read, or all manifests; from either end
    Every(bool, bool),
}

/// A backup with one file that is much larger than the list of files.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fat {
    pub files: u8,
    pub at: u8,
    pub incs: u8,
    /// how long the member is, in units of 64 KiB
    pub len: u16,
    pub gz: bool,
    /// stored whole, not as a signature
    pub whole: bool,
    /// member of a kind duplicity does not write there
    pub strange: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub backup: BackupR,
    pub ops: Vec<Op>,
    /// files that cannot be opened, of those no request needs
    pub broken: Vec<(u16, u8)>,
    pub fat: Option<Fat>,
}

impl Prop for C19 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Backups of 1-3 chains whose volumes are missing and of which any signatures and manifests cannot be opened; up to \
         15 requests that do not need the broken files, in any order and repeated: what the names tell, entries, prints, \
         manifests. After each one the storage's log of openings is compared with what that request needs. One case in 40 \
         also reads a chain with one member of 4-24 MiB, plain or compressed, and counts the memory held. Non-trivial: at \
         least three requests, of which one reads a file, while a file is broken."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "the entries of a snapshot may cost reading the whole chain, as documented",
            "memory is judged against 1 MiB and 16 KiB for each recorded path, always less than the large member",
        ]
    }
    fn cases(&self) -> u64 {
        60_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            3 => Just(Op::Names),
            5 => any::<u16>().prop_map(Op::Entries),
            1 => any::<u16>().prop_map(Op::Print),
            4 => any::<u16>().prop_map(Op::Manifest),
            1 => Just(Op::Again),
            1 => any::<u16>().prop_map(Op::Backwards),
            1 => (any::<bool>(), any::<bool>()).prop_map(|(m, b)| Op::Every(m, b)),
        ];
        let fat = (0u8..30, any::<u8>(), 0u8..3, 64u16..384, any::<bool>(), any::<bool>(), 0u8..8).prop_map(
            |(files, at, incs, len, gz, whole, s)| Fat { files, at, incs, len, gz, whole, strange: s == 0 },
        );
        (
            names::few_or_many(hist::meta_small(), 1..4, 4),
            vec(op, 1..16),
            vec((any::<u16>(), any::<u8>()), 0..4),
            prop_oneof![39 => Just(None), 1 => fat.prop_map(Some)],
        )
            .prop_map(|(backup, ops, broken, fat)| Case { backup, ops, broken, fat })
            .boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        requests(case, cx)?;
        match &case.fat {
            Some(f) => {
                cx.class("large member");
                fat(f)
            }
            None => Ok(()),
        }
    }
}

fn requests(case: &Case, cx: &mut Cx) -> Result<(), String> {
    let built = names::build(&case.backup);
    let flat: Vec<(usize, usize, &BuiltSet)> =
        built.iter().enumerate().flat_map(|(c, v)| v.iter().enumerate().map(move |(k, s)| (c, k, s))).collect();
    let n = flat.len();
    let mut files = names::files(&built);
    let order: Vec<Vec<u8>> = files.keys().cloned().collect();
    // no request needs a volume
    for (_, v) in flat.iter().flat_map(|s| &s.2.volumes) {
        files.remove(v.as_bytes());
    }
    let mem = Mem::with_order(files, order);
    let mut sig_broken = vec![false; built.len()];
    let mut man_broken = vec![false; n];
    for (i, kind) in &case.broken {
        let (c, _, s) = flat[*i as usize / 2 % n];
        let name = if i % 2 == 0 {
            sig_broken[c] = true;
            &s.sig
        } else {
            man_broken[*i as usize / 2 % n] = true;
            &s.manifest
        };
        mem.0.faults.borrow_mut().insert(name.clone().into_bytes(), Fault::Open(KINDS[*kind as usize % KINDS.len()]));
    }
    let opens = || mem.0.opens.borrow().clone();
    let backup = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
    ensure!(opens().is_empty(), "opening the backup opens {:?}", opens());
    let list = || -> Result<Vec<Snapshot>, String> {
        let v: Vec<Snapshot> = backup.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(v.len(), n, "number of snapshots");
        Ok(v)
    };
    let mut snaps = list()?;
    let (mut read, mut asked) = (false, 0);
    for (step, op) in case.ops.iter().enumerate() {
        let before = opens();
        // the files that are needed, and those that may be read along with them
        let mut needed: Vec<&str> = Vec::new();
        let mut along: Vec<&str> = Vec::new();
        let entries = |i: usize| -> Result<(), String> {
            let e = snaps[i].entries().map_err(|e| format!("entries of snapshot {}: {}", i, e))?;
            let got: Vec<_> = e.as_signature().map(|e| dump::entry(&e)).collect();
            expect::compare(&got, &flat[i].2.model.tree, &format!("snapshot {}", i))
        };
        match op {
            Op::Names => {
                let coll = backup.snapshots().map_err(|e| e.to_string())?.as_collections();
                let mut text = format!("{}", coll);
                for c in coll.signature_chains() {
                    text += &format!("{}", c);
                }
                ensure!(!text.is_empty(), "the status is empty");
                for (i, s) in snaps.iter().enumerate() {
                    let b = flat[i].2;
                    ensure_eq!(s.time().sec, b.end, "time of snapshot {}", i);
                    ensure_eq!(s.num_volumes(), b.volumes.len(), "volumes of snapshot {}", i);
                    ensure_eq!(s.is_full(), b.start.is_none(), "kind of snapshot {}", i);
                    ensure_eq!(s.as_backup_set().manifest_path(), b.manifest, "manifest of snapshot {}", i);
                }
            }
            Op::Entries(s) | Op::Print(s) | Op::Backwards(s) => {
                let i = *s as usize % n;
                let (c, k, _) = flat[i];
                if sig_broken[c] {
                    continue;
                }
                let first = i - k;
                match op {
                    Op::Entries(_) => entries(i)?,
                    Op::Print(_) => {
                        let e = snaps[i].entries().map_err(|e| format!("entries of snapshot {}: {}", i, e))?;
                        ensure!(format!("{}", e).lines().count() >= flat[i].2.model.tree.len(), "printed snapshot {} is too short", i);
                    }
                    _ => {
                        for j in (first..first + built[c].len()).rev() {
                            entries(j)?;
                        }
                    }
                }
                let upto = if let Op::Backwards(_) = op { built[c].len() - 1 } else { k };
                needed = built[c][..=upto].iter().map(|s| s.sig.as_str()).collect();
                along = built[c][upto + 1..].iter().map(|s| s.sig.as_str()).collect();
                cx.class_if(before.contains_key(flat[first].2.sig.as_bytes()), "entries a second time");
            }
            Op::Manifest(s) => {
                let i = *s as usize % n;
                if man_broken[i] {
                    continue;
                }
                let m = snaps[i].manifest().map_err(|e| format!("manifest of snapshot {}: {}", i, e))?;
                ensure_eq!(dump::manifest(&m), mani::expected(&flat[i].2.man), "manifest of snapshot {}", i);
                needed.push(&flat[i].2.manifest);
                cx.class_if(before.contains_key(flat[i].2.manifest.as_bytes()), "manifest a second time");
            }
            Op::Every(man, back) => {
                let ok = |i: &usize| if *man { !man_broken[*i] } else { !sig_broken[flat[*i].0] };
                let mut all: Vec<usize> = (0..n).filter(ok).collect();
                if *back {
                    all.reverse();
                }
                for i in all {
                    if *man {
                        let m = snaps[i].manifest().map_err(|e| format!("manifest of snapshot {}: {}", i, e))?;
                        ensure_eq!(dump::manifest(&m), mani::expected(&flat[i].2.man), "manifest of snapshot {}", i);
                        needed.push(&flat[i].2.manifest);
                    } else {
                        entries(i)?;
                        needed.push(&flat[i].2.sig);
                    }
                }
                cx.class_if(built.len() > 4, "all of more than four chains");
            }
            Op::Again => snaps = list()?,
        }
        asked += 1;
        read |= !needed.is_empty();
        let after = opens();
        for (name, times) in &after {
            if before.get(name) == Some(times) {
                continue;
            }
            let shown = String::from_utf8_lossy(name);
            ensure!(
                needed.iter().chain(&along).any(|x| x.as_bytes() == &name[..]),
                "request {} ({:?}) opens {}, which it does not need",
                step,
                op,
                shown
            );
            ensure_eq!(*times, 1, "request {} ({:?}): times {} was opened", step, op, shown);
        }
        for x in needed {
            ensure_eq!(after.get(x.as_bytes()).cloned(), Some(1), "request {} ({:?}): times {} was opened", step, op, x);
        }
        ensure_eq!(mem.0.lists.get(), 1, "request {} ({:?}): times the names were listed", step, op);
    }
    drop(snaps);
    ensure!(Rc::ptr_eq(&backup.into_inner().0, &mem.0), "the storage given back is another one");
    ensure!(!opens().keys().any(|n| n.windows(7).any(|w| w == b"difftar")), "a volume was opened");
    cx.class_if(sig_broken.iter().any(|b| *b), "signature broken");
    cx.class_if(man_broken.iter().any(|b| *b), "manifest broken");
    cx.nontrivial = read && asked >= 3 && !case.broken.is_empty();
    Ok(())
}

fn fat(f: &Fat) -> Result<(), String> {
    // a header and whole blocks
    let len = f.len as usize * 65_536 / 12 * 12;
    let mut store = Files::new();
    let mut prev = None;
    let mut t = 1_400_000_000;
    let mut records = 0usize;
    for _ in 0..=f.incs {
        let mut ms = Vec::new();
        for i in 0..=f.files {
            let mut m = Meta::simple(Kind::File);
            m.size = 100;
            let rec = Some(Rec { meta: m, uname: b"u".to_vec(), gname: b"g".to_vec() });
            let mut m = hist::member(&vec![format!("f{:03}", i).into_bytes()], &rec, Enc::plain());
            if i == f.at % (f.files + 1) {
                if f.whole {
                    m.name = [&b"snapshot/"[..], &m.name[10..]].concat();
                }
                if f.strange {
                    m.name = [&b"strange/"[..], &m.name[9 + !f.whole as usize..]].concat();
                }
                m.data.resize(len, 7);
            }
            ms.push(m);
            records += 1;
        }
        let tar = tarw::write_tar(&ms, 0).0;
        let (data, suffix) = if f.gz { (tarw::gzip(&tar, 1), ".gz") } else { (tar, "") };
        store.insert(file_name(prev, t, "sigtar", false, suffix).into_bytes(), Rc::new(data));
        store.insert(file_name(prev, t, "manifest", false, "").into_bytes(), Rc::new(vec![]));
        prev = Some(t);
        t += 10;
    }
    let backup = Backup::new(Mem::new(store)).map_err(|e| e.to_string())?;
    let snap = backup.snapshots().map_err(|e| e.to_string())?.into_iter().last().ok_or("no snapshot")?;
    let (found, peak) = alloc::measure(|| {
        snap.entries().map(|e| e.as_signature().filter(|e| e.size_hint().is_some()).count()).map_err(|e| e.to_string())
    });
    let want = f.files as usize + !f.strange as usize;
    ensure_eq!(found?, want, "entries with a known size");
    let limit = (1 << 20) + records * 16_384;
    ensure!(
        peak <= limit,
        "reading {} records held {} bytes at once; the large member has {}, the limit is {}",
        records,
        peak,
        len,
        limit
    );
    Ok(())
}
