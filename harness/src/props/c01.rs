use crate::driver::{Cx, Prop};
use crate::expect;
use crate::hist::{self, ChainRecipe, Edit, Meta, SetRecipe};
use crate::mem::{Files, Mem};
use crate::names::{self, BackupR};
use proptest::prelude::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use ruplicity::{Backend, Backup};

pub struct C01;

/// A chain of `n` incrementals cycling through a few edits: cheap to write down, long to read.
pub fn long_chain(edits: Vec<Edit>, n: usize) -> ChainRecipe {
    let set = |edits: Vec<Edit>, i: usize| SetRecipe {
        gap: 1,
        edits,
        owners: (i % 3) as u8,
        enc: if i % 2 == 0 { 0 } else { i as u32 },
        parents: false,
    };
    let full: Vec<Edit> = edits.iter().filter(|e| matches!(e, Edit::Put(..))).cloned().collect();
    let incs = (0..n).map(|i| set(if edits.is_empty() { vec![] } else { vec![edits[i % edits.len()].clone()] }, i)).collect();
    ChainRecipe { full: set(full, 0), incs, repeat: 0 }
}

pub fn long_backup(meta: BoxedStrategy<Meta>) -> BoxedStrategy<BackupR> {
    (
        hist::names(),
        proptest::collection::vec(hist::edit(meta), 1..9),
        prop_oneof![2 => 20usize..120, 1 => 120usize..270, 2 => 252usize..262, 1 => 505usize..520],
    )
        .prop_map(|(names, edits, n)| BackupR { names, t0: 1_400_000_000, chains: vec![long_chain(edits, n)], look: 0 })
        .boxed()
}

impl Prop for C01 {
    type Case = BackupR;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "An edit history (put, touch, delete, file<->directory) over a pool of names built to make byte order and \
         component order disagree, 1-3 chains of up to 8 incrementals, one case in 40 a chain of 20-520 sets, written as \
         signature archives by our own tar writer and read through Backup and through signatures::Chain. Non-trivial: \
         some incremental archive changes or deletes a path recorded before, and the backup has at least one pair of \
         paths that byte order and component order sort differently, or more than 100 sets."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["archives are written in duplicity's order (paths as tuples of components)"]
    }
    fn cases(&self) -> u64 {
        36_000
    }
    fn strategy(&self) -> BoxedStrategy<BackupR> {
        prop_oneof![39 => names::backup_r(hist::meta_small(), 1..4, 8), 1 => long_backup(hist::meta_small())].boxed()
    }
    fn fixed(&self) -> Vec<BackupR> {
        let mut most = long(60);
        most.chains[0].repeat = 66_000 / 60;
        let mut v = vec![most];
        v.extend([254, 255, 256, 257, 300].map(long));
        v.push(names::many(66_000, 2));
        v.extend([0, 1, 2, 3, 4].map(|enc| names::long(enc, 2)));
        // the same disagreement of orders, far down
        for depth in [15u8, 16, 31, 32, 63, 64, 127, 128, 200, 252] {
            let at = |tail: &[u8]| [vec![2; depth as usize], tail.to_vec()].concat();
            let put = |tail: &[u8]| Edit::Put(at(tail), Meta::simple(hist::Kind::File));
            let set = |edits| SetRecipe { gap: 1, edits, owners: 0, enc: 0, parents: false };
            v.push(BackupR {
                names: [&b"foo.txt"[..], b"foo", b"d"].iter().map(|n| crate::util::Bytes(n.to_vec())).collect(),
                t0: 1_400_000_000,
                chains: vec![ChainRecipe {
                    full: set(vec![put(&[0]), put(&[1, 0])]),
                    incs: vec![set(vec![put(&[1, 0]), put(&[1, 1])]), set(vec![Edit::Del(depth as u16 + 2)])],
                    repeat: 0,
                }],
                look: 0,
            });
        }
        v
    }
    fn known(&self) -> Vec<BackupR> {
        vec![newline(Meta::simple(hist::Kind::File), b"\xc3\xa9\nb")]
    }
    fn check(&self, case: &BackupR, cx: &mut Cx) -> Result<(), String> {
        let built = names::build(case);
        classes(&built, cx);
        let mem = Mem::new(names::files(&built));
        // of very long histories only some snapshots are read
        let look = |i: usize, n: usize| n < 1000 || i < 2 || i + 2 > n || i % 256 == 255 || i % 256 == 0 && i % 4096 < 512;
        if built.iter().any(|c| c.len() > 1000) {
            let mut f = Files::new();
            built.iter().flatten().for_each(|s| s.put_sig(&mut f));
            return chains(&Mem::new(f), &built, &look);
        }
        let backup = Backup::new(mem.clone()).map_err(|e| format!("Backup::new: {}", e))?;
        let snaps: Vec<_> = backup.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        let want: Vec<_> = built.iter().flatten().collect();
        ensure_eq!(snaps.len(), want.len(), "number of snapshots");
        for (i, (s, w)) in snaps.iter().zip(&want).enumerate() {
            let e = s.entries().map_err(|e| format!("snapshot {}: entries: {}", i, e))?;
            let got: Vec<Vec<u8>> = e.as_signature().map(|e| e.path_bytes().to_vec()).collect();
            expect::compare_paths(&got, &w.model.tree, &format!("snapshot {}", i))?;
        }
        // and through the chain type itself
        chains(&mem, &built, &look)
    }
}

/// A single path, written as the tar library of Python 3 does it.
pub fn newline(meta: Meta, name: &[u8]) -> BackupR {
    let full = SetRecipe { gap: 1, edits: vec![Edit::Put(vec![0], meta)], owners: 0, enc: u32::MAX, parents: false };
    BackupR {
        names: vec![crate::util::Bytes(name.to_vec())],
        t0: 1_400_000_000,
        chains: vec![ChainRecipe { full, incs: vec![], repeat: 0 }],
        look: 0,
    }
}

/// One chain of `n` incrementals.
fn long(n: usize) -> BackupR {
    let edits = vec![
        Edit::Put(vec![0], Meta::simple(hist::Kind::File)),
        Edit::Put(vec![1, 0], Meta::simple(hist::Kind::File)),
        Edit::Del(1),
    ];
    BackupR {
        names: vec![crate::util::Bytes(b"foo.txt".to_vec()), crate::util::Bytes(b"foo".to_vec())],
        t0: 1_400_000_000,
        chains: vec![long_chain(edits, n)],
        look: 0,
    }
}

fn chains(mem: &Mem, built: &names::Built, look: &dyn Fn(usize, usize) -> bool) -> Result<(), String> {
    let coll = Collections::from_filenames(mem.file_names().unwrap());
    let sig_chains: Vec<_> = coll.signature_chains().collect();
    ensure_eq!(sig_chains.len(), built.len(), "number of signature chains");
    for (c, w) in sig_chains.iter().zip(built) {
        let chain = Chain::from_sigchain(c, mem).map_err(|e| format!("from_sigchain: {}", e))?;
        let n = chain.snapshots().count();
        ensure_eq!(n, w.len(), "snapshots of a signature chain");
        for (i, (s, w)) in chain.snapshots().zip(w).enumerate() {
            if look(i, n) {
                let got: Vec<Vec<u8>> = s.files().map(|e| e.path_bytes().to_vec()).collect();
                expect::compare_paths(&got, &w.model.tree, &format!("chain snapshot {}", i))?;
            }
        }
    }
    Ok(())
}

pub fn classes(built: &names::Built, cx: &mut Cx) {
    let mut again = false;
    let mut disagree = false;
    let mut long = false;
    for c in built {
        let mut seen: std::collections::HashSet<&hist::Path> = Default::default();
        let mut bytes: Vec<Vec<u8>> = Vec::new();
        for (i, s) in c.iter().enumerate() {
            if i > 40 {
                break;
            }
            for (p, r) in &s.model.records {
                if i > 0 && seen.contains(p) {
                    again |= !p.is_empty();
                    cx.class_if(r.is_none(), "deletion");
                }
                if seen.insert(p) {
                    bytes.push(hist::join(p));
                }
            }
        }
        let mut by_comp: Vec<&hist::Path> = seen.into_iter().collect();
        by_comp.sort();
        let by_comp: Vec<Vec<u8>> = by_comp.iter().map(|p| hist::join(p)).collect();
        bytes.sort();
        disagree |= by_comp != bytes;
        long |= c.len() > 100;
        cx.class_if(c.len() > 255, "more than 255 sets");
    }
    cx.class_if(again, "path recorded again");
    cx.class_if(disagree, "byte order differs from component order");
    cx.class_if(long, "more than 100 sets");
    cx.class_if(built.len() > 1, "several chains");
    cx.nontrivial = (again && disagree) || long;
}
