use crate::driver::{Cx, Prop};
use crate::dump;
use crate::expect;
use crate::hist;
use crate::mani;
use crate::mem::Mem;
use crate::names::{self, BackupR, BuiltSet};
use crate::util::Mix;
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub struct C07;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub backup: BackupR,
    /// (which set, what goes: 1 signature, 2 manifest, 3 both; 4 more: it is still listed)
    pub drop: Vec<(u16, u8)>,
    /// per chain: how many of its incrementals are taken after the next chain began
    pub overlap: Vec<u8>,
    /// abandoned attempts: (before which set, what is there: 1 signature, 2 manifest, 3 both)
    pub attempts: Vec<(u16, u8)>,
    /// in which order the snapshots are asked
    pub asked: u64,
}

fn at(l: &[BuiltSet], i: usize) -> String {
    format!("set {} ({} to {:?})", i, l[i].end, l[i].start)
}

/// Expands the chains at interleaved times: a chain may go on after the next one has begun.
pub fn interleave(b: &BackupR, overlap: &[u8]) -> names::Built {
    // every chain by itself first
    let mut chains: Vec<Vec<hist::ModelSet>> =
        b.chains.iter().map(|c| hist::expand(&b.names, c, 0)).collect();
    // one queue of (chain, set); the last sets of a chain may come after further chains have begun
    let mut queue: Vec<(usize, usize)> = Vec::new();
    let mut late: Vec<(usize, usize, usize)> = Vec::new();
    for (c, sets) in chains.iter().enumerate() {
        let n = sets.len();
        let ov = overlap.get(c).cloned().unwrap_or(0) as usize;
        let (o, delay) = ((ov % 4).min(n - 1), ov / 4 % 3 + 1);
        queue.push((c, 0));
        let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut late).into_iter().partition(|l| l.0 <= c);
        late = later;
        let mut waiting = now.into_iter().map(|l| (l.1, l.2));
        for s in 1..n - o {
            queue.push((c, s));
            // alternate with the sets of the chain before
            queue.extend(waiting.next());
        }
        queue.extend(waiting);
        late.extend((n - o..n).map(|s| (c + delay, c, s)));
    }
    queue.extend(late.into_iter().map(|l| (l.1, l.2)));
    let mut t = b.t0;
    let mut mix = Mix::new(b.look);
    for (c, s) in queue {
        // steps of ten, so that there is room for abandoned attempts
        t += 10 + mix.below(1000) as i64 * 10;
        chains[c][s].time = t;
    }
    chains
        .into_iter()
        .map(|sets| {
            let mut prev = None;
            sets.into_iter()
                .map(|s| {
                    let end = s.time;
                    let mut x = names::build_set(prev, s, &mut mix, b.look == 0);
                    if x.volumes.is_empty() {
                        x.volumes.push((1, names::file_name(prev, end, "vol1", false, ".gz")));
                    }
                    prev = Some(end);
                    x
                })
                .collect()
        })
        .collect()
}

impl Prop for C07 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "Backups of 1-4 chains with contents, where every set has a manifest and a signature of its own making; chains may \
         overlap in time; any subset of the signature and manifest files is missing (some of them are still listed); abandoned attempts with their own \
         signature, manifest and volumes stand beside the sets that replaced them. Every snapshot is asked in a generated \
         order, once from an iterator that skips ahead, for its entries and manifest. Non-trivial: a missing signature, an attempt or an overlap, and at least two \
         chains or three sets."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["every set has at least one volume file, so it is known even without manifest and signature", "a signature that is listed and gone may fail every snapshot of its chain"]
    }
    fn cases(&self) -> u64 {
        56_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (
            names::few_or_many(hist::meta_small(), 1..5, 4),
            vec((any::<u16>(), prop_oneof![3 => 1u8..4, 1 => 5u8..8]), 0..4),
            vec(0u8..12, 0..6),
            vec((any::<u16>(), 1u8..4), 0..3),
            any::<u64>(),
        )
            .prop_map(|(backup, drop, overlap, attempts, asked)| Case { backup, drop, overlap, attempts, asked })
            .boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let built = interleave(&case.backup, &case.overlap);
        let flat: Vec<(usize, usize)> =
            built.iter().enumerate().flat_map(|(c, v)| (0..v.len()).map(move |s| (c, s))).collect();
        let mut files = names::files(&built);
        let mut has_sig = vec![true; flat.len()];
        let mut has_man = vec![true; flat.len()];
        let mut gone = Vec::new();
        let mut gone_of = vec![false; built.len()];
        for (i, what) in &case.drop {
            let i = *i as usize % flat.len();
            let s = &built[flat[i].0][flat[i].1];
            if what & 4 != 0 {
                gone_of[flat[i].0] |= what & 1 != 0;
                cx.class("listed, but gone");
                gone.extend(files.keys().filter(|n| {
                    what & 1 != 0 && **n == s.sig.as_bytes() || what & 2 != 0 && **n == s.manifest.as_bytes()
                }).cloned());
            }
            if what & 1 != 0 {
                files.remove(s.sig.as_bytes());
                has_sig[i] = false;
                cx.class("signature missing");
            }
            if what & 2 != 0 {
                files.remove(s.manifest.as_bytes());
                has_man[i] = false;
                cx.class("manifest missing");
            }
        }
        for (i, what) in &case.attempts {
            let (c, s) = flat[*i as usize % flat.len()];
            let x = &built[c][s];
            if let Some(start) = x.start {
                cx.class("abandoned attempt");
                let end = x.end - 3;
                // contents that belong to no snapshot
                let stray = hist::ModelSet {
                    time: end,
                    tree: hist::Tree::new(),
                    records: vec![(
                        vec![b"stray".to_vec()],
                        Some(hist::Rec {
                            meta: hist::Meta::simple(hist::Kind::File),
                            uname: b"stray".to_vec(),
                            gname: b"stray".to_vec(),
                        }),
                    )],
                    enc: 0,
                };
                let mut put = |n: String, d: Vec<u8>| {
                    files.insert(n.into_bytes(), Rc::new(d));
                };
                put(names::file_name(Some(start), end, "vol1", false, ".gz"), vec![]);
                if what & 1 != 0 {
                    put(names::file_name(Some(start), end, "sigtar", false, ""), hist::sigtar(&stray).0);
                }
                if what & 2 != 0 {
                    let m = names::manifest_for(&stray, 1);
                    put(names::file_name(Some(start), end, "manifest", false, ""), mani::text(&m, 0));
                }
            }
        }
        cx.class_if(case.overlap.iter().zip(&built).any(|(o, c)| *o % 4 > 0 && c.len() > 1) && built.len() > 1, "overlap");
        cx.class_if(built.len() > 1, "several chains");
        let special = cx.classes.iter().any(|c| matches!(*c, "signature missing" | "abandoned attempt" | "overlap"));
        cx.nontrivial = special && (built.len() > 1 || flat.len() > 2);

        let mut list: Vec<_> = files.keys().cloned().collect();
        list.extend(gone);
        let backend = Mem::with_order(files, list);
        let b = Backup::new(backend).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), flat.len(), "number of snapshots");
        let mut turn: Vec<usize> = (0..snaps.len()).collect();
        Mix::new(case.asked).shuffle(&mut turn);
        let mut seen = vec![false; flat.len()];
        for round in 0..2 {
            // in one round from an iterator that skips ahead
            let skips = (round + case.asked) % 2 == 0;
            let mut it = b.snapshots().map_err(|e| e.to_string())?.into_iter();
            let mut pos = 0;
            for i in &turn {
                let skipped;
                let s = if skips {
                    if *i < pos {
                        it = b.snapshots().map_err(|e| e.to_string())?.into_iter();
                        pos = 0;
                    }
                    skipped = it.nth(*i - pos);
                    pos = *i + 1;
                    match &skipped {
                        Some(s) => s,
                        None => return Err(format!("snapshot {} is not there after skipping", i)),
                    }
                } else {
                    &snaps[*i]
                };
                let set = s.as_backup_set();
                let own = flat.iter().position(|(c, k)| {
                    let x = &built[*c][*k];
                    x.end == set.end_time().sec && x.start.unwrap_or(x.end) == set.start_time().sec
                });
                let own = match own {
                    Some(o) => o,
                    None => return Err(format!("snapshot {} at {} is none of the backup", i, set.end_time().sec)),
                };
                ensure!(round == 1 || !seen[own], "{} is reported twice", set.end_time().sec);
                seen[own] = true;
                let (c, k) = flat[own];
                let x = &built[c][k];
                let what = format!("chain {} {}", c, at(&built[c], k));
                // the signatures of this set and the ones before it in the chain
                let first = own - k;
                let complete = (first..=own).all(|j| has_sig[j]);
                match s.entries() {
                    Ok(e) => {
                        ensure!(complete, "{}: a signature file is missing, yet there are entries: {}", what, e);
                        let got: Vec<_> = e.as_signature().map(|e| dump::entry(&e)).collect();
                        expect::compare(&got, &x.model.tree, &what)?;
                    }
                    // all the signatures of a chain are read together, so one that is listed and gone
                    // fails the others too
                    Err(e) => ensure!(!complete || gone_of[c], "{}: all signature files are there: {}", what, e),
                }
                match s.manifest() {
                    Ok(m) => {
                        ensure!(has_man[own], "{}: a manifest out of nowhere: {:?}", what, dump::manifest(&m));
                        ensure_eq!(dump::manifest(&m), mani::expected(&x.man), "{}: manifest", what);
                    }
                    Err(e) => ensure!(!has_man[own], "{}: the manifest file is there: {}", what, e),
                }
            }
        }
        Ok(())
    }
}

