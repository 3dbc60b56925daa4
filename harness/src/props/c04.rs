use crate::driver::{Cx, Prop};
use crate::dump;
use crate::hist;
use crate::mem::{Files, Mem};
use crate::names::{self, BackupR};
use crate::props::c01::long_backup;
use crate::props::c07::interleave;
use proptest::prelude::*;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};

pub struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub backup: BackupR,
    /// how many sets, over all chains, exist at the earlier moments looked at
    pub cuts: Vec<u16>,
    /// per chain: incrementals taken after further chains began (see C07)
    #[serde(default)]
    pub overlap: Vec<u8>,
}

/// The dumps of some sets, in the order of those sets.
fn order(mut v: Vec<dump::SnapDump>, sets: &[&names::BuiltSet]) -> Vec<dump::SnapDump> {
    v.sort_by_key(|d| {
        let at = sets.iter().position(|s| s.end == d.set.end && s.start.unwrap_or(s.end) == d.set.start);
        at.unwrap_or(usize::MAX)
    });
    v
}

fn dumps(f: Files) -> Result<Vec<dump::SnapDump>, String> {
    let b = Backup::new(Mem::new(f)).map_err(|e| format!("Backup::new: {}", e))?;
    Ok(dump::backup(&b, dump::ASK))
}

impl Prop for C04 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "Edit histories over the whole range of metadata and encodings (owners renamed between archives), 1-4 chains of up \
         to 6 incrementals (one case in 100: a chain of 20-520), which may overlap in time; the backup is read in full, as it was after each of up to three earlier moments, and one chain \
         at a time, and every snapshot's dump (set, time, entries, printed list, manifest) has to be equal. Non-trivial: \
         some moment is followed by an archive of the same chain that changes or deletes a path recorded before it."
    }
    fn cases(&self) -> u64 {
        14_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let overlap = prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..12, 1..5)];
        (
            prop_oneof![99 => names::few_or_many(hist::meta_wide(), 1..5, 6), 1 => long_backup(hist::meta_wide())],
            proptest::collection::vec(any::<u16>(), 1..4),
            overlap,
        )
            .prop_map(|(backup, cuts, overlap)| Case { backup, cuts, overlap })
            .boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let laps = !case.overlap.is_empty();
        let built = if laps { interleave(&case.backup, &case.overlap) } else { names::build(&case.backup) };
        let mut flat: Vec<&names::BuiltSet> = built.iter().flatten().collect();
        let mut full = dumps(names::files(&built))?;
        if laps {
            cx.class("overlapping chains");
            flat.sort_by_key(|s| s.end);
            full = order(full, &flat);
        }
        ensure_eq!(full.len(), flat.len(), "number of snapshots");
        cx.class_if(built.iter().any(|c| c.len() > 100), "more than 100 sets");
        for c in &case.cuts {
            let n = *c as usize % flat.len() + 1;
            let mut f = Files::new();
            for s in &flat[..n] {
                s.put(&mut f);
            }
            let mut got = dumps(f)?;
            if laps {
                got = order(got, &flat);
            }
            ensure_eq!(got.len(), n, "number of snapshots after {} sets", n);
            if let Some(d) = dump::first_diff(&got, &full[..n]) {
                return Err(format!("after {} of {} sets (got: then, expected: with all sets): {}", n, flat.len(), d));
            }
            let last = &flat[n - 1].model;
            if let Some(next) = flat.get(n) {
                if next.start.is_some() {
                    cx.class("cut inside a chain");
                    cx.nontrivial |= next.model.records.iter().any(|(p, _)| !p.is_empty() && last.tree.contains_key(p));
                } else {
                    cx.class("cut between chains");
                }
            }
        }
        if built.len() > 1 {
            cx.class("several chains");
            for (i, c) in built.iter().enumerate() {
                let got = dumps(names::files(&vec![c.clone()]))?;
                let own = |d: &&dump::SnapDump| c.iter().any(|s| s.end == d.set.end);
                let part: Vec<_> = full.iter().filter(own).cloned().collect();
                if let Some(d) = dump::first_diff(&got, &part) {
                    return Err(format!("chain {} alone (expected: with the others): {}", i, d));
                }
            }
        }
        Ok(())
    }
}
