use super::c10::KINDS;
use crate::driver::{Cx, Prop};
use crate::dump;
use crate::expect;
use crate::hist;
use crate::mani;
use crate::mem::{Fault, Mem};
use crate::names::{self, BackupR, BuiltSet};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::{Backup, ManifestRef, Snapshot, SnapshotEntries};
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// opening this set's signature (true) or manifest fails from now on
    FailOpen { set: u16, sig: bool, kind: u8 },
    /// reading this set's manifest fails after some bytes
    FailRead { set: u16, at: u16, kind: u8 },
    Heal { set: u16, sig: bool },
    HealAll,
    /// ask for entries, read them, and keep them if `keep`
    Entries { snap: u16, keep: bool },
    Manifest { snap: u16, keep: bool },
    /// read something that is held
    Reread(u16),
    /// let go of something that is held
    Release(u16),
    /// what has been loaded is replaced by junk, or removed, in the storage
    Spoil { set: u16, sig: bool, remove: bool },
    /// ask several times over for the same
    Burst { snap: u16, n: u8 },
    /// the list of snapshots is made again
    Again,
    /// a new backup is opened while listing fails, and then while it works
    List { kind: u8 },
    /// the request that failed last is made again, with its own files healed first
    Retry { heal: bool, keep: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub backup: BackupR,
    pub ops: Vec<Op>,
}

struct World<'a> {
    mem: Mem,
    flat: Vec<(usize, usize, &'a BuiltSet)>,
    chains: Vec<usize>,
    /// per chain: up to which set the entries have been got
    loaded: Vec<Option<usize>>,
    man_loaded: Vec<bool>,
    /// the set's signature, manifest fails with this
    sig_fault: Vec<Option<usize>>,
    man_fault: Vec<Option<usize>>,
}

enum Held<'a> {
    Entries(usize, SnapshotEntries<'a>),
    Manifest(usize, ManifestRef<'a>),
}

impl<'a> World<'a> {
    fn first(&self, i: usize) -> usize {
        i - self.flat[i].1
    }
    fn sig_opens(&self, i: usize) -> usize {
        (self.first(i)..=i).map(|j| self.mem.opens(self.flat[j].2.sig.as_bytes())).sum()
    }
    fn check_entries(&self, i: usize, e: &SnapshotEntries) -> Result<(), String> {
        let got: Vec<_> = e.as_signature().map(|e| dump::entry(&e)).collect();
        expect::compare(&got, &self.flat[i].2.model.tree, &format!("snapshot {}", i))
    }
    fn entries<'b>(&mut self, i: usize, s: &'b Snapshot<'b>, cx: &mut Cx) -> Result<Option<SnapshotEntries<'b>>, String> {
        let c = self.flat[i].0;
        let k = self.flat[i].1;
        let cached = self.loaded[c].map_or(false, |l| l >= k);
        let needed: Vec<usize> = (self.first(i)..=i).filter_map(|j| self.sig_fault[j]).collect();
        let later = self.sig_fault[i + 1..self.first(i) + self.chains[c]].iter().any(|f| f.is_some());
        let opens = self.sig_opens(i);
        match s.entries() {
            Ok(e) => {
                // what could be fetched earlier may have been kept
                let unseen = (self.first(i)..=i)
                    .any(|j| self.sig_fault[j].is_some() && !self.mem.served(self.flat[j].2.sig.as_bytes()));
                ensure!(cached || !unseen, "snapshot {}: a signature cannot be opened, yet there are entries", i);
                self.check_entries(i, &e)?;
                if cached {
                    cx.class_if(!needed.is_empty(), "cached entries while the storage fails");
                    ensure_eq!(self.sig_opens(i), opens, "snapshot {}: signature files fetched in total, the entries had been loaded", i);
                }
                self.loaded[c] = Some(self.loaded[c].map_or(k, |l| l.max(k)));
                Ok(Some(e))
            }
            Err(e) => {
                ensure!(!cached, "snapshot {}: {}, but the entries had been loaded", i, e);
                ensure!(!needed.is_empty() || later, "snapshot {}: {}, but the storage works", i, e);
                cx.class("failure reported");
                if !needed.is_empty() {
                    // the first failure, in the order the files are needed, or any other current one
                    let all: Vec<_> = needed
                        .iter()
                        .cloned()
                        .chain(self.sig_fault[i + 1..self.first(i) + self.chains[c]].iter().flatten().cloned())
                        .map(|k| KINDS[k])
                        .collect();
                    ensure!(all.contains(&e.kind()), "snapshot {}: reported {:?}, failures are {:?}", i, e.kind(), all);
                }
                Ok(None)
            }
        }
    }
    fn manifest<'b>(&mut self, i: usize, s: &Snapshot<'b>, cx: &mut Cx) -> Result<Option<ManifestRef<'b>>, String> {
        let name = self.flat[i].2.manifest.as_bytes();
        let opens = self.mem.opens(name);
        match s.manifest() {
            Ok(m) => {
                ensure!(
                    self.man_loaded[i] || self.man_fault[i].is_none(),
                    "snapshot {}: the manifest cannot be read, yet there is one",
                    i
                );
                ensure_eq!(dump::manifest(&m), mani::expected(&self.flat[i].2.man), "manifest of snapshot {}", i);
                if self.man_loaded[i] {
                    cx.class_if(self.man_fault[i].is_some(), "cached manifest while the storage fails");
                    ensure_eq!(self.mem.opens(name), opens, "snapshot {}: times the manifest was fetched", i);
                }
                self.man_loaded[i] = true;
                Ok(Some(m))
            }
            Err(e) => {
                ensure!(!self.man_loaded[i], "snapshot {}: {}, but the manifest had been loaded", i, e);
                match self.man_fault[i] {
                    None => Err(format!("snapshot {}: {}, but the storage works", i, e)),
                    Some(k) => {
                        cx.class("failure reported");
                        ensure_eq!(dump::perr(&e), format!("Io({:?})", KINDS[k]), "snapshot {}: manifest failure", i);
                        Ok(None)
                    }
                }
            }
        }
    }
}

impl Prop for C12 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Sequences of up to 40 operations on one Backup over an in-memory storage: entries and manifests are requested, kept, \
         read again and released in any order, while opening any signature or manifest fails with any kind of error and \
         heals again, manifests fail in mid-read, and files already loaded are spoilt or removed; judged after every step by \
         a model of what has been loaded. Non-trivial: at least one failure was reported, one healed request succeeded, \
         and one request was made while a handle was held."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["ErrorKind::Interrupted is not injected", "a signature that fails in mid-read counts as damaged (C11)"]
    }
    fn cases(&self) -> u64 {
        70_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            4 => (any::<u16>(), any::<bool>(), any::<u8>()).prop_map(|(set, sig, kind)| Op::FailOpen { set, sig, kind }),
            1 => (any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(set, at, kind)| Op::FailRead { set, at, kind }),
            2 => (any::<u16>(), any::<bool>()).prop_map(|(set, sig)| Op::Heal { set, sig }),
            2 => Just(Op::HealAll),
            7 => (any::<u16>(), any::<bool>()).prop_map(|(snap, keep)| Op::Entries { snap, keep }),
            6 => (any::<u16>(), any::<bool>()).prop_map(|(snap, keep)| Op::Manifest { snap, keep }),
            2 => any::<u16>().prop_map(Op::Reread),
            2 => any::<u16>().prop_map(Op::Release),
            2 => (any::<u16>(), any::<bool>(), any::<bool>()).prop_map(|(set, sig, remove)| Op::Spoil { set, sig, remove }),
            1 => (any::<u16>(), 2u8..6).prop_map(|(snap, n)| Op::Burst { snap, n }),
            1 => Just(Op::Again),
            1 => any::<u8>().prop_map(|kind| Op::List { kind }),
            4 => (prop_oneof![3 => Just(true), 1 => Just(false)], any::<bool>()).prop_map(|(heal, keep)| Op::Retry { heal, keep }),
        ];
        (names::few_or_many(hist::meta_small(), 1..3, 3), vec(op, 1..40)).prop_map(|(backup, ops)| Case { backup, ops }).boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let built = names::build(&case.backup);
        let flat: Vec<(usize, usize, &BuiltSet)> = built
            .iter()
            .enumerate()
            .flat_map(|(c, v)| v.iter().enumerate().map(move |(k, s)| (c, k, s)))
            .collect();
        let n = flat.len();
        let mem = Mem::new(names::files(&built));
        let backup = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        let mut w = World {
            mem: mem.clone(),
            chains: built.iter().map(|c| c.len()).collect(),
            loaded: vec![None; built.len()],
            man_loaded: vec![false; n],
            sig_fault: vec![None; n],
            man_fault: vec![None; n],
            flat,
        };
        // snapshots of several walks over the same backup share what is loaded
        let walks: Vec<Vec<Snapshot>> = (0..4)
            .map(|_| backup.snapshots().map(|s| s.into_iter().collect()))
            .collect::<Result<_, _>>()
            .map_err(|e| e.to_string())?;
        ensure!(walks.iter().all(|w| w.len() == n), "number of snapshots");
        let mut walk = 0;
        let mut held: Vec<Held> = Vec::new();
        let mut failed = false;
        let mut healed = false;
        let mut failed_sets: Vec<(usize, bool)> = Vec::new();
        let mut while_held = false;
        for op in &case.ops {
            let mut op = op.clone();
            if let Op::Retry { heal, keep } = op {
                let (i, sig) = match failed_sets.last() {
                    Some(f) => *f,
                    None => continue,
                };
                let first = w.first(i);
                for j in if sig { first..first - w.flat[first].1 + w.chains[w.flat[i].0] } else { i..i + 1 } {
                    if heal {
                        let s = w.flat[j].2;
                        let name = if sig { &s.sig } else { &s.manifest };
                        mem.0.faults.borrow_mut().remove(name.as_bytes());
                        if sig {
                            w.sig_fault[j] = None;
                        } else {
                            w.man_fault[j] = None;
                        }
                    }
                }
                let snap = i as u16;
                op = if sig { Op::Entries { snap, keep } } else { Op::Manifest { snap, keep } };
            }
            match &op {
                Op::Retry { .. } => (),
                Op::FailOpen { set, sig, kind } => {
                    let i = *set as usize % n;
                    let k = *kind as usize % KINDS.len();
                    let s = w.flat[i].2;
                    let name = if *sig { &s.sig } else { &s.manifest };
                    mem.0.faults.borrow_mut().insert(name.clone().into_bytes(), Fault::Open(KINDS[k]));
                    if *sig {
                        w.sig_fault[i] = Some(k);
                    } else {
                        w.man_fault[i] = Some(k);
                    }
                }
                Op::FailRead { set, at, kind } => {
                    let i = *set as usize % n;
                    let k = *kind as usize % KINDS.len();
                    let s = w.flat[i].2;
                    let at = *at as usize % (s.man_text.len() + 1);
                    mem.0.faults.borrow_mut().insert(s.manifest.clone().into_bytes(), Fault::Read(at, KINDS[k]));
                    w.man_fault[i] = Some(k);
                    cx.class("failing in mid-read");
                }
                Op::Heal { set, sig } => {
                    let i = *set as usize % n;
                    let s = w.flat[i].2;
                    let name = if *sig { &s.sig } else { &s.manifest };
                    mem.0.faults.borrow_mut().remove(name.as_bytes());
                    if *sig {
                        w.sig_fault[i] = None;
                    } else {
                        w.man_fault[i] = None;
                    }
                }
                Op::HealAll => {
                    mem.0.faults.borrow_mut().clear();
                    w.sig_fault = vec![None; n];
                    w.man_fault = vec![None; n];
                }
                Op::Entries { snap, keep } => {
                    let i = *snap as usize % n;
                    while_held |= !held.is_empty();
                    match w.entries(i, &walks[walk][i], cx)? {
                        Some(e) => {
                            healed |= failed_sets.contains(&(i, true));
                            if *keep {
                                held.push(Held::Entries(i, e));
                            }
                        }
                        None => {
                            failed = true;
                            failed_sets.push((i, true));
                        }
                    }
                }
                Op::Manifest { snap, keep } => {
                    let i = *snap as usize % n;
                    while_held |= !held.is_empty();
                    match w.manifest(i, &walks[walk][i], cx)? {
                        Some(m) => {
                            healed |= failed_sets.contains(&(i, false));
                            if *keep {
                                held.push(Held::Manifest(i, m));
                            }
                        }
                        None => {
                            failed = true;
                            failed_sets.push((i, false));
                        }
                    }
                }
                Op::Burst { snap, n: times } => {
                    let i = *snap as usize % n;
                    for _ in 0..*times {
                        if let Some(e) = w.entries(i, &walks[walk][i], cx)? {
                            held.push(Held::Entries(i, e));
                        }
                        if let Some(m) = w.manifest(i, &walks[walk][i], cx)? {
                            held.push(Held::Manifest(i, m));
                        }
                    }
                    cx.class_if(held.len() > 3, "many handles held");
                }
                Op::Reread(h) => {
                    if !held.is_empty() {
                        let h = *h as usize % held.len();
                        match &held[h] {
                            Held::Entries(i, e) => w.check_entries(*i, e)?,
                            Held::Manifest(i, m) => {
                                ensure_eq!(dump::manifest(m), mani::expected(&w.flat[*i].2.man), "held manifest of snapshot {}", i)
                            }
                        }
                    }
                }
                Op::Release(h) => {
                    if !held.is_empty() {
                        let h = *h as usize % held.len();
                        held.swap_remove(h);
                    }
                }
                Op::Spoil { set, sig, remove } => {
                    let i = *set as usize % n;
                    let (c, _, s) = w.flat[i];
                    let name = if *sig { &s.sig } else { &s.manifest };
                    // a set of the chain that is not loaded yet may need the signature
                    let done = if *sig { w.loaded[c] == Some(w.chains[c] - 1) } else { w.man_loaded[i] };
                    if done {
                        cx.class("loaded file spoilt");
                        let mut f = mem.0.files.borrow_mut();
                        if *remove {
                            f.remove(name.as_bytes());
                        } else {
                            f.insert(name.clone().into_bytes(), Rc::new(b"junk".to_vec()));
                        }
                    }
                }
                Op::Again => walk = (walk + 1) % walks.len(),
                Op::List { kind } => {
                    let k = KINDS[*kind as usize % KINDS.len()];
                    mem.0.list_fault.set(Some(k));
                    match Backup::new(mem.clone()) {
                        Ok(_) => return Err("the storage cannot be listed, yet there is a backup".into()),
                        Err(e) => ensure_eq!(e.kind(), k, "failure of the listing"),
                    }
                    mem.0.list_fault.set(None);
                    let b = Backup::new(mem.clone()).map_err(|e| format!("listing works again: {}", e))?;
                    ensure_eq!(b.snapshots().unwrap().into_iter().count(), n, "snapshots after the listing healed");
                    cx.class("listing failed");
                }
            }
        }
        // what is held is still good at the end
        for h in &held {
            match h {
                Held::Entries(i, e) => w.check_entries(*i, e)?,
                Held::Manifest(i, m) => {
                    ensure_eq!(dump::manifest(m), mani::expected(&w.flat[*i].2.man), "held manifest of snapshot {}", i)
                }
            }
        }
        cx.class_if(healed, "healed");
        cx.class_if(while_held, "request while a handle is held");
        cx.nontrivial = failed && healed && while_held;
        Ok(())
    }
}
