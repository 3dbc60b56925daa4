use crate::driver::{Cx, Prop};
use crate::hist::{self, Meta, Rec};
use crate::mem::{Files, Mem};
use crate::names::file_name;
use crate::tarw::{self, Enc};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::{self, Chain, Entry};
use ruplicity::{Backend, Backup, Snapshot};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::rc::Rc;

pub struct C17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Next,
    Nth(u64),
    /// skip to this many before the end
    NthFromEnd(u8),
    Hint,
    Len,
    /// go on with a clone, come back to the original later
    Clone,
    Back,
    Restart,
    Count,
    Last,
    Collect,
    StepBy(u8),
    /// all that are left, by internal iteration
    Fold,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// sets in each chain
    pub chains: Vec<u32>,
    /// files recorded by each set
    pub files: u8,
    /// which chain and snapshot is looked into
    pub pick: u32,
    pub backup: Vec<Op>,
    pub snapshots: Vec<Op>,
    pub entries: Vec<Op>,
}

/// Runs calls on an iterator and the same on a plain list of keys.
struct Run<'a, I, K> {
    what: &'a str,
    fresh: &'a dyn Fn() -> I,
    list: &'a [K],
    dup: Option<&'a dyn Fn(&I) -> I>,
    len: Option<&'a dyn Fn(&I) -> usize>,
}

fn run<I, K, F>(r: Run<I, K>, key: F, ops: &[Op], cx: &mut Cx) -> Result<(), String>
where
    I: Iterator,
    K: PartialEq + Debug + Clone,
    F: Fn(I::Item) -> K,
{
    let n = r.list.len();
    let mut it = (r.fresh)();
    let mut pos = 0usize;
    let mut saved: Vec<(I, usize)> = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        let at = format!("{} of {}: call {} ({:?}) at position {}", r.what, n, k, op, pos);
        match op {
            Op::Next => {
                ensure_eq!(it.next().map(&key), r.list.get(pos).cloned(), "{}", at);
                pos = (pos + 1).min(n);
            }
            Op::Nth(_) | Op::NthFromEnd(_) => {
                let skip = match op {
                    Op::Nth(s) => *s as usize,
                    Op::NthFromEnd(b) => (n - pos).saturating_sub(*b as usize),
                    _ => unreachable!(),
                };
                let want = pos.checked_add(skip).and_then(|i| r.list.get(i)).cloned();
                cx.class_if(want.is_some() && pos + skip > 254, "beyond 255");
                ensure_eq!(it.nth(skip).map(&key), want, "{}: nth({})", at, skip);
                pos = pos.saturating_add(skip).saturating_add(1).min(n);
            }
            Op::Hint => {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= n - pos && hi.map_or(true, |h| h >= n - pos), "{}: size hint {:?}", at, (lo, hi));
                if r.len.is_some() {
                    ensure_eq!((lo, hi), (n - pos, Some(n - pos)), "{}: size hint", at);
                }
            }
            Op::Len => {
                if let Some(f) = r.len {
                    ensure_eq!(f(&it), n - pos, "{}: length", at);
                }
            }
            Op::Clone => {
                if let Some(f) = r.dup {
                    let c = f(&it);
                    saved.push((std::mem::replace(&mut it, c), pos));
                }
            }
            Op::Back => {
                if let Some((i, p)) = saved.pop() {
                    it = i;
                    pos = p;
                }
            }
            Op::Restart => {
                it = (r.fresh)();
                pos = 0;
            }
            Op::Count => {
                // (the iterator itself, which may count in its own way)
                let all = std::mem::replace(&mut it, (r.fresh)());
                ensure_eq!(all.count(), n - pos, "{}: count", at);
                pos = 0;
            }
            Op::Last => {
                let want = if pos < n { r.list.last().cloned() } else { None };
                let all = std::mem::replace(&mut it, (r.fresh)());
                ensure_eq!(all.last().map(&key), want, "{}: last", at);
                pos = 0;
            }
            Op::Collect => {
                let got: Vec<K> = it.by_ref().map(&key).collect();
                if got != r.list[pos..] {
                    return Err(format!("{}: got {:?}, expected {:?}", at, got, &r.list[pos..]));
                }
                pos = n;
            }
            Op::Fold => {
                let all = std::mem::replace(&mut it, (r.fresh)());
                let mut got = Vec::new();
                all.for_each(|x| got.push(key(x)));
                ensure!(got == r.list[pos..], "{}: got {:?}, expected {:?}", at, got, &r.list[pos..]);
                pos = 0;
            }
            Op::StepBy(s) => {
                let s = *s as usize % 7 + 1;
                let got: Vec<K> = it.by_ref().step_by(s).map(&key).collect();
                let want: Vec<K> = r.list[pos..].iter().step_by(s).cloned().collect();
                ensure_eq!(got, want, "{}: step_by({})", at, s);
                pos = n;
            }
        }
    }
    // whatever is left, and nothing after it
    let got: Vec<K> = it.by_ref().map(&key).collect();
    ensure!(got == r.list[pos..], "{} of {} from {}: the rest is {:?}", r.what, n, pos, got);
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{}: goes on after its end", r.what);
    }
    ensure!(it.nth(0).is_none() && it.nth(usize::MAX).is_none(), "{}: skipping goes on after its end", r.what);
    Ok(())
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    let nth = prop_oneof![
        6 => 0u64..8,
        2 => 0u64..600,
        2 => 250u64..260,
        1 => any::<u64>(),
        1 => (0u64..300).prop_map(|k| u64::MAX - k),
        1 => (0u32..64, -2i64..3).prop_map(|(b, d)| (1u64 << b).wrapping_add_signed(d)),
    ];
    vec(
        prop_oneof![
            6 => Just(Op::Next),
            6 => nth.prop_map(Op::Nth),
            3 => (0u8..4).prop_map(Op::NthFromEnd),
            3 => Just(Op::Hint),
            4 => Just(Op::Len),
            2 => Just(Op::Clone),
            2 => Just(Op::Back),
            2 => Just(Op::Restart),
            1 => Just(Op::Count),
            1 => Just(Op::Last),
            1 => Just(Op::Collect),
            1 => any::<u8>().prop_map(Op::StepBy),
            1 => Just(Op::Fold),
        ],
        0..16,
    )
    .boxed()
}

fn rec(mtime: i64, dir: bool) -> Option<Rec> {
    let mut meta = Meta::simple(if dir { hist::Kind::Dir } else { hist::Kind::Fifo });
    meta.mtime = mtime;
    Some(Rec { meta, uname: b"u".to_vec(), gname: b"g".to_vec() })
}

impl Prop for C17 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Backups of 0-4 chains of 1-8 sets, and one case in eight with a chain of 250-520; up to 15 calls (next, nth with \
         any argument up to 2^64-1, size_hint, len, clone and go back, restart, count, last, collect, step_by) on the \
         backup's snapshots, on a chain's snapshots and on a snapshot's entries, each compared with the same calls on a \
         plain list; an exhausted iterator is asked again. Non-trivial: some skip ahead succeeds and some call follows it, \
         on a list of at least three."
    }
    fn cases(&self) -> u64 {
        36_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let chains = prop_oneof![
            7 => vec(1u32..9, 0..5),
            1 => (vec(1u32..4, 0..2), prop_oneof![250u32..260, 250u32..521]).prop_map(|(mut v, n)| { v.push(n); v }),
        ];
        (chains, 0u8..9, any::<u32>(), ops(), ops(), ops())
            .prop_map(|(chains, files, pick, backup, snapshots, entries)| Case { chains, files, pick, backup, snapshots, entries })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        let ops = |v: &[u64]| v.iter().flat_map(|k| [Op::Nth(*k), Op::Len, Op::Next, Op::Restart]).chain([Op::Count, Op::Nth(65_990)]).collect::<Vec<_>>();
        vec![Case {
            chains: vec![30, 66_000],
            files: 0,
            pick: 7,
            backup: ops(&[254, 255, 19_000, 65_535, 65_536, 66_000, 70_000]),
            snapshots: ops(&[254, 255, 256, 10_000, 65_534, 65_535, 65_536, 66_000]),
            entries: ops(&[0, 1]),
        }]
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let empty = Chain::new();
        ensure_eq!((empty.snapshots().len(), empty.snapshots().count()), (0, 0), "snapshots of an empty chain");
        let mut f = Files::new();
        let mut t = 1_400_000_000i64;
        let mut times = Vec::new();
        let mut per_chain: Vec<Vec<i64>> = Vec::new();
        for n in &case.chains {
            let mut prev = None;
            let mut own = Vec::new();
            for _ in 0..*n {
                t += 1;
                let mut ms = vec![hist::member(&vec![], &rec(t, true), Enc::plain())];
                for i in 0..case.files {
                    // every other set leaves half of the files out
                    if prev.is_none() || (i as i64 + t) % 2 == 0 {
                        let r = if (i as i64 * 3 + t) % 5 == 0 && prev.is_some() { None } else { rec(t, false) };
                        ms.push(hist::member(&vec![format!("f{}", i).into_bytes()], &r, Enc::plain()));
                    }
                }
                f.insert(file_name(prev, t, "sigtar", false, "").into_bytes(), Rc::new(tarw::write_tar(&ms, 0).0));
                f.insert(file_name(prev, t, "manifest", false, "").into_bytes(), Rc::new(vec![]));
                prev = Some(t);
                own.push(t);
                times.push((t, own.len() == 1));
            }
            per_chain.push(own);
        }
        let mem = Mem::new(f);
        let backup = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        let snap_key = |s: Snapshot| (s.time().sec, s.is_full());
        ensure_eq!(backup.snapshots().unwrap().as_collections().num_snapshots(), times.len(), "num_snapshots");
        let fresh = || backup.snapshots().unwrap().into_iter();
        run(Run { what: "snapshots of a backup", fresh: &fresh, list: &times, dup: None, len: None }, snap_key, &case.backup, cx)?;

        // (a long chain takes a while)
        let own = if times.len() > 10_000 { None } else { Some(Collections::from_filenames(mem.file_names().unwrap())) };
        let snaps = backup.snapshots().unwrap();
        let coll = own.as_ref().unwrap_or(snaps.as_collections());
        ensure_eq!(coll.signature_chains().count(), per_chain.len(), "signature chains");
        if per_chain.is_empty() {
            return Ok(());
        }
        // a long chain is read rarely, but then it is the one that is looked into
        let k = match per_chain.iter().position(|c| c.len() > 200) {
            Some(k) => k,
            None => case.pick as usize % per_chain.len(),
        };
        let chain = Chain::from_sigchain(coll.signature_chains().nth(k).unwrap(), &mem).map_err(|e| e.to_string())?;
        let list = &per_chain[k];
        cx.class_if(list.len() > 255, "more than 255 snapshots");
        // the root is recorded by every set, with its time
        let key = |s: signatures::Snapshot| s.files().next().map_or(-1, |e| e.mtime().sec);
        let fresh = || chain.snapshots();
        let len = |i: &signatures::Snapshots| i.len();
        run(Run { what: "snapshots of a chain", fresh: &fresh, list, dup: None, len: Some(&len) }, key, &case.snapshots, cx)?;

        let i = case.pick as usize / 7 % list.len();
        let snap = match chain.snapshots().nth(i) {
            Some(s) => s,
            None => return Err(format!("snapshot {} of {} is not there", i, list.len())),
        };
        let ekey = |e: Entry| (e.path_bytes().to_vec(), e.mtime().sec);
        let fresh = || snap.files();
        let all: Vec<_> = snap.files().map(ekey).collect();
        let want = expected_files(case, list, i);
        ensure_eq!(all, want, "entries of snapshot {}", i);
        run_entries(&fresh, &want, ekey, &case.entries, cx)?;
        // and through the backup: a handle can be asked for its entries again and again
        let before: usize = per_chain[..k].iter().map(|c| c.len()).sum();
        let s = backup.snapshots().unwrap().into_iter().nth(before + i).ok_or("snapshot is not there")?;
        let handle = s.entries().map_err(|e| e.to_string())?;
        let fresh = || handle.as_signature();
        run_entries(&fresh, &want, ekey, &case.entries, cx)?;
        let skips = |o: &[Op]| o.iter().position(|x| matches!(x, Op::Nth(k) if *k < 8) || matches!(x, Op::NthFromEnd(_)));
        cx.nontrivial = list.len() >= 3 && skips(&case.snapshots).map_or(false, |p| p + 1 < case.snapshots.len());
        Ok(())
    }
}

fn run_entries<'a>(
    fresh: &dyn Fn() -> signatures::SnapshotEntries<'a>,
    want: &[(Vec<u8>, i64)],
    key: impl Fn(Entry<'a>) -> (Vec<u8>, i64),
    ops: &[Op],
    cx: &mut Cx,
) -> Result<(), String> {
    run(Run { what: "entries", fresh, list: want, dup: Some(&|e: &signatures::SnapshotEntries<'a>| e.clone()), len: None }, key, ops, cx)
}

fn expected_files(case: &Case, times: &[i64], upto: usize) -> Vec<(Vec<u8>, i64)> {
    let mut v = vec![(Vec::new(), times[upto])];
    for i in 0..case.files {
        let mut last = None;
        for (k, t) in times[..=upto].iter().enumerate() {
            if k == 0 || (i as i64 + t) % 2 == 0 {
                last = if (i as i64 * 3 + t) % 5 == 0 && k > 0 { None } else { Some(*t) };
            }
        }
        if let Some(t) = last {
            v.push((format!("f{}", i).into_bytes(), t));
        }
    }
    v
}
