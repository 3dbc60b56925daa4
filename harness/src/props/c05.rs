use crate::driver::{Cx, Prop};
use crate::dump::{self, ChainDump, SetDump};
use crate::mem::{Files, Mem};
use crate::names::{self, CollN};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::collections::Collections;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::rc::Rc;

pub struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub coll: CollN,
    /// chains that overlap in time with those above
    pub other: Option<CollN>,
    /// files that are there twice, in another letter case
    #[serde(default)]
    pub twins: Vec<u16>,
}

/// Every volume number in use, and some that are not.
pub fn ask(c: &CollN) -> Vec<usize> {
    let mut v: Vec<usize> = dump::ASK.to_vec();
    for ch in &c.chains {
        for s in std::iter::once(&ch.full).chain(ch.incs.iter().map(|i| &i.set)) {
            for n in &s.vols {
                v.push(*n as usize);
                v.push(*n as usize + 1);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn os(names: &[Vec<u8>]) -> Vec<OsString> {
    names.iter().map(|n| OsString::from_vec(n.clone())).collect()
}

/// The compressed flag tells about volumes and is not judged where a set has none.
fn settle(got: &mut [ChainDump], m: &names::CollModel, twins: &Twins) {
    for (g, w) in got.iter_mut().zip(&m.chains) {
        for (g, w) in g.sets.iter_mut().zip(w) {
            if !w.has_volumes {
                g.compressed = w.dump.compressed;
            }
            twins.settle(g);
        }
    }
}

/// Names of files that are there twice, by that of the twin. Either may be reported.
#[derive(Default)]
struct Twins(HashMap<String, String>);

impl Twins {
    fn new(list: &[Vec<u8>], picks: &[u16]) -> Twins {
        let mut t = Twins::default();
        for i in picks {
            let n = &list[*i as usize % list.len()];
            // (signatures are looked at by their names elsewhere)
            match names::classify(n) {
                names::Class::Valid(i) if i.what != names::What::Sig => (),
                _ => continue,
            }
            let n = String::from_utf8(n.clone()).unwrap();
            for t2 in [n.to_ascii_uppercase(), n.to_ascii_lowercase()] {
                if !list.contains(&t2.clone().into_bytes()) {
                    t.0.insert(t2, n.clone());
                }
            }
        }
        t
    }
    fn settle(&self, s: &mut SetDump) {
        let of = |n: &mut String| {
            if let Some(o) = self.0.get(n) {
                *n = o.clone();
            }
        };
        of(&mut s.manifest);
        s.volumes.iter_mut().filter_map(|v| v.1.as_mut()).for_each(of);
    }
}

pub fn classes(m: &names::CollModel, cx: &mut Cx) {
    let sets = m.chains.iter().map(|c| c.len()).sum::<usize>();
    cx.class_if(m.irregular, "missing set or abandoned attempt");
    cx.class_if(m.chains.len() > 1, "several chains");
    cx.class_if(m.chains.iter().flatten().any(|s| s.dump.partial), "partial");
    cx.class_if(m.chains.iter().flatten().any(|s| s.dump.encrypted), "encrypted");
    cx.class_if(m.chains.iter().flatten().any(|s| s.dump.num_volumes > 99), "more than 99 volumes");
    cx.class_if(m.chains.iter().flatten().any(|s| s.dump.num_volumes == 0), "no volumes");
    cx.nontrivial = sets >= 3 && m.chains.iter().any(|c| c.len() > 1);
}

impl Prop for C05 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Names of up to 4 chains of up to 6 incrementals, written from a model: any volume numbers (gaps, up to 5000), all \
         suffix styles and letter cases, partial sets, abandoned attempts that continue the same point, sets whose files \
         are gone (what follows is orphaned), shuffled, among foreign files; in a quarter of the cases with a second such \
         collection whose chains overlap in time with the first. Non-trivial: at least three sets are reported \
         and one of them is incremental."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "no two sets end at the same second; the order of signature chains that overlap in time is not judged",
            "a final file and its .part are not both present; a set has volumes or a manifest",
            "nothing follows an abandoned attempt",
        ]
    }
    fn cases(&self) -> u64 {
        40_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (
            names::coll_n(4, 6),
            prop_oneof![3 => Just(None), 1 => names::coll_n(3, 4).prop_map(Some)],
            prop_oneof![3 => Just(vec![]), 1 => vec(any::<u16>(), 1..5)],
        )
            .prop_map(|(coll, other, twins)| Case { coll, other, twins })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        names::bigs().into_iter().map(|coll| Case { coll, other: None, twins: vec![] }).collect()
    }
    fn fixed_thorough(&self) -> Vec<Case> {
        [names::big(1, 20_000, 1), names::big(20_000, 0, 1)].into_iter().map(|coll| Case { coll, other: None, twins: vec![] }).collect()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let none: [std::ffi::OsString; 0] = [];
        let of_none = dump::collections(&Collections::from_filenames(&none), &[]);
        ensure_eq!((of_none.chains.len(), of_none.sig_chains.len(), of_none.num_snapshots), (0, 0, 0), "a collection of no files");
        ensure_eq!(dump::collections(&Collections::new(), &[]), of_none, "a new collection");
        let mut ask = ask(&case.coll);
        let mut m = match &case.other {
            None => names::model(&case.coll, &ask),
            Some(o) => {
                ask.extend(self::ask(o));
                ask.sort();
                ask.dedup();
                cx.class("overlapping chains");
                names::overlay(&case.coll, o, &ask)
            }
        };
        classes(&m, cx);
        let mut twins = Twins::default();
        if !case.twins.is_empty() && !m.names.is_empty() {
            twins = Twins::new(&m.names, &case.twins);
            let mut more: Vec<_> = twins.0.keys().map(|n| n.clone().into_bytes()).collect();
            more.sort();
            for (i, n) in more.into_iter().enumerate() {
                let at = (case.twins[0] as usize * (i + 1)) % (m.names.len() + 1);
                m.names.insert(at, n);
            }
            cx.class_if(!twins.0.is_empty(), "files that are there twice");
        }
        let list = os(&m.names);
        let mut got = dump::collections(&Collections::from_filenames(&list), &ask);
        if case.other.is_some() {
            // which of two overlapping signature chains comes first is not judged
            got.sig_chains.sort_by_key(|c| c.start);
        }
        let want = names::chain_dumps(&m);
        settle(&mut got.chains, &m, &twins);
        for (i, (g, w)) in got.chains.iter().zip(&want).enumerate() {
            for (j, (g, w)) in g.sets.iter().zip(&w.sets).enumerate() {
                ensure_eq!(g, w, "chain {} set {}", i, j);
            }
            ensure_eq!((g.start, g.end, g.sets.len()), (w.start, w.end, w.sets.len()), "chain {}", i);
        }
        ensure_eq!(got.chains.len(), want.len(), "number of chains of {:?}", list);
        let total: usize = want.iter().map(|c| c.sets.len()).sum();
        ensure_eq!(got.num_snapshots, total, "num_snapshots");
        if m.sig_sure {
            let sigs: Vec<_> = got.sig_chains.iter().map(|c| c.sigs.clone()).collect();
            if let Some(d) = dump::first_diff(&sigs, &m.sig_chains) {
                return Err(format!("signature chains: {}", d));
            }
            for (g, w) in got.sig_chains.iter().zip(&m.sig_chains) {
                ensure_eq!((g.start, g.end), (w[0].time, w[w.len() - 1].time), "times of a signature chain");
            }
        }
        // the same through the snapshots of a backup
        let mut f = Files::new();
        for n in &m.names {
            f.insert(n.clone(), Rc::new(vec![]));
        }
        let b = Backup::new(Mem::with_order(f, m.names.clone())).map_err(|e| e.to_string())?;
        let flat: Vec<_> = m.chains.iter().flatten().collect();
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), flat.len(), "number of snapshots");
        for (i, (s, w)) in snaps.iter().zip(&flat).enumerate() {
            let mut g = dump::set(s.as_backup_set(), &ask);
            if !w.has_volumes {
                g.compressed = w.dump.compressed;
            }
            twins.settle(&mut g);
            ensure_eq!(g, w.dump, "snapshot {}", i);
            ensure_eq!(
                (s.time().sec, s.is_full(), s.is_incremental(), s.num_volumes()),
                (w.dump.end, w.dump.full, w.dump.inc, w.dump.num_volumes),
                "snapshot {}",
                i
            );
        }
        Ok(())
    }
}
