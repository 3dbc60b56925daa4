use super::c05;
use crate::driver::{Cx, Prop};
use crate::dump;
use crate::hist;
use crate::mem::Mem;
use crate::names::{self, BackupR, CollN};
use crate::util::{Bytes, Mix};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::collections::Collections;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// names only; some are repeated in another letter case or with another suffix
    Names { coll: CollN, twins: Vec<(u16, u8)>, orders: Vec<u64>, foreign: Vec<Bytes> },
    /// with contents
    Backup { backup: BackupR, orders: Vec<u64>, foreign: Vec<Bytes> },
    /// among very many other files
    Crowd { coll: CollN, others: u32, orders: Vec<u64> },
}

/// The name of the `i`th other file.
fn other(i: u32) -> Vec<u8> {
    match i % 5 {
        0 => format!("photo{}.jpg", i),
        1 => format!("duplicity-full.{}.manifest", i),
        2 => format!("duplicity-inc.20150617T182545Z.to.{}.vol1.difftar.gz", i),
        3 => format!("zz{}/", i),
        _ => format!("0{}.gpg", i),
    }
    .into_bytes()
}

/// A second file in the same role as `n`.
fn twin(n: &[u8], how: u8) -> Vec<u8> {
    match how % 4 {
        0 => n.to_ascii_uppercase(),
        1 => n.to_ascii_lowercase(),
        2 => [n, b".gpg"].concat(),
        _ => [n, b".gz"].concat(),
    }
}

fn order(list: &[Vec<u8>], seed: u64) -> Vec<Vec<u8>> {
    let mut v = list.to_vec();
    match seed % 5 {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse();
        }
        _ => Mix::new(seed).shuffle(&mut v),
    }
    v
}

impl Prop for C06 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "A list of backup file names (as for C05, some twice in different spelling) or a whole backup with contents, reported \
         once as sorted and without foreign files, then in several other orders (reversed, shuffled) with foreign files \
         mixed in; fixed cases with up to 70 000 foreign files and 300 sets. Non-trivial: at least 8 backup files, an order other than the sorted one and at least one foreign file."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["what counts as foreign is decided by the recogniser of C14"]
    }
    fn cases(&self) -> u64 {
        28_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let orders = || vec(any::<u64>(), 1..4);
        let foreign = || vec(names::foreign(), 0..5);
        prop_oneof![
            2 => (names::coll_n(4, 5), vec((any::<u16>(), any::<u8>()), 0..3), orders(), foreign())
                .prop_map(|(coll, twins, orders, foreign)| Case::Names { coll, twins, orders, foreign }),
            1 => (names::few_or_many(hist::meta_small(), 1..4, 4), orders(), foreign())
                .prop_map(|(backup, orders, foreign)| Case::Backup { backup, orders, foreign }),
        ]
        .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        let crowd = |chains, incs, others| Case::Crowd { coll: names::big(chains, incs, 2), others, orders: vec![1, 2, 3] };
        vec![crowd(3, 4, 70_000), crowd(200, 1, 300), crowd(1, 300, 1000), crowd(1, 3, 5000)]
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        match case {
            Case::Crowd { coll, others, orders } => {
                cx.class("a crowd of other files");
                let ask = c05::ask(coll);
                let list = names::model(coll, &ask).names;
                let base = dump::collections(&Collections::from_filenames(c05::os(&list)), &ask);
                let mut all = list.clone();
                all.extend((0..*others).map(other).filter(|n| names::classify(n) == names::Class::Invalid));
                for o in orders {
                    let l = order(&all, *o);
                    cx.nontrivial |= o % 5 != 0 && list.len() >= 8;
                    let got = dump::collections(&Collections::from_filenames(c05::os(&l)), &ask);
                    ensure_eq!(got, base, "{} other files, order {}", others, o);
                }
            }
            Case::Names { coll, twins, orders, foreign } => {
                let ask = c05::ask(coll);
                let mut plain = coll.clone();
                plain.foreign.clear();
                let mut list = names::model(&plain, &ask).names;
                if !list.is_empty() {
                    for (i, how) in twins {
                        let t = twin(&list[*i as usize % list.len()], *how);
                        if !list.contains(&t) {
                            cx.class("two files in one role");
                            list.push(t);
                        }
                    }
                }
                list.sort();
                let base = dump::collections(&Collections::from_filenames(c05::os(&list)), &ask);
                let strangers = names::surely_foreign(foreign);
                cx.class_if(!strangers.is_empty(), "foreign files");
                for (k, o) in orders.iter().enumerate() {
                    let mut l = list.clone();
                    if k > 0 || strangers.len() % 2 == 1 {
                        l.extend(strangers.clone());
                    }
                    let l = order(&l, *o);
                    cx.nontrivial |= list.len() >= 8 && l.len() > list.len() && o % 5 != 0;
                    let got = dump::collections(&Collections::from_filenames(c05::os(&l)), &ask);
                    ensure_eq!(got, base, "order {:?} against sorted", c05::os(&l));
                }
            }
            Case::Backup { backup, orders, foreign } => {
                cx.class("with contents");
                let built = names::build(backup);
                let mut files = names::files(&built);
                let list: Vec<Vec<u8>> = files.keys().cloned().collect();
                let of = |m: Mem| -> Result<_, String> {
                    let b = Backup::new(m).map_err(|e| e.to_string())?;
                    let d = dump::backup(&b, dump::ASK);
                    let s = b.snapshots().map_err(|e| e.to_string())?;
                    Ok((d, format!("{}", s.as_collections())))
                };
                let base = of(Mem::with_order(files.clone(), list.clone()))?;
                let strangers = names::surely_foreign(foreign);
                for s in &strangers {
                    files.insert(s.clone(), Rc::new(b"something else".to_vec()));
                }
                for o in orders {
                    let mut l = list.clone();
                    l.extend(strangers.clone());
                    let l = order(&l, *o);
                    cx.nontrivial |= list.len() >= 8 && l.len() > list.len() && o % 5 != 0;
                    let got = of(Mem::with_order(files.clone(), l.clone()))?;
                    if let Some(d) = dump::first_diff(&got.0, &base.0) {
                        return Err(format!("order {:?} against sorted: {}", c05::os(&l), d));
                    }
                    ensure_eq!(got.1, base.1, "printed status in order {:?}", c05::os(&l));
                }
            }
        }
        Ok(())
    }
}
