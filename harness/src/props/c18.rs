use super::c05;
use crate::driver::{Cx, Prop};
use crate::mem::{Files, Mem};
use crate::names::{self, CollN};
use crate::util::{civil, days_from_civil, now_secs, show_time, this_year, ZONE_OFF};
use proptest::prelude::*;
use ruplicity::collections::Collections;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub struct C18;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub coll: CollN,
    /// chains that overlap in time with those above
    pub other: Option<CollN>,
}

/// Lines as words: the width of the columns is not part of the property.
fn words(text: &str) -> Vec<Vec<String>> {
    text.lines().map(|l| l.split_whitespace().map(|w| w.to_owned()).collect()).collect()
}

fn line(out: &mut Vec<Vec<String>>, text: String) {
    out.push(text.split_whitespace().map(|w| w.to_owned()).collect());
}

fn set_line(s: &names::SetModel, year: i64) -> String {
    format!(
        "{} {} {}",
        if s.dump.full { "Full" } else { "Incremental" },
        show_time(s.dump.end, ZONE_OFF, year),
        s.dump.num_volumes
    )
}

fn chain_text(c: &[names::SetModel], year: i64) -> Vec<Vec<String>> {
    let mut out = Vec::new();
    line(&mut out, format!("Chain start time: {}", show_time(c[0].dump.end, ZONE_OFF, year)));
    line(&mut out, format!("Chain end time: {}", show_time(c[c.len() - 1].dump.end, ZONE_OFF, year)));
    line(&mut out, format!("Number of contained backup sets: {}", c.len()));
    let vols: usize = c.iter().map(|s| s.dump.num_volumes).sum();
    line(&mut out, format!("Total number of contained volumes: {}", vols));
    line(&mut out, "Type of backup set: Time: Num volumes:".into());
    for s in c {
        line(&mut out, set_line(s, year));
    }
    out
}

fn same(what: &str, text: &str, want: &[Vec<String>]) -> Result<(), String> {
    let got = words(text);
    if got == want {
        return Ok(());
    }
    Err(format!(
        "{}: {}; printed as\n{}",
        what,
        crate::dump::first_diff(&got, want).unwrap_or_default(),
        text
    ))
}

/// The lines of the sets stand in columns below their header.
fn columns(what: &str, text: &str) -> Result<(), String> {
    let mut at: Option<(usize, usize)> = None;
    for l in text.lines() {
        let c: Vec<char> = l.trim_end().chars().collect();
        let l: String = c.iter().collect();
        if l.starts_with("Type of backup set:") {
            at = l.find("Time:").map(|t| (t, c.len()));
        } else if l.starts_with("Chain start time:") {
            at = None;
        } else if let Some((time, end)) = at {
            // the time begins where its header begins, the count ends where its header ends
            let ok = c.len() == end && time > 0 && c.get(time - 1) == Some(&' ') && c.get(time).map_or(false, |c| *c != ' ');
            ensure!(ok, "{}: not in columns: {:?} in\n{}", what, l, text);
        }
    }
    Ok(())
}

impl Prop for C18 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Names of up to 4 chains of up to 6 incrementals as for C05 (gaps in volume numbers, abandoned attempts, missing \
         sets, any listing order), half of them in the current year, one case in five with other chains that overlap in time; the collection, each chain, each set and each signature \
         chain is printed and compared with our own renderer fed from the model. Non-trivial: at least three sets are \
         printed, one of them incremental."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["lines are compared word by word; of the columns only that times and counts stand under their headers"]
    }
    fn cases(&self) -> u64 {
        44_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let year0 = days_from_civil(civil(now_secs()).year, 1, 1) * 86_400;
        (
            names::coll_n(4, 6),
            proptest::option::of(-200_000i64..31_600_000),
            prop_oneof![4 => Just(None), 1 => names::coll_n(3, 4).prop_map(Some)],
        )
            .prop_map(move |(mut c, d, other)| {
                if let Some(d) = d {
                    c.t0 = year0 + d;
                }
                Case { coll: c, other }
            })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        names::bigs().into_iter().map(|coll| Case { coll, other: None }).collect()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let m = match &case.other {
            None => names::model(&case.coll, &[]),
            Some(o) => {
                cx.class("overlapping chains");
                names::overlay(&case.coll, o, &[])
            }
        };
        c05::classes(&m, cx);
        let list = c05::os(&m.names);
        let coll = Collections::from_filenames(&list);
        let year = this_year();
        let all = format!("{}", coll);
        let chains: Vec<String> = coll.backup_chains().map(|c| format!("{}", c)).collect();
        let sets: Vec<Vec<String>> = coll
            .backup_chains()
            .map(|c| std::iter::once(c.full_set()).chain(c.inc_sets()).map(|s| format!("{}", s)).collect())
            .collect();
        let sigs: Vec<String> = {
            // which of two overlapping signature chains comes first is not judged
            let mut c: Vec<_> = coll.signature_chains().collect();
            if case.other.is_some() {
                c.sort_by_key(|c| c.start_time());
            }
            c.iter().map(|c| format!("{}", c)).collect()
        };
        let again = format!("{}", coll);
        if this_year() != year || civil(now_secs() + ZONE_OFF).year != year {
            return Ok(());
        }
        cx.class_if(all.contains(':') && case.coll.t0 > days_from_civil(year, 1, 1) * 86_400, "current year");
        let want: Vec<Vec<Vec<String>>> = m.chains.iter().map(|c| chain_text(c, year)).collect();
        same("collection", &all, &want.concat())?;
        columns("collection", &all)?;
        for t in &chains {
            columns("chain", t)?;
        }
        ensure_eq!(again, all, "the collection printed again");
        ensure_eq!(chains.len(), want.len(), "number of chains");
        for (i, (t, w)) in chains.iter().zip(&want).enumerate() {
            same(&format!("chain {}", i), t, w)?;
        }
        for (i, (c, w)) in sets.iter().zip(&m.chains).enumerate() {
            ensure_eq!(c.len(), w.len(), "number of sets of chain {}", i);
            for (t, s) in c.iter().zip(w) {
                let mut l = Vec::new();
                line(&mut l, set_line(s, year));
                same("set", t, &l)?;
            }
        }
        if m.sig_sure {
            ensure_eq!(sigs.len(), m.sig_chains.len(), "number of signature chains");
            for (t, w) in sigs.iter().zip(&m.sig_chains) {
                let mut l = Vec::new();
                let (a, b) = (w[0].time, w[w.len() - 1].time);
                line(&mut l, format!("start time: {}, end time: {}", show_time(a, ZONE_OFF, year), show_time(b, ZONE_OFF, year)));
                for s in w {
                    line(&mut l, s.name.clone());
                }
                same("signature chain", t, &l)?;
            }
        }
        // and as a backup reports it
        let mut f = Files::new();
        for n in &m.names {
            f.insert(n.clone(), Rc::new(vec![]));
        }
        let b = Backup::new(Mem::with_order(f, m.names.clone())).map_err(|e| e.to_string())?;
        let t = format!("{}", b.snapshots().map_err(|e| e.to_string())?.as_collections());
        same("collection of a backup", &t, &want.concat())
    }
}
