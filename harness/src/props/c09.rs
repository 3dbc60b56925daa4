use crate::driver::{Cx, Prop};
use crate::hist::{self, Path};
use crate::mani::{self, ManM, VolM};
use crate::util::{esc, Bytes};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::manifest::Manifest;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub struct C09;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub names: Vec<Bytes>,
    /// paths, as indexes into the names
    pub paths: Vec<Vec<u8>>,
    /// how many pieces the paths are stored in, in turn
    pub pieces: Vec<u8>,
    /// where a new volume begins, among all pieces
    pub cuts: Vec<u16>,
    /// which block numbers are written: 0 duplicity before 0.7.20, 1 since, 2 as in Docs.md
    pub style: u8,
    /// other paths to look for
    pub other: Vec<Vec<u8>>,
    pub root: bool,
    /// so many more paths, each with a volume of its own
    #[serde(default)]
    pub many: u32,
}

fn show(p: &Path) -> Vec<u8> {
    if p.is_empty() {
        b".".to_vec()
    } else {
        hist::join(p)
    }
}

fn tuple(names: &[Bytes], ix: &[u8]) -> Path {
    ix.iter()
        .map(|i| if names.is_empty() { b"x".to_vec() } else { hist::clean(&names[*i as usize % names.len()].0) })
        .collect()
}

pub struct Layout {
    /// (path, piece number from 1, number of pieces)
    pub volumes: Vec<Vec<(Path, usize, usize)>>,
}

pub fn layout(c: &Case) -> Layout {
    let mut set: BTreeSet<Path> = c.paths.iter().map(|p| tuple(&c.names, p)).collect();
    if c.root {
        set.insert(vec![]);
    }
    let mut all = Vec::new();
    for (i, p) in set.into_iter().enumerate() {
        let n = if c.pieces.is_empty() { 1 } else { c.pieces[i % c.pieces.len()].max(1) as usize };
        // directories are never split; the root is one
        let n = if p.is_empty() { 1 } else { n };
        for k in 1..=n {
            all.push((p.clone(), k, n));
        }
    }
    let mut at: Vec<usize> = if all.is_empty() { vec![] } else { c.cuts.iter().map(|x| *x as usize % all.len()).collect() };
    at.sort();
    at.dedup();
    at.retain(|x| *x > 0);
    let mut volumes = Vec::new();
    let mut from = 0;
    for x in at.into_iter().chain(Some(all.len())) {
        if x > from {
            volumes.push(all[from..x].to_vec());
        }
        from = x;
    }
    // behind all others: no name begins with such a byte
    volumes.extend((0..c.many).map(|i| vec![(vec![b"\xff\xff".to_vec(), format!("{:07}", i).into_bytes()], 1, 1)]));
    Layout { volumes }
}

fn start_block(style: u8, k: usize, n: usize) -> Option<u64> {
    match style % 3 {
        0 if k < n => Some(k as u64 + 1),
        1 if k < n => Some(k as u64),
        2 if k > 1 => Some(k as u64),
        _ => None,
    }
}

fn end_block(style: u8, k: usize, n: usize) -> Option<u64> {
    match style % 3 {
        0 if k < n => Some(k as u64 + 1),
        1 | 2 if k < n => Some(k as u64),
        _ => None,
    }
}

pub fn manifest(l: &Layout, style: u8) -> ManM {
    ManM {
        host: "host".into(),
        dir: Bytes(b"/".to_vec()),
        vols: l
            .volumes
            .iter()
            .map(|v| {
                let (a, z) = (&v[0], &v[v.len() - 1]);
                VolM {
                    start: Bytes(show(&a.0)),
                    start_block: start_block(style, a.1, a.2),
                    end: Bytes(show(&z.0)),
                    end_block: end_block(style, z.1, z.2),
                    hash_type: "SHA1".into(),
                    hash: Bytes(vec![1; 20]),
                }
            })
            .collect(),
    }
}

impl Prop for C09 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "A sorted set of up to 30 paths over names that make byte order and component order disagree, each stored in 1-9 \
         pieces, cut into volumes anywhere between pieces; manifests written with the block numbers of older duplicity, \
         newer duplicity and Docs.md; looked up for every stored path, the root in both spellings, and other paths, of \
         which those outside every volume must be absent. Non-trivial: at least three volumes, and a path in two or more."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["paths inside a volume's range that are not stored are not judged"]
    }
    fn cases(&self) -> u64 {
        800_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (
            hist::names(),
            vec(hist::path_ix(), 0..30),
            vec(prop_oneof![4 => Just(1u8), 2 => 2u8..4, 1 => 4u8..10], 1..8),
            prop_oneof![3 => vec(any::<u16>(), 0..8), 1 => vec(any::<u16>(), 8..40)],
            0u8..3,
            vec(hist::path_ix(), 0..12),
            any::<bool>(),
        )
            .prop_map(|(names, paths, pieces, cuts, style, other, root)| Case { names, paths, pieces, cuts, style, other, root, many: 0 })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        // more volumes than a small counter holds
        let names: Vec<Bytes> = (0..64u32).map(|i| Bytes(format!("n{:02}", i).into_bytes())).collect();
        [2u8, 5]
            .into_iter()
            .flat_map(|n| (0..3u8).map(move |style| (n, style)))
            .map(|(n, style)| Case {
                names: names.clone(),
                paths: (0..n * 12).flat_map(|a| (0..30u8).map(move |b| vec![a, b])).collect(),
                pieces: vec![1, 1, 3, 1, 2],
                cuts: (0..n as u16 * 400).map(|i| i * 7).collect(),
                style,
                other: vec![vec![3], vec![40, 31, 2]],
                root: true,
                many: 0,
            })
            .chain([300, 70_000].into_iter().map(|many| Case {
                names: names.clone(),
                paths: vec![vec![1], vec![1, 2], vec![3]],
                pieces: vec![2],
                cuts: vec![1, 3],
                style: 1,
                other: vec![vec![4]],
                root: true,
                many,
            }))
            .collect()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let l = layout(case);
        let man = manifest(&l, case.style);
        let text = mani::text(&man, 0);
        let m = Manifest::parse(&mut &text[..]).map_err(|e| e.to_string())?;
        let shown = || String::from_utf8_lossy(&text[..text.len().min(20_000)]);
        let mut stored: BTreeMap<Path, BTreeSet<usize>> = BTreeMap::new();
        let mut spans = false;
        for (i, v) in l.volumes.iter().enumerate() {
            for p in v {
                stored.entry(p.0.clone()).or_default().insert(i + 1);
            }
        }
        for (p, holds) in &stored {
            let holds: Vec<usize> = holds.iter().copied().collect();
            let want = (Some(holds[0]), Some(holds[holds.len() - 1]));
            spans |= holds.len() > 1;
            cx.class_if(holds.len() > 2, "three volumes or more for one path");
            let mut asks = vec![show(p)];
            if p.is_empty() {
                asks.push(vec![]);
            }
            for a in asks {
                let got = (m.first_volume_of_path(&a), m.last_volume_of_path(&a));
                ensure_eq!(got, want, "{:?} in\n{}", esc(&a), shown());
            }
        }
        cx.nontrivial = spans && l.volumes.len() >= 3;
        cx.class_if(spans, "path in several volumes");
        let flat: Vec<Vec<u8>> = stored.keys().map(show).collect();
        cx.class_if(!flat.windows(2).all(|w| w[0] <= w[1]), "byte order differs from component order");
        let mut others: Vec<Path> = case.other.iter().map(|o| tuple(&case.names, o)).collect();
        others.push(vec![]);
        others.push(vec![b"\xff\xff\xff".to_vec()]);
        cx.class_if(l.volumes.len() > 65_536, "more volumes than 16 bits count");
        for v in l.volumes.iter().step_by(1 + l.volumes.len() / 3000 * 100) {
            for p in [&v[0].0, &v[v.len() - 1].0] {
                // right behind, and below
                let mut q = p.clone();
                q.push(b"!".to_vec());
                others.push(q);
                if let Some(last) = p.last() {
                    let mut q = p.clone();
                    *q.last_mut().unwrap() = [&last[..], b"\x01"].concat();
                    others.push(q);
                    let mut q = p.clone();
                    let mut n = last.clone();
                    if n.len() > 1 {
                        n.pop();
                        *q.last_mut().unwrap() = n;
                        others.push(q);
                    }
                }
            }
        }
        for o in others {
            let inside = l.volumes.iter().any(|v| v[0].0 <= o && o <= v[v.len() - 1].0);
            if inside || o == vec![b".".to_vec()] {
                continue;
            }
            cx.class("path outside every volume");
            let a = show(&o);
            let got = (m.first_volume_of_path(&a), m.last_volume_of_path(&a));
            ensure_eq!(got, (None, None), "{:?}, outside every volume, in\n{}", esc(&a), shown());
        }
        Ok(())
    }
}
