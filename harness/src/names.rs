//! Backup file names: writing them, recognising them, and a reference model of a collection that
//! is built from names alone.

use crate::dump::{ChainDump, SetDump, SigDump};
use crate::hist;
use crate::mani::{self, ManM, VolM};
use crate::mem::Files;
use crate::tarw;
use crate::util::{civil_from_days, days_from_civil, stamp, Bytes, Mix};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Just};
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    Volume(u64),
    Manifest,
    Sig,
}

/// A backup file name in the usual letter case; `what` is `manifest`, `sigtar` or `vol<n>`.
pub fn file_name(start: Option<i64>, end: i64, what: &str, part: bool, suffix: &str) -> String {
    let sig = what == "sigtar";
    let p = if part { ".part" } else { "" };
    let what = &if what.starts_with("vol") { format!("{}.difftar", what) } else { what.to_owned() };
    match start {
        None => format!("duplicity-full{}.{}.{}{}{}", if sig { "-signatures" } else { "" }, stamp(end), what, p, suffix),
        Some(s) => format!(
            "duplicity-{}.{}.to.{}.{}{}{}",
            if sig { "new-signatures" } else { "inc" },
            stamp(s),
            stamp(end),
            what,
            p,
            suffix
        ),
    }
}

/// Letter case variants; style 0 leaves the name alone.
pub fn recase(n: &str, style: u8, mix: &mut Mix) -> String {
    match style {
        1 => n.to_ascii_uppercase(),
        2 => n.to_ascii_lowercase(),
        3 => n.chars().map(|c| if mix.one_in(2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => n.to_owned(),
    }
}

// ---------------------------------------------------------------------------------------------
// an independent recogniser

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NameInfo {
    pub start: Option<i64>,
    pub end: i64,
    pub what: What,
    pub part: bool,
    pub compressed: bool,
    pub encrypted: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Class {
    Valid(NameInfo),
    Invalid,
    /// follows the outer grammar, with a time stamp that the grammar leaves open
    Grey,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stamp {
    Valid(i64),
    Invalid,
    Grey,
}

fn days_in_month(y: i64, m: i64) -> i64 {
    let (ny, nm) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
    days_from_civil(ny, nm, 1) - days_from_civil(y, m, 1)
}

/// Judges a lower case time text.
pub fn judge_stamp(t: &[u8]) -> Stamp {
    let d1 = t.iter().take_while(|b| b.is_ascii_digit()).count();
    if d1 < 6 || d1 > 8 || t.get(d1) != Some(&b't') {
        return Stamp::Invalid;
    }
    let d2 = t[d1 + 1..].iter().take_while(|b| b.is_ascii_digit()).count();
    if d2 < 3 {
        return Stamp::Invalid;
    }
    if d1 < 8 || d2 < 6 {
        return Stamp::Grey;
    }
    let num = |a: usize, b: usize| t[a..b].iter().fold(0i64, |x, c| x * 10 + (*c - b'0') as i64);
    let (y, mo, d, h, mi, s) = (num(0, 4), num(4, 6), num(6, 8), num(9, 11), num(11, 13), num(13, 15));
    if !(1..=12).contains(&mo) || !(1..=31).contains(&d) || h > 23 || mi > 59 || s > 60 {
        return Stamp::Invalid;
    }
    if d > days_in_month(y, mo) || s == 60 || t.len() != 16 || t[15] != b'z' {
        return Stamp::Grey;
    }
    Stamp::Valid(days_from_civil(y, mo, d) * 86_400 + h * 3600 + mi * 60 + s)
}

/// After the keyword: optional `.part`, then the end or a dot.
fn tail(rest: &[u8]) -> Option<bool> {
    if let Some(r) = rest.strip_prefix(b".part") {
        if r.is_empty() || r[0] == b'.' {
            return Some(true);
        }
    }
    if rest.is_empty() || rest[0] == b'.' {
        return Some(false);
    }
    None
}

/// Matches `.<keyword...>` at the start of `rest`.
fn body(rest: &[u8], sig: bool) -> Option<(Option<&[u8]>, bool)> {
    if sig {
        return rest.strip_prefix(b".sigtar").and_then(tail).map(|p| (None, p));
    }
    if let Some(r) = rest.strip_prefix(b".vol") {
        let n = r.iter().take_while(|b| b.is_ascii_digit()).count();
        if n > 0 {
            if let Some(q) = r[n..].strip_prefix(b".difftar") {
                if let Some(p) = tail(q) {
                    return Some((Some(&r[..n]), p));
                }
            }
        }
        return None;
    }
    rest.strip_prefix(b".manifest").and_then(tail).map(|p| (None, p))
}

pub fn classify(name: &[u8]) -> Class {
    let low = name.to_ascii_lowercase();
    let (rest, inc, sig) = if let Some(r) = low.strip_prefix(b"duplicity-full.") {
        (r, false, false)
    } else if let Some(r) = low.strip_prefix(b"duplicity-inc.") {
        (r, true, false)
    } else if let Some(r) = low.strip_prefix(b"duplicity-full-signatures.") {
        (r, false, true)
    } else if let Some(r) = low.strip_prefix(b"duplicity-new-signatures.") {
        (r, true, true)
    } else {
        return Class::Invalid;
    };
    // the exact form: complete stamps where they belong
    let exact = (|| {
        let stamp_at = |t: &[u8]| -> Option<i64> {
            match judge_stamp(t.get(..16)?) {
                Stamp::Valid(v) => Some(v),
                _ => None,
            }
        };
        let (start, end, after) = if inc {
            let s = stamp_at(rest)?;
            let r = rest[16..].strip_prefix(b".to.")?;
            let e = stamp_at(r)?;
            (Some(s), e, &r[16..])
        } else {
            (None, stamp_at(rest)?, &rest[16..])
        };
        let (num, part) = body(after, sig)?;
        let what = match num {
            Some(d) => {
                let t = std::str::from_utf8(d).unwrap();
                match t.parse::<u64>() {
                    Ok(n) => What::Volume(n),
                    // larger than any machine number: nothing the library could report
                    Err(_) => return Some(Class::Grey),
                }
            }
            None => {
                if sig {
                    What::Sig
                } else {
                    What::Manifest
                }
            }
        };
        Some(Class::Valid(NameInfo {
            start,
            end,
            what,
            part,
            compressed: low.ends_with(b".gz") || low.ends_with(b".z"),
            encrypted: low.ends_with(b".gpg") || low.ends_with(b".g"),
        }))
    })();
    let utf8 = std::str::from_utf8(name).is_ok();
    if let Some(c) = exact {
        // a second place where the keyword could be makes a second reading
        let readings = (0..=rest.len()).filter(|i| body(&rest[*i..], sig).is_some()).count();
        return if utf8 && readings == 1 { c } else { Class::Grey };
    }
    // otherwise: could any reading put a loose time stamp there?
    let mut grey = false;
    for i in 0..=rest.len() {
        if body(&rest[i..], sig).is_none() {
            continue;
        }
        let head = &rest[..i];
        if !inc {
            grey |= judge_stamp(head) != Stamp::Invalid;
        } else {
            for j in 0..head.len() {
                if head[j..].starts_with(b".to.") {
                    grey |= judge_stamp(&head[..j]) != Stamp::Invalid
                        && judge_stamp(&head[j + 4..]) != Stamp::Invalid;
                }
            }
        }
    }
    if grey {
        Class::Grey
    } else {
        Class::Invalid
    }
}

/// Names that are not backup files, near misses included.
pub fn foreign() -> BoxedStrategy<Bytes> {
    let fixed: Vec<&'static [u8]> = vec![
        b"README.txt",
        b"lost+found",
        b".",
        b"duplicity-full.20150617T182545Z",
        b"duplicity-full.20150617T182545Z.vol.difftar.gz",
        b"duplicity-full.20150617T182545Z.vol1.difftargz",
        b"duplicity-full.20151317T182545Z.vol1.difftar.gz",
        b"duplicity-inc.20150617T182545Z.vol1.difftar.gz",
        b"duplicity-inc.20150617T182545Z.to.manifest",
        b"duplicity-full-signatures.20150617T182545Z.manifest",
        b"duplicity-new-signatures.20150617T182545Z.sigtar.gz",
        b"duplicity-full-signature.20150617T182545Z.sigtar.gz",
        b"xduplicity-full.20150617T182545Z.manifest",
        b" duplicity-full.20150617T182545Z.manifest",
        b"old/duplicity-full.20150617T182545Z.manifest",
        b"./duplicity-full.20150617T182545Z.vol1.difftar.gz",
        b"/duplicity-full-signatures.20150617T182545Z.sigtar",
        b".duplicity-full.20150617T182545Z.manifest",
        b"duplicity-full.20150617T182545Z.manifest~",
        b"duplicity-full.20150617T182545Z.manifest/",
        b"duplicity-full.20150617T182545Z.manifest\n",
        b"#duplicity-full.20150617T182545Z.manifest#",
        b"duplicity-full.20150617T182545Z.manifests",
        b"duplicity-full.20150617.manifest",
        b"duplicity-full..manifest",
        b"duplicity_full.20150617T182545Z.manifest",
        b"\xff\xfe\xfd",
        b"",
    ];
    prop_oneof![
        6 => proptest::sample::select(fixed).prop_map(|n| Bytes(n.to_vec())),
        2 => vec(any::<u8>(), 0..12).prop_map(Bytes),
        1 => "[a-z]{1,8}\\.(gz|gpg|tar|txt)".prop_map(|s| Bytes(s.into_bytes())),
    ]
    .boxed()
}

/// Keeps what surely is no backup file.
pub fn surely_foreign(v: &[Bytes]) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> =
        v.iter().map(|b| b.0.iter().cloned().filter(|c| *c != 0 && *c != b'/').collect()).collect();
    r.retain(|n| classify(n) == Class::Invalid);
    r.sort();
    r.dedup();
    r
}

// ---------------------------------------------------------------------------------------------
// collections from names

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SetN {
    pub gap: u32,
    /// volume numbers
    pub vols: Vec<u32>,
    /// 0 none, 1 complete, 2 partial
    pub manifest: u8,
    pub sig: u8,
    /// suffix choice
    pub suffix: u8,
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct IncN {
    pub set: SetN,
    /// an interrupted attempt that continues the same point and ends earlier
    pub loser: Option<SetN>,
    /// the files of this set are gone: what follows is orphaned
    pub missing: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ChainN {
    pub full: SetN,
    pub full_missing: bool,
    pub incs: Vec<IncN>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CollN {
    pub t0: i64,
    pub chains: Vec<ChainN>,
    pub foreign: Vec<Bytes>,
    pub order: u64,
    /// all times have the parity of t0
    #[serde(default)]
    pub wide: bool,
}

pub const SUFFIXES: [(&str, &str, bool, bool); 6] = [
    // (suffix of volumes and signatures, suffix of the manifest, compressed, encrypted)
    (".gz", "", true, false),
    ("", "", false, false),
    (".gpg", ".gpg", false, true),
    (".z", "", true, false),
    (".g", ".g", false, true),
    (".gz", "", true, false),
];

/// What the model says about one set and its files.
#[derive(Clone, Debug)]
pub struct SetModel {
    pub dump: SetDump,
    pub names: Vec<String>,
    pub sig: Option<SigDump>,
    pub has_volumes: bool,
}

pub struct CollModel {
    pub names: Vec<Vec<u8>>,
    pub chains: Vec<Vec<SetModel>>,
    /// one entry per chain of signatures that can be followed from a full one
    pub sig_chains: Vec<Vec<SigDump>>,
    /// false where a signature chain ends in an interrupted attempt
    pub sig_sure: bool,
    pub irregular: bool,
}

pub fn set_model(start: Option<i64>, end: i64, s: &SetN, ask: &[usize]) -> SetModel {
    let (suf, msuf, compressed, encrypted) = SUFFIXES[s.suffix as usize % SUFFIXES.len()];
    let mut mix = Mix::new(end as u64);
    let mut vols: Vec<u32> = s.vols.clone();
    vols.sort();
    vols.dedup();
    let mut names = Vec::new();
    let mut manifest = s.manifest % 3;
    if vols.is_empty() && manifest == 0 {
        // a set is known by its volumes or its manifest
        manifest = 1;
    }
    let mut mname = String::new();
    if manifest > 0 {
        // a partial manifest is a local file, never encrypted
        let part = manifest == 2;
        mname = recase(&file_name(start, end, "manifest", part, if part { "" } else { msuf }), s.style, &mut mix);
        names.push(mname.clone());
    }
    let mut volumes: Vec<(usize, Option<String>)> = ask.iter().map(|n| (*n, None)).collect();
    for v in &vols {
        let n = recase(&file_name(start, end, &format!("vol{}", v), false, suf), s.style, &mut mix);
        // (what is asked for is sorted)
        if let Ok(i) = volumes.binary_search_by_key(&(*v as usize), |x| x.0) {
            volumes[i].1 = Some(n.clone());
        }
        names.push(n);
    }
    let mut sig = None;
    // an unfinished signature does not go with a finished manifest
    let sk = if s.sig % 3 == 2 && manifest == 1 { 1 } else { s.sig % 3 };
    if sk > 0 {
        let part = sk == 2;
        let n = recase(&file_name(start, end, "sigtar", part, if part { "" } else { suf }), s.style, &mut mix);
        names.push(n.clone());
        sig = Some(SigDump {
            name: n,
            time: end,
            compressed: compressed && !part,
            encrypted: encrypted && !part,
        });
    }
    SetModel {
        dump: SetDump {
            start: start.unwrap_or(end),
            end,
            full: start.is_none(),
            inc: start.is_some(),
            complete: manifest == 1,
            partial: manifest == 2 || sk == 2,
            compressed,
            encrypted: encrypted && (!vols.is_empty() || manifest == 1 || sk == 1),
            manifest: mname,
            num_volumes: vols.len(),
            volumes,
        },
        has_volumes: !vols.is_empty(),
        names,
        sig,
    }
}

pub fn model(c: &CollN, ask: &[usize]) -> CollModel {
    let mut names: Vec<Vec<u8>> = Vec::new();
    let mut chains = Vec::new();
    let mut sig_chains = Vec::new();
    let mut irregular = false;
    let mut sig_sure = true;
    let mut time = c.t0;
    let step = if c.wide { 2 } else { 1 };
    for ch in &c.chains {
        time += ch.full.gap.max(1) as i64 * step;
        let full = set_model(None, time, &ch.full, ask);
        let mut alive = !ch.full_missing;
        let mut sig_alive = alive && full.sig.is_some();
        let mut sets = Vec::new();
        let mut sigs = Vec::new();
        irregular |= ch.full_missing;
        if alive {
            names.extend(full.names.iter().map(|n| n.clone().into_bytes()));
            sigs.extend(full.sig.clone());
            sets.push(full);
        }
        let mut prev = time;
        for inc in &ch.incs {
            // the interrupted attempt comes first
            if let Some(l) = &inc.loser {
                irregular = true;
                time += l.gap.max(1) as i64 * step;
                let m = set_model(Some(prev), time, l, ask);
                names.extend(m.names.iter().map(|n| n.clone().into_bytes()));
                let win_sig = !inc.missing && inc.set.sig % 3 > 0;
                if inc.missing && alive {
                    // the attempt is the only one left, and nothing follows it
                    if sig_alive {
                        sigs.extend(m.sig.clone());
                        sig_alive = false;
                    }
                    sets.push(m);
                    alive = false;
                } else if sig_alive && !win_sig {
                    // its signature is the last that can be followed
                    sig_sure &= m.sig.is_none();
                    sigs.extend(m.sig.clone());
                    sig_alive = false;
                }
            }
            time += inc.set.gap.max(1) as i64 * step;
            let m = set_model(Some(prev), time, &inc.set, ask);
            prev = time;
            if inc.missing {
                irregular = true;
                alive = false;
                sig_alive = false;
                continue;
            }
            names.extend(m.names.iter().map(|n| n.clone().into_bytes()));
            match &m.sig {
                Some(s) if sig_alive => sigs.push(s.clone()),
                _ => sig_alive = false,
            }
            if alive {
                sets.push(m);
            }
        }
        if !sets.is_empty() {
            chains.push(sets);
        }
        if !sigs.is_empty() {
            sig_chains.push(sigs);
        }
    }
    names.extend(surely_foreign(&c.foreign));
    let mut mix = Mix::new(c.order);
    if c.order != 0 {
        mix.shuffle(&mut names);
    }
    CollModel { names, chains, sig_chains, sig_sure, irregular }
}

/// The models of two collections in the same place, whose chains overlap in time.
pub fn overlay(a: &CollN, b: &CollN, ask: &[usize]) -> CollModel {
    let at = |c: &CollN, t0: i64| CollN { wide: true, t0, ..c.clone() };
    let (ma, mb) = (model(&at(a, a.t0 & !1), ask), model(&at(b, a.t0 | 1), ask));
    let mut names = ma.names;
    names.extend(mb.names);
    names.sort();
    names.dedup();
    if a.order != 0 {
        Mix::new(a.order).shuffle(&mut names);
    }
    let mut chains = ma.chains;
    chains.extend(mb.chains);
    // the chain whose last backup is the earlier one comes first
    chains.sort_by_key(|c| c[c.len() - 1].dump.end);
    let mut sig_chains = ma.sig_chains;
    sig_chains.extend(mb.sig_chains);
    sig_chains.sort_by_key(|c| c[0].time);
    CollModel { names, chains, sig_chains, sig_sure: ma.sig_sure && mb.sig_sure, irregular: ma.irregular || mb.irregular }
}

pub fn chain_dumps(m: &CollModel) -> Vec<ChainDump> {
    m.chains
        .iter()
        .map(|c| ChainDump {
            start: c[0].dump.end,
            end: c[c.len() - 1].dump.end,
            sets: c.iter().map(|s| s.dump.clone()).collect(),
        })
        .collect()
}

pub fn volumes() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        3 => Just(vec![1u32]),
        4 => (1u32..14).prop_map(|n| (1..=n).collect()),
        1 => (95u32..112).prop_map(|n| (1..=n).collect()),
        1 => prop_oneof![5 => Just(1u32), 1 => 254u32..262].prop_map(|n| (1..=n).collect()),
        2 => vec(1u32..13, 0..6),
        1 => vec(prop_oneof![Just(0u32), Just(99), Just(100), Just(101), Just(1000), 1u32..5000], 0..5),
        1 => Just(vec![]),
    ]
    .boxed()
}

fn set_n() -> BoxedStrategy<SetN> {
    (
        prop_oneof![1u32..50, 1u32..5_000_000],
        volumes(),
        prop_oneof![6 => Just(1u8), 1 => Just(2u8), 1 => Just(0u8)],
        prop_oneof![6 => Just(1u8), 1 => Just(2u8), 1 => Just(0u8)],
        any::<u8>(),
        prop_oneof![4 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(gap, vols, manifest, sig, suffix, style)| SetN { gap, vols, manifest, sig, suffix, style })
        .boxed()
}

pub fn coll_n(max_chains: usize, max_incs: usize) -> BoxedStrategy<CollN> {
    let inc = (set_n(), prop_oneof![4 => Just(None), 1 => set_n().prop_map(Some)], prop_oneof![8 => Just(false), 1 => Just(true)])
        .prop_map(|(set, loser, missing)| IncN { set, loser, missing });
    let chain = (set_n(), prop_oneof![10 => Just(false), 1 => Just(true)], vec(inc, 0..max_incs + 1))
        .prop_map(|(full, full_missing, incs)| ChainN { full, full_missing, incs });
    (hist::t0(), vec(chain, 0..max_chains + 1), vec(foreign(), 0..4), prop_oneof![1 => Just(0u64), 3 => any::<u64>()])
        .prop_map(|(t0, chains, foreign, order)| CollN { t0, chains, foreign, order, wide: false })
        .boxed()
}

/// A single chain of `incs` incrementals, or with none of them `chains` chains; the full sets have
/// this many volumes.
pub fn big(chains: usize, incs: usize, volumes: u32) -> CollN {
    let set = |n: u32, gap: u32| SetN { gap, vols: (1..=n).collect(), manifest: 1, sig: 1, suffix: 0, style: 0 };
    let inc = |i: usize| IncN { set: set((i % 3) as u32, 1 + (i % 7) as u32), loser: None, missing: false };
    let chain = |i: usize| ChainN { full: set(volumes, 1 + (i % 11) as u32), full_missing: false, incs: (0..incs).map(inc).collect() };
    CollN { t0: 1_400_000_000, chains: (0..chains).map(chain).collect(), foreign: vec![], order: 77, wide: false }
}

/// One chain of very many sets, almost all of one file.
pub fn thin(incs: usize) -> CollN {
    let mut c = big(1, incs, 1);
    for (i, inc) in c.chains[0].incs.iter_mut().enumerate() {
        inc.set.sig = 0;
        inc.set.vols = (1..=(i % 1000 == 1) as u32).collect();
    }
    c
}

/// Collections of unusual size.
pub fn bigs() -> Vec<CollN> {
    vec![thin(66_000), big(1, 0, 66_000), big(300, 0, 1), big(1, 300, 2), big(1, 520, 1)]
}

// ---------------------------------------------------------------------------------------------
// whole backups with contents

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BackupR {
    pub names: Vec<Bytes>,
    pub t0: i64,
    pub chains: Vec<hist::ChainRecipe>,
    /// choice of suffixes, letter case, number of volumes
    pub look: u64,
}

#[derive(Clone, Debug)]
pub struct BuiltSet {
    pub start: Option<i64>,
    pub end: i64,
    pub sig: String,
    pub manifest: String,
    pub volumes: Vec<(usize, String)>,
    pub man: ManM,
    pub man_text: Vec<u8>,
    pub model: hist::ModelSet,
    pub tar: Vec<u8>,
    pub gz: bool,
}

impl BuiltSet {
    pub fn put(&self, f: &mut Files) {
        self.put_sig(f);
        self.put_manifest(f);
        self.put_volumes(f);
    }
    pub fn put_sig(&self, f: &mut Files) {
        f.insert(self.sig.clone().into_bytes(), Rc::new(self.sig_bytes()));
    }
    pub fn sig_bytes(&self) -> Vec<u8> {
        if self.gz {
            tarw::gzip(&self.tar, self.end.rem_euclid(3) as u32 * 3)
        } else {
            self.tar.clone()
        }
    }
    pub fn put_manifest(&self, f: &mut Files) {
        f.insert(self.manifest.clone().into_bytes(), Rc::new(self.man_text.clone()));
    }
    pub fn put_volumes(&self, f: &mut Files) {
        for (_, v) in &self.volumes {
            f.insert(v.clone().into_bytes(), Rc::new(b"volume".to_vec()));
        }
    }
}

pub type Built = Vec<Vec<BuiltSet>>;

/// A manifest for a set: the recorded paths cut into `n` volumes. The host name carries the time,
/// so every set of a backup has a manifest of its own.
pub fn manifest_for(set: &hist::ModelSet, n: usize) -> ManM {
    let show = |p: &hist::Path| {
        if p.is_empty() {
            Bytes(b".".to_vec())
        } else {
            Bytes(hist::join(p))
        }
    };
    let paths: Vec<Bytes> = set.records.iter().map(|r| show(&r.0)).collect();
    let mut vols = Vec::new();
    if !paths.is_empty() {
        let n = n.clamp(1, paths.len());
        let per = (paths.len() + n - 1) / n;
        for c in paths.chunks(per) {
            vols.push(VolM {
                start: c[0].clone(),
                start_block: None,
                end: c[c.len() - 1].clone(),
                end_block: None,
                hash_type: "SHA1".into(),
                hash: Bytes(set.time.to_be_bytes().to_vec()),
            });
        }
    }
    ManM { host: format!("host{}", set.time), dir: Bytes(b"/src dir".to_vec()), vols }
}

pub fn build_set(start: Option<i64>, model: hist::ModelSet, mix: &mut Mix, plain_look: bool) -> BuiltSet {
    let end = model.time;
    let (style, gz, nvol, spacing, short) = if plain_look {
        (0, true, 1, 0, false)
    } else {
        let style = if mix.one_in(4) { mix.below(4) as u8 } else { 0 };
        let nv = match mix.below(6) {
            0 => 0,
            1 => 11,
            k => k as usize - 1,
        };
        (style, !mix.one_in(3), nv, if mix.one_in(2) { 0 } else { mix.next() }, mix.one_in(6))
    };
    // the storage may decrypt what it delivers
    let coded = !plain_look && !gz && mix.one_in(4);
    let (suf, msuf) = match (gz, coded, short) {
        (true, _, false) => (".gz", ""),
        (true, _, true) => (".z", ""),
        (_, true, false) => (".gpg", ".gpg"),
        (_, true, true) => (".g", ".g"),
        _ => ("", ""),
    };
    let man = manifest_for(&model, nvol.max(1));
    let man_text = mani::text(&man, spacing);
    let (tar, _) = hist::sigtar(&model);
    let mut m2 = Mix::new(end as u64);
    let mut nm = |what: &str, suf: &str| recase(&file_name(start, end, what, false, suf), style, &mut m2);
    BuiltSet {
        start,
        end,
        sig: nm("sigtar", suf),
        manifest: nm("manifest", msuf),
        volumes: (1..=nvol).map(|v| (v, nm(&format!("vol{}", v), suf))).collect(),
        man,
        man_text,
        model,
        tar,
        gz,
    }
}

pub fn build(b: &BackupR) -> Built {
    let mut t = b.t0;
    let mut mix = Mix::new(b.look);
    let mut out = Vec::new();
    for c in &b.chains {
        let sets = hist::expand(&b.names, c, t);
        t = sets.last().map_or(t, |s| s.time);
        let mut prev = None;
        let mut v = Vec::new();
        for s in sets {
            let end = s.time;
            v.push(build_set(prev, s, &mut mix, b.look == 0));
            prev = Some(end);
        }
        out.push(v);
    }
    out
}

pub fn files(b: &Built) -> Files {
    let mut f = Files::new();
    for s in b.iter().flatten() {
        s.put(&mut f);
    }
    f
}

/// One directory of `n` files with as many owners, and incrementals that change some of it.
pub fn many(n: u32, incs: usize) -> BackupR {
    let mut m = hist::Meta::simple(hist::Kind::File);
    m.uid = 1;
    m.gid = 1 << 20;
    let edit = |m: &hist::Meta, n: u32| hist::SetRecipe {
        gap: 3,
        edits: vec![hist::Edit::Many(n, m.clone()), hist::Edit::Del(n as u16 / 2)],
        owners: 0,
        enc: 0,
        parents: false,
    };
    let full = edit(&m, n);
    m.mtime = 1_200_000_000;
    m.uid = 2_000;
    let incs = (0..incs).map(|_| edit(&m, n / 2)).collect();
    BackupR { names: vec![Bytes(b"a".to_vec())], t0: 1_400_000_000, chains: vec![hist::ChainRecipe { full, incs, repeat: 0 }], look: 0 }
}

pub fn backup_r(meta: BoxedStrategy<hist::Meta>, chains: std::ops::Range<usize>, incs: usize) -> BoxedStrategy<BackupR> {
    (
        hist::names(),
        hist::t0(),
        vec(hist::chain_recipe(meta, incs), chains),
        prop_oneof![1 => Just(0u64), 3 => any::<u64>()],
    )
        .prop_map(|(names, t0, chains, look)| BackupR { names, t0, chains, look })
        .boxed()
}

/// Paths and links longer than any field or buffer, recorded again.
pub fn long(enc: u32, incs: usize) -> BackupR {
    let lens = [99usize, 100, 101, 155, 255, 256, 257, 1000, 4095, 4096, 4097, 65_535, 65_536, 70_000];
    let set = |k: usize| hist::SetRecipe {
        gap: 3,
        edits: lens
            .iter()
            .enumerate()
            .flat_map(|(i, n)| {
                let mut f = hist::Meta::simple(hist::Kind::File);
                let mut l = hist::Meta::simple(hist::Kind::Sym);
                f.mtime += k as i64;
                l.mtime += k as i64;
                l.link = Bytes((0..*n).map(|j| b"abc/\xffx"[(j + k) % 6]).collect());
                // one component, and components of 200 bytes
                let deep = vec![2 * lens.len() as u32; n / 200].into_iter().chain([2 * i as u32]).map(|i| i as u8).collect();
                [(vec![2 * i as u8], f), (vec![2 * i as u8 + 1], l.clone()), (deep, l)]
            })
            .filter(|(_, m)| k == 0 || m.kind == hist::Kind::Sym)
            .map(|(p, m)| hist::Edit::Put(p, m))
            .collect(),
        owners: 0,
        enc: if k == 0 { enc } else { enc + 1 },
        parents: false,
    };
    let mut names = Vec::new();
    for n in lens {
        names.push(Bytes([vec![b'f'; n - 4], format!("{:04}", n % 9999).into_bytes()].concat()));
        names.push(Bytes([vec![b'l'; n - 4], format!("{:04}", n % 9999).into_bytes()].concat()));
    }
    names.push(Bytes(vec![b'd'; 200]));
    BackupR {
        names,
        t0: 1_400_000_000,
        chains: vec![hist::ChainRecipe { full: set(0), incs: (1..=incs).map(set).collect(), repeat: 0 }],
        look: 0,
    }
}

/// Mostly a few chains, at times many short ones.
pub fn few_or_many(meta: BoxedStrategy<hist::Meta>, chains: std::ops::Range<usize>, incs: usize) -> BoxedStrategy<BackupR> {
    prop_oneof![7 => backup_r(meta.clone(), chains, incs), 1 => backup_r(meta, 4..14, 1)].boxed()
}

/// Used by generators of times.
pub fn date(secs: i64) -> (i64, i64, i64) {
    civil_from_days(secs.div_euclid(86_400))
}
