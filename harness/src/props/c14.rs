use crate::alloc;
use crate::driver::{Cx, Prop};
use crate::dump;
use crate::names::{self, classify, file_name, judge_stamp, Class, Stamp, NameInfo, What};
use crate::util::{Bytes, Mix};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::collections::Collections;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

pub struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Base {
    pub start: Option<i64>,
    pub end: i64,
    /// 0 volume, 1 manifest, 2 signature
    pub what: u8,
    pub num: u64,
    pub zeros: u8,
    pub part: bool,
    pub suffix: u8,
    pub style: u8,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Insert(u16, u8),
    Remove(u16),
    Replace(u16, u8),
    /// a token is put in, at a dot or anywhere
    Token(u16, u8, bool),
    Swap(u16),
    /// everything from here on is left out
    Cut(u16),
    Case(u16),
    /// something before the name
    Front(u8),
    /// a character gives way to one that a careless comparison takes for the same
    Alike(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Name {
    Base(Base, Vec<Edit>),
    Raw(Bytes),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub names: Vec<Name>,
}

const SUFFIX: [&str; 17] =
    ["", ".gz", ".gpg", ".z", ".g", ".gz.gpg", ".gpg.gz", ".txt", ".", "..", ".part", ".part.gz", "gz", ".manifest2",
    // longer than any name duplicity writes, and than a file system takes
    ".copied-by-an-administrator-on-a-rainy-day-and-never-removed-since", LONG, LONGER];
const LONG: &str = ".xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
const LONGER: &str = ".yzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyzyz.gz";
const TOKENS: [&str; 26] = [
    ".to.", ".vol1", ".difftar", ".manifest", ".sigtar", ".part", ".gz", ".gpg", ".z", ".g", "-signatures", "-inc", "-full", "-new", "duplicity",
    "20150617T182545Z", ".", "..", "0", "T", "Z", "to", "vol", "\u{212a}", "\u{130}", "\u{17f}",
];

const FRONT: [&str; 8] = ["x", " ", ".", "duplicity-", "copy of ", "dir/", "\n", "20150617T182545Z."];

/// Characters outside ASCII that are equal to this one in some sense.
fn alike(b: u8, k: u8) -> Option<char> {
    let of = |v: &[char]| Some(v[k as usize % v.len()]);
    match b {
        b's' | b'S' => of(&['\u{17f}', '\u{ff53}', '\u{455}']),
        b'i' | b'I' => of(&['\u{131}', '\u{130}', '\u{ff49}']),
        b'k' | b'K' => of(&['\u{212a}']),
        b'0'..=b'9' => {
            let d = (b - b'0') as u32;
            of(&[0x660, 0xff10, 0x966, 0x1d7ce].map(|z| char::from_u32(z + d).unwrap()))
        }
        b'.' => of(&['\u{ff0e}', '\u{2024}', '_']),
        b'-' => of(&['\u{2010}', '\u{2212}', '_']),
        b't' | b'T' | b'z' | b'Z' | b'g' | b'G' => char::from_u32(0xff41 + (b.to_ascii_lowercase() - b'a') as u32),
        _ => None,
    }
}

pub fn spell(n: &Name) -> Vec<u8> {
    match n {
        Name::Raw(b) => b.0.iter().cloned().filter(|c| *c != 0).collect(),
        Name::Base(b, edits) => {
            let (what, end) = match b.what % 3 {
                0 => (format!("vol{}{}", "0".repeat(b.zeros as usize), b.num), b.end),
                1 => ("manifest".to_owned(), b.end),
                _ => ("sigtar".to_owned(), b.end),
            };
            let suf = SUFFIX[b.suffix as usize % SUFFIX.len()];
            let mut n = file_name(b.start, end, &what, b.part, suf);
            let mut m = Mix::new(b.seed);
            n = names::recase(&n, b.style, &mut m);
            let mut v = n.into_bytes();
            for e in edits {
                let l = v.len().max(1);
                match e {
                    Edit::Insert(i, c) => v.insert(*i as usize % (v.len() + 1), *c),
                    Edit::Remove(i) if !v.is_empty() => {
                        v.remove(*i as usize % l);
                    }
                    Edit::Replace(i, c) if !v.is_empty() => v[*i as usize % l] = *c,
                    Edit::Token(i, t, dot) => {
                        let dots: Vec<usize> = (0..=v.len()).filter(|k| v.get(*k).map_or(true, |c| *c == b'.')).collect();
                        let k = if *dot && !dots.is_empty() { dots[*i as usize % dots.len()] } else { *i as usize % (v.len() + 1) };
                        let t = TOKENS[*t as usize % TOKENS.len()].as_bytes();
                        v.splice(k..k, t.iter().cloned());
                    }
                    Edit::Swap(i) if v.len() > 1 => {
                        let k = *i as usize % (v.len() - 1);
                        v.swap(k, k + 1);
                    }
                    Edit::Cut(i) => v.truncate(*i as usize % (v.len() + 1)),
                    Edit::Case(i) if !v.is_empty() => {
                        let k = *i as usize % l;
                        v[k] ^= if v[k].is_ascii_alphabetic() { 0x20 } else { 0 };
                    }
                    Edit::Front(t) => {
                        let t = FRONT[*t as usize % FRONT.len()].as_bytes();
                        v.splice(0..0, t.iter().cloned());
                    }
                    Edit::Alike(i, k) => {
                        let at: Vec<usize> = (0..v.len()).filter(|x| alike(v[*x], 0).is_some()).collect();
                        if !at.is_empty() {
                            let x = at[*i as usize % at.len()];
                            let c = alike(v[x], *k).unwrap();
                            v.splice(x..=x, c.to_string().into_bytes());
                        }
                    }
                    _ => (),
                }
            }
            v.retain(|c| *c != 0);
            v
        }
    }
}

fn os(n: &[u8]) -> OsString {
    OsString::from_vec(n.to_vec())
}

fn one(name: &[u8], cx: &mut Cx) -> Result<(), String> {
    let class = classify(name);
    let shown = crate::util::esc(name);
    // the set or signature that an incremental name continues
    let mut anchor: Option<String> = None;
    let mut list = Vec::new();
    if let Class::Valid(NameInfo { start: Some(s), end, what, .. }) = &class {
        if end <= s {
            // continues nothing that could come before it
            Collections::from_filenames([os(name)]);
            return Ok(());
        }
        let a = if *what == What::Sig { file_name(None, *s, "sigtar", false, "") } else { file_name(None, *s, "manifest", false, "") };
        list.push(OsString::from(&a));
        anchor = Some(a);
    }
    list.push(os(name));
    let c = Collections::from_filenames(&list);
    match &class {
        Class::Invalid => {
            cx.class("no backup file");
            let n = (c.backup_chains().count(), c.signature_chains().count(), c.num_snapshots());
            ensure_eq!(n, (0, 0, 0), "{}: chains of a name that is no backup file", shown);
            // nor does it disturb, join or continue the sets of the times it mentions
            let low = name.to_ascii_lowercase();
            let mut base = vec![file_name(None, 1_434_565_545, "manifest", false, "")];
            let times: Vec<i64> = low
                .windows(16)
                .filter_map(|w| match judge_stamp(w) {
                    Stamp::Valid(t) => Some(t),
                    _ => None,
                })
                .take(3)
                .collect();
            for t in &times {
                cx.class("no backup file, beside sets of its times");
                base.push(file_name(None, *t, "manifest", false, ""));
                base.push(file_name(None, *t, "sigtar", false, ""));
            }
            for w in times.windows(2).filter(|w| w[0] < w[1]) {
                base.push(file_name(Some(w[0]), w[1], "vol7", false, ""));
            }
            base.sort();
            base.dedup();
            let alone = dump::collections(&Collections::from_filenames(&base), &[1]);
            let both = base.iter().map(OsString::from).chain(Some(os(name)));
            let c = Collections::from_filenames(both);
            ensure_eq!(dump::collections(&c, &[1]), alone, "{} beside {:?}", shown, base);
        }
        Class::Grey => cx.class("time stamp left open"),
        Class::Valid(i) => {
            let text = String::from_utf8(name.to_vec()).unwrap();
            let start = i.start.unwrap_or(i.end);
            if i.what == What::Sig {
                cx.class("signature");
                let chains: Vec<_> = c.signature_chains().collect();
                ensure_eq!(chains.len(), 1, "{}: signature chains", shown);
                let sigs: Vec<_> = std::iter::once(chains[0].full_signature()).chain(chains[0].inc_signatures()).collect();
                let at = anchor.is_some() as usize;
                ensure_eq!(sigs.len(), at + 1, "{}: signatures", shown);
                let s = sigs[at];
                ensure_eq!(
                    (s.file_name.as_str(), s.time.sec, s.time.nsec, s.compressed, s.encrypted),
                    (text.as_str(), i.end, 0, i.compressed, i.encrypted),
                    "{}",
                    shown
                );
                // together with a volume it tells whether the set is unfinished
                let vol = file_name(i.start, i.end, "vol1", false, "");
                let full = i.start.map(|s| OsString::from(file_name(None, s, "manifest", false, "")));
                let c = Collections::from_filenames([os(name), OsString::from(vol)].into_iter().chain(full));
                let sets: Vec<_> = c.backup_chains().flat_map(|c| std::iter::once(c.full_set()).chain(c.inc_sets())).collect();
                ensure_eq!(sets.len(), at + 1, "{}: sets", shown);
                ensure_eq!((sets[at].is_partial(), sets[at].is_complete()), (i.part, false), "{}: partial, complete", shown);
                return Ok(());
            }
            cx.class_if(matches!(i.what, What::Volume(_)), "volume");
            cx.class_if(i.what == What::Manifest, "manifest");
            let chains: Vec<_> = c.backup_chains().collect();
            ensure_eq!(chains.len(), 1, "{}: chains", shown);
            let sets: Vec<_> = std::iter::once(chains[0].full_set()).chain(chains[0].inc_sets()).collect();
            let at = anchor.is_some() as usize;
            ensure_eq!(sets.len(), at + 1, "{}: sets", shown);
            let s = sets[at];
            let got = (s.start_time().sec, s.end_time().sec, s.is_full(), s.is_incremental(), s.is_encrypted());
            ensure_eq!(got, (start, i.end, i.start.is_none(), i.start.is_some(), i.encrypted), "{}", shown);
            match i.what {
                What::Volume(n) => {
                    cx.class_if(n > 100_000, "huge volume number");
                    let n = n as usize;
                    let near = [n.wrapping_sub(1), n.wrapping_add(1), 0, 1];
                    let other: Vec<_> = near.iter().filter(|x| **x != n).map(|x| s.volume_path(*x)).collect();
                    ensure_eq!(s.volume_path(n), Some(text.as_str()), "{}: volume {}", shown, n);
                    ensure!(other.iter().all(|o| o.is_none()), "{}: other volumes: {:?}", shown, other);
                    ensure_eq!(s.num_volumes(), 1, "{}: number of volumes", shown);
                    ensure_eq!(s.is_compressed(), i.compressed, "{}: compressed", shown);
                    ensure_eq!((s.manifest_path(), s.is_complete()), ("", false), "{}: manifest", shown);
                }
                What::Manifest => {
                    ensure_eq!(s.manifest_path(), text, "manifest");
                    ensure_eq!((s.num_volumes(), s.is_partial(), s.is_complete()), (0, i.part, !i.part), "{}", shown);
                }
                What::Sig => (),
            }
        }
    }
    Ok(())
}

impl Prop for C14 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Lists of 1-12 names: valid ones with any times, volume numbers up to 2^64-1, suffixes and letter cases, then up to \
         three edits (bytes, tokens of the grammar, truncation), and arbitrary bytes. Each name is judged by an independent \
         recogniser, and the whole list is built with the allocations counted. Non-trivial: the list has a valid name, \
         and one that was edited or is arbitrary and is still decided one way or the other."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "time stamps that are neither complete nor hopeless are not judged, nor names with two readings",
            "memory bound: 48 MiB plus 64 KiB for each name",
        ]
    }
    fn cases(&self) -> u64 {
        14_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let time = || {
            prop_oneof![
                3 => 1_400_000_000i64..1_500_000_000,
                2 => -30_000_000_000i64..250_000_000_000,
                1 => Just(951_782_400i64),
            ]
        };
        let num = prop_oneof![
            4 => 1u64..20,
            1 => 0u64..2000,
            1 => any::<u64>(),
            1 => (0u32..64, -2i64..2).prop_map(|(s, d)| (1u64 << s).wrapping_add_signed(d)),
            1 => Just(u64::MAX),
        ];
        let base = (
            (time(), proptest::option::of(1i64..100_000_000)),
            0u8..3,
            num,
            prop_oneof![4 => Just(0u8), 1 => 1u8..30],
            any::<bool>(),
            prop_oneof![3 => 0u8..5, 1 => any::<u8>()],
            0u8..4,
            any::<u64>(),
        )
            .prop_map(|((end, gap), what, num, zeros, part, suffix, style, seed)| Base {
                start: gap.map(|g| end - g),
                end,
                what,
                num,
                zeros,
                part,
                suffix,
                style,
                seed,
            });
        let edit = prop_oneof![
            2 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Edit::Insert(i, c)),
            2 => any::<u16>().prop_map(Edit::Remove),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Edit::Replace(i, c)),
            2 => (any::<u16>(), proptest::sample::select(b"0123456789tzTZ.".to_vec())).prop_map(|(i, c)| Edit::Replace(i, c)),
            3 => (any::<u16>(), any::<u8>(), any::<bool>()).prop_map(|(i, t, d)| Edit::Token(i, t, d)),
            1 => any::<u16>().prop_map(Edit::Swap),
            1 => any::<u16>().prop_map(Edit::Cut),
            1 => any::<u16>().prop_map(Edit::Case),
            1 => any::<u8>().prop_map(Edit::Front),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(i, k)| Edit::Alike(i, k)),
        ];
        let name = prop_oneof![
            4 => base.clone().prop_map(|b| Name::Base(b, vec![])),
            6 => (base, vec(edit, 1..4)).prop_map(|(b, e)| Name::Base(b, e)),
            1 => vec(any::<u8>(), 0..60).prop_map(|b| Name::Raw(Bytes(b))),
            1 => vec(0u8..255, 0..10).prop_map(|v| Name::Raw(Bytes(v.iter().flat_map(|t| TOKENS[*t as usize % TOKENS.len()].bytes()).collect()))),
        ];
        vec(name, 1..13).prop_map(|names| Case { names }).boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let (mut valid, mut decided) = (false, false);
        for n in &case.names {
            let s = spell(n);
            let c = classify(&s);
            valid |= matches!(c, Class::Valid(_));
            decided |= c != Class::Grey && !matches!(n, Name::Base(_, e) if e.is_empty());
            one(&s, cx)?;
        }
        cx.nontrivial = valid && decided;
        let all: Vec<OsString> = case.names.iter().map(|n| os(&spell(n))).collect();
        let (c, peak) = alloc::measure(|| Collections::from_filenames(&all));
        ensure!(peak < (48 << 20) + all.len() * (64 << 10), "{} names need {} bytes of memory: {:?}", all.len(), peak, all);
        let (s, peak) = alloc::measure(|| format!("{} {:?}", c, c));
        ensure!(peak < (48 << 20) + all.len() * (64 << 10), "printing needs {} bytes of memory: {:?}", peak, all);
        drop(s);
        Ok(())
    }
}

