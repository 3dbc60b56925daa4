use crate::driver::{Cx, Prop};
use crate::expect;
use crate::hist::{self, Kind, Meta, Rec};
use crate::mem::{Files, Mem};
use crate::names::file_name;
use crate::tarw::{self, Enc, Member};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::Backup;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Content {
    /// a signature of a file of this size, block length and strong sum length
    Sig { size: u64, block: u32, strong: u32 },
    /// a member stored whole below `snapshot/`
    Whole(u32),
    /// no header of a signature at all
    Junk { head: u32, len: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub files: Vec<Content>,
    /// recorded again in an incremental with these contents
    pub again: Vec<Content>,
    pub enc: u32,
    pub gz: bool,
    /// the last archive ends after so many bytes of the content of its last member
    pub cut: Option<u8>,
}

fn content() -> BoxedStrategy<Content> {
    prop_oneof![
        8 => (hist::size_block(), prop_oneof![3 => Just(8u32), 2 => Just(16u32), 1 => Just(4u32), 2 => 1u32..40])
            .prop_map(|((size, block), strong)| Content::Sig { size, block, strong }),
        // many blocks, sum lengths that do not divide evenly
        1 => (1u32..64, 0u64..20_000, 1u32..9).prop_map(|(block, size, strong)| Content::Sig { size: hist::fit_size(size, block), block, strong }),
        2 => prop_oneof![Just(0u32), 1u32..2000, Just(511u32), Just(512), Just(513)].prop_map(Content::Whole),
        2 => (prop_oneof![Just(0x7273_0136u32), Just(0u32), Just(0x7273_0136u32 ^ 1 << 24), Just(0x3601_7372u32), Just(0x7273_0236u32), (0u32..32).prop_map(|b| 0x7273_0136 ^ 1 << b),
                    (0u32..4, any::<u8>()).prop_map(|(i, x)| 0x7273_0136 ^ (x as u32) << (8 * i)), any::<u32>()], 0u8..40)
            .prop_map(|(head, len)| Content::Junk { head, len }),
    ]
    .boxed()
}

/// (member, model record, exact size if it is stored whole)
fn make(i: usize, c: &Content, enc: Enc) -> (Member, Rec, Option<u64>) {
    let mut m = Meta::simple(Kind::File);
    let mut whole = None;
    match c {
        Content::Sig { size, block, strong } => {
            m.size = *size;
            m.block = *block;
            m.strong = *strong;
        }
        Content::Whole(n) => whole = Some(*n as u64),
        Content::Junk { .. } => m.odd = hist::ODD_SIG,
    }
    let rec = Rec { meta: m, uname: b"u".to_vec(), gname: b"g".to_vec() };
    let mut mem = hist::member(&vec![format!("f{:03}", i).into_bytes()], &Some(rec.clone()), enc);
    match c {
        Content::Whole(n) => {
            mem.name = format!("snapshot/f{:03}", i).into_bytes();
            mem.data = vec![b'x'; *n as usize];
        }
        Content::Junk { head, len } => {
            let mut d = head.to_be_bytes().to_vec();
            d.resize((*len as usize).max(4), 0x11);
            d.truncate(*len as usize);
            mem.data = d;
        }
        _ => (),
    }
    (mem, rec, whole)
}

/// Magic numbers librsync writes; contents that start with another one are no signature.
fn readable(c: &Content) -> Option<bool> {
    match c {
        Content::Junk { head, len } => {
            if *len < 4 || !matches!(*head, 0x7273_0136 | 0x7273_0137 | 0x7273_0146 | 0x7273_0147) {
                Some(false)
            } else if *head == 0x7273_0136 && *len < 12 {
                // cut inside the header
                Some(false)
            } else {
                // may be given a meaning: nothing to compare with
                None
            }
        }
        _ => Some(true),
    }
}

impl Prop for C03 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Archives of up to 12 members: signatures of files of boundary-biased size (0, one byte around every multiple of \
         the block length, anywhere within a block) x block length (1 to 2^32-1) x strong sum length, members stored whole, \
         and contents that are no signature; a second archive records some again; in a fifth of the cases the last archive ends within its last signature. Non-trivial: at least one signature of \
         a non-empty file whose size is within one byte of a multiple of its block length."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a 64 bit machine: sizes up to 2^41 are used", "strong sums are at least one byte long"]
    }
    fn cases(&self) -> u64 {
        120_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (vec(content(), 1..13), vec(content(), 0..6), hist::enc_seed(), any::<bool>(), prop_oneof![4 => Just(None), 1 => (0u8..30).prop_map(Some)])
            .prop_map(|(files, again, enc, gz, cut)| Case { files, again, enc, gz, cut })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        // more blocks, and more bytes, than a buffer or a small counter holds
        let mut v = Vec::new();
        for n in [32_767u64, 65_535, 65_536, 65_537, 300_000] {
            let sig = |size: u64, block: u32, strong: u32| Content::Sig { size, block, strong };
            let mut files = vec![sig(n, 1, 8), Content::Whole(n as u32 * 10)];
            for block in [512u32, 2_048, 65_536, u32::MAX] {
                files.push(sig(n * block as u64, block, 8));
                files.push(sig((n - 1) * block as u64 + 1, block, 1));
                files.push(sig(n * block as u64 - 1, block, 3));
            }
            files.push(sig(1, 1, 8));
            v.push(Case { again: vec![sig(n, 1, 1), Content::Whole(n as u32)], files, enc: 0, gz: n % 2 == 1, cut: None });
        }
        v
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut f = Files::new();
        let (t0, t1) = (1_400_000_000i64, 1_400_000_100i64);
        let mut latest: Vec<(Content, Rec, Option<u64>)> = Vec::new();
        let suf = if case.gz { ".gz" } else { "" };
        let mut per_snapshot = Vec::new();
        let mut cut = None;
        for (k, list) in [&case.files, &case.again].into_iter().enumerate() {
            if k == 1 && list.is_empty() {
                break;
            }
            let mut members = Vec::new();
            for (i, c) in list.iter().enumerate() {
                let enc = if case.enc == 0 { Enc::plain() } else { Enc::from_seed(case.enc as u64 * 31 + i as u64 + 1) };
                let (m, r, w) = make(i, c, enc);
                members.push(m);
                if let Content::Sig { size, block, .. } = c {
                    let b = *block as u64;
                    let near = *size > 0 && (size % b <= 1 || size % b == b - 1);
                    cx.class_if(near, "within a byte of a block boundary");
                    cx.class_if(*size == 0, "empty file");
                    cx.class_if(*size > 0 && *size <= b, "one block");
                    cx.nontrivial |= near;
                }
                cx.class_if(w.is_some(), "stored whole");
                cx.class_if(matches!(c, Content::Junk { .. }), "no signature");
                if i < latest.len() {
                    latest[i] = (c.clone(), r, w);
                } else {
                    latest.push((c.clone(), r, w));
                }
            }
            let (mut tar, spans) = tarw::write_tar(&members, 0);
            if let (Some(n), true, Some(Content::Sig { .. })) = (case.cut, k == 1 || case.again.is_empty(), list.last()) {
                let sp = spans.last().unwrap();
                let n = (n as usize).min(sp.data_len);
                tar.truncate(sp.data + n);
                cut = Some((list.len() - 1, n));
                cx.class("cut off");
                cx.class_if(n < 12, "cut off in the header of a signature");
            }
            let data = if case.gz { tarw::gzip(&tar, 1) } else { tar };
            let (start, end) = if k == 0 { (None, t0) } else { (Some(t0), t1) };
            f.insert(file_name(start, end, "sigtar", false, suf).into_bytes(), Rc::new(data));
            f.insert(file_name(start, end, "manifest", false, "").into_bytes(), Rc::new(vec![]));
            per_snapshot.push(latest.clone());
        }
        let backup = Backup::new(Mem::new(f)).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = backup.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), per_snapshot.len(), "number of snapshots");
        for (k, (s, want)) in snaps.iter().zip(&per_snapshot).enumerate() {
            let e = s.entries().map_err(|e| e.to_string())?;
            let got: Vec<_> = e.as_signature().map(|e| (e.path_bytes().to_vec(), e.size_hint())).collect();
            ensure_eq!(got.len(), want.len(), "snapshot {}: number of entries", k);
            for (i, (c, r, w)) in want.iter().enumerate() {
                let (p, hint) = &got[i];
                match cut {
                    Some((j, n)) if i == j && k + 1 == per_snapshot.len() && (n < 12 || hint.is_none()) => {
                        ensure_eq!(*hint, None, "snapshot {} entry {}: bounds of a signature cut off after {} bytes", k, i, n);
                        continue;
                    }
                    _ => (),
                }
                let at = format!("snapshot {} entry {} {:?}", k, crate::util::esc(p), c);
                match (w, readable(c)) {
                    (Some(n), _) => ensure_eq!(*hint, Some((*n as usize, *n as usize)), "{}: bounds", at),
                    (None, Some(_)) => expect::size(r, *hint).map_err(|e| format!("{}: {}", at, e))?,
                    (None, None) => (),
                }
            }
        }
        Ok(())
    }
}
