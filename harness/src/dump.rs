//! Plain-data copies of what the library reports, for comparison.

use ruplicity::collections::{BackupSet, Collections};
use ruplicity::manifest::{Manifest, ParseError};
use ruplicity::signatures::{Entry, EntryType};
use ruplicity::{Backend, Backup, Snapshot};
use std::os::unix::ffi::OsStrExt;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct EntryDump {
    pub path: Vec<u8>,
    pub uid: Option<u64>,
    pub gid: Option<u64>,
    pub mode: Option<u32>,
    pub uname: Option<String>,
    pub gname: Option<String>,
    pub mtime: (i64, i32),
    pub size: Option<(usize, usize)>,
    pub tp: EntryType,
    pub link: Option<Vec<u8>>,
}

pub fn entry(e: &Entry) -> EntryDump {
    assert_eq!(e.path().map(|p| p.as_os_str().as_bytes()), Some(e.path_bytes()), "path() and path_bytes() of an entry");
    EntryDump {
        path: e.path_bytes().to_vec(),
        uid: e.userid(),
        gid: e.groupid(),
        mode: e.mode(),
        uname: e.username().map(|s| s.to_owned()),
        gname: e.groupname().map(|s| s.to_owned()),
        mtime: (e.mtime().sec, e.mtime().nsec),
        size: e.size_hint(),
        tp: e.entry_type(),
        link: e.linked_path().map(|p| p.as_os_str().as_bytes().to_vec()),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct VolDump {
    pub start: Vec<u8>,
    pub start_block: Option<usize>,
    pub end: Vec<u8>,
    pub end_block: Option<usize>,
    pub hash_type: String,
    pub hash: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ManDump {
    pub host: String,
    pub dir: Vec<u8>,
    pub vols: Vec<VolDump>,
}

pub fn manifest(m: &Manifest) -> ManDump {
    ManDump {
        host: m.hostname().to_owned(),
        dir: m.local_dir().map(|p| p.as_os_str().as_bytes().to_vec()).unwrap_or_default(),
        vols: (1..=m.last_volume_index())
            .map(|i| {
                let v = m.volume(i).expect("volume within last_volume_index");
                assert_eq!(v.start_path().map(|p| p.as_os_str().as_bytes()), Some(v.start_path_bytes()), "first path of volume {}", i);
                assert_eq!(v.end_path().map(|p| p.as_os_str().as_bytes()), Some(v.end_path_bytes()), "last path of volume {}", i);
                VolDump {
                    start: v.start_path_bytes().to_vec(),
                    start_block: v.start_block(),
                    end: v.end_path_bytes().to_vec(),
                    end_block: v.end_block(),
                    hash_type: v.hash_type().to_owned(),
                    hash: v.hash().to_vec(),
                }
            })
            .collect(),
    }
}

#[allow(unreachable_patterns)]
/// The variant of a parse error, with its argument where that is part of its meaning.
pub fn perr(e: &ParseError) -> String {
    match e {
        ParseError::Io(e) => format!("Io({:?})", e.kind()),
        ParseError::MissingKeyword(k) => format!("MissingKeyword({})", k),
        ParseError::MissingHash => "MissingHash".into(),
        ParseError::MissingHashType => "MissingHashType".into(),
        ParseError::MissingPath => "MissingPath".into(),
        ParseError::OutOfOrderVolume(n) => format!("OutOfOrderVolume({})", n),
        ParseError::ParseInt(_) => "ParseInt".into(),
        ParseError::Utf8(_) => "Utf8".into(),
        other => format!("{:?}", other),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SetDump {
    pub start: i64,
    pub end: i64,
    pub full: bool,
    pub inc: bool,
    pub complete: bool,
    pub partial: bool,
    pub compressed: bool,
    pub encrypted: bool,
    pub manifest: String,
    pub num_volumes: usize,
    /// names of the volumes asked for
    pub volumes: Vec<(usize, Option<String>)>,
}

pub fn set(s: &BackupSet, ask: &[usize]) -> SetDump {
    SetDump {
        start: s.start_time().sec,
        end: s.end_time().sec,
        full: s.is_full(),
        inc: s.is_incremental(),
        complete: s.is_complete(),
        partial: s.is_partial(),
        compressed: s.is_compressed(),
        encrypted: s.is_encrypted(),
        manifest: s.manifest_path().to_owned(),
        num_volumes: s.num_volumes(),
        volumes: ask.iter().map(|n| (*n, s.volume_path(*n).map(|p| p.to_owned()))).collect(),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ChainDump {
    pub start: i64,
    pub end: i64,
    pub sets: Vec<SetDump>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SigDump {
    pub name: String,
    pub time: i64,
    pub compressed: bool,
    pub encrypted: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SigChainDump {
    pub start: i64,
    pub end: i64,
    pub sigs: Vec<SigDump>,
    pub shown: String,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CollDump {
    pub chains: Vec<ChainDump>,
    pub sig_chains: Vec<SigChainDump>,
    pub num_snapshots: usize,
    pub shown: String,
}

pub const ASK: &[usize] = &[0, 1, 2, 3, 4, 5, 9, 10, 11, 99, 100, 101, 1000];

pub fn collections(c: &Collections, ask: &[usize]) -> CollDump {
    CollDump {
        chains: c
            .backup_chains()
            .map(|b| ChainDump {
                start: b.start_time().sec,
                end: b.end_time().sec,
                sets: std::iter::once(b.full_set()).chain(b.inc_sets()).map(|s| set(s, ask)).collect(),
            })
            .collect(),
        sig_chains: c
            .signature_chains()
            .map(|s| SigChainDump {
                start: s.start_time().sec,
                end: s.end_time().sec,
                sigs: std::iter::once(s.full_signature())
                    .chain(s.inc_signatures())
                    .map(|f| SigDump {
                        name: f.file_name.clone(),
                        time: f.time.sec,
                        compressed: f.compressed,
                        encrypted: f.encrypted,
                    })
                    .collect(),
                shown: format!("{}", s),
            })
            .collect(),
        num_snapshots: c.num_snapshots(),
        shown: format!("{}", c),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SnapDump {
    pub set: SetDump,
    pub time: i64,
    pub entries: Result<Vec<EntryDump>, String>,
    pub shown: Result<String, String>,
    pub manifest: Result<ManDump, String>,
}

pub fn entries(s: &Snapshot) -> Result<Vec<EntryDump>, String> {
    match s.entries() {
        Ok(e) => Ok(e.as_signature().map(|e| entry(&e)).collect()),
        Err(e) => Err(format!("{:?}", e.kind())),
    }
}

pub fn snapshot(s: &Snapshot, ask: &[usize]) -> SnapDump {
    SnapDump {
        set: set(s.as_backup_set(), ask),
        time: s.time().sec,
        entries: entries(s),
        shown: match s.entries() {
            Ok(e) => Ok(format!("{}", e)),
            Err(e) => Err(format!("{:?}", e.kind())),
        },
        manifest: match s.manifest() {
            Ok(m) => Ok(manifest(&m)),
            Err(e) => Err(perr(&e)),
        },
    }
}

pub fn backup<B: Backend>(b: &Backup<B>, ask: &[usize]) -> Vec<SnapDump> {
    b.snapshots().expect("snapshots").into_iter().map(|s| snapshot(&s, ask)).collect()
}

/// First difference between two lists, for messages.
pub fn first_diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> Option<String> {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Some(format!(
                "lengths {} and {}, first difference at {}: got {:?}, expected {:?}",
                got.len(),
                want.len(),
                i,
                got.get(i),
                want.get(i)
            ));
        }
    }
    None
}
