use crate::driver::{Cx, Prop};
use crate::dirfail;
use crate::dump::{self, EntryDump, ManDump};
use crate::hist;
use crate::mem::{Files, Mem};
use crate::names::{self, BackupR};
use crate::util::{Bytes, Mix};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::{Backend, Backup};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct C13;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub backup: BackupR,
    /// piece sizes of the in-memory storage
    pub chunks: Vec<u16>,
    pub order: u64,
    /// further entries of the directory: (name, contents; none is a directory)
    pub entries: Vec<(Bytes, Option<Bytes>)>,
    /// how the gzip streams are written
    pub gzip: u64,
    /// also from a directory on disk
    pub disk: bool,
    /// spelling of the directory's path
    pub spelling: u8,
    /// how the entries come into the directory: as files of their own, or as links to files elsewhere
    #[serde(default)]
    pub links: u64,
    /// reading the directory fails after this many entries, with this error
    #[serde(default)]
    pub fails: Option<(u8, u8)>,
    /// so many more files in the directory
    #[serde(default)]
    pub crowd: u16,
}

const ERRNOS: [i32; 6] = [libc::EIO, libc::ESTALE, libc::EACCES, libc::ENOENT, libc::EOVERFLOW, libc::ETIMEDOUT];

/// A directory of its own, removed at the end.
pub struct Scratch(pub PathBuf);

static COUNT: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!(
            "c13-{}-{}",
            std::process::id(),
            COUNT.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A gzip file of one or several members.
fn gzip_file(data: &[u8], m: &mut Mix) -> Vec<u8> {
    let mut out = Vec::new();
    let mut rest = data;
    if m.one_in(3) {
        for _ in 0..=m.below(3) {
            let (a, b) = rest.split_at(m.below(rest.len() as u64 + 1) as usize);
            out.extend(gzip(a, m));
            rest = b;
        }
    }
    out.extend(gzip(rest, m));
    out
}

/// A gzip stream with generated header fields and block layout.
fn gzip(data: &[u8], m: &mut Mix) -> Vec<u8> {
    let mut b = flate2::GzBuilder::new();
    if m.one_in(2) {
        b = b.filename(&b"duplicity_temp.1"[..]);
    }
    if m.one_in(3) {
        b = b.comment(&b"made by a test"[..]);
    }
    if m.one_in(3) {
        b = b.extra(vec![1, 2, 3, 4, 5]);
    }
    b = b.mtime(m.next() as u32);
    let mut w = b.write(Vec::new(), flate2::Compression::new(m.below(10) as u32));
    let mut at = 0;
    while at < data.len() {
        let n = (1 + m.below(4096) as usize).min(data.len() - at);
        w.write_all(&data[at..at + n]).unwrap();
        if m.one_in(3) {
            w.flush().unwrap();
        }
        at += n;
    }
    w.finish().unwrap()
}

/// What does not mention file names.
type Content = Vec<(i64, Result<Vec<EntryDump>, String>, Result<String, String>, Result<ManDump, String>)>;

fn content(d: &[dump::SnapDump]) -> Content {
    d.iter().map(|s| (s.time, s.entries.clone(), s.shown.clone(), s.manifest.clone())).collect()
}

fn read<B: Backend>(b: B) -> Result<Vec<dump::SnapDump>, String> {
    let b = Backup::new(b).map_err(|e| format!("Backup::new: {}", e))?;
    Ok(dump::backup(&b, dump::ASK))
}

fn dir_name(b: &Bytes) -> Option<Vec<u8>> {
    let mut v: Vec<u8> = b.0.iter().cloned().filter(|c| *c != 0 && *c != b'/').collect();
    v.truncate(200);
    if v.is_empty() || v == b"." || v == b".." || v.to_ascii_lowercase().starts_with(b"duplicity-") {
        None
    } else {
        Some(v)
    }
}

impl Prop for C13 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "A backup over the whole range of metadata is read from memory in one piece, in generated piece sizes (with reads that are \
         interrupted and have to be repeated) and listing order, with all signatures gzipped (any level, header fields and block layout, one or several members) and all plain, and one case in \
         three from a scratch directory that also holds files, links and directories of arbitrary names, and whose listing \
         fails in half of these cases. Non-trivial: pieces \
         smaller than a tar block and at least two sets, or a directory with an unusual name in it."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the file system of the scratch directory takes any bytes but NUL and slash in names"]
    }
    fn cases(&self) -> u64 {
        24_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let name = prop_oneof![
            3 => vec(any::<u8>(), 1..20).prop_map(Bytes),
            2 => names::foreign(),
            2 => "[aA\u{e4}\u{c4}]{1,2}".prop_map(|s| Bytes(s.into_bytes())),
            3 => proptest::sample::select(vec![&b" "[..], b"-", b"a\nb", b"\xff", b"*", b"...", b".x", b"a b", b"\xc3\xa9", b"%41", b"~", b"a~", b"#a#", b"x.tmp", b"a.part", b".nfs0001", b"core", b"lost+found", b"duplicity.lock", b"lockfile.lock", b"Thumbs.db", b"a ", b"a.", b"\n", b"\\"]).prop_map(|b| Bytes(b.to_vec())),
        ];
        (
            names::backup_r(hist::meta_wide(), 1..3, 3),
            prop_oneof![2 => vec(1u16..8, 1..4), 2 => vec(1u16..1200, 1..5), 1 => vec(prop_oneof![1 => Just(0u16), 2 => 1u16..600], 2..6), 1 => Just(vec![512]), 1 => Just(vec![511, 1])],
            any::<u64>(),
            vec((name, prop_oneof![3 => vec(any::<u8>(), 0..60).prop_map(|b| Some(Bytes(b))), 1 => Just(None)]), 0..6),
            any::<u64>(),
            prop_oneof![1 => Just(true), 2 => Just(false)],
            (prop_oneof![3 => 0u8..8, 1 => 8u8..14], prop_oneof![1 => Just(0), 1 => any::<u64>()]),
            (
                prop_oneof![1 => Just(None), 1 => (prop_oneof![2 => 0u8..6, 1 => any::<u8>()], any::<u8>()).prop_map(Some)],
                prop_oneof![200 => Just(0u16), 1 => 1u16..1000],
            ),
        )
            .prop_map(|(backup, chunks, order, entries, gzip, disk, (spelling, links), (fails, crowd))| Case {
                backup,
                chunks,
                order,
                entries,
                gzip,
                disk,
                spelling,
                links,
                fails,
                crowd,
            })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        // more entries than one call to the system delivers
        vec![Case {
            backup: names::many(3, 2),
            chunks: vec![100],
            order: 1,
            entries: vec![(Bytes(b"long".to_vec()), Some(Bytes((0..300_000u32).map(|i| (i ^ i >> 8 ^ i >> 16) as u8).collect())))],
            gzip: 1,
            disk: true,
            spelling: 0,
            links: 0,
            fails: Some((255, 0)),
            crowd: 6000,
        }]
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let built = names::build(&case.backup);
        let sets = built.iter().flatten().count();
        let files = names::files(&built);
        let base = read(Mem::new(files.clone()))?;

        // other pieces, other order
        let mut list: Vec<Vec<u8>> = files.keys().cloned().collect();
        Mix::new(case.order).shuffle(&mut list);
        let mem = Mem::with_order(files.clone(), list);
        *mem.0.chunks.borrow_mut() = case.chunks.iter().map(|c| *c as usize).collect();
        let got = read(mem)?;
        if let Some(d) = dump::first_diff(&got, &base) {
            return Err(format!("in pieces of {:?} (expected: in one piece): {}", case.chunks, d));
        }
        cx.class_if(case.chunks.contains(&0), "interrupted reads");
        cx.nontrivial = case.chunks.iter().any(|c| *c < 512) && sets > 1;

        // all signatures compressed, all plain
        let mut mix = Mix::new(case.gzip);
        for gz in [true, false] {
            let mut f: Files = files.clone();
            for s in built.iter().flatten() {
                f.remove(s.sig.as_bytes());
                let suf = match (gz, mix.one_in(4)) {
                    (true, false) => ".gz",
                    (true, true) => ".z",
                    (false, false) => "",
                    (false, true) => ".gpg",
                };
                let data = if gz { gzip_file(&s.tar, &mut mix) } else { s.tar.clone() };
                f.insert(names::file_name(s.start, s.end, "sigtar", false, suf).into_bytes(), Rc::new(data));
            }
            let mem = Mem::new(f);
            if mix.one_in(2) {
                *mem.0.chunks.borrow_mut() = case.chunks.iter().map(|c| *c as usize).collect();
            }
            let got = content(&read(mem)?);
            if let Some(d) = dump::first_diff(&got, &content(&base)) {
                return Err(format!("signatures {} (expected: as generated): {}", if gz { "compressed" } else { "plain" }, d));
            }
        }

        if case.disk {
            cx.class("from disk");
            let dir = Scratch::new();
            let mut all: BTreeMap<Vec<u8>, Option<Vec<u8>>> =
                files.iter().map(|(n, d)| (n.clone(), Some(d.to_vec()))).collect();
            for (n, d) in &case.entries {
                if let Some(n) = dir_name(n) {
                    cx.class_if(std::str::from_utf8(&n).is_err(), "name that is not UTF-8");
                    cx.class_if(d.is_none(), "subdirectory");
                    cx.nontrivial = true;
                    all.insert(n, d.as_ref().map(|b| b.0.clone()));
                }
            }
            all.extend((0..case.crowd).map(|i| (format!("file number {}", i).into_bytes(), Some(vec![]))));
            let mut links = Mix::new(case.links);
            let pool = Scratch::new();
            for (i, (n, d)) in all.iter().enumerate() {
                let p = dir.0.join(OsString::from_vec(n.clone()));
                let real = pool.0.join(i.to_string());
                let made = match (d, if case.links == 0 { 0 } else { links.below(4) }) {
                    (Some(d), 0 | 1) => std::fs::write(&p, d),
                    (Some(d), 2) => std::fs::write(&real, d).and_then(|()| std::fs::hard_link(&real, &p)),
                    (Some(d), _) => {
                        cx.class("link to a file elsewhere");
                        std::fs::write(&real, d).and_then(|()| std::os::unix::fs::symlink(&real, &p))
                    }
                    (None, 0 | 1) => std::fs::create_dir(&p),
                    (None, 2) => std::os::unix::fs::symlink("no such file", &p),
                    (None, _) => std::os::unix::fs::symlink(&pool.0, &p),
                };
                made.map_err(|e| format!("scratch entry: {}", e))?;
            }
            let odd = Scratch::new();
            let (at, _cwd) = spell(&dir.0, case.spelling, &odd.0);
            cx.class_if(case.spelling >= 8, "a relative path");
            let b = LocalBackend::new(&at);
            let mut got: Vec<Vec<u8>> =
                b.file_names().map_err(|e| e.to_string())?.into_iter().map(|n| n.as_bytes().to_vec()).collect();
            got.sort();
            let want: Vec<Vec<u8>> = all.keys().cloned().collect();
            if let Some((n, e)) = case.fails {
                let errno = ERRNOS[e as usize % ERRNOS.len()];
                // to its end, as there are two more entries in each directory
                let n = n as usize % (all.len() + 3);
                let (r, failed) = dirfail::after(n, errno, || Backup::new(LocalBackend::new(&at)).map(|b| b.snapshots().map(|s| s.into_iter().count())));
                cx.class_if(failed, "reading the directory fails");
                match r {
                    Ok(n) => ensure!(!failed, "reading the directory fails, yet there is a backup of {:?} snapshots", n),
                    Err(e) => {
                        ensure!(failed, "the directory can be read, yet: {}", e);
                        ensure_eq!(e.kind(), std::io::Error::from_raw_os_error(errno).kind(), "failure to read the directory");
                    }
                }
            }
            let b2 = |v: &[Vec<u8>]| v.iter().map(|n| Bytes(n.clone())).collect::<Vec<_>>();
            ensure_eq!(b2(&got), b2(&want), "names in the directory");
            for (n, d) in &all {
                if let Some(d) = d {
                    let mut f = b
                        .open_file(Path::new(&OsString::from_vec(n.clone())))
                        .map_err(|e| format!("{:?}: {}", Bytes(n.clone()), e))?;
                    let mut v = Vec::new();
                    f.read_to_end(&mut v).map_err(|e| e.to_string())?;
                    ensure!(v == *d, "{:?}: contents differ: {} bytes, expected {}", Bytes(n.clone()), v.len(), d.len());
                }
            }
            let missing = b.open_file(Path::new("no such file at all"));
            ensure!(missing.is_err(), "a file that does not exist can be opened");
            // the names seen decide what belongs to the backup, so the rest does not matter
            let got = read(LocalBackend::new(&at))?;
            if let Some(d) = dump::first_diff(&got, &base) {
                return Err(format!("from a directory (expected: from memory): {}", d));
            }
            drop((dir, pool, odd));
            // (a working directory that is gone can still be read)
            ensure!(case.spelling == 8 || LocalBackend::new(&at).file_names().is_err(), "a directory that does not exist can be listed");
        }
        Ok(())
    }
}

/// The working directory belongs to the whole process.
static CWD: std::sync::RwLock<()> = std::sync::RwLock::new(());

enum Cwd<'a> {
    Free,
    Same(#[allow(dead_code)] std::sync::RwLockReadGuard<'a, ()>),
    Moved(PathBuf, #[allow(dead_code)] std::sync::RwLockWriteGuard<'a, ()>),
}

impl Drop for Cwd<'_> {
    fn drop(&mut self) {
        if let Cwd::Moved(back, _) = self {
            let _ = std::env::set_current_dir(back);
        }
    }
}

/// The same directory, written differently.
fn spell(d: &Path, how: u8, other: &Path) -> (PathBuf, Cwd<'static>) {
    let link = |name: &[u8]| {
        let l = other.join(OsString::from_vec(name.to_vec()));
        std::os::unix::fs::symlink(d, &l).expect("link to the scratch directory");
        l
    };
    let moved = |to: &Path| {
        let guard = CWD.write().unwrap_or_else(|e| e.into_inner());
        let back = std::env::current_dir().expect("working directory");
        std::env::set_current_dir(to).expect("change to the scratch directory");
        Cwd::Moved(back, guard)
    };
    let at = match how % 16 {
        4 => link(b"a link"),
        5 => link(b"\xff\xfe %41\n~"),
        6 => link(b"-").join("..").join(d.file_name().unwrap()),
        7 => {
            // relative to the working directory
            let guard = CWD.read().unwrap_or_else(|e| e.into_inner());
            let up = std::env::current_dir().expect("working directory").components().count() - 1;
            return ((0..up).map(|_| "..").collect::<PathBuf>().join(d.strip_prefix("/").unwrap()), Cwd::Same(guard));
        }
        8 => return (PathBuf::from("."), moved(d)),
        n @ 9..=13 => {
            // what other programs give a meaning
            let name = ["~", "$HOME", "file:", "-", "%41"][n as usize - 9];
            link(name.as_bytes());
            return (PathBuf::from(name), moved(other));
        }
        1 => PathBuf::from(format!("{}/", d.display())),
        2 => d.join("."),
        3 => d.parent().unwrap().join(".").join(d.file_name().unwrap()),
        _ => d.to_path_buf(),
    };
    (at, Cwd::Free)
}
