//! The model of a backed up tree and its history: a recipe of edits is expanded into trees, and
//! the trees into the signature archives duplicity would write.

use crate::tarw::{write_tar, Enc, Member, Span};
use crate::util::{Bytes, Mix};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Just};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// A path as duplicity has it: a tuple of components. The root is the empty tuple.
pub type Path = Vec<Vec<u8>>;

pub fn join(p: &[Vec<u8>]) -> Vec<u8> {
    p.join(&b'/')
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Kind {
    File,
    Dir,
    Sym,
    Fifo,
    Char,
    Block,
    /// not written by duplicity, but a type of the library
    Hard,
}

impl Kind {
    pub fn flag(self) -> u8 {
        match self {
            Kind::File => b'0',
            Kind::Dir => b'5',
            Kind::Sym => b'2',
            Kind::Fifo => b'6',
            Kind::Char => b'3',
            Kind::Block => b'4',
            Kind::Hard => b'1',
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Meta {
    pub kind: Kind,
    pub mtime: i64,
    pub uid: u64,
    pub gid: u64,
    pub mode: u32,
    pub link: Bytes,
    pub size: u64,
    /// signature block length
    pub block: u32,
    /// strong sum length
    pub strong: u32,
    /// bit 0: blank mtime, 1: blank uid, 2: blank gid, 3: blank mode, 4: type flag NUL for a
    /// file, 5: contents that are no signature, 6: link name on a non-link
    pub odd: u8,
}

pub const ODD_MTIME: u8 = 1;
pub const ODD_UID: u8 = 2;
pub const ODD_GID: u8 = 4;
pub const ODD_MODE: u8 = 8;
pub const ODD_NUL: u8 = 16;
pub const ODD_SIG: u8 = 32;
pub const ODD_LINK: u8 = 64;

impl Meta {
    pub fn simple(kind: Kind) -> Meta {
        Meta {
            kind,
            mtime: 1_000_000_000,
            uid: 1000,
            gid: 1000,
            mode: 0o644,
            link: Bytes(b"target".to_vec()),
            size: 0,
            block: 512,
            strong: 8,
            odd: 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Edit {
    /// create or replace the path with these components (indexes into the name pool)
    Put(Vec<u8>, Meta),
    /// record an existing path again with new metadata (picked among the paths alive)
    Touch(u16, Meta),
    /// delete a path and all below it
    Del(u16),
    /// a directory becomes something else, something else a directory
    Swap(u16, Meta),
    /// this many files in one directory, each with an owner of its own
    Many(u32, Meta),
    /// record an existing path again with some fields changed: bit 0 mtime, 1 uid, 2 gid, 3 mode,
    /// 4 link, 5 size, 6 what is odd; the owners in force may have changed as well
    Vary(u16, Meta, u8),
    /// a path that was deleted comes back as it was
    Again(u16),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SetRecipe {
    /// seconds since the previous set, at least one
    pub gap: u32,
    pub edits: Vec<Edit>,
    /// which owner names are in force
    pub owners: u8,
    /// encoding of the archive; 0 is plain
    pub enc: u32,
    /// parents of changed paths are recorded too
    pub parents: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ChainRecipe {
    pub full: SetRecipe,
    pub incs: Vec<SetRecipe>,
    /// the incrementals come this many more times
    #[serde(default)]
    pub repeat: u32,
}

impl ChainRecipe {
    pub fn sets(&self) -> impl Iterator<Item = &SetRecipe> {
        std::iter::once(&self.full).chain((0..=self.repeat).flat_map(|_| self.incs.iter()))
    }
}

/// What one archive records about a path.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub meta: Meta,
    pub uname: Vec<u8>,
    pub gname: Vec<u8>,
}

pub type Tree = BTreeMap<Path, Rec>;

#[derive(Clone, Debug)]
pub struct ModelSet {
    pub time: i64,
    /// the tree at this moment
    pub tree: Tree,
    /// what the archive of this set records: `None` is a deletion
    pub records: Vec<(Path, Option<Rec>)>,
    pub enc: u32,
}

pub fn clean(n: &[u8]) -> Vec<u8> {
    let v: Vec<u8> = n.iter().cloned().filter(|b| *b != 0 && *b != b'/').collect();
    if v.is_empty() || v == b"." || v == b".." {
        b"x".to_vec()
    } else {
        v
    }
}

fn name_at(names: &[Bytes], i: u8) -> Vec<u8> {
    if names.is_empty() {
        return b"x".to_vec();
    }
    clean(&names[i as usize % names.len()].0)
}

/// Owner names in force in version `v`: a function of the id, so one id has one name per archive.
pub fn owner_name(id: u64, v: u8, group: bool) -> Vec<u8> {
    let mut m = Mix::new(id.wrapping_mul(31) ^ ((v as u64) << 32) ^ if group { 1 << 60 } else { 0 });
    if v == 0 {
        return format!("{}{}", if group { "g" } else { "u" }, id % 1000).into_bytes();
    }
    match m.below(18) {
        0 | 7 => b"root".to_vec(),
        9 => b"Root".to_vec(),
        10 => b" root".to_vec(),
        11 => b"root ".to_vec(),
        12 => id.to_string().into_bytes(),
        13 => b"0".to_vec(),
        5 => "\u{5c71}\u{7530}".as_bytes().to_vec(),
        6 => b"CORP\\domain users".to_vec(),
        8 => b"a\tb\x1b[1mc".to_vec(),
        1 => b"michele".to_vec(),
        2 => "j\u{fc}rgen".as_bytes().to_vec(),
        3 => b"www-data".to_vec(),
        // as long as the field
        4 => vec![b'n'; 32],
        _ => format!("u{}v{}", id % 97, v).into_bytes(),
    }
}

struct Editor<'a> {
    names: &'a [Bytes],
    tree: Tree,
    touched: BTreeMap<Path, ()>,
    owners: u8,
    /// the last state of each path before this set
    ever: &'a BTreeMap<Path, Meta>,
}

impl<'a> Editor<'a> {
    fn rec(&self, mut meta: Meta) -> Rec {
        if meta.kind != Kind::Sym && meta.kind != Kind::Hard && meta.odd & ODD_LINK == 0 {
            meta.link = Bytes(Vec::new());
        } else {
            meta.link.0.retain(|b| *b != 0);
            if meta.link.0.is_empty() {
                meta.link.0 = b"t".to_vec();
            }
        }
        // with the highest value one id goes by several names within one archive
        let v = if self.owners >= 3 { self.owners + meta.mtime.rem_euclid(3) as u8 } else { self.owners };
        let uname = owner_name(meta.uid, v, false);
        let gname = owner_name(meta.gid, v, true);
        Rec { meta, uname, gname }
    }
    fn remove_below(&mut self, p: &Path, itself: bool) {
        let keys: Vec<Path> = self
            .tree
            .range(p.clone()..)
            .take_while(|(k, _)| k.starts_with(p))
            .map(|(k, _)| k.clone())
            .collect();
        for k in keys {
            if k.len() > p.len() || itself {
                self.tree.remove(&k);
                self.touched.insert(k, ());
            }
        }
    }
    fn set(&mut self, p: Path, mut meta: Meta) {
        if p.is_empty() {
            meta.kind = Kind::Dir;
        }
        for i in 0..p.len() {
            let a = p[..i].to_vec();
            let is_dir = self.tree.get(&a).map_or(false, |r| r.meta.kind == Kind::Dir);
            if !is_dir {
                let mut m = Meta::simple(Kind::Dir);
                m.mode = 0o755;
                m.mtime = meta.mtime;
                let r = self.rec(m);
                self.tree.insert(a.clone(), r);
                self.touched.insert(a, ());
            }
        }
        if meta.kind != Kind::Dir {
            self.remove_below(&p, false);
        }
        let r = self.rec(meta);
        self.tree.insert(p.clone(), r);
        self.touched.insert(p, ());
    }
    fn pick(&self, n: u16) -> Path {
        let k = n as usize % self.tree.len().max(1);
        self.tree.keys().nth(k).cloned().unwrap_or_default()
    }
    fn apply(&mut self, e: &Edit) {
        match e {
            Edit::Put(c, m) => {
                let p: Path = c.iter().map(|i| name_at(self.names, *i)).collect();
                self.set(p, m.clone());
            }
            Edit::Touch(n, m) => {
                let p = self.pick(*n);
                let mut m = m.clone();
                // keep what it is, change what is said about it
                if let Some(r) = self.tree.get(&p) {
                    m.kind = r.meta.kind;
                }
                self.set(p, m);
            }
            Edit::Vary(n, m, fields) => {
                let p = self.pick(*n);
                if let Some(r) = self.tree.get(&p) {
                    let mut v = r.meta.clone();
                    let bit = |b: u8| fields & (1 << b) != 0;
                    if bit(0) {
                        v.mtime = m.mtime;
                    }
                    if bit(1) {
                        v.uid = m.uid;
                    }
                    if bit(2) {
                        v.gid = m.gid;
                    }
                    if bit(3) {
                        v.mode = m.mode;
                    }
                    if bit(4) {
                        v.link = m.link.clone();
                    }
                    if bit(5) {
                        v.size = m.size;
                        v.block = m.block;
                    }
                    if bit(6) {
                        v.odd = m.odd;
                    }
                    self.set(p, v);
                }
            }
            Edit::Again(n) => {
                let gone: Vec<&Path> = self.ever.keys().filter(|p| !self.tree.contains_key(*p)).collect();
                if !gone.is_empty() {
                    let p = gone[*n as usize % gone.len()].clone();
                    let m = self.ever[&p].clone();
                    self.set(p, m);
                }
            }
            Edit::Del(n) => {
                let p = self.pick(*n);
                if !p.is_empty() {
                    self.remove_below(&p, true);
                }
            }
            Edit::Swap(n, m) => {
                let p = self.pick(*n);
                let mut m = m.clone();
                if let Some(r) = self.tree.get(&p) {
                    m.kind = if r.meta.kind == Kind::Dir {
                        if m.kind == Kind::Dir {
                            Kind::File
                        } else {
                            m.kind
                        }
                    } else {
                        Kind::Dir
                    };
                }
                self.set(p, m);
            }
            Edit::Many(n, m) => {
                for i in 0..*n {
                    let mut m = m.clone();
                    m.uid += i as u64;
                    m.gid += i as u64;
                    m.mtime += i as i64;
                    self.set(vec![b"many".to_vec(), format!("{:x}", i).into_bytes()], m);
                }
            }
        }
    }
}

/// Expands a chain. `t0` is the time before the full set.
pub fn expand(names: &[Bytes], chain: &ChainRecipe, t0: i64) -> Vec<ModelSet> {
    let mut sets = Vec::new();
    let mut time = t0;
    let mut tree = Tree::new();
    let mut ever = BTreeMap::new();
    for (i, s) in chain.sets().enumerate() {
        time += s.gap.max(1) as i64;
        let mut ed = Editor { names, tree: tree.clone(), touched: BTreeMap::new(), owners: s.owners, ever: &ever };
        if i == 0 {
            let mut m = Meta::simple(Kind::Dir);
            m.mode = 0o755;
            ed.set(vec![], m);
        }
        for e in &s.edits {
            ed.apply(e);
        }
        if s.parents {
            let mut ps: Vec<Path> = Vec::new();
            for k in ed.touched.keys() {
                if !k.is_empty() {
                    ps.push(k[..k.len() - 1].to_vec());
                }
            }
            for p in ps {
                if let Some(mut m) = ed.tree.get(&p).map(|r| r.meta.clone()) {
                    if m.kind == Kind::Dir {
                        m.mtime = m.mtime.wrapping_add(1).max(0);
                        let r = ed.rec(m);
                        ed.tree.insert(p.clone(), r);
                        ed.touched.insert(p, ());
                    }
                }
            }
        }
        let Editor { tree: new, touched, .. } = ed;
        let mut records = Vec::new();
        for (p, _) in touched {
            match new.get(&p) {
                Some(r) => {
                    ever.insert(p.clone(), r.meta.clone());
                    records.push((p, Some(r.clone())));
                }
                None => {
                    if tree.contains_key(&p) {
                        records.push((p, None));
                    }
                }
            }
        }
        tree = new;
        sets.push(ModelSet { time, tree: tree.clone(), records, enc: s.enc });
    }
    sets
}

/// The bytes of a librsync signature of a file.
pub fn signature(m: &Meta) -> Vec<u8> {
    let block = m.block.max(1) as u64;
    let n = (m.size + block - 1) / block;
    let n = n.min(MOST_BLOCKS) as usize;
    let strong = m.strong.clamp(1, 64) as usize;
    let mut v = Vec::with_capacity(12 + n * (4 + strong));
    v.extend_from_slice(&0x7273_0136u32.to_be_bytes());
    v.extend_from_slice(&(block as u32).to_be_bytes());
    v.extend_from_slice(&(strong as u32).to_be_bytes());
    let fill = (m.size as u8) ^ 0x5a;
    v.resize(12 + n * (4 + strong), fill);
    v
}

/// Of a generated file, and of any.
pub const MAX_BLOCKS: u64 = 600;
pub const MOST_BLOCKS: u64 = 400_000;

/// A size and block length whose signature is not too long to write.
pub fn fit_size(size: u64, block: u32) -> u64 {
    size.min(block.max(1) as u64 * MAX_BLOCKS)
}

pub fn junk_signature(m: &Meta) -> Vec<u8> {
    // shorter than a header, or with a magic number of no known format
    match m.size % 4 {
        0 => vec![],
        1 => vec![0x72, 0x73, 0x01],
        2 => {
            // any one byte of the magic number changed, or the number of a delta or of nothing
            let mut s = signature(m);
            let how = m.size / 4;
            match how % 8 {
                0 => s[0] = 0x00,
                1 => s[..4].copy_from_slice(&0x7273_0236u32.to_be_bytes()),
                2 => s[..4].copy_from_slice(&0x3601_7372u32.to_be_bytes()),
                3 => s[..4].copy_from_slice(&0u32.to_be_bytes()),
                i => {
                    let i = i as usize - 4;
                    let mut x = (how / 8 % 255) as u8 + 1;
                    // other numbers of the last byte are those of newer signature formats
                    if i == 3 && matches!(s[3] ^ x, 0x37 | 0x46 | 0x47) {
                        x = 0xff;
                    }
                    s[i] ^= x;
                }
            }
            s
        }
        _ => {
            let mut s = signature(m);
            s.truncate(4 + (m.size as usize / 4) % 8);
            s
        }
    }
}

pub fn member(p: &Path, rec: &Option<Rec>, enc: Enc) -> Member {
    match rec {
        None => {
            let mut name = b"deleted/".to_vec();
            name.extend(join(p));
            // duplicity writes an empty header here; fill it with values that must not leak
            Member {
                name,
                link: None,
                typeflag: b'0',
                mode: Some(0),
                uid: Some(0),
                gid: Some(0),
                mtime: Some(0),
                uname: b"nobody-deleted".to_vec(),
                gname: b"nogroup-deleted".to_vec(),
                data: vec![],
                enc,
            }
        }
        Some(r) => {
            let m = &r.meta;
            let sig = m.kind == Kind::File;
            let mut name = if sig { b"signature/".to_vec() } else { b"snapshot/".to_vec() };
            name.extend(join(p));
            let data = if sig {
                if m.odd & ODD_SIG != 0 {
                    junk_signature(m)
                } else {
                    signature(m)
                }
            } else {
                vec![]
            };
            Member {
                name,
                link: if m.link.0.is_empty() { None } else { Some(m.link.0.clone()) },
                typeflag: if sig && m.odd & ODD_NUL != 0 { 0 } else { m.kind.flag() },
                mode: if m.odd & ODD_MODE != 0 { None } else { Some(m.mode as u64) },
                uid: if m.odd & ODD_UID != 0 { None } else { Some(m.uid) },
                gid: if m.odd & ODD_GID != 0 { None } else { Some(m.gid) },
                mtime: if m.odd & ODD_MTIME != 0 { None } else { Some(m.mtime) },
                uname: r.uname.clone(),
                gname: r.gname.clone(),
                data,
                enc,
            }
        }
    }
}

pub fn members(set: &ModelSet) -> Vec<Member> {
    let mut mix = Mix::new(set.enc as u64);
    set.records
        .iter()
        .map(|(p, r)| {
            let enc = match set.enc {
                0 => Enc::plain(),
                u32::MAX => Enc::python(),
                _ => Enc::from_seed(mix.next() | 1),
            };
            member(p, r, enc)
        })
        .collect()
}

pub fn sigtar(set: &ModelSet) -> (Vec<u8>, Vec<Span>) {
    write_tar(&members(set), if set.enc % 3 == 1 { 10240 } else { 0 })
}

// ---------------------------------------------------------------------------------------------
// strategies

/// Bytes that make byte order and component order disagree, and some that are merely unusual.
pub fn name() -> BoxedStrategy<Bytes> {
    let words: Vec<&'static [u8]> = vec![
        b"foo", b"foo.txt", b"foo bar", b"foo-1", b"foo+", b"foo!", b"foo0", b"fooo", b"a", b"b", b"ab",
        b"a.b", b"a b", b"a-b", b"signature", b"snapshot", b"deleted", b"A", b"Z", b"~", b".hidden",
        b"\xc3\xa9t\xc3\xa9", b"\xff\xfe", b"x\ny", b"\x01", b"..x", b"-", b" ", b"vol1",
    ];
    prop_oneof![
        6 => proptest::sample::select(words).prop_map(|w| Bytes(w.to_vec())),
        4 => vec(proptest::sample::select(b"ab.-+ !0~\x01\xff".to_vec()), 1..4).prop_map(Bytes),
        1 => vec(any::<u8>(), 1..6).prop_map(Bytes),
        1 => (any::<u8>(), 60usize..260).prop_map(|(b, n)| Bytes(vec![b'a' + b % 26; n])),
        // lengths around the 100 byte name field
        1 => (0usize..14).prop_map(|n| Bytes(vec![b'n'; 84 + n])),
    ]
    .boxed()
}

pub fn names() -> BoxedStrategy<Vec<Bytes>> {
    (vec(name(), 1..6), vec((any::<u8>(), proptest::sample::select(b" !+-.0/\x01a".to_vec()), 0usize..3), 0..4))
        .prop_map(|(mut v, ext)| {
            // neighbours: an existing name followed by a byte below or above the slash
            for (i, b, n) in ext {
                let mut x = v[i as usize % v.len()].0.clone();
                x.truncate(200);
                x.push(if b == b'/' { b'.' } else { b });
                for _ in 0..n {
                    x.push(b'q');
                }
                v.push(Bytes(x));
            }
            v
        })
        .boxed()
}

pub fn path_ix() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![30 => vec(0u8..12, 1..4), 1 => vec(0u8..12, 4..30)].boxed()
}

fn mtime() -> BoxedStrategy<i64> {
    prop_oneof![
        6 => 0i64..2_000_000_000,
        1 => Just(0i64),
        1 => -1_000_000_000i64..0,
        1 => 2_000_000_000i64..8_589_934_592,
        1 => 8_589_934_592i64..253_402_300_800,
        1 => (near_power(62), any::<bool>()).prop_map(|(v, neg)| if neg { -(v as i64) } else { v as i64 }),
    ]
    .boxed()
}

/// A number next to a power of two, where narrow types end.
fn near_power(max: u32) -> BoxedStrategy<u64> {
    (3..max, -2i64..3).prop_map(|(k, d)| (1u64 << k).saturating_add_signed(d)).boxed()
}

fn id() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..4,
        3 => 1000u64..1004,
        1 => 2_097_150u64..2_097_155,
        1 => 0u64..4_294_967_296,
        // nobody and nogroup among them
        2 => near_power(55),
    ]
    .boxed()
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        8 => Just(Kind::File),
        5 => Just(Kind::Dir),
        2 => Just(Kind::Sym),
        1 => Just(Kind::Fifo),
        1 => Just(Kind::Char),
        1 => Just(Kind::Block),
    ]
    .boxed()
}

fn link() -> BoxedStrategy<Bytes> {
    prop_oneof![
        4 => Just(Bytes(b"target".to_vec())),
        2 => vec(any::<u8>(), 1..12).prop_map(Bytes),
        1 => (98usize..104).prop_map(|n| Bytes(vec![b'l'; n])),
        1 => (1usize..300).prop_map(|n| Bytes(vec![b'/'; n])),
        1 => Just(Bytes(b"../a b/./c/".to_vec())),
    ]
    .boxed()
}

pub fn size_block() -> BoxedStrategy<(u64, u32)> {
    let block = prop_oneof![
        4 => Just(512u32),
        2 => proptest::sample::select(vec![1u32, 2, 3, 511, 513, 1024, 2048, 65536]),
        1 => 1u32..100_000,
        1 => Just(1u32 << 31),
        1 => Just(u32::MAX),
    ];
    (block, prop_oneof![6 => 0u64..4, 3 => 0u64..60, 1 => 0u64..MAX_BLOCKS], -2i64..3, any::<u16>(), 0u8..4)
        .prop_map(|(b, n, d, r, how)| {
            // around a multiple of the block length, or anywhere in a block
            let base = b as u64 * n;
            let s = if how < 3 { base.saturating_add_signed(d) } else { base + r as u64 % b as u64 };
            (fit_size(s, b), b)
        })
        .boxed()
}

/// Metadata over its whole range.
pub fn meta_wide() -> BoxedStrategy<Meta> {
    (
        (kind(), mtime(), id(), id()),
        prop_oneof![4 => Just(0o644u32), 2 => 0u32..0o10000, 1 => 0u32..0o10000000],
        link(),
        size_block(),
        prop_oneof![4 => Just(8u32), 2 => Just(16u32), 2 => 1u32..33],
        prop_oneof![12 => Just(0u8), 1 => Just(ODD_MTIME), 1 => Just(ODD_UID), 1 => Just(ODD_GID), 1 => Just(ODD_MODE), 2 => Just(ODD_NUL), 1 => Just(ODD_SIG), 1 => Just(ODD_LINK)],
        prop_oneof![20 => Just(false), 1 => Just(true)],
    )
        .prop_map(|((kind, mtime, uid, gid), mode, link, (size, block), strong, odd, hard)| Meta {
            kind: if hard { Kind::Hard } else { kind },
            mtime,
            uid,
            gid,
            mode,
            link,
            size,
            block,
            strong,
            odd,
        })
        .boxed()
}

/// Metadata that only tells recordings apart.
pub fn meta_small() -> BoxedStrategy<Meta> {
    (kind(), 0i64..2_000_000_000, 0u64..4, 0u32..0o1000)
        .prop_map(|(kind, mtime, uid, mode)| {
            let mut m = Meta::simple(kind);
            m.mtime = mtime;
            m.uid = uid;
            m.gid = uid + 100;
            m.mode = mode;
            m.size = (mode as u64) * 7;
            m
        })
        .boxed()
}

pub fn edit(meta: BoxedStrategy<Meta>) -> BoxedStrategy<Edit> {
    prop_oneof![
        6 => (path_ix(), meta.clone()).prop_map(|(p, m)| Edit::Put(p, m)),
        3 => (any::<u16>(), meta.clone()).prop_map(|(n, m)| Edit::Touch(n, m)),
        3 => any::<u16>().prop_map(Edit::Del),
        2 => (any::<u16>(), meta.clone()).prop_map(|(n, m)| Edit::Swap(n, m)),
        3 => (any::<u16>(), meta, prop_oneof![3 => (0u8..7).prop_map(|b| 1 << b), 1 => Just(0u8), 1 => any::<u8>()])
            .prop_map(|(n, m, f)| Edit::Vary(n, m, f)),
        1 => any::<u16>().prop_map(Edit::Again),
    ]
    .boxed()
}

fn gap() -> BoxedStrategy<u32> {
    prop_oneof![3 => 1u32..100, 2 => 1u32..1_000_000, 1 => Just(86_400u32)].boxed()
}

pub fn enc_seed() -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 1 => any::<u32>()].boxed()
}

pub fn set_recipe(edits: BoxedStrategy<Vec<Edit>>) -> BoxedStrategy<SetRecipe> {
    (gap(), edits, 0u8..4, enc_seed(), any::<bool>())
        .prop_map(|(gap, edits, owners, enc, parents)| SetRecipe { gap, edits, owners, enc, parents })
        .boxed()
}

pub fn chain_recipe(meta: BoxedStrategy<Meta>, max_incs: usize) -> BoxedStrategy<ChainRecipe> {
    (
        set_recipe(prop_oneof![20 => vec(edit(meta.clone()), 0..14), 1 => vec(edit(meta.clone()), 30..120)].boxed()),
        vec(set_recipe(prop_oneof![20 => vec(edit(meta.clone()), 0..7), 1 => vec(edit(meta), 7..40)].boxed()), 0..max_incs + 1),
    )
        .prop_map(|(full, incs)| ChainRecipe { full, incs, repeat: 0 })
        .boxed()
}

/// Start of a history: any second between 1970 and 9900, the first ones among them.
pub fn t0() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => 1_400_000_000i64..1_500_000_000,
        1 => 0i64..29_348_000_000,
        1 => prop_oneof![-3i64..3, 2_147_480_000i64..2_147_490_000, 4_294_960_000i64..4_294_970_000, 0i64..250_000_000_000],
        1 => Just(951_782_390i64),
    ]
    .boxed()
}
