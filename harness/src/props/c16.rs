use crate::driver::{Cx, Prop};
use crate::dump;
use crate::hist::{self, Kind, Meta};
use crate::mem::Mem;
use crate::names::{self, BackupR};
use crate::util::{civil, days_from_civil, now_secs, show_time, this_year, Bytes, ZONE_OFF};
use proptest::prelude::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use ruplicity::timefmt::TimeDisplay;
use ruplicity::{Backend, Backup};
use time::Timespec;

pub struct C16;

/// How many columns a character takes, for those that are generated here.
fn width(c: char) -> usize {
    match c {
        '\u{300}'..='\u{36f}' => 0,
        '\u{4e00}'..='\u{9fff}' | '\u{ac00}'..='\u{d7a3}' => 2,
        _ => 1,
    }
}

/// Leaves only characters whose width is known; bytes that are no UTF-8 stay.
fn known_width(n: &[u8]) -> Vec<u8> {
    match std::str::from_utf8(n) {
        Ok(s) => s
            .chars()
            .map(|c| match c {
                '\u{0}'..='\u{9f}' | '\u{c0}'..='\u{24f}' => c,
                c if width(c) != 1 => c,
                _ => 'w',
            })
            .collect::<String>()
            .into_bytes(),
        Err(_) => n.to_vec(),
    }
}

/// The text as it is shown: control characters would break the line or the column.
fn shown(s: &str) -> String {
    s.chars().map(|c| if matches!(c, '\u{0}'..='\u{1f}' | '\u{7f}'..='\u{9f}') { '?' } else { c }).collect()
}

/// One element for each column of the screen.
fn columns(s: &str) -> Vec<char> {
    s.chars().flat_map(|c| std::iter::once(c).chain(std::iter::repeat('\0')).take(width(c))).collect()
}

pub fn permissions(mode: Option<u32>) -> String {
    let m = match mode {
        None => return "?".into(),
        Some(m) => m,
    };
    let bit = |b: u32| m & b != 0;
    let x = |exec: u32, special: u32, low: char, high: char| match (bit(exec), bit(special)) {
        (true, true) => low,
        (false, true) => high,
        (true, false) => 'x',
        (false, false) => '-',
    };
    let rw = |b: u32, c: char| if bit(b) { c } else { '-' };
    [
        rw(0o400, 'r'),
        rw(0o200, 'w'),
        x(0o100, 0o4000, 's', 'S'),
        rw(0o040, 'r'),
        rw(0o020, 'w'),
        x(0o010, 0o2000, 's', 'S'),
        rw(0o004, 'r'),
        rw(0o002, 'w'),
        x(0o001, 0o1000, 't', 'T'),
    ]
    .iter()
    .collect()
}

fn letter(k: Kind) -> char {
    match k {
        Kind::File | Kind::Hard => '-',
        Kind::Dir => 'd',
        Kind::Sym => 'l',
        Kind::Fifo => 'p',
        Kind::Char | Kind::Block => '?',
    }
}

fn cells(tree: &hist::Tree, got: &[dump::EntryDump], year: i64) -> Vec<Vec<String>> {
    tree.iter()
        .zip(got)
        .map(|((p, r), g)| {
            let m = &r.meta;
            let mode = if m.odd & hist::ODD_MODE != 0 { None } else { Some(m.mode) };
            let text = |b: &[u8]| shown(std::str::from_utf8(b).unwrap());
            let mtime = if m.odd & hist::ODD_MTIME != 0 { 0 } else { m.mtime };
            let time = if (-30_000_000_000..250_000_000_000).contains(&mtime) {
                show_time(mtime, ZONE_OFF, year)
            } else {
                format!("{}", Timespec::new(mtime, 0).into_local_display())
            };
            let path = hist::join(p);
            vec![
                format!("{}{}", letter(m.kind), permissions(mode)),
                if m.odd & hist::ODD_UID != 0 { "?".into() } else { text(&r.uname) },
                if m.odd & hist::ODD_GID != 0 { "?".into() } else { text(&r.gname) },
                g.size.map_or("?".into(), |s| s.1.to_string()),
                time,
                if path.is_empty() {
                    ".".into()
                } else {
                    std::str::from_utf8(&path).map_or("?".into(), shown)
                },
            ]
        })
        .collect()
}

/// Whether the lines show the cells in columns that start at one place each.
fn aligned(lines: &[Vec<char>], cells: &[Vec<Vec<char>>], col: usize, at: usize) -> bool {
    for (l, c) in lines.iter().zip(cells) {
        if l.len() < at || !l[at..].starts_with(&c[col]) {
            return false;
        }
    }
    if col + 1 == cells[0].len() {
        return lines.iter().zip(cells).all(|(l, c)| l.len() == at + c[col].len());
    }
    let widest = cells.iter().map(|c| c[col].len()).max().unwrap_or(0);
    (at + widest + 1..at + widest + 17).any(|next| {
        let blank = |l: &Vec<char>, c: &Vec<Vec<char>>| l.len() >= next && l[at + c[col].len()..next].iter().all(|x| *x == ' ');
        lines.iter().zip(cells).all(|(l, c)| blank(l, c)) && aligned(lines, cells, col + 1, next)
    })
}

impl Prop for C16 {
    type Case = BackupR;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Edit histories over the whole range of metadata (all types, permission words, absent fields, owner names up to the \
         length of the field, times over 64 bits and in the current year, names with control characters, of several widths and without UTF-8); each snapshot is \
         printed four ways and compared with our own renderer, column by column. Non-trivial: a snapshot of at least three \
         entries with two types and a special permission bit, an unknown field or a non-UTF-8 path."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "names hold only characters whose width is known (Latin, combining, Chinese, Korean, control characters); owner names are not empty",
            "the upper size bound is taken from the entry (C03 judges it)",
        ]
    }
    fn cases(&self) -> u64 {
        40_000
    }
    fn strategy(&self) -> BoxedStrategy<BackupR> {
        let year0 = days_from_civil(civil(now_secs()).year, 1, 1) * 86_400;
        let meta = (hist::meta_wide(), proptest::option::weighted(0.3, -100_000i64..31_700_000))
            .prop_map(move |(mut m, d): (Meta, Option<i64>)| {
                if let Some(d) = d {
                    m.mtime = year0 + d;
                }
                m
            })
            .boxed();
        names::backup_r(meta, 1..3, 4)
            .prop_map(|mut b| {
                for n in &mut b.names {
                    *n = Bytes(known_width(&n.0));
                }
                b
            })
            .boxed()
    }
    fn fixed(&self) -> Vec<BackupR> {
        // long lists in which one entry near an end is wider than all others
        let mut wide = Meta::simple(Kind::File);
        wide.size = 300_000;
        [(&b"zz"[..], 5_000u32), (b"aa", 5_000), (b"manyy", 300)]
            .iter()
            .map(|(n, k)| {
                let mut b = names::many(*k, 1);
                b.names = vec![Bytes(n.to_vec())];
                b.chains[0].full.edits.push(hist::Edit::Put(vec![0], wide.clone()));
                b
            })
            .collect()
    }
    fn check(&self, case: &BackupR, cx: &mut Cx) -> Result<(), String> {
        let mut case = case.clone();
        for n in &mut case.names {
            *n = Bytes(known_width(&hist::clean(&n.0)));
        }
        let built = names::build(&case);
        let mem = Mem::new(names::files(&built));
        let backup = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = backup.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        let flat: Vec<_> = built.iter().flatten().collect();
        ensure_eq!(snaps.len(), flat.len(), "number of snapshots");
        let year = this_year();
        let mut texts = Vec::new();
        for (i, (s, w)) in snaps.iter().zip(&flat).enumerate() {
            let e = s.entries().map_err(|e| e.to_string())?;
            let text = format!("{}", e);
            ensure_eq!(format!("{}", e), text, "snapshot {} printed again", i);
            ensure_eq!(format!("{}", e.as_signature().into_display()), text, "snapshot {} through into_display", i);
            let got = dump::entries(s)?;
            if this_year() != year || civil(now_secs() + ZONE_OFF).year != year {
                return Ok(());
            }
            let tree = &w.model.tree;
            let cells = cells(tree, &got, year);
            let lines: Vec<&str> = text.split_terminator('\n').collect();
            let show = || format!("snapshot {} is printed as\n{}\nexpected cells {:?}", i, text, cells);
            ensure_eq!(lines.len(), tree.len(), "number of lines: {}", show());
            ensure!(text.is_empty() || text.ends_with('\n'), "the last line does not end: {}", show());
            if !lines.is_empty() {
                let l: Vec<Vec<char>> = lines.iter().map(|l| columns(l)).collect();
                let c: Vec<Vec<Vec<char>>> = cells.iter().map(|r| r.iter().map(|c| columns(c)).collect()).collect();
                ensure!(aligned(&l, &c, 0, 0), "{}", show());
            }
            let special = tree.values().any(|r| r.meta.mode & 0o7000 != 0);
            let unknown = cells.iter().any(|c| c.iter().any(|x| x == "?" || x.starts_with('?')));
            let letters: std::collections::BTreeSet<char> = tree.values().map(|r| letter(r.meta.kind)).collect();
            cx.class_if(special, "special permission bits");
            cx.class_if(unknown, "unknown field");
            cx.class_if(cells.iter().any(|c| c[5] == "?"), "path that is no text");
            cx.class_if(tree.keys().flatten().any(|n| n.contains(&b'\n')), "path with a line break");
            cx.class_if(cells.iter().any(|c| c.iter().any(|c| c.chars().any(|c| width(c) != 1))), "characters of another width");
            cx.class_if(cells.iter().any(|c| c[4].contains(':')), "current year");
            cx.nontrivial |= tree.len() >= 3 && letters.len() >= 2 && (special || unknown);
            texts.push(text);
        }
        // the same through the chain type
        let coll = Collections::from_filenames(mem.file_names().unwrap());
        let mut k = 0;
        for c in coll.signature_chains() {
            let chain = Chain::from_sigchain(c, &mem).map_err(|e| e.to_string())?;
            for s in chain.snapshots() {
                ensure_eq!(Some(&format!("{}", s)), texts.get(k), "snapshot {} through its chain", k);
                k += 1;
            }
        }
        ensure_eq!(k, texts.len(), "snapshots of all chains");
        Ok(())
    }
}
