use crate::driver::{Cx, Prop};
use crate::dump;
use crate::mani::{self, ManM, VolM};
use crate::util::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::manifest::Manifest;
use serde::{Deserialize, Serialize};
use std::io::{BufReader, Read};

pub struct C08;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub man: ManM,
    pub spacing: u64,
    /// capacity of the buffered reader
    pub buffer: u16,
    /// most bytes per read
    pub piece: u16,
}

pub fn path() -> BoxedStrategy<Bytes> {
    prop_oneof![
        4 => vec(prop_oneof![
                3 => proptest::sample::select(b"ab/. -_".to_vec()),
                2 => proptest::sample::select(b" \t\n\r\x0b\x0c\\\"'x20".to_vec()),
                2 => 1u8..=255,
            ], 1..24).prop_map(Bytes),
        2 => "[a-z]{1,9}(/[a-z.]{1,9}){0,3}".prop_map(|s| Bytes(s.into_bytes())),
        1 => Just(Bytes(b".".to_vec())),
        1 => proptest::sample::select(vec![&b"\""[..], b"\"\"", b"\\", b"\\x", b"\\x2", b"\\x41", b"'", b"' '", b" ", b"a\\", b"\\\\x20", b"Volume 2:"])
            .prop_map(|b| Bytes(b.to_vec())),
        1 => vec(1u8..=255, 200..600).prop_map(Bytes),
    ]
    .boxed()
}

pub fn block() -> BoxedStrategy<Option<u64>> {
    prop_oneof![4 => Just(None), 2 => (0u64..20).prop_map(Some), 1 => any::<u64>().prop_map(Some)].boxed()
}

pub fn volume() -> BoxedStrategy<VolM> {
    (path(), block(), path(), block(), prop_oneof![3 => Just("SHA1".to_owned()), 1 => "[A-Za-z0-9-]{1,10}"], prop_oneof![3 => vec(any::<u8>(), 20), 1 => vec(any::<u8>(), 1..65), 1 => vec(any::<u8>(), 65..300)])
        .prop_map(|(start, start_block, end, end_block, hash_type, hash)| VolM { start, start_block, end, end_block, hash_type, hash: Bytes(hash) })
        .boxed()
}

pub fn man(max: usize) -> BoxedStrategy<ManM> {
    (
        prop_oneof![3 => "[a-z0-9.-]{1,20}", 1 => "[!#-&(-\\[\\]-~]{1,12}", 1 => "[a-z\u{e9}\u{4e2d}]{1,8}"],
        path(),
        prop_oneof![6 => vec(volume(), 0..6), 1 => vec(volume(), 0..max)],
    )
        .prop_map(|(host, dir, vols)| ManM { host, dir, vols })
        .boxed()
}

pub struct Pieces<'a>(pub &'a [u8], pub usize);

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1.max(1)).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

impl Prop for C08 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "Manifests of up to 120 volumes with arbitrary path bytes, block numbers up to 2^64-1, any hash, written with \
         duplicity's quoting in duplicity's own layout or any legal spacing and line ending, and read in pieces. \
         Non-trivial: at least one volume, and a path or directory that duplicity has to quote."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["host names hold no blanks or quotes", "hashes are lower case hexadecimal, as duplicity writes them", "the root is written as a dot"]
    }
    fn cases(&self) -> u64 {
        300_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        (
            man(120),
            prop_oneof![2 => Just(0u64), 3 => any::<u64>()],
            prop_oneof![Just(8192u16), 1u16..40],
            prop_oneof![Just(u16::MAX), 1u16..40],
        )
            .prop_map(|(man, spacing, buffer, piece)| Case { man, spacing, buffer, piece })
            .boxed()
    }
    fn fixed(&self) -> Vec<Case> {
        let p = |s: String| Bytes(s.into_bytes());
        let vol = |i: usize| VolM {
            start: p(format!("dir/{}", i)),
            start_block: if i % 3 == 0 { Some(i as u64) } else { None },
            end: p(format!("dir/{} x", i + 1)),
            end_block: None,
            hash_type: "SHA1".into(),
            hash: Bytes((0..20).map(|k| (i >> k) as u8).collect()),
        };
        let mut v = Vec::new();
        for n in [255, 256, 257, 300, 66_000] {
            v.push(ManM { host: "host".into(), dir: p("/".into()), vols: (1..=n).map(vol).collect() });
        }
        // paths longer than any buffer, plain and quoted
        for n in [4_095, 4_096, 8_191, 8_192, 8_193, 70_000] {
            for c in ["a", "/b c"] {
                let long = VolM { start: p(c.repeat(n)), end: p(c.repeat(n + 1)), hash: Bytes(vec![7; n / 16]), ..vol(3) };
                v.push(ManM { host: "h".repeat(n), dir: p(c.repeat(n)), vols: vec![vol(0), long, vol(1)] });
            }
        }
        v.into_iter().map(|man| Case { man, spacing: 0, buffer: 8192, piece: u16::MAX }).collect()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let text = mani::text(&case.man, case.spacing);
        let quoted = |b: &Bytes| mani::quote(&b.0) != b.0;
        let q = quoted(&case.man.dir) || case.man.vols.iter().any(|v| quoted(&v.start) || quoted(&v.end));
        cx.class_if(q, "quoted path");
        cx.class_if(case.spacing != 0, "other spacing");
        cx.class_if(text.contains(&b'\r'), "carriage returns");
        cx.class_if(!text.ends_with(b"\n"), "no final newline");
        cx.class_if(case.man.vols.len() > 9, "ten volumes or more");
        cx.class_if(case.man.vols.iter().any(|v| v.start_block.is_some() || v.end_block.is_some()), "block numbers");
        cx.nontrivial = q && !case.man.vols.is_empty();
        let mut r = BufReader::with_capacity(case.buffer.max(1) as usize, Pieces(&text, case.piece as usize));
        let m = Manifest::parse(&mut r).map_err(|e| format!("{}: {}", e, crate::util::esc(&text)))?;
        let (got, want) = (dump::manifest(&m), mani::expected(&case.man));
        ensure_eq!((&got.host, Bytes(got.dir.clone())), (&want.host, Bytes(want.dir.clone())), "host and directory");
        for (i, (g, w)) in got.vols.iter().zip(&want.vols).enumerate() {
            ensure_eq!(g, w, "volume {} of {}", i + 1, crate::util::esc(&text));
        }
        ensure_eq!(got.vols.len(), want.vols.len(), "number of volumes");
        ensure!(m.volume(0).is_none() && m.volume(got.vols.len() + 1).is_none(), "a volume beyond the last");
        // the same contents in duplicity's own layout are the same manifest
        let plain = Manifest::parse(&mut &mani::text(&case.man, 0)[..]).map_err(|e| e.to_string())?;
        ensure!(m == plain && plain == m, "{} is not equal to the same in duplicity's layout", crate::util::esc(&text));
        for (i, v) in want.vols.iter().enumerate() {
            use std::os::unix::ffi::OsStrExt;
            let g = m.volume(i + 1).unwrap();
            let p = |p: Option<&std::path::Path>| p.map(|p| p.as_os_str().as_bytes().to_vec());
            ensure_eq!((p(g.start_path()), p(g.end_path())), (Some(v.start.clone()), Some(v.end.clone())), "paths of volume {}", i + 1);
        }
        Ok(())
    }
}
