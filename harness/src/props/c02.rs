use crate::driver::{Cx, Prop};
use crate::hist::{self, Kind};
use crate::mem::Mem;
use crate::names::{self, BackupR};
use crate::props::c01::long_backup;
use crate::{dump, expect};
use proptest::prelude::*;
use ruplicity::Backup;
use std::collections::HashMap;

pub struct C02;

impl Prop for C02 {
    type Case = BackupR;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Edit histories whose entries draw every header field over its range (times before 1970 and beyond 2242, ids past \
         the octal range, absent fields, owner names of 32 bytes, link targets of any bytes and any length) and every tar \
         encoding (octal with NUL/space/blanks, base-256, GNU long name and link, PAX records, ustar prefix, both magics, \
         directories with and without slash). Owners are renamed between archives; one case in 100 \
         is a chain of 20-520 sets that record the same paths again and again. Non-trivial: a path is recorded again \
         with other metadata, and some archive uses a non-plain encoding."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["within one archive an id has one name", "PAX records are not used for values with a newline"]
    }
    fn cases(&self) -> u64 {
        60_000
    }
    fn strategy(&self) -> BoxedStrategy<BackupR> {
        prop_oneof![99 => names::backup_r(hist::meta_wide(), 1..3, 6), 1 => long_backup(hist::meta_wide())].boxed()
    }
    fn fixed(&self) -> Vec<BackupR> {
        // more owners, and more files, than a small counter holds
        let mut v: Vec<_> = [300, 66_000].into_iter().map(|n| names::many(n, 1)).collect();
        v.extend([0, 1, 2, 3, 4].map(|enc| names::long(enc, 2)));
        v
    }
    fn known(&self) -> Vec<Self::Case> {
        let mut m = hist::Meta::simple(hist::Kind::Sym);
        m.link = crate::util::Bytes(b"\xc3\xa9\nb".to_vec());
        vec![super::c01::newline(m, b"link")]
    }
    fn check(&self, case: &BackupR, cx: &mut Cx) -> Result<(), String> {
        let built = names::build(case);
        let mut changed = false;
        for c in &built {
            for (i, s) in c.iter().enumerate() {
                for (p, r) in &s.model.records {
                    if let Some(r) = r {
                        cx.class_if(r.meta.kind == Kind::Sym, "symbolic link");
                        cx.class_if(r.meta.kind == Kind::Hard, "hard link");
                        cx.class_if(r.meta.mtime < 0, "time before 1970");
                        cx.class_if(r.meta.uid > 2_097_151, "id past octal");
                        cx.class_if(r.meta.odd != 0, "absent or odd field");
                        if i > 0 {
                            if let Some(old) = c[i - 1].model.tree.get(p) {
                                changed |= old != r;
                                cx.class_if(old.meta.uid == r.meta.uid && old.uname != r.uname, "owner renamed");
                            }
                        }
                    }
                }
            }
        }
        let enc = built.iter().flatten().any(|s| s.model.enc != 0);
        cx.class_if(changed, "metadata changed");
        cx.nontrivial = changed && enc;
        let backup = Backup::new(Mem::new(names::files(&built))).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = backup.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        let want: Vec<_> = built.iter().flatten().collect();
        ensure_eq!(snaps.len(), want.len(), "number of snapshots");
        for (i, (s, w)) in snaps.iter().zip(&want).enumerate() {
            let got = dump::entries(s).map_err(|e| format!("snapshot {}: entries: {}", i, e))?;
            // by path, so that a listing problem is not reported here
            let what = format!("snapshot {}", i);
            let by_path: HashMap<&[u8], &dump::EntryDump> = got.iter().rev().map(|g| (&g.path[..], g)).collect();
            for (p, r) in &w.model.tree {
                let path = hist::join(p);
                if let Some(g) = by_path.get(&path[..]) {
                    let mut e = expect::entry(p, r);
                    e.size = g.size;
                    ensure_eq!(**g, e, "{}", what);
                }
            }
            ensure!(!got.is_empty(), "{}: nothing is listed", what);
            ensure_eq!(s.time().nsec, 0, "{}: nanoseconds", what);
        }
        Ok(())
    }
}
