use super::c08;
use crate::driver::{guarded, Cx, Prop};
use crate::dump;
use crate::mani::{self, Line, ManM};
use crate::util::{esc, Bytes};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::manifest::Manifest;
use serde::{Deserialize, Serialize};
use std::io::{self, BufReader, ErrorKind, Read};

pub struct C10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Defect {
    /// the keyword of a line is misspelt
    Keyword { line: u16, how: u8 },
    /// a line lacks its words from the given one on
    Lacks { line: u16, word: u8 },
    /// a number is unreadable
    Number { line: u16, text: u8 },
    /// a volume has another number
    Order { vol: u16, num: u32 },
    /// not UTF-8 where text is required
    Utf8 { line: u16, at: u8, byte: u8 },
    /// a line is missing
    Dropped { line: u16 },
    /// empty lines before a line, or at the end
    Empty { line: u16, n: u8 },
    /// the text ends at this byte
    Ends { at: u32 },
    /// the reader fails after this many bytes
    Reader { at: u32, kind: u8 },
    /// anything
    Raw(Bytes),
    /// bytes replaced at random
    Noise(Vec<(u16, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub man: ManM,
    pub spacing: u64,
    pub defect: Defect,
}

/// A reader that fails after so many bytes, and then 0: for ever, 1: goes on, 2: is at its end.
struct Failing<'a>(&'a [u8], usize, ErrorKind, u8);

impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.1 == 0 {
            if self.3 > 0 {
                self.1 = usize::MAX;
            }
            if self.3 == 2 {
                self.0 = &[];
            }
            return Err(io::Error::new(self.2, "injected"));
        }
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
];

const NUMBERS: [&str; 12] =
    ["x", "-1", "1x", "x1", "1.5", "0x1", "18446744073709551616", "99999999999999999999999", "1:1", "--", "\u{661}", "1,"];

#[derive(PartialEq, Debug)]
enum Want {
    Named(String),
    AnyError,
    /// the manifest without the defect, or an error
    SameOrError,
    /// as many volumes as there are whole ones, or one more whose hash is cut off, or an error
    Prefix(usize),
    NoPanic,
}

fn misspell(k: &[u8], how: u8) -> Vec<u8> {
    let mut v = k.to_vec();
    match how % 7 {
        0 => v.push(b'x'),
        1 => {
            v.pop();
        }
        2 => v = v.to_ascii_lowercase(),
        3 => v = v.to_ascii_uppercase(),
        4 => v[0] = b'X',
        5 => v.push(b':'),
        _ => {
            v.swap(0, 1);
        }
    }
    v
}

/// The defective text and what reading it has to give.
fn apply(c: &Case, cx: &mut Cx) -> (Vec<u8>, Want) {
    let mut ls: Vec<Line> = mani::lines(&c.man);
    let nvol = c.man.vols.len();
    let pick = |n: u16, v: &[usize]| -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(v[n as usize % v.len()])
        }
    };
    let named = |s: &str| Want::Named(s.to_owned());
    let key = |l: &Line| String::from_utf8(l[0].clone()).unwrap();
    let all: Vec<usize> = (0..ls.len()).collect();
    let mut want = Want::NoPanic;
    match &c.defect {
        Defect::Keyword { line, how } => {
            let i = pick(*line, &all).unwrap();
            want = named(&format!("MissingKeyword({})", key(&ls[i])));
            ls[i][0] = misspell(&ls[i][0], *how);
            cx.class("misspelt keyword");
        }
        Defect::Lacks { line, word } => {
            let v: Vec<usize> = all.iter().cloned().filter(|i| *i >= 2).collect();
            if let Some(i) = pick(*line, &v) {
                let k = key(&ls[i]);
                let (n, w) = match (k.as_str(), word % 2) {
                    ("Volume", _) => (1, "ParseInt"),
                    ("Hash", 0) => (1, "MissingHashType"),
                    ("Hash", _) => (2, "MissingHash"),
                    _ => (1, "MissingPath"),
                };
                ls[i].truncate(n);
                want = named(w);
                cx.class("missing word");
            }
        }
        Defect::Number { line, text } => {
            let v: Vec<usize> = all.iter().cloned().filter(|i| *i >= 2 && key(&ls[*i]) != "Hash").collect();
            if let Some(i) = pick(*line, &v) {
                let t = NUMBERS[*text as usize % NUMBERS.len()].as_bytes().to_vec();
                if key(&ls[i]) == "Volume" {
                    ls[i][1] = t;
                    if text & 64 != 0 {
                        ls[i][1].push(b':');
                    }
                } else {
                    ls[i].truncate(2);
                    ls[i].push(t);
                }
                want = named("ParseInt");
                cx.class("unreadable number");
            }
        }
        Defect::Order { vol, num } => {
            if nvol > 0 {
                let i = *vol as usize % nvol;
                let n = if *num as usize == i + 1 { 0 } else { *num as usize };
                ls[2 + i * 4][1] = format!("{}:", n).into_bytes();
                want = named(&format!("OutOfOrderVolume({})", n));
                cx.class("volume out of sequence");
            }
        }
        Defect::Utf8 { line, at, byte } => {
            let v: Vec<usize> = all.iter().cloned().filter(|i| *i != 1).collect();
            let i = pick(*line, &v).unwrap();
            let b = 0x80 | byte % 0x40;
            // a stray continuation byte is never part of valid text here
            let put = |w: &mut Vec<u8>| {
                let k = *at as usize % (w.len() + 1);
                // not inside a character: a boundary before it
                let s = String::from_utf8_lossy(w).into_owned();
                let k = if s.is_char_boundary(k.min(s.len())) { k } else { w.len() };
                w.insert(k, b);
                w.insert(k, b'a');
            };
            let w = match key(&ls[i]).as_str() {
                "Hostname" | "Hash" | "Volume" => *at as usize % 2,
                _ => 0,
            };
            put(&mut ls[i][w]);
            want = named("Utf8");
            cx.class("not UTF-8");
        }
        Defect::Dropped { line } => {
            let i = pick(*line, &all).unwrap();
            let next = if i + 1 < ls.len() { Some(key(&ls[i + 1])) } else { None };
            let k = key(&ls[i]);
            ls.remove(i);
            want = match (k.as_str(), next) {
                // a whole line less at the end
                ("Hash", None) | ("Localdir", None) => named("Io(UnexpectedEof)"),
                _ => named(&format!("MissingKeyword({})", k)),
            };
            cx.class("missing line");
        }
        Defect::Ends { at } => {
            let text = mani::render(&ls, c.spacing);
            let at = *at as usize % (text.len() + 1);
            let cut = text[..at].to_vec();
            // how many lines began, and what the last one holds
            let began: Vec<&[u8]> = cut.split(|b| *b == b'\n').collect();
            let last = *began.last().unwrap();
            let complete = last.is_empty();
            let n = began.len() - 1; // finished lines
            let words = last.split(|b| *b == b' ' || *b == b'\r').filter(|w| !w.is_empty()).count();
            want = if complete {
                if n < 2 || (n - 2) % 4 != 0 {
                    named("Io(UnexpectedEof)")
                } else {
                    Want::Prefix((n - 2) / 4)
                }
            } else if n == 0 {
                Want::AnyError
            } else if n == 1 {
                // the source directory may be cut off
                Want::NoPanic
            } else if words == 0 && (n - 2) % 4 == 0 {
                Want::Prefix((n - 2) / 4)
            } else if (n - 2) % 4 < 3 {
                Want::AnyError
            } else if words < 3 {
                Want::AnyError
            } else {
                Want::Prefix((n - 2) / 4)
            };
            cx.class_if(matches!(want, Want::Named(_) | Want::AnyError), "ends inside a volume");
            cx.class_if(matches!(want, Want::Prefix(_)), "ends between or behind volumes");
            return (cut, want);
        }
        Defect::Empty { line, n } => {
            let at = *line as usize % (ls.len() + 1);
            let before = mani::render(&ls[..at], c.spacing);
            let after = mani::render(&ls[at..], c.spacing);
            let eol: &[u8] = if n & 1 == 0 { b"\n" } else { b"\r\n" };
            let mut text = before;
            if !text.is_empty() && text.last() != Some(&b'\n') {
                text.extend(eol);
            }
            for _ in 0..=n / 2 % 3 {
                text.extend(eol);
            }
            text.extend(after);
            cx.class("empty lines");
            return (text, Want::SameOrError);
        }
        Defect::Reader { .. } => (),
        Defect::Raw(b) => {
            cx.class("arbitrary bytes");
            return (b.0.clone(), want);
        }
        Defect::Noise(v) => {
            let mut text = mani::render(&ls, c.spacing);
            for (i, b) in v {
                let k = *i as usize % text.len();
                text[k] = *b;
            }
            cx.class("noise");
            return (text, want);
        }
    }
    (mani::render(&ls, c.spacing), want)
}

impl Prop for C10 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Valid manifests (as for C08) with one defect: misspelt keyword, missing word or line, unreadable number, number out \
         of sequence, invalid UTF-8, an end at any byte (what is read is then a prefix), empty lines, a reader failing at any byte; and random noise and arbitrary bytes, \
         where only panics count. Non-trivial: the defect determines the error."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a number with a plus sign and trailing words are not judged; empty lines may be an error or ignored"]
    }
    fn cases(&self) -> u64 {
        1_000_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let raw = prop_oneof![
            1 => vec(any::<u8>(), 0..80),
            2 => vec(
                prop_oneof![
                    proptest::sample::select(vec![
                        &b"Hostname"[..], b"Localdir", b"Volume", b"StartingPath", b"EndingPath", b"Hash", b" ", b"  ", b"\n",
                        b"\r\n", b"\"", b"\\", b"\\x", b"\\x4", b"\\x41", b"1", b"1:", b"2:", b"SHA1", b"abc", b"\xff", b"\0", b"\"\"", b":",
                    ])
                    .prop_map(|b| b.to_vec()),
                ],
                0..40
            )
            .prop_map(|v| v.concat()),
        ]
        .prop_map(|v| Defect::Raw(Bytes(v)));
        let defect = prop_oneof![
            4 => (any::<u16>(), any::<u8>()).prop_map(|(line, how)| Defect::Keyword { line, how }),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(line, word)| Defect::Lacks { line, word }),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(line, text)| Defect::Number { line, text }),
            2 => (any::<u16>(), prop_oneof![0u32..12, any::<u32>()]).prop_map(|(vol, num)| Defect::Order { vol, num }),
            2 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(line, at, byte)| Defect::Utf8 { line, at, byte }),
            2 => any::<u16>().prop_map(|line| Defect::Dropped { line }),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(line, n)| Defect::Empty { line, n }),
            3 => any::<u32>().prop_map(|at| Defect::Ends { at }),
            2 => (any::<u32>(), any::<u8>()).prop_map(|(at, kind)| Defect::Reader { at, kind }),
            3 => raw,
            2 => vec((any::<u16>(), any::<u8>()), 1..6).prop_map(Defect::Noise),
        ];
        (c08::man(12), prop_oneof![1 => Just(0u64), 1 => any::<u64>()], defect)
            .prop_map(|(man, spacing, defect)| Case { man, spacing, defect })
            .boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let (text, want) = apply(case, cx);
        let got = if let Defect::Reader { at, kind } = &case.defect {
            let kind = KINDS[*kind as usize % KINDS.len()];
            let at = *at as usize % (text.len() + 1);
            cx.class("failing reader");
            cx.nontrivial = true;
            let e = format!("Io({:?})", kind);
            for then in 0..3 {
                let mut r = BufReader::with_capacity(1 + at % 50, Failing(&text, at, kind, then));
                match guarded(|| Manifest::parse(&mut r))? {
                    Ok(_) => return Err(format!("the reader failed after {} of {} bytes, yet there is a manifest", at, text.len())),
                    Err(g) => ensure_eq!(dump::perr(&g), e, "the failure of the reader after {} bytes", at),
                }
            }
            return Ok(());
        } else {
            guarded(|| Manifest::parse(&mut &text[..]))?
        };
        cx.nontrivial = want != Want::NoPanic;
        let show = || esc(&text);
        match (got, want) {
            (Ok(m), Want::Named(w)) => Err(format!("expected {}, got {:?} from {}", w, dump::manifest(&m), show())),
            (Ok(m), Want::AnyError) => Err(format!("expected an error, got {:?} from {}", dump::manifest(&m), show())),
            (Err(e), Want::Named(w)) => {
                let _ = format!("{} {:?}", e, e);
                ensure_eq!(dump::perr(&e), w, "error for {}", show());
                Ok(())
            }
            (Ok(m), w @ (Want::SameOrError | Want::Prefix(_))) => {
                let whole = mani::render(&mani::lines(&case.man), case.spacing);
                let mut whole = match guarded(|| Manifest::parse(&mut &whole[..]))? {
                    Ok(m) => dump::manifest(&m),
                    Err(e) => return Err(format!("the manifest without the defect: {}", dump::perr(&e))),
                };
                let mut got = dump::manifest(&m);
                if let Want::Prefix(n) = w {
                    ensure!(
                        got.vols.len() == n || got.vols.len() == n + 1,
                        "{} volumes, but {} are whole in {}",
                        got.vols.len(),
                        n,
                        show()
                    );
                    whole.vols.truncate(got.vols.len());
                    if got.vols.len() == n + 1 {
                        // its hash is cut off
                        let (g, w) = (got.vols.last_mut().unwrap(), whole.vols.last().unwrap());
                        g.hash = w.hash.clone();
                    }
                }
                ensure!(
                    got == whole,
                    "{}: {} in {}",
                    if w == Want::SameOrError { "with empty lines" } else { "cut off" },
                    dump::first_diff(&got.vols, &whole.vols).unwrap_or_else(|| "host name or source directory".into()),
                    show()
                );
                Ok(())
            }
            (Ok(m), Want::NoPanic) => {
                // usable whatever it holds
                let d = dump::manifest(&m);
                for v in &d.vols {
                    let _ = (m.first_volume_of_path(&v.start), m.last_volume_of_path(&v.end));
                }
                let _ = (m.first_volume_of_path(b"x"), m.last_volume_of_path(b""));
                Ok(())
            }
            (Err(e), _) => {
                let _ = format!("{} {:?}", e, e);
                Ok(())
            }
        }
    }
}
