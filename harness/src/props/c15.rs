use crate::driver::{Cx, Prop};
use crate::names::{judge_stamp, Stamp};
use crate::util::{civil, days_from_civil, esc, now_secs, show_time, stamp, Bytes, ZONE};
use proptest::collection::vec;
use proptest::prelude::*;
use ruplicity::timefmt::{parse_time_str, TimeDisplay};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use time::Timespec;

pub struct C15;

/// A day of the year: the `week`-th (5 is the last) Sunday of a month.
#[derive(Clone, Copy)]
struct Sunday(i64, i64);

struct Zone {
    tz: &'static str,
    std: i64,
    /// (offset, start and its local hour, end and its local hour)
    dst: Option<(i64, (Sunday, i64), (Sunday, i64))>,
}

const ZONES: [Zone; 9] = [
    Zone { tz: "UTC0", std: 0, dst: None },
    Zone { tz: "<+0545>-05:45", std: 20_700, dst: None },
    Zone { tz: "<-03>3", std: -10_800, dst: None },
    Zone { tz: "<+14>-14", std: 50_400, dst: None },
    Zone { tz: "<-12>12", std: -43_200, dst: None },
    Zone { tz: "<-0330>3:30", std: -12_600, dst: None },
    Zone { tz: "CET-1CEST,M3.5.0,M10.5.0/3", std: 3600, dst: Some((7200, (Sunday(3, 5), 2), (Sunday(10, 5), 3))) },
    Zone { tz: "EST5EDT,M3.2.0,M11.1.0", std: -18_000, dst: Some((-14_400, (Sunday(3, 2), 2), (Sunday(11, 1), 2))) },
    Zone { tz: "AEST-10AEDT,M10.1.0,M4.1.0/3", std: 36_000, dst: Some((39_600, (Sunday(10, 1), 2), (Sunday(4, 1), 3))) },
];

fn sunday(year: i64, s: Sunday) -> i64 {
    let first = days_from_civil(year, s.0, 1);
    // 1970-01-01 was a Thursday
    let mut d = first + (7 - (first + 4).rem_euclid(7)) % 7;
    let next = if s.0 == 12 { days_from_civil(year + 1, 1, 1) } else { days_from_civil(year, s.0 + 1, 1) };
    for _ in 1..s.1 {
        if d + 7 < next {
            d += 7;
        }
    }
    d
}

impl Zone {
    fn change(&self, year: i64, start: bool) -> Option<i64> {
        let (dst, s, e) = self.dst?;
        Some(if start {
            sunday(year, s.0) * 86_400 + s.1 * 3600 - self.std
        } else {
            sunday(year, e.0) * 86_400 + e.1 * 3600 - dst
        })
    }
    fn offset(&self, secs: i64) -> i64 {
        match self.dst {
            None => self.std,
            Some((off, ..)) => {
                let year = civil(secs + self.std).year;
                let (s, e) = (self.change(year, true).unwrap(), self.change(year, false).unwrap());
                let summer = if s < e { s <= secs && secs < e } else { !(e <= secs && secs < s) };
                if summer {
                    off
                } else {
                    self.std
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    /// an instant
    Show(i64, u32),
    /// an instant this many seconds from the start of the current year (UTC)
    ThisYear(i64),
    /// an instant near a change of the clocks, or of the year where there is none
    Change(i64, bool, i64),
    /// an instant, written as a complete time stamp and followed by something
    Parse(i64, Bytes),
    /// calendar fields that may not exist
    Fields(u16, u8, u8, u8, u8, u8),
    /// any text
    Text(String),
    /// a complete time stamp with one character changed or left out
    Near(i64, u8, Option<char>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub zone: u8,
    pub items: Vec<Item>,
    /// what the clock says
    #[serde(default)]
    pub now: Option<i64>,
}

static TZ: Mutex<()> = Mutex::new(());

fn set_tz(tz: &str) {
    std::env::set_var("TZ", tz);
    time::tzset();
}

fn show(secs: i64, nsec: u32, z: &Zone, cx: &mut Cx) -> Result<(), String> {
    let before = now_secs();
    let t = Timespec::new(secs, (nsec % 1_000_000_000) as i32);
    let utc = format!("{}", t.into_utc_display());
    let local = format!("{}", t.into_local_display());
    let again = format!("{}", t.into_local_display());
    let years = |now: i64| (civil(now).year, civil(now + z.offset(now)).year);
    let (year, local_year) = years(before);
    if years(now_secs()) != (year, local_year) {
        return Ok(());
    }
    ensure_eq!(again, local, "{}: shown again", secs);
    // years 1000 to 9999, with a margin for the zone
    if !(-30_610_224_000 + 100_000..253_402_300_800 - 100_000).contains(&secs) {
        cx.class("out of range");
        return Ok(());
    }
    ensure_eq!(utc, show_time(secs, 0, year), "instant {} in UTC, the clock at {}", secs, before);
    // the C library knows no rules for changes before 1970
    if z.dst.is_some() && secs < 31_622_400 {
        return Ok(());
    }
    let off = z.offset(secs);
    ensure_eq!(local, show_time(secs, off, local_year), "instant {} in zone {}, the clock at {}", secs, z.tz, before);
    cx.class_if(off != z.std, "daylight saving");
    let (a, b) = (civil(secs), civil(secs + off));
    cx.class_if(a.day != b.day, "local date differs from UTC date");
    cx.class_if(a.year != b.year, "local year differs from UTC year");
    cx.class_if(b.year == local_year, "current year");
    cx.class_if(year != local_year, "the current year differs between the zones");
    cx.nontrivial |= off != 0;
    Ok(())
}

fn parse(text: &str, want: Option<i64>, cx: &mut Cx) -> Result<(), String> {
    let got = parse_time_str(text).map(|t| (t.sec, t.nsec));
    if let Some(w) = want {
        ensure_eq!(got, Some((w, 0)), "parse_time_str({:?})", text);
        cx.class("complete time stamp");
        return Ok(());
    }
    match judge_stamp(text.as_bytes()) {
        Stamp::Valid(w) => {
            ensure_eq!(got, Some((w, 0)), "parse_time_str({:?})", text);
            cx.class("complete time stamp");
        }
        Stamp::Invalid => {
            ensure_eq!(got, None, "parse_time_str({:?})", text);
            cx.class("no time stamp");
        }
        Stamp::Grey => cx.class("left open"),
    }
    Ok(())
}

fn item(i: &Item, z: &Zone, cx: &mut Cx) -> Result<(), String> {
    match i {
        Item::Show(s, n) => show(*s, *n, z, cx),
        Item::ThisYear(off) => show(days_from_civil(civil(now_secs()).year, 1, 1) * 86_400 + off, 0, z, cx),
        Item::Change(year, start, delta) => {
            let at = z.change(*year, *start).unwrap_or(days_from_civil(*year, 1, 1) * 86_400 - z.std);
            show(at + delta, 0, z, cx)
        }
        Item::Parse(secs, tail) => {
            let text = stamp(*secs).to_ascii_lowercase();
            parse(&text, Some(*secs), cx)?;
            // what comes after a complete time stamp may be refused, but changes nothing
            if let Ok(t) = std::str::from_utf8(&tail.0) {
                let long = format!("{}{}", text, t);
                if let Some(g) = parse_time_str(&long) {
                    ensure_eq!((g.sec, g.nsec), (*secs, 0), "parse_time_str({:?})", long);
                }
            }
            Ok(())
        }
        Item::Fields(y, mo, d, h, mi, s) => {
            parse(&format!("{:04}{:02}{:02}t{:02}{:02}{:02}z", y % 10_000, mo % 100, d % 100, h % 100, mi % 100, s % 100), None, cx)
        }
        Item::Text(t) => parse(t, None, cx),
        Item::Near(secs, at, c) => {
            let mut v: Vec<char> = stamp(*secs).to_ascii_lowercase().chars().collect();
            let k = *at as usize % v.len();
            match c {
                Some(c) => v[k] = *c,
                None => {
                    v.remove(k);
                }
            }
            parse(&v.into_iter().collect::<String>(), None, cx)
        }
    }
}

impl Prop for C15 {
    type Case = Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Nine zones (fixed offsets from -12 to +14 h, three with daylight saving written as rules, so no zone files are \
         needed); in each, with the clock at any moment and often near a new year, up to 20 items: instants over the whole i64 range, in the current year, around clock changes and \
         year ends, shown in UTC and locally and compared with our own calendar; complete time stamps of the years 1 to \
         9999, impossible calendar fields, damaged time stamps and arbitrary text, read and compared. Non-trivial: an \
         instant is shown and compared at an offset other than zero."
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "texts that are shortened forms of a time stamp are not judged",
            "shown text is compared for the years 1000 to 9999, with daylight saving from 1971; otherwise it only has to come",
        ]
    }
    fn cases(&self) -> u64 {
        500_000
    }
    fn strategy(&self) -> BoxedStrategy<Case> {
        let range = -62_135_596_800i64..253_402_300_800;
        let secs = || {
            prop_oneof![
                4 => range.clone(),
                3 => 0i64..4_000_000_000,
                // around the end of any day
                3 => (-719_162i64..2_932_897, -3i64..4).prop_map(|(d, k)| (d * 86_400 + k).clamp(-62_135_596_800, 253_402_300_799)),
                // leap days and the day after
                1 => (1i64..9999, 0i64..172_800).prop_map(|(y, k)| days_from_civil(y, 2, 28) * 86_400 + k),
            ]
        };
        let item = prop_oneof![
            4 => (secs(), any::<u32>()).prop_map(|(s, n)| Item::Show(s, n)),
            1 => (any::<i64>(), any::<u32>()).prop_map(|(s, n)| Item::Show(s, n)),
            1 => (prop_oneof![Just(i64::MIN), Just(i64::MAX), Just(67_768_036_191_676_799), Just(-67_768_040_609_740_800)], -5i64..6)
                .prop_map(|(s, d)| Item::Show(s.saturating_add(d), 0)),
            1 => (0u32..63, -3i64..4, any::<bool>()).prop_map(|(b, d, n)| Item::Show(((1i64 << b) + d) * if n { -1 } else { 1 }, 999_999_999)),
            4 => (-200_000i64..32_000_000).prop_map(Item::ThisYear),
            3 => (1971i64..2400, any::<bool>(), prop_oneof![-3i64..4, -100_000i64..100_000]).prop_map(|(y, s, d)| Item::Change(y, s, d)),
            4 => (secs(), vec(any::<u8>(), 0..6)).prop_map(|(s, t)| Item::Parse(s, Bytes(t))),
            2 => (any::<u16>(), 0u8..14, 0u8..33, 0u8..26, 0u8..62, 0u8..63).prop_map(|(a, b, c, d, e, f)| Item::Fields(a, b, c, d, e, f)),
            1 => (any::<u16>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d, e, f)| Item::Fields(a, b, c, d, e, f)),
            2 => "[0-9tz.+ -]{0,18}".prop_map(Item::Text),
            1 => any::<String>().prop_map(Item::Text),
            3 => (secs(), any::<u8>(), proptest::option::weighted(0.8, prop_oneof![
                proptest::char::range('0', '9'), Just('t'), Just('z'), Just(' '), Just('-'), Just('+'), Just('\u{660}'), any::<char>()]))
                .prop_map(|(s, k, c)| Item::Near(s, k, c)),
        ];
        let now = prop_oneof![
            2 => Just(None),
            2 => (1972i64..2400, -100_000i64..100_000).prop_map(|(y, d)| Some(days_from_civil(y, 1, 1) * 86_400 + d)),
            2 => (100_000_000i64..9_000_000_000).prop_map(Some),
        ];
        (0u8..ZONES.len() as u8, vec(item, 1..21), now).prop_map(|(zone, items, now)| Case { zone, items, now }).boxed()
    }
    fn check(&self, case: &Case, cx: &mut Cx) -> Result<(), String> {
        let z = &ZONES[case.zone as usize % ZONES.len()];
        let _lock = TZ.lock().unwrap_or_else(|e| e.into_inner());
        set_tz(z.tz);
        let r = crate::clock::at(case.now, || crate::driver::guarded(|| -> Result<(), String> {
            for i in &case.items {
                item(i, z, cx).map_err(|e| format!("{} (item {:?}, bytes {})", e, i, esc(format!("{:?}", i).as_bytes())))?;
            }
            Ok(())
        }));
        set_tz(ZONE);
        r?
    }
}
