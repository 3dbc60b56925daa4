//! Coverage-guided search (thorough tier): libFuzzer's bytes take the place of the random numbers
//! from which a property's strategy builds a case, so every property is searched with its own
//! generator and judged by its own check. See /verif/fuzz.

use crate::driver::{eval, install_hook, Cx, Prop};
use crate::util::hash64;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn config() -> Config {
    Config { failure_persistence: None, max_shrink_iters: 1, ..Config::default() }
}

fn case_of<T: std::fmt::Debug>(strat: &BoxedStrategy<T>, bytes: &[u8]) -> Option<T> {
    let rng = TestRng::from_seed(RngAlgorithm::PassThrough, bytes);
    let mut runner = TestRunner::new_with_rng(config(), rng);
    strat.new_tree(&mut runner).ok().map(|t| t.current())
}

/// Random bytes to begin with.
pub fn seeds(seed: u64, count: u64, dir: &Path) {
    fs::create_dir_all(dir).expect("corpus directory");
    for i in 0..count {
        let mut m = crate::util::Mix::new(seed.rotate_left(32) ^ i);
        let len = 64 << m.below(7);
        let b: Vec<u8> = (0..len).map(|_| m.next() as u8).collect();
        fs::write(dir.join(format!("{:06}", i)), b).expect("corpus file");
    }
}

/// What one fuzzing process does with each input.
pub struct Guided<P: Prop> {
    p: P,
    strat: BoxedStrategy<P::Case>,
    dir: PathBuf,
    n: usize,
    cur: fs::File,
    evals: u64,
    rejected: u64,
    nontrivial: HashSet<u64>,
    saved: Instant,
}

impl<P: Prop> Guided<P> {
    pub fn new(p: P, dir: &Path, n: usize) -> Self {
        install_hook();
        let strat = p.strategy();
        let cur = fs::File::create(dir.join(format!("cur-{}.json", n))).expect("cur file");
        Guided { p, strat, dir: dir.to_owned(), n, cur, evals: 0, rejected: 0, nontrivial: HashSet::new(), saved: Instant::now() }
    }
    fn try_bytes(&mut self, bytes: &[u8]) -> Result<(), (P::Case, String)> {
        let case = match case_of(&self.strat, bytes) {
            Some(c) => c,
            None => {
                self.rejected += 1;
                return Ok(());
            }
        };
        let mut j = serde_json::to_vec(&case).unwrap();
        let h = hash64(&j);
        j.push(b'\n');
        let _ = self.cur.write_all_at(&j, 0);
        let mut cx = Cx::default();
        let r = eval(&self.p, &case, &mut cx);
        self.evals += 1;
        if cx.nontrivial {
            self.nontrivial.insert(h);
        }
        r.map_err(|m| (case, m))
    }
    /// Returns false when the input breaks the property; the shrunk case is then saved.
    pub fn one(&mut self, bytes: &[u8]) -> bool {
        let r = self.try_bytes(bytes);
        if self.saved.elapsed() > Duration::from_secs(2) {
            self.save();
        }
        let (mut best, mut msg) = match r {
            Ok(()) => return true,
            Err(e) => e,
        };
        let first = serde_json::to_value(&best).unwrap();
        let mut b = bytes.to_vec();
        let began = Instant::now();
        let mut step = b.len() / 2;
        'outer: while step > 0 {
            let mut at = 0;
            while at < b.len() {
                let end = (at + step).min(b.len());
                let mut cut = b.clone();
                cut.drain(at..end);
                let mut zero = b.clone();
                zero[at..end].fill(0);
                let mut ok = false;
                for c in [cut, zero] {
                    if began.elapsed() > Duration::from_secs(45) {
                        break 'outer;
                    }
                    if c == b {
                        continue;
                    }
                    if let Err((case, m)) = self.try_bytes(&c) {
                        best = case;
                        msg = m;
                        ok = c.len() < b.len();
                        b = c;
                        break;
                    }
                }
                if !ok {
                    at += step;
                }
            }
            step /= 2;
        }
        let v = json!({ "case": best, "message": msg, "from": first });
        fs::write(self.dir.join(format!("fail-{}.json", self.n)), v.to_string()).expect("failure file");
        self.save();
        false
    }
    pub fn save(&mut self) {
        self.saved = Instant::now();
        let v: Value = json!({ "evaluations": self.evals, "rejected": self.rejected, "distinct_nontrivial": self.nontrivial.len() });
        let _ = fs::write(self.dir.join(format!("stats-{}.json", self.n)), v.to_string());
    }
}

/// The same without its type.
pub trait Input {
    fn one(&mut self, bytes: &[u8]) -> bool;
    fn save(&mut self);
}

impl<P: Prop> Input for Guided<P> {
    fn one(&mut self, bytes: &[u8]) -> bool {
        Guided::one(self, bytes)
    }
    fn save(&mut self) {
        Guided::save(self)
    }
}
