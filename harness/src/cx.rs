//! Per-worker state: randomness, event counts, fingerprints, samples.
use hivecore::obs::Res;
use hivecore::rng::Rng;
use hivecore::walk::Stats;
use std::collections::{BTreeMap, HashSet};

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub fps: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// hive bytes of the current case, saved if it fails
    pub hive: Option<Vec<u8>>,
    pub note: String,
}

impl Cx {
    pub fn ev(&mut self, name: &str, n: u64) {
        if let Some(v) = self.events.get_mut(name) {
            *v += n;
        } else {
            self.events.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let k = format!("max {name}");
        let e = self.events.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
    /// A distinct non-trivial case.
    pub fn fp(&mut self, v: u64) {
        if self.fps.len() < 3_000_000 {
            self.fps.insert(v);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn set_hive(&mut self, b: &[u8], note: impl Into<String>) {
        self.note = note.into();
        if b.len() <= 8 << 20 {
            self.hive = Some(b.to_vec());
        }
    }
    pub fn absorb(&mut self, st: &Stats) {
        for ((a, b), n) in &st.hist {
            let k = format!("{a}:{b}");
            *self.events.entry(k).or_insert(0) += n;
        }
        self.ev("keys visited", st.nodes);
        self.ev("values visited", st.values);
        self.ev("slices checked", st.slices);
        self.ev("bytes compared", st.bytes);
    }
}

pub struct Phase {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Cx, u64) -> Res,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: &'static [Phase],
}
