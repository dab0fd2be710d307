//! Words and numbers from the text of the program under test, as fuzzers use them: they only steer the generators
//! towards inputs that the program may treat specially; no judgement depends on them. Without a dictionary the
//! generators are unaffected.
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::OnceLock;

thread_local! {
    /// The word and the number that the current case prefers, if any: some faults need one of them in several places.
    static FOCUS: Cell<(usize, usize)> = const { Cell::new((usize::MAX, usize::MAX)) };
}

/// To be called at the start of every case.
pub fn refocus(r: &mut Rng) {
    let d = get();
    let mut f = (usize::MAX, usize::MAX);
    if !d.words.is_empty() && r.chance(1, 8) {
        f.0 = r.idx(d.words.len());
    }
    if !d.ints.is_empty() && r.chance(1, 8) {
        f.1 = r.idx(d.ints.len());
    }
    FOCUS.with(|c| c.set(f));
}

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub words: Vec<Vec<u16>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
static NONE: Dict = Dict { ints: vec![], words: vec![] };

/// Lines of `i NUMBER` and `w TEXT` (\n and \\ escaped).
pub fn load(text: &str) {
    let mut d = Dict::default();
    for l in text.lines() {
        match l.split_once(' ') {
            Some(("i", n)) => d.ints.extend(n.parse::<u64>()),
            Some(("w", w)) => d.words.push(w.replace("\\n", "\n").replace("\\\\", "\\").encode_utf16().collect()),
            _ => (),
        }
    }
    d.ints.sort();
    d.ints.dedup();
    let _ = DICT.set(d);
}

pub fn load_env() {
    load(&std::env::var("HIVE_DICT").unwrap_or_default());
}

pub fn get() -> &'static Dict {
    DICT.get().unwrap_or(&NONE)
}

/// A number of the dictionary or one next to it, in lo..=hi.
pub fn int(r: &mut Rng, lo: u64, hi: u64) -> Option<u64> {
    let v = &get().ints;
    let (a, b) = (v.partition_point(|x| *x < lo), v.partition_point(|x| *x <= hi));
    if a >= b {
        return None;
    }
    let n = v[a + r.idx(b - a)];
    let n = match r.below(8) {
        0 => n.wrapping_sub(1),
        1 | 2 => n.wrapping_add(1),
        3 => n / 2,
        4 => n.wrapping_mul(2),
        _ => n,
    };
    (lo..=hi).contains(&n).then_some(n)
}

/// In one of so many calls, as `int`.
pub fn sometimes(r: &mut Rng, one_in: u64, lo: u64, hi: u64) -> Option<u64> {
    let d = get();
    if d.ints.is_empty() {
        return None;
    }
    if let Some(&n) = d.ints.get(FOCUS.with(|c| c.get().1)) {
        if (lo..=hi).contains(&n) && r.chance(1, 5) {
            return (n + r.below(3)).checked_sub(1).filter(|n| (lo..=hi).contains(n));
        }
    }
    if !r.chance(1, one_in) {
        return None;
    }
    int(r, lo, hi)
}

pub fn word(r: &mut Rng, one_in: u64) -> Option<&'static [u16]> {
    let w = &get().words;
    if let Some(w) = w.get(FOCUS.with(|c| c.get().0)) {
        if r.chance(1, 4) {
            return Some(w);
        }
    }
    if w.is_empty() || !r.chance(1, one_in) {
        return None;
    }
    Some(&w[r.idx(w.len())])
}
