//! Calls every public function on whatever can be reached, without judging the answers: only
//! crashes, panics and sanitizer reports count.
use crate::model::*;
use crate::obs::*;
use crate::rng::Rng;
use nt_hive::NtHiveError as E;
use nt_hive::*;
use std::fmt::Write as _;
use zerocopy::{SplitByteSlice, SplitByteSliceMut};

#[derive(Clone, Debug)]
pub struct Budget {
    pub nodes: usize,
    pub items: usize,
    pub data: usize,
    /// use nth, count, last, … in addition to next
    pub thorough: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Tally {
    pub calls: u64,
    pub errors: u64,
    pub nodes: u64,
    pub values: u64,
    pub bytes: u64,
    pub strings: u64,
}

/// Formats into nothing: the formatting code runs, no memory is needed.
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.wrapping_add(s.len() as u64);
        Ok(())
    }
}

pub struct Ex<'r> {
    pub t: Tally,
    pub b: Budget,
    pub r: &'r mut Rng,
    items: usize,
}

pub fn odd_string(r: &mut Rng) -> String {
    match r.below(14) {
        0 => String::new(),
        1 => "\\".repeat(1 + r.idx(20)),
        2 => "\0".repeat(1 + r.idx(3)),
        3 => "\u{10ffff}".into(),
        4 => "\u{10000}a".into(),
        5 => "ﬀß\u{130}\u{131}ǅ".into(),
        6 => "a".repeat(r.log_range(1, 70_000) as usize),
        7 => "é".repeat(r.log_range(1, 3000) as usize),
        8 => format!("\\{}\\\\{}\\", rand_text(r), rand_text(r)),
        9 => "key\\..\\.".into(),
        10 => "subkey\\with\0nul".into(),
        _ => rand_text(r),
    }
}
fn rand_text(r: &mut Rng) -> String {
    String::from_utf16_lossy(&rand_units(r, 12, true))
}

impl<'r> Ex<'r> {
    pub fn new(r: &'r mut Rng, b: Budget) -> Self {
        Self { t: Tally::default(), b, r, items: 0 }
    }

    fn c<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Res<T> {
        self.t.calls += 1;
        call(op, f)
    }

    /// An error must at least be printable.
    fn err<T>(&mut self, op: &str, r: Result<T, E>) -> Res<Option<T>> {
        match r {
            Ok(x) => Ok(Some(x)),
            Err(e) => {
                self.error(op, &e)?;
                Ok(None)
            }
        }
    }
    pub fn error(&mut self, op: &str, e: &E) -> Res {
        self.t.errors += 1;
        self.c("formatting an error", || {
            let mut s = Sink(0);
            let _ = write!(s, "{e} {e:?} {e:#?} {e:>80} {e:.3}");
            let _ = e.clone() == *e;
            #[cfg(feature = "std")]
            {
                let d: &dyn std::error::Error = e;
                let _ = write!(s, "{:?}", d.source().is_some());
            }
        })
        .map_err(|f| match f {
            Fault::Panic { msg, .. } => Fault::Panic { op: format!("formatting the error of {op}"), msg },
            f => f,
        })
    }

    pub fn name(&mut self, n: &NtHiveNameString, other: Option<&NtHiveNameString>) -> Res {
        self.t.strings += 1;
        let w = *self.r.pick(&[0usize, 1, 7, 40, 3000]);
        let p = *self.r.pick(&[0usize, 1, 5, 1000]);
        self.c("formatting a name", || {
            let mut s = Sink(0);
            let _ = write!(s, "{n} {n:?} {n:#?} {n:>w$} {n:<w$.p$} {n:^w$} {n:*^w$.p$} {n:+} {n:#} {n:0w$}");
        })?;
        #[cfg(feature = "alloc")]
        {
            self.c("to_string_lossy", || n.to_string_lossy().len())?;
            self.c("to_string_checked", || n.to_string_checked().map(|s| s.len()))?;
        }
        let o = odd_string(self.r);
        let o = o.as_str();
        self.c("comparing a name and a string", || {
            let _ = (n == o, *n == *o, o == n, *o == *n);
            let _ = (n.partial_cmp(o), n.partial_cmp(&o), o.partial_cmp(n), (&o).partial_cmp(n));
        })?;
        if let Some(m) = other {
            self.c("comparing names", || (n == m, n.cmp(m), m.partial_cmp(n), n.clone().max(m.clone()) == *m))?;
        }
        Ok(())
    }

    fn names<B: SplitByteSlice>(&mut self, a: &KeyNode<B>, b: Option<&KeyNode<B>>) -> Res {
        let n = self.c("name", || a.name())?;
        let Some(n) = self.err("name", n)? else { return Ok(()) };
        let m = match b {
            None => None,
            Some(b) => self.c("name", || b.name())?.ok(),
        };
        self.name(&n, m.as_ref())
    }

    /// All of an iterator's own methods, on clones.
    fn iter<T, I: Iterator<Item = T> + Clone>(&mut self, op: &str, it: &I, big: bool) -> Res {
        self.c(op, || it.size_hint())?;
        if !self.b.thorough {
            return Ok(());
        }
        let k = *self.r.pick(&[
            0,
            1,
            2,
            7,
            0xfffe,
            0xffff,
            0x1_0000,
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2,
            usize::MAX / 4,
            usize::MAX / 4 + 1,
            usize::MAX / 8 + 1,
            1 << 30,
        ]);
        self.c(op, || it.clone().nth(k).is_some())?;
        self.c(op, || {
            let mut it = it.clone();
            let _ = it.nth(k).is_some();
            let _ = it.next().is_some();
            let _ = it.size_hint();
            let _ = it.nth(k).is_some();
            let _ = it.nth(1).is_some();
        })?;
        if !big {
            self.c(op, || it.clone().count())?;
            self.c(op, || it.clone().last().is_some())?;
        }
        self.c(op, || {
            let mut it = it.clone();
            let mut n = 0;
            while n < 40 && it.next().is_some() {
                n += 1;
            }
            if n < 40 {
                let _ = it.next().is_some();
                let _ = it.nth(3).is_some();
                let _ = it.size_hint();
                let _ = it.clone().count();
                let _ = it.last().is_some();
            }
        })?;
        let s = 1 + self.r.idx(5);
        self.c(op, || it.clone().step_by(s).take(20).count())?;
        self.c(op, || it.clone().skip(k).take(2).count())?;
        Ok(())
    }

    fn value<B: SplitByteSlice + Clone>(&mut self, v: &KeyValue<B>) -> Res {
        self.t.values += 1;
        let n = self.c("value.name", || v.name())?;
        if let Some(n) = self.err("value.name", n)? {
            self.name(&n, None)?;
        }
        let size = self.c("data_size", || v.data_size())?;
        let ty = self.c("data_type", || v.data_type())?;
        let _ = self.err("data_type", ty)?.map(|t| format!("{t:?}"));
        let d = self.c("data", || v.data())?;
        let mut total = 0usize;
        if let Some(d) = self.err("data", d)? {
            match &d {
                KeyValueData::Small(s) => {
                    total = s.len();
                    // touch every byte: a sanitizer sees a wild slice
                    self.t.bytes += s.iter().fold(0u64, |a, b| a ^ *b as u64) & 1;
                }
                KeyValueData::Big(it) => {
                    self.iter("data segments", it, false)?;
                    let _ = self.c("data segments", || it.len())?;
                    let mut it = it.clone();
                    let mut n = 0;
                    loop {
                        let x = self.c("data segments", || it.next())?;
                        let Some(x) = x else { break };
                        n += 1;
                        if let Some(s) = self.err("data segments", x)? {
                            total += s.len();
                            self.t.bytes += s.iter().step_by(97).fold(0u64, |a, b| a ^ *b as u64) & 1;
                        }
                        if n > 70_000 || total > self.b.data {
                            break;
                        }
                    }
                }
            }
            #[cfg(feature = "alloc")]
            if total <= self.b.data {
                let x = self.c("into_vec", || d.clone().into_vec().map(|v| v.len()))?;
                self.err("into_vec", x)?;
            }
        }
        self.t.bytes += total as u64;
        let x = self.c("dword_data", || v.dword_data())?;
        self.err("dword_data", x)?;
        let x = self.c("qword_data", || v.qword_data())?;
        self.err("qword_data", x)?;
        #[cfg(feature = "alloc")]
        if total <= self.b.data || size as usize <= self.b.data {
            {
                let x = self.c("string_data", || v.string_data().map(|s| s.len()))?;
                self.err("string_data", x)?;
            }
            let x = self.c("multi_string_data", || v.multi_string_data())?;
            if let Some(it) = self.err("multi_string_data", x)? {
                let mut n = 0;
                let mut it2 = it.clone();
                loop {
                    let x = self.c("multi_string_data.next", || it2.next())?;
                    let Some(x) = x else { break };
                    self.err("multi_string_data.next", x)?;
                    n += 1;
                    if n > 3000 {
                        break;
                    }
                }
                self.iter("multi_string_data", &it, n > 200)?;
            }
        }
        let _ = size;
        self.c("value ==", || v.clone() == *v)?;
        Ok(())
    }

    fn node<'h, B: SplitByteSlice + Clone>(&mut self, k: &KeyNode<'h, B>, out: &mut Vec<KeyNode<'h, B>>) -> Res {
        self.t.nodes += 1;
        self.names(k, out.last())?;
        let c = self.c("class_name", || k.class_name())?;
        if let Some(c) = c {
            if let Some(c) = self.err("class_name", c)? {
                self.name(&c, None)?;
            }
        }
        let s = self.c("subkeys", || k.subkeys())?;
        if let Some(s) = s {
            if let Some(it) = self.err("subkeys", s)? {
                match &it {
                    SubKeyNodes::IndexRoot(i) => self.iter("subkeys", i, false)?,
                    SubKeyNodes::Leaf(l) => {
                        self.iter("subkeys", l, false)?;
                        self.c("subkeys", || l.len())?;
                    }
                }
                self.iter("subkeys", &it, false)?;
                let mut it = it;
                let mut n = 0;
                loop {
                    let x = self.c("subkeys.next", || it.next())?;
                    let Some(x) = x else { break };
                    n += 1;
                    self.items += 1;
                    if let Some(x) = self.err("subkeys.next", x)? {
                        if out.len() < self.b.nodes {
                            out.push(x);
                        } else if n > 40 {
                            break;
                        }
                    }
                    if n > 70_000 || self.items > self.b.items {
                        break;
                    }
                }
            }
        }
        for _ in 0..2 {
            let s = self.pick_name(out)?;
            let x = self.c("subkey", || k.subkey(&s))?;
            if let Some(x) = x {
                self.err("subkey", x)?;
            }
            let x = self.c("subpath", || k.subpath(&s))?;
            if let Some(x) = x {
                self.err("subpath", x)?;
            }
        }
        let p = format!("{}\\{}", self.pick_name(out)?, odd_string(self.r));
        let x = self.c("subpath", || k.subpath(&p))?;
        if let Some(x) = x {
            self.err("subpath", x)?;
        }
        let vs = self.c("values", || k.values())?;
        let mut vname = None;
        if let Some(vs) = vs {
            if let Some(it) = self.err("values", vs)? {
                let big = self.c("values", || it.len())? > 20_000;
                self.iter("values", &it, big)?;
                let mut it = it;
                let mut n = 0;
                loop {
                    let x = self.c("values.next", || it.next())?;
                    let Some(x) = x else { break };
                    n += 1;
                    self.items += 1;
                    if let Some(x) = self.err("values.next", x)? {
                        if n < 60 {
                            self.value(&x)?;
                        }
                        if let Ok(nm) = x.name() {
                            vname = Some(format!("{nm}"));
                        }
                    }
                    if n > 3000 || self.items > self.b.items {
                        break;
                    }
                }
            }
        }
        let s = match vname {
            Some(s) if self.r.chance(2, 3) => s,
            _ => odd_string(self.r),
        };
        let x = self.c("value", || k.value(&s))?;
        if let Some(x) = x {
            self.err("value", x)?;
        }
        let other = out.last().cloned();
        self.c("key ==", || k.clone() == *k && other.as_ref() != Some(k))?;
        Ok(())
    }

    fn pick_name<B: SplitByteSlice>(&mut self, v: &[KeyNode<B>]) -> Res<String> {
        if v.is_empty() || self.r.chance(1, 3) {
            return Ok(odd_string(self.r));
        }
        let i = self.r.idx(v.len());
        let n = self.c("name", || v[i].name().map(|n| format!("{n}")))?;
        Ok(n.unwrap_or_default())
    }

    pub fn hive<B: SplitByteSlice + Clone>(&mut self, hive: &Hive<B>) -> Res {
        self.c("versions", || (hive.major_version(), hive.minor_version()))?;
        let v = self.c("validate", || hive.validate())?;
        self.err("validate", v)?;
        let root = self.c("root_key_node", || hive.root_key_node())?;
        let Some(root) = self.err("root_key_node", root)? else { return Ok(()) };
        let mut all = vec![root];
        let mut i = 0;
        while i < all.len() && i < self.b.nodes && self.items <= self.b.items {
            let k = all[i].clone();
            self.node(&k, &mut all)?;
            i += 1;
        }
        Ok(())
    }

    /// Both ways of opening, then everything reachable.
    pub fn open(&mut self, bytes: &[u8]) -> Res {
        let h = self.c("Hive::new", || Hive::new(bytes))?;
        let _ = self.err("Hive::new", h)?;
        let h = self.c("without_validation", || Hive::without_validation(bytes))?;
        if let Some(h) = self.err("without_validation", h)? {
            self.hive(&h)?;
        }
        Ok(())
    }

    pub fn clear<B: SplitByteSliceMut>(&mut self, bytes: B) -> Res {
        let h = self.c("without_validation", || Hive::without_validation(bytes))?;
        if let Some(mut h) = self.err("without_validation", h)? {
            for _ in 0..2 {
                let r = self.c("clear_volatile_subkeys", || h.clear_volatile_subkeys())?;
                self.err("clear_volatile_subkeys", r)?;
            }
            let k = self.c("root_key_node", || h.root_key_node().map(|_| ()))?;
            self.err("root_key_node", k)?;
        }
        Ok(())
    }
}
