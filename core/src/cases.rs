//! One workload for every platform, build and feature set: case `n` of a seed gives the same bytes
//! and the same queries everywhere, and a transcript of answers that must be the same everywhere.
use crate::build::*;
use crate::model::*;
use crate::mutate;
use crate::oracle::Oracle;
use crate::query::*;
use crate::rng::{digest, mix, Rng};
use nt_hive::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zerocopy::{SplitByteSlice, SplitByteSliceMut};

pub const KINDS: u64 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    /// for interpreters
    Tiny,
    Normal,
}

pub fn kind_of(n: u64) -> &'static str {
    ["intact", "intact", "damaged", "damaged", "soup", "extreme numbers", "header", "segmented data"][(n % KINDS) as usize]
}

pub fn make(seed: u64, n: u64, size: Size) -> (Vec<u8>, String) {
    let mut r = Rng::derive(seed, "cases", n, size as u64);
    let t = match size {
        Size::Tiny => TreeOpts {
            long_classes: false,
            max_keys: 5,
            max_fanout: 4,
            max_values: 3,
            max_data: 40,
            max_name: 8,
            big_chance: (0, 1),
            wild_names: true,
            typed: false,
        },
        Size::Normal => TreeOpts { max_keys: 30, max_fanout: 12, max_values: 4, max_data: 300, big_chance: (1, 60), ..TreeOpts::default() },
    };
    if n % KINDS == 4 {
        let k = r.log_range(4, if size == Size::Tiny { 14 } else { 100 }) as usize;
        return (mutate::soup(&mut r, k), format!("soup of {k} cells"));
    }
    let mut tree = rand_tree(&mut r, &t);
    let mut o = Opts::random(&mut r);
    if n % KINDS == 7 {
        let len = SEG * r.range(1, 2) as usize + r.below(6) as usize - 2;
        let ty = *r.pick(&[1u32, 3, 7]);
        let mut data = if ty == 3 { r.bytes(len) } else { units_bytes(&rand_text_units(&mut r, len / 2)) };
        if ty == 7 {
            for i in 0..data.len() / 400 {
                data[i * 400] = 0;
                data[i * 400 + 1] = 0;
            }
        }
        tree.values.push(Value { name: Name::latin1(b"big"), ty, data });
        tree.normalize();
        o.minor = *r.pick(&[3, 4, 5, 6]);
    }
    let mut b = build(&mut r, &tree, &o);
    let mut d = vec![o.describe()];
    match n % KINDS {
        2 | 3 => mutate::random_damage(&mut r, &mut b, &mut d),
        5 => {
            // numbers around the limits of 32 and 64 bits, and of their multiples
            for _ in 0..r.range(1, 3) {
                let fi = r.idx(b.fields.len());
                let f = b.fields[fi].clone();
                if mutate::is_bytes(f.kind) {
                    continue;
                }
                let w = mutate::field_width(f.kind);
                let v = *r.pick(&[
                    0x3fff_ffffu32,
                    0x4000_0000,
                    0x4000_0001,
                    0x7fff_fffb,
                    0x7fff_ffff,
                    0x8000_0000,
                    0x8000_0001,
                    0x8000_0004,
                    0xbfff_ffff,
                    0xc000_0000,
                    0xffff_effc,
                    0xffff_f000,
                    0xffff_ffe0,
                    0xffff_fff8,
                    0xffff_fffc,
                    0xffff_ffff,
                    0xffff,
                    0x8000,
                    0x0001_0000,
                    0x0100,
                ]);
                let v = if w == 2 { v & 0xffff } else { v };
                set(&mut b.bytes, f.pos, w, v as u64);
                d.push(format!("{:?} at {:#x} := {v:#x}", f.kind, f.pos));
            }
        }
        6 => {
            for _ in 0..r.range(0, 2) {
                let p = *r.pick(&[0usize, 4, 8, 20, 24, 28, 32, 36, 40, 44, 508, 100]);
                let v = *r.pick(&[0u32, 1, 2, 3, 4, 32, 0x1000, 0x0100_0000, 0x0300_0000, 0x8000_0000, 0xffff_f000, 0xffff_ffff]);
                set(&mut b.bytes, p, 4, v as u64);
                d.push(format!("header {p} := {v:#x}"));
            }
            if r.chance(1, 2) {
                fix_checksum(&mut b.bytes);
            }
            if r.chance(1, 6) {
                let k = r.idx(b.bytes.len());
                b.bytes.truncate(k);
                d.push(format!("truncated to {k}"));
            }
        }
        _ => (),
    }
    if n % KINDS == 2 && b.bytes.len() >= BASE {
        fix_checksum(&mut b.bytes);
    }
    (b.bytes, d.join("; "))
}

/// Queries offered by every feature set, then those that return owned data.
pub struct Plan {
    pub core: Vec<Q>,
    pub alloc: Vec<Q>,
}

pub fn plan(seed: u64, n: u64, size: Size, bytes: &[u8]) -> Plan {
    let mut r = Rng::derive(seed, "plan", n, size as u64);
    let mut p = Plan { core: vec![], alloc: vec![] };
    if bytes.len() < BASE {
        return p;
    }
    let max = keys(size);
    let o = Oracle::new(bytes);
    let mut nodes: Vec<_> = o.root().into_iter().collect();
    let mut i = 0;
    while i < nodes.len() && nodes.len() < max {
        if let Some(Ok(s)) = o.subkeys(&nodes[i]) {
            let room = max - nodes.len();
            nodes.extend(s.flat().into_iter().take(room).flatten());
        }
        i += 1;
    }
    for (k, nd) in nodes.iter().enumerate() {
        p.core.extend([Q::Name(k), Q::Class(k), Q::SubWalk(k), Q::ValWalk(k)]);
        p.alloc.push(Q::Text(k));
        if let Some(Ok(v)) = o.values(nd) {
            for i in 0..v.len().min(4) {
                p.core.extend([Q::Meta(k, i), Q::Data(k, i), Q::Int(k, i)]);
                p.alloc.extend([Q::Str(k, i), Q::Multi(k, i), Q::Vec(k, i)]);
            }
        }
    }
    let extra = if size == Size::Tiny { 10 } else { 40 };
    p.core.extend(generate(&mut r, bytes, max, extra, false));
    p
}

pub fn keys(size: Size) -> usize {
    if size == Size::Tiny {
        6
    } else {
        30
    }
}

pub const PANICKED: u64 = 0xdead;

pub fn guarded(f: impl FnOnce() -> u64) -> u64 {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(PANICKED)
}

/// The answers to all queries.
pub fn ask<B: SplitByteSlice>(hive: &Hive<B>, f: &Frame, keys: usize, qs: &[Q], out: &mut Vec<u64>) {
    let ks = catch_unwind(AssertUnwindSafe(|| collect(hive, keys))).unwrap_or_default();
    out.push(ks.len() as u64);
    let ok = usable(ks.len(), qs);
    for q in &ok {
        out.push(guarded(|| answer(hive, &ks, f, q)));
    }
}

/// Opening with and without validation.
pub fn opening(bytes: &[u8]) -> Vec<u64> {
    let one = |r: Result<Hive<&[u8]>>| match r {
        Ok(h) => mix(h.major_version() as u64 ^ (h.minor_version() as u64) << 32),
        Err(e) => error(&e),
    };
    vec![guarded(|| one(Hive::new(bytes))), guarded(|| one(Hive::without_validation(bytes)))]
}

/// clear_volatile_subkeys and what it leaves behind.
pub fn clearing<B: SplitByteSliceMut>(bytes: B) -> u64 {
    guarded(|| match Hive::without_validation(bytes) {
        Err(e) => error(&e),
        Ok(mut h) => match h.clear_volatile_subkeys() {
            Ok(()) => 77,
            Err(e) => mix(78 ^ error(&e)),
        },
    })
}

/// A case with everything needed to run it, so that slow platforms need not generate it.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub n: u64,
    pub what: String,
    pub keys: usize,
    pub bytes: Vec<u8>,
    pub core: Vec<Q>,
    pub alloc: Vec<Q>,
    /// free-standing names
    pub a: (bool, Vec<u8>),
    pub b: (bool, Vec<u8>),
    pub s: String,
}

pub fn case(seed: u64, n: u64, size: Size) -> Case {
    let (bytes, what) = make(seed, n, size);
    let p = plan(seed, n, size, &bytes);
    let mut r = Rng::derive(seed, "names", n, 0);
    let one = |r: &mut Rng| -> (bool, Vec<u8>) {
        let l = r.chance(1, 3);
        let b = if l {
            let n = r.idx(9);
            r.bytes(n)
        } else {
            units_bytes(&rand_units(r, 8, true))
        };
        (l, b)
    };
    let (a, mut b) = (one(&mut r), one(&mut r));
    if r.chance(1, 2) {
        let u = respell(&mut r, &units_of(a.0, &a.1));
        b = (false, units_bytes(&u));
    }
    let s = String::from_utf16_lossy(&units_of(b.0, &b.1));
    Case { n, what, keys: keys(size), bytes, core: p.core, alloc: p.alloc, a, b, s }
}

impl Case {
    /// Comparison and formatting of free-standing names.
    fn names(&self) -> Vec<u64> {
        use std::fmt::Write;
        fn wrap(x: &(bool, Vec<u8>)) -> NtHiveNameString<'_> {
            if x.0 {
                NtHiveNameString::Latin1(&x.1)
            } else {
                NtHiveNameString::Utf16LE(&x.1)
            }
        }
        let (x, y, s) = (wrap(&self.a), wrap(&self.b), self.s.as_str());
        vec![
            guarded(|| x.cmp(&y) as i8 as u64),
            guarded(|| x.partial_cmp(s).map(|o| o as i8 as u64).unwrap_or(9)),
            guarded(|| (x == y) as u64 | ((x == *s) as u64) << 1),
            guarded(|| {
                let mut t = Text { h: 1, n: 0 };
                let _ = write!(t, "{x}|{y:>12}");
                mix(t.h ^ t.n as u64)
            }),
        ]
    }

    /// All answers: those every feature set offers, and the rest.
    pub fn run(&self) -> (Vec<u64>, Vec<u64>) {
        self.run_on(&self.bytes)
    }

    pub fn run_on(&self, bytes: &[u8]) -> (Vec<u64>, Vec<u64>) {
        let mut core = opening(bytes);
        core.extend(self.names());
        let mut alloc = vec![];
        if let Ok(Ok(h)) = catch_unwind(|| Hive::without_validation(bytes)) {
            let f = Frame::new(bytes);
            ask(&h, &f, self.keys, &self.core, &mut core);
            if cfg!(feature = "alloc") {
                ask(&h, &f, self.keys, &self.alloc, &mut alloc);
            }
        }
        let mut m = bytes.to_vec();
        core.push(clearing(&mut m[..]));
        core.push(changes(bytes, &m));
        (core, alloc)
    }

    /// What each number of `run` stands for.
    pub fn labels(&self, core: &[u64]) -> (Vec<String>, Vec<String>) {
        let mut c: Vec<String> =
            ["Hive::new", "without_validation", "name order", "name and string order", "name equality", "name text"]
                .iter()
                .map(|s| s.to_string())
                .collect();
        let mut a = vec![];
        if core.len() > 8 {
            let ks = core[6] as usize;
            c.push("number of keys".into());
            c.extend(usable(ks, &self.core).iter().map(|q| format!("{q:?}")));
            a.push("number of keys".into());
            a.extend(usable(ks, &self.alloc).iter().map(|q| format!("{q:?}")));
        }
        c.push("clear_volatile_subkeys".into());
        c.push("bytes after clear_volatile_subkeys".into());
        (c, a)
    }

    pub fn encode(&self, o: &mut Vec<u8>) {
        let num = |o: &mut Vec<u8>, v: u64| o.extend_from_slice(&v.to_le_bytes());
        let blob = |o: &mut Vec<u8>, v: &[u8]| {
            o.extend_from_slice(&(v.len() as u64).to_le_bytes());
            o.extend_from_slice(v);
        };
        num(o, self.n);
        num(o, self.keys as u64);
        blob(o, self.what.as_bytes());
        blob(o, &self.bytes);
        for qs in [&self.core, &self.alloc] {
            num(o, qs.len() as u64);
            for q in qs {
                let (t, a, b, s) = q.parts();
                o.push(t);
                o.extend_from_slice(&(a as u32).to_le_bytes());
                o.extend_from_slice(&(b as u32).to_le_bytes());
                blob(o, s.as_bytes());
            }
        }
        for x in [&self.a, &self.b] {
            o.push(x.0 as u8);
            blob(o, &x.1);
        }
        blob(o, self.s.as_bytes());
    }

    pub fn decode(i: &mut &[u8]) -> Option<Case> {
        fn take<'a>(i: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if i.len() < n {
                return None;
            }
            let (a, b) = i.split_at(n);
            *i = b;
            Some(a)
        }
        fn num(i: &mut &[u8]) -> Option<u64> {
            take(i, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        }
        fn blob(i: &mut &[u8]) -> Option<Vec<u8>> {
            let n = num(i)? as usize;
            take(i, n).map(|b| b.to_vec())
        }
        fn text(i: &mut &[u8]) -> Option<String> {
            String::from_utf8(blob(i)?).ok()
        }
        let n = num(i)?;
        let keys = num(i)? as usize;
        let what = text(i)?;
        let bytes = blob(i)?;
        let mut qs = vec![];
        for _ in 0..2 {
            let mut v = vec![];
            for _ in 0..num(i)? {
                let t = take(i, 1)?[0];
                let a = u32::from_le_bytes(take(i, 4)?.try_into().unwrap()) as usize;
                let b = u32::from_le_bytes(take(i, 4)?.try_into().unwrap()) as usize;
                v.push(Q::from_parts(t, a, b, text(i)?)?);
            }
            qs.push(v);
        }
        let alloc = qs.pop()?;
        let core = qs.pop()?;
        let a = (take(i, 1)?[0] != 0, blob(i)?);
        let b = (take(i, 1)?[0] != 0, blob(i)?);
        Some(Case { n, what, keys, bytes, core, alloc, a, b, s: text(i)? })
    }
}

/// Where two buffers differ, without looking at every byte one by one.
pub fn changes(a: &[u8], b: &[u8]) -> u64 {
    let mut h = (a.len() == b.len()) as u64;
    for (i, (x, y)) in a.chunks(256).zip(b.chunks(256)).enumerate() {
        if x != y {
            h = mix(h ^ i as u64 ^ digest(y));
        }
    }
    h
}

struct Text {
    h: u64,
    n: usize,
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.n += s.len();
        for b in s.bytes() {
            self.h = mix(self.h ^ b as u64);
        }
        Ok(())
    }
}

pub fn fold(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |h, x| mix(h ^ x))
}
