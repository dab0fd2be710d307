//! Single queries as data: the same query can be asked of many hives, handles, threads and builds,
//! and every answer is a number that depends only on what the caller can observe.
use crate::model::*;
use crate::obs::{err_numbers, kind};
use crate::oracle::*;
use crate::rng::{digest, fnv, mix, Rng};
use nt_hive::NtHiveError as E;
use nt_hive::*;
use std::cmp::Ordering;
use zerocopy::SplitByteSlice;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Q {
    Versions,
    Validate,
    Root,
    Name(usize),
    Class(usize),
    SubWalk(usize),
    SubNth(usize, usize),
    SubCount(usize),
    SubLast(usize),
    Sub(usize, String),
    Path(usize, String),
    ValWalk(usize),
    ValNth(usize, usize),
    ValCount(usize),
    ValLast(usize),
    Val(usize, String),
    Meta(usize, usize),
    Data(usize, usize),
    Segs(usize, usize),
    Int(usize, usize),
    NameCmp(usize, usize),
    NameStr(usize, String),
    Eq(usize, usize),
    Text(usize),
    Str(usize, usize),
    Multi(usize, usize),
    Vec(usize, usize),
}

impl Q {
    /// Returns an owned string or vector.
    pub fn allocates(&self) -> bool {
        matches!(self, Q::Text(_) | Q::Str(..) | Q::Multi(..) | Q::Vec(..))
    }
    pub fn parts(&self) -> (u8, usize, usize, &str) {
        match self {
            Q::Versions => (0, 0, 0, ""),
            Q::Validate => (1, 0, 0, ""),
            Q::Root => (2, 0, 0, ""),
            Q::Name(a) => (3, *a, 0, ""),
            Q::Class(a) => (4, *a, 0, ""),
            Q::SubWalk(a) => (5, *a, 0, ""),
            Q::SubCount(a) => (6, *a, 0, ""),
            Q::SubLast(a) => (7, *a, 0, ""),
            Q::ValWalk(a) => (8, *a, 0, ""),
            Q::ValCount(a) => (9, *a, 0, ""),
            Q::ValLast(a) => (10, *a, 0, ""),
            Q::Text(a) => (11, *a, 0, ""),
            Q::SubNth(a, b) => (12, *a, *b, ""),
            Q::ValNth(a, b) => (13, *a, *b, ""),
            Q::Meta(a, b) => (14, *a, *b, ""),
            Q::Data(a, b) => (15, *a, *b, ""),
            Q::Segs(a, b) => (16, *a, *b, ""),
            Q::Int(a, b) => (17, *a, *b, ""),
            Q::NameCmp(a, b) => (18, *a, *b, ""),
            Q::Eq(a, b) => (19, *a, *b, ""),
            Q::Str(a, b) => (20, *a, *b, ""),
            Q::Multi(a, b) => (21, *a, *b, ""),
            Q::Vec(a, b) => (22, *a, *b, ""),
            Q::Sub(a, s) => (23, *a, 0, s),
            Q::Path(a, s) => (24, *a, 0, s),
            Q::Val(a, s) => (25, *a, 0, s),
            Q::NameStr(a, s) => (26, *a, 0, s),
        }
    }
    pub fn from_parts(t: u8, a: usize, b: usize, s: String) -> Option<Q> {
        Some(match t {
            0 => Q::Versions,
            1 => Q::Validate,
            2 => Q::Root,
            3 => Q::Name(a),
            4 => Q::Class(a),
            5 => Q::SubWalk(a),
            6 => Q::SubCount(a),
            7 => Q::SubLast(a),
            8 => Q::ValWalk(a),
            9 => Q::ValCount(a),
            10 => Q::ValLast(a),
            11 => Q::Text(a),
            12 => Q::SubNth(a, b),
            13 => Q::ValNth(a, b),
            14 => Q::Meta(a, b),
            15 => Q::Data(a, b),
            16 => Q::Segs(a, b),
            17 => Q::Int(a, b),
            18 => Q::NameCmp(a, b),
            19 => Q::Eq(a, b),
            20 => Q::Str(a, b),
            21 => Q::Multi(a, b),
            22 => Q::Vec(a, b),
            23 => Q::Sub(a, s),
            24 => Q::Path(a, s),
            25 => Q::Val(a, s),
            26 => Q::NameStr(a, s),
            _ => return None,
        })
    }
    pub fn op(&self) -> &'static str {
        match self {
            Q::Versions => "versions",
            Q::Validate => "validate",
            Q::Root => "root_key_node",
            Q::Name(_) => "name",
            Q::Class(_) => "class_name",
            Q::SubWalk(_) => "subkeys",
            Q::SubNth(..) => "subkeys.nth",
            Q::SubCount(_) => "subkeys.count",
            Q::SubLast(_) => "subkeys.last",
            Q::Sub(..) => "subkey",
            Q::Path(..) => "subpath",
            Q::ValWalk(_) => "values",
            Q::ValNth(..) => "values.nth",
            Q::ValCount(_) => "values.count",
            Q::ValLast(_) => "values.last",
            Q::Val(..) => "value",
            Q::Meta(..) => "data_type and data_size",
            Q::Data(..) => "data",
            Q::Segs(..) => "data segments",
            Q::Int(..) => "dword_data and qword_data",
            Q::NameCmp(..) => "name comparison",
            Q::NameStr(..) => "name comparison with a string",
            Q::Eq(..) => "key comparison",
            Q::Text(_) => "name to text",
            Q::Str(..) => "string_data",
            Q::Multi(..) => "multi_string_data",
            Q::Vec(..) => "into_vec",
        }
    }
}

/// An error as a number, without building a string (must not allocate on its own).
pub fn error(e: &E) -> u64 {
    let mut h = fnv(kind(e).as_bytes());
    let mut f = |v: u64| h = mix(h ^ v.min(u32::MAX as u64));
    match e {
        E::InvalidChecksum { expected, actual } => {
            f(*expected as u64);
            f(*actual as u64)
        }
        E::InvalidDataSize { offset, expected, actual }
        | E::InvalidHeaderSize { offset, expected, actual }
        | E::InvalidSizeField { offset, expected, actual } => {
            f(*offset as u64);
            f(*expected as u64);
            f(*actual as u64)
        }
        E::InvalidFourByteSignature { offset, actual, .. } => {
            f(*offset as u64);
            f(u32::from_le_bytes(*actual) as u64)
        }
        E::InvalidTwoByteSignature { offset, actual, expected } => {
            f(*offset as u64);
            f(u16::from_le_bytes(*actual) as u64);
            f(fnv(expected) >> 32)
        }
        E::InvalidKeyValueDataType { expected, actual } => {
            f(expected.len() as u64);
            f(*actual as u64)
        }
        E::InvalidSizeFieldAlignment { offset, size, expected_alignment } => {
            f(*offset as u64);
            f(*size as u64);
            f(*expected_alignment as u64)
        }
        E::SequenceNumberMismatch { primary, secondary } => {
            f(*primary as u64);
            f(*secondary as u64)
        }
        E::UnallocatedCell { offset, size } => {
            f(*offset as u64);
            f(*size as u32 as u64)
        }
        E::UnsupportedClusteringFactor { expected, actual }
        | E::UnsupportedFileFormat { expected, actual }
        | E::UnsupportedFileType { expected, actual } => {
            f(*expected as u64);
            f(*actual as u64)
        }
        E::UnsupportedKeyValueDataType { offset, actual } => {
            f(*offset as u64);
            f(*actual as u64)
        }
        E::UnsupportedVersion { major, minor } => {
            f(*major as u64);
            f(*minor as u64)
        }
        e => {
            for n in err_numbers(e) {
                f(n);
            }
        }
    }
    h
}

/// Where in the buffer a slice lies, and what it holds; anything outside is flagged.
pub struct Frame {
    pub base: usize,
    pub len: usize,
}

impl Frame {
    pub fn new(b: &[u8]) -> Self {
        Self { base: b.as_ptr() as usize, len: b.len() }
    }
    pub fn slice(&self, s: &[u8]) -> u64 {
        let at = (s.as_ptr() as usize).wrapping_sub(self.base);
        if at > self.len || at + s.len() > self.len {
            OUTSIDE.with(|o| o.set(o.get() + 1));
        }
        mix(at as u64 ^ digest(s))
    }
    fn name(&self, r: Result<NtHiveNameString, E>) -> u64 {
        match r {
            Ok(NtHiveNameString::Latin1(b)) => mix(1 ^ self.slice(b)),
            Ok(NtHiveNameString::Utf16LE(b)) => mix(2 ^ self.slice(b)),
            Err(e) => error(&e),
        }
    }
    pub fn key<B: SplitByteSlice>(&self, r: Option<Result<KeyNode<B>, E>>) -> u64 {
        match r {
            None => 3,
            Some(Err(e)) => error(&e),
            Some(Ok(k)) => mix(4 ^ self.name(k.name())),
        }
    }
    pub fn val<B: SplitByteSlice>(&self, r: Option<Result<KeyValue<B>, E>>) -> u64 {
        match r {
            None => 5,
            Some(Err(e)) => error(&e),
            Some(Ok(v)) => mix(6 ^ self.name(v.name()) ^ (v.data_size() as u64) << 20),
        }
    }
}

thread_local! {
    static OUTSIDE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Slices seen on this thread that were not borrowed from the input.
pub fn outside() -> u64 {
    OUTSIDE.with(|o| o.replace(0))
}

fn num<T: Into<u64>>(r: Result<T, E>) -> u64 {
    match r {
        Ok(x) => mix(7 ^ x.into()),
        Err(e) => error(&e),
    }
}

/// Up to `max` keys, breadth first, through iterators; the root first.
pub fn collect<'h, B: SplitByteSlice>(hive: &'h Hive<B>, max: usize) -> Vec<KeyNode<'h, B>> {
    let mut v: Vec<KeyNode<'h, B>> = vec![];
    match hive.root_key_node() {
        Ok(r) => v.push(r),
        Err(_) => return v,
    }
    let mut i = 0;
    while i < v.len() && v.len() < max {
        let mut kids = vec![];
        if let Some(Ok(it)) = v[i].subkeys() {
            for k in it.take(max - v.len()).flatten() {
                kids.push(k);
            }
        }
        v.append(&mut kids);
        i += 1;
    }
    v
}

const CAP: usize = 5000;

pub fn answer<B: SplitByteSlice>(hive: &Hive<B>, keys: &[KeyNode<B>], f: &Frame, q: &Q) -> u64 {
    let value = |k: usize, i: usize| -> Option<KeyValue<B>> { keys[k].values()?.ok()?.nth(i)?.ok() };
    match q {
        Q::Versions => mix(hive.major_version() as u64 ^ (hive.minor_version() as u64) << 32),
        Q::Validate => num(hive.validate().map(|_| 1u64)),
        Q::Root => f.key(Some(hive.root_key_node())),
        Q::Name(k) => f.name(keys[*k].name()),
        Q::Class(k) => match keys[*k].class_name() {
            None => 8,
            Some(n) => f.name(n),
        },
        Q::SubWalk(k) => match keys[*k].subkeys() {
            None => 9,
            Some(Err(e)) => error(&e),
            Some(Ok(it)) => it.take(CAP).fold(10, |h, x| mix(h ^ f.key(Some(x)))),
        },
        Q::SubNth(k, i) => match keys[*k].subkeys() {
            Some(Ok(mut it)) => f.key(it.nth(*i)),
            _ => 11,
        },
        Q::SubCount(k) => match keys[*k].subkeys() {
            Some(Ok(it)) => it.count() as u64,
            _ => 12,
        },
        Q::SubLast(k) => match keys[*k].subkeys() {
            Some(Ok(it)) => f.key(it.last()),
            _ => 13,
        },
        Q::Sub(k, s) => f.key(keys[*k].subkey(s)),
        Q::Path(k, s) => f.key(keys[*k].subpath(s)),
        Q::ValWalk(k) => match keys[*k].values() {
            None => 14,
            Some(Err(e)) => error(&e),
            Some(Ok(it)) => it.take(CAP).fold(15, |h, x| mix(h ^ f.val(Some(x)))),
        },
        Q::ValNth(k, i) => match keys[*k].values() {
            Some(Ok(mut it)) => f.val(it.nth(*i)),
            _ => 16,
        },
        Q::ValCount(k) => match keys[*k].values() {
            Some(Ok(it)) => it.len() as u64 ^ it.count() as u64,
            _ => 17,
        },
        Q::ValLast(k) => match keys[*k].values() {
            Some(Ok(it)) => f.val(it.last()),
            _ => 18,
        },
        Q::Val(k, s) => f.val(keys[*k].value(s)),
        Q::Meta(k, i) => match value(*k, *i) {
            None => 19,
            Some(v) => mix(v.data_size() as u64 ^ num(v.data_type().map(|t| t as u32))),
        },
        Q::Data(k, i) | Q::Segs(k, i) => match value(*k, *i) {
            None => 20,
            Some(v) => match v.data() {
                Err(e) => error(&e),
                Ok(KeyValueData::Small(s)) => mix(21 ^ f.slice(s)),
                Ok(KeyValueData::Big(it)) => it.take(CAP).fold(22, |h, s| {
                    mix(h
                        ^ match s {
                            Ok(s) => f.slice(s),
                            Err(e) => error(&e),
                        })
                }),
            },
        },
        Q::Int(k, i) => match value(*k, *i) {
            None => 23,
            Some(v) => mix(num(v.dword_data()) ^ num(v.qword_data()).rotate_left(9)),
        },
        Q::NameCmp(a, b) => match (keys[*a].name(), keys[*b].name()) {
            (Ok(a), Ok(b)) => mix(ord(a.cmp(&b)) ^ (a == b) as u64),
            _ => 24,
        },
        Q::NameStr(a, s) => match keys[*a].name() {
            Ok(a) => {
                let s = s.as_str();
                mix(a.partial_cmp(s).map(ord).unwrap_or(9) ^ ((a == *s) as u64) << 4 ^ ((*s == a) as u64) << 5)
            }
            _ => 25,
        },
        Q::Eq(a, b) => (keys[*a] == keys[*b]) as u64,
        #[cfg(feature = "alloc")]
        Q::Text(k) => match keys[*k].name() {
            Ok(n) => mix(
                digest(n.to_string_lossy().as_bytes())
                    ^ digest(n.to_string_checked().unwrap_or_default().as_bytes()).rotate_left(3)
                    ^ digest(format!("{n}").as_bytes()).rotate_left(7),
            ),
            Err(e) => error(&e),
        },
        #[cfg(feature = "alloc")]
        Q::Str(k, i) => match value(*k, *i) {
            None => 26,
            Some(v) => {
                let r = match v.string_data() {
                    Ok(s) => mix(27 ^ digest(s.as_bytes())),
                    Err(e) => error(&e),
                };
                r
            }
        },
        #[cfg(feature = "alloc")]
        Q::Multi(k, i) => match value(*k, *i) {
            None => 28,
            Some(v) => match v.multi_string_data() {
                Ok(it) => it.take(CAP).fold(29, |h, s| {
                    mix(h
                        ^ match s {
                            Ok(s) => digest(s.as_bytes()),
                            Err(e) => error(&e),
                        })
                }),
                Err(e) => error(&e),
            },
        },
        #[cfg(feature = "alloc")]
        Q::Vec(k, i) => match value(*k, *i) {
            None => 30,
            Some(v) if v.data_size() > 1 << 22 => 31,
            Some(v) => match v.data().and_then(|d| d.into_vec()) {
                Ok(s) => mix(32 ^ digest(&s)),
                Err(e) => error(&e),
            },
        },
        #[cfg(not(feature = "alloc"))]
        _ => 0,
    }
}

fn ord(o: Ordering) -> u64 {
    match o {
        Ordering::Less => 1,
        Ordering::Equal => 2,
        Ordering::Greater => 3,
    }
}

/// Queries about a hive, generated with the reference reader only.
pub fn generate(r: &mut Rng, bytes: &[u8], max_keys: usize, n: usize, alloc: bool) -> Vec<Q> {
    let o = Oracle::new(bytes);
    // the keys in the order `collect` finds them
    let mut keys: Vec<Node> = o.root().into_iter().collect();
    let mut i = 0;
    while i < keys.len() && keys.len() < max_keys {
        if let Some(Ok(s)) = o.subkeys(&keys[i]) {
            let flat = s.flat();
            let room = max_keys - keys.len();
            keys.extend(flat.into_iter().take(room).flatten());
        }
        i += 1;
    }
    let mut v = vec![Q::Versions, Q::Validate, Q::Root];
    if keys.is_empty() {
        return v;
    }
    let spell = |r: &mut Rng, n: Result<NameR, E>| -> Option<String> {
        let u = o.units(&n.ok()?);
        crate::fold::decode(&respell(r, &u), false)
    };
    while v.len() < n {
        let k = r.idx(keys.len());
        let subs: Vec<R<Node>> = match o.subkeys(&keys[k]) {
            Some(Ok(s)) => s.flat(),
            _ => vec![],
        };
        let vals: Vec<R<Val>> = match o.values(&keys[k]) {
            Some(Ok(s)) => s,
            _ => vec![],
        };
        let sub_name = |r: &mut Rng| -> String {
            let s = if subs.is_empty() || r.chance(1, 5) {
                None
            } else {
                let i = r.idx(subs.len());
                subs[i].clone().ok().and_then(|n| spell(r, o.node_name(&n)))
            };
            s.unwrap_or_else(|| String::from_utf16_lossy(&rand_units(r, 6, false)))
        };
        let vi = if vals.is_empty() { 0 } else { r.idx(vals.len()) };
        let pick = r.below(if alloc { 26 } else { 22 });
        v.push(match pick {
            0 => Q::Name(k),
            1 => Q::Class(k),
            2 => Q::SubWalk(k),
            3 => Q::SubNth(k, r.idx(subs.len() + 2)),
            4 => Q::SubCount(k),
            5 => Q::SubLast(k),
            6..=8 => Q::Sub(k, sub_name(r)),
            9 => {
                let mut p = sub_name(r);
                if r.chance(1, 2) {
                    p = format!("\\{p}\\{}", sub_name(r));
                }
                Q::Path(k, p)
            }
            10 => Q::ValWalk(k),
            11 => Q::ValNth(k, r.idx(vals.len() + 2)),
            12 => Q::ValCount(k),
            13 => Q::ValLast(k),
            14 | 15 => {
                let s = vals.get(vi).and_then(|x| x.clone().ok()).and_then(|x| spell(r, o.val_name(&x)));
                Q::Val(k, s.unwrap_or_default())
            }
            16 => Q::Meta(k, vi),
            17 => Q::Data(k, vi),
            18 => Q::Int(k, vi),
            19 => Q::NameCmp(k, r.idx(keys.len())),
            20 => Q::NameStr(k, sub_name(r)),
            21 => Q::Eq(k, r.idx(keys.len())),
            22 => Q::Text(k),
            23 => Q::Str(k, vi),
            24 => Q::Multi(k, vi),
            _ => Q::Vec(k, vi),
        });
    }
    v
}

/// The queries whose keys exist.
pub fn usable(keys: usize, qs: &[Q]) -> Vec<Q> {
    let ok = |k: &usize| *k < keys;
    qs.iter()
        .filter(|q| match q {
            Q::Versions | Q::Validate | Q::Root => true,
            Q::Name(k) | Q::Class(k) | Q::SubWalk(k) | Q::SubCount(k) | Q::SubLast(k) | Q::Sub(k, _) | Q::Path(k, _) => ok(k),
            Q::ValWalk(k) | Q::ValCount(k) | Q::ValLast(k) | Q::Val(k, _) | Q::NameStr(k, _) | Q::Text(k) => ok(k),
            Q::SubNth(k, _) | Q::ValNth(k, _) | Q::Meta(k, _) | Q::Data(k, _) | Q::Segs(k, _) | Q::Int(k, _) => ok(k),
            Q::Str(k, _) | Q::Multi(k, _) | Q::Vec(k, _) => ok(k),
            Q::NameCmp(a, b) | Q::Eq(a, b) => ok(a) && ok(b),
        })
        .cloned()
        .collect()
}

