//! Every list length, name length and data size, by changing one field of a hive that is built once.
use super::util::*;
use crate::cx::*;
use hivecore::obs::*;
use hivecore::build::{BASE, NIL};
use hivecore::rng::mix;
use nt_hive::*;

pub const SEG: usize = 16344;

/// Sizes worth trying out of lo..=hi: powers of two, round numbers, numbers of the dictionary, neighbours of these.
fn sizes(lo: u64, hi: u64) -> Vec<u64> {
    let mut v = vec![lo, hi];
    let mut near = |n: u64| v.extend([n.wrapping_sub(1), n, n.wrapping_add(1)]);
    (0..40).for_each(|i| near(1 << i));
    for e in 0..8 {
        (1..20).for_each(|k| near(k * 10u64.pow(e)));
        near(5 << e);
    }
    // about a hundred: a table in the program may have many more
    let ints: Vec<u64> = hivecore::dict::get().ints.iter().copied().filter(|n| (lo..=hi).contains(n)).collect();
    ints.iter().filter(|n| mix(**n) % (ints.len() as u64) < 100).for_each(|n| near(*n));
    v.retain(|n| (lo..=hi).contains(n));
    v
}

/// The part of this case, when `of` cases share the work.
fn share(v: Vec<u64>, case: u64, of: u64) -> Vec<u64> {
    v.into_iter().filter(|n| mix(*n) % of == case % of).collect()
}

/// The first `of` cases: all of lo..=dense and some up to `hi`; further ones: the rest up to `hi`.
fn stage(cx: &mut Cx, lo: u64, dense: u64, hi: u64, case: u64, of: u64) -> Vec<u64> {
    if case >= of {
        return share((dense + 1..=hi).collect(), case - of, 4 * of);
    }
    let mut v: Vec<u64> = (lo..=dense).collect();
    v.extend(sizes(dense + 1, hi));
    v = share(v, case, of);
    v.extend([0; 2].map(|_| cx.rng.range(lo, hi)));
    v.sort();
    v.dedup();
    v
}

pub const KINDS: u64 = 6;
const WHAT: [&str; 6] = ["lf", "lh", "li", "ri over single keys", "ri over mixed leaves", "values"];

/// A hive whose root has a list that can be given any number of entries.
pub struct Sweep {
    pub bytes: Vec<u8>,
    pub kind: u64,
    /// most entries of the list
    pub max: usize,
    count_at: usize,
    /// subkeys before each entry of the list
    pub before: Vec<usize>,
    /// where each record's name is
    pub names: Vec<usize>,
}

pub fn name(i: usize) -> String {
    format!("{i:05x}")
}

impl Sweep {
    pub fn new(cx: &mut Cx, kind: u64) -> Self {
        Self::up_to(cx, kind, if kind == 5 { 70_000 } else { 65_535 })
    }
    pub fn up_to(cx: &mut Cx, kind: u64, max: usize) -> Self {
        let mut w = Raw::new();
        let mut before = vec![0];
        let (mut names, mut nodes) = (vec![], vec![]);
        let n = if kind == 4 { 3 * max / 2 + 2 } else { max };
        for i in 0..n {
            let t = name(i);
            if kind == 5 {
                nodes.push(w.value(t.as_bytes(), 4, 0x8000_0004, i as u32));
                names.push(BASE + nodes[i] as usize + 4 + 20);
            } else {
                nodes.push(w.node(t.as_bytes(), NIL, (0, NIL)));
                w.put32(nodes[i], 24, cx.rng.next() as u32 | 1);
                names.push(BASE + nodes[i] as usize + 4 + 76);
            }
        }
        let list = match kind {
            0 => w.list(b"lf", &nodes),
            1 => w.list(b"lh", &nodes),
            2 => w.list(b"li", &nodes),
            3 | 4 => {
                let mut leaves = vec![];
                let mut at = 0;
                for i in 0..max {
                    let k = if kind == 3 { 1 } else { 1 + i % 2 };
                    leaves.push(w.list([b"li", b"lf", b"lh"][i % 3], &nodes[at..at + k]));
                    at += k;
                    before.push(at);
                }
                w.list(b"ri", &leaves)
            }
            _ => w.offsets(&nodes),
        };
        if before.len() == 1 {
            before = (0..=max).collect();
        }
        let root = if kind == 5 { w.node(b"root", NIL, (0, list)) } else { w.node(b"root", list, (0, NIL)) };
        let count_at = if kind == 5 { BASE + root as usize + 4 + 36 } else { BASE + list as usize + 4 + 2 };
        let minor = *cx.rng.pick(&[3, 5, 6]);
        let bytes = w.finish(&mut cx.rng, minor, root);
        cx.set_hive(&bytes[..4096.min(bytes.len())], WHAT[kind as usize]);
        Self { bytes, kind, max, count_at, before, names }
    }
    pub fn set(&mut self, n: usize) {
        if self.kind == 5 {
            self.bytes[self.count_at..self.count_at + 4].copy_from_slice(&(n as u32).to_le_bytes());
        } else {
            self.bytes[self.count_at..self.count_at + 2].copy_from_slice(&(n as u16).to_le_bytes());
        }
    }
    pub fn items(&self, n: usize) -> usize {
        self.before[n]
    }
    fn ctx(&self, n: usize) -> String {
        format!("{} of {n} entries", WHAT[self.kind as usize])
    }
}

fn name_at(bytes: &[u8], n: &NtHiveNameString) -> usize {
    at(bytes, parts(n).1)
}

/// C03: each list length is walked.
pub fn enumerated(cx: &mut Cx, case: u64) -> Res {
    let mut s = Sweep::new(cx, case % KINDS);
    let max = s.max as u64;
    for n in stage(cx, 1, 6000, max, case / KINDS, 4) {
        let n = n as usize;
        s.set(n);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let items = s.items(n);
        let mut i = 0;
        let mut each = |op: &str, r: Result<usize, NtHiveError>| -> Res {
            match r {
                Ok(p) if i < items && p == s.names[i] => (),
                r => return diff(op, format!("item {i} of {items} is {r:x?} ({})", s.ctx(n))),
            }
            i += 1;
            Ok(())
        };
        if s.kind == 5 {
            let it = nav_some("values", || root.values())?;
            call("KeyValues::next", || it.take(items + 2).try_for_each(|v| each("KeyValues::next", v.and_then(|v| Ok(name_at(&s.bytes, &v.name()?))))))??;
        } else {
            let it = nav_some("subkeys", || root.subkeys())?;
            call("SubKeyNodes::next", || it.take(items + 2).try_for_each(|k| each("SubKeyNodes::next", k.and_then(|k| Ok(name_at(&s.bytes, &k.name()?))))))??;
        }
        if i != items {
            return diff("next", format!("{i} items instead of {items} ({})", s.ctx(n)));
        }
        cx.eval(1);
        cx.ev("lengths walked", 1);
        cx.fp(mix(s.kind << 32 ^ n as u64));
    }
    Ok(())
}

/// C14: counts, hints and jumps for every list length.
pub fn counted(cx: &mut Cx, case: u64) -> Res {
    let mut s = Sweep::new(cx, case % KINDS);
    let walks = s.kind == 3 || s.kind == 4;
    let v = if walks {
        stage(cx, 1, 1200, s.max as u64, case / KINDS, 4)
    } else {
        share((1..=s.max as u64).collect(), case / KINDS, 4)
    };
    for n in v {
        let n = n as usize;
        s.set(n);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let items = s.items(n);
        let j = cx.rng.idx(items);
        macro_rules! go {
            ($it:expr, $w:expr) => {{
                let it = $it;
                let ctx = format!("{} of {n} entries, {items} items", WHAT[s.kind as usize]);
                macro_rules! at_of {
                    ($x:expr) => {
                        $x.and_then(|r| r.ok()).and_then(|r| r.name().ok().map(|n| name_at(&s.bytes, &n)))
                    };
                }
                let (lo, hi) = call(concat!($w, "::size_hint"), || it.size_hint())?;
                if lo > items || hi.is_some_and(|h| h < items) || !walks && (lo, hi) != (items, Some(items)) {
                    return diff(concat!($w, "::size_hint"), format!("({lo}, {hi:?}) ({ctx})"));
                }
                let c = it.clone();
                let c = call(concat!($w, "::count"), || c.count())?;
                if c != items {
                    return diff(concat!($w, "::count"), format!("{c} ({ctx})"));
                }
                let c = it.clone();
                let l = at_of!(call(concat!($w, "::last"), || c.last())?);
                if l != Some(s.names[items - 1]) {
                    return diff(concat!($w, "::last"), format!("{l:x?} ({ctx})"));
                }
                let mut c = it.clone();
                let l = at_of!(call(concat!($w, "::nth"), || c.nth(j))?);
                if l != Some(s.names[j]) {
                    return diff(concat!($w, "::nth"), format!("nth({j}) {l:x?} ({ctx})"));
                }
                if items - j < 2000 || !walks {
                    let l = at_of!(call(concat!($w, "::nth"), || c.nth(items - 1 - j))?);
                    if l.is_some() {
                        return diff(concat!($w, "::nth"), format!("nth({}) after nth({j}) gives {l:x?} ({ctx})", items - 1 - j));
                    }
                }
            }};
        }
        match s.kind {
            5 => go!(nav_some("values", || root.values())?, "KeyValues"),
            _ => go!(nav_some("subkeys", || root.subkeys())?, "SubKeyNodes"),
        }
        cx.eval(1);
        cx.ev("lengths counted", 1);
        cx.fp(mix(s.kind << 32 ^ n as u64));
    }
    Ok(())
}

/// C04: lookups in lists of every length.
pub fn looked_up(cx: &mut Cx, case: u64) -> Res {
    let mut s = Sweep::new(cx, case % 5);
    for n in share((1..=s.max as u64).collect(), case / 5, 4) {
        let n = n as usize;
        s.set(n);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let items = s.items(n);
        for i in [0, items - 1, items, cx.rng.idx(items), items / 2] {
            let t = name(i);
            let t = if i % 2 == 1 { t.to_uppercase() } else { t };
            let r = call("KeyNode::subkey", || root.subkey(&t).map(|r| r.and_then(|k| Ok(name_at(&s.bytes, &k.name()?)))))?;
            let ok = match &r {
                None => i >= items,
                Some(Ok(p)) => i < items && *p == s.names[i],
                Some(Err(_)) => false,
            };
            if !ok {
                return diff("KeyNode::subkey", format!("{t:?}, item {i} of {items}, gives {r:x?} ({})", s.ctx(n)));
            }
        }
        cx.eval(5);
        cx.ev("lengths searched", 1);
        cx.fp(mix(s.kind << 32 ^ n as u64));
    }
    Ok(())
}

/// C06: value lookups in lists of many lengths.
pub fn values_found(cx: &mut Cx, case: u64) -> Res {
    let mut s = Sweep::new(cx, 5);
    for n in stage(cx, 1, 6000, s.max as u64, case, 8) {
        let n = n as usize;
        s.set(n);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        for i in [0, n - 1, n, cx.rng.idx(n)] {
            let t = name(i).to_uppercase();
            let r = call("KeyNode::value", || root.value(&t).map(|r| r.and_then(|k| Ok(name_at(&s.bytes, &k.name()?)))))?;
            let ok = match &r {
                None => i >= n,
                Some(Ok(p)) => i < n && *p == s.names[i],
                Some(Err(_)) => false,
            };
            if !ok {
                return diff("KeyNode::value", format!("{t:?}, item {i}, gives {r:x?} ({})", s.ctx(n)));
            }
        }
        cx.eval(4);
        cx.ev("lengths searched", 1);
        cx.fp(mix(n as u64));
    }
    Ok(())
}

/// C13: clearing with lists of many lengths.
pub fn cleared(cx: &mut Cx, case: u64) -> Res {
    const DENSE: u64 = 4100;
    let mut s = Sweep::up_to(cx, case % 5, DENSE as usize);
    // in place of one as large as needed for these
    let mut big = false;
    for n in stage(cx, 1, DENSE, 65_535, case / 5, 4) {
        if n > DENSE && !big {
            s = Sweep::new(cx, case % 5);
            big = true;
        }
        let n = n as usize;
        s.set(n);
        let items = s.items(n);
        let mut copy = s.bytes.clone();
        {
            let mut hive = nav_ok("without_validation", || Hive::without_validation(&mut copy[..]))?;
            call_ok("clear_volatile_subkeys", || hive.clear_volatile_subkeys())?;
        }
        // the names are 52 bytes behind the counts
        for p in &s.names[..items] {
            if copy[p - 52..p - 48] != [0; 4] {
                return diff("clear_volatile_subkeys", format!("the count at {:#x} is not cleared ({})", p - 52, s.ctx(n)));
            }
            copy[p - 52..p - 48].copy_from_slice(&s.bytes[p - 52..p - 48]);
        }
        if copy != s.bytes {
            let i = (0..copy.len()).find(|i| copy[*i] != s.bytes[*i]).unwrap();
            return diff("clear_volatile_subkeys", format!("the byte at {i:#x} is changed ({})", s.ctx(n)));
        }
        cx.eval(1);
        cx.ev("lengths cleared", 1);
        cx.fp(mix(s.kind << 32 ^ n as u64));
    }
    Ok(())
}

/// A hive with a subkey of a long name and class name, and a value of a long name, whose lengths can be set.
struct Names {
    bytes: Vec<u8>,
    /// record offsets in the file: root, key, value
    key: usize,
    value: usize,
    class: usize,
}

impl Names {
    fn new(cx: &mut Cx, room: usize) -> Self {
        let mut w = Raw::new();
        let text: Vec<u8> = vec![b'a'; room];
        let class = w.cell(&text);
        let k = w.node(&text, NIL, (0, NIL));
        w.put32(k, 48, class);
        let form = *cx.rng.pick(&[b"li", b"lf", b"lh"]);
        let l = w.list(form, &[k]);
        let v = w.value(&text, 4, 0x8000_0004, 7);
        let vl = w.offsets(&[v]);
        let root = w.node(b"root", l, (1, vl));
        let bytes = w.finish(&mut cx.rng, 5, root);
        cx.set_hive(&bytes[..4096], "long names");
        let f = |o: u32| BASE + o as usize + 4;
        Self { key: f(k), value: f(v), class: f(class), bytes }
    }
    fn set(&mut self, n: usize, latin1: bool) {
        let b = (n as u16).to_le_bytes();
        self.bytes[self.key + 72..self.key + 74].copy_from_slice(&b);
        self.bytes[self.key + 74..self.key + 76].copy_from_slice(&b);
        self.bytes[self.value + 2..self.value + 4].copy_from_slice(&b);
        self.bytes[self.key + 2] = if latin1 { 0x20 } else { 0 };
        self.bytes[self.value + 16] = latin1 as u8;
    }
}

fn given(bytes: &[u8], r: Result<NtHiveNameString, NtHiveError>) -> Result<(bool, usize, usize), NtHiveError> {
    r.map(|n| {
        let (l, b) = parts(&n);
        (l, at(bytes, b), b.len())
    })
}

/// C03: names and class names of every length.
pub fn name_lengths(cx: &mut Cx, case: u64) -> Res {
    let mut s = Names::new(cx, 65_535);
    for n in share((0..=65_535).collect(), case, 8) {
        let n = n as usize;
        for latin1 in [true, false] {
            if !latin1 && n % 2 == 1 {
                continue;
            }
            s.set(n, latin1);
            let hive = open(&s.bytes)?;
            let root = nav_ok("root_key_node", || hive.root_key_node())?;
            let k = nav_some("subkeys.next", || root.subkeys().unwrap().unwrap().next())?;
            let v = nav_some("values.next", || root.values().unwrap().unwrap().next())?;
            let is = |op: &str, got, want| -> Res {
                match got {
                    Ok(g) if g == want => Ok(()),
                    g => diff(op, format!("{g:x?} instead of {want:x?} (latin1, offset, length)")),
                }
            };
            is("KeyNode::name", given(&s.bytes, call("KeyNode::name", || k.name())?), (latin1, s.key + 76, n))?;
            is("KeyValue::name", given(&s.bytes, call("KeyValue::name", || v.name())?), (latin1, s.value + 20, n))?;
            if n % 2 == 0 {
                match call("KeyNode::class_name", || k.class_name())? {
                    Some(r) => is("KeyNode::class_name", given(&s.bytes, r), (false, s.class, n))?,
                    None => return diff("KeyNode::class_name", format!("None for a class name of {n} bytes")),
                }
            }
            cx.eval(3);
        }
        cx.ev("name lengths", 1);
        cx.fp(mix(n as u64));
    }
    Ok(())
}

/// C15, C16: names of every length in records of a certain size.
pub fn name_limits(cx: &mut Cx, case: u64, exact: bool) -> Res {
    let room = match case / 4 % 4 {
        0 => cx.rng.range(0, 40) as usize,
        1 => cx.rng.range(200, 700) as usize,
        _ => cx.rng.range(0, 65_535) as usize,
    };
    let mut s = Names::new(cx, room);
    let cell = |used: usize| (used + 4).div_ceil(8) * 8 - 4;
    let (key_room, value_room, class_room) = (cell(76 + room) - 76, cell(20 + room) - 20, cell(room));
    for n in share((0..=65_535).collect(), case, 4) {
        let n = n as usize;
        let latin1 = n % 3 > 0;
        s.set(n, latin1);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let k = nav_some("subkeys.next", || root.subkeys().unwrap().unwrap().next())?;
        let v = nav_some("values.next", || root.values().unwrap().unwrap().next())?;
        let is = |op: &str, got: Result<(bool, usize, usize), NtHiveError>, at: usize, room: usize, field: usize| -> Res {
            match (&got, n <= room) {
                (Ok(g), true) if (g.1, g.2) == (at, n) => Ok(()),
                (Err(NtHiveError::InvalidSizeField { offset, expected, actual }), false) if !exact || (*offset, *expected, *actual) == (field, n, room) => Ok(()),
                (Err(_), false) if !exact => Ok(()),
                _ => diff(op, format!("{got:x?} for {n} bytes, with room for {room}, at {at:#x}, stored at {field:#x}")),
            }
        };
        is("KeyNode::name", given(&s.bytes, call("KeyNode::name", || k.name())?), s.key + 76, key_room, s.key + 72)?;
        is("KeyValue::name", given(&s.bytes, call("KeyValue::name", || v.name())?), s.value + 20, value_room, s.value + 2)?;
        match call("KeyNode::class_name", || k.class_name())? {
            Some(r) => is("KeyNode::class_name", given(&s.bytes, r), s.class, class_room, s.key + 74)?,
            None => return diff("KeyNode::class_name", format!("None for a class name of {n} bytes")),
        }
        cx.eval(3);
        cx.fp(mix(n as u64 ^ (room as u64) << 20));
    }
    cx.ev("rooms for names", 1);
    Ok(())
}

pub fn name_limits_15(cx: &mut Cx, case: u64) -> Res {
    name_limits(cx, case, false)
}
pub fn name_limits_16(cx: &mut Cx, case: u64) -> Res {
    name_limits(cx, case, true)
}

/// C15, C16: every count in lists of a certain size.
fn count_limits(cx: &mut Cx, case: u64, exact: bool) -> Res {
    let room = match case / 5 % 3 {
        0 => cx.rng.range(1, 40) as usize,
        1 => cx.rng.range(200, 3000) as usize,
        _ => cx.rng.range(1, 65_535) as usize,
    };
    let mut w = Raw::new();
    let kind = case % 5;
    let k = w.node(b"k", NIL, (0, NIL));
    let leaf = w.list(b"li", &[k]);
    let v = w.value(b"v", 4, 0x8000_0004, 1);
    let (list, size) = match kind {
        0 => (w.list(b"lf", &vec![k; room]), 8),
        1 => (w.list(b"lh", &vec![k; room]), 8),
        2 => (w.list(b"li", &vec![k; room]), 4),
        3 => (w.list(b"ri", &vec![leaf; room]), 4),
        _ => (w.offsets(&vec![v; room]), 4),
    };
    let head = if kind == 4 { 0 } else { 4 };
    let bytes_of_room = (head + room * size + 4).div_ceil(8) * 8 - 4 - head;
    let root = if kind == 4 { w.node(b"root", NIL, (0, list)) } else { w.node(b"root", list, (0, NIL)) };
    let count_at = if kind == 4 { BASE + root as usize + 4 + 36 } else { BASE + list as usize + 4 + 2 };
    let mut bytes = w.finish(&mut cx.rng, 5, root);
    cx.set_hive(&bytes, format!("{} with {bytes_of_room} bytes for entries", ["lf", "lh", "li", "ri", "values"][kind as usize]));
    for n in 1..=65_535usize {
        if kind == 4 {
            bytes[count_at..count_at + 4].copy_from_slice(&(n as u32).to_le_bytes());
        } else {
            bytes[count_at..count_at + 2].copy_from_slice(&(n as u16).to_le_bytes());
        }
        let hive = open(&bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let (op, got) = if kind == 4 {
            ("KeyNode::values", call("KeyNode::values", || root.values().map(|r| r.map(|_| ())))?)
        } else {
            ("KeyNode::subkeys", call("KeyNode::subkeys", || root.subkeys().map(|r| r.map(|_| ())))?)
        };
        let fits = n * size <= bytes_of_room;
        match (&got, fits) {
            (Some(Ok(())), true) => (),
            (Some(Err(NtHiveError::InvalidSizeField { offset, expected, actual })), false) if (*offset, *expected, *actual) == (count_at, n * size, bytes_of_room) => (),
            (Some(Err(_)), false) if !exact => (),
            _ => return diff(op, format!("{got:x?} for {n} entries, with {bytes_of_room} bytes of room, count at {count_at:#x}")),
        }
    }
    cx.eval(65_535);
    cx.ev("rooms for lists", 1);
    cx.fp(mix(kind ^ (room as u64) << 20));
    Ok(())
}

pub fn count_limits_15(cx: &mut Cx, case: u64) -> Res {
    count_limits(cx, case, false)
}
pub fn count_limits_16(cx: &mut Cx, case: u64) -> Res {
    count_limits(cx, case, true)
}

/// C04, C06: looking up names of many lengths.
fn name_lookups(cx: &mut Cx, case: u64, values: bool) -> Res {
    let mut s = Names::new(cx, 65_535);
    let text = "A".repeat(65_537);
    for n in stage(cx, 0, 20_000, 65_535, case, 32) {
        let n = n as usize;
        for latin1 in [true, false] {
            s.set(n, latin1);
            if !latin1 {
                // U+6161
                if n % 2 == 1 {
                    continue;
                }
            }
            let other;
            let t = if latin1 { &text[..n] } else {
                other = "\u{6161}".repeat(n / 2);
                &other[..]
            };
            let longer = format!("{t}a");
            let cut: String = t.chars().skip(1).collect();
            let hive = open(&s.bytes)?;
            let root = nav_ok("root_key_node", || hive.root_key_node())?;
            for (t, found) in [(t, true), (&longer[..], false), (&cut[..], n == 0)] {
                let (op, got) = if values {
                    ("KeyNode::value", call("KeyNode::value", || root.value(t).map(|r| r.is_ok()))?)
                } else {
                    ("KeyNode::subkey", call("KeyNode::subkey", || root.subkey(t).map(|r| r.is_ok()))?)
                };
                if got != found.then_some(true) {
                    return diff(op, format!("a name of {} characters against one of {n} bytes, latin1 {latin1}: {got:?}", t.chars().count()));
                }
            }
            cx.eval(3);
        }
        cx.ev("name lengths looked up", 1);
        cx.fp(mix(n as u64));
    }
    Ok(())
}

pub fn name_lookups_04(cx: &mut Cx, case: u64) -> Res {
    name_lookups(cx, case, false)
}
pub fn name_lookups_06(cx: &mut Cx, case: u64) -> Res {
    name_lookups(cx, case, true)
}

/// C01: the calls on lists of every length, only for what they do.
pub fn survives(cx: &mut Cx, case: u64) -> Res {
    let mut s = Sweep::new(cx, case % KINDS);
    for n in share((0..=s.max as u64).collect(), case / KINDS, 4) {
        let n = n as usize;
        s.set(n);
        let hive = call_ok("without_validation", || Hive::without_validation(&s.bytes[..]))?;
        let root = call_ok("root_key_node", || hive.root_key_node())?;
        let t = name(cx.rng.idx(s.max));
        if s.kind == 5 {
            if let Some(Ok(it)) = call("KeyNode::values", || root.values())? {
                call("KeyValues::last", || it.clone().last().is_some())?;
                call("KeyValues::count", || it.count())?;
            }
            if n < 500 {
                call("KeyNode::value", || root.value(&t).is_some())?;
            }
        } else {
            if let Some(Ok(it)) = call("KeyNode::subkeys", || root.subkeys())? {
                if s.kind < 3 {
                    call("SubKeyNodes::last", || it.clone().last().is_some())?;
                    call("SubKeyNodes::count", || it.clone().count())?;
                }
                call("SubKeyNodes::nth", || it.clone().nth(n / 2 % 50).is_some())?;
            }
            call("KeyNode::subkey", || root.subkey(&t).is_some())?;
        }
        cx.eval(1);
        cx.fp(mix(s.kind << 32 ^ n as u64));
    }
    cx.ev("every list length", 1);
    Ok(())
}

/// A hive with one value in every form, whose size can be set.
struct Sized {
    bytes: Vec<u8>,
    value: usize,
    /// segments, or the only cell
    pieces: Vec<usize>,
}

impl Sized {
    fn new(cx: &mut Cx, big: bool, room: usize, ty: u32, minor: u32, data: &dyn Fn(usize) -> u8) -> Self {
        let mut w = Raw::new();
        let all: Vec<u8> = (0..room).map(data).collect();
        let (off, pieces) = if big {
            let segs: Vec<u32> = all.chunks(SEG).map(|c| w.cell(c)).collect();
            let l = w.offsets(&segs);
            let mut p = b"db".to_vec();
            p.extend_from_slice(&(segs.len() as u16).to_le_bytes());
            p.extend_from_slice(&l.to_le_bytes());
            p.extend_from_slice(&[0; 4]);
            (w.cell(&p), segs)
        } else {
            let c = w.cell(&all);
            (c, vec![c])
        };
        let v = w.value(b"v", ty, 0, off);
        let vl = w.offsets(&[v]);
        let root = w.node(b"root", NIL, (1, vl));
        let bytes = w.finish(&mut cx.rng, minor, root);
        cx.set_hive(&bytes[..4096], format!("type {ty}, minor {minor}, big {big}"));
        Self { value: BASE + v as usize + 4, pieces: pieces.iter().map(|p| BASE + *p as usize + 4).collect(), bytes }
    }
    fn set(&mut self, n: usize) {
        self.bytes[self.value + 4..self.value + 8].copy_from_slice(&(n as u32).to_le_bytes());
    }
}

/// C09: data of every size.
pub fn data_sizes(cx: &mut Cx, case: u64) -> Res {
    const ROOM: usize = 12 * SEG;
    let (big, minor) = [(false, 5), (false, 3), (true, 5), (true, 4)][case as usize % 4];
    let mut s = Sized::new(cx, big, ROOM, 3, minor, &|i| (i % 251) as u8);
    let range = match (big, minor) {
        (false, 5) => 5..=SEG,
        (false, _) => 5..=ROOM,
        _ => SEG + 1..=ROOM,
    };
    for n in range {
        if n as u64 % 4 != case / 4 % 4 {
            continue;
        }
        s.set(n);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let v = nav_some("values.next", || root.values().unwrap().unwrap().next())?;
        if call("KeyValue::data_size", || v.data_size())? as usize != n {
            return diff("KeyValue::data_size", format!("not {n}"));
        }
        match call_ok("KeyValue::data", || v.data())? {
            KeyValueData::Small(d) if !big => {
                if (at(&s.bytes, d), d.len()) != (s.pieces[0], n) {
                    return diff("KeyValue::data", format!("{} bytes at {:#x} instead of {n} at {:#x}", d.len(), at(&s.bytes, d), s.pieces[0]));
                }
            }
            KeyValueData::Big(it) if big => {
                let mut left = n;
                let mut i = 0;
                for d in it {
                    let want = left.min(SEG);
                    match d {
                        Ok(d) if want > 0 && (at(&s.bytes, d), d.len()) == (s.pieces[i], want) => (),
                        Ok(d) => return diff("BigDataSlices::next", format!("piece {i} of {n} bytes: {} bytes at {:#x}, {left} left", d.len(), at(&s.bytes, d))),
                        Err(e) => return diff("BigDataSlices::next", format!("piece {i} of {n} bytes: {e:?}")),
                    }
                    left -= want;
                    i += 1;
                }
                if left > 0 {
                    return diff("BigDataSlices::next", format!("{left} of {n} bytes missing"));
                }
            }
            KeyValueData::Small(_) => return diff("KeyValue::data", format!("{n} bytes in one piece")),
            KeyValueData::Big(_) => return diff("KeyValue::data", format!("{n} bytes in several pieces")),
        }
        cx.eval(1);
        cx.fp(mix(case << 32 ^ n as u64));
    }
    cx.ev("every data size", 1);
    Ok(())
}

/// Units of a text without NUL.
fn ascii(i: usize) -> u16 {
    0x41 + (i % 53) as u16
}

fn unit(i: usize) -> u16 {
    [0x41, 0xe9, 0x4e2d, 0x62, 0xffee][i % 5] + (i / 7 % 11) as u16
}

/// C10: texts of many lengths, with and without terminator.
pub fn text_sizes(cx: &mut Cx, case: u64) -> Res {
    const UNITS: usize = 130_000;
    let big = case % 2 == 1;
    let minor = if big { 5 } else { 3 };
    let unit = if case / 2 % 2 == 1 { ascii } else { unit };
    let data = |i: usize| unit(i / 2).to_le_bytes()[i % 2];
    let ty = *cx.rng.pick(&[1, 2]);
    let mut s = Sized::new(cx, big, UNITS * 2, ty, minor, &data);
    let (lo, dense) = if big { (8173, 8200) } else { (3, 12_000) };
    let text: Vec<char> = (0..UNITS).map(|i| char::from_u32(unit(i) as u32).unwrap()).collect();
    let mut want = String::new();
    let mut have = 0;
    for n in stage(cx, lo, dense, UNITS as u64, case / 4, 4) {
        let n = n as usize;
        want.extend(&text[have..n]);
        have = n;
        s.set(n * 2);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let v = nav_some("values.next", || root.values().unwrap().unwrap().next())?;
        let got = call_ok("KeyValue::string_data", || v.string_data())?;
        if got != want {
            let i = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
            return diff("KeyValue::string_data", format!("{} characters instead of {n}, equal up to {i}", got.chars().count()));
        }
        cx.eval(1);
        cx.ev("text lengths", 1);
        cx.fp(mix(case << 32 ^ n as u64));
    }
    Ok(())
}

/// C11: lines of many lengths, and many numbers of lines.
pub fn line_sizes(cx: &mut Cx, case: u64) -> Res {
    const UNITS: usize = 130_000;
    let big = case % 2 == 1;
    let short = case / 2 % 2 == 1;
    let minor = if big { 5 } else { 3 };
    let unit = if case / 4 % 2 == 1 { ascii } else { unit };
    // lines of one unit each, or one long line
    let at = |i: usize| if short && i % 2 == 1 { 0 } else { unit(i) };
    let data = |i: usize| at(i / 2).to_le_bytes()[i % 2];
    let mut s = Sized::new(cx, big, UNITS * 2, 7, minor, &data);
    let (lo, dense) = if big { (8173, 8200) } else { (3, 6000) };
    // as many lines, when they are short
    let of = if short { 2 } else { 1 };
    for n in stage(cx, lo, dense, (UNITS / of) as u64, case / 8, 4) {
        let n = n as usize * of;
        s.set(n * 2);
        let hive = open(&s.bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        let v = nav_some("values.next", || root.values().unwrap().unwrap().next())?;
        let it = call_ok("KeyValue::multi_string_data", || v.multi_string_data())?;
        let got = call("RegMultiSZStrings::next", || it.take(n + 2).collect::<Result<Vec<_>, _>>())?;
        let got = match got {
            Ok(g) => g,
            Err(e) => return diff("RegMultiSZStrings::next", format!("{e:?} with {n} units")),
        };
        let units: Vec<u16> = (0..n).map(at).collect();
        let want = units.split(|u| *u == 0).filter(|l| !l.is_empty()).map(String::from_utf16_lossy);
        if got.len() != want.clone().count() {
            return diff("RegMultiSZStrings::next", format!("{} lines instead of {} in {n} units", got.len(), want.count()));
        }
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            if *g != w {
                return diff("RegMultiSZStrings::next", format!("line {i} in {n} units: {} bytes of text instead of {}", g.len(), w.len()));
            }
        }
        cx.eval(1);
        cx.ev("line lengths and counts", 1);
        cx.fp(mix(case << 32 ^ n as u64));
    }
    Ok(())
}

/// C07: names of many lengths, equal, different at the end, or one longer.
pub fn compared(cx: &mut Cx, case: u64) -> Res {
    for n in stage(cx, 1, 8000, 65_535, case, 32) {
        let n = n as usize;
        // the same text in both encodings and cases
        let low: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
        let up = low.to_ascii_uppercase();
        let wide: Vec<u8> = up.iter().flat_map(|b| [*b, 0]).collect();
        let mut more = up.clone();
        *more.last_mut().unwrap() = b'z';
        let more_wide: Vec<u8> = more.iter().flat_map(|b| [*b, 0]).collect();
        let same = [NtHiveNameString::Latin1(&low), NtHiveNameString::Latin1(&up), NtHiveNameString::Utf16LE(&wide)];
        let above = [NtHiveNameString::Latin1(&more), NtHiveNameString::Utf16LE(&more_wide)];
        let below = [NtHiveNameString::Latin1(&low[..n - 1]), NtHiveNameString::Utf16LE(&wide[..2 * n - 2])];
        // UTF-16 names end at 32767 units
        let (ns, na, nb) = if n <= 32_767 { (3, 2, 2) } else { (2, 1, 1) };
        let text = std::str::from_utf8(&low).unwrap();
        use std::cmp::Ordering::{self, *};
        let a = &same[n % ns];
        for (set, want) in [(&same[..ns], Equal), (&above[..na], Less), (&below[..nb], Greater)] {
            for b in set {
                let got: (Ordering, Ordering, bool) = call("name comparison", || (a.cmp(b), b.cmp(a), a == b))?;
                if got != (want, want.reverse(), want == Equal) {
                    return diff("name comparison", format!("names of {n} and {} characters: {got:?} instead of {want:?}", b.len()));
                }
                let got = call("name and string", || (b.partial_cmp(text), text.partial_cmp(b), b == text, text == b, *b == *text, b.partial_cmp(&text)))?;
                if got != (Some(want.reverse()), Some(want), want == Equal, want == Equal, want == Equal, Some(want.reverse())) {
                    return diff("name and string", format!("a name of {} bytes and a string of {n} characters: {got:?}", b.len()));
                }
            }
        }
        cx.eval(7);
        cx.ev("name lengths compared", 1);
        cx.fp(mix(n as u64));
    }
    Ok(())
}

/// C08: names of many lengths.
pub fn decoded(cx: &mut Cx, case: u64) -> Res {
    let latin: Vec<u8> = (0..65_535).map(|i| [0x41, 0xe9, 0x62, 0xff, 0x80][i % 5] ^ (i / 7 % 2) as u8).collect();
    let wide: Vec<u8> = (0..32_767).flat_map(|i| unit(i).to_le_bytes()).collect();
    for n in share((0..=65_535).collect(), case, 32) {
        let n = n as usize;
        let (l, u) = (NtHiveNameString::Latin1(&latin[..n]), NtHiveNameString::Utf16LE(&wide[..n & !1]));
        let wl: String = latin[..n].iter().map(|b| *b as char).collect();
        let wu: String = (0..n / 2).map(|i| char::from_u32(unit(i) as u32).unwrap()).collect();
        for (name, want, len) in [(l, wl, n), (u, wu, n & !1)] {
            let got = call("decoding", || (name.to_string_checked(), name.to_string_lossy(), name.to_string(), name.len(), name.is_empty()))?;
            let ok = (got.0.as_deref() == Some(&want[..]), got.1 == want, got.2 == want, got.3 == len, got.4 == (len == 0));
            if ok != (true, true, true, true, true) {
                return diff("decoding", format!("a name of {len} bytes: checked, lossy, Display, len and is_empty are right: {ok:?}"));
            }
        }
        cx.eval(2);
        cx.ev("name lengths decoded", 1);
        cx.fp(mix(n as u64));
    }
    Ok(())
}

/// C05: paths of many components.
pub fn components(cx: &mut Cx, case: u64) -> Res {
    let mut w = Raw::new();
    let form = *cx.rng.pick(&[b"lf", b"li", b"lh"]);
    let l = w.list(form, &[16]);
    let k = w.node(b"k", l, (0, NIL));
    w.put32(l, 4, k);
    let bytes = w.finish(&mut cx.rng, 5, k);
    cx.set_hive(&bytes, "a key below itself");
    let hive = open(&bytes)?;
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    for n in stage(cx, 0, 4000, 40_000, case, 8) {
        let n = n as usize;
        let path = "k\\".repeat(n);
        let seps = "\\".repeat(n);
        for (p, found) in [(path.clone(), true), (format!("{path}q"), false), (format!("{seps}K{seps}k"), true), (format!("K{seps}q{seps}"), n == 0 && false)] {
            let got = call("KeyNode::subpath", || root.subpath(&p).map(|r| r.is_ok()))?;
            if n == 0 && p == "Kq" {
                continue;
            }
            let found = if n == 0 && p == "Kk" { false } else { found };
            if got != found.then_some(true) {
                return diff("KeyNode::subpath", format!("{got:?} for a path of {} bytes that starts with {:?}, n = {n}", p.len(), p.chars().take(20).collect::<String>()));
            }
        }
        cx.eval(4);
        cx.ev("path lengths", 1);
        cx.fp(mix(n as u64));
    }
    Ok(())
}
