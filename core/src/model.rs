//! Abstract contents of a hive.
use crate::fold;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Name {
    pub latin1: bool,
    pub bytes: Vec<u8>,
}

impl Name {
    pub fn latin1(b: &[u8]) -> Self {
        Self { latin1: true, bytes: b.to_vec() }
    }
    pub fn utf16(u: &[u16]) -> Self {
        Self { latin1: false, bytes: u.iter().flat_map(|x| x.to_le_bytes()).collect() }
    }
    pub fn units(&self) -> Vec<u16> {
        units_of(self.latin1, &self.bytes)
    }
    /// Windows' choice: compressed if every unit is below 256.
    pub fn from_units(u: &[u16]) -> Self {
        if u.iter().all(|x| *x < 256) {
            Self::latin1(&u.iter().map(|x| *x as u8).collect::<Vec<_>>())
        } else {
            Self::utf16(u)
        }
    }
    pub fn from_str(s: &str) -> Self {
        Self::from_units(&s.encode_utf16().collect::<Vec<_>>())
    }
    /// The text, if it has no unpaired surrogate.
    pub fn text(&self) -> Option<String> {
        fold::decode(&self.units(), false)
    }
    pub fn lossy(&self) -> String {
        fold::decode(&self.units(), true).unwrap()
    }
}

pub fn units_of(latin1: bool, bytes: &[u8]) -> Vec<u16> {
    if latin1 {
        bytes.iter().map(|b| *b as u16).collect()
    } else {
        bytes.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Value {
    pub name: Name,
    pub ty: u32,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Key {
    pub name: Name,
    pub class: Option<Vec<u8>>,
    pub values: Vec<Value>,
    pub subkeys: Vec<Key>,
    pub volatile: u32,
}

impl Key {
    pub fn new(name: Name) -> Self {
        Self { name, class: None, values: vec![], subkeys: vec![], volatile: 0 }
    }
    pub fn named(s: &str) -> Self {
        Self::new(Name::from_str(s))
    }
    /// Sort subkeys as Windows does and drop names that are equal case-insensitively.
    pub fn normalize(&mut self) {
        self.subkeys.sort_by(|a, b| fold::cmp_units(&a.name.units(), &b.name.units()));
        self.subkeys
            .dedup_by(|a, b| fold::cmp_units(&a.name.units(), &b.name.units()) == std::cmp::Ordering::Equal);
        for k in self.subkeys.iter_mut() {
            k.normalize();
        }
    }
    pub fn count(&self) -> usize {
        1 + self.subkeys.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn count_values(&self) -> usize {
        self.values.len() + self.subkeys.iter().map(|k| k.count_values()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.subkeys.iter().map(|k| k.depth()).max().unwrap_or(0)
    }
}

// ---------------------------------------------------------------------------------------------
// Random contents

/// Code units that are interesting for comparison, folding and decoding.
const SPICE: &[u16] = &[
    0x20, 0x2e, 0x2f, 0x41, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x7a, 0x7b, 0x7f, 0x80, 0xb5, 0xc0, 0xd6, 0xd7, 0xdf, 0xe0,
    0xf6, 0xf7, 0xfe, 0xff, 0x100, 0x101, 0x130, 0x131, 0x149, 0x178, 0x17f, 0x1c4, 0x1c5, 0x1c6, 0x39c, 0x3a3, 0x3c2,
    0x3c3, 0x3bc, 0x410, 0x430, 0x44f, 0x10d0, 0x1c90, 0x13a0, 0xab70, 0x1e9e, 0x1f80, 0x2160, 0x2170, 0x24d0, 0x24b6,
    0x2c2f, 0x2c5f, 0xa7ff, 0xd7ff, 0xe000, 0xfb00, 0xff21, 0xff3a, 0xff41, 0xff5a, 0xfffd, 0xffff, 0, 1, 9, 0xa, 0xd, 0x22, 0x25, 0x2a, 0x3f,
    0x85, 0xa0, 0xad, 0x200b, 0xfeff, 0xfffe,
];

pub fn rand_unit(r: &mut Rng) -> u16 {
    match r.below(10) {
        0..=3 => r.range(0x61, 0x6a) as u16,
        4 => r.range(0x41, 0x4a) as u16,
        5 => r.range(0x20, 0xff) as u16,
        6 => *r.pick(SPICE),
        7 => {
            let p = r.pick(fold::pairs());
            if r.chance(1, 2) {
                p.0
            } else {
                p.1
            }
        }
        8 => r.range(0xd800, 0xdfff) as u16,
        _ => crate::dict::sometimes(r, 4, 1, 0xffff).map_or_else(|| r.range(1, 0xffff) as u16, |n| n as u16),
    }
}

/// A word of the dictionary, sometimes respelled, cut or continued.
fn dict_units(r: &mut Rng, one_in: u64) -> Option<Vec<u16>> {
    let mut v = crate::dict::word(r, one_in)?.to_vec();
    match r.below(8) {
        0 => v = respell(r, &v),
        1 => v.push(rand_unit(r)),
        2 => v.insert(0, rand_unit(r)),
        3 => drop(v.pop()),
        _ => (),
    }
    Some(v)
}

/// Units of a name. `wild` allows surrogates (paired or not) and anything in the BMP.
pub fn rand_units(r: &mut Rng, max: usize, wild: bool) -> Vec<u16> {
    let n = if max >= 40 && r.chance(1, 14) {
        // around the lengths that matter for keys: 255 units, 255 bytes of other encodings
        // and sometimes far beyond, up to what the 16-bit length field can express
        match r.below(60) {
            0 => r.log_range(256, 32767),
            1..=6 => r.log_range(250, 3000),
            _ => r.range(40, 255.max(max as u64)),
        }
    } else if r.chance(1, 12) { r.log_range(1, max as u64) } else { r.range(1, 6.min(max as u64)) } as usize;
    let style = r.below(6);
    let mut v = Vec::with_capacity(n + 1);
    let special = dict_units(r, 10)
        .filter(|w| !w.is_empty() && w.len() <= max.max(64) && (wild || w.iter().all(|u| !(0xd800..0xe000).contains(u))));
    let from_dict = special.is_some();
    v.extend(special.unwrap_or_default());
    while !from_dict && v.len() < n {
        match style {
            0 | 1 => v.push(r.range(0x61, 0x66) as u16),
            2 => v.push(r.range(0x20, 0xff) as u16),
            3 if wild && r.chance(1, 3) => {
                v.push(r.range(0xd800, 0xdbff) as u16);
                v.push(r.range(0xdc00, 0xdfff) as u16);
            }
            _ => {
                let u = rand_unit(r);
                if wild || !(0xd800..0xe000).contains(&u) {
                    v.push(u)
                }
            }
        }
    }
    // a key name cannot contain a backslash; NUL it can
    for u in v.iter_mut() {
        if *u == 0x5c {
            *u = 0x78;
        }
    }
    v
}

pub fn rand_name(r: &mut Rng, max: usize, wild: bool) -> Name {
    let u = rand_units(r, max, wild);
    if r.chance(1, 6) {
        Name::utf16(&u) // legal even if all units are below 256
    } else {
        Name::from_units(&u)
    }
}

/// Random spelling of the same name under case-insensitivity.
pub fn respell(r: &mut Rng, u: &[u16]) -> Vec<u16> {
    u.iter()
        .map(|x| {
            if r.chance(1, 2) {
                return *x;
            }
            let up = fold::up(*x);
            if r.chance(1, 3) {
                return up;
            }
            lower_variants(up).get(r.idx(4)).copied().unwrap_or(up)
        })
        .collect()
}

/// All units that fold to `up` (other than itself).
pub fn lower_variants(up: u16) -> &'static [u16] {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static M: OnceLock<HashMap<u16, Vec<u16>>> = OnceLock::new();
    M.get_or_init(|| {
        let mut m: HashMap<u16, Vec<u16>> = HashMap::new();
        for &(a, b) in fold::pairs() {
            m.entry(b).or_default().push(a);
        }
        m
    })
    .get(&up)
    .map(|v| v.as_slice())
    .unwrap_or(&[])
}

pub fn utf16_bytes(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

#[derive(Clone, Debug)]
pub struct TreeOpts {
    pub max_keys: usize,
    pub max_fanout: usize,
    pub max_values: usize,
    pub max_data: usize,
    pub max_name: usize,
    pub wild_names: bool,
    /// only known types with conforming data
    pub typed: bool,
    pub big_chance: (u64, u64),
    pub long_classes: bool,
}

impl Default for TreeOpts {
    fn default() -> Self {
        Self {
            max_keys: 40,
            max_fanout: 12,
            max_values: 5,
            max_data: 200,
            max_name: 40,
            wild_names: true,
            typed: false,
            big_chance: (1, 60),
            long_classes: true,
        }
    }
}

/// Units somebody may think to be special.
pub const SPECIAL: [u16; 24] = [
    0xfeff, 0xfffe, 0xffff, 0xfffd, 0x200b, 0x200e, 0x20, 9, 0xa, 0xd, 0x22, 0x25, 0x5c, 0x2028, 0xa0, 1, 0x7f, 0x80, 0x85, 0x1a, 0x3b, 0x2c,
    0xbbef, 0x100,
];

pub fn rand_text_units(r: &mut Rng, n: usize) -> Vec<u16> {
    let style = r.below(6);
    let mut v = Vec::with_capacity(n + 1);
    if let Some(w) = dict_units(r, 12) {
        v.extend(w);
        if r.chance(1, 2) {
            v.push(0);
        }
    }
    while v.len() < n {
        match style {
            5 => v.push(if r.chance(1, 2) { *r.pick(&SPECIAL) } else { r.range(0x20, 0x7e) as u16 }),
            0 => v.push(r.range(0x20, 0x7e) as u16),
            1 => v.push(r.range(1, 0xd7ff) as u16),
            2 => {
                let c = 0x10000 + r.below(0x100000) as u32;
                v.push(0xd800 + ((c - 0x10000) >> 10) as u16);
                v.push(0xdc00 + ((c - 0x10000) & 0x3ff) as u16);
            }
            3 => v.push(r.range(0xd000, 0xe0ff) as u16),
            _ => {
                if r.chance(1, 3) {
                    v.push(r.range(0xd800, 0xdbff) as u16);
                    v.push(r.range(0xdc00, 0xdfff) as u16);
                } else {
                    v.push(r.range(0x20, 0x2fff) as u16)
                }
            }
        }
    }
    v.truncate(n);
    v
}

pub fn units_bytes(u: &[u16]) -> Vec<u8> {
    u.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn rand_value(r: &mut Rng, o: &TreeOpts) -> Value {
    let name = if r.chance(1, 8) { Name::latin1(b"") } else { if o.max_name >= 40 && r.chance(1, 30) {
        let n = r.log_range(100, 16383) as usize;
        let u = rand_text_units(r, n);
        Name::from_units(&u)
    } else { rand_name(r, o.max_name, o.wild_names) } };
    let ty = match r.below(8) {
        0..=4 => r.below(12) as u32,
        5 => r.below(14) as u32,
        _ if o.typed => r.below(12) as u32,
        6 => 0xffff_0000 | r.below(0x10000) as u32,
        _ => r.next() as u32,
    };
    let ty = if o.typed { ty % 12 } else { ty };
    let ty = match crate::dict::sometimes(r, 40, 0, 0xffff_ffff) {
        Some(t) if !o.typed => t as u32,
        _ => ty,
    };
    let mut n = match r.below(6) {
        0 => r.below(9) as usize,
        1 => 4,
        2 => 8,
        _ => r.log_range(0, o.max_data as u64) as usize,
    };
    if r.chance(o.big_chance.0, o.big_chance.1) {
        n = 16344 * r.range(1, 3) as usize + r.range(0, 6) as usize - 3;
        n = crate::dict::sometimes(r, 3, 1, 200_000).map_or(n, |n| n as usize);
    }
    let data = match ty {
        1 | 2 | 6 => {
            let mut u = rand_text_units(r, n / 2);
            if r.chance(1, 2) {
                u.push(0);
            }
            if r.chance(1, 8) && !u.is_empty() {
                let i = r.idx(u.len());
                u[i] = 0;
            }
            let mut b = units_bytes(&u);
            if !o.typed && r.chance(1, 10) {
                b.push(r.next() as u8);
            }
            b
        }
        7 => {
            let mut u = rand_text_units(r, n / 2);
            let k = r.below(5) as usize;
            for _ in 0..k {
                if !u.is_empty() {
                    let i = r.idx(u.len());
                    u[i] = 0;
                }
            }
            for _ in 0..r.below(3) {
                u.push(0);
            }
            units_bytes(&u)
        }
        4 | 5 if o.typed || r.chance(3, 4) => r.bytes(4),
        11 if o.typed || r.chance(3, 4) => r.bytes(8),
        _ => r.bytes(n),
    };
    Value { name, ty, data }
}

pub fn rand_class(r: &mut Rng, long: bool) -> Option<Vec<u8>> {
    match r.below(6) {
        0 => Some(units_bytes(&rand_units(r, 30, true))),
        1 if r.chance(1, 4) => Some(vec![]),
        // the longest class name has 32767 code units
        2 if r.chance(1, 12) && long => {
            let n = r.log_range(100, 32767) as usize;
            let mut u = rand_units(r, n, true);
            while u.len() < n {
                let more = rand_units(r, 200, true);
                u.extend(more);
            }
            u.truncate(n);
            Some(units_bytes(&u))
        }
        _ => None,
    }
}

pub fn rand_key(r: &mut Rng, o: &TreeOpts) -> Key {
    let mut k = Key::new(rand_name(r, o.max_name, o.wild_names));
    k.class = rand_class(r, o.long_classes);
    k.volatile = match r.below(4) {
        0 => 0,
        1 => r.range(1, 5) as u32,
        2 => 0xffff_ffff,
        _ => r.next() as u32,
    };
    if o.max_values > 0 && r.chance(1, 2) {
        for _ in 0..r.range(1, o.max_values as u64) {
            k.values.push(rand_value(r, o));
        }
    }
    k
}

/// A random tree with up to `max_keys` keys, sorted and deduplicated.
pub fn rand_tree(r: &mut Rng, o: &TreeOpts) -> Key {
    let n = r.log_range(1, o.max_keys as u64) as usize;
    // parent vector, then assembled bottom-up
    let mut keys: Vec<Option<Key>> = (0..n).map(|_| Some(rand_key(r, o))).collect();
    let deep = r.below(4);
    let mut parent = vec![0usize; n];
    let mut fan = vec![0usize; n];
    let mut depth = vec![0usize; n];
    for i in 1..n {
        let mut p = match deep {
            0 => i - 1,
            1 => 0,
            2 => r.idx(i),
            _ => i - 1 - r.idx(i.min(5)),
        };
        while fan[p] >= o.max_fanout && p + 1 < i {
            p += 1;
        }
        // Windows allows 512 levels
        if depth[p] >= 500 {
            p = 0;
        }
        depth[i] = depth[p] + 1;
        fan[p] += 1;
        parent[i] = p;
    }
    for i in (1..n).rev() {
        let k = keys[i].take().unwrap();
        keys[parent[i]].as_mut().unwrap().subkeys.push(k);
    }
    let mut root = keys[0].take().unwrap();
    root.normalize();
    root
}
