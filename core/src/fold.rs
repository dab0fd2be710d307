//! Independent statement of the name order: UTF-16 code units, each mapped through the one-to-one
//! uppercase mapping of the Unicode character database (version 13), compared lexicographically.
//!
//! `upcase_unicode13.txt` was written by Java 17's `Character.toUpperCase(int)` for 0..=0xffff,
//! i.e. it does not come from the repository under test.
use std::cmp::Ordering;

const TABLE: &[u8] = include_bytes!("upcase_unicode13.txt");
const N: usize = 1185;

const fn hex(c: u8) -> u16 {
    (match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("not a hexadecimal digit"),
    }) as u16
}

const fn parse() -> [(u16, u16); N] {
    let mut out = [(0, 0); N];
    let (mut i, mut n) = (0, 0);
    while n < N {
        let (mut a, mut b) = (0u16, 0u16);
        while TABLE[i] != b' ' {
            a = a << 4 | hex(TABLE[i]);
            i += 1;
        }
        i += 1;
        while i < TABLE.len() && TABLE[i] != b'\n' {
            b = b << 4 | hex(TABLE[i]);
            i += 1;
        }
        i += 1;
        out[n] = (a, b);
        n += 1;
    }
    assert!(i >= TABLE.len());
    out
}

static PAIRS: [(u16, u16); N] = parse();

/// Code units that have another uppercase form, in ascending order, with it.
pub fn pairs() -> &'static [(u16, u16)] {
    &PAIRS
}

#[cfg(not(miri))]
pub fn up(u: u16) -> u16 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u16>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t: Vec<u16> = (0..=0xffff).collect();
        for &(a, b) in pairs() {
            t[a as usize] = b;
        }
        t
    })[u as usize]
}

/// No large table where building it would take long.
#[cfg(miri)]
pub fn up(u: u16) -> u16 {
    match PAIRS.binary_search_by_key(&u, |p| p.0) {
        Ok(i) => PAIRS[i].1,
        Err(_) => u,
    }
}

pub fn cmp_units(a: &[u16], b: &[u16]) -> Ordering {
    let n = a.len().min(b.len());
    for i in 0..n {
        let (x, y) = (up(a[i]), up(b[i]));
        if x != y {
            return x.cmp(&y);
        }
    }
    a.len().cmp(&b.len())
}

pub fn folded(a: &[u16]) -> Vec<u16> {
    a.iter().map(|u| up(*u)).collect()
}

/// Independent UTF-16 decoder. Ok(text) or, with `lossy`, U+FFFD for every unpaired surrogate.
pub fn decode(units: &[u16], lossy: bool) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < units.len() {
        let u = units[i] as u32;
        let c = if (0xd800..0xdc00).contains(&u)
            && i + 1 < units.len()
            && (0xdc00..0xe000).contains(&(units[i + 1] as u32))
        {
            i += 1;
            0x10000 + ((u - 0xd800) << 10) + (units[i] as u32 - 0xdc00)
        } else if (0xd800..0xe000).contains(&u) {
            if !lossy {
                return None;
            }
            0xfffd
        } else {
            u
        };
        s.push(char::from_u32(c).unwrap());
        i += 1;
    }
    Some(s)
}
