// A reader that needs neither std nor a heap; with the feature `alloc` also what returns owned
// data. Compiled for programs without libc on 32 and 64 bits and into `hivematrix`: all must make
// the same observations.
use core::fmt::Write;
use nt_hive::*;

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 31)
}

type K<'a> = KeyNode<'a, &'a [u8]>;

/// digest, observations, keys left, whether owned data counts
struct H(u64, u64, u32, bool);
impl H {
    fn num(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v);
        self.1 += 1;
    }
    fn bytes(&mut self, b: &[u8]) {
        self.num(b.len() as u64);
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x0100_0000_01b3);
        }
    }
    fn hint(&mut self, h: (usize, Option<usize>)) {
        self.num(h.0 as u64);
        self.num(h.1.map(|v| v as u64).unwrap_or(u64::MAX));
    }
    fn text(&mut self, a: impl core::fmt::Display) {
        let _ = write!(W(self), "{a}");
    }
    fn name(&mut self, n: Result<NtHiveNameString>) {
        match n {
            Ok(n) => {
                match &n {
                    NtHiveNameString::Latin1(b) => {
                        self.num(1);
                        self.bytes(b)
                    }
                    NtHiveNameString::Utf16LE(b) => {
                        self.num(2);
                        self.bytes(b)
                    }
                }
                self.text(&n);
                for s in ["a", "Key", "\u{e9}\u{10000}", ""] {
                    self.num(n.partial_cmp(s).map(|o| o as i8 as u8 as u64).unwrap_or(77));
                    self.num((n == s) as u64);
                }
                #[cfg(feature = "alloc")]
                if self.3 {
                    self.bytes(n.to_string_lossy().as_bytes());
                    self.bytes(n.to_string_checked().unwrap_or_default().as_bytes());
                }
            }
            Err(e) => self.err(&e),
        }
    }
    /// The error, its numbers cut at 32 bits: a small platform cannot say more.
    fn err(&mut self, e: &NtHiveError) {
        let mut n = N(self, None);
        let _ = write!(n, "{e:?}");
        n.flush();
        self.num(13);
    }
    fn opt<T>(&mut self, r: Option<Result<T>>) -> Option<T> {
        match r {
            None => {
                self.num(6);
                None
            }
            Some(Err(e)) => {
                self.err(&e);
                None
            }
            Some(Ok(t)) => {
                self.num(7);
                Some(t)
            }
        }
    }
}

struct W<'a>(&'a mut H);
impl Write for W<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.bytes() {
            self.0 .0 = (self.0 .0 ^ c as u64).wrapping_mul(0x0100_0000_01b3);
        }
        Ok(())
    }
}

struct N<'a>(&'a mut H, Option<u64>);
impl N<'_> {
    fn flush(&mut self) {
        if let Some(v) = self.1.take() {
            self.0.num(v.min(u32::MAX as u64));
        }
    }
}
impl Write for N<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.bytes() {
            if c.is_ascii_digit() {
                self.1 = Some(self.1.unwrap_or(0).saturating_mul(10).saturating_add((c - b'0') as u64));
            } else {
                self.flush();
                self.0.num(c as u64);
            }
        }
        Ok(())
    }
}

fn value(v: &KeyValue<&[u8]>, h: &mut H) {
    h.name(v.name());
    h.num(v.data_size() as u64);
    match v.data_type() {
        Ok(t) => h.num(t as u64),
        Err(e) => h.err(&e),
    }
    match v.data() {
        Err(e) => h.err(&e),
        Ok(KeyValueData::Small(b)) => h.bytes(b),
        Ok(KeyValueData::Big(mut it)) => {
            let (n, hint) = (it.len(), it.size_hint());
            h.num(n as u64);
            h.hint(hint);
            let mut k = it.clone();
            for at in [1, 0x4000_0000, usize::MAX] {
                match k.nth(at) {
                    Some(Ok(b)) => h.bytes(b),
                    Some(Err(e)) => h.err(&e),
                    None => h.num(6),
                }
            }
            h.num(it.clone().count() as u64);
            match it.clone().last() {
                Some(Ok(b)) => h.bytes(b),
                Some(Err(e)) => h.err(&e),
                None => h.num(6),
            }
            let mut left = 70;
            while let (Some(s), true) = (it.next(), left > 0) {
                left -= 1;
                match s {
                    Ok(b) => h.bytes(b),
                    Err(e) => h.err(&e),
                }
            }
        }
    }
    match v.dword_data() {
        Ok(x) => h.num(x as u64),
        Err(e) => h.err(&e),
    }
    match v.qword_data() {
        Ok(x) => h.num(x),
        Err(e) => h.err(&e),
    }
    #[cfg(feature = "alloc")]
    if h.3 && v.data_size() & 0x7fff_ffff < 1 << 20 {
        match v.data().and_then(|d| d.into_vec()) {
            Ok(b) => h.bytes(&b),
            Err(e) => h.err(&e),
        }
        match v.string_data() {
            Ok(s) => h.bytes(s.as_bytes()),
            Err(e) => h.err(&e),
        }
        match v.multi_string_data() {
            Ok(it) => {
                h.hint(it.size_hint());
                for s in it.take(300) {
                    match s {
                        Ok(s) => h.bytes(s.as_bytes()),
                        Err(e) => h.err(&e),
                    }
                }
            }
            Err(e) => h.err(&e),
        }
    }
}

fn key(k: &K, depth: usize, h: &mut H) {
    if h.2 == 0 || depth > 12 {
        return;
    }
    h.2 -= 1;
    h.name(k.name());
    if let Some(c) = k.class_name() {
        h.name(c);
    }
    if let Some(mut it) = h.opt(k.values()) {
        h.num(it.len() as u64);
        h.hint(it.size_hint());
        for at in [2, 0x3fff_fffe, 0x4000_0000, usize::MAX] {
            let mut c = it.clone();
            if let Some(v) = h.opt(c.nth(at)) {
                h.num(v.data_size() as u64);
            }
            h.num(c.len() as u64);
        }
        if it.len() < 100_000 {
            h.num(it.clone().count() as u64);
        }
        let mut left = 50;
        while let (Some(v), true) = (it.next(), left > 0) {
            left -= 1;
            match v {
                Err(e) => h.err(&e),
                Ok(v) => value(&v, h),
            }
        }
    }
    if let Some(mut it) = h.opt(k.subkeys()) {
        h.hint(it.size_hint());
        for at in [2, 0x1fff_fffe, 0x2000_0000, usize::MAX] {
            let mut c = it.clone();
            if let Some(s) = h.opt(c.nth(at)) {
                h.name(s.name());
            }
            h.hint(c.size_hint());
        }
        let mut left = 50;
        while let (Some(s), true) = (it.next(), left > 0) {
            left -= 1;
            match s {
                Err(e) => h.err(&e),
                Ok(s) => {
                    h.num((s == *k) as u64);
                    if left > 46 {
                        // its own name leads to it
                        let mut b = Name([0; 64], 0);
                        if let Ok(n) = s.name() {
                            if write!(b, "{n}").is_ok() {
                                if let Some(t) = h.opt(k.subkey(b.str())) {
                                    h.num((t == s) as u64);
                                }
                            }
                        }
                    }
                    key(&s, depth + 1, h)
                }
            }
        }
    }
    for n in ["a", "key with spaces", "\u{e9}", "a\\b", "", "\\\\"] {
        if let Some(k) = h.opt(k.subkey(n)) {
            h.name(k.name());
        }
        if let Some(k) = h.opt(k.subpath(n)) {
            h.name(k.name());
        }
        if let Some(v) = h.opt(k.value(n)) {
            h.num(v.data_size() as u64);
        }
    }
}

struct Name([u8; 64], usize);
impl Name {
    fn str(&self) -> &str {
        core::str::from_utf8(&self.0[..self.1]).unwrap_or("")
    }
}
impl Write for Name {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let e = self.1 + s.len();
        self.0.get_mut(self.1..e).ok_or(core::fmt::Error)?.copy_from_slice(s.as_bytes());
        self.1 = e;
        Ok(())
    }
}

/// Digest and number of observations.
pub fn walk(bytes: &mut [u8], owned: bool) -> (u64, u64) {
    let mut h = H(1, 0, 120, owned);
    if let Err(e) = Hive::new(&*bytes) {
        h.err(&e);
    }
    match Hive::without_validation(&*bytes) {
        Err(e) => h.err(&e),
        Ok(hive) => {
            h.num(hive.major_version() as u64);
            h.num(hive.minor_version() as u64);
            match hive.root_key_node() {
                Err(e) => h.err(&e),
                Ok(k) => key(&k, 0, &mut h),
            }
        }
    }
    if let Ok(mut hive) = Hive::without_validation(&mut *bytes) {
        match hive.clear_volatile_subkeys() {
            Ok(()) => h.num(9),
            Err(e) => h.err(&e),
        }
    }
    h.bytes(bytes);
    (h.0, h.1)
}
