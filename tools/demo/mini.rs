//! Writes small hives by hand.
#![allow(dead_code)]

pub const NIL: u32 = u32::MAX;

pub struct Mini {
    pub d: Vec<u8>,
}

pub struct Nk {
    pub subkeys: u32,
    pub subkey_count: u32,
    pub values: u32,
    pub value_count: u32,
    pub class: u32,
    pub class_len: u16,
    pub volatile: u32,
}
impl Default for Nk {
    fn default() -> Self {
        Nk { subkeys: NIL, subkey_count: 0, values: NIL, value_count: 0, class: NIL, class_len: 0, volatile: 0 }
    }
}

pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

/// Latin1 if possible: bytes and whether they are Latin1.
fn name_bytes(s: &str) -> (Vec<u8>, bool) {
    if s.chars().all(|c| (c as u32) < 256) {
        (s.chars().map(|c| c as u8).collect(), true)
    } else {
        (utf16(s), false)
    }
}

impl Mini {
    pub fn new() -> Self {
        let mut d = vec![0; 32];
        d[0..4].copy_from_slice(b"hbin");
        Mini { d }
    }
    pub fn cell(&mut self, payload: &[u8]) -> u32 {
        let off = self.d.len() as u32;
        let size = (payload.len() + 4 + 7) / 8 * 8;
        self.d.extend_from_slice(&(-(size as i32)).to_le_bytes());
        self.d.extend_from_slice(payload);
        self.d.resize(off as usize + size, 0);
        off
    }
    pub fn nk(&mut self, name: &str, o: Nk) -> u32 {
        let (n, latin) = name_bytes(name);
        self.nk_raw(&n, latin, o)
    }
    pub fn nk_raw(&mut self, name: &[u8], latin: bool, o: Nk) -> u32 {
        let mut p = vec![];
        p.extend_from_slice(b"nk");
        p.extend_from_slice(&(if latin { 0x20u16 } else { 0 }).to_le_bytes());
        p.extend_from_slice(&[0; 8]); // timestamp
        for v in [0, NIL, o.subkey_count, o.volatile, o.subkeys, NIL, o.value_count, o.values, NIL, o.class, 0, 0, 0, 0, 0] {
            p.extend_from_slice(&v.to_le_bytes());
        }
        p.extend_from_slice(&(name.len() as u16).to_le_bytes());
        p.extend_from_slice(&o.class_len.to_le_bytes());
        p.extend_from_slice(name);
        self.cell(&p)
    }
    /// lf, lh, li or ri.
    pub fn list(&mut self, sig: &[u8; 2], items: &[u32]) -> u32 {
        let mut p = sig.to_vec();
        p.extend_from_slice(&(items.len() as u16).to_le_bytes());
        for i in items {
            p.extend_from_slice(&i.to_le_bytes());
            if sig == b"lf" || sig == b"lh" {
                p.extend_from_slice(&[0; 4]);
            }
        }
        self.cell(&p)
    }
    pub fn offsets(&mut self, items: &[u32]) -> u32 {
        let p: Vec<u8> = items.iter().flat_map(|i| i.to_le_bytes()).collect();
        self.cell(&p)
    }
    /// A value in the form its size asks for.
    pub fn vk(&mut self, name: &str, ty: u32, data: &[u8]) -> u32 {
        let mut size = data.len() as u32;
        let off = if data.len() <= 4 {
            size |= 0x8000_0000;
            let mut b = [0; 4];
            b[..data.len()].copy_from_slice(data);
            u32::from_le_bytes(b)
        } else if data.len() <= 16344 {
            self.cell(data)
        } else {
            let segs: Vec<u32> = data.chunks(16344).map(|c| self.cell(c)).collect();
            let l = self.offsets(&segs);
            let mut p = b"db".to_vec();
            p.extend_from_slice(&(segs.len() as u16).to_le_bytes());
            p.extend_from_slice(&l.to_le_bytes());
            p.extend_from_slice(&[0; 4]);
            self.cell(&p)
        };
        self.vk_raw(name, ty, size, off)
    }
    pub fn vk_raw(&mut self, name: &str, ty: u32, size: u32, off: u32) -> u32 {
        let (n, latin) = name_bytes(name);
        let mut p = b"vk".to_vec();
        p.extend_from_slice(&(n.len() as u16).to_le_bytes());
        for v in [size, off, ty] {
            p.extend_from_slice(&v.to_le_bytes());
        }
        p.extend_from_slice(&(latin as u16).to_le_bytes());
        p.extend_from_slice(&[0; 2]);
        p.extend_from_slice(&n);
        self.cell(&p)
    }
    /// A root with these subkeys (in an lf list) and values.
    pub fn root(mut self, subkeys: &[u32], values: &[u32]) -> Vec<u8> {
        let mut o = Nk::default();
        if !subkeys.is_empty() {
            o.subkeys = self.list(b"lf", subkeys);
            o.subkey_count = subkeys.len() as u32;
        }
        if !values.is_empty() {
            o.values = self.offsets(values);
            o.value_count = values.len() as u32;
        }
        let r = self.nk("root", o);
        self.finish(r)
    }
    pub fn finish(mut self, root: u32) -> Vec<u8> {
        let rest = 4096 - self.d.len() % 4096;
        if rest % 4096 != 0 {
            let off = self.d.len();
            self.d.resize(off + rest, 0);
            if rest >= 4 {
                self.d[off..off + 4].copy_from_slice(&(rest as i32).to_le_bytes());
            }
        }
        let mut h = vec![0u8; 4096];
        h[0..4].copy_from_slice(b"regf");
        let w = |h: &mut Vec<u8>, p: usize, v: u32| h[p..p + 4].copy_from_slice(&v.to_le_bytes());
        w(&mut h, 4, 1);
        w(&mut h, 8, 1);
        w(&mut h, 20, 1);
        w(&mut h, 24, 5);
        w(&mut h, 28, 0);
        w(&mut h, 32, 1);
        w(&mut h, 36, root);
        w(&mut h, 40, self.d.len() as u32);
        w(&mut h, 44, 1);
        checksum(&mut h);
        h.extend_from_slice(&self.d);
        h
    }
}

pub fn checksum(h: &mut [u8]) {
    let mut c = 0;
    for q in h[..508].chunks(4) {
        c ^= u32::from_le_bytes(q.try_into().unwrap());
    }
    let c = match c {
        0 => 1,
        u32::MAX => u32::MAX - 1,
        c => c,
    };
    h[508..512].copy_from_slice(&c.to_le_bytes());
}
