use crate::cx::Cx;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::obs::*;
use nt_hive::*;
use zerocopy::SplitByteSlice;

pub fn parts<'a>(n: &NtHiveNameString<'a>) -> (bool, &'a [u8]) {
    match n {
        NtHiveNameString::Latin1(b) => (true, b),
        NtHiveNameString::Utf16LE(b) => (false, b),
    }
}

pub fn at(base: &[u8], s: &[u8]) -> usize {
    (s.as_ptr() as usize).wrapping_sub(base.as_ptr() as usize)
}

/// File offset of the record a key handle stands for, from the place of its name (navigation).
pub fn key_pos<B: SplitByteSlice>(base: usize, k: &KeyNode<B>) -> Res<usize> {
    let n = nav_ok("name", || k.name())?;
    let p = (parts(&n).1.as_ptr() as usize).wrapping_sub(base);
    Ok(p.wrapping_sub(76))
}

pub fn val_pos<B: SplitByteSlice>(base: usize, v: &KeyValue<B>) -> Res<usize> {
    let n = nav_ok("value.name", || v.name())?;
    let p = (parts(&n).1.as_ptr() as usize).wrapping_sub(base);
    Ok(p.wrapping_sub(20))
}

pub fn open(b: &[u8]) -> Res<Hive<&[u8]>> {
    nav_ok("without_validation", || Hive::without_validation(b))
}

pub fn random_hive(cx: &mut Cx, t: &TreeOpts) -> (Key, Built, Opts) {
    let tree = rand_tree(&mut cx.rng, t);
    let mut o = Opts::random(&mut cx.rng);
    if cx.rng.chance(1, 10) {
        o.extra_segments = 2;
    }
    let b = build(&mut cx.rng, &tree, &o);
    (tree, b, o)
}

pub fn shape(t: &Key) -> u64 {
    let mut h = t.subkeys.len() as u64 ^ (t.values.len() as u64) << 20;
    for v in &t.values {
        h = hivecore::rng::mix(h ^ v.data.len() as u64 ^ (v.ty as u64) << 32);
    }
    for k in &t.subkeys {
        h = hivecore::rng::mix(h.rotate_left(7) ^ shape(k));
    }
    h
}

pub fn show(u: &[u16]) -> String {
    String::from_utf16_lossy(u)
}

/// A key with `n` subkeys with simple distinct sorted names.
pub fn flat(n: usize, name: impl Fn(usize) -> String) -> Key {
    let mut k = Key::named("root");
    k.subkeys = (0..n).map(|i| Key::named(&name(i))).collect();
    k.normalize();
    k
}

/// Zero pages that cost nothing until touched.
pub struct Sparse {
    p: *mut u8,
    pub len: usize,
}

impl Sparse {
    pub fn new(len: usize) -> Option<Self> {
        // SAFETY: an anonymous private mapping.
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            (p != libc::MAP_FAILED).then(|| Self { p: p as *mut u8, len })
        }
    }
    pub fn get(&mut self) -> &mut [u8] {
        // SAFETY: mapped above for this length, unmapped on drop.
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
    /// A hive whose data lies `shift` bytes into the hive data.
    pub fn place(b: &Built, shift: u32) -> Option<Self> {
        let (head, data) = rebase(b, shift);
        let mut s = Self::new(BASE + shift as usize + data.len())?;
        let m = s.get();
        m[..BASE].copy_from_slice(&head);
        m[BASE + shift as usize..].copy_from_slice(&data);
        Some(s)
    }
}

impl Drop for Sparse {
    fn drop(&mut self) {
        // SAFETY: our own mapping.
        unsafe {
            libc::munmap(self.p as *mut _, self.len);
        }
    }
}

pub fn cpu_time() -> std::time::Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain syscall into a local.
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    std::time::Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

/// Lays out cells by hand, for shapes no Windows tool would write.
pub struct Raw {
    pub data: Vec<u8>,
}

impl Raw {
    pub fn new() -> Self {
        let mut data = vec![0; 32];
        data[0..4].copy_from_slice(b"hbin");
        Self { data }
    }
    /// Offset of a new cell with this payload.
    pub fn cell(&mut self, payload: &[u8]) -> u32 {
        let off = self.data.len();
        let size = (payload.len() + 4).div_ceil(8) * 8;
        self.data.extend_from_slice(&(-(size as i32)).to_le_bytes());
        self.data.extend_from_slice(payload);
        self.data.resize(off + size, 0);
        off as u32
    }
    pub fn put(&mut self, off: u32, at: usize, b: &[u8]) {
        let p = off as usize + 4 + at;
        self.data[p..p + b.len()].copy_from_slice(b);
    }
    pub fn put32(&mut self, off: u32, at: usize, v: u32) {
        self.put(off, at, &v.to_le_bytes());
    }
    pub fn node(&mut self, name: &[u8], list: u32, values: (u32, u32)) -> u32 {
        let mut p = vec![0u8; 76 + name.len()];
        p[0..2].copy_from_slice(b"nk");
        p[2] = 0x20;
        p[28..32].copy_from_slice(&list.to_le_bytes());
        p[36..40].copy_from_slice(&values.0.to_le_bytes());
        p[40..44].copy_from_slice(&values.1.to_le_bytes());
        p[48..52].copy_from_slice(&NIL.to_le_bytes());
        p[72..74].copy_from_slice(&(name.len() as u16).to_le_bytes());
        p[76..].copy_from_slice(name);
        self.cell(&p)
    }
    pub fn value(&mut self, name: &[u8], ty: u32, size: u32, data: u32) -> u32 {
        let mut p = vec![0u8; 20 + name.len()];
        p[0..2].copy_from_slice(b"vk");
        p[2..4].copy_from_slice(&(name.len() as u16).to_le_bytes());
        p[4..8].copy_from_slice(&size.to_le_bytes());
        p[8..12].copy_from_slice(&data.to_le_bytes());
        p[12..16].copy_from_slice(&ty.to_le_bytes());
        p[16] = 1;
        p[20..].copy_from_slice(name);
        self.cell(&p)
    }
    pub fn list(&mut self, sig: &[u8; 2], items: &[u32]) -> u32 {
        let wide = sig == b"lf" || sig == b"lh";
        let mut p = sig.to_vec();
        p.extend_from_slice(&(items.len() as u16).to_le_bytes());
        for i in items {
            p.extend_from_slice(&i.to_le_bytes());
            if wide {
                p.extend_from_slice(&[0; 4]);
            }
        }
        self.cell(&p)
    }
    pub fn offsets(&mut self, items: &[u32]) -> u32 {
        let p: Vec<u8> = items.iter().flat_map(|i| i.to_le_bytes()).collect();
        self.cell(&p)
    }
    pub fn finish(mut self, r: &mut hivecore::rng::Rng, minor: u32, root: u32) -> Vec<u8> {
        let n = self.data.len().div_ceil(4096) * 4096;
        let rest = n - self.data.len();
        if rest >= 4 {
            self.data.extend_from_slice(&(rest as i32).to_le_bytes());
        }
        self.data.resize(n, 0);
        let mut b = base_block(r, minor, root, n as u32);
        b.extend_from_slice(&self.data);
        b
    }
}
