//! Damages hive bytes: single structured fields, raw bytes, splices and cycles.
use crate::build::*;
use crate::rng::Rng;

pub fn field_width(k: FK) -> usize {
    match k {
        FK::NodeSig | FK::ListSig | FK::ValSig | FK::BigSig => 2,
        FK::NodeFlags | FK::NodeNameLen | FK::NodeClassLen | FK::ListCount | FK::ValNameLen | FK::ValFlags | FK::BigCount => 2,
        _ => 4,
    }
}

pub fn is_offset(k: FK) -> bool {
    matches!(
        k,
        FK::RootOffset
            | FK::NodeSubkeysOff
            | FK::NodeValuesOff
            | FK::NodeClassOff
            | FK::LeafItemOff
            | FK::RootItemOff
            | FK::ValItemOff
            | FK::ValDataOff
            | FK::BigListOff
            | FK::BigSegOff
    )
}

pub fn is_bytes(k: FK) -> bool {
    matches!(k, FK::NameBytes | FK::ClassBytes | FK::ValNameBytes | FK::DataBytes)
}

/// Hostile values for a field, given the current bytes.
pub fn hostile_values(r: &mut Rng, b: &Built, f: &Field) -> Vec<u64> {
    let dl = (b.bytes.len() - BASE) as u64;
    let w = field_width(f.kind);
    let cur = if w == 2 {
        u16::from_le_bytes([b.bytes[f.pos], b.bytes[f.pos + 1]]) as u64
    } else {
        b.get32(f.pos) as u64
    };
    let cell_size = |off: u32| -> u64 {
        let p = BASE + off as usize;
        if p + 4 > b.bytes.len() {
            return 0;
        }
        (b.get32(p) as i32).unsigned_abs() as u64
    };
    let mut v: Vec<u64> = match f.kind {
        k if is_offset(k) => {
            let mut v = vec![
                0, 1, 4, 7, 8, 32, 0xffff_ffff, 0xffff_fffe, 0xffff_fff8, 0x7fff_ffff, 0x8000_0000, 0xffff_effc, 0xffff_f000,
                dl, dl + 1, dl.saturating_sub(1), dl.saturating_sub(2), dl.saturating_sub(3), dl.saturating_sub(4),
                dl.saturating_sub(5), dl.saturating_sub(8), cur ^ 4, cur + 1, cur + 2, cur + 4, cur + 8, cur.wrapping_sub(4),
                cur.wrapping_sub(8), f.cell_off as u64, b.root_off as u64,
            ];
            for _ in 0..6 {
                v.push(r.pick(&b.cells).0 as u64);
            }
            v.push(r.below(dl + 16));
            v.push(r.next());
            v
        }
        FK::CellSize => {
            let s = (cur as u32 as i32).unsigned_abs() as i64;
            let room = (b.bytes.len() - f.pos) as i64;
            let mut v: Vec<i64> = vec![
                0, 1, 4, 8, s, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 8, -1, -2, -3, -4, -5, -7, -8, -9, -12, -16, -24, -32,
                -72, -80, -88, -(s - 1), -(s + 1), -(s + 4), -(s - 4), -(s - 8), -(s + 8), -(room / 8 * 8), -(room / 8 * 8 + 8),
                -(room / 8 * 8 - 8), -room, -(room + 1), 0x7fff_fff8, -0x7fff_fff8, 16, -s ^ 2,
            ];
            v.push(-(r.range(1, 4096) as i64));
            v.push(-(r.range(1, 512) as i64 * 8));
            v.into_iter().map(|x| x as i32 as u32 as u64).collect()
        }
        FK::ListCount | FK::BigCount => {
            let cap = cell_size(f.cell_off).saturating_sub(8);
            vec![0, 1, 2, cur + 1, cur.wrapping_sub(1), cap / 4, cap / 4 + 1, cap / 8, cap / 8 + 1, 0x7fff, 0x8000, 0xfffe, 0xffff, r.next()]
        }
        FK::NodeNameLen | FK::NodeClassLen | FK::ValNameLen => {
            let cap = cell_size(f.cell_off);
            vec![
                0, 1, 2, 3, cur + 1, cur + 2, cur.wrapping_sub(1), cap.wrapping_sub(80), cap.wrapping_sub(79), cap.wrapping_sub(78),
                cap.wrapping_sub(24), cap.wrapping_sub(23), cap, cap + 1, 0xfffe, 0xffff, 0x8000, r.next(),
            ]
        }
        FK::NodeSubkeyCount | FK::NodeVolatile => vec![0, 1, cur + 1, 0xffff_ffff, r.next()],
        FK::NodeValuesCount => vec![
            0, 1, cur + 1, cur + 2, cur.wrapping_sub(1), cur + 100, 0x4000_0000, 0x4000_0001, 0x3fff_ffff, 0x8000_0000, 0x7fff_ffff,
            0xffff_ffff, 0xc000_0001, r.next(),
        ],
        FK::NodeSig | FK::ListSig | FK::ValSig | FK::BigSig => {
            let mut v: Vec<u64> = [b"nk", b"vk", b"li", b"lf", b"lh", b"ri", b"db", b"sk", b"LF", b"Nk", b"\0\0", b"kn", b"fl"]
                .iter()
                .map(|s| u16::from_le_bytes(**s) as u64)
                .collect();
            v.push(cur ^ 1);
            v.push(cur ^ 0x100);
            v.push(cur ^ 0x8000);
            v.push(r.next());
            v
        }
        FK::NodeFlags | FK::ValFlags => vec![0, cur ^ 0x20, cur ^ 1, 0xffff, r.next(), cur ^ 0xfffe],
        FK::ValDataSize => {
            let n = cur & 0x7fff_ffff;
            vec![
                0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x8000_0000, 0x8000_0001, 0x8000_0002, 0x8000_0003, 0x8000_0004, 0x8000_0005,
                0x8000_0008, 0xffff_ffff, 0x7fff_ffff, 0x7fff_fffe, n + 1, n.wrapping_sub(1) & 0x7fff_ffff, n + 8, n + 16, n | 0x8000_0000,
                16343, 16344, 16345, 16346, 16344 * 2, 16344 * 2 + 1, 16344 * 65535, 16344 * 65535 + 1, r.next(),
            ]
        }
        FK::ValType => vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0x1000_0001, 0xffff_ffff, 0xffff_0000, r.next()],
        FK::LeafItemHint => vec![0, 0xffff_ffff, r.next()],
        _ => vec![],
    };
    for _ in 0..3 {
        v.extend(crate::dict::sometimes(r, 2, 0, 0xffff_ffff));
    }
    let mask = if w == 2 { 0xffff } else { 0xffff_ffff };
    for x in v.iter_mut() {
        *x &= mask;
    }
    v.retain(|x| *x != cur);
    v.sort();
    v.dedup();
    v
}

/// Damages one field; returns a description, or None if nothing changed.
pub fn damage(r: &mut Rng, b: &mut Built, fi: usize) -> Option<String> {
    let f = b.fields[fi].clone();
    if is_bytes(f.kind) {
        if f.len == 0 {
            return None;
        }
        let at = f.pos + r.idx(f.len);
        let old = b.bytes[at];
        b.bytes[at] ^= 1 << r.below(8);
        return Some(format!("{:?} byte at {:#x}: {:#x} -> {:#x}", f.kind, at, old, b.bytes[at]));
    }
    let vals = hostile_values(r, b, &f);
    if vals.is_empty() {
        return None;
    }
    let v = *r.pick(&vals);
    let w = field_width(f.kind);
    set(&mut b.bytes, f.pos, w, v);
    Some(format!("{:?} (cell {:?} {:#x}) at {:#x} := {:#x}", f.kind, f.cell, f.cell_off, f.pos, v))
}

/// One to many random damages of mixed kinds.
pub fn random_damage(r: &mut Rng, b: &mut Built, out: &mut Vec<String>) {
    let n = 1 + r.log_range(0, 12);
    for _ in 0..n {
        match r.below(10) {
            0..=5 => {
                let fi = r.idx(b.fields.len());
                if let Some(d) = damage(r, b, fi) {
                    out.push(d);
                }
            }
            6 => {
                // redirect an offset to another cell: cycles, shared and mistyped structures
                let offs: Vec<usize> = (0..b.fields.len()).filter(|i| is_offset(b.fields[*i].kind)).collect();
                let f = b.fields[*r.pick(&offs)].clone();
                let t = r.pick(&b.cells).0;
                set(&mut b.bytes, f.pos, 4, t as u64);
                out.push(format!("{:?} at {:#x} redirected to cell {:#x}", f.kind, f.pos, t));
            }
            7 => {
                let at = BASE + r.idx(b.bytes.len() - BASE);
                b.bytes[at] ^= 1 << r.below(8);
                out.push(format!("bit flip at {at:#x}"));
            }
            8 => {
                let at = BASE + r.idx((b.bytes.len() - BASE).saturating_sub(4).max(1));
                let v = *r.pick(&[0u64, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0xffff_fff8, 8]);
                let n = 4.min(b.bytes.len() - at);
                set(&mut b.bytes, at, n, v);
                out.push(format!("dword at {at:#x} := {v:#x}"));
            }
            _ => {
                let keep = BASE + r.idx(b.bytes.len() - BASE + 1);
                if r.chance(1, 4) && keep > BASE + 64 {
                    b.bytes.truncate(keep);
                    let n = b.bytes.len();
                    b.fields.retain(|f| f.pos + 4 <= n && f.pos + f.len <= n);
                    if b.fields.is_empty() {
                        out.push(format!("truncated to {keep}"));
                        return;
                    }
                    out.push(format!("truncated to {keep}"));
                } else {
                    let n = r.log_range(1, 200) as usize;
                    let from = BASE + r.idx(b.bytes.len() - BASE);
                    let to = BASE + r.idx(b.bytes.len() - BASE);
                    let n = n.min(b.bytes.len() - from).min(b.bytes.len() - to);
                    let tmp = b.bytes[from..from + n].to_vec();
                    b.bytes[to..to + n].copy_from_slice(&tmp);
                    out.push(format!("{n} bytes copied from {from:#x} to {to:#x}"));
                }
            }
        }
        if !b.fields.iter().any(|f| is_offset(f.kind)) {
            return;
        }
    }
}

/// "Soup": headers with valid signatures at every 8-byte slot and fields biased to point at each other.
pub fn soup(r: &mut Rng, cells: usize) -> Vec<u8> {
    let mut offs = vec![];
    let mut at = 32u32;
    let sizes: Vec<u32> = (0..cells).map(|_| *r.pick(&[8u32, 16, 24, 32, 80, 88, 104, 128, 256])).collect();
    for s in &sizes {
        offs.push(at);
        at += s;
    }
    let total = (at as usize).div_ceil(4096) * 4096;
    let mut d = vec![0u8; total];
    d[0..4].copy_from_slice(b"hbin");
    for (i, s) in sizes.iter().enumerate() {
        let p = offs[i] as usize;
        let size = if r.chance(1, 20) { r.next() as u32 } else { (*s as i32).wrapping_neg() as u32 };
        d[p..p + 4].copy_from_slice(&size.to_le_bytes());
        let body = *s as usize - 4;
        // fill with dwords
        let mut q = 0;
        while q < body {
            let v: u32 = match r.below(8) {
                0..=3 => *r.pick(&offs),
                4 => r.below(8) as u32,
                5 => 0xffff_ffff,
                6 => r.next() as u32,
                _ => 0,
            };
            let n = 4.min(body - q);
            d[p + 4 + q..p + 4 + q + n].copy_from_slice(&v.to_le_bytes()[..n]);
            q += 4;
        }
        let sig: &[u8; 2] = match (*s, r.below(6)) {
            (80.., 0..=2) => b"nk",
            (24.., 3) => b"vk",
            (_, 0) => b"li",
            (_, 1) => b"lf",
            (_, 2) => b"lh",
            (_, 3) => b"ri",
            (_, 4) => b"db",
            _ => b"vk",
        };
        d[p + 4..p + 6].copy_from_slice(sig);
        let cap = (body.saturating_sub(4) / 4) as u64;
        match sig {
            b"li" | b"lf" | b"lh" | b"ri" | b"db" => {
                let n = r.below(cap.max(1) + 1) as u16;
                d[p + 6..p + 8].copy_from_slice(&n.to_le_bytes());
            }
            b"nk" if body >= 76 => {
                let vc = if r.chance(3, 4) { r.below(4) as u32 } else { r.next() as u32 };
                d[p + 4 + 36..p + 4 + 40].copy_from_slice(&vc.to_le_bytes());
                let nl = if r.chance(3, 4) { r.below((body - 76) as u64 + 2) as u16 } else { r.next() as u16 };
                d[p + 4 + 72..p + 4 + 74].copy_from_slice(&nl.to_le_bytes());
                let cl = r.below(16) as u16;
                d[p + 4 + 74..p + 4 + 76].copy_from_slice(&cl.to_le_bytes());
            }
            b"vk" if body >= 20 => {
                let nl = if r.chance(3, 4) { r.below((body - 20) as u64 + 2) as u16 } else { r.next() as u16 };
                d[p + 6..p + 8].copy_from_slice(&nl.to_le_bytes());
                let ds = match r.below(5) {
                    0 => 0x8000_0000 | r.below(7) as u32,
                    1 => r.below(12) as u32,
                    2 => 16340 + r.below(12) as u32,
                    3 => r.below(100_000) as u32,
                    _ => r.next() as u32,
                };
                d[p + 8..p + 12].copy_from_slice(&ds.to_le_bytes());
                let ty = r.below(13) as u32;
                d[p + 16..p + 20].copy_from_slice(&ty.to_le_bytes());
            }
            _ => (),
        }
    }
    let nodes: Vec<u32> = offs.iter().copied().filter(|o| &d[*o as usize + 4..*o as usize + 6] == b"nk").collect();
    let root = if nodes.is_empty() || r.chance(1, 20) { *r.pick(&offs) } else { *r.pick(&nodes) };
    let minor = *r.pick(&[3, 4, 5, 6]);
    let mut bytes = base_block(r, minor, root, total as u32);
    bytes.extend_from_slice(&d);
    bytes
}
