//! C12 header validation.
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::obs::*;
use hivecore::oracle::Oracle;
use hivecore::rng::mix;
use nt_hive::*;

pub const C12: Check = Check {
    id: "C12",
    rule: "valid headers with random reserved bytes; every bit flip of the first 512 bytes; single and combined violations of \
           every condition with the checksum recomputed; checksums that collapse to 0 or all-ones; every input length below \
           4096 and truncated or padded hive data; the verdict of Hive::new and of a later validate is compared with the \
           conditions of the format description; the named minor versions against their numbers; every number up to 70000 in the version, sequence, type, format and other fields; every data size with as many, fewer and more bytes; non-trivial: the input holds a full base block; distinct by base block and length",
    phases: &[
        Phase { name: "every bit flip", quick: 64, thorough: 3000, f: flips },
        Phase { name: "violated conditions", quick: 6000, thorough: 600_000, f: fields },
        Phase { name: "reserved checksums", quick: 400, thorough: 20_000, f: reserved },
        Phase { name: "every short length", quick: 64, thorough: 64, f: lengths },
        Phase { name: "data size against length", quick: 3000, thorough: 300_000, f: sizes },
        Phase { name: "valid headers", quick: 3000, thorough: 300_000, f: valid },
        Phase { name: "named versions", quick: 64, thorough: 3000, f: named },
        Phase { name: "numbers in fields", quick: 16, thorough: 16, f: numbers },
        Phase { name: "every data size", quick: 16, thorough: 16, f: all_sizes },
    ],
};

/// The names of the minor versions stand for the numbers 0 to 6, in this order.
fn named(cx: &mut Cx, case: u64) -> Res {
    use HiveMinorVersion as V;
    let all = [V::WindowsNT3_1Beta, V::WindowsNT3_1, V::WindowsNT3_5, V::WindowsNT4, V::WindowsXPBeta, V::WindowsXP, V::WindowsVista];
    for i in 0..400u64 {
        let n = match i {
            0..=15 => i as u32,
            16..=47 => 1 << (i - 16),
            _ => cx.rng.log_range(0, 0xffff_ffff) as u32,
        };
        cx.eval(1);
        let got = call("HiveMinorVersion::n", || V::n(n))?;
        if got != all.get(n as usize).copied() {
            return diff("HiveMinorVersion::n", format!("{n} is {got:?}"));
        }
        let m = cx.rng.below(7) as u32;
        if let Some(v) = got {
            if v as u32 != n || v.cmp(&all[m as usize]) != n.cmp(&m) || (v == all[m as usize]) != (n == m) {
                return diff("HiveMinorVersion", format!("{v:?} is {} and compared with {:?}: {:?}", v as u32, all[m as usize], v.cmp(&all[m as usize])));
            }
        }
        if case == 0 || i >= 48 {
            cx.fp(mix(0x6e61_6d65 ^ n as u64));
        }
    }
    Ok(())
}

/// The verdict on `bytes`, compared with the oracle.
fn verdict(cx: &mut Cx, bytes: &[u8]) -> Res {
    cx.eval(1);
    let faults = Oracle::header_faults(bytes);
    let short = bytes.len() < BASE;
    let a = call("Hive::new", || Hive::new(bytes).map(|_| ()))?;
    match &a {
        Ok(()) if faults.is_empty() => (),
        Ok(()) => return diff("Hive::new", format!("accepts a header with {faults:?}")),
        Err(e) if faults.is_empty() => return diff("Hive::new", format!("rejects a valid header with {e:?}")),
        // the wording of the numbers belongs to C16: here the kind of condition must be violated
        Err(e) if faults.iter().any(|f| same_condition(f, e)) => (),
        Err(e) => return diff("Hive::new", format!("reports {e:?}, violated are {faults:?}")),
    }
    let h = call("Hive::without_validation", || Hive::without_validation(bytes))?;
    match h {
        Ok(_) if short => return diff("Hive::without_validation", format!("accepts {} bytes", bytes.len())),
        Err(e) if !short => return diff("Hive::without_validation", format!("rejects {} bytes with {e:?}", bytes.len())),
        Err(e) => {
            if e != faults[0] {
                return diff("Hive::without_validation", format!("{e:?} instead of {:?}", faults[0]));
            }
        }
        Ok(h) => {
            let b = call("Hive::validate", || h.validate())?;
            if a != b {
                return diff("Hive::validate", format!("{b:?}, but Hive::new gave {a:?}"));
            }
            let v = call("versions", || (h.major_version(), h.minor_version()))?;
            let u = |p: usize| u32::from_le_bytes(bytes[p..p + 4].try_into().unwrap());
            if v != (u(20), u(24)) {
                return diff("versions", format!("{v:?}"));
            }
            cx.fp(mix(hivecore::rng::digest(&bytes[..512]) ^ bytes.len() as u64));
        }
    }
    cx.ev(
        match &a {
            Ok(()) => "accepted",
            Err(e) => kind(e),
        },
        1,
    );
    Ok(())
}

fn same_condition(f: &NtHiveError, e: &NtHiveError) -> bool {
    use NtHiveError as E;
    match (f, e) {
        // one variant serves several fields: the field must be the violated one
        (E::InvalidSizeField { offset: a, .. }, E::InvalidSizeField { offset: b, .. }) => a == b,
        (E::InvalidSizeFieldAlignment { offset: a, .. }, E::InvalidSizeFieldAlignment { offset: b, .. }) => a == b,
        (a, b) => kind(a) == kind(b),
    }
}

fn base(cx: &mut Cx, pages: usize) -> Vec<u8> {
    let minor = *cx.rng.pick(&[3, 4, 5, 6, 7, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
    let minor = hivecore::dict::sometimes(&mut cx.rng, 6, 3, 0xffff_ffff).map_or(minor, |n| n as u32);
    let root = cx.rng.next() as u32;
    let root = hivecore::dict::sometimes(&mut cx.rng, 6, 0, 0xffff_ffff).map_or(root, |n| n as u32);
    let mut b = base_block(&mut cx.rng, minor, root, (pages * 4096) as u32);
    b.resize(BASE + pages * 4096, 0);
    b
}

fn flips(cx: &mut Cx, _: u64) -> Res {
    let p = cx.rng.idx(3);
    let mut b = base(cx, p);
    verdict(cx, &b)?;
    for bit in 0..4096usize {
        b[bit / 8] ^= 1 << (bit % 8);
        cx.set_hive(&b, format!("bit {bit} flipped"));
        verdict(cx, &b)?;
        if Hive::new(&b[..]).is_ok() {
            return diff("Hive::new", format!("accepts a header whose bit {} of byte {:#x} was flipped", bit % 8, bit / 8));
        }
        b[bit / 8] ^= 1 << (bit % 8);
    }
    cx.ev("bit flips", 4096);
    Ok(())
}

fn put(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}

fn fields(cx: &mut Cx, _: u64) -> Res {
    let p = cx.rng.idx(4);
    let mut b = base(cx, p);
    let n = if cx.rng.chance(2, 3) { 1 } else { cx.rng.range(1, 6) };
    let mut d = vec![];
    let mut sum = true;
    for _ in 0..n {
        let r = &mut cx.rng;
        let x = match r.below(4) {
            0 => r.next() as u32,
            1 => hivecore::dict::sometimes(r, 3, 0, 0xffff_ffff).map_or_else(|| 1 << r.below(32), |n| n as u32),
            2 => r.below(9) as u32,
            _ => *r.pick(&[0, 1, 2, 3, 4, 6, 0xffff, 0x10000, 0xffff_ffff, 0x8000_0000, 0x0100_0000]),
        };
        match r.below(9) {
            0 => {
                let i = r.idx(4);
                b[i] = *r.pick(&[b'R', b'r', 0, 0xff, b'e', b'g', b'f', b'F', b'G', b'E']);
                d.push("signature");
            }
            1 => {
                let at = *r.pick(&[4, 8]);
                put(&mut b, at, x);
                d.push("sequence number");
            }
            2 => {
                put(&mut b, 20, x);
                d.push("major");
            }
            3 => {
                put(&mut b, 24, x);
                d.push("minor");
            }
            4 => {
                put(&mut b, 28, x);
                d.push("type");
            }
            5 => {
                put(&mut b, 32, x);
                d.push("format");
            }
            6 => {
                put(&mut b, 44, x);
                d.push("clustering");
            }
            7 => {
                let ds = match r.below(4) {
                    0 => r.below(6) as u32 * 4096,
                    1 => r.below(6) as u32 * 4096 + *r.pick(&[1u32, 2, 512, 2048, 4095]),
                    _ => x,
                };
                put(&mut b, 40, ds);
                d.push("data size");
            }
            _ => {
                sum = false;
                d.push("checksum");
            }
        }
    }
    fix_checksum(&mut b);
    if !sum {
        let x = match cx.rng.below(4) {
            0 => 0,
            1 => u32::MAX,
            2 => checksum(&b) ^ 1,
            _ => cx.rng.next() as u32,
        };
        put(&mut b, 508, x);
    }
    let d = d.join(", ");
    cx.sample(|| d.clone());
    cx.set_hive(&b, d);
    verdict(cx, &b)
}

fn reserved(cx: &mut Cx, case: u64) -> Res {
    let mut b = base(cx, 0);
    // choose one dword of the name or padding so that the plain XOR becomes a given value
    let at = 48 + 4 * cx.rng.idx((508 - 48) / 4);
    let target: u32 = [0, u32::MAX, 1, u32::MAX - 1][case as usize % 4];
    let mut x = 0u32;
    for i in (0..508).step_by(4) {
        if i != at {
            x ^= u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        }
    }
    put(&mut b, at, x ^ target);
    for stored in [0, 1, 2, u32::MAX, u32::MAX - 1, u32::MAX - 2, 0x8000_0000] {
        put(&mut b, 508, stored);
        cx.set_hive(&b, format!("plain XOR {target:#x}, stored {stored:#x}"));
        verdict(cx, &b)?;
    }
    cx.ev("checksums that collapse", (case % 4 < 2) as u64);
    Ok(())
}

fn lengths(cx: &mut Cx, case: u64) -> Res {
    let b = base(cx, 1);
    for l in (case as usize * 64)..(case as usize * 64 + 64) {
        cx.set_hive(&b[..l], format!("{l} bytes"));
        verdict(cx, &b[..l])?;
    }
    for l in [4095usize, 4096, 4097, 4100, 8191, 8192] {
        cx.set_hive(&b[..l], format!("{l} bytes"));
        verdict(cx, &b[..l])?;
    }
    // all-zero and all-ones input
    for f in [0u8, 0xff, b'r'] {
        let z = vec![f; case as usize * 70];
        verdict(cx, &z)?;
    }
    cx.ev("short lengths", 64);
    Ok(())
}

fn sizes(cx: &mut Cx, _: u64) -> Res {
    let pages = cx.rng.idx(5);
    let mut b = base(cx, 6);
    let len = BASE + pages * 4096 + *cx.rng.pick(&[0usize, 0, 1, 4, 511, 4095]);
    let ds = match cx.rng.below(4) {
        0 => pages as u32 * 4096,
        1 => (pages as u32 + 1) * 4096,
        2 => cx.rng.below(7) as u32 * 4096,
        _ => *cx.rng.pick(&[0xffff_f000u32, 0x8000_0000, 0x7fff_f000, 0, 4096, 0x1000_0000]),
    };
    put(&mut b, 40, ds);
    fix_checksum(&mut b);
    b.truncate(len);
    cx.set_hive(&b, format!("data size {ds:#x}, {} bytes present", len - BASE));
    verdict(cx, &b)
}

/// What lies behind the checksum, and the contents of the data, do not influence the verdict.
fn valid(cx: &mut Cx, case: u64) -> Res {
    let mut b = base(cx, 1);
    match case % 4 {
        0 => {
            let k = cx.rng.bytes(BASE - 512);
            b[512..BASE].copy_from_slice(&k);
        }
        1 => {
            let i = cx.rng.range(512, b.len() as u64 - 1) as usize;
            b[i] ^= 1 << cx.rng.below(8);
        }
        2 => {
            let k = cx.rng.bytes(4096);
            b[BASE..].copy_from_slice(&k);
        }
        _ => {
            let (_, h, _) = random_hive(cx, &TreeOpts::default());
            b = h.bytes;
        }
    }
    cx.set_hive(&b, "valid");
    let r = call("Hive::new", || Hive::new(&b[..]).map(|_| ()))?;
    if let Err(e) = r {
        return diff("Hive::new", format!("rejects a valid hive: {e:?}"));
    }
    // a mutable slice gets the same verdict
    let mut c = b.clone();
    if let Err(e) = call("Hive::new", || Hive::new(&mut c[..]).map(|_| ()))? {
        return diff("Hive::new", format!("rejects a valid mutable hive: {e:?}"));
    }
    if b != c {
        return diff("Hive::new", "modified its input");
    }
    verdict(cx, &b)
}

/// Every small number as a version, sequence number, file type, file format and clustering factor.
fn numbers(cx: &mut Cx, case: u64) -> Res {
    let mut b = base(cx, 1);
    let at = [4, 8, 20, 24, 28, 32, 44, 36][case as usize % 8];
    for n in (0..=70_000u32).chain((17..32).map(|i| 1 << i)) {
        put(&mut b, at, n);
        if at == 4 && n % 2 == 0 {
            // both sequence numbers, so that they are equal
            put(&mut b, 8, n);
        }
        fix_checksum(&mut b);
        if n % 4096 == 0 {
            cx.set_hive(&b, format!("field at {at} up to {}", n + 4096));
        }
        verdict(cx, &b)?;
    }
    cx.ev("field values", 70_001);
    Ok(())
}

/// Every data size, with as many bytes, one fewer, and more.
fn all_sizes(cx: &mut Cx, case: u64) -> Res {
    let pages = if case % 8 == 0 { 1 << 20 } else { 1 << 16 };
    let Some(mut s) = Sparse::new(BASE + (pages << 12)) else {
        cx.ev("no memory for sizes", 1);
        return Ok(());
    };
    let b = s.get();
    b[..BASE].copy_from_slice(&base(cx, 0)[..BASE]);
    for p in 0..pages as u64 {
        if p % 8 != case % 8 && p < 1 << 16 || p >= 1 << 16 && p % 61 != 0 {
            continue;
        }
        put(b, 40, (p << 12) as u32);
        fix_checksum(b);
        let n = BASE + (p as usize) * 4096;
        verdict(cx, &b[..n])?;
        verdict(cx, &b[..n - 1])?;
        verdict(cx, b)?;
        if p % 4096 == case % 8 {
            put(b, 40, (p << 12) as u32 + 1 + (p % 4095) as u32);
            fix_checksum(b);
            verdict(cx, b)?;
        }
    }
    cx.ev("every data size", 1);
    Ok(())
}
