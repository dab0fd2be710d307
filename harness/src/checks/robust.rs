//! C01: no call panics, crashes, overflows the stack or touches memory outside the input.
use super::util::*;
use super::volatile::chain;
use crate::cx::*;
use hivecore::build::*;
use hivecore::exercise::*;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::rng::{digest, mix, Rng};
use nt_hive::*;

pub const C01: Check = Check {
    id: "C01",
    rule: "every public function is called on everything reachable, by every access path, in hives with one or many damaged \
           fields, every field of small hives set to every hostile value, cell soup, damaged and random headers, every \
           truncation, byte havoc of the repository's test hive, cycles, deep nesting on threads with the default stack, data \
           gigabytes into the file, names of every length and content and odd search strings; overflow checks and debug \
           assertions are on, and each call is watched for panics, signals and time; every list length; non-trivial: bytes that opened as a hive \
           and whose walk met an error; distinct by bytes",
    phases: &[
        Phase { name: "random damage", quick: 40_000, thorough: 6_000_000, f: random },
        Phase { name: "every field, every hostile value", quick: 480, thorough: 30_000, f: every },
        Phase { name: "soup", quick: 20_000, thorough: 3_000_000, f: soup },
        Phase { name: "headers and random bytes", quick: 60_000, thorough: 4_000_000, f: header },
        Phase { name: "every truncation", quick: 48, thorough: 1500, f: truncations },
        Phase { name: "test hive havoc", quick: 4000, thorough: 300_000, f: havoc },
        Phase { name: "cycles and nesting", quick: 600, thorough: 30_000, f: cycles },
        Phase { name: "far offsets", quick: 40, thorough: 600, f: far },
        Phase { name: "names", quick: 60_000, thorough: 4_000_000, f: names },
        Phase { name: "long paths, names and lists", quick: 96, thorough: 2000, f: long },
        Phase { name: "calls on every list length", quick: 24, thorough: 24, f: super::sweep::survives },
    ],
};

fn budget(cx: &mut Cx) -> Budget {
    Budget { nodes: 60, items: 4000, data: 1 << 20, thorough: cx.rng.chance(1, 2) }
}

fn absorb(cx: &mut Cx, t: &Tally, fp: u64) {
    cx.eval(1);
    cx.ev("calls", t.calls);
    cx.ev("errors formatted", t.errors);
    cx.ev("keys visited", t.nodes);
    cx.ev("values visited", t.values);
    cx.ev("names used", t.strings);
    cx.ev("data bytes", t.bytes);
    if t.nodes > 0 && t.errors > 0 {
        cx.fp(fp);
    }
}

fn all(cx: &mut Cx, bytes: &[u8]) -> Res {
    let b = budget(cx);
    let mut r = Rng::new(cx.rng.next());
    let mut e = Ex::new(&mut r, b);
    e.open(bytes)?;
    let t = e.t.clone();
    absorb(cx, &t, digest(bytes));
    Ok(())
}

fn clear(cx: &mut Cx, bytes: &[u8]) -> Res {
    let b = budget(cx);
    let mut copy = bytes.to_vec();
    let mut r = Rng::new(cx.rng.next());
    let mut e = Ex::new(&mut r, b);
    e.clear(&mut copy[..])?;
    let t = e.t.clone();
    absorb(cx, &t, 0);
    Ok(())
}

/// Misaligned copies behave like aligned ones.
fn shifted(cx: &mut Cx, bytes: &[u8]) -> Vec<u8> {
    let k = cx.rng.idx(8);
    let mut v = vec![0x5a; k];
    v.extend_from_slice(bytes);
    v
}

fn tree(cx: &mut Cx, keys: usize) -> (Built, Opts) {
    let t = TreeOpts {
        max_keys: keys,
        max_fanout: 8,
        max_values: 4,
        big_chance: (1, 30),
        wild_names: cx.rng.chance(1, 2),
        ..TreeOpts::default()
    };
    let (_, b, o) = random_hive(cx, &t);
    (b, o)
}

fn random(cx: &mut Cx, _: u64) -> Res {
    let (mut b, o) = tree(cx, 24);
    let mut d = vec![];
    mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    if cx.rng.chance(1, 2) && b.bytes.len() >= BASE {
        fix_checksum(&mut b.bytes);
    }
    cx.set_hive(&b.bytes, format!("{}; damage: {}", o.describe(), d.join(", ")));
    cx.sample(|| format!("{} -> {}", o.describe(), d.join(", ")));
    let s = shifted(cx, &b.bytes);
    let k = s.len() - b.bytes.len();
    all(cx, &s[k..])?;
    clear(cx, &b.bytes)
}

fn every(cx: &mut Cx, _: u64) -> Res {
    let (b, o) = tree(cx, 6);
    for fi in 0..b.fields.len() {
        let f = b.fields[fi].clone();
        if mutate::is_bytes(f.kind) {
            continue;
        }
        let vals = mutate::hostile_values(&mut cx.rng, &b, &f);
        let mut bytes = b.bytes.clone();
        for v in vals {
            set(&mut bytes, f.pos, mutate::field_width(f.kind), v);
            cx.set_hive(&bytes, format!("{}; {:?} (cell {:?} {:#x}) at {:#x} := {:#x}", o.describe(), f.kind, f.cell, f.cell_off, f.pos, v));
            all(cx, &bytes)?;
            clear(cx, &bytes)?;
        }
    }
    Ok(())
}

fn soup(cx: &mut Cx, _: u64) -> Res {
    let n = cx.rng.log_range(4, 120) as usize;
    let b = mutate::soup(&mut cx.rng, n);
    cx.set_hive(&b, format!("soup of {n} cells"));
    all(cx, &b)?;
    clear(cx, &b)
}

fn header(cx: &mut Cx, case: u64) -> Res {
    let mut b = match case % 4 {
        0 => {
            let n = cx.rng.log_range(0, 9000) as usize;
            cx.rng.bytes(n)
        }
        1 => vec![*cx.rng.pick(&[0u8, 0xff, b'r', 0x7f, 0x80]); cx.rng.log_range(0, 9000) as usize],
        _ => tree(cx, 3).0.bytes,
    };
    if b.len() >= 4 && cx.rng.chance(1, 2) {
        b[..4].copy_from_slice(b"regf");
    }
    let fields = [0usize, 4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 44, 508];
    for _ in 0..cx.rng.idx(4) {
        let p = *cx.rng.pick(&fields);
        if p + 4 <= b.len() {
            let v = *cx.rng.pick(&[0u32, 1, 3, 4, 31, 32, 36, 0xff, 0x1000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]);
            b[p..p + 4].copy_from_slice(&v.to_le_bytes());
        }
    }
    if cx.rng.chance(1, 2) {
        let n = cx.rng.idx(b.len() + 1);
        b.truncate(n);
    }
    if cx.rng.chance(2, 3) && b.len() >= 512 {
        fix_checksum(&mut b);
    }
    cx.set_hive(&b, "header");
    all(cx, &b)?;
    clear(cx, &b)
}

fn truncations(cx: &mut Cx, case: u64) -> Res {
    let (b, o) = tree(cx, 4);
    let n = b.bytes.len();
    let lens: Vec<usize> = if case % 2 == 0 {
        (BASE..=n).filter(|i| i % 8 == (case / 2 % 8) as usize || *i < BASE + 200).collect()
    } else {
        (0..=BASE + 8).step_by(3).chain(b.cells.iter().flat_map(|c| {
            let p = BASE + c.0 as usize;
            (p.saturating_sub(2)..p + 90).step_by(3)
        })).filter(|l| *l <= n).collect()
    };
    for l in lens {
        cx.set_hive(&b.bytes[..l], format!("{} truncated to {l}", o.describe()));
        // an exact allocation: reads behind the end are visible to a sanitizer
        let v = b.bytes[..l].to_vec().into_boxed_slice();
        all(cx, &v)?;
        if l % 16 == 0 {
            clear(cx, &v)?;
        }
    }
    Ok(())
}

pub fn testhive() -> &'static [u8] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| std::fs::read("/repo/testdata/testhive").unwrap_or_default())
}

fn havoc(cx: &mut Cx, _: u64) -> Res {
    let t = testhive();
    if t.len() < 8192 {
        return Err(Fault::Skip("no test hive".into()));
    }
    let mut b = t.to_vec();
    let n = cx.rng.log_range(1, 400);
    let mut d = vec![];
    // the second half of the hive is one long list of keys and values: look everywhere, but not evenly
    let len = b.len();
    let span = *cx.rng.pick(&[len, len, 20_000.min(len)]);
    for _ in 0..n {
        let at = cx.rng.idx(span - 8);
        match cx.rng.below(4) {
            0 => b[at] ^= 1 << cx.rng.below(8),
            1 => b[at] = cx.rng.next() as u8,
            2 => {
                let v = *cx.rng.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 32, 4096]);
                let at = at / 4 * 4;
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            _ => {
                let to = cx.rng.idx(b.len() - 64);
                let tmp: Vec<u8> = b[at.min(len - 64)..at.min(len - 64) + 64].to_vec();
                b[to..to + 64].copy_from_slice(&tmp);
            }
        }
        if d.len() < 5 {
            d.push(at);
        }
    }
    cx.set_hive(&b, format!("test hive, {n} damages, first at {d:x?}"));
    all(cx, &b)?;
    clear(cx, &b)
}

fn small_stack(cx: &mut Cx, f: impl FnOnce(&mut Cx) -> Res + Send) -> Res {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || f(cx)).unwrap().join()
    })
    .unwrap_or_else(|_| Err(Fault::Skip("worker thread panicked".into())))
}

fn cycles(cx: &mut Cx, case: u64) -> Res {
    let minor = *cx.rng.pick(&[3, 5, 6]);
    let bytes = match case % 4 {
        0 => {
            // keys whose lists lead back to any key
            let mut raw = Raw::new();
            let n = cx.rng.range(1, 40) as usize;
            let keys: Vec<u32> = (0..n).map(|i| raw.node(format!("k{i}").as_bytes(), NIL, (0, NIL))).collect();
            for k in &keys {
                let m = cx.rng.range(1, 4) as usize;
                let items: Vec<u32> = (0..m).map(|_| *cx.rng.pick(&keys)).collect();
                let sig = *cx.rng.pick(&[b"lf", b"lh", b"li"]);
                let mut l = raw.list(sig, &items);
                if cx.rng.chance(1, 3) {
                    l = raw.list(b"ri", &[l, l]);
                }
                raw.put32(*k, 28, l);
                raw.put32(*k, 20, m as u32);
            }
            raw.finish(&mut cx.rng, minor, keys[0])
        }
        1 => {
            // far too deep
            let levels = *cx.rng.pick(&[511, 512, 513, 514, 1000, 3000, 20_000]);
            let mut raw = Raw::new();
            let keys: Vec<u32> = (0..=levels).map(|_| raw.node(b"k", NIL, (0, NIL))).collect();
            for i in 0..levels {
                let l = raw.list(b"li", &[keys[i + 1]]);
                raw.put32(keys[i], 28, l);
                raw.put32(keys[i], 20, 1);
            }
            raw.finish(&mut cx.rng, minor, keys[0])
        }
        2 => {
            // index roots pointing at index roots and themselves, lists at keys and values
            let mut raw = Raw::new();
            let k = raw.node(b"k", NIL, (0, NIL));
            let l = raw.list(b"lh", &[k, k]);
            let ri = raw.list(b"ri", &[l, 0, 0]);
            let target = *cx.rng.pick(&[ri, k, l]);
            raw.put32(ri, 8, target);
            raw.put32(k, 28, ri);
            raw.put32(k, 20, 3);
            raw.finish(&mut cx.rng, minor, k)
        }
        _ => {
            let n = cx.rng.range(100, 512) as usize;
            let t = chain(&mut cx.rng, n, true);
            let o = Opts::random(&mut cx.rng);
            let mut b = build(&mut cx.rng, &t, &o);
            // bend one list entry back up
            let offs: Vec<usize> = b.fields.iter().filter(|f| f.kind == FK::LeafItemOff).map(|f| f.pos).collect();
            if !offs.is_empty() {
                let p = *cx.rng.pick(&offs);
                let to = b.root_off;
                set(&mut b.bytes, p, 4, to as u64);
            }
            b.bytes
        }
    };
    cx.set_hive(&bytes, format!("cycles {}", case % 4));
    small_stack(cx, |cx| {
        all(cx, &bytes)?;
        clear(cx, &bytes)
    })
}

fn far(cx: &mut Cx, case: u64) -> Res {
    let (mut b, o) = tree(cx, 6);
    let mut d = vec![];
    if case % 2 == 1 {
        mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    }
    if b.bytes.len() <= BASE {
        return Ok(());
    }
    let room = (u32::MAX as usize) - (b.bytes.len() - BASE) - 4096;
    let shift = match case % 3 {
        0 => room as u32,
        1 => 0x8000_0000,
        _ => cx.rng.range(0x1000_0000, room as u64) as u32,
    } & !0xfff;
    let Some(mut s) = Sparse::place(&b, shift) else { return Err(Fault::Skip("no address space".into())) };
    cx.note = format!("{}; data {shift:#x} bytes into the hive; damage: {}", o.describe(), d.join(", "));
    let m = s.get();
    let bd = budget(cx);
    let mut r = Rng::new(cx.rng.next());
    let mut e = Ex::new(&mut r, bd);
    e.open(m)?;
    e.clear(&mut *m)?;
    let t = e.t.clone();
    absorb(cx, &t, mix(digest(&b.bytes) ^ shift as u64));
    cx.ev("hives with data beyond 256 MB", 1);
    Ok(())
}

/// Names as free-standing strings of any bytes and lengths, odd ones included.
fn names(cx: &mut Cx, case: u64) -> Res {
    let mk = |cx: &mut Cx| -> Vec<u8> {
        match cx.rng.below(6) {
            0 => {
                let n = cx.rng.log_range(0, 300) as usize;
                cx.rng.bytes(n)
            }
            1 => units_bytes(&rand_units(&mut cx.rng, 20, true)),
            2 => {
                let mut v = units_bytes(&rand_units(&mut cx.rng, 20, true));
                v.push(cx.rng.next() as u8);
                v
            }
            3 => vec![],
            4 => vec![cx.rng.next() as u8],
            _ => {
                let mut v = vec![];
                for _ in 0..cx.rng.idx(5) {
                    v.extend_from_slice(&(0xd800u16 + cx.rng.below(0x800) as u16).to_le_bytes());
                }
                v
            }
        }
    };
    let (a, b) = (mk(cx), mk(cx));
    cx.note = format!("names {a:02x?} and {b:02x?}");
    let x = if case & 1 == 0 { NtHiveNameString::Latin1(&a) } else { NtHiveNameString::Utf16LE(&a) };
    let y = if case & 2 == 0 { NtHiveNameString::Latin1(&b) } else { NtHiveNameString::Utf16LE(&b) };
    let bd = budget(cx);
    let mut r = Rng::new(cx.rng.next());
    let mut e = Ex::new(&mut r, bd);
    e.name(&x, Some(&y))?;
    e.name(&y, Some(&x))?;
    let t = e.t.clone();
    absorb(cx, &t, 0);
    cx.fp(mix(digest(&a) ^ digest(&b).rotate_left(7) ^ case & 3));
    Ok(())
}

/// Names as long as the format can state, and equal or almost equal ones, on a stack of 2 MiB.
fn long_names(cx: &mut Cx) -> Res {
    let n = *cx.rng.pick(&[65535usize, 65534, 40_000, 20_001]);
    let c = *cx.rng.pick(b"aZ\xe9\xff0");
    let a = vec![c; n];
    let mut b = a.clone();
    if cx.rng.chance(1, 2) {
        let at = if cx.rng.chance(1, 2) { n - 1 } else { cx.rng.idx(n) };
        b[at] = *cx.rng.pick(b"ab\xe9");
    }
    let (la, lb) = (cx.rng.chance(1, 2), cx.rng.chance(1, 2));
    // the same units in the other encoding, as far as they fit
    let wide = |v: &[u8]| -> Vec<u8> { v.iter().take(n / 2).flat_map(|c| [*c, 0]).collect() };
    let (x, y) = (if la { a[..n / 2].to_vec() } else { wide(&a) }, if lb { b[..n / 2].to_vec() } else { wide(&b) });
    let mut raw = Raw::new();
    let k = raw.node(&a, NIL, (0, NIL));
    let l = raw.list(*cx.rng.pick(&[b"lf", b"lh", b"li"]), &[k]);
    let v = raw.value(&a, 1, 0x8000_0004, 0x41);
    let vl = raw.offsets(&[v]);
    let root = raw.node(b"root", l, (1, vl));
    let bytes = raw.finish(&mut cx.rng, 5, root);
    cx.set_hive(&bytes, format!("names of {n} times {c:#x}"));
    let name: String = a.iter().map(|c| *c as char).collect();
    small_stack(cx, |cx| {
        let bd = budget(cx);
        let mut r = Rng::new(cx.rng.next());
        let mut e = Ex::new(&mut r, bd);
        for (p, q) in [(&a, &b), (&b, &a)] {
            e.name(&NtHiveNameString::Latin1(p), Some(&NtHiveNameString::Latin1(q)))?;
            e.name(&NtHiveNameString::Utf16LE(p), Some(&NtHiveNameString::Utf16LE(q)))?;
        }
        let mk = |v, l| if l { NtHiveNameString::Latin1(v) } else { NtHiveNameString::Utf16LE(v) };
        e.name(&mk(&x, la), Some(&mk(&y, lb)))?;
        let t = e.t.clone();
        absorb(cx, &t, 0);
        let hive = open(&bytes)?;
        let root = nav_ok("root_key_node", || hive.root_key_node())?;
        call("subkey", || root.subkey(&name).is_some())?;
        call("value", || root.value(&name).is_some())?;
        call("subpath", || root.subpath(&name).is_some())?;
        cx.eval(3);
        cx.max("name length", n as u64);
        drop(hive);
        all(cx, &bytes)
    })
}

fn long(cx: &mut Cx, case: u64) -> Res {
    match case % 4 {
        3 => long_names(cx),
        0 => {
            // paths of a million components
            let (b, o) = tree(cx, 8);
            cx.set_hive(&b.bytes, format!("{} with a long path", o.describe()));
            let n = cx.rng.log_range(1000, 1_000_000) as usize;
            let part = *cx.rng.pick(&["", "a", "x\u{e9}", "\u{10000}"]);
            let p = format!("{part}\\").repeat(n);
            small_stack(cx, |cx| {
                let hive = open(&b.bytes)?;
                let root = nav_ok("root_key_node", || hive.root_key_node())?;
                call("subpath", || root.subpath(&p).is_some())?;
                call("subkey", || root.subkey(&p).is_some())?;
                call("value", || root.value(&p).is_some())?;
                cx.eval(3);
                cx.max("path length", p.len() as u64);
                Ok(())
            })?;
            // a key that contains itself under one name: arbitrarily long paths resolve
            let mut raw = Raw::new();
            let k = raw.node(b"a", NIL, (0, NIL));
            let l = raw.list(b"li", &[k]);
            raw.put32(k, 28, l);
            raw.put32(k, 20, 1);
            let bytes = raw.finish(&mut cx.rng, 5, k);
            let p = "a\\".repeat(n / 10 + 1);
            small_stack(cx, |cx| {
                let hive = open(&bytes)?;
                let root = nav_ok("root_key_node", || hive.root_key_node())?;
                cx.eval(1);
                call("subpath", || root.subpath(&p).is_some()).map(|_| ())
            })
        }
        1 => {
            // the longest lists, with a damaged spot
            let n = *cx.rng.pick(&[65535usize, 65534, 40_000]);
            let sig: &[u8; 2] = cx.rng.pick::<&[u8; 2]>(&[b"lf", b"lh", b"li"]);
            let mut raw = Raw::new();
            let k = raw.node(b"k", NIL, (0, NIL));
            let mut items = vec![k; n];
            let at = cx.rng.idx(n);
            items[at] = *cx.rng.pick(&[0, NIL, 0x7fff_fff8, 4, 36]);
            let l = raw.list(sig, &items);
            let ri = raw.list(b"ri", &vec![l; cx.rng.range(1, 3) as usize]);
            let pick = *cx.rng.pick(&[l, ri]);
            raw.put32(k, 28, pick);
            raw.put32(k, 20, n as u32);
            let bytes = raw.finish(&mut cx.rng, 5, k);
            cx.set_hive(&bytes, format!("list of {n} entries, entry {at} damaged"));
            all(cx, &bytes)?;
            clear(cx, &bytes)
        }
        _ => {
            // data of many segments that share one cell, and of none
            let minor = *cx.rng.pick(&[4, 5, 6]);
            let mut raw = Raw::new();
            let n = *cx.rng.pick(&[0usize, 1, 2, 60, 65535]);
            let seg = raw.cell(&vec![0x41u8; *cx.rng.pick(&[0usize, 4, 16344, 16348, 100])]);
            let list = raw.offsets(&vec![seg; n]);
            let mut p = b"db".to_vec();
            p.extend_from_slice(&(n as u16).to_le_bytes());
            p.extend_from_slice(&list.to_le_bytes());
            let db = raw.cell(&p);
            let ty = cx.rng.below(13) as u32;
            let size = *cx.rng.pick(&[16345u32, 20_000, 16344 * 2, 16344 * 2 + 1, 16344 * 60, 0x7fff_ffff, 0x4000_0000, 100_000]);
            let v = raw.value(b"v", ty, size, db);
            let vl = raw.offsets(&[v]);
            let k = raw.node(b"k", NIL, (1, vl));
            let bytes = raw.finish(&mut cx.rng, minor, k);
            cx.set_hive(&bytes, format!("{n} segments of one cell, size {size:#x}, type {ty}"));
            all(cx, &bytes)
        }
    }
}
