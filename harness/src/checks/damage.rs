//! C15 and C16: damaged structures are rejected, confined, and reported precisely.
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::oracle::*;
use hivecore::rng::{digest, mix};
use hivecore::walk::*;
use nt_hive::*;

pub const C15: Check = Check {
    id: "C15",
    rule: "every field of small hives set to every hostile value, random single and combined damage of larger hives, hives \
           truncated at every length, cells shrunk and grown around what their contents need, damaged segments and soup of \
           mistyped, overlapping structures; every reachable query is compared with the reference reader: an error where a \
           needed structure is damaged, otherwise the slice at exactly the designated position; every count and name length in records of random room; non-trivial: the walk met an \
           error; distinct by damaged bytes",
    phases: &[
        Phase { name: "every field, every hostile value", quick: 240, thorough: 16_000, f: |cx, c| every(cx, c, false) },
        Phase { name: "single damage", quick: 16_000, thorough: 2_000_000, f: |cx, c| single(cx, c, false) },
        Phase { name: "combined damage", quick: 16_000, thorough: 2_000_000, f: combined },
        Phase { name: "soup", quick: 8000, thorough: 1_000_000, f: soup },
        Phase { name: "every truncation", quick: 48, thorough: 1500, f: |cx, c| truncations(cx, c, false) },
        Phase { name: "cell sizes around the need", quick: 160, thorough: 8000, f: |cx, c| tight(cx, c, false) },
        Phase { name: "segmented data", quick: 600, thorough: 60_000, f: |cx, c| segmented(cx, c, false) },
        Phase { name: "far offsets", quick: 24, thorough: 400, f: |cx, c| far(cx, c, false) },
        Phase { name: "sweep of name lengths", quick: 16, thorough: 16, f: super::sweep::name_limits_15 },
        Phase { name: "sweep of counts", quick: 15, thorough: 15, f: super::sweep::count_limits_15 },
    ],
};

pub const C16: Check = Check {
    id: "C16",
    rule: "hives with one damaged field (every field of small hives with every hostile value, random ones in larger hives, \
           every truncation, tight cells, damaged segments, far offsets) and headers with one violated condition: each error is \
           compared with the one derived from the format (kind, absolute offset, quantities), through next, nth, skip, last, \
           subkey, subpath, value, all data accessors, into_vec and clear_volatile_subkeys, and its message must contain the \
           numbers; every count and name length in records of random room; non-trivial: an error was met; distinct by damaged bytes",
    phases: &[
        Phase { name: "every field, every hostile value", quick: 240, thorough: 16_000, f: |cx, c| every(cx, c, true) },
        Phase { name: "single damage", quick: 16_000, thorough: 2_000_000, f: |cx, c| single(cx, c, true) },
        Phase { name: "every truncation", quick: 48, thorough: 1500, f: |cx, c| truncations(cx, c, true) },
        Phase { name: "cell sizes around the need", quick: 160, thorough: 8000, f: |cx, c| tight(cx, c, true) },
        Phase { name: "segmented data", quick: 600, thorough: 60_000, f: |cx, c| segmented(cx, c, true) },
        Phase { name: "far offsets", quick: 24, thorough: 400, f: |cx, c| far(cx, c, true) },
        Phase { name: "headers", quick: 24_000, thorough: 2_000_000, f: headers },
        Phase { name: "sweep of name lengths", quick: 16, thorough: 16, f: super::sweep::name_limits_16 },
        Phase { name: "sweep of counts", quick: 15, thorough: 15, f: super::sweep::count_limits_16 },
    ],
};

fn walk(cx: &mut Cx, bytes: &[u8], exact: bool) -> Res {
    cx.eval(1);
    let hive = open(bytes)?;
    let cfg = Cfg {
        exact,
        content: false,
        messages: exact,
        max_nodes: 200,
        max_items: 3000,
        max_data: 1 << 20,
        lookups: 3,
        ..Cfg::default()
    };
    let mut w = Walker::new(bytes.as_ptr(), bytes, cfg);
    w.walk(&hive, &mut cx.rng)?;
    let errs = w.st.errors();
    cx.ev("queries compared", w.st.queries);
    cx.ev("errors met", errs);
    cx.absorb(&w.st);
    if exact {
        paths(cx, &hive, bytes)?;
    }
    if errs > 0 {
        cx.fp(digest(bytes));
    }
    Ok(())
}

fn eq(o: &Oracle, op: &str, ctx: &str, got: Result<(), NtHiveError>, want: &NtHiveError) -> Res {
    match got {
        Err(g) if o.same_report(want, &g) => message_fits(&g).or_else(|m| diff(op, m)),
        Err(g) => diff(op, format!("{ctx}: reports {g:?}, iterating with next reports {want:?}")),
        Ok(()) => diff(op, format!("{ctx}: succeeds, iterating with next reports {want:?}")),
    }
}

/// The same error through the other access paths.
fn paths(cx: &mut Cx, hive: &Hive<&[u8]>, bytes: &[u8]) -> Res {
    let o = Oracle::new(bytes);
    let (Ok(root), Ok(rn)) = (nav("root_key_node", || hive.root_key_node())?, o.root()) else { return Ok(()) };
    let mut todo = vec![(root, rn)];
    let mut seen = std::collections::HashSet::new();
    let mut n_err = 0u64;
    while let Some((k, n)) = todo.pop() {
        if !seen.insert(n.off) || seen.len() > 120 {
            continue;
        }
        let ctx = format!("key at {:#x}", n.cell.start);
        match o.subkeys(&n) {
            None => (),
            Some(Err(e)) => {
                n_err += 1;
                for p in ["x", "x\\y", "\\x"] {
                    match call("subpath", || k.subpath(p))? {
                        None => return diff("subpath", format!("{ctx}: {p:?} is None, the subkeys list has {e:?}")),
                        Some(r) => eq(&o, "subpath", &ctx, r.map(|_| ()), &e)?,
                    }
                }
            }
            Some(Ok(sub)) => {
                let flat = sub.flat();
                let only_error = flat.len() == 1 && flat[0].is_err();
                for (i, w) in flat.iter().enumerate() {
                    let Err(w) = w else { continue };
                    n_err += 1;
                    let c = format!("{ctx} subkey {i}");
                    let fresh = || nav_some("subkeys", || k.subkeys());
                    let mut it = fresh()?;
                    match call("subkeys.nth", || it.nth(i))? {
                        None => return diff("subkeys.nth", format!("{c}: None instead of {w:?}")),
                        Some(r) => eq(&o, "subkeys.nth", &c, r.map(|_| ()), w)?,
                    }
                    let it = fresh()?;
                    match call("subkeys.skip", || it.skip(i).next())? {
                        None => return diff("subkeys.skip", format!("{c}: None instead of {w:?}")),
                        Some(r) => eq(&o, "subkeys.skip", &c, r.map(|_| ()), w)?,
                    }
                    if i + 1 == flat.len() {
                        let it = fresh()?;
                        match call("subkeys.last", || it.last())? {
                            None => return diff("subkeys.last", format!("{c}: None instead of {w:?}")),
                            Some(r) => eq(&o, "subkeys.last", &c, r.map(|_| ()), w)?,
                        }
                    }
                    if only_error {
                        match call("subkey", || k.subkey("any"))? {
                            None => return diff("subkey", format!("{c}: None instead of {w:?}")),
                            Some(r) => eq(&o, "subkey", &c, r.map(|_| ()), w)?,
                        }
                        match call("subpath", || k.subpath("\\any\\thing"))? {
                            None => return diff("subpath", format!("{c}: None instead of {w:?}")),
                            Some(r) => eq(&o, "subpath", &c, r.map(|_| ()), w)?,
                        }
                    }
                }
                // the only key has an unreadable name
                if let ([Ok(c)], false) = (&flat[..], only_error) {
                    if let Err(w) = o.node_name(c) {
                        n_err += 1;
                        match call("subkey", || k.subkey("any"))? {
                            None => return diff("subkey", format!("{ctx}: None instead of {w:?}")),
                            Some(r) => eq(&o, "subkey", &ctx, r.map(|_| ()), &w)?,
                        }
                    }
                }
                if flat.len() < 500 {
                    if let Some(Ok(it)) = nav("subkeys", || k.subkeys())? {
                        let kids: Vec<_> = nav("subkeys", || it.collect())?;
                        for (a, b) in kids.into_iter().zip(flat) {
                            if let (Ok(a), Ok(b)) = (a, b) {
                                todo.push((a, b));
                            }
                        }
                    }
                }
            }
        }
        if let Some(Ok(vals)) = o.values(&n) {
            if vals.len() < 500 {
                for (i, w) in vals.iter().enumerate() {
                    let Err(w) = w else { continue };
                    n_err += 1;
                    let c = format!("{ctx} value {i}");
                    let mut it = nav_some("values", || k.values())?;
                    match call("values.nth", || it.nth(i))? {
                        None => return diff("values.nth", format!("{c}: None instead of {w:?}")),
                        Some(r) => eq(&o, "values.nth", &c, r.map(|_| ()), w)?,
                    }
                    if i + 1 == vals.len() {
                        let it = nav_some("values", || k.values())?;
                        match call("values.last", || it.last())? {
                            None => return diff("values.last", format!("{c}: None instead of {w:?}")),
                            Some(r) => eq(&o, "values.last", &c, r.map(|_| ()), w)?,
                        }
                    }
                }
            }
        }
    }
    cx.ev("errors met through several paths", n_err);
    // the mutable traversal meets the same error
    if let Some((_, Some(e))) = o.clear_plan(400) {
        let mut buf = bytes.to_vec();
        let foot = o.clear_footprint();
        let (pos, _) = o.clear_plan(400).unwrap();
        let overlap = pos.iter().any(|p| foot.iter().any(|f| f.start < p + 4 && *p < f.end && *p != f.start + 24));
        if !overlap {
            let mut h = nav_ok("without_validation", || Hive::without_validation(buf.as_mut_slice()))?;
            let r = call("clear_volatile_subkeys", || h.clear_volatile_subkeys())?;
            eq(&o, "clear_volatile_subkeys", "traversal", r, &e)?;
            cx.ev("errors met by clear_volatile_subkeys", 1);
        }
    }
    Ok(())
}

fn small(cx: &mut Cx) -> (Key, Built) {
    let t = TreeOpts { max_keys: 6, max_values: 3, max_data: 30, max_name: 6, big_chance: (1, 30), ..TreeOpts::default() };
    let (k, b, _) = random_hive(cx, &t);
    (k, b)
}

fn every(cx: &mut Cx, _: u64, exact: bool) -> Res {
    let (_, b) = small(cx);
    let big = b.bytes.len() > 60_000;
    for fi in 0..b.fields.len() {
        let f = b.fields[fi].clone();
        if mutate::is_bytes(f.kind) || (big && cx.rng.chance(3, 4)) {
            continue;
        }
        for v in mutate::hostile_values(&mut cx.rng, &b, &f) {
            let mut bytes = b.bytes.clone();
            set(&mut bytes, f.pos, mutate::field_width(f.kind), v);
            let d = format!("{:?} of {:?} cell {:#x}, at {:#x} := {v:#x}", f.kind, f.cell, f.cell_off, f.pos);
            cx.sample(|| d.clone());
            cx.set_hive(&bytes, d);
            cx.ev(&format!("damaged {:?}", f.kind), 1);
            walk(cx, &bytes, exact)?;
        }
    }
    Ok(())
}

fn single(cx: &mut Cx, _: u64, exact: bool) -> Res {
    let t = TreeOpts { max_keys: 30, max_values: 4, max_data: 200, ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    // one field of every kind is as likely as any other kind
    let mut kinds: Vec<FK> = b.fields.iter().map(|f| f.kind).filter(|k| !mutate::is_bytes(*k)).collect();
    kinds.sort();
    kinds.dedup();
    let k = *cx.rng.pick(&kinds);
    let fs: Vec<usize> = (0..b.fields.len()).filter(|i| b.fields[*i].kind == k).collect();
    let fi = *cx.rng.pick(&fs);
    let d = mutate::damage(&mut cx.rng, &mut b, fi).unwrap_or_default();
    cx.ev(&format!("damaged {k:?}"), 1);
    cx.set_hive(&b.bytes, d);
    walk(cx, &b.bytes, exact)
}

fn combined(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_keys: 30, max_values: 4, max_data: 200, big_chance: (1, 100), ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let mut d = vec![];
    mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    cx.set_hive(&b.bytes, d.join("; "));
    walk(cx, &b.bytes, false)
}

fn soup(cx: &mut Cx, _: u64) -> Res {
    let n = cx.rng.log_range(3, 120) as usize;
    let b = mutate::soup(&mut cx.rng, n);
    cx.set_hive(&b, format!("soup of {n} cells"));
    walk(cx, &b, false)
}

fn truncations(cx: &mut Cx, case: u64, exact: bool) -> Res {
    let t = TreeOpts { max_keys: 6, max_values: 2, max_data: 20, max_name: 6, big_chance: (0, 1), ..TreeOpts::default() };
    let (_, b, _) = random_hive(cx, &t);
    let end = b.cells.iter().map(|c| BASE + c.0 as usize + (b.get32(BASE + c.0 as usize) as i32).unsigned_abs() as usize).max().unwrap();
    // one residue class of lengths per case
    let mut l = BASE + (case % 4) as usize;
    while l <= end.min(b.bytes.len()) {
        let bytes = b.bytes[..l].to_vec();
        cx.set_hive(&bytes, format!("cut to {l} bytes"));
        walk(cx, &bytes, exact)?;
        cx.ev("truncations", 1);
        l += if exact { 4 } else { 4 } + cx.rng.idx(3);
    }
    Ok(())
}

/// Every cell resized to every multiple of 8 (and some odd sizes) around what it holds.
fn tight(cx: &mut Cx, _: u64, exact: bool) -> Res {
    let (_, b) = small(cx);
    let cells = b.cells.clone();
    let big = b.bytes.len() > 60_000;
    for (off, kind) in cells {
        if big && cx.rng.chance(3, 4) {
            continue;
        }
        let p = BASE + off as usize;
        let s = (b.get32(p) as i32).unsigned_abs() as i64;
        let mut sizes: Vec<i64> = vec![];
        if s < 400 {
            sizes.extend((1..=s / 8 + 3).map(|k| k * 8));
        } else {
            sizes.extend([8, 16, s - 8, s + 8, 16344, 16348, 16352]);
        }
        sizes.push(s + 4);
        sizes.push(s + cx.rng.range(1, 7) as i64);
        for z in sizes {
            let mut bytes = b.bytes.clone();
            set(&mut bytes, p, 4, (-z) as i32 as u32 as u64);
            cx.set_hive(&bytes, format!("{kind:?} cell {off:#x} resized from {s} to {z}"));
            walk(cx, &bytes, exact)?;
            cx.ev("resized cells", 1);
        }
    }
    Ok(())
}

fn segmented(cx: &mut Cx, _: u64, exact: bool) -> Res {
    let mut k = Key::named("root");
    let n = cx.rng.range(1, 4) as usize * SEG + *cx.rng.pick(&[1usize, 2, 4, 8, 100, SEG - 1, SEG]);
    let data = cx.rng.bytes(n);
    let ty = *cx.rng.pick(&[1, 3, 7, 4, 11]);
    k.values.push(Value { name: Name::latin1(b"v"), ty, data });
    k.values.push(Value { name: Name::latin1(b"w"), ty: 3, data: vec![7; 9] });
    let mut o = Opts::random(&mut cx.rng);
    o.minor = *cx.rng.pick(&[4, 5, 5, 6, 3]);
    o.extra_segments = *cx.rng.pick(&[0, 0, 2]);
    let mut b = build(&mut cx.rng, &k, &o);
    let fs: Vec<usize> = (0..b.fields.len())
        .filter(|i| {
            let f = &b.fields[*i];
            matches!(f.kind, FK::BigSig | FK::BigCount | FK::BigListOff | FK::BigSegOff | FK::ValDataSize | FK::ValDataOff)
                || f.kind == FK::CellSize && matches!(f.cell, CK::Big | CK::BigList | CK::Segment | CK::Data)
        })
        .collect();
    let fi = *cx.rng.pick(&fs);
    let d = mutate::damage(&mut cx.rng, &mut b, fi).unwrap_or_default();
    cx.set_hive(&b.bytes, d);
    walk(cx, &b.bytes, exact)
}

/// Damage in a hive whose data lies near the end of the offset space: offsets must not be truncated.
fn far(cx: &mut Cx, case: u64, exact: bool) -> Res {
    let t = TreeOpts { max_keys: 10, max_values: 3, max_data: 30, max_name: 6, ..TreeOpts::default() };
    let (_, b, _) = random_hive(cx, &t);
    let shift = super::enumerate::far_shift(cx, case, b.bytes.len());
    let Some(mut m) = Sparse::place(&b, shift) else { return Err(Fault::Skip("no address space".into())) };
    for _ in 0..12 {
        let fs: Vec<usize> = (0..b.fields.len()).filter(|i| b.fields[*i].kind != FK::RootOffset && !mutate::is_bytes(b.fields[*i].kind)).collect();
        let f = b.fields[*cx.rng.pick(&fs)].clone();
        let vals = mutate::hostile_values(&mut cx.rng, &b, &f);
        if vals.is_empty() {
            continue;
        }
        let mut v = *cx.rng.pick(&vals);
        if mutate::is_offset(f.kind) && cx.rng.chance(1, 2) {
            v = v.wrapping_add(shift as u64) & 0xffff_ffff;
        }
        let w = mutate::field_width(f.kind);
        let at = f.pos + shift as usize;
        let old = m.get()[at..at + w].to_vec();
        set(m.get(), at, w, v);
        cx.note = format!("shift {shift:#x}, {:?} at {at:#x} := {v:#x}", f.kind);
        cx.eval(1);
        {
            let bytes: &[u8] = m.get();
            let hive = open(bytes)?;
            let cfg = Cfg { exact, content: false, messages: exact, max_nodes: 60, max_items: 600, max_data: 100_000, lookups: 2, ..Cfg::default() };
            let mut w = Walker::new(bytes.as_ptr(), bytes, cfg);
            w.walk(&hive, &mut cx.rng)?;
            cx.ev("queries compared", w.st.queries);
            cx.ev("errors met beyond 2 GiB or so", w.st.errors());
            if w.st.errors() > 0 {
                cx.fp(mix(shift as u64 ^ v << 32 ^ f.pos as u64));
            }
        }
        m.get()[at..at + w].copy_from_slice(&old);
    }
    Ok(())
}

fn headers(cx: &mut Cx, _: u64) -> Res {
    let pages = cx.rng.idx(4);
    let minor = *cx.rng.pick(&[3, 4, 5, 6]);
    let root = cx.rng.next() as u32;
    let mut b = base_block(&mut cx.rng, minor, root, (pages * 4096) as u32);
    b.resize(BASE + pages * 4096, 0);
    let r = &mut cx.rng;
    let x = match r.below(4) {
        0 => r.next() as u32,
        1 => 1 << r.below(32),
        2 => r.below(9) as u32,
        _ => *r.pick(&[0, 1, 2, 3, 4, 6, 0xffff, 0x10000, 0xffff_ffff, 0x8000_0000, 0x0100_0000]),
    };
    let mut fix = true;
    match r.below(11) {
        0 => {
            let i = r.idx(4);
            b[i] = *r.pick(&[b'R', b'r', 0, 0xff, b'e', b'g', b'f', b'F', b'G', b'E']);
        }
        1 => set(&mut b, 4, 4, x as u64),
        2 => set(&mut b, 8, 4, x as u64),
        3 => set(&mut b, 20, 4, x as u64),
        4 => set(&mut b, 24, 4, x as u64),
        5 => set(&mut b, 28, 4, x as u64),
        6 => set(&mut b, 32, 4, x as u64),
        7 => set(&mut b, 44, 4, x as u64),
        8 => {
            let ds = match r.below(3) {
                0 => r.below(6) as u32 * 4096,
                1 => r.below(6) as u32 * 4096 + *r.pick(&[1u32, 2, 512, 2048, 4095]),
                _ => x,
            };
            set(&mut b, 40, 4, ds as u64);
        }
        9 => {
            let n = r.idx(b.len());
            b.truncate(n);
            fix = false;
        }
        _ => {
            set(&mut b, 508, 4, x as u64);
            fix = false;
        }
    }
    if fix {
        fix_checksum(&mut b);
    }
    cx.set_hive(&b, "header");
    cx.eval(1);
    let faults = if b.len() < BASE {
        vec![NtHiveError::InvalidHeaderSize { offset: 0, expected: BASE, actual: b.len() }]
    } else {
        Oracle::header_faults(&b)
    };
    let res = call("Hive::new", || Hive::new(&b[..]).map(|_| ()))?;
    match res {
        Ok(()) if faults.is_empty() => Ok(()),
        Ok(()) => Err(Fault::Skip("a damaged header is accepted".into())),
        Err(e) => {
            if !faults.contains(&e) {
                return diff("Hive::new", format!("reports {e:?}, damaged is {faults:?}"));
            }
            message_fits(&e).or_else(|m| diff("Hive::new", m))?;
            cx.ev(&format!("header {}", kind(&e)), 1);
            cx.fp(mix(digest(&b[..b.len().min(512)]) ^ b.len() as u64));
            // the same condition through a later validate
            if let Ok(h) = nav("without_validation", || Hive::without_validation(&b[..]))? {
                let v = call("validate", || h.validate())?;
                if v != Err(e.clone()) {
                    return diff("validate", format!("{v:?} instead of {e:?}"));
                }
            }
            Ok(())
        }
    }
}
