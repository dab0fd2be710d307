//! C09 raw data, C10 strings and integers, C11 multi-strings.
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::fold;
use hivecore::model::*;
use hivecore::obs::*;
use hivecore::oracle::Oracle;
use hivecore::rng::{mix, Rng};
use nt_hive::*;

pub const C09: Check = Check {
    id: "C09",
    rule: "values of every size up to 600 and around every multiple of 16344, up to 65535 segments, in every storage form the \
           version allows, with slack, extra segments and scattered cells; the pieces, their lengths and their concatenation \
           are compared with the stored bytes; every size up to 12 segments; non-trivial: the value has data; distinct by (size, storage, content)",
    phases: &[
        Phase { name: "every small size", quick: 304, thorough: 12_000, f: c09_small },
        Phase { name: "segment boundaries", quick: 700, thorough: 60_000, f: c09_edges },
        Phase { name: "random sizes", quick: 1200, thorough: 150_000, f: c09_random },
        Phase { name: "many segments", quick: 16, thorough: 300, f: c09_many },
        Phase { name: "sweep of data sizes", quick: 16, thorough: 16, f: super::sweep::data_sizes },
    ],
};

/// A hive whose root has these values.
fn with_values(cx: &mut Cx, values: Vec<Value>, o: &Opts) -> (Key, Built) {
    let mut tree = Key::named("root");
    tree.values = values;
    let b = build(&mut cx.rng, &tree, o);
    (tree, b)
}

fn values_of<'h>(hive: &'h Hive<&'h [u8]>) -> Res<Vec<KeyValue<'h, &'h [u8]>>> {
    let root = nav_ok("root", || hive.root_key_node())?;
    let it = nav_some("values", || root.values())?;
    let mut v = vec![];
    for x in nav("values", || it.collect::<Vec<_>>())? {
        v.push(x.map_err(|e| Fault::Skip(format!("{e:?}")))?);
    }
    Ok(v)
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes, stored are {}, first difference at {i:#x}", a.len(), b.len())
}

fn raw_check(cx: &mut Cx, v: &KeyValue<&[u8]>, want: &[u8], minor: u32, ctx: &str) -> Res {
    cx.eval(1);
    let s = call("data_size", || v.data_size())?;
    if s as usize != want.len() {
        return diff("data_size", format!("{ctx}: {s}, stored {}", want.len()));
    }
    let d = call("data", || v.data())?.or_else(|e| diff("data", format!("{ctx}: {e:?}")))?;
    let big = want.len() > SEG && minor > 3;
    match &d {
        KeyValueData::Small(b) => {
            if big {
                return diff("data", format!("{ctx}: one piece, but stored in segments"));
            }
            if *b != want {
                return diff("data", format!("{ctx}: {}", first_diff(b, want)));
            }
            cx.ev("in one piece", 1);
        }
        KeyValueData::Big(it) => {
            if !big {
                return diff("data", format!("{ctx}: segments, but stored in one piece"));
            }
            let mut it = it.clone();
            let mut at = 0;
            let mut n = 0u64;
            while let Some(p) = call("BigDataSlices::next", || it.next())? {
                let p = p.or_else(|e| diff("BigDataSlices::next", format!("{ctx}: piece {n}: {e:?}")))?;
                let len = SEG.min(want.len() - at.min(want.len()));
                if p.len() != len || at + len > want.len() || p != &want[at..at + len] {
                    return diff(
                        "BigDataSlices::next",
                        format!("{ctx}: piece {n} has {} bytes, expected bytes {at}..{} of the data", p.len(), at + len),
                    );
                }
                at += len;
                n += 1;
                if n > 70000 {
                    return diff("BigDataSlices::next", format!("{ctx}: does not end"));
                }
            }
            if at != want.len() {
                return diff("BigDataSlices::next", format!("{ctx}: {at} bytes in {n} pieces, stored are {}", want.len()));
            }
            cx.ev("in segments", 1);
            cx.ev("segments read", n);
        }
    }
    let all = call("into_vec", || d.into_vec())?.or_else(|e| diff("into_vec", format!("{ctx}: {e:?}")))?;
    if all != want {
        return diff("into_vec", format!("{ctx}: {}", first_diff(&all, want)));
    }
    cx.ev("bytes compared", want.len() as u64);
    if !want.is_empty() {
        cx.fp(mix(hivecore::rng::digest(want) ^ minor as u64));
    }
    Ok(())
}

fn raw_all(cx: &mut Cx, values: Vec<Value>, o: &Opts, desc: &str) -> Res {
    let (tree, b) = with_values(cx, values, o);
    // unaligned input now and then
    let shift = cx.rng.idx(8);
    let mut buf = vec![0u8; shift];
    buf.extend_from_slice(&b.bytes);
    let bytes = &buf[shift..];
    cx.set_hive(bytes, format!("{desc}, {}", o.describe()));
    let hive = open(bytes)?;
    let vs = values_of(&hive)?;
    if vs.len() != tree.values.len() {
        return Err(Fault::Skip("enumeration differs".into()));
    }
    for (i, (v, w)) in vs.iter().zip(&tree.values).enumerate() {
        raw_check(cx, v, &w.data, o.minor, &format!("value {i} of {} bytes, type {}, minor {}", w.data.len(), w.ty, o.minor))?;
    }
    Ok(())
}

fn bin(cx: &mut Cx, n: usize) -> Value {
    let ty = cx.rng.below(12) as u32;
    let mut data = cx.rng.bytes(n);
    if cx.rng.chance(1, 10) {
        data.fill(0);
    }
    Value { name: Name::from_str("v"), ty, data }
}

fn opts(cx: &mut Cx) -> Opts {
    let mut o = Opts::random(&mut cx.rng);
    o.extra_segments = *cx.rng.pick(&[0, 0, 0, 1, 3]);
    o.small_in_cell = *cx.rng.pick(&[0, 8, 16]);
    o
}

fn c09_small(cx: &mut Cx, case: u64) -> Res {
    let o = opts(cx);
    let n = (case % 304) as usize * 2;
    let vals = (0..6).map(|i| bin(cx, if i < 4 { n + i % 2 } else { i + 1 })).collect();
    raw_all(cx, vals, &o, "small sizes")
}

fn c09_edges(cx: &mut Cx, case: u64) -> Res {
    let k = 1 + (case / 7 % 6) as usize;
    let n = SEG * k + (case % 7) as usize - 3;
    let n = if case % 11 == 0 { *cx.rng.pick(&[16348usize, 16352, 16356, 16336, 16328, 65535, 65536, 4096, 4092, 8184]) } else { n };
    let o = opts(cx);
    let v = bin(cx, n);
    raw_all(cx, vec![v], &o, "around a boundary")
}

fn c09_random(cx: &mut Cx, case: u64) -> Res {
    let o = opts(cx);
    let vals = (0..cx.rng.range(1, 5))
        .map(|_| {
            let n = if case % 4 == 0 { cx.rng.range(16345, 200_000) } else { cx.rng.log_range(0, 40_000) } as usize;
            bin(cx, n)
        })
        .collect();
    raw_all(cx, vals, &o, "random sizes")
}

/// Up to 65535 segments, most of them the same cell.
fn c09_many(cx: &mut Cx, case: u64) -> Res {
    let mut raw = Raw::new();
    let pool: Vec<Vec<u8>> = (0..5).map(|_| cx.rng.bytes(SEG)).collect();
    let cells: Vec<u32> = pool.iter().map(|p| raw.cell(p)).collect();
    let segs = match case % 4 {
        0 => 65535usize,
        1 => 32768,
        2 => 4097,
        _ => cx.rng.range(2, 9000) as usize,
    };
    let used = if cx.rng.chance(1, 3) { cx.rng.range(2, segs as u64) as usize } else { segs };
    let pick: Vec<usize> = (0..segs).map(|_| cx.rng.idx(5)).collect();
    let size = (used - 1) * SEG + cx.rng.range(1, SEG as u64) as usize;
    let offs: Vec<u32> = pick.iter().map(|i| cells[*i]).collect();
    let list = raw.offsets(&offs);
    let mut head = b"db".to_vec();
    head.extend_from_slice(&(segs as u16).to_le_bytes());
    head.extend_from_slice(&list.to_le_bytes());
    let db = raw.cell(&head);
    let v = raw.value(b"big", 3, size as u32, db);
    let vl = raw.offsets(&[v]);
    let root = raw.node(b"root", NIL, (1, vl));
    let bytes = raw.finish(&mut cx.rng, 5, root);
    cx.set_hive(&bytes, format!("{size} bytes in {used} of {segs} segments"));
    cx.max("segments of one value", used as u64);
    let hive = open(&bytes)?;
    let vs = values_of(&hive)?;
    let v = vs.first().ok_or_else(|| Fault::Skip("no value".into()))?;
    cx.eval(1);
    let ctx = format!("{size} bytes in {used} of {segs} segments");
    let KeyValueData::Big(mut it) = call("data", || v.data())?.or_else(|e| diff("data", format!("{ctx}: {e:?}")))? else {
        return diff("data", format!("{ctx}: one piece"));
    };
    let mut at = 0;
    for i in 0..used {
        let want = &pool[pick[i]][..SEG.min(size - at)];
        let p = call("BigDataSlices::next", || it.next())?;
        match p {
            Some(Ok(p)) if p.len() == want.len() && p == want => at += p.len(),
            p => return diff("BigDataSlices::next", format!("{ctx}: piece {i} is {:?}", p.map(|p| p.map(|b| b.len())))),
        }
    }
    if call("BigDataSlices::next", || it.next().is_some())? {
        return diff("BigDataSlices::next", format!("{ctx}: more pieces than the data has"));
    }
    if size <= 40 << 20 {
        // all of it in one vector
        let mut want = Vec::with_capacity(size);
        for i in &pick[..used] {
            want.extend_from_slice(&pool[*i][..SEG.min(size - want.len())]);
        }
        let d = call("data", || v.data())?.or_else(|e| diff("data", format!("{ctx}: {e:?}")))?;
        match call("into_vec", || d.into_vec())? {
            Ok(got) if got == want => cx.ev("large vectors compared", 1),
            Ok(got) => return diff("into_vec", format!("{ctx}: {} bytes, or other contents", got.len())),
            Err(e) => return diff("into_vec", format!("{ctx}: {e:?}")),
        }
    }
    cx.ev("segments read", used as u64);
    cx.fp(mix(size as u64 ^ (segs as u64) << 40));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C10: Check = Check {
    id: "C10",
    rule: "values of every type code 0..=13 and random ones, with data inside the record, in a cell or in segments, of every \
           length class, with NULs and surrogates anywhere including across segment boundaries, given to the string, DWORD and \
           QWORD accessors and the type query; expected results computed from the stored bytes; texts of every length up to 12000 units and selected ones up to 130000; non-trivial: the accessor \
           succeeded or the type was its own; distinct by (type, data)",
    phases: &[
        Phase { name: "all types and lengths", quick: 800, thorough: 60_000, f: c10_grid },
        Phase { name: "random typed values", quick: 2500, thorough: 350_000, f: c10_random },
        Phase { name: "text across segments", quick: 700, thorough: 60_000, f: c10_big },
        Phase { name: "damaged values", quick: 1500, thorough: 150_000, f: c10_damaged },
        Phase { name: "long texts", quick: 8, thorough: 600, f: c10_long },
        Phase { name: "sweep of text lengths", quick: 16, thorough: 16, f: super::sweep::text_sizes },
    ],
};

fn first_text(data: &[u8]) -> String {
    let mut u = units_of(false, data);
    if let Some(i) = u.iter().position(|x| *x == 0) {
        u.truncate(i);
    }
    fold::decode(&u, true).unwrap()
}

fn clip(s: &str) -> String {
    let mut t: String = s.chars().take(60).collect();
    if t.len() < s.len() {
        t.push_str(&format!("… ({} chars)", s.chars().count()));
    }
    t
}

fn text_diff(a: &str, b: &str) -> String {
    let i = a.chars().zip(b.chars()).position(|(x, y)| x != y).unwrap_or_else(|| a.chars().count().min(b.chars().count()));
    let tail = |s: &str| -> String { s.chars().skip(i.saturating_sub(2)).take(8).collect() };
    format!("{} chars instead of {}, first difference at char {i}: {:?} instead of {:?}", a.chars().count(), b.chars().count(), tail(a), tail(b))
}

fn typed_check(cx: &mut Cx, v: &KeyValue<&[u8]>, ty: u32, data: &[u8], ctx: &str) -> Res {
    cx.eval(4);
    let t = call("data_type", || v.data_type())?;
    match &t {
        Ok(t) if *t as u32 == ty && ty <= 11 => {
            // the code and the name must belong together
            let name = [
                "RegNone", "RegSZ", "RegExpandSZ", "RegBinary", "RegDWord", "RegDWordBigEndian", "RegLink", "RegMultiSZ",
                "RegResourceList", "RegFullResourceDescriptor", "RegResourceRequirementsList", "RegQWord",
            ][ty as usize];
            if format!("{t:?}") != name {
                return diff("data_type", format!("{ctx}: {t:?} instead of {name}"));
            }
        }
        Err(NtHiveError::UnsupportedKeyValueDataType { .. }) if ty > 11 => (),
        t => return diff("data_type", format!("{ctx}: {t:?}, stored {ty}")),
    }
    let s = call("string_data", || v.string_data())?;
    match (&s, ty) {
        (Ok(s), 1 | 2) => {
            let w = first_text(data);
            if *s != w {
                return diff("string_data", format!("{ctx}: {}", text_diff(s, &w)));
            }
            cx.ev("texts", 1);
            cx.fp(mix(hivecore::rng::digest(data) ^ ty as u64));
        }
        (Err(_), 1 | 2) => return diff("string_data", format!("{ctx}: {s:?}")),
        (Ok(s), _) => return diff("string_data", format!("{ctx}: accepts type {ty}: {:?}", clip(s))),
        _ => cx.ev("texts refused", 1),
    }
    let d = call("dword_data", || v.dword_data())?;
    match (&d, ty, data.len()) {
        (Ok(d), 4, 4) if *d == u32::from_le_bytes(data.try_into().unwrap()) => cx.ev("dwords", 1),
        (Ok(d), 5, 4) if *d == u32::from_be_bytes(data.try_into().unwrap()) => cx.ev("big-endian dwords", 1),
        (Ok(d), _, _) => return diff("dword_data", format!("{ctx}: {d:#x} from {:x?}", &data[..data.len().min(16)])),
        (Err(e), 4 | 5, 4) => return diff("dword_data", format!("{ctx}: {e:?}")),
        _ => cx.ev("dwords refused", 1),
    }
    let q = call("qword_data", || v.qword_data())?;
    match (&q, ty, data.len()) {
        (Ok(q), 11, 8) if *q == u64::from_le_bytes(data.try_into().unwrap()) => cx.ev("qwords", 1),
        (Ok(q), _, _) => return diff("qword_data", format!("{ctx}: {q:#x} from {:x?}", &data[..data.len().min(16)])),
        (Err(e), 11, 8) => return diff("qword_data", format!("{ctx}: {e:?}")),
        _ => cx.ev("qwords refused", 1),
    }
    if matches!(ty, 4 | 5 | 11) {
        cx.fp(mix(hivecore::rng::digest(data) ^ ty as u64));
    }
    Ok(())
}

fn typed_all(cx: &mut Cx, values: Vec<Value>, o: &Opts) -> Res {
    let (tree, b) = with_values(cx, values, o);
    cx.set_hive(&b.bytes, o.describe());
    let hive = open(&b.bytes)?;
    let vs = values_of(&hive)?;
    if vs.len() != tree.values.len() {
        return Err(Fault::Skip("enumeration differs".into()));
    }
    for (i, (v, w)) in vs.iter().zip(&tree.values).enumerate() {
        typed_check(cx, v, w.ty, &w.data, &format!("value {i}, type {}, {} bytes", w.ty, w.data.len()))?;
    }
    Ok(())
}

fn c10_grid(cx: &mut Cx, case: u64) -> Res {
    let mut o = opts(cx);
    let len = match case % 40 {
        n @ 0..=24 => n as usize,
        n => [16343, 16344, 16345, 16346, 16347, 16348, 16352, 32687, 32688, 32689, 100, 101, 255, 256, 65536][n as usize - 25],
    };
    o.small_in_cell = [0, 16, 8][(case / 40) as usize % 3];
    let mut vals = vec![];
    for ty in (0..14).chain([0x100, 0x104, 0x0400_0000, 0x8000_0001, 0x0001_0001, 0xffff_ffff]) {
        let data = match cx.rng.below(3) {
            0 => cx.rng.bytes(len),
            1 => {
                let u = rand_text_units(&mut cx.rng, len / 2 + 1);
                units_bytes(&u)[..len].to_vec()
            }
            _ => vec![*cx.rng.pick(&[0u8, 0xff, 0x41, 0xd8, 0xdc]); len],
        };
        vals.push(Value { name: Name::from_str("v"), ty, data });
    }
    cx.sample(|| format!("{} types with {len} bytes", vals.len()));
    typed_all(cx, vals, &o)
}

fn c10_random(cx: &mut Cx, _: u64) -> Res {
    let o = opts(cx);
    let t = TreeOpts { max_data: 400, ..TreeOpts::default() };
    let vals = (0..cx.rng.range(1, 12)).map(|_| rand_value(&mut cx.rng, &t)).collect();
    typed_all(cx, vals, &o)
}

/// Units with something interesting at every segment boundary.
pub fn boundary_units(r: &mut Rng, nul: bool) -> Vec<u16> {
    let per = SEG / 2;
    let n = per * r.range(1, 3) as usize + r.range(0, 8) as usize + 1;
    let mut u: Vec<u16> = (0..n).map(|i| if r.chance(1, 50) { 0x263a } else { 0x61 + (i % 26) as u16 }).collect();
    let mut b = per;
    while b <= n {
        let style = r.below(10);
        for k in -3i64..=3 {
            let i = b as i64 + k;
            if i < 0 || i as usize >= n {
                continue;
            }
            let i = i as usize;
            u[i] = match style {
                0 => [0xd83d, 0xde00][(k.rem_euclid(2)) as usize],
                1 => [0xde00, 0xd83d][(k.rem_euclid(2)) as usize],
                2 if nul => *r.pick(&[0u16, 0, 0x41]),
                3 if nul && k == 0 => 0,
                4 if nul && k == -1 => 0,
                5 if nul && (k == 0 || k == -1) => 0,
                6 => r.range(0xd800, 0xdfff) as u16,
                7 if k == -1 => 0xdbff,
                7 if k == 0 => *r.pick(&[0xdfff, 0x41, 0xd800]),
                8 if k == 0 => 0xdc00,
                _ => r.range(0x20, 0x7e) as u16,
            };
        }
        b += per;
    }
    if nul && r.chance(1, 3) {
        u.push(0);
        if r.chance(1, 2) {
            u.push(0);
        }
    }
    u
}

/// Texts of up to eight million characters in one cell or in up to a thousand segments.
fn c10_long(cx: &mut Cx, case: u64) -> Res {
    let mut o = opts(cx);
    o.minor = if case % 4 == 0 { 3 } else { 5 };
    let n = cx.rng.log_range(1 << 14, if case % 16 == 1 { 1 << 23 } else { 1 << 21 }) as usize;
    let mut data = units_bytes(&long_units(&mut cx.rng, n));
    if cx.rng.chance(1, 2) {
        data.extend_from_slice(&[0, 0]);
    }
    let ty = *cx.rng.pick(&[1, 2]);
    cx.max("characters of a text", n as u64);
    typed_all(cx, vec![Value { name: Name::from_str("v"), ty, data }], &o)
}
/// Units without NUL.
fn long_units(r: &mut Rng, n: usize) -> Vec<u16> {
    let base = *r.pick(&[0x61u64, 0x61, 0x100, 0x4e00, 0xd7f0]);
    let mut x = r.next();
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (base + (x >> 60)) as u16
        })
        .collect()
}
fn c10_big(cx: &mut Cx, case: u64) -> Res {
    let mut o = opts(cx);
    if case % 4 != 0 {
        o.minor = 5;
    }
    let u = boundary_units(&mut cx.rng, case % 3 == 0);
    let mut data = units_bytes(&u);
    if cx.rng.chance(1, 4) {
        data.push(0x41);
    }
    let ty = *cx.rng.pick(&[1, 2, 2, 1, 7, 3, 4, 11]);
    cx.ev("texts across segments", (data.len() > SEG) as u64);
    typed_all(cx, vec![Value { name: Name::from_str("v"), ty, data }], &o)
}

/// On damaged values the accessors still never return a wrong number or text: compared with the reference reader.
fn c10_damaged(cx: &mut Cx, _: u64) -> Res {
    use hivecore::walk::*;
    let t = TreeOpts { max_data: 100, ..TreeOpts::default() };
    let mut tree = Key::named("r");
    for _ in 0..cx.rng.range(1, 6) {
        tree.values.push(rand_value(&mut cx.rng, &t));
    }
    let o = opts(cx);
    let mut b = build(&mut cx.rng, &tree, &o);
    let cand: Vec<usize> = (0..b.fields.len())
        .filter(|i| matches!(b.fields[*i].kind, FK::ValDataSize | FK::ValDataOff | FK::ValType | FK::DataBytes | FK::BigCount))
        .collect();
    if cand.is_empty() {
        return Ok(());
    }
    let mut d = vec![];
    for _ in 0..cx.rng.range(1, 3) {
        let fi = *cx.rng.pick(&cand);
        d.extend(hivecore::mutate::damage(&mut cx.rng, &mut b, fi));
    }
    cx.set_hive(&b.bytes, d.join("; "));
    let hive = open(&b.bytes)?;
    let cfg = Cfg { test: STR | INT, exact: false, ..Cfg::default() };
    let mut w = Walker::new(b.bytes.as_ptr(), &b.bytes, cfg);
    let r = w.walk(&hive, &mut cx.rng);
    cx.eval(w.st.values * 3);
    cx.absorb(&w.st);
    cx.fp(mix(w.st.digest));
    r
}

// ---------------------------------------------------------------------------------------------

pub const C11: Check = Check {
    id: "C11",
    rule: "multi-string data with and without final terminators, empty strings at every place, NULs and surrogates at and \
           around segment boundaries, odd lengths and every storage form; the items are compared with the lines in the stored \
           bytes and the iterator is polled four more times at its end; other types must be refused; lines, and numbers of lines, of every count up to 6000 and selected larger ones; non-trivial: at least one \
           line; distinct by data",
    phases: &[
        Phase { name: "short data, exhaustive", quick: 341, thorough: 1365, f: c11_short },
        Phase { name: "random lines", quick: 4000, thorough: 500_000, f: c11_random },
        Phase { name: "across segments", quick: 800, thorough: 60_000, f: c11_big },
        Phase { name: "other types", quick: 300, thorough: 20_000, f: c11_types },
        Phase { name: "long and many lines", quick: 8, thorough: 600, f: c11_long },
        Phase { name: "sweep of line lengths", quick: 32, thorough: 32, f: super::sweep::line_sizes },
    ],
};

fn multi_check(cx: &mut Cx, v: &KeyValue<&[u8]>, ty: u32, data: &[u8], ctx: &str) -> Res {
    cx.eval(1);
    let it = call("multi_string_data", || v.multi_string_data())?;
    let mut it = match it {
        Ok(_) if ty != 7 => return diff("multi_string_data", format!("{ctx}: accepts type {ty}")),
        Err(_) if ty != 7 => {
            cx.ev("refused", 1);
            return Ok(());
        }
        Err(e) => return diff("multi_string_data", format!("{ctx}: {e:?}")),
        Ok(it) => it,
    };
    let units = units_of(false, data);
    let lines = Oracle::lines(&units);
    for (i, l) in lines.iter().enumerate() {
        match call("RegMultiSZStrings::next", || it.next())? {
            Some(Ok(g)) if g == *l => (),
            Some(Ok(g)) => return diff("RegMultiSZStrings::next", format!("{ctx}: line {i}: {}", text_diff(&g, l))),
            Some(Err(e)) => return diff("RegMultiSZStrings::next", format!("{ctx}: line {i}: {e:?}")),
            None => return diff("RegMultiSZStrings::next", format!("{ctx}: ends after {i} of {} lines", lines.len())),
        }
    }
    for k in 0..4 {
        if let Some(x) = call("RegMultiSZStrings::next", || it.next())? {
            let x = x.map(|s| clip(&s));
            return diff("RegMultiSZStrings::next", format!("{ctx}: call {k} after the last of {} lines gives {x:?}", lines.len()));
        }
    }
    cx.ev("lines", lines.len() as u64);
    if !lines.is_empty() {
        cx.fp(hivecore::rng::digest(data));
    }
    Ok(())
}

fn multi_all(cx: &mut Cx, datas: Vec<(u32, Vec<u8>)>, o: &Opts) -> Res {
    let vals = datas.into_iter().map(|(ty, data)| Value { name: Name::from_str("v"), ty, data }).collect();
    let (tree, b) = with_values(cx, vals, o);
    cx.set_hive(&b.bytes, o.describe());
    let hive = open(&b.bytes)?;
    let vs = values_of(&hive)?;
    for (v, w) in vs.iter().zip(&tree.values) {
        let head = &w.data[..w.data.len().min(40)];
        multi_check(cx, v, w.ty, &w.data, &format!("{} bytes {:x?}", w.data.len(), head))?;
    }
    Ok(())
}

/// All sequences over {NUL, letter, high surrogate, low surrogate} of up to 4 (thorough: 5) units.
fn c11_short(cx: &mut Cx, case: u64) -> Res {
    const A: [u16; 4] = [0, 0x61, 0xd83d, 0xde00];
    let mut n = 0;
    let mut c = case;
    while c >= 1 << (2 * n) {
        c -= 1 << (2 * n);
        n += 1;
    }
    let u: Vec<u16> = (0..n).map(|i| A[(c >> (2 * i) & 3) as usize]).collect();
    let o = opts(cx);
    let mut odd = units_bytes(&u);
    odd.push(0x41);
    let mut more = u.clone();
    more.extend_from_slice(&[0x62, 0, 0x63]);
    cx.sample(|| format!("{u:x?}"));
    multi_all(cx, vec![(7, units_bytes(&u)), (7, odd), (7, units_bytes(&more))], &o)
}

fn c11_random(cx: &mut Cx, _: u64) -> Res {
    let o = opts(cx);
    let mut ds = vec![];
    for _ in 0..4 {
        let mut u = vec![];
        for _ in 0..cx.rng.below(6) {
            let n = cx.rng.log_range(0, 30) as usize;
            let n = if cx.rng.chance(1, 3) { 0 } else { n };
            u.extend(rand_text_units(&mut cx.rng, n));
            u.push(0);
        }
        match cx.rng.below(4) {
            0 => u.push(0),
            1 => {
                u.pop();
            }
            2 => u.extend_from_slice(&[0, 0x78, 0x79, 0]),
            _ => (),
        }
        let mut b = units_bytes(&u);
        if cx.rng.chance(1, 6) {
            b.push(cx.rng.next() as u8);
        }
        ds.push((7, b));
    }
    multi_all(cx, ds, &o)
}

fn c11_big(cx: &mut Cx, case: u64) -> Res {
    let mut o = opts(cx);
    if case % 4 != 0 {
        o.minor = 5;
    }
    let mut u = boundary_units(&mut cx.rng, true);
    for _ in 0..cx.rng.below(5) {
        let i = cx.rng.idx(u.len());
        u[i] = 0;
    }
    let b = units_bytes(&u);
    cx.ev("across segments", (b.len() > SEG) as u64);
    multi_all(cx, vec![(7, b)], &o)
}

/// Lines of up to four million characters, or up to a million lines.
fn c11_long(cx: &mut Cx, case: u64) -> Res {
    let mut o = opts(cx);
    o.minor = if case % 4 == 0 { 3 } else { 5 };
    let (lines, len) = if case % 2 == 0 { (cx.rng.range(1, 4), cx.rng.log_range(1 << 12, 1 << 21)) } else { (cx.rng.log_range(1 << 8, 1 << 18), 4) };
    let mut u = vec![];
    for _ in 0..lines {
        let n = cx.rng.range(len.div_ceil(2), len) as usize;
        u.extend(long_units(&mut cx.rng, n));
        u.push(0);
        cx.max("characters of a line", n as u64);
    }
    cx.max("lines", lines);
    u.push(0);
    multi_all(cx, vec![(7, units_bytes(&u))], &o)
}
fn c11_types(cx: &mut Cx, _: u64) -> Res {
    let o = opts(cx);
    let u = rand_text_units(&mut cx.rng, 12);
    let b = units_bytes(&u);
    let ds = (0..14).chain([0x107, 0x0700_0000, 0x8000_0007, u32::MAX]).map(|t| (t, b.clone())).collect();
    multi_all(cx, ds, &o)
}
