//! C07 name comparison, C08 name decoding.
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::fold;
use hivecore::model::*;
use hivecore::obs::*;
use hivecore::rng::{mix, Rng};
use nt_hive::*;
use std::cmp::Ordering;

pub const C07: Check = Check {
    id: "C07",
    rule: "every BMP code unit against its folding partners, neighbours and random units, all pairs of Latin1 bytes, and \
           random related strings in every encoding combination, through cmp, partial_cmp, ==, !=, <, <=, >, >= between \
           names and between names and strings in both directions; expected: lexicographic order of code units folded by \
           an independent Unicode 13 table; every name length up to 8000 and selected ones up to 65535; non-trivial: the two sides are not byte-identical; distinct by pair of \
           code-unit sequences",
    phases: &[
        Phase { name: "every code unit", quick: 256, thorough: 1024, f: c07_units },
        Phase { name: "every Latin1 pair", quick: 256, thorough: 256, f: c07_latin1 },
        Phase { name: "random strings", quick: 3000, thorough: 400_000, f: c07_random },
        Phase { name: "triples", quick: 1500, thorough: 200_000, f: c07_triples },
        Phase { name: "names of a hive", quick: 300, thorough: 30_000, f: c07_hive },
        Phase { name: "sweep of name lengths", quick: 32, thorough: 32, f: super::sweep::compared },
        Phase { name: "sweep of name lengths, the rest", quick: 0, thorough: 128, f: |cx, c| super::sweep::compared(cx, c + 32) },
    ],
};

fn ops(
    op: &str,
    want: Ordering,
    desc: &dyn Fn() -> String,
    pc: Option<Ordering>,
    eq: bool,
    ne: bool,
    lt: bool,
    le: bool,
    gt: bool,
    ge: bool,
) -> Res {
    if pc != Some(want) {
        return diff(op, format!("{}: partial_cmp is {pc:?}, expected {want:?}", desc()));
    }
    let w = (want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
    let g = (eq, ne, lt, le, gt, ge);
    if w != g {
        return diff(op, format!("{}: (==,!=,<,<=,>,>=) are {g:?}, expected {w:?}", desc()));
    }
    Ok(())
}

macro_rules! all_ops {
    ($op:expr, $a:expr, $b:expr, $want:expr, $desc:expr) => {{
        let (pc, eq, ne, lt, le, gt, ge) =
            call($op, || (PartialOrd::partial_cmp(&$a, &$b), $a == $b, $a != $b, $a < $b, $a <= $b, $a > $b, $a >= $b))?;
        ops($op, $want, $desc, pc, eq, ne, lt, le, gt, ge)?;
    }};
}

struct Enc {
    latin1: Option<Vec<u8>>,
    utf16: Vec<u8>,
    /// The same with a byte left over.
    odd: Vec<u8>,
    text: Option<String>,
}

fn enc(u: &[u16]) -> Enc {
    Enc {
        latin1: u.iter().all(|x| *x < 256).then(|| u.iter().map(|x| *x as u8).collect()),
        utf16: units_bytes(u),
        odd: [&units_bytes(u)[..], &[(u.len() as u8).wrapping_mul(7)]].concat(),
        text: fold::decode(u, false),
    }
}

impl Enc {
    fn names(&self) -> Vec<NtHiveNameString<'_>> {
        let mut v = vec![NtHiveNameString::Utf16LE(&self.utf16), NtHiveNameString::Utf16LE(&self.odd)];
        if let Some(l) = &self.latin1 {
            v.push(NtHiveNameString::Latin1(l));
        }
        v
    }
}

fn pair(cx: &mut Cx, a: &[u16], b: &[u16]) -> Res {
    let want = fold::cmp_units(a, b);
    let (ea, eb) = (enc(a), enc(b));
    pair_enc(cx, a, b, &ea, &eb, want)
}

fn pair_enc(cx: &mut Cx, a: &[u16], b: &[u16], ea: &Enc, eb: &Enc, want: Ordering) -> Res {
    let (na, nb) = (ea.names(), eb.names());
    let d = || format!("{:?} (units {:x?}) vs {:?} (units {:x?})", show(a), &a[..a.len().min(40)], show(b), &b[..b.len().min(40)]);
    for x in &na {
        for y in &nb {
            cx.eval(1);
            all_ops!("name vs name", *x, *y, want, &d);
            let c = call("name cmp name", || x.cmp(y))?;
            if c != want {
                return diff("name cmp name", format!("{}: {c:?}, expected {want:?}", d()));
            }
        }
        if let Some(t) = &eb.text {
            let t: &str = t;
            cx.eval(2);
            all_ops!("name vs str", *x, *t, want, &d);
            all_ops!("name vs &str", *x, t, want, &d);
            all_ops!("str vs name", *t, *x, want.reverse(), &d);
            all_ops!("&str vs name", t, *x, want.reverse(), &d);
        }
    }
    cx.ev(
        match want {
            Ordering::Less => "less",
            Ordering::Greater => "greater",
            Ordering::Equal if a == b => "identical",
            Ordering::Equal => "equal after folding",
        },
        1,
    );
    if a != b {
        cx.fp(mix(hivecore::rng::digest(&units_bytes(a)) ^ mix(hivecore::rng::digest(&units_bytes(b)))));
    }
    Ok(())
}

fn c07_units(cx: &mut Cx, case: u64) -> Res {
    let block = (case % 256) as u16;
    let e2 = enc(&[]);
    for lo in 0..256u16 {
        let u = block << 8 | lo;
        let mut piv = vec![u, fold::up(u), u.wrapping_add(1), u.wrapping_sub(1), u ^ 0x20, u ^ 1, u.wrapping_add(8), u.wrapping_sub(0x1c60)];
        piv.extend_from_slice(lower_variants(fold::up(u)));
        piv.push(rand_unit(&mut cx.rng));
        piv.push(cx.rng.next() as u16);
        piv.push(fold::up(u).wrapping_add(1));
        piv.push(fold::up(u).wrapping_sub(1));
        piv.sort();
        piv.dedup();
        for p in piv {
            pair(cx, &[u], &[p])?;
        }
        pair_enc(cx, &[u], &[], &enc(&[u]), &e2, Ordering::Greater)?;
        pair(cx, &[0x41, u], &[0x61, fold::up(u)])?;
        pair(cx, &[u, 0x7a], &[fold::up(u), 0x59])?;
    }
    Ok(())
}

fn c07_latin1(cx: &mut Cx, case: u64) -> Res {
    let a = (case % 256) as u16;
    for b in 0..256u16 {
        pair(cx, &[a], &[b])?;
        pair(cx, &[0x78, a], &[0x58, b, 0x20])?;
    }
    Ok(())
}

fn related(r: &mut Rng, u: &[u16]) -> Vec<u16> {
    let mut v = respell(r, u);
    match r.below(7) {
        0 | 1 => (),
        2 => v.push(rand_unit(r)),
        3 => {
            v.pop();
        }
        4 if !v.is_empty() => {
            let i = r.idx(v.len());
            v[i] = rand_unit(r);
        }
        5 if !v.is_empty() => {
            let i = r.idx(v.len());
            v[i] = v[i].wrapping_add(1);
        }
        _ => {
            // letter pairs outside the BMP must not be folded
            let c = *r.pick(&[0x10410u32, 0x10438, 0x1e900, 0x1e922, 0x118a0, 0x118c0, 0x10400, 0x10428, 0x16e40, 0x16e60]);
            let at = if v.is_empty() { 0 } else { r.idx(v.len()) };
            let k = c - 0x10000;
            v.insert(at, 0xd800 + (k >> 10) as u16);
            v.insert(at + 1, 0xdc00 + (k & 0x3ff) as u16);
        }
    }
    v
}

fn c07_random(cx: &mut Cx, _: u64) -> Res {
    let max = if cx.rng.chance(1, 10) { 2000 } else { 20 };
    let mut a = rand_units(&mut cx.rng, max, true);
    if cx.rng.chance(1, 3) {
        a = related(&mut cx.rng, &a);
    }
    for _ in 0..6 {
        let b = related(&mut cx.rng, &a);
        pair(cx, &a, &b)?;
    }
    let b = rand_units(&mut cx.rng, 20, true);
    pair(cx, &a, &b)?;
    let (x, y) = (show(&a), show(&b));
    cx.sample(|| format!("{x:?} vs {y:?}"));
    Ok(())
}

/// Antisymmetry and transitivity observed directly.
fn c07_triples(cx: &mut Cx, _: u64) -> Res {
    let a = rand_units(&mut cx.rng, 6, true);
    let b = related(&mut cx.rng, &a);
    let c = if cx.rng.chance(1, 2) { related(&mut cx.rng, &b) } else { related(&mut cx.rng, &a) };
    let (ea, eb, ec) = (enc(&a), enc(&b), enc(&c));
    let (na, nb, nc) = (ea.names(), eb.names(), ec.names());
    let x = cx.rng.pick(&na).clone();
    let y = cx.rng.pick(&nb).clone();
    let z = cx.rng.pick(&nc).clone();
    cx.eval(3);
    let (xy, yz, xz, yx) = call("cmp", || (x.cmp(&y), y.cmp(&z), x.cmp(&z), y.cmp(&x)))?;
    if xy != yx.reverse() {
        return diff("cmp", format!("not antisymmetric: {x:?} {y:?}"));
    }
    let bad = (xy.is_le() && yz.is_le() && xz.is_gt()) || (xy.is_ge() && yz.is_ge() && xz.is_lt()) || (xy.is_eq() && yz != xz);
    if bad {
        return diff("cmp", format!("not transitive: {x:?} {y:?} {z:?}: {xy:?} {yz:?} {xz:?}"));
    }
    let (m, n, s) = call("max/min/sort", || {
        let mut v = [x.clone(), y.clone(), z.clone()];
        v.sort();
        (x.clone().max(y.clone()), x.clone().min(y.clone()), v)
    })?;
    let (pm, pn) = if fold::cmp_units(&a, &b).is_gt() { (&a, &b) } else { (&b, &a) };
    let folded = |n: &NtHiveNameString| {
        let (l, b) = parts(n);
        fold::folded(&units_of(l, b))
    };
    if folded(&m) != fold::folded(pm) || folded(&n) != fold::folded(pn) {
        return diff("max/min", format!("{x:?} {y:?}: max {m:?} min {n:?}"));
    }
    if s.windows(2).any(|w| folded(&w[0]) > folded(&w[1])) {
        return diff("sort", format!("{s:?}"));
    }
    Ok(())
}

fn c07_hive(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_values: 2, max_data: 8, ..TreeOpts::default() };
    let (tree, b, o) = random_hive(cx, &t);
    cx.set_hive(&b.bytes, o.describe());
    let hive = open(&b.bytes)?;
    let root = nav_ok("root", || hive.root_key_node())?;
    let mut kids = vec![root];
    if let Some(Ok(it)) = nav("subkeys", || kids[0].subkeys())? {
        for k in nav("subkeys", || it.collect::<Vec<_>>())? {
            kids.push(k.map_err(|e| Fault::Skip(format!("{e:?}")))?);
        }
    }
    let model: Vec<&Key> = std::iter::once(&tree).chain(tree.subkeys.iter()).collect();
    if kids.len() != model.len() {
        return Err(Fault::Skip("enumeration differs".into()));
    }
    let mut names = vec![];
    for (k, m) in kids.iter().zip(&model) {
        let n = nav_ok("name", || k.name())?;
        names.push((n, m.name.units()));
        if let Some(Ok(c)) = nav("class_name", || k.class_name())? {
            names.push((c, units_of(false, m.class.as_deref().unwrap_or(b""))));
        }
    }
    for (x, ux) in &names {
        let y = cx.rng.idx(names.len());
        let (y, uy) = &names[y];
        let want = fold::cmp_units(ux, uy);
        cx.eval(1);
        let d = || format!("{x:?} vs {y:?}");
        all_ops!("name vs name", *x, *y, want, &d);
        if let Some(t) = fold::decode(uy, false) {
            let t: &str = &t;
            all_ops!("name vs str", *x, *t, want, &d);
            all_ops!("str vs name", *t, *x, want.reverse(), &d);
        }
        if ux != uy {
            cx.fp(mix(hivecore::rng::digest(&units_bytes(ux)) ^ mix(hivecore::rng::digest(&units_bytes(uy)))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C08: Check = Check {
    id: "C08",
    rule: "every code unit, every Latin1 byte, every surrogate pair, and random sequences of paired and unpaired surrogates \
           (alone, at either end, repeated, in long names), built directly and read from hives, decoded through the checked, \
           lossy and Display conversions (also with width and alignment) and compared with an independent decoder; \
           every name length; non-trivial: the name is not empty; distinct by code-unit sequence",
    phases: &[
        Phase { name: "every code unit and byte", quick: 256, thorough: 256, f: c08_units },
        Phase { name: "every surrogate pair", quick: 1024, thorough: 1024, f: c08_pairs },
        Phase { name: "random sequences", quick: 6000, thorough: 900_000, f: c08_random },
        Phase { name: "names of a hive", quick: 400, thorough: 50_000, f: c08_hive },
        Phase { name: "sweep of name lengths", quick: 32, thorough: 32, f: super::sweep::decoded },
    ],
};

fn padded(text: &str, w: usize, align: u8, fill: char) -> String {
    let n = text.chars().count();
    let pad = w.saturating_sub(n);
    let (l, r) = match align {
        0 => (0, pad),
        1 => (pad, 0),
        _ => (pad / 2, pad - pad / 2),
    };
    let mut s: String = std::iter::repeat(fill).take(l).collect();
    s.push_str(text);
    s.extend(std::iter::repeat(fill).take(r));
    s
}

fn decode_check(n: &NtHiveNameString, latin1: bool, bytes: &[u8]) -> Res {
    let units = units_of(latin1, bytes);
    let lossy = if latin1 { bytes.iter().map(|b| *b as char).collect() } else { fold::decode(&units, true).unwrap() };
    let checked = if latin1 { Some(lossy.clone()) } else { fold::decode(&units, false) };
    let d = || format!("{} name of units {:x?}", if latin1 { "Latin1" } else { "UTF-16" }, &units[..units.len().min(60)]);
    let g = call("to_string_checked", || n.to_string_checked())?;
    if g != checked {
        return diff("to_string_checked", format!("{}: {g:?}, expected {checked:?}", d()));
    }
    let g = call("to_string_lossy", || n.to_string_lossy())?;
    if g != lossy {
        return diff("to_string_lossy", format!("{}: {g:?}, expected {lossy:?}", d()));
    }
    let g = call("Display", || format!("{n}"))?;
    if g != lossy {
        return diff("Display", format!("{}: {g:?}, expected {lossy:?}", d()));
    }
    let (l, e) = call("len/is_empty", || (n.len(), n.is_empty()))?;
    if l != bytes.len() || e != bytes.is_empty() {
        return diff("len/is_empty", format!("{}: {l} and {e}, stored are {} bytes", d(), bytes.len()));
    }
    Ok(())
}

/// A byte left over after the last code unit is no text.
fn odd_check(cx: &mut Cx, bytes: &[u8]) -> Res {
    decode_check(&NtHiveNameString::Utf16LE(bytes), false, bytes)?;
    cx.ev("names of odd length", 1);
    Ok(())
}

/// Format options apply to the name as a whole or not at all.
fn width_check(n: &NtHiveNameString, r: &mut Rng) -> Res {
    let text = nav("to_string_lossy", || n.to_string_lossy())?;
    let w = r.range(0, 12) as usize;
    // there is no alternate form
    let got = call("Display", || format!("{n:#}"))?;
    if got != text {
        return diff("Display", format!("alternate form {got:?}, expected {text:?}"));
    }
    let got = call("Display", || (format!("{n:w$}"), format!("{n:>w$}"), format!("{n:^w$}"), format!("{n:*<w$}"), format!("{n:.0}").len()))?;
    let want = [
        (&got.0, padded(&text, w, 0, ' ')),
        (&got.1, padded(&text, w, 1, ' ')),
        (&got.2, padded(&text, w, 2, ' ')),
        (&got.3, padded(&text, w, 0, '*')),
    ];
    for (g, w2) in want {
        if *g != text && *g != w2 {
            return diff("Display with width", format!("width {w}: {g:?}, expected {text:?} or {w2:?}"));
        }
    }
    Ok(())
}

fn c08_units(cx: &mut Cx, case: u64) -> Res {
    let hi = case as u16;
    for lo in 0..256u16 {
        let u = hi << 8 | lo;
        for v in [vec![u], vec![0x41, u, 0x42], vec![u, u]] {
            let b = units_bytes(&v);
            decode_check(&NtHiveNameString::Utf16LE(&b), false, &b)?;
            cx.eval(1);
            cx.fp(hivecore::rng::digest(&b));
        }
        let b = [hi as u8, lo as u8];
        decode_check(&NtHiveNameString::Latin1(&b), true, &b)?;
        let odd = [lo as u8, hi as u8, lo as u8 ^ 0xd8];
        odd_check(cx, &odd)?;
        odd_check(cx, &odd[..1])?;
        cx.eval(3);
        cx.fp(mix(hivecore::rng::digest(&b) ^ 1));
    }
    cx.ev("code units", 256);
    Ok(())
}

fn c08_pairs(cx: &mut Cx, case: u64) -> Res {
    let hi = 0xd800 + case as u16;
    for lo in 0xdc00..0xe000u16 {
        let b = units_bytes(&[hi, lo]);
        let n = NtHiveNameString::Utf16LE(&b);
        let want = char::from_u32(0x10000 + ((hi as u32 - 0xd800) << 10) + (lo as u32 - 0xdc00)).unwrap();
        let g = call("to_string_checked", || n.to_string_checked())?;
        let mut it = g.as_deref().unwrap_or("").chars();
        if it.next() != Some(want) || it.next().is_some() {
            return diff("to_string_checked", format!("pair {hi:x} {lo:x}: {g:?}, expected {want:?}"));
        }
        cx.fp(hivecore::rng::digest(&b));
    }
    cx.eval(1024);
    cx.ev("surrogate pairs", 1024);
    for lo in [0xd800u16, 0xdbff, 0xdbfe, 0xd7ff, 0xe000, 0x41, 0] {
        for v in [vec![hi, lo], vec![lo, hi], vec![hi, hi, 0xdc00], vec![0xdc00, hi], vec![hi, lo, 0xdfff]] {
            let b = units_bytes(&v);
            decode_check(&NtHiveNameString::Utf16LE(&b), false, &b)?;
            cx.eval(1);
        }
    }
    Ok(())
}

fn sur_units(r: &mut Rng, n: usize) -> Vec<u16> {
    (0..n)
        .map(|_| match r.below(5) {
            0 | 1 => r.range(0xd800, 0xdbff) as u16,
            2 => r.range(0xdc00, 0xdfff) as u16,
            3 => r.range(0x20, 0x7e) as u16,
            _ => r.next() as u16,
        })
        .collect()
}

fn c08_random(cx: &mut Cx, case: u64) -> Res {
    let n = if case % 500 == 0 { cx.rng.range(1000, 32767) } else { cx.rng.log_range(0, 40) } as usize;
    let u = if cx.rng.chance(2, 3) { sur_units(&mut cx.rng, n) } else { rand_units(&mut cx.rng, n.max(1), true) };
    let b = units_bytes(&u);
    let nm = NtHiveNameString::Utf16LE(&b);
    cx.eval(1);
    decode_check(&nm, false, &b)?;
    width_check(&nm, &mut cx.rng)?;
    let mut odd = b.clone();
    odd.push(cx.rng.next() as u8);
    odd_check(cx, &odd)?;
    let l = cx.rng.bytes(n.min(300));
    let ln = NtHiveNameString::Latin1(&l);
    cx.eval(1);
    decode_check(&ln, true, &l)?;
    width_check(&ln, &mut cx.rng)?;
    if n > 0 {
        cx.fp(hivecore::rng::digest(&b));
    }
    cx.ev(if fold::decode(&u, false).is_some() { "well-formed" } else { "with unpaired surrogates" }, 1);
    cx.sample(|| format!("{:x?}", &u[..u.len().min(12)]));
    Ok(())
}

fn c08_hive(cx: &mut Cx, case: u64) -> Res {
    let mut tree = rand_tree(&mut cx.rng, &TreeOpts { max_keys: 12, max_data: 8, ..TreeOpts::default() });
    let n = if case % 20 == 0 { 32767 } else { cx.rng.range(1, 60) as usize };
    let v = sur_units(&mut cx.rng, n);
    tree.name = Name::utf16(&v);
    let l = cx.rng.range(0, if case % 20 == 1 { 65535 } else { 300 }) as usize;
    let lb = cx.rng.bytes(l);
    tree.values.push(Value { name: Name::latin1(&lb), ty: 3, data: vec![] });
    tree.class = Some(units_bytes(&sur_units(&mut cx.rng, n)));
    if case % 7 == 3 {
        // a class name of odd length
        let x = cx.rng.next() as u8;
        tree.class.as_mut().unwrap().push(x);
    }
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, o.describe());
    let hive = open(&b.bytes)?;
    let root = nav_ok("root", || hive.root_key_node())?;
    let mut stack = vec![(root, &tree)];
    while let Some((k, m)) = stack.pop() {
        {
            let nm = nav_ok("name", || k.name())?;
            decode_check(&nm, m.name.latin1, &m.name.bytes)?;
            cx.fp(hivecore::rng::digest(&m.name.bytes));
            cx.eval(1);
        }
        if let (Some(Ok(c)), Some(w)) = (nav("class_name", || k.class_name())?, &m.class) {
            decode_check(&c, false, w)?;
            cx.eval(1);
        }
        if let Some(Ok(it)) = nav("values", || k.values())? {
            for (v, w) in nav("values", || it.collect::<Vec<_>>())?.into_iter().zip(&m.values) {
                let v = v.map_err(|e| Fault::Skip(format!("{e:?}")))?;
                let nm = nav_ok("value.name", || v.name())?;
                decode_check(&nm, w.name.latin1, &w.name.bytes)?;
                cx.eval(1);
            }
        }
        if let Some(Ok(it)) = nav("subkeys", || k.subkeys())? {
            for (s, w) in nav("subkeys", || it.collect::<Vec<_>>())?.into_iter().zip(&m.subkeys) {
                stack.push((s.map_err(|e| Fault::Skip(format!("{e:?}")))?, w));
            }
        }
    }
    Ok(())
}
