//! C04 subkey lookup, C05 subpath, C06 value lookup.
use super::enumerate::{far_shift, partition_plan};
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::fold;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::oracle::Oracle;
use hivecore::rng::{mix, Rng};
use nt_hive::*;
use std::collections::HashMap;

pub const C04: Check = Check {
    id: "C04",
    rule: "hives with Windows-sorted subkey lists in every list form and partition; every stored name in several spellings \
           and its absent neighbours are looked up and compared with enumeration and with a map from folded names; \
           lists of every length; names of every length up to 20000 and selected ones up to 65535; non-trivial: a lookup in a non-empty list; distinct by (list shape, position or gap, spelling)",
    phases: &[
        Phase { name: "all partitions of short lists", quick: 128, thorough: 512, f: c04_partitions },
        Phase { name: "random trees", quick: 2400, thorough: 300_000, f: c04_trees },
        Phase { name: "similar names", quick: 1200, thorough: 150_000, f: c04_similar },
        Phase { name: "every list length", quick: 400, thorough: 4000, f: c04_lengths },
        Phase { name: "wide lists", quick: 16, thorough: 240, f: c04_wide },
        Phase { name: "far offsets", quick: 8, thorough: 80, f: c04_far },
        Phase { name: "sweep of list lengths", quick: 20, thorough: 20, f: super::sweep::looked_up },
        Phase { name: "sweep of name lengths", quick: 32, thorough: 32, f: super::sweep::name_lookups_04 },
        Phase { name: "sweep of name lengths, the rest", quick: 0, thorough: 128, f: |cx, c| super::sweep::name_lookups_04(cx, c + 32) },
    ],
};

struct Probe<'a> {
    base: usize,
    shift: usize,
    b: &'a Built,
}

impl Probe<'_> {
    fn pos(&self, id: usize) -> usize {
        BASE + self.shift + self.b.nodes[id].cell_off as usize + 4
    }
}

/// Names to look up around stored name `u`.
fn neighbours(r: &mut Rng, u: &[u16]) -> Vec<Vec<u16>> {
    let mut v = vec![u.to_vec()];
    v.push(fold::folded(u));
    v.push(respell(r, u));
    v.push(respell(r, u));
    // per-unit lowest spelling
    v.push(u.iter().map(|x| lower_variants(fold::up(*x)).first().copied().unwrap_or(*x)).collect());
    let mut w = u.to_vec();
    w.push(*r.pick(&[0u16, 0x20, 0x41, 0x61, 0xffff, 0xff]));
    v.push(w);
    if !u.is_empty() {
        v.push(u[..u.len() - 1].to_vec());
        let mut w = u.to_vec();
        let l = w.len() - 1;
        w[l] = w[l].wrapping_add(1);
        v.push(w.clone());
        w[l] = w[l].wrapping_sub(2);
        v.push(w);
        let mut w = u.to_vec();
        let i = r.idx(w.len());
        w[i] = rand_unit(r);
        v.push(w);
    }
    v
}

/// `ids[i]`: preorder number of subkey i.
fn lookups(cx: &mut Cx, p: &Probe, k: &KeyNode<&[u8]>, m: &Key, ids: &[usize], which: &[usize], shape: u64) -> Res {
    let map: HashMap<Vec<u16>, usize> = m.subkeys.iter().enumerate().map(|(i, s)| (fold::folded(&s.name.units()), i)).collect();
    let mut seen = 0u64;
    for &i in which {
        let u = m.subkeys[i].name.units();
        for (j, q) in neighbours(&mut cx.rng, &u).into_iter().enumerate() {
            let Some(text) = fold::decode(&q, false) else { continue };
            let want = map.get(&fold::folded(&q)).copied();
            cx.eval(1);
            seen += 1;
            let got = call("KeyNode::subkey", || k.subkey(&text))?;
            let ctx = || format!("{:?} (units {:x?}) among {} subkeys, near #{i}", text, q, m.subkeys.len());
            match (got, want) {
                (None, None) => cx.ev("absent", 1),
                (Some(Ok(g)), Some(w)) => {
                    let at = key_pos(p.base, &g)?;
                    if at != p.pos(ids[w]) {
                        return diff("KeyNode::subkey", format!("{}: found the record at {at:#x}, the matching subkey #{w} is at {:#x}", ctx(), p.pos(ids[w])));
                    }
                    cx.ev("found", 1);
                }
                (None, Some(w)) => return diff("KeyNode::subkey", format!("{}: None, but subkey #{w} matches", ctx())),
                (Some(Ok(g)), None) => {
                    let at = key_pos(p.base, &g)?;
                    return diff("KeyNode::subkey", format!("{}: found the record at {at:#x}, but no name matches", ctx()));
                }
                (Some(Err(e)), _) => return diff("KeyNode::subkey", format!("{}: {e:?}", ctx())),
            }
            cx.fp(mix(shape ^ mix((i as u64) << 8 | j as u64)));
        }
    }
    let mut fixed: Vec<String> = ["", "\u{0}", "\\", "zzzzzzzzzzzzzzz\u{ffff}", "\u{10ffff}", "CurrentControlSet", "(Default)", "*", "."].map(str::to_string).into();
    for _ in 0..3 {
        fixed.extend(hivecore::dict::word(&mut cx.rng, 1).map(|w| String::from_utf16_lossy(w)));
    }
    for t in &fixed {
        let q: Vec<u16> = t.encode_utf16().collect();
        let want = map.get(&fold::folded(&q)).copied();
        let got = call("KeyNode::subkey", || k.subkey(t))?;
        match (&got, want) {
            (None, None) => (),
            (Some(Ok(g)), Some(w)) if key_pos(p.base, g)? == p.pos(ids[w]) => (),
            (g, w) => {
                let g = g.as_ref().map(|r| r.as_ref().map(|_| "a key").map_err(|e| e.clone()));
                return diff("KeyNode::subkey", format!("{t:?}: {g:?}, expected #{w:?}"));
            }
        }
    }
    if seen > 0 {
        // agreement with enumeration, by handle equality
        if let Some(Ok(it)) = nav("subkeys", || k.subkeys())? {
            for (i, s) in nav("subkeys", || it.take(300).collect::<Vec<_>>())?.into_iter().enumerate() {
                let Ok(s) = s else { return Err(Fault::Skip("enumeration failed".into())) };
                let Some(text) = m.subkeys.get(i).and_then(|s| s.name.text()) else { continue };
                if let Some(Ok(g)) = call("KeyNode::subkey", || k.subkey(&text))? {
                    if nav("eq", || g != s)? {
                        return diff("KeyNode::subkey", format!("{text:?}: a different key than enumeration item {i}"));
                    }
                }
            }
        }
    }
    Ok(())
}

fn all_lookups(cx: &mut Cx, tree: &Key, p: &Probe, bytes: &[u8], per_key: usize, desc: &str) -> Res {
    cx.set_hive(if p.shift == 0 { bytes } else { &[] }, desc);
    let hive = open(bytes)?;
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    // preorder walk with navigation by enumeration
    let mut stack = vec![(root, tree, 0usize)];
    let mut budget = 60;
    while let Some((k, m, id)) = stack.pop() {
        budget -= 1;
        if budget == 0 {
            break;
        }
        let mut ids = vec![];
        let mut next = id + 1;
        for s in &m.subkeys {
            ids.push(next);
            next += s.count();
        }
        let n = m.subkeys.len();
        let which: Vec<usize> = if n <= per_key {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = (0..per_key - 4).map(|_| cx.rng.idx(n)).collect();
            v.extend([0, 1, n - 2, n - 1]);
            v
        };
        let sh = mix(shape(m) ^ hivecore::rng::fnv(desc.as_bytes()));
        lookups(cx, p, &k, m, &ids, &which, sh)?;
        if n > 2000 {
            continue;
        }
        if let Some(Ok(it)) = nav("subkeys", || k.subkeys())? {
            let kids = nav("subkeys", || it.collect::<Result<Vec<_>, _>>())?;
            let kids = kids.map_err(|e| Fault::Skip(format!("enumeration failed: {e:?}")))?;
            if kids.len() != n {
                return Err(Fault::Skip("enumeration is incomplete".into()));
            }
            for (i, c) in kids.into_iter().enumerate() {
                if m.subkeys[i].subkeys.is_empty() && !cx.rng.chance(1, 8) {
                    continue;
                }
                stack.push((c, &m.subkeys[i], ids[i]));
            }
        }
    }
    Ok(())
}

fn run04(cx: &mut Cx, tree: &Key, o: &Opts, per_key: usize, desc: String) -> Res {
    let b = build(&mut cx.rng, tree, o);
    cx.sample(|| desc.clone());
    let p = Probe { base: b.bytes.as_ptr() as usize, shift: 0, b: &b };
    all_lookups(cx, tree, &p, &b.bytes, per_key, &desc)
}

fn c04_partitions(cx: &mut Cx, case: u64) -> Res {
    let (n, parts) = partition_plan(cx, case);
    let tree = flat(n, |i| format!("k{i:03}"));
    let d = format!("{n} subkeys in an index root over {parts:?}");
    let o = Opts { root_plan: Some(ListPlan::Root(parts)), ..Opts::random(&mut cx.rng) };
    run04(cx, &tree, &o, 64, d)
}

fn c04_trees(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_keys: 60, max_fanout: 40, max_values: cx.rng.below(3) as usize, ..TreeOpts::default() };
    let tree = rand_tree(&mut cx.rng, &t);
    let o = Opts::random(&mut cx.rng);
    let d = format!("{} keys, {}", tree.count(), o.describe());
    run04(cx, &tree, &o, 40, d)
}

/// Names over a tiny alphabet (letters in both cases, the characters between 'Z' and 'a', non-ASCII pairs), many of
/// them prefixes of each other: ordering mistakes show up.
fn c04_similar(cx: &mut Cx, _: u64) -> Res {
    let alpha: &[u16] = match cx.rng.below(7) {
        0 => &[0x41, 0x61, 0x42, 0x62],
        1 => &[0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x7a, 0x7b],
        2 => &[0x49, 0x69, 0x130, 0x131, 0x53, 0x73, 0x17f],
        3 => &[0xb5, 0x3bc, 0x39c, 0xff, 0x178, 0xdf, 0x1e9e, 0xe0, 0xc0],
        4 => &[0x1c4, 0x1c5, 0x1c6, 0x3a3, 0x3c2, 0x3c3, 0x41],
        5 => &[0xd800, 0xdc00, 0xdbff, 0xdfff, 0xe000, 0xff21, 0xff41, 0xffff, 0x41],
        _ => &[0x20, 0x2e, 0x2f, 0x30, 0x5f, 0x41, 0x2d],
    };
    let n = cx.rng.range(2, 40) as usize;
    let mut tree = Key::named("root");
    for _ in 0..n {
        let l = cx.rng.range(1, 4) as usize;
        let u: Vec<u16> = (0..l).map(|_| *cx.rng.pick(alpha)).collect();
        let name = if cx.rng.chance(1, 4) { Name::utf16(&u) } else { Name::from_units(&u) };
        tree.subkeys.push(Key::new(name));
    }
    tree.normalize();
    let o = Opts::random(&mut cx.rng);
    let d = format!("{} names over {:x?}, {}", tree.subkeys.len(), alpha, o.describe());
    run04(cx, &tree, &o, 64, d)
}

fn c04_lengths(cx: &mut Cx, case: u64) -> Res {
    let n = case as usize / 2 + 1;
    let form = if case % 2 == 0 { Form::AnyLeaf } else { Form::RootOf(1 + cx.rng.idx(n.min(40))) };
    let tree = flat(n, |i| format!("Key{:04x}", i * 3));
    let o = Opts { form, ..Opts::default() };
    run04(cx, &tree, &o, 48, format!("{n} subkeys, {form:?}"))
}

fn c04_wide(cx: &mut Cx, case: u64) -> Res {
    let (n, form) = match case % 8 {
        0 => (65535, Form::Li),
        1 => (65535, Form::Lf),
        2 => (40000, Form::Lh),
        3 => (65535, Form::RootOf(1)),
        4 => (100_000, Form::RootOf(65535)),
        5 => (100_000, Form::RootOf(2)),
        6 => (32769, Form::Lf),
        _ => (cx.rng.range(1000, 120_000) as usize, Form::Root),
    };
    let tree = flat(n, |i| format!("{:06x}", i * 2));
    let o = Opts { form, fast: true, ..Opts::default() };
    cx.max("subkeys of one key", n as u64);
    run04(cx, &tree, &o, 1500, format!("{n} subkeys, {form:?}"))
}

fn c04_far(cx: &mut Cx, case: u64) -> Res {
    let t = TreeOpts { max_keys: 60, max_fanout: 40, max_values: 0, ..TreeOpts::default() };
    let tree = rand_tree(&mut cx.rng, &t);
    let o = Opts { trailing: 0, ..Opts::random(&mut cx.rng) };
    let b = build(&mut cx.rng, &tree, &o);
    let shift = far_shift(cx, case, b.bytes.len());
    let Some(mut s) = Sparse::place(&b, shift) else { return Err(Fault::Skip("no address space".into())) };
    let p = Probe { base: s.get().as_ptr() as usize, shift: shift as usize, b: &b };
    all_lookups(cx, &tree, &p, s.get(), 40, &format!("data at {shift:#x}, {}", o.describe()))
}

// ---------------------------------------------------------------------------------------------

pub const C05: Check = Check {
    id: "C05",
    rule: "random paths (stored components in random spellings, absent ones, runs of backslashes at every place, other \
           separator characters, dots, very long paths) on intact and damaged hives, compared with the fold of the observed \
           subkey calls; paths of every number of components and separators up to 4000; non-trivial: at least one non-empty component; distinct by hive shape and path",
    phases: &[
        Phase { name: "intact hives", quick: 4000, thorough: 400_000, f: c05_intact },
        Phase { name: "damaged hives", quick: 4000, thorough: 400_000, f: c05_damaged },
        Phase { name: "long paths", quick: 40, thorough: 800, f: c05_long },
        Phase { name: "long names", quick: 60, thorough: 8000, f: c05_names },
        Phase { name: "sweep of path lengths", quick: 8, thorough: 8, f: super::sweep::components },
        Phase { name: "sweep of path lengths, the rest", quick: 0, thorough: 32, f: |cx, c| super::sweep::components(cx, c + 8) },
    ],
};

fn slashes(r: &mut Rng) -> &'static str {
    match r.below(8) {
        0 => "\\\\",
        1 => "\\\\\\\\\\",
        _ => "\\",
    }
}

fn rand_path(r: &mut Rng, tree: &Key) -> String {
    let mut s = String::new();
    if r.chance(1, 4) {
        s.push_str(slashes(r));
    }
    let mut k = tree;
    let n = r.below(8);
    for i in 0..n {
        if i > 0 {
            s.push_str(slashes(r));
        }
        if let Some(w) = hivecore::dict::word(r, 40) {
            s.push_str(&String::from_utf16_lossy(w));
            if r.chance(1, 2) {
                continue;
            }
        }
        if k.subkeys.is_empty() || r.chance(1, 12) {
            if !r.chance(1, 3) {
                break;
            }
            let junk: &str = r.pick(&["x", ".", "..", "/", "a/b", " ", "\u{0}", "%", "absent", "é", "¥", "₩", "＼", "∖", "/a", "."]);
            s.push_str(junk);
            continue;
        }
        let c = &k.subkeys[r.idx(k.subkeys.len())];
        let u = respell(r, &c.name.units());
        match fold::decode(&u, false) {
            Some(t) => {
                s.push_str(&t);
                // sometimes a near miss
                match r.below(30) {
                    0 => s.push(' '),
                    1 => s.push('/'),
                    2 => s.push('.'),
                    _ => (),
                }
            }
            None => s.push_str("unrepresentable"),
        }
        k = c;
    }
    if r.chance(1, 4) {
        s.push_str(slashes(r));
    }
    s
}

/// Names that contain other conceivable separators.
fn odd_names(r: &mut Rng, k: &mut Key) {
    for s in k.subkeys.iter_mut() {
        if r.chance(1, 4) {
            let t: &str = r.pick(&["a/b", "/", ".", "..", "a.b", "¥", "x:y", "a b", " ", "|", "∖", "＼", "a%5Cb", "n\n", "₩", "#"]);
            s.name = Name::from_str(t);
        }
        odd_names(r, s);
    }
}

fn describe(r: &Option<Result<KeyNode<&[u8]>, NtHiveError>>) -> String {
    match r {
        None => "None".into(),
        Some(Ok(_)) => "a key".into(),
        Some(Err(e)) => format!("{e:?}"),
    }
}

fn c05_paths(cx: &mut Cx, tree: &Key, bytes: &[u8], n: usize, desc: &str) -> Res {
    cx.set_hive(bytes, desc);
    let hive = open(bytes)?;
    let Ok(root) = nav("root_key_node", || hive.root_key_node())? else { return Ok(()) };
    // every key can be the start of a path: pick a few
    let mut starts = vec![root.clone()];
    let mut trees = vec![tree];
    if let Some(Ok(it)) = nav("subkeys", || root.subkeys())? {
        let l = nav("subkeys", || it.take(6).collect::<Vec<_>>())?;
        for (i, s) in l.into_iter().enumerate() {
            if let (Ok(s), Some(m)) = (s, tree.subkeys.get(i)) {
                starts.push(s);
                trees.push(m);
            }
        }
    }
    for _ in 0..n {
        let si = if cx.rng.chance(2, 3) { 0 } else { cx.rng.idx(starts.len()) };
        let start = &starts[si];
        let path = rand_path(&mut cx.rng, trees[si]);
        cx.eval(1);
        let comps: Vec<&str> = path.split('\\').filter(|c| !c.is_empty()).collect();
        let mut want: Option<Result<KeyNode<&[u8]>, NtHiveError>> = Some(Ok(start.clone()));
        for c in &comps {
            let Some(Ok(k)) = &want else { break };
            want = nav("subkey", || k.subkey(c))?;
        }
        let got = call("KeyNode::subpath", || start.subpath(&path))?;
        let same = match (&got, &want) {
            (None, None) => true,
            (Some(Ok(a)), Some(Ok(b))) => nav("eq", || a == b)?,
            (Some(Err(a)), Some(Err(b))) => a == b,
            _ => false,
        };
        if !same {
            return diff(
                "KeyNode::subpath",
                format!("path {path:?} gives {}, stepwise lookup gives {}", describe(&got), describe(&want)),
            );
        }
        cx.ev(
            match &want {
                None => "not found",
                Some(Ok(_)) => "found",
                Some(Err(_)) => "error",
            },
            1,
        );
        cx.max("components", comps.len() as u64);
        if !comps.is_empty() {
            cx.fp(mix(shape(tree) ^ hivecore::rng::fnv(path.as_bytes())));
            cx.sample(|| format!("{path:?} -> {}", describe(&want)));
        }
    }
    Ok(())
}

fn c05_intact(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_values: 1, max_name: 8, ..TreeOpts::default() };
    let mut tree = rand_tree(&mut cx.rng, &t);
    if cx.rng.chance(1, 2) {
        odd_names(&mut cx.rng, &mut tree);
        tree.normalize();
    }
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &tree, &o);
    c05_paths(cx, &tree, &b.bytes, 30, &o.describe())
}

/// Names of up to 65535 bytes.
fn c05_names(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_values: 1, max_keys: 10, ..TreeOpts::default() };
    let mut tree = rand_tree(&mut cx.rng, &t);
    fn lengthen(r: &mut Rng, k: &mut Key) {
        for s in k.subkeys.iter_mut() {
            if r.chance(1, 2) {
                let utf16 = r.chance(1, 2);
                let n = r.log_range(200, if utf16 { 32767 } else { 65535 }) as usize;
                let u = r.range(0x61, 0x64) as u16;
                let mut v = vec![u; n];
                v[n / 2] = r.range(0x61, 0x7a) as u16;
                if utf16 {
                    v[n - 1] = 0x4e00 + r.below(99) as u16;
                }
                s.name = if utf16 { Name::utf16(&v) } else { Name::from_units(&v) };
            }
            lengthen(r, s);
        }
    }
    lengthen(&mut cx.rng, &mut tree);
    tree.normalize();
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &tree, &o);
    cx.ev("hives with long names", 1);
    c05_paths(cx, &tree, &b.bytes, 12, &o.describe())
}
fn c05_damaged(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_values: 1, max_name: 8, max_keys: 15, ..TreeOpts::default() };
    let tree = rand_tree(&mut cx.rng, &t);
    let o = Opts::random(&mut cx.rng);
    let mut b = build(&mut cx.rng, &tree, &o);
    let mut d = vec![];
    for _ in 0..1 + cx.rng.below(3) {
        let cand: Vec<usize> = (0..b.fields.len()).filter(|i| !matches!(b.fields[*i].cell, CK::Value | CK::Data | CK::ValueList)).collect();
        let fi = *cx.rng.pick(&cand);
        d.extend(mutate::damage(&mut cx.rng, &mut b, fi));
    }
    c05_paths(cx, &tree, &b.bytes, 20, &d.join("; "))
}

fn c05_long(cx: &mut Cx, _: u64) -> Res {
    let mut k = Key::named("leaf");
    for i in 0..400 {
        let mut p = Key::named(&format!("L{i}"));
        p.subkeys.push(k);
        k = p;
    }
    let b = build(&mut cx.rng, &k, &Opts::default());
    cx.set_hive(&b.bytes, "400 levels");
    let hive = open(&b.bytes)?;
    let root = nav_ok("root", || hive.root_key_node())?;
    let mut comps = vec![];
    let mut m = &k;
    while let Some(s) = m.subkeys.first() {
        comps.push(s.name.lossy());
        m = s;
    }
    let depth = cx.rng.range(1, comps.len() as u64) as usize;
    let sep = "\\".repeat(cx.rng.log_range(1, 3000) as usize);
    let path = format!("{sep}{}{sep}", comps[..depth].join(&sep));
    cx.eval(1);
    let got = call("KeyNode::subpath", || root.subpath(&path))?;
    let base = b.bytes.as_ptr() as usize;
    match got {
        Some(Ok(g)) if key_pos(base, &g)? == BASE + b.nodes[depth].cell_off as usize + 4 => (),
        g => return diff("KeyNode::subpath", format!("{depth} components with {}-fold separators: {}", sep.len(), describe(&g))),
    }
    let miss = format!("{path}no\\such\\key");
    if let Some(r) = call("KeyNode::subpath", || root.subpath(&miss))? {
        return diff("KeyNode::subpath", format!("absent component found: {}", describe(&Some(r))));
    }
    let long = "x".repeat(cx.rng.log_range(1, 500_000) as usize);
    if call("KeyNode::subpath", || root.subpath(&long).is_some())? {
        return diff("KeyNode::subpath", "a very long component was found");
    }
    let only = "\\".repeat(cx.rng.range(0, 5000) as usize);
    match call("KeyNode::subpath", || root.subpath(&only))? {
        Some(Ok(g)) if nav("eq", || g == root)? => (),
        g => return diff("KeyNode::subpath", format!("{} backslashes: {} instead of the key itself", only.len(), describe(&g))),
    }
    cx.fp(mix(depth as u64 ^ (sep.len() as u64) << 20));
    cx.max("path length", path.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C06: Check = Check {
    id: "C06",
    rule: "value lists with case-insensitive duplicates, default (empty) names and unreadable entries or names at random \
           places; lookups in random spellings compared with a scan of the stored list by the reference reader; value lists of every length up to 6000, value names of every length up to 20000, and selected larger ones; non-trivial: \
           a lookup in a non-empty list; distinct by list and name",
    phases: &[
        Phase { name: "intact lists", quick: 4000, thorough: 500_000, f: c06_intact },
        Phase { name: "damaged lists", quick: 6000, thorough: 700_000, f: c06_damaged },
        Phase { name: "long lists", quick: 16, thorough: 240, f: c06_long },
        Phase { name: "sweep of list lengths", quick: 8, thorough: 8, f: super::sweep::values_found },
        Phase { name: "sweep of list lengths, the rest", quick: 0, thorough: 32, f: |cx, c| super::sweep::values_found(cx, c + 8) },
        Phase { name: "sweep of name lengths", quick: 32, thorough: 32, f: super::sweep::name_lookups_06 },
        Phase { name: "sweep of name lengths, the rest", quick: 0, thorough: 128, f: |cx, c| super::sweep::name_lookups_06(cx, c + 32) },
    ],
};

fn c06_tree(cx: &mut Cx, n: usize) -> Key {
    let mut tree = Key::named("root");
    let alpha: Vec<u16> = match cx.rng.below(3) {
        0 => vec![0x41, 0x61, 0x42, 0x62],
        1 => (0..8).map(|_| rand_unit(&mut cx.rng)).collect(),
        _ => vec![0x49, 0x69, 0x131, 0x17f, 0x73, 0xff, 0x178, 0x5c, 0x2f],
    };
    for i in 0..n {
        let l = cx.rng.below(4) as usize;
        let u: Vec<u16> = (0..l).map(|_| *cx.rng.pick(&alpha)).collect();
        let name = if cx.rng.chance(1, 4) { Name::utf16(&u) } else { Name::from_units(&u) };
        tree.values.push(Value { name, ty: 4, data: (i as u32).to_le_bytes().to_vec() });
    }
    tree
}

fn c06_queries(cx: &mut Cx, tree: &Key, bytes: &[u8], n: usize, desc: &str) -> Res {
    cx.set_hive(bytes, desc);
    let hive = open(bytes)?;
    let o = Oracle::new(bytes);
    let root = nav_ok("root", || hive.root_key_node())?;
    let rn = o.root().map_err(|e| Fault::Skip(format!("{e:?}")))?;
    let list = o.values(&rn);
    for _ in 0..n {
        let u = match cx.rng.below(5) {
            0 => vec![],
            1 => match hivecore::dict::word(&mut cx.rng, 2) {
                Some(w) => w.to_vec(),
                None if cx.rng.chance(1, 6) => cx.rng.pick(&["@", "(Default)", "Default", "*", "%"]).encode_utf16().collect(),
                None => rand_units(&mut cx.rng, 6, false),
            },
            _ if !tree.values.is_empty() => {
                let i = cx.rng.idx(tree.values.len());
                respell(&mut cx.rng, &tree.values[i].name.units())
            }
            _ => vec![0x61],
        };
        let Some(text) = fold::decode(&u, false) else { continue };
        cx.eval(1);
        let mut want: Option<Result<usize, NtHiveError>> = None;
        match &list {
            None => (),
            Some(Err(e)) => want = Some(Err(e.clone())),
            Some(Ok(l)) => {
                for v in l {
                    match v.clone().and_then(|v| o.val_name(&v).map(|n| (v, n))) {
                        Err(e) => {
                            want = Some(Err(e));
                            break;
                        }
                        Ok((v, nm)) => {
                            if fold::cmp_units(&o.units(&nm), &u).is_eq() {
                                want = Some(Ok(v.cell.start));
                                break;
                            }
                        }
                    }
                }
            }
        }
        let got = call("KeyNode::value", || root.value(&text))?;
        let base = bytes.as_ptr() as usize;
        let got_pos = match &got {
            Some(Ok(v)) => match nav("value.name", || v.name())? {
                Ok(nm) => Some(Ok((parts(&nm).1.as_ptr() as usize).wrapping_sub(base).wrapping_sub(20))),
                Err(e) => return diff("KeyNode::value", format!("{text:?}: returned a value whose name cannot be read ({e:?})")),
            },
            Some(Err(e)) => Some(Err(e.clone())),
            None => None,
        };
        match (&got_pos, &want) {
            (None, None) => cx.ev("absent", 1),
            (Some(Ok(g)), Some(Ok(w))) if g == w => cx.ev("found", 1),
            // which error it is belongs to C16
            (Some(Err(g)), Some(Err(w))) => {
                cx.ev("error", 1);
                if std::mem::discriminant(g) != std::mem::discriminant(w) && !o.same_report(w, g) {
                    return diff("KeyNode::value", format!("{text:?}: returns {g:?}, the first unreadable entry has {w:?}"));
                }
            }
            (g, w) => {
                return diff(
                    "KeyNode::value",
                    format!("{text:?}: {g:x?}, but the first match in the list of {} is {w:x?} (record offset or error)", tree.values.len()),
                )
            }
        }
        if !tree.values.is_empty() {
            cx.fp(mix(hivecore::rng::digest(&bytes[36..40]) ^ shape(tree) ^ hivecore::rng::fnv(text.as_bytes()) ^ hivecore::rng::fnv(desc.as_bytes())));
        }
        cx.sample(|| format!("{text:?} among {:?} -> {got_pos:x?}", tree.values.iter().map(|v| v.name.lossy()).take(8).collect::<Vec<_>>()));
    }
    Ok(())
}

fn c06_intact(cx: &mut Cx, case: u64) -> Res {
    let n = if case % 40 == 0 { 0 } else { cx.rng.log_range(1, 30) as usize };
    let tree = c06_tree(cx, n);
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &tree, &o);
    c06_queries(cx, &tree, &b.bytes, 16, &o.describe())
}

fn c06_damaged(cx: &mut Cx, _: u64) -> Res {
    let n = cx.rng.log_range(1, 12) as usize;
    let tree = c06_tree(cx, n);
    let o = Opts::random(&mut cx.rng);
    let mut b = build(&mut cx.rng, &tree, &o);
    let mut d = vec![];
    for _ in 0..1 + cx.rng.below(2) {
        let cand: Vec<usize> = (0..b.fields.len())
            .filter(|i| {
                let f = &b.fields[*i];
                matches!(f.cell, CK::Value | CK::ValueList) && f.len > 0
                    || matches!(f.kind, FK::NodeValuesCount | FK::NodeValuesOff)
            })
            .collect();
        let fi = *cx.rng.pick(&cand);
        d.extend(mutate::damage(&mut cx.rng, &mut b, fi));
    }
    c06_queries(cx, &tree, &b.bytes, 10, &d.join("; "))
}

fn c06_long(cx: &mut Cx, _: u64) -> Res {
    let n = *cx.rng.pick(&[255usize, 256, 1000, 65535, 65536, 70000]);
    let mut tree = Key::named("root");
    for i in 0..n {
        tree.values.push(Value { name: Name::from_str(&format!("v{i:x}")), ty: 4, data: vec![0; 4] });
    }
    let b = build(&mut cx.rng, &tree, &Opts { fast: true, ..Opts::default() });
    cx.max("values of one key", n as u64);
    c06_queries(cx, &tree, &b.bytes, 12, &format!("{n} values"))
}
