//! C02: every call does bounded work; subkey lookup is logarithmic.
use super::enumerate::partition_plan;
use super::util::*;
use super::volatile::chain;
use crate::alloc_count;
use crate::cx::*;
use hivecore::build::*;
use hivecore::fold;
use hivecore::model::*;
use hivecore::mslice::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::oracle::*;
use hivecore::rng::{digest, mix};
use nt_hive::*;

pub const C02: Check = Check {
    id: "C02",
    rule: "hives are read through a byte slice that counts every access; each call has a budget derived from the structures it \
           needs: a constant for handles, names, next and data, the declared count for whole-list operations, \
           c*(log2 entries + log2 leaves) for a subkey lookup, entries for a value lookup, and the bytes of the hive for \
           clear_volatile_subkeys; lists hold 0 to 65535 entries in one leaf or up to 65535 leaves; damaged, cyclic and \
           self-referencing hives included; names of 65535 bytes and paths of half a megabyte must take time in proportion; iterators may not yield more than the counts on disk declare; a watchdog outside \
           ends calls that do not return; non-trivial: a lookup in a list of at least 64 entries or a damaged hive; distinct \
           by hive bytes and looked-up name",
    phases: &[
        Phase { name: "lookups in one leaf", quick: 240, thorough: 6000, f: leaf },
        Phase { name: "lookups through an index root", quick: 240, thorough: 6000, f: root },
        Phase { name: "short lists", quick: 1023, thorough: 16_368, f: short },
        Phase { name: "disordered lists", quick: 240, thorough: 12_000, f: disordered },
        Phase { name: "value lookups and paths", quick: 800, thorough: 40_000, f: linear },
        Phase { name: "damaged hives", quick: 12_000, thorough: 1_500_000, f: damaged },
        Phase { name: "soup", quick: 6000, thorough: 600_000, f: soup },
        Phase { name: "cyclic and shared keys", quick: 1200, thorough: 60_000, f: cycles },
        Phase { name: "doubling keys", quick: 120, thorough: 3000, f: doubling },
        Phase { name: "copying of data", quick: 24, thorough: 600, f: copying },
        Phase { name: "long names and paths", quick: 32, thorough: 1200, f: long },
        Phase { name: "time of lookups", quick: 24, thorough: 600, f: lookup_time },
        Phase { name: "time on large hives", quick: 8, thorough: 60, f: time },
    ],
};

/// Accesses allowed for a step of constant work.
const STEP: u64 = 400;

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

fn budget<T>(cx: &mut Cx, op: &str, limit: u64, f: impl FnOnce() -> T) -> Res<T> {
    let (r, n) = call(op, || metered(limit, f)).map_err(|e| match e {
        Fault::Panic { op, msg } if msg.starts_with("more than") => Fault::Diff { op, detail: msg },
        // crashes are judged elsewhere
        e => e.skip(),
    })?;
    cx.max(&format!("accesses of {op}"), n);
    Ok(r)
}

fn nav_mon<'a>(b: &'a [u8]) -> Res<Hive<Mon<'a>>> {
    nav_ok("without_validation", || Hive::without_validation(Mon(b)))
}

fn lookups(cx: &mut Cx, b: &[u8], names: &[Vec<u16>], leaves: usize, longest: usize, n: usize) -> Res {
    let hive = nav_mon(b)?;
    let k = nav_ok("root_key_node", || hive.root_key_node())?;
    let steps = 2 * log2(leaves) + log2(longest) + 6;
    let key = digest(&b[..b.len().min(20_000)]);
    for _ in 0..n {
        let mut u = match cx.rng.below(6) {
            0 => names.first().cloned().unwrap_or_default(),
            1 => names.last().cloned().unwrap_or_default(),
            _ if names.is_empty() => vec![0x41],
            _ => names[cx.rng.idx(names.len())].clone(),
        };
        match cx.rng.below(4) {
            0 => u.push(0x21),
            1 if !u.is_empty() => {
                let i = cx.rng.idx(u.len());
                u[i] = u[i].wrapping_add(1);
            }
            _ => (),
        }
        let t = String::from_utf16_lossy(&u);
        let op = if leaves > 1 { "subkey in an index root" } else { "subkey in a leaf" };
        let r = budget(cx, op, steps * 60, || k.subkey(&t).map(|r| r.is_ok()))?;
        cx.eval(1);
        cx.ev(if r.is_some() { "found" } else { "not found" }, 1);
        if names.len() >= 64 {
            cx.fp(mix(key ^ digest(t.as_bytes())));
        }
    }
    Ok(())
}

fn leaf(cx: &mut Cx, case: u64) -> Res {
    let n = match case % 8 {
        0 => 65535,
        1 => 30_000,
        2 => 10_000,
        3 => 1 << cx.rng.range(6, 15),
        _ => cx.rng.log_range(64, 20_000) as usize,
    };
    let tree = flat(n, |i| format!("{i:06}"));
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.form = *cx.rng.pick(&[Form::Li, Form::Lf, Form::Lh]);
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, format!("{n} subkeys, {}", o.describe()));
    let names: Vec<Vec<u16>> = tree.subkeys.iter().map(|k| k.name.units()).collect();
    cx.max("entries in a leaf", n as u64);
    lookups(cx, &b.bytes, &names, 1, n, 60)
}

fn root(cx: &mut Cx, case: u64) -> Res {
    let n = match case % 8 {
        0 => 65535,
        1 => 90_000,
        2 => 20_000,
        _ => cx.rng.log_range(64, 20_000) as usize,
    };
    let per = match case / 8 % 5 {
        0 => n.div_ceil(65535),
        1 => 2.max(n.div_ceil(65535)),
        2 => n.div_ceil(2).min(65535),
        3 => 1012,
        _ => (cx.rng.log_range(1, n as u64) as usize).max(n.div_ceil(65535)).min(65535),
    };
    let tree = flat(n, |i| format!("{i:06}"));
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.form = Form::RootOf(per);
    let b = build(&mut cx.rng, &tree, &o);
    let leaves = n.div_ceil(per);
    cx.set_hive(&b.bytes, format!("{n} subkeys in {leaves} leaves, {}", o.describe()));
    let names: Vec<Vec<u16>> = tree.subkeys.iter().map(|k| k.name.units()).collect();
    cx.max("leaves of an index root", leaves as u64);
    lookups(cx, &b.bytes, &names, leaves.max(2), per, 60)
}

fn short(cx: &mut Cx, case: u64) -> Res {
    let (n, plan) = partition_plan(cx, case % 1023);
    let tree = flat(n, |i| format!("k{i}"));
    let mut o = Opts::random(&mut cx.rng);
    let (leaves, longest) = (plan.len(), plan.iter().map(|p| p.1).max().unwrap());
    o.root_plan = Some(ListPlan::Root(plan));
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, format!("{:?}", o.root_plan));
    let names: Vec<Vec<u16>> = tree.subkeys.iter().map(|k| k.name.units()).collect();
    lookups(cx, &b.bytes, &names, leaves.max(2), longest, 20)
}

/// Damaged lists: many entries of one name, descending or random order. What a lookup finds there is
/// open, the work it may do is not.
fn disordered(cx: &mut Cx, case: u64) -> Res {
    let n = match case % 6 {
        0 => 65535,
        1 => 30_000,
        _ => cx.rng.log_range(64, 20_000) as usize,
    };
    let mut raw = Raw::new();
    let kinds = if case % 5 == 0 { cx.rng.range(100, 3000) as usize } else { cx.rng.range(1, 6) as usize };
    let ks: Vec<u32> = (0..kinds).map(|i| raw.node(format!("{i:04}").as_bytes(), NIL, (0, NIL))).collect();
    let way = case % 5;
    let items: Vec<u32> = (0..n)
        .map(|i| {
            ks[match way {
                0 => (n - 1 - i) * kinds / n,
                1 => i * kinds / n,
                2 => cx.rng.idx(kinds),
                3 => i % kinds,
                _ => 0,
            }]
        })
        .collect();
    let sig: &[u8; 2] = cx.rng.pick::<&[u8; 2]>(&[b"lf", b"lh", b"li"]);
    let per = if cx.rng.chance(1, 2) { n } else { cx.rng.log_range((n as u64).div_ceil(65535).max(1), n as u64) as usize };
    let mut l: Vec<u32> = items.chunks(per).map(|c| raw.list(sig, c)).collect();
    let leaves = l.len();
    let list = if leaves == 1 && cx.rng.chance(1, 2) { l.remove(0) } else { raw.list(b"ri", &l) };
    let root = raw.node(b"root", list, (0, NIL));
    let b = raw.finish(&mut cx.rng, 5, root);
    cx.set_hive(&b, format!("{n} entries of {kinds} keys in {leaves} leaves, arrangement {way}"));
    cx.ev("entries in disorder", n as u64);
    let names: Vec<Vec<u16>> = (0..kinds).map(|i| format!("{i:04}").encode_utf16().collect()).collect();
    lookups(cx, &b, &names, leaves.max(2), per, 40)
}

fn linear(cx: &mut Cx, _: u64) -> Res {
    let nv = cx.rng.log_range(0, 2000) as usize;
    let levels = cx.rng.range(1, 60) as usize;
    let mut tree = chain(&mut cx.rng, levels, true);
    for i in 0..nv {
        tree.values.push(Value { name: Name::latin1(format!("v{i}").as_bytes()), ty: 4, data: vec![1, 2, 3, 4] });
    }
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, format!("{nv} values, {levels} levels"));
    let hive = nav_mon(&b.bytes)?;
    let k = nav_ok("root_key_node", || hive.root_key_node())?;
    for t in [format!("v{}", nv / 2), "none".into(), String::new(), format!("V{}", nv.saturating_sub(1))] {
        budget(cx, "value", (nv as u64 + 2) * 40 + STEP, || k.value(&t).is_some())?;
        cx.eval(1);
    }
    let mut path = String::new();
    let mut m = &tree;
    let mut comps = 0;
    while let Some(s) = m.subkeys.iter().find(|s| !s.subkeys.is_empty() || s.name.text().unwrap() == "bottom") {
        path.push_str(if cx.rng.chance(1, 5) { "\\\\\\" } else { "\\" });
        path.push_str(&s.name.text().unwrap());
        m = s;
        comps += 1;
    }
    for tail in ["", "\\missing", "\\\\"] {
        let p = format!("{path}{tail}");
        budget(cx, "subpath", (comps + 2) * 12 * 60, || k.subpath(&p).is_some())?;
        cx.eval(1);
    }
    // a path that fails at once does not cost its length
    let long = "\\nothing".repeat(5000);
    budget(cx, "subpath that fails at once", 12 * 60, || k.subpath(&long).is_some())?;
    budget(cx, "subpath of separators", STEP, || k.subpath(&"\\".repeat(10_000)).is_some())?;
    cx.fp(mix(nv as u64 ^ (levels as u64) << 32));
    Ok(())
}

/// Counts every access of a bounded exploration of any hive.
fn explore(cx: &mut Cx, b: &[u8]) -> Res {
    let o = Oracle::new(b);
    let hive = nav_mon(b)?;
    let Ok(root) = budget(cx, "root_key_node", STEP, || hive.root_key_node())? else { return Ok(()) };
    let Ok(rn) = o.root() else { return Ok(()) };
    let mut todo = vec![(root, rn)];
    let mut seen = std::collections::HashSet::new();
    let mut items = 0u64;
    while let Some((k, n)) = todo.pop() {
        if !seen.insert(n.off) || seen.len() > 40 || items > 3000 {
            continue;
        }
        budget(cx, "name", STEP, || k.name().is_ok())?;
        budget(cx, "class_name", STEP, || k.class_name().is_some())?;
        let sub = o.subkeys(&n);
        // what the lists declare, readable or not
        let (declared, leaves, longest, flat) = match &sub {
            Some(Ok(Sub::Leaf(v))) => (v.len() as u64, 1, v.len(), Some(v.clone())),
            Some(Ok(s @ Sub::Root(v))) => {
                let long = v.iter().filter_map(|l| l.as_ref().ok()).map(|l| l.len()).max().unwrap_or(0);
                let f = s.flat();
                (f.len() as u64, v.len(), long, Some(f))
            }
            _ => (0, 1, 1, None),
        };
        let list = budget(cx, "subkeys", STEP, || k.subkeys())?;
        if let Some(Ok(mut it)) = list {
            budget(cx, "subkeys.size_hint", STEP, || it.size_hint())?;
            let mut got = 0;
            let mut kids = vec![];
            while let Some(x) = budget(cx, "subkeys.next", STEP, || it.next())? {
                got += 1;
                items += 1;
                if got > declared {
                    return diff("subkeys.next", format!("key at {:#x}: item {got} of a list that declares {declared}", n.cell.start));
                }
                if kids.len() < 20 {
                    kids.push(x.ok());
                }
                if items > 4000 {
                    break;
                }
            }
            cx.ev("subkey items", got);
            for (a, b) in kids.into_iter().zip(flat.unwrap_or_default()) {
                if let (Some(a), Ok(b)) = (a, b) {
                    todo.push((a, b));
                }
            }
            if declared < 3000 {
                let lim = (declared + leaves as u64 + 2) * STEP;
                let again = |cx: &mut Cx| budget(cx, "subkeys", STEP, || k.subkeys().and_then(|r| r.ok()));
                if let Some(it) = again(cx)? {
                    budget(cx, "subkeys.count", lim, || it.count())?;
                }
                if let Some(it) = again(cx)? {
                    budget(cx, "subkeys.last", lim, || it.last().is_some())?;
                }
                let far = *cx.rng.pick(&[0usize, 1, 5, 65535, 65536, 1 << 31, usize::MAX]);
                if let Some(mut it) = again(cx)? {
                    budget(cx, "subkeys.nth", lim, || it.nth(far).is_some())?;
                }
            }
        }
        let steps = 2 * log2(leaves) + log2(longest) + 6;
        let name = match cx.rng.below(3) {
            0 => String::new(),
            1 => "zzzz".to_string(),
            _ => fold::decode(&rand_units(&mut cx.rng, 4, false), true).unwrap(),
        };
        budget(cx, "subkey in a damaged hive", steps * 60, || k.subkey(&name).is_some())?;

        let declared = match o.values(&n) {
            Some(Ok(v)) => v.len() as u64,
            _ => 0,
        };
        if let Some(Ok(mut it)) = budget(cx, "values", STEP, || k.values())? {
            let mut got = 0;
            while let Some(x) = budget(cx, "values.next", STEP, || it.next())? {
                got += 1;
                items += 1;
                if got > declared {
                    return diff("values.next", format!("key at {:#x}: item {got} of a list that declares {declared}", n.cell.start));
                }
                if items > 4000 {
                    break;
                }
                let Ok(v) = x else { continue };
                if got > 20 {
                    continue;
                }
                budget(cx, "value.name", STEP, || v.name().is_ok())?;
                budget(cx, "data_size", STEP, || v.data_size())?;
                budget(cx, "data_type", STEP, || v.data_type().is_ok())?;
                let segs = (v.data_size() as u64).div_ceil(SEG as u64);
                if let Ok(KeyValueData::Big(mut it)) = budget(cx, "data", STEP, || v.data())? {
                    let mut n = 0;
                    while let Some(_x) = budget(cx, "data.next", STEP, || it.next())? {
                        n += 1;
                        if n > segs {
                            return diff("data.next", format!("piece {n} of data of {} bytes", v.data_size()));
                        }
                        if n > 200 {
                            break;
                        }
                    }
                }
                if segs < 200 {
                    budget(cx, "dword_data", STEP, || v.dword_data().is_ok())?;
                    budget(cx, "qword_data", STEP, || v.qword_data().is_ok())?;
                    budget(cx, "string_data", (segs + 2) * STEP, || v.string_data().is_ok())?;
                    budget(cx, "into_vec", (segs + 2) * STEP, || v.data().and_then(|d| d.into_vec()).is_ok())?;
                    if let Ok(it) = budget(cx, "multi_string_data", STEP, || v.multi_string_data())? {
                        // lines are at least two bytes apart
                        let cap = v.data_size() as usize / 2 + 2;
                        let n = budget(cx, "multi.next", (segs + 2) * STEP, || it.take(cap + 10).count())?;
                        if n > cap + segs as usize {
                            return diff("multi.next", format!("{n} lines in {} bytes", v.data_size()));
                        }
                    }
                }
            }
            cx.ev("value items", got);
        }
        budget(cx, "value in a damaged hive", (declared + 2) * 40 + STEP, || k.value(&name).is_some())?;
    }
    clear(cx, b)
}

fn clear(cx: &mut Cx, b: &[u8]) -> Res {
    let mut c = b.to_vec();
    let limit = 64 * (b.len() as u64 / 8) + 1000;
    let mut hive = nav_ok("without_validation", || Hive::without_validation(MonMut(&mut c)))?;
    let r = budget(cx, "clear_volatile_subkeys", limit, || hive.clear_volatile_subkeys())?;
    cx.ev(if r.is_ok() { "cleared" } else { "clearing refused" }, 1);
    Ok(())
}

fn damaged(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_keys: 20, max_values: 4, max_data: 100, max_name: 8, big_chance: (1, 60), ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let mut d = vec![];
    mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    cx.set_hive(&b.bytes, d.join("; "));
    cx.eval(1);
    cx.fp(digest(&b.bytes));
    explore(cx, &b.bytes)
}

fn soup(cx: &mut Cx, _: u64) -> Res {
    let n = cx.rng.log_range(3, 120) as usize;
    let b = mutate::soup(&mut cx.rng, n);
    cx.set_hive(&b, "soup");
    cx.eval(1);
    cx.fp(digest(&b));
    explore(cx, &b)
}

fn cycles(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_keys: 20, max_values: 2, max_data: 8, max_name: 6, ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let fs: Vec<usize> = (0..b.fields.len()).filter(|i| matches!(b.fields[*i].kind, FK::LeafItemOff | FK::RootItemOff | FK::NodeSubkeysOff | FK::ValItemOff | FK::ValDataOff)).collect();
    if fs.is_empty() {
        return Ok(());
    }
    for _ in 0..cx.rng.range(1, 5) {
        let f = b.fields[*cx.rng.pick(&fs)].clone();
        let like: Vec<u32> = b
            .cells
            .iter()
            .filter(|c| match f.kind {
                FK::LeafItemOff => c.1 == CK::Node,
                FK::RootItemOff => matches!(c.1, CK::Leaf | CK::IndexRoot),
                FK::ValItemOff => c.1 == CK::Value,
                FK::ValDataOff => true,
                _ => matches!(c.1, CK::Leaf | CK::IndexRoot),
            })
            .map(|c| c.0)
            .collect();
        if !like.is_empty() {
            let v = *cx.rng.pick(&like);
            set(&mut b.bytes, f.pos, 4, v as u64);
        }
    }
    cx.set_hive(&b.bytes, "redirected");
    cx.eval(1);
    cx.fp(digest(&b.bytes));
    explore(cx, &b.bytes)
}

/// Levels whose lists name the next level several times: a tree walk would take exponential time.
fn doubling(cx: &mut Cx, _: u64) -> Res {
    let mut w = Raw::new();
    let levels = cx.rng.range(5, 60);
    let width = cx.rng.range(2, 40) as usize;
    let bottom = w.node(b"bottom", NIL, (0, NIL));
    let mut next = bottom;
    for _ in 0..levels {
        let l = w.list(*cx.rng.pick(&[b"lf", b"li", b"lh"]), &vec![next; width]);
        let l = if cx.rng.chance(1, 3) { w.list(b"ri", &vec![l; cx.rng.range(1, 4) as usize]) } else { l };
        next = w.node(b"k", l, (0, NIL));
    }
    if cx.rng.chance(1, 4) {
        // close the loop
        w.put32(bottom, 28, next);
        let l = w.list(b"lf", &[next]);
        w.put32(bottom, 28, l);
    }
    let bytes = w.finish(&mut cx.rng, 5, next);
    cx.set_hive(&bytes, format!("{levels} levels of {width} entries naming the same key"));
    cx.eval(1);
    cx.fp(digest(&bytes));
    explore(cx, &bytes)
}

/// Constant-time calls stay cheap on hives of tens of megabytes.
fn time(cx: &mut Cx, case: u64) -> Res {
    let mut tree = flat(3000, |i| format!("{i:05}"));
    let size = 24 << 20;
    let data = vec![case as u8 + 1; size];
    tree.values.push(Value { name: Name::latin1(b"big"), ty: 3, data });
    tree.values.push(Value { name: Name::latin1(b"text"), ty: 1, data: units_bytes(&[0x41, 0]) });
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.slack = 0;
    o.minor = if case % 2 == 0 { 5 } else { 3 };
    let b = build(&mut cx.rng, &tree, &o);
    cx.eval(1);
    let bytes = &b.bytes[..];
    let hive = nav_ok("Hive::new", || Hive::new(bytes))?;
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    let big = nav_some("value", || root.value("big"))?;
    let mut it = nav_some("subkeys", || root.subkeys())?;
    // 400 calls of constant work; one scan of the data per call would take seconds
    let mut guard = |op: &str, f: &mut dyn FnMut()| -> Res {
        let a = cpu_time();
        call(op, || {
            for _ in 0..400 {
                f();
            }
        })?;
        let t = cpu_time() - a;
        if t.as_millis() > 1200 {
            return diff(op, format!("400 calls on a hive of {} bytes took {} ms of CPU time", bytes.len(), t.as_millis()));
        }
        Ok(())
    };
    guard("Hive::new", &mut || drop(Hive::new(bytes)))?;
    guard("validate", &mut || drop(hive.validate()))?;
    guard("root_key_node", &mut || drop(hive.root_key_node()))?;
    guard("subkey", &mut || drop(root.subkey("01234")))?;
    guard("subpath", &mut || drop(root.subpath("\\02999")))?;
    guard("value", &mut || drop(root.value("text")))?;
    guard("values", &mut || drop(root.values()))?;
    guard("subkeys.next", &mut || drop(it.next()))?;
    guard("data", &mut || drop(big.data()))?;
    guard("dword_data", &mut || drop(big.dword_data()))?;
    guard("string_data", &mut || drop(big.string_data()))?;
    guard("clone", &mut || drop(big.clone()))?;
    cx.ev("timed calls", 400 * 12);
    cx.fp(case);
    Ok(())
}

/// CPU time of a call on a name or path of maximal length; several attempts, as the clock may be disturbed.
fn timed(cx: &mut Cx, op: &str, what: &str, ms: u128, f: &mut dyn FnMut()) -> Res {
    let mut best = u128::MAX;
    for _ in 0..4 {
        let (a, m) = (cpu_time(), alloc_count::bytes());
        call(op, &mut *f)?;
        let (t, m) = ((cpu_time() - a).as_micros(), alloc_count::bytes() - m);
        if m > 4 << 20 {
            return diff(op, format!("allocates {m} bytes in all for {what}"));
        }
        best = best.min(t);
        // nothing disturbs the clock that much
        if best < ms * 1000 || t > ms * 10_000 {
            break;
        }
    }
    cx.eval(1);
    cx.max(&format!("microseconds of {op} on {what}"), best as u64);
    if best >= ms * 1000 {
        return diff(op, format!("takes {best} microseconds of CPU time for {what}, at the best of several times"));
    }
    Ok(())
}

/// Looking up a name takes logarithmic time too, not only few accesses: lists of 65535 entries and leaves.
fn lookup_time(cx: &mut Cx, case: u64) -> Res {
    // every entry names the same key, so that the lists stay sorted and the caches warm
    let mut w = Raw::new();
    let k = w.node(b"m", NIL, (0, NIL));
    let form = *cx.rng.pick(&[b"lf", b"li", b"lh"]);
    let n = 65535 - cx.rng.range(0, 300) as usize;
    let big = w.list(form, &vec![k; n]);
    let small = w.list(form, &vec![k; 3]);
    let (top, what) = match case % 4 {
        0 | 1 => (big, "a leaf of 65535 entries"),
        2 => (w.list(b"ri", &vec![small; n]), "an index root of 65535 leaves"),
        _ => (w.list(b"ri", &vec![big; n]), "an index root of 65535 leaves of 65535 entries"),
    };
    let root = w.node(b"root", top, (0, NIL));
    let bytes = w.finish(&mut cx.rng, 5, root);
    cx.set_hive(&bytes, what);
    let hive = nav_ok("without_validation", || Hive::without_validation(&bytes[..]))?;
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    for (name, found) in [("a", false), ("z", false), ("M", true), ("m0", false)] {
        let mut best = u128::MAX;
        for _ in 0..6 {
            let a = cpu_time();
            let mut hits = 0;
            for _ in 0..40 {
                hits += call("KeyNode::subkey", || root.subkey(name).is_some())? as u32;
            }
            best = best.min((cpu_time() - a).as_nanos() / 40);
            if hits != if found { 40 } else { 0 } {
                cx.ev("other answers", 1);
            }
            if best < 100_000 {
                break;
            }
        }
        cx.eval(1);
        cx.max(&format!("nanoseconds of subkey in {what}"), best as u64);
        if best > 150_000 {
            return diff("KeyNode::subkey", format!("{name:?} in {what}: takes {best} ns of CPU time, at the best of six times"));
        }
    }
    cx.fp(mix(case ^ n as u64));
    Ok(())
}

/// Names of 65535 bytes and paths of a megabyte take time in proportion to their length.
fn long(cx: &mut Cx, case: u64) -> Res {
    let units: Vec<u16> = match case % 4 {
        0 => vec![0x61; 32767],
        1 => (0..32767).map(|i| if i % 2 == 0 { 0xd83d } else { 0xde00 }).collect(),
        2 => (0..32767).map(|_| 0xd800).collect(),
        _ => (0..32767).map(|i| 0x4e00 + (i % 20000) as u16).collect(),
    };
    let mut other = units.clone();
    *other.last_mut().unwrap() = 0x5a;
    let (u, o) = (units_bytes(&units), units_bytes(&other));
    let mut l = vec![*cx.rng.pick(b"a\xe9"); 65535];
    let l1 = l.clone();
    l[65534] = b'Z';
    let text = String::from_utf16_lossy(&units);
    let latin: String = l1.iter().map(|c| *c as char).collect();
    let names = [NtHiveNameString::Utf16LE(&u), NtHiveNameString::Utf16LE(&o), NtHiveNameString::Latin1(&l1), NtHiveNameString::Latin1(&l)];
    struct Sink(usize);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    for (i, n) in names.iter().enumerate() {
        let what = if i < 2 { "a UTF-16 name of 65534 bytes" } else { "a Latin1 name of 65535 bytes" };
        timed(cx, "to_string_checked", what, 60, &mut || drop(n.to_string_checked()))?;
        timed(cx, "to_string_lossy", what, 60, &mut || drop(n.to_string_lossy()))?;
        timed(cx, "Display", what, 60, &mut || {
            let _ = std::fmt::Write::write_fmt(&mut Sink(0), format_args!("{n}"));
        })?;
        for m in &names {
            timed(cx, "cmp", what, 60, &mut || { std::hint::black_box(n.cmp(m)); })?;
            timed(cx, "==", what, 60, &mut || { std::hint::black_box(n == m); })?;
        }
        for t in [&text, &latin] {
            timed(cx, "name < str", what, 60, &mut || { std::hint::black_box(n.partial_cmp(t.as_str())); })?;
            timed(cx, "str < name", what, 60, &mut || { std::hint::black_box(t.as_str().partial_cmp(n)); })?;
            timed(cx, "name == str", what, 60, &mut || { std::hint::black_box(*n == t.as_str()); })?;
        }
    }
    // a key that is its own subkey, under a long path
    let mut w = Raw::new();
    let form = *cx.rng.pick(&[b"lf", b"li", b"lh"]);
    let l = w.list(form, &[16]);
    let at = w.node(b"k", l, (0, NIL));
    w.put32(l, 4, at);
    let bytes = w.finish(&mut cx.rng, 5, at);
    cx.set_hive(&bytes, "a key below itself");
    let hive = nav_ok("without_validation", || Hive::without_validation(&bytes[..]))?;
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    let n = [4000, 500, 60_000][(case as usize / 8).min(2)] + cx.rng.range(0, 400) as usize;
    for (path, found) in [("k\\".repeat(n), true), ("\\".repeat(n * 8), true), (format!("{}q", "k\\\\".repeat(n)), false), ("x".repeat(n * 8), false)] {
        let mut got = None;
        timed(cx, "subpath", if n > 50_000 { "a path of 120 to 520 kilobytes" } else { "a path of 1 to 35 kilobytes" }, if n > 50_000 { 700 } else { 60 }, &mut || got = Some(root.subpath(&path).is_some_and(|r| r.is_ok())))?;
        if got != Some(found) {
            cx.ev("other answers for long paths", 1);
        }
    }
    cx.fp(case ^ n as u64);
    Ok(())
}

/// Owned results cost memory and time proportional to the data.
fn copying(cx: &mut Cx, case: u64) -> Res {
    let mut tree = Key::named("root");
    let sizes = [24 * SEG as usize, 384 * SEG as usize];
    for (i, n) in sizes.iter().enumerate() {
        let n = n - cx.rng.range(0, 5000) as usize * 2;
        let mut data: Vec<u8> = (0..n).map(|j| if j % 2 == 0 { 0x20 + (j / 2 % 90) as u8 } else { 0 }).collect();
        match case % 4 {
            0 => (),
            // unpaired surrogates: the longest text
            1 => (0..n / 2).for_each(|j| data[2 * j..2 * j + 2].copy_from_slice(&[0x00, 0xd8])),
            // many lines
            2 => (0..n / 2).step_by(2).for_each(|j| data[2 * j] = 0x41),
            _ => (0..n / 2).step_by(700).skip(1).for_each(|j| data[2 * j] = 0),
        }
        if case % 4 == 2 {
            (1..n / 2).step_by(2).for_each(|j| data[2 * j] = 0);
        }
        for (t, ty) in [("t", 1), ("m", 7)] {
            tree.values.push(Value { name: Name::latin1(format!("{t}{i}").as_bytes()), ty, data: data.clone() });
        }
    }
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.slack = 0;
    o.minor = if case / 4 % 3 == 2 { 3 } else { 5 };
    let b = build(&mut cx.rng, &tree, &o);
    let bytes = &b.bytes[..];
    let hive = nav_ok("without_validation", || Hive::without_validation(bytes))?;
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    let ops: [(&str, &str, fn(&KeyValue<&[u8]>) -> usize); 3] = [
        ("into_vec", "t", |v| v.data().and_then(|d| d.into_vec()).map_or(0, |v| v.len())),
        ("string_data", "t", |v| v.string_data().map_or(0, |s| s.len())),
        ("multi_string_data", "m", |v| v.multi_string_data().map_or(0, |it| it.map(|r| r.map_or(0, |s| s.len() + 1)).sum())),
    ];
    for (op, name, f) in ops {
        let mut times = vec![];
        for i in 0..2 {
            let v = nav_some("value", || root.value(&format!("{name}{i}")))?;
            let size = v.data_size() as u64;
            let (a, t) = (alloc_count::bytes(), cpu_time());
            let len = call(op, || f(&v))?;
            let (a, t) = (alloc_count::bytes() - a, cpu_time() - t);
            cx.eval(1);
            cx.max(&format!("per cent of the data size allocated by {op}"), a * 100 / size);
            if a > 24 * size + 65536 {
                return diff(op, format!("allocates {a} bytes in all for data of {size} bytes (result: {len} bytes)"));
            }
            times.push(t);
        }
        // 16 times the data
        cx.max(&format!("ms for 6 MB by {op}"), times[1].as_millis() as u64);
        if times[1] > times[0] * 80 + std::time::Duration::from_millis(400) {
            return diff(op, format!("takes {:?} of CPU time for 16 times the data that took {:?}", times[1], times[0]));
        }
    }
    cx.fp(mix(case ^ b.bytes.len() as u64));
    Ok(())
}
