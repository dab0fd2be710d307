//! C13: clear_volatile_subkeys zeroes exactly the volatile counts of all reachable keys.
use super::enumerate::{far_shift, partition_plan};
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::oracle::Oracle;
use hivecore::rng::{mix, Rng};
use hivecore::walk::*;
use nt_hive::*;

pub const C13: Check = Check {
    id: "C13",
    rule: "random trees (all list forms, all index-root partitions of short lists, one list of up to 65535 keys, chains of up \
           to 512 levels, far offsets) with random volatile counts are cleared and every byte of the buffer is compared with \
           the expected image, reads are compared before and after, and clearing is repeated; damaged hives are cleared and \
           the written positions compared with the reachable keys; lists of every length up to 4100 and selected larger ones; non-trivial: at least one nonzero count had to be cleared \
           or an error reported; distinct by layout, tree shape and damage",
    phases: &[
        Phase { name: "random trees", quick: 8000, thorough: 500_000, f: trees },
        Phase { name: "all partitions of short lists", quick: 1023, thorough: 4095, f: partitions },
        Phase { name: "deep chains", quick: 24, thorough: 200, f: deep },
        Phase { name: "wide lists", quick: 8, thorough: 64, f: wide },
        Phase { name: "many leaves", quick: 24, thorough: 400, f: many_leaves },
        Phase { name: "far offsets", quick: 6, thorough: 60, f: far },
        Phase { name: "damaged hives", quick: 24_000, thorough: 2_000_000, f: damaged },
        Phase { name: "every field of a hive", quick: 200, thorough: 4000, f: every_field },
        Phase { name: "cyclic and shared keys", quick: 800, thorough: 20_000, f: cycles },
        Phase { name: "sweep of list lengths", quick: 20, thorough: 20, f: super::sweep::cleared },
        Phase { name: "sweep of list lengths, the rest", quick: 0, thorough: 20, f: |cx, c| super::sweep::cleared(cx, c + 20) },
    ],
};

fn reads(b: &[u8], seed: u64) -> Res<u64> {
    let hive = open(b)?;
    let mut w = Walker::new(b.as_ptr(), b, Cfg { exact: false, max_nodes: 150, max_items: 600, max_data: 40_000, lookups: 3, ..Cfg::default() });
    w.walk(&hive, &mut Rng::new(seed)).map_err(|f| f.skip())?;
    Ok(w.st.digest)
}

fn first_diff(a: &[u8], b: &[u8]) -> Option<usize> {
    (a != b).then(|| a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())))
}

fn expect(orig: &[u8], pos: impl Iterator<Item = usize>) -> Vec<u8> {
    let mut v = orig.to_vec();
    for p in pos {
        v[p..p + 4].fill(0);
    }
    v
}

fn compare(got: &[u8], want: &[u8], orig: &[u8], pos: &[usize], what: &str) -> Res {
    if let Some(at) = first_diff(got, want) {
        let k = pos.iter().position(|p| (*p..*p + 4).contains(&at));
        return match k {
            Some(k) => diff(
                "clear_volatile_subkeys",
                format!("{what}: volatile count of key #{k} at {:#x} is {:x?} afterwards (was {:x?})", pos[k], &got[pos[k]..pos[k] + 4], &orig[pos[k]..pos[k] + 4]),
            ),
            None => diff("clear_volatile_subkeys", format!("{what}: byte at {at:#x} changed from {:#x} to {:#x}", orig[at], got[at])),
        };
    }
    Ok(())
}

fn intact(cx: &mut Cx, tree: &Key, b: &Built, desc: &str) -> Res {
    let orig = b.bytes.clone();
    cx.set_hive(&orig, desc);
    cx.eval(1);
    let pos: Vec<usize> = b.nodes.iter().map(|n| BASE + n.cell_off as usize + 4 + 24).collect();
    let want = expect(&orig, pos.iter().copied());
    let mut buf = orig.clone();
    {
        let mut hive = nav_ok("Hive::new", || Hive::new(buf.as_mut_slice()))?;
        call_ok("clear_volatile_subkeys", || hive.clear_volatile_subkeys())?;
    }
    compare(&buf, &want, &orig, &pos, "after clearing")?;
    {
        let mut hive = nav_ok("Hive::new", || Hive::new(buf.as_mut_slice()))?;
        call_ok("clear_volatile_subkeys again", || hive.clear_volatile_subkeys())?;
    }
    compare(&buf, &want, &orig, &pos, "after clearing twice")?;
    if b.nodes.len() < 200 && cx.rng.chance(1, 4) {
        let seed = cx.rng.next();
        if reads(&orig, seed)? != reads(&buf, seed)? {
            return diff("reads", "names, values or lookups differ after clearing");
        }
        cx.ev("reads compared before and after", 1);
    }
    let cleared = pos.iter().filter(|p| orig[**p..**p + 4] != [0; 4]).count() as u64;
    cx.ev("keys", pos.len() as u64);
    cx.ev("nonzero counts cleared", cleared);
    cx.ev("bytes compared", orig.len() as u64 * 2);
    cx.max("levels", b.nodes.iter().map(|n| n.depth as u64).max().unwrap_or(0));
    if cleared > 0 {
        cx.fp(mix(shape(tree) ^ hivecore::rng::fnv(desc.as_bytes()) ^ (orig.len() as u64) << 40));
        cx.sample(|| format!("{desc}: {} keys, {cleared} nonzero counts cleared in {} bytes", pos.len(), orig.len()));
    }
    Ok(())
}

fn trees(cx: &mut Cx, case: u64) -> Res {
    let t = TreeOpts { max_keys: if case % 50 == 0 { 1500 } else { 60 }, max_fanout: *cx.rng.pick(&[2, 5, 20, 60]), ..TreeOpts::default() };
    let (tree, b, o) = random_hive(cx, &t);
    intact(cx, &tree, &b, &o.describe())
}

fn partitions(cx: &mut Cx, case: u64) -> Res {
    let (n, parts) = partition_plan(cx, case);
    let mut tree = flat(n, |i| format!("k{i}"));
    for k in tree.subkeys.iter_mut() {
        k.volatile = cx.rng.next() as u32 | 1;
        for j in 0..cx.rng.below(3) {
            let mut s = Key::named(&format!("s{j}"));
            s.volatile = 7;
            k.subkeys.push(s);
        }
    }
    tree.volatile = 1;
    let mut o = Opts::random(&mut cx.rng);
    o.root_plan = Some(ListPlan::Root(parts));
    let b = build(&mut cx.rng, &tree, &o);
    intact(cx, &tree, &b, &format!("{} {:?}", o.describe(), o.root_plan))
}

/// A chain of `levels` subkeys below the root with a bush of side keys.
pub fn chain(r: &mut Rng, levels: usize, side: bool) -> Key {
    let mut k = Key::named("bottom");
    k.volatile = 3;
    for i in (0..levels).rev() {
        let mut p = Key::named(&format!("level{i}"));
        p.volatile = r.next() as u32 | 1;
        p.subkeys.push(k);
        if side && r.chance(1, 3) {
            let mut s = Key::named("a side");
            s.volatile = 9;
            p.subkeys.push(s);
            p.normalize();
        }
        k = p;
    }
    k
}

fn deep(cx: &mut Cx, case: u64) -> Res {
    let levels = match case % 4 {
        0 | 1 => 512,
        2 => 511,
        _ => cx.rng.range(100, 512) as usize,
    };
    let side = cx.rng.chance(1, 2);
    let tree = chain(&mut cx.rng, levels, side);
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &tree, &o);
    // on a thread with the default stack size of Rust
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || intact(cx, &tree, &b, &o.describe())).unwrap().join()
    });
    r.unwrap_or_else(|_| Err(Fault::Skip("worker thread panicked".into())))
}

fn wide(cx: &mut Cx, case: u64) -> Res {
    let n = match case % 4 {
        0 => 65535,
        1 => 65534,
        2 => cx.rng.range(10_000, 60_000) as usize,
        _ => 80_000,
    };
    let mut tree = flat(n, |i| format!("{i:06}"));
    for k in tree.subkeys.iter_mut() {
        k.volatile = 5;
    }
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.form = if n <= 65535 && case % 4 < 2 {
        *cx.rng.pick(&[Form::Li, Form::Lf, Form::Lh])
    } else {
        *cx.rng.pick(&[Form::Root, Form::RootOf(507), Form::RootOf(1012)])
    };
    let b = build(&mut cx.rng, &tree, &o);
    intact(cx, &tree, &b, &o.describe())
}

/// Index roots with up to 65535 leaves.
fn many_leaves(cx: &mut Cx, case: u64) -> Res {
    let leaves = match case % 8 {
        0 => 65535,
        1 => 65534,
        2 => 32768 + cx.rng.idx(3),
        3 => 256 + cx.rng.idx(3),
        _ => cx.rng.log_range(100, 20_000) as usize,
    };
    let per = if leaves > 30_000 { 1 } else { cx.rng.range(1, 3) as usize };
    let n = leaves * per - cx.rng.idx(per);
    let mut tree = flat(n, |i| format!("{i:06}"));
    for k in tree.subkeys.iter_mut() {
        k.volatile = 5;
    }
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.form = Form::RootOf(per);
    let b = build(&mut cx.rng, &tree, &o);
    cx.max("leaves", leaves as u64);
    intact(cx, &tree, &b, &o.describe())
}

fn far(cx: &mut Cx, case: u64) -> Res {
    let t = TreeOpts { max_keys: 60, ..TreeOpts::default() };
    let (_, b, o) = random_hive(cx, &t);
    let shift = far_shift(cx, case, b.bytes.len());
    let Some(mut m) = Sparse::place(&b, shift) else { return Err(Fault::Skip("no address space".into())) };
    cx.eval(1);
    cx.note = format!("{} shifted by {shift:#x}", o.describe());
    let from = BASE + shift as usize;
    let orig = m.get()[from..].to_vec();
    let head = m.get()[..BASE].to_vec();
    {
        let mut hive = nav_ok("Hive::new", || Hive::new(m.get()))?;
        call_ok("clear_volatile_subkeys", || hive.clear_volatile_subkeys())?;
    }
    let pos: Vec<usize> = b.nodes.iter().map(|n| n.cell_off as usize + 4 + 24).collect();
    let want = expect(&orig, pos.iter().copied());
    compare(&m.get()[from..], &want, &orig, &pos, "after clearing")?;
    if let Some(at) = first_diff(&m.get()[..BASE], &head) {
        return diff("clear_volatile_subkeys", format!("base block byte {at:#x} changed"));
    }
    cx.ev("far hives", 1);
    cx.fp(mix(shift as u64 ^ pos.len() as u64));
    Ok(())
}

/// Clears a damaged hive and judges what was written.
fn judge(cx: &mut Cx, bytes: &[u8], key: u64) -> Res {
    cx.eval(1);
    let o = Oracle::new(bytes);
    let plan = o.clear_plan(50_000);
    // positions any implementation may write: keys reachable from the root
    let mut reach = vec![];
    {
        let mut seen = std::collections::HashSet::new();
        let mut todo = vec![o.root()];
        while let Some(n) = todo.pop() {
            let Ok(n) = n else { continue };
            if !seen.insert(n.off) || seen.len() > 60_000 {
                continue;
            }
            reach.push(o.volatile_pos(&n));
            if let Some(Ok(s)) = o.subkeys(&n) {
                todo.extend(s.flat());
            }
        }
    }
    // overlapping structures: zeroing one count may change another structure
    reach.sort();
    let over = {
        let foot = o.clear_footprint();
        reach.iter().any(|p| foot.iter().any(|f| f.start < p + 4 && *p < f.end && *p != f.start + 24))
            || reach.windows(2).any(|w| w[1] < w[0] + 4)
    };
    if over {
        cx.ev("overlapping structures, only termination checked", 1);
    }
    let mut buf = bytes.to_vec();
    let res = {
        let mut hive = nav_ok("without_validation", || Hive::without_validation(buf.as_mut_slice()))?;
        call("clear_volatile_subkeys", || hive.clear_volatile_subkeys())?
    };
    if over {
        return Ok(());
    }
    if let Some(at) = (0..bytes.len()).find(|i| bytes[*i] != buf[*i] && !reach.iter().any(|p| (*p..*p + 4).contains(i))) {
        return diff("clear_volatile_subkeys", format!("byte at {at:#x} changed from {:#x} to {:#x}, not a volatile count of a reachable key", bytes[at], buf[at]));
    }
    if let Some(at) = reach.iter().find(|p| buf[**p..**p + 4] != [0; 4] && buf[**p..**p + 4] != bytes[**p..**p + 4]) {
        return diff("clear_volatile_subkeys", format!("volatile count at {at:#x} set to something else than zero"));
    }
    match (&res, &plan) {
        (Ok(()), Some((pos, None))) => {
            let want = expect(bytes, pos.iter().copied());
            compare(&buf, &want, bytes, pos, "after clearing")?;
            cx.ev("damage out of the way, cleared", 1);
        }
        (Err(e), Some((_, None))) => return diff("clear_volatile_subkeys", format!("fails with {e:?}, though all keys are reachable")),
        (Ok(()), Some((_, Some(e)))) => return diff("clear_volatile_subkeys", format!("succeeds, though a traversal meets {e:?}")),
        (Err(_), Some((_, Some(_)))) => {
            cx.ev("error reported", 1);
            cx.fp(key);
        }
        (Ok(()), None) => {
            // shared keys: every reachable one must be cleared
            if let Some(p) = reach.iter().find(|p| buf[**p..**p + 4] != [0; 4]) {
                return diff("clear_volatile_subkeys", format!("succeeds, but the count at {p:#x} is not zero"));
            }
            cx.ev("shared keys, cleared", 1);
        }
        (Err(_), None) => {
            cx.ev("not a tree, error reported", 1);
            cx.fp(key);
        }
    }
    Ok(())
}

fn damaged(cx: &mut Cx, _case: u64) -> Res {
    let t = TreeOpts { max_keys: 30, max_values: 1, max_data: 10, max_name: 8, ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let mut d = vec![];
    if cx.rng.chance(1, 2) {
        let relevant: Vec<usize> = (0..b.fields.len())
            .filter(|i| {
                matches!(b.fields[*i].kind, FK::NodeSig | FK::NodeSubkeysOff | FK::ListSig | FK::ListCount | FK::LeafItemOff | FK::RootItemOff | FK::RootOffset)
                    || b.fields[*i].kind == FK::CellSize && matches!(b.fields[*i].cell, CK::Node | CK::Leaf | CK::IndexRoot)
            })
            .collect();
        let fi = *cx.rng.pick(&relevant);
        d.extend(mutate::damage(&mut cx.rng, &mut b, fi));
    } else {
        mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    }
    cx.set_hive(&b.bytes, d.join("; "));
    let key = hivecore::rng::digest(&b.bytes);
    judge(cx, &b.bytes, key)
}

fn every_field(cx: &mut Cx, _case: u64) -> Res {
    let t = TreeOpts { max_keys: 8, max_values: 1, max_data: 10, max_name: 6, ..TreeOpts::default() };
    let (_, b, _) = random_hive(cx, &t);
    for fi in 0..b.fields.len() {
        let f = b.fields[fi].clone();
        if mutate::is_bytes(f.kind) {
            continue;
        }
        for v in mutate::hostile_values(&mut cx.rng, &b, &f) {
            let mut bytes = b.bytes.clone();
            set(&mut bytes, f.pos, mutate::field_width(f.kind), v);
            cx.set_hive(&bytes, format!("{:?} at {:#x} := {v:#x}", f.kind, f.pos));
            judge(cx, &bytes, mix(f.pos as u64 ^ v << 32 ^ b.bytes.len() as u64))?;
        }
    }
    Ok(())
}

fn cycles(cx: &mut Cx, _case: u64) -> Res {
    let t = TreeOpts { max_keys: 20, max_values: 0, max_name: 6, ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let items: Vec<usize> = (0..b.fields.len()).filter(|i| matches!(b.fields[*i].kind, FK::LeafItemOff | FK::RootItemOff | FK::NodeSubkeysOff)).collect();
    let mut d = vec![];
    for _ in 0..cx.rng.range(1, 4) {
        let f = b.fields[*cx.rng.pick(&items)].clone();
        let like: Vec<u32> = b
            .cells
            .iter()
            .filter(|c| match f.kind {
                FK::LeafItemOff => c.1 == CK::Node,
                FK::RootItemOff => c.1 == CK::Leaf,
                _ => matches!(c.1, CK::Leaf | CK::IndexRoot),
            })
            .map(|c| c.0)
            .collect();
        if like.is_empty() {
            continue;
        }
        let v = *cx.rng.pick(&like);
        set(&mut b.bytes, f.pos, 4, v as u64);
        d.push(format!("{:?} at {:#x} := {v:#x}", f.kind, f.pos));
    }
    cx.set_hive(&b.bytes, d.join("; "));
    let bytes = b.bytes.clone();
    let key = hivecore::rng::digest(&bytes);
    judge(cx, &bytes, key)
}
