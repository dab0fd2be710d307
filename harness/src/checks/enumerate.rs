//! C03: walking the hive yields exactly the stored tree.
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::obs::*;
use hivecore::rng::mix;
use nt_hive::*;
use std::collections::HashMap;
use zerocopy::SplitByteSlice;

pub const C03: Check = Check {
    id: "C03",
    rule: "model trees (random shapes, all index-root partitions of short lists, list lengths up to 65535 per leaf and \
           beyond, 512 levels, every minor version class, data placed up to the end of the 4 GiB offset space) laid out with \
           random cell order, gaps, slack and list forms, then walked through the public iterators and compared with the \
           model; lists of every length up to 6000 and selected ones up to 65535; names and class names of every length; non-trivial: the hive has at least one subkey or value; distinct by layout and tree shape",
    phases: &[
        Phase { name: "random trees", quick: 2600, thorough: 400_000, f: trees },
        Phase { name: "all partitions of short lists", quick: 256, thorough: 512, f: partitions },
        Phase { name: "list lengths", quick: 300, thorough: 2600, f: lengths },
        Phase { name: "wide lists", quick: 16, thorough: 160, f: wide },
        Phase { name: "many values", quick: 16, thorough: 120, f: many_values },
        Phase { name: "deep trees", quick: 8, thorough: 40, f: deep },
        Phase { name: "far offsets", quick: 16, thorough: 160, f: far },
        Phase { name: "large random trees", quick: 16, thorough: 2000, f: large },
        Phase { name: "sweep of list lengths", quick: 24, thorough: 24, f: super::sweep::enumerated },
        Phase { name: "sweep of list lengths, the rest", quick: 0, thorough: 96, f: |cx, c| super::sweep::enumerated(cx, c + 24) },
        Phase { name: "sweep of name lengths", quick: 8, thorough: 8, f: super::sweep::name_lengths },
    ],
};

#[derive(Default)]
pub struct Pos {
    /// (key, value index) -> file offset of the value record
    pub vals: HashMap<(u32, u32), usize>,
}

impl Pos {
    pub fn new(b: &Built, shift: usize) -> Self {
        let mut vals = HashMap::new();
        for f in b.fields_of(FK::ValSig) {
            vals.insert((f.key, f.idx), f.pos + shift);
        }
        Self { vals }
    }
}

fn name_is(op: &str, ctx: &str, got: Result<NtHiveNameString, NtHiveError>, want: &Name, base: usize, pos: Option<usize>) -> Res {
    let n = match got {
        Ok(n) => n,
        Err(e) => return diff(op, format!("{ctx}: name fails with {e:?}")),
    };
    let (l, b) = parts(&n);
    if l != want.latin1 {
        return diff(op, format!("{ctx}: encoding latin1={l}, stored latin1={}", want.latin1));
    }
    if b != want.bytes {
        return diff(op, format!("{ctx}: name bytes {:x?}, stored {:x?}", b, want.bytes));
    }
    if let Some(p) = pos {
        let g = (b.as_ptr() as usize).wrapping_sub(base);
        if g != p {
            return diff(op, format!("{ctx}: the record at name offset {g:#x} instead of {p:#x}"));
        }
    }
    Ok(())
}

struct W<'a> {
    base: usize,
    b: &'a Built,
    shift: usize,
    pos: Pos,
    id: u32,
    keys: u64,
    values: u64,
}

impl W<'_> {
    fn key<B: SplitByteSlice>(&mut self, k: &KeyNode<B>, m: &Key) -> Res {
        // explicit recursion replaced by a stack would hide nothing here: depth is at most 520
        let id = self.id;
        self.id += 1;
        self.keys += 1;
        let node_at = BASE + self.shift + self.b.nodes[id as usize].cell_off as usize + 4;
        let ctx = format!("key #{id}");
        name_is("KeyNode::name", &ctx, call("KeyNode::name", || k.name())?, &m.name, self.base, Some(node_at + 76))?;
        {
            let c = call("KeyNode::class_name", || k.class_name())?;
            match (c, &m.class) {
                (None, None) => (),
                (Some(Ok(NtHiveNameString::Utf16LE(g))), Some(w)) if g == &w[..] => (),
                (g, w) => return diff("KeyNode::class_name", format!("{ctx}: {g:?}, stored {w:?}")),
            }
        }
        match call("KeyNode::values", || k.values())? {
            None if m.values.is_empty() => (),
            None => return diff("KeyNode::values", format!("{ctx}: None, but {} values are stored", m.values.len())),
            Some(Err(e)) => return diff("KeyNode::values", format!("{ctx}: {e:?}")),
            Some(Ok(_)) if m.values.is_empty() => return diff("KeyNode::values", format!("{ctx}: a list, but no values are stored")),
            Some(Ok(mut it)) => {
                for (i, w) in m.values.iter().enumerate() {
                    let c = format!("{ctx} value {i} of {}", m.values.len());
                    let v = match call("KeyValues::next", || it.next())? {
                        Some(Ok(v)) => v,
                        Some(Err(e)) => return diff("KeyValues::next", format!("{c}: {e:?}")),
                        None => return diff("KeyValues::next", format!("{c}: missing")),
                    };
                    self.values += 1;
                    let p = self.pos.vals.get(&(id, i as u32)).map(|p| p + 20);
                    name_is("KeyValue::name", &c, call("KeyValue::name", || v.name())?, &w.name, self.base, p)?;
                    let s = call("KeyValue::data_size", || v.data_size())?;
                    if s as usize != w.data.len() {
                        return diff("KeyValue::data_size", format!("{c}: {s}, stored {}", w.data.len()));
                    }
                    let t = call("KeyValue::data_type", || v.data_type())?;
                    match t {
                        Ok(t) if t as u32 == w.ty => (),
                        Err(NtHiveError::UnsupportedKeyValueDataType { actual, .. }) if actual == w.ty && w.ty > 11 => (),
                        t => return diff("KeyValue::data_type", format!("{c}: {t:?}, stored {}", w.ty)),
                    }
                }
                for _ in 0..2 {
                    if call("KeyValues::next", || it.next().is_some())? {
                        return diff("KeyValues::next", format!("{ctx}: more than the {} stored values", m.values.len()));
                    }
                }
            }
        }
        match call("KeyNode::subkeys", || k.subkeys())? {
            None if m.subkeys.is_empty() => (),
            None => return diff("KeyNode::subkeys", format!("{ctx}: None, but {} subkeys are stored", m.subkeys.len())),
            Some(Err(e)) => return diff("KeyNode::subkeys", format!("{ctx}: {e:?}")),
            Some(Ok(_)) if m.subkeys.is_empty() => return diff("KeyNode::subkeys", format!("{ctx}: a list, but no subkeys are stored")),
            Some(Ok(mut it)) => {
                for (i, w) in m.subkeys.iter().enumerate() {
                    let s = match call("SubKeyNodes::next", || it.next())? {
                        Some(Ok(s)) => s,
                        Some(Err(e)) => return diff("SubKeyNodes::next", format!("{ctx} subkey {i}: {e:?}")),
                        None => return diff("SubKeyNodes::next", format!("{ctx}: subkey {i} of {} missing", m.subkeys.len())),
                    };
                    self.key(&s, w)?;
                }
                for _ in 0..2 {
                    if call("SubKeyNodes::next", || it.next().is_some())? {
                        return diff("SubKeyNodes::next", format!("{ctx}: more than the {} stored subkeys", m.subkeys.len()));
                    }
                }
            }
        }
        Ok(())
    }
}

fn check(cx: &mut Cx, tree: &Key, b: &Built, shift: usize, bytes: &[u8], desc: &str) -> Res {
    cx.eval(1);
    if shift == 0 {
        cx.set_hive(bytes, desc);
    } else {
        cx.set_hive(&[], desc);
    }
    let hive = match call("Hive::new", || Hive::new(bytes))? {
        Ok(h) => h,
        Err(e) => return Err(Fault::Skip(format!("Hive::new failed: {e:?}"))),
    };
    let root = call_ok("root_key_node", || hive.root_key_node())?;
    let mut w = W { base: bytes.as_ptr() as usize, b, shift, pos: Pos::new(b, shift), id: 0, keys: 0, values: 0 };
    w.key(&root, tree)?;
    cx.ev("keys compared", w.keys);
    cx.ev("values compared", w.values);
    if w.keys + w.values > 1 {
        cx.fp(mix(shape(tree) ^ hivecore::rng::digest(&bytes[..BASE]) ^ b.root_off as u64));
    }
    for (_, k) in b.cells.iter().take(2000) {
        if matches!(k, CK::IndexRoot | CK::Leaf | CK::Big) {
            cx.ev(&format!("{k:?} cells"), 1);
        }
    }
    Ok(())
}

fn trees(cx: &mut Cx, _: u64) -> Res {
    let (tree, b, o) = random_hive(cx, &TreeOpts::default());
    let d = format!("{} keys, {} values, {}", tree.count(), tree.count_values(), o.describe());
    cx.ev(&format!("minor version {}", o.minor), 1);
    cx.sample(|| d.clone());
    check(cx, &tree, &b, 0, &b.bytes, &d)
}

fn large(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_keys: 3000, max_fanout: 500, max_values: 40, max_data: 20000, max_name: 255, ..TreeOpts::default() };
    let mut tree = rand_tree(&mut cx.rng, &t);
    // longest names the 16-bit length allows
    if cx.rng.chance(1, 2) {
        let n = cx.rng.range(30000, 65535) as usize;
        tree.values.push(Value { name: Name::latin1(&vec![b'n'; n]), ty: 3, data: vec![1, 2, 3, 4, 5] });
        tree.name = Name::utf16(&vec![0x263a; 32767]);
        tree.class = Some(vec![0x41; 65535]);
    }
    let mut o = Opts::random(&mut cx.rng);
    o.gap = 4;
    let b = build(&mut cx.rng, &tree, &o);
    let d = format!("{} keys, {} values, {}", tree.count(), tree.count_values(), o.describe());
    check(cx, &tree, &b, 0, &b.bytes, &d)
}

const KINDS: [LeafKind; 3] = [LeafKind::Li, LeafKind::Lf, LeafKind::Lh];

/// Partition number `case` of lists of up to 9 subkeys: bit i set = a new leaf starts before item i+1.
pub fn partition_plan(cx: &mut Cx, case: u64) -> (usize, Vec<(LeafKind, usize)>) {
    // n such that 2^(n-1) partitions fit; enumerate (n, mask)
    let mut n = 1usize;
    let mut c = case;
    while c >= 1 << (n - 1) {
        c -= 1 << (n - 1);
        n += 1;
    }
    let mut parts = vec![];
    let mut k = 1;
    for i in 0..n - 1 {
        if c >> i & 1 == 1 {
            parts.push((*cx.rng.pick(&KINDS), k));
            k = 1;
        } else {
            k += 1;
        }
    }
    parts.push((*cx.rng.pick(&KINDS), k));
    (n, parts)
}

fn partitions(cx: &mut Cx, case: u64) -> Res {
    let (n, parts) = partition_plan(cx, case);
    let tree = flat(n, |i| format!("k{i:03}"));
    let o = Opts { root_plan: Some(ListPlan::Root(parts.clone())), ..Opts::random(&mut cx.rng) };
    let b = build(&mut cx.rng, &tree, &o);
    let d = format!("{n} subkeys in an index root over {parts:?}");
    cx.sample(|| d.clone());
    check(cx, &tree, &b, 0, &b.bytes, &d)
}

fn lengths(cx: &mut Cx, case: u64) -> Res {
    let n = (case / 4) as usize + 1;
    let form = match case % 4 {
        0 => Form::Li,
        1 => Form::Lf,
        2 => Form::Lh,
        _ => Form::RootOf(1 + cx.rng.idx(n)),
    };
    let mut tree = flat(n, |i| format!("{i:05}"));
    for i in 0..n {
        tree.values.push(Value { name: Name::from_str(&format!("v{i}")), ty: 4, data: (i as u32).to_le_bytes().to_vec() });
    }
    let o = Opts { form, ..Opts::random(&mut cx.rng) };
    let o = Opts { form, order: o.order, gap: o.gap, slack: o.slack, ..Opts::default() };
    let b = build(&mut cx.rng, &tree, &o);
    check(cx, &tree, &b, 0, &b.bytes, &format!("{n} subkeys and values, {form:?}"))
}

fn wide(cx: &mut Cx, case: u64) -> Res {
    let (n, form) = match case % 8 {
        0 => (65535, Form::Li),
        1 => (65535, Form::Lf),
        2 => (32768, Form::Lh),
        3 => (65534, Form::RootOf(1)),
        4 => (65536, Form::RootOf(65535)),
        5 => (100_000, Form::RootOf(507)),
        6 => (32767, Form::Lf),
        _ => (cx.rng.range(256, 140_000) as usize, Form::Root),
    };
    let tree = flat(n, |i| format!("{i:06x}"));
    let o = Opts { form, fast: true, order: *cx.rng.pick(&[Order::Forward, Order::Shuffled]), ..Opts::default() };
    let b = build(&mut cx.rng, &tree, &o);
    cx.max("subkeys of one key", n as u64);
    check(cx, &tree, &b, 0, &b.bytes, &format!("{n} subkeys, {form:?}"))
}

fn many_values(cx: &mut Cx, case: u64) -> Res {
    let n = *cx.rng.pick(&[255u64, 256, 257, 4095, 4096, 16383, 16384, 16385, 65535, 65536, 65537, 70000, 1000]) as usize;
    let n = if case == 0 { 200_000 } else { n };
    let mut tree = Key::named("root");
    for i in 0..n {
        tree.values.push(Value { name: Name::latin1(format!("{:x}", i * 7919 % n).as_bytes()), ty: 4, data: (i as u32).to_le_bytes().to_vec() });
    }
    let o = Opts { fast: true, order: *cx.rng.pick(&[Order::Forward, Order::Shuffled]), ..Opts::default() };
    let b = build(&mut cx.rng, &tree, &o);
    cx.max("values of one key", n as u64);
    check(cx, &tree, &b, 0, &b.bytes, &format!("{n} values"))
}

fn deep(cx: &mut Cx, case: u64) -> Res {
    let n = if case == 0 { 512 } else { cx.rng.range(100, 512) };
    let mut k = Key::named("leaf");
    for i in 0..n - 1 {
        let mut p = Key::named(&format!("level {i}"));
        if cx.rng.chance(1, 4) {
            p.subkeys.push(Key::named("aside"));
        }
        p.subkeys.push(k);
        k = p;
    }
    k.normalize();
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &k, &o);
    cx.max("levels", n);
    check(cx, &k, &b, 0, &b.bytes, &format!("{n} levels"))
}

/// Shifts that put the data at the places where 32-bit arithmetic goes wrong.
pub fn far_shift(cx: &mut Cx, case: u64, len: usize) -> u32 {
    let top = 0xffff_f000u64 - (len as u64).div_ceil(4096) * 4096;
    let s = match case % 6 {
        0 => 0x8000_0000,
        1 => 0x7fff_f000,
        2 => top,
        3 => 0x00ff_f000,
        4 => 0xffff_f000 & cx.rng.below(top),
        _ => 0x4000_0000,
    };
    s.min(top) as u32
}

fn far(cx: &mut Cx, case: u64) -> Res {
    let (tree, b, o) = random_hive(cx, &TreeOpts::default());
    let mut o = o;
    o.trailing = 0;
    let b = if b.bytes.len() % 4096 != 0 { build(&mut cx.rng, &tree, &o) } else { b };
    let shift = far_shift(cx, case, b.bytes.len());
    let Some(mut s) = Sparse::place(&b, shift) else {
        return Err(Fault::Skip("no address space for a far hive".into()));
    };
    cx.max("data offset", shift as u64);
    let d = format!("data {shift:#x} bytes into the hive, {} keys", tree.count());
    check(cx, &tree, &b, shift as usize, s.get(), &d)
}
