//! C14: every iterator agrees with what repeated `next` calls yield, in every reachable state.
use super::data::boundary_units;
use super::enumerate::partition_plan;
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::oracle::*;
use hivecore::rng::{fnv, mix, Rng};
use nt_hive::*;
use zerocopy::SplitByteSlice;

pub const C14: Check = Check {
    id: "C14",
    rule: "for every iterator of intact and damaged hives (all list forms and partitions, 0 to 65535 items, 1 to 40 data \
           segments, texts with empty lines) the items are first collected with next from one clone; then clones and fresh \
           iterators run random mixes of next, nth (small, around the end, huge), size_hint, len, skip, step_by, take, clone, \
           count, last, collect and fold, and every answer is compared with that list; leaves and value lists of every length; non-trivial: the list has items; \
           distinct by iterator kind, list length, position of errors and operation sequence",
    phases: &[
        Phase { name: "random hives", quick: 16_000, thorough: 1_500_000, f: random },
        Phase { name: "partitions of short lists", quick: 3069, thorough: 40_000, f: partitions },
        Phase { name: "damaged lists", quick: 16_000, thorough: 1_500_000, f: damaged },
        Phase { name: "long lists", quick: 24, thorough: 400, f: long },
        Phase { name: "segmented data", quick: 1200, thorough: 60_000, f: segments },
        Phase { name: "multi strings", quick: 16_000, thorough: 1_500_000, f: multis },
        Phase { name: "sweep of list lengths", quick: 24, thorough: 24, f: super::sweep::counted },
    ],
};

#[derive(Clone, Debug, PartialEq, Eq)]
enum Tok {
    /// where the record's name starts
    At(usize),
    Slice(usize, usize),
    Text(String),
    Err(String),
}

struct Kind<'f, I: Iterator> {
    what: &'static str,
    tok: &'f dyn Fn(&I::Item) -> Res<Tok>,
    len: Option<fn(&I) -> usize>,
}

fn node_tok<B: SplitByteSlice>(r: &Result<KeyNode<'_, B>, NtHiveError>) -> Res<Tok> {
    Ok(match r {
        Err(e) => Tok::Err(format!("{e:?}")),
        Ok(k) => match nav("name", || k.name().map(|n| parts(&n).1.as_ptr() as usize))? {
            Ok(p) => Tok::At(p),
            // the error tells the record's place as well
            Err(e) => Tok::Text(format!("{e:?}")),
        },
    })
}
fn value_tok<B: SplitByteSlice>(r: &Result<KeyValue<'_, B>, NtHiveError>) -> Res<Tok> {
    Ok(match r {
        Err(e) => Tok::Err(format!("{e:?}")),
        Ok(v) => match nav("value.name", || v.name().map(|n| parts(&n).1.as_ptr() as usize))? {
            Ok(p) => Tok::At(p),
            Err(e) => Tok::Text(format!("{e:?}")),
        },
    })
}
fn slice_tok(r: &Result<&[u8], NtHiveError>) -> Res<Tok> {
    Ok(match r {
        Err(e) => Tok::Err(format!("{e:?}")),
        Ok(s) => Tok::Slice(s.as_ptr() as usize, s.len()),
    })
}
fn text_tok(r: &Result<String, NtHiveError>) -> Res<Tok> {
    Ok(match r {
        Err(e) => Tok::Err(format!("{e:?}")),
        Ok(s) => Tok::Text(s.clone()),
    })
}

impl<I: Iterator + Clone> Kind<'_, I> {
    fn opt(&self, x: Option<I::Item>) -> Res<Option<Tok>> {
        x.as_ref().map(|x| (self.tok)(x)).transpose()
    }
    fn same(&self, op: &str, got: &Option<Tok>, want: Option<&Tok>, list: &[Tok], pos: usize) -> Res {
        if got.as_ref() != want {
            return diff(
                &format!("{}::{op}", self.what),
                format!("at item {pos} of {}: {got:?}, repeated next gives {want:?}", list.len()),
            );
        }
        Ok(())
    }
    fn num(&self, op: &str, got: usize, want: usize, list: &[Tok], pos: usize) -> Res {
        if got != want {
            return diff(&format!("{}::{op}", self.what), format!("at item {pos} of {}: {got}, expected {want}", list.len()));
        }
        Ok(())
    }
    fn hints(&self, it: &I, list: &[Tok], pos: usize) -> Res {
        let left = list.len() - pos;
        let (lo, hi) = call(&format!("{}::size_hint", self.what), || it.size_hint())?;
        if lo > left || hi.is_some_and(|h| h < left) {
            return diff(&format!("{}::size_hint", self.what), format!("({lo}, {hi:?}) with {left} of {} items left", list.len()));
        }
        if let Some(f) = self.len {
            let n = call(&format!("{}::len", self.what), || f(it))?;
            if n != left || (lo, hi) != (left, Some(left)) {
                return diff(&format!("{}::len", self.what), format!("len {n}, size_hint ({lo}, {hi:?}) with {left} of {} items left", list.len()));
            }
        }
        Ok(())
    }
    /// After the end everything stays at the end.
    fn end(&self, it: &mut I, list: &[Tok]) -> Res {
        for i in 0..3 {
            let t = call("next", || it.next())?;
            let t = self.opt(t)?;
            self.same(&format!("next (call {} after the end)", i + 1), &t, None, list, list.len())?;
        }
        self.hints(it, list, list.len())?;
        for n in [0, 1, usize::MAX] {
            let t = call("nth", || it.nth(n))?;
            let t = self.opt(t)?;
            self.same(&format!("nth({n}) after the end"), &t, None, list, list.len())?;
        }
        let t = call("next", || it.next())?;
        let t = self.opt(t)?;
        self.same("next after the end", &t, None, list, list.len())?;
        let c = it.clone();
        let n = call("count", || c.count())?;
        self.num("count after the end", n, 0, list, list.len())?;
        let c = it.clone();
        let t = call("last", || c.last())?;
        let t = self.opt(t)?;
        self.same("last after the end", &t, None, list, list.len())
    }

    fn drain(&self, it: &I, cap: usize) -> Res<Vec<Tok>> {
        let mut it = it.clone();
        let mut v = vec![];
        while let Some(x) = call(&format!("{}::next", self.what), || it.next())? {
            v.push((self.tok)(&x)?);
            if v.len() > cap {
                return diff(&format!("{}::next", self.what), format!("more than {cap} items"));
            }
        }
        for _ in 0..3 {
            if call(&format!("{}::next", self.what), || it.next().is_some())? {
                return diff(&format!("{}::next", self.what), format!("an item after None ({} items before)", v.len()));
            }
        }
        Ok(v)
    }

    /// Random operations on `it`, which is at position `pos` of `list`.
    fn run(&self, r: &mut Rng, mut it: I, mut pos: usize, list: &[Tok], depth: u32, ops: &mut u64) -> Res<u64> {
        let mut trace = 0u64;
        let w = self.what;
        for _ in 0..r.range(1, 8) {
            *ops += 1;
            let left = list.len() - pos;
            let op = r.below(12);
            trace = mix(trace ^ op ^ (pos as u64) << 8);
            match op {
                0 | 1 => {
                    let t = call(&format!("{w}::next"), || it.next())?;
                    let t = self.opt(t)?;
                    self.same("next", &t, list.get(pos), list, pos)?;
                    pos = (pos + 1).min(list.len());
                }
                2..=4 => {
                    let n = match r.below(10) {
                        0 => 0,
                        1 => 1,
                        2 => r.idx(left + 2),
                        3 => left.saturating_sub(1),
                        4 => left,
                        5 => left + 1,
                        6 => r.idx(left + 1),
                        7 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 4, usize::MAX / 4 + 1, usize::MAX / 8 + 1, 1 << 62, 1 << 63]),
                        8 => *r.pick(&[65534, 65535, 65536, 65537, 0xffff_ffff, 0x1_0000_0000, 0x4000_0000, 0x3fff_ffff, 0x2000_0000]),
                        _ => hivecore::dict::sometimes(r, 2, 0, u64::MAX).unwrap_or_else(|| r.next() >> r.below(64)) as usize,
                    };
                    let t = call(&format!("{w}::nth"), || it.nth(n))?;
                    let t = self.opt(t)?;
                    let at = pos.saturating_add(n);
                    self.same(&format!("nth({n})"), &t, list.get(at), list, pos)?;
                    pos = at.saturating_add(1).min(list.len());
                }
                5 => self.hints(&it, list, pos)?,
                6 => {
                    let c = call("clone", || it.clone())?;
                    let n = call(&format!("{w}::count"), || c.count())?;
                    self.num("count", n, left, list, pos)?;
                }
                7 => {
                    let c = call("clone", || it.clone())?;
                    let t = call(&format!("{w}::last"), || c.last())?;
                    let t = self.opt(t)?;
                    self.same("last", &t, if left > 0 { list.last() } else { None }, list, pos)?;
                }
                8 if depth < 2 => {
                    let c = call("clone", || it.clone())?;
                    trace ^= self.run(r, c, pos, list, depth + 1, ops)?;
                }
                9 => {
                    let (s, t) = (r.idx(left + 3), r.idx(left + 3));
                    let got: Vec<_> = call(&format!("{w}::skip"), || it.by_ref().skip(s).take(t).collect())?;
                    for (i, g) in got.iter().enumerate() {
                        let g = Some((self.tok)(g)?);
                        self.same(&format!("skip({s}).take({t}) item {i}"), &g, list.get(pos + s + i), list, pos)?;
                    }
                    self.num(&format!("skip({s}).take({t}).count"), got.len(), left.saturating_sub(s).min(t), list, pos)?;
                    // take stops without asking for more, so the position is known unless nothing was taken
                    if t == 0 {
                        continue;
                    }
                    pos = (pos + s + t).min(list.len());
                }
                10 => {
                    let c = call("clone", || it.clone())?;
                    let step = 1 + r.idx(left + 2);
                    let got: Vec<_> = call(&format!("{w}::step_by"), || c.step_by(step).collect())?;
                    self.num(&format!("step_by({step})"), got.len(), left.div_ceil(step), list, pos)?;
                    for (i, g) in got.iter().enumerate() {
                        let g = Some((self.tok)(g)?);
                        self.same(&format!("step_by({step}) item {i}"), &g, list.get(pos + i * step), list, pos)?;
                    }
                }
                _ => {
                    let c = call("clone", || it.clone())?;
                    let got: Vec<I::Item> = if r.chance(1, 2) {
                        call(&format!("{w}::collect"), || c.collect())?
                    } else {
                        call(&format!("{w}::fold"), || {
                            c.fold(vec![], |mut v, x| {
                                v.push(x);
                                v
                            })
                        })?
                    };
                    self.num("collect", got.len(), left, list, pos)?;
                    for (i, g) in got.iter().enumerate() {
                        let g = Some((self.tok)(g)?);
                        self.same(&format!("collect item {i}"), &g, list.get(pos + i), list, pos)?;
                    }
                }
            }
        }
        // the iterator is where the operations left it
        if r.chance(1, 2) && list.len() - pos < 3000 {
            let rest = self.drain(&it, list.len() + 2)?;
            self.num("items left after mixed calls", rest.len(), list.len() - pos, list, pos)?;
            if let Some(i) = (0..rest.len()).find(|i| rest[*i] != list[pos + i]) {
                self.same(&format!("item {i} after mixed calls"), &Some(rest[i].clone()), list.get(pos + i), list, pos)?;
            }
            while call("next", || it.next().is_some())? {}
            self.end(&mut it, list)?;
        }
        Ok(trace)
    }
}

/// All monitors on one iterator. `cap`: more items than this cannot be declared.
fn contract<I: Iterator + Clone>(cx: &mut Cx, k: &Kind<I>, it: I, cap: usize, rounds: usize, want: Option<&[Tok]>) -> Res<Vec<Tok>> {
    let list = k.drain(&it, cap)?;
    if let Some(w) = want {
        // an error must not derail the items after it
        if let Some(i) = (0..w.len().max(list.len())).find(|i| list.get(*i) != w.get(*i)) {
            let before = list.iter().take(i).any(|t| matches!(t, Tok::Err(_)));
            let d = format!("item {i}: {:?}, stored is {:?}", list.get(i), w.get(i));
            if before {
                return diff(&format!("{}::next after an error item", k.what), d);
            }
            return Err(Fault::Skip(d));
        }
    }
    k.hints(&it, &list, 0)?;
    let errs = list.iter().filter(|t| matches!(t, Tok::Err(_))).count();
    let mut ops = 0;
    for _ in 0..rounds {
        let t = k.run(&mut cx.rng, it.clone(), 0, &list, 0, &mut ops)?;
        if !list.is_empty() {
            cx.fp(mix(t ^ fnv(k.what.as_bytes()) ^ (list.len() as u64) << 32 ^ (errs as u64) << 56));
        }
    }
    cx.eval(rounds as u64);
    cx.ev(&format!("{} sequences", k.what), rounds as u64);
    cx.ev("operations compared", ops);
    cx.ev("items", list.len() as u64);
    cx.ev("error items", errs as u64);
    cx.max("items in a list", list.len() as u64);
    cx.sample(|| format!("{}: {} items, {errs} errors", k.what, list.len()));
    Ok(list)
}

fn declared(o: &Oracle, n: &Node) -> Option<Vec<R<Node>>> {
    match o.subkeys(n) {
        Some(Ok(s)) => Some(s.flat()),
        _ => None,
    }
}

/// Expected tokens, as far as the reference reader knows them.
fn node_want(o: &Oracle, flat: &[R<Node>]) -> Vec<Option<Tok>> {
    flat.iter()
        .map(|r| match r {
            Err(_) => None,
            Ok(n) => o.node_name(n).ok().map(|x| Tok::At(o.all.as_ptr() as usize + x.range.start)),
        })
        .collect()
}

/// Compares a drained list with the reference: Ok items must be the same, error items must be errors.
fn derailed(what: &str, list: &[Tok], want: &[Option<Tok>]) -> Res {
    for i in 0..want.len().max(list.len()) {
        let ok = match (list.get(i), want.get(i)) {
            (Some(g), Some(Some(w))) => g == w,
            (Some(Tok::Err(_) | Tok::Text(_)), Some(None)) => true,
            _ => false,
        };
        if !ok {
            let d = format!("item {i}: {:?}, stored is {:?}", list.get(i), want.get(i));
            // without an error before it, this belongs to another property
            if list.iter().take(i).any(|t| matches!(t, Tok::Err(_))) {
                return diff(&format!("{what}::next after an error item"), d);
            }
            return Err(Fault::Skip(d));
        }
    }
    Ok(())
}

fn one_key(cx: &mut Cx, hive: &Hive<&[u8]>, bytes: &[u8], k: &KeyNode<&[u8]>, n: &Node, rounds: usize) -> Res {
    let _ = hive;
    let o = Oracle::new(bytes);
    if let Some(flat) = declared(&o, n) {
        if let Some(Ok(it)) = nav("subkeys", || k.subkeys())? {
            let cap = flat.len() + 8;
            let kind = Kind { what: "SubKeyNodes", tok: &node_tok, len: None };
            let list = contract(cx, &kind, it.clone(), cap, rounds, None)?;
            derailed("SubKeyNodes", &list, &node_want(&o, &flat))?;
            match it {
                SubKeyNodes::Leaf(l) => {
                    let kind = Kind { what: "LeafKeyNodes", tok: &node_tok, len: Some(|i: &LeafKeyNodes<&[u8]>| i.len()) };
                    contract(cx, &kind, l, cap, rounds, Some(&list))?;
                }
                SubKeyNodes::IndexRoot(l) => {
                    let kind = Kind { what: "IndexRootKeyNodes", tok: &node_tok, len: None };
                    contract(cx, &kind, l, cap, rounds, Some(&list))?;
                }
            }
        }
    }
    if let Some(Ok(vals)) = o.values(n) {
        if let Some(Ok(it)) = nav("values", || k.values())? {
            let kind = Kind { what: "KeyValues", tok: &value_tok, len: Some(|i: &KeyValues<&[u8]>| i.len()) };
            let list = contract(cx, &kind, it.clone(), vals.len() + 8, rounds, None)?;
            let want: Vec<Option<Tok>> = vals
                .iter()
                .map(|r| r.as_ref().ok().and_then(|v| o.val_name(v).ok()).map(|x| Tok::At(bytes.as_ptr() as usize + x.range.start)))
                .collect();
            derailed("KeyValues", &list, &want)?;
            for v in it.flatten().take(40) {
                one_value(cx, &o, &v, rounds.min(2))?;
            }
        }
    }
    Ok(())
}

/// Compares the lines after an unreadable segment with the readable segments: a line that reaches into
/// an unreadable segment may be given as far as it can be read, or not at all.
fn multi_after_errors(list: &[Tok], segs: &[Option<&[u8]>]) -> Res {
    let mut pos = 0;
    let mut failed = false;
    for (gi, group) in segs.split(|s| s.is_none()).enumerate() {
        if gi > 0 {
            if !matches!(list.get(pos), Some(Tok::Err(_))) {
                return if failed { diff("RegMultiSZStrings::next after an error item", format!("item {pos}: {:?} instead of an error", list.get(pos))) } else { Ok(()) };
            }
            pos += 1;
            failed = true;
        }
        let last = segs.iter().filter(|s| s.is_none()).count() == gi;
        let units: Vec<u16> = group.iter().flat_map(|s| s.unwrap().chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]]))).collect();
        if units.is_empty() {
            continue;
        }
        let mut parts: Vec<&[u16]> = units.split(|u| *u == 0).collect();
        let tail = parts.pop().unwrap();
        if gi > 0 && parts.first().is_some_and(|p| p.is_empty()) {
            // the end of a line that cannot be read, or the end of the list
            return Ok(());
        }
        let mut ended = false;
        let mut expect = |p: &[u16], optional: bool| -> Res {
            let t = Tok::Text(String::from_utf16_lossy(p));
            if list.get(pos) == Some(&t) {
                pos += 1;
            } else if !optional && failed {
                return diff("RegMultiSZStrings::next after an error item", format!("item {pos}: {:?} instead of {t:?}", list.get(pos)));
            } else if !optional {
                return Err(Fault::Skip("multi-string before any error".into()));
            }
            Ok(())
        };
        for (i, p) in parts.iter().enumerate() {
            if p.is_empty() {
                ended = true;
                break;
            }
            expect(p, gi > 0 && i == 0)?;
        }
        if !ended && !tail.is_empty() {
            expect(tail, !last || parts.is_empty() && gi > 0)?;
        }
        if ended || last {
            if failed && pos < list.len() {
                return diff("RegMultiSZStrings::next after an error item", format!("item {pos}: {:?} after the end", list[pos]));
            }
            return Ok(());
        }
    }
    Ok(())
}

fn one_value(cx: &mut Cx, o: &Oracle, v: &KeyValue<&[u8]>, rounds: usize) -> Res {
    let mut pieces: Option<Vec<Option<&[u8]>>> = None;
    if let Ok(KeyValueData::Big(it)) = nav("data", || v.data())? {
        let cap = (v.data_size() as usize).div_ceil(SEG) + 4;
        if cap < 5000 {
            let kind = Kind { what: "BigDataSlices", tok: &slice_tok, len: Some(|i: &BigDataSlices<&[u8]>| i.len()) };
            let list = contract(cx, &kind, it, cap, rounds, None)?;
            if let Ok(n) = nav("value.name", || v.name())? {
                let at = parts(&n).1.as_ptr() as usize - o.all.as_ptr() as usize - 24;
                // the cell size precedes the record
                if let Ok(val) = o.value((at - BASE) as u32) {
                    if let Ok(DataR::Big { segs, .. }) = o.data(&val) {
                        let want: Vec<Option<Tok>> =
                            segs.iter().map(|s| s.as_ref().ok().map(|s| Tok::Slice(o.all.as_ptr() as usize + s.start, s.len()))).collect();
                        derailed("BigDataSlices", &list, &want)?;
                        pieces = Some(segs.iter().map(|s| s.as_ref().ok().map(|s| &o.all[s.clone()])).collect());
                    }
                }
            }
        }
    }
    if v.data_size() <= 4_000_000 {
        if let Ok(it) = nav("multi_string_data", || v.multi_string_data())? {
            let kind = Kind { what: "RegMultiSZStrings", tok: &text_tok, len: None };
            let list = contract(cx, &kind, it, v.data_size() as usize + 8, rounds, None)?;
            if let Some(p) = pieces {
                cx.ev("multi-strings with unreadable segments", p.iter().any(|s| s.is_none()) as u64);
                multi_after_errors(&list, &p)?;
            }
        }
    }
    Ok(())
}

fn whole(cx: &mut Cx, bytes: &[u8], max_keys: usize, rounds: usize) -> Res {
    let hive = open(bytes)?;
    let o = Oracle::new(bytes);
    let Ok(root) = nav("root_key_node", || hive.root_key_node())? else { return Ok(()) };
    let Ok(rn) = o.root() else { return Ok(()) };
    let mut todo = vec![(root, rn)];
    let mut seen = std::collections::HashSet::new();
    let mut done = 0;
    while let Some((k, n)) = todo.pop() {
        if !seen.insert(n.off) || done >= max_keys {
            continue;
        }
        done += 1;
        one_key(cx, &hive, bytes, &k, &n, rounds)?;
        if let (Some(Ok(it)), Some(flat)) = (nav("subkeys", || k.subkeys())?, declared(&o, &n)) {
            let kids: Vec<_> = nav("subkeys", || it.take(2000).collect())?;
            for (a, b) in kids.into_iter().zip(flat) {
                if let (Ok(a), Ok(b)) = (a, b) {
                    todo.push((a, b));
                }
            }
        }
    }
    Ok(())
}

fn random(cx: &mut Cx, case: u64) -> Res {
    let t = TreeOpts { max_keys: if case % 40 == 0 { 600 } else { 20 }, max_fanout: *cx.rng.pick(&[3, 12, 200]), max_name: 12, ..TreeOpts::default() };
    let (_, b, o) = random_hive(cx, &t);
    cx.set_hive(&b.bytes, o.describe());
    whole(cx, &b.bytes, 12, 2)
}

fn partitions(cx: &mut Cx, case: u64) -> Res {
    let (n, parts) = partition_plan(cx, case % 1023);
    let tree = flat(n, |i| format!("k{i}"));
    let mut o = Opts::random(&mut cx.rng);
    o.root_plan = Some(ListPlan::Root(parts));
    let mut b = build(&mut cx.rng, &tree, &o);
    let mut d = String::new();
    if case >= 1023 {
        // one or more damaged entries or leaves
        for _ in 0..cx.rng.range(1, 3) {
            let fs: Vec<usize> = (0..b.fields.len()).filter(|i| matches!(b.fields[*i].kind, FK::LeafItemOff | FK::RootItemOff)).collect();
            let f = b.fields[*cx.rng.pick(&fs)].clone();
            let v = *cx.rng.pick(&[0u64, 4, 0xffff_ffff, 0x7fff_fff8]);
            set(&mut b.bytes, f.pos, 4, v);
            d.push_str(&format!(" {:?} {} := {v:#x}", f.kind, f.idx));
        }
    }
    cx.set_hive(&b.bytes, format!("{:?}{d}", o.root_plan));
    whole(cx, &b.bytes, 1, 4)
}

fn damaged(cx: &mut Cx, case: u64) -> Res {
    let t = TreeOpts { max_keys: 16, max_fanout: 12, max_values: 8, max_name: 8, max_data: 60, big_chance: (1, 16), ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let mut d = vec![];
    if case % 3 == 0 {
        mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    } else {
        let fs: Vec<usize> = (0..b.fields.len())
            .filter(|i| {
                matches!(
                    b.fields[*i].kind,
                    FK::LeafItemOff | FK::RootItemOff | FK::ValItemOff | FK::BigSegOff | FK::ListCount | FK::NodeValuesCount | FK::BigCount | FK::CellSize | FK::NodeSig | FK::ValSig
                )
            })
            .collect();
        for _ in 0..cx.rng.range(1, 4) {
            let fi = *cx.rng.pick(&fs);
            d.extend(mutate::damage(&mut cx.rng, &mut b, fi));
        }
    }
    cx.set_hive(&b.bytes, d.join("; "));
    whole(cx, &b.bytes, 12, 2)
}

fn long(cx: &mut Cx, case: u64) -> Res {
    let n = match case % 6 {
        0 => 65535,
        1 => 65534,
        2 => 70_000,
        3 => 40_000,
        _ => cx.rng.range(1000, 65535) as usize,
    };
    let mut tree = Key::named("root");
    if case % 6 == 5 {
        for i in 0..n {
            tree.values.push(Value { name: Name::latin1(format!("{i}").as_bytes()), ty: 4, data: vec![1, 2, 3, 4] });
        }
    } else {
        tree = flat(n, |i| format!("{i:05x}"));
    }
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.form = if n <= 65535 && cx.rng.chance(2, 3) { Form::AnyLeaf } else { *cx.rng.pick(&[Form::Root, Form::RootOf(1012), Form::RootOf(300)]) };
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, format!("{n} items, {}", o.describe()));
    whole(cx, &b.bytes, 1, 12)
}

fn segments(cx: &mut Cx, _: u64) -> Res {
    let segs = cx.rng.log_range(1, 12) as usize;
    let mut k = Key::named("root");
    for _ in 0..2 {
        let n = segs * SEG + *cx.rng.pick(&[0usize, 1, 2, 3, 4, 100, SEG - 1]);
        let ty = *cx.rng.pick(&[3, 1, 7, 7]);
        let data = if ty == 7 {
            let mut u = boundary_units(&mut cx.rng, true);
            if cx.rng.chance(1, 2) {
                // many lines, none of them empty
                u.clear();
                let longest = *cx.rng.pick(&[4usize, 40, 3000]);
                while u.len() < n / 2 {
                    for _ in 0..cx.rng.range(1, longest as u64) {
                        u.push(*cx.rng.pick(&[0x41u16, 0x62, 0xd83d, 0xde00, 0x263a]));
                    }
                    u.push(0);
                }
                u.truncate(n / 2);
            }
            u.resize(n / 2, 0x41);
            units_bytes(&u)
        } else {
            cx.rng.bytes(n)
        };
        k.values.push(Value { name: Name::latin1(b"v"), ty, data });
    }
    let mut o = Opts::random(&mut cx.rng);
    o.minor = 5;
    o.extra_segments = *cx.rng.pick(&[0, 0, 1, 5]);
    let mut b = build(&mut cx.rng, &k, &o);
    let mut d = String::new();
    if cx.rng.chance(1, 2) {
        let fs: Vec<usize> = (0..b.fields.len())
            .filter(|i| matches!(b.fields[*i].kind, FK::BigSegOff) || b.fields[*i].kind == FK::CellSize && b.fields[*i].cell == CK::Segment)
            .collect();
        if !fs.is_empty() {
            let fi = *cx.rng.pick(&fs);
            d = mutate::damage(&mut cx.rng, &mut b, fi).unwrap_or_default();
        }
    }
    cx.set_hive(&b.bytes, d);
    whole(cx, &b.bytes, 1, 6)
}

fn multis(cx: &mut Cx, _: u64) -> Res {
    let mut k = Key::named("root");
    for _ in 0..4 {
        let n = cx.rng.log_range(0, 40) as usize;
        let mut u: Vec<u16> = (0..n).map(|_| *cx.rng.pick(&[0u16, 0x41, 0x42, 0x43, 0xd83d, 0xde00, 0x263a])).collect();
        if cx.rng.chance(1, 2) {
            u.push(0);
            u.push(0);
        }
        let mut data = units_bytes(&u);
        if cx.rng.chance(1, 8) {
            data.push(0x41);
        }
        k.values.push(Value { name: Name::latin1(b"m"), ty: 7, data });
    }
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &k, &o);
    cx.set_hive(&b.bytes, "");
    whole(cx, &b.bytes, 1, 3)
}
