//! C17: reads are pure, repeatable, zero-copy, allocation-free and thread-safe.
use super::util::*;
use crate::alloc_count;
use crate::cx::*;
use hivecore::build::*;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::query::{self, answer, collect, Frame, Q};
use hivecore::rng::{digest, mix};
use hivecore::walk::*;
use nt_hive::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zerocopy::SplitByteSlice;

pub const C17: Check = Check {
    id: "C17",
    rule: "random sets of queries on intact and damaged hives: answers on fresh handles are compared with answers after other \
           queries, repeated, in shuffled order, from clones, on twin hives of equal layout but different contents (also in \
           the same memory), from interleaved iterators and from 4 threads sharing one hive; heap allocations are counted per \
           query, every borrowed slice is located in the input buffer, and the buffer is digested before and after; \
           non-trivial: the hive has at least two keys; distinct by hive bytes and query set",
    phases: &[
        Phase { name: "repetition and order", quick: 6000, thorough: 400_000, f: orders },
        Phase { name: "twin hives", quick: 3000, thorough: 200_000, f: twins },
        Phase { name: "interleaved iterators", quick: 6000, thorough: 400_000, f: live },
        Phase { name: "allocations", quick: 6000, thorough: 400_000, f: allocations },
        Phase { name: "long lists", quick: 40, thorough: 2000, f: long },
        Phase { name: "threads", quick: 400, thorough: 30_000, f: threads },
    ],
};

fn hive_bytes(cx: &mut Cx) -> Built {
    let max_name = *cx.rng.pick(&[16, 16, 300, 3000]);
    let t = TreeOpts { max_keys: 24, max_values: 5, max_data: 300, max_name, big_chance: (1, 80), ..TreeOpts::default() };
    let (_, mut b, _) = random_hive(cx, &t);
    let mut d = vec![];
    if cx.rng.chance(1, 3) {
        mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    }
    cx.set_hive(&b.bytes, d.join("; "));
    b
}

const KEYS: usize = 40;

/// Every query on handles of its own.
fn baseline(bytes: &[u8], qs: &[Q]) -> Res<Vec<u64>> {
    let mut v = vec![];
    let f = Frame::new(bytes);
    for q in qs {
        let hive = open(bytes)?;
        let keys = nav("collect", || collect(&hive, KEYS))?;
        v.push(nav(q.op(), || answer(&hive, &keys, &f, q))?);
    }
    Ok(v)
}

fn prepare(cx: &mut Cx, bytes: &[u8], n: usize) -> Res<Vec<Q>> {
    let qs = query::generate(&mut cx.rng, bytes, KEYS, n, true);
    let hive = open(bytes)?;
    let keys = nav("collect", || collect(&hive, KEYS).len())?;
    cx.ev("keys", keys as u64);
    Ok(query::usable(keys, &qs))
}

fn done(cx: &mut Cx, bytes: &[u8], qs: &[Q], n: u64) {
    cx.eval(n);
    cx.ev("answers compared", n);
    if qs.len() > 8 {
        cx.fp(mix(digest(bytes) ^ qs.len() as u64));
        cx.sample(|| format!("{} bytes, queries {:?}", bytes.len(), &qs[..6.min(qs.len())]));
    }
}

fn changed<T>(q: &Q, when: &str) -> Res<T> {
    diff(q.op(), format!("{q:?} gives another answer {when}"))
}

fn orders(cx: &mut Cx, _: u64) -> Res {
    let b = hive_bytes(cx);
    let bytes = b.bytes.clone();
    let before = digest(&bytes);
    let qs = prepare(cx, &bytes, 30)?;
    let want = baseline(&bytes, &qs)?;
    let _ = query::outside();
    // another copy, with other addresses and one long-lived set of handles
    let other = bytes.clone();
    let f = Frame::new(&other);
    let hive = open(&other)?;
    let keys = nav("collect", || collect(&hive, KEYS))?;
    let mut n = 0;
    let mut clones = keys.clone();
    for round in 0..3 {
        let mut order: Vec<usize> = (0..qs.len()).collect();
        cx.rng.shuffle(&mut order);
        for i in order {
            let q = &qs[i];
            let k = if cx.rng.chance(1, 2) { &keys } else { &clones };
            for rep in 0..cx.rng.range(1, 2) {
                let got = call(q.op(), || answer(&hive, k, &f, q))?;
                n += 1;
                if got != want[i] {
                    return changed(q, &format!("in round {round}, repetition {rep}, after other queries"));
                }
            }
            if cx.rng.chance(1, 6) {
                clones = keys.clone();
            }
        }
    }
    if query::outside() > 0 {
        return diff("borrowed slices", "a slice does not lie in the input buffer");
    }
    // mutable input
    let mut m = bytes.clone();
    {
        let base = m.as_ptr() as usize;
        let f = Frame { base, len: m.len() };
        let hive = nav_ok("without_validation", || Hive::without_validation(m.as_mut_slice()))?;
        let keys = nav("collect", || collect(&hive, KEYS))?;
        for (q, w) in qs.iter().zip(&want) {
            if call(q.op(), || answer(&hive, &keys, &f, q))? != *w {
                return changed(q, "on a mutable slice");
            }
            n += 1;
        }
    }
    if digest(&m) != before || digest(&other) != before || digest(&bytes) != before {
        return diff("reads", "the input was modified");
    }
    done(cx, &bytes, &qs, n);
    Ok(())
}

/// Same layout, other contents.
fn twin(cx: &mut Cx, b: &Built) -> Vec<u8> {
    let mut t = b.bytes.clone();
    for f in &b.fields {
        match f.kind {
            FK::NameBytes | FK::ValNameBytes if cx.rng.chance(2, 3) => {
                for i in f.pos..(f.pos + f.len).min(t.len()) {
                    t[i] = t[i].wrapping_add(1);
                }
            }
            FK::DataBytes | FK::ClassBytes if cx.rng.chance(2, 3) => {
                for i in f.pos..(f.pos + f.len).min(t.len()) {
                    t[i] ^= cx.rng.next() as u8;
                }
            }
            FK::NodeFlags if cx.rng.chance(1, 4) && f.pos < t.len() => t[f.pos] ^= 0x20,
            FK::ValFlags if cx.rng.chance(1, 4) && f.pos < t.len() => t[f.pos] ^= 1,
            _ => (),
        }
    }
    t
}

/// Another hive with the identity of the first one (sequence numbers, time stamp, checksum, file name) and its length.
fn namesake(cx: &mut Cx, b: &mut Built) -> Vec<u8> {
    let mut t = hive_bytes(cx).bytes;
    let n = b.bytes.len().max(t.len());
    b.bytes.resize(n, 0);
    t.resize(n, 0);
    for r in [4..20, 48..BASE] {
        t[r.clone()].copy_from_slice(&b.bytes[r]);
    }
    t
}

fn walk(b: &[u8], seed: u64) -> Res {
    let hive = open(b)?;
    let cfg = Cfg { max_nodes: 60, max_items: 600, max_data: 50_000, lookups: 4, ..Cfg::default() };
    Walker::new(b.as_ptr(), b, cfg).walk(&hive, &mut hivecore::rng::Rng::new(seed))
}

fn twins(cx: &mut Cx, _: u64) -> Res {
    let mut b = hive_bytes(cx);
    let second = if cx.rng.chance(1, 2) { twin(cx, &b) } else { namesake(cx, &mut b) };
    let first = b.bytes.clone();
    let seed = cx.rng.next();
    // what does not even work alone belongs to other properties
    walk(&first, seed).map_err(|f| f.skip())?;
    let mut buf = first.clone();
    let qa = prepare(cx, &first, 20)?;
    let qb = prepare(cx, &second, 20)?;
    let wa = baseline(&first, &qa)?;
    let mut n = 0;
    // the same memory holds another hive now
    buf.copy_from_slice(&second);
    walk(&buf, seed)?;
    let wb = baseline(&buf, &qb)?;
    buf.copy_from_slice(&first);
    walk(&buf, seed)?;
    // both open at once
    let (ha, hb) = (open(&first)?, open(&second)?);
    let (ka, kb) = (nav("collect", || collect(&ha, KEYS))?, nav("collect", || collect(&hb, KEYS))?);
    let (fa, fb) = (Frame::new(&first), Frame::new(&second));
    for _ in 0..60 {
        if !qa.is_empty() {
            let i = cx.rng.idx(qa.len());
            if call(qa[i].op(), || answer(&ha, &ka, &fa, &qa[i]))? != wa[i] {
                return changed(&qa[i], "while another hive is in use");
            }
            n += 1;
        }
        if !qb.is_empty() {
            let i = cx.rng.idx(qb.len());
            if call(qb[i].op(), || answer(&hb, &kb, &fb, &qb[i]))? != wb[i] {
                return changed(&qb[i], "while another hive is in use");
            }
            n += 1;
        }
    }
    done(cx, &first, &qa, n);
    Ok(())
}

/// Several iterators over the same lists advance in random order.
fn live(cx: &mut Cx, _: u64) -> Res {
    let b = hive_bytes(cx);
    let bytes = &b.bytes[..];
    let hive = open(bytes)?;
    let f = Frame::new(bytes);
    let keys = nav("collect", || collect(&hive, KEYS))?;
    enum It<'h, 'a> {
        S(SubKeyNodes<'h, &'a [u8]>),
        V(KeyValues<'h, &'a [u8]>),
        D(BigDataSlices<'h, &'a [u8]>),
    }
    impl Clone for It<'_, '_> {
        fn clone(&self) -> Self {
            match self {
                It::S(i) => It::S(i.clone()),
                It::V(i) => It::V(i.clone()),
                It::D(i) => It::D(i.clone()),
            }
        }
    }
    let step = |it: &mut It, f: &Frame| -> Option<u64> {
        match it {
            It::S(i) => i.next().map(|x| f.key(Some(x))),
            It::V(i) => i.next().map(|x| f.val(Some(x))),
            It::D(i) => i.next().map(|x| x.map(|s| f.slice(s)).unwrap_or(1)),
        }
    };
    let mut fresh: Vec<It> = vec![];
    for k in &keys {
        if let Some(Ok(i)) = nav("subkeys", || k.subkeys())? {
            fresh.push(It::S(i));
        }
        if let Some(Ok(i)) = nav("values", || k.values())? {
            fresh.push(It::V(i.clone()));
            for v in nav("values", || i.take(20).flatten().collect::<Vec<_>>())? {
                if let Ok(KeyValueData::Big(i)) = nav("data", || v.data())? {
                    fresh.push(It::D(i));
                }
            }
        }
    }
    if fresh.is_empty() {
        return Ok(());
    }
    let mut want = vec![];
    for i in &fresh {
        let mut i = i.clone();
        let mut v = vec![];
        while let Some(x) = nav("next", || step(&mut i, &f))? {
            v.push(x);
            if v.len() > 3000 {
                break;
            }
        }
        want.push(v);
    }
    let mut pool: Vec<(usize, usize, It)> = vec![];
    let mut n = 0u64;
    for _ in 0..300 {
        if pool.is_empty() || pool.len() < 8 && cx.rng.chance(1, 3) {
            let i = cx.rng.idx(fresh.len());
            pool.push((i, 0, fresh[i].clone()));
        }
        let p = cx.rng.idx(pool.len());
        if cx.rng.chance(1, 10) {
            let (i, at, it) = &pool[p];
            let c = (*i, *at, call("clone", || it.clone())?);
            pool.push(c);
            continue;
        }
        let (i, at, it) = &mut pool[p];
        let got = call("next", || step(it, &f))?;
        n += 1;
        if *at < 3000 && got.as_ref() != want[*i].get(*at) {
            return diff("next", format!("item {} of an iterator differs when other iterators are advanced in between", *at));
        }
        *at += 1;
        if got.is_none() || cx.rng.chance(1, 40) {
            pool.swap_remove(p);
        }
    }
    cx.eval(n);
    cx.ev("interleaved next calls", n);
    cx.fp(digest(bytes));
    Ok(())
}

fn count_one<B: SplitByteSlice>(hive: &Hive<B>, keys: &[KeyNode<B>], f: &Frame, q: &Q) -> Res<u64> {
    let (_, n) = call(q.op(), || {
        let a = alloc_count::count();
        let x = answer(hive, keys, f, q);
        (x, alloc_count::count() - a)
    })?;
    if n > 0 {
        return diff(q.op(), format!("{q:?} allocates heap memory {n} times"));
    }
    Ok(n)
}

struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

fn allocations(cx: &mut Cx, _: u64) -> Res {
    use std::fmt::Write;
    let b = hive_bytes(cx);
    let bytes = &b.bytes[..];
    let qs = prepare(cx, bytes, 60)?;
    let f = Frame::new(bytes);
    let a = alloc_count::count();
    let hive = Hive::without_validation(bytes).map_err(|e| Fault::Skip(format!("{e:?}")))?;
    let ok = Hive::new(bytes).is_ok();
    if alloc_count::count() != a {
        return diff("opening", format!("allocates heap memory (valid: {ok})"));
    }
    let keys = nav("collect", || collect(&hive, KEYS))?;
    let _ = query::outside();
    let mut n = 0;
    for q in &qs {
        if q.allocates() {
            continue;
        }
        count_one(&hive, &keys, &f, q)?;
        n += 1;
        if query::outside() > 0 {
            return diff(q.op(), format!("{q:?}: a slice does not lie in the input buffer"));
        }
    }
    // handles, iterators and text output
    for k in &keys {
        let (_, m) = call("clone", || {
            let a = alloc_count::count();
            let c = k.clone();
            if let Some(Ok(i)) = c.subkeys() {
                let j = i.clone();
                let _ = j.size_hint();
            }
            if let Some(Ok(i)) = c.values() {
                let j = i.clone();
                let _ = j.size_hint();
            }
            (c == *k, alloc_count::count() - a)
        })?;
        if m > 0 {
            return diff("clone", format!("cloning handles and iterators allocates {m} times"));
        }
        let nm = nav("name", || k.name())?;
        let mut names: Vec<_> = nm.into_iter().collect();
        names.extend(nav("class_name", || k.class_name())?.and_then(|c| c.ok()));
        if let Some(Ok(it)) = nav("values", || k.values())? {
            for v in it.flatten() {
                names.extend(nav("value.name", || v.name())?);
            }
        }
        for nm in names {
            let text = nav("to_string_lossy", || nm.to_string_lossy())?;
            let (w, m) = call("Display and comparison", || {
                let a = alloc_count::count();
                let mut s = Sink(0);
                let _ = write!(s, "{nm}");
                let _ = write!(s, "{nm:>3000}");
                let t = &text[..];
                let mut c = (nm == t) as u64 + (nm < *t) as u64 + (t > nm) as u64 + nm.cmp(&nm).is_eq() as u64;
                for other in [NtHiveNameString::Latin1(&text.as_bytes()[..text.len() / 2]), NtHiveNameString::Utf16LE(text.as_bytes())] {
                    c += (nm == other) as u64 + (nm < other) as u64 + other.cmp(&nm).is_lt() as u64;
                }
                (s.0 + c + nm.len() as u64 + nm.is_empty() as u64, alloc_count::count() - a)
            })?;
            if m > 0 {
                return diff("Display and comparison", format!("formatting or comparing a name of {} bytes allocates {m} times ({w})", nm.len()));
            }
            cx.max("bytes of a name formatted and compared", nm.len() as u64);
            n += 1;
        }
        n += 2;
    }
    cx.eval(n);
    cx.ev("calls without allocation", n);
    if keys.len() > 1 {
        cx.fp(digest(bytes) ^ 1);
    }
    Ok(())
}

fn long(cx: &mut Cx, case: u64) -> Res {
    let n = *cx.rng.pick(&[200usize, 1000, 5000, 30_000]);
    let mut tree = flat(n, |i| format!("Key{i:05x}"));
    for i in 0..cx.rng.range(0, 300) {
        tree.values.push(Value { name: Name::latin1(format!("Value{i}").as_bytes()), ty: 1, data: vec![65, 0] });
    }
    let mut data = cx.rng.bytes(SEG * 5 + 100);
    data[0] = 1;
    tree.values.push(Value { name: Name::latin1(b"big"), ty: 3, data });
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    o.minor = 5;
    o.form = if case % 2 == 0 { Form::AnyLeaf } else { Form::RootOf(1 + case as usize * 37 % 1000) };
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, o.describe());
    let bytes = &b.bytes[..];
    let qs = prepare(cx, bytes, 80)?;
    let hive = open(bytes)?;
    let keys = nav("collect", || collect(&hive, KEYS))?;
    let f = Frame::new(bytes);
    for q in qs.iter().filter(|q| !q.allocates()) {
        count_one(&hive, &keys, &f, q)?;
    }
    done(cx, bytes, &qs, qs.len() as u64);
    Ok(())
}

struct Share<T>(T);
// SAFETY: whether this is sound is exactly what is monitored (the probe crate checks the marker traits).
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

fn threads(cx: &mut Cx, _: u64) -> Res {
    let b = hive_bytes(cx);
    let bytes = b.bytes.clone();
    let qs = prepare(cx, &bytes, 40)?;
    let want = baseline(&bytes, &qs)?;
    let hive = open(&bytes)?;
    let keys = nav("collect", || collect(&hive, KEYS))?;
    let shared = Share((&hive, &keys));
    let shared = &shared;
    let seeds: Vec<u64> = (0..4).map(|_| cx.rng.next()).collect();
    let bad = call("reads from 4 threads", || {
        std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let (qs, want, bytes) = (&qs, &want, &bytes);
                    s.spawn(move || {
                        let (hive, keys): (&Hive<&[u8]>, &Vec<KeyNode<&[u8]>>) = shared.0;
                        let mut r = hivecore::rng::Rng::new(*seed);
                        let f = Frame::new(bytes);
                        let own = if r.chance(1, 2) { collect(hive, KEYS) } else { keys.clone() };
                        for _ in 0..120 {
                            if qs.is_empty() {
                                break;
                            }
                            let i = r.idx(qs.len());
                            let k = if r.chance(1, 2) { keys } else { &own };
                            match catch_unwind(AssertUnwindSafe(|| answer(hive, k, &f, &qs[i]))) {
                                Ok(a) if a == want[i] => (),
                                Ok(_) => return Some(format!("{:?} gives another answer with other threads running", qs[i])),
                                Err(_) => return Some(format!("{:?} panicked: {}", qs[i], take_panic())),
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().find_map(|h| h.join().unwrap_or(Some("thread died".into())))
        })
    })?;
    if let Some(d) = bad {
        return diff("threads", d);
    }
    cx.ev("thread runs", 4);
    done(cx, &bytes, &qs, 480);
    Ok(())
}
