//! C19: handles are equal exactly when they denote the same record of the same opened hive.
use super::util::*;
use crate::cx::*;
use hivecore::build::*;
use hivecore::fold;
use hivecore::model::*;
use hivecore::obs::*;
use hivecore::rng::{digest, mix};
use nt_hive::*;

pub const C19: Check = Check {
    id: "C19",
    rule: "handles of the same keys and values are obtained by iteration, nth, lookup in random spellings, subpaths from \
           several starting keys, clones, and from two hives opened on the same and on copied bytes; hives contain byte-identical \
           twin records and several list entries naming one record; every pair of handles is compared with == and != in both \
           directions; non-trivial: a pair of handles with equal names; distinct by hive bytes and pair of routes",
    phases: &[
        Phase { name: "random hives", quick: 6000, thorough: 600_000, f: random },
        Phase { name: "twins and aliases", quick: 12_000, thorough: 1_000_000, f: aliases },
        Phase { name: "long lists", quick: 40, thorough: 2000, f: long },
    ],
};

struct H<'h, 'a, T> {
    route: &'static str,
    hive: usize,
    at: usize,
    h: T,
    _p: std::marker::PhantomData<(&'h (), &'a ())>,
}

type K<'h, 'a> = KeyNode<'h, &'a [u8]>;
type V<'h, 'a> = KeyValue<'h, &'a [u8]>;

fn add_key<'h, 'a>(out: &mut Vec<H<'h, 'a, K<'h, 'a>>>, hive: usize, route: &'static str, k: K<'h, 'a>) -> Res {
    let n = nav("name", || k.name().map(|n| parts(&n).1.as_ptr() as usize))?;
    if let Ok(p) = n {
        out.push(H { route, hive, at: p, h: k, _p: Default::default() });
    }
    Ok(())
}
fn add_val<'h, 'a>(out: &mut Vec<H<'h, 'a, V<'h, 'a>>>, hive: usize, route: &'static str, v: V<'h, 'a>) -> Res {
    let n = nav("value.name", || v.name().map(|n| parts(&n).1.as_ptr() as usize))?;
    if let Ok(p) = n {
        out.push(H { route, hive, at: p, h: v, _p: Default::default() });
    }
    Ok(())
}

/// Handles of up to `max` keys of one hive by all routes.
fn gather<'h, 'a>(cx: &mut Cx, id: usize, hive: &'h Hive<&'a [u8]>, max: usize, keys: &mut Vec<H<'h, 'a, K<'h, 'a>>>, vals: &mut Vec<H<'h, 'a, V<'h, 'a>>>) -> Res {
    let root = nav_ok("root_key_node", || hive.root_key_node())?;
    add_key(keys, id, "root_key_node", root.clone())?;
    add_key(keys, id, "root_key_node", nav_ok("root_key_node", || hive.root_key_node())?)?;
    if let Some(Ok(k)) = nav("subpath", || root.subpath("\\\\"))? {
        add_key(keys, id, "subpath", k)?;
    }
    let mut todo = vec![(root.clone(), String::new())];
    let mut i = 0;
    while i < todo.len() && keys.len() < max {
        let (k, path) = todo[i].clone();
        i += 1;
        if let Some(Ok(it)) = nav("subkeys", || k.subkeys())? {
            let n = nav("count", || it.clone().count())?;
            for j in 0..n.min(12) {
                let j = if n > 12 { cx.rng.idx(n) } else { j };
                let mut it = it.clone();
                let Some(Ok(c)) = nav("nth", || it.nth(j))? else { continue };
                add_key(keys, id, "nth", c.clone())?;
                add_key(keys, id, "clone", c.clone())?;
                let units = match nav("name", || c.name())? {
                    Ok(n) => units_of(parts(&n).0, parts(&n).1),
                    Err(_) => continue,
                };
                if let Some(t) = fold::decode(&respell(&mut cx.rng, &units), false) {
                    if let Some(Ok(s)) = nav("subkey", || k.subkey(&t))? {
                        add_key(keys, id, "subkey", s)?;
                    }
                    if !t.contains('\\') {
                        let full = format!("{path}\\{t}");
                        if let Some(Ok(s)) = nav("subpath", || root.subpath(&full))? {
                            add_key(keys, id, "subpath from the root", s)?;
                        }
                        if let Some(Ok(s)) = nav("subpath", || k.subpath(&t))? {
                            add_key(keys, id, "subpath from the parent", s)?;
                        }
                        todo.push((c, full));
                    }
                }
            }
            if n > 0 && n < 200 {
                for c in nav("subkeys", || it.collect::<Vec<_>>())?.into_iter().flatten().take(12) {
                    add_key(keys, id, "iteration", c)?;
                }
            }
        }
        if let Some(Ok(it)) = nav("values", || k.values())? {
            for v in nav("values", || it.clone().take(12).collect::<Vec<_>>())?.into_iter().flatten() {
                let units = match nav("value.name", || v.name())? {
                    Ok(n) => units_of(parts(&n).0, parts(&n).1),
                    Err(_) => continue,
                };
                add_val(vals, id, "clone", v.clone())?;
                add_val(vals, id, "iteration", v)?;
                if let Some(t) = fold::decode(&respell(&mut cx.rng, &units), false) {
                    if let Some(Ok(s)) = nav("value", || k.value(&t))? {
                        add_val(vals, id, "value", s)?;
                    }
                }
            }
            let n = nav("count", || it.clone().count())?;
            if n > 0 {
                let j = cx.rng.idx(n);
                let mut it = it;
                if let Some(Ok(v)) = nav("nth", || it.nth(j))? {
                    add_val(vals, id, "nth", v)?;
                }
            }
        }
    }
    Ok(())
}

fn pairs<T: PartialEq>(cx: &mut Cx, what: &str, hs: &[H<T>]) -> Res<u64> {
    let mut n = 0;
    let mut same = 0;
    for a in hs {
        for b in hs {
            let want = a.hive == b.hive && a.at == b.at;
            #[allow(clippy::nonminimal_bool)]
            let (eq, ne) = call(what, || (a.h == b.h, a.h != b.h))?;
            n += 1;
            same += want as u64;
            if eq != want || ne == want {
                return diff(
                    what,
                    format!(
                        "handles by {} and {} ({} record, {} hive): == gives {eq}, != gives {ne}",
                        a.route,
                        b.route,
                        if a.at == b.at { "same" } else { "different" },
                        if a.hive == b.hive { "same" } else { "another" }
                    ),
                );
            }
        }
    }
    cx.ev(&format!("{what} pairs"), n);
    cx.ev(&format!("{what} pairs of the same record"), same);
    Ok(n)
}

fn judge(cx: &mut Cx, bytes: &[u8], max: usize) -> Res {
    // 0 and 1: two hives opened on the same bytes; 2: on a copy
    let copy = bytes.to_vec();
    let (a, b, c) = (open(bytes)?, open(bytes)?, open(&copy)?);
    let mut keys = vec![];
    let mut vals = vec![];
    gather(cx, 0, &a, max, &mut keys, &mut vals)?;
    let (na, nv) = (keys.len(), vals.len());
    gather(cx, 1, &b, na + max / 3, &mut keys, &mut vals)?;
    let nb = keys.len();
    gather(cx, 2, &c, nb + max / 4, &mut keys, &mut vals)?;
    if nv > 60 {
        let mut order: Vec<usize> = (0..vals.len()).collect();
        cx.rng.shuffle(&mut order);
        order.truncate(120);
        let mut v: Vec<Option<_>> = vals.into_iter().map(Some).collect();
        vals = order.iter().map(|i| v[*i].take().unwrap()).collect();
    }
    let n = pairs(cx, "KeyNode ==", &keys)? + pairs(cx, "KeyValue ==", &vals)?;
    cx.eval(n);
    cx.fp(digest(bytes));
    for k in keys.iter().filter(|k| k.hive == 0).take(30) {
        cx.fp(mix((k.at - bytes.as_ptr() as usize) as u64 ^ hivecore::rng::fnv(k.route.as_bytes()) ^ digest(&bytes[..600])));
    }
    cx.sample(|| format!("{} key handles, {} value handles, {} pairs", keys.len(), vals.len(), n));
    Ok(())
}

fn random(cx: &mut Cx, _: u64) -> Res {
    let t = TreeOpts { max_keys: 20, max_fanout: 6, max_name: 8, max_data: 40, ..TreeOpts::default() };
    let (_, b, o) = random_hive(cx, &t);
    cx.set_hive(&b.bytes, o.describe());
    judge(cx, &b.bytes, 50)
}

/// Identical records at different places, and several entries naming the same record.
fn aliases(cx: &mut Cx, _: u64) -> Res {
    let mut w = Raw::new();
    let r = &mut cx.rng;
    let data = w.cell(b"some data of a value");
    let shared_value = w.value(b"v", 3, 8, data);
    let twin_value = w.value(b"v", 3, 8, data);
    let vlist = w.offsets(&[shared_value, twin_value, shared_value]);
    let leaf_a = w.node(b"a", NIL, (3, vlist));
    let leaf_b = w.node(b"a", NIL, (3, vlist));
    let leaf_c = w.node(b"b", NIL, (2, vlist));
    let mut entries = vec![leaf_a, leaf_b, leaf_a, leaf_c];
    r.shuffle(&mut entries);
    let sig = *r.pick(&[b"lf", b"li", b"lh"]);
    let l1 = w.list(sig, &entries);
    let mut more = vec![leaf_a, leaf_c, leaf_b];
    r.shuffle(&mut more);
    let l2 = w.list(*r.pick(&[b"lf", b"li", b"lh"]), &more);
    let list = if r.chance(1, 2) { w.list(b"ri", &[l1, l2, l1]) } else { l1 };
    // two keys share one subkeys list
    let mid1 = w.node(b"m", l2, (0, NIL));
    let mid2 = w.node(b"m", l2, (0, NIL));
    let top = if r.chance(1, 2) {
        w.list(sig, &[mid1, mid2, mid1, leaf_a])
    } else {
        list
    };
    let root = w.node(b"root", top, (3, vlist));
    let bytes = w.finish(r, 5, root);
    cx.set_hive(&bytes, "twin records");
    judge(cx, &bytes, 70)
}

fn long(cx: &mut Cx, _: u64) -> Res {
    let n = *cx.rng.pick(&[300usize, 3000, 30_000]);
    let tree = flat(n, |i| format!("{i:05x}"));
    let mut o = Opts::random(&mut cx.rng);
    o.fast = true;
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, o.describe());
    judge(cx, &b.bytes, 60)
}
