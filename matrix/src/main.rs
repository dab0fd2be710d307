//! The workload of `hivecore::cases` as a program, to be built for and run on every platform,
//! optimisation level and feature set, under interpreters and sanitizers.
//!
//! hivematrix pack SIZE SEED FROM TO FILE      writes cases
//! hivematrix versus PROGRAM owned|core SEED FROM STEP SECONDS   compares with a build of ../bare
//! hivematrix corpus SIZE SEED FROM TO DIR     the same for the fuzzer
//! hivematrix COMMAND FILE START STEP [SECONDS [ONLY]]   runs cases START, START+STEP, … of such a file
#[path = "../../bare/src/walk.rs"]
mod walk;

use hivecore::cases::*;
use hivecore::exercise::{Budget, Ex};
use hivecore::query::*;
use hivecore::rng::Rng;
use nt_hive::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn num(a: &[String], i: usize) -> u64 {
    a.get(i).map(|s| s.parse().unwrap()).unwrap_or(0)
}

fn exercise(c: &Case) {
    let small = c.keys < 10;
    let bd = if small {
        Budget { nodes: 5, items: 40, data: 40_000, thorough: c.n % 2 == 0 }
    } else {
        Budget { nodes: 60, items: 4000, data: 1 << 20, thorough: true }
    };
    let mut r = Rng::derive(c.n, "exercise", 0, 0);
    let mut e = Ex::new(&mut r, bd);
    // an exact allocation: nothing readable behind it
    let b = c.bytes.clone().into_boxed_slice();
    let res = e.open(&b).and_then(|_| {
        let mut m = b.clone();
        e.clear(&mut m[..])
    });
    let t = e.t.clone();
    match res {
        Ok(()) => println!("{} calls {} errors {} keys {} values {} bytes {}", c.n, t.calls, t.errors, t.nodes, t.values, t.bytes),
        Err(f) => println!("{} FAULT {} [{}]", c.n, f.text(), c.what),
    }
}

/// Shared in any case: whether that is sound is what the sanitizers watch.
struct Share<T>(T);
// SAFETY: see above.
unsafe impl<T> Sync for Share<T> {}
impl<T: Copy> Share<T> {
    fn get(&self) -> T {
        self.0
    }
}

/// One hive, several threads.
fn threads(c: &Case) {
    let b = &c.bytes[..];
    let Ok(h) = Hive::without_validation(b) else {
        println!("{} answers 0", c.n);
        return;
    };
    let f = Frame::new(b);
    let ks = catch_unwind(AssertUnwindSafe(|| collect(&h, c.keys))).unwrap_or_default();
    let qs: Vec<Q> = usable(ks.len(), &c.core).into_iter().chain(usable(ks.len(), &c.alloc)).collect();
    let want: Vec<u64> = qs.iter().map(|q| guarded(|| answer(&h, &ks, &f, q))).collect();
    let iter = ks.first().and_then(|k| k.subkeys()).and_then(|r| r.ok());
    let mut bad = None;
    let mut switches = 0;
    let shared = Share((&h, &ks, &iter));
    std::thread::scope(|s| {
        let (shared, f, qs, want) = (&shared, &f, &qs, &want);
        let hs: Vec<_> = (0..3u64)
            .map(|t| {
                s.spawn(move || {
                    let (h, ks, iter) = shared.get();
                    let mut r = Rng::derive(c.n, "thread", t, 0);
                    let mut order: Vec<usize> = (0..qs.len()).collect();
                    r.shuffle(&mut order);
                    // the shared handles or clones of them, and a clone of a shared iterator
                    let mine = if t == 0 { None } else { Some(ks.clone()) };
                    let n = iter.clone().map(|i| i.take(50).count());
                    let mut y = 0;
                    for i in order {
                        let k = mine.as_ref().unwrap_or(ks);
                        if guarded(|| answer(h, k, f, &qs[i])) != want[i] {
                            return Err(format!("{:?}", qs[i]));
                        }
                        if r.chance(1, 8) {
                            std::thread::yield_now();
                            y += 1;
                        }
                    }
                    drop(mine);
                    Ok((n, y))
                })
            })
            .collect();
        for t in hs {
            match t.join() {
                Ok(Ok((_, y))) => switches += y,
                Ok(Err(q)) => bad = Some(q),
                Err(_) => bad = Some("a thread died".into()),
            }
        }
    });
    match bad {
        None => println!("{} answers {} yields {switches}", c.n, 3 * qs.len()),
        Some(q) => println!("{} FAULT {q} gives another answer with other threads running [{}]", c.n, c.what),
    }
}

/// The hive of number n for `versus`: half of them with one field at some limit.
fn limits(seed: u64, n: u64) -> (Vec<u8>, String) {
    use hivecore::build::*;
    if n % 2 == 0 {
        return make(seed, n / 2, if n % 16 == 0 { Size::Normal } else { Size::Tiny });
    }
    let mut r = Rng::derive(seed, "limits", n / 128, 0);
    let o = Opts::random(&mut r);
    let t = hivecore::model::TreeOpts { max_keys: 6, max_fanout: 8, max_values: 4, big_chance: (1, 20), ..Default::default() };
    let tree = hivecore::model::rand_tree(&mut r, &t);
    let mut b = build(&mut r, &tree, &o);
    let mut r = Rng::derive(seed, "limit", n, 0);
    let mut d = o.describe();
    for _ in 0..r.range(1, 2) {
        let f = b.fields[r.idx(b.fields.len())].clone();
        if hivecore::mutate::is_bytes(f.kind) {
            continue;
        }
        let vs = hivecore::mutate::hostile_values(&mut r, &b, &f);
        let v = *r.pick(&vs);
        set(&mut b.bytes, f.pos, hivecore::mutate::field_width(f.kind), v);
        d = format!("{d}; {:?} at {:#x} := {v:#x}", f.kind, f.pos);
    }
    (b.bytes, d)
}

/// Feeds hives FROM, FROM+STEP, … to another build of `walk` and compares its observations.
fn versus(exe: &str, owned: bool, seed: u64, from: u64, step: u64, secs: u64) -> i32 {
    use std::io::{Read, Write};
    let mut p = std::process::Command::new(exe)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    let (mut i, mut o) = (p.stdin.take().unwrap(), p.stdout.take().unwrap());
    let t0 = std::time::Instant::now();
    let (mut n, mut hives, mut seen) = (from, 0u64, 0u64);
    let mut rc = 0;
    while t0.elapsed().as_secs() < secs {
        let (bytes, what) = limits(seed, n);
        let mut line = [0u8; 34];
        let sent = i.write_all(&(bytes.len() as u64).to_le_bytes()).and_then(|_| i.write_all(&bytes));
        let got = sent.and_then(|_| o.read_exact(&mut line));
        let mut b = bytes.clone();
        let want = catch_unwind(AssertUnwindSafe(|| walk::walk(&mut b, owned)));
        let Ok((d, k)) = want else {
            println!("FAULT here hive {n} [{what}]: {}", hivecore::obs::take_panic());
            rc = 1;
            break;
        };
        if got.is_err() {
            let mut e = String::new();
            let _ = p.stderr.take().unwrap().take(2000).read_to_string(&mut e);
            println!("FAULT there hive {n} [{what}]: the program ended: {:?} {e}", p.wait());
            rc = 1;
            break;
        }
        if String::from_utf8_lossy(&line) != format!("{d:016x} {k:016x}\n") {
            println!("FAULT hive {n} [{what}]: other observations ({k} expected): {}", String::from_utf8_lossy(&line).trim());
            rc = 1;
            break;
        }
        hives += 1;
        seen += k;
        n += step;
    }
    println!("hives {hives} observations {seen}");
    let _ = p.kill();
    let _ = p.wait();
    rc
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if let Some(s) = i.payload().downcast_ref::<&str>() {
            hivecore::obs::set_panic(format!("{s} at {:?}", i.location().map(|l| (l.file(), l.line()))));
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            hivecore::obs::set_panic(format!("{s} at {:?}", i.location().map(|l| (l.file(), l.line()))));
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "nothing" {
        println!("done");
        return;
    }
    if cmd == "pack" {
        hivecore::dict::load_env();
        let size = if a[2] == "tiny" { Size::Tiny } else { Size::Normal };
        let mut o = vec![];
        for n in num(&a, 4)..num(&a, 5) {
            case(num(&a, 3), n, size).encode(&mut o);
        }
        std::fs::write(&a[6], o).unwrap();
        println!("done");
        return;
    }
    if cmd == "corpus" {
        // one file per case, for the fuzzer: an option byte and the hive
        for n in num(&a, 4)..num(&a, 5) {
            let c = case(num(&a, 3), n, if a[2] == "tiny" { Size::Tiny } else { Size::Normal });
            let mut o = vec![(n % 4) as u8];
            o.extend_from_slice(&c.bytes);
            std::fs::write(format!("{}/{n}", a[6]), o).unwrap();
        }
        println!("done");
        return;
    }
    if cmd == "versus" {
        std::process::exit(versus(&a[2], a[3] == "owned", num(&a, 4), num(&a, 5), num(&a, 6), num(&a, 7)));
    }
    let data = std::fs::read(&a[2]).unwrap();
    let (start, step) = (num(&a, 3), num(&a, 4).max(1));
    let secs = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(3600u64);
    let t0 = std::time::Instant::now();
    let only: Option<u64> = a.get(6).map(|s| s.parse().unwrap());
    let mut i = &data[..];
    let mut at = 0;
    while let Some(c) = Case::decode(&mut i) {
        let mine = at >= start && (at - start) % step == 0 && only.is_none_or(|o| o == c.n);
        at += 1;
        if !mine {
            continue;
        }
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        match cmd {
            "digest" => {
                let (x, y) = c.run();
                println!("{} {} {:016x} {} {:016x}", c.n, x.len(), fold(&x), y.len(), fold(&y));
            }
            "detail" => {
                let (x, y) = c.run();
                let (l, m) = c.labels(&x);
                println!("case {}", c.what);
                for (l, v) in l.iter().zip(&x).chain(m.iter().zip(&y)) {
                    println!("{v:016x} {l}");
                }
            }
            "exercise" => exercise(&c),
            "threads" => threads(&c),
            _ => std::process::exit(2),
        }
    }
    println!("done");
}
