//! C20: the readhive program, run as a process and compared with a simulation of its output.
use super::robust::testhive;
use super::util::*;
use super::volatile::chain;
use crate::cx::*;
use hivecore::build::*;
use hivecore::fold;
use hivecore::model::*;
use hivecore::mutate;
use hivecore::obs::*;
use hivecore::oracle::*;
use hivecore::rng::{digest, mix};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, ExitStatus, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const C20: Check = Check {
    id: "C20",
    rule: "readhive, built from the tree, is run on generated hive files: random trees of typed values in every layout, every \
           value type, segmented data, chains of up to 512 levels, long lists; its output is compared byte for byte with the \
           one derived from the file by the reference reader, and it must succeed; on damaged, cyclic, truncated and foreign \
           files it must fail with a message exactly if something on its way is unreadable or cyclic, without panic, signal, or \
           running out of time (but for the recorded findings, which are counted); non-trivial: the file opened; distinct by file contents",
    phases: &[
        Phase { name: "well-formed hives", quick: 3000, thorough: 200_000, f: good },
        Phase { name: "deep and long", quick: 160, thorough: 4000, f: deep },
        Phase { name: "damaged hives", quick: 4000, thorough: 300_000, f: bad },
        Phase { name: "one damage", quick: 4000, thorough: 300_000, f: one },
        Phase { name: "cycles and soup", quick: 800, thorough: 40_000, f: cycles },
        Phase { name: "other files", quick: 600, thorough: 30_000, f: other },
    ],
};

struct Out {
    status: ExitStatus,
    out: Vec<u8>,
    err: Vec<u8>,
    time: Duration,
    timeout: bool,
}

fn program() -> PathBuf {
    PathBuf::from(std::env::var("HIVEMON_READHIVE").expect("HIVEMON_READHIVE"))
}

fn scratch() -> &'static PathBuf {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let base = std::env::var("HIVEMON_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = PathBuf::from(base).join(format!("readhive.{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        p
    })
}

const SECONDS: u64 = 60;

fn run(args: &[PathBuf]) -> std::io::Result<Out> {
    let mut c = Command::new(program());
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
    // SAFETY: only async-signal-safe calls between fork and exec.
    unsafe {
        c.pre_exec(|| {
            let cpu = libc::rlimit { rlim_cur: SECONDS, rlim_max: SECONDS };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let stack = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
            libc::setrlimit(libc::RLIMIT_STACK, &stack);
            Ok(())
        });
    }
    let t = Instant::now();
    let mut ch = c.spawn()?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = (&mut so).take(512 << 20).read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = (&mut se).take(16 << 20).read_to_end(&mut v);
        v
    });
    let mut timeout = false;
    let mut nap = Duration::from_micros(200);
    let status = loop {
        if let Some(s) = ch.try_wait()? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(3 * SECONDS) {
            timeout = true;
            let _ = ch.kill();
            break ch.wait()?;
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
    };
    let out = a.join().unwrap();
    let err = b.join().unwrap();
    Ok(Out { status, out, err, time: t.elapsed(), timeout })
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum Expect {
    Success,
    Failure,
    /// not a tree, or deeper than Windows allows, but finite: either
    Any,
}

struct Sim<'a> {
    o: Oracle<'a>,
    text: String,
    up: HashSet<u32>,
    seen: HashSet<u32>,
    shared: bool,
    deep: bool,
    keys: usize,
    limit: usize,
}

fn text(units: &[u16]) -> String {
    fold::decode(units, true).unwrap()
}

const TYPES: [&str; 12] = [
    "RegNone",
    "RegSZ",
    "RegExpandSZ",
    "RegBinary",
    "RegDWord",
    "RegDWordBigEndian",
    "RegLink",
    "RegMultiSZ",
    "RegResourceList",
    "RegFullResourceDescriptor",
    "RegResourceRequirementsList",
    "RegQWord",
];

impl Sim<'_> {
    /// Err: an unreadable or cyclic structure, or too many paths.
    fn key(&mut self, n: &Node, level: usize) -> Result<(), &'static str> {
        let Some(subs) = self.o.subkeys(n) else { return Ok(()) };
        let subs = subs.map_err(|_| "subkeys")?.flat();
        let pad = "  ".repeat(level);
        for k in subs {
            let k = k.map_err(|_| "key")?;
            self.keys += 1;
            if self.keys > self.limit {
                return Err("too many");
            }
            if level >= 512 {
                self.deep = true;
                if level >= 1000 {
                    return Err("too deep");
                }
            }
            if self.up.contains(&k.off) {
                return Err("cycle");
            }
            if !self.seen.insert(k.off) {
                self.shared = true;
            }
            let name = self.o.node_name(&k).map_err(|_| "key name")?;
            let _ = writeln!(self.text, "{pad}● {}", text(&self.o.units(&name)));
            if let Some(c) = self.o.class(&k) {
                let c = c.map_err(|_| "class name")?;
                let u = units_of(false, &self.o.all[c]);
                let _ = writeln!(self.text, "{pad}  Class Name: {}", text(&u));
            }
            if let Some(vs) = self.o.values(&k) {
                for v in vs.map_err(|_| "values")? {
                    let v = v.map_err(|_| "value")?;
                    let nm = self.o.val_name(&v).map_err(|_| "value name")?;
                    let mut nm = text(&self.o.units(&nm));
                    if nm.is_empty() {
                        nm = "(Default)".into();
                    }
                    let ty = self.o.val_type(&v).map_err(|_| "type")?;
                    let _ = writeln!(self.text, "{pad}  ○ {nm} - {} - {}", TYPES[ty as usize], self.o.val_size(&v));
                    let data = match ty {
                        1 | 2 => self.o.string(&v).map_err(|_| "string")?,
                        3 => match self.o.data(&v).map_err(|_| "data")? {
                            DataR::Small(r) => format!("{:?}", &self.o.all[r]),
                            DataR::Big { .. } => "BIG DATA".into(),
                        },
                        4 | 5 => self.o.int(&v, false).map_err(|_| "dword")?.to_string(),
                        7 => match self.o.multi(&v).map_err(|_| "multi")? {
                            (l, None) => format!("{l:?}"),
                            (_, Some(_)) => return Err("multi element"),
                        },
                        11 => self.o.int(&v, true).map_err(|_| "qword")?.to_string(),
                        _ => String::new(),
                    };
                    let _ = writeln!(self.text, "{pad}    {data}");
                }
            }
            self.up.insert(k.off);
            self.key(&k, level + 1)?;
            self.up.remove(&k.off);
        }
        Ok(())
    }
}

fn simulate(bytes: &[u8]) -> (Expect, String, &'static str) {
    if !Oracle::header_faults(bytes).is_empty() {
        return (Expect::Failure, String::new(), "header");
    }
    let o = Oracle::new(bytes);
    let Ok(root) = o.root() else { return (Expect::Failure, String::new(), "root") };
    let Ok(name) = o.node_name(&root) else { return (Expect::Failure, String::new(), "root name") };
    let mut s = Sim {
        o,
        text: format!("{}\n", text(&o.units(&name))),
        up: HashSet::from([root.off]),
        seen: HashSet::from([root.off]),
        shared: false,
        deep: false,
        keys: 0,
        limit: 300_000,
    };
    // on a big stack: the simulation recurses, too
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || s.key(&root, 0)).unwrap().join().unwrap()
    });
    match r {
        Err(why @ ("cycle" | "too many" | "too deep")) if s.shared || s.deep => {
            // met only after a stretch of shared keys or below the level Windows allows
            let e = if why == "cycle" { Expect::Failure } else { Expect::Any };
            (e, s.text, why)
        }
        Err(why) => (if s.shared && why == "too many" { Expect::Any } else { Expect::Failure }, s.text, why),
        Ok(()) if s.shared || s.deep => (Expect::Any, s.text, "shared or deep"),
        Ok(()) => (Expect::Success, s.text, "readable"),
    }
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let cut = |v: &[u8]| -> String {
        let lo = v[..i.min(v.len())].iter().rposition(|c| *c == b'\n').map(|p| p + 1).unwrap_or(0).max(i.saturating_sub(80));
        String::from_utf8_lossy(&v[lo.min(v.len())..(i + 80).min(v.len())]).into_owned()
    };
    format!("at byte {i} of {} (expected {}): printed {:?}, expected {:?}", a.len(), b.len(), cut(a), cut(b))
}

fn file(cx: &mut Cx, bytes: &[u8], must_succeed: bool) -> Res {
    cx.eval(1);
    let path = scratch().join("hive");
    std::fs::write(&path, bytes).unwrap();
    let (want, text, why) = simulate(bytes);
    if why == "too many" {
        // exponentially many paths: not among the files the property speaks of
        return Err(Fault::Skip("too many paths through the keys".into()));
    }
    let r = run(&[path]).map_err(|e| Fault::Skip(format!("cannot run readhive: {e}")))?;
    if must_succeed && want != Expect::Success {
        return Err(Fault::Skip(format!("the reference reader cannot read a generated hive: {why}")));
    }
    cx.ev(&format!("expected {want:?} ({why})"), 1);
    cx.max("milliseconds of readhive", r.time.as_millis() as u64);
    judge(cx, &r, want, &text, why)?;
    cx.ev("bytes of output compared", if want == Expect::Success { r.out.len() as u64 } else { 0 });
    if why != "header" {
        cx.fp(digest(bytes));
    }
    Ok(())
}

fn judge(cx: &mut Cx, r: &Out, want: Expect, text: &str, why: &str) -> Res {
    let err = String::from_utf8_lossy(&r.err).into_owned();
    let short: String = err.chars().take(300).collect();
    if r.timeout || r.status.signal() == Some(libc::SIGXCPU) || r.time > Duration::from_secs(2 * SECONDS) {
        return diff("readhive", format!("still running after {:?} (expected {want:?}: {why})", r.time));
    }
    if let Some(s) = r.status.signal() {
        if s == libc::SIGKILL {
            // the limit on CPU time, or the sandbox's memory guard
            return Err(Fault::Skip("readhive was killed".into()));
        }
        let overflow = s == libc::SIGABRT && err.contains("overflowed its stack");
        if overflow && matches!(why, "cycle" | "too deep") && r.out.len() > 1000 {
            return diff("readhive", format!("(unbounded-recursion:{why}) ended by signal {s}: {short}"));
        }
        return diff("readhive", format!("ended by signal {s}: {short}"));
    }
    let code = r.status.code().unwrap_or(-1);
    if err.contains("panicked at") || err.contains("overflowed its stack") || code == 101 || code > 128 {
        if why == "root name" && code == 101 && r.out.is_empty() {
            return diff("readhive", format!("(root-name) exit status {code}: {short}"));
        }
        return diff("readhive", format!("exit status {code}: {short}"));
    }
    cx.ev(&format!("exit status {code}"), 1);
    match (want, code) {
        (Expect::Success, 0) | (Expect::Any, 0) => {
            if want == Expect::Success && r.out != text.as_bytes() {
                return diff("readhive", first_difference(&r.out, text.as_bytes()));
            }
        }
        (Expect::Success, _) => return diff("readhive", format!("exit status {code} for a readable hive: {short}")),
        (Expect::Failure, 0) => return diff("readhive", format!("exit status 0 although the traversal meets an error: {why}")),
        (_, _) => {
            if err.trim().is_empty() {
                return diff("readhive", format!("exit status {code} without any message ({why})"));
            }
        }
    }
    Ok(())
}

fn options(cx: &mut Cx, typed: bool) -> TreeOpts {
    TreeOpts {
        max_keys: *cx.rng.pick(&[3, 20, 60, 200]),
        max_fanout: *cx.rng.pick(&[4, 12, 80]),
        typed,
        max_data: *cx.rng.pick(&[60, 300, 3000]),
        wild_names: cx.rng.chance(1, 2),
        ..TreeOpts::default()
    }
}

fn good(cx: &mut Cx, case: u64) -> Res {
    let t = options(cx, true);
    let mut tree = rand_tree(&mut cx.rng, &t);
    if case % 3 == 0 {
        // one key with every type, and data at the limits of segments
        let mut k = Key::named("types");
        for ty in 0..12u32 {
            for (j, n) in [0usize, 1, 4, 5, 8].iter().enumerate() {
                let n = match ty {
                    4 | 5 => 4,
                    11 => 8,
                    _ => *n,
                };
                k.values.push(Value { name: Name::from_str(&format!("v{ty}.{j}")), ty, data: cx.rng.bytes(n) });
            }
        }
        let n = (16344 * cx.rng.range(1, 4) as usize + cx.rng.idx(5)).saturating_sub(2);
        let ty = *cx.rng.pick(&[1u32, 2, 3, 7]);
        let mut u = rand_text_units(&mut cx.rng, n / 2);
        if ty == 7 {
            for _ in 0..cx.rng.idx(20) {
                let i = cx.rng.idx(u.len());
                u[i] = 0;
            }
        }
        k.values.push(Value { name: Name::latin1(b"big"), ty, data: units_bytes(&u) });
        tree.subkeys.push(k);
        tree.normalize();
    }
    let o = Opts::random(&mut cx.rng);
    let mut b = build(&mut cx.rng, &tree, &o);
    fix_checksum(&mut b.bytes);
    cx.set_hive(&b.bytes, o.describe());
    cx.sample(|| format!("{} keys, {} values, {}", tree.count(), tree.count_values(), o.describe()));
    cx.ev("keys in the files", tree.count() as u64);
    cx.ev("values in the files", tree.count_values() as u64);
    file(cx, &b.bytes, true)
}

fn deep(cx: &mut Cx, case: u64) -> Res {
    let tree = match case % 4 {
        0 => {
            let n = *cx.rng.pick(&[512, 511, 510, 300]);
            chain(&mut cx.rng, n, false)
        }
        1 => {
            let n = cx.rng.range(2, 512) as usize;
            chain(&mut cx.rng, n, true)
        }
        2 => {
            let n = *cx.rng.pick(&[1000usize, 5000, 65535, 70_000]);
            flat(n, |i| format!("key {i}"))
        }
        _ => {
            let mut k = Key::named("root");
            let mut c = Key::named("many values");
            for i in 0..cx.rng.range(1000, 20_000) {
                c.values.push(Value { name: Name::from_str(&format!("{i}")), ty: 4, data: (i as u32).to_le_bytes().to_vec() });
            }
            k.subkeys.push(c);
            k
        }
    };
    let o = Opts::random(&mut cx.rng);
    let b = build(&mut cx.rng, &tree, &o);
    cx.set_hive(&b.bytes, format!("{} keys, depth {}, {}", tree.count(), tree.depth(), o.describe()));
    file(cx, &b.bytes, true)
}

fn bad(cx: &mut Cx, _: u64) -> Res {
    let mut t = options(cx, true);
    t.max_keys = 40;
    let (_, mut b, o) = random_hive(cx, &t);
    let mut d = vec![];
    mutate::random_damage(&mut cx.rng, &mut b, &mut d);
    if b.bytes.len() >= BASE {
        fix_checksum(&mut b.bytes);
    }
    cx.set_hive(&b.bytes, format!("{}; damage: {}", o.describe(), d.join(", ")));
    file(cx, &b.bytes, false)
}

fn one(cx: &mut Cx, _: u64) -> Res {
    let mut t = options(cx, true);
    t.max_keys = 12;
    let (_, mut b, o) = random_hive(cx, &t);
    let fi = cx.rng.idx(b.fields.len());
    let Some(d) = mutate::damage(&mut cx.rng, &mut b, fi) else { return Ok(()) };
    if cx.rng.chance(9, 10) {
        fix_checksum(&mut b.bytes);
    }
    cx.set_hive(&b.bytes, format!("{}; damage: {d}", o.describe()));
    cx.sample(|| d.clone());
    file(cx, &b.bytes, false)
}

fn cycles(cx: &mut Cx, case: u64) -> Res {
    let bytes = match case % 4 {
        0 => {
            let n = cx.rng.log_range(4, 100) as usize;
            let mut b = mutate::soup(&mut cx.rng, n);
            fix_checksum(&mut b);
            b
        }
        1 => {
            // random edges between keys
            let mut raw = Raw::new();
            let n = cx.rng.range(1, 30) as usize;
            let keys: Vec<u32> = (0..n).map(|i| raw.node(format!("k{i}").as_bytes(), NIL, (0, NIL))).collect();
            let back = cx.rng.range(0, 20);
            for i in 0..n {
                let m = cx.rng.range(0, 3) as usize;
                let items: Vec<u32> = (0..m)
                    .map(|_| if i + 1 >= n || cx.rng.below(20) < back { *cx.rng.pick(&keys) } else { keys[i + 1 + cx.rng.idx(n - i - 1)] })
                    .collect();
                if items.is_empty() {
                    continue;
                }
                let l = raw.list(b"lf", &items);
                raw.put32(keys[i], 28, l);
                raw.put32(keys[i], 20, m as u32);
            }
            raw.finish(&mut cx.rng, 5, keys[0])
        }
        2 => {
            let levels = *cx.rng.pick(&[513, 514, 600, 900, 1000, 1900, 60_000]);
            let mut raw = Raw::new();
            let keys: Vec<u32> = (0..=levels).map(|_| raw.node(b"k", NIL, (0, NIL))).collect();
            let loops = cx.rng.chance(1, 2);
            for i in 0..levels {
                let l = raw.list(b"li", &[keys[i + 1]]);
                raw.put32(keys[i], 28, l);
                raw.put32(keys[i], 20, 1);
            }
            if loops {
                let l = raw.list(b"li", &[*cx.rng.pick(&keys)]);
                raw.put32(keys[levels], 28, l);
            }
            raw.finish(&mut cx.rng, 5, keys[0])
        }
        _ => {
            // a wide key that leads back to itself: the number of paths explodes
            let mut raw = Raw::new();
            let root = raw.node(b"r", NIL, (0, NIL));
            let w = cx.rng.range(1, 400) as usize;
            let l = raw.list(b"lh", &vec![root; w]);
            raw.put32(root, 28, l);
            raw.put32(root, 20, w as u32);
            raw.finish(&mut cx.rng, 5, root)
        }
    };
    cx.set_hive(&bytes, format!("graph {}", case % 4));
    file(cx, &bytes, false)
}

fn other(cx: &mut Cx, case: u64) -> Res {
    match case % 8 {
        0 => {
            // the command line
            cx.eval(1);
            let r = run(&[]).map_err(|e| Fault::Skip(e.to_string()))?;
            judge(cx, &r, Expect::Any, "", "no arguments")?;
            for p in ["/nonexistent/hive".into(), scratch().clone(), PathBuf::new()] {
                let r = run(&[p]).map_err(|e| Fault::Skip(e.to_string()))?;
                judge(cx, &r, Expect::Failure, "", "unreadable file")?;
            }
            Ok(())
        }
        1 => {
            let n = cx.rng.log_range(0, 20_000) as usize;
            let mut b = cx.rng.bytes(n);
            if n > 4 && cx.rng.chance(1, 2) {
                b[..4].copy_from_slice(b"regf");
                if n >= 512 {
                    fix_checksum(&mut b);
                }
            }
            cx.set_hive(&b, "random file");
            file(cx, &b, false)
        }
        2 if testhive().len() > 8192 => file(cx, testhive(), true),
        3 | 4 if testhive().len() > 8192 => {
            let mut b = testhive().to_vec();
            for _ in 0..cx.rng.log_range(1, 100) {
                let at = BASE + cx.rng.idx((b.len() - BASE).min(20_000));
                b[at] ^= 1 << cx.rng.below(8);
            }
            cx.set_hive(&b, "damaged test hive");
            file(cx, &b, false)
        }
        5 => {
            // header fields
            let (_, mut b, _) = random_hive(cx, &TreeOpts { typed: true, max_keys: 4, ..TreeOpts::default() });
            let p = *cx.rng.pick(&[0usize, 4, 8, 20, 24, 28, 32, 36, 40, 44, 508, 12, 48, 300]);
            let v = *cx.rng.pick(&[0u32, 1, 2, 3, 32, 0x1000, 0xffff_ffff, 0x8000_0000]);
            set(&mut b.bytes, p, 4, v as u64);
            if cx.rng.chance(2, 3) {
                fix_checksum(&mut b.bytes);
            }
            cx.set_hive(&b.bytes, format!("header field {p} := {v:#x}"));
            file(cx, &b.bytes, false)
        }
        6 => {
            let (_, b, _) = random_hive(cx, &TreeOpts { typed: true, max_keys: 6, ..TreeOpts::default() });
            let n = cx.rng.idx(b.bytes.len());
            cx.set_hive(&b.bytes[..n], format!("truncated to {n}"));
            file(cx, &b.bytes[..n], false)
        }
        _ => {
            // names that are not text: unpaired surrogates, odd lengths
            let mut raw = Raw::new();
            let mut items = vec![];
            for _ in 0..cx.rng.range(1, 5) {
                let n = cx.rng.idx(9);
                let nm = cx.rng.bytes(n);
                let k = raw.node(&nm, NIL, (0, NIL));
                if cx.rng.chance(1, 2) {
                    raw.put(k, 2, &[0, 0]);
                }
                items.push(k);
            }
            let l = raw.list(b"lh", &items);
            let root = raw.node(b"root", NIL, (0, NIL));
            raw.put32(root, 28, l);
            raw.put32(root, 20, items.len() as u32);
            let bytes = raw.finish(&mut cx.rng, 5, root);
            cx.set_hive(&bytes, "odd names");
            cx.fp(mix(digest(&bytes)));
            file(cx, &bytes, false)
        }
    }
}
