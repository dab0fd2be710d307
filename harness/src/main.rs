//! Worker of the runtime monitors: runs the cases of one check against the real library and
//! reports what its oracles observed. `check.py` starts several of these and watches them.
mod alloc_count;
mod checks;
mod cx;

use cx::{Check, Cx};
use hivecore::obs::{self, Fault};
use hivecore::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc_count::Counting = alloc_count::Counting;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|v| v.parse().unwrap()).unwrap_or(d)
    }
}

fn map_status(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(4096).unwrap();
    // SAFETY: a fresh shared mapping of a file of that length, kept for the life of the process.
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        obs::STATUS.store(p as *mut u8, std::sync::atomic::Ordering::Relaxed);
    }
}

fn note_case(phase: u64, case: u64) {
    let p = obs::STATUS.load(std::sync::atomic::Ordering::Relaxed);
    if !p.is_null() {
        // SAFETY: mapped above, 8-aligned.
        unsafe {
            (p.add(64) as *mut u64).write_volatile(phase);
            (p.add(72) as *mut u64).write_volatile(case);
        }
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut a = Args(BTreeMap::new());
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        a.0.insert(k, v);
    }
    hivecore::dict::load_env();
    match cmd.as_str() {
        "run" => std::process::exit(run(&a)),
        "list" => {
            for c in checks::all() {
                println!("{}", c.id);
                for p in c.phases {
                    println!("  {} {} {}", p.name, p.quick, p.thorough);
                }
            }
        }
        "rule" => {
            let id = a.get("check").unwrap().to_string();
            println!("{}", checks::all().iter().find(|c| c.id == id).unwrap().rule);
        }
        _ => {
            eprintln!("usage: hivemon run --check ID --tier quick|thorough --seed N --worker K --of N --out FILE [--only PHASE:CASE]");
            std::process::exit(2)
        }
    }
}

fn run(a: &Args) -> i32 {
    let id = a.get("check").unwrap();
    let all = checks::all();
    let check: &Check = all.iter().find(|c| c.id == id).expect("unknown check");
    let thorough = a.get("tier") == Some("thorough");
    let seed = a.num("seed", 1);
    let (worker, of) = (a.num("worker", 0), a.num("of", 1));
    let deadline = Duration::from_secs(a.num("deadline", 3600));
    let out = a.get("out").map(|s| s.to_string());
    let start_phase = a.num("start-phase", 0);
    let start_case = a.num("start-case", 0);
    let scale = a.num("scale", 1);
    // slower builds take one in so many cases
    let part = a.num("part", 1).max(1);
    // texts of recorded findings, one per line
    let known: Vec<&str> = a.get("known").unwrap_or("").lines().filter(|k| !k.is_empty()).collect();
    let only: Option<(u64, u64)> = a.get("only").map(|s| {
        let (p, c) = s.split_once(':').unwrap();
        (p.parse().unwrap(), c.parse().unwrap())
    });
    if let Some(o) = &out {
        map_status(&format!("{o}.status"));
    }
    obs::install_hook();
    let t0 = Instant::now();
    let mut cx = Cx {
        rng: Rng::new(0),
        thorough,
        seed,
        evals: 0,
        fps: HashSet::new(),
        events: BTreeMap::new(),
        samples: vec![],
        hive: None,
        note: String::new(),
    };
    let mut violations: Vec<(u64, u64, String)> = vec![];
    let mut skipped: BTreeMap<String, u64> = BTreeMap::new();
    let mut done: Vec<(u64, u64)> = vec![];
    let mut complete = true;
    // an eighth of every phase in turn, so that a run that ends early has seen something of each
    let sizes: Vec<u64> = check.phases.iter().map(|ph| if thorough { ph.thorough } else { (ph.quick * scale).min(ph.thorough) }.div_ceil(part)).collect();
    done.extend(sizes.iter().map(|n| (0, *n)));
    const ROUNDS: u64 = 8;
    let blocks = (0..ROUNDS).flat_map(|r| sizes.iter().enumerate().map(move |(pi, n)| (pi as u64, n * r / ROUNDS, n * (r + 1) / ROUNDS)));
    let mut resumed = (start_phase, start_case) == (0, 0);
    'phases: for (pi, from, to) in blocks {
        let ph = &check.phases[pi as usize];
        let from = match resumed {
            true => from,
            false if pi == start_phase && (from..=to).contains(&start_case) => {
                resumed = true;
                start_case
            }
            false => continue,
        };
        for case in from..to {
            if let Some((p, c)) = only {
                if (p, c) != (pi, case) {
                    continue;
                }
            } else if case % of != worker {
                continue;
            }
            if t0.elapsed() > deadline {
                complete = false;
                break 'phases;
            }
            cx.rng = Rng::derive(seed, id, pi + 1, case);
            hivecore::dict::refocus(&mut cx.rng);
            cx.hive = None;
            cx.note.clear();
            note_case(pi, case);
            let r = (ph.f)(&mut cx, case);
            done[pi as usize].0 += 1;
            match r {
                Ok(()) => (),
                Err(Fault::Skip(s)) => {
                    if only.is_some() {
                        println!("skipped: {s}");
                    }
                    let mut k: String = s.chars().take(60).collect();
                    k.retain(|c| !c.is_ascii_digit());
                    *skipped.entry(k).or_insert(0) += 1;
                }
                Err(f) if known.iter().any(|k| f.text().contains(k)) => {
                    let k = known.iter().find(|k| f.text().contains(**k)).unwrap();
                    cx.ev(&format!("known finding met: {k}"), 1);
                    if only.is_some() {
                        println!("known finding: {}", f.text());
                    }
                }
                Err(f) => {
                    let mut text = f.text();
                    if !cx.note.is_empty() {
                        let note: String = cx.note.chars().take(1500).collect();
                        text = format!("{text} [{note}]");
                    }
                    if only.is_some() {
                        println!("VIOLATED {} case {case}: {text}", ph.name);
                    }
                    if let (Some(o), Some(h)) = (&out, &cx.hive) {
                        if violations.len() < 3 {
                            let _ = std::fs::write(format!("{o}.{pi}.{case}.hive"), h);
                        }
                    }
                    violations.push((pi, case, text));
                    if violations.len() >= 6 {
                        complete = false;
                        break 'phases;
                    }
                }
            }
        }
    }
    if let Some(o) = &out {
        let mut s = String::from("{");
        let _ = write!(s, "\"evals\":{},\"complete\":{},\"calls\":{},", cx.evals, complete, obs::total_calls());
        let _ = write!(s, "\"phases\":[");
        for (i, (r, n)) in done.iter().enumerate() {
            let _ = write!(s, "{}[{},{},{}]", if i > 0 { "," } else { "" }, json_str(check.phases[i].name), r, n);
        }
        let _ = write!(s, "],\"events\":{{");
        for (i, (k, v)) in cx.events.iter().enumerate() {
            let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
        }
        let _ = write!(s, "}},\"skipped\":{{");
        for (i, (k, v)) in skipped.iter().enumerate() {
            let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
        }
        let _ = write!(s, "}},\"samples\":[");
        for (i, v) in cx.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json_str(v));
        }
        let _ = write!(s, "],\"violations\":[");
        for (i, (p, c, t)) in violations.iter().enumerate() {
            let _ = write!(
                s,
                "{}{{\"phase\":{},\"phase_name\":{},\"case\":{},\"text\":{}}}",
                if i > 0 { "," } else { "" },
                p,
                json_str(check.phases[*p as usize].name),
                c,
                json_str(t)
            );
        }
        s.push_str("]}");
        let mut fps = Vec::with_capacity(cx.fps.len() * 8);
        for f in &cx.fps {
            fps.extend_from_slice(&f.to_le_bytes());
        }
        std::fs::write(format!("{o}.fps"), fps).unwrap();
        std::fs::File::create(o).unwrap().write_all(s.as_bytes()).unwrap();
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
