"""The further engines: other builds, interpreters, sanitizers, the fuzzer, the example program."""
import glob, json, os, re, shutil, subprocess, sys, time
import check as C
from check import cargo, env, parallel, NoAnswer, T, CORES, HERE, SCR, hivemon, signal_name

BUDGET = {  # seconds: in-process deadline, engine time
    "quick": {"worker": 150, "miri": 22, "fuzz": 15, "tsan": 15, "native": 4000, "versus": 12, "debug": 60},
    "thorough": {"worker": 420, "miri": 150, "fuzz": 240, "tsan": 120, "native": 60000, "versus": 150, "debug": 150},
}

SANCOV = ("-Zsanitizer=address -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 "
          "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table "
          "-Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Ccodegen-units=1")
LINUX = "x86_64-unknown-linux-gnu"


def matrix(target="matrix", profile="release"):
    return os.path.join(T, target, profile, "hivematrix")


def build_matrix():
    ok, err = cargo("matrix", ["build", "--release"], "matrix")
    if not ok:
        raise NoAnswer("the workload program does not build: " + err)


def need(*results):
    for r in results:
        if isinstance(r, Exception):
            raise r


def pack(run, name, size, a, b):
    f = os.path.join(run.dir, name)
    subprocess.run([matrix(), "pack", size, str(run.seed), str(a), str(b), f], check=True, stdout=subprocess.DEVNULL, timeout=300)
    return f


# ---------------------------------------------------------------- Miri

def miri_setup(target=None):
    """The interpreter's own standard library."""
    cmd = ["miri", "setup"] + (["--target", target] if target else [])
    ok, err = cargo("matrix", cmd, "miri-setup", toolchain="nightly", timeout=400)
    if not ok:
        raise NoAnswer(f"Miri cannot be set up for {target or 'the host'}: {err[-500:]}")
    # the program itself: compiled once, so that the processes started later only run it
    e = env(CARGO_TARGET_DIR=os.path.join(T, f"miri-{target or 'host'}"), **miri_flags(target, ""))
    p = subprocess.run(miri_args(target, ["nothing"]), cwd=os.path.join(HERE, "matrix"), env=e, timeout=500,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0 or "done" not in p.stdout:
        raise NoAnswer(f"the program does not run under Miri ({target or 'host'}): {p.stderr[-400:]}")
    return True


def miri_flags(target, flags):
    """Other targets are interpreted for their results only, as fast as possible."""
    if not target:
        return {"MIRIFLAGS": f"-Zmiri-disable-isolation {flags}".strip()}
    opt = "-Zmir-opt-level=4 -Zinline-mir=yes"
    quick = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-disable-weak-memory-emulation"
    return {"MIRIFLAGS": f"-Zmiri-disable-isolation {opt} {quick} {flags}".strip(), "RUSTFLAGS": opt}


def miri_args(target, cmdargs):
    a = ["cargo", "+nightly", "miri", "run", "-q"]
    if target:
        a += ["--target", target]
    return a + ["--"] + cmdargs


def miri(run, what, target, size, flags="", base=0, procs=CORES):
    """Several interpreter processes, each with its own cases. Returns {case: line} and the faults."""
    secs = BUDGET[run.tier]["miri"]
    per = 200 if run.tier == "quick" else 2000
    name = f"miri-{target or 'host'}"
    tdir = os.path.join(T, name)
    def one(w):
        lo = base + w * per
        f = pack(run, f"{name}.{what}.{w}", size, lo, lo + per)
        en = env(CARGO_TARGET_DIR=tdir,
                 **miri_flags(target, f"-Zmiri-seed={run.seed * 100 + w} {flags}"))
        p = subprocess.run(miri_args(target, [what, f, "0", "1", str(secs)]), cwd=os.path.join(HERE, "matrix"), env=en,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs * 4 + 240)
        return w, lo, p
    lines, faults, ran = {}, [], 0
    for r in parallel([lambda w=w: one(w) for w in range(procs)]):
        if isinstance(r, Exception):
            run.note(f"{name}: {r}")
            continue
        w, lo, p = r
        ran += 1
        last = lo - 1
        for l in p.stdout.splitlines():
            m = re.match(r"(\d+) (.*)", l)
            if m:
                lines[int(m.group(1))] = m.group(2)
                last = int(m.group(1))
        if "done" not in p.stdout.splitlines():
            if "Undefined Behavior" in p.stderr:
                faults.append((last + 1, ub_text(p.stderr), what))
            elif "memory leaked" in p.stderr:
                run.note(f"{name}: leak report in case {last + 1}")
            else:
                run.note(f"{name}: process {w} ended early ({p.returncode}): {p.stderr[-300:]}")
    return lines, faults, ran


def ub_text(err):
    m = re.search(r"error: (Undefined Behavior.*?)(?:\n\n|\Z)", err, re.S)
    t = m.group(1) if m else err[-800:]
    return " ".join(l.strip() for l in t.splitlines())[:900]


# ---------------------------------------------------------------- C01

def build_fuzz():
    ok, err = cargo("fuzz", ["build", "--release", "--target", LINUX], "fuzz", toolchain="nightly", RUSTFLAGS=SANCOV)
    if not ok:
        raise NoAnswer("the fuzz target does not build: " + err)


def fuzz(run):
    secs = BUDGET[run.tier]["fuzz"]
    exe = os.path.join(T, "fuzz", LINUX, "release/hive")
    corpus = os.path.join(run.dir, "corpus")
    os.makedirs(corpus)
    subprocess.run([matrix(), "corpus", "tiny", str(run.seed), "0", "240", corpus], check=True, stdout=subprocess.DEVNULL, timeout=200)
    real = "/repo/testdata/testhive"
    if os.path.exists(real):
        with open(os.path.join(corpus, "real"), "wb") as o:
            o.write(b"\0" + open(real, "rb").read())

    def one(w):
        own = os.path.join(run.dir, f"found{w}")
        os.makedirs(own)
        p = subprocess.run([exe, own, corpus, f"-max_total_time={secs}", f"-seed={run.seed * 1000 + w + 1}", "-max_len=24000",
                            "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", f"-artifact_prefix={run.dir}/art{w}-"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 300, env=env())
        return w, p, len(os.listdir(own))
    execs = found = 0
    cov = 0
    for r in parallel([lambda w=w: one(w) for w in range(CORES)]):
        if isinstance(r, Exception):
            run.note(f"fuzzer: {r}")
            continue
        w, p, n = r
        found += n
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", p.stdout)
        execs += int(m.group(1)) if m else 0
        m = re.findall(r"cov: (\d+)", p.stdout)
        cov = max(cov, int(m[-1]) if m else 0)
        if p.returncode != 0:
            arts = glob.glob(f"{run.dir}/art{w}-*")
            kind = os.path.basename(arts[0]).split("-")[1] if arts else "?"
            text = ""
            for pat in (r"(FAULT .*)", r"panicked at (.*\n.*)", r"(ERROR: AddressSanitizer.*)", r"(ERROR: libFuzzer.*)"):
                m = re.search(pat, p.stdout)
                if m:
                    text = m.group(1).replace("\n", " ")
                    break
            if kind == "crash" and text:
                run.violation(f"fuzzing: {text}", {"engine": "fuzz", "cmd": [exe] + arts}, arts)
            else:
                run.note(f"fuzzer {w} stopped: {kind} {text or p.stdout[-200:]}")
    run.engines["libFuzzer with AddressSanitizer"] = {"processes": CORES, "executions": execs, "inputs kept": found,
                                                     "coverage counters": cov, "seconds": secs}
    run.evals += execs


def exercise_miri(run):
    lines, faults, procs = miri(run, "exercise", None, "tiny", "-Zmiri-backtrace=0")
    report(run, "Miri", lines, faults, "exercise", None)
    tally = {}
    for l in lines.values():
        for k, v in re.findall(r"(?=(calls|errors|keys|values|bytes) (\d+))", l):
            tally[k] = tally.get(k, 0) + int(v)
    run.engines["Miri, every public call"] = {"processes": procs, "cases": len(lines), **tally}
    run.evals += len(lines)


def report(run, engine, lines, faults, what, target):
    for n, t, _ in faults:
        run.violation(f"{engine}: {t} (case {n})", {"engine": "miri", "what": what, "target": target, "case": n, "size": "tiny"})
    for n, l in lines.items():
        if l.startswith("FAULT"):
            run.violation(f"{engine}: {l} (case {n})", {"engine": "miri", "what": what, "target": target, "case": n, "size": "tiny"})


def guarded(run, name, f):
    """An engine that cannot give an answer is noted; it is no violation."""
    try:
        f()
    except (NoAnswer, subprocess.TimeoutExpired, subprocess.CalledProcessError, OSError) as x:
        run.note(f"{name}: {x}")
        run.engines[name] = {"no answer": str(x)[:300]}


def c01(run):
    r = parallel([C.build_hivemon, build_matrix, build_fuzz, miri_setup, C.build_debug])
    need(*r[:2])
    C.in_process(run, BUDGET[run.tier]["worker"])
    if isinstance(r[4], Exception):
        run.note(f"unoptimised build: {r[4]}")
    else:
        guarded(run, "in-process monitors without optimisation", lambda: C.in_process(run, BUDGET[run.tier]["debug"], debug=20))
    for ok, name, f in ((r[2], "libFuzzer with AddressSanitizer", fuzz), (r[3], "Miri, every public call", exercise_miri)):
        if isinstance(ok, Exception):
            run.note(f"{name}: {ok}")
            run.engines[name] = {"no answer": str(ok)[:300]}
        else:
            guarded(run, name, lambda f=f: f(run))


# ---------------------------------------------------------------- C17

def build_probe():
    return cargo("probe", ["check"], "probe")


def build_tsan():
    ok, err = cargo("matrix", ["build", "--release", "-Zbuild-std", "--target", LINUX], "tsan", toolchain="nightly",
                    RUSTFLAGS="-Zsanitizer=thread")
    if not ok:
        raise NoAnswer("no ThreadSanitizer build: " + err[-600:])


def tsan(run):
    secs = BUDGET[run.tier]["tsan"]
    exe = os.path.join(T, "tsan", LINUX, "release/hivematrix")
    per = 400 if run.tier == "quick" else 4000

    def one(w):
        lo = 100_000 + w * per
        f = pack(run, f"tsan.{w}", "tiny" if w % 2 else "normal", lo, lo + per)
        p = subprocess.run([exe, "threads", f, "0", "1", str(secs)], env=env(TSAN_OPTIONS="halt_on_error=1 exitcode=66 history_size=4"),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs * 4 + 200)
        return w, lo, p
    n = answers = yields = 0
    for r in parallel([lambda w=w: one(w) for w in range(CORES)]):
        if isinstance(r, Exception):
            run.note(f"ThreadSanitizer: {r}")
            continue
        w, lo, p = r
        last = lo - 1
        for l in p.stdout.splitlines():
            m = re.match(r"(\d+) (.*)", l)
            if not m:
                continue
            last = int(m.group(1))
            n += 1
            rep = {"engine": "tsan", "case": last, "size": "tiny" if w % 2 else "normal"}
            if m.group(2).startswith("FAULT"):
                run.violation(f"threads: {l}", rep)
            k = re.match(r"answers (\d+)(?: yields (\d+))?", m.group(2))
            if k:
                answers += int(k.group(1))
                yields += int(k.group(2) or 0)
        if p.returncode == 66 or "WARNING: ThreadSanitizer: data race" in p.stderr:
            m = re.search(r"WARNING: ThreadSanitizer: .*?(?=\n\n\n|\Z)", p.stderr, re.S)
            t = " ".join((m.group(0) if m else p.stderr)[:1500].split())
            run.violation(f"ThreadSanitizer: {t}", {"engine": "tsan", "case": last + 1, "size": "tiny" if w % 2 else "normal"})
        elif p.returncode != 0:
            run.note(f"ThreadSanitizer process {w} ended with {p.returncode}: {p.stderr[-300:]}")
    run.engines["ThreadSanitizer, three threads on one hive"] = {"cases": n, "answers compared": answers, "yields": yields}
    run.evals += n


def threads_miri(run):
    lines, faults, procs = miri(run, "threads", None, "tiny", "-Zmiri-preemption-rate=0.05 -Zmiri-backtrace=0", base=50_000)
    report(run, "Miri threads", lines, faults, "threads", None)
    run.engines["Miri, three threads on one hive"] = {"processes": procs, "cases": len(lines), "schedules (seeds)": procs}
    run.evals += len(lines)


def c17(run):
    r = parallel([C.build_hivemon, build_matrix, build_probe, build_tsan, miri_setup])
    need(*r[:2])
    if isinstance(r[2], Exception):
        run.note(f"probe: {r[2]}")
    else:
        ok, err = r[2]
        run.engines["compile-time probe"] = {"Send and Sync": ok}
        if not ok and re.search(r"E0277", err) and re.search(r"between threads safely|`Sync`|`Send`", err):
            run.violation("a handle of the library is no longer Send and Sync: " + err[:500], {"engine": "probe", "cmd": ["cargo", "check"]})
        elif not ok:
            run.note("probe: " + err[:400])
    C.in_process(run, BUDGET[run.tier]["worker"])
    for ok, name, f in ((r[3], "ThreadSanitizer, three threads on one hive", tsan), (r[4], "Miri, three threads on one hive", threads_miri)):
        if isinstance(ok, Exception):
            run.note(f"{name}: {ok}")
            run.engines[name] = {"no answer": str(ok)[:300]}
        else:
            guarded(run, name, lambda f=f: f(run))


# ---------------------------------------------------------------- C18

BUILDS = [  # name, cargo arguments, target dir, profile, has alloc
    ("debug build", ["build"], "matrix-debug", "debug", True),
    ("release build without core's std", ["build", "--release", "--no-default-features"], "matrix-core", "release", False),
    ("debug build with alloc only", ["build", "--no-default-features", "--features", "alloc"], "matrix-alloc", "debug", True),
]
FOREIGN = [("s390x-unknown-linux-gnu", "big-endian, 64 bits"), ("i686-unknown-linux-gnu", "little-endian, 32 bits"),
           ("x86_64-pc-windows-gnu", "Windows")]
MORE_FOREIGN = [("powerpc-unknown-linux-gnu", "big-endian, 32 bits"), ("aarch64-apple-darwin", "Darwin")]


def transcript(run, exe, f, what="digest"):
    def one(w):
        return subprocess.run([exe, what, f, str(w), str(CORES)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              errors="replace", timeout=400, env=env())
    lines = {}
    for r in parallel([lambda w=w: one(w) for w in range(CORES)]):
        if isinstance(r, Exception):
            raise NoAnswer(f"{exe}: {r}")
        last = None
        for l in r.stdout.splitlines():
            m = re.match(r"(\d+) (.*)", l)
            if m:
                last = int(m.group(1))
                lines[last] = m.group(2)
        if "done" not in r.stdout.splitlines():
            lines[-1 - (last or 0)] = f"ended with {signal_name(r.returncode)} after case {last}"
    return lines


def split(l):
    return l.split()[:2], l.split()[2:]


def compare(run, name, base, got, alloc, size, rep):
    """Cases whose answers differ from the reference build's."""
    bad = []
    for n, l in got.items():
        if n < 0:
            bad.append((n, l))
            continue
        if n not in base:
            continue
        (c, a), (c2, a2) = split(base[n]), split(l)
        if c != c2 or (alloc and a != a2):
            bad.append((n, f"case {n}: the answers differ from the release build's"))
    for n, l in bad[:2]:
        run.violation(f"{name}: {l}{pinpoint(run, n, size, rep)}", dict(rep, case=n, size=size))
    return len([n for n in got if n >= 0])


def pinpoint(run, n, size, rep):
    """Which questions got another answer."""
    if n < 0:
        return ""
    try:
        f = pack(run, "pin", size, n, n + 1)
        a = subprocess.run([matrix(), "detail", f, "0", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=100).stdout.splitlines()
        if "exe" in rep:
            b = subprocess.run([rep["exe"], "detail", f, "0", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=100).stdout.splitlines()
        else:
            e = env(CARGO_TARGET_DIR=os.path.join(T, f"miri-{rep['target'] or 'host'}"), **miri_flags(rep["target"], ""))
            b = subprocess.run(miri_args(rep["target"], ["detail", f, "0", "1"]), cwd=os.path.join(HERE, "matrix"), env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300).stdout.splitlines()
        d = [x for x in a if x not in set(b) and not x.startswith("case")]
        w = [x for x in a if x.startswith("case")]
        return ": " + " ".join(w)[:300] + " " + "; ".join(x.split(" ", 1)[-1] for x in d[:4])[:500]
    except Exception as x:
        return f" ({x})"


def build_bare():
    """Neither std nor libc nor an allocator."""
    return cargo("bare", ["build", "--release"], "bare")


def build_bare32():
    """32 bits, with an allocator of its own."""
    return cargo("bare", ["build", "--release", "--features", "alloc", "-Zbuild-std=core,alloc",
                          "-Zbuild-std-features=compiler-builtins-mem", "--target", "i686-unknown-linux-gnu"], "bare32", toolchain="nightly")


def vendor():
    """The crates needed and those the standard library's lock file names for WebAssembly, as one directory:
    cargo wants to see the latter, though nothing uses them."""
    lock = open(os.path.join(HERE, "bare", "Cargo.lock")).read()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    to = os.path.join(SCR, "vendor")
    os.makedirs(to, exist_ok=True)
    for d in glob.glob(os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor/*")):
        l = os.path.join(to, os.path.basename(d))
        if not os.path.exists(l):
            os.symlink(d, l)
    for n, v, c in re.findall(r'\[\[package\]\]\nname = "(.*?)"\nversion = "(.*?)"\nsource = ".*?"\nchecksum = "(.*?)"', lock):
        l = os.path.join(to, f"{n}-{v}")
        src = glob.glob(os.path.join(home, f"registry/src/*/{n}-{v}"))
        if not os.path.exists(l) and src:
            tmp = f"{l}.{os.getpid()}"
            shutil.copytree(src[0], tmp)
            with open(os.path.join(tmp, ".cargo-checksum.json"), "w") as o:
                json.dump({"files": {}, "package": c}, o)
            os.rename(tmp, l)
    return to


def build_wasm():
    """WebAssembly, run by Node."""
    return cargo("bare", ["build", "--release", "--features", "alloc", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem",
                          "--target", "wasm32-unknown-unknown", "--config", 'source.crates-io.replace-with="vend"',
                          "--config", f'source.vend.directory="{vendor()}"'], "wasm", toolchain="nightly")


def versus(run, name, exe, mode, secs):
    """Another build reads the same hives at the same time: its observations must be the same."""
    def one(w):
        return subprocess.run([matrix(), "versus", exe, mode, str(run.seed), str(w), str(CORES), str(secs)], env=env(),
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs * 3 + 120)
    hives = seen = 0
    for w, p in enumerate(parallel([lambda w=w: one(w) for w in range(CORES)])):
        if isinstance(p, Exception):
            run.note(f"{name}: {p}")
            continue
        m = re.search(r"hives (\d+) observations (\d+)", p.stdout)
        if not m:
            run.note(f"{name}: ended with {p.returncode}: {p.stderr[-300:]}")
            continue
        hives += int(m.group(1))
        seen += int(m.group(2))
        for l in p.stdout.splitlines():
            if l.startswith("FAULT"):
                run.violation(f"{name}: {l}", {"engine": "versus", "exe": exe, "mode": mode, "text": l})
    run.engines[name] = {"processes": CORES, "hives compared": hives, "observations compared": seen, "seconds": secs}
    run.evals += hives


def run_bare(run, name, built, exe, mode, secs):
    if isinstance(built, Exception) or not built[0]:
        err = str(built) if isinstance(built, Exception) else built[1]
        run.engines[name] = {"no answer": err[:300]}
        if mode == "core" and re.search(r"no global memory allocator|undefined (symbol|reference)[^\n]*(__rust_|_rdl_|malloc)|can't find crate for `std`", err):
            run.violation("a program without an allocator can no longer use the library: " + err[:400], {"engine": "bare"})
        else:
            run.note(f"{name}: {err[:400]}")
        return
    try:
        subprocess.run([exe], stdin=subprocess.DEVNULL, check=True, timeout=60)
    except (OSError, subprocess.SubprocessError) as x:
        run.note(f"{name} cannot run here: {x}")
        run.engines[name] = {"no answer": str(x)[:300]}
        return
    guarded(run, name, lambda: versus(run, name, exe, mode, secs))


def foreign(run, target, what):
    lines, faults, procs = miri(run, "digest", target, "tiny", "-Zmiri-backtrace=0", procs=max(1, CORES // 2) if target.startswith("s390x") else max(1, CORES // 4))
    name = f"Miri, {target} ({what})"
    for n, t, _ in faults:
        run.violation(f"{name}: {t} (case {n})", {"engine": "miri", "what": "digest", "target": target, "case": n, "size": "tiny"})
    base = {}
    if lines:
        f = pack(run, f"ref-{target}", "tiny", 0, (200 if run.tier == "quick" else 2000) * CORES)
        base = transcript(run, matrix(), f)
    k = compare(run, name, base, lines, True, "tiny", {"engine": "miri", "what": "digest", "target": target})
    run.engines[name] = {"processes": procs, "cases compared": k,
                         "answers compared": sum(int(split(l)[0][0]) + int(split(l)[1][0]) for n, l in lines.items() if n >= 0)}
    run.evals += k


def c18(run):
    jobs = [C.build_hivemon, build_matrix]
    jobs += [lambda b=b: cargo("matrix", b[1], b[2]) for b in BUILDS]
    jobs += [build_bare, build_bare32, build_wasm]
    jobs += [lambda: cargo("/repo", ["build", "--no-default-features"], "repo-core"),
             lambda: cargo("/repo", ["build", "--no-default-features", "--features", "alloc"], "repo-alloc")]
    targets = FOREIGN + (MORE_FOREIGN if run.tier != "quick" else [])
    jobs += [lambda t=t: miri_setup(t) for t, _ in targets]
    r = parallel(jobs)
    for k, what in ((len(BUILDS) + 5, "without features"), (len(BUILDS) + 6, "with alloc only")):
        if not isinstance(r[k], Exception):
            ok, err = r[k]
            run.engines[f"library built {what}"] = {"builds": ok}
            if not ok and re.search(r"error(\[E|:)", err):
                run.violation(f"the library does not build {what}: {err[:400]}", {"engine": "build", "what": what})
        else:
            run.note(f"build {what}: {r[k]}")
    if run.violations:
        return
    need(*r[:2])
    C.in_process(run, BUDGET[run.tier]["worker"])
    for size, cases in (("normal", BUDGET[run.tier]["native"]), ("tiny", BUDGET[run.tier]["native"])):
        f = pack(run, f"native.{size}", size, 0, cases)
        base = transcript(run, matrix(), f)
        for n, l in base.items():
            if n < 0:
                run.violation(f"release build: {l}", {"engine": "matrix", "exe": matrix(), "case": n, "size": size})
        if not run.samples:
            run.samples.append(f"{size} case {next(iter(base))}: {next(iter(base.values()))}")
        for i, (name, _, target, profile, alloc) in enumerate(BUILDS):
            b = r[2 + i]
            if isinstance(b, Exception) or not b[0]:
                run.note(f"{name}: {b if isinstance(b, Exception) else b[1][:500]}")
                continue
            exe = matrix(target, profile)
            got = transcript(run, exe, f)
            k = compare(run, name, base, got, alloc, size, {"engine": "matrix", "exe": exe})
            e = run.engines.setdefault(name, {"cases compared": 0, "answers compared": 0})
            e["cases compared"] += k
            e["answers compared"] += sum(int(split(l)[0][0]) + (int(split(l)[1][0]) if alloc else 0) for n, l in got.items() if n >= 0)
            run.evals += k
        os.remove(f)
    nb = 2 + len(BUILDS)
    secs = BUDGET[run.tier]["versus"]
    run_bare(run, "program without std, libc and allocator", r[nb], os.path.join(T, "bare/release/hivebare"), "core", secs // 2)
    run_bare(run, "32-bit program with its own allocator", r[nb + 1], os.path.join(T, "bare32/i686-unknown-linux-gnu/release/hivebare"), "owned", secs)
    os.environ["HIVEBARE_WASM"] = os.path.join(T, "wasm/wasm32-unknown-unknown/release/hivebare.wasm")
    run_bare(run, "WebAssembly under Node", r[nb + 2], os.path.join(HERE, "bare/wasm.js"), "owned", secs)
    def other(i):
        t, what = targets[i]
        ok = r[len(jobs) - len(targets) + i]
        if isinstance(ok, Exception):
            run.note(f"{t}: {ok}")
            run.engines[f"Miri, {t}"] = {"no answer": str(ok)[:300]}
        else:
            guarded(run, f"Miri, {t}", lambda: foreign(run, t, what))
    for x in parallel([lambda i=i: other(i) for i in range(len(targets))]):
        need(x)


# ---------------------------------------------------------------- C20

def build_readhive():
    # as a user builds it; in our own directory
    ok, err = cargo("/repo", ["build", "--example", "readhive"], "readhive")
    if not ok:
        raise NoAnswer("readhive does not build: " + err)


def c20(run):
    need(*parallel([C.build_hivemon, build_readhive]))
    scratch = os.path.join(run.dir, "files")
    os.makedirs(scratch)
    C.in_process(run, BUDGET[run.tier]["worker"], {
        "HIVEMON_READHIVE": os.path.join(T, "readhive/debug/examples/readhive"), "HIVEMON_SCRATCH": scratch})


# ---------------------------------------------------------------- all

def plain(run):
    C.build_hivemon()
    C.in_process(run, BUDGET[run.tier]["worker"] if run.tier == "quick" else 800)


SPECIAL = {"C01": c01, "C17": c17, "C18": c18, "C20": c20}


def check(run):
    SPECIAL.get(run.pid, plain)(run)


def setup():
    os.makedirs(SCR, exist_ok=True)
    jobs = [("monitors", C.build_hivemon), ("unoptimised monitors", C.build_debug), ("workload program", build_matrix), ("fuzz target", build_fuzz), ("readhive", build_readhive),
            ("ThreadSanitizer build", build_tsan), ("probe", build_probe), ("bare program", build_bare), ("32-bit program", build_bare32), ("WebAssembly program", build_wasm), ("Miri", miri_setup)]
    jobs += [(f"Miri {t}", lambda t=t: miri_setup(t)) for t, _ in FOREIGN]
    jobs += [(n, lambda a=a, t=t: cargo("matrix", a, t)) for n, a, t, _, _ in BUILDS]
    bad = 0
    for (name, _), r in zip(jobs, parallel([f for _, f in jobs])):
        fail = isinstance(r, Exception) or (isinstance(r, tuple) and not r[0])
        print(f"{name}: {'failed: ' + str(r)[:500] if fail else 'built'}")
        bad += fail and name == "monitors"
    return 1 if bad else 0


def replay(path):
    d = json.load(open(path))
    print(d["text"][:1500])
    os.environ["HIVE_DICT"] = d.get("dict", "")
    if d["engine"] == "hivemon":
        debug = "/debug/" in d["cmd"][0]
        (C.build_debug if debug else C.build_hivemon)()
        if d["property"] == "C20":
            build_readhive()
        out = os.path.join(SCR, "replay.out")
        cmd = [x for x in d["cmd"]]
        cmd[0] = hivemon("debug" if debug else "release")
        cmd[cmd.index("--out") + 1] = out
        for k in ("--start-phase", "--start-case"):
            if k in cmd:
                i = cmd.index(k)
                del cmd[i:i + 2]
        e = env(HIVEMON_READHIVE=os.path.join(T, "readhive/debug/examples/readhive"), HIVEMON_SCRATCH=SCR)
        r = subprocess.run(cmd + ["--only", d["only"]], env=e).returncode
        print("the case alone:", "held" if r == 0 else f"exit {r}", "| the whole worker again:", " ".join(cmd))
        return 1 if r else 0
    if d["engine"] == "fuzz":
        build_fuzz()
        return subprocess.run([os.path.join(T, "fuzz", LINUX, "release/hive")] + d["files"], env=env()).returncode
    if d["engine"] in ("miri", "tsan", "matrix", "bare"):
        build_matrix()
        f = os.path.join(SCR, "replay.pack")
        n = d["case"]
        subprocess.run([matrix(), "pack", d["size"], str(d["seed"]), str(n), str(n + 1), f], check=True)
        if d["engine"] == "miri":
            e = env(CARGO_TARGET_DIR=os.path.join(T, "miri-replay"), MIRIFLAGS="-Zmiri-disable-isolation")
            return subprocess.run(miri_args(d["target"], [d["what"], f, "0", "1"]), cwd=os.path.join(HERE, "matrix"), env=e).returncode
        if d["engine"] == "tsan":
            build_tsan()
            return subprocess.run([os.path.join(T, "tsan", LINUX, "release/hivematrix"), "threads", f, "0", "1"], env=env()).returncode
        for exe in (matrix(), d.get("exe")):  # compare the two lines
            if exe:
                subprocess.run([exe, "digest", f, "0", "1"], env=env())
        return 0
    print("engine", d["engine"], "- run the check again")
    return 0
