#!/usr/bin/env python3
"""Runs the check of one property: `check.py C07 [quick|thorough]`, `check.py setup`,
`check.py replay FILE`.

Builds the monitors against /repo's working tree, starts the workers, watches them from outside
(crashes, calls that do not return), runs the further engines of the property (sanitizers,
interpreters, other builds) and writes evidence/<id>.json.
Exit 0: held; 1: violated (with a VIOLATION line); 2: no answer."""
import array, glob, json, mmap, os, re, shutil, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SCR = os.path.join(HERE, "scratch")
T = os.path.join(SCR, "target")
sys.path.insert(0, HERE)

T0 = time.time()
HANG_CPU = 30.0   # one call
CORES = max(1, min(8, os.cpu_count() or 1))


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "MIRIFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["XDG_CACHE_HOME"] = os.path.join(SCR, "cache")
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def unescape(s):
    """The text of a Rust string literal without its quotes."""
    simple = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}
    def one(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "u":
            try:
                return chr(int(x[2:-1].replace("_", ""), 16))
            except ValueError:
                return ""
        return simple.get(x, x)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, s)


def dictionary():
    """Words and numbers in the program's text, which the generators mix into names, texts, sizes and counts."""
    ints, words = set(), set()
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        text = open(f, encoding="utf-8", errors="replace").read()
        text = re.split(r"^#\[cfg\(test\)\]\s*\n(?:pub )?mod ", text, flags=re.M)[0]
        lines = [re.sub(r"//.*", "", l) for l in text.split("\n") if not re.match(r"\s*(//|\(0x[0-9a-fA-F]+, 0x|#!?\[)", l)]
        for l in lines:
            for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', l):
                w = unescape(m.group(1))
                if 0 < len(w) <= 64 and "{" not in w and "\ud800" > max(w):
                    words.add(w)
            l = re.sub(r'b?"(?:[^"\\]|\\.)*"', "", l)
            for m in re.finditer(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^'\\])'", l):
                words.add(unescape(m.group(1)))
            num = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b"
            for m in re.finditer(num + r"(?:\s*(<<|\*)\s*" + num + ")?", l):
                try:
                    a = int(m.group(1).replace("_", ""), 0)
                    b = int(m.group(3).replace("_", ""), 0) if m.group(3) else 0
                except ValueError:
                    continue
                ints |= {a, b}
                if m.group(2):
                    ints.add(a << b if m.group(2) == "<<" and b < 64 else a * b)
    esc = lambda w: w.replace("\\", "\\\\").replace("\n", "\\n")
    out = [f"i {n}" for n in sorted(ints) if 3 < n < 1 << 64][:1500] + [f"w {esc(w)}" for w in sorted(words) if "\0" not in w and "\r" not in w][:1500]
    return "\n".join(out)[:50_000]


class NoAnswer(Exception):
    pass


def errors_of(text):
    """The errors in cargo's output, without the warnings."""
    out, keep = [], False
    for l in text.splitlines():
        if re.match(r"error", l):
            keep = True
        elif re.match(r"(warning|\s*Compiling|\s*Finished)", l):
            keep = False
        if keep:
            out.append(l)
    return "\n".join(out)[:4000]


def cargo(crate, args, target, toolchain="stable", timeout=600, **kw):
    """Builds something; (ok, errors)."""
    p = subprocess.run(["cargo", "+" + toolchain] + args, cwd=crate if os.path.isabs(crate) else os.path.join(HERE, crate),
                       env=env(CARGO_TARGET_DIR=os.path.join(T, target), **kw), timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode == 0, (errors_of(p.stdout) or p.stdout[-1500:])


def parallel(fs):
    """Runs functions in threads; their results, an exception instead of a result."""
    res = [None] * len(fs)

    def run(i, f):
        try:
            res[i] = f()
        except Exception as x:
            res[i] = x
    ts = [threading.Thread(target=run, args=a) for a in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def cpu_of(pid):
    try:
        s = open(f"/proc/{pid}/stat").read()
        f = s[s.rindex(")") + 2:].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


def signal_name(rc):
    try:
        return signal.Signals(-rc).name
    except Exception:
        return str(rc)


class Status:
    def __init__(self, path):
        self.path, self.m = path, None

    def read(self):
        if self.m is None:
            try:
                with open(self.path, "rb") as f:
                    self.m = mmap.mmap(f.fileno(), 4096, prot=mmap.PROT_READ)
            except (OSError, ValueError):
                return None
        m = self.m
        op = m[16:60].split(b"\0")[0].decode("utf-8", "replace")
        return {"calls": struct.unpack("<Q", m[0:8])[0], "kind": m[8], "op": op,
                "phase": struct.unpack("<Q", m[64:72])[0], "case": struct.unpack("<Q", m[72:80])[0]}


class Run:
    """What one run of a check found."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.evals = 0
        self.calls = 0
        self.events, self.skipped, self.phases = {}, {}, {}
        self.samples, self.violations, self.notes = [], [], []
        self.engines = {}
        self.fps = set()
        self.rule = ""
        self.answers = 0
        self.dir = os.path.join(SCR, "run", f"{pid}.{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(SCR, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.lock = threading.Lock()

    def note(self, s):
        with self.lock:
            self.notes.append(s[:600])

    def violation(self, text, replay, files=()):
        with self.lock:
            n = len(self.violations)
            path = os.path.join(self.replays, f"{self.pid}-{n}.json")
            saved = []
            for f in files:
                if f and os.path.exists(f):
                    to = os.path.join(self.replays, f"{self.pid}-{n}-{os.path.basename(f)}")
                    shutil.copy(f, to)
                    saved.append(to)
            rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "text": text, "files": saved,
                   "dict": os.environ.get("HIVE_DICT", "")}
            rec.update(replay)
            with open(path, "w") as o:
                json.dump(rec, o, indent=1)
            self.violations.append((text, path))

    def add_events(self, ev):
        for k, v in ev.items():
            if k.startswith("max "):
                self.events[k] = max(self.events.get(k, 0), v)
            else:
                self.events[k] = self.events.get(k, 0) + v


# ---------------------------------------------------------------- the in-process monitors

def hivemon(profile="release"):
    return os.path.join(T, f"harness/{profile}/hivemon")


def build_hivemon():
    ok, err = cargo("harness", ["build", "--release"], "harness")
    if not ok:
        raise NoAnswer("the monitors do not build against this tree:\n" + err)


def build_debug():
    """The same without any optimisation: every frame takes its full space on the stack."""
    ok, err = cargo("harness", ["build"], "harness")
    if not ok:
        raise NoAnswer("the monitors do not build without optimisation:\n" + err)


def worker_cmd(run, w, of, deadline, out, debug):
    return [hivemon("debug" if debug else "release"), "run", "--part", str(debug or 1), "--check", run.pid, "--tier", run.tier, "--seed", str(run.seed), "--worker", str(w), "--of", str(of),
            "--deadline", str(int(deadline)), "--scale", str(SCALE.get(run.pid, 12)), "--known", "\n".join(k for k, _ in known(run.pid)), "--out", out]


def watch(p, st, limit):
    """Waits for a worker; ('exit', rc, status), ('hang', …) or ('late', …)."""
    last, base = None, 0.0
    while True:
        try:
            rc = p.wait(timeout=0.25)
            return "exit", rc, st.read()
        except subprocess.TimeoutExpired:
            pass
        s = st.read()
        cpu = cpu_of(p.pid)
        if s is not None and cpu is not None:
            key = (s["calls"], s["phase"], s["case"])
            if key != last:
                last, base = key, cpu
            elif s["kind"] != 0 and cpu - base > HANG_CPU:
                p.kill()
                p.wait()
                return "hang", None, s
        if time.time() > limit:
            p.kill()
            p.wait()
            return "late", None, s


def worker(run, w, of, deadline, extra_env, debug=0):
    end = time.time() + deadline
    start = None
    part = 0
    crashes = 0
    while time.time() < end and crashes < 12:
        out = os.path.join(run.dir, f"{'d' if debug else 'w'}{w}.{part}")
        part += 1
        cmd = worker_cmd(run, w, of, end - time.time(), out, debug)
        if start:
            cmd += ["--start-phase", str(start[0]), "--start-case", str(start[1])]
        with open(out + ".log", "wb") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=log, env=env(**extra_env), cwd=run.dir, start_new_session=True)
            how, rc, s = watch(p, Status(out + ".status"), end + 60)
        if how == "exit" and rc in (0, 1) and os.path.exists(out):
            absorb(run, out, cmd, debug)
            return
        if s is None:
            run.note(f"worker {w} ended early: {how} {rc}")
            return
        crashes += 1
        where = f"phase {s['phase']} case {s['case']}, in {s['op'] or 'the harness'}"
        logtail = open(out + ".log", "rb").read()[-600:].decode("utf-8", "replace")
        replay = {"engine": "hivemon", "cmd": cmd, "only": f"{s['phase']}:{s['case']}"}
        if how == "late":
            run.note(f"worker {w} out of time at {where}")
            return
        if how == "hang":
            if s["kind"] == 1:
                run.violation(f"{s['op']} did not return within {HANG_CPU:.0f} s of processor time ({where})", replay)
                return
            run.skipped["call before the tested one does not return"] = run.skipped.get("call before the tested one does not return", 0) + 1
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            if s["kind"] == 1:
                run.violation(f"{s['op']} ended the process with {signal_name(rc)} ({where}) {logtail.strip()[-300:]}", replay)
                if len(run.violations) >= 6:
                    return
            elif s["kind"] == 2:
                run.skipped["crash before the tested call"] = run.skipped.get("crash before the tested call", 0) + 1
            else:
                run.note(f"worker {w} crashed outside a monitored call: {signal_name(rc)} at {where}: {logtail[-200:]}")
        else:
            run.note(f"worker {w}: {how} {rc} at {where}: {logtail[-300:]}")
            if rc is not None and -rc in (signal.SIGKILL, signal.SIGTERM):
                return
        start = (s["phase"], s["case"] + 1)


def absorb(run, out, cmd, debug):
    d = json.load(open(out))
    with run.lock:
        run.answers += 1
        run.evals += d["evals"]
        run.calls += d["calls"]
        run.add_events(d["events"])
        for k, v in d["skipped"].items():
            run.skipped[k] = run.skipped.get(k, 0) + v
        for name, ran, of in d["phases"]:
            a = run.phases.setdefault(name + (", unoptimised" if debug else ""), [0, of])
            a[0] += ran
        if len(run.samples) < 8:
            run.samples += d["samples"][:2]
        a = array.array("Q")
        with open(out + ".fps", "rb") as f:
            a.frombytes(f.read())
        if len(run.fps) < 20_000_000:
            run.fps.update(a)
    for v in d["violations"]:
        hive = f"{out}.{v['phase']}.{v['case']}.hive"
        run.violation(f"{v['phase_name']}: {v['text']}",
                      {"engine": "hivemon", "cmd": cmd, "only": f"{v['phase']}:{v['case']}", "phase": v["phase_name"]}, [hive])


def in_process(run, deadline, extra_env=None, debug=0):
    """The phases of a check; with `debug`, one in so many of their cases in the unoptimised build."""
    run.rule = subprocess.run([hivemon(), "rule", "--check", run.pid], stdout=subprocess.PIPE, text=True).stdout.strip()
    t, calls = time.time(), run.calls
    parallel([lambda w=w: worker(run, w, CORES, deadline, extra_env or {}, debug) for w in range(CORES)])
    if run.answers == 0 and not run.violations:
        raise NoAnswer("no worker finished")
    mine = {k: f"{a} of {b}" for k, (a, b) in run.phases.items() if k.endswith(", unoptimised") == bool(debug)}
    run.engines["in-process monitors" + (" without optimisation" if debug else "")] = {
        "workers": CORES, "calls": run.calls - calls, "seconds": round(time.time() - t, 1), "cases": mine}


# ---------------------------------------------------------------- results

def known(pid):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# how many times a phase's quick number of cases one quick run takes (at most the thorough number)
SCALE = {"C01": 1, "C02": 3, "C03": 24, "C05": 60, "C06": 50, "C07": 16, "C08": 60, "C09": 60, "C10": 60, "C11": 80, "C12": 50, "C17": 2, "C18": 4, "C20": 1}
LEVEL = "exploration"


def finish(run):
    kf = known(run.pid)
    fresh = []
    for text, path in run.violations:
        if not any(k in text for k, _ in kf):
            fresh.append((text, path))
    ev = {
        "property": run.pid, "tier": run.tier, "seed": run.seed, "level": LEVEL,
        "coverage": {
            "evaluations": run.evals, "distinct_nontrivial": len(run.fps), "rule": run.rule or "see DESIGN.md",
            "samples": run.samples[:8] or ["-"],
            "observed": dict(sorted(run.events.items())),
            "engines": run.engines,
            "not_reached": run.skipped,
        },
        "assumptions": ["the reference reader and the builders in core/ state the format correctly",
                        "only what the workloads execute is judged"],
        "violations": len(fresh), "wall_s": round(time.time() - T0, 1),
    }
    if run.notes:
        ev["coverage"]["notes"] = run.notes[:20]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{run.pid}.{os.getpid()}")
    with open(tmp, "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{run.pid}.json"))
    print(f"{run.pid} {run.tier}: {run.evals} evaluations, {len(run.fps)} distinct non-trivial, {run.calls} calls, "
          f"{sum(run.skipped.values())} not reached, {ev['wall_s']} s")
    for n in run.notes[:6]:
        print("note:", n.replace("\n", " ")[:300])
    for k, what in kf:
        print(f"KNOWN-FINDING: property={run.pid} {what}")
    for text, path in fresh[:6]:
        print("  ", text.replace("\n", " ")[:700])
        print(f"VIOLATION property={run.pid} replay={path}")
    return 1 if fresh else 0


def cleanup(run):
    shutil.rmtree(run.dir, ignore_errors=True)


def main():
    import engines
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        return engines.setup()
    if a[0] == "replay":
        return engines.replay(a[1])
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(SCR, exist_ok=True)
    try:
        os.environ["HIVE_DICT"] = dictionary()
    except OSError as x:
        print(f"no dictionary: {x}")
    run = Run(pid, tier, seed)
    try:
        engines.check(run)
        return finish(run)
    except NoAnswer as x:
        print(f"no answer for {pid}: {x}")
        return 1 if run.violations and finish(run) else 2
    finally:
        cleanup(run)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
