#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py SPEC.py [ID…].

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)…], demo=source of main.rs, needs,
breaks, demo_sh=None, files={})]. For each one, in a scratch copy of /repo: the change is applied, built
and tested, the demonstration must pass without and fail with it. What is confirmed goes to
/verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys, importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "seeded")
COPY = "/tmp/plant/repo"

DEMO_SH = '''#!/bin/sh
# Fails if the crate in the current directory has the bug. Works in a directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 0
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nt-hive = {{ path = "$repo"{features} }}
[profile.dev]
debug = 0
incremental = false
[workspace]
E
cd "$d" || exit 0
unset RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build -q {args} >"$d/log" 2>&1 || {{ cat "$d/log"; exit 1; }}
{run}
'''


def sh(cmd, cwd, **kw):
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, **kw)


def fresh():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(COPY):
        sh(["git", "worktree", "prune"], "/repo")
        sh(["git", "clone", "-q", "/repo", COPY], "/tmp")
        shutil.copy("/repo/Cargo.lock", COPY) if os.path.exists("/repo/Cargo.lock") else None
    sh(["git", "fetch", "-q"], COPY)
    sh(["git", "checkout", "-q", "-f", "origin/HEAD"], COPY)
    head = sh(["git", "rev-parse", "HEAD"], "/repo").stdout.strip()
    sh(["git", "checkout", "-q", "-f", head], COPY)


def tests(cwd):
    e = dict(os.environ, CARGO_TARGET_DIR="/tmp/plant/target", CARGO_NET_OFFLINE="true")
    e.pop("RUSTC_WRAPPER", None)
    p = subprocess.run(["cargo", "test", "--all-features"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", p.stdout)
    errs = "\n".join(l for l in p.stdout.splitlines() if l.startswith("error") or "FAILED" in l)[:800]
    return p.returncode == 0, m, errs or p.stdout[-300:]


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        fresh()
        out = os.path.join("/tmp/plant", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copy(os.path.join(HERE, "demo/mini.rs"), out)
        with open(out + "/main.rs", "w") as f:
            f.write("mod mini;\n#[allow(unused_imports)]\nuse mini::*;\n#[allow(unused_imports)]\nuse nt_hive::*;\n" + b["demo"])
        d = DEMO_SH.format(features=b.get("features", ""), args=b.get("args", ""), run=b.get("run", 'timeout 120 "$d/target/debug/demo"'))
        with open(out + "/demo.sh", "w") as f:
            f.write(d)
        os.chmod(out + "/demo.sh", 0o755)
        p = sh(["sh", out + "/demo.sh"], COPY)
        if p.returncode != 0:
            print(b["id"], "REJECTED: the demonstration fails without the bug:", p.stdout[-1500:])
            continue
        bad = False
        for f, old, new in b["edits"]:
            s = open(os.path.join(COPY, f)).read()
            if s.count(old) != 1:
                print(b["id"], "REJECTED:", f, "has", s.count(old), "times", old[:80])
                bad = True
                break
            open(os.path.join(COPY, f), "w").write(s.replace(old, new))
        if bad:
            continue
        ok, res, errs = tests(COPY)
        if not ok:
            print(b["id"], "REJECTED: tests", res, errs)
            continue
        p = sh(["sh", out + "/demo.sh"], COPY)
        if p.returncode == 0:
            print(b["id"], "REJECTED: the demonstration passes with the bug")
            continue
        diff = sh(["git", "diff"], COPY).stdout
        with open(out + "/patch.diff", "w") as f:
            f.write(diff)
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        to = os.path.join(SEEDED, b["id"])
        shutil.rmtree(to, ignore_errors=True)
        shutil.copytree(out, to)
        print(b["id"], "kept;", (p.stdout.strip().splitlines() or ["?"])[-1][:150])


main()
