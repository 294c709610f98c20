#!/usr/bin/env python3
"""seed.py ID...   (re)create and confirm planted bugs described in seeds/*.py files
Run with /repo clean.  For every seed: writes seeded/<id>/, checks that the
changed lines are original ones, demo passes clean and fails patched, the
stable tests still pass, and runs the property's quick check against it.
Options: --no-tests, --no-check, --sec N."""
import json, os, subprocess, sys, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ORIG = "a10e4b2"
SEEDS = {}
DEMO = """#!/bin/bash
# compiles demo.cpp against the headers of the current tree and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -w -g -O1 %s -I"$PWD/include" "$here/demo.cpp" -o "$d/demo" || exit 3
timeout 120 "$d/demo"
"""
def S(id, prop, file, edits, needs, breaks, demo, flags="-fsanitize=address,undefined", lines=None):
    SEEDS[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags)
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git", "-C", R, "checkout", "--", ".")
def main():
    a = sys.argv[1:]
    tests = "--no-tests" not in a; check = "--no-check" not in a
    sec = a[a.index("--sec") + 1] if "--sec" in a else None
    if sec: a.remove(sec)
    ids = [x for x in a if not x.startswith("--")]
    for f in sorted(glob.glob(H + "/tools/seeds_*.py")):
        exec(compile(open(f).read(), f, "exec"), dict(S=S))
    if not ids: ids = list(SEEDS)
    if sh("git", "-C", R, "status", "--porcelain", "-uno").stdout.strip(): sys.exit("/repo is dirty")
    for id in ids:
        s = SEEDS[id]; d = H + "/seeded/" + id; os.makedirs(d, exist_ok=True)
        files = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        try:
            ok = True
            for fn, eds in files.items():
                p = R + "/include/mdds/" + fn
                t = open(p).read()
                blame = sh("git", "-C", R, "blame", "-s", "--", p).stdout.splitlines()
                for old, new in eds:
                    if t.count(old) != 1: print(id, "EDIT MATCHES", t.count(old), "TIMES:", old[:80]); ok = False; break
                    ln = t[:t.index(old)].count("\n")
                    for i in range(ln, ln + old.rstrip("\n").count("\n") + 1):
                        if ORIG not in blame[i] and len(blame) == open(p).read().count("\n"): print(id, "line", i + 1, "is not original:", blame[i][:120])
                    t = t.replace(old, new)
                if not ok: break
                s.setdefault("out", {})[p] = t
            if not ok: continue
            open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(DEMO % s["flags"]); os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r = sh(d + "/demo.sh", cwd=R)
            if r.returncode: print(id, "DEMO FAILS CLEAN", r.stdout[-1500:]); continue
            for p, t in s["out"].items(): open(p, "w").write(t)
            diff = sh("git", "-C", R, "diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            r = sh(d + "/demo.sh", cwd=R)
            if r.returncode == 0: print(id, "DEMO PASSES PATCHED"); continue
            if r.returncode == 3: print(id, "DEMO DOES NOT COMPILE", r.stdout[-1500:]); continue
            res = "demo ok"
            if tests: res += " | " + sh(H + "/basetest.sh").stdout.strip()[-300:]
            if check:
                r = sh(H + "/check", s["prop"], *(["--seconds", sec] if sec else []), cwd=H)
                res += " | check rc=%d %s" % (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1])
            print(id, s["prop"], res, flush=True)
        finally:
            clean()
main()
