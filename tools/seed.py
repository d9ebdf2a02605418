#!/usr/bin/env python3
"""Makes, confirms and tries the planted bugs of tools/seeds.py: seed.py make|try [ID...]

make: in a scratch copy of /repo, applies the edits, writes seeded/ID/, checks that lines changed are original ones,
      that the tree builds, passes the stable tests, and that the demonstration tells both trees apart.
try:  runs the check of the bug's property (quick) on a copy of the sources with the bug."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import seeds
BASE = "b2f0d36"
DEMO_SH = """#!/bin/bash
# Exit 0: the property holds. Works in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
g++ -std=c++11 -g -DDEBUG -include limits -Isrc "$here/demo.cc" build/debug/libkeepass.a -lcrypto -lz -lpthread -o "$work/demo" || exit 2
cd "$work" && TZ=CET timeout 250 ./demo
"""
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def original(file):
    out = sh("git -C /repo blame -s %s" % file).stdout.splitlines()
    return [l.startswith("^") or l.startswith(BASE[:7]) for l in out]

def edit(tree, s):
    for f, old, new in s["edits"]:
        p = os.path.join(tree, f); t = open(p).read()
        if t.count(old) != 1: raise SystemExit("%s: %d matches in %s of %r" % (s["id"], t.count(old), f, old))
        open(p, "w").write(t.replace(old, new))

def make(s, work):
    d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (work, work))
    edit(work, s)
    diff = sh("git -C %s diff" % work).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    ok_orig = False; f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]; orig = original(f)
        elif l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            if not orig[n - 1]: return "line %d of %s is not original" % (n, f)
            ok_orig = True; n += 1
        elif l.startswith(" "): n += 1
    if not ok_orig: return "no original line is changed"
    open(os.path.join(d, "demo.cc"), "w").write(seeds.PRELUDE + s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(s.get("sh", DEMO_SH)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # The build script works in /repo: so the tree there is changed and undone straight afterwards.
    try:
        if sh("git -C /repo apply %s/patch.diff" % d).returncode: return "the patch doesn't apply"
        if sh("bash /opt/vp/build.sh").returncode: return "doesn't build"
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        t = json.load(open("/tmp/seed.json"))
        if t["failed"] or len(t["passed"]) != 100: return "tests fail: %s" % t["failed"][:4]
        x = sh("bash %s/demo.sh" % d, cwd="/repo")
        bad, text = x.returncode, x.stdout
    finally:
        sh("git -C /repo checkout -q -- .")
        sh("bash /opt/vp/build.sh")
    x = sh("bash %s/demo.sh" % d, cwd="/repo")
    if x.returncode: return "the demonstration fails on the good tree: %s" % x.stdout[-500:]
    if bad == 0: return "the demonstration passes with the bug"
    if bad == 2 or bad == 124: return "the demonstration doesn't decide (%d): %s" % (bad, text[-800:])
    return "ok: " + text.strip()[-120:].replace("\n", " ")

def attempt(s, check=None, tier="quick"):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh("cp -a /repo/src %s/src" % d); edit(d, s)
        x = sh("VERIF_REPO=%s python3 run.py check %s %s" % (d, check or s["property"], tier), cwd=VERIF)
        lines = [l for l in x.stdout.splitlines() if "VIOLATION property=" + (check or s["property"]) in l]
        return ("CAUGHT" if x.returncode == 1 and lines else "missed (%d)" % x.returncode) + " " + " | ".join(x.stdout.splitlines()[-4:])[:300]
    finally: shutil.rmtree(d)

def main():
    sel = [s for s in seeds.SEEDS if not sys.argv[2:] or s["id"] in sys.argv[2:] or s["property"] in sys.argv[2:]]
    if sys.argv[1] == "make":
        work = tempfile.mkdtemp(prefix="seedrepo.", dir="/tmp")
        try:
            sh("git clone -q /repo %s/r" % work)
            for s in sel: print(s["id"], make(s, work + "/r"), flush=True)
        finally: shutil.rmtree(work)
    else:
        for s in sel: print(s["id"], attempt(s), flush=True)
main()
