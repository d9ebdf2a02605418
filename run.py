#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check C01 quick|thorough     build from /repo's working tree and run one check
  run.py replay replays/FILE.json     run one recorded case again
  run.py build [C01 ...]              build only
"""
import json, os, subprocess, sys, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
COMMON = ["-std=c++17", "-g1", "-O1", "-DDEBUG", "-include", "limits", "-w",
          "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
SANITIZE = ["-fsanitize=address", "-fsanitize=bounds,null,return,vla-bound", "-fno-sanitize-recover=all"]
# Checks of memory safety run sanitized; the big enumerations of values run plain (with libstdc++
# assertions, pattern-initialized variables and perturbed heap memory).
ASAN = {"C08", "C09", "C10", "C11", "C12", "C13", "C17"}
LIBS = ["-lcrypto", "-lz", "-lpthread"]

def env_for_build():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    return e

def compile_one(src, obj, flags):
    cmd = ["ccache"] if shutil.which("ccache") else []
    cmd += [CXX] + flags + ["-c", "-o", obj, src]
    p = subprocess.run(cmd, env=env_for_build(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, p.returncode, p.stdout

def build(check, variant="asan"):
    if variant == "tsan":
        import c19build
        return c19build.build(VERIF, REPO, BUILD, compile_one)
    san = SANITIZE if variant == "asan" else []
    flags = COMMON + san
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    flags += ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "src")]
    jobs = []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cc"))):
        jobs.append((s, os.path.join(out, "repo_" + os.path.basename(s)[:-3] + ".o"), flags))
    jobs.sort(key=lambda j: "pugixml" not in j[0])
    for s in sorted(glob.glob(os.path.join(VERIF, "src", "*.cc"))):
        jobs.append((s, os.path.join(out, "lib_" + os.path.basename(s)[:-3] + ".o"), flags))
    s = os.path.join(VERIF, "checks", check.lower() + ".cc")
    jobs.append((s, os.path.join(out, "check_" + check + ".o"), flags))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    for src, rc, text in res:
        if rc != 0:
            sys.stderr.write(text[-4000:])
            sys.stderr.write("\nbuild of %s failed\n" % src)
            sys.exit(3)
    exe = os.path.join(out, check)
    cmd = [CXX] + san + ["-o", exe] + [j[1] for j in jobs] + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-4000:])
        sys.exit(3)
    return exe

def runenv():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=1024:"
                         "malloc_fill_byte=190:max_malloc_fill_size=4096:detect_stack_use_after_return=0:"
                         "allocator_may_return_null=0:handle_abort=1:quarantine_size_mb=16")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["LC_ALL"] = "C"
    e["MALLOC_PERTURB_"] = "165"
    return e

def variant(check):
    return "tsan" if check == "C19" else "asan" if check in ASAN else "plain"

def run(exe, c, tier):
    rc = subprocess.run([exe, tier, VERIF], env=runenv(), cwd=VERIF).returncode
    # Cases run in processes of their own; what crashes here is an ordinary operation on which cases are built.
    if rc in (-4, -6, -7, -8, -11, 99):
        path = "replays/%s-crash.json" % c
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        json.dump({"property": c, "tier": tier, "crash": rc}, open(os.path.join(VERIF, path), "w"))
        print("  an operation that the cases are built on ends the process (%d)" % rc)
        print("VIOLATION property=%s replay=%s" % (c, path))
        return 1
    return rc

def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        # Every check builds what it needs; this only shows early that the tools are there.
        return subprocess.run([CXX, "--version"], stdout=subprocess.DEVNULL).returncode
    if len(sys.argv) < 3: print(__doc__); return 2
    cmd = sys.argv[1]
    if cmd == "build":
        for c in sys.argv[2:]: build(c, variant(c))
        return 0
    if cmd == "check":
        c, tier = sys.argv[2], sys.argv[3]
        exe = build(c, variant(c))
        return run(exe, c, tier)
    if cmd == "replay":
        r = json.load(open(os.path.join(VERIF, sys.argv[2]) if not os.path.isabs(sys.argv[2]) else sys.argv[2]))
        exe = build(r["property"], variant(r["property"]))
        if "crash" in r: return run(exe, r["property"], r["tier"])
        return subprocess.run([exe, r["tier"], VERIF, "replay", r["family"], str(r["case"]), str(r.get("first", r["case"]))],
                              env=runenv(), cwd=VERIF).returncode
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
