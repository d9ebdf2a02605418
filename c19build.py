"""Builds check C19: the library instrumented for the explorer of interleavings in c19/rt.cc."""
import glob, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

LIBS = ["-lcrypto", "-lz", "-lpthread", "-ldl"]

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(" ".join(cmd[:6]) + "\n" + p.stdout[-4000:])
        sys.exit(3)
    return p.stdout

def exported(lib):
    path = sh(["g++", "-print-file-name=" + lib]).strip()
    return set(l.split()[-1].split("@")[0] for l in sh(["nm", "-D", "--defined-only", path]).splitlines())

def build(verif, repo, build_dir, compile_one):
    out = os.path.join(build_dir, "tsan")
    os.makedirs(out, exist_ok=True)
    c19 = os.path.join(verif, "c19")
    base = ["-std=c++17", "-g1", "-O1", "-w", "-fno-omit-frame-pointer", "-I" + os.path.join(repo, "src"), "-I" + os.path.join(verif, "src"), "-I" + c19]
    inst = base + ["-DDEBUG", "-include", os.path.join(c19, "pre.hh"), "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-fno-builtin-printf"]
    plain = base + ["-DDEBUG", "-include", "limits"]
    jobs, lib = [], []
    for s in sorted(glob.glob(os.path.join(repo, "src", "*.cc"))):
        jobs.append((s, os.path.join(out, "repo_" + os.path.basename(s)[:-3] + ".o"), inst)); lib.append(jobs[-1][1])
    s = os.path.join(c19, "controls.cc")
    jobs.append((s, os.path.join(out, "controls.o"), inst)); lib.append(jobs[-1][1])
    rest = []
    for s in sorted(glob.glob(os.path.join(verif, "src", "*.cc"))) + [os.path.join(c19, "rt.cc"), os.path.join(verif, "checks", "c19.cc")]:
        f = plain + (["-fno-builtin", "-fno-tree-loop-distribute-patterns"] if s.endswith("rt.cc") else [])
        jobs.append((s, os.path.join(out, "lib_" + os.path.basename(s)[:-3] + ".o"), f)); rest.append(jobs[-1][1])
    jobs.sort(key=lambda j: "pugixml" not in j[0])
    with ThreadPoolExecutor(8) as ex:
        for src, rc, text in ex.map(lambda j: compile_one(*j), jobs):
            if rc != 0:
                sys.stderr.write(text[-4000:] + "\nbuild of %s failed\n" % src)
                sys.exit(3)
    # Calls of functions outside of the instrumented code go through the runtime.
    own = set(re.findall(r"\b__c19_(\w+)\(", open(os.path.join(c19, "rt.cc")).read())) - {"ext"}
    used = set(l.split()[-1] for o in lib for l in sh(["nm", "-u", o]).splitlines() if l.split()[:1] == ["U"])
    ext = sorted(used & (exported("libcrypto.so") | exported("libz.so")))
    with open(os.path.join(out, "ext.c"), "w") as f:
        f.write("void __c19_ext(const char*, long, long, long, long, long, long);\n")
        for n in ext:
            f.write("long %s(long, long, long, long, long, long, long, long);\nlong __c19_%s(long a, long b, long c, long d, long e, long f, long g, long h) { __c19_ext(\"%s\", a, b, c, d, e, f); return %s(a, b, c, d, e, f, g, h); }\n" % (n, n, n, n))
    sh(["gcc", "-w", "-O1", "-fno-builtin", "-c", "-o", os.path.join(out, "ext.o"), os.path.join(out, "ext.c")])
    with open(os.path.join(out, "redefine"), "w") as f:
        for n in sorted((own & used) | set(ext)): f.write("%s __c19_%s\n" % (n, n))
    redefined = []
    for o in lib:
        sh(["objcopy", "--redefine-syms=" + os.path.join(out, "redefine"), o, o[:-2] + ".r.o"])
        redefined.append(o[:-2] + ".r.o")
    exe = os.path.join(out, "C19")
    sh(["g++", "-rdynamic", "-o", exe] + redefined + rest + [os.path.join(out, "ext.o")] + LIBS)
    with open(exe + ".guards", "w") as f:
        for l in sh(["nm", exe]).splitlines():
            w = l.split()
            if len(w) == 3 and (w[2].startswith("_ZGV") or w[2] == "__c19_base"): f.write("%s %s\n" % (w[0], w[2]))
    return exe
