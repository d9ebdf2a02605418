#!/usr/bin/env python3
"""Looks for changes of one token or statement that neither the tests nor any quick check notices.

mutate.py WORKERS SECONDS [file...]   works in /tmp/mt on copies of /repo and /verif; results in /tmp/mt/results.jsonl
"""
import json, os, random, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mt"
# The checks that look at what is in a file, cheap ones first; what none of them notices is listed for a closer look.
CHECKS = {"cipher": "C12 C11 C05 C04 C02 C26 C27 C28 C07", "base64": "C13 C03 C14 C26 C25", "stream": "C09 C10 C18 C27 C28 C03 C26 C06",
          "kdb.": "C02 C04 C26 C22 C05 C18 C28 C27 C15 C07 C21 C25 C08", "kdbx": "C26 C16 C22 C05 C18 C28 C27 C15 C03 C21 C01 C25 C06 C08",
          "key": "C14 C05 C26 C27 C28 C25", "random": "C12 C23 C03", "util": "C22 C23 C14 C02 C17 C20 C21", "format": "C26 C20", "io": "C04 C02 C26 C28 C08",
          "iterator": "C13 C24 C16 C11"}
OTHER = "C24 C17 C02 C16 C20 C22 C27 C03 C01"

def original(file):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", file], stdout=subprocess.PIPE, text=True, errors="replace").stdout.splitlines()
    return [l.startswith("^") or l.startswith("b2f0d36") for l in out]

def mutants(file, all_lines=False):
    path = "/repo/" + file
    lines = open(path, errors="replace").read().split("\n")
    orig = original(file)
    res = []
    incomment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("assert") or "static_assert" in s: continue
        if n >= len(orig) or not (orig[n] or all_lines): continue
        if len(re.findall(r"0x[0-9a-fA-F]{2,}", s)) > 2: continue      # tables are covered by known answers
        code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\0" * len(m.group(0)), l).split("//")[0]
        def sub(pat, reps, what):
            for m in re.finditer(pat, code):
                for r in reps(m):
                    res.append((file, n, l[:m.start()] + r + l[m.end():], what))
        one = lambda *r: (lambda m: r)
        if "template" not in code and "#include" not in code and "std::unique_ptr<" not in code and "operator" not in code:
            sub(r"(?<=[\w)\]] )<(?= [\w(*])", one("<=", ">"), "rel")
            sub(r"(?<=[\w)\]] )>(?= [\w(*])", one(">=", "<"), "rel")
        sub(r"<=", one("<"), "rel"); sub(r">=", one(">"), "rel")
        sub(r"==", one("!="), "eq"); sub(r"!=", one("=="), "eq")
        sub(r"&&", one("||"), "log"); 
        if "&&" not in code or True: sub(r"\|\|", one("&&"), "log")
        sub(r"!(?=[\w(])", one(""), "not")
        sub(r"(?<=[\w)\]]) \+ (?=[\w(])", one(" - "), "arith"); sub(r"(?<=[\w)\]]) - (?=[\w(])", one(" + "), "arith")
        sub(r"(?<=[\w)\]]) \* (?=[\w(])", one(" / "), "arith"); sub(r"(?<=[\w)\]]) / (?=[\w(])", one(" * "), "arith"); sub(r"(?<=[\w)\]]) % (?=[\w(])", one(" / "), "arith")
        sub(r"<< (?=\d)", one(">> "), "shift"); sub(r">> (?=\d)", one("<< "), "shift")
        sub(r"(?<=[\w)\]]) & (?=[\w(])", one(" | "), "bit"); sub(r"(?<=[\w)\]]) \| (?=[\w(])", one(" & "), "bit"); sub(r" \^ ", one(" | "), "bit")
        sub(r"\btrue\b", one("false"), "bool"); sub(r"\bfalse\b", one("true"), "bool")
        sub(r"\+\+(?=\w)", one("--"), "inc")
        if not re.search(r"array<|char \w+\[", code): sub(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", lambda m: ([hex(int(m.group(1), 0) + 1)] + ([hex(int(m.group(1), 0) - 1)] if int(m.group(1), 0) > 0 else [])) , "num")
        sub(r"\+= ", one("-= "), "assign"); sub(r"\|= ", one("&= "), "assign")
        m = re.match(r"^(\s*)(?:else )?if \((.*)\)( \{)?\s*$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            i = l.index("if (") + 4; j = l.rindex(")")
            for v in ("true", "false"): res.append((file, n, l[:i] + "(" + l[i:j] + ("), true" if v == "true" else "), false") + l[j:], "if"))
        if re.match(r"^\s*[\w>.:\-\[\]()*]+(\(.*\)| [|&+\-*/]?= .*);\s*$", code) and not re.match(r"^\s*(return|throw|using|typedef|case|const|class|struct|static|virtual|public|private|default)\b", code) and not re.match(r"^\s*[\w:<>]+ [\w]+(\(|;| =)", code) and code.count("(") == code.count(")"):
            prev = lines[n - 1].rstrip() if n else ""
            if prev.endswith(";") or prev.endswith("{") or prev.endswith("}") or prev.strip() == "" or prev.strip().startswith("//"):
                res.append((file, n, re.match(r"\s*", l).group(0) + ";", "del"))
            elif prev.endswith(")"): res.append((file, n, re.match(r"\s*", l).group(0) + ";", "del"))
        if re.match(r"^\s*(continue|break);", code): res.append((file, n, l.replace("continue;", "break;") if "continue" in l else l.replace("break;", ";"), "flow"))
        if re.match(r"^\s*throw .*;\s*$", code): res.append((file, n, ";", "throw"))
    out = []
    for f, n, new, what in res:
        if new != lines[n] and (f, n, new, what) not in out: out.append((f, n, new, what))
    return out

def run(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try: out = p.communicate(timeout=timeout)[0]; return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, "timeout"

FLAGS = ["LIBKEEPASS_CCFLAGS=$(CCFLAGS) -std=c++11 -include limits -w", "TEST_CCFLAGS=$(CCFLAGS) -Isrc/ -std=c++14 -w",
         "TEST_LDFLAGS=-Wl,--no-as-needed -lcrypto -lz -Wl,--whole-archive -lgtest -lgtest_main -Wl,--no-whole-archive"]

def worker(w, queue, lock, end):
    tree, verif = "%s/w%d" % (W, w), "%s/v%d" % (W, w)
    for d in (tree, verif): shutil.rmtree(d, ignore_errors=True)
    os.makedirs(tree)
    for x in ("src", "test", "Makefile"): subprocess.run(["cp", "-a", "/repo/" + x, tree])
    os.makedirs(verif)
    for x in ("src", "checks", "run.py", "c19", "c19build.py", "KNOWN_FINDINGS.txt", "properties.jsonl"):
        subprocess.run(["cp", "-a", VERIF + "/" + x, verif])
    for x in ("build", "evidence", "replays"): os.makedirs(verif + "/" + x)
    env = dict(os.environ, PATH="/usr/lib/ccache:" + os.environ["PATH"], CCACHE_DIR=W + "/cc%d" % w, VERIF_REPO=tree, CCACHE_MAXSIZE="4G", TZ="CET")
    # Only one-file objects are built again; the dependencies are in the .d files.
    def tests():
        rc, out = run(["make", "-j4", "build/debug/test"] + FLAGS, tree, 300, env)
        if rc: return "compile"
        rc, out = run(["./build/debug/test", "--gtest_brief=1"], tree, 60, env)
        return "tests" if rc else ""
    r = tests()
    if r: print("worker", w, "baseline:", r); return
    while time.time() < end:
        with lock:
            if not queue: return
            f, n, new, what = queue.pop()
        path = tree + "/" + f
        text = open("/repo/" + f, errors="replace").read(); lines = text.split("\n"); old = lines[n]; lines[n] = new
        open(path, "w").write("\n".join(lines))
        t = time.time(); res = tests(); 
        if not res:
            order = next((v for k, v in CHECKS.items() if os.path.basename(f).startswith(k)), OTHER).split()
            for c in order:
                rc, out = run(["nice", "python3", "run.py", "check", c, "quick"], verif, 600, env)
                if rc == 1 and "VIOLATION property=" in out: res = c; break
                if rc != 0: res = "%s rc %d" % (c, rc); break
            subprocess.run("rm -rf %s/replays/*" % verif, shell=True)
        open(path, "w").write(text)
        with lock:
            with open(W + "/results.jsonl", "a") as o: o.write(json.dumps({"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "what": what, "by": res, "s": round(time.time() - t)}) + "\n")

def main():
    files = sys.argv[3:] or ["src/" + x for x in sorted(os.listdir("/repo/src")) if x.endswith((".cc", ".hh")) and not x.startswith("pugi")]
    every = []
    for f in files: every += mutants(f)
    # Tables of constants are covered by the known answers of the tests.
    random.Random(7).shuffle(every)
    seen = {}
    def rank(m): seen[m[0]] = seen.get(m[0], 0) + 1; return seen[m[0]] * (10 if m[0] == "src/cipher.cc" else 1)
    every = [m for r, m in sorted(((rank(m), m) for m in every), key=lambda x: -x[0])]   # taken from the end: all files in turn
    done = set()
    if os.path.exists(W + "/results.jsonl"):
        for l in open(W + "/results.jsonl"): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    every = [m for m in every if (m[0], m[1] + 1, m[2].strip()) not in done]
    print(len(every), "mutants", {f: sum(1 for m in every if m[0] == f) for f in files}, flush=True)
    if int(sys.argv[1]) == 0: return
    lock = threading.Lock(); end = time.time() + float(sys.argv[2])
    ts = [threading.Thread(target=worker, args=(w, every, lock, end)) for w in range(int(sys.argv[1]))]
    for t in ts: t.start()
    for t in ts: t.join()
if __name__ == "__main__": main()
