#!/usr/bin/env python3
"""Mechanical mutants of skull (development aid; no check uses it).
mutate.py list N SEED OUT.json     choose mutants
mutate.py tests IN.json OUT.json J which build and pass the stable tests (in scratch copies)"""
import json, os, random, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
R = os.environ.get("MU_REPO", "/repo")


def code(text):
    """mask of characters that are code"""
    m = bytearray(b"1" * len(text))
    for x in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|^#[^\n]*', text, re.S | re.M):
        for k in range(x.start(), x.end()):
            m[k] = 48
    return m


SW = [("&&", "||"), ("||", "&&"), ("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), (" + ", " - "), (" - ", " + "),
      ("true", "false"), ("false", "true"), ("++", "--"), ("->lhs", "->rhs"), ("->rhs", "->lhs"), ("->next", "->last"), ("->begin", "->end"), ("->end", "->begin"),
      ("continue;", ";"), ("break;", ";"), ("continue;", "break;"), (" = NULL", " = (void*)1"), ("lhs", "rhs"), ("rhs", "lhs")]


def mutants(f):
    t = open(os.path.join(R, f)).read()
    m = code(t)
    out = []

    def add(a, b, new, kind):
        if t[a:b] != new:
            out.append((f, a, b, new, kind, t.count("\n", 0, a) + 1))
    for o, n in SW:
        pat = re.escape(o)
        if o[0].isalpha():
            pat = r"\b" + pat
        if o[-1].isalpha():
            pat += r"\b"
        if o in ("==", "<=", ">="):
            pat = r"(?<![<>=!])" + pat + r"(?![=])"
        for x in re.finditer(pat, t):
            if m[x.start()] == 49:
                add(x.start(), x.end(), n, "swap " + o.strip())
    for x in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", t):
        if m[x.start()] == 49:
            add(x.start(), x.end(), str(int(x.group(1)) + 1), "const")
    for x in re.finditer(r"\b(if|while) \(", t):
        if m[x.start()] != 49:
            continue
        d, k = 1, x.end()
        while d:
            d += (t[k] == "(") - (t[k] == ")") if m[k] == 49 else 0
            k += 1
        add(x.end(), k - 1, "!(" + t[x.end():k - 1] + ")", "negate")
        if x.group(1) == "if":
            add(x.end(), k - 1, "0 && (" + t[x.end():k - 1] + ")", "never")
            add(x.end(), k - 1, "1 || (" + t[x.end():k - 1] + ")", "always")
    for x in re.finditer(r"(?<=[;{}:]\n)(\t+)([^\n;{}]*;)\n", t):
        s = x.group(2)
        if m[x.start(2)] != 49 or re.match(r"return\b|const\b|static\b|bool\b|char\b|unsigned\b|size_t\b|LLVM\w+ \w|[A-Z]\w+ \*?\w+( =|;)|break|continue|goto|__", s):
            continue
        add(x.start(2), x.end(2), ";", "delete")
    # statements over several lines
    for x in re.finditer(r"(?<=[;{}:]\n)(\t+)(\w[^;{}\n]*\(\n(?:\1\t[^\n;{}]*\n)+\1\)+;)\n", t):
        add(x.start(2), x.end(2), ";", "delete")
    return out


def main():
    if sys.argv[1] == "list":
        fs = subprocess.run(["git", "ls-files", "skull/*.c"], cwd=R, capture_output=True, text=True).stdout.split()
        fs = [f for f in fs if "build_data" not in f]
        ms = [x for f in fs for x in mutants(f)]
        print(len(ms))
        random.Random(int(sys.argv[3])).shuffle(ms)
        n = int(sys.argv[2])
        json.dump([dict(id=k, f=x[0], a=x[1], b=x[2], new=x[3], kind=x[4], line=x[5]) for k, x in enumerate(ms[:n])], open(sys.argv[4], "w"))
        return
    ms = json.load(open(sys.argv[2])); outp = sys.argv[3]; J = int(sys.argv[4])
    done = json.load(open(outp)) if os.path.exists(outp) else {}
    base = json.load(open("/opt/vp/BASELINE.json"))
    bl = base.get("passed") or base.get("stable") or base
    lock = threading.Lock(); free = list(range(J))
    for w in free:
        shutil.rmtree("/tmp/mu/w%d" % w, ignore_errors=True); shutil.copytree(R, "/tmp/mu/w%d" % w, symlinks=True)

    def one(m):
        if str(m["id"]) in done:
            return
        with lock:
            w = free.pop()
        wt = "/tmp/mu/w%d" % w
        try:
            p = os.path.join(wt, m["f"]); t = open(os.path.join(R, m["f"])).read()
            open(p, "w").write(t[:m["a"]] + m["new"] + t[m["b"]:])
            o = "/tmp/mu/w%d.json" % w
            if os.path.exists(o):
                os.unlink(o)
            try:
                r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && ulimit -v 16000000; nice -n 10 timeout -k 2 90 bash /opt/vp/test.sh %s" % (wt, o)], capture_output=True, timeout=150)
                got = set(json.load(open(o))["passed"])
                res = "pass" if all(x in got for x in bl) else "killed" if got else "nobuild"
            except Exception as e:
                res = "killed"
            open(p, "w").write(t)
            with lock:
                done[str(m["id"])] = res
                if len(done) % 20 == 0:
                    json.dump(done, open(outp, "w"))
        finally:
            with lock:
                free.append(w)
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(one, ms))
    json.dump(done, open(outp, "w"))


main()
