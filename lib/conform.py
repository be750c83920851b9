"""Record what the real compiler does with source texts and have TLC decide,
with spec/Conform.tla, whether the specification allows it."""
import json, os, re, shutil, subprocess, tempfile, threading, time
import build
from build import VERIF, BUILD, ENV

TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    """the check itself is broken (never a verdict about the code)"""


def java_classes():
    src = os.path.join(SPEC, "java", "Native.java")
    out = os.path.join(BUILD, "java")
    cls = os.path.join(out, "Native.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(out, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
        r = subprocess.run(["javac", "-cp", TLA + ":" + CM, "-d", tmp, src], capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise Machinery(r.stderr)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(out, f))
        shutil.rmtree(tmp)
    return out


def object_of(name):
    """object file of a C file of harness/"""
    src = os.path.join(VERIF, "harness", name)
    o = os.path.join(BUILD, name[:-1] + "o")
    if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        t = o + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = subprocess.run(["gcc", "-O1", "-c", src, "-o", t], capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise Machinery(r.stderr)
        os.replace(t, o)
    return o


def ext_o():
    """the external functions"""
    return object_of("ext.c")


def tlc(module, cfg=None, env=None, workers=8, args=(), xmx="12g", timeout=840):
    """run TLC; returns (stdout, list of emitted objects, stats)"""
    java_classes()
    meta = tempfile.mkdtemp(prefix="tlc-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        cmd = ["java", "-Xss256m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", ":".join([TLA, CM, os.path.join(BUILD, "java")]),
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, capture_output=True, env=dict(ENV, **(env or {})), timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    emitted = [json.loads(l[2:]) for l in out.split("\n") if l.startswith("@@")]
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"generated": int(m.group(1)), "distinct": int(m.group(2))} if m else None
    ok = "Model checking completed. No error has been found." in out
    return out, emitted, stats, ok


def generate(kit, length=3, depth=2, workers=8):
    """the texts of a kit of spec/Gen.tla, in a fixed order, and the number of states"""
    out, em, stats, ok = tlc("Gen", env={"SKULL_KIT": kit, "SKULL_LEN": str(length), "SKULL_DEPTH": str(depth)}, workers=workers, xmx="4g")
    if not ok or not em:
        raise Machinery("Gen %s: %s" % (kit, out[-2000:]))
    return sorted(set(em)), stats


def walks(kit, n, tries, depth=3, seed=1):
    """walks of spec/Walk.tla: [text, "ok"/"bad"/"open", number of the step, of the walk]"""
    out, em, stats, ok = tlc("Walk", env={"SKULL_KIT": kit, "SKULL_WALKS": str(n), "SKULL_LEN": str(tries), "SKULL_DEPTH": str(depth),
                                          "SKULL_SEED": str(seed % 100000)}, workers=8)
    if not ok or not em:
        raise Machinery("Walk %s: %s" % (kit, out[-2000:]))
    return sorted(em), stats


class Case:
    __slots__ = ("id", "src", "flags", "runs", "want_runs", "obs", "verdict", "note", "mods", "color", "name", "pack", "probe")

    def __init__(self, id, src, flags=(), runs=(), mods=(), color=False, name="t", note=""):
        self.id, self.src, self.flags, self.want_runs = id, src if isinstance(src, bytes) else src.encode("utf-8", "surrogatepass"), list(flags), list(runs)
        self.mods, self.color, self.name, self.note = list(mods), color, name, note
        self.obs = self.verdict = self.pack = None
        self.probe = ""


LINK = []


def decode(src):
    """code points, and one more than the number before the first bytes that are not UTF-8 (0: none, -1: NUL bytes)"""
    if b"\0" in src:
        return [], -1
    try:
        return [ord(c) for c in src.decode("utf-8")], 0
    except UnicodeDecodeError as e:
        return [], len(src[:e.start].decode("utf-8")) + 1


def observe(s, case, ext):
    """run the real compiler (and what it makes) on one case"""
    d = s.fresh()
    f = case.name + ".sk"
    os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
    with open(os.path.join(d, f), "wb") as h:
        h.write(case.src)
    for m in case.mods:
        # a name with a mark is there as well, but elsewhere
        q = os.path.join(d, os.path.dirname(f), m + ".sk") if m[0] != "!" else os.path.join(d, "" if os.path.dirname(os.path.normpath(f)) else "other", m[1:] + ".sk")
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if not os.path.exists(q):
            open(q, "w").close()
    args = list(case.flags)
    col = "1" if case.color else None
    runs = []
    if not case.want_runs:
        r = s.skull(d, *args, "-E", f, color=col)
        first = r
    else:
        first = None
        for tag in case.want_runs:
            if tag.startswith("c"):
                if first is None:
                    first = s.skull(d, *args, "-E", f, color=col)
                if first.status != 0 or b"unreachable" in case.src:
                    continue
                r = s.skull(d, "-q", "--c-backend", "-E", f)
                if r.status != 0 or r.timeout:
                    runs.append(dict(tag=tag, c=True, ev=["compiler failed %d" % r.status], rc=-1))
                    continue
                c = os.path.join(d, "c.c")
                with open(c, "wb") as h:
                    h.write(r.out)
                g = s.exec(d, "/usr/bin/gcc", "-w", "-std=gnu2x", "-O" + (tag[1:] or "0"), "c.c", ext, "-lm", "-o", "t_c", timeout=60)
                if g.status != 0:
                    runs.append(dict(tag=tag, c=True, ev=["C compiler: " + g.err.decode("utf-8", "replace")[:300]], rc=-1))
                    continue
                runs.append(run_one(s, d, tag, "t_c", True))
            else:
                fl = {"0": [], "1": ["-O1"], "2": ["-O2"], "3": ["-O3"], "g": ["-g"]}[tag]
                r = s.skull(d, *args, *fl, f, "--", ext, *LINK, color=col)
                if first is None:
                    first = r
                elif r.status != first.status or r.err != first.err:
                    runs.append(dict(tag=tag, c=False, ev=["compiler output differs: " + r.err.decode("utf-8", "replace")[:300]], rc=-1))
                    continue
                exe = os.path.join(d, case.name)
                if r.status == 0 and os.path.exists(exe):
                    runs.append(run_one(s, d, tag, exe, False))
                    os.unlink(exe)
                elif r.status == 0 and case.src:
                    runs.append(dict(tag=tag, c=False, ev=["no program was made"], rc=-1))
    if first is None:
        first = s.skull(d, *args, "-E", f, color=col)
    rc = first.status if not first.timeout else -2
    case.obs = dict(rc=rc, err=first.err.decode("utf-8", "replace"), runs=runs)
    return case


def run_one(s, d, tag, exe, c):
    if not exe.startswith("/"):
        exe = os.path.join(d, exe)
    # little stack: a program's use of it does not grow with the number of statements executed
    r = s.exec(d, "/bin/sh", "-c", 'ulimit -s 96; exec "$0"', exe, timeout=10)
    ev = r.out.decode("utf-8", "replace").split("\n")[:-1]
    if len(ev) > 4000:
        ev = ev[:4000] + ["..."]
    return dict(tag=tag, c=c, ev=ev, rc=-2 if r.timeout else r.status)


def trace(case):
    src, bad = decode(case.src)
    fl = case.flags
    return dict(id=case.id, src=src, bad=bad, file=case.name + ".sk", colour=case.color, werror="--werror" in fl, quiet="-q" in fl,
                mods=[m for m in case.mods if m[0] != "!"] + [os.path.basename(case.name)], run=bool(case.want_runs or case.pack or case.probe), probe=case.probe, obs=case.obs or dict(rc=0, err="", runs=[]))


def ask(module, traces, workers=8):
    """have TLC judge traces; what it emits by id, and its statistics"""
    fd, p = tempfile.mkstemp(suffix=".json", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    with os.fdopen(fd, "w") as h:
        json.dump(traces, h)
    try:
        out, em, stats, ok = tlc(module, env={"SKULL_TRACES": p}, workers=workers)
    finally:
        os.unlink(p)
    by = {e["id"]: e for e in em}
    if not ok or len(by) != len(traces):
        bad = [t["id"] for t in traces if t["id"] not in by]
        raise Machinery("TLC %s: %d of %d verdicts, missing %s\n%s" % (module, len(by), len(traces), bad[:5], "\n".join(l for l in out.splitlines() if "rror" in l)[:2000] + out[-1500:]))
    return by, stats


def decide(cases, workers=8, chunk=4000):
    """ask TLC; fills case.verdict; returns stats"""
    tot = {"generated": 0, "distinct": 0}
    for k in range(0, len(cases), chunk):
        part = cases[k:k + chunk]
        by, stats = ask("Conform", [trace(c) for c in part], workers)
        for c in part:
            c.verdict = by[c.id]
        for q in tot:
            tot[q] += stats[q]
    return tot


def bad(case):
    """None, or why the observation is not what the specification says"""
    v = case.verdict
    if v["compile"] not in ("ok", "skip"):
        return "compiler: " + v["compile"]
    for r in v["runs"]:
        if r["v"] not in ("ok", "skip"):
            return "run %s: %s" % (r["tag"], r["v"])
    return None
