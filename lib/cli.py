"""Invocations of the real compiler, with the files there are before and after."""
import json, os, shutil, subprocess, tempfile
import build, conform
from build import BUILD, ENV
from conform import Machinery

# path: (kind, bytes)
WORLD = {
    "a.sk": ("src", b"return 7\n"), "sub/a.sk": ("src", b"return 9\n"), "sub/w.sk": ("src", b"x := 1\nreturn 10\n"), "sub.d/a.sk": ("src", b"return 21\n"),
    "w.sk": ("src", b"mut x := 4\nif true { x = 5 }\nunused := 1\nreturn x\n"), "e.sk": ("src", b"return 1.5\n"), "p.sk": ("src", b"x := (1\n"), "n.sk": ("src", b""),
    "u.sk": ("src", b"return 1\n\xff\n"), "b.sk": ("src", b"return 3\n"), "b": ("dir", None), "sub": ("dir", None), "sub.d": ("dir", None), "d.sk": ("dir", None), "dd": ("dir", None),
    "s p.sk": ("src", b"return 11\n"), "q'$.sk": ("src", b"return 12\n"), "x.txt": ("file", b"hello"), "st.sk": ("src", b"return 13\n"), "st": ("file", b"#!/bin/sh\nexit 99\n"),
    ".st.sk.o": ("file", b"old content\n" * 5000), ".st.sk.c": ("file", b"old content\n" * 5000), ".st.sk.s": ("file", b"old content\n" * 5000), "old": ("file", b"old content\n" * 5000), "full": ("full", None),
    "blk.sk": ("src", b"return 14\n"), ".blk.sk.o": ("dir", None), ".blk.sk.s": ("dir", None), ".blk.sk.c": ("dir", None), "a.b.sk": ("src", b"return 15\n"),
    "a.sk.sk": ("src", b"return 16\n"), "l.sk": ("src", b"return 17 # no newline at the end"), "ü.sk": ("src", b"return 18\n"), "i\"j\\k.sk": ("src", b"return 22\n"), "1 2.sk": ("src", b"export x := 23\nreturn x\n"), "ext.o": ("file", None), "x y.o": ("file", None), "z'$.o": ("file", None),
}


def start_s(name):
    return ('.globl main\nmain:\n\tsub $8, %%rsp\n\tcall "%s"\n\tadd $8, %%rsp\n\tret\n.section .note.GNU-stack,"",@progbits\n' % name).encode()


def make_world(d, ext):
    for p, (k, b) in WORLD.items():
        q = os.path.join(d, p)
        if k == "dir":
            os.makedirs(q, exist_ok=True)
    for p, (k, b) in WORLD.items():
        q = os.path.join(d, p)
        if k == "full":
            os.symlink("/dev/full", q)
        elif k == "file" and b is None:
            shutil.copyfile(ext, q)
        elif k != "dir":
            with open(q, "wb") as h:
                h.write(b)


def snapshot(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds + fs:
            q = os.path.join(base, x)
            p = os.path.relpath(q, d)
            if os.path.islink(q):
                out[p] = ("link", os.readlink(q))
            elif os.path.isdir(q):
                out[p] = ("dir", None)
            else:
                with open(q, "rb") as h:
                    out[p] = ("file", h.read())
    return out


def kind(s, tmp, b, mod):
    """what bytes are, and the exit status of the program they stand for"""
    if b"old content" in b:
        return "what was there before, in part"
    if b[:4] == b"\x7fELF":
        k = {1: "obj", 2: "program", 3: "program"}.get(b[16], "elf")
    elif b.startswith(b"; ModuleID"):
        k = "ir"
    elif b.startswith(b"#include <stdint.h>"):
        k = "c"
    elif b"\t.text" in b[:200]:
        k = "asm"
    elif b.startswith(b"skull [-v|"):
        return "usage"
    elif b"verif\n" in b and b"Skull" in b:
        return "version"
    else:
        return "?%s" % b[:40].decode("utf-8", "replace") if b else ""
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    ext = {"obj": "o", "asm": "s", "ir": "ll", "c": "c", "program": "x"}[k]
    f = os.path.join(tmp, "f." + ext)
    with open(f, "wb") as h:
        h.write(b)
    if k == "program":
        os.chmod(f, 0o755)
        r = s.exec(tmp, f)
        return "%s %d" % (k, r.status)
    args = []
    if k != "c":
        with open(os.path.join(tmp, "start.s"), "wb") as h:
            h.write(start_s("." + mod.replace("\\", "\\\\").replace('"', '\\"')))
        args = ["start.s"]
    if k == "asm":
        if s.exec(tmp, "/usr/bin/clang", "-c", "f.s", "-o", "f.o", timeout=60).status:
            return k + " that cannot be assembled"
        f = "f.o"
    if k == "ir":
        r = s.exec(tmp, "/usr/bin/llc-19", "-relocation-model=pic", "-filetype=obj", "f.ll", "-o", "f.o")
        if r.status:
            return k + " that llc refuses"
        f = "f.o"
    r = s.exec(tmp, "/usr/bin/gcc", "-w", "-std=gnu2x", os.path.basename(f), *args, "-lm", "-o", "x", timeout=60)
    if r.status:
        return k + " that cannot be linked"
    return "%s %d" % (k, s.exec(tmp, os.path.join(tmp, "x")).status)


FAKE = {"fail": "#!/bin/sh\necho failing >&2\nexit 1\n", "kill": "#!/bin/sh\necho ending >&2\nkill -9 $$\n",
        # the shell that runs the linker comes to a sudden end
        "killsh": '#!/bin/sh\necho ending >&2\nread -r n < /proc/$PPID/comm\n[ "$n" = sh ] && kill -9 $PPID\nkill -9 $$\n',
        "part": '#!/bin/sh\nwhile [ $# -gt 0 ]; do if [ "$1" = -o ]; then printf x > "$2"; fi; shift; done\necho part >&2\nexit 3\n'}


class Call:
    __slots__ = ("id", "args", "env", "linker", "obs", "verdict")

    def __init__(self, id, args, env=(), linker="ok"):
        self.id, self.args, self.env, self.linker = id, list(args), list(env), linker
        self.obs = self.verdict = None


def source_of(args):
    """the last argument that names a source (for the name of the module)"""
    f = [a for a in args if a.endswith(".sk") and not a.startswith("-")]
    return f


def observe(s, c, ext):
    top = s.fresh()
    d = os.path.join(top, "w")
    os.mkdir(d)
    make_world(d, ext)
    before = snapshot(d)
    env = ["COLOR=" + c.env[0]] if c.env else []
    if c.linker != "ok":
        fake = os.path.join(top, "fake")
        os.mkdir(fake)
        if c.linker in FAKE:
            with open(os.path.join(fake, "cc"), "w") as h:
                h.write(FAKE[c.linker])
            os.chmod(os.path.join(fake, "cc"), 0o755)
        env.append("PATH=" + fake)
    r = s.skull(d, *c.args, env=env, timeout=30)
    after = snapshot(d)
    mods = [os.path.basename(a)[:-3] for a in source_of(c.args)] or ["x"]
    tmp = os.path.join(top, "t")

    def what(b):
        got = ""
        for m in mods:
            got = kind(s, tmp, b, m)
            if "cannot be linked" not in got:
                break
        return got
    fs = []
    for p, v in sorted(after.items()):
        if before.get(p) == v:
            fs.append(dict(p=p, k=WORLD[p][0]))
        else:
            fs.append(dict(p=p, k=what(v[1]) if v[0] == "file" else "changed " + v[0]))
    c.obs = dict(rc=-2 if r.timeout else r.status, out=what(r.out), err=r.err.decode("utf-8", "replace"), fs=fs)
    return c


def trace(c):
    fs = [dict(p=p, k=k) for p, (k, _) in sorted(WORLD.items())]
    srcs = [(p, b) for p, (k, b) in sorted(WORLD.items()) if k == "src"]
    return dict(id=c.id, args=c.args, env=c.env, linker=c.linker, fs=fs,
                srcs=[dict(p=p, src=conform.decode(b)[0], bad=conform.decode(b)[1]) for p, b in srcs], obs=c.obs)


def commands(kit):
    out, em, stats, ok = conform.tlc("CliGen", env={"SKULL_KIT": kit}, workers=2, xmx="4g")
    if not ok or not em:
        raise Machinery("CliGen %s: %s" % (kit, out[-2000:]))
    return sorted(em, key=lambda e: json.dumps(e)), stats


def decide(calls, workers=8, chunk=4000):
    tot = {"generated": 0, "distinct": 0}
    for k in range(0, len(calls), chunk):
        part = calls[k:k + chunk]
        em, stats = conform.ask("CliConform", [trace(c) for c in part], workers)
        for c in part:
            c.verdict = em[c.id]
        for q in tot:
            tot[q] += stats[q]
    return tot
