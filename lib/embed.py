"""Modules compiled to object files, used from a C program."""
import os, struct
import conform, gen
from build import VERIF

CT = {"Int": "int64_t", "Float": "double", "Bool": "_Bool", "Rune": "int32_t", "Str": "char *", None: "void"}
SHOW = {"Int": "pi", "Float": "pf", "Bool": "pb", "Rune": "pr", "Str": "ps"}
FORMS = [("-c",), ("-c", "-O1"), ("-c", "-O2"), ("-c", "-O3"), ("-c", "-g"), ("-S",), ("-S", "-O2"), ("-E",), ("-E", "-O1"), ("-c", "-g", "-O2"), ("-c", "--llvm-no-verify")]


class Mod:
    __slots__ = ("id", "src", "uses", "form", "obs", "verdict", "note", "exports", "name", "cells")

    def __init__(self, id, src, exports, uses, form, name="t", note="", cells=()):
        self.cells = list(cells)
        self.id, self.src, self.exports, self.uses, self.form, self.name, self.note = id, src.encode(), exports, uses, form, name, note
        self.obs = self.verdict = None


def value(r, ty):
    """(value of the specification, C expression)"""
    if ty == "Int":
        v = r.choice([0, 1, 2, 3, 7, -1, -2, 10, 100, r.randint(-1000, 1000)]) if r.random() < .85 else r.choice([2 ** 31, 2 ** 62, -2 ** 63, 2 ** 63 - 1])
        return str(v), "(int64_t)%dull" % (v % 2 ** 64)
    if ty == "Float":
        v = r.choice([0.0, 1.0, -1.5, 2.25, 1e10, 0.1, -0.0, r.uniform(-100, 100)])
        b = struct.unpack("<Q", struct.pack("<d", v))[0]
        return "%016x" % b, "d_(0x%xull)" % b
    if ty == "Bool":
        v = r.random() < .5
        return v, str(int(v))
    if ty == "Rune":
        v = r.choice([65, 97, 0x7f, 0xe9, 0x1f480, 10])
        return str(v), str(v)
    v = r.choice(["", "a", "abc", "héy", "ab", "s"]).encode()
    return v.hex(), '"%s"' % "".join("\\%03o" % c for c in v)


def module(r, **o):
    """a random module and how it is used"""
    for k, v in dict(exports=.8, stmts=(4, 11), getter=.02, edepth=2, refps=.5, tame=.85, wide=.15).items():
        o.setdefault(k, v)
    g = gen.Gen(r, **o)
    src = g.program()
    return src, list(g.exported)


def plain(t):
    return t in CT or t and t.startswith("&") and t[1:] in CT


def ctype(t):
    return CT[t[1:]] + " *" if t and t.startswith("&") else CT[t]


def cells_of(r):
    """variables of the C program: (type, value, C expression)"""
    return [(t,) + value(r, t) for t in ("Int", "Int", "Float", "Bool", "Str", "Rune")]


def uses_of(r, exports, n, cells):
    out = []
    base = [e for e in exports if all(plain(t) for t in list(e[2] or []) + [e[3]])]
    for _ in range(n if base else 0):
        k, f, ps, ret = r.choice(base)
        vs = [(0, r.choice([q for q, c in enumerate(cells, 1) if c[0] == t[1:]])) if t[0] == "&" else value(r, t) for t in ps] if k == "f" else []
        out.append((k, f, vs, ps, ret))
    return out


NAMES = ["t", "t", "d/t", "./t", "d/e/mod_x", "a.b", "m-n", "T1", "d.e/t", "é", "d/../t", "1x", "x__y", "d/a.b.c", "m n"]


def draw(r, id):
    while True:
        src, ex = module(r)
        cells = cells_of(r)
        us = uses_of(r, ex, r.randint(1, 8), cells)
        if us or r.random() < .1:
            form, name = r.choice(FORMS), r.choice(NAMES)
            if form[0] == "-S" and name == "1x":    # LLVM writes this name in a way no assembler reads
                name = "x1"
            return Mod(id, src, ex, us, form, name, "module", cells)


def module_name(m):
    return os.path.basename(m.name)


def quoted(m, f):
    """a name for the assembler, inside a C string"""
    return '\\"%s\\"' % (f % module_name(m))


def c_text(m):
    out = ["#include <stdint.h>", "#include <string.h>", "#include <stdio.h>", "#include <unistd.h>",
           "static double d_(uint64_t u) { double x; memcpy(&x, &u, 8); return x; }",
           "void pi(int64_t); void pf(double); void pb(_Bool); void pr(int32_t); void ps(char *); void v(void);",
           'int init_(void) __asm__("%s");' % quoted(m, ".%s")]
    for k, (t, _, e) in enumerate(m.cells, 1):
        out.append("static %s cell%d;" % (CT[t], k))
    seen = {}
    body = ["  cell%d = %s;" % (k, e) for k, (t, _, e) in enumerate(m.cells, 1)]
    for k, f, vs, ps, ret in m.uses:
        if (k, f) not in seen:
            seen[k, f] = "e%d" % len(seen)
            if k == "f":
                out.append('%s %s(%s) __asm__("%s");' % (ctype(ret), seen[k, f], ", ".join(ctype(t) for t in ps) or "void", quoted(m, "%s." + f)))
            else:
                out.append('extern %s %s __asm__("%s");' % (ctype(ret), seen[k, f], quoted(m, "%s." + f)))
        e = seen[k, f]
        refs = [c for t, (_, c) in zip(ps or [], vs) if t[0] == "&"]
        call = "%s(%s)" % (e, ", ".join("&cell%d" % c if t[0] == "&" else c for t, (_, c) in zip(ps, vs))) if k == "f" else e
        body.append("  %s; v();" % call if ret is None else "  %s(%s%s);" % (SHOW[ret.lstrip("&")], "*" if ret[0] == "&" else "", call))
        body += ["  %s(cell%d);" % (SHOW[m.cells[c - 1][0]], c) for c in refs]
    out += ["int main(void) {", "  int r = init_();", "  char b[32]; write(1, b, (size_t)sprintf(b, \"X %d\\n\", r & 255));"] + body + ["  return 0;", "}"]
    return "\n".join(out) + "\n"


def observe(s, m, ext):
    d = s.fresh()
    os.makedirs(os.path.dirname(os.path.join(d, m.name)), exist_ok=True)
    open(os.path.join(d, m.name + ".sk"), "wb").write(m.src)
    out = "m." + {"-c": "o", "-S": "s", "-E": "ll"}[m.form[0]]
    r = s.skull(d, m.name + ".sk", "-q", *m.form, "-o", out, timeout=20)
    m.obs = dict(rc=-2 if r.timeout else r.status, err=r.err.decode("utf-8", "replace"), syms=[], ev=[])
    if m.obs["rc"] != 0:
        return m

    def step(*cmd):
        q = s.exec(d, *cmd, timeout=60)
        if q.status:
            m.obs["ev"] = ["%s: %s" % (os.path.basename(cmd[0]), q.err.decode("utf-8", "replace")[:300])]
        return q.status == 0 and q
    if m.form[0] == "-S" and not step("/usr/bin/clang", "-c", "m.s", "-o", "m.o"):
        return m
    if m.form[0] == "-E" and not step("/usr/bin/llc-19", "-relocation-model=pic", "-filetype=obj", "m.ll", "-o", "m.o"):
        return m
    q = step("/usr/bin/nm", "-g", "--defined-only", "m.o")
    if not q:
        return m
    m.obs["syms"] = sorted(l.split(None, 2)[-1] for l in q.out.decode().splitlines() if l.strip())
    open(os.path.join(d, "drv.c"), "w").write(c_text(m))
    if not step("/usr/bin/gcc", "-w", "-O1", "drv.c", "m.o", ext, helpers_o(), "-lm", "-o", "drv"):
        return m
    q = conform.run_one(s, d, "d", "drv", False)
    m.obs["ev"] = q["ev"] + ([] if q["rc"] == 0 else ["exit status %d" % q["rc"]])
    return m


def helpers_o():
    return conform.object_of("helpers.c")


def trace(m):
    src, bad = conform.decode(m.src)
    return dict(id=m.id, src=src, bad=bad, file=m.name + ".sk", colour=False, werror=False, quiet=True, mods=[], run=True, probe="", module=module_name(m), cells=[dict(ty=t, v=v) for t, v, _ in m.cells],
                uses=[dict(f=f, get=k == "v", args=[a for a, _ in vs], refs=[c if t[0] == "&" else 0 for t, (_, c) in zip(ps or [], vs)]) for k, f, vs, ps, ret in m.uses], obs=m.obs)


def decide(mods, chunk=4000):
    tot = {"generated": 0, "distinct": 0}
    for k in range(0, len(mods), chunk):
        by, st = conform.ask("Embed", [trace(m) for m in mods[k:k + chunk]])
        for m in mods[k:k + chunk]:
            m.verdict = by[m.id]
        for q in tot:
            tot[q] += st[q]
    return tot
