"""Any bytes as source, under a memory checker, in several ways."""
import os
import conform, gen

FORMS = [("-E",), ("-E", "--c-backend"), ("-c", "-O2", "-o", "o.o"), ("-E", "-g"), ("-E", "--werror"), ("-S", "-q", "-o", "o.s"), ("-E", "--color"), ("-E", "-O1", "-g", "-q"), ("--c-backend", "-q", "-o", "o.c")]


class Text:
    __slots__ = ("id", "src", "forms", "large", "note", "obs", "verdict")

    def __init__(self, id, src, forms, large=False, note=""):
        self.id, self.src, self.forms, self.large, self.note = id, src if isinstance(src, bytes) else src.encode("utf-8", "surrogatepass"), forms, large, note
        self.obs = self.verdict = None


def observe(s, t, ext=None):
    d = s.fresh()
    open(os.path.join(d, "t.sk"), "wb").write(t.src)
    out = []
    for f in t.forms:
        r = s.skull(d, *f, "t.sk", timeout=60)
        err = r.err.decode("utf-8", "replace")
        harm = ""
        if "AddressSanitizer" in err or "runtime error:" in err:
            harm = "\n".join([l for l in err.splitlines() if "Sanitizer" in l or "runtime error" in l or l.lstrip().startswith("#")][:12])
        out.append(dict(name=" ".join(f), werror="--werror" in f, rc=-2 if r.timeout else r.status, err=len(err), shown="Compilation error" in err, harm=harm))
    t.obs = dict(forms=out)
    return t


def trace(t):
    src, bad = ([], 0) if t.large else conform.decode(t.src)
    return dict(id=t.id, src=src, bad=bad, file="t.sk", colour=False, werror=False, quiet=False, mods=[], run=False, probe="", large=t.large, obs=t.obs)


def decide(ts, chunk=4000):
    tot = {"generated": 0, "distinct": 0}
    for k in range(0, len(ts), chunk):
        by, st = conform.ask("Robust", [trace(t) for t in ts[k:k + chunk]])
        for t in ts[k:k + chunk]:
            t.verdict = by[t.id]
        for q in tot:
            tot[q] += st[q]
    return tot


# ------------------------------------------------------------------- texts
def bytes_of(r):
    """a program with some of its bytes changed"""
    b = bytearray(gen.Gen(r, stmts=(1, 6)).program().encode())
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        i = r.randrange(len(b) + 1)
        k = r.random()
        if k < .3 and i < len(b):
            b[i] = r.choice([0, 1, 9, 10, 13, 32, 34, 35, 39, 92, 127, 128, 0xc3, 0xe2, 0xf0, 0xff, r.randrange(256)])
        elif k < .5:
            b[i:i] = bytes([r.randrange(256) for _ in range(r.choice([1, 1, 2, 4]))])
        elif k < .7:
            del b[i:i + r.choice([1, 1, 2, 5, 20])]
        elif k < .8:
            del b[i:]
        elif k < .9:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.choice([1, 3, 10, 40])]
        else:
            b[i:i] = r.choice([b"\xef\xbb\xbf", b"\xf0\x9f\x92\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x80\xa8", b"\r\n", b"\\", b"'", b'"', b"#{", b"#}", b"&", b"0x", b"1e", b"''"])
    return bytes(b)


def random_bytes(r):
    return bytes(r.choice([r.randrange(256), r.choice(b"ab01 \n{}()'\"#\\:=.,&*-+")]) for _ in range(r.randint(0, 30)))


def huge(r):
    """long words, quotes, lines and lists, deep nesting"""
    n = r.choice([255, 256, 257, 1000, 4095, 4096, 5000, 70000])
    d = r.choice([10, 64, 100, 200])
    L = min(n, 800)
    return r.choice([
        lambda: "a" * n + " := 1\n", lambda: "x := " + "1" * n + "\n", lambda: "x := 0x" + "0" * n + "1\n", lambda: "x := 1." + "3" * n + "\n", lambda: 'x := "' + "é" * n + '"\n', lambda: 'x := "' + "💀" * n + '"\n', lambda: 'x := "' + "中" * n + '"\n', lambda: "# " + "💀" * n, lambda: 'x := "' + "\\x1F480" * n + '"\n',
        lambda: "x" + "💀" * n + " := 1\n", lambda: 'x := "' + "💀\\n" * n, lambda: 'f("' + "\U0010ffff" * n + '")\n', lambda: "x := '" + "💀" * n + "'\n",
        lambda: "x := '" + "a" * n + "'\n", lambda: 'x := "' + "\\n" * n + '"\n', lambda: "# " + "c" * n + "\nx := 1\n", lambda: "#{ " + "c\n" * n + " #}\nx := 1\n", lambda: "\n" * n + "x := nope\n",
        lambda: " " * n + "x := nope\n", lambda: "x := " + "(" * d + "1" + ")" * d + "\n", lambda: "x := " + "(" * d + "1\n", lambda: "x := true\ny := " + "not " * d + "x\n", lambda: "x := 1\ny := " + "&" * d + "x\n",
        lambda: "if true {\n" * d + "noop\n" + "}\n" * d, lambda: "while false {\n" * d + "}\n" * d, lambda: "namespace a {\n" * d + "}\n" * d, lambda: "if true {\n" * d,
        lambda: "x := " + " + ".join(["1"] * L) + "\n", lambda: "x := " + " - ".join(["1.5"] * L) + "\n", lambda: "f(" + ", ".join("a%d: Int" % k for k in range(L)) + ") {}\nf(" + ", ".join(["1"] * L) + ")\n",
        lambda: "f(" + ", ".join("a%d: Int" % k for k in range(L)) + ") {}\nf(" + ", ".join(["1"] * (L - 1)) + ")\n", lambda: "".join("v%d := %d\n" % (k, k) for k in range(L)),
        lambda: "".join("f%d() { noop }\n" % k for k in range(L)), lambda: "x: " + "&" * d + "Int = 1\n", lambda: "f(x: " + "&" * d + "Int) {}\n", lambda: ".".join(["a"] * n) + "\n", lambda: "}" * n, lambda: "(" * d, lambda: "#" * n,
        lambda: "'" * n, lambda: '"' * n, lambda: "\\" * n, lambda: "import " + "a" * n + "\n", lambda: "x := nope" + "y" * n + "\n", lambda: "if true {}\n" + "elif true {}\n" * L + "else {}\n", lambda: "a" * n + ": " + "b" * n + " = 1\n",
        lambda: "T := " + "&" * d + "Int\n", lambda: "".join("T%d := %sInt\n" % (k, "&" if k else "") for k in range(d)), lambda: "namespace n {\n" + "".join("export v%d := %d\n" % (k, k) for k in range(d)) + "}\n", lambda: "return\n" + "noop\n" * n,
        lambda: "x := 1 " + "is 1 " * d + "\n", lambda: "mut x := 1\n" + "x = x + 1\n" * L, lambda: "f() Int { return f() }\n" + "f()\n" * L, lambda: "x := 0b" + "1" * d + "\n", lambda: "x := " + "-" * d + "1\n", lambda: "external " + "f" * n + "()\n",
    ])()
