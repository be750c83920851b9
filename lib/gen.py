"""Random programs.  Nothing here decides what a program should do: the
specification does.  A Gen produces well-typed programs most of the time;
mutate() and soup() produce the rest."""
import random

TYPES = ["Int", "Float", "Bool", "Rune", "Str"]
EXT = {"pi": ("Int", None), "pf": ("Float", None), "pb": ("Bool", None), "pr": ("Rune", None), "ps": ("Str", None),
       "gi": ("Int", "Int"), "gf": ("Float", "Float"), "gb": ("Bool", "Bool"), "gr": ("Rune", "Rune"),
       "gs": ("Str", "Str"), "tk": (None, "Bool"), "di": ("&Int", None), "df": ("&Float", None)}
PUT = {"Int": "pi", "Float": "pf", "Bool": "pb", "Rune": "pr", "Str": "ps"}
GET = {"Int": "gi", "Float": "gf", "Bool": "gb", "Rune": "gr", "Str": "gs"}


class Var:
    def __init__(s, name, ty, mut, fn, known=None):
        s.name, s.ty, s.mut, s.fn, s.known = name, ty, mut, fn, known


class Fn:
    def __init__(s, name, ps, ret):
        s.name, s.ps, s.ret = name, ps, ret


class Scope:
    def __init__(s, kind, fn):
        s.kind, s.fn, s.vars, s.fns, s.aliases = kind, fn, [], [], []
        s.names = set()


class Gen:
    def __init__(self, rng, **o):
        self.r = rng
        self.o = dict(stmts=(3, 14), depth=3, edepth=3, funcs=True, loops=True, refs=True, ns=True, alias=True,
                      comments=0.15, trivia=0.25, calls=0.25, exports=0.05, mutbias=0.5, reuse=0.4, types=TYPES, hot=0.1,
                      getter=0.3, wide=0, tame=0, refps=0.25, effects=1.0, tick=True)
        self.o.update(o)
        self.scopes = [Scope("top", 0)]
        self.nfn = 0
        self.fnid = 0
        self.nn = 0
        self.out = []
        self.ind = 0
        self.used = set()
        self.exported = []
        self.loop = 0
        self.freed = []        # names that ended with their block
        self.budget = 90

    # ---- names
    def visible(self):
        s = set(EXT) | {"Int", "Float", "Bool", "Rune", "Str", "Void"}
        for c in self.scopes:
            s |= c.names
        return s

    def fresh(self):
        vis = self.visible()
        c = [n for n in self.freed if n not in vis]
        if c and self.r.random() < self.o["reuse"]:
            n = self.r.choice(c)
        else:
            while True:
                self.nn += 1
                n = self.r.choice("abcdefxyzkv") + "_" + str(self.nn)
                if self.r.random() < 0.1:
                    n += self.r.choice(["_", "_a", "B", "X9"])
                if n not in vis:
                    break
        self.scopes[-1].names.add(n)
        return n

    def vars(self, ty=None, mut=None):
        res = []
        for c in self.scopes:
            for v in c.vars:
                if v.fn not in (0, self.fnid):
                    continue
                if ty is not None and v.ty != ty:
                    continue
                if mut is not None and v.mut != mut:
                    continue
                res.append(v)
        return res

    def fns(self, ret="any"):
        return [f for c in self.scopes for f in c.fns if ret == "any" or f.ret == ret]

    def ext(self, n):
        self.used.add(n)
        return n

    def tyname(self, ty):
        if ty.startswith("&"):
            return "&" + self.tyname(ty[1:])
        al = [a for c in self.scopes for a, t in c.aliases if t == ty]
        if al and self.r.random() < 0.4:
            return self.r.choice(al)
        return ty

    # ---- expressions: text, with a precedence level (0 atom .. 9)
    def int_lit(self):
        r = self.r
        k = r.random()
        if k < 0.55 or r.random() < self.o["tame"]:
            return str(r.randint(0, 12))
        if k < 0.7:
            return str(r.randint(-20, 300))
        if k < 0.78:
            n = r.randint(0, 1 << r.randint(1, 62))
            return r.choice([hex(n), "0x%X" % n, "0o%o" % n, "0b" + bin(n)[2:], str(n)])
        if k < 0.84:
            s = "%d" % r.randint(1000, 10**r.randint(4, 18))
            p = r.randint(1, len(s) - 1)
            return s[:p] + "_" + s[p:]
        if k < 0.9:
            return str(r.choice([9223372036854775807, -9223372036854775808, 2147483647, 2147483648, -2147483648, -1,
                                 4294967296, 255, 256, 4294967295]))
        return str(r.randint(0, 3))

    def float_lit(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return "%d.%d" % (r.randint(0, 20), r.choice([0, 5, 25, 75, 125]))
        if k < 0.7:
            return "%d.%d" % (r.randint(-300, 300), r.randint(0, 99999))
        if k < 0.76:
            return r.choice(["Infinity", "-Infinity", "NaN"])
        if k < 0.85:
            return r.choice(["0.1", "0.2", "0.30000000000000004", "1.7976931348623157" + "0" * 3, "0.0", "-0.0", "123456789.987654321",
                             "1_000.5", "9007199254740993.0"])
        return "%d.%d" % (r.randint(0, 4), r.randint(0, 9))

    def rune_lit(self):
        r = self.r
        return "'" + r.choice(["a", "Z", "0", " ", "\\n", "\\t", "\\r", "\\e", "\\0", "\\\\", "\\'", '\\"', '"', "\\x41",
                               "\\x0041", "\\xe9", "é", "中", "💀", "\\x1F480", "#", "{", "\\x7f", "~", "⌘"]) + "'"

    def str_lit(self):
        r = self.r
        parts = [r.choice(["a", "bc", "X", " ", "\\n", "\\t", "\\\\", '\\"', "'", "\\'", "\\x41", "é", "💀", "#", "# ", "#{", "{", "}",
                           "(", ",", "%d", "%s", "??/", "\\x1", "\\e", "\\r", "1", "\\xC3", "\\x7f"]) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        if r.random() < 0.03:
            parts.append("\\0z")
        s = ""
        for p in parts:
            s += p
        return '"' + s + '"'

    def lit(self, ty):
        r = self.r
        return {"Int": self.int_lit, "Float": self.float_lit, "Bool": lambda: r.choice(["true", "false"]),
                "Rune": self.rune_lit, "Str": self.str_lit}[ty]()

    def par(self, t, p, limit):
        """bracket text t of level p where only levels <= limit may stand bare"""
        if p > limit or self.r.random() < 0.06:
            return "(" + t + ")" if self.r.random() < 0.8 else "( " + t + " )"
        return t

    def expr(self, ty, d=None, mx=9):
        t, p = self.expr_(ty, self.o["edepth"] if d is None else d)
        return None if t is None else self.par(t, p, mx)

    def atom(self, ty):
        r = self.r
        vs = self.vars(ty)
        if vs and r.random() < 0.65:
            return r.choice(vs).name, 0
        if ty.startswith("&"):
            base = self.vars(ty[1:])
            if base and r.random() < 0.9 or not vs:
                if not base:
                    return None, 0
                return "&" + r.choice(["", "", " "]) + r.choice(base).name, 1
            return r.choice(vs).name, 0
        rs = self.vars("&" + ty)
        if rs and r.random() < 0.5:
            return "*" + r.choice(rs).name, 1
        return self.lit(ty), 0

    def call_fn(self, f, d):
        args = []
        for t in f.ps:
            a = self.expr(t, d - 1)
            if a is None or a == "None":
                return None
            args.append(a)
        sep = self.r.choice([", ", ", ", ",", " , "])
        if args and self.r.random() < 0.03:
            args.append("")
        return f.name + "(" + sep.join(args) + ")"

    def expr_(self, ty, d):
        r = self.r
        if d <= 0 or ty.startswith("&") or r.random() < 0.12:
            return self.atom(ty)
        k = r.random()
        if k < self.o["calls"]:
            fs = self.fns(ty)
            if fs and r.random() < 0.7:
                f = r.choice(fs)
                if self.callable_(f):
                    c = self.call_fn(f, d)
                    if c:
                        return c, 0
            if r.random() < self.o["getter"]:
                return self.ext(GET[ty]) + "(" + self.expr(ty, d - 1) + ")", 0

        def bi(op, lv, t, rt=None):
            # left operand may be of the same level, right must bind tighter
            l = self.expr(t, d - 1, lv)
            rr = self.expr(rt or t, d - 1, lv - 1 if lv > 0 else 0)
            return l + " " + op + " " + rr, lv
        if ty == "Int":
            op = r.choice(["+", "-", "*", "/", "mod", "^", "<<", ">>", "neg", "+", "-", "atom"])
            if op == "atom":
                return self.atom(ty)
            if op == "neg":
                return "- " + self.expr(ty, d - 1, 2) if r.random() < .5 else "-(" + self.expr(ty, d - 1) + ")", 3
            if op in ("/", "mod"):
                if r.random() < 0.8:
                    return self.expr(ty, d - 1, 4) + " " + op + " " + r.choice(["2", "3", "7", "-3", "10", "1"]), 4
                return bi(op, 4, ty)
            if op == "^":
                return self.expr(ty, 0, 1) + " ^ " + r.choice(["2", "3", "1", "0", "5", self.expr(ty, 0, 1)]), 2
            if op in ("<<", ">>"):
                return self.expr(ty, d - 1, 6) + " " + op + " " + r.choice(["1", "2", "3", "4", "8", "31", "40", self.expr(ty, 0, 5)]), 6
            return bi(op, 4 if op == "*" else 5, ty)
        if ty == "Float":
            op = r.choice(["+", "-", "*", "/", "mod", "^", "neg", "+", "-"])
            if op == "neg":
                return "- " + self.expr(ty, d - 1, 2), 3
            if op == "^":
                return self.expr(ty, 0, 1) + " ^ " + r.choice(["2.0", "1.0", "3.0", "0.0", "-1.0"]), 2
            return bi(op, {"*": 4, "/": 4, "mod": 4}.get(op, 5), ty)
        if ty == "Bool":
            op = r.choice(["and", "or", "xor", "not", "is", "isnt", "<", ">", "<=", ">=", "is", "<"])
            if op == "not":
                return "not " + self.expr(ty, d - 1, 2), 3
            if op in ("and", "or", "xor"):
                return bi(op, 6, ty)
            if op in ("is", "isnt"):
                t = r.choice(self.o["types"])
                if self.o["refs"] and r.random() < 0.1:
                    t2 = "&" + r.choice(["Int", "Float", "Bool"])
                    if self.vars(t2[1:]):
                        return bi(op, 7, t2)
                return bi(op, 7, t)
            return bi(op, 7, r.choice([t for t in ("Int", "Float") if t in self.o["types"]] or ["Int"]))
        return self.atom(ty)

    def callable_(self, f):
        """recursive calls only from where recursion is bounded (see func)"""
        return f not in getattr(self, "open_fns", [])

    # ---- statements
    def emit(self, s):
        self.out.append("\t" * self.ind + s if self.tab else "  " * self.ind + s)

    def comment(self):
        r = self.r
        t = r.choice(["note", "x := 1", "if true {", "\"quote", "it's", "}", "", "é 💀", "#", "a # b"])
        if r.random() < 0.25:
            t = t.replace("#", "").replace("\n", "")
            return "#{ " + t + r.choice([" #}", "\n more #}", "##}"])
        return "# " + t

    def tail(self):
        return " " + self.comment() if self.r.random() < self.o["comments"] / 4 else ""

    def put(self):
        r = self.r
        ty = r.choice(self.o["types"])
        if self.o["refs"] and r.random() < 0.1:
            t = r.choice(["Int", "Float"])
            if self.vars(t) and t in self.o["types"]:
                return self.emit(self.ext({"Int": "di", "Float": "df"}[t]) + "(" + self.expr("&" + t, 0) + ")")
        self.emit(self.ext(PUT[ty]) + "(" + self.expr(ty) + ")" + self.tail())

    def define(self, ty=None, mut=None):
        r = self.r
        if ty is None:
            ty = r.choice(self.o["types"])
            if self.o["refs"] and r.random() < 0.15:
                vs = self.vars()
                if vs:
                    v = r.choice(vs)
                    if v.ty.count("&") < 2:
                        ty = "&" + v.ty
        mut = r.random() < self.o["mutbias"] if mut is None else mut
        e = self.expr(ty)
        if e is None or e == "None":
            return
        explicit = r.random() < 0.3
        pre = "mut " if mut else ""
        if not mut and self.o["exports"] and r.random() < self.o["exports"] and len(self.scopes) == 1:
            pre = "export "
        exported = pre == "export "
        tn = self.tyname(ty)
        n = self.fresh()
        if exported:
            self.exported.append(("v", n, None, ty))
        if explicit:
            self.emit(pre + n + ": " + tn + " = " + e + self.tail())
        else:
            self.emit(pre + n + " := " + e + self.tail())
        self.scopes[-1].vars.append(Var(n, ty, mut, self.fnid))

    def assign(self):
        vs = [v for v in self.vars(mut=True) if not v.name.startswith("loop")]
        if not vs:
            return self.define(mut=True)
        v = self.r.choice(vs)
        e = self.expr(v.ty)
        if e is None or e == "None" or e.strip("() ") == v.name:
            return self.put()
        self.emit(v.name + " = " + e + self.tail())

    def push(self, kind):
        self.scopes.append(Scope(kind, self.fnid))

    def pop(self):
        s = self.scopes.pop()
        self.freed += sorted(s.names)
        return s

    def block(self, kind, n, last=None):
        self.push(kind)
        self.ind += 1
        k = len(self.out)
        for _ in range(n):
            self.stmt()
        if last:
            last()
        if len(self.out) == k:
            self.emit(self.r.choice(["noop", "noop", self.comment()]))
        self.ind -= 1
        return self.pop()

    def if_(self):
        r = self.r
        n = lambda: r.choice([0, 1, 1, 2, 3])
        jump = lambda: self.jump() if r.random() < 0.25 else None
        self.emit("if " + self.cond() + r.choice([" {", " {", "\n" + "  " * self.ind + "{"]))
        self.block("if", n(), jump)
        self.emit("}")
        for kw in (["elif"] * r.choice([0, 0, 0, 1, 1, 2]) + ["else"] * r.choice([0, 1])):
            while r.random() < self.o["comments"]:
                self.emit(self.comment())
            self.emit(kw + (" " + self.cond() if kw == "elif" else "") + " {")
            self.block("if", n(), jump)
            self.emit("}")

    def cond(self):
        if self.r.random() < 0.03:
            return self.r.choice(["true", "false", "(true)"])
        if self.o["tick"] and self.r.random() < 0.25:
            return self.ext("tk") + "()" + self.r.choice(["", "", " and (" + self.expr("Bool", 1) + ")"])
        return self.expr("Bool")

    def jump(self):
        r = self.r
        if self.loop and r.random() < 0.6:
            if r.random() < 0.5:
                self.emit("break")
            else:
                self.emit(self.loopinc[-1])
                self.emit("continue")
        elif r.random() < 0.5:
            self.ret()
        elif r.random() < 0.1:
            self.emit("unreachable")

    def while_(self):
        r = self.r
        if self.o["tick"] and r.random() < 0.3:
            self.emit("while %s() {" % self.ext("tk"))
            self.loop += 1
            self.loopinc.append("noop")
            self.block("while", r.choice([1, 1, 2, 3]), lambda: r.random() < 0.08 and self.emit("continue"))
            self.loopinc.pop()
            self.loop -= 1
            self.emit("}")
            return
        self.nn += 1
        c = "loop%d" % self.nn
        self.scopes[-1].names.add(c)
        up = r.random() < 0.7
        n = r.randint(0, 4)
        step = r.choice([1, 1, 2])
        if up:
            self.emit("mut %s := %d" % (c, r.randint(-1, 1)))
            cond, inc = r.choice(["%s < %d", "%s <= %d", "not (%s >= %d)"]) % (c, n), "%s = %s + %d" % (c, c, step)
        else:
            self.emit("mut %s := %d" % (c, n))
            cond, inc = "%s > %d" % (c, r.randint(-1, 1)), "%s = %s - %d" % (c, c, step)
        self.scopes[-1].vars.append(Var(c, "Int", True, self.fnid))
        if r.random() < 0.2:
            cond = self.expr("Bool", 1, 5) + " and " + "(" + cond + ")"
        self.emit("while " + cond + " {")
        self.loop += 1
        self.loopinc.append(inc)
        self.block("while", r.choice([1, 1, 2, 3]), lambda: (self.emit(inc), r.random() < 0.08 and self.emit("continue")))
        self.loopinc.pop()
        self.loop -= 1
        self.emit("}")

    def ret(self):
        t = self.rets[-1]
        if t is None:
            self.emit("return")
        else:
            e = self.expr(t, 2)
            if e is None or e == "None":
                return
            self.emit("return " + e)

    def func(self):
        r = self.r
        name = self.fresh()
        nps = r.choice([0, 1, 1, 2, 3]) if r.random() >= self.o["wide"] else r.randint(4, 12)
        pts = [r.choice(self.o["types"]) for _ in range(nps)]
        if self.o["refs"] and pts and r.random() < self.o["refps"]:
            for k in range(1 + (self.o["refps"] > .3 and r.random() < .5)):
                pts[r.randrange(nps)] = "&" + r.choice([t for t in ("Int", "Float", "Bool", "Str") if t in self.o["types"]] or ["Int"])
        ret = r.choice([None] + self.o["types"] + self.o["types"])
        rec = r.random() < 0.25 and ret in ("Int", "Float", "Bool", None)
        if rec:
            pts = ["Int"] + [t for t in pts[:1] if not t.startswith("&")]
        f = Fn(name, pts, ret)
        self.scopes[-1].fns.append(f)
        exp = self.o["exports"] and len(self.scopes) == 1 and r.random() < self.o["exports"]
        if exp:
            self.exported.append(("f", name, pts, ret))
        saved = (self.fnid, self.loop, self.loopinc)
        self.nfn += 1
        self.fnid, self.loop, self.loopinc = self.nfn, 0, []
        self.push("func")
        self.open_fns.append(f)
        self.rets.append(ret)
        tns = [self.tyname(t) for t in pts]
        rt = "" if ret is None else " " + self.tyname(ret)
        ns = [self.fresh() for _ in pts]
        # the parser wants "name: Type"
        self.emit(("export " if exp else "") + name + "(" + ", ".join(a + ": " + b for a, b in zip(ns, tns)) + ")" + rt + " {")
        for n, t in zip(ns, pts):
            self.scopes[-1].vars.append(Var(n, t, False, self.fnid))
        self.ind += 1
        k = len(self.out)
        if rec:
            p = ns[0]
            self.emit("if %s %s {" % (p, r.choice(["<= 0", "< 1", "<= 1"])))
            self.ind += 1
            self.push("if")
            self.ret()
            self.pop()
            self.ind -= 1
            self.emit("}")
            rest = ", ".join([p + " - " + r.choice(["1", "1", "2"])] + [self.expr(t, 1) for t in pts[1:]])
            call = name + "(" + rest + ")"
            for _ in range(r.choice([0, 1])):
                self.stmt()
            if ret is None:
                self.emit(call)
                if r.random() < 0.4:
                    self.put()
            else:
                op = {"Int": r.choice(["+", "-"]), "Float": "+", "Bool": r.choice(["and", "or", "xor"])}[ret]
                v = self.fresh()
                self.emit("%s := %s" % (v, call))
                self.scopes[-1].vars.append(Var(v, ret, False, self.fnid))
                self.emit("return %s %s %s" % (v, op, self.expr(ret, 1, 3)))
        else:
            for _ in range(r.choice([0, 1, 2, 3])):
                self.stmt()
            if ret is not None or r.random() < 0.2:
                self.ret()
                if r.random() < 0.1:
                    self.emit(r.choice(["noop", "unreachable", self.comment()]))
        if len(self.out) == k:
            self.emit("noop")
        self.ind -= 1
        self.emit("}")
        self.pop()
        self.rets.pop()
        self.open_fns.pop()
        self.fnid, self.loop, self.loopinc = saved

    def callstmt(self):
        fs = [f for f in self.fns() if self.callable_(f)]
        if not fs:
            return self.put()
        f = self.r.choice(fs)
        c = self.call_fn(f, 2)
        if not c:
            return self.put()
        self.emit(c + self.tail())

    def namespace(self):
        n = self.fresh()
        self.emit("namespace " + n + " {")
        s = self.block("ns", self.r.choice([1, 2, 3]))
        self.emit("}")
        t = self.scopes[-1]
        for v in s.vars:
            t.vars.append(Var(n + "." + v.name, v.ty, v.mut, v.fn))
        for f in s.fns:
            t.fns.append(Fn(n + "." + f.name, f.ps, f.ret))
        for a, ty in s.aliases:
            t.aliases.append((n + "." + a, ty))

    def alias_(self):
        ty = self.r.choice(self.o["types"])
        if self.r.random() < 0.2:
            ty = "&" + ty
        tn = self.tyname(ty)
        n = self.fresh()
        self.emit(n + " := " + tn)
        self.scopes[-1].aliases.append((n, ty))

    def stmt(self):
        r, o = self.r, self.o
        self.budget -= 1
        if self.budget < 0:
            return self.put()
        if r.random() < o["comments"] / 3:
            self.emit(self.comment())
        deep = len(self.scopes) > o["depth"]
        ch = [(self.put, 5 * o["effects"]), (self.define, 5), (self.assign, 3), (self.callstmt, 2)]
        if r.random() < 0.05:
            return self.emit("noop")
        if not deep:
            ch.append((self.if_, 3))
            if o["loops"]:
                ch.append((self.while_, 2))
            if o["funcs"]:
                ch.append((self.func, 2.5))
            if o["ns"] and self.fnid == 0 and all(c.kind in ("top", "ns") for c in self.scopes):
                ch.append((self.namespace, 1))
        if o["alias"]:
            ch.append((self.alias_, 0.5))
        tot = sum(w for _, w in ch)
        k = r.random() * tot
        for f, w in ch:
            k -= w
            if k <= 0:
                return f()

    def program(self):
        r = self.r
        self.tab = r.random() < 0.3
        self.rets, self.open_fns, self.loopinc = ["Int"], [], []
        for _ in range(r.randint(*self.o["stmts"])):
            self.stmt()
        if r.random() < 0.5:
            self.emit("return " + self.expr("Int", 2))
        used = sorted(self.used)
        r.shuffle(used)
        head = []
        for n in used + [x for x in sorted(EXT) if x not in self.used and r.random() < 0.02]:
            a, b = EXT[n]
            head.append("external %s(%s)%s" % (n, "p%s: %s" % (n, a) if a else "", " " + b if b else ""))
        lines = head + self.out
        if r.random() < self.o["trivia"]:
            lines = [x for l in lines for x in [l] + ([r.choice(["", self.comment()]) for _ in range(r.randint(1, 3))] if r.random() < 0.2 else [])]
        if r.random() < 0.2:
            lines = [l + "\n" * r.choice([0, 0, 0, 1, 2]) for l in lines]
        eol = "\n"
        return eol.join(lines) + ("\n" if r.random() < 0.9 or (lines and lines[-1].startswith("external")) else "")


# ---------------------------------------------------------------------------
import re
TOK = re.compile(r'#\{.*?#\}|# [^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[ \t\r]+|\n|[{}(),&*]|[^ \t\r\n{}(),&*#]+|.', re.S)

WORDS = ["mut", "return", "unreachable", "if", "elif", "else", "while", "external", "export", "noop", "break", "continue", "import",
         "namespace", "mod", "not", "is", "isnt", "and", "or", "xor", "=", "+", "-", "*", "/", "<", ">", "^", ":=", "<=", ">=", "<<", ">>",
         "Infinity", "-Infinity", "NaN", "true", "false", "Int", "Float", "Bool", "Rune", "Str", "Void", "{", "}", "(", ")", ",", "&",
         "\n", "\n", "\n", "0", "1", "-1", "1.5", "0x1f", "0b10", "0o17", "'a'", '"s"', "'\\n'", "x", "y", "f", "a.b", "x:", "# c", "#{ c #}",
         "9999999999999999999", "1_000", "'ab'", '"\\q"', "'\\q'", "x.", "1x", "$", "é", "x:y", ":", "''", '""', "\\", "-", "0x", "1.", ".5",
         "-x", "1__0", "_", "x_1", "'\\x41'", "'\\xd800'", '"\\xd800"', "T", "T:", "Void:", "mod:", "99999999999999999999.5"]


def tokens(src):
    return [m.group(0) for m in TOK.finditer(src)]


def mutate(r, src, n=None):
    ts = tokens(src)
    n = n or r.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        if not ts:
            break
        k = r.random()
        solid = [i for i, t in enumerate(ts) if t.strip(" \t")]
        if not solid:
            break
        i = r.choice(solid)
        if k < 0.2:
            del ts[i]
        elif k < 0.35:
            ts.insert(i, ts[i])
            if r.random() < 0.7:
                ts.insert(i + 1, " ")
        elif k < 0.55:
            j = r.choice(solid)
            ts[i], ts[j] = ts[j], ts[i]
        elif k < 0.75:
            ts[i] = ts[r.choice(solid)]
        elif k < 0.93:
            w = r.choice(WORDS)
            if r.random() < 0.6:
                ts[i] = w
            else:
                ts.insert(i, " " + w + " ")
        else:
            lines = "".join(ts).split("\n")
            a, b = r.randrange(len(lines)), r.randrange(len(lines))
            if r.random() < 0.5:
                lines[a], lines[b] = lines[b], lines[a]
            elif r.random() < 0.5:
                lines.insert(b, lines[a])
            else:
                del lines[a]
            ts = tokens("\n".join(lines))
    return "".join(ts)


CLASSES = [
    ["mut", ""], ["if", "elif", "while"], ["break", "continue", "noop", "return", "unreachable", "return 1", "return true", 'return "s"'],
    ["and", "or", "xor", "is", "isnt", "+", "-", "*", "/", "mod", "^", "<<", ">>", "<", ">", "<=", ">="],
    ["Int", "Float", "Bool", "Rune", "Str", "&Int", "&Float", "Void", "Nope"],
    ["=", ":="], ["&", "*", "-", "not"], ["external", "export", ""], ["namespace", "if true", "else", "while true"],
]
LITS = ["0", "1", "-1", "7", "1.5", "0.0", "true", "false", "'a'", '"s"', "9223372036854775808", "NaN"]


def retype(r, src, n=None):
    """replace tokens by others of the same sort: mostly gets past the parser"""
    ts = tokens(src)
    n = n or r.choice([1, 1, 1, 2])
    idre = re.compile(r"^[A-Za-z_]\w*:?$")
    kw = {w for c in CLASSES for w in c} | {"true", "false", "else", "import", "NaN", "Infinity"}
    ids = sorted({t.rstrip(":") for t in ts if idre.match(t) and t.rstrip(":") not in kw}) + ["zz"]
    for _ in range(n):
        cand = []
        for i, t in enumerate(ts):
            c = next((c for c in CLASSES if t in c and t), None)
            if c:
                cand.append((i, c))
            elif idre.match(t) and t not in kw:
                cand.append((i, [x + (":" if t.endswith(":") else "") for x in ids] + (LITS if not t.endswith(":") else [])))
            elif re.match(r"^(-?\d|true|false|['\"])", t):
                cand.append((i, LITS + ids))
        k = r.random()
        if not cand:
            break
        if k < 0.75:
            i, c = r.choice(cand)
            ts[i] = r.choice(c)
        else:
            lines = "".join(ts).split("\n")
            a, b = r.randrange(len(lines)), r.randrange(len(lines))
            l = lines[a]
            if k < 0.85:
                del lines[a]
            if k < 0.95:
                lines.insert(b, l)
            ts = tokens("\n".join(lines))
    return "".join(ts)


def longloop(r):
    """thousands of iterations of bodies that define variables"""
    n = r.randint(300, 360)
    k = [0]

    def body(d, ind):
        out = []
        for _ in range(r.randint(2, 4)):
            k[0] += 1
            v = "v%d" % k[0]
            c = r.random()
            if c < 0.5:
                out.append("%s%s := %s" % (r.choice(["", "mut "]), v, r.choice(["n", "n + 1", "1.5", "true", '"s"', "'c'", "n * 2", "&n", "f(n)"])))
            elif c < 0.7 and d:
                out.append("if n mod %d is 0 {" % r.choice([2, 3, 5]))
                out += ["  " + x for x in body(d - 1, ind + 1)]
                out.append("}")
            elif c < 0.8 and d:
                out.append("mut %s := 0" % v)
                out.append("while %s < 1 {" % v)
                out.append("  %s = %s + 1" % (v, v))
                out += ["  " + x for x in body(0, ind + 1)]
                out.append("}")
            else:
                out.append("%s := n" % v)
        return out
    b = ["f(x: Int) Int {\n  y := x + 1\n  return y\n}", "mut n := 0", "while n < %d {" % n]
    b += ["  mut w%d := n + %d" % (q, q) for q in range(24)] + ["  " + x for x in body(2, 1)]
    if r.random() < .3:
        b += ["  if n is 1 {", "    n = n + 1", "    continue", "  }"]
    b += ["  n = n + 1", "}", "pi(n)"]
    if r.random() < .5:
        b = [b[0], "g() Int {"] + ["  " + x for x in b[1:]] + ["  return n", "}", "pi(g())"]
    return "external pi(x: Int)\n" + "\n".join(b) + "\n"


def soup(r, n=None):
    n = n or r.randint(1, 25)
    return "".join(r.choice(WORDS) + r.choice([" ", " ", " ", "", "\n"]) for _ in range(n))


def chars(r, n=None):
    n = n or r.randint(1, 20)
    return "".join(r.choice("ab01_.:'\"\\\\#{}{}()&*,=+-<>^ \t\r\n\n\nxnq é💀") for _ in range(n))
