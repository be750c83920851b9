"""The checks: which inputs each property is decided on, and which part of
the specification's verdict counts for it."""
import hashlib, json, os, random, sys, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import build, pool, gen, conform, cli, embed, robust, det
from build import VERIF, BUILD
from conform import Case, Machinery

EVIDENCE = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(BUILD, "replay")
KNOWN = os.path.join(VERIF, "known_findings.json")

_kits = {}


class Ctx:
    """what the sources of cases need"""
    def __init__(self, seed, tier):
        self.r = random.Random(seed * 7919 + 17)
        self.tier = tier
        self.n = 0
        self.gen_states = 0

    def id(self, p):
        self.n += 1
        return "%s-%d" % (p, self.n)


# --------------------------------------------------------------- sources
def texts(c, name, length, depth, n):
    if (name, length, depth) not in _kits:
        xs, st = conform.generate(name, length, depth)
        _kits[name, length, depth] = xs
        c.gen_states += st["distinct"]
    xs = _kits[name, length, depth]
    return c.r.sample(xs, n) if n < len(xs) else list(xs)


def prefetch(c, keys):
    """several kits at a time"""
    with ThreadPoolExecutor(4) as ex:
        for k, (xs, st) in zip(keys, ex.map(lambda k: conform.generate(*k, workers=3), keys)):
            _kits[k] = xs
            c.gen_states += st["distinct"]


def kit(name, length=3, depth=2, flags=((),), runs=(), color=False):
    """texts enumerated by TLC from spec/Gen.tla; n of them"""
    def f(c, n):
        return [Case(c.id("kit-" + name), x.replace("\f", ""), c.r.choice(flags), pick(c, runs), color=color and c.r.random() < .3, note="kit " + name)
                for x in texts(c, name, length, depth, n)]
    f.kit = (name, length, depth)
    return f


def wrap(style, body, k):
    """an item as part of a program with others"""
    if style == "line":
        return body
    b = "if gb(true) {\n" + body + "}\n"
    return b if style == "if" else "wrap%d() Int {\n%sreturn %d\n}\npi(wrap%d())\n" % (k, b, k, k)


def front(prelude, style):
    for l in ("external gb(x: Bool) Bool\n", "external pi(x: Int)\n"):
        if style != "line" and l.split("(")[0] + "(" not in prelude:
            prelude = l + prelude
    return prelude


def packed(name, length=3, depth=2, runs=(), styles=("fn",), flags=((),)):
    """texts of a kit: each is compiled alone, those that can run are run in programs of many"""
    def f(c, n):
        out = []
        for x in texts(c, name, length, depth, n):
            pre, body = x.split("\f", 1)
            style = c.r.choice(styles)
            pre = front(pre, style)
            q = Case(c.id("kit-" + name), pre + wrap(style, body, 1), c.r.choice(flags), (), note="kit " + name)
            q.pack = (style, pre, body, runs)
            out.append(q)
        return out
    f.kit = (name, length, depth)
    return f


def exprs(name, runs=(), per=25, styles=("line", "if", "fn")):
    """expressions of a kit, many in a program; those without a meaning are left out"""
    def f(c, n):
        xs = [x.split("\f", 1) for x in texts(c, name, 3, 2, n)]
        c.r.shuffle(xs)
        out = []
        for k in range(0, len(xs), per):
            style = c.r.choice(styles)
            q = Case(c.id("kit-" + name), "", (), (), note="kit " + name)
            q.probe = "c" if any(t[0][0] == "c" for t in runs if t) else "run"
            q.pack = (style, front(xs[0][0], style), [b for _, b in xs[k:k + per]], runs)
            q.src = program(q.pack).encode()
            out.append(q)
        return out
    f.kit = (name, 3, 2)
    return f


def walk(kit, tries=25, depth=3, runs=(), bad=8, good=1, flags=((),)):
    """n walks of spec/Walk.tla: of each, its longest programs and some of what was turned down"""
    def f(c, n):
        em, st = conform.walks(kit, n, tries, depth, c.r.randrange(100000))
        c.gen_states += st["distinct"]
        by = {}
        for t, v, k, w in em:
            by.setdefault(w, {}).setdefault(v, []).append((k, t))
        out = []
        for w in sorted(by):
            ok = [t for k, t in sorted(by[w].get("ok", []))]
            no = [t for k, t in by[w].get("bad", [])]
            for t in ok[-good:] if good else []:
                out.append(Case(c.id("walk-" + kit), t, c.r.choice(flags), pick(c, runs), note="walk " + kit))
            for t in (c.r.sample(no, bad) if bad < len(no) else no):
                out.append(Case(c.id("walk-" + kit), t, c.r.choice(flags), (), note="walk " + kit + ", one step off"))
        return out
    return f


def imports(runs=()):
    """imports: which modules there are beside the source, and which only elsewhere"""
    def f(c, n):
        out = []
        for x in texts(c, "imports", 3, 2, n):
            mods = [c.r.choice(["", "!"]) + m for m in ("m", "n", "m.n", "M", "m_1", "Int", "x") if c.r.random() < .7]
            out.append(Case(c.id("kit-imports"), x.replace("\f", ""), (), pick(c, runs), mods, name=c.r.choice(["t", "t", "d/t", "./t", "d/e/t", "d/./t"]), note="kit imports"))
        return out
    f.kit = ("imports", 3, 2)
    return f


def program(pack):
    style, pre, bodies, _ = pack
    return pre + "".join(wrap(style, b, k + 1) for k, b in enumerate(bodies))


def pick(c, runs):
    """runs: tags; a tuple inside stands for one of its members"""
    return [c.r.choice(t) if isinstance(t, tuple) else t for t in runs]


def prog(runs=(("0",),), flags=((),), **o):
    def f(c, n):
        return [Case(c.id("prog"), gen.Gen(c.r, **o).program(), c.r.choice(flags), pick(c, runs), note="random program") for _ in range(n)]
    return f


def mutant(how, flags=((),), color=False, **o):
    o.setdefault("stmts", (1, 7))
    fn = {"mutate": gen.mutate, "retype": gen.retype}[how]

    def f(c, n):
        return [Case(c.id(how), fn(c.r, gen.Gen(c.r, **o).program()), c.r.choice(flags), (), color=color and c.r.random() < .3, note=how) for _ in range(n)]
    return f


def text(fn, flags=((),), note="", runs=()):
    def f(c, n):
        return [Case(c.id(note or fn.__name__), fn(c.r), c.r.choice(flags), pick(c, runs), note=note or fn.__name__) for _ in range(n)]
    return f


# ---------------------------------------------------------------- verdicts
def f_accept(c):
    """accepts and rejects exactly what the specification does"""
    v = c.verdict
    if v["compile"] == "rc":
        if c.obs["rc"] == 1 and not v["accepted"]:
            return "this invalid input is not rejected by a diagnostic, but fails later on"
        return "exit status %s, but the specification %s this input" % (c.obs["rc"], "accepts" if v["accepted"] else "rejects")


def f_valid(c):
    """a valid program is not refused"""
    v = c.verdict
    if v["compile"] == "rc" and v["accepted"]:
        return "valid program refused (exit status %s)" % c.obs["rc"]


def f_invalid(c):
    v = c.verdict
    if v["compile"] == "rc" and not v["accepted"]:
        return "invalid program not refused (exit status %s)" % c.obs["rc"]


def f_text(c):
    if c.verdict["compile"] == "err" or c.verdict["compile"] == "rc" and c.obs["rc"] == 1 and not c.verdict["accepted"]:
        return "what is shown on standard error is not what the specification says"


def f_run(c):
    for r in c.verdict["runs"]:
        if r["v"] not in ("ok", "skip"):
            return "the program made with %s does something else (%s)" % (r["tag"], r["v"])


def f_run_c(c):
    for r in c.verdict["runs"]:
        if r["v"] not in ("ok", "skip") and r["tag"].startswith("c"):
            return "the program made by way of C does something else (%s)" % r["v"]


def f_run_opt(c):
    v = {r["tag"]: r["v"] for r in c.verdict["runs"]}
    for t in v:
        if t not in ("0", "c") and v[t] not in ("ok", "skip"):
            return "the program made with %s does something else (%s)" % (t, v[t])


QW = ((), ("-q",), ("--werror",))

PLANS = {}


def plan(id, facets, quick, thorough=(), variant="plain", extra=None, level="model_checking"):
    PLANS[id] = dict(facets=facets, quick=quick, thorough=list(thorough) or quick, variant=variant, extra=extra, level=level)


def x_words(R):
    """the arithmetic the specification computes with"""
    out, em, st, ok = conform.tlc("Words")
    if not ok:
        raise Machinery("Words: " + out[-2000:])
    for q in st:
        R.states[q] += st[q]
    R.extra["arithmetic_states"] = st["distinct"]


RUN0 = ("0",)
FI = ("fn", "if")
plan("P01", [f_valid, f_run],
     [(packed('many.sum.not.parens.calls.same', runs=RUN0, styles=FI), 120), (packed('neg', runs=RUN0, styles=FI), 123), (kit('chaini', runs=RUN0), 60), (kit('chainf', runs=RUN0), 60), (kit('chainb', runs=RUN0), 60), (exprs("iexpr", RUN0), 2500), (exprs("fexpr", RUN0), 1200), (exprs("cmp", RUN0), 1800), (exprs("prec", RUN0), 400), (exprs("precb", RUN0), 500),
      (exprs("precf", RUN0), 250), (exprs("arith", RUN0, per=8), 500), (exprs("farith", RUN0), 400),
      (prog(RUN0, stmts=(3, 8), funcs=False, loops=False, ns=False, edepth=4), 200)], extra=x_words)
plan("P02", [f_valid, f_run],
     [(packed('places', runs=RUN0, styles=FI), 600), (packed('many.elifs.nest.rets.loops.deep', runs=RUN0, styles=FI), 200), (packed("jumps", 4, 2, RUN0), 1500), (packed("flow", 3, 2, RUN0), 700), (walk("flow", 40, 4, RUN0, bad=0, good=2), 350),
      (prog(RUN0, refs=False, ns=False, types=["Int", "Bool"], edepth=2, comments=.5), 300), (text(gen.longloop, runs=RUN0), 10)])
plan("P03", [f_valid, f_run],
     [(packed('places', runs=RUN0, styles=FI), 600), (kit('chaini', runs=RUN0), 60), (kit('chainf', runs=RUN0), 60), (packed('many.params.same.writes.refs.calls.vars.name', runs=RUN0, styles=FI), 220), (packed("refs", 3, 1, RUN0), 800), (packed("funcs", 3, 1, RUN0, FI), 800), (walk("vars", 40, 3, RUN0, bad=0, good=2), 250), (walk("refs", 40, 3, RUN0, bad=0, good=2), 250),
      (prog(RUN0), 350)])
plan("P04", [f_run_c],
     [(kit('chaini', runs=('0', 'c')), 60), (kit('chainf', runs=('0', 'c')), 60), (kit('chainb', runs=('0', 'c')), 60), (packed('float', runs=('c',), styles=('if',)), 200), (packed('raw', runs=('c',), styles=('if',)), 200),
      (packed('neg', runs=('c',), styles=('if',)), 123), (kit('placesc', runs=('c',)), 150), (packed('placesc', runs=('c',), styles=('if',)), 300), (packed('many', runs=('c',), styles=FI), 400), (prog(("0", "c"), ns=False, calls=.12, getter=.1), 200), (prog(("0", "c"), ns=False, funcs=False, edepth=2), 150), (packed("jumps", 4, 2, ("c",)), 700),
      (packed("refs", 3, 1, ("c",), FI), 400), (exprs("farith", ("c",)), 300), (exprs("iexpr", ("c",)), 1200), (exprs("fexpr", ("c",)), 500), (exprs("cmp", ("c",)), 800),
      (exprs("arith", ("c",), per=8), 300), (packed("quoted", runs=("c",), styles=("if", "line")), 900), (packed("num", runs=("c",), styles=("if",)), 500),
      (packed("funcs", 3, 1, ("c",), FI), 400), (walk("flow", 40, 4, ("c",), bad=0), 120), (walk("vars", 40, 3, ("c",), bad=0), 120)])
O3 = (("1", "2"), "3", "g")
plan("P05", [f_run_opt],
     [(packed('places', runs=O3, styles=FI), 300), (packed('neg', runs=O3, styles=FI), 123), (packed('many', runs=O3, styles=FI), 400), (prog(("0", "1", "2", "3", "g")), 130), (packed("jumps", 4, 2, O3), 700), (packed("refs", 3, 1, O3, FI), 500), (exprs("iexpr", O3), 2200), (exprs("fexpr", O3), 800),
      (exprs("cmp", O3), 800), (exprs("arith", O3, per=8), 400), (packed("funcs", 3, 1, O3, FI), 500), (walk("flow", 40, 4, O3, bad=0), 120), (walk("vars", 40, 3, O3, bad=0), 120)])
plan("P06", [f_accept],
     [(kit('many.params.same.funcs.sum.calls.rets.not.refs.alias.vars'), 400), (kit("type1"), 4200), (kit("type2"), 1500), (kit("decl"), 900), (kit("proto"), 700), (kit("near"), 600), (walk("types", 30, 3, bad=14, good=2), 220), (mutant("retype"), 600)])
plan("P07", [f_accept, f_run],
     [(packed('places', runs=RUN0, styles=('if',)), 300), (kit('many.writes.vars.refs'), 150), (packed("const", 3, 2, RUN0, FI), 2304), (kit("refs", 3, 1), 600), (walk("vars", 30, 3, RUN0, bad=10), 150), (walk("names", 30, 3, RUN0, bad=6), 100),
      (mutant("retype", mutbias=.2), 700)])
plan("P08", [f_accept, f_run],
     [(packed('places', runs=RUN0, styles=FI), 500), (imports(), 400), (kit('many.nest.ns.kinds.funcs.name.exts.params.alias.vars'), 350), (packed("scope", 3, 2, RUN0, FI), 1500), (kit("names", 3, 1), 1500), (kit("near"), 400), (walk("names", 40, 3, RUN0, bad=10), 250), (mutant("retype", reuse=.8), 600),
      (prog(RUN0, reuse=.9), 100)])
plan("P09", [f_accept],
     [(kit('places'), 700), (kit('many.rets.loops.deep.elifs.params.calls'), 250), (kit("flow", 3, 2), 1500), (kit("jumps", 4, 2), 1000), (kit("stmts", 3, 2), 2500), (walk("flow", 30, 4, bad=12, good=2), 200), (mutant("retype", stmts=(2, 9)), 700)])
plan("P10", [f_text],
     [(kit('places'), 300), (imports(), 150), (kit("cols"), 500), (kit("ends"), 300), (kit('many'), 350), (mutant("mutate", color=True), 1200), (mutant("retype", color=True), 700), (text(gen.soup), 500), (kit("proto"), 500), (kit("call"), 500), (kit("declx"), 300),
      (kit("type1"), 700), (kit("names", 3, 1), 400), (kit("blocks"), 300), (kit("edits"), 1200), (kit("stmts", 3, 2), 800)])
plan("P11", [f_accept, f_text],
     [(kit('places', flags=QW), 300), (kit("warn", 3, 1, flags=QW), 3000), (prog((), flags=QW), 250), (kit("const", 3, 2, flags=QW), 600), (walk("names", 30, 3, flags=QW, bad=2, good=3), 150),
      (walk("vars", 30, 3, flags=QW, bad=2, good=3), 120)])
plan("P12", [f_accept, f_text],
     [(kit('many.name.str.lines'), 200), (kit("chars", 3), 3500), (kit("frags", 3), 4500), (text(gen.chars), 2000), (kit("idents"), 800), (kit("edits"), 1000), (kit("ends"), 5000), (kit("raw"), 1600), (kit("ctrl"), 900), (kit("cols"), 300), (kit("near"), 200)])
plan("P14", [f_accept, f_run],
     [(packed('many.str.strs', runs=RUN0, styles=('if', 'line')), 120), (packed("num", runs=RUN0, styles=("if",)), 4000), (packed("quoted", runs=RUN0, styles=("if", "line")), 4000),
      (packed("float", runs=RUN0, styles=("if",)), 800), (packed("raw", runs=RUN0, styles=("if", "line")), 800)])
plan("P15", [f_accept],
     [(kit('many.parens.deep.lines.elifs.calls'), 250), (kit("edits"), 5000), (kit("blocks"), 900), (kit("declx"), 500), (kit("proto"), 1000), (kit("call"), 1500), (text(gen.soup), 800), (mutant("mutate"), 500)])


# ------------------------------------------- invocations and embedding
def g_cli(*fields):
    say = dict(rc="exit status", out="standard output", err="standard error", fs="the files there are afterwards")

    def f(c):
        v = c.verdict
        if not v["open"]:
            for x in fields:
                if not v[x]:
                    return "%s of skull %s: not as specified" % (say[x], " ".join(c.args))
    return f


def g_embed(m):
    v = m.verdict
    if v["compile"] == "rc":
        return "exit status %s, but the specification %s this module" % (m.obs["rc"], "accepts" if v["accepted"] else "rejects")
    if not v["syms"]:
        return "the object file does not define exactly the module and its exports"
    if not v["ev"]:
        return "used from C, the module does something else"


def units(R, xs, observe, decide, facet, kind, data, again):
    """observe, have TLC judge, and repeat what is not as specified"""
    if not xs:
        return
    list(R.pool().map(lambda s, x: observe(s, x, R.ext), xs))
    st = decide(xs)
    for q in st:
        R.states[q] += st[q]
    bad = []
    for x in xs:
        R.cases += 1
        R.kinds[getattr(x, "note", "") or kind] += 1
        R.distinct.add(hashlib.sha1(json.dumps(data(x), sort_keys=True, default=str).encode()).digest()[:8])
        if x.verdict["open"]:
            R.skipped += 1
        else:
            R.traces += 1
        if facet(x):
            bad.append(x)
        elif len(R.samples) < 3 and R.ctx.r.random() < .02:
            R.samples.append(dict(data(x), observed=x.obs))
    if bad:
        re = [again(x) for x in bad[:20]]
        for x in re:
            list(R.pool().map(lambda s, y: observe(s, y, R.ext), [x]))
        decide(re)
        for x in re:
            m = facet(x)
            if m:
                R.violation(m, dict(kind=kind, observed=x.obs, specified=x.verdict, **data(x)))


def rounds(R, n, one):
    """quick: once with n; thorough: until the time is used up"""
    one(n)
    while R.tier != "quick" and time.time() - R.t0 < (R.budget or 600) and not R.violations:
        one(n)


def cli_units(R, calls, facet):
    units(R, calls, cli.observe, cli.decide, facet, "invocation", lambda c: dict(args=c.args, env=c.env, linker=c.linker),
          lambda c: cli.Call(c.id, c.args, c.env, c.linker))


def x_cli(kits, *fields):
    def f(R):
        for kit, n in kits:
            em, st = cli.commands(kit)
            R.ctx.gen_states += st["distinct"] + len(em)
            if R.tier == "quick" and n < len(em):
                em = R.ctx.r.sample(em, n)
            for k in range(0, len(em), 4000):
                cli_units(R, [cli.Call(R.ctx.id(kit), e["args"], e["env"], e["linker"]) for e in em[k:k + 4000]], g_cli(*fields))
    return f


def x_embed(n):
    def one(R, n):
        ms = [embed.draw(R.ctx.r, R.ctx.id("mod")) for _ in range(n)]
        units(R, ms, embed.observe, embed.decide, g_embed, "module", lambda m: dict(source=m.src.decode(), form=m.form, uses=m.uses, name=m.name, cells=m.cells),
              lambda m: embed.Mod(m.id, m.src.decode(), m.exports, m.uses, m.form, m.name, m.note, m.cells))
    return lambda R: rounds(R, n, lambda n: one(R, n))


def g_robust(t):
    if not t.verdict["fine"]:
        return "skull %s: not an orderly end as specified" % ", ".join(t.verdict["bad"])


TEXTS = dict(bytes=robust.bytes_of, random=robust.random_bytes, huge=robust.huge, chars=gen.chars, soup=gen.soup,
             mutate=lambda r: gen.mutate(r, gen.Gen(r, stmts=(1, 7)).program()), retype=lambda r: gen.retype(r, gen.Gen(r, stmts=(1, 7)).program()),
             prog=lambda r: gen.Gen(r).program(), small=lambda r: gen.Gen(r, stmts=(1, 3)).program())


def x_robust(mix, kits):
    def one(R, n):
        r, ts = R.ctx.r, []
        new = lambda src, how: ts.append(robust.Text(R.ctx.id(how), src, [robust.FORMS[0]] + r.sample(robust.FORMS[1:], 3), how == "huge", how))
        for how, m in mix:
            for _ in range(m * n):
                new(TEXTS[how](r), how)
        for (name, length, depth), m in kits:
            for x in texts(R.ctx, name, length, depth, m * n):
                new(x.replace("\f", ""), "kit " + name)
        units(R, ts, robust.observe, robust.decide, g_robust, "text", lambda t: dict(source=t.src.decode("utf-8", "backslashreplace"), hex=t.src.hex() if len(t.src) < 2000 else "", forms=t.forms, note=t.note),
              lambda t: robust.Text(t.id, t.src, t.forms, t.large, t.note))
    return lambda R: rounds(R, 1, lambda n: one(R, n))


def g_det(h):
    for f in h.verdict["faults"]:
        c = h.obs["calls"][f["n"] - 1]
        return "skull %s: %s, other result (%s)" % (c["form"], f["why"], c["place"])


def x_det(mix):
    def one(R, n):
        r = R.ctx.r
        hs = [det.history(r, R.ctx.id(how), TEXTS[how](r)) for how, m in mix for _ in range(m * n)]
        units(R, hs, det.observe, det.decide, g_det, "history", lambda h: dict(texts=[t.decode("utf-8", "backslashreplace") for t in h.texts], calls=h.calls), lambda h: det.Hist(h.id, h.texts, h.calls))
    return lambda R: rounds(R, 1, lambda n: one(R, n))


def both(*fs):
    return lambda R: [f(R) for f in fs]


for p_, runs_, styles_ in (("P02", RUN0, FI), ("P03", RUN0, FI), ("P05", O3, FI), ("P07", RUN0, ("if",)), ("P08", RUN0, FI), ("P09", (), FI)):
    PLANS[p_]["thorough"] = PLANS[p_]["thorough"] + [(packed("places3", runs=runs_, styles=styles_), 1500)]

plan("P13", [], [], variant="asan",
     extra=both(x_cli([("args", 700), ("modes", 250)], "rc"), x_robust([("bytes", 800), ("random", 300), ("huge", 250), ("chars", 500), ("soup", 600), ("mutate", 600), ("retype", 500), ("prog", 250)],
                    [(("frags", 3, 2), 700), (("edits", 3, 2), 700)])))
plan("P19", [], [], extra=x_det([("prog", 600), ("small", 500), ("mutate", 300), ("retype", 300), ("soup", 150), ("bytes", 150)]))
plan("P16", [], [], extra=x_cli([("args", 5000), ("modes", 900)], "rc", "out", "err"))
plan("P17", [], [], extra=x_cli([("modes", 10 ** 9)], "rc", "out", "fs"))
plan("P18", [], [], extra=x_embed(700))


# ------------------------------------------------------------------ engine
def again_(c):
    q = Case(c.id, c.src, c.flags, c.want_runs, c.mods, c.color, c.name, c.note)
    q.pack = c.pack
    return q


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.budget = None
        self.plan = PLANS[pid]
        self.ctx = Ctx(seed, tier)
        self.cases = 0
        self.skipped = 0
        self.states = Counter()
        self.kinds = Counter()
        self.codes = Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.traces = 0
        self.extra = {}
        self.open = 0
        self.items = Counter()

    def pool(self):
        if not hasattr(self, "_pool"):
            self.prog = build.build("server.c", self.plan["variant"])
            self.ext = conform.ext_o()
            self._pool = pool.Pool(self.prog)
        return self._pool

    def judge(self, c):
        for f in self.plan["facets"]:
            m = f(c)
            if m:
                return m

    def reduce(self, probes):
        """leave out what the specification gives no meaning"""
        st = conform.decide(probes)
        self.states["generated"] += st["generated"]
        self.states["distinct"] += st["distinct"]
        out = []
        for c in probes:
            style, pre, bodies, runs = c.pack
            per = {"line": bodies[0].count("\n"), "if": 1, "fn": 2}[style]
            first = c.verdict["len"] - per * len(bodies)
            drop = {(i - 1 - first) // per for i in c.verdict["open"]}
            self.open += len(drop)
            keep = [b for k, b in enumerate(bodies) if k not in drop]
            if keep:
                out.append(self.pack_case(style, pre, keep, runs, c.note, len(keep)))
        return out

    def pack_case(self, style, pre, bodies, runs, note, n):
        c = Case(self.ctx.id("pack"), program((style, pre, bodies, runs)), (), pick(self.ctx, runs), note=note + " (run together)")
        self.items[note] += n
        return c

    def batch(self, cases):
        probes = [c for c in cases if c.probe]
        cases = [c for c in cases if not c.probe]
        if probes:
            cases += self.reduce(probes)
        self.batch_(cases)
        groups = {}
        for c in cases:
            if c.pack and c.pack[3] and c.verdict["accepted"] and c.verdict["compile"] == "ok" and c.verdict["st"] == "ok" and not c.flags:
                style, pre, body, runs = c.pack
                if any(t[0][0] == "c" for t in runs) and c.verdict["haz"]:
                    continue
                groups.setdefault((style, pre, runs, c.note), []).append(body)
        packs = []
        for (style, pre, runs, note), bs in groups.items():
            for k in range(0, len(bs), 20):
                packs.append(self.pack_case(style, pre, bs[k:k + 20], runs, note, len(bs[k:k + 20])))
        if packs:
            self.batch_(packs)

    def batch_(self, cases):
        P = self.pool()
        list(P.map(lambda s, c: conform.observe(s, c, self.ext), cases))
        st = conform.decide(cases)
        self.states["generated"] += st["generated"]
        self.states["distinct"] += st["distinct"]
        bad = []
        for c in cases:
            self.cases += 1
            v = c.verdict
            if v["compile"] == "skip" and all(r["v"] == "skip" for r in v["runs"]):
                self.skipped += 1
            else:
                self.traces += 1 + sum(r["v"] != "skip" for r in v["runs"])
            self.kinds[c.note] += 1
            self.codes.update(v["codes"])
            self.distinct.add(hashlib.sha1(c.src + repr(c.flags).encode()).digest()[:8])
            if self.judge(c):
                bad.append(c)
            elif len(self.samples) < 3 and self.ctx.r.random() < 0.02:
                self.samples.append(dict(source=c.src.decode("utf-8", "replace"), flags=c.flags, exit=c.obs["rc"], stderr=c.obs["err"][:400],
                                         runs=c.obs["runs"][:1], accepted=v["accepted"], diagnostics=v["codes"]))
        if bad:
            self.confirm(bad)

    def confirm(self, bad):
        """a rejection counts only if it repeats"""
        bad = bad[:40]
        again = [again_(c) for c in bad]
        for s_c in again:
            list(self.pool().map(lambda s, c: conform.observe(s, c, self.ext), [s_c]))
        conform.decide(again)
        for c in again:
            m = self.judge(c)
            if m:
                self.violation(m, dict(kind="compile", source=c.src.decode("utf-8", "replace"), flags=c.flags, runs=c.want_runs, color=c.color, mods=c.mods, name=c.name,
                                       observed=c.obs, specified=c.verdict, note=c.note))

    def violation(self, why, data):
        os.makedirs(REPLAY, exist_ok=True)
        body = dict(property=self.pid, why=why, **data)
        s = json.dumps(body, indent=1, ensure_ascii=False)
        p = os.path.join(REPLAY, "%s-%s.json" % (self.pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
        with open(p, "w") as h:
            h.write(s)
        self.violations.append((p, why))

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(states=self.states["distinct"] + self.ctx.gen_states, transitions=self.states["generated"] + self.ctx.gen_states,
                   traces_validated_against_impl=self.traces, evaluations=self.cases, distinct_nontrivial=len(self.distinct), skipped=self.skipped,
                   rule="a case is a source text with options; distinct texts are counted; not counted as validated where the specification leaves the outcome open",
                   sources=dict(self.kinds), items_run_in_programs=dict(self.items), items_without_meaning=self.open, diagnostics_seen=dict(self.codes.most_common(60)), samples=self.samples or ["none drawn"])
        cov.update(self.extra)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.plan["level"], coverage=cov,
                 assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as h:
            json.dump(e, h, indent=1, ensure_ascii=False)


ASSUMPTIONS = [
    "the behaviour of the real compiler is observed through its command line, and that of the programs it makes through calls to external functions and the exit status",
    "TLC evaluates the specification correctly, including the Java definitions of 64 bit and IEEE-754 arithmetic in spec/java/Native.java",
    "outcomes the language leaves open (signed overflow, division by zero, dead references, inexact powers) are not judged",
]


def known(run):
    """known findings of this property: shown, never counted as violations"""
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return
    for k in data.get("findings", []):
        if k["property"] != run.pid:
            continue
        if KNOWN_TESTS[k["test"]](run, k):
            print("KNOWN-FINDING: property=%s %s" % (run.pid, k["what"]))


def known_c(run, k):
    """the program made by way of C differs from the one made with LLVM"""
    c = Case("known", k["source"], (), ("0", "c"))
    list(run.pool().map(lambda s, x: conform.observe(s, x, run.ext), [c]))
    rs = {r["tag"]: (r["ev"], r["rc"]) for r in c.obs["runs"]}
    return rs.get("0") != rs.get("c")


def known_compile(run, k):
    c = Case("known", k["source"], ())
    list(run.pool().map(lambda s, x: conform.observe(s, x, run.ext), [c]))
    return c.obs


def known_verify(run, k):
    """an error of the LLVM verifier in place of a diagnostic"""
    return "error while verifying LLVM" in known_compile(run, k)["err"]


def known_accepts(run, k):
    """an input that should be refused is not"""
    return known_compile(run, k)["rc"] == 0


def known_helpers(run, k):
    """the object file of a module needs functions that nothing defines"""
    def f(s, _):
        d = s.fresh()
        open(os.path.join(d, "t.sk"), "w").write(k["source"])
        s.skull(d, "t.sk", "-c", "-o", "t.o")
        open(os.path.join(d, "d.c"), "w").write("int m(void) __asm__(\".t\"); int main(void) { return m(); }\n")
        q = s.exec(d, "/usr/bin/gcc", "d.c", "t.o", run.ext, "-lm", "-o", "d", timeout=60)
        return q.status != 0 and b"undefined reference" in q.err
    return list(run.pool().map(f, [None]))[0]


KNOWN_TESTS = {"helpers": known_helpers, "c-differs": known_c, "llvm-verify": known_verify, "accepts": known_accepts}


def run(pid, tier, seed, budget=None):
    if pid not in PLANS:
        raise Machinery("no such property " + pid)
    R = Run(pid, tier, seed)
    R.budget = budget
    p = R.plan
    if p["quick"]:
        R.pool()
        prefetch(R.ctx, sorted({f.kit for f, n in p[tier] if hasattr(f, "kit")}))
        if tier == "quick":
            cases = [c for f, n in p["quick"] for c in f(R.ctx, n)]
            R.batch(cases)
        else:
            budget = budget or 600
            for f, n in p["thorough"]:        # the kits completely, as far as time allows
                if hasattr(f, "kit") and time.time() - R.t0 < budget * .7:
                    all_ = f(R.ctx, 10 ** 9)
                    R.ctx.r.shuffle(all_)
                    for k in range(0, len(all_), 4000):
                        if time.time() - R.t0 > budget * .7 or R.violations:
                            break
                        R.batch(all_[k:k + 4000])
            while time.time() - R.t0 < budget and not R.violations:
                R.batch([c for f, n in p["thorough"] if not hasattr(f, "kit") or time.time() - R.t0 < budget / 2 for c in f(R.ctx, n)])
        if R.skipped > R.cases * .6:
            raise Machinery("%d of %d cases were left open by the specification" % (R.skipped, R.cases))
    if p["extra"]:
        p["extra"](R)
    known(R)
    R.evidence()
    print("%s %s: %d cases, %d observations judged, %d states, %.0f s" % (pid, tier, R.cases, R.traces, R.states["distinct"], time.time() - R.t0))
    for path, why in R.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + why)
    return 1 if R.violations else 0


def replay(path):
    d = json.load(open(path))
    R = Run(d["property"], "quick", 1)
    R.pool()
    if d["kind"] != "compile":
        return replay_unit(R, d)
    c = Case("replay", d["source"], d["flags"], d["runs"], d["mods"], d["color"], d["name"])
    list(R.pool().map(lambda s, x: conform.observe(s, x, R.ext), [c]))
    conform.decide([c])
    print(d["source"])
    print("observed:", json.dumps(c.obs, indent=1, ensure_ascii=False))
    print("specified:", json.dumps(c.verdict, indent=1, ensure_ascii=False))
    m = R.judge(c)
    print(m or "as specified")
    return 1 if m else 0


def replay_unit(R, d):
    """a violation of another kind, once more"""
    tup = lambda x: tuple(map(tup, x)) if isinstance(x, list) else x
    k = d["kind"]
    if k == "invocation":
        x, mod, facet = cli.Call("replay", d["args"], d["env"], d["linker"]), cli, g_cli("rc", "out", "err", "fs")
    elif k == "module":
        x, mod, facet = embed.Mod("replay", d["source"], [], tup(d["uses"]), tup(d["form"]), d["name"], "", tup(d["cells"])), embed, g_embed
    elif k == "text":
        x, mod, facet = robust.Text("replay", bytes.fromhex(d["hex"]) if d["hex"] else d["source"], tup(d["forms"]), d["note"] == "huge", d["note"]), robust, g_robust
    else:
        x, mod, facet = det.Hist("replay", [t.encode() for t in d["texts"]], tup(d["calls"])), det, g_det
    list(R.pool().map(lambda s, y: mod.observe(s, y, R.ext), [x]))
    mod.decide([x])
    print(json.dumps({q: d[q] for q in d if q not in ("observed", "specified")}, indent=1, ensure_ascii=False))
    print("observed:", json.dumps(x.obs, indent=1, ensure_ascii=False))
    print("specified:", json.dumps(x.verdict, indent=1, ensure_ascii=False))
    m = facet(x)
    print(m or "as specified")
    return 1 if m else 0
