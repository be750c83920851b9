"""The same source and options, at different places and times."""
import hashlib, os, re
import conform, gen

FORMS = [("-E",), ("-E", "-O2"), ("-E", "-g"), ("-E", "--c-backend"), ("-c", "-o", "o"), ("-S", "-o", "o"), ("-E", "-q"), ("-E", "--werror"), ("-c", "-O3", "-g", "-o", "o"), ("-o", "o", "--c-backend")]
ENVS = [[], ["MALLOC_PERTURB_=165"], ["MALLOC_PERTURB_=90", "LC_ALL=C"], ["HOME=/nowhere", "TERM=dumb", "LANG=en_US.ISO-8859-1"], ["LC_ALL=", "LANG=", "X=" + "y" * 3000], ["LC_CTYPE=C", "COLUMNS=3"], ["TMPDIR=/nowhere", "MALLOC_ARENA_MAX=1", "MALLOC_PERTURB_=1"]]


class Hist:
    __slots__ = ("id", "texts", "calls", "obs", "verdict")

    def __init__(self, id, texts, calls):
        self.id, self.texts, self.calls = id, texts, calls   # calls: (text number, form, environment, order of the arguments, stale files)
        self.obs = self.verdict = None


def observe(s, h, ext=None):
    d = s.fresh()
    out = []
    for n, (t, form, env, turn, stale) in enumerate(h.calls):
        # paths of one length; the name of the source is part of what is made
        w = os.path.join(d, "p%02d" % n, "q" * (1 + n))
        os.makedirs(w)
        open(os.path.join(w, "t.sk"), "wb").write(h.texts[t])
        if stale:
            for f in (".t.sk.o", ".t.sk.c", ".t.sk.s", "o", "t"):
                open(os.path.join(w, f), "wb").write(b"stale " * 400)
        args = [*form, "t.sk"] if not turn else ["t.sk", *form]
        r = s.skull(w, *args, env=env, timeout=30)
        b = r.out
        if "o" in form and r.status == 0:
            try:
                b += open(os.path.join(w, "o"), "rb").read()
            except OSError:
                b += b"nothing was made"
        if "-g" in form:
            b = b.replace(os.fsencode(w), b"W") if "-E" in form else b""
        out.append(dict(text=t + 1, form=" ".join(form), place=repr(env) + (" turned" if turn else "") + (" stale" if stale else ""), plain="-g" not in form and "--c-backend" not in form,
                        rc=-2 if r.timeout else r.status, out=hashlib.sha1(b).hexdigest(), err=r.err.decode("utf-8", "replace")))
    h.obs = dict(calls=out)
    return h


def trace(h):
    ts = [conform.decode(t) for t in h.texts]
    return dict(id=h.id, texts=[dict(src=a, bad=b) for a, b in ts], obs=h.obs)


def decide(hs, chunk=2000):
    tot = {"generated": 0, "distinct": 0}
    for k in range(0, len(hs), chunk):
        by, st = conform.ask("Det", [trace(h) for h in hs[k:k + chunk]])
        for h in hs[k:k + chunk]:
            h.verdict = by[h.id]
        for q in tot:
            tot[q] += st[q]
    return tot


def trivia(r, src):
    """other blanks and comments; whether that is so is for the specification to say"""
    out = []
    for l in src.split("\n"):
        if r.random() < .3:
            l = r.choice([" ", "\t", "  ", "\t \t"]) + l
        if r.random() < .3 and '"' not in l and "'" not in l:
            l = re.sub(r" +", lambda m: r.choice([" ", "  ", "\t", " \t "]), l)
        if r.random() < .2:
            l = l + r.choice([" ", "\t", "  ", "\r"])
        if r.random() < .2 and '"' not in l and "'" not in l and "#" not in l and ":=" not in l and "=" not in l and l.strip():
            l = l + r.choice([" # more", " #{ more #}"])
        out.append(l)
        while r.random() < .15:
            out.append(r.choice(["", "", "# line", "#{ block\n of two #}", "\t", "  # indented"]))
    return "\n".join(out)


def history(r, id, src):
    b = src if isinstance(src, bytes) else src.encode("utf-8", "surrogatepass")
    texts = [b]
    if isinstance(src, str):
        texts += [trivia(r, src).encode("utf-8", "surrogatepass") for _ in range(2)]
    calls = []
    for f in [FORMS[0]] + r.sample(FORMS[1:], 2):
        for _ in range(3):
            calls.append((0, f, r.choice(ENVS), r.random() < .5, r.random() < .3))
        for t in range(1, len(texts)):
            calls.append((t, f, r.choice(ENVS), False, r.random() < .3))
    return Hist(id, texts, calls)
