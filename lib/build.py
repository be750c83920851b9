"""Out-of-tree builds of /repo's working tree (never writes under /repo)."""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKULL_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           LANG="C.UTF-8", LC_ALL="C.UTF-8")
for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "MAKEFLAGS", "COLOR", "LD_LIBRARY_PATH"):
    ENV.pop(v, None)


class BuildError(Exception):
    pass


def _llvm(*a):
    return subprocess.run(["llvm-config-19", *a], capture_output=True, text=True, env=ENV).stdout.split()


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "skull")):
        for f in sorted(fs):
            if f.endswith(".c"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "skull"))):
        for f in sorted(fs):
            if f == "shim.h" or not f.endswith((".c", ".h", ".ll")):
                continue
            p = os.path.join(d, f)
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for e in extra:
        h.update(str(e).encode() + b"\0")
        if os.path.isfile(str(e)):
            h.update(open(e, "rb").read())
    return h.hexdigest()[:16]


FLAGS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined"],
    "cov": ["-O0", "-g", "--coverage"],
}


def build(main_c, variant="plain", rename_main=True, name=None, extra_cflags=()):
    """Compile every skull/*.c plus main_c; return path of the program."""
    main_c = os.path.join(VERIF, "harness", main_c)
    name = name or os.path.basename(main_c)[:-2]
    key = tree_hash([main_c, variant, rename_main, *extra_cflags])
    os.makedirs(BUILD, exist_ok=True)
    dest = os.path.join(BUILD, f"{name}-{variant}-{key}")
    prog = os.path.join(dest, "prog")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(prog):
            return prog
        # drop builds of other trees
        for o in os.listdir(BUILD):
            if o.startswith(f"{name}-{variant}-"):
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
        try:
            _build(tmp, main_c, FLAGS[variant], rename_main, extra_cflags)
            os.rename(tmp, dest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return prog


def _build(tmp, main_c, flags, rename_main, extra):
    inc = os.path.join(tmp, "inc", "skull")
    os.makedirs(inc)
    shim = subprocess.run(["xxd", "-i", "skull/shim.ll"], cwd=REPO, capture_output=True, env=ENV, check=True).stdout
    shim = shim.replace(b"skull_shim_ll", b"LL_SHIM").replace(b"unsigned char", b"char")
    with open(os.path.join(inc, "shim.h"), "wb") as f:
        f.write(shim)
    with open(os.path.join(tmp, "pre.h"), "w") as f:
        f.write('#define SKULL_VERSION "verif"\n')
    base = ["gcc", "-std=gnu18", "-w", "-D_GNU_SOURCE", "-fPIC", "-include", os.path.join(tmp, "pre.h"),
            "-I", os.path.join(tmp, "inc"), "-I", REPO, *_llvm("--cflags"), *flags, *extra]
    jobs = []
    for s in sources():
        o = os.path.join(tmp, s.replace("/", "_") + ".o")
        jobs.append(base + (["-Dmain=skull_cli_main"] if rename_main else []) + ["-c", s, "-o", o])
    mo = os.path.join(tmp, "main.o")
    jobs.append(base + ["-c", main_c, "-o", mo])

    def run(cmd):
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True, env=ENV)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stderr)
        return cmd[-1]
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(run, jobs))
    run(["gcc", *flags, *objs, *_llvm("--ldflags", "--libs"), "-lm", "-o", os.path.join(tmp, "prog")])


if __name__ == "__main__":
    print(build(sys.argv[1], *(sys.argv[2:] or ["plain"])))
