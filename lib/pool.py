"""Pool of fork servers (see harness/server.c) in a scratch directory."""
import os, shutil, struct, subprocess, tempfile, threading, queue, atexit
from concurrent.futures import ThreadPoolExecutor
from build import ENV

NCPU = min(8, os.cpu_count() or 4)


class Result:
    __slots__ = ("status", "timeout", "out", "err")

    def __init__(self, status, timeout, out, err):
        self.status, self.timeout, self.out, self.err = status, timeout, out, err


class Server:
    def __init__(self, prog, scratch):
        self.dir = tempfile.mkdtemp(dir=scratch)
        env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
        self.prog, self.env = prog, env
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.prog], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env)

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise RuntimeError("fork server died")
        return b

    def req(self, kind, cwd, args, timeout=10.0, color=None, env=()):
        env = list(env) + ([] if color is None else ["COLOR=" + color])
        f = [kind, cwd, str(int(timeout * 1000)), str(len(env)), *env, str(len(args)), *args]
        m = b"\0".join(x if isinstance(x, bytes) else os.fsencode(x) for x in f) + b"\0"
        self.p.stdin.write(struct.pack("<I", len(m)) + m)
        self.p.stdin.flush()
        st, tm = struct.unpack("<ii", self._rd(8))
        n, = struct.unpack("<I", self._rd(4)); out = self._rd(n)
        n, = struct.unpack("<I", self._rd(4)); err = self._rd(n)
        return Result(st, bool(tm), out, err)

    def skull(self, cwd, *args, **kw):
        return self.req("s", cwd, ["skull", *args], **kw)

    def exec(self, cwd, *args, **kw):
        return self.req("x", cwd, list(args), **kw)

    def fresh(self):
        """an empty directory, wiped by the next call"""
        d = os.path.join(self.dir, "w")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        return d

    def close(self):
        try:
            self.p.stdin.close(); self.p.kill(); self.p.wait()
        except Exception:
            pass


class Pool:
    def __init__(self, prog, n=NCPU):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="skullv-", dir=base)
        self.servers = [Server(prog, self.scratch) for _ in range(n)]
        self.q = queue.Queue()
        for s in self.servers:
            self.q.put(s)
        self.ex = ThreadPoolExecutor(n)
        atexit.register(self.close)

    def map(self, fn, items):
        def one(x):
            s = self.q.get()
            try:
                return fn(s, x)
            finally:
                self.q.put(s)
        return self.ex.map(one, items)

    def close(self):
        for s in self.servers:
            s.close()
        self.ex.shutdown(wait=False)
        shutil.rmtree(self.scratch, ignore_errors=True)
