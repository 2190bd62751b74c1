"""Crash points: every change a program makes to the files below a directory is a step of the controlled scheduler, and every state
of the directory that exists at some moment of some schedule (torn writes included) is recorded - what a crash would leave."""
import builtins, io, os, shutil, sys, time
import lib, sched


class Handle(io.RawIOBase):
    """An unbuffered file: every write is a step of its own."""

    def __init__(self, fs, raw, name):
        self.fs, self.raw_, self.path = fs, raw, name
        self.name = name

    def readable(self):
        return self.raw_.readable()

    def writable(self):
        return self.raw_.writable()

    def seekable(self):
        return self.raw_.seekable()

    def readinto(self, b):
        return self.raw_.readinto(b)

    def seek(self, *a):
        return self.raw_.seek(*a)

    def tell(self):
        return self.raw_.tell()

    def truncate(self, *a):
        return self.fs.step(f"truncate {self.path}", lambda: self.raw_.truncate(*a))

    def fileno(self):
        return self.raw_.fileno()

    def write(self, b):
        b = bytes(b)
        if not b:
            return 0

        def put():
            h = len(b) // 2
            if h:
                self.raw_.write(b[:h])
                self.fs.record()
                self.raw_.write(b[h:])
            else:
                self.raw_.write(b)
            return len(b)
        return self.fs.step(f"write {self.path} {hash(b)}", put)

    def close(self):
        if not self.closed:
            self.raw_.close()
            super().close()


class FS(sched.Shared):
    """Intercepts the program's changes below root."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.seen = {}
        self.run = None
        self.snap = None
        self.quiet = False

    def inside(self, p):
        if self.quiet:
            return False
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            return False
        p = os.path.realpath(p)
        return p == self.root or p.startswith(self.root + "/")

    def state(self):
        return self.snap

    def shot(self):
        out = []
        for d, ds, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with REAL["open"](p, "rb") as h:
                    out.append((os.path.relpath(p, self.root), h.read()))
            for x in ds:
                out.append((os.path.relpath(os.path.join(d, x), self.root) + "/", None))
        return tuple(sorted(out, key=lambda x: x[0]))

    def record(self):
        self.snap = self.shot()
        if self.snap not in self.seen:
            self.seen[self.snap] = True

    def step(self, label, effect):
        def go():
            try:
                r = effect()
            except OSError as e:
                return ("error", e)
            self.record()
            return ("ok", r)
        run = self.run
        label = label.replace(self.root, "")
        if run is not None and getattr(sched.cur, "t", None) is not None and sched.cur.t.run is run:
            k, r = run.step(label, None, go)
        else:
            k, r = go()
        if k == "error":
            raise r
        return r

    # -- replacement functions
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        w = any(c in mode for c in "wax+")
        if not isinstance(file, (str, os.PathLike)) or not w or not self.inside(file):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace("t", "").replace("b", "")
        raw = self.step(f"open {os.path.realpath(file)} {m}", lambda: REAL["open"](file, m + "b", 0))
        h = Handle(self, raw, os.fspath(file))
        if "b" in mode:
            if buffering == 0:
                return h
            return io.BufferedRandom(h) if "+" in mode else io.BufferedWriter(h)
        b = io.BufferedRandom(h) if "+" in mode else io.BufferedWriter(h)
        return io.TextIOWrapper(b, encoding or "utf-8", errors, newline)

    def wrap(self, name):
        f = REAL[name]

        def g(*a, **k):
            ps = [x for x in a[:2] if isinstance(x, (str, os.PathLike))]
            if k.get("dir_fd") is not None:
                ps = [os.path.join(os.readlink(f"/proc/self/fd/{k['dir_fd']}"), x) for x in ps]
            if any(self.inside(x) for x in ps):
                return self.step(f"{name} {' '.join(os.path.realpath(x) for x in ps)}", lambda: f(*a, **k))
            return f(*a, **k)
        return g

    def __enter__(self):
        builtins.open = io.open = self.open
        for n in OPS:
            setattr(os, n, self.wrap(n))
        self.time = time.time
        time.time = lambda: 1700000000.0
        return self

    def __exit__(self, *a):
        builtins.open = io.open = REAL["open"]
        for n in OPS:
            setattr(os, n, REAL[n])
        time.time = self.time
        return False


OPS = ("replace", "rename", "remove", "unlink", "mkdir", "rmdir", "link", "symlink", "truncate")
REAL = {"open": builtins.open, **{n: getattr(os, n) for n in OPS}}


def materialize(root, snap):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for n, b in snap or ():
        p = os.path.join(root, n)
        if b is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with REAL["open"](p, "wb") as f:
                f.write(b)


def explore(root, start, program, judge, max_runs=10 ** 9):
    """All schedules of program() from the directory state `start`. Returns the set of directory states on the way.
    judge(result of program, final state)"""
    fs = FS(root)
    box = {}

    def make(run):
        fs.quiet = True
        materialize(root, start)
        fs.quiet = False
        fs.run = run
        fs.record()
        run.shared.append(fs)

        def main():
            box["r"] = program()
        run.spawn(main, "main")

    def done(run):
        if run.deadlock:
            raise lib.Bad("deadlock: " + ", ".join(f"{t.name}: {t.pending[0]}" for t in run.threads if not t.done))
        for t in run.threads:
            if isinstance(t.exc, lib.Unmodelled):
                raise t.exc
            if t.exc is not None and not t.name.startswith("pool"):
                raise lib.Bad(f"{t.name} died: {t.trace}")
        judge(box["r"], fs.snap)
    with fs:
        sched.explore(make, done, max_runs=max_runs)
    return list(fs.seen)


# ---- thread pools -------------------------------------------------------------------------------------------
class Future:
    def __init__(self, run):
        self.run, self.ready, self.value, self.exc, self.callbacks = run, False, None, None, []

    def result(self, timeout=None):
        self.run.step("get", lambda: self.ready)
        if self.exc:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        self.run.step("get", lambda: self.ready)
        return self.exc

    def done(self):
        return self.ready

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, f):
        raise lib.Unmodelled("callbacks of futures")


class ThreadPoolExecutor:
    """Threads take jobs in order; with every effect of a job a step of its own."""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if initializer:
            raise lib.Unmodelled("initializer")
        self.run = sched.current
        self.jobs, self.closed, self.taken = [], False, 0
        self.run.shared.append(self)
        self.threads = [self.run.spawn(self._work, f"pool{i}", "worker") for i in range(min(max_workers or 2, 3))]

    def state(self):
        return (len(self.jobs), self.taken, self.closed)

    def _work(self):
        while True:
            def take():
                if self.taken < len(self.jobs):
                    self.taken += 1
                    return self.taken - 1
                return None
            n = self.run.step("take", lambda: self.taken < len(self.jobs) or self.closed, take)
            if n is None:
                return
            fut, f, a, k = self.jobs[n]
            try:
                fut.value = f(*a, **k)
            except sched.Abort:
                raise
            except BaseException as e:
                if isinstance(e, lib.Unmodelled):
                    raise
                fut.exc = e
            fut.ready = True

    def submit(self, f, *a, **k):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = Future(self.run)
        self.run.step("put", None, lambda: self.jobs.append((fut, f, a, k)))
        return fut

    def map(self, f, *its, timeout=None, chunksize=1):
        fs = [self.submit(f, *a) for a in zip(*its)]
        return (x.result() for x in fs)

    def shutdown(self, wait=True, cancel_futures=False):
        if cancel_futures:
            raise lib.Unmodelled("cancel_futures")
        self.closed = True
        if wait:
            self.run.step("join", lambda: all(t.done for t in self.threads))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def as_completed(fs, timeout=None):
    fs = list(fs)
    while fs:
        run = fs[0].run
        run.step("next", lambda: any(f.ready for f in fs))
        f = next(f for f in fs if f.ready)
        fs.remove(f)
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    if return_when != "ALL_COMPLETED":
        raise lib.Unmodelled("wait " + return_when)
    fs = set(fs)
    for f in fs:
        f.exception()
    return fs, set()


def install():
    import concurrent.futures, stubs
    cf = stubs.mod("concurrent.futures", ThreadPoolExecutor=ThreadPoolExecutor, as_completed=as_completed, wait=wait, ALL_COMPLETED="ALL_COMPLETED", FIRST_COMPLETED="FIRST_COMPLETED",
                   FIRST_EXCEPTION="FIRST_EXCEPTION", Future=Future)
    c = stubs.mod("concurrent", futures=cf)
    return {"concurrent": c, "concurrent.futures": cf}
