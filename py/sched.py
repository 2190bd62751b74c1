"""Controlled scheduler for Python programs: stateless search over the schedules of threads (standing for threads
or processes of the program), with states recognised by what every thread has observed so far and the shared data."""
import copy, sys, threading
import lib


class Abort(BaseException):
    pass


class Restart(BaseException):
    """A thread takes a lock without waiting: the search starts again without the reduction that excludes this."""


class T:
    def __init__(self, run, fn, name, kind):
        self.run, self.fn, self.name, self.kind = run, fn, name, kind
        self.sem = threading.Semaphore(0)
        self.pending = None
        self.hist = 0
        self.done = False
        self.exc = None
        self.result = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        cur.t = self
        self.sem.acquire()
        try:
            if not self.run.aborting:
                self.result = self.fn()
        except Abort:
            pass
        except BaseException as e:
            import traceback
            self.exc = e
            self.trace = traceback.format_exc()
        self.done = True
        self.pending = None
        self.run.ctl.release()


cur = threading.local()


EAGER = {"start", "put", "get", "wait", "join", "release"}


class Run:
    """One execution. prefix: choices to replay; then the first enabled thread runs."""

    def __init__(self, prefix, seen, crash=False):
        self.prefix, self.seen, self.crash = prefix, seen, crash
        self.threads = []
        self.ctl = threading.Semaphore(0)
        self.aborting = False
        self.trace, self.alts = [], []
        self.shared = []        # objects with a state() method
        self.steps = 0
        self.pruned = self.deadlock = self.crashed = self.restart = False
        self.idle = []          # called when nothing is enabled; may change the world, returns True if it did

    def spawn(self, fn, name=None, kind=None):
        name = name or f"t{len(self.threads)}"
        t = T(self, fn, name, kind or name)
        self.threads.append(t)
        t.pending = ("start", None, None)
        t.thread.start()
        return t

    def step(self, label, enabled=None, effect=None):
        """A scheduling point of the calling thread: waits until chosen, performs effect(), returns its result."""
        t = getattr(cur, "t", None)
        if t is None or t.run is not self:
            return effect() if effect else None
        if self.aborting:
            raise Abort()
        t.pending = (label, enabled, effect)
        self.ctl.release()
        t.sem.acquire()
        if self.aborting:
            raise Abort()
        t.pending = None
        r = effect() if effect else None
        t.hist = hash((t.hist, label, repr(r)))
        return r

    def go(self, limit=100000):
        while True:
            alive = [t for t in self.threads if not t.done]
            if not alive:
                break
            en = [t for t in alive if t.pending[1] is None or t.pending[1]()]
            if not en:
                if any(f() for f in self.idle):
                    continue
                self.deadlock = True
                break
            if not self.crash:
                # steps that commute with every step of the others that can come before them
                e = next((t for t in en if t.pending[0] in EAGER and (t.pending[0] != "release" or not Lock.tried)), None)
                if e is not None:
                    self.steps += 1
                    e.sem.release()
                    self.ctl.acquire()
                    continue
            pos = len(self.trace)
            n = len(en) + (1 if self.crash else 0)
            if pos < len(self.prefix):
                c = self.prefix[pos]
            else:
                # the workers of a pool are interchangeable: what counts is what they have seen, not which is which
                sig = (tuple(sorted((t.kind, t.hist, t.done, str(t.pending[0]) if t.pending else "") for t in self.threads)), tuple(s.state() for s in self.shared))
                if sig in self.seen:
                    self.pruned = True
                    break
                self.seen.add(sig)
                c = 0
                for i in range(1, n):
                    self.alts.append(self.trace + [i])
            self.trace.append(c)
            if c == len(en):
                self.crashed = True
                break
            self.steps += 1
            if self.steps > limit:
                raise lib.Bad(f"no end after {limit} steps")
            t = en[c]
            t.sem.release()
            self.ctl.acquire()
        self.aborting = True
        for t in self.threads:
            if not t.done:
                t.sem.release()
                t.thread.join()
        for t in self.threads:
            t.thread.join()


current = None      # the Run in progress


def explore(make, judge, crash=False, max_runs=10 ** 9, dedup=True):
    """make(run): set up and spawn; judge(run): called for every completed (not pruned) execution."""
    global current
    seen, stack = set(), [[]]
    runs = 0
    while stack:
        prefix = stack.pop()
        run = Run(prefix, seen if dedup else Never(), crash)
        current = run
        make(run)
        run.go()
        current = None
        runs += 1
        if run.restart:
            seen, stack = set(), [[]]
            continue
        lib.count("runs")
        lib.count("transitions", run.steps)
        stack += run.alts
        if not run.pruned:
            lib.count("executions")
            judge(run)
        if runs >= max_runs:
            lib.count("cut")
            break
    lib.count("states", len(seen))
    return runs


class Never(set):
    def __contains__(self, x):
        return False


# ---- shared objects -----------------------------------------------------------------------------------------
class Shared:
    """Survives deep copies (what processes share)."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Lock(Shared):
    tried = False       # somebody takes locks without waiting

    def __init__(self, recursive=False):
        self.owner, self.depth, self.recursive = None, 0, recursive
        self.run = current
        if current:
            current.shared.append(self)

    def state(self):
        return ((self.owner.kind, self.owner.hist) if self.owner else None, self.depth)

    def acquire(self, block=True, timeout=None, blocking=None):
        block = block if blocking is None else blocking
        me = getattr(cur, "t", None)

        def free():
            return self.owner is None or (self.recursive and self.owner is me)

        def take():
            if not free():
                return False
            self.owner = me
            self.depth += 1
            return True
        if self.run is None:
            return True
        if not block or timeout is not None:
            if not Lock.tried:
                Lock.tried = self.run.restart = True
                raise Restart()
        return self.run.step("acquire", free if block and timeout is None else None, take)

    def release(self):
        def give():
            if self.owner is None:
                raise ValueError("semaphore or lock released too many times")
            self.depth -= 1
            if not self.depth:
                self.owner = None
        if self.run is not None:
            self.run.step("release", None, give)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


class Array(Shared):
    """An array in shared memory: every element access is a step."""

    def __init__(self, n, fill=False):
        self.a = [fill] * n
        self.run = current
        if current:
            current.shared.append(self)

    def state(self):
        return tuple(self.a)

    def __len__(self):
        return len(self.a)

    @property
    def shape(self):
        return (len(self.a),)

    def _step(self, label, f):
        return self.run.step(label, None, f) if self.run else f()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._step(f"read {i}", lambda: list(self.a[i]))
        return self._step(f"read {int(i)}", lambda: self.a[i])

    def __setitem__(self, i, v):
        def put():
            self.a[i] = v if not isinstance(i, slice) else [v] * len(self.a[i]) if not hasattr(v, "__len__") else v
        self._step(f"write {i} {v}", put)

    def __iter__(self):
        return iter(list(self.a))

    def flush(self):
        pass

    def get_lock(self):
        if not hasattr(self, "_lock"):
            self._lock = Lock(True)
        return self._lock

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "_lock":
            raise AttributeError(n)
        raise lib.Unmodelled("array." + n)


class Value(Shared):
    def __init__(self, typecode=None, v=0, lock=True):
        self.__dict__["v"] = v
        self.__dict__["run"] = current
        self.__dict__["_lock"] = Lock(True)
        if current:
            current.shared.append(self)

    def state(self):
        return self.v

    @property
    def value(self):
        return self.run.step("load", None, lambda: self.v) if self.run else self.v

    @value.setter
    def value(self, x):
        def put():
            self.__dict__["v"] = x
        self.run.step(f"store {x}", None, put) if self.run else put()

    def get_lock(self):
        return self._lock


# ---- process pool -------------------------------------------------------------------------------------------
class Future:
    def __init__(self, run):
        self.run, self.ready_, self.value, self.exc = run, False, None, None

    def get(self, timeout=None):
        self.run.step("get", lambda: self.ready_)
        if self.exc:
            raise self.exc
        return self.value

    result = get

    def ready(self):
        return self.ready_

    def wait(self, timeout=None):
        self.run.step("wait", lambda: self.ready_)


class Pool:
    """multiprocessing.Pool; every worker has its own copy of the program's globals, as after fork()."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None:
            raise lib.Unmodelled("maxtasksperchild")
        self.run = current
        self.tasks, self.closed = [], False
        self.run.shared.append(self)
        main = sys.modules["__main__"]
        self.workers = []
        for w in range(processes or 2):
            ns = self._fork(main)
            self.workers.append(self.run.spawn(lambda ns=ns: self._work(ns, initializer, initargs), f"w{len(self.run.threads)}", "worker"))

    @staticmethod
    def _fork(main):
        import types
        m = types.ModuleType("__mp_main__")
        m.__dict__.update({"__file__": main.__file__, "__name__": "__mp_main__"})
        exec(lib.code_of(main.__file__), m.__dict__)
        memo = {}
        for k, v in main.__dict__.items():
            if k.startswith("__") or isinstance(v, (types.FunctionType, type, types.ModuleType)):
                continue
            try:
                m.__dict__[k] = copy.deepcopy(v, memo)
            except Exception:
                m.__dict__[k] = v
        return m.__dict__

    def state(self):
        return (len(self.tasks), self.closed)

    @staticmethod
    def _resolve(ns, f):
        import functools, types
        if isinstance(f, functools.partial):
            return functools.partial(Pool._resolve(ns, f.func), *f.args, **f.keywords)
        if isinstance(f, types.FunctionType) and f.__module__ == "__main__" and f.__name__ in ns:
            return ns[f.__name__]
        return f

    def _work(self, ns, initializer, initargs):
        if initializer:
            self._resolve(ns, initializer)(*copy.deepcopy(initargs))
        while True:
            def take():
                return self.tasks.pop(0) if self.tasks else None
            # the result's text goes into the history
            job = self.run.step("take", lambda: self.tasks or self.closed, take)
            if job is None:
                return
            fut, f, calls = job.fut, job.f, job.calls
            g = self._resolve(ns, f)
            out = []
            try:
                for a, k in calls:
                    out.append(g(*copy.deepcopy(a), **copy.deepcopy(k)))
            except Exception as e:
                fut.exc = e
            fut.value = copy.deepcopy(out)
            fut.ready_ = True

    def _put(self, f, calls, single=True):
        fut = Future(self.run)
        fut.single = single
        job = Job(fut, f, calls, len(getattr(self, "jobs", [])))
        self.run.step("put", None, lambda: self.tasks.append(job))
        return fut

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if callback or error_callback:
            raise lib.Unmodelled("callbacks")
        return One(self._put(func, [(tuple(args), dict(kwds))]))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _all(self, func, it, star):
        return [One(self._put(func, [(tuple(x) if star else (x,), {})])) for x in it]

    def map(self, func, iterable, chunksize=None):
        return [f.get() for f in self._all(func, iterable, False)]

    def starmap(self, func, iterable, chunksize=None):
        return [f.get() for f in self._all(func, iterable, True)]

    def imap(self, func, iterable, chunksize=1):
        fs = self._all(func, iterable, False)
        return (f.get() for f in fs)

    def imap_unordered(self, func, iterable, chunksize=1):
        fs = self._all(func, iterable, False)
        while fs:
            self.run.step("next", lambda: any(f.f.ready_ for f in fs))
            f = next(f for f in fs if f.f.ready_)
            fs.remove(f)
            yield f.get()

    def close(self):
        self.closed = True

    def terminate(self):
        self.tasks.clear()
        self.closed = True

    def join(self):
        self.run.step("join", lambda: all(w.done for w in self.workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Job:
    def __init__(self, fut, f, calls, n):
        self.fut, self.f, self.calls = fut, f, calls

    def __repr__(self):
        return f"job {[a for a, k in self.calls]!r:.200}"


class One:
    def __init__(self, f):
        self.f = f

    def get(self, timeout=None):
        return self.f.get(timeout)[0]

    def ready(self):
        return self.f.ready()

    def wait(self, timeout=None):
        self.f.wait(timeout)

    def successful(self):
        return self.f.exc is None
