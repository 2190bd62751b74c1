"""Running the repository's Python programs in-process, reporting, parallel enumeration."""
import warnings
import gzip, hashlib, importlib.abc, importlib.machinery, io, itertools, json, os, shutil, signal, sys, tempfile, time, traceback, types

REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore", SyntaxWarning)
warnings.simplefilter("ignore", DeprecationWarning)


MISSING = []          # what the stand-ins lacked in this case, also when the program swallowed the exception


class Unmodelled(BaseException):
    """The program used something the stand-ins do not provide: no verdict can be given."""

    def __init__(self, *a):
        super().__init__(*a)
        MISSING.append(str(a[0]) if a else "?")


_names = {}


def stand_in_names():
    """Names of the classes and functions of the stand-ins, as they appear in messages."""
    import inspect
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None) or ""
        if not f.startswith(HERE) or f in _names or "__dict__" not in dir(m):
            continue
        _names[f] = set()
        for o in list(vars(m).values()):
            if inspect.isclass(o) and o.__module__ == m.__name__:
                _names[f].add(o.__qualname__)
                _names[f].update(x.__qualname__ for x in vars(o).values() if inspect.isfunction(x))
            elif inspect.isfunction(o):
                _names[f].add(o.__qualname__)
    return set().union(*_names.values()) - {"call", "main", "run", "lines", "count", "script", "module", "fn", "items", "get", "put"}


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


def lacking(e):
    """Why the exception says more about a stand-in than about the program; None if it does not."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, ImportError):
            root = (e.name or "").split(".")[0]
            here = os.path.exists(os.path.join(REPO, root)) or root in sys.stdlib_module_names or root in ("wimbd", "numpy", "yaml", "dateutil", "")
            if not here:
                return f"import of {e.name}"
        if isinstance(e, AttributeError):
            t = type(getattr(e, "obj", None)) if not isinstance(getattr(e, "obj", None), type) else e.obj
            m = sys.modules.get(getattr(t, "__module__", ""), None)
            if (getattr(m, "__file__", None) or "").startswith(HERE) and not (getattr(m, "__file__", "").startswith(REPO)):
                return f"{t.__name__}.{e.name}"
            if isinstance(getattr(e, "obj", None), types.ModuleType) and (getattr(e.obj, "__file__", None) or "").startswith("<stand-in"):
                return f"{e.obj.__name__}.{e.name}"
        if isinstance(e, TypeError):
            msg = str(e)
            names = stand_in_names()
            words = set(__import__("re").findall(r"[A-Za-z_][\w.]*", msg))
            if "keyword argument" in msg or "positional argument" in msg or "not subscriptable" in msg or "not iterable" in msg or "not callable" in msg or "unsupported operand" in msg \
                    or "object is not" in msg or "has no len" in msg or "context manager" in msg or "item assignment" in msg:
                hit = words & names
                if hit:
                    return f"{sorted(hit)[0]}: {msg}"
        e = e.__cause__ or e.__context__
    return None


# ---- loading ------------------------------------------------------------------------------------------------
_code = {}


def code_of(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        c = _code[path] = compile(src, path, "exec", dont_inherit=True)
    return c


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(code_of(self.path), module.__dict__)
        if module.__name__ in AFTER:
            AFTER[module.__name__](module)


AFTER = {}          # what to do to a module of the repository once it has been loaded


class RepoFinder(importlib.abc.MetaPathFinder):
    """Finds `wimbd...` (and extra roots) in the repository, with the compiled code kept in memory."""

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root != "wimbd":
            return None
        base = os.path.join(REPO, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                s = importlib.machinery.ModuleSpec(name, _Loader(p), origin=p, is_package=pkg)
                s.has_location = True
                if pkg:
                    s.submodule_search_locations = [base]
                return s
        if os.path.isdir(base):
            s = importlib.machinery.ModuleSpec(name, None, is_package=True)
            s.submodule_search_locations = [base]
            return s
        return None


sys.meta_path.insert(0, RepoFinder())


def fresh():
    """Forget every module of the repository, as a new process would."""
    for m in [m for m in sys.modules if m == "wimbd" or m.startswith("wimbd.")]:
        del sys.modules[m]


class Result:
    __slots__ = ("out", "err", "status", "exc", "trace", "ns")

    def __repr__(self):
        return f"status={self.status} exc={self.exc!r} out={self.out[:2000]!r} err={self.err[-500:]!r}"


class _Out(io.StringIO):
    """stdout / stderr with a `buffer`, for programs that write bytes."""

    def __init__(self):
        super().__init__()
        o = self

        class B:
            def write(self, b):
                o.write(b.decode("utf-8"))
                return len(b)

            def flush(self):
                pass

        self.buffer = B()

    def reconfigure(self, **k):
        pass


class _In(io.StringIO):
    def __init__(self, text):
        super().__init__(text, newline=None)
        self._b = io.BytesIO(text.encode("utf-8"))

    @property
    def buffer(self):
        return self._b

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def reconfigure(self, **k):
        pass


def call(fn, stdin="", cwd=None, argv=None, env=None):
    """Run fn() the way a process would be run: arguments, standard streams, working directory, exit status."""
    r = Result()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, list(sys.path)
    oldcwd = os.getcwd() if cwd else None
    oldenv = {}
    sys.stdin, sys.stdout, sys.stderr = _In(stdin), _Out(), _Out()
    out, err = sys.stdout, sys.stderr
    r.exc = r.trace = r.ns = None
    try:
        if argv is not None:
            sys.argv = list(argv)
        if cwd:
            os.chdir(cwd)
        for k, v in (env or {}).items():
            oldenv[k] = os.environ.get(k)
            os.environ[k] = v
        try:
            r.ns = fn()
            r.status = 0
        except SystemExit as e:
            r.status = 0 if e.code in (None, 0) else (e.code if isinstance(e.code, int) else 1)
            if isinstance(e.code, str):
                err.write(e.code)
        except Unmodelled:
            raise
        except CaseTimeout:
            raise
        except BaseException as e:
            r.status, r.exc = 1, e
            r.trace = traceback.format_exc()
            why = lacking(e)
            if why:
                raise Unmodelled(why)
    finally:
        for k, v in oldenv.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if oldcwd:
            os.chdir(oldcwd)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        sys.path[:] = old[4]
    r.out, r.err = out.getvalue(), err.getvalue()
    return r


def script(rel, args=(), stdin="", cwd=None, env=None):
    """`python rel args...` in this process, in a fresh namespace."""
    path = os.path.join(REPO, rel)
    code = code_of(path)
    ns = {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__, "__doc__": None, "__package__": None}
    fresh()
    here = os.path.dirname(path)
    before = set(sys.modules)

    def go():
        sys.path.insert(0, here)
        m = types.ModuleType("__main__")
        m.__dict__.update(ns)
        saved = sys.modules.get("__main__")
        sys.modules["__main__"] = m
        try:
            exec(code, m.__dict__)
        finally:
            sys.modules["__main__"] = saved
        return m.__dict__

    r = call(go, stdin, cwd, [path, *map(str, args)], env)
    # modules found next to the script belong to this "process" only
    for m in set(sys.modules) - before:
        f = getattr(sys.modules.get(m), "__file__", None) or ""
        if f.startswith(REPO):
            del sys.modules[m]
    return r


def module(name):
    """A fresh import of a module of the repository."""
    import importlib
    fresh()
    return importlib.import_module(name)


# ---- files --------------------------------------------------------------------------------------------------
SCRATCH = None


def scratch():
    """An empty scratch directory of this process (reused)."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix="wimbdpy", dir=base))
    d = SCRATCH[1]
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    return d


def drop_scratch():
    global SCRATCH
    if SCRATCH and SCRATCH[0] == os.getpid():
        shutil.rmtree(SCRATCH[1], ignore_errors=True)
    SCRATCH = None


_gz = {}


def gz(data):
    if isinstance(data, str):
        data = data.encode("utf-8", "surrogatepass")
    z = _gz.get(data) if len(data) < 4096 else None
    if z is None:
        z = gzip.compress(data, 1, mtime=0)
        if len(data) < 4096:
            if len(_gz) > 20000:
                _gz.clear()
            _gz[data] = z
    return z


def lines(docs):
    return "".join(json.dumps(d) + "\n" for d in docs)


def styles(docs, plain=False):
    """Ways to store the same documents: (name, bytes of the file)."""
    asc = [json.dumps(d) for d in docs]
    raw = []
    for d in docs:
        t = json.dumps(d, ensure_ascii=False)
        try:
            t.encode("utf-8")
        except UnicodeEncodeError:
            t = json.dumps(d)
        raw.append(t)
    z = (lambda t: t.encode("utf-8")) if plain else (lambda t: gz(t.encode("utf-8")))
    out = [("raw Unicode", z("".join(x + "\n" for x in raw))),
           ("no final newline", z("\n".join(asc))),
           ("CRLF", z("".join(x + "\r\n" for x in asc))),
           ("blanks around", z("".join("  " + json.dumps(d, separators=(" ,  ", " : ")) + " \n" for d in docs))),
           ("keys in reverse", z("".join(json.dumps(dict(reversed(list(d.items())))) + "\n" for d in docs)))]
    if not plain:
        whole = "".join(x + "\n" for x in raw).encode("utf-8")
        out.append(("a gzip member per line", b"".join(gz(x + "\n") for x in raw) or gz("")))
        out.append(("members cut anywhere", b"".join(gz(whole[i:i + 7]) for i in range(0, len(whole), 7)) if len(whole) < 3000
                    else gz(whole[:1001]) + gz(whole[1001:])))
        out.append(("an empty member first and last", gz("") + gz(whole) + gz("")))
        out.append(("stored", gzip.compress(whole, 0, mtime=5)))
    return out


ODD = ["a\u2028b", "\u2029", "x\x85y", "\x7f", "a\x1cb\x1dc\x1ed", "\x0b\x0c", "\ufeffx", "\U0001f600", "a\rb", "a\r\nb", "\"q\\\"", "\u00a0", "\x00", "e\u0301"]


def put(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return path


def get(path):
    """Contents of a file; undone if gzip. None if absent."""
    try:
        with open(path, "rb") as f:
            b = f.read()
    except FileNotFoundError:
        return None
    if b[:2] == b"\x1f\x8b":
        b = gzip.decompress(b)
    return b.decode("utf-8")


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = None
    return out


# ---- enumeration --------------------------------------------------------------------------------------------
class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


class Bad(Exception):
    """A violation."""


def expect(cond, msg):
    if not cond:
        raise Bad(msg() if callable(msg) else msg)


class Counts(dict):
    """Measured per part; filled by case functions through `count`."""


CUR = None


def count(key, n=1):
    if CUR is not None:
        CUR[key] = CUR.get(key, 0) + n


JOBS = min(8, os.cpu_count() or 1)


class Check:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.parts, self.viol, self.broken = [], [], []
        self.t0 = time.time()
        self.known = []
        self.known_seen = []
        p = os.path.join(V, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith(f"known: property={pid} "):
                    self.known.append(l.split("case=", 1)[1].split(" :: "))
        self.assumptions = []
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def part(self, name, items, fn, limit=60.0, budget=None, optional=False):
        """fn(item) raises Bad on a violation. items: a function giving a deterministic iterable."""
        if self.only and self.only[0] != name:
            return
        t0 = time.time()
        res = []
        pids = []
        n_jobs = 1 if self.only else JOBS
        budget = budget or (600 if self.thorough else 60)
        import multiprocessing
        nxt = multiprocessing.get_context("fork").Value("q", 0)     # the next case nobody has taken
        for w in range(n_jobs):
            r, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    signal.signal(signal.SIGALRM, _alarm)
                    data = self._work(name, items, fn, w, nxt, limit, t0 + budget)
                except BaseException:
                    data = {"crash": traceback.format_exc()}
                finally:
                    drop_scratch()
                with os.fdopen(wr, "w") as f:
                    json.dump(data, f)
                os._exit(0)
            os.close(wr)
            pids.append((pid, r))
        for pid, r in pids:
            with os.fdopen(r) as f:
                s = f.read()
            os.waitpid(pid, 0)
            try:
                res.append(json.loads(s))
            except ValueError:
                res.append({"crash": "worker died"})
        p = {"part": name, "cases": 0, "complete": True}
        samples = []
        for d in res:
            if "crash" in d:
                self.broken.append(f"{name}: {d['crash']}")
                continue
            p["cases"] += d["cases"]
            p["complete"] &= d["complete"]
            for k, v in d["counts"].items():
                p[k] = p.get(k, 0) + v
            samples += d["samples"]
            for u in d["unmodelled"]:
                (self.notes if optional else self.broken).append(f"{name}: {u}")
            for v in d["viol"]:
                self.viol.append(v)
        p["seconds"] = round(time.time() - t0, 2)
        self.viol.sort(key=lambda v: (v["part"], v["index"]))
        if samples:
            p["sample"] = min(samples, key=lambda x: x[0])[1]
        self.parts.append(p)
        print(f"  {name}: {p['cases']} cases, " + ", ".join(f"{k} {v}" for k, v in p.items() if k not in ("part", "cases", "complete", "seconds", "sample"))
              + f" {p['seconds']} s" + ("" if p["complete"] else " (cut by time)"), flush=True)

    def _work(self, name, items, fn, w, nxt, limit, deadline):
        global CUR
        CUR = {}
        out = {"cases": 0, "complete": True, "counts": CUR, "samples": [], "viol": [], "unmodelled": []}
        def take():
            with nxt.get_lock():
                nxt.value += 1
                return nxt.value - 1
        timeouts = 0
        mine = self.only[1] if self.only else take()
        for i, it in enumerate(items()):
            if i != mine:
                continue
            if not self.only:
                mine = take()
            if time.time() > deadline:
                out["complete"] = False
                break
            out["cases"] += 1
            msg = None
            MISSING.clear()
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                fn(it)
            except Bad as e:
                msg = str(e)
            except CaseTimeout:
                msg = f"did not finish within {limit} s"
                timeouts += 1
            except Unmodelled as e:
                out["unmodelled"].append(f"case {it!r:.300}: {e}")
            except Exception:
                msg = "the harness could not judge the outcome: " + traceback.format_exc()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if msg is not None and MISSING:
                out["unmodelled"].append(f"case {it!r:.300}: {MISSING[0]}")
                msg = None
            if len(out["samples"]) < 1:
                out["samples"].append((i, f"{it!r:.400}"))
            if msg is not None:
                out["viol"].append({"part": name, "index": i, "case": f"{it!r:.4000}", "message": msg[:6000]})
                if len(out["viol"]) >= 20 or timeouts >= 2:
                    out["complete"] = False
                    break
            if len(out["unmodelled"]) >= 5:
                break
        return out

    def finish(self):
        real = []
        for v in self.viol:
            label = v["part"] + ": " + v["case"]
            k = next((k for k in self.known if label.startswith(k[0])), None)
            if k:
                if k not in self.known_seen:
                    self.known_seen.append(k)
            else:
                real.append(v)
        for k in self.known_seen:
            print(f"KNOWN-FINDING: property={self.pid} {' :: '.join(k).strip()}")
        total = sum(p["cases"] for p in self.parts)
        states = sum(p.get("states", p["cases"]) for p in self.parts)
        trans = sum(p.get("transitions", p.get("runs", p["cases"])) for p in self.parts)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(self.seed), "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans,
                "traces_validated_against_impl": sum(p.get("runs", p["cases"]) for p in self.parts),
                "evaluations": total,
                "distinct_nontrivial": sum(p.get("nontrivial", p["cases"]) for p in self.parts),
                "rule": "every case of the stated bounded space is run on the repository's code and judged by an independent reference",
                "samples": [p["part"] + ": " + p["sample"] for p in self.parts if "sample" in p][:12] or ["none"],
                "exhaustive": all(p["complete"] for p in self.parts),
                "parts": self.parts,
                "known_findings_seen": [k[0] for k in self.known_seen],
                "not_controlled": self.notes[:10],
                "no_verdict": self.broken[:10],
            },
            "assumptions": self.assumptions or ["third-party Python packages that are not installed here are replaced by stand-ins with their documented behaviour"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(real),
        }
        os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for i, v in enumerate(real[:3]):
            path = os.path.join(V, "evidence", "replay", f"{self.pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, **v}, f, indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {v['part']}: {v['case'][:600]}\n  {v['message'][:1200]}")
        print(f"{self.pid} {self.tier}: {total} cases, {len(real)} violations, {time.time() - self.t0:.1f} s")
        if real:
            return 1
        if self.broken:
            print("no verdict:", self.broken[0])
            return 4
        return 0


# ---- helpers for enumerating --------------------------------------------------------------------------------
def seqs(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def splits(seq, parts):
    """Every way to cut seq into exactly `parts` contiguous (possibly empty) pieces."""
    n = len(seq)
    for cuts in itertools.combinations_with_replacement(range(n + 1), parts - 1):
        b = [0, *cuts, n]
        yield [seq[b[i]:b[i + 1]] for i in range(parts)]


def raw(path):
    with open(path, "rb") as f:
        return f.read()


def json_lines(text):
    return [json.loads(l) for l in text.splitlines() if l.strip()]


# ---- shell scripts ------------------------------------------------------------------------------------------
def shell(args, cwd, env=None, order=0, stdin="", timeout=60):
    """Run a command with bin/ (python, parallel, pv) first on PATH. Returns (status, stdout, stderr)."""
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    e = {"PATH": os.path.join(here, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "VERIF_PYTHON": sys.executable, "HOME": cwd,
         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": REPO, "PAR_ORDER": str(order), "LC_ALL": "C.UTF-8", "TMPDIR": cwd, "VERIF_REPO": REPO,
         "TEXT_AND_URL_OVERLAPS": os.path.join(REPO, "wimbd/text_and_url_overlaps"), **(env or {})}
    p = subprocess.Popen(args, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout)
    except BaseException:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    if "UNMODELLED" in er:
        raise Unmodelled(er[er.index("UNMODELLED"):][:300])
    return p.returncode, o, er
