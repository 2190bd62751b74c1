"""Deduplication and decontamination against a blocklist, under every schedule of the worker processes."""
import argparse, collections, hashlib, itertools, json, os, re, sys, types
import lib, sched, stubs
from lib import Bad, expect, count, gz, lines, seqs

H = "wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py"


def md5(t):
    return hashlib.md5(t.encode()).hexdigest()


def modules():
    """multiprocessing and numpy as the controlled program sees them."""
    mp = stubs.mod("multiprocessing", cpu_count=lambda: 2, Lock=lambda *a, **k: sched.Lock(), RLock=lambda *a, **k: sched.Lock(True), Pool=sched.Pool,
                   Value=sched.Value, get_context=lambda *a: mp, set_start_method=lambda *a, **k: None)
    mp.Array = lambda t, n, lock=True: sched.Array(n if isinstance(n, int) else len(n), 0)
    mp.RawArray = mp.Array
    mp.pool = stubs.mod("multiprocessing.pool", Pool=sched.Pool)
    import numpy

    class NP(types.ModuleType):
        def __getattr__(self, n):
            return getattr(numpy, n)
    np = NP("numpy")

    def memmap(filename, dtype=None, mode="r+", offset=0, shape=None, order="C"):
        if mode not in ("w+",):
            raise lib.Unmodelled("memmap mode " + mode)
        return sched.Array(shape if isinstance(shape, int) else shape[0], False)
    np.memmap = memmap
    return {"multiprocessing": mp, "multiprocessing.pool": mp.pool, "numpy": np}


def fname(i):
    """Not in alphabetical order."""
    return f"{'qzajmbx'[i % 7]}{i}.jsonl.gz"


SOURCES = ["s0", "s1", None, "", "s 2", "S0"]


def setup(d, shards, block):
    os.mkdir(os.path.join(d, "in"))
    os.mkdir(os.path.join(d, "out"))
    names = []
    n = 0
    rows = []
    for i, s in enumerate(shards):
        r = []
        for t in s:
            r.append({"text": t, "id": f"i{n}", "source": SOURCES[n % len(SOURCES)], "more": [n]})
            n += 1
        rows.append(r)
        names.append(lib.put(os.path.join(d, "in", fname(i)), gz(lines(r))))
    b = lib.put(os.path.join(d, "block.txt"), "".join(md5(t) + "\n" for t in block))
    return names, rows, b


def outcome(d, shards, rows, block, keep, attrs, out, what, one=False):
    """Judge the files written and the numbers printed."""
    kept, matched, per_shard, by = {}, 0, [], collections.Counter()
    for i, r in enumerate(rows):
        text = lib.get(os.path.join(d, "out", fname(i)))
        expect(text is not None, f"{what}: no output for shard {i}")
        got = lib.json_lines(text)
        live = [x for x in r if x["text"] is not None]
        m = 0
        if attrs:
            expect([(x["id"], x["source"]) for x in got] == [(x["id"], x["source"]) for x in live], f"{what}: shard {i}: documents {[x.get('id') for x in got]} instead of {[x['id'] for x in live]}")
            for x, y in zip(got, live):
                if x["contaminated"]:
                    m += 1
                    by[str(y["source"])] += 1
                    expect(y["text"] in block, f"{what}: {y['id']} is marked although its text is not on the list")
                else:
                    kept.setdefault(y["text"], []).append(y["id"])
        else:
            pos = 0
            for x in got:
                while pos < len(live) and live[pos] != x:
                    by[str(live[pos]["source"])] += 1
                    pos += 1
                    m += 1
                expect(pos < len(live), f"{what}: shard {i}: {got} is not a subsequence of the input")
                kept.setdefault(x["text"], []).append(x["id"])
                pos += 1
            m += len(live) - pos
            by.update(str(x["source"]) for x in live[pos:])
        per_shard.append(m)
        matched += m
    have = [x["text"] for r in rows for x in r if x["text"] is not None]
    first = {}
    for r in rows:
        for x in r:
            first.setdefault(x["text"], x["id"])
    for t in set(have):
        n = len(kept.get(t, []))
        want = have.count(t) if t not in block else (1 if keep else 0)
        expect(n == want, f"{what}: text {t!r} is kept {n} times instead of {want}")
        if one and keep and t in block:
            expect(kept[t] == [first[t]], f"{what}: text {t!r}: kept {kept[t]}, the first one is {first[t]}")
    nums = [(os.path.basename(f), int(x)) for x, f in re.findall(r"^(\d+) documents matched in (.*)$", out, re.M)]
    expect(nums == [(fname(i), m) for i, m in enumerate(per_shard)], f"{what}: printed {nums} per shard, files say {per_shard}: {out}")
    tot = re.findall(r"^A total of (\d+) ", out, re.M)
    expect(tot == [str(matched)], f"{what}: printed total {tot}, files say {matched}")
    src = {k: int(x) for x, k in re.findall(r"^(\d+) documents were matched from (.*)$", out, re.M)}
    expect({k: v for k, v in src.items() if v} == by, f"{what}: per source {src}, files say {dict(by)}")


def schedules(cases, procs, block=("a", "b")):
    mods = {}

    def items():
        for shards in cases():
            for attrs in (True, False):
                for keep in (True, False) if sum(len(s) for s in shards) <= 2 else (True,):
                    yield shards, keep, attrs

    def fn(it):
        shards, keep, attrs = it
        if not mods:
            mods.update(modules())
        state = {}

        def make(run):
            d = lib.scratch()
            names, rows, b = setup(d, shards, block)
            args = ["--shards", *names, "--blocklist", b, "--outpath", os.path.join(d, "out"), "--num_processes", str(procs)]
            args += ["--keep_first_occurrence"] * keep + ["--just_write_attributes"] * attrs
            state.update(d=d, rows=rows)
            state["saved"] = {k: sys.modules.get(k) for k in mods}
            sys.modules.update(mods)

            def main():
                state["r"] = lib.script(H, args, cwd=d)
            run.spawn(main, "main")

        def judge(run):
            what = f"shards {shards}, keep first {keep}, attributes {attrs}, schedule {run.trace}"
            if run.deadlock:
                raise Bad(f"{what}: deadlock: " + ", ".join(f"{t.name}: {t.pending[0]}" for t in run.threads if not t.done))
            for t in run.threads:
                if isinstance(t.exc, lib.Unmodelled):
                    raise t.exc
                if t.exc is not None:
                    raise Bad(f"{what}: {t.name} died: {t.trace}")
            r = state["r"]
            expect(r.status == 0, lambda: f"{what}: failed: {r.trace}")
            outcome(state["d"], shards, state["rows"], block, keep, attrs, r.out, what, one=procs == 1)

        def wrapped(run):
            make(run)
        orig_go = sched.Run.go

        def go(self, *a):
            try:
                orig_go(self, *a)
            finally:
                for k, v in state["saved"].items():
                    if v is None:
                        sys.modules.pop(k, None)
                    else:
                        sys.modules[k] = v
        sched.Run.go = go
        try:
            n = sched.explore(wrapped, judge)
            count("nontrivial", int(n > 2))
        finally:
            sched.Run.go = orig_go
    return items, fn


def two(n, alphabet):
    def cases():
        one = [tuple(x) for x in seqs(alphabet, 0, n)]
        for a in one:
            for b in one:
                yield (a, b)
    return cases


def three(alphabet):
    def cases():
        for x in itertools.product(alphabet, repeat=3):
            yield tuple((t,) for t in x)
        yield (("a", "b"), ("b", "a"), ("a",))
        yield (("a",), ("a",), ("a",), ("a",))
    return cases


def pairs(alphabet):
    def cases():
        ps = list(itertools.product(alphabet, repeat=2))
        yield from itertools.combinations_with_replacement(ps, 3)
        for x in itertools.product(alphabet, repeat=4):
            yield tuple((t,) for t in x)
    return cases


def real(cases):
    """The whole tool with real processes: decontaminate.py and deduplicate.py."""
    def items():
        for s in cases:
            for tool in ("dedup", *(f"decontam {i}" for i in range(1, 6)), "dedup list", "decontam list", "dedup given"):
                yield s, tool

    def fn(it):
        shards, tool = it
        d = lib.scratch()
        names, rows, b = setup(d, shards, ["a", "zzz"])
        T = os.path.join(lib.REPO, "wimbd/text_and_url_overlaps/")
        out = os.path.join(d, "out")
        texts = [t for s in shards for t in s if t is not None]
        if tool == "dedup":
            a = [T + "deduplicate.py", "--in_files", *names, "--out_dir", out, "--tmp_dir", d]
            block, keep = {t for t in texts if texts.count(t) > 1}, True
        elif tool == "dedup given":
            a = [T + "deduplicate.py", "--in_files", *names, "--out_dir", out, "--blocklist", b]
            block, keep = {"a", "zzz"}, True
        elif tool.startswith("decontam ") and tool[9:].isdigit():
            # the texts of the other side, once or twice, in one or two files
            ev = {"1": [["a", "q", "a"]], "2": [["a", "q", "c", "u5", " "]], "3": [["c", "zz"], ["a", "c", "t3"]], "4": [["b"], []], "5": [["e"], ["e"]]}[tool[9:]]
            evs = [lib.put(os.path.join(d, f"eval{i}.jsonl.gz"), gz(lines([{"text": t} for t in x]))) for i, x in enumerate(ev)]
            a = [T + "decontaminate.py", "--in_files1", *evs, "--in_files2", *names, "--out_dir", out, "--tmp_dir", d]
            block, keep = {t for x in ev for t in x}, False
        elif tool == "dedup list":
            a = [T + "deduplicate.py", "--in_files", *names, "--tmp_dir", d, "--build_blocklist_only"]
        else:
            a = [T + "decontaminate.py", "--in_files2", *names, "--out_dir", out, "--blocklist", b]
            block, keep = {"a", "zzz"}, False
        st, o, err = lib.shell(["python", *a], d)
        count("runs")
        expect(st == 0, f"{tool} {shards}: failed ({st}): {err[-1500:]}")
        if tool == "dedup list":
            got = (lib.get(os.path.join(d, "duplicates_hashes.txt")) or "").split("\n")[:-1]
            want = sorted(md5(t) for t in set(texts) if texts.count(t) > 1)
            nn = sum(t is None for s in shards for t in s)
            expect(got in ([want, sorted(want + ["None"])] if nn > 1 else [want]), f"{tool} {shards}: {got}, should be {want}")
            expect(os.listdir(out) == [], f"{tool}: output was written")
            return
        outcome(d, shards, rows, block, keep, True, o, f"{tool} {shards}", one=len(shards) == 1)
        count("nontrivial", int(bool(block & set(texts))))
    return items, fn


def direct(cases):
    """The step itself with real processes, lists with repeated and blank lines, more shards than processes."""
    def items():
        for s in cases:
            for keep in (True, False):
                for attrs in (True, False):
                    for p in (1, 3):
                        yield s, keep, attrs, p

    def fn(it):
        shards, keep, attrs, p = it
        d = lib.scratch()
        names, rows, b = setup(d, shards, ["a", "b", "a", "zzz", "e", "e", ""])
        a = [os.path.join(lib.REPO, H), "--shards", *names, "--blocklist", b, "--outpath", os.path.join(d, "out"), "--num_processes", str(p)]
        a += ["--keep_first_occurrence"] * keep + ["--just_write_attributes"] * attrs
        # a second run over what the first one left behind, then one with another list at the same place
        for again, block in (("", {"a", "b", "e", ""}), (" again", {"a", "b", "e", ""}), (" with another list", {"c", "e", "t1", "q"})):
            if again.endswith("list"):
                lib.put(b, "".join(md5(t) + "\n" for t in ("q", "e", "c", "q", "t1", "e")))
            st, o, err = lib.shell(["python", *a], d)
            count("runs")
            expect(st == 0, f"{it}{again}: failed ({st}): {err[-1500:]}")
            outcome(d, shards, rows, block, keep, attrs, o, f"{it}{again}", one=min(p, len(shards)) == 1)
        count("nontrivial")
    return items, fn


def same_names():
    """Shards of different directories that have the same file name: every document is written all the same."""
    LAY = [("x/a", "y/a"), ("x/a", "y/a", "x/b"), ("x/u/a", "x/v/a", "y/u/a"), ("x/a", "x/u/a"), ("x/u/a", "x/a", "a"), ("x/b", "y/a", "z/a", "u/c")]

    def items():
        for lay in LAY:
            for keep in (True, False):
                for attrs in (True, False):
                    for rel in (True, False):
                        yield lay, keep, attrs, rel

    def fn(it):
        lay, keep, attrs, rel = it
        d = lib.scratch()
        os.mkdir(os.path.join(d, "out"))
        names, rows, n = [], [], 0
        for i, l in enumerate(lay):
            r = []
            for t in ("a", f"own{i}", "b", "a", "c"):
                r.append({"text": t, "id": f"i{n}", "source": SOURCES[n % 2]})
                n += 1
            p = os.path.join(d, "in", l + ".jsonl.gz")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            lib.put(p, gz(lines(r)))
            names.append(os.path.relpath(p, d) if rel else p)
            rows.append(r)
        b = lib.put(os.path.join(d, "block.txt"), "".join(md5(t) + "\n" for t in ("a", "b")))
        a = [os.path.join(lib.REPO, H), "--shards", *names, "--blocklist", b, "--outpath", "out" if rel else os.path.join(d, "out"), "--num_processes", "2"]
        a += ["--keep_first_occurrence"] * keep + ["--just_write_attributes"] * attrs
        before = {k: v for k, v in lib.snapshot(d).items() if k.startswith("in")}
        st, o, err = lib.shell(["python", *a], d)
        count("runs")
        expect(st == 0, f"{it}: failed ({st}): {err[-1500:]}")
        expect({k: v for k, v in lib.snapshot(d).items() if k.startswith("in")} == before, f"{it}: input files were changed")
        files = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(d, "out")) for f in fs]
        kept, seen = {}, []
        by = {x["id"]: (i, x) for i, r in enumerate(rows) for x in r}
        for f in files:
            got = lib.json_lines(lib.get(f))
            expect(len({by[x["id"]][0] for x in got}) <= 1, f"{it}: {f} has documents of several shards")
            expect([x["id"] for x in got] == sorted((x["id"] for x in got), key=lambda q: int(q[1:])), f"{it}: {f}: order")
            seen += [x["id"] for x in got]
            for x in got:
                if not (attrs and x["contaminated"]):
                    kept.setdefault(by[x["id"]][1]["text"], []).append(x["id"])
        expect(len(files) == len(lay), f"{it}: {len(files)} files for {len(lay)} shards")
        expect(len(seen) == len(set(seen)), f"{it}: documents written twice")
        expect(not attrs or sorted(seen) == sorted(by), f"{it}: documents without a mark: {sorted(set(by) - set(seen))}")
        for t in {x["text"] for r in rows for x in r}:
            every = [x["id"] for r in rows for x in r if x["text"] == t]
            k = kept.get(t, [])
            expect(sorted(k) == sorted(every) if t not in ("a", "b") else len(k) == int(keep), f"{it}: text {t!r}: kept {k} of {every}")
        count("nontrivial")
    return items, fn


def unreadable():
    """A file that cannot be read to its end: no list is built from the others as if it were complete."""
    def items():
        for tool in ("dedup", "decontam"):
            for bad in range(3):
                for how in ("cut", "missing", "not JSON"):
                    yield tool, bad, how

    def fn(it):
        tool, bad, how = it
        d = lib.scratch()
        names, rows, b = setup(d, [("a", "b"), ("b", "c"), ("a", "d")], [])
        break_file(names[bad], how)
        T = os.path.join(lib.REPO, "wimbd/text_and_url_overlaps/")
        out = os.path.join(d, "out")
        if tool == "dedup":
            a = [T + "deduplicate.py", "--in_files", *names, "--out_dir", out, "--tmp_dir", d]
        else:
            good = lib.put(os.path.join(d, "good.jsonl.gz"), gz(lines([{"text": "a", "id": "g", "source": "s"}])))
            a = [T + "decontaminate.py", "--in_files1", *names, "--in_files2", good, "--out_dir", out, "--tmp_dir", d]
        st, o, err = lib.shell(["python", *a], d)
        count("runs")
        count("nontrivial")
        expect(st != 0, f"{it}: status 0 although a file could not be read: {err[-300:]}")
    return items, fn


def break_file(p, how):
    import gzip
    raw = open(p, "rb").read()
    if how == "cut":
        raw = raw[:-9]
    elif how == "not JSON":
        raw = gzip.compress(gzip.decompress(raw) + b'{"text": \n')
    os.remove(p)
    if how != "missing":
        with open(p, "wb") as f:
            f.write(raw)


def run(c):
    deep = c.thorough
    c.part("two shards, two workers", *schedules(two(2, ("a", "b", "c")), 2), limit=120, budget=100, optional=True)
    c.part("null texts", *schedules(two(2, ("a", None)), 2), limit=120, budget=30, optional=True)
    c.part("two shards of three", *schedules(two(3, ("a", "b")), 2), limit=300, budget=100, optional=True)
    c.part("three shards, two workers", *schedules(three(("a", "b", "c")), 2), limit=120, budget=60, optional=True)
    c.part("three shards, three workers", *schedules(three(("a", "b", "c")), 3), limit=300, budget=100, optional=True)
    c.part("one worker", *schedules(two(3, ("a", "b", "c")), 1), limit=120, budget=30, optional=True)
    if deep:
        c.part("two shards of four", *schedules(two(4, ("a", "b")), 2), limit=600, budget=200, optional=True)
        c.part("two shards of three, more texts", *schedules(two(3, ("a", "b", "c")), 2), limit=600, budget=200, optional=True)
        c.part("three shards of two, three workers", *schedules(pairs(("a", "b")), 3), limit=600, budget=200, optional=True)
    sh = [[("a", "b", "a")], [("a",), ("a", "c"), ("b", "a", None)], [("e", "b"), ("b", "e")], [("c",)], [(), ("a",)], [("", "a", "", " "), (" ", "", "a")], [("a", "a\n", "a ", "A", " a"), ("a\r\n", "a\n", "\ta", "a")],
          [tuple(f"u{i % 601}" for i in range(900)), tuple(f"u{i % 601}" for i in range(400, 1300))], [tuple(f"t{i % 7}" for i in range(40)), tuple(f"t{i % 5}" for i in range(40)), ("a",) * 50]]
    c.part("tools", *real(sh), limit=60, budget=100)
    c.part("real processes", *direct(sh), limit=60, budget=100)
    c.part("shards of the same name", *same_names(), limit=60, budget=60)
    c.part("files that cannot be read", *unreadable(), limit=60, budget=60)
    c.assumptions = ["processes share the lock and the memory map and nothing else; sequential consistency of the shared map under the lock"]
