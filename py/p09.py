"""Downloading a data set: every example exactly once, whatever the schedule, and wherever earlier attempts were killed."""
import gzip, itertools, json, os, re, sys
import lib, fsx, sched, stubs
from lib import Bad, expect, count


class Broken(Exception):
    """The source of the data set fails."""


def example(name, i, field):
    """Some examples have no text, some have further fields, one of them called text."""
    x = {field: None if i % 5 == 3 else "" if i % 5 == 4 else f"{name} {i} \u00e9\u2028\n", "id": i}
    if i % 3 == 1:
        x["meta"] = {"text": "t", field: [i, None], "z": 1.5}
    if i % 4 != 2 and field != "text":
        x["text"] = f"not this {i}"
    return x


def written(name, i, field):
    x = example(name, i, field)
    return {**{k: v for k, v in x.items() if k != field}, "text": x[field]}


def dataset_module(splits, field, bad=None):
    cfg = stubs.mod("datasets.config", DEFAULT_MAX_BATCH_SIZE=1000)

    class Stream:
        def __init__(self, name, n):
            self.name, self.n = name, n

        def __iter__(self):
            for i in range(self.n):
                x = example(self.name, i, field)
                if bad and (self.name, i) == bad[:2]:
                    if bad[2] == "stream":
                        raise Broken("connection lost")
                    x["id"] = {1, 2}        # cannot be written as JSON
                yield x
            if bad and (self.name, self.n) == bad[:2]:
                raise Broken("connection lost")

        def skip(self, k):
            s = Stream(self.name, self.n)
            it = iter(s)
            return list(itertools.islice(it, k, None))

        def take(self, k):
            return list(itertools.islice(iter(self), k))

    def load(name, *a, streaming=False, **k):
        if not streaming:
            raise lib.Unmodelled("load_dataset without streaming")
        return {s: Stream(s, n) for s, n in splits}
    m = stubs.mod("datasets", config=cfg, load_dataset=load, disable_caching=lambda: None)
    return {"datasets": m, "datasets.config": cfg}


def check(snap, splits, field, bs, what):
    files = dict(snap)
    want_names = set()
    for s, n in splits:
        parts = {}
        for f in files:
            m = re.fullmatch(rf"out/{re.escape(s)}_(\d+)\.jsonl\.gz", f)
            if m:
                parts[int(m.group(1))] = f
        got, whole = [], []
        for k in sorted(parts):
            want_names.add(parts[k])
            try:
                text = gzip.decompress(files[parts[k]]).decode()
                rows = [json.loads(l) for l in text.split("\n") if l]
            except Exception as e:
                raise Bad(f"{what}: {parts[k]} cannot be read: {e!r}")
            expect(len(rows) <= max(bs, 1), f"{what}: {parts[k]} has {len(rows)} examples")
            got += [(r.get("text"), r.get("id")) for r in rows]
            whole += rows
        want = [written(s, i, field) for i in range(n)]
        if whole != want:
            ids = [i for t, i in got]
            odd = [(a, b) for a, b in zip(whole, want) if a != b][:2] if ids == list(range(n)) else ""
            raise Bad(f"{what}: split {s}: examples {ids} instead of {list(range(n))} (files {sorted(parts)}) {odd}")
    extra = [f for f in files if f.endswith(".jsonl.gz") and f not in want_names]
    expect(not extra, f"{what}: unexpected files {extra}")


def histories(cases, restarts, cap):
    def fn(it):
        splits, bs, workers, field = it
        d = lib.scratch()
        root = os.path.join(d, "w")
        mods = {**dataset_module(splits, field), **fsx.install()}
        args = ["--dataset", "x", "--output-dir", "out", "--batch-size", bs, "--num-workers", workers] + (["--text-field", field] if field != "text" else [])
        known = {(): 0}
        frontier = [((), None)]
        parent = {(): "the empty directory"}

        def program():
            saved = {k: sys.modules.get(k) for k in mods}
            sys.modules.update(mods)
            try:
                return lib.script("wimbd/indexing/huggingface.py", args, cwd=root)
            finally:
                for k, v in saved.items():
                    if v is None:
                        sys.modules.pop(k, None)
                    else:
                        sys.modules[k] = v
        for depth in range(restarts + 1):
            nxt = []
            for start, _ in frontier:
                what = f"{it}, started in {[(n, len(b) if b is not None else 'dir') for n, b in start]}"

                def judge(r, snap):
                    expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
                    check(snap, splits, field, bs, what)
                states = fsx.explore(root, start, program, judge)
                for s in states:
                    if s not in known:
                        known[s] = depth + 1
                        nxt.append((s, start))
            frontier = nxt
            if not frontier:
                break
            m = cap if workers == 1 else cap // 3
            if len(frontier) > m:
                k = -(-len(frontier) // m)
                count("cut_states", len(frontier) - len(frontier[::k]))
                frontier = frontier[::k]
        count("crash_states", len(known))
        count("nontrivial", int(len(known) > 5))
    return (lambda: cases), fn


def plain(cases):
    """Larger runs without crash: sizes around the batch size, several splits, real thread pool; then once more."""
    def fn(it):
        splits, bs, workers = it
        d = lib.scratch()
        mods = dataset_module(splits, "text")
        saved = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        try:
            for again in range(2):
                args = ["--dataset", "x", "--output-dir", "out", "--num-workers", workers] + (["--batch-size", bs] if bs else [])
                r = lib.script("wimbd/indexing/huggingface.py", args, cwd=d)
                count("runs")
                expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
                check(tuple((k, v) for k, v in lib.snapshot(d).items() if v is not None), splits, "text", bs or 10000, f"{it}, run {again + 1}")
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        count("nontrivial", int(any(n > (bs or 10000) for s, n in splits)))
    return (lambda: cases), fn


def failures(cases):
    """The source fails at every example in turn: the run says so, and the next one completes the data set."""
    def items():
        for splits, bs, w in cases:
            for s, n in splits:
                for i in range(n + 1):
                    for kind in ("stream", "example") if i < n else ("stream",):
                        for again in (0, 1):
                            yield splits, bs, w, (s, i, kind), again

    def fn(it):
        splits, bs, workers, bad, again = it
        d = lib.scratch()
        for attempt, b in enumerate([bad] * (1 + again) + [None]):
            mods = dataset_module(splits, "content", b)
            saved = {k: sys.modules.get(k) for k in mods}
            sys.modules.update(mods)
            try:
                r = lib.script("wimbd/indexing/huggingface.py", ["--dataset", "x", "--output-dir", "out", "--num-workers", workers, "--batch-size", bs, "--text-field", "content"], cwd=d)
            finally:
                for k, v in saved.items():
                    if v is None:
                        sys.modules.pop(k, None)
                    else:
                        sys.modules[k] = v
            count("runs")
            if b is None:
                expect(r.status == 0, lambda: f"{it}: the last attempt failed: {r.trace or r.err}")
                check(tuple((k, v) for k, v in lib.snapshot(d).items() if v is not None), splits, "content", bs, f"{it}")
            else:
                expect(r.status != 0, f"{it}: attempt {attempt + 1}: an example is missing and the program reports success")
        count("nontrivial")
    return items, fn


def run(c):
    deep = c.thorough
    small = [((("train", n),), bs, w, "text") for n in range(5, -1, -1) for w in (2, 1) for bs in (2, 3)]
    small += [((("train", 2), ("train_sft", 4)), 2, 1, "text"), ((("train_sft", 4), ("train", 3)), 2, 1, "content"), ((("train", 3), ("test", 2), ("train_1", 2)), 2, 1, "text"),
              ((("train", 3),), 1, 1, "text"), ((("train", 4),), 10, 2, "text"), ((("a", 2), ("b", 3)), 2, 2, "text"), ((("b.x", 2), ("b.y", 3)), 2, 1, "text")]
    c.part("crash histories", *histories(small, 2, 40 if not deep else 10 ** 9), limit=300 if not deep else 800, budget=120 if not deep else 700)
    if deep:
        c.part("crash histories, more batches", *histories([((("train", n),), bs, w, "text") for n in (6, 8) for bs in (2, 3) for w in (2, 3)], 2, 200), limit=800, budget=600)
    pl = [((("train", n),), bs, w) for bs in (2, 3, 7, 100) for n in sorted({0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 5 * bs + 3}) for w in (1, 5)]
    pl += [((("train", n), ("validation", 3)), None, 5) for n in (9999, 10000, 10001)]
    pl += [(tuple((s, 3 + i) for i, s in enumerate(x)), bs, w) for x in (("a.b", "a.c"), ("train.1", "train"), ("a_0", "a", "a_1.x"), ("A", "a"), ("\u00e9", "e")) for bs in (1, 2) for w in (1, 3)]
    c.part("sizes", *plain(pl), limit=60)
    c.part("failing sources", *failures([((("train", 5),), 2, 1), ((("train", 5),), 2, 3), ((("a", 2), ("b", 3)), 2, 2), ((("train", 4),), 1, 2), ((("train", 3),), 10, 1)]), limit=60, budget=60)
    c.assumptions = ["the streamed data set gives the same examples in the same order on every run; the arguments of a resumed run are the same",
                     "a crash stops the process: what has been written stays, nothing is reordered by the disk"]
