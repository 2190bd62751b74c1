"""Splitting data sets: nothing lost, duplicated, reordered or altered."""
import gzip, hashlib, itertools, json, os, random
import lib
from lib import Bad, expect, count, gz, lines, script, seqs

NAMES = ["a.jsonl.gz", "c4-train.00000-of-01024.jsonl.gz", "c4-train.00001-of-01024.jsonl.gz", "b c.jsonl.gz", "a_0.jsonl.gz", "x.json.gz", "jsonl.gz"]


def stem(n):
    return n[:-len(".jsonl.gz")]


def content(k, tag, nl=True):
    rows = [{"text": f"{tag}{i}\u2028\u0085\x1c\r\n", "id": i} for i in range(k)]
    end = {None: "\r\n", True: "\n", False: "\n"}[nl]
    return "".join(json.dumps(r, ensure_ascii=i % 2 == 0) + end for i, r in enumerate(rows))[:-1 if nl is False and k else None]


def chunk_case(it):
    dirname, files, n, nl = it
    d = lib.scratch()
    sub = os.path.join(d, dirname)
    os.makedirs(sub, exist_ok=True)
    want = {}
    for name, k in files:
        want[name] = content(k, name[:3], nl)
        lib.put(os.path.join(sub, name), gz(want[name]))
    before = lib.snapshot(d)
    arg = dirname if not dirname.startswith("/") else sub
    r = script("wimbd/utils/file_split.py", ["--in_folder", arg, "--n", n], cwd=d)
    count("runs")
    expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
    after = lib.snapshot(d)
    for k, v in before.items():
        expect(after.get(k) == v, f"{it}: {k} was changed")
    new = {k: v for k, v in after.items() if k not in before}
    for name, _ in files:
        if not name.endswith(".jsonl.gz"):
            continue
        got, sizes = "", []
        for i in range(n):
            p = os.path.normpath(os.path.join(dirname, f"{stem(name)}_{i}.json.gz"))
            expect(p in new, f"{it}: part {i} of {name} was not written; files written: {sorted(new)}")
            part = gzip.decompress(new.pop(p)).decode()
            sizes.append(part.count("\n") + (not part.endswith("\n") and part != ""))
            got += part
        expect(got == want[name], f"{it}: the parts of {name} put together are {got!r:.400} instead of {want[name]!r:.400}")
        total = sum(sizes)
        expect(max(sizes) - min(sizes) <= max(n - 1, total % n if n > 1 else 0), f"{it}: sizes {sizes}")
        expect(all(s == total // n for s in sizes[:-1]), f"{it}: sizes {sizes}")
        count("nontrivial", int(total > 1 and n > 1))
    expect(not new, f"{it}: unexpected files {sorted(new)}")


def chunks(maxlines, maxn):
    def items():
        for k in range(maxlines + 1):
            for n in range(1, maxn + 1):
                # lines end with a line feed, the last one without, lines end with a carriage return and a line feed
                for nl in (True, False, None):
                    yield "in", (("a.jsonl.gz", k),), n, nl
        usable = [x for x in NAMES if x != "jsonl.gz"]
        for a, b in itertools.combinations(usable, 2):
            for ka, kb in ((3, 5), (0, 4), (1, 1)):
                yield "in", ((a, ka), (b, kb)), 2, True
        for dirname in (".", "in.d", "in.d/x.y", "../" + "x/..", "a b"):
            if dirname.startswith(".."):
                continue
            yield dirname, (("a.jsonl.gz", 5), ("b.x.jsonl.gz", 4)), 3, True
        yield "in", tuple((x, 3) for x in usable), 2, True
        for k in (99, 100, 101, 1000):
            yield "in", (("big.jsonl.gz", k),), 10, True
    return items, chunk_case


_texts = {}


def texts():
    """Texts for every prefix class of the hash, found once."""
    if not _texts:
        want = {p: 2 for p in ("fff", "ffe", "ffd", "ffc", "ffb", "000", "fef", "eff", "ff0")}
        i = 0
        while any(want.values()):
            t = f"t{i}"
            p = hashlib.sha1(t.encode()).hexdigest()[:3]
            if want.get(p):
                want[p] -= 1
                _texts.setdefault(p, []).append(t)
            i += 1
    return _texts


def part_of(t):
    p = hashlib.sha1((t or "").encode("utf-8")).hexdigest()[:3]
    return "test" if p in ("fff", "ffe") else "valid" if p in ("ffd", "ffc") else "train"


def tvt_case(rel, ts, what, out="out"):
    d = lib.scratch()
    rows = [{"text": t, "n": i, "metadata": {"url": "u\u00e9"}} for i, t in enumerate(ts)]
    src = os.path.join(d, "data", rel)
    os.makedirs(os.path.dirname(src), exist_ok=True)
    lib.put(src, gz(lines(rows)))
    r = script("wimbd/utils/split_files.py", ["--in_file", rel, "--out_prefix", os.path.join(d, "res", out)], cwd=os.path.join(d, "data"))
    count("runs")
    expect(r.status == 0, lambda: f"{what}: failed: {r.trace or r.err}")
    base = os.path.join(d, "res", out, os.path.dirname(rel), os.path.basename(rel).replace(".jsonl", "").replace(".gz", ""))
    files = {os.path.join(d, "res", out, k) for k in lib.snapshot(os.path.join(d, "res", out)) if not k.endswith("/")}
    expect(files == {f"{base}.{p}.jsonl.gz" for p in ("train", "valid", "test")}, f"{what}: files {sorted(files)}")
    for p in ("train", "valid", "test"):
        text = lib.get(f"{base}.{p}.jsonl.gz")
        got = [json.loads(l) for l in text.split("\n")[:-1]] if text else []
        want = [{**x, "id": hashlib.sha1((x["text"] or "").encode()).hexdigest()} for x in rows if part_of(x["text"]) == p]
        expect(got == want, f"{what}: {p}: {got!r:.600} instead of {want!r:.600}")
        count("nontrivial", int(p != "train" and bool(want)))


def twice():
    """A second run at the same place: the files are those of the second input alone."""
    SIZES = (0, 1, 5, 30)

    def items():
        for tool in ("split", "parts"):
            for a in SIZES:
                for b in SIZES:
                    for n in (1, 3):
                        yield tool, a, b, n

    def fn(it):
        tool, a, b, n = it
        out = {}
        for first in (a, None):
            d = lib.scratch()
            for k in ([first, b] if first is not None else [b]):
                al = [x for v in texts().values() for x in v]
                os.makedirs(os.path.join(d, "in"), exist_ok=True)
                lib.put(os.path.join(d, "in", "a.jsonl.gz"), gz(lines([{"text": al[(i + k) % len(al)], "n": i} for i in range(k)])))
                if tool == "split":
                    r = script("wimbd/utils/split_files.py", ["--in_file", "a.jsonl.gz", "--out_prefix", os.path.join(d, "res")], cwd=os.path.join(d, "in"))
                else:
                    r = script("wimbd/utils/file_split.py", ["--in_folder", "in", "--n", n], cwd=d)
                count("runs")
                expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
            out[first] = {k: lib.get(os.path.join(d, k)) for k in lib.snapshot(d) if k.endswith(".gz")}
        expect(out[a] == out[None], lambda: f"{it}: after an earlier run the files are {out[a]!r:.600}, otherwise {out[None]!r:.600}")
        count("nontrivial", int(b > 0))
    return items, fn


def tvt(depth):
    def items():
        n = len(texts()) + 3
        yield from seqs(range(n), 0, depth)

    def fn(ix):
        al = [v[0] for k, v in sorted(texts().items())] + [None, "", "\u00e9\u2028\n"]
        tvt_case("a.jsonl.gz", [al[i] for i in ix], f"texts {ix}")
    return items, fn


def tvt_more():
    def items():
        for rel in ("a.jsonl.gz", "x/y/a.jsonl.gz", "./b.gz", "c.json.gz", "x.y/d.jsonl.gz", "x.jsonl/d.jsonl.gz", "a.gz/b.jsonl.gz/c.jsonl.gz", "a.json.gz/c.jsonl.gz"):
            yield "name", rel
        for out in ("out.jsonl", "o.gz/x", "a.jsonl.gz", "."):
            yield "prefix", out
        for n in (100, 1000, 20000):
            yield "size", n

    def fn(it):
        k, v = it
        if k == "name":
            return tvt_case(os.path.normpath(v), [x for xs in texts().values() for x in xs], it)
        if k == "prefix":
            return tvt_case("x/a.jsonl.gz", [x for xs in texts().values() for x in xs], it, v)
        tvt_case("a.jsonl.gz", [f"d{i}" for i in range(v)], it)
    return items, fn


def run(c):
    deep = c.thorough
    c.part("parts of a file: names and sizes", *chunks(12 if not deep else 40, 6 if not deep else 12))
    c.part("train, valid, test: sequences", *tvt(3 if not deep else 4), budget=60 if not deep else 300)
    c.part("twice at the same place", *twice())
    c.part("train, valid, test: names and sizes", *tvt_more())
    c.assumptions = ["for the parts of a file: the input names do not collide with the names of the parts"]
