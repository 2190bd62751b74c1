"""Samples and summaries of lengths: exactly the documents chosen, every length with its own count."""
import builtins, io, itertools, json, os, random, sys
import lib
from lib import Bad, expect, count, gz, lines, seqs

DOCS = [{"text": "a", "url": "u1"}, {"text": "b", "url": "", "metadata": {"url": "no"}}, {"text": "c", "metadata": {"url": "m\u2028\r\n"}}, {"text": "d", "metadata": {}}, {"text": "e"}, {"text": None, "url": None, "source": "s"}, {"text": "f", "metadata": {"url": 0}}, {"text": "g", "metadata": {"url": None, "source": []}}, {"text": "h", "url": [1, {"a": False}], "source": ""}]


def sample_of(x, key):
    if key in x:
        return x[key]
    return x.get("metadata", {}).get(key, "")


def rows_of(out, what):
    try:
        return [json.loads(l) for l in out.split("\n") if l]
    except ValueError:
        raise Bad(f"{what}: printed {out!r:.500}")


def decisions(n):
    def items():
        for docs in seqs(range(len(DOCS)), 0, n):
            yield docs
        yield tuple(i % len(DOCS) for i in range(40))

    def fn(docs):
        d = lib.scratch()
        src = [DOCS[i] for i in docs]
        p = lib.put(os.path.join(d, "f.jsonl.gz"), gz(lines(src)))
        ways = itertools.product((0, 1), repeat=len(docs)) if len(docs) < 7 else [(1, 0) * 20, (0, 1) * 20, (1,) * 40, (0,) * 39 + (1,)]
        for keep in ways:
            for key in (None, "source") if sum(keep) < 3 else (None,):
                calls = [0]

                def draw():
                    calls[0] += 1
                    return 0.0 if calls[0] <= len(keep) and keep[calls[0] - 1] else 0.9999
                real = random.random
                random.random = draw
                try:
                    r = lib.script("wimbd/random_sample/map_count.py", ["--in_file", p, *(["--key_to_sample", key] if key else []), *(["--sample_fraction", "0.5"] if len(docs) % 2 else [])], cwd=d)
                finally:
                    random.random = real
                count("runs")
                what = f"documents {src!r:.500}, chosen {keep}"
                expect(r.exc is None and r.status == 0, lambda: f"{what}: {r.trace or r.err}")
                got = rows_of(r.out, what)
                want = [{key or "url": sample_of(x, key or "url")} for x, k in zip(src, keep) if k]
                if calls[0] == len(keep):
                    expect(got == want, f"{what}: printed {got}, should be {want}")
                    count("nontrivial", int(0 < len(want) < len(keep)))
                else:
                    count("other_draws")
                red = lib.script("wimbd/random_sample/reduce_count.py", [], stdin=r.out)
                expect(red.status == 0 and rows_of(red.out, what) == got, lambda: f"{what}: the reducer printed {red.out!r:.300} {red.trace}")
    return items, fn


def edges():
    """The least and the greatest number a draw can give, at the fractions that leave no choice."""
    def items():
        for f in ("0", "1"):
            for draw in (0.0, 2.0 ** -53, 0.5, 1 - 2.0 ** -53):
                yield f, draw

    def fn(it):
        f, draw = it
        d = lib.scratch()
        p = lib.put(os.path.join(d, "f.jsonl.gz"), gz(lines(DOCS)))
        real = random.random
        random.random = lambda: draw
        try:
            r = lib.script("wimbd/random_sample/map_count.py", ["--in_file", p, "--sample_fraction", f], cwd=d)
        finally:
            random.random = real
        count("runs")
        expect(r.status == 0, lambda: f"{it}: {r.trace or r.err}")
        got = rows_of(r.out, f"{it}")
        expect(got == [{"url": sample_of(x, "url")} for x in DOCS if f == "1"], f"fraction {f}, every draw {draw}: printed {got}")
    return items, fn


def extremes():
    """Fractions 0 and 1 leave no choice; in between, samples are documents in their order and every document can come."""
    def items():
        for k in (0, 1, 2, 7, 100):
            for f in ("0", "0.0", "1", "1.0", "0.5"):
                yield k, f

    def fn(it):
        k, f = it
        d = lib.scratch()
        src = [{"text": "t", "url": f"u{i}"} for i in range(k)]
        p = lib.put(os.path.join(d, "f.jsonl.gz"), gz(lines(src)))
        seen, missed = set(), set()
        for seed in range(1 if f != "0.5" else 30):
            random.seed(seed)
            r = lib.script("wimbd/random_sample/map_count.py", ["--in_file", p, "--sample_fraction", f], cwd=d)
            count("runs")
            expect(r.status == 0, lambda: f"{it}: {r.trace or r.err}")
            got = [x["url"] for x in rows_of(r.out, f"{it}")]
            if float(f) in (0.0, 1.0):
                expect(got == ([] if float(f) == 0 else [x["url"] for x in src]), f"{it}: printed {got}")
            else:
                expect([int(x[1:]) for x in got] == sorted({int(x[1:]) for x in got}), f"{it}: printed {got}")
                seen |= set(got)
                missed |= {x["url"] for x in src} - set(got)
        if f == "0.5":
            expect(len(seen) == len(missed) == k, f"{it}: in 30 samples {len(seen)} of {k} documents came up, {len(missed)} stayed out")
    return items, fn


# the lengths that stand out in each data set, as published with the analysis
CHAR_LENGTHS = {'c4': [192, 515, 434, 499, 322, 86],
                'mc4': [73257, 219, 186, 16629, 568, 331, 519, 2024, 526, 524, 489, 160, 4114, 697, 17189],
                'oscar': [101, 367, 108, 150, 126, 24827, 132, 106, 136, 266, 110, 141, 105, 180, 120, 138, 116, 103, 197, 182, 543, 162, 124, 154, 763, 225, 24847, 145, 114, 520, 122, 501],
                'pile': [8194, 201, 35, 100000, 71, 73],
                's2orc0': [160, 327],
                'stack': [172, 243, 182, 189, 154, 458, 192, 155, 2082, 263, 180, 1964, 158, 230, 178, 95, 2148, 84, 2058, 20000, 214, 1935, 550, 147, 1568, 109, 285, 232, 188, 3962, 88, 107, 1477, 393, 2114, 54, 4043, 2053, 208, 2116, 138, 200, 32, 197, 2153, 38, 175, 2603, 204, 2029, 60, 211, 1098, 254],
                'redpajama': [126, 133, 134, 118]}
TOK_LENGTHS = {'mc4': [99, 42, 6214, 236, 37, 71, 35, 92],
               'oscar': [64, 27, 18, 22, 4962, 74, 56, 31, 20, 105, 25, 34, 157, 248, 35, 4966, 99, 425],
               'pile': [9, 18, 20, 36],
               'redpajama': [23, 19, 54, 52, 30, 95, 32, 98, 96, 64, 66],
               'stack': [20, 33, 23, 17, 36, 10, 26, 4004, 13, 99, 39, 29, 8, 61, 454]}


def toks(t):
    import re
    return len(re.findall(r"\w+|[^\w\s]+", t.strip()))


def show(t):
    return t.replace("\r\n", "\n").replace("\r", "\n").replace("\n", "(newline)")


def uniques():
    """run_uniq.sh: every document of one of the listed lengths, counted per text."""
    A = ["x" * 192, "y\n" * 96, "z" * 191, "a b c d e f g h i", ("w " * 18)[:-1], "q" * 35, "s" * 160, "r\r\n" * 64, "k" * 192 + " ", None, "", "\u00e9" * 192, " " * 8 + ("w " * 9)[:-1], "t\t" * 96, "t " * 96, "t  " * 64]

    def items():
        for ds in ("c4", "pile", "s2orc0", "oscar", "stack", "redpajama", "mc4"):
            for k in range(len(A)):
                yield ds, ((k, k), (k,))
                yield ds, ((k,), ((k + 3) % len(A), k))
            yield ds, (tuple(range(len(A))), ())

    def fn(it):
        ds, files = it
        C, T = CHAR_LENGTHS, TOK_LENGTHS
        d = lib.scratch()
        want = {}
        ps = []
        for i, f in enumerate(files):
            ps.append(lib.put(os.path.join(d, f"f {i}.json.gz"), gz(lines([{"text": A[k]} for k in f]))))
            for k in f:
                t = A[k]
                if t is None:
                    continue
                for w, n, L in (("tok", toks(t), T), ("char", len(t), C)):
                    if n in L.get(ds, ()):
                        key = f"{n} {w} / {show(t)}".strip()
                        want[key] = want.get(key, 0) + 1
        for order in (0, 1) if len(files[1]) == 2 else (sum(files[0]) % 2,):
            s, o, e = lib.shell(["bash", os.path.join(lib.REPO, "wimbd/sentence_lengths/run_uniq.sh"), ds, *ps], d, order=order)
            count("runs")
            expect(s == 0, f"{it}: exit status {s}: {e!r:.500}")
            o = o.split("\n")
            expect(o[0] == ds, f"{it}: printed {o[0]!r}")
            got = {}
            for x in rows_of("\n".join(o[1:]), f"{it}"):
                expect(x["key"] not in got, f"{it}: {x['key']!r:.100} twice")
                got[x["key"].strip()] = x["count"]
            expect(got == want, lambda: f"{it}: {({k[:60]: v for k, v in got.items()})}, should be {({k[:60]: v for k, v in want.items()})}")
        count("nontrivial", int(bool(want)))
    return items, fn


class Moved:
    """Paths below /home/alanes/wimbd are found in d."""
    PRE = "/home/alanes/wimbd"

    def __init__(self, d):
        self.d = d

    def map(self, p):
        try:
            s = os.fspath(p)
        except TypeError:
            return p
        if isinstance(s, str) and (s + "/").startswith(self.PRE + "/"):
            return self.d + s[len(self.PRE):]
        return p

    def __enter__(self):
        self.real = builtins.open, os.listdir, os.scandir, os.makedirs, os.mkdir, os.stat
        o, l, s, m, k, st = self.real
        builtins.open = io.open = lambda f, *a, **kw: o(self.map(f), *a, **kw)
        os.listdir = lambda p=".": l(self.map(p))
        os.scandir = lambda p=".": s(self.map(p))
        os.makedirs = lambda p, *a, **kw: m(self.map(p), *a, **kw)
        os.mkdir = lambda p, *a, **kw: k(self.map(p), *a, **kw)
        os.stat = lambda p, *a, **kw: st(self.map(p), *a, **kw)

    def __exit__(self, *a):
        builtins.open, os.listdir, os.scandir, os.makedirs, os.mkdir, os.stat = self.real
        io.open = builtins.open


SETS = ["re_d-p", "re", "s2orc 0"]


def summaries():
    """summarize.py on the output of the counting programs."""
    T = ["a", "a b", "ab cd", "a, b", "", " a ", None, "abcdefgh i"]

    def items():
        for f in seqs(range(len(T)), 0, 3):
            yield (f,)
        for a in seqs((1, 2, 6), 0, 2):
            for b in seqs((0, 3), 0, 2):
                yield (a, b)

    def fn(sets):
        d = lib.scratch()
        for x in ("lengths_data", "lengths_tok_summary", "lengths_char_summary"):
            os.mkdir(os.path.join(d, x))
        for i, f in enumerate(sets):
            p = lib.put(os.path.join(d, f"in{i}.jsonl.gz"), gz(lines([{"text": T[k]} for k in f])))
            m = lib.script("wimbd/sentence_lengths/map_count.py", ["--in_file", p])
            r = lib.script("wimbd/sentence_lengths/reduce_count.py", [], stdin=m.out)
            expect(m.status == 0 and r.status == 0, lambda: f"{sets}: {m.trace or r.trace}")
            lib.put(os.path.join(d, "lengths_data", f"{SETS[i]}.jsonl"), r.out)
        with Moved(d):
            r = lib.script("wimbd/sentence_lengths/summarize.py", [], cwd=d)
        count("runs")
        expect(r.status == 0, lambda: f"{sets}: failed: {r.trace or r.err}")
        for i, f in enumerate(sets):
            ts = [T[k] for k in f if T[k] is not None]
            for w, fun in (("tok", toks), ("char", len)):
                p = os.path.join(d, f"lengths_{w}_summary", f"{w}s_{SETS[i]}.json")
                got = json.loads(lib.get(p) or "null")
                ls = [fun(t) for t in ts]
                want = {str(n): ls.count(n) / len(ls) for n in set(ls)}
                expect(got == want, f"texts {ts}: distribution of {w}s {got}, should be {want}")
        count("nontrivial", int(sum(map(len, sets)) > 1))
    return items, fn


def run(c):
    deep = c.thorough
    c.part("chosen documents", *decisions(3 if not deep else 5), budget=60 if not deep else 400)
    c.part("fractions", *extremes())
    c.part("least and greatest draws", *edges())
    c.part("listed lengths", *uniques(), budget=120)
    c.part("summaries", *summaries())
    c.assumptions = ["metadata, where present, is an object", "the fixed folders of summarize.py are mapped to a scratch directory", "GNU parallel and nltk are stand-ins"]
