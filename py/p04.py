"""Text and URL overlaps: counts, duplicates, intersections of data sets, examples."""
import collections, hashlib, itertools, json, os, subprocess
import lib
from lib import Bad, expect, count, gz, lines, script, seqs, splits

H = "wimbd/text_and_url_overlaps/helper_scripts/"


def md5(t):
    return "None" if t is None else hashlib.md5(t.encode("utf-8")).hexdigest()


TEXTS = ["a", "b", None, "", "a ", "é\u2028x", "a\nb", "\u0000", "None", "A"]


def hashes():
    """get_text_hashes: one key per document, in order."""
    def items():
        yield from seqs(range(len(TEXTS)), 0, 3)

    def fn(ix):
        ts = [TEXTS[i] for i in ix]
        d = lib.scratch()
        docs = [{"text": t, "id": i} for i, t in enumerate(ts)]
        odd = [{"text": t, "other": lib.ODD[(i + sum(ix)) % len(lib.ODD)]} for i, t in enumerate(ts + [x + "t" for x in lib.ODD[sum(ix) % 3:][:2]])]
        for name, data, dd in [("usual", gz(lines(docs)), docs)] + ([(n, b, odd) for n, b in lib.styles(odd)] if len(ix) < 3 else []):
            p = lib.put(os.path.join(d, "x.jsonl.gz"), data)
            r = script(H + "get_text_hashes.py", ["--in_file", p], cwd=d)
            count("runs")
            expect(r.status == 0, lambda: f"{dd!r} stored as {name}: failed: {r.trace}")
            expect(r.out.split("\n") == [md5(x["text"]) for x in dd] + [""], f"{dd!r} stored as {name}: {r.out!r}")
    return items, fn


def sh(d, name, *args, order=0, stdin="", env=None):
    st, out, err = lib.shell(["bash", os.path.join(lib.REPO, H, name), *args], d, order=order, stdin=stdin, env=env)
    count("runs")
    expect(st == 0, f"{name} failed ({st}): {err[-800:]}")
    return out


def counts_of(out):
    got = {}
    for l in out.split("\n")[:-1]:
        n, _, k = l.strip(" ").partition(" ")
        expect(k not in got, f"{k} is listed twice: {out!r}")
        got[k] = int(n)
    return got


def counting(depth):
    """run_get_text_hashes.sh, then the keys and the duplicate keys."""
    def items():
        for seq in seqs(("a", "b", None), 1, depth):
            for order in (0, 1):
                yield seq, order

    def fn(it):
        seq, order = it
        d = lib.scratch()
        h = len(seq) // 2
        names = [lib.put(os.path.join(d, f"{i}.jsonl.gz"), gz(lines([{"text": t} for t in f]))) for i, f in enumerate((seq[:h], seq[h:]))]
        out = sh(d, "run_get_text_hashes.sh", *names, order=order)
        want = collections.Counter(md5(t) for t in seq)
        expect(counts_of(out) == want, f"{seq} order {order}: {out!r}")
        keys = [l.split()[1] for l in out.splitlines()]
        expect(keys == sorted(keys), f"{seq}: not sorted: {out!r}")
        expect(sh(d, "get_just_keys.sh", stdin=out).split("\n")[:-1] == sorted(want), f"{seq}: get_just_keys")
        expect(sh(d, "get_duplicate_keys.sh", stdin=out).split("\n")[:-1] == sorted(k for k, n in want.items() if n > 1), f"{seq}: get_duplicate_keys")
        count("nontrivial", int(len(want) > 1))
    return items, fn


URLS = ["http://h/a", "http://h/A", "http://H/a", "http://h/\u00e1", "http://h/a/", "http://h/a b", "http://h/10", "http://h/9"]


def urls(depth):
    """run_get_urls.sh: URLs that differ in letter case, an accent, a slash; under both places a URL may stand at."""
    def items():
        for seq in seqs(range(len(URLS)), 1, depth):
            yield seq, len(set(seq)) % 2

    def fn(it):
        seq, order = it
        d = lib.scratch()
        for where in ("url", "metadata"):
            h = (len(seq) + 1) // 2
            row = (lambda u: {"url": u, "text": "x"}) if where == "url" else (lambda u: {"metadata": {"url": u}, "text": "x"})
            names = [lib.put(os.path.join(d, f"{where}{i}.jsonl.gz"), gz(lines([row(URLS[k]) for k in f]))) for i, f in enumerate((seq[:h], seq[h:]))]
            out = sh(d, "run_get_urls.sh", *names, order=order)
            want = collections.Counter(URLS[k] for k in seq)
            expect(counts_of(out) == want, f"{seq} {where}: {out!r}, counted directly {want}")
            keys = [l.strip(" ").partition(" ")[2] for l in out.splitlines()]
            expect(keys == sorted(keys), f"{seq}: not sorted: {out!r}")
            count("nontrivial", int(len(want) > 1))
    return items, fn


def keys_scripts():
    """The key filters on keys with blanks, at counts of every width."""
    def items():
        for n in (1, 2, 9, 10, 11, 99, 100, 9999999, 10000000, 123456789):
            for k in ("x", "http://a b/c", "1", "2 x", "-", "a  b", "\t1"):
                yield n, k

    def fn(it):
        n, k = it
        d = lib.scratch()
        f = lib.put(os.path.join(d, "f"), f"{n:7d} {k}\n      1 zz\n")
        s = f"{n:7d} {k}\n      1 zz\n"
        expect(sh(d, "get_just_keys.sh", stdin=s) == f"{k}\nzz\n", f"get_just_keys on {s!r}")
        expect(sh(d, "remove_count.sh", f) == f"{k}\nzz\n", f"remove_count on {s!r}")
        expect(sh(d, "get_duplicate_keys.sh", stdin=s) == (f"{k}\n" if n > 1 else ""), f"get_duplicate_keys on {s!r}")
    return items, fn


# keys as they come: URLs with blanks, texts that look like numbers, a key that begins like another one
ODDKEYS = [["a b", "a c", "a"], ["http://h/x y", "http://h/x", "http://h/x z"], ["1 x", "2 x", "10 x"], ["a\tb", "a\tc", "a"], ["'q'", '"q"', "$(x)"], ["%s", "\\n", "*"], ["\u00e9", "e", "\u00c9"], ["x" * 3000 + "1", "x" * 3000 + "2", "x" * 3000]]


def combinations(nkeys, names, keysets=None):
    """Every way to distribute nkeys keys over the data sets: all intersections of two or more."""
    def items():
        for masks in itertools.product(range(2 ** len(names)), repeat=nkeys):
            for ks in keysets or [None]:
                yield masks, ks

    def fn(it):
        masks, keys = it
        d = lib.scratch()
        keys = keys or ["http://a/%d" % i for i in range(nkeys)]
        sets = {n: sorted(k for k, m in zip(keys, masks) if m >> j & 1) for j, n in enumerate(names)}
        for n, s in sets.items():
            lib.put(os.path.join(d, n + ".txt"), "".join(k + "\n" for k in s))
        os.environ["LC_ALL"] = "C.UTF-8"
        if sum(masks) % 2:
            # what an earlier analysis left behind
            for k in range(2, len(names) + 1):
                for c in itertools.combinations(names, k):
                    lib.put(os.path.join(d, "_and_".join(c) + ".txt"), keys[0] + "\nold\n")
        r = script(H + "run_combinations.py", ["--datasets", *names, "--sorted_uniq_dir", d], cwd=d)
        count("runs")
        expect(r.status == 0, lambda: f"{sets}: failed: {r.trace}")
        want = {n + ".txt": s for n, s in sets.items()}
        for k in range(2, len(names) + 1):
            for c in itertools.combinations(names, k):
                want["_and_".join(c) + ".txt"] = [x for x in sets[c[0]] if all(x in sets[o] for o in c)]
        got = {n: b.decode().split("\n")[:-1] for n, b in lib.snapshot(d).items()}
        expect(got == want, lambda: f"{sets}: {[(k, got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)]}")
        count("nontrivial", int(any(masks)))
    return items, fn


class SyncPool:
    """multiprocessing.Pool that delivers unordered results in a prescribed order."""
    order = 0

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def map(self, f, xs, *a):
        return [f(x) for x in xs]

    imap = map

    def imap_unordered(self, f, xs, *a):
        r = [f(x) for x in xs]
        n = self.order
        while r:
            n, i = divmod(n, len(r))
            yield r.pop(i)


def dup_counts():
    """get_duplicate_counts: every small list of counts for two data sets, both completion orders."""
    import multiprocessing

    def items():
        for a in seqs((1, 2, 10), 0, 3):
            for b in ((), (1,), (12345678, 1), (2, 2), (1234567890123, 9876543210)):
                yield a, b

    def fn(it):
        d = lib.scratch()
        for n, cs in zip(("x", "y_z"), it):
            lib.put(os.path.join(d, n + ".txt"), "".join(f"{c:7d} {md5(str(i))}\n" for i, c in enumerate(cs)))
        for order in (0, 1):
            saved = multiprocessing.Pool
            multiprocessing.Pool = SyncPool
            SyncPool.order = order
            try:
                r = script(H + "get_duplicate_counts.py", ["--sorted_uniq_count_dir", d, "--datasets", "x", "y_z", "--out_file", os.path.join(d, "o.json")], cwd=d)
            finally:
                multiprocessing.Pool = saved
            count("runs")
            expect(r.status == 0, lambda: f"{it}: failed: {r.trace}")
            got = json.loads(lib.get(os.path.join(d, "o.json")))
            want = {n: {"total": sum(c), "uniq_total": len(c), "duplicates": sum(x for x in c if x > 1), "uniq_duplicates": sum(x > 1 for x in c)}
                    for n, c in zip(("x", "y_z"), it)}
            expect(got == want, f"{it}: {got}, counted directly {want}")
            count("nontrivial", int(len(it[0]) > 1))
    return items, fn


def examples(depth):
    """get_examples with counts, with a plain list, with urls; k below, at and above the number of keys."""
    T = ("a", "b", None, "c\n")

    def items():
        for seq in seqs(range(4), 0, depth):
            for k in (1, 2, 30):
                yield seq, k

    def fn(it):
        seq, k = it
        ts = [T[i] for i in seq]
        d = lib.scratch()
        h = len(ts) // 2
        fs = [lib.put(os.path.join(d, f"{i}.gz"), gz(lines([{"text": t} for t in f]))) for i, f in enumerate((ts[:h], ts[h:]))]
        counts = {md5("a"): 5, md5(None): 12, md5("c\n"): 100}
        cf = lib.put(os.path.join(d, "c"), "".join(f"{n:7d} {x}\n" for x, n in sorted(counts.items(), key=lambda q: -q[1])))
        hf = lib.put(os.path.join(d, "h"), "".join(x + "\n" for x in counts))
        first = []
        for t in ts:
            if md5(t) in counts and t not in first:
                first.append(t)
        first = first[:k]
        text = {md5(t): "None" if t is None else t for t in first}
        if k == 2:
            for i, (f, t) in enumerate(zip(fs, (ts[:h], ts[h:]))):
                odd = [{"text": x, "other": lib.ODD[(j + sum(seq)) % len(lib.ODD)]} for j, x in enumerate(t)]
                st = lib.styles(odd)
                lib.put(f, st[(sum(seq) * 3 + i + len(seq)) % len(st)][1])
        for opt, f in (("--count_hash_file", cf), ("--hash_file", hf)):
            o = os.path.join(d, "o")
            r = script(H + "get_examples.py", ["--data_shards", *fs, opt, f, "--k", k, "--outfile", o], cwd=d)
            count("runs")
            expect(r.status == 0, lambda: f"{ts} {opt}: failed: {r.trace}")
            got = lib.json_lines(lib.get(o))
            if opt == "--hash_file":
                want = [{"hash": x, "text": t} for x, t in text.items()]
                key = lambda q: q["hash"]
                expect(sorted(got, key=key) == sorted(want, key=key), f"{ts} {opt} k {k}: {got}, should be {want}")
            else:
                want = [{"hash": x, "text": text[x], "count": n} for x, n in sorted(counts.items(), key=lambda q: -q[1]) if x in text]
                for g in got:
                    g["count"] = int(g["count"])
                expect(got == want, f"{ts} {opt} k {k}: {got}, should be {want}")
        count("nontrivial", int(len(text) > 1))
    return items, fn


def url_examples():
    URL = ["http://u/0", "http://u/a b", "2 3", "http://u/\u00e9  x", ""]

    def items():
        for cs in seqs((1, 9, 10, 100, 2), 0, 4):
            for odd in (False, True):
                yield cs, odd

    def fn(it):
        cs, odd = it
        url = (lambda i: URL[(i + sum(cs)) % len(URL)]) if odd else (lambda i: f"http://u/{i}")
        d = lib.scratch()
        cf = lib.put(os.path.join(d, "c"), "".join(f"{c:7d} {url(i)}\n" for i, c in enumerate(cs)))
        o = os.path.join(d, "o")
        r = script(H + "get_examples.py", ["--data_shards", "x", "--count_url_file", cf, "--outfile", o], cwd=d)
        count("runs")
        expect(r.status == 0, lambda: f"{cs}: failed: {r.trace}")
        got = [(x["text"], int(x["count"])) for x in lib.json_lines(lib.get(o))]
        expect(sorted(got) == sorted((url(i), c) for i, c in enumerate(cs)), f"{it}: {got}")
        expect([c for _, c in got] == sorted(cs, reverse=True), f"{cs}: not by count: {got}")
    return items, fn


def analysis(mode, cases):
    """run_analysis.sh end to end on two or three data sets."""
    def items():
        return iter(cases)

    def fn(it):
        sets, order = it
        d = lib.scratch()
        conf = {}
        names = ["alpha", "b4", "c"][: len(sets)]
        for n, files in zip(names, sets):
            os.mkdir(os.path.join(d, n))
            for i, f in enumerate(files):
                rows = [{"text": t} if mode == "text" else {"url": "http://" + t, "text": "x"} if n != "b4" else {"metadata": {"url": "http://" + t}, "text": "y"} for t in f]
                lib.put(os.path.join(d, n, f"s{i}.jsonl.gz"), gz(lines(rows)))
            conf[n] = os.path.join(d, n, "*.jsonl.gz")
        cj = lib.put(os.path.join(d, "conf.json"), json.dumps(conf))
        o = os.path.join(d, "out")
        os.mkdir(o)
        if order % 2:
            # the same analysis was made before, when the first data set was another one
            first = sorted(os.listdir(os.path.join(d, "alpha")))
            kept = [lib.raw(os.path.join(d, "alpha", x)) for x in first]
            for x in first:
                lib.put(os.path.join(d, "alpha", x), lib.raw(os.path.join(d, "b4", "s0.jsonl.gz")))
            st, out, err = lib.shell(["bash", os.path.join(lib.REPO, "wimbd/text_and_url_overlaps/run_analysis.sh"), cj, o, mode], d, timeout=100)
            expect(st == 0, f"run_analysis.sh {mode} failed ({st}): {err[-1500:]}")
            for x, b in zip(first, kept):
                lib.put(os.path.join(d, "alpha", x), b)
        st, out, err = lib.shell(["bash", os.path.join(lib.REPO, "wimbd/text_and_url_overlaps/run_analysis.sh"), cj, o, mode], d, order=order, timeout=100)
        count("runs", 10)
        expect(st == 0, f"run_analysis.sh {mode} failed ({st}): {err[-1500:]}")
        o = os.path.join(o, mode + "_overlaps")
        key = (lambda t: md5(t)) if mode == "text" else (lambda t: "http://" + t)
        cnt = {n: collections.Counter(key(t) for f in files for t in f) for n, files in zip(names, sets)}
        got = json.loads(lib.get(os.path.join(o, "duplicate_counts.json")))
        want = {n: {"total": sum(c.values()), "uniq_total": len(c), "duplicates": sum(x for x in c.values() if x > 1), "uniq_duplicates": sum(x > 1 for x in c.values())} for n, c in cnt.items()}
        expect(got == want, f"{sets}: duplicate counts {got}, counted directly {want}")
        ov = {}
        for l in lib.get(os.path.join(o, "overlap_numbers.txt")).splitlines():
            n, p = l.split()
            expect(os.path.basename(p)[:-4] not in ov, f"{sets}: two numbers for {p}")
            ov[os.path.basename(p)[:-4]] = int(n)
        wov = {n: len(c) for n, c in cnt.items()}
        for k in range(2, len(names) + 1):
            for c in itertools.combinations(names, k):
                wov["_and_".join(c)] = len(set.intersection(*(set(cnt[n]) for n in c)))
        expect(ov == wov, f"{sets}: overlaps {ov}, counted directly {wov}")
        for n in names:
            ex = lib.json_lines(lib.get(os.path.join(o, "top_examples", n + ".jsonl")) or "")
            g = {(x["text"], int(x["count"])) for x in ex}
            by = {}
            for f in sets[names.index(n)]:
                for t in f:
                    by["None" if t is None else t if mode == "text" else "http://" + t] = cnt[n][key(t)]
            # examples of at most 30 keys, those that occur most often
            if len(by) > 30:
                least = sorted(by.values())[-30]
                by = {t: c for t, c in by.items() if c >= least}
                expect(len(by) == 30, "ties among the generated counts")
            expect(g == set(by.items()) and len(ex) == len(by), f"{sets}: examples of {n}: {ex}, should be {by}")
        count("nontrivial")
    return items, fn


def unreadable():
    """One of the files cannot be read to its end: the counts of the others are not passed off as the result."""
    def items():
        for name in ("run_get_text_hashes.sh", "run_get_urls.sh", "run_analysis.sh text", "run_analysis.sh url"):
            for bad in range(3):
                for how in ("cut", "missing", "not JSON"):
                    # the analysis expands a pattern: a missing file cannot be noticed
                    if how != "missing" or "analysis" not in name:
                        yield name, bad, how

    def fn(it):
        name, bad, how = it
        d = lib.scratch()
        os.mkdir(os.path.join(d, "in"))
        names = []
        for i in range(3):
            data = gz(lines([{"text": f"t{i}{j}", "url": f"http://h/{i}{j}"} for j in range(3)]) + ("{\n" if i == bad and how == "not JSON" else ""))
            names.append(lib.put(os.path.join(d, "in", f"{i}.jsonl.gz"), data[:-9] if i == bad and how == "cut" else data))
        if how == "missing":
            os.remove(names[bad])
        if "analysis" in name:
            cj = lib.put(os.path.join(d, "conf.json"), json.dumps({"a": os.path.join(d, "in", "*.jsonl.gz"), "b": os.path.join(d, "in", f"{(bad + 1) % 3}.jsonl.gz")}))
            os.mkdir(os.path.join(d, "out"))
            cmd = [os.path.join(lib.REPO, "wimbd/text_and_url_overlaps/run_analysis.sh"), cj, os.path.join(d, "out"), name.split()[1]]
        else:
            cmd = [os.path.join(lib.REPO, H, name), *names]
        st, out, err = lib.shell(["bash", *cmd], d, timeout=100)
        count("runs")
        count("nontrivial")
        expect(st != 0, f"{it}: status 0 although a file could not be read: {err[-300:]}")
    return items, fn


def run(c):
    deep = c.thorough
    c.part("hashes of texts", *hashes(), budget=30)
    c.part("counting keys", *counting(3 if not deep else 5), limit=60, budget=60 if not deep else 300)
    c.part("counting URLs", *urls(2 if not deep else 4), limit=60, budget=40 if not deep else 300)
    c.part("filters of keys", *keys_scripts(), limit=60)
    c.part("intersections of three", *combinations(2, ["a", "b", "c"]), limit=60, budget=40)
    c.part("intersections of keys with blanks and the like", *combinations(3, ["a", "b"], ODDKEYS), limit=60, budget=60)
    c.part("intersections of two", *combinations(3, ["x_and_y", "b"]), limit=60, budget=40)
    c.part("intersections of five", *combinations(1, ["a", "b", "c", "d", "e"]), limit=60, budget=40)
    if deep:
        c.part("intersections of three, three keys", *combinations(3, ["a", "b", "c"]), limit=60, budget=200)
        c.part("intersections of four", *combinations(2, ["a", "b", "c", "d"]), limit=60, budget=200)
    c.part("duplicate counts", *dup_counts())
    c.part("examples", *examples(4 if not deep else 6))
    c.part("url examples", *url_examples())
    sets = [
        ([["a", "b"], ["a"]], [["b", "c"]]), ([["a"]], [["a"], ["a", "b"]], [["b"], ["a"]]), ([["a", "a", "a"]], [["b"]]), ([["A", "a"], ["a", "a/", "\u00e1"]], [["A", "\u00c1", "a/"], ["a", "a"]]),
        ([[str(i % 11) for i in range(30)]], [[str(i % 7) for i in range(20)], ["x"]], [[str(i) for i in range(5, 14)]]),
        # more keys than examples are retrieved for; key i occurs i + 1 times
        ([[f"k{i}" for i in range(44) for _ in range(i // 2)], [f"k{i}" for i in range(44) for _ in range(i + 1 - i // 2)]], [[f"k{i}" for i in range(40) for _ in range(40 - i)]]),
    ]
    text = [(s, o) for s in sets for o in (0, 1)] + [(([["a", None], ["a"]], [[None, None]]), 0)]
    url = [(s, o) for s in sets + [([["a b", "a c"], ["a b"]], [["a  b", "a"], ["a b"]])] for o in (0, 1)]
    c.part("files that cannot be read", *unreadable(), limit=120, budget=60)
    c.part("run_analysis.sh text", *analysis("text", text), limit=120, budget=120)
    c.part("run_analysis.sh url", *analysis("url", url), limit=120, budget=120)
    c.assumptions = ["sort, uniq, awk, sed, cut, jq are real, in the C.UTF-8 locale; GNU parallel and pv are stand-ins that run jobs in every order tried"]
