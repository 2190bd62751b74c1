"""Map / reduce counting analyses: every document counted once, whatever the files and their order."""
import datetime, itertools, json, os, re
import lib, stubs
from lib import Bad, expect, count, gz, lines, script, seqs, splits

URLS = ["http://a.com/x", "https://a.com/y.jpg", "HTTP://B.org", "ftp://x.de/y.png?q=/z.gif", "a.com/x", "", "mailto:x@y",
        "http://u:p@a.com:80/p.tar.gz#f.jpg", "//b.co.uk/a.b/c", "http://a.com/.jpg", "https://[::1]/v.jpeg", "x+y.z-1://h",
        "http://pics.jpg", "http://a.png?x=b.jpg", "http://a.b/c.png/", "http://a.b/?q=c.png", "http://a.b#c.jpg", "//c.jpg", "c.JPG"]


def scheme(u):
    m = re.match(r"([A-Za-z][A-Za-z0-9+.\-]*):", u)
    return m.group(1).lower() if m else ""


def parts(u):
    """RFC 3986 appendix B"""
    m = re.match(r"(?:([A-Za-z][A-Za-z0-9+.\-]*):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$", u, re.S)
    return m.group(1) or "", m.group(2) or "", m.group(3) or ""


def ext(u):
    name = parts(u)[2].rsplit("/", 1)[-1]
    stem = name.lstrip(".")
    e = stem.rsplit(".", 1)[1] if "." in stem else ""
    return e.lower() if e.lower() in ("jpg", "png", "jpeg") else "other"


class A:
    """An analysis: directory, documents to enumerate, {key: weight} of one document, how to read a result line."""

    def __init__(self, name, docs, classify, key, plain=False, fold=None, args=(), cwd=None):
        self.name, self.docs, self.classify, self.key, self.plain, self.fold, self.args, self.cwd = name, docs, classify, key, plain, fold, args, cwd

    def files(self):
        return f"wimbd/{self.name}/map_count.py", f"wimbd/{self.name}/reduce_count.py"


def one(k):
    return {k: 1}


def year(d):
    for k in ("date", "timestamp", "created"):
        if k in d:
            m = re.search(r"\b(\d{4})\b", d[k])
            return {m.group(1): 1}
    return {"None": 1}


def lengths(d):
    t = d["text"]
    if t is None:
        return {"text is None": 1}
    return {f"chars {len(t)}": 1, f"tokens {toks(t)}": 1}


def toks(t):
    """Maximal runs of word characters and maximal runs of characters that are neither word characters nor space."""
    n, prev = 0, " "
    for c in t:
        k = "w" if c.isalnum() or c == "_" else " " if c.isspace() else "p"
        if k != " " and k != prev:
            n += 1
        prev = k
    return n


def upt(d):
    host = parts(d["url"])[1]
    if not host:
        return {}
    n, prev = 0, None
    for c in d["text"]:
        w = c.isalnum() or c == "_"
        if w:
            n += prev is not True
        else:
            n += c != " "
        prev = w
    return {host: n}


def suffix(d):
    host = d["url"].split("//")[-1].split("/")[0].split(":")[0]
    for s in ("co.uk", "uk", "com", "org", "net", "io", "de"):
        if host == s or host.endswith("." + s):
            return {s: d["count"]}
    return {}


def lang(d):
    t = d["text"]
    if not t or not t.strip():
        return {}
    if len(t) > 99999:
        return {"long": 1}
    if "\x01bad" in t:
        return {}
    m = re.search(r"lang:(\w+)", t)
    return {m.group(1) if m and "?" not in t else "un": 1}


def simple(field):
    def f(rows):
        out = {}
        for r in rows:
            expect(set(r) == {field, "count"}, f"unexpected result line {r}")
            expect(r[field] not in out, f"key {r[field]!r} is reported twice")
            out[r[field]] = r["count"]
        return out
    return f


def schemes(rows):
    out = {}
    for r in rows:
        expect(len(r) == 1, f"unexpected result line {r}")
        (k, v), = r.items()
        expect(k not in out, f"key {k!r} is reported twice")
        out[k] = v
    return out


def exts(rows):
    """Whether JPG and jpg are one key is not stated anywhere: compare without case."""
    out, seen = {}, set()
    for r in rows:
        expect(r["ext"] not in seen, f"key {r['ext']!r} is reported twice")
        seen.add(r["ext"])
        out[r["ext"].lower()] = out.get(r["ext"].lower(), 0) + r["count"]
    return out


U = [{"url": u} for u in URLS]
DATES = [{"date": "2019-04-25T12:57:54Z"}, {"date": "2019-01-01"}, {"timestamp": "1999-12-31T23:59:59"}, {"created": "2021-06-01"},
         {"date": "2001-01-01", "timestamp": "1999-01-01"}, {"timestamp": "2020-02-29", "created": "1970-01-01"}, {"text": "x"},
         {"date": "25 April 1850"}, {"created": "2021-12-31T23:59:59+00:00", "date": "1066-10-14"}]
TEXTS = [{"text": t} for t in ("a", "a b", " a b ", "a, b!", "", None, "é_1 ß", "a\nb\tc", "...", "a" * 7, "don't", "\u3000x")]
UT = [{"url": u, "text": t} for u, t in (("http://a.com/x", "a"), ("http://a.com", "a b"), ("http://b.org", "a, b"), ("http://b.org/q", ""),
                                         ("x", "a b"), ("https://a.com", "a\nb"), ("http://c.de", "   "), ("http://A.com", "x x x"), ("http://b.org", "é"))]
HD = [{"url": u, "count": n} for u, n in (("a.com", 1), ("b.com", 2), ("c.co.uk", 10), ("localhost", 3), ("", 4), ("c.uk", 7), ("x.y.de:80", 99999999999), ("com", 5))]
LANG = [{"text": t} for t in ("lang:en x", "lang:fr", "lang:en ?", "none", "", None, " \n", "\x01bad lang:en", "lang:de " + "x" * 99990, "lang:en " + "x" * 99992,
                              "lang:en " + "x" * 99991)]
LINKS = [{"url": f"http://h/{p}"} for p in ("status/200", "status/204", "status/404", "status/500", "unreachable", "status/399", "status/400", "moved/status/200", "moved/status/404", "moved/unreachable")]
# what is no address at all, or leads nowhere
LINKS += [{"url": u} for u in ("h/status/200", "http:///status/200", "http://h/endless/status/200", "", "ftp://h/status/200", "http://[h/status/200", "https://h/certificate/status/200", "http://h/slow/status/200", "http://h/never/status/200")]

ALL = [
    A("scheme_counts", U, lambda d: one(scheme(d["url"])), None, fold=schemes),
    A("url_counts", U, lambda d: one(parts(d["url"])[1]), "url"),
    A("extension_counts", U + [{"url": "http://a/b.JPG"}, {"url": "http://a/b.Png/c"}], lambda d: one(ext(d["url"])), "ext", fold=exts),
    A("utterance_dates", DATES, year, "year"),
    A("sentence_lengths", TEXTS, lengths, "key"),
    A("url_per_tok_counts", UT, upt, "url"),
    A("high_level_domain_counts", HD, suffix, "high_level_domain", plain=True),
    A("language", LANG, lang, "language"),
    A("link_exists", LINKS, lambda d: one("True" if re.match(r"http://h/(moved/)?status/[123]", d["url"]) else "False"), "alive"),
]


def expected(a, docs):
    e = {}
    for d in docs:
        for k, n in a.classify(d).items():
            e[k] = e.get(k, 0) + n
    return e


_maps = {}


def run_map(a, docs):
    data = lines(docs)
    key = (a.name, data) if len(data) < 1000 else None
    if key and key in _maps:
        return _maps[key]
    d = lib.scratch()
    p = os.path.join(d, "f.jsonl.gz" if not a.plain else "f.jsonl")
    lib.put(p, data if a.plain else gz(data))
    r = script(a.files()[0], ["--in_file", p, *a.args], cwd=d)
    count("runs")
    expect(r.status == 0, lambda: f"the mapper failed on {docs!r:.500}: {r.trace or r.err}")
    if key:
        if len(_maps) > 100000:
            _maps.clear()
        _maps[key] = r.out
    return r.out


def run_reduce(a, text):
    r = script(a.files()[1], [], stdin=text)
    count("runs")
    expect(r.status == 0, lambda: f"the reducer failed on {text!r:.500}: {r.trace or r.err}")
    try:
        rows = lib.json_lines(r.out)
    except ValueError:
        raise Bad(f"not JSON lines: {r.out!r:.500}")
    return (a.fold or simple(a.key))(rows)


def map_bytes(a, data):
    d = lib.scratch()
    p = lib.put(os.path.join(d, "f.jsonl.gz" if not a.plain else "f.jsonl"), data)
    r = script(a.files()[0], ["--in_file", p, *a.args], cwd=d)
    count("runs")
    expect(r.status == 0, lambda: f"the mapper failed: {r.trace or r.err}")
    return r.out


def judge(a, files, order, outs=None):
    outs = outs or [run_map(a, f) for f in files]
    got = run_reduce(a, "".join(outs[i] for i in order))
    want = expected(a, [d for f in files for d in f])
    got = {k: v for k, v in got.items()}
    # a key whose total is zero need not be listed
    if {k: v for k, v in got.items() if v} != {k: v for k, v in want.items() if v} or not set(got) <= set(want):
        raise Bad(f"{a.name}: files {files!r:.1500} in order {order}: reported {got!r:.800}, counted directly {want!r:.800}")
    count("nontrivial", int(len(want) > 1))


def small(a, depth):
    def items():
        for seq in seqs(range(min(len(a.docs), 13)), 0, depth):
            yield (a.name, seq)

    def fn(it):
        seq = [a.docs[i] for i in it[1]]
        for nf in (1, 2):
            for files in splits(seq, nf):
                for order in itertools.permutations(range(nf)):
                    judge(a, files, order)
    return items, fn


def three(a):
    """Three files of one document each: every completion order."""
    def items():
        for seq in itertools.product(range(min(len(a.docs), 6)), repeat=3):
            yield (a.name, seq)

    def fn(it):
        files = [[a.docs[i]] for i in it[1]]
        for order in itertools.permutations(range(3)):
            judge(a, files, order)
    return items, fn


def stored(a):
    """The same documents stored in different ways, with unusual characters in a field the analysis does not use."""
    def items():
        for seq in itertools.chain(seqs(range(len(a.docs)), 0, 1), [tuple(range(len(a.docs))), tuple(range(len(a.docs))) * 30]):
            yield (a.name, seq)

    def fn(it):
        docs = [{**a.docs[i], "other": lib.ODD[(i + j) % len(lib.ODD)] + "|" + lib.ODD[j % len(lib.ODD)]} for j, i in enumerate(it[1])]
        docs = [d for d in docs if len(str(d.get("text"))) < 1000]
        for name, data in lib.styles(docs, a.plain):
            try:
                judge(a, [docs], (0,), [map_bytes(a, data)])
            except Bad as e:
                raise Bad(f"stored as {name}: {e}")
    return items, fn


# documents with a key of their own, as many as wanted
MANY = {
    "scheme_counts": lambda i: {"url": f"s{i}://h"},
    "url_counts": lambda i: {"url": f"http://h{i}.com/p"},
    "url_per_tok_counts": lambda i: {"url": f"http://h{i}.com/p", "text": "a b" if i % 3 else "c"},
    "sentence_lengths": lambda i: {"text": "a" * (i % 1009)},
    "utterance_dates": lambda i: {"date": "%04d-01-01" % (1000 + i % 9000)},
}


def many_keys(sz):
    """Many distinct keys, each seen again after all the others."""
    def items():
        for name in MANY:
            for n in sz:
                yield name, n

    def fn(it):
        name, n = it
        a = next(x for x in ALL if x.name == name)
        docs = [MANY[name](i) for i in range(n)]
        first, second = docs, docs[: n // 2] + docs[: 10]
        d = lib.scratch()
        outs = []
        for f in (first, second):
            outs.append(map_bytes(a, gz(lines(f))))
        got = run_reduce(a, outs[1] + outs[0])
        want = expected(a, first + second)
        if {k: v for k, v in got.items() if v} != want:
            diff = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            raise Bad(f"{name} with {len(want)} keys: {len(diff)} counts differ, such as {diff[:5]} (key, reported, counted directly)")
        count("nontrivial")
    return items, fn


def sizes(a, sz):
    def items():
        for n in sz:
            for step in (1, 5, 7):
                yield (a.name, n, step)

    def fn(it):
        _, n, step = it
        docs = [a.docs[i * step % len(a.docs)] for i in range(n)]
        docs = [d for d in docs if len(str(d.get("text"))) < 1000]
        judge(a, [docs[: n // 3], docs[n // 3:]], (1, 0))
    return items, fn


def chars(a, field):
    """Every character of the Basic Multilingual Plane's lower part, in the text."""
    def items():
        for c in range(0, 0x3000, 64):
            yield c

    def fn(c):
        for x in range(c, c + 64):
            ch = chr(x)
            u = ch.isalnum() or ch == "_"
            # \w and isalnum differ on marks and connectors: leave those out
            if bool(re.match(r"\w", ch)) != u:
                continue
            # line separators inside a text are escaped in JSON
            d = {"url": "http://a.com", "text": "a" + ch + " " + ch + ch + "b"}
            judge(a, [[d]], (0,))
    return items, fn


def unreadable():
    """One of three files cannot be read to its end: run.sh does not succeed."""
    def items():
        for a in ALL:
            for bad in range(3):
                for how in ("missing", "not JSON") if a.plain else ("cut", "missing", "not JSON"):
                    yield a.name, bad, how

    def fn(it):
        a = next(x for x in ALL if x.name == it[0])
        d = lib.scratch()
        docs = [x for x in a.docs if len(str(x.get("text"))) < 1000]
        names = []
        for i in range(3):
            data = lines(docs[i: i + 3])
            if i == it[1] and it[2] == "not JSON":
                data += "{\n"
            data = data if a.plain else gz(data)
            names.append(lib.put(os.path.join(d, f"part-{i}.jsonl.gz"), data[:-9] if i == it[1] and it[2] == "cut" else data))
        if it[2] == "missing":
            os.remove(names[it[1]])
        st, out, err = lib.shell(["bash", os.path.join(lib.REPO, "wimbd", a.name, "run.sh"), *names], d)
        count("runs", 4)
        count("nontrivial")
        expect(st != 0, f"{it}: {a.name}/run.sh: status 0 although a file could not be read: {err[-300:]}")
    return items, fn


def scripts():
    """The run.sh of every analysis: three files, every order in which the mappers can finish."""
    def items():
        for a in ALL:
            for order in range(6):
                yield a.name, order

    def fn(it):
        a = next(x for x in ALL if x.name == it[0])
        d = lib.scratch()
        n = len(a.docs)
        docs = [x for x in a.docs if len(str(x.get("text"))) < 1000]
        files = [docs[: n // 2], docs[n // 2:] + docs[:2], docs[1:4]]
        names = []
        for i, f in enumerate(files):
            p = os.path.join(d, f"part {i}.jsonl.gz" if i == 1 else f"part-{i}.jsonl.gz")
            lib.put(p, lines(f) if a.plain else gz(lines(f)))
            names.append(p)
        st, out, err = lib.shell(["bash", os.path.join(lib.REPO, "wimbd", a.name, "run.sh"), *names], d, order=it[1])
        count("runs", 4)
        expect(st == 0, f"{a.name}/run.sh failed ({st}): {err[-1500:]}")
        got = (a.fold or simple(a.key))(lib.json_lines(out))
        want = expected(a, [x for f in files for x in f])
        expect({k: v for k, v in got.items() if v} == {k: v for k, v in want.items() if v}, f"{a.name}/run.sh: reported {got!r}, counted directly {want!r}")
        count("nontrivial")
    return items, fn


def run(c):
    deep = c.thorough
    for a in ALL:
        c.part(f"{a.name}: small corpora", *small(a, 3 if not deep else 4), budget=25 if not deep else 120)
        c.part(f"{a.name}: three files", *three(a), budget=15)
        c.part(f"{a.name}: ways to store a file", *stored(a), budget=20)
        c.part(f"{a.name}: sizes", *sizes(a, [8, 64, 999, 1000, 1001, 2500] if not deep else [8, 64, 99, 100, 101, 999, 1000, 1001, 1999, 2000, 2001, 10000, 65536]))
    for a in ALL:
        if a.name in ("sentence_lengths", "url_per_tok_counts"):
            c.part(f"{a.name}: characters", *chars(a, "text"), budget=30)
    c.part("many distinct keys", *many_keys([70000] if not deep else [4097, 70000, 140000, 300000]), limit=60 if not deep else 200, budget=100)
    c.part("run.sh", *scripts(), limit=60)
    c.part("run.sh: files that cannot be read", *unreadable(), limit=60)
    c.assumptions = ["tldextract, uniseg, nltk, pycld2, requests are stand-ins (deterministic, with error cases); urllib, dateutil, gzip, json are real",
                     "GNU parallel hands over the output of one job at a time, in any order of jobs"]
