"""Batched classifiers: batch size, file boundaries and mapper order never change the result."""
import itertools, json, os, re
import lib
from lib import Bad, expect, count, gz, lines, script, seqs, splits

LONG = "bad " * 25000          # 100000 characters: over the limit
EDGE = ("bad " * 25000)[:99999]
CSV = "word,notes,categorization\nfoo,,harmless-minority\nba+r,,harmless-minority\nqux,,offensive-minority-reference\nzip zap,,offensive-minority-reference\nblub,,offensive-not-minority\nnope,,offensive-not-minority\n"
WORDS = {"harmless-minority": r"foo|ba+r", "offensive-minority-reference": r"qux|zip zap", "offensive-not-minority": r"blub|nope"}

PROF = ["bad", "good", "bad. good good", "good. bad!", "", None, " \n", "bad bad good", LONG, EDGE]
TAX = ["foo", "FOO baaar", "qux", "a Zip Zap b", "blub nope", "food qux1", "nope", "", None, "bar, bar; qux?", "qux a qux", "foo foo FOO baaar bar", "blub nope blub", "zip zap zip zap", "nope NOPE qux", "\tblub\n", LONG,
       *[f(w) for w in ("foo", "baar", "qux", "zip zap", "blub", "nope") for f in (lambda w: w + "y", lambda w: "y" + w, lambda w: f"({w})", lambda w: w.title() + "-" + w.upper())]]
SENT = ["he is good", "she is awful. he is good good", "the muslim is good", "christians are awful. jews good", "", None, "asian food is good. hispanic awful",
        "good", "he and she", "himself him awful awful", "she is mild", "he is mild mild. he is good", "x" * 100000]
MALE, FEMALE = ("he", "him", "his", "himself"), ("she", "her", "hers", "herself")
RELIGION, RACE = ("muslim", "christian", "athiest", "buddhist", "hindu", "jew"), ("asian", "hispanic", "latino")
LANG = ["lang:en x", "lang:fr", "lang:en ?", "none", "", None, " \n", "\x01bad lang:en", "lang:de " + "x" * 99992]


def skip(t):
    return not t or not t.strip()


def prof(t, sentences):
    if skip(t):
        return {}
    if len(t) > 99999:
        return {"long": 1}
    ps = re.findall(r"[^.!?]+[.!?]*", t) if sentences else [t]
    bad = any(p.lower().split().count("bad") > p.lower().split().count("good") for p in (x.strip() for x in ps))
    return {"profane" if bad else "not profane": 1}


def tax(t):
    if skip(t):
        return {}
    if len(t) > 99999:
        return {"long": 1}
    n = {k: len(re.findall(rf"(?<![\w])(?:{w})(?![\w])", t, re.I)) for k, w in WORDS.items()}
    r = {k: v for k, v in n.items() if v}
    r["profane" if n["offensive-minority-reference"] + n["offensive-not-minority"] else "not profane"] = 1
    return r


def lang(t):
    if skip(t):
        return {}
    if len(t) > 99999:
        return {"long": 1}
    if "\x01bad" in t:
        return {}
    m = re.search(r"lang:(\w+)", t)
    return {m.group(1) if m and "?" not in t else "un": 1}


def senti(t):
    """{term: (sum, count)}"""
    out = {}
    if skip(t) or len(t) > 99999:
        return out
    for s in re.findall(r"[^.!?]+[.!?]*", t):
        w = re.findall(r"\w+", s)
        pol = (w.count("good") - w.count("awful")) / 4 + w.count("mild") / 2**30
        hit = []
        hit += ["male" for x in MALE if x in w]
        hit += ["female" for x in FEMALE if x in w]
        hit += [x for x in RELIGION if x in w or x + "s" in w]
        hit += [x for x in RACE if x in s]
        for h in hit:
            a, b = out.get(h, (0, 0))
            out[h] = (a + pol, b + 1)
    return out


class B:
    def __init__(self, name, dir, texts, classify, field, args=(), mean=False):
        self.name, self.dir, self.texts, self.classify, self.field, self.args, self.mean = name, dir, texts, classify, field, list(args), mean


ALL = [
    B("profanity model", "profanity", PROF, lambda t: prof(t, False), "profanity"),
    B("profanity model per sentence", "profanity", PROF, lambda t: prof(t, True), "profanity", ["--per_sentence"]),
    B("profanity taxonomy", "profanity", TAX, tax, "profanity", ["--model", "taxonomy"]),
    B("language", "language", LANG, lang, "language"),
    B("sentiment", "sentiment_coocurrence", SENT, senti, None, mean=True),
]


def expected(b, texts):
    e = {}
    for t in texts:
        for k, v in b.classify(t).items():
            if b.mean:
                a = e.get(k, (0, 0))
                e[k] = (a[0] + v[0], a[1] + v[1])
            else:
                e[k] = e.get(k, 0) + v
    return {k: v[0] / v[1] for k, v in e.items()} if b.mean else e


def run_map(b, texts, bs, data=None):
    d = lib.scratch()
    os.mkdir(os.path.join(d, "resources"))
    lib.put(os.path.join(d, "resources/word_based_bias_list.csv"), CSV)
    p = lib.put(os.path.join(d, "f.json.gz"), data or gz(lines([{"text": t, "id": i} for i, t in enumerate(texts)])))
    r = script(f"wimbd/{b.dir}/map_count.py", ["--in_file", p, "--bs", bs, *b.args], cwd=d)
    count("runs")
    expect(r.status == 0, lambda: f"{b.name}, bs {bs}: the mapper failed on {texts!r:.500}: {r.trace or r.err}")
    return r.out


def run_reduce(b, text):
    r = script(f"wimbd/{b.dir}/reduce_count.py", [], stdin=text)
    count("runs")
    expect(r.status == 0, lambda: f"{b.name}: the reducer failed on {text!r:.500}: {r.trace or r.err}")
    rows = lib.json_lines(r.out)
    if b.mean:
        expect(len(rows) == 1, f"expected one line, got {r.out!r}")
        return rows[0]
    out = {}
    for x in rows:
        expect(set(x) == {b.field, "count"} and x[b.field] not in out, f"unexpected result line {x}")
        out[x[b.field]] = x["count"]
    return out


def judge(b, files, bs, data=None):
    text = "".join(run_map(b, f, bs, data) for f in files)
    want = expected(b, [t for f in files for t in f])
    if b.mean and not want:
        return          # what is printed when no term occurs at all is not stated
    got = run_reduce(b, text)
    if {k: v for k, v in got.items() if v or b.mean} != want:
        raise Bad(f"{b.name} --bs {bs}: files {[[t if t is None or len(t) < 100 else t[:20] + '...' + str(len(t)) for t in f] for f in files]!r:.1500}: reported {got!r:.800}, counted directly {want!r:.800}")
    count("nontrivial", int(len(want) > 1))


def small(b, n, depth, bss):
    def items():
        for seq in seqs(range(n), 0, depth):
            yield b.name, seq

    def fn(it):
        ts = [b.texts[i] for i in it[1]]
        for bs in bss:
            if bs <= len(ts) + 1:
                judge(b, [ts], bs)
    return items, fn


def all_texts(b):
    """Every text, alone and next to every other, in one file and in two."""
    def items():
        for seq in seqs(range(len(b.texts)), 1, 2):
            yield b.name, seq

    def fn(it):
        ts = [b.texts[i] for i in it[1]]
        for bs in (1, 2, 3):
            judge(b, [ts], bs)
        if len(ts) == 2:
            judge(b, [[ts[0]], [ts[1]]], 1000)
    return items, fn


def around():
    """Every listed word with every character before it, after it, and with longer endings."""
    ends = [chr(c) for c in range(32, 127)] + ["\u00e9", "\u200b", "\u00df", "\u0130", "\n", "\u4e00", "es", "ed", "ing", "er", "'s", "s'", "-s", "ism", "_x", "able"]
    b = ALL[2]

    def items():
        for w in ("foo", "baar", "qux", "zip zap", "blub", "nope"):
            for e in ends:
                yield w, e

    def fn(it):
        w, e = it
        judge(b, [[w + e, e + w, e + w + e, w.upper() + e + w, w + w]], 1000)
    return items, fn


# sentences a document can consist of
SENTENCE = {"profanity model": ("so bad it.", "all good here!", "bad good x?"), "profanity model per sentence": ("so bad it.", "all good here!", "bad good bad x?"),
            "profanity taxonomy": ("foo.", "qux!", "blub?", "zip zap"), "sentiment_coocurrence": ("he is good.", "she is awful!", "jews are good.", "a hispanic and he?"),
            "language": ("lang:en x.", "none!", "y z")}


def sentences(b, length):
    """Every document of up to so many sentences."""
    ss = SENTENCE.get(b.name) or SENTENCE[b.dir]

    def items():
        for n in range(1, length + 1):
            yield from ((b.name, q) for q in itertools.product(range(len(ss)), repeat=n))

    def fn(it):
        for sep in (" ", "\n"):
            judge(b, [[sep.join(ss[i] for i in it[1])]], 2)
    return items, fn


# words that decide the class, at the end or at the start of a long text
WORD = {"profanity": ("good ", "bad ", "foo ", "qux ", "blub "), "language": ("lang:en ", "lang:fr ", "lang:en ? "), "sentiment_coocurrence": ("he is good ", "he is awful ", "she is good ", "jews are good ")}


def lookalikes(b, sizes):
    """Texts that agree in their first or last n characters, or in both, or in length only, and differ in class."""
    def items():
        w = WORD[b.dir]
        for n in sizes:
            for x, y in itertools.permutations(range(len(w)), 2):
                yield b.name, n, x, y

    def fn(it):
        _, n, i, j = it
        w = WORD[b.dir]
        x, y = w[i], w[j]
        k = max(len(x), len(y))
        x, y = x.rjust(k), y.rjust(k)
        pad = ("z" * 9 + " ") * (n // 10) + " " * (n % 10)
        fs = [lambda q: pad + q, lambda q: q + pad, lambda q: pad[: n // 2] + q + pad[n // 2:]]
        for f in fs:
            if b.dir == "language" and len(f(x)) > 99999:
                continue
            for bs in (1, 2, 1000):
                judge(b, [[f(x), f(y), f(x)]], bs)
        judge(b, [[f(x) for f in fs], [f(y) for f in fs]], 1000)
    return items, fn


def stored(b):
    def items():
        n = len(b.texts)
        for k in range(n):
            yield b.name, (k, (k + 1) % n, (k * 3) % n)
        yield b.name, tuple(range(n)) * 5

    def fn(it):
        ts = [t for t in (b.texts[i] for i in it[1]) if t is None or len(t) < 1000]
        for name, data in lib.styles([{"text": t, "other": lib.ODD[(i + len(ts)) % len(lib.ODD)]} for i, t in enumerate(ts)]):
            try:
                judge(b, [ts], 2, data)
            except Bad as e:
                raise Bad(f"stored as {name}: {e}")
    return items, fn


def sizes(b, sz):
    def items():
        for n in sz:
            for bs in sorted({1, 2, 3, n - 1, n, n + 1, 1000} - {0, -1}) if n <= 5000 else (999, n):
                yield b.name, n, bs

    def fn(it):
        short = [t for t in b.texts if t is None or len(t) < 100]
        if it[1] > 5000:
            short = short[:9]
        judge(b, [[short[i * 5 % len(short)] for i in range(it[1])]], it[2])
    return items, fn


def run(c):
    deep = c.thorough
    for b in ALL:
        c.part(f"{b.name}: sequences x batch sizes", *small(b, 5, 4 if not deep else 6, (1, 2, 3, 4)), budget=30 if not deep else 180)
        c.part(f"{b.name}: texts", *all_texts(b), budget=30)
        c.part(f"{b.name}: sentences", *sentences(b, 4 if not deep else 5), budget=20 if not deep else 60)
        c.part(f"{b.name}: long texts that look alike", *lookalikes(b, [10, 100, 250, 1000, 1024, 4096, 20000, 90000] if not deep else [10, 16, 32, 64, 100, 128, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536, 90000]), budget=40 if not deep else 150)
        c.part(f"{b.name}: ways to store a file", *stored(b), budget=20)
        c.part(f"{b.name}: sizes", *sizes(b, [7, 10, 50, 999, 1000, 1001, 2001] + ([50003] if not deep else [5000, 10001, 50003, 65537, 100007])), budget=60)
    c.part("profanity taxonomy: what stands next to a word", *around())
    c.assumptions = ["profanity_check, spacy, spacytextblob, pycld2, pandas are stand-ins with deterministic classifiers; sentiments are multiples of 1/4 so that sums are exact"]
