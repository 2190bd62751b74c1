"""PII: one report per match of the documented patterns, except where the documented context rules exclude it."""
import itertools, json, os, re
import lib
from lib import Bad, expect, count, gz, lines, script, seqs

EMAIL = re.compile(r"[.\s@,?!;:)(]*([^\s@]+@[^\s@,?!;:)(]+?)[.\s@,?!;:)(]?[\s\n\r]")
PHONE = re.compile(r"\s+\(?(\d{3})\)?[-\. ]*(\d{3})[-. ]?(\d{4})")
URLRE = re.compile(r"(https?://(?:www\.|(?!www))[a-zA-Z0-9][a-zA-Z0-9-]+[a-zA-Z0-9]\.[^\s]{2,}|www\.[a-zA-Z0-9][a-zA-Z0-9-]+[a-zA-Z0-9]\.[^\s]{2,}"
                   r"|https?://(?:www\.|(?!www))[a-zA-Z0-9]+\.[^\s]{2,}|www\.[a-zA-Z0-9]+\.[^\s]{2,})")
OCTET = "(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)"
IP = re.compile(rf"(?:{OCTET}\.){{3}}{OCTET}")
NAMES = {"email": EMAIL, "phone_numbers": PHONE, "IP_addresses": IP}


def pii(text):
    """{kind: (least, most)}: a keyword within 50 characters excludes. Whether the blank or the bracket before a phone
    number is part of the match is not stated: either answer is accepted where it matters."""
    out = {k: [0, 0] for k in NAMES}
    t = text.lower()
    for m in EMAIL.finditer(t):
        who, dom = m.group(1).split("@")[:2]
        if not (who.strip() == "(" or "." not in dom):
            out["email"][0] += 1
            out["email"][1] += 1
    for kind, rx in (("phone_numbers", PHONE), ("IP_addresses", IP)):
        for m in rx.finditer(t):
            s, e = m.span()
            starts = {s}
            if kind == "phone_numbers":
                while t[s].isspace():
                    s += 1
                starts |= {s, m.start(1)}

            def excluded(s):
                w = t[max(0, s - 50): e + 50]
                return "isbn" in w or "doi" in w or "#" in w or (kind == "phone_numbers" and URLRE.search(w) is not None)
            ex = [excluded(s) for s in starts]
            out[kind][0] += not any(ex)
            out[kind][1] += not all(ex)
    return out


def run_docs(texts, data=None):
    d = lib.scratch()
    p = lib.put(os.path.join(d, "f.json.gz"), data or gz(lines([{"text": t} for t in texts])))
    r = script("wimbd/pii/map_count.py", ["--in_file", p, "--classifier", "regex"], cwd=d)
    count("runs")
    expect(r.status == 0, lambda: f"the mapper failed: {r.trace or r.err}")
    return r.out


def judge(texts, data=None):
    text = run_docs(texts, data)
    r = script("wimbd/pii/reduce_count.py", [], stdin=text)
    expect(r.status == 0, lambda: f"the reducer failed: {r.trace or r.err}")
    got = {}
    for x in lib.json_lines(r.out):
        expect(set(x) == {"pii", "count"} and x["pii"] not in got, f"unexpected result line {x}")
        got[x["pii"]] = x["count"]
    want = {k: [0, 0] for k in NAMES}
    for t in texts:
        if t:
            for k, (a, b) in pii(t).items():
                want[k][0] += a
                want[k][1] += b
    for k in NAMES:
        g = got.pop(k, 0)
        lo, hi = want[k]
        expect(lo <= g <= hi, f"texts {texts!r:.2500}: {g} {k} reported, the rules give {lo if lo == hi else (lo, hi)}")
    expect(not got, f"unknown kinds {got}")
    count("nontrivial", int(any(b for a, b in want.values())))


SEG = [" 555-123-4567", " (555) 123 4567 ", " 5551234567\n", "10.0.0.1", " 255.255.255.255 ", "joe@mail.com ", "(@b.c\n", "a@b ", " isbn ", "DOI", "#",
       "x" * 60 + " ", "w" * 20, " http://www.example.com/abc ", "\u0130" * 3, "joe@mail.com", "\n", ".", "1", "é@ü.de ", "joe@mail.. ", "(a@b.c "]


def segments(depth, seg):
    def items():
        yield from seqs(range(len(seg)), 0, depth)

    def fn(ix):
        judge(["".join(seg[i] for i in ix)])
    return items, fn


def distances():
    """A keyword before or after a number at every distance; the same number once near it, once far away."""
    def items():
        for kw in ("isbn", "doi", "#", "ISBN", "www.abc.com", "http://abc.com", "xyz"):
            for pi in (" 555-123-4567", "10.0.0.1", " 10.9.8.7 ", "192.168.100.200", "1.2.3.4", " (555) 123 4567", " 5551234567"):
                for d in range(0, 70):
                    yield kw, pi, d

    def fn(it):
        kw, pi, d = it
        for fill in ("x", " y"):
            f = (fill * d)[:d]
            far = " z" * 40
            judge([kw + " " + f + pi + " "])
            judge([pi + f + " " + kw + " "])
            judge([kw + f + pi + far + pi + " "])
            judge([pi + far + kw + f + pi + " "])
            judge([far + pi + far, kw + f + pi])
            judge(["\u0130" * 30 + far + pi + far + kw + " "])
    return items, fn


def many():
    def items():
        for n in (2, 10, 100, 1000):
            yield n

    def fn(n):
        seg = [s for s in SEG]
        judge([seg[i % len(seg)] + seg[(i * 7) % len(seg)] for i in range(n)] + ["", None, "  "])
        judge([" ".join(seg[3 + i % 3] for i in range(min(n, 300)))])
    return items, fn


# what a document must contain to be left out: (text, how often)
NOISE = [("." * 45, 1), ("." * 11 + " ", 51), ("!" * 99, 1), ("# # # # # # #", 1), ("?" * 7, 1), ("/ / / / / ", 51), ("," * 76, 1), (":)" * 52, 1), ("%", 1001), (";" * 121, 1)]


def left_out():
    """Documents at the limits of what is left out on purpose, alone and between others."""
    def items():
        for i in range(len(NOISE)):
            yield from ((i, w) for w in ("full", "one less", "one more", "at the start", "at the end", "in two documents"))
        yield from (("length", n) for n in (499_999, 500_000, 500_001, 1_000_000))

    def fn(it):
        mail = " joe@mail.com "
        if it[0] == "length":
            ts, want = [mail + "x " * ((it[1] - len(mail)) // 2) + "y" * (it[1] % 2)], it[1] <= 500_000
            expect(len(ts[0]) == it[1], "length of the generated text")
        else:
            (s, n), w = NOISE[it[0]], it[1]
            less = s * (n - 1) if n > 1 else s[:-1]
            ts = {"full": [mail + s * n + mail], "one less": [mail + less + mail], "one more": [mail + s * (n + 1) + mail], "at the start": [s * n + mail + mail],
                  "at the end": [mail + mail + s * n], "in two documents": [mail + less, mail + s[-1]]}[w]
            want = 2 * (w in ("one less", "in two documents"))
        for before, after in (([], []), (["a@b.c x"], ["1.2.3.4"])):
            out = run_docs(before + ts + after)
            got = (out or "").split()
            expect(got == ["email"] * (len(before) + want) + ["IP_addresses"] * len(after), lambda: f"{it}: reported {got[:9]} ({len(got)} lines), {len(before) + want} addresses are right")
        count("nontrivial")
    return items, fn


def stored():
    def items():
        for k in range(len(SEG)):
            yield k

    def fn(k):
        ts = [SEG[(k * i) % len(SEG)] + SEG[(k + i) % len(SEG)] for i in range(6)] + [None, ""]
        for name, data in lib.styles([{"text": t, "other": lib.ODD[(i + k) % len(lib.ODD)]} for i, t in enumerate(ts)]):
            try:
                judge(ts, data)
            except Bad as e:
                raise Bad(f"stored as {name}: {e}")
    return items, fn


def shell():
    def items():
        yield from range(6)

    def fn(order):
        d = lib.scratch()
        docs = [[" 555-123-4567", "joe@mail.com x"], [" call 555-123-4567 or 10.0.0.1", "isbn 555-123-4567"], ["joe@mail.com ann@mail.org "]]
        names = [lib.put(os.path.join(d, f"f{i}.gz"), gz(lines([{"text": t} for t in ts]))) for i, ts in enumerate(docs)]
        st, out, err = lib.shell(["bash", os.path.join(lib.REPO, "wimbd/pii/run.sh"), *names], d, order=order)
        count("runs", 4)
        expect(st == 0, f"run.sh failed ({st}): {err[-1500:]}")
        got = {x["pii"]: x["count"] for x in lib.json_lines(out)}
        expect(got == {"phone_numbers": 2, "IP_addresses": 1, "email": 3}, f"run.sh: {got}")
    return items, fn


def run(c):
    c.part("texts of segments", *segments(3 if not c.thorough else 4, SEG), budget=60 if not c.thorough else 500)
    c.part("distance to a keyword", *distances())
    c.part("many documents", *many())
    c.part("documents left out", *left_out(), limit=120)
    c.part("ways to store a file", *stored())
    c.part("run.sh", *shell(), limit=60)
    c.assumptions = ["the regular expressions for the three kinds and for URLs are the published ones, and so are the rules for documents that are left out"]
