"""Counting functions over an index: exactly the documents that match, whatever the arguments, batches and earlier calls."""
import copy, itertools, json, os, re, types
import lib, fakees
from lib import Bad, expect, count, seqs

WORDS = ("a", "b", "c")
TEXTS = ["", "a", "b", "a b", "b a", "a a", "a c b", "A, B!", "b b a", "a b a b", "c", "ab", "a c c b", "b c a"]
SUBSETS = ("en", "de", None)


def toks(t):
    return re.findall(r"[a-z0-9]+", t.lower())


def phrase_in(p, t, slop=0):
    p, t = toks(p), toks(t)
    if not p:
        return False
    if not slop:
        return any(t[i:i + len(p)] == p for i in range(len(t) - len(p) + 1))
    # moving terms: span of the shifted positions
    for pos in itertools.product(*[[i for i, x in enumerate(t) if x == y] for y in p]):
        if len(set(pos)) == len(pos):
            z = [x - i for i, x in enumerate(pos)]
            if max(z) - min(z) <= slop:
                return True
    return False


def universe():
    """Every text in every subset; the n-th document stands for 2**n equal ones, so a count names the set of documents."""
    s, es = fakees.new()
    docs = []
    for n in ("c4", "other"):
        k = 0
        for sub in SUBSETS:
            for t in TEXTS:
                src = {"text": t, "url": "u", "date": k}
                if sub:
                    src["subset"] = sub
                s.add(n, f"{n}{k}", src, weight=1 << k)
                docs.append((n, src, 1 << k))
                k += 1
    return s, es, docs


def show(n, docs, index):
    return [(s["text"], s.get("subset")) for i, s, w in docs if i == index and n & w]


def fits(src, index, filters):
    fs = list(filters or [])
    if index == "c4":
        fs.append({"subset": "en"})
    return all(all(src.get(k) == v for k, v in f.items()) for f in fs)


PHR = ["a", "b", "c", "a b", "b a", "a a", "A", "a, b", "x", "a b a", ""]
REG = ["a", "a|b", "[ab]+", "A", "x.*", ".", "b?"]
FILTERS = [None, [], [{"subset": "en"}], [{"subset": "de"}], [{"subset": "en"}, {"date": 3}], [{"subset": "de"}, {"subset": "en"}]]


def lists(al, n):
    for x in al:
        yield x
    for k in range(1, n + 1):
        for x in itertools.product(al, repeat=k):
            yield list(x)


def contained(n):
    def items():
        for index in ("other", "c4"):
            for p in lists(PHR, n):
                for all_ in (False, True):
                    for slop in (0, 1, 2):
                        yield index, p, all_, False, slop
            for p in lists(REG, 2):
                for all_ in (False, True):
                    yield index, p, all_, True, 0
    w = {}

    def fn(it):
        index, p, all_, rx, slop = it
        if not w:
            w["u"] = universe()
            w["m"] = lib.module("wimbd.es")
        s, es, docs = w["u"]
        ps = [p] if isinstance(p, str) else p

        def hit(t):
            if rx:
                h = [any(re.fullmatch(x, y, re.I) for y in toks(t)) for x in ps]
            else:
                h = [phrase_in(x, t, slop) for x in ps]
            return all(h) if all_ else any(h)
        for f in FILTERS if slop == 0 else FILTERS[:3]:
            arg = copy.deepcopy((p, f))
            r = lib.call(lambda: w["m"].count_documents_containing_phrases(index, arg[0], all_phrases=all_, is_regexp=rx, slop=slop, subset_filter=arg[1], es=es))
            count("runs")
            expect(r.exc is None, lambda: f"{it}, filter {f}: failed: {r.trace}")
            want = sum(x for i, d, x in docs if i == index and fits(d, index, f) and hit(d["text"]))
            expect(r.ns == want, lambda: f"{it}, filter {f}: counted {show(r.ns, docs, index)}, should be {show(want, docs, index)}")
            expect(arg == (p, f), f"{it}, filter {f}: the arguments were changed to {arg}")
            count("nontrivial", int(want > 0))
    return items, fn


def each(phr, nmax, batches):
    def items():
        for index in ("other", "c4"):
            for all_ in (False, True):
                for k in range(1, nmax + 1):
                    for b in batches:
                        yield index, all_, k, b
    w = {}

    def fn(it):
        index, all_, k, b = it
        if not w:
            w["u"] = universe()
            w["m"] = lib.module("wimbd.es")
        s, es, docs = w["u"]
        n = len(phr)
        ps = [phr[(i * 7 + k) % n] for i in range(k)]
        if all_:
            ps = [[p, phr[(i * 3) % n]][:1 + i % 2] for i, p in enumerate(ps)]
        for f in FILTERS:
            arg = copy.deepcopy((ps, f))
            r = lib.call(lambda: w["m"].count_documents_for_each_phrase(index, arg[0], batch_size=b, all_phrases=all_, subset_filter=arg[1], es=es))
            count("runs")
            expect(r.exc is None, lambda: f"{it}, filter {f}: failed: {r.trace}")
            want = [sum(x for i, d, x in docs if i == index and fits(d, index, f) and all(phrase_in(y, d["text"]) for y in (p if all_ else [p]))) for p in ps]
            expect(list(r.ns) == want, lambda: f"{it}, filter {f}, phrases {ps!r:.500}: {len(r.ns)} counts {[show(x, docs, index) for x in r.ns]!r:.1000}, should be {[show(x, docs, index) for x in want]!r:.1000}")
            expect(arg == (ps, f), f"{it}, filter {f}: the arguments were changed to {arg}")
            count("nontrivial", int(k > b))
    return items, fn


def one_phrase():
    def items():
        for index in ("other", "c4"):
            for p in PHR:
                yield index, p
    w = {}

    def fn(it):
        index, p = it
        s, es, docs = universe()
        r = lib.call(lambda: lib.module("wimbd.es").count_documents_for_each_phrase(index, p, es=es))
        count("runs")
        want = [sum(x for i, d, x in docs if i == index and fits(d, index, None) and phrase_in(p, d["text"]))]
        expect(r.exc is None and r.ns == want, lambda: f"{it}: {r.ns} {r.trace}")
    return items, fn


def unigrams(nd):
    """Small indices on one to three shards, with and without replicas: total occurrences."""
    T = ["a", "a b", "b", "a a b a", "c", "A a"]

    def items():
        for k in range(nd + 1):
            for ts in itertools.combinations_with_replacement(range(len(T)), k):
                for sh in (1, 2, 3):
                    for where in itertools.product(range(sh), repeat=k):
                        if sh > 1 and where and where[0] != 0 and sh != 3:
                            continue
                        yield ts, sh, where

    def fn(it):
        ts, sh, where = it
        m = lib.module("wimbd.es")
        for rep in (0, 1) if len(ts) < 3 else (0,):
            for index in ("other", "c4"):
                for f in (None, [{"subset": "en"}], [{"subset": "de"}]):
                    s, es = fakees.new()
                    s.idx[index], s.shards[index], s.replicas[index] = [], sh, rep
                    srcs = []
                    for i, (t, w) in enumerate(zip(ts, where)):
                        src = {"text": T[t], "subset": ("en", "de")[(i + t) % 2]}
                        s.add(index, f"d{i}", src, shard=w)
                        srcs.append(src)
                    arg = copy.deepcopy(f)
                    ug = (["a", "b", "zz"], ["b", "a", "b", "a"], ["c", "a", "c", "b"])[(len(ts) + sum(where)) % 3]
                    r = lib.call(lambda: m.count_total_occurrences_of_unigrams(index, ug if len(ts) != 1 else "a", subset_filter=arg, es=es))
                    count("runs")
                    what = f"documents {[(x, w) for x, w in zip(srcs, where)]} on {sh} shards, {index}, filter {f}"
                    expect(r.exc is None, lambda: f"{what}: failed: {r.trace}")
                    want = ug if len(ts) != 1 else ["a"]
                    expect(set(r.ns) == set(want), f"{what}: answers for {sorted(r.ns)}")
                    for u in want:
                        full = sum(toks(x["text"]).count(u) for x in srcs)
                        part = sum(toks(x["text"]).count(u) for x in srcs if fits(x, index, f))
                        expect(r.ns[u] == full if not f and index != "c4" else part <= r.ns[u] <= full, f"{what}: {u} occurs {r.ns[u]} times, in fact {full} ({part} in the subset)")
                        count("nontrivial", int(full > 0))
                    expect(arg == f, f"{what}: the filter was changed to {arg}")
    return items, fn


def sequences(depth):
    """Calls one after the other that share the list of filters: each answers as if it were the first."""
    CALLS = [(fnm, index, filt) for fnm in ("docs", "each", "get", "get all", "uni") for index in ("other", "c4") for filt in (0, 1)]

    def items():
        yield from seqs(range(len(CALLS)), 2, depth)
    w = {}

    def fn(ix):
        if not w:
            s, es = fakees.new()
            k = 0
            for n in ("c4", "other"):
                for sub in SUBSETS:
                    for t in ("a", "a b", "b"):
                        src = {"text": t, "date": k}
                        if sub:
                            src["subset"] = sub
                        s.add(n, f"{n}{k}", src)
                        k += 1
            w.update(s=s, es=es, first={})
        es = w["es"]

        def do(m, c, f):
            fnm, index, _ = c
            if fnm == "docs":
                return m.count_documents_containing_phrases(index, ["a", "b"], subset_filter=f, es=es)
            if fnm == "each":
                return m.count_documents_for_each_phrase(index, ["a", "b"], subset_filter=f, es=es)
            if fnm == "get":
                return sorted(h["_id"] for h in m.get_documents_containing_phrases(index, "a", subset_filter=f, es=es, num_documents=1000))
            if fnm == "get all":
                return sorted(h["_id"] for h in m.get_documents_containing_phrases(index, "a", subset_filter=f, es=es, return_all_hits=True, num_documents=2))
            return m.count_total_occurrences_of_unigrams(index, "a", subset_filter=f, es=es)

        def filters():
            return [[{"subset": "de"}], None]
        m = lib.module("wimbd.es")
        shared = filters()
        for n, i in enumerate(ix):
            if i not in w["first"]:
                r = lib.call(lambda: do(lib.module("wimbd.es"), CALLS[i], filters()[CALLS[i][2]]))
                w["first"][i] = r.ns if r.exc is None else r.trace
            r = lib.call(lambda: do(m, CALLS[i], shared[CALLS[i][2]]))
            count("runs")
            got = r.ns if r.exc is None else r.trace
            expect(r.exc is None and got == w["first"][i], lambda: f"calls {[CALLS[j] for j in ix[:n + 1]]}: the last one answers {got}, alone {w['first'][i]}; the filters are now {shared}")
    return items, fn


def contamination():
    """corpus_contamination.py: share of the instances found."""
    import sys, stubs
    rows = [("a", "b"), ("c", "a b"), ("x", "a"), ("b a", "b"), ("zz", "zz"), ("a", "c")]

    def items():
        for index in ("other", "c4"):
            for split in ("train", "test"):
                for fields in ("s1", "s2", "s1,s2", "s2,s1"):
                    for k in (1, 2, 5, 6, 59, 60, 61, 62, 121, 130):
                        yield index, split, fields, k

    def fn(it):
        index, split, fields, k = it
        s, es, docs = universe()
        data = {"train": [rows[i % 6] for i in range(k)], "test": [rows[(i * 5 + 2) % 6] for i in range(k + 1)]}
        ds = {sp: {f: [r[j] for r in v] for j, f in enumerate(("s1", "s2"))} for sp, v in data.items()}
        wb = types.SimpleNamespace(summary={})
        sys.modules["wandb"] = stubs.mod("wandb", init=lambda **k: None, run=wb)
        sys.modules["datasets"] = stubs.mod("datasets", load_dataset=lambda name, sub=None, **k: ds)
        r = lib.script("wimbd/es/corpus_contamination.py", ["--corpus", "x", "--index", index, "--fields", fields, "--split", split])
        count("runs")
        expect(r.status == 0, lambda: f"{it}: failed: {r.trace or r.err}")
        live = [d["text"] for i, d, x in docs if i == index and fits(d, index, None)]
        fs = [("s1", "s2").index(f) for f in fields.split(",")]
        n = sum(any(all(phrase_in(row[j], t) for j in fs) for t in live) for row in data[split])
        want = n / len(data[split])
        last = r.out.strip().split("\n")[-1]
        expect(float(last) == want, f"{it}: printed {last}, should be {n} of {len(data[split])}")
        sm = wb.summary
        expect(sm.get("n") == len(data[split]) and sm.get("count") == n and sm.get("percentage") == want, f"{it}: logged {sm}")
        count("nontrivial", int(0 < n < len(data[split])))
    return items, fn


def run(c):
    fakees.install()
    deep = c.thorough
    c.part("documents containing phrases", *contained(2 if not deep else 3), budget=60 if not deep else 400)
    c.part("one count per phrase", *each(PHR, 12 if not deep else 40, (1, 2, 3, 5, 500)))
    c.part("one phrase", *one_phrase())
    c.part("occurrences of terms", *unigrams(3 if not deep else 4), budget=60 if not deep else 300)
    c.part("sequences of calls", *sequences(2 if not deep else 3), budget=60)
    c.part("contamination", *contamination())
    c.assumptions = ["Elasticsearch is a stand-in: phrase, term, regexp and bool queries with their documented semantics on a word tokenizer; every answer of the server is complete",
                     "occurrences of terms with a filter on the subset: between the occurrences in the subset and in the whole index (which of the two is not documented)"]
