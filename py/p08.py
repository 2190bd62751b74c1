"""Retrieval from an index: every hit exactly once over all pages, documents behind random ids, connections."""
import itertools, json, os, random
import lib, fakees
from lib import Bad, expect, count, seqs


def pages(n, adds):
    """Documents with all assignments of dates, all page sizes, documents arriving before any of the requests."""
    def items():
        for k in range(n + 1):
            for dates in itertools.product((0, 1, 2, None) if k <= 4 else (0, 1), repeat=k):
                yield dates

    def fn(dates):
        m = lib.module("wimbd.es")
        k = len(dates)
        for size in range(1, k + 2):
            for add in [None] + (list(itertools.product(range(1, 4), (0, 2))) if adds and k <= adds else []):
                s, es = fakees.new()
                s.idx["x"], s.shards["x"], s.replicas["x"] = [], 1, 0
                for i, d in enumerate(dates):
                    s.add("x", f"d{i}", {"text": "a b", **({"date": d} if d is not None else {})})
                    s.add("x", f"n{i}", {"text": "c", "date": 1})
                if add:
                    st = {"n": 0}

                    def between(sv, what):
                        if what == "search":
                            st["n"] += 1
                            if st["n"] == add[0]:
                                sv.idx["x"].insert(0, fakees.Doc("new", {"text": "a", "date": add[1]}))
                    s.between = between
                r = lib.call(lambda: list(m.get_documents_containing_phrases("x", "a", num_documents=size, return_all_hits=True, es=es)))
                count("runs")
                what = f"dates {dates}, page size {size}, new document {add}"
                expect(r.exc is None, lambda: f"{what}: failed: {r.trace}")
                got = [h["_id"] for h in r.ns]
                expect(len(got) == len(set(got)), f"{what}: repeated hits {got}")
                expect(sorted(x for x in got if x != "new") == [f"d{i}" for i in range(k)], f"{what}: hits {got}")
                expect("new" not in got or add, f"{what}: {got}")
                for h in r.ns:
                    expect(h["_id"] == "new" or h["_source"]["text"] == "a b", f"{what}: {h}")
                keyed = [dates[int(x[1:])] for x in got if x != "new"]
                rank = [(d is None, d or 0) for d in keyed]
                expect(rank == sorted(rank), f"{what}: not in order of the sort field: {keyed}")
                expect(not s.pits, f"{what}: a point in time is left open")
                count("nontrivial", int(k > size))
    return items, fn


def sort_fields():
    def items():
        for f in ("date", "views"):
            for k in range(0, 6):
                yield f, k

    def fn(it):
        f, k = it
        m = lib.module("wimbd.es")
        for size in (1, 2, 3, 10):
            s, es = fakees.new()
            s.idx["x"], s.shards["x"], s.replicas["x"] = [], 1, 0
            for i in range(k):
                s.add("x", f"d{i}", {"text": "a", "date": 7, "views": 7 - i // 2} if f == "views" else {"text": "a", "date": 7 - i // 2, "views": 7})
            r = lib.call(lambda: [h["_id"] for h in m.get_documents_containing_phrases("x", ["a", "zz"], num_documents=size, return_all_hits=True, sort_field=f, es=es)])
            count("runs")
            expect(r.exc is None and sorted(r.ns) == [f"d{i}" for i in range(k)], lambda: f"{it}, page size {size}: {r.ns} {r.trace}")
            v = [int(x[1:]) // 2 for x in r.ns]
            expect(v == sorted(v, reverse=True), f"{it}: not in order: {r.ns}")
    return items, fn


def first_hits():
    def items():
        for k in (0, 1, 2, 5, 9, 10, 11, 20):
            for n in (None, 1, 2, 5, 10, 15, 10000):
                for index in ("x", "c4"):
                    yield k, n, index

    def fn(it):
        k, n, index = it
        m = lib.module("wimbd.es")
        for phrases, all_ in (("a", False), (["a", "b"], True), (["a", "b"], False), (["b a"], False)):
            s, es = fakees.new()
            s.idx[index], s.shards[index], s.replicas[index] = [], 1, 0
            for i in range(k):
                s.add(index, f"d{i}", {"text": ("a", "b", "a b", "b a", "c")[i % 5], "subset": ("en", "de")[i % 2]})
            kw = {} if n is None else {"num_documents": n}
            r = lib.call(lambda: list(m.get_documents_containing_phrases(index, phrases, all_phrases=all_, es=es, **kw)))
            count("runs")
            expect(r.exc is None, lambda: f"{it}: {r.trace}")
            ps = [phrases] if isinstance(phrases, str) else phrases

            def hit(t):
                h = [f" {p} " in f" {t} " for p in ps]
                return all(h) if all_ else any(h)
            want = {d.id for d in s.idx[index] if hit(d.src["text"]) and (index != "c4" or d.src["subset"] == "en")}
            got = [h["_id"] for h in r.ns]
            expect(len(got) == len(set(got)) == min(len(want), n or 10) and set(got) <= want, f"{it}, {phrases}, all {all_}: hits {got}, matching {sorted(want)}")
            count("nontrivial", int(bool(want)))
    return items, fn


def filtered(n):
    """All hits over several pages, with a subset, several phrases, any or all of them."""
    T = ("a", "b", "a b", "b a", "c")

    def items():
        for index in ("x", "c4"):
            for k in range(1, n + 1):
                for step in (1, 2, 3, 7):
                    for phr in ("a", ["a", "b"], ["b", "a", "zz"], ["a b"]):
                        for all_ in (False, True):
                            for f in (None, [{"subset": "en"}], [{"subset": "de"}], [{"subset": "en"}, {"views": 1}]):
                                yield index, k, step, phr, all_, f

    def fn(it):
        index, k, step, phr, all_, f = it
        m = lib.module("wimbd.es")
        s, es = fakees.new()
        s.idx[index], s.shards[index], s.replicas[index] = [], 1, 0
        for i in range(k):
            s.add(index, f"d{i}", {"text": T[i * step % 5], "subset": ("en", "de", "en")[i * step % 3], "views": i % 2, "date": i * step % 4})
        ps = [phr] if isinstance(phr, str) else phr

        def hit(src):
            h = [f" {p} " in f" {src['text']} " for p in ps]
            fs = (f or []) + [{"subset": "en"}] * (index == "c4")
            return (all(h) if all_ else any(h)) and all(src[a] == b for x in fs for a, b in x.items())
        want = sorted(d.id for d in s.idx[index] if hit(d.src))
        for size in (1, 2, 3, 5, k + 1):
            g = lambda: [h["_id"] for h in m.get_documents_containing_phrases(index, phr, num_documents=size, return_all_hits=True, all_phrases=all_, subset_filter=f and [dict(x) for x in f], es=es)]
            r = lib.call(g)
            count("runs")
            expect(r.exc is None and sorted(r.ns) == want, lambda: f"{it}, page size {size}: {r.ns}, should be {want}; {r.trace}")
            count("nontrivial", int(len(want) > size))
    return items, fn


def big():
    def items():
        for k in (99, 100, 101, 2500):
            for size in (50, 100, 1000, 10000):
                yield k, size

    def fn(it):
        k, size = it
        m = lib.module("wimbd.es")
        s, es = fakees.new()
        for i in range(k):
            s.add("x", f"d{i}", {"text": "a", "date": i % 3})
        r = lib.call(lambda: [h["_id"] for h in m.get_documents_containing_phrases("x", "a", num_documents=size, return_all_hits=True, es=es)])
        count("runs")
        expect(r.exc is None and len(r.ns) == k and set(r.ns) == {f"d{i}" for i in range(k)}, lambda: f"{it}: {r.ns and len(r.ns)} hits, {r.trace}")
    return items, fn


def with_config(d):
    """es_config.yml of the repository is somebody's private one: the program sees this one instead."""
    import builtins
    p = lib.put(os.path.join(d, "es_config.yml"), "cloud_id: here\napi_key: key\n")
    real = builtins.open

    def opener(f, *a, **k):
        try:
            n = os.fspath(f)
        except TypeError:
            n = ""
        if isinstance(n, str) and n.endswith("es_config.yml"):
            return real(p, *a, **k)
        return real(f, *a, **k)
    return real, opener


def random_docs():
    ids = ["x-0", "x-1", "a/b c-17", "x-0" + "y" * 60]

    def items():
        for names in (["re_a"], ["re_a", "laion2b-en-2"], ["laion2b-en-2"], ["re_a", ".hidden", "z"]):
            for target in names:
                for k in (1, 2, 4):
                    yield tuple(names), target, k

    def fn(it):
        import builtins, numpy as np
        names, target, k = it
        d = lib.scratch()
        real, opener = with_config(d)
        for fnm in ("random_documents", "random_access"):
            s, es = fakees.new()
            for n in names:
                for i in ids:
                    s.add(n, i, {"text": f"{n} {i}"})
            path = os.path.join(d, "ids.h5")
            fakees.H5.clear()
            with fakees.H5File(path, "w") as f:
                f.create_dataset("ids", data=ids[:k], maxshape=(None,), dtype=fakees.string_dtype())
            lib.put(path, "h5")
            builtins.open = opener
            seen = set()
            try:
                m = lib.module("wimbd.es.random_access" if fnm == "random_documents" else "wimbd.indexing")
                f = getattr(m, fnm)
                for q in range(60):
                    random.seed(q)
                    np.random.seed(q)
                    r = lib.call(lambda: f(target, d, q % 4 + 1) if fnm == "random_documents" else f(target, path))
                    count("runs")
                    if fnm == "random_documents" and target.startswith("."):
                        expect(r.status != 0, f"{it}: a hidden index was accepted")
                        continue
                    expect(r.exc is None, lambda: f"{fnm} {it}: failed: {r.trace}")
                    docs = r.ns if fnm == "random_documents" else [r.ns]
                    expect(len(docs) == (q % 4 + 1 if fnm == "random_documents" else 1), f"{fnm} {it}: {len(docs)} documents")
                    for x in docs:
                        expect(x.get("found") and x["_id"] in ids[:k] and x["_source"]["text"] == f"{target} {x['_id']}", f"{fnm} {it}: {x}")
                        seen.add(x["_id"])
                if not (fnm == "random_documents" and target.startswith(".")):
                    expect(seen == set(ids[:k]), f"{fnm} {it}: in 60 draws only {sorted(seen)} of {ids[:k]} came up")
                    count("nontrivial")
                if fnm == "random_documents":
                    r = lib.call(lambda: f("nowhere", d, 1))
                    expect(r.status != 0, f"{it}: an index that does not exist was accepted")
            finally:
                builtins.open = real
    return items, fn


def connections():
    """es_init: the client of the configuration that was named, whatever was asked for before."""
    CONF = {"a.yml": "cloud_id: A\napi_key: ka\n", "b.yml": "cloud_id: B\napi_key: kb\n", "c.yml": "cloud_id: C\n", "a2.yml": "cloud_id: A\napi_key: kb\n"}
    OPS = ["a.yml", "b.yml", "c.yml", "a2.yml", "direct", "none"]

    def items():
        for env in (None, "ke"):
            for ops in seqs(OPS, 1, 3):
                yield env, ops

    def fn(it):
        env, ops = it
        d = lib.scratch()
        for k, v in CONF.items():
            lib.put(os.path.join(d, k), v)
        fakees.new()
        old = os.environ.pop("ES_API_KEY", None)
        if env:
            os.environ["ES_API_KEY"] = env
        try:
            m = lib.module("wimbd.es")
            for o in ops:
                if o == "direct":
                    r = lib.call(lambda: m.es_init(None, "D", "kd"))
                    want = ("D", "kd")
                elif o == "none":
                    r = lib.call(lambda: m.es_init(os.path.join(d, "missing.yml")))
                    want = None
                else:
                    r = lib.call(lambda: m.es_init(os.path.join(d, o)))
                    want = {"a.yml": ("A", "ka"), "b.yml": ("B", "kb"), "a2.yml": ("A", "kb"), "c.yml": ("C", env) if env else None}[o]
                count("runs")
                if want is None:
                    expect(r.status != 0, f"{it}: {o} gave a client without credentials")
                else:
                    expect(r.exc is None, lambda: f"{it}: {o}: {r.trace}")
                    expect((r.ns.kw.get("cloud_id"), r.ns.kw.get("api_key")) == want, f"{it}: {o}: connected as {r.ns.kw}")
        finally:
            os.environ.pop("ES_API_KEY", None)
            if old is not None:
                os.environ["ES_API_KEY"] = old
    return items, fn


def listing():
    NAMES = ["a", "search-test-2", "x.search-test", "a.b", "c4", ".x", "search-test", "test-index-2", "metrics-endpoint.metadata_current_default", "re_pile"]

    def items():
        for k in range(len(NAMES) + 1):
            yield from itertools.combinations(NAMES, k)

    def fn(names):
        m = lib.module("wimbd.es")
        s, es = fakees.new()
        for i, n in enumerate(names):
            s.idx[n], s.shards[n], s.replicas[n] = [], 1, 0
            s.fields[n] = ["text", f"f{i}"]
            for j in range(i):
                s.add(n, f"d{j}", {"text": "x"})
        live = [n for n in names if not n.startswith(".") and n not in ("search-test", "test-index-2", "metrics-endpoint.metadata_current_default")]
        for mapping in (False, True):
            r = lib.call(lambda: m.get_indices(return_mapping=mapping, es=es))
            count("runs")
            if mapping and not live:
                continue        # the server would be asked for all mappings
            expect(r.exc is None, lambda: f"{names}: {r.trace}")
            want = {n: {"docs.count": str(names.index(n)), **({"properties": ["text", f"f{names.index(n)}"]} if mapping else {})} for n in live}
            expect(r.ns == want, f"{names}, mapping {mapping}: {r.ns}, should be {want}")
    return items, fn


def run(c):
    fakees.install()
    fakees.install_h5()
    deep = c.thorough
    c.part("pages: all dates and sizes", *pages(5 if not deep else 7, 4 if not deep else 5), budget=60 if not deep else 500)
    c.part("sort fields", *sort_fields())
    c.part("first hits", *first_hits())
    c.part("many hits", *big())
    c.part("pages of filtered hits", *filtered(8 if not deep else 14))
    c.part("random documents", *random_docs())
    c.part("connections", *connections())
    c.part("listing", *listing())
    c.assumptions = ["Elasticsearch and h5py are stand-ins; hits with equal sort values may be cut between pages at any place"]
